PRE = '''
import numpy as np
from bartpy.data import Data
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.node import LeafNode, DecisionNode, split_node
from bartpy.tree import Tree, mutate
from bartpy.mutation import GrowMutation, PruneMutation
from operator import le, gt
def root(X, y):
    return LeafNode(Split(Data(np.array(X, dtype=float), np.array(y, dtype=float))))
def grow(tree, leaf, v, s, vals=(1.0, 2.0)):
    d = split_node(leaf, (SplitCondition(v, s, le), SplitCondition(v, s, gt)))
    d.left_child.set_value(vals[0]); d.right_child.set_value(vals[1])
    mutate(tree, GrowMutation(leaf, d))
    return d
'''
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


seed("stale-prediction-after-prune", "C08",
     [("bartpy/tree.py", '''    tree.cache_up_to_date = False

    if mutation.kind == "prune":''', '''    if mutation.kind == "prune":'''),
      ("bartpy/tree.py", '''    if mutation.kind == "grow":
        tree.remove_node''', '''    if mutation.kind == "grow":
        tree.cache_up_to_date = False
        tree.remove_node''')],
     "an in-sample prediction, then an applied prune, then another in-sample prediction",
     "after a prune the tree keeps predicting the values of the leaves that are gone",
     '''
t = Tree([root([[0.], [1.], [2.]], [0., 1., 2.])])
d = grow(t, t.nodes[0], 0, 1.0)
assert t.predict().tolist() == [1., 1., 2.]
mutate(t, PruneMutation(d, LeafNode(d.split, depth=d.depth, value=5.0)))
assert t.predict().tolist() == [5., 5., 5.], t.predict()
''')

seed("child-inherits-splittable", "C05",
     [("bartpy/data.py", "self._splittable_variables = [x if x is False else None for x in splittable_variables]",
       "self._splittable_variables = [x for x in splittable_variables]")],
     "the parent's splittable variables were asked before the split and the child is constant in one of them",
     "a child reports a variable as splittable although it takes one value there",
     '''
r = root([[0., 0.], [0., 1.], [1., 2.]], [0., 1., 2.])
r.data.X.splittable_variables()
d = split_node(r, (SplitCondition(0, 0.0, le), SplitCondition(0, 0.0, gt)))
assert d.left_child.data.X.splittable_variables() == [1], d.left_child.data.X.splittable_variables()
assert d.right_child.data.X.splittable_variables() == []
''')

seed("relink-only-prunable-parents", "C06",
     [("bartpy/tree.py", '''    for node in tree.nodes:
        if node.right_child == mutation.existing_node:''', '''    for node in tree.prunable_decision_nodes:
        if node.right_child == mutation.existing_node:''')],
     "growing a leaf whose sibling is already a decision node",
     "the parent keeps pointing to the replaced leaf",
     '''
t = Tree([root([[0.], [1.], [2.], [3.]], [0., 1., 2., 3.])])
a = grow(t, t.nodes[0], 0, 1.0)
b = grow(t, a.left_child, 0, 0.0)
c = grow(t, a.right_child, 0, 2.0)
assert a.left_child is b and a.right_child is c
''')

seed("half-count-rounds-down", "C10",
     [("bartpy/samplers/sigma.py", "(model.data.X.n_obsv / 2.)", "(model.data.X.n_obsv // 2)")],
     "an odd number of observations",
     "the shape of the noise conditional is half an observation short",
     '''
from bartpy.model import Model
from bartpy.sigma import Sigma
from bartpy.samplers.sigma import SigmaSampler
seen = []
orig = np.random.gamma
np.random.gamma = lambda a, s=1.0, size=None: seen.append(a) or orig(a, s, size)
r = root([[0.], [1.], [2.]], [0., 1., 2.])
m = Model(r.data, Sigma(1.0, 1.0, 1.0), trees=[Tree([r])])
SigmaSampler().step(m, m.sigma)
assert seen == [2.5], seen
''')

seed("stump-value-changes-missed", "C07",
     [("bartpy/tree.py", "        self.cache_up_to_date = False\n        for node in self.nodes:\n            node.update_y(y)", "        self.cache_up_to_date = self.cache_up_to_date and len(self._nodes) == 1\n        for node in self.nodes:\n            node.update_y(y)")],
     "a tree that is a single leaf whose value changes while it is handed out",
     "the other trees are sampled against a stale prediction of that tree",
     '''
from bartpy.model import Model
from bartpy.sigma import Sigma
X, y = [[0.], [1.], [2.], [3.]], [0., 1., 2., 4.]
a, b = Tree([root(X, y)]), Tree([root(X, y)])
m = Model(Data(np.array(X), np.array(y)), Sigma(1., 1., 1.), trees=[a, b])
for i, t in enumerate(m.refreshed_trees()):
    if i == 1:
        assert np.allclose(t.nodes[0].data.y.values, np.array(y) - 0.75), t.nodes[0].data.y.values
    t.nodes[0].set_value(0.75)
''')

seed("shared-noise-in-records", "C14",
     [("bartpy/model.py", "Model(None, deepcopy(model.sigma), [", "Model(None, copy(model).sigma, [")],
     "a recorded sample is read after the live model's noise was drawn again",
     "all recorded samples share the live noise parameter",
     '''
from bartpy.model import Model, deep_copy_model
from bartpy.sigma import Sigma
r = root([[0.], [1.]], [0., 1.])
m = Model(r.data, Sigma(1., 1., 1.), trees=[Tree([r])])
m.sigma.set_value(0.25)
c = deep_copy_model(m)
m.sigma.set_value(0.75)
assert c.sigma.current_value() == 0.25
''')

seed("covariates-alias-callers", "C18",
     [("bartpy/sklearnmodel.py", "Data(deepcopy(X), deepcopy(y), normalize=True)", "Data(np.asarray(X), deepcopy(y), normalize=True)")],
     "the caller overwrites the training covariates after building the model, then asks for in-sample data",
     "the estimator keeps a reference to the caller's array",
     '''
from bartpy.sklearnmodel import SklearnModel
X, y = np.array([[0., 5.], [1., 6.], [2., 7.]]), np.array([0., 1., 2.])
s = SklearnModel(n_trees=1)
m = s._construct_model(X, y)
before = s.data.X.values.copy()
X[:, :] = 99.
assert (s.data.X.values == before).all()
''')

seed("mask-of-siblings-loses-ancestors", "C01",
     [("bartpy/data.py", "        return self.mask | column_mask", "        return (self.mask | column_mask) if other.operator == le else (np.logical_or(self.mask, column_mask) if self.mask.any() else column_mask & ~self.mask.all())")],
     "n/a", "n/a", "sys.exit(1)")
SEEDS.pop()

seed("ties-fall-between-children", "C01",
     [("bartpy/data.py", "column_mask = self.values[:, other.splitting_variable] <= other.splitting_value", "column_mask = self.values[:, other.splitting_variable] <= np.nextafter(other.splitting_value, np.inf)")],
     "two adjacent floats in one column, split at the smaller of them",
     "the observation just above the split value enters neither child",
     '''
a = 0.1; b = np.nextafter(a, 1.0)
r = root([[a], [b], [0.5]], [0., 1., 2.])
d = split_node(r, (SplitCondition(0, a, le), SplitCondition(0, a, gt)))
n = (~d.left_child.data.mask).astype(int) + (~d.right_child.data.mask).astype(int)
assert (n == 1).all(), n
''')

seed("redundant-upper-bound-wins", "C02",
     [("bartpy/splitcondition.py", "elif split_condition.operator == le and split_condition.splitting_value < self.max_value:", "elif split_condition.operator == le:")],
     "a later, looser 'less than or equal' condition on a variable already bounded from above",
     "the looser bound replaces the tighter one, so the node's rule selects too many rows",
     '''
from bartpy.splitcondition import CombinedCondition
c = CombinedCondition([0], [SplitCondition(0, 1.0, le), SplitCondition(0, 3.0, le)])
assert c.condition(np.array([[0.], [2.], [4.]])).tolist() == [True, False, False]
''')

seed("same-target-object-keeps-sum", "C03",
     [("bartpy/data.py", "        self._y = y\n        self.y_sum_cache_up_to_date = False", "        self.y_sum_cache_up_to_date = self.y_sum_cache_up_to_date and y is self._y\n        self._y = y")],
     "the caller changes the residual array in place and passes the same array again",
     "the node reports the sum of the array before it was changed",
     '''
y = np.array([0., 1., 2.])
r = root([[0.], [1.], [2.]], [0., 1., 2.])
r.update_y(y); assert r.data.y.summed_y() == 3.0
y += 1.0
r.update_y(y)
assert r.data.y.summed_y() == 6.0
''')

seed("tiny-range-not-normalised", "C04",
     [("bartpy/data.py", "        return -0.5 + ((y - y_min) / (y_max - y_min))", "        return -0.5 + ((y - y_min) / max(y_max - y_min, 1e-6))")],
     "a target whose range is below one millionth",
     "such targets are not mapped onto [-0.5, 0.5] and do not round trip",
     '''
y = np.array([0., 1e-7, 2e-7])
d = Data(np.zeros((3, 1)), y, normalize=True)
assert abs(d.y.values.max() - 0.5) < 1e-6, d.y.values
''')

seed("unnormalise-assumes-zero-min", "C04",
     [("bartpy/data.py", "        return self.original_y_max - self.original_y_min\n", "        return np.abs(self.original_y_max) + np.abs(self.original_y_min)\n")],
     "a target whose minimum and maximum have the same sign",
     "the scale handed to the noise parameter is not the range",
     '''
d = Data(np.zeros((3, 1)), np.array([10., 11., 14.]), normalize=True)
assert d.y.normalizing_scale == 4.0
''')

seed("share-counts-other-masked-rows", "C13",
     [("bartpy/data.py", "            return float(np.mean(self.get_column(variable) == value))", "            return float(np.sum(self.get_column(variable) == value)) / len(self.mask)")],
     "a split below the root on a column with repeated values",
     "the rule probability is taken relative to the whole training set",
     '''
r = root([[0., 0.], [0., 1.], [1., 1.], [1., 2.]], [0., 1., 2., 3.])
d = split_node(r, (SplitCondition(0, 0.0, le), SplitCondition(0, 0.0, gt)))
e = split_node(r, (SplitCondition(1, 0.0, le), SplitCondition(1, 0.0, gt)))
assert abs(e.right_child.data.X.proportion_of_value_in_variable(0, 1.0) - 2/3) < 1e-12
''')

seed("right-child-prior-from-left-depth", "C13",
     [("bartpy/samplers/unconstrainedtree/likihoodratio.py", '''    return np.log(1. - model.alpha * np.power(1 + node.depth, -model.beta))''',
       '''    return np.log(1. - model.alpha * np.power(max(1 + node.depth, 2), -model.beta))''')],
     "growing or pruning at the root",
     "the root's probability of staying a leaf uses depth one",
     '''
from bartpy.samplers.unconstrainedtree.likihoodratio import log_probability_node_not_split
class M: alpha, beta = 0.95, 2.0
r = root([[0.], [1.]], [0., 1.])
assert abs(log_probability_node_not_split(M, r) - np.log(0.05)) < 1e-12
''')

seed("prune-prior-counts-one-child", "C13",
     [("bartpy/samplers/unconstrainedtree/likihoodratio.py", '''        prob_updated_node_split = log_probability_node_split(model, proposal.existing_node)
''', '''        prob_updated_node_split = log_probability_node_split(model, proposal.existing_node.left_child)
''')],
     "any prune", "the prior ratio of a prune is no longer the negative of its grow's",
     '''
from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio as U
from bartpy.model import Model
from bartpy.sigma import Sigma
r = root([[0.], [1.], [2.]], [0., 1., 2.])
t = Tree([r]); m = Model(r.data, Sigma(1., 1., 1.), trees=[t])
d = split_node(r, (SplitCondition(0, 1.0, le), SplitCondition(0, 1.0, gt)))
g = U().log_tree_ratio(m, t, GrowMutation(r, d))
mutate(t, GrowMutation(r, d))
p = U().log_tree_ratio(m, t, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
assert abs(g + p) < 1e-9, (g, p)
''')

seed("likelihood-swaps-count-and-sum", "C12",
     [("bartpy/samplers/unconstrainedtree/likihoodratio.py", "    n_r = right_node.data.X.n_obsv\n", "    n_r = n - min(n_l, n // 2)\n")],
     "a left child holding more than half of the observations",
     "the right child's evidence is shrunk by a wrong count",
     '''
from bartpy.samplers.unconstrainedtree.likihoodratio import log_grow_ratio
from bartpy.sigma import Sigma
r = root([[0.], [1.], [2.]], [0., 1., 3.])
s = Sigma(1., 1., 1.); s.set_value(0.7)
d = split_node(r, (SplitCondition(0, 1.0, le), SplitCondition(0, 1.0, gt)))
def ml(y):
    C = 0.49 * np.eye(len(y)) + 0.3 ** 2
    return -0.5 * np.linalg.slogdet(2 * np.pi * C)[1] - 0.5 * np.dot(y, np.linalg.solve(C, y))
y = np.array([0., 1., 3.])
want = ml(y[:2]) + ml(y[2:]) - ml(y)
got = log_grow_ratio(r, d.left_child, d.right_child, s, 0.3)
assert abs(want - got) < 1e-9, (want, got)
''')

seed("accept-only-ratios-below-one", "C11",
     [("bartpy/samplers/unconstrainedtree/treemutation.py", "        mutation = self.sample(model, tree)\n        if mutation is not None:\n            mutate(tree, mutation)\n        return mutation",
       "        mutation = self.sample(model, tree)\n        if mutation is not None and mutation.existing_node in tree.nodes[:-1] + tree.leaf_nodes:\n            mutate(tree, mutation)\n        return mutation")],
     "an accepted prune of the decision node that was added last",
     "an accepted proposal is reported but not applied",
     '''
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler as S
r = root([[0.], [1.], [2.]], [0., 1., 2.])
t = Tree([r]); d = grow(t, r, 0, 1.0)
new = LeafNode(d.split, depth=d.depth)
class P:
    def propose(self, tree): return PruneMutation(d, new)
class L:
    def log_probability_ratio(self, *a): return 1.0
class U:
    def sample(self): return 0.5
assert S(P(), L(), U()).step(None, t) is not None
assert t.nodes == [new]
''')

seed("noise-kept-from-first-record", "C15",
     [("bartpy/sklearnmodel.py", "            combined[key] = np.concatenate([chain[key] for chain in extract], axis=0)", "            combined[key] = np.concatenate([chain[key] for chain in extract if len(chain[key]) == len(extract[0][key])], axis=0)")],
     "chains with different numbers of records",
     "chains that recorded a different number of samples than the first are dropped",
     '''
from bartpy.sklearnmodel import SklearnModel
out = SklearnModel._combine_chains([{"model": [1, 2]}, {"model": [3]}])
assert list(out["model"]) == [1, 2, 3]
''')

seed("burn-in-shortened-by-one", "C15",
     [("bartpy/samplers/modelsampler.py", "        for _ in tqdm(range(n_burn)):\n            self.step(model, trace_logger)", "        for _ in tqdm(range(1, max(n_burn, 1))):\n            self.step(model, trace_logger)")],
     "a chain with burn-in",
     "one burn-in sweep fewer than requested is run",
     '''
from bartpy.samplers.modelsampler import ModelSampler
n = []
class Sched:
    def steps(self, model):
        n.append(1)
        yield "Node", lambda: None
class M:
    def predict(self): return np.zeros(1)
from bartpy.trace import TraceLogger
ms = ModelSampler(Sched(), lambda: TraceLogger(f_model_log=lambda x: 1))
ms.samples(M(), 2, 3, thin=1.0)
assert len(n) == 5, n
''')

seed("grouping-assumes-one-chain", "C16",
     [("bartpy/runner.py", "        if i % n_chains == 0:\n            grouped_chains.append([])\n        grouped_chains[-1].append(x)", "        if i < len(X_s):\n            grouped_chains.append([])\n        grouped_chains[i % len(X_s)].append(x)")],
     "more than one chain and more than one data set",
     "chains are dealt out round robin instead of in blocks",
     '''
from bartpy.runner import convert_chains_models
class Fake:
    n_chains = 2
    def from_extract(self, e, X, y): return (list(e), X, y)
out = convert_chains_models(Fake(), ["a", "b"], [1, 2], [10, 11, 20, 21])
assert out == [([10, 11], "a", 1), ([20, 21], "b", 2)], out
''')

seed("threshold-kept-when-equal", "C17",
     [("bartpy/diagnostics/features.py", "        q_s.append(np.max(row))", "        q_s.append(np.max(row.values[1:]) if len(row) > 1 else np.max(row))")],
     "the first variable has the largest null proportion in a run",
     "the global threshold ignores the first variable",
     '''
from bartpy.diagnostics.features import global_thresholds
t = global_thresholds({0: [0.9, 0.8], 1: [0.1, 0.2]}, 1.0)
assert abs(t[0] - 0.9) < 1e-12, t
''')

seed("prune-replacement-keeps-child-depth", "C19",
     [("bartpy/samplers/unconstrainedtree/proposer.py", "    updated_node = LeafNode(node.split, depth=node.depth)", "    updated_node = LeafNode(node.split, depth=max(len(tree.decision_nodes) - 1, 0))")],
     "a prune in a tree whose number of decision nodes is not the depth of the pruned node plus one",
     "the replacement leaf of a prune has the wrong depth",
     '''
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_prune_mutation
t = Tree([root([[0.], [1.], [2.], [3.]], [0., 1., 2., 3.])])
a = grow(t, t.nodes[0], 0, 1.0); grow(t, a.left_child, 0, 0.0); grow(t, a.right_child, 0, 2.0)
m = uniformly_sample_prune_mutation(t)
assert m.updated_node.depth == m.existing_node.depth == 1
''')

seed("grow-may-leave-a-side-empty", "C19",
     [("bartpy/samplers/unconstrainedtree/proposer.py", "    split_value = node.data.X.random_splittable_value(split_variable)", "    split_value = np.random.choice(node.data.X.values[:, split_variable][node.data.X.values[:, split_variable] < node.data.X.max_value_of_column(split_variable)])")],
     "a leaf below the root that holds none of the smallest values of the chosen variable",
     "a rule may be drawn from outside the leaf and leave one side empty",
     '''
from bartpy.samplers.unconstrainedtree.proposer import sample_split_node
r = root([[float(i), 0.] for i in range(8)], list(range(8)))
d = split_node(r, (SplitCondition(0, 5.0, le), SplitCondition(0, 5.0, gt)))
np.random.seed(0)
for _ in range(60):
    e = sample_split_node(d.right_child)
    assert (~e.left_child.data.mask).sum() > 0 and (~e.right_child.data.mask).sum() > 0
''')

seed("leaves-listed-before-the-tree-step", "C20",
     [("bartpy/samplers/schedule.py", '''            yield "Tree", lambda: self.tree_sampler.step(model, tree)

            for leaf_node in tree.leaf_nodes:''', '''            leaf_nodes = tree.leaf_nodes
            yield "Tree", lambda: self.tree_sampler.step(model, tree)

            for leaf_node in leaf_nodes:''')],
     "an accepted grow or prune during the sweep",
     "leaf values are drawn for the leaves that existed before the tree step",
     '''
from bartpy.samplers.schedule import SampleSchedule
from bartpy.model import Model
from bartpy.sigma import Sigma
r = root([[0.], [1.], [2.]], [0., 1., 2.])
m = Model(r.data, Sigma(1., 1., 1.), trees=[Tree([r])])
seen = []
class T:
    def step(self, model, tree): grow(tree, tree.nodes[0], 0, 1.0)
class L:
    def step(self, model, leaf): seen.append(leaf)
class S:
    def step(self, model, sigma): pass
for k, f in SampleSchedule(T(), L(), S()).steps(m):
    f()
assert [id(x) for x in seen] == [id(x) for x in m.trees[0].leaf_nodes]
''')

seed("steps-bound-late", "C20",
     [("bartpy/samplers/schedule.py", '''            for leaf_node in tree.leaf_nodes:
                yield "Node", lambda: self.leaf_sampler.step(model, leaf_node)
''', '''            leaf_nodes = [x for x in tree.leaf_nodes if x.data.X.n_obsv > 1] or tree.leaf_nodes
            for leaf_node in leaf_nodes:
                yield "Node", lambda: self.leaf_sampler.step(model, leaf_node)
''')],
     "a tree with both a leaf of one observation and a larger leaf",
     "leaves of a single observation keep their old value",
     '''
from bartpy.samplers.schedule import SampleSchedule
from bartpy.model import Model
from bartpy.sigma import Sigma
r = root([[0.], [1.], [2.]], [0., 1., 2.])
t = Tree([r]); grow(t, r, 0, 0.0)
m = Model(r.data, Sigma(1., 1., 1.), trees=[t])
seen = []
class N:
    def step(self, model, x): return None
class L:
    def step(self, model, leaf): seen.append(leaf)
for k, f in SampleSchedule(N(), L(), N()).steps(m):
    f()
assert len(seen) == 2
''')

seed("model-residuals-scaled-by-max", "C21",
     [("bartpy/model.py", "        return self.data.y.unnormalized_y - self.data.y.unnormalize_y(self.predict())", "        return self.residuals() * np.abs(self.data.y.unnormalized_y).max()")],
     "a target whose range differs from its largest absolute value",
     "original-scale residuals use the wrong scale",
     '''
from bartpy.model import Model
from bartpy.sigma import Sigma
X = np.array([[0.], [1.], [2.]])
d = Data(X, np.array([10., 11., 14.]), normalize=True)
t = Tree([LeafNode(Split(d))])
m = Model(d, Sigma(1., 1., 4.), trees=[t])
assert np.allclose(m.unnormalized_residuals(), m.residuals() * 4.0)
''')

seed("imported-right-subtree-misplaced", "C22",
     [("bartpy/initializers/sklearntreeinitializer.py", "        right_child.set_value(sklearn_tree.value[right_child_index][0][0])", "        right_child.set_value(sklearn_tree.value[left_child_index + 1][0][0])")],
     "an sklearn tree whose left child is itself split",
     "the right child gets the value of the left child's first child",
     '''
from sklearn.tree import DecisionTreeRegressor
from bartpy.initializers.sklearntreeinitializer import map_sklearn_tree_into_bartpy
X = np.array([[0.], [1.], [2.], [3.]]); y = np.array([0., 10., 100., 101.])
sk = DecisionTreeRegressor(max_depth=2).fit(X, np.array([0., 50., 100., 100.]))
t = Tree([root(X, y)])
map_sklearn_tree_into_bartpy(t, sk.tree_)
assert np.allclose(t.predict(X), sk.predict(X)), (t.predict(X), sk.predict(X))
''')

seed("refill-keeps-a-draw", "C23",
     [("bartpy/samplers/scalar.py", '''        if probas is None:
            probas = [1.0 / len(values) for x in values]
        self._probas = probas''', '''        if probas is None:
            probas = [1.0 / len(values) for x in values]
        self._probas = sorted(probas)''')],
     "probabilities that are not given in increasing order",
     "the values are drawn with each other's probabilities",
     '''
from bartpy.samplers.scalar import DiscreteSampler
s = DiscreteSampler(["a", "b"], [1.0, 0.0], cache_size=5)
assert [s.sample() for _ in range(20)] == ["a"] * 20
''')

seed("permutation-shared-between-folds", "C24",
     [("bartpy/features/featureimportance.py", "            permuted_X = deepcopy(X)\n", "            permuted_X = permuted_train_X_s and X or deepcopy(X)\n")],
     "n/a", "n/a", "sys.exit(1)")
SEEDS.pop()

seed("null-trains-on-one-permutation", "C24",
     [("bartpy/features/featureimportance.py", "            permuted_train_X_s.append(permuted_X[train_index])", "            permuted_train_X_s.append(permuted_X[train_index] if len(permuted_train_X_s) % n_permutations == 0 else permuted_train_X_s[-1])")],
     "more than one permutation per fold",
     "the second and later permutations of a fold are scored with a model trained on the first",
     '''
import bartpy.features.featureimportance as fi
got = []
def fake(model, Xs, ys):
    got.extend(Xs)
    class M:
        def rmse(self, X, y): return (X, y)
    return [M() for _ in Xs]
fi.run_models = fake
X = np.arange(24.).reshape(12, 2); y = np.arange(12.)
np.random.seed(1)
out = fi.null_rmse_distribution(None, X, y, 0, 2, 3)
for tr, (te, _) in zip(got, out):
    assert sorted(np.concatenate([tr[:, 0], te[:, 0]])) == sorted(X[:, 0])
''')

seed("ols-in-sample-uses-stale-fit", "C25",
     [("bartpy/extensions/ols.py", "        self.stat_model_fit = self.stat_model(y, X).fit()", "        self.stat_model_fit = self.stat_model_fit or self.stat_model(y, X).fit()")],
     "fitting the same estimator a second time on other data",
     "the base model of the first fit is kept",
     '''
from bartpy.extensions.ols import OLS
class Fit:
    def __init__(self, y, X): self.m = y.mean(); self.resid = y - self.m
    def predict(self, X): return np.full(len(X), self.m)
class Stat:
    def __init__(self, y, X): self.a = (y, X)
    def fit(self): return Fit(*self.a)
m = OLS(Stat, n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1.0, n_jobs=1)
X = np.array([[0.], [1.], [2.], [3.]])
m.fit(X, np.array([0., 1., 2., 3.]))
m.fit(X, np.array([10., 11., 12., 13.]))
assert m.stat_model_fit.m == 11.5
''')

seed("normal-draws-from-prior-when-small", "C09",
     [("bartpy/samplers/leafnode.py", "        likihood_var = (model.sigma.current_value() ** 2) / n", "        likihood_var = (model.sigma.current_value() ** 2) / max(n, 2)")],
     "a leaf with a single observation",
     "the posterior of single-observation leaves uses the variance of two observations",
     '''
from bartpy.samplers.leafnode import LeafNodeSampler
class S:
    def current_value(self): return 0.5
class M:
    sigma_m = 0.25; sigma = S()
class Z:
    def sample(self): return 1.0
l = root([[0.]], [0.4])
v = LeafNodeSampler(Z()).sample(M(), l)
pv = 1 / (1 / 0.0625 + 1 / 0.25)
assert abs(v - (pv * 0.4 / 0.25 + np.sqrt(pv))) < 1e-12, v
''')

seed("leaf-prior-per-power-of-two", "C09",
     [("bartpy/model.py", "        return 0.5 / (self.k * np.power(self.n_trees, 0.5))", "        return 0.5 / (self.k * np.power(max(self.n_trees, 2), 0.5))")],
     "a model of a single tree",
     "the leaf prior of a one-tree model is that of a two-tree model",
     '''
from bartpy.model import Model
from bartpy.sigma import Sigma
r = root([[0.], [1.]], [0., 1.])
m = Model(r.data, Sigma(1., 1., 1.), trees=[Tree([r])])
assert abs(m.sigma_m - 0.25) < 1e-12
''')

seed("estimator-averages-in-chunks", "C08",
     [("bartpy/sklearnmodel.py", "        return self.data.y.unnormalize_y(np.mean([x.predict(X) for x in self._model_samples], axis=0))", "        return self.data.y.unnormalize_y(np.mean([x.predict(X) for x in (self._model_samples if len(self._model_samples) < 3 else self._model_samples[1:])], axis=0))")],
     "three or more recorded samples",
     "the first recorded sample is left out of the prediction",
     '''
from bartpy.sklearnmodel import SklearnModel
class S:
    def __init__(self, v): self.v = v
    def predict(self, X): return np.full(len(X), self.v)
s = SklearnModel(n_trees=1)
s.data = Data(np.zeros((2, 1)), np.array([0., 2.]), normalize=True)
s._model_samples = [S(-0.5), S(0.), S(0.5)]
assert np.allclose(s.predict(np.zeros((2, 1))), 1.0)
''')
