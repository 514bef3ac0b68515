"""C08 predictions are the sum over trees of the containing leaf's value"""
from pyvc.api import contract
from common import *
from C01 import SPLIT, RULE

TREE = SPLIT + RULE + ("bartpy.tree.Tree.predict", "bartpy.tree.Tree._out_of_sample_predict", "bartpy.tree.Tree.leaf_nodes", "bartpy.tree.Tree.update_y",
                       "bartpy.node.LeafNode.predict", "bartpy.node.LeafNode.set_value")
MODEL = ("bartpy.model.Model.predict", "bartpy.model.Model._out_of_sample_predict", "bartpy.model.Model.__init__")
SK = ("bartpy.sklearnmodel.SklearnModel.predict", "bartpy.sklearnmodel.SklearnModel._out_of_sample_predict", "bartpy.sklearnmodel.SklearnModel.from_extract",
      "bartpy.sklearnmodel.SklearnModel._combine_chains", "bartpy.data.Target.unnormalize_y")


def setup(H, k):
    n = H.size("n", 1, small=2)
    p = H.size("p", 1, small=2)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    ss = shapes_upto(k)
    shape = ss[H.pick("shape", len(ss))]
    X0 = H.copy(X)
    t, leaves = real_tree(H, X, y, n, p, shape)
    t = H.mod("bartpy.tree").Tree(reorder(H, t.nodes))
    return n, p, X, y, X0, t, leaves


@contract("C08", functions=TREE, bound="trees with at most 2 internal nodes, any number of rows and columns", sizes={"n": 2, "p": 1})
def tree_predicts_containing_leaf_in_sample(H):
    n, p, X, y, X0, t, leaves = setup(H, 2 if not H.concrete else 4)
    out = t.predict()
    H.ensures("length", H.len(out) == n)
    r = H.index("r", n)
    row = lambda v: H.at(X0, r, v)
    H.ensures("value of the containing leaf", H.eq(H.at(out, r), spec_value(H, leaves, row)))
    again = t.predict()
    H.ensures("repeated", H.eq(H.at(again, r), spec_value(H, leaves, row)))


@contract("C08", functions=TREE, bound="trees with at most 1 internal node, any number of rows and columns", sizes={"n": 2, "p": 1})
def tree_prediction_follows_changes(H):
    """values changed (before or after a cached prediction), then a target refresh: the new values are predicted"""
    n, p, X, y, X0, t, leaves = setup(H, 1 if not H.concrete else 3)
    if H.flag("predicted_before"):
        t.predict()
    for i, l in enumerate(leaves):
        if i == 0 or H.flag("change%d" % i):
            l[2] = H.real("w%d" % i)
            l[0].set_value(l[2])
    t.update_y(H.reals("y2", n))
    out = t.predict()
    r = H.index("r", n)
    H.ensures("value of the containing leaf after the refresh", H.eq(H.at(out, r), spec_value(H, leaves, lambda v: H.at(X0, r, v))))


@contract("C08", functions=TREE + ("bartpy.tree.mutate",), bound="trees with at most 1 internal node before the mutation", sizes={"n": 2, "p": 1})
def tree_prediction_follows_mutations(H):
    tree_mod, node, mut = H.mod("bartpy.tree"), H.mod("bartpy.node"), H.mod("bartpy.mutation")
    n, p, X, y, X0, t, leaves = setup(H, 1 if not H.concrete else 3)
    if H.flag("predicted_before"):
        t.predict()
    leaf, path, val = leaves[H.pick("leaf", len(leaves))]
    prunable = [d for d in t.nodes if is_decision(H, d) and is_leaf(H, d.left_child) and is_leaf(H, d.right_child)]
    if prunable and H.flag("prune"):
        d = prunable[0]
        gone = (d.left_child, d.right_child)
        w = H.real("w")
        new = node.LeafNode(d.split, depth=d.depth, value=w)
        paths = [q for (l, q, _) in leaves if l in gone]
        leaves = [x for x in leaves if x[0] not in gone] + [[new, paths[0][:-1], w]]
        tree_mod.mutate(t, mut.PruneMutation(d, new))
    else:
        v, s = H.index("gv", p), H.real("gs")
        dn = split(H, leaf, v, s)
        a, b = H.real("a"), H.real("b")
        dn.left_child.set_value(a)
        dn.right_child.set_value(b)
        leaves = [x for x in leaves if x[0] is not leaf] + [[dn.left_child, path + [(v, s, True)], a], [dn.right_child, path + [(v, s, False)], b]]
        tree_mod.mutate(t, mut.GrowMutation(leaf, dn))
    out = t.predict()
    r = H.index("r", n)
    H.ensures("value of the containing leaf after the mutation", H.eq(H.at(out, r), spec_value(H, leaves, lambda v: H.at(X0, r, v))))


@contract("C08", functions=TREE, bound="trees with at most 2 internal nodes, any number of rows and columns", sizes={"n": 1, "p": 1, "m": 2})
def tree_predicts_containing_leaf_out_of_sample(H):
    n, p, X, y, X0, t, leaves = setup(H, 2 if not H.concrete else 4)
    m = H.size("m", 1, small=2)
    Z = H.matrix("Z", m, p, finite=True)
    Z0 = H.copy(Z)
    out = t.predict(Z)
    H.ensures("length", H.len(out) == m)
    r = H.index("r", m)
    H.ensures("value of the containing leaf", H.eq(H.at(out, r), spec_value(H, leaves, lambda v: H.at(Z0, r, v))))


class PartData(Ghost):
    def __init__(self, mask):
        self.mask = mask

    def update_y(self, y):
        pass


class PartSplit(Ghost):
    """the rows of one node of a tree: `held(r)` of the n training rows, `selected(r)` of the m new ones"""

    def __init__(self, H, n, held, m, selected):
        self.H, self.n, self.held, self.m, self.selected = H, n, held, m, selected

    @property
    def data(self):
        return PartData(self.H.truths(self.n, lambda r: self.H.not_(self.held(r))))

    def condition(self, X=None):
        return self.H.truths(self.n, self.held) if X is None else self.H.truths(self.m, self.selected)


def any_tree(H, n, m):
    """a tree of any number of nodes in any order whose leaves partition the rows (C01): -> (tree, is leaf, leaf of a training row, leaf of a new row)"""
    node, tree = H.mod("bartpy.node"), H.mod("bartpy.tree")
    N = H.size("nodes", 1, small=4)
    kinds, values = H.bools("leaf", N), H.reals("value", N)
    home, home2 = H.counts("home", n, 0), H.counts("home2", m, 0)
    isleaf = lambda i: H.at(kinds, i)
    if H.concrete:
        leaves = [i for i in range(N) if isleaf(i)]
        if not leaves:
            H.requires(False)
        at, at2 = (lambda r: leaves[home(r) % len(leaves)]), (lambda r: leaves[home2(r) % len(leaves)])
    else:
        at, at2 = home, home2
        for size, f in ((n, at), (m, at2)):
            H.requires_forall(size, lambda r: H.and_(f(r) < N, isleaf(H.ite(f(r) < N, f(r), 0))))

    def make(i):
        s = PartSplit(H, n, lambda r: H.exact(at(r), i), m, lambda r: H.exact(at2(r), i))
        return node.LeafNode(s, value=H.at(values, i)) if isleaf(i) else node.DecisionNode(s, None, None)
    nodes = H.objects(N, make)
    return tree.Tree(nodes), nodes, N, values, isleaf, at, at2


@contract("C08", functions=("bartpy.tree.Tree.predict", "bartpy.tree.Tree._out_of_sample_predict", "bartpy.tree.Tree.leaf_nodes", "bartpy.tree.Tree.update_y",
                            "bartpy.node.LeafNode.predict", "bartpy.node.LeafNode.set_value"), sizes={"n": 2, "m": 2, "nodes": 2})
def any_tree_predicts_the_containing_leaf(H):
    """any number of nodes in any order; given that the leaves partition the rows (C01)"""
    n, m = H.size("n", 1, small=2), H.size("m", 1, small=2)
    t, nodes, N, values, isleaf, at, at2 = any_tree(H, n, m)
    r, q = H.index("r", n), H.index("q", m)
    out = t.predict()
    H.ensures("length", H.len(out) == n)
    H.ensures("value of the containing leaf", H.eq(H.at(out, r), H.at(values, at(r))))
    H.ensures("repeated", H.eq(H.at(t.predict(), r), H.at(values, at(r))))
    new = t.predict(H.matrix("Z", m, 1))
    H.ensures("length of the new prediction", H.len(new) == m)
    H.ensures("new rows: value of the containing leaf", H.eq(H.at(new, q), H.at(values, at2(q))))


@contract("C08", functions=("bartpy.tree.Tree.predict", "bartpy.tree.Tree.leaf_nodes", "bartpy.tree.Tree.update_y", "bartpy.node.TreeNode.update_y",
                            "bartpy.node.LeafNode.predict", "bartpy.node.LeafNode.set_value"), sizes={"n": 2, "m": 1, "nodes": 2})
def any_tree_prediction_follows_changes(H):
    """any number of nodes: a leaf's value is changed, before or after a cached prediction, and the target is refreshed"""
    n = H.size("n", 1, small=2)
    t, nodes, N, values, isleaf, at, at2 = any_tree(H, n, H.size("m", 1, small=1))
    if H.flag("predicted_before"):
        t.predict()
    j, w, r = H.index("j", N), H.real("w"), H.index("r", n)
    H.requires(isleaf(j))
    nodes[j].set_value(w)
    t.update_y(H.reals("y2", n))
    H.ensures("value of the containing leaf after the refresh", H.eq(H.at(t.predict(), r), H.ite(H.exact(at(r), j), w, H.at(values, at(r)))))


class GhostTree(Ghost):
    """a tree known only by its predictions"""

    def __init__(self, ins, outs):
        self.ins, self.outs = ins, outs
        self.nodes, self.leaf_nodes = [], []

    def predict(self, X=None):
        return self.ins if X is None else self.outs


@contract("C08", functions=MODEL)
def model_predicts_the_sum_over_trees(H):
    n, m, p = H.size("n", 1, small=2), H.size("m", 1, small=2), H.size("p", 1, small=1)
    k = H.size("trees", 1, small=2)
    ins, outs = H.matrix("ins", k, n), H.matrix("outs", k, m)
    model = H.mod("bartpy.model").Model(None, None, trees=H.objects(k, lambda i: GhostTree(H.row(ins, i), H.row(outs, i))))
    Z = H.matrix("Z", m, p)
    a, b = model.predict(), model.predict(Z)
    H.ensures("lengths", H.and_(H.len(a) == n, H.len(b) == m))
    r, q = H.index("r", n), H.index("q", m)
    H.ensures("in sample: sum over the trees", H.eq(H.at(a, r), H.sum(k, lambda i: H.at(ins, i, r))))
    H.ensures("out of sample: sum over the trees", H.eq(H.at(b, q), H.sum(k, lambda i: H.at(outs, i, q))))


class GhostModel(Ghost):
    """a recorded sample known only by its predictions"""

    def __init__(self, outs):
        self.outs = outs

    def predict(self, X=None):
        if X is None:
            raise ValueError("recorded samples hold no training data")
        return self.outs


@contract("C08", functions=SK)
def estimator_predicts_unnormalised_mean(H):
    """any number of chains, each with any number of recorded samples"""
    n, m, p = H.size("n", 2, small=2), H.size("m", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    a, b = H.index("a", n), H.index("b", n)
    H.requires(H.not_(H.eq(H.at(y, a), H.at(y, b))))
    lo, hi = argext(H, "lo", n, lambda k: H.at(y, k), False), argext(H, "hi", n, lambda k: H.at(y, k), True)
    ymin, ymax = H.at(y, lo), H.at(y, hi)
    sk = H.mod("bartpy.sklearnmodel").SklearnModel(n_trees=1, initializer=None, store_in_sample_predictions=True)
    C = H.size("chains", 1, small=2)
    K = H.counts("samples", C, 1)
    ins, outs = H.tensor("ins", C, K, n), H.tensor("outs", C, K, m)
    extract = H.objects(C, lambda c: {"model": H.objects(K(c), lambda j: GhostModel(H.vector(m, lambda r: outs(c, j, r)))),
                                      "acceptance": H.objects(K(c), lambda j: 0.5),
                                      "in_sample_predictions": H.objects(K(c), lambda j: H.vector(n, lambda r: ins(c, j, r)))})
    fit = sk.from_extract(extract, X, y)
    total = H.sum(C, lambda c: K(c) * 1.0)
    r, q = H.index("r", n), H.index("q", m)
    un = lambda z: ymin + (z + 0.5) * (ymax - ymin)
    H.lemma(total)
    a_, b_ = fit.predict(), fit.predict(H.matrix("Z", m, p))
    H.ensures("lengths", H.and_(H.len(a_) == n, H.len(b_) == m))
    H.ensures("in sample: un-normalised mean of the recorded predictions", H.eq(H.at(a_, r), un(H.sum(C, lambda c: H.sum(K(c), lambda j: ins(c, j, r))) / total)))
    H.ensures("new rows: un-normalised mean of the samples' predictions", H.eq(H.at(b_, q), un(H.sum(C, lambda c: H.sum(K(c), lambda j: outs(c, j, q))) / total)))


@contract("C08", modes="c", functions=TREE + MODEL + SK)
def histories(H):
    """random mutation / value / target histories, then in-sample and out-of-sample predictions against a direct evaluation"""
    import history
    np = H.np

    def after(s, m):
        if H.rng.random() < 0.5:
            s.tree.predict()
        if H.rng.random() < 0.5:
            for l in s.tree.nodes:
                if is_leaf(H, l):
                    l.set_value(H._real())
            s.tree.update_y(s.y)
    s = history.random_tree(H, steps=9, after=after)

    def direct(X):
        out = np.zeros(len(X))
        for i in range(len(X)):
            root = [x for x in s.tree.nodes if x.depth == 0][0]
            while is_decision(H, root):
                c = root.most_recent_split_condition()
                root = root.left_child if X[i, c.splitting_variable] <= c.splitting_value else root.right_child
            out[i] = root.current_value
        return out
    def deep(X):
        H.ensures("predict(X)", bool(np.allclose(s.tree.predict(X), direct(X))))
    deep(s.X)
    deep(np.array([[H._cov() for _ in range(s.X.shape[1])] for _ in range(7)]).reshape(7, -1))
    H.ensures("predict()", bool(np.allclose(s.tree.predict(), direct(s.X))))
    # several trees
    model = H.mod("bartpy.model").Model(None, None, trees=[s.tree, s.tree])
    H.ensures("model", bool(np.allclose(model.predict(), 2 * direct(s.X))))


@contract("C08", modes="c", functions=TREE + MODEL + SK + ("bartpy.sklearnmodel.SklearnModel.fit",), conc_s=12)
def fitted_estimator_is_consistent(H):
    """in-sample estimates and estimates for the training covariates agree"""
    np = H.np
    n, p = H.some(4, 12, 80), H.rng.randint(1, 3)
    X = np.array([[H._cov() for _ in range(p)] for _ in range(n)], dtype=float).reshape(n, p)
    y = np.array([H._real() for _ in range(n)], dtype=float)
    if len(set(y.tolist())) < 2 or len(set(map(tuple, X.tolist()))) < 2:
        H.requires(False)
    H.inputs.update(X=X.tolist(), y=y.tolist())
    sk = H.mod("bartpy.sklearnmodel").SklearnModel(n_trees=H.some(1, 4, 12), n_chains=H.rng.randint(1, 2), n_samples=H.some(2, 5, 30), n_burn=H.rng.randint(0, 3),
                                                    thin=1.0, store_in_sample_predictions=True, n_jobs=1)
    sk.fit(X, y)
    a, b = sk.predict(), sk.predict(X)
    H.ensures("in sample = training covariates", bool(np.allclose(a, b, rtol=1e-6, atol=1e-6 * max(1.0, float(np.abs(y).max())))))
