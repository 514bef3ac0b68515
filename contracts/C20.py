"""C20 a sweep samples every tree, every current leaf and the noise once"""
from pyvc.api import contract
from common import *
from C01 import SPLIT
from C07 import model_with, change, values

FN = SPLIT + ("bartpy.samplers.schedule.SampleSchedule.steps", "bartpy.samplers.modelsampler.ModelSampler.step", "bartpy.model.Model.refreshed_trees",
              "bartpy.model.Model.predict", "bartpy.tree.Tree.predict", "bartpy.tree.Tree.update_y", "bartpy.tree.Tree.leaf_nodes", "bartpy.tree.mutate")


class World(object):
    """what the recording samplers share"""
    pass


def residual(H, w, i):
    other = 0.0
    for j in range(len(w.specs)):
        if j != i:
            other = other + values(H, w.specs[j], w.X0, w.r)
    return H.at(w.y0, w.r) - other


class TreeSampler(Ghost):
    def __init__(self, H, w):
        self.H, self.w = H, w

    def step(self, model, tree):
        H, w = self.H, self.w
        i = len([e for e in w.log if e[0] == "tree"])
        H.ensures("not more tree steps than trees", i < len(w.trees))
        H.ensures("tree steps in order, each on its own tree", tree is w.trees[i] and model is w.model)
        for node in tree.nodes:
            H.ensures("tree step sees the residual of the other trees", H.eq(H.at(node.data.y.values, w.r), residual(H, w, i)))
        w.log.append(("tree", i, None))
        if w.mutate:
            change(H, "%s_%d" % (w.tag, i), w.n, w.p, tree, w.specs[i], True)
        return None


class LeafSampler(Ghost):
    def __init__(self, H, w):
        self.H, self.w = H, w

    def step(self, model, node):
        H, w = self.H, self.w
        ts = [e for e in w.log if e[0] == "tree"]
        H.ensures("a tree step comes first", len(ts) > 0)
        i = ts[-1][1]
        H.ensures("a leaf of the tree of this step, as it stands after it", model is w.model and any(node is l[0] for l in w.specs[i]))
        H.ensures("leaf step sees the residual of the other trees", H.eq(H.at(node.data.y.values, w.r), residual(H, w, i)))
        l = [l for l in w.specs[i] if l[0] is node][0]
        k = len(w.log)
        l[2] = H.real("new%s_%d" % (w.tag, k))
        node.set_value(l[2])
        w.log.append(("leaf", i, node))
        return l[2]


class NoiseSampler(Ghost):
    def __init__(self, H, w):
        self.H, self.w = H, w

    def step(self, model, sigma):
        H, w = self.H, self.w
        H.ensures("noise of this model", model is w.model and sigma is w.model.sigma)
        H.ensures("noise step sees the new values", H.eq(H.at(model.predict(), w.r), sum(values(H, s, w.X0, w.r) for s in w.specs)))
        w.log.append(("noise", None, None))
        return 1.0


def sweep(H, w, through):
    sched = H.mod("bartpy.samplers.schedule").SampleSchedule(TreeSampler(H, w), LeafSampler(H, w), NoiseSampler(H, w))
    if through:
        H.mod("bartpy.samplers.modelsampler").ModelSampler(sched).step(w.model, H.mod("bartpy.trace").TraceLogger())
    else:
        for name, f in sched.steps(w.model):
            f()
    k = len(w.trees)
    kinds = [e[0] for e in w.log]
    H.ensures("one step per tree", kinds.count("tree") == k)
    H.ensures("one noise step, the last of the sweep", kinds.count("noise") == 1 and kinds[-1] == "noise")
    at = [q for q, e in enumerate(w.log) if e[0] == "tree"] + [len(w.log) - 1]
    for i in range(k):
        drawn = [e[2] for e in w.log[at[i] + 1:at[i + 1]]]
        H.ensures("a value once for each leaf", same_set(drawn, [l[0] for l in w.specs[i]]))
    H.ensures("in-sample prediction reflects all new values", H.eq(H.at(w.model.predict(), w.r), sum(values(H, s, w.X0, w.r) for s in w.specs)))


def world(H, k, shaped, tag, mutate):
    w = World()
    w.n, w.p, w.X0, w.y0, w.model, w.trees, w.specs = model_with(H, k, shaped)
    w.r = H.index("r", w.n)
    w.log, w.tag, w.mutate = [], tag, mutate
    return w


class Sweep(object):
    """the state of a sweep: k tree steps taken, j leaves of the last of these trees drawn, noise steps taken.
    Tree i predicts before(i) until its step, anything (during(i)) until all its leaves are drawn, after(i) from then on."""
    k, j, noise = 0, 0, 0


class SweepTree(Ghost):
    def __init__(self, H, w, i):
        self.H, self.w, self.i, self.y = H, w, i, None

    def predict(self, X=None):
        H, w, i = self.H, self.w, self.i
        k, done, v = w.k, w.j == w.leaves(i), w.values
        return H.vector(w.n, lambda r: H.ite(H.or_(i < k - 1, H.and_(i == k - 1, done)), H.at(v[2], i, r), H.ite(i < k, H.at(v[1], i, r), H.at(v[0], i, r))))

    def update_y(self, y):
        self.y = y

    @property
    def leaf_nodes(self):
        """the leaves of the tree as it stands"""
        H, w = self.H, self.w
        stale = not bool(self.i < w.k)          # (its step has not been taken yet)
        ls = H.objects(w.leaves(self.i), lambda j: SweepLeaf(self, j, stale))

        def enter(j):
            w.j = j
        H.loop_invariant(ls, ("steps",), enter, lambda j: [("each leaf once", w.j == j)], lambda o: isinstance(o, (Sweep, SweepTree)))
        return ls

    @property
    def nodes(self):
        return self.leaf_nodes


class SweepLeaf(Ghost):
    def __init__(self, tree, j, stale):
        self.tree, self.j, self.stale = tree, j, stale


@contract("C20", functions=("bartpy.samplers.schedule.SampleSchedule.steps", "bartpy.model.Model.refreshed_trees", "bartpy.model.Model.predict"))
def any_number_of_trees_and_leaves(H):
    """a sweep, the first or a later one, over any number of trees of any number of leaves that change arbitrarily in their steps"""
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    y0 = H.copy(y)
    T = H.size("trees", 1, small=3)
    w = Sweep()
    w.n, w.leaves = n, H.counts("leaves", T, 1)
    w.values = [H.matrix("values%d" % q, T, n) for q in range(3)]
    trees = H.objects(T, lambda i: SweepTree(H, w, i))
    model = H.mod("bartpy.model").Model(H.mod("bartpy.data").Data(X, y), H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), trees=trees)
    now = lambda i, r: H.at(trees[i].predict(), r)
    state = lambda i, r, k, v: H.ite(i < k, H.at(v[2], i, r), H.at(v[0], i, r))
    r = H.index("r", n)

    class T_(Ghost):
        def step(self, model_, tree):
            H.ensures("tree step on the trees of this model, in order", model_ is model and bool(tree.i == w.k))
            H.ensures("all leaves of the tree before have been drawn", H.or_(w.k == 0, w.j == w.leaves(H.ite(w.k == 0, 0, w.k - 1))))
            others = H.sum(T, lambda q: state(q, r, w.k, w.values)) - H.at(w.values[0], tree.i, r)
            H.ensures("tree step sees the residual of the other trees", H.eq(H.at(tree.y, r), H.at(y0, r) - others))
            w.k, w.j = w.k + 1, 0

    class L_(Ghost):
        def step(self, model_, leaf):
            H.ensures("leaf step on the tree of this step, as it stands after it", model_ is model and not leaf.stale and bool(leaf.tree.i == w.k - 1))
            H.ensures("each leaf once", leaf.j == w.j)
            i = leaf.tree.i
            others = H.sum(T, lambda q: state(q, r, i, w.values)) - H.at(w.values[0], i, r)
            H.ensures("leaf step sees the residual of the other trees", H.eq(H.at(leaf.tree.y, r), H.at(y0, r) - others))
            w.j = w.j + 1

    class N_(Ghost):
        def step(self, model_, sigma):
            H.ensures("noise of this model, after all trees and leaves", H.and_(model_ is model and sigma is model.sigma, w.k == T, w.j == w.leaves(T - 1)))
            w.noise = w.noise + 1
            H.ensures("noise step sees the new values", H.eq(H.at(model.predict(), r), H.sum(T, lambda q: H.at(w.values[2], q, r))))
    sched = H.mod("bartpy.samplers.schedule").SampleSchedule(T_(), L_(), N_())
    later = H.flag("later_sweep")
    if H.proof:
        if not hasattr(model, "_prediction"):
            H.unsupported("no running prediction")
        if later:
            model._prediction = H.vector(n, lambda q: H.sum(T, lambda i: H.at(w.values[0], i, q)))
        fixed = {a: v for a, v in model.__dict__.items() if a != "_prediction"}

        def enter(k):
            w.k = k
            w.j = w.leaves(H.ite(k == 0, 0, k - 1))
            model._prediction = H.fresh_vector(n)

        def inv(k):
            same = set(model.__dict__) == set(fixed) | {"_prediction"} and all(model.__dict__[a] is v for a, v in fixed.items())
            return [("only the running prediction of the model changes", same), ("each tree once and in order", w.k == k), ("no noise step in between", w.noise == 0),
                    ("all leaves drawn", H.or_(k == 0, w.j == w.leaves(H.ite(k == 0, 0, k - 1)))),
                    ("the running prediction is the sum of the trees' current predictions", n,
                     lambda q: H.eq(H.at(model._prediction, q), H.sum(T, lambda i: state(i, q, k, w.values))))]
        H.loop_invariant(trees, ("refreshed_trees",), enter, inv, lambda o: o is model or o is model._prediction or isinstance(o, (Sweep, SweepTree)))
    elif later:
        w.values = [H.matrix("earlier", T, n), w.values[1], w.values[0]]
        for name, f in sched.steps(model):
            f()
        w.values = [w.values[2], w.values[1], H.matrix("values2", T, n)]
        w.k, w.j, w.noise = 0, 0, 0
    for name, f in sched.steps(model):
        H.ensures("the noise step is the last", w.noise == 0)
        f()
    H.ensures("every tree, every leaf and the noise", H.and_(w.k == T, w.j == w.leaves(T - 1), w.noise == 1))
    H.ensures("in-sample prediction reflects all new values", H.eq(H.at(model.predict(), r), H.sum(T, lambda q: H.at(w.values[2], q, r))))


@contract("C20", functions=FN, bound="at most 2 trees (the first of at most 1 internal node), any change of a tree by its step; any rows and columns", sizes={"n": 2, "p": 1}, max_paths=20000,
          shard=[("k", 2), ("through", 2)])
def one_sweep(H):
    k = H.pick("k", 2) + 1
    through = H.flag("through")
    w = world(H, k, 1 if not H.concrete else k, "1", True)
    sweep(H, w, through)


@contract("C20", functions=FN, bound="2 trees (3 at small sizes), no change of structure, two sweeps; any rows and columns", sizes={"n": 2, "p": 1}, max_paths=20000)
def two_sweeps(H):
    w = world(H, 2 if H.proof else 3 if not H.concrete else H.some(1, 5, 60), 1, "1", H.concrete)
    sweep(H, w, True)
    w.log, w.tag = [], "2"
    sweep(H, w, True)


@contract("C20", modes="c", functions=FN + ("bartpy.samplers.unconstrainedtree.treemutation.UnconstrainedTreeMutationSampler.step", "bartpy.samplers.leafnode.LeafNodeSampler.step", "bartpy.samplers.sigma.SigmaSampler.step"), conc_s=8)
def real_samplers(H):
    """the real samplers under a recorder, several sweeps"""
    np = H.np
    n, p = H.some(4, 15, 80), H.rng.randint(1, 3)
    X = np.array([[H._cov() for _ in range(p)] for _ in range(n)])
    y = np.array([H._real() for _ in range(n)])
    H.requires(y.max() > y.min() and any(X[:, j].max() > X[:, j].min() for j in range(X.shape[1])))
    H.inputs.update(X0=X.tolist(), y0=y.tolist())
    np.random.seed(H.rng.randrange(2 ** 31))
    data = H.mod("bartpy.data").Data(X.copy(), y.copy(), normalize=True)
    k = H.some(1, 4, 30)
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(0.001, 0.001, data.y.normalizing_scale), n_trees=k, initializer=None)
    norm = (y - y.min()) / (y.max() - y.min()) - 0.5

    def direct(t):
        out = np.zeros(n)
        for i in range(n):
            q = [x for x in t.nodes if x.depth == 0][0]
            while is_decision(H, q):
                c = q.most_recent_split_condition()
                q = q.left_child if X[i, c.splitting_variable] <= c.splitting_value else q.right_child
            out[i] = q.current_value
        return out
    log = []

    def target_ok(node, t):
        want = norm - sum((direct(u) for u in model.trees if u is not t), np.zeros(n))
        return bool(np.allclose(node.data.y.values, want, atol=1e-7))

    class Rec(Ghost):
        def __init__(self, kind, inner):
            self.kind, self.inner = kind, inner

        def step(self, mo, x):
            if self.kind == "tree":
                H.ensures("tree in order", x is model.trees[len([e for e in log if e[0] == "tree"])])
                H.ensures("tree sees the residual", all(target_ok(q, x) for q in x.nodes))
                log.append(("tree", x))
                return self.inner.step(mo, x)
            if self.kind == "leaf":
                t = [e[1] for e in log if e[0] == "tree"][-1]
                H.ensures("leaf of the current tree", any(x is q for q in t.leaf_nodes))
                H.ensures("leaf sees the residual", target_ok(x, t))
                log.append(("leaf", x, t))
                return self.inner.step(mo, x)
            H.ensures("noise sees the new prediction", bool(np.allclose(mo.predict(), sum(direct(t) for t in model.trees), atol=1e-9)))
            log.append(("noise", x))
            return self.inner.step(mo, x)
    ts = H.mod("bartpy.samplers.unconstrainedtree.treemutation").get_tree_sampler(0.5, 0.5)
    sched = H.mod("bartpy.samplers.schedule").SampleSchedule(Rec("tree", ts), Rec("leaf", H.mod("bartpy.samplers.leafnode").LeafNodeSampler()), Rec("noise", H.mod("bartpy.samplers.sigma").SigmaSampler()))
    ms = H.mod("bartpy.samplers.modelsampler").ModelSampler(sched)
    for sw in range(H.some(1, 6, 40)):
        del log[:]
        ms.step(model, H.mod("bartpy.trace").TraceLogger())
        H.ensures("one step per tree and one noise step", len([e for e in log if e[0] == "tree"]) == k and [e[0] for e in log].count("noise") == 1 and log[-1][0] == "noise")
        for t in model.trees:
            H.ensures("each leaf once", same_set([e[1] for e in log if e[0] == "leaf" and e[2] is t], t.leaf_nodes))
        H.ensures("prediction reflects the sweep", bool(np.allclose(model.predict(), sum(direct(t) for t in model.trees), atol=1e-9)))
