"""C07 each tree is sampled against the residual of all other trees"""
from pyvc.api import contract
from common import *
from C01 import SPLIT

FN = SPLIT + ("bartpy.model.Model.refreshed_trees", "bartpy.model.Model.predict", "bartpy.tree.Tree.update_y", "bartpy.tree.Tree.predict",
              "bartpy.node.TreeNode.update_y", "bartpy.data.Target.update_y", "bartpy.model.Model.initialize_trees", "bartpy.model.Model.__init__")


def values(H, leaves, X0, r):
    return spec_value(H, leaves, lambda v: H.at(X0, r, v))


def check_yield(H, what, tree, i, trees, specs, X0, y0, r):
    other = 0.0
    for j in range(len(specs)):
        if j != i:
            other = other + values(H, specs[j], X0, r)
    H.ensures(what + ": handed out in order", tree is trees[i])
    for node in tree.nodes:
        H.ensures(what + ": target of every node is the residual of the other trees", H.eq(H.at(node.data.y.values, r), H.at(y0, r) - other))


def model_with(H, k, max_shape):
    n = H.size("n", 1, small=2)
    p = H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    X0, y0 = H.copy(X), H.copy(y)
    data = H.mod("bartpy.data").Data(X, y)
    trees, specs = [], []
    for i in range(k):
        shape = [None, (None, None)][H.pick("shape%d" % i, 2)] if i < max_shape else None
        t, leaves = real_tree(H, H.copy(X0), H.copy(y0), n, p, shape, tag="_%d" % i)
        trees.append(t)
        specs.append(leaves)
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), trees=trees)
    return n, p, X0, y0, model, trees, specs


def change(H, tag, n, p, tree, leaves, mutate_ok):
    """what a sampler may do to the tree it was handed"""
    tree_mod, node, mut = H.mod("bartpy.tree"), H.mod("bartpy.node"), H.mod("bartpy.mutation")
    k = H.pick("change" + tag, 3 if mutate_ok else 2)
    if k == 1:
        for j, l in enumerate(leaves):
            l[2] = H.real("w%s_%d" % (tag, j))
            l[0].set_value(l[2])
    elif k == 2:
        ds = [d for d in tree.nodes if is_decision(H, d)]
        if ds:
            d = ds[0]
            w = H.real("pw" + tag)
            new = node.LeafNode(d.split, depth=d.depth, value=w)
            tree_mod.mutate(tree, mut.PruneMutation(d, new))
            leaves[:] = [[new, leaves[0][1][:-1], w]]
        else:
            leaf = leaves[0]
            v, s = H.index("gv" + tag, p), H.real("gs" + tag)
            dn = split(H, leaf[0], v, s)
            a, b = H.real("ga" + tag), H.real("gb" + tag)
            dn.left_child.set_value(a)
            dn.right_child.set_value(b)
            tree_mod.mutate(tree, mut.GrowMutation(leaf[0], dn))
            leaves[:] = [[dn.left_child, leaf[1] + [(v, s, True)], a], [dn.right_child, leaf[1] + [(v, s, False)], b]]


def sweep(H, tag, n, p, X0, y0, model, trees, specs, r, mutate_ok):
    i = 0
    for tree in model.refreshed_trees():
        H.ensures("not more trees than there are", i < len(trees))
        check_yield(H, "sweep " + tag, tree, i, trees, specs, X0, y0, r)
        change(H, "%s_%d" % (tag, i), n, p, tree, specs[i], mutate_ok)
        i += 1
    H.ensures("every tree handed out", i == len(trees))


class World(object):
    """trees as the sweep sees them: tree i predicts before(i) until its turn, after(i) from then on; k trees have had their turn"""
    k = 0


class StepTree(Ghost):
    """a tree known by its predictions and by the target it was last given"""

    def __init__(self, H, w, i):
        self.H, self.w, self.i, self.y = H, w, i, None

    def predict(self, X=None):
        H, w, i = self.H, self.w, self.i
        k, before, after = w.k, w.before, w.after
        return H.vector(w.n, lambda r: H.ite(i < k, after(i, r), before(i, r)))

    def update_y(self, y):
        self.y = y


@contract("C07", functions=("bartpy.model.Model.refreshed_trees", "bartpy.model.Model.predict", "bartpy.model.Model.__init__"))
def any_number_of_trees(H):
    """one sweep, the first or a later one, over any number of trees that change arbitrarily when it is their turn"""
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    y0 = H.copy(y)
    T = H.size("trees", 1, small=3)
    w = World()
    w.n = n
    values = [H.matrix("values%d" % j, T, n) for j in range(3)]
    at = lambda j: (lambda i, r: H.at(values[j], i, r))
    w.before, w.after = at(1), at(2)
    w.now = lambda i, r: H.ite(i < w.k, w.after(i, r), w.before(i, r))
    trees = H.objects(T, lambda i: StepTree(H, w, i))
    model = H.mod("bartpy.model").Model(H.mod("bartpy.data").Data(X, y), H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), trees=trees)
    total = lambda r: H.sum(T, lambda j: w.now(j, r))
    later = H.flag("later_sweep")
    if H.proof:
        if not hasattr(model, "_prediction"):
            H.unsupported("no running prediction")
        if later:
            model._prediction = H.vector(n, total)          # (what a sweep leaves behind: the invariant below, after the last tree)
        fixed = {a: v for a, v in model.__dict__.items() if a != "_prediction"}

        def enter(k):
            w.k = k
            model._prediction = H.fresh_vector(n)

        def inv(k):
            same = set(model.__dict__) == set(fixed) | {"_prediction"} and all(model.__dict__[a] is v for a, v in fixed.items())
            return [("only the running prediction of the model changes", same), ("each tree once and in order", w.k == k),
                    ("the running prediction is the sum of the trees' current predictions", n, lambda r: H.eq(H.at(model._prediction, r), total(r)))]
        H.loop_invariant(trees, ("refreshed_trees",), enter, inv, lambda o: o is model or o is model._prediction or isinstance(o, (World, StepTree)))
    elif later:
        w.before, w.after = at(0), at(1)
        for tree in model.refreshed_trees():
            w.k = tree.i + 1
        w.before, w.after, w.k = at(1), at(2), 0
    r = H.index("r", n)
    for tree in model.refreshed_trees():
        H.ensures("each tree once and in order", tree.i == w.k)
        H.ensures("target is the residual of the other trees", H.eq(H.at(tree.y, r), H.at(y0, r) - (total(r) - w.now(tree.i, r))))
        w.k = tree.i + 1
    H.ensures("every tree handed out", w.k == T)
    H.ensures("in-sample prediction is the sum of the new predictions", H.eq(H.at(model.predict(), r), H.sum(T, lambda j: w.after(j, r))))


@contract("C07", functions=FN, bound="at most 2 trees of at most 1 internal node, 1 sweep with value changes or mutations; any number of rows and columns", sizes={"n": 2, "p": 1}, max_paths=20000)
def one_sweep(H):
    k = H.pick("k", 2 if not H.concrete else 5) + 1
    n, p, X0, y0, model, trees, specs = model_with(H, k, 1 if not H.concrete else k)
    r = H.index("r", n)
    sweep(H, "1", n, p, X0, y0, model, trees, specs, r, True)


@contract("C07", functions=FN, bound="2 trees (3 at small sizes), 2 sweeps of value changes; any number of rows and columns", sizes={"n": 2, "p": 1}, max_paths=20000)
def two_sweeps(H):
    n, p, X0, y0, model, trees, specs = model_with(H, 2 if H.proof else 3, 1)
    r = H.index("r", n)
    sweep(H, "1", n, p, X0, y0, model, trees, specs, r, H.concrete)
    sweep(H, "2", n, p, X0, y0, model, trees, specs, r, H.concrete)


@contract("C07", functions=FN, bound="at most 3 trees; any number of rows and columns")
def initial_trees(H):
    """a fresh model: every tree a single leaf over all rows, whose target is an equal share of the model's; first sweep sees residuals"""
    n = H.size("n", 1, small=2)
    p = H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    y0 = H.copy(y)
    k = H.pick("k", 3) + 1
    data = H.mod("bartpy.data").Data(X, y)
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), n_trees=k, initializer=None)
    r = H.index("r", n)
    H.ensures("number of trees", len(model.trees) == k)
    for t in model.trees:
        H.ensures("single leaf", len(t.nodes) == 1 and is_leaf(H, t.nodes[0]))
        H.ensures("all rows", inside(H, t.nodes[0], r))
        H.ensures("equal share of the target", H.eq(H.at(t.nodes[0].data.y.values, r) * k, H.at(y0, r)))
    i = 0
    for t in model.refreshed_trees():
        H.ensures("in order", t is model.trees[i])
        others = sum((H.at(u.predict(), r) for u in model.trees if u is not t), 0.0)
        for node in t.nodes:
            H.ensures("target at first hand-out", H.eq(H.at(node.data.y.values, r), H.at(y0, r) - others))
        i += 1
    H.ensures("every tree handed out", i == k)


@contract("C07", modes="c", functions=FN)
def long_histories(H):
    """several sweeps over several trees with random mutations and value changes on the real code"""
    import history
    np = H.np
    n, p = H.some(2, 10, 80), H.rng.randint(1, 3)
    X = np.array([[H._cov() for _ in range(p)] for _ in range(n)], dtype=float).reshape(n, p)
    y = np.array([H._real() for _ in range(n)], dtype=float)
    H.inputs.update(X0=X.tolist(), y0=y.tolist())
    data = H.mod("bartpy.data").Data(X.copy(), y.copy())
    k = H.some(1, 5, 30)
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), n_trees=k, initializer=None)
    sims = []
    for t in model.trees:
        s = history.Sim()
        s.X, s.y, s.tree, s.ops = X, y, t, []
        sims.append(s)

    def direct(t):
        out = np.zeros(n)
        for i in range(n):
            root = [x for x in t.nodes if x.depth == 0][0]
            while is_decision(H, root):
                c = root.most_recent_split_condition()
                root = root.left_child if X[i, c.splitting_variable] <= c.splitting_value else root.right_child
            out[i] = root.current_value
        return out
    for sw in range(H.some(1, 4, 40)):
        seen = []
        for t in model.refreshed_trees():
            seen.append(t)
            want = y - sum((direct(u) for u in model.trees if u is not t), np.zeros(n))
            for node in t.nodes:
                H.ensures("target is the residual of the other trees", bool(np.allclose(node.data.y.values, want, atol=1e-6, rtol=1e-6)))
            s = sims[[u is t for u in model.trees].index(True)]
            for _ in range(H.some(0, 2, 40)):
                history.step(H, s)
            for l in t.nodes:
                if is_leaf(H, l) and H.rng.random() < 0.7:
                    l.set_value(H._real())
        H.ensures("order", all(a is b for a, b in zip(seen, model.trees)) and len(seen) == k)
