"""C22 imported sklearn trees predict like the original"""
from pyvc.api import contract, Skip
from common import *

MOD = "bartpy.initializers.sklearntreeinitializer."
FN = (MOD + "map_sklearn_tree_into_bartpy", MOD + "map_sklearn_split_into_bartpy_split_conditions", "bartpy.tree.mutate", "bartpy.node.split_node", "bartpy.tree.Tree.predict")


class Column(object):
    """one array of a fitted sklearn tree, indexed by node"""

    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 3 and k[1:] == (0, 0):
            return self.xs[k[0]][0][0]
        if type(k) is not int:
            raise Skip("unusual indexing of a sklearn tree")
        return self.xs[k]

    @property
    def shape(self):
        return (len(self.xs),)

    @property
    def size(self):
        return len(self.xs)

    def tolist(self):
        return list(self.xs)

    def __getattr__(self, k):
        if k.startswith(("__", "vc_", "_vc")):
            raise AttributeError(k)
        raise Skip("sklearn array has no " + k)


def sk_tree(H, shape, p, depth_first=True):
    """the arrays of a fitted sklearn tree of the given shape with arbitrary rules and values; sklearn numbers the nodes depth first or best first"""
    left, right, feature, threshold, value, count = [], [], [], [], [], [0]
    root = {"shape": shape, "tag": "", "path": []}
    pending, order = [root], []
    while pending:
        q = pending.pop() if depth_first else pending.pop(0)
        q["id"] = len(order)
        order.append(q)
        if q["shape"] is not None:
            q["v"], q["s"] = H.index("v" + q["tag"], p), H.real("s" + q["tag"])
            q["l"] = {"shape": q["shape"][0], "tag": q["tag"] + "l", "path": q["path"] + [(q["v"], q["s"], True)]}
            q["r"] = {"shape": q["shape"][1], "tag": q["tag"] + "r", "path": q["path"] + [(q["v"], q["s"], False)]}
            pending += [q["r"], q["l"]] if depth_first else [q["l"], q["r"]]
    for q in order:
        q["value"] = H.real("value" + q["tag"])
    t = Ghost()
    inner = lambda f, d: [f(q) if q["shape"] is not None else d for q in order]
    arrays = dict(children_left=inner(lambda q: q["l"]["id"], -1), children_right=inner(lambda q: q["r"]["id"], -1), feature=inner(lambda q: q["v"], -2),
                  threshold=inner(lambda q: q["s"], -2.0), value=[[[q["value"]]] for q in order])
    for k, xs in arrays.items():
        setattr(t, k, H.np.array(xs) if H.concrete else Column(xs))
    t.node_count, t.n_leaves = len(order), sum(q["shape"] is None for q in order)
    t.capacity, t.n_features, t.n_outputs, t.max_n_classes = len(order), p, 1, 1
    return t, root, order


def imported(H, most, **kw):
    m = H.mod("bartpy.initializers.sklearntreeinitializer")
    if not hasattr(m, "map_sklearn_tree_into_bartpy"):
        H.unsupported("no map_sklearn_tree_into_bartpy")
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    X0, y0 = H.copy(X), H.copy(y)
    ss = shapes_upto(most if not H.concrete else 5)
    t, root, order = sk_tree(H, ss[H.pick("shape", len(ss))], p, H.flag("depth_first"))
    leaf = leaf_node(H, X, y, value=H.real("old_value"))
    tree = H.mod("bartpy.tree").Tree([leaf])
    if H.flag("predicted_before"):
        tree.predict()
    m.map_sklearn_tree_into_bartpy(tree, t)
    return n, p, X0, y0, tree, root, order


def walk(H, tree, root):
    """pairs the nodes of the tree with those of the sklearn tree, from the root down"""
    kids = [c for x in tree.nodes if is_decision(H, x) for c in (x.left_child, x.right_child)]
    roots = [x for x in tree.nodes if not any(x is c for c in kids)]
    H.ensures("one root", len(roots) == 1)
    out, todo = [], [(roots[0], root)]
    while todo:
        x, q = todo.pop()
        out.append((x, q))
        H.ensures("split exactly where sklearn splits", is_decision(H, x) if q["shape"] is not None else is_leaf(H, x))
        if q["shape"] is not None:
            todo += [(x.left_child, q["l"]), (x.right_child, q["r"])]
    return out


@contract("C22", functions=FN, bound="sklearn trees with at most 3 splits; any rules and values, any rows and columns", sizes={"n": 2, "p": 1}, shard=[("shape", 9)])
def same_shape_rules_and_values(H):
    n, p, X0, y0, tree, root, order = imported(H, 3)
    pairs = walk(H, tree, root)
    H.ensures("exactly the nodes of the sklearn tree", len(tree.nodes) == len(order) and same_set(tree.nodes, [x for x, _ in pairs]))
    for x, q in pairs:
        H.ensures("depth", x.depth == len(q["path"]))
        if q["shape"] is None:
            H.ensures("leaf value", H.eq(x.current_value, q["value"]))
        else:
            cl, cr = x.left_child.split.most_recent_split_condition(), x.right_child.split.most_recent_split_condition()
            H.ensures("variable", H.and_(H.exact(cl.splitting_variable, q["v"]), H.exact(cr.splitting_variable, q["v"])))
            H.ensures("threshold", H.and_(H.exact(cl.splitting_value, q["s"]), H.exact(cr.splitting_value, q["s"])))
            H.ensures("points at most the threshold go left", cl.operator is le_gt()[0] and cr.operator is le_gt()[1])


@contract("C22", functions=FN + ("bartpy.data.CovariateMatrix.n_obsv", "bartpy.data.Target.summed_y"), bound="sklearn trees with at most 2 splits; any rules and values, any rows and columns", sizes={"n": 2, "p": 1}, shard=[("shape", 4)])
def rows_counts_and_sums(H):
    n, p, X0, y0, tree, root, order = imported(H, 2)
    r = H.index("r", n)
    for x, q in walk(H, tree, root):
        here = lambda k, q=q: satisfies(H, lambda v: H.at(X0, k, v), q["path"])
        H.ensures("rows of the node", H.iff(inside(H, x, r), here(r)))
        H.ensures("observation count", H.eq(x.data.X.n_obsv, H.count(n, here)))
        H.ensures("target sum", H.eq(x.data.y.summed_y(), H.sum(n, lambda k: H.ite(here(k), H.at(y0, k), 0.0))))


@contract("C22", functions=FN + ("bartpy.split.Split.condition", "bartpy.split.Split.out_of_sample_conditioner"), bound="sklearn trees with at most 2 splits; any rules and values, any rows and columns", sizes={"n": 2, "m": 1, "p": 1}, shard=[("shape", 4)])
def same_prediction(H):
    n, p, X0, y0, tree, root, order = imported(H, 2)
    m = H.size("m", 1, small=1)
    Z = H.matrix("Z", m, p, finite=True)
    leaves = [(None, q["path"], q["value"]) for q in order if q["shape"] is None]
    r, t = H.index("r", n), H.index("t", m)
    H.ensures("training rows", H.eq(H.at(tree.predict(), r), spec_value(H, leaves, lambda v: H.at(X0, r, v))))
    H.ensures("new rows", H.eq(H.at(tree.predict(Z), t), spec_value(H, leaves, lambda v: H.at(Z, t, v))))


class Fitted(Ghost):
    """stands for GradientBoostingRegressor: records what it was fitted on"""

    def __init__(self, tree, log, kw):
        self._tree, self._log, self._kw = tree, log, kw

    def fit(self, X, y, **kw):
        self._log.append((self._kw, X, y, kw))
        inner = Ghost()
        inner.tree_ = self._tree
        self.estimators_ = Estimators(inner)
        return self


class Estimators(object):
    def __init__(self, x):
        self.x = x

    def __len__(self):
        return 1

    def __getitem__(self, k):
        if k == 0:
            return [self.x]
        if k in ((0, 0), (-1, 0)):
            return self.x
        raise Skip("unusual indexing of the estimators")


@contract("C22", functions=FN + (MOD + "SklearnTreeInitializer.initialize_tree", "bartpy.initializers.initializer.Initializer.initialize_trees"),
          bound="two trees initialised with one tree of at most 1 split; any rows, rules and values", sizes={"n": 2, "p": 1})
def initializer_copies_the_fitted_tree(H):
    sm = H.mod("bartpy.initializers.sklearntreeinitializer")
    if not hasattr(sm, "GradientBoostingRegressor"):
        H.unsupported("fits something else")
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    X0, y0 = H.copy(X), H.copy(y)
    ss = shapes_upto(1)
    t, root, order = sk_tree(H, ss[H.pick("shape", 2)], p)
    log = []
    H.patch(sm, "GradientBoostingRegressor", lambda *a, **kw: Fitted(t, log, kw))
    trees = [H.mod("bartpy.tree").Tree([leaf_node(H, X, y)]) for _ in range(2)]
    init = sm.SklearnTreeInitializer(max_depth=3)
    init.initialize_trees(trees)
    H.ensures("one fit per tree", len(log) == 2)
    r, v = H.index("r", n), H.index("v", p)
    for kw, A, b, _ in log:
        if H.len(A) != n or H.len(b) != n:
            H.ensures("fitted on all rows", False)
        H.ensures("fitted on the tree's own data", H.and_(H.eq(H.at(A, r, v), H.at(X0, r, v)), H.eq(H.at(b, r), H.at(y0, r))))
        H.ensures("with the given depth", kw.get("max_depth") == 3 and kw.get("n_estimators") == 1)
    leaves = [(None, q["path"], q["value"]) for q in order if q["shape"] is None]
    for tree in trees:
        H.ensures("predicts like the fitted tree", H.eq(H.at(tree.predict(), r), spec_value(H, leaves, lambda u: H.at(X0, r, u))))


@contract("C22", modes="c", functions=FN + (MOD + "SklearnTreeInitializer.initialize_tree",), conc_s=8)
def real_sklearn_trees(H):
    """trees fitted by sklearn (values representable in single precision, which sklearn compares in)"""
    np = H.np
    from sklearn.tree import DecisionTreeRegressor
    sm = H.mod("bartpy.initializers.sklearntreeinitializer")
    n, p = H.some(2, 25, 80), H.rng.randint(1, 3)
    X = np.array([[H.rng.choice([H.rng.randint(-6, 6), H.rng.randint(-1000, 1000) / 8.0]) for _ in range(p)] for _ in range(n)], dtype=float)
    y = np.array([H.rng.gauss(0, 3) for _ in range(n)])
    H.inputs.update(X0=X.tolist(), y0=y.tolist())
    kw = H.rng.choice([dict(max_depth=H.rng.randint(1, 5)), dict(max_leaf_nodes=H.rng.randint(2, 9)), dict(min_samples_leaf=2)])
    seed = H.rng.randrange(1000)
    fit = DecisionTreeRegressor(random_state=seed, **kw).fit(X, y)
    tree = H.mod("bartpy.tree").Tree([leaf_node(H, X.copy(), y.copy())])
    sm.map_sklearn_tree_into_bartpy(tree, fit.tree_)
    Z = np.array([[H.rng.randint(-1000, 1000) / 8.0 for _ in range(p)] for _ in range(20)])
    H.ensures("training rows", bool(np.allclose(tree.predict(), fit.predict(X))))
    H.ensures("new rows", bool(np.allclose(tree.predict(Z), fit.predict(Z))))
    H.ensures("number of leaves", len([x for x in tree.nodes if is_leaf(H, x)]) == fit.get_n_leaves())
    for x in tree.nodes:
        rows = ~x.data.mask
        H.ensures("count and sum", int(x.data.X.n_obsv) == int(rows.sum()) and abs(float(x.data.y.summed_y()) - float(y[rows].sum())) < 1e-9 * (1 + np.abs(y).sum()))
    if n >= 4:
        depth = H.rng.randint(1, 4)
        own = H.mod("bartpy.tree").Tree([leaf_node(H, X.copy(), y.copy())])
        sm.SklearnTreeInitializer(max_depth=depth).initialize_tree(own)
        H.ensures("initialised within the given depth", max(x.depth for x in own.nodes) <= depth)
        # leaf values of a squared error tree are the mean residuals of their rows
        for x in own.nodes:
            if is_leaf(H, x) and x.depth > 0:
                rows = ~x.data.mask
                H.ensures("value of the fitted leaf", abs(x.current_value - float((y[rows] - y.mean()).mean())) < 1e-6 * (1 + np.abs(y).max()))
