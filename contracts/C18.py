"""C18 fitting and predicting never modify the caller's data or the model"""
from pyvc.api import contract
from common import *
from C14 import live_model, record

BUILD = ("bartpy.sklearnmodel.SklearnModel.fit", "bartpy.sklearnmodel.SklearnModel._construct_model", "bartpy.sklearnmodel.SklearnModel._convert_covariates_to_data",
         "bartpy.sklearnmodel.SklearnModel.from_extract", "bartpy.data.Data.__init__", "bartpy.data.CovariateMatrix.__init__", "bartpy.data.Target.__init__",
         "bartpy.model.Model.__init__", "bartpy.model.Model.initialize_trees", "bartpy.sklearnmodel.run_chain")
PRED = ("bartpy.sklearnmodel.SklearnModel.predict", "bartpy.sklearnmodel.SklearnModel.residuals", "bartpy.sklearnmodel.SklearnModel.l2_error", "bartpy.sklearnmodel.SklearnModel.rmse",
        "bartpy.sklearnmodel.SklearnModel._out_of_sample_predict", "bartpy.model.Model.predict", "bartpy.tree.Tree.predict", "bartpy.splitcondition.CombinedCondition.condition")
EVAL = tuple("bartpy.samplers.unconstrainedtree.likihoodratio.UniformTreeMutationLikihoodRatio." + f
             for f in ("log_transition_ratio", "log_tree_ratio", "log_likihood_ratio")) + ("bartpy.samplers.treemutation.TreeMutationLikihoodRatio.log_probability_ratio",)


class Sampler(object):
    """a chain that records the model it was given and returns one sample of it; survives copying of the estimator"""

    def __init__(self, log, recs):
        self.log, self.recs = log, recs

    def __deepcopy__(self, memo):
        return Sampler(self.log, self.recs)

    def samples(self, model, *a, **k):
        self.log.append(model)
        return {"model": list(self.recs), "acceptance": [{"Tree": 0.5} for _ in self.recs], "in_sample_predictions": [m.predict() for m in self.recs]}


class Flat(Ghost):
    """a recorded sample predicting a constant"""

    def __init__(self, H, c, n):
        self.c, self.n, self.H = c, n, H

    def predict(self, X=None):
        n = self.n if X is None else self.H.len(X)
        return self.H.const(self.c, n)


def caller_data(H, lo=2):
    n, p = H.size("n", lo, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    i, j = H.index("i", n), H.index("j", n)
    H.requires(H.at(y, i) > H.at(y, j))
    return n, p, X, y


def unchanged(H, what, X, y, X0, y0, n, p):
    r, v = H.index("r_" + what, n), H.index("v_" + what, p)
    H.ensures("caller's covariates unchanged by " + what, H.exact(H.at(X, r, v), H.at(X0, r, v)))
    H.ensures("caller's target unchanged by " + what, H.eq(H.at(y, r), H.at(y0, r)))


def overwrite(H, X, y, n, p):
    """the caller reuses its arrays"""
    r, v = H.index("rw", n), H.index("vw", p)
    X[r, v] = H.real("wx")
    y[r] = H.real("wy")


def nodes_of(model):
    return [x for t in model.trees for x in t.nodes]


@contract("C18", functions=BUILD, bound="at most 2 trees and 2 chains, samplers replaced by a recorder; any covariates and target", sizes={"n": 2, "p": 1})
def fitting_keeps_to_its_own_copies(H):
    sk = H.mod("bartpy.sklearnmodel")
    n, p, X, y = caller_data(H)
    X0, y0 = H.copy(X), H.copy(y)
    log = []
    m = sk.SklearnModel(n_trees=H.pick("trees", 2) + 1, n_chains=H.pick("chains", 2) + 1, n_samples=1, n_burn=0, thin=1.0, n_jobs=1, store_in_sample_predictions=True)
    m.sampler = Sampler(log, [Flat(H, H.real("c"), n)])
    arg = H.frame(X) if H.flag("frame") else X
    m.fit(arg, y)
    unchanged(H, "fit", X, y, X0, y0, n, p)
    r, v = H.index("r", n), H.index("v", p)
    H.ensures("chains ran", len(log) >= 1)
    models = log + ([m.model] if m.model is not None else [])
    was = [[H.at(x.data.y.values, r) for x in nodes_of(q)] + [H.at(q.data.y.values, r)] for q in models]
    pred = H.at(m.predict(), r)
    overwrite(H, X, y, n, p)
    for q, w in zip(models, was):
        for x, yy in zip(nodes_of(q), w):
            H.ensures("covariates of every node as given", H.eq(H.at(x.data.X.values, r, v), H.at(X0, r, v)))
            H.ensures("target of every node kept", H.eq(H.at(x.data.y.values, r), yy))
        H.ensures("covariates of the model as given", H.eq(H.at(q.data.X.values, r, v), H.at(X0, r, v)))
        H.ensures("target of the model kept", H.eq(H.at(q.data.y.values, r), w[-1]))
    H.ensures("covariates of the estimator as given", H.eq(H.at(m.data.X.values, r, v), H.at(X0, r, v)))
    H.ensures("target of the estimator as given", H.eq(H.at(m.data.y.unnormalized_y, r), H.at(y0, r)))
    H.ensures("prediction kept", H.eq(H.at(m.predict(), r), pred))


@contract("C18", functions=BUILD, bound="at most 2 trees; any covariates and target", sizes={"n": 2, "p": 1})
def a_model_owns_its_data(H):
    """Model(data): later updates of the caller's Data or arrays do not reach the model, nor the other way round"""
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    X0, y0 = H.copy(X), H.copy(y)
    data = H.mod("bartpy.data").Data(X, y)
    k = H.pick("trees", 2) + 1
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), n_trees=k, initializer=None)
    unchanged(H, "building", X, y, X0, y0, n, p)
    r, v = H.index("r", n), H.index("v", p)
    H.ensures("caller's data keeps its target", H.eq(H.at(data.y.values, r), H.at(y0, r)))
    data.update_y(H.reals("y2", n))
    overwrite(H, X, y, n, p)
    H.ensures("target of the model kept", H.eq(H.at(model.data.y.values, r), H.at(y0, r)))
    H.ensures("covariates of the model kept", H.eq(H.at(model.data.X.values, r, v), H.at(X0, r, v)))
    for x in nodes_of(model):
        H.ensures("covariates of the nodes kept", H.eq(H.at(x.data.X.values, r, v), H.at(X0, r, v)))
        H.ensures("target of the nodes kept", H.eq(H.at(x.data.y.values, r) * k, H.at(y0, r)))
    for i, t in enumerate(model.trees):
        t.update_y(H.reals("z%d" % i, n))
    H.ensures("model's target not touched by its trees", H.eq(H.at(model.data.y.values, r), H.at(y0, r)))


@contract("C18", functions=BUILD + PRED, bound="one recorded sample of one tree with at most 1 internal node; any covariates, target, rules, values; at most 2 columns", sizes={"n": 2, "m": 2}, shard=[("shape0", 2), ("between", 4)])
def predicting_is_pure(H):
    sk = H.mod("bartpy.sklearnmodel")
    n, p, model, trees, s = live_model(H, 1 if not H.concrete else 3, 1 if not H.concrete else 2, p=H.pick("p", 2) + 1)
    H.requires(n >= 2)
    Xc, yc = H.matrix("Xc", n, p, finite=True), H.reals("yc", n)
    a, b = H.index("a", n), H.index("b", n)
    H.requires(H.at(yc, a) > H.at(yc, b))
    rec = record(H, model)
    base = sk.SklearnModel(n_trees=1, n_chains=1, n_jobs=1, store_in_sample_predictions=False)
    est = base.from_extract([{"model": [rec], "acceptance": [0.5], "in_sample_predictions": [0.0]}], Xc, yc)
    m = H.size("m", 1, small=2)
    Z, w = H.matrix("Z", m, p, finite=True), H.reals("w", m)
    Z0, w0 = H.copy(Z), H.copy(w)
    r = H.index("r", m)
    leaves = [x for x in nodes_of(rec) if is_leaf(H, x)]
    values = [x.current_value for x in leaves]
    order = [list(t.nodes) for t in rec.trees]
    first = H.at(est.predict(Z), r)
    q = H.pick("between", 4)
    if q == 0:
        est.residuals(Z, w)
    elif q == 1:
        est.rmse(Z, w)
    elif q == 2:
        est.l2_error(Z, w)
    else:
        est.predict(H.matrix("Z2", 1, p, finite=True))
    H.ensures("same answer again", H.eq(H.at(est.predict(Z), r), first))
    H.ensures("same residual again", H.eq(H.at(est.residuals(Z, w), r), H.at(est.residuals(Z, w), r)))
    unchanged(H, "predicting", Z, w, Z0, w0, m, p)
    for x, val in zip(leaves, values):
        H.ensures("leaf values unchanged", H.eq(x.current_value, val))
    H.ensures("noise unchanged", H.eq(rec.sigma.current_value(), s))
    H.ensures("trees unchanged", all(len(o) == len(t.nodes) and all(x is y for x, y in zip(o, t.nodes)) for o, t in zip(order, rec.trees)))
    c = H.index("c", n)
    H.ensures("training target unchanged", H.eq(H.at(est.data.y.unnormalized_y, c), H.at(yc, c)))


@contract("C18", functions=PRED + ("bartpy.model.Model.residuals", "bartpy.model.Model.unnormalized_residuals", "bartpy.data.Target.unnormalize_y"),
          bound="one tree with at most 1 internal node; any rows, columns, rules, values", sizes={"n": 2, "p": 1})
def in_sample_reads_are_pure(H):
    n, p = H.size("n", 2, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    i, j = H.index("i", n), H.index("j", n)
    H.requires(H.at(y, i) > H.at(y, j))
    data = H.mod("bartpy.data").Data(X, y, normalize=True)
    shape = [None, (None, None)][H.pick("shape", 2)]
    tree, leaves = real_tree(H, H.copy(X), H.copy(y), n, p, shape)
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), trees=[tree])
    r = H.index("r", n)
    yv, ty = H.at(model.data.y.values, r), [H.at(x.data.y.values, r) for x in tree.nodes]
    first = [H.at(model.predict(), r), H.at(model.residuals(), r), H.at(model.unnormalized_residuals(), r)]
    again = [H.at(model.predict(), r), H.at(model.residuals(), r), H.at(model.unnormalized_residuals(), r)]
    for what, a, b in zip(("prediction", "residual", "original-scale residual"), first, again):
        H.ensures("same %s again" % what, H.eq(a, b))
    H.ensures("target unchanged", H.eq(H.at(model.data.y.values, r), yv))
    for x, w in zip(tree.nodes, ty):
        H.ensures("target of the nodes unchanged", H.eq(H.at(x.data.y.values, r), w))
    for leaf, path, val in leaves:
        H.ensures("leaf values unchanged", H.eq(leaf.current_value, val))


@contract("C18", functions=EVAL, bound="trees of at most 1 internal node; any rows (at most 3 in the bounded check), rule and target, one column", sizes={"n": 3}, shard=[("prune", 2), ("ratio", 3)], max_paths=20000)
def evaluating_a_proposal_is_pure(H):
    mut, nd = H.mod("bartpy.mutation"), H.mod("bartpy.node")
    n = H.size("n", 2, small=3)
    X, y = H.matrix("X", n, 1, finite=True), H.reals("y", n)
    r0, r1 = H.index("r0", n), H.index("r1", n)
    H.requires(H.at(X, r0, 0) < H.at(X, r1, 0))
    X0, y0 = H.copy(X), H.copy(y)
    leaf = leaf_node(H, X, y, depth=0, value=H.real("value"))
    dn = split(H, leaf, 0, H.at(X0, r0, 0))
    for x in (leaf, dn.left_child, dn.right_child):
        H.lemma(x.data.X.n_obsv, at=[r0, r1])
    a, b = H.real("va"), H.real("vb")
    dn.left_child.set_value(a)
    dn.right_child.set_value(b)
    if H.flag("prune"):
        tree = H.mod("bartpy.tree").Tree([dn.left_child, dn, dn.right_child])
        m = mut.PruneMutation(dn, nd.LeafNode(dn.split, depth=0))
    else:
        tree = H.mod("bartpy.tree").Tree([leaf])
        m = mut.GrowMutation(leaf, dn)
    sigma = H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0)
    s = H.real("sigma", 0, lo_open=True)
    sigma.set_value(s)
    model = H.mod("bartpy.model").Model(None, sigma, trees=[tree])
    nodes = list(tree.nodes)
    links = [(x.left_child, x.right_child, x.depth) for x in nodes]
    lr = H.mod("bartpy.samplers.unconstrainedtree.likihoodratio").UniformTreeMutationLikihoodRatio()
    which = H.pick("ratio", 3)
    ask = [lambda: lr.log_transition_ratio(tree, m), lambda: lr.log_tree_ratio(model, tree, m), lambda: lr.log_likihood_ratio(model, tree, m)][which]
    first, again = ask(), ask()
    H.ensures("same ratio again", H.eq(first, again))
    H.ensures("nodes unchanged", len(nodes) == len(tree.nodes) and all(u is v for u, v in zip(nodes, tree.nodes)))
    H.ensures("links and depths unchanged", all(x.left_child is l[0] and x.right_child is l[1] and x.depth == l[2] for x, l in zip(nodes, links)))
    r = H.index("r", n)
    for x in nodes:
        H.ensures("target unchanged", H.eq(H.at(x.data.y.values, r), H.at(y0, r)))
        H.ensures("covariates unchanged", H.eq(H.at(x.data.X.values, r, 0), H.at(X0, r, 0)))
    H.ensures("values unchanged", H.and_(H.eq(dn.left_child.current_value, a), H.eq(dn.right_child.current_value, b)))
    H.ensures("noise unchanged", H.eq(sigma.current_value(), s))


@contract("C18", modes="c", functions=BUILD + PRED + EVAL, conc_s=8)
def fits(H):
    """real fits on arrays, integer arrays and data frames which the caller then overwrites"""
    import io, contextlib
    np, sk = H.np, H.mod("bartpy.sklearnmodel")
    import pandas as pd
    n, p = H.some(4, 12, 80), H.rng.randint(1, 3)
    kind = H.rng.choice(["float", "int", "frame", "fortran"])
    X = np.array([[H._cov() for _ in range(p)] for _ in range(n)])
    y = np.array([H._real() for _ in range(n)])
    if kind == "int":
        X, y = np.round(X).astype(int), np.round(y).astype(int)
    if kind == "fortran":
        X = np.asfortranarray(X)
    H.requires(y.max() > y.min() and any(X[:, j].max() > X[:, j].min() for j in range(p)))
    H.inputs.update(kind=kind, X0=X.tolist(), y0=y.tolist())
    np.random.seed(H.rng.randrange(2 ** 31))
    arg = pd.DataFrame(X) if kind == "frame" else X
    X0, y0 = X.copy(), y.copy()
    init = H.mod("bartpy.initializers.sklearntreeinitializer").SklearnTreeInitializer(max_depth=2) if H.rng.random() < 0.3 and H.style != "near" else None
    m = sk.SklearnModel(n_trees=2, n_chains=H.rng.randint(1, 2), n_samples=3, n_burn=1, thin=1.0, store_in_sample_predictions=True, store_acceptance_trace=True, n_jobs=1, initializer=init)
    quiet = lambda: contextlib.redirect_stdout(io.StringIO())
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        m.fit(arg, y)
    H.ensures("caller's arrays unchanged by fit", bool(np.array_equal(X, X0) and np.array_equal(y, y0) and X.dtype == X0.dtype and y.dtype == y0.dtype))
    Z = np.array([[H._cov() for _ in range(p)] for _ in range(6)])
    Z0 = Z.copy()
    leafs = [l.current_value for q in m.model_samples for t in q.trees for l in t.leaf_nodes]
    a, b, c = m.predict(Z).copy(), m.predict().copy(), m.residuals(X0, y0).copy()
    m.rmse(X0, y0)
    X[:] = 77
    y[:] = -5
    H.ensures("same prediction after the caller overwrote its arrays", bool(np.allclose(m.predict(Z), a) and np.allclose(m.predict(), b)))
    H.ensures("same residuals", bool(np.allclose(m.residuals(X0, y0), c)))
    H.ensures("training data kept", bool(np.allclose(m.data.X.values, X0) and np.allclose(m.data.y.unnormalized_y, y0)))
    H.ensures("live model's data kept", bool(np.allclose(m.model.data.X.values, X0) and np.allclose(m.model.data.y.unnormalized_y, y0)))
    H.ensures("covariates of a prediction unchanged", bool(np.array_equal(Z, Z0)))
    H.ensures("leaf values unchanged", leafs == [l.current_value for q in m.model_samples for t in q.trees for l in t.leaf_nodes])
