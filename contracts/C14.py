"""C14 recorded samples are faithful, frozen snapshots"""
from pyvc.api import contract
from common import *
from C01 import SPLIT, RULE

FN = SPLIT + RULE + ("bartpy.tree.deep_copy_tree", "bartpy.node.deep_copy_node", "bartpy.model.deep_copy_model", "bartpy.trace.TraceLogger.__getitem__",
                     "bartpy.tree.Tree.predict", "bartpy.tree.Tree._out_of_sample_predict", "bartpy.model.Model.predict", "bartpy.model.Model._out_of_sample_predict")
LIVE = ("bartpy.tree.mutate", "bartpy.tree.Tree.update_y", "bartpy.node.LeafNode.set_value", "bartpy.sigma.Sigma.set_value")
SZ = dict(sizes={"n": 2, "p": 1, "m": 2})


def record(H, model):
    """what a chain stores for this model"""
    return H.mod("bartpy.trace").TraceLogger()["Model"](model)


def live_model(H, k, ntrees=1, p=None):
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1) if p is None else p
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    ss = shapes_upto(k)
    trees = []
    for t in range(ntrees):
        shape = ss[H.pick("shape%d" % t, len(ss))]
        tree, leaves = real_tree(H, X, y, n, p, shape, tag="t%d" % t)
        trees.append((H.mod("bartpy.tree").Tree(reorder(H, tree.nodes, "order%d" % t)), leaves))
    sigma = H.mod("bartpy.sigma").Sigma(H.real("a", 0, lo_open=True), H.real("b", 0, lo_open=True), H.real("scale", 0, lo_open=True))
    s = H.real("sigma", 0, lo_open=True)
    sigma.set_value(s)
    model = H.mod("bartpy.model").Model(None, sigma, trees=[t for t, _ in trees])
    return n, p, model, trees, s


def disturb(H, p, model, trees, n, tag="d"):
    """a later change of the live model"""
    tree_mod, node, mut = H.mod("bartpy.tree"), H.mod("bartpy.node"), H.mod("bartpy.mutation")
    kind = H.pick("kind" + tag, 5)
    t, _ = trees[H.pick("tree" + tag, len(trees))]
    leaves = [x for x in t.nodes if is_leaf(H, x)]
    if kind == 0:
        leaves[H.pick("leaf" + tag, len(leaves))].set_value(H.real("w" + tag))
    elif kind == 1:
        t.update_y(H.reals("y2" + tag, n))
    elif kind == 2:
        model.sigma.set_value(H.real("s2" + tag, 0, lo_open=True))
    elif kind == 3:
        leaf = leaves[H.pick("leaf" + tag, len(leaves))]
        dn = split(H, leaf, H.index("gv" + tag, p), H.real("gs" + tag))
        dn.left_child.set_value(H.real("gl" + tag))
        dn.right_child.set_value(H.real("gr" + tag))
        tree_mod.mutate(t, mut.GrowMutation(leaf, dn))
    else:
        ds = [d for d in t.nodes if is_decision(H, d) and is_leaf(H, d.left_child) and is_leaf(H, d.right_child)]
        if not ds:
            return
        d = ds[H.pick("prune" + tag, len(ds))]
        tree_mod.mutate(t, mut.PruneMutation(d, node.LeafNode(d.split, depth=d.depth, value=H.real("pv" + tag))))


def shape_of(H, tree):
    """(kind, depth, left, right) from the root, following the links; every linked node is a node of the tree"""
    nodes = list(tree.nodes)
    roots = [x for x in nodes if not any(x is d.left_child or x is d.right_child for d in nodes)]

    def f(x):
        if not any(x is q for q in nodes):
            return "not a node of this tree"
        if is_leaf(H, x):
            return ("leaf", x.depth)
        return ("decision", x.depth, f(x.left_child), f(x.right_child))
    return [f(r) for r in roots], len(nodes)


@contract("C14", functions=FN, bound="one tree with at most 2 internal nodes; any rows, columns, rules, values, new covariates", shard=[("shape0", 4), ("order0", 3)], **SZ)
def record_predicts_like_the_live_model(H):
    n, p, model, trees, s = live_model(H, 2 if not H.concrete else 4, 1 if not H.concrete else 2)
    rec = record(H, model)
    m = H.size("m", 1, small=2)
    Z = H.matrix("Z", m, p, finite=True)
    a, b = model.predict(Z), rec.predict(Z)
    r = H.index("r", m)
    H.ensures("same length", H.len(b) == m)
    H.ensures("same prediction for new covariates", H.eq(H.at(a, r), H.at(b, r)))
    H.ensures("the prediction is the containing leaf's value", H.eq(H.at(b, r), sum(spec_value(H, leaves, lambda v: H.at(Z, r, v)) for _, leaves in trees)))
    H.ensures("noise of that moment", H.eq(rec.sigma.current_value(), s))
    H.ensures("same scale", H.eq(rec.sigma.current_unnormalized_value(), model.sigma.current_unnormalized_value()))
    H.ensures("one tree per tree", len(rec.trees) == len(model.trees))
    for t, c in zip(model.trees, rec.trees):
        H.ensures("same shape and depths", shape_of(H, t) == shape_of(H, c))


@contract("C14", functions=FN, bound="trees with at most 2 internal nodes; any rules", **SZ)
def record_keeps_the_rules(H):
    n, p, model, trees, s = live_model(H, 2 if not H.concrete else 4)
    rec = record(H, model)
    t, c = model.trees[0], rec.trees[0]

    def walk(a, b):
        H.ensures("same kind, depth", type(a) is type(b) and a.depth == b.depth)
        if is_leaf(H, a):
            H.ensures("same leaf value", H.eq(a.current_value, b.current_value))
            return
        ca, cb = a.most_recent_split_condition(), b.most_recent_split_condition()
        H.ensures("same rule", H.and_(H.exact(ca.splitting_variable, cb.splitting_variable), H.eq(ca.splitting_value, cb.splitting_value), ca.operator is cb.operator))
        walk(a.left_child, b.left_child)
        walk(a.right_child, b.right_child)
    root = lambda t: [x for x in t.nodes if not any(x is d.left_child or x is d.right_child for d in t.nodes)][0]
    walk(root(t), root(c))


@contract("C14", functions=FN + LIVE, bound="one tree with at most 1 internal node, then one change of the live model", shard=[("kindd", 5)], **SZ)
def record_is_frozen(H):
    n, p, model, trees, s = live_model(H, 1 if not H.concrete else 3, 1 if not H.concrete else 2)
    t0, leaves = trees[0]
    spec = [(path, val) for _, path, val in leaves]
    if H.flag("predicted_before"):
        model.predict()
    rec = record(H, model)
    m = H.size("m", 1, small=2)
    Z = H.matrix("Z", m, p, finite=True)
    before = [list(shape_of(H, c)) for c in rec.trees]
    want = None
    if H.concrete:
        want = rec.predict(Z).copy()
    for i in range(1 if not H.concrete else 4):
        disturb(H, p, model, trees, n, "d%s" % ("" if i == 0 else i))
    out = rec.predict(Z)
    r = H.index("r", m)
    if H.concrete:
        H.ensures("prediction unchanged", H.eq(H.at(out, r), want[r]))
    else:
        H.ensures("prediction unchanged", H.eq(H.at(out, r), spec_value(H, [(None, q, v) for q, v in spec], lambda v: H.at(Z, r, v))))
    H.ensures("noise unchanged", H.eq(rec.sigma.current_value(), s))
    H.ensures("shape and depths unchanged", [list(shape_of(H, c)) for c in rec.trees] == before)


@contract("C14", functions=FN + LIVE, bound="one tree with at most 1 internal node, then one change of the live model", shard=[("kindd", 5)], **SZ)
def recorded_prediction_is_frozen(H):
    n, p, model, trees, s = live_model(H, 1 if not H.concrete else 3, 1 if not H.concrete else 2)
    logger = H.mod("bartpy.trace").TraceLogger()
    rec = logger["In Sample Prediction"](model.predict())
    r = H.index("r", n)
    was = H.at(rec, r)
    was = was if not H.concrete else float(was)
    disturb(H, p, model, trees, n, "d")
    if H.flag("update"):
        trees[0][0].update_y(H.reals("yy", n))
    if H.flag("predict_again"):
        model.predict()
    H.ensures("recorded prediction unchanged", H.eq(H.at(rec, r), was))


@contract("C14", modes="c", functions=FN + LIVE + ("bartpy.samplers.modelsampler.ModelSampler.samples", "bartpy.samplers.schedule.SampleSchedule.steps"), conc_s=8)
def chains_record_frozen_snapshots(H):
    """a real chain: every recorded model and prediction is compared at the end with what the live model said when it was recorded"""
    np = H.np
    sk = H.mod("bartpy.sklearnmodel")
    n, p = H.some(4, 20, 80), H.rng.randint(1, 3)
    X = np.array([[H._cov() for _ in range(p)] for _ in range(n)])
    y = np.array([H._real() for _ in range(n)])
    H.requires(y.max() > y.min() and any(X[:, j].max() > X[:, j].min() for j in range(X.shape[1])))
    H.inputs["X"], H.inputs["y"] = X.tolist(), y.tolist()
    np.random.seed(H.rng.randrange(2 ** 31))
    Z = X + np.array([[H.rng.gauss(0, 1) for _ in range(p)] for _ in range(n)])
    m = sk.SklearnModel(n_trees=H.some(1, 4, 12), n_chains=1, n_samples=5, n_burn=1, thin=1.0, n_jobs=1)
    live = m._construct_model(X, y) if hasattr(m, "_construct_model") else H.unsupported("no model construction")
    logger_mod = H.mod("bartpy.trace")
    seen = []

    class Logger(logger_mod.TraceLogger):
        def __init__(self):
            logger_mod.TraceLogger.__init__(self)
            f = self.f_model_log

            def log(mo):
                rec = f(mo)
                seen.append((rec, mo.predict(Z).copy(), mo.predict().copy(), mo.sigma.current_value(), [shape_of(H, t) for t in mo.trees]))
                return rec
            self.f_model_log = log
    ms = H.mod("bartpy.samplers.modelsampler")
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        out = ms.ModelSampler(m.schedule, Logger).samples(live, 5, 1, 1.0, True, True)
    H.ensures("a record per sweep", len(out["model"]) == 5 and len(out["in_sample_predictions"]) == 5)
    for k, (rec, pz, pin, s, shp) in enumerate(seen):
        H.ensures("recorded model kept", out["model"][k] is rec)
        H.ensures("prediction kept", bool(np.allclose(rec.predict(Z), pz)))
        H.ensures("in-sample prediction kept", bool(np.allclose(out["in_sample_predictions"][k], pin)))
        H.ensures("in-sample prediction agrees with the record", bool(np.allclose(rec.predict(X), pin)))
        H.ensures("noise kept", rec.sigma.current_value() == s)
        H.ensures("shape kept", [shape_of(H, t) for t in rec.trees] == shp)
