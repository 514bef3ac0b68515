"""C16 running one model over many data sets keeps results matched"""
from pyvc.api import contract
from common import *

FN = ("bartpy.runner.run_models", "bartpy.runner.convert_chains_models", "bartpy.sklearnmodel.SklearnModel.from_extract",
      "bartpy.sklearnmodel.SklearnModel._combine_chains", "bartpy.sklearnmodel.SklearnModel._convert_covariates_to_data",
      "bartpy.sklearnmodel.SklearnModel.f_delayed_chains", "bartpy.sklearnmodel.SklearnModel.f_chains", "bartpy.sklearnmodel.run_chain")


class Tag(object):
    """a recorded sample that knows where it came from"""

    def __init__(self, tag):
        self.tag = tag


class Sampler(object):
    """every chain reports the data it ran on; survives copying of the estimator"""

    def __init__(self, log):
        self.log = log

    def __deepcopy__(self, memo):
        return Sampler(self.log)

    def samples(self, model, *a, **k):
        self.log.append(model)
        c = len(self.log) - 1
        return {"model": [Tag(("model", c, r)) for r in range(2)], "acceptance": [Tag(("acceptance", c, r)) for r in range(2)],
                "in_sample_predictions": [Tag(("prediction", c, r)) for r in range(2)]}


def data_sets(H, k):
    sets = []
    for i in range(k):
        n, p = H.size("n%d" % i, 2, small=2), H.size("p%d" % i, 1, small=1)
        X, y = H.matrix("X%d" % i, n, p), H.reals("y%d" % i, n)
        lo, hi = argext(H, "lo%d" % i, n, lambda r, y=y: H.at(y, r), False), argext(H, "hi%d" % i, n, lambda r, y=y: H.at(y, r), True)
        H.requires(H.at(y, hi) > H.at(y, lo))
        sets.append((n, p, X, y, H.at(y, lo), H.at(y, hi)))
    return sets


def base_model(H, chains, log):
    sk = H.mod("bartpy.sklearnmodel")
    m = sk.SklearnModel(n_trees=1, n_chains=chains, n_samples=2, n_burn=1, thin=1.0, n_jobs=1)
    m.sampler = Sampler(log)
    return m


@contract("C16", functions=FN, bound="at most 2 data sets and 3 chains; any data", shard=[("sets", 2)],
          sizes={"n0": 2, "n1": 2, "p0": 1, "p1": 1})
def results_match_their_data_set(H):
    runner = H.mod("bartpy.runner")
    k, c = H.pick("sets", 2) + 1 if not H.concrete else H.some(1, 4, 60), H.pick("chains", 3) + 1
    sets = data_sets(H, k)
    log = []
    base = base_model(H, c, log)
    params = sorted(base.get_params(deep=False).items()) if H.concrete else None
    out = runner.run_models(base, [s[2] for s in sets], [s[3] for s in sets])
    H.ensures("one model per data set", len(out) == k)
    H.ensures("every chain ran", len(log) == k * c)
    for i, (n, p, X, y, lo, hi) in enumerate(sets):
        m = out[i]
        H.ensures("a model of its own", m is not base and all(m is not out[j] for j in range(i)))
        recs = [x.tag for x in m.model_samples]
        mine = [q for q in range(len(log)) if any(t[1] == q for t in recs)]
        H.ensures("samples of its own chains, all of them, in order", len(mine) == c and recs == [("model", q, r) for q in mine for r in range(2)])
        H.ensures("acceptance of the same chains", [x.tag for x in m.acceptance_trace] == [("acceptance", q, r) for q in mine for r in range(2)])
        H.ensures("predictions of the same chains", [x.tag for x in m.prediction_samples] == [("prediction", q, r) for q in mine for r in range(2)])
        H.ensures("chains in the order they were issued", mine == list(range(i * c, i * c + c)))
        for q in mine:
            d = log[q].data
            r, v = H.index("r%d_%d" % (i, q), n), H.index("v%d_%d" % (i, q), p)
            H.ensures("those chains ran on this data set", H.and_(H.len(d.y.values) == n, H.eq(H.at(d.X.values, r, v), H.at(X, r, v)),
                                                                  H.eq(H.at(d.y.values, r) * (hi - lo), H.at(y, r) - lo - 0.5 * (hi - lo))))
        z = H.real("z%d" % i)
        H.ensures("target scale of this data set", H.eq(m.data.y.unnormalize_y(z), lo + (z + 0.5) * (hi - lo)))
    H.ensures("the base model has no samples", base.model_samples is None and base.prediction_samples is None)
    if H.concrete:
        now = sorted(base.get_params(deep=False).items())
        H.ensures("parameters of the base model unchanged", [a for a, _ in now] == [a for a, _ in params] and all(a is b or a == b for (_, a), (_, b) in zip(now, params)))


@contract("C16", functions=FN, bound="at most 2 chains with 2 records each; any data", sizes={"n0": 2, "n1": 2, "p0": 1, "p1": 1})
def extract_does_not_touch_the_base(H):
    """a base model that was itself fitted keeps its own samples and scale"""
    c = H.pick("chains", 2) + 1
    sets = data_sets(H, 2)
    log = []
    base = base_model(H, c, log)
    if H.flag("fitted"):
        base.fit(sets[0][2], sets[0][3])
    own = base.model_samples
    own_tags = None if own is None else [x.tag for x in own]
    ex = [{"model": [Tag(("new", q, r)) for r in range(2)], "acceptance": [Tag(("acc", q, r)) for r in range(2)],
           "in_sample_predictions": [Tag(("pred", q, r)) for r in range(2)]} for q in range(c)]
    m = base.from_extract(ex, sets[1][2], sets[1][3])
    H.ensures("holds the given samples in order", [x.tag for x in m.model_samples] == [("new", q, r) for q in range(c) for r in range(2)])
    H.ensures("holds the given predictions in order", [x.tag for x in m.prediction_samples] == [("pred", q, r) for q in range(c) for r in range(2)])
    H.ensures("holds the given acceptance in order", [x.tag for x in m.acceptance_trace] == [("acc", q, r) for q in range(c) for r in range(2)])
    z = H.real("z")
    lo, hi = sets[1][4], sets[1][5]
    H.ensures("scale of its data set", H.eq(m.data.y.unnormalize_y(z), lo + (z + 0.5) * (hi - lo)))
    H.ensures("samples of the base unchanged", (own is None and base.model_samples is None) or [x.tag for x in base.model_samples] == own_tags)
    if own is not None:
        lo, hi = sets[0][4], sets[0][5]
        H.ensures("scale of the base unchanged", H.eq(base.data.y.unnormalize_y(z), lo + (z + 0.5) * (hi - lo)))


@contract("C16", modes="c", functions=FN, conc_s=8)
def fits_predict_for_their_own_data(H):
    """real runs: targets on disjoint scales, so a mismatch is visible in the predictions"""
    import io, contextlib
    np, sk, runner = H.np, H.mod("bartpy.sklearnmodel"), H.mod("bartpy.runner")
    k, c = H.rng.randint(1, 3), H.rng.randint(1, 3)
    np.random.seed(H.rng.randrange(2 ** 31))
    X_s = [np.array([[H.rng.gauss(0, 1)] for _ in range(8)]) for _ in range(k)]
    y_s = [1000.0 * i + np.array([H.rng.gauss(0, 1) for _ in range(8)]) for i in range(k)]
    base = sk.SklearnModel(n_trees=2, n_chains=c, n_samples=3, n_burn=2, thin=1.0, store_in_sample_predictions=True, store_acceptance_trace=True, n_jobs=1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        out = runner.run_models(base, X_s, y_s)
    H.ensures("one model per data set", len(out) == k)
    for i, m in enumerate(out):
        H.ensures("all samples", len(m.model_samples) == 3 * c and len(m.prediction_samples) == 3 * c)
        H.ensures("predicts on the scale of its data set", bool(np.all(np.abs(m.predict(X_s[i]) - 1000.0 * i) < 300)))
        H.ensures("in-sample prediction of its own data set", bool(np.allclose(m.predict(), m.predict(X_s[i]))))
    H.ensures("base model untouched", base.model_samples is None)
