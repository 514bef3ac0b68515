"""C15 chains record the right iterations and keep all of them in order"""
from pyvc.api import contract
from common import *

FN = ("bartpy.samplers.modelsampler.ModelSampler.samples", "bartpy.samplers.modelsampler.ModelSampler.step")
FIT = ("bartpy.sklearnmodel.SklearnModel.fit", "bartpy.sklearnmodel.SklearnModel._combine_chains", "bartpy.sklearnmodel.SklearnModel.f_delayed_chains",
       "bartpy.sklearnmodel.SklearnModel.f_chains", "bartpy.sklearnmodel.run_chain", "bartpy.sklearnmodel.SklearnModel.model_samples",
       "bartpy.sklearnmodel.SklearnModel.prediction_samples", "bartpy.sklearnmodel.SklearnModel.acceptance_trace")


class State(Ghost):
    """a model that only knows how many sweeps it went through"""

    def __init__(self):
        self.sweeps = 0
        self.outs = []

    def predict(self, X=None):
        return ("prediction", self.sweeps)


class Schedule(Ghost):
    """a sweep: tree proposals with known outcomes, a leaf draw, a noise draw"""

    def __init__(self, outcomes):
        self.outcomes, self.models = outcomes, []

    def steps(self, model):
        self.models.append(model)
        k = len(self.models) - 1
        outs = self.outcomes(k)
        for o in outs:
            yield "Tree", lambda: o
            yield "Node", lambda: 0.0
        model.sweeps += 1
        yield "Node", lambda: 1.5


def logger(H, seen):
    base = H.mod("bartpy.trace").TraceLogger

    class L(base):
        def __init__(self):
            base.__init__(self, f_model_log=lambda m: ("model", m.sweeps), f_in_sample_prediction_log=lambda x: ("logged", x))
            seen.append(self)
    return L


@contract("C15", functions=FN, bound="at most 5 sampling and 2 burn-in sweeps; any thinning fraction in [0.001, 1]", alarm_without_input=False)
def records_the_requested_fraction(H):
    ms = H.mod("bartpy.samplers.modelsampler")
    n, burn = H.pick("n_samples", 6 if not H.concrete else 40), H.pick("n_burn", 3)
    if H.concrete and H.flag("round"):
        t = 1.0 / H.rng.randint(1, 12) if H.rng.random() < 0.5 else H.rng.randint(1, 10) / 10.0
        H.inputs["thin_round"] = t
    else:
        t = H.real("thin", 0.001, 1)
    store_p, store_a = H.flag("store_predictions"), H.flag("store_acceptance")
    model, sched = State(), Schedule(lambda k: [None])
    out = ms.ModelSampler(sched, logger(H, [])).samples(model, n, burn, t, store_p, store_a)
    H.ensures("burn-in plus sampling sweeps, all of this model", len(sched.models) == n + burn and all(m is model for m in sched.models))
    recs = [x[1] for x in out["model"]]
    H.ensures("model records of sampling sweeps, in order", all(x[0] == "model" for x in out["model"]) and all(r > burn for r in recs) and recs == sorted(set(recs)))
    if n > 0:
        H.ensures("starts with the first sampling sweep", len(recs) > 0 and recs[0] == burn + 1)
    for j in range(1, n + 1):
        k = len([r for r in recs if r <= burn + j])
        H.ensures("ceil(n t) records after n sweeps", H.and_(k >= j * t - 1e-6, k - 1 < j * t + 1e-6))
    if store_p:
        H.ensures("one prediction per record, of the same sweep", list(out["in_sample_predictions"]) == [("logged", ("prediction", r)) for r in recs])
    else:
        H.ensures("no predictions stored", len(out["in_sample_predictions"]) == 0)
    H.ensures("one acceptance per record", len(out["acceptance"]) == (len(recs) if store_a else 0))


@contract("C15", functions=FN, bound="at most 3 proposals per sweep, 2 sweeps")
def acceptance_is_the_share_of_accepted_proposals(H):
    ms = H.mod("bartpy.samplers.modelsampler")
    k = H.pick("proposals", 3) + 1 if not H.concrete else H.some(1, 8, 60)
    n = 2 if not H.concrete else 4
    acc = [[H.flag("accepted%d_%d" % (i, j)) for j in range(k)] for i in range(n + 1)]
    marks = {}

    def outs(i):
        return [Ghost() if a else None for a in acc[i]]
    out = ms.ModelSampler(Schedule(outs), logger(H, [])).samples(State(), n, 1, 1.0, True, True)
    H.ensures("one entry per sweep", len(out["acceptance"]) == n)
    for i in range(n):
        want = sum(1 for a in acc[i + 1] if a)
        H.ensures("share of accepted tree proposals of that sweep", H.eq(out["acceptance"][i]["Tree"] * k, want))


@contract("C15", functions=FN, bound="at most 3 proposals")
def step_runs_every_step_once(H):
    ms = H.mod("bartpy.samplers.modelsampler")
    k = H.pick("proposals", 4)
    done = []

    class S(Ghost):
        def steps(self, model):
            for i in range(k):
                yield "Tree", lambda: done.append(("tree", i)) or None
                yield "Node", lambda: done.append(("node", i)) or 0.0
            yield "Node", lambda: done.append("sigma") or 0.0
    model = Ghost()
    ms.ModelSampler(S()).step(model, H.mod("bartpy.trace").TraceLogger())
    want = []
    for i in range(k):
        want += [("tree", i), ("node", i)]
    H.ensures("each step runs once, in order, before the next is issued", done == want + ["sigma"])


class Sampler(Ghost):
    def __init__(self, chains):
        self.chains, self.calls = chains, []

    def samples(self, *a, **k):
        self.calls.append((a, k))
        return self.chains[len(self.calls) - 1]


def bind(a, k):
    names = ["model", "n_samples", "n_burn", "thin", "store_in_sample_predictions", "store_acceptance"]
    d = dict(zip(names, a))
    d.update(k)
    return d


@contract("C15", functions=FIT, bound="at most 3 chains with at most 2 records each; any records", sizes={"n": 2, "p": 1})
def fit_exposes_every_record_of_every_chain(H):
    sk = H.mod("bartpy.sklearnmodel")
    n, p = H.size("n", 2, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    i, j = H.index("i", n), H.index("j", n)
    H.requires(H.at(y, i) > H.at(y, j))
    k = H.pick("chains", 3) + 1
    chains, models, accs, preds = [], [], [], []
    for c in range(k):
        m = H.pick("records%d" % c, 2) + 1
        ms, ac, pr = [Ghost() for _ in range(m)], [{"Tree": H.real("a%d_%d" % (c, r), 0, 1)} for r in range(m)], [H.reals("p%d_%d" % (c, r), n) for r in range(m)]
        chains.append({"model": ms, "acceptance": ac, "in_sample_predictions": pr})
        models += ms
        accs += ac
        preds += pr
    model = sk.SklearnModel(n_trees=1, n_chains=k, n_samples=7, n_burn=3, thin=0.5, store_in_sample_predictions=True, store_acceptance_trace=True, n_jobs=1)
    model.sampler = Sampler(chains)
    out = model.fit(X, y)
    H.ensures("returns itself", out is model)
    H.ensures("one run per chain", len(model.sampler.calls) == k)
    for a, kw in model.sampler.calls:
        d = bind(a, kw)
        H.ensures("runs with the parameters of the estimator", d["n_samples"] == 7 and d["n_burn"] == 3 and d["thin"] == 0.5
                  and d["store_in_sample_predictions"] is True and d["store_acceptance"] is True)
    runs = [bind(a, kw)["model"] for a, kw in model.sampler.calls]
    H.ensures("each chain has a model of its own", all(runs[a] is not runs[b] for a in range(k) for b in range(a)))
    got = list(model.model_samples)
    H.ensures("every recorded model, in chain order", len(got) == len(models) and all(a is b for a, b in zip(got, models)))
    got = list(model.acceptance_trace)
    H.ensures("every recorded acceptance, in chain order", len(got) == len(accs) and all(a is b for a, b in zip(got, accs)))
    ps = model.prediction_samples
    H.ensures("every recorded prediction", H.len(ps) == len(preds))
    r = H.index("r", n)
    for q in range(len(preds)):
        H.ensures("predictions in chain order", H.eq(H.at(ps, q, r), H.at(preds[q], r)))


@contract("C15", modes="c", functions=FN + FIT, conc_s=8)
def fits(H):
    """real fits: number and order of records"""
    import io, contextlib, math
    np, sk = H.np, H.mod("bartpy.sklearnmodel")
    n = H.some(4, 12, 80)
    X, y = np.array([[H._real()] for _ in range(n)]), np.array([H._real() for _ in range(n)])
    H.requires(y.max() > y.min() and any(X[:, j].max() > X[:, j].min() for j in range(X.shape[1])))
    np.random.seed(H.rng.randrange(2 ** 31))
    ns, nb, t, c = H.int_("ns", 1, 12), H.int_("nb", 0, 3), H.int_("t", 1, 10) / 10.0, H.int_("c", 1, 2)
    nt = H.int_("nt", 1, 4)
    m = sk.SklearnModel(n_trees=nt, n_chains=c, n_samples=ns, n_burn=nb, thin=t, store_in_sample_predictions=True, store_acceptance_trace=True, n_jobs=1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        m.fit(X, y)
    k = int(math.ceil(ns * t - 1e-9)) * c
    H.ensures("records", len(m.model_samples) == k and len(m.prediction_samples) == k and len(m.acceptance_trace) == k)
    for q in range(k):
        H.ensures("prediction q is that of model q", bool(np.allclose(m.model_samples[q].predict(X), m.prediction_samples[q])))
        a = m.acceptance_trace[q]["Tree"]
        H.ensures("a share of the proposals", 0 <= a <= 1 and abs(a * nt - round(a * nt)) < 1e-9)
