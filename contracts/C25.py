"""C25 residual extensions predict base model plus BART on its residuals"""
from pyvc.api import contract, Skip
from common import *

E = "bartpy.extensions."
FN = (E + "baseestimator.ResidualBART.fit", E + "baseestimator.ResidualBART.predict", E + "ols.OLS.fit", E + "ols.OLS.predict",
      "bartpy.sklearnmodel.SklearnModel.fit", "bartpy.sklearnmodel.SklearnModel.predict", "bartpy.sklearnmodel.SklearnModel._out_of_sample_predict", "bartpy.data.Target.unnormalize_y")


def rowwise(H, f, X, p):
    """the prediction of a regression function for every row"""
    V = X.values if type(X).__name__.startswith("DataFrame") else X
    return H.build(H.len(V), lambda i: f(*[H.at(V, i, v) for v in range(p)]))


class Base(Ghost):
    """a base estimator: the k-th fit gives an arbitrary regression function g_k"""

    def __init__(self, H, p, log):
        self.H, self.p, self.log = H, p, log

    def __deepcopy__(self, memo):
        return self

    def fit(self, X, y, **kw):
        k = len(self.log)
        self.log.append((self.H.copy(X), self.H.copy(y), self.H.func("g%d" % k, self.p)))
        return self

    def predict(self, X):
        if not self.log:
            raise ValueError("not fitted")
        return rowwise(self.H, self.log[-1][2], X, self.p)


class StatModel(Ghost):
    """the statsmodels interface: Model(endog, exog).fit() has resid and predict"""

    def __init__(self, H, p, log, y, X):
        self.H, self.p, self.log, self._y, self._X = H, p, log, y, X

    def fit(self, **kw):
        H, k = self.H, len(self.log)
        g = H.func("g%d" % k, self.p)
        self.log.append((H.copy(self._X), H.copy(self._y), g))
        r = Ghost()
        X, y, p = self._X, self._y, self.p
        r.predict = lambda Z=None: rowwise(H, g, X if Z is None else Z, p)
        r.fittedvalues = rowwise(H, g, X, p)
        r.resid = H.build(H.len(y), lambda i: H.at(y, i) - g(*[H.at(X, i, v) for v in range(p)]))
        return r


class Recorded(Ghost):
    """a recorded BART sample: an arbitrary function of the row"""

    def __init__(self, H, p, h, X):
        self.H, self.p, self.h, self.X = H, p, h, X

    def predict(self, X=None):
        return rowwise(self.H, self.h, self.X if X is None else X, self.p)


class Chain(object):
    """stands for the sampler: notes the model it is given and returns samples for it"""

    def __init__(self, H, p, k, log):
        self.H, self.p, self.k, self.log = H, p, k, log

    def __deepcopy__(self, memo):
        return self

    def samples(self, model, *a, **kw):
        c = len(self.log)
        recs = [Recorded(self.H, self.p, self.H.func("h%d_%d" % (c, q), self.p), model.data.X.values) for q in range(self.k)]
        self.log.append((model, recs))
        return {"model": recs, "acceptance": [{"Tree": 0.5}] * self.k, "in_sample_predictions": [r.predict() for r in recs]}


def extension(H, kind, p, base_log, **kw):
    if kind == 0:
        m = H.mod("bartpy.extensions.baseestimator")
        if not H.concrete and not hasattr(m, "clone"):
            H.unsupported("base estimator is taken over in another way")
        H.patch(m, "clone", lambda e, **k: e)
        return m.ResidualBART(base_estimator=Base(H, p, base_log), **kw)
    return H.mod("bartpy.extensions.ols").OLS(stat_model=lambda y, X, **k: StatModel(H, p, base_log, y, X), **kw)


def data_set(H, tag, p):
    n = H.size("n" + tag, 2, small=2)
    return n, H.matrix("X" + tag, n, p, finite=True), H.reals("y" + tag, n)


def check(H, m, n, X0, y0, p, base, chains, Z, z, tag):
    """m was fitted on (X0, y0): base is the record of the base fit, chains those of the BART chains"""
    XB, yB, g = base
    G = lambda M, i: g(*[H.at(M, i, v) for v in range(p)])
    r, v = H.index("r" + tag, n), H.index("v" + tag, p)
    H.ensures("base model fitted on the given covariates", H.and_(H.len(XB) == n, H.exact(H.at(XB, r, v), H.at(X0, r, v))))
    H.ensures("base model fitted on the given target", H.and_(H.len(yB) == n, H.eq(H.at(yB, r), H.at(y0, r))))
    resid = lambda i: H.at(y0, i) - G(X0, i)
    lo, hi = argext(H, "lo" + tag, n, resid, False), argext(H, "hi" + tag, n, resid, True)
    low, high = resid(lo), resid(hi)
    H.requires(high - low > (1e-3 if H.concrete else 0))
    H.ensures("BART chains ran", len(chains) >= 1)
    for model, _ in chains:
        d = model.data
        H.ensures("BART fitted on the same covariates", H.and_(H.len(d.y.values) == n, H.eq(H.at(d.X.values, r, v), H.at(X0, r, v))))
        H.ensures("BART fitted on the training residuals of the base model", H.eq(H.at(d.y.values, r) * (high - low), resid(r) - low - 0.5 * (high - low)))
    recs = [q for _, rs in chains for q in rs]
    bart = lambda M, i: low + (sum(q.h(*[H.at(M, i, v) for v in range(p)]) for q in recs) / len(recs) + 0.5) * (high - low)
    t = H.index("t" + tag, z)
    out = m.predict(Z)
    H.ensures("new rows: base plus BART", H.and_(H.len(out) == z, H.eq(H.at(out, t), G(Z, t) + bart(Z, t))))
    H.ensures("training rows: base plus BART", H.eq(H.at(m.predict(X0), r), G(X0, r) + bart(X0, r)))
    ins = m.predict()
    H.ensures("in sample: base plus BART", H.and_(H.len(ins) == n, H.eq(H.at(ins, r), G(X0, r) + bart(X0, r))))


@contract("C25", functions=FN, bound="at most 2 columns, 2 chains of 2 samples; any rows, target, base model and samples", sizes={"n": 2, "z": 1}, shard=[("kind", 2), ("p", 2)])
def base_plus_bart_on_its_residuals(H):
    p, c = H.pick("p", 2) + 1, H.pick("chains", 2) + 1
    base, log = [], []
    n, X, y = data_set(H, "", p)
    X0, y0 = H.copy(X), H.copy(y)
    m = extension(H, H.pick("kind", 2), p, base, n_trees=1, n_chains=c, n_samples=2, n_burn=0, thin=1.0, n_jobs=1, store_in_sample_predictions=True)
    m.sampler = Chain(H, p, 2, log)
    back = m.fit(X, y)
    H.ensures("returns the fitted model", back is m)
    H.ensures("base model fitted", len(base) >= 1)
    z = H.size("z", 1, small=1)
    Z = H.matrix("Z", z, p, finite=True)
    check(H, m, n, X0, y0, p, base[-1], log, Z, z, "")
    r, v = H.index("rc", n), H.index("vc", p)
    H.ensures("caller's data unchanged", H.and_(H.exact(H.at(X, r, v), H.at(X0, r, v)), H.eq(H.at(y, r), H.at(y0, r))))


@contract("C25", functions=FN, bound="one column, one chain of one sample; any rows, targets, base models and samples", sizes={"n": 2, "na": 2, "z": 1}, shard=[("kind", 2)])
def a_second_fit_starts_afresh(H):
    p = 1
    base, log = [], []
    na, Xa, ya = data_set(H, "a", p)
    n, X, y = data_set(H, "", p)
    X0, y0 = H.copy(X), H.copy(y)
    m = extension(H, H.pick("kind", 2), p, base, n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1.0, n_jobs=1, store_in_sample_predictions=True)
    m.sampler = Chain(H, p, 1, log)
    i, j = H.index("i", na), H.index("j", na)
    m.fit(Xa, ya)
    g = base[-1][2]
    H.requires(H.at(ya, i) - g(H.at(Xa, i, 0)) > H.at(ya, j) - g(H.at(Xa, j, 0)))
    fits, chains = len(base), len(log)
    m.fit(X, y)
    H.ensures("base model fitted again", len(base) > fits)
    z = H.size("z", 1, small=1)
    Z = H.matrix("Z", z, p, finite=True)
    check(H, m, n, X0, y0, p, base[-1], log[chains:], Z, z, "")


@contract("C25", modes="c", functions=FN, conc_s=10)
def real_fits(H):
    """the real sampler with real base models"""
    import io, contextlib
    np, sk = H.np, H.mod("bartpy.sklearnmodel")
    n, p = H.some(6, 14, 80), H.rng.randint(1, 3)
    kind = H.rng.choice(["default", "tree", "ols"])
    X, y = np.array([[H._real() for _ in range(p)] for _ in range(n)]), np.array([H._real() for _ in range(n)])
    H.inputs.update(kind=kind, X0=X.tolist(), y0=y.tolist())
    kw = dict(n_trees=2, n_chains=H.rng.randint(1, 2), n_samples=3, n_burn=1, thin=1.0, store_in_sample_predictions=True, n_jobs=1)
    np.random.seed(H.rng.randrange(2 ** 31))
    given = None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if kind == "ols":
            import statsmodels.api as sm
            m = H.mod("bartpy.extensions.ols").OLS(stat_model=sm.OLS, **kw)
        elif kind == "tree":
            from sklearn.tree import DecisionTreeRegressor
            given = DecisionTreeRegressor(max_depth=1)
            m = H.mod("bartpy.extensions.baseestimator").ResidualBART(base_estimator=given, **kw)
        else:
            m = H.mod("bartpy.extensions.baseestimator").ResidualBART(**kw)
        for again in range(H.rng.randint(1, 2)):
            if again:
                y = np.array([H._real() for _ in range(n)]) + 3.0
            # an independent fit of the same base model
            if kind == "ols":
                coef = np.linalg.lstsq(X, y, rcond=None)[0]
                want = lambda M: M @ coef
            elif kind == "tree":
                ref = DecisionTreeRegressor(max_depth=1, random_state=0).fit(X, y)
                want = ref.predict
            else:
                coef = np.linalg.lstsq(np.c_[np.ones(n), X], y, rcond=None)[0]
                want = lambda M: np.c_[np.ones(len(M)), M] @ coef
            resid = y - want(X)
            H.requires(np.ptp(resid) > 1e-6 * (1 + np.abs(y).max()) and np.ptp(y) > 0)
            m.fit(X, y)
    tol = 1e-6 * (1 + np.abs(y).max()) * (1 + np.abs(X).max())
    if kind == "tree":
        # ties between splits are broken at random: compare with the base model that was fitted
        H.requires(hasattr(m, "base_estimator"))
        want = m.base_estimator.predict
        resid = y - want(X)
        H.requires(np.ptp(resid) > 1e-6)
        H.ensures("base model is a copy of the given one, fitted", m.base_estimator is not given and m.base_estimator.get_n_leaves() >= 1)
    Z = np.array([[H._real() for _ in range(p)] for _ in range(6)])
    low, high = resid.min(), resid.max()
    bart = lambda M: low + (np.mean([q.predict(M) for q in m.model_samples], axis=0) + 0.5) * (high - low)
    H.ensures("BART target is the training residual", bool(np.allclose(m.data.y.unnormalized_y, resid, atol=tol)))
    H.ensures("new rows: base plus BART", bool(np.allclose(m.predict(Z), want(Z) + bart(Z), atol=100 * tol)))
    H.ensures("training rows: base plus BART", bool(np.allclose(m.predict(X), want(X) + bart(X), atol=100 * tol)))
    H.ensures("in sample: base plus BART", bool(np.allclose(m.predict(), want(X) + bart(X), atol=100 * tol)))
