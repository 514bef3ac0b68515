"""C21 residuals and error measures are consistent with predictions"""
from pyvc.api import contract
from common import *

SK = tuple("bartpy.sklearnmodel.SklearnModel." + f for f in ("residuals", "l2_error", "rmse", "predict", "_out_of_sample_predict", "from_extract"))
MODEL = ("bartpy.model.Model.residuals", "bartpy.model.Model.unnormalized_residuals", "bartpy.model.Model.predict", "bartpy.data.Target.unnormalize_y", "bartpy.data.Target.unnormalized_y")


class Sample(Ghost):
    """a recorded sample: its prediction for the rows of each known matrix is arbitrary"""

    def __init__(self, H, rows):
        self.H, self.rows = H, rows

    def predict(self, X=None):
        for M, f in self.rows:
            if X is M:
                return self.H.copy(f)
        from pyvc.api import Skip
        raise Skip("prediction for other rows")


class Tree_(Ghost):
    """a tree known by its in-sample prediction"""

    def __init__(self, H, f):
        self.H, self.f = H, f

    def predict(self, X=None):
        return self.H.copy(self.f)


def estimator(H, k, m, Z, store=False):
    """an estimator with k samples over training data (X, y), and its prediction for Z and X"""
    sk = H.mod("bartpy.sklearnmodel")
    n, p = H.size("n", 2, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    i, j = H.index("i", n), H.index("j", n)
    H.requires(H.at(y, i) > H.at(y, j))
    fz, fx, fin = H.matrix("fz", k, m), H.matrix("fx", k, n), H.matrix("fin", k, n)
    recs = H.objects(k, lambda q: Sample(H, [(Z, H.row(fz, q)), (X, H.row(fx, q))]))
    base = sk.SklearnModel(n_trees=1, n_chains=1, n_jobs=1, store_in_sample_predictions=store)
    est = base.from_extract([{"model": recs, "acceptance": H.objects(k, lambda q: 0.5), "in_sample_predictions": H.objects(k, lambda q: H.row(fin, q))}], X, y)
    return n, p, X, y, est


def setup(H, store=False):
    m = H.size("m", 1, small=2)
    p = 1
    Z, w = H.matrix("Z", m, p), H.reals("w", m)
    k = H.size("samples", 1, small=2)
    n, p, X, y, est = estimator(H, k, m, Z, store)
    return m, Z, w, n, X, y, est


@contract("C21", functions=SK, sizes={"n": 2, "m": 2, "p": 1})
def residual_is_target_minus_prediction(H):
    m, Z, w, n, X, y, est = setup(H)
    r, t = H.index("r", m), H.index("t", n)
    H.ensures("length", H.len(est.residuals(Z, w)) == m)
    H.ensures("supplied rows and target", H.eq(H.at(est.residuals(Z, w), r), H.at(w, r) - H.at(est.predict(Z), r)))
    H.ensures("training rows, target supplied", H.eq(H.at(est.residuals(X, y), t), H.at(y, t) - H.at(est.predict(X), t)))
    H.ensures("training rows, training target", H.eq(H.at(est.residuals(X), t), H.at(y, t) - H.at(est.predict(X), t)))


@contract("C21", functions=SK, sizes={"n": 2, "m": 2, "p": 1})
def squared_errors_and_total(H):
    m, Z, w, n, X, y, est = setup(H)
    e2, total = est.l2_error(Z, w), est.rmse(Z, w)
    pred = est.predict(Z)
    r = H.index("r", m)
    H.ensures("length", H.len(e2) == m)
    H.ensures("square of the residual", H.eq(H.at(e2, r), (H.at(w, r) - H.at(pred, r)) * (H.at(w, r) - H.at(pred, r))))
    H.ensures("total is not negative", total >= 0)
    H.ensures("total squared is the sum of squares", H.eq(total * total, H.sum(m, lambda q: (H.at(w, q) - H.at(pred, q)) * (H.at(w, q) - H.at(pred, q)))))


@contract("C21", functions=SK, sizes={"n": 2, "m": 1, "p": 1})
def in_sample_residuals(H):
    m, Z, w, n, X, y, est = setup(H, store=True)
    t = H.index("t", n)
    H.ensures("target minus in-sample prediction", H.eq(H.at(est.residuals(), t), H.at(y, t) - H.at(est.predict(), t)))
    d = H.at(y, t) - H.at(est.predict(), t)
    H.ensures("its square", H.eq(H.at(est.l2_error(), t), d * d))


@contract("C21", functions=MODEL, sizes={"n": 2, "p": 1})
def model_scale_residuals(H):
    n, p = H.size("n", 2, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    lo, hi = argext(H, "lo", n, lambda q: H.at(y, q), False), argext(H, "hi", n, lambda q: H.at(y, q), True)
    ymin, ymax = H.at(y, lo), H.at(y, hi)
    H.requires(ymax > ymin)
    y0 = H.copy(y)
    k = H.size("trees", 1, small=2)
    fs = H.matrix("f", k, n)
    data = H.mod("bartpy.data").Data(X, y, normalize=True)
    model = H.mod("bartpy.model").Model(data, H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0), trees=H.objects(k, lambda q: Tree_(H, H.row(fs, q))))
    r = H.index("r", n)
    total = H.sum(k, lambda q: H.at(fs, q, r))
    norm = (H.at(y0, r) - ymin) / (ymax - ymin) - 0.5
    H.ensures("normalised target minus the sum of trees", H.eq(H.at(model.residuals(), r), norm - total))
    H.ensures("times the target range on the original scale", H.eq(H.at(model.unnormalized_residuals(), r), (ymax - ymin) * (norm - total)))
    H.ensures("original scale: target minus un-normalised prediction", H.eq(H.at(model.unnormalized_residuals(), r), H.at(y0, r) - (ymin + (total + 0.5) * (ymax - ymin))))


@contract("C21", modes="c", functions=SK + MODEL, conc_s=8)
def fits(H):
    """real fits, all calling conventions"""
    import io, contextlib
    np, sk = H.np, H.mod("bartpy.sklearnmodel")
    n, p = H.some(4, 12, 80), H.rng.randint(1, 3)
    X, y = np.array([[H._cov() for _ in range(p)] for _ in range(n)]), np.array([H._real() for _ in range(n)])
    H.requires(y.max() > y.min() and any(X[:, j].max() > X[:, j].min() for j in range(p)))
    H.inputs.update(X0=X.tolist(), y0=y.tolist())
    np.random.seed(H.rng.randrange(2 ** 31))
    kw = dict(n_trees=2, n_chains=H.rng.randint(1, 2), n_samples=3, n_burn=1, thin=1.0, store_in_sample_predictions=True, n_jobs=1)
    kind = H.rng.choice(["plain", "extract", "residual"])
    H.inputs["kind"] = kind
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if kind == "residual":
            m = H.mod("bartpy.extensions.baseestimator").ResidualBART(**kw)
            H.requires(np.ptp(y - np.linalg.lstsq(np.c_[X, np.ones(n)], y, rcond=None)[0] @ np.c_[X, np.ones(n)].T) > 1e-6)
            m.fit(X, y)
        elif kind == "plain":
            m = sk.SklearnModel(**kw).fit(X, y)
        else:
            m = H.mod("bartpy.runner").run_models(sk.SklearnModel(**kw), [X], [y])[0]
    Z, w = np.array([[H._cov() for _ in range(p)] for _ in range(7)]), np.array([H._real() for _ in range(7)])
    ok = lambda a, b: bool(np.allclose(a, b, rtol=1e-6, atol=1e-6 * (1 + np.abs(y).max())))
    H.ensures("new rows", ok(m.residuals(Z, w), w - m.predict(Z)))
    H.ensures("training rows", ok(m.residuals(X, y), y - m.predict(X)) and ok(m.residuals(X), y - m.predict(X)))
    H.ensures("no arguments", ok(m.residuals(), y - m.predict()))
    H.ensures("squares", ok(m.l2_error(Z, w), (w - m.predict(Z)) ** 2))
    H.ensures("total", abs(m.rmse(Z, w) - np.sqrt(np.sum((w - m.predict(Z)) ** 2))) <= 1e-6 * (1 + abs(m.rmse(Z, w))))
    if kind == "plain":
        q = m.model
        norm = (y - y.min()) / (y.max() - y.min()) - 0.5
        trees = sum(t.predict() for t in q.trees)
        H.ensures("model scale", ok(q.residuals(), norm - trees))
        H.ensures("original scale", ok(q.unnormalized_residuals(), (y.max() - y.min()) * (norm - trees)))
