"""C24 permutation importance scores on the held-out rows"""
from pyvc.api import contract, Skip
from common import *

M = "bartpy.features.featureimportance."


class Kept(Ghost):
    """stands for an estimator: fits and scores are only recorded; copies share the record"""

    def __init__(self, H, log, tag=0, fitted=None):
        self.H, self.log, self.tag, self.fitted = H, log, tag, fitted

    def __deepcopy__(self, memo):
        return Kept(self.H, self.log, self.tag, self.fitted)

    def __copy__(self):
        return self.__deepcopy__({})

    def fit(self, X, y):
        self.fitted = (self.H.copy(X), self.H.copy(y))
        return self

    def rmse(self, X, y):
        v = self.H.real("rmse%d" % len(self.log))
        self.log.append((self.fitted, (self.H.copy(X), self.H.copy(y)), v))
        return v


class Folds(Ghost):
    """stands for sklearn's KFold: hands out arbitrary index arrays"""

    def __init__(self, splits, log):
        self._splits, self._log = splits, log

    def split(self, X, *a, **k):
        self._log.append(X)
        for t in self._splits:
            yield t

    def get_n_splits(self, *a, **k):
        return len(self._splits)


def setting(H, folds):
    fm = H.mod("bartpy.features.featureimportance")
    for name in ("original_model_rmse", "null_rmse_distribution", "KFold"):
        if not hasattr(fm, name):
            H.unsupported("no " + name)
    n, p = H.size("n", 1, small=3), H.size("p", 1, small=2)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    splits, sizes = [], []
    for f in range(folds):
        a, b = H.size("a%d" % f, 1, small=2 + f), H.size("b%d" % f, 1, small=1 + f)
        sizes.append((a, b))
        splits.append((H.indices("train%d" % f, a, n), H.indices("test%d" % f, b, n)))
    for f in range(1, folds):
        H.requires(sizes[f][0] != sizes[0][0])
    seen = []
    H.patch(fm, "KFold", lambda *a, **k: Folds([(H.copy(u), H.copy(w)) for u, w in splits], seen))
    return fm, n, p, X, y, splits, sizes


def fold_of(H, sizes, A):
    """the fold a training set of that many rows belongs to"""
    if len(sizes) == 1 or H.len(A) == sizes[0][0]:
        return 0
    return 1


def results(H, out, log):
    out = list(out)
    H.ensures("one error per fitted model", len(out) == len(log))
    H.ensures("the errors of the scored models", H.and_(*[H.eq(a, e[2]) for a, e in zip(out, log)]))


@contract("C24", functions=(M + "original_model_rmse",), bound="at most 2 folds; any rows, columns, data and folds",
          sizes={"n": 3, "p": 2, "a0": 2, "b0": 1, "a1": 3, "b1": 2})
def baseline_is_scored_on_held_out_rows(H):
    k = H.pick("folds", 2) + 1
    fm, n, p, X, y, splits, sizes = setting(H, k)
    X0, y0 = H.copy(X), H.copy(y)
    log = []
    model = Kept(H, log)
    out = fm.original_model_rmse(model, X, y, k)
    results(H, out, log)
    H.ensures("one model per fold", len(log) == k)
    used = []
    v = H.index("v", p)
    for i, (fit, score, _) in enumerate(log):
        H.ensures("scored after fitting", fit is not None)
        f = fold_of(H, sizes, fit[0])
        used.append(f)
        (train, test), (a, b) = splits[f], sizes[f]
        s, t = H.index("s%d" % i, a), H.index("t%d" % i, b)
        H.ensures("fitted on the training rows", H.and_(H.len(fit[0]) == a, H.len(fit[1]) == a, H.eq(H.at(fit[0], s, v), H.at(X0, H.at(train, s), v)), H.eq(H.at(fit[1], s), H.at(y0, H.at(train, s)))))
        H.ensures("scored on the held-out rows", H.and_(H.len(score[0]) == b, H.len(score[1]) == b, H.eq(H.at(score[0], t, v), H.at(X0, H.at(test, t), v)), H.eq(H.at(score[1], t), H.at(y0, H.at(test, t)))))
    H.ensures("every fold once", sorted(used) == list(range(k)))
    r = H.index("r", n)
    H.ensures("caller's data not modified", H.and_(H.exact(H.at(X, r, v), H.at(X0, r, v)), H.eq(H.at(y, r), H.at(y0, r))))


class Permutations(Ghost):
    """stands for numpy.random: a permutation is x[pi] for an arbitrary index array pi"""

    def __init__(self, H):
        self.H, self.pis = H, []

    def permutation(self, x):
        H = self.H
        i = len(self.pis)
        if isinstance(x, int) or not hasattr(x, "__len__"):
            m = x
        else:
            m = H.len(x)
        pi = H.indices("pi%d" % i, m, m)
        self.pis.append(pi)
        if x is m:
            return pi
        if getattr(x, "ndim", 1) != 1:
            raise Skip("permutation of a matrix")
        return x[pi]

    def shuffle(self, x):
        if getattr(x, "ndim", 1) != 1:
            raise Skip("shuffle of a matrix")
        x[:] = self.permutation(self.H.copy(x))


@contract("C24", functions=(M + "null_rmse_distribution",), bound="at most 2 folds and 2 permutations; any rows, columns, data, folds and permutations",
          sizes={"n": 3, "p": 2, "a0": 2, "b0": 1, "a1": 3, "b1": 2})
def null_errors_share_one_permuted_data_set(H):
    k, c = H.pick("folds", 2) + 1, H.pick("permutations", 2) + 1
    fm, n, p, X, y, splits, sizes = setting(H, k)
    var = H.index("variable", p)
    X0, y0 = H.copy(X), H.copy(y)
    g = Permutations(H)
    H.patch_random(g)
    log = []
    model = Kept(H, log)
    if hasattr(fm, "run_models"):
        H.patch(fm, "run_models", lambda base, Xs, ys: [Kept(H, log, 1, (H.copy(A), H.copy(b))) for A, b in zip(Xs, ys)])
    out = fm.null_rmse_distribution(model, X, y, var, k, c)
    results(H, out, log)
    H.ensures("one model per fold and permutation", len(log) == k * c)
    if len(g.pis) != k * c:
        H.unsupported("permutations are drawn in another way")
    used = []
    v = H.index("v", p)
    for i, (fit, score, _) in enumerate(log):
        H.ensures("scored after fitting", fit is not None)
        f = fold_of(H, sizes, fit[0])
        used.append(f)
        (train, test), (a, b) = splits[f], sizes[f]
        s, t = H.index("s%d" % i, a), H.index("t%d" % i, b)
        pi = g.pis[i]
        want = lambda row, col: H.ite(col == var, H.at(X0, H.at(pi, row), col), H.at(X0, row, col))
        H.ensures("fitted on the training rows of the permuted data", H.and_(H.len(fit[0]) == a, H.len(fit[1]) == a, H.eq(H.at(fit[0], s, v), want(H.at(train, s), v)), H.eq(H.at(fit[1], s), H.at(y0, H.at(train, s)))))
        H.ensures("scored on the held-out rows of the same permuted data", H.and_(H.len(score[0]) == b, H.len(score[1]) == b, H.eq(H.at(score[0], t, v), want(H.at(test, t), v)), H.eq(H.at(score[1], t), H.at(y0, H.at(test, t)))))
    H.ensures("every fold once per permutation", sorted(used) == sorted(list(range(k)) * c))
    r = H.index("r", n)
    H.ensures("caller's data not modified", H.and_(H.exact(H.at(X, r, v), H.at(X0, r, v)), H.eq(H.at(y, r), H.at(y0, r))))


@contract("C24", modes="c", functions=(M + "original_model_rmse", M + "null_rmse_distribution", M + "feature_importance"), conc_s=8)
def real_runs(H):
    """the real folds, permutations and fits; an estimator that notes what it is scored on"""
    import io, contextlib
    np, sk = H.np, H.mod("bartpy.sklearnmodel")
    fm = H.mod("bartpy.features.featureimportance")
    import os
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib.pyplot as plt
    log = []

    class Noted(sk.SklearnModel):
        def rmse(self, X, y):
            e = sk.SklearnModel.rmse(self, X, y)
            log.append((np.array(self.data.X.values), np.array(self.data.y.unnormalized_y), np.array(X), np.array(y), e))
            return e

        def __deepcopy__(self, memo):
            import copy
            r = Noted.__new__(Noted)
            memo[id(self)] = r
            for a, b in self.__dict__.items():
                setattr(r, a, copy.deepcopy(b, memo))
            return r
    n, p, k, c = H.rng.randint(12, 20), H.rng.randint(1, 3), H.rng.randint(2, 3), H.rng.randint(1, 3)
    X = np.array([[float(100 * j + i) + 0.5 for j in range(p)] for i in range(n)])
    y = np.array([float(i) for i in range(n)])
    X0, y0 = X.copy(), y.copy()
    var = H.rng.randrange(p)
    np.random.seed(H.rng.randrange(2 ** 31))
    model = Noted(n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1.0, n_jobs=1)
    H.inputs.update(n=n, p=p, folds=k, permutations=c, variable=var)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        base = fm.original_model_rmse(model, X, y, k)
        blog, log[:] = list(log), []
        if H.rng.random() < 0.3:
            both = fm.feature_importance(model, X, y, var, n_k_fold_splits=k, n_permutations=c)
            H.ensures("both lists", len(both) == 2 and len(both[0]) == k and len(both[1]) == k * c and list(both[0]) == [e[4] for e in log[:k]])
            null = both[1]
            del log[:k]
        else:
            null = fm.null_rmse_distribution(model, X, y, var, k, c)
    plt.close("all")
    H.ensures("caller's data not modified", bool(np.array_equal(X, X0) and np.array_equal(y, y0)))
    H.ensures("errors reported", list(base) == [e[4] for e in blog] and list(null) == [e[4] for e in log])
    H.ensures("one per fold and one per fold and permutation", len(base) == k and len(null) == k * c)
    held = []
    for A, b, Z, w, _ in blog:
        rows, out = [int(round(v)) for v in b], [int(round(v)) for v in w]
        H.ensures("fold splits the data", sorted(rows + out) == list(range(n)))
        H.ensures("rows kept together", bool(np.allclose(A, X0[rows]) and np.allclose(Z, X0[out])))
        held += out
    H.ensures("every row is held out once", sorted(held) == list(range(n)))
    held, moved = [], 0
    for A, b, Z, w, _ in log:
        rows, out = [int(round(v)) for v in b], [int(round(v)) for v in w]
        H.ensures("fold splits the data", sorted(rows + out) == list(range(n)))
        others = [j for j in range(p) if j != var]
        H.ensures("other columns unchanged", bool(np.allclose(A[:, others], X0[rows][:, others]) and np.allclose(Z[:, others], X0[out][:, others])))
        H.ensures("the column is permuted over training and held-out rows together", bool(np.allclose(np.sort(np.r_[A[:, var], Z[:, var]]), X0[:, var])))
        moved += int(np.sum(A[:, var] != X0[rows][:, var])) + int(np.sum(Z[:, var] != X0[out][:, var]))
        held += out
    H.ensures("every row is held out once per permutation", sorted(held) == sorted(list(range(n)) * c))
    H.ensures("the column was permuted", moved > 0)
