"""C17 feature selection keeps exactly the features above their threshold"""
from pyvc.api import contract
from common import *
from C01 import SPLIT

M = "bartpy.diagnostics.features"
FN = (M + ".feature_split_proportions", "bartpy.tree.deep_copy_tree", "bartpy.node.deep_copy_node")
TH = (M + ".local_thresholds", M + ".global_thresholds")
KEEP = (M + ".is_kept", M + ".kept_features", M + ".partition_into_passed_and_failed_features")
SEL = ("bartpy.features.featureselection.SelectSplitProportionThreshold._get_support_mask", "bartpy.features.featureselection.SelectNullDistributionThreshold._get_support_mask",
       "bartpy.features.featureselection.SelectNullDistributionThreshold.fit", "bartpy.features.featureselection.SelectSplitProportionThreshold.fit")


class Fitted(Ghost):
    """a fitted estimator, as far as feature selection looks at it"""

    def __init__(self, samples):
        self.model_samples = samples


def samples(H, p, ns, nt, kmax, tag=""):
    """recorded samples with known split variables; returns samples, list of variables, one per split"""
    model_mod, sig = H.mod("bartpy.model"), H.mod("bartpy.sigma")
    used, out = [], []
    ss = shapes_upto(kmax)
    for s in range(ns):
        trees = []
        for t in range(nt):
            shape = ss[H.pick("shape%s%d_%d" % (tag, s, t), len(ss))]
            n = 4
            X, y = H.matrix("X%s%d_%d" % (tag, s, t), n, p), H.reals("y%s%d_%d" % (tag, s, t), n)

            def build(leaf, shape, where):
                if shape is None:
                    return [leaf], leaf
                v = H.pick("var%s%d_%d%s" % (tag, s, t, where), p)
                used.append(v)
                dn = split(H, leaf, v, H.real("s%s%d_%d%s" % (tag, s, t, where)))
                l, lr = build(dn.left_child, shape[0], where + "l")
                r, rr = build(dn.right_child, shape[1], where + "r")
                d = H.mod("bartpy.node").DecisionNode(dn.split, lr, rr, depth=dn.depth)
                return [d] + l + r, d
            nodes, _ = build(leaf_node(H, X, y), shape, "")
            trees.append(H.mod("bartpy.tree").Tree(nodes))
        out.append(model_mod.deep_copy_model(model_mod.Model(None, sig.Sigma(1.0, 1.0, 1.0), trees=trees)))
    return out, used


@contract("C17", functions=FN + SPLIT, bound="at most 2 samples of 1 tree, 2 splits per tree, 2 variables", max_paths=20000)
def proportions_are_shares_of_splits(H):
    f = H.mod(M)
    p = 2 if not H.concrete else 4
    ss, used = samples(H, p, 2, 1, 1 if not H.concrete else 4)
    all_cols = H.flag("columns_given")
    out = f.feature_split_proportions(Fitted(ss), list(range(p))) if all_cols else f.feature_split_proportions(Fitted(ss))
    if all_cols:
        H.ensures("every requested column reported", sorted(out.keys()) == list(range(p)))
    else:
        H.ensures("exactly the variables that are split on", sorted(out.keys()) == sorted(set(used)))
    for v in out:
        H.ensures("share of all splits", H.eq(out[v] * len(used), used.count(v)) if used else H.eq(out[v], 0.0))
        H.ensures("non-negative", out[v] >= 0)
    if used:
        H.ensures("sum to one", H.eq(sum(out.values()), 1.0))


@contract("C17", functions=FN + SPLIT, bound="one sample of one tree with at most 3 splits, 2 variables", max_paths=20000)
def proportions_in_deep_trees(H):
    f = H.mod(M)
    p = 2
    ss, used = samples(H, p, 1, 1, 3)
    out = f.feature_split_proportions(Fitted(ss), [0, 1])
    for v in (0, 1):
        H.ensures("share of all splits", H.eq(out[v] * len(used), used.count(v)) if used else H.eq(out[v], 0.0))


def quantile(H, xs, q):
    """linear interpolation between order statistics (the definition documented for numpy)"""
    k = len(xs)
    rank = lambda i: H.count(k, lambda j: H.or_(xs[j] < xs[i], H.and_(H.eq(xs[j], xs[i]), j < i))) if not H.concrete else None
    order = []
    for x in xs:
        at = len(order)
        for pos, o in enumerate(order):
            if bool(x < o):
                at = pos
                break
        order.insert(at, x)
    if k == 1:
        return order[0]
    pos = q * (k - 1)
    for lo in range(k - 1):
        if bool(pos < lo + 1):
            return order[lo] + (order[lo + 1] - order[lo]) * (pos - lo)
    return order[-1]


def null(H, p, k):
    return {v: [H.real("null%d_%d" % (v, r), 0, 1) for r in range(k)] for v in range(p)}


@contract("C17", functions=TH, bound="at most 2 variables and 3 permutation runs; any proportions and any quantile", max_paths=20000, conc_s=4)
def local_threshold_is_the_quantile(H):
    f = H.mod(M)
    p, k = H.pick("p", 2) + 1, H.pick("runs", 3) + 1 if not H.concrete else H.some(1, 8, 60)
    d = null(H, p, k)
    keep = {v: list(xs) for v, xs in d.items()}
    q = H.real("q", 0, 1)
    out = f.local_thresholds(d, q)
    H.ensures("a threshold per variable", sorted(out.keys()) == list(range(p)))
    v = H.pick("v", p)
    H.ensures("quantile of the null distribution of that variable", H.eq(out[v], quantile(H, keep[v], q)))


@contract("C17", functions=TH, bound="at most 2 variables and 2 permutation runs; any proportions and any quantile", max_paths=20000)
def global_threshold_is_the_quantile_of_the_maxima(H):
    f = H.mod(M)
    p, k = H.pick("p", 2) + 1 if not H.concrete else H.some(1, 4, 60), H.pick("runs", 2) + 1 if not H.concrete else H.some(1, 6, 60)
    d = null(H, p, k)
    q = H.real("q", 0, 1)
    mx = []
    for r in range(k):
        m = d[0][r]
        for v in range(1, p):
            if bool(d[v][r] > m):
                m = d[v][r]
        mx.append(m)
    out = f.global_thresholds(d, q)
    H.ensures("a threshold per variable", sorted(out.keys()) == list(range(p)))
    want = quantile(H, mx, q)
    for v in range(p):
        H.ensures("quantile of the per-run maxima", H.eq(out[v], want))


@contract("C17", functions=KEEP, bound="at most 3 variables; any proportions and thresholds")
def kept_iff_strictly_above_threshold(H):
    f = H.mod(M)
    p = H.pick("p", 3) + 1 if not H.concrete else H.some(1, 6, 60)
    names = [7 * v % 5 for v in range(p)] if p <= 4 else list(range(p))
    props = {c: H.real("prop%d" % i, 0, 1) for i, c in enumerate(names)}
    th = {c: H.real("th%d" % i, 0, 1) for i, c in enumerate(names)}
    if H.flag("tie"):
        th[names[0]] = props[names[0]]
    kept = f.kept_features(props, th)
    mask = f.is_kept(props, th)
    passed, failed = f.partition_into_passed_and_failed_features(props, th)
    H.ensures("one decision per variable", len(mask) == p)
    for i, c in enumerate(sorted(names)):
        above = props[c] > th[c]
        H.ensures("is_kept in the order of the variables", H.iff(mask[i], above))
        if any(c == k for k in kept):
            H.ensures("kept only if strictly above", above)
        else:
            H.ensures("rejected only if not above", H.not_(above))
        H.ensures("passed or failed, not both", (c in passed) != (c in failed))
        H.ensures("passed iff kept", (c in passed) == any(c == k for k in kept))
        H.ensures("proportion carried along", H.eq(passed[c] if c in passed else failed[c], props[c]))
    H.ensures("nothing else", len(kept) == len(passed) and len(passed) + len(failed) == p and len(kept) == len(set(kept)))


@contract("C17", functions=SEL + KEEP, bound="at most 3 variables; any proportions and thresholds")
def selectors_follow_the_same_rule(H):
    fs, sk = H.mod("bartpy.features.featureselection"), H.mod("bartpy.sklearnmodel")
    p = H.pick("p", 3) + 1
    props = {c: H.real("prop%d" % c, 0, 1) for c in range(p)}
    base = sk.SklearnModel(n_trees=1, n_jobs=1)
    if H.flag("null"):
        sel = fs.SelectNullDistributionThreshold(base, percentile=0.9)
        th = {c: H.real("th%d" % c, 0, 1) for c in range(p)}
        sel.thresholds = th
    else:
        q = H.real("q", 0, 1)
        sel = fs.SelectSplitProportionThreshold(base, percentile=q)
        th = {c: q for c in range(p)}
    sel.feature_proportions = props
    mask = sel._get_support_mask()
    H.ensures("one decision per variable", H.len(mask) == p)
    for c in range(p):
        H.ensures("selected iff strictly above the threshold", H.iff(H.at(mask, c), props[c] > th[c]))


class Runs(object):
    """stands for run_models: returns known fitted models and remembers the data"""

    def __init__(self, models):
        self.models, self.calls = models, []

    def __call__(self, model, X_s, y_s):
        self.calls.append((model, list(X_s), list(y_s)))
        return self.models[:len(X_s)]


@contract("C17", functions=(M + ".null_feature_split_proportions_distribution",) + FN, bound="2 permutation runs, 2 variables, at most 1 split per tree; any data", sizes={"n": 2}, max_paths=20000)
def null_distribution_lists_every_run(H):
    f = H.mod(M)
    p, k = 2, 2
    n = H.size("n", 1, small=2)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    X0, y0 = H.copy(X), H.copy(y)
    models, used = [], []
    for r in range(k):
        ss, u = samples(H, p, 1, 1, 1, "m%d" % r)
        models.append(Fitted(ss))
        used.append(u)
    runs = Runs(models)
    H.patch(f, "run_models", runs)
    model = Ghost()
    out = f.null_feature_split_proportions_distribution(model, X, y, k)
    if not runs.calls:
        H.unsupported("run_models is not used")
    H.ensures("one run of this model over all permutations", len(runs.calls) == 1 and runs.calls[0][0] is model and len(runs.calls[0][1]) == k and len(runs.calls[0][2]) == k)
    H.ensures("every variable has an entry per run", sorted(out.keys()) == [0, 1] and all(len(out[v]) == k for v in out))
    for v in range(p):
        for r in range(k):
            H.ensures("proportion of run r", H.eq(out[v][r] * len(used[r]), used[r].count(v)) if used[r] else H.eq(out[v][r], 0.0))
    i, j = H.index("i", n), H.index("j", p)
    for r in range(k):
        H.ensures("covariates as given", H.eq(H.at(runs.calls[0][1][r], i, j), H.at(X0, i, j)))
        H.ensures("target values are those of the target", H.exists(n, lambda t: H.eq(H.at(runs.calls[0][2][r], i), H.at(y0, t))))
    H.ensures("target of the caller unchanged", H.eq(H.at(y, i), H.at(y0, i)))


@contract("C17", modes="c", functions=FN + TH + KEEP + SEL, conc_s=8)
def fitted_selectors(H):
    """real fits: proportions recounted from the recorded trees; one decision per covariate column, in order"""
    import io, contextlib
    np, sk, f, fs = H.np, H.mod("bartpy.sklearnmodel"), H.mod("bartpy.diagnostics.features"), H.mod("bartpy.features.featureselection")
    n, p = 10, H.rng.randint(1, 4)
    np.random.seed(H.rng.randrange(2 ** 31))
    X = np.array([[H.rng.gauss(0, 1) for _ in range(p)] for _ in range(n)])
    signal = H.rng.randrange(p)
    y = X[:, signal] * 2 + np.array([H.rng.gauss(0, .1) for _ in range(n)])
    for j in range(p):
        if j != signal and H.rng.random() < .4:
            X[:, j] = 1.0          # can never be split on
    q = H.rng.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0])
    base = sk.SklearnModel(n_trees=3, n_chains=1, n_samples=4, n_burn=2, thin=1.0, n_jobs=1)
    null = H.rng.random() < .6
    if null:
        sel = fs.SelectNullDistributionThreshold(base, percentile=q, method=H.rng.choice(["local", "global"]), n_permutations=3)
    else:
        sel = fs.SelectSplitProportionThreshold(base, percentile=q)
    quiet = lambda: contextlib.redirect_stdout(io.StringIO())
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        H.ensures("fit returns the selector", sel.fit(X, y) is sel)
    used = []
    for s in sel.model.model_samples:
        for t in s.trees:
            used += [d.most_recent_split_condition().splitting_variable for d in t.nodes if is_decision(H, d)]
    H.ensures("every covariate reported", sorted(sel.feature_proportions) == list(range(p)))
    for v, pr in sel.feature_proportions.items():
        H.ensures("share of all splits", abs(pr * len(used) - used.count(v)) < 1e-9)
    th = {v: q for v in range(p)}
    if null:
        d = sel.null_distribution
        H.ensures("an entry per variable and run", sorted(d) == list(range(p)) and all(len(d[v]) == 3 for v in d))
        th = sel.thresholds
        with quiet():
            kept = f.kept_features(sel.feature_proportions, th)
        for v in range(p):
            H.ensures("kept iff above", (v in kept) == (sel.feature_proportions[v] > th[v]))
    with quiet():
        mask = sel.get_support()
    want = [sel.feature_proportions[v] > th[v] for v in range(p)]
    H.ensures("selected iff strictly above the threshold", [bool(m) for m in mask] == want)
    if any(want):
        with quiet():
            out = sel.transform(X)
        H.ensures("exactly the selected columns are kept", out.shape == (n, sum(want)) and bool((out == X[:, [v for v in range(p) if want[v]]]).all()))
