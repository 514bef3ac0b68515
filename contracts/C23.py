"""C23 cached random draws are used once and come from the right distribution"""
from pyvc.api import contract, Skip
from common import *

S = "bartpy.samplers.scalar."
FN = (S + "NormalScalarSampler.__init__", S + "NormalScalarSampler.sample", S + "NormalScalarSampler.refresh_cache",
      S + "UniformScalarSampler.__init__", S + "UniformScalarSampler.sample", S + "UniformScalarSampler.refresh_cache")
DN = (S + "DiscreteSampler.__init__", S + "DiscreteSampler.sample", S + "DiscreteSampler.refresh_cache")


class Draws(Ghost):
    """stands for numpy.random: element i of the b-th batch of standard draws is i + b/64, so every draw is told apart"""

    def __init__(self, H):
        self.H, self.batches = H, []
        self.picks = None

    def _std(self, kind, size):
        b = len(self.batches)
        if isinstance(size, tuple):
            if len(size) != 1:
                raise Skip("multi-dimensional draw")
            size = size[0]
        n = 1 if size is None else size
        self.batches.append((kind, n))
        return b / 64.0 if size is None else self.H.arange(n, b / 64.0)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._std("normal", size) * scale + loc

    def standard_normal(self, size=None):
        return self._std("normal", size)

    def randn(self, *size):
        return self._std("normal", size or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._std("uniform", size) * (high - low) + low

    def random(self, size=None):
        return self._std("uniform", size)

    random_sample = ranf = sample = random

    def rand(self, *size):
        return self._std("uniform", size or None)

    def choice(self, a, size=None, replace=True, p=None):
        H = self.H
        if isinstance(size, tuple):
            size = size[0]
        vals = list(range(a)) if isinstance(a, int) else list(a)
        n = 1 if size is None else size
        idx = [self.picks(len(self.batches), i, len(vals)) for i in range(n)]
        out = [vals[i] for i in idx]
        self.batches.append(("choice", n, vals, replace, None if p is None else list(p), idx))
        if size is None:
            return out[0]
        arr = H.np.empty(n, dtype=object) if H.concrete else None
        if arr is None:
            return out
        for i, v in enumerate(out):
            arr[i] = v
        return arr


def sampler(H, kind, size):
    m = H.mod("bartpy.samplers.scalar")
    return m.NormalScalarSampler(size) if kind == "normal" else m.UniformScalarSampler(size)


def label(H, x, b, n):
    """x is a draw of batch b"""
    return H.and_(x - b / 64.0 >= 0, x - b / 64.0 <= n - 1)


@contract("C23", functions=FN, bound="the first 4 draws of a sampler; any store size", shard=[("kind", 2)])
def draws_are_fresh_and_standard(H):
    kind = ["normal", "uniform"][H.pick("kind", 2)]
    g = Draws(H)
    H.patch_random(g)
    n = H.size("cache", 1, small=5)
    s = sampler(H, kind, n)
    T = 4 if not H.concrete else H.rng.choice([1, 3, 10, 60])
    if T > 60 * n:
        T = 60 * n
    xs = []
    for t in range(T):
        xs.append(s.sample())
        if t == 0 and not g.batches:
            H.unsupported("no draws seen")
        H.ensures("only draws of its distribution", all(b[0] == kind for b in g.batches))
        drawn = sum((b[1] for b in g.batches), 0)
        H.ensures("a store is filled when it is exhausted, not before", H.and_(drawn >= t + 1, drawn - n < t + 1))
        H.ensures("the store has the requested size", H.and_(True, *[b[1] == n for b in g.batches]))
        H.ensures("a standard draw", H.or_(False, *[label(H, xs[t], q, b[1]) for q, b in enumerate(g.batches)]))
        H.ensures("handed out once", H.and_(True, *[H.not_(H.exact(xs[t], x)) for x in xs[:t]]))


@contract("C23", functions=FN, shard=[("kind", 2)])
def store_invariant(H):
    """any history: a non-empty store gives away one of its draws and keeps the others; an empty one is filled first"""
    kind = ["normal", "uniform"][H.pick("kind", 2)]
    g = Draws(H)
    H.patch_random(g)
    n = H.size("cache", 1, small=4)
    probe = sampler(H, kind, 3)
    for left in (0, 2, 1):
        if not isinstance(getattr(probe, "_cache", None), list) or len(probe._cache) != left:
            H.unsupported("the store is not a plain list of the remaining draws")
        probe.sample()
    del g.batches[:]
    s = sampler(H, kind, n)
    k = H.size("held", 0, small=3)
    H.requires(k <= n)
    g.batches.append((kind, k))
    s._cache = list(H.arange(k, 0.0)) if H.concrete else H.listed(H.arange(k, 0.0))
    x = s.sample()
    if len(g.batches) == 1:
        H.ensures("only a non-empty store is used as it is", k >= 1)
        m, b = k, 0
    else:
        H.ensures("only an empty store is filled", k == 0)
        H.ensures("filled once, by its own distribution, to its size", H.and_(len(g.batches) == 2, g.batches[1][0] == kind, g.batches[1][1] == n))
        m, b = n, 1
    H.ensures("a draw of the store", label(H, x, b, m))
    rest = s._cache
    H.ensures("one draw fewer", H.len(rest) == m - 1)
    off = b / 64.0
    if H.concrete:
        H.ensures("the others are kept", sorted([float(x)] + [float(v) for v in rest]) == [i + off for i in range(m)])
    else:
        j = H.index("j", H.len(rest))
        H.ensures("the others are kept", H.or_(H.and_(H.exact(x, m - 1 + off), H.exact(rest[j], j + off)), H.and_(H.exact(x, off), H.exact(rest[j], j + 1 + off))))


@contract("C23", functions=DN, bound="at most 3 values, store size at most 3, two fillings of the store; any probabilities", shard=[("size", 3)], max_paths=20000)
def discrete_draws(H):
    g = Draws(H)
    H.patch_random(g)
    m = H.mod("bartpy.samplers.scalar")
    size = H.pick("size", 3) + 1 if not H.concrete else H.rng.choice([1, 2, 7, 30])
    k = H.pick("values", 3) + 1
    vals = [Ghost() for _ in range(k)]
    g.picks = lambda b, i, c: H.pick("draw%d_%d" % (b, i), c)
    given = H.flag("probas")
    if given:
        ps = [H.real("p%d" % i, 0, 1) for i in range(k - 1)]
        last = 1 - sum(ps)
        H.requires(last >= 0)
        ps = ps + [last]
        s = m.DiscreteSampler(vals, ps, size)
    else:
        ps = None
        s = m.DiscreteSampler(vals, cache_size=size)
    for rnd in range(2):
        out = []
        for i in range(size):
            out.append(s.sample())
            if not g.batches:
                H.unsupported("no draws seen")
            H.ensures("a store is filled when it is exhausted, not before", len(g.batches) == rnd + 1)
        kind, n, of, replace, p, idx = g.batches[rnd]
        H.ensures("the store has the requested size", n == size)
        H.ensures("drawn with replacement", replace is True or n == 1)
        same_vals = len(of) == k and all((a is b) or (isinstance(a, int) and a == q) for q, (a, b) in enumerate(zip(of, vals)))
        H.ensures("drawn among the given values", same_vals)
        if p is None:
            H.ensures("equal probabilities unless given", H.or_(not given, *([H.and_(*[H.eq(q, 1.0 / k) for q in ps])] if given else [])))
        else:
            H.ensures("with the given probabilities", H.and_(len(p) == k, *[H.eq(a, b) for a, b in zip(p, ps if given else [1.0 / k] * k)]))
        want = [vals[i] for i in idx]
        H.ensures("every draw is handed out once", same_set(out, want))


@contract("C23", modes="c", functions=FN + DN, conc_s=4)
def draws_of_the_real_generators(H):
    """against the real numpy: the values come out of the generator's stream, each once"""
    np, m = H.np, H.mod("bartpy.samplers.scalar")
    seed, size, T = H.rng.randrange(2 ** 31), H.rng.choice([1, 2, 3, 10, 100]), H.rng.choice([1, 5, 50, 250])
    H.inputs.update(seed=seed, size=size, T=T)
    for cls, ok in ((m.NormalScalarSampler, lambda x: abs(x) < 10), (m.UniformScalarSampler, lambda x: 0 <= x < 1)):
        np.random.seed(seed)
        s = cls(size)
        xs = [s.sample() for _ in range(T)]
        H.ensures("no value twice", len(set(xs)) == T)
        H.ensures("in the support", all(ok(x) for x in xs))
    if T == 250:
        np.random.seed(seed)
        s = m.NormalScalarSampler(size)
        xs = np.array([s.sample() for _ in range(4000)])
        H.ensures("mean and variance of a standard normal", abs(xs.mean()) < 0.12 and abs(xs.std() - 1) < 0.09)
        s = m.UniformScalarSampler(size)
        xs = np.array([s.sample() for _ in range(4000)])
        H.ensures("mean and variance of a uniform", abs(xs.mean() - 0.5) < 0.035 and abs(xs.std() - 12 ** -0.5) < 0.025)
        p = [0.15, 0.6, 0.25]
        s = m.DiscreteSampler(["a", "b", "c"], p, size)
        xs = [s.sample() for _ in range(4000)]
        H.ensures("frequencies of the values", all(abs(xs.count(v) / 4000.0 - q) < 0.06 for v, q in zip("abc", p)))
