"""The contract language: contracts are functions of one argument H (this API).

The same contract text is (1) proved with symbolic sizes, (2) checked exhaustively over symbolic values at small
concrete sizes, (3) executed on the real bartpy with the real numpy (replay of counter-models, cross-check).
This module must stay importable without z3: the symbolic half lives in symh.py.
"""
import math
import random

REGISTRY = {}


class Contract(object):
    def __init__(self, fn, prop, name, modes, functions, opts):
        self.fn, self.prop, self.name, self.modes, self.functions, self.opts = fn, prop, name, modes, functions, opts


def contract(prop, modes="pbc", functions=(), **opts):
    """modes: p = proof (unbounded), b = bounded sizes, c = concrete execution on the real code"""
    def deco(fn):
        c = Contract(fn, prop, fn.__name__, modes, tuple(functions), opts)
        REGISTRY.setdefault(prop, []).append(c)
        return fn
    return deco


class Skip(BaseException):
    """precondition not met by the generated input / construct not applicable in this mode"""


class Failed(BaseException):
    def __init__(self, name, detail=""):
        BaseException.__init__(self, name)
        self.name, self.detail = name, detail


class ConcH(object):
    """runs a contract on the real code"""
    mode = "concrete"
    proof = bounded = False
    concrete = True
    deep = True

    def __init__(self, rng, inputs=None, fuzz_scale=1.0):
        import numpy
        self.np = numpy
        self.rng = rng
        self.given = inputs or {}
        self.inputs = {}
        self.nreq = 0
        self.checked = []
        self.tol = 1e-7
        self.draws = []
        self.const_ints, self.const_reals = [], []
        self._undo = []
        self.style = rng.choice(["ties", "ties", "ties", "small", "gauss", "wide", "near"])
        base = rng.choice([0.1, 1.0, -3.7, 16777216.0, 1e-3])
        up = float(numpy.nextafter(base, numpy.inf))
        self._pool = [base, up, float(numpy.nextafter(up, numpy.inf)), base + 1e-9 * abs(base), base + 1e-6 * abs(base), base + abs(base) * 2.0 ** -23, base + 1, 0.0, -0.0]

    # -- inputs
    def _in(self, name, gen, conv=lambda v: v):
        if name in self.given and self.given[name] is not None:
            v = conv(self.given[name])
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def some(self, lo, hi, cap=120):
        """a count: usually between lo and hi, sometimes next to a number that occurs in the code under contract"""
        if self.const_ints and self.rng.random() < 0.12:
            v = self.rng.choice(self.const_ints) + self.rng.choice([0, 1, 1, 2])
            if lo <= v <= cap:
                return v
        return self.rng.randint(lo, max(lo, hi))

    def size(self, name, lo=1, hi=None, small=None):
        top = hi if hi is not None else lo + self.rng.choice([1, 2, 3, 5, 8, 12])
        v = self._in(name, lambda: self.some(lo, max(lo, top), hi if hi is not None else 260), int)
        if v < lo or v > 400:
            raise Skip("size")
        return v

    def _cov(self):
        """a covariate or split value: only ever compared, so values a rounding error apart are fair"""
        return self.rng.choice(self._pool) if self.style == "near" else self._real()

    def _real(self):
        r = self.rng
        s = self.style
        if self.const_reals and r.random() < 0.04:
            return r.choice(self.const_reals) * r.choice([1, 1, 0.5, 2, -1])
        if s == "ties":
            return float(r.choice([0, 0, 1, 1, 2, -1, 3]))
        if s == "small":
            return r.randint(-8, 8) / 2.0
        if s == "wide":
            return r.gauss(0, 1) * 10 ** r.randint(-2, 3) + r.choice([0, 0, 100, -1000])
        return r.gauss(0, 1)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        def gen():
            if lo is not None and hi is not None:
                v = self.rng.choice([lo, hi, self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), self.rng.uniform(lo, hi)])
                if (lo_open and v == lo) or (hi_open and v == hi):
                    v = self.rng.uniform(lo, hi)
                    if v in (lo, hi):
                        v = (lo + hi) / 2.0
                return v
            if lo is not None:
                return lo + abs(self._real()) + (0.125 if lo_open else 0)
            return self._cov()
        v = self._in(name, gen, float)
        if (lo is not None and (v < lo or lo_open and v <= lo)) or (hi is not None and (v > hi or hi_open and v >= hi)):
            raise Skip("range of " + name)
        return v

    def int_(self, name, lo, hi=None):
        v = self._in(name, lambda: self.rng.randint(lo, hi if hi is not None else lo + 5), int)
        if v < lo or (hi is not None and v > hi):
            raise Skip("range of " + name)
        return v

    def flag(self, name):
        return bool(self._in(name, lambda: self.rng.random() < 0.5))

    def pick(self, name, k):
        return self._in(name, lambda: self.rng.randrange(k), int)

    def index(self, name, n):
        if n <= 0:
            raise Skip("empty")
        v = self._in(name, lambda: self.rng.randrange(n), int)
        if not 0 <= v < n:
            raise Skip("index")
        return v

    def reals(self, name, n, finite=True, lo=None, hi=None):
        def gen():
            if lo is None and hi is None:
                return [self._real() for _ in range(n)]
            return [self.real("%s[%d]" % (name, i), lo, hi) for i in range(n)]
        v = self._in(name, gen)
        v = (list(v) + [self._real() for _ in range(n)])[:n]
        v = [self._real() if x is None else float(x) for x in v]
        if any((lo is not None and x < lo) or (hi is not None and x > hi) for x in v):
            raise Skip("range")
        self.inputs[name] = v
        return self.np.array(v, dtype=float)

    def bools(self, name, n):
        q = self.rng.choice([0.0, 0.2, 0.5, 0.8])
        v = self._in(name, lambda: [self.rng.random() < q for _ in range(n)])
        v = [bool(x) for x in (list(v) + [False] * n)[:n]]
        self.inputs[name] = v
        return self.np.array(v, dtype=bool)

    def ints(self, name, n, lo, hi):
        v = self._in(name, lambda: [self.rng.randint(lo, hi) for _ in range(n)])
        v = [min(max(int(x or 0), lo), hi) for x in (list(v) + [lo] * n)[:n]]
        self.inputs[name] = v
        return v

    def func(self, name, arity):
        """some function of real arguments"""
        import math
        cs = [self.rng.uniform(-2, 2) for _ in range(2 * arity + 2)]
        return lambda *a: cs[0] + sum(c * float(x) for c, x in zip(cs[1:], a)) + cs[arity + 1] * math.sin(sum(c * float(x) for c, x in zip(cs[arity + 2:], a)))

    def build(self, n, fn):
        return self.np.array([float(fn(i)) for i in range(n)])

    def indices(self, name, m, n):
        v = self._in(name, lambda: [self.rng.randrange(n) for _ in range(m)])
        v = [min(max(int(x or 0), 0), n - 1) for x in (list(v) + [0] * m)[:m]]
        self.inputs[name] = v
        return self.np.array(v, dtype=int)

    def matrix(self, name, n, p, finite=True):
        v = self._in(name, lambda: [[self._cov() for _ in range(p)] for _ in range(n)])
        v = [[(float(v[i][j]) if i < len(v) and j < len(v[i]) and v[i][j] is not None else self._cov()) for j in range(p)] for i in range(n)]
        self.inputs[name] = v
        out = self.np.array(v, dtype=float).reshape(n, p)
        k = self.rng.random()
        return out if k < 0.7 else (self.np.asfortranarray(out) if k < 0.85 else self.np.repeat(out, 2, axis=0)[::2])

    def counts(self, name, n, lo):
        """n arbitrary integers >= lo, as a function of the index"""
        v = self._in(name, lambda: [lo + self.rng.choice([0, 0, 1, 2]) for _ in range(n)])
        v = [min(max(int(x or 0), lo), 30) for x in (list(v) + [lo] * n)[:n]]
        self.inputs[name] = v
        return lambda i: v[i]

    def tensor(self, name, a, b, d):
        """arbitrary reals by three indices"""
        given, made = self.given.get(name) or [], {}
        self.inputs[name] = made_list = []

        def fn(i, j, k):
            if (i, j, k) not in made:
                try:
                    v = float(given[i][j][k])
                except (IndexError, TypeError):
                    v = self._real()
                made[(i, j, k)] = v
                while len(made_list) <= i:
                    made_list.append([])
                while len(made_list[i]) <= j:
                    made_list[i].append([])
                while len(made_list[i][j]) <= k:
                    made_list[i][j].append(0.0)
                made_list[i][j][k] = v
            return made[(i, j, k)]
        return fn

    def vector(self, n, fn):
        """the array fn(0) .. fn(n-1)"""
        return self.np.array([float(fn(i)) for i in range(n)], dtype=float)

    def truths(self, n, fn):
        """the array of booleans fn(i)"""
        return self.np.array([bool(fn(i)) for i in range(n)], dtype=bool)

    def objects(self, n, fn, values=False):
        """a list of n objects, the i-th of which is fn(i)"""
        return [fn(i) for i in range(n)]

    def loop_invariant(self, seq, where, enter, inv, owns):
        """(for the verifier)"""

    def row(self, M, i):
        """row i of a matrix, as a fresh array"""
        return M[i].copy()

    # -- logic
    def requires(self, cond):
        if not bool(cond):
            raise Skip("requires")

    def requires_forall(self, n, pred):
        for i in range(n):
            if not bool(pred(i)):
                raise Skip("requires")

    def assume(self, cond):
        """a fact that holds by construction"""
        if not bool(cond):
            raise Skip("assume")

    def ensures(self, name, cond):
        self.checked.append(name)
        if not bool(cond):
            raise Failed(name)

    def ensures_forall(self, name, n, pred):
        self.checked.append(name)
        for i in range(n):
            if not bool(pred(i)):
                raise Failed(name, "at index %d" % i)

    def forall(self, n, pred):
        return all(bool(pred(i)) for i in range(n))

    def exists(self, n, pred):
        return any(bool(pred(i)) for i in range(n))

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        a, b = float(a), float(b)
        if a == b:
            return True
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b)) * getattr(self, "slack", 1.0)

    def exact(self, a, b):
        return bool(a == b)

    def finite(self, x):
        return math.isfinite(float(x))

    def near_tie(self, a, b):
        """concrete mode: too close to decide in floating point"""
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))

    def sum(self, n, f):
        return math.fsum(float(f(i)) for i in range(n))

    def count(self, n, pred):
        return sum(1 for i in range(n) if bool(pred(i)))

    def lemma(self, v, at=()):
        """mention a term so that the facts about it (instances of the sum axioms, at the given indices) are available to the verifier"""
        return v

    def log(self, x):
        return math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan"))

    def exp(self, x):
        return math.exp(x) if x < 700 else float("inf")

    def sqrt(self, x):
        return math.sqrt(x)

    def pow(self, a, b):
        return float(a) ** float(b)

    def at(self, a, i, j=None):
        return a[i] if j is None else a[i, j]

    def range(self, n):
        return list(range(n))

    def len(self, a):
        return len(a)

    def array(self, xs):
        return self.np.array(xs)

    def copy(self, a):
        return a.copy()

    def const(self, v, n):
        return self.np.full(n, float(v))

    def frame(self, X):
        """a data frame over the matrix"""
        import pandas
        return pandas.DataFrame(X)

    def raises(self, exc, thunk):
        """(raised?, value)"""
        try:
            return False, thunk()
        except exc:
            return True, None

    # -- environment
    def patch(self, obj, attr, value):
        if isinstance(obj, str):
            obj = self.mod(obj)
        if not hasattr(obj, attr):
            raise Skip("no attribute %s to patch" % attr)
        old = obj.__dict__.get(attr, None) if not isinstance(obj, type) else obj.__dict__.get(attr)
        had = attr in obj.__dict__
        setattr(obj, attr, value)
        self._undo.append((obj, attr, old, had))

    def patch_random(self, g):
        """replace numpy.random by a stand-in that hands out labelled draws"""
        self.patch(self.np, "random", g)

    def arange(self, n, offset=0.0):
        """offset, 1 + offset, ... (n of them)"""
        return self.np.arange(n) + offset

    def record_rng(self):
        """record gamma/normal/... draws of np.random in self.draws"""
        rnd = self.np.random
        h = self
        o_gamma, o_std = rnd.gamma, rnd.standard_gamma

        def gamma(shape, scale=1.0, size=None):
            g = o_std(shape, size)
            h.draws.append(("gamma", g, dict(shape=shape, scale=scale)))
            return g * scale

        def standard_gamma(shape, size=None, **k):
            g = o_std(shape, size)
            h.draws.append(("gamma", g, dict(shape=shape, scale=1.0)))
            return g

        def chisquare(df, size=None):
            g = o_std(df / 2.0, size)
            h.draws.append(("gamma", g, dict(shape=df / 2.0, scale=2.0)))
            return 2 * g
        self.patch(rnd, "gamma", gamma)
        self.patch(rnd, "standard_gamma", standard_gamma)
        self.patch(rnd, "chisquare", chisquare)

    def cleanup(self):
        for obj, attr, old, had in reversed(self._undo):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self._undo = []

    def unsupported(self, why):
        raise Skip(why)
