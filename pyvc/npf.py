"""The numpy facade: assumed contracts of the numpy operations bartpy uses, over symbolic arrays.

Anything not listed here raises Unsupported (the obligation is then *undecided*, never assumed).
"""
import math
import types

import z3

from . import core
from .core import SNum, SBool, Opaque, Unsupported, term, numterm, boolterm, wrap, ite, divide, is_num
from .arr import (Cat, SArr, SMat, SymSeq, seq_to_arr, is_scalar, eq_, not_, and_, or_, forall_term, exists_term, mn, mx,
                  DType, norm_index, length_eq, forall_fact, add_index_term, extremum)


def cx():
    return core.CTX


class ObjArr(list):
    """1-D numpy array of dtype object (or a stack of such rows)"""

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    @property
    def ndim(self):
        return 1

    def tolist(self):
        return list(self)

    def __eq__(self, o):
        return self is o

    __hash__ = None

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return ObjArr(r) if isinstance(k, slice) else r


def to_rows(seq):
    """list of equal-length 1-D arrays -> matrix"""
    rows = [to_arr(r) for r in seq]
    p = rows[0].n
    for r in rows[1:]:
        if not length_eq(r.n, p):
            raise ValueError("inhomogeneous shape")

    fs = [r.fn for r in rows]       # (values now: later in-place updates of the rows do not reach the matrix)

    def fn(i, j):
        if isinstance(i, int):
            return fs[i](j)
        r = fs[-1](j)
        for q in range(len(fs) - 2, -1, -1):
            r = ite(wrap(term(i) == q), fs[q](j), r)
        return r
    return SMat(len(rows), p, fn, rows[0].dt)


def to_arr(x, dtype=None):
    """np.asarray"""
    if isinstance(x, (SArr, SMat)):
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, ObjArr):
        return x
    if isinstance(x, SymSeq):
        if x.tail or x.writes:
            raise Unsupported("array of a modified symbolic list")
        c = cx()
        probe = c.fresh("probe", z3.IntSort())
        c.assume_raw(z3.Implies(term(x.n) > 0, z3.And(probe >= 0, probe < term(x.n))))
        rs = c.summarize(lambda: x.elem0(SNum(probe)) if not x.ident else SNum(probe))
        vals = [v for _, v in rs]
        if vals and all(isinstance(v, SArr) for v in vals):
            get = x.get
            p = vals[0].n
            if core.mentions(term(p), probe):
                raise Unsupported("array of rows of different lengths")

            def fn(i, j):
                return summ(lambda: get(i).fn(j))
            return SMat(x.n, p, fn, "f")
        if vals and all(is_scalar(v) for v in vals):
            get = x.get
            dt = "i" if x.ident or all(_isint(v) for v in vals) else ("b" if all(isinstance(v, (bool, SBool)) for v in vals) else "f")
            return SArr(x.n, (lambda i: i) if x.ident else (lambda i: summ(lambda: get(i))), dt)
        raise Unsupported("array of symbolic list of objects")
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) and all(isinstance(v, SArr) for v in x):
            return to_rows(x)
        if len(x) and all(isinstance(v, (list, tuple)) and all(is_scalar(u) for u in v) for v in x):
            return to_rows(x)
        if all(is_scalar(v) for v in x):
            a = SArr.of_list(x)
            return a if dtype is None else a.astype(dtype)
        return ObjArr(x)
    if is_scalar(x):
        return x
    if hasattr(x, "values"):
        return to_arr(x.values)
    raise Unsupported("np.array(%s)" % type(x).__name__)


def _isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, SNum) and v.is_int)


def summ(thunk):
    """value of a thunk as one term (ite over its cases)"""
    rs = cx().summarize(thunk)
    if not rs:
        return 0
    r = rs[-1][1]
    for cond, v in rs[-2::-1]:
        r = ite(wrap(cond), v, r)
    return r


def ew(f, dtype=None):
    def g(x, *a, **kw):
        if kw:
            raise Unsupported("ufunc keyword")
        x = to_arr(x)
        if isinstance(x, (SArr, SMat)):
            return x.map(f, dtype)
        return f(x)
    return g


def ew2(op):
    def g(a, b, **kw):
        if kw:
            raise Unsupported("ufunc keyword")
        a, b = to_arr(a), to_arr(b)
        return op(a, b)
    return g


def _binmap(f, dtype=None):
    def g(a, b):
        a, b = to_arr(a), to_arr(b)
        if isinstance(a, SArr):
            return a._ew(b, f, dtype)
        if isinstance(b, SArr):
            return b._ew(a, f, dtype, True)
        if isinstance(a, SMat) or isinstance(b, SMat):
            raise Unsupported("binary ufunc on matrices")
        return f(a, b)
    return g


def full(n, v, dtype="f"):
    if isinstance(n, tuple):
        if len(n) == 1:
            n = n[0]
        elif len(n) == 2:
            return SMat(n[0], n[1], lambda i, j: v, dtype)
        else:
            raise Unsupported("3-d array")
    if isinstance(n, SNum) and not n.is_int:
        raise TypeError("float size")
    return SArr(n, lambda i: v, dtype)


def like(a, v, dtype=None):
    if isinstance(a, SMat):
        return SMat(a.n, a.p, lambda i, j: v, dtype or a.dt)
    a = to_arr(a)
    return SArr(a.n, lambda i: v, dtype or a.dt)


def reduce_(kind):
    def g(x, axis=None, **kw):
        if kw and any(v is not None and v is not False for v in kw.values()):
            raise Unsupported("reduction keyword")
        x = to_arr(x)
        if isinstance(x, SMat):
            if axis is None and kind in ("max", "min") and isinstance(x.n, int) and isinstance(x.p, int):
                return getattr(SArr.of_list([x.fn(i, j) for i in range(x.n) for j in range(x.p)]), kind)()
            return getattr(x, kind)(axis=axis)
        if isinstance(x, SArr):
            if axis not in (None, 0, -1):
                raise ValueError("axis out of bounds")
            return getattr(x, kind)()
        if is_scalar(x):
            return x
        raise Unsupported("np.%s of objects" % kind)
    return g


def _count(x):
    x = to_arr(x)
    return x.map(lambda a: ite(a if x.dt == "b" else not_(eq_(a, 0)), 1, 0), "i").sum()


def square(a):
    return a * a


def log_sc(a):
    return core.log_(a)


def where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("np.where(cond)")
    a, b = ab
    c = to_arr(c)
    if not isinstance(c, SArr):
        return ite(c, a, b)
    af = a.fn if isinstance(a, SArr) else (lambda i: a)
    bf = b.fn if isinstance(b, SArr) else (lambda i: b)
    f = c.fn
    return SArr(c.n, lambda i: ite(f(i), af(i), bf(i)), "f")


def _whole(x):
    """np.concatenate([x]) of a symbolic list"""
    try:
        return to_arr(x)
    except Unsupported:
        return x.copy()


def _cat_sym(xs):
    """concatenation of a symbolic number of arrays or lists"""
    c = cx()
    if xs.tail or xs.writes:
        raise Unsupported("concatenation of a modified symbolic list")
    c.side("need at least one array to concatenate", term(xs.n) > 0)
    probe = SNum(c.fresh("probe", z3.IntSort()))
    rs = c.summarize(lambda: xs.elem0(probe))
    if len(rs) != 1:
        raise Unsupported("concatenation of a symbolic list of different things")
    v = rs[0][1]
    if isinstance(v, SymSeq) and (v.tail or v.writes) or not isinstance(v, (SymSeq, SArr, SMat)):
        raise Unsupported("concatenation of a symbolic list of %s" % type(v).__name__)
    get = xs.elem0
    cat = Cat(xs.n, lambda q: get(q).n)
    total = wrap(cat.total)
    if isinstance(v, SMat):
        if core.mentions(term(v.p), term(probe)):
            raise Unsupported("concatenation of matrices of different widths")
        return SMat(total, v.p, lambda k, j: get(SNum(cat.ch(term(k)))).fn(SNum(cat.pos(term(k))), j), v.dt)
    if isinstance(v, SArr):
        return SArr(total, lambda k: get(SNum(cat.ch(term(k)))).fn(SNum(cat.pos(term(k)))), v.dt)
    r = SymSeq(total, lambda k: get(SNum(cat.ch(term(k)))).get(SNum(cat.pos(term(k)))))
    try:
        return to_arr(r)
    except Unsupported:
        return r


def concatenate(xs, axis=0, **kw):
    if isinstance(xs, SymSeq) and not isinstance(xs.n, int):
        if axis != 0 or kw:
            raise Unsupported("concatenate axis")
        return _cat_sym(xs)
    xs = list(xs)
    if all(isinstance(x, SymSeq) and not isinstance(x.n, int) for x in xs) and len(xs) == 1 and axis == 0 and not kw:
        return xs[0] if not isinstance(xs[0], SymSeq) else _whole(xs[0])
    ys = [to_arr(x) if not isinstance(x, ObjArr) else x for x in xs]
    if not ys:
        raise ValueError("need at least one array to concatenate")
    nz = [y for y in ys if not (isinstance(y, SArr) and y.concrete() and y.n == 0)]
    if not nz:
        return ys[0]
    if any(isinstance(y, ObjArr) for y in nz):
        out = ObjArr()
        for y in ys:
            out.extend(list(y) if isinstance(y, (ObjArr, list)) else y.vals())
        return out
    if len(nz) != len(ys) and any(isinstance(y, SMat) for y in nz):
        raise ValueError("all the input array dimensions must match")
    if all(isinstance(y, SMat) for y in ys):
        if axis != 0:
            raise Unsupported("concatenate axis")
        if not all(isinstance(y.n, int) for y in ys):
            raise Unsupported("concatenate of symbolic matrices")
        rows = []
        for y in ys:
            rows += [y._row(i) for i in range(y.n)]
        return to_rows(rows)
    if all(isinstance(y, SArr) for y in ys):
        if all(y.concrete() for y in ys):
            out = []
            for y in ys:
                out += y.vals()
            return SArr.of_list(out)
        r = ys[0]
        for y in ys[1:]:
            r = _cat2(r, y)
        return r
    raise Unsupported("concatenate of mixed arrays")


def _cat2(a, b):
    f, g, n = a.fn, b.fn, a.n
    return SArr(a.n + b.n, lambda i: ite(wrap(term(i) < term(n)), f(i), g(i - n)), a.dt)


def unique(x, **kw):
    if kw:
        raise Unsupported("np.unique keywords")
    x = to_arr(x)
    if x.concrete():
        vs = x.vals()
        out = []
        for v in vs:
            dup = False
            for u in out:
                if bool(eq_(u, v)):
                    dup = True
                    break
            if not dup:
                out.append(v)
        return SArr.of_list(sort_list(out), x.dt)
    # only the number of distinct values is modelled
    c = cx()
    cnt = c.fresh("nuniq", z3.IntSort())
    f = x.fn
    c.assume_raw(z3.And(cnt >= 0, cnt <= term(x.n), z3.Implies(term(x.n) > 0, cnt >= 1)))
    i, j = z3.Ints("i!u j!u")
    if x.origin is not None:
        # in terms of the underlying rows of the filter (same set of values)
        flt, g = x.origin
        ins = lambda r: z3.And(0 <= r, r < term(flt.N), boolterm(flt.sel(SNum(r))))
        val, N = g, flt.N
    else:
        ins = lambda r: z3.And(0 <= r, r < term(x.n))
        val, N = f, x.n
    distinct = lambda a, b: z3.Implies(z3.And(ins(a), ins(b), a != b), numterm(val(SNum(a))) != numterm(val(SNum(b))))
    c.assume_raw(z3.Implies(cnt == term(x.n), z3.ForAll([i, j], distinct(i, j))))
    # fewer distinct values than entries: two equal entries exist
    a, b = c.fresh("dupa", z3.IntSort()), c.fresh("dupb", z3.IntSort())
    c.assume_raw(z3.Implies(cnt < term(x.n), z3.And(ins(a), ins(b), a != b, numterm(val(SNum(a))) == numterm(val(SNum(b))))))
    add_index_term(a)
    add_index_term(b)
    # exactly one distinct value iff all equal
    c.uniq.append((cnt, x.n, ins, val))
    for s in list(c.index_terms)[:10]:
        for t in list(c.index_terms)[:10]:
            if s is not t:
                c.assume_raw(z3.Implies(cnt == term(x.n), distinct(s, t)))
                c.assume_raw(z3.Implies(cnt == 1, z3.Implies(z3.And(ins(s), ins(t)), numterm(val(SNum(s))) == numterm(val(SNum(t))))))
    u1, u2 = c.fresh("ua", z3.IntSort()), c.fresh("ub", z3.IntSort())
    c.assume_raw(z3.Implies(cnt > 1, z3.And(ins(u1), ins(u2), numterm(val(SNum(u1))) != numterm(val(SNum(u2))))))
    add_index_term(u1)
    add_index_term(u2)

    def no(i):
        raise Unsupported("elements of np.unique of a symbolic array")
    return SArr(SNum(cnt), no, x.dt)


def sort_list(vs):
    out = []
    for v in vs:
        k = len(out)
        for q in range(len(out)):
            if bool(v < out[q]):
                k = q
                break
        out.insert(k, v)
    return out


def sort_(x, **kw):
    x = to_arr(x)
    if not isinstance(x, SArr) or not x.concrete():
        raise Unsupported("sort of a symbolic array")
    return SArr.of_list(sort_list(x.vals()), x.dt)


def quantile_(x, q, scale=1, **kw):
    if kw:
        raise Unsupported("quantile keyword")
    x = to_arr(x)
    if isinstance(x, SMat) or not x.concrete():
        raise Unsupported("quantile of a symbolic array")
    vs = sort_list(x.vals())
    n = len(vs)
    pos = divide(q, scale) * (n - 1)
    if is_num(pos):
        import fractions
        pos = fractions.Fraction(str(pos)) if not isinstance(pos, fractions.Fraction) else pos
        lo = math.floor(pos)
        hi = min(lo + 1, n - 1)
        g = pos - lo
        return vs[lo] + (vs[hi] - vs[lo]) * float(g)
    c = cx()
    if not bool(and_(pos >= 0, pos <= n - 1)):
        raise ValueError("Quantiles must be in the range [0, 1]")
    for lo in range(n - 1):
        if bool(pos < lo + 1):
            return vs[lo] + (vs[lo + 1] - vs[lo]) * (pos - lo)
    return vs[n - 1]


def clip(x, a, b):
    f = lambda v: mn(mx(v, a) if a is not None else v, b) if b is not None else mx(v, a)
    x = to_arr(x)
    return x.map(f) if isinstance(x, (SArr, SMat)) else f(x)


def argext(is_max):
    def g(x, axis=None):
        x = to_arr(x)
        if not isinstance(x, SArr):
            raise Unsupported("argmax")
        c = cx()
        m = extremum(x, is_max)
        if x.concrete():
            for i in range(x.n):
                if bool(eq_(x.fn(i), m)):
                    return i
        k = c.fresh("arg", z3.IntSort())
        f = x.fn
        c.assume_raw(z3.And(0 <= k, k < term(x.n), numterm(f(SNum(k))) == term(m)))
        forall_fact(x.n, lambda i: or_(wrap(term(i) >= k), not_(eq_(f(i), m))))
        add_index_term(k)
        return SNum(k)
    return g


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    raise Unsupported("np.allclose")


def array_equal(a, b):
    a, b = to_arr(a), to_arr(b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        if not length_eq(a.n, b.n):
            return False
        return (a == b).all()
    raise Unsupported("array_equal")


def isnan(x):
    x = to_arr(x)
    return x.map(lambda a: False, "b") if isinstance(x, (SArr, SMat)) else False


def isfinite(x):
    x = to_arr(x)
    def f(a):
        return and_(wrap(numterm(a) < core.PINF()), wrap(numterm(a) > core.NINF()))
    return x.map(f, "b") if isinstance(x, (SArr, SMat)) else f(x)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, SMat, ObjArr))


class ndarray(metaclass=_NdMeta):
    pass


class _ScMeta(type):
    def __instancecheck__(cls, x):
        if cls.vcname in ("int64", "int32", "integer"):
            return isinstance(x, SNum) and x.is_int
        if cls.vcname == "bool_":
            return isinstance(x, SBool)
        return isinstance(x, SNum) and not x.is_int

    def __call__(cls, x=0):
        if cls.vcname.startswith("int"):
            return builtin_int(x)
        if cls.vcname == "bool_":
            return wrap(boolterm(x))
        return builtin_float(x)


def _mk(name):
    return _ScMeta(name, (), {"vcname": name})


def builtin_float(x=0.0):
    if isinstance(x, SNum):
        return SNum(core.to_real(x.e))
    if isinstance(x, SBool):
        return SNum(core.to_real(numterm(x)))
    if isinstance(x, SArr) and x.concrete() and x.n == 1:
        return builtin_float(x.fn(0))
    return float(x)


def builtin_int(x=0, *a):
    if isinstance(x, SBool):
        return wrap(numterm(x))
    if isinstance(x, SNum):
        if x.is_int:
            return x
        fl = core.floor_(x)
        return ite(x >= 0, fl, -core.floor_(-x))
    return int(x, *a)


class Rng(object):
    """np.random: every draw is an arbitrary value of the distribution's support, recorded for contracts and replay"""

    def __init__(self, name="random"):
        pass

    def _rec(self, kind, val, **kw):
        cx().draws.append((kind, val, kw))
        return val

    def _n(self, size):
        if isinstance(size, tuple):
            if len(size) != 1:
                raise Unsupported("multi-dimensional draw")
            size = size[0]
        return size

    def _vec(self, kind, size, lo=None, hi=None, **kw):
        c = cx()
        size = self._n(size)
        if isinstance(size, int) and size <= 64:
            return SArr.of_list([self._one(kind, lo, hi, **kw) for _ in range(size)], "f") if size else SArr(0, lambda i: 0.0)
        fn = c.fresh_fn("draw_" + kind, z3.IntSort(), z3.RealSort())
        if lo is not None:
            i = z3.Int("i!d")
            c.assume_raw(z3.ForAll([i], z3.And(fn(i) >= lo, fn(i) < hi)))
        batch = c.batch = getattr(c, "batch", 0) + 1
        a = SArr(size, lambda i: SNum(fn(term(i))), "f")
        a.draw = (kind, batch, fn)
        self._rec(kind + "_vec", a, size=size, **kw)
        return a

    def _one(self, kind, lo=None, hi=None, **kw):
        c = cx()
        v = c.fresh("draw_" + kind, z3.RealSort())
        if lo is not None:
            c.assume_raw(z3.And(v >= lo, v < hi))
        return self._rec(kind, SNum(v), **kw)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            z = self._one("normal")
            return loc + scale * z if not (is_num(loc) and loc == 0 and is_num(scale) and scale == 1) else z
        z = self._vec("normal", size)
        if is_num(loc) and loc == 0 and is_num(scale) and scale == 1:
            return z
        return z * scale + loc

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *s):
        return self.normal(size=s[0]) if len(s) == 1 else self.normal() if not s else self._u()

    def _u(self):
        raise Unsupported("multi-dimensional draw")

    def uniform(self, low=0.0, high=1.0, size=None):
        std = is_num(low) and low == 0 and is_num(high) and high == 1
        u = self._one("uniform", 0, 1) if size is None else self._vec("uniform", size, 0, 1)
        return u if std else u * (high - low) + low

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = random

    def rand(self, *s):
        return self.uniform(size=s[0]) if len(s) == 1 else self.uniform()

    def gamma(self, shape, scale=1.0, size=None):
        if size is not None:
            raise Unsupported("gamma size")
        c = cx()
        c.side("gamma with non-positive shape", core.to_real(numterm(shape)) > 0)
        c.side("gamma with negative scale", core.to_real(numterm(scale)) >= 0)
        g = c.fresh("draw_gamma", z3.RealSort())
        c.assume_raw(g > 0)
        self._rec("gamma", SNum(g), shape=shape, scale=scale)
        return SNum(g) * scale

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def chisquare(self, df, size=None):
        return self.gamma(divide(df, 2), 2.0, size)

    def choice(self, a, size=None, replace=True, p=None):
        c = cx()
        if isinstance(a, (int, SNum)):
            a = SymSeq(a, lambda i: i, ident=True) if isinstance(a, SNum) else list(range(a))
        if isinstance(a, tuple):
            a = list(a)
        if size is not None:
            size = self._n(size)
            if isinstance(size, int) and size == 1:
                return SArrObj([self._choice1(a, p)])
            return self._choice_vec(a, size, p)
        return self._choice1(a, p)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is not None:
            raise Unsupported("np.random.randint of a vector")
        n = high - low
        if isinstance(n, int) and n <= 0 or not isinstance(n, int) and not cx().fork(term(n) > 0):
            raise ValueError("low >= high")
        return low + self.choice(n)

    def random_integers(self, low, high=None, size=None):
        return self.randint(1, low + 1, size) if high is None else self.randint(low, high + 1, size)

    def _support(self, a, p):
        if p is None:
            return None
        return list(p)

    def _choice1(self, a, p=None):
        c = cx()
        if isinstance(a, SArr) and a.concrete():
            vals = a.vals()
            if not vals:
                raise ValueError("'a' cannot be empty unless no samples are taken")
            k = SNum(c.fresh("draw_choice", z3.IntSort()))
            c.assume_raw(z3.And(term(k) >= 0, term(k) < len(vals)))
            for q in range(len(vals)):
                if q == len(vals) - 1 or bool(wrap(term(k) == q)):
                    self._rec("choice", q, n=len(vals), of=vals, p=p)
                    return vals[q]
        if isinstance(a, (SArr, SymSeq)):
            n = a.n
            if not c.fork(term(n) > 0):
                raise ValueError("'a' cannot be empty unless no samples are taken")
            k = c.fresh("draw_choice", z3.IntSort())
            c.assume_raw(z3.And(k >= 0, k < term(n)))
            add_index_term(k)
            self._rec("choice", SNum(k), n=n, of=a, p=p)
            org = getattr(a, "origin", None) if isinstance(a, SArr) else None
            if org is not None:
                # value of a row selected by the filter
                flt, g = org
                add_index_term(flt.e(k))
                return a.fn(SNum(k))
            return a.get(SNum(k))
        vals = list(a)
        if not vals:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        idx = list(range(len(vals)))
        if p is not None:
            idx = [q for q in idx if bool(wrap(numterm(p[q]) > 0))]
        q = idx[c.choose(len(idx))]
        self._rec("choice", q, n=len(vals), of=vals, p=p)
        return vals[q]

    def _choice_vec(self, a, size, p):
        c = cx()
        if isinstance(size, int) and size <= 4:
            return ObjArr([self._choice1(a, p) for _ in range(size)])
        # lazily decided draws
        vals = list(a) if not isinstance(a, (SArr, SymSeq)) else a
        rng = self
        memo = {}

        def elem(i):
            key = z3.simplify(term(i)).sexpr()
            if key not in memo:
                memo[key] = rng._choice1(vals, p)
            return memo[key]
        s = SymSeq(size, elem)
        s.draw = ("choice", vals, p)
        self._rec("choice_vec", s, of=vals, p=p, size=size)
        return s

    def permutation(self, x):
        c = cx()
        if is_scalar(x):
            x = SArr(x, lambda i: i, "i")
        x = to_arr(x)
        if not isinstance(x, SArr):
            raise Unsupported("permutation of a matrix")
        pi = c.fresh_fn("perm", z3.IntSort(), z3.IntSort())
        if x.concrete():
            for i in range(x.n):
                c.assume_raw(z3.And(pi(i) >= 0, pi(i) < x.n))
            if x.n > 1:
                c.assume_raw(z3.Distinct(*[pi(z3.IntVal(i)) for i in range(x.n)]))
        else:
            i, j = z3.Ints("i!p j!p")
            n = term(x.n)
            c.assume_raw(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pi(i), pi(i) < n))))
            c.assume_raw(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), pi(i) != pi(j))))
        f = x.fn
        r = SArr(x.n, lambda i: f(SNum(pi(term(i)))), x.dt)
        self._rec("permutation", r, of=x, pi=pi)
        return r

    def shuffle(self, x):
        if isinstance(x, SArr):
            x[:] = self.permutation(x.copy())
            return
        raise Unsupported("shuffle of a list")

    def seed(self, s=None):
        cx().notes.add("np.random.seed called")

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        raise Unsupported("np.random.%s" % k)


def SArrObj(vals):
    return SArr.of_list(vals) if all(is_scalar(v) for v in vals) else ObjArr(vals)


def dot(a, b):
    a, b = to_arr(a), to_arr(b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        return (a * b).sum()
    raise Unsupported("dot")


def prod(x, **kw):
    x = to_arr(x)
    r = 1
    for v in x.vals():
        r = r * v
    return r


def arange(*a, **kw):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("arange step")
    if isinstance(lo, int) and isinstance(hi, int):
        return SArr.of_list(list(range(lo, hi)), "i")
    return SArr(mx(hi - lo, 0), lambda i: i + lo, "i")


def array(x, dtype=None, copy=True, **kw):
    r = to_arr(x, dtype)
    if isinstance(r, (SArr, SMat)):
        return r.copy()
    return r


def nonzero_idx(x):
    x = to_arr(x)
    if x.concrete():
        return SArr.of_list([i for i in range(x.n) if bool(x.fn(i) if x.dt == "b" else not_(eq_(x.fn(i), 0)))], "i")
    return SArr(x.n, lambda i: i, "i")[x if x.dt == "b" else (x != 0)]


def cumsum(x, **kw):
    x = to_arr(x)
    out, t = [], 0
    for v in x.vals():
        t = t + v
        out.append(t)
    return SArr.of_list(out)


def outer_minmax(is_max):
    return _binmap(mx if is_max else mn)


def power(a, b):
    a, b = to_arr(a), to_arr(b)
    if isinstance(a, SArr):
        return a ** b
    if isinstance(b, SArr):
        return b._ew(a, core.power, "f", True)
    return core.power(a, b)


class NumpyModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        raise Unsupported("np.%s" % k)


def make_numpy():
    m = NumpyModule("numpy")
    d = m.__dict__
    d.update(
        array=array, asarray=lambda x, dtype=None, **k: to_arr(x, dtype), asanyarray=to_arr, ascontiguousarray=to_arr,
        copy=lambda x: to_arr(x).copy(),
        zeros=lambda n, dtype=None: full(n, False if _nm(dtype) == "bool" else (0 if _nm(dtype) in ("int", "int64") else 0.0), _dt(dtype)),
        ones=lambda n, dtype=None: full(n, True if _nm(dtype) == "bool" else 1.0, _dt(dtype)),
        full=lambda n, v, dtype=None: full(n, v, "b" if isinstance(v, (bool, SBool)) else _dt(dtype)),
        zeros_like=lambda a, dtype=None: like(a, False if _nm(dtype) == "bool" or (dtype is None and _dtof(a) == "b") else 0.0, _dt(dtype) if dtype else None),
        ones_like=lambda a, dtype=None: like(a, True if _nm(dtype) == "bool" or (dtype is None and _dtof(a) == "b") else 1.0, _dt(dtype) if dtype else None),
        full_like=lambda a, v, dtype=None: like(a, v, "b" if isinstance(v, (bool, SBool)) else (_dt(dtype) if dtype else None)),
        empty=lambda n, dtype=None: _empty(n, dtype),
        sum=reduce_("sum"), mean=reduce_("mean"), min=reduce_("min"), max=reduce_("max"), amin=reduce_("min"), amax=reduce_("max"),
        any=reduce_("any"), all=reduce_("all"), var=lambda x, **k: to_arr(x).var(**k), std=lambda x, **k: to_arr(x).std(**k),
        average=reduce_("mean"),
        ptp=lambda x: to_arr(x).max() - to_arr(x).min(),
        square=ew(square), sqrt=ew(core.sqrt_), log=ew(log_sc), exp=ew(core.exp_), abs=ew(abs), absolute=ew(abs), fabs=ew(abs), negative=ew(lambda a: -a),
        log1p=ew(lambda a: core.log_(a + 1)),
        floor=ew(core.floor_), ceil=ew(lambda a: -core.floor_(-a)), sign=ew(lambda a: ite(a > 0, 1, ite(a < 0, -1, 0))),
        isnan=isnan, isfinite=isfinite, isinf=lambda x: _notarr(isfinite(x)),
        power=power, float_power=power,
        add=ew2(lambda a, b: a + b), subtract=ew2(lambda a, b: a - b), multiply=ew2(lambda a, b: a * b),
        divide=ew2(lambda a, b: a / b if isinstance(a, Opaque) or isinstance(b, Opaque) else divide(a, b)), true_divide=ew2(lambda a, b: a / b),
        less=ew2(lambda a, b: a < b), less_equal=ew2(lambda a, b: a <= b), greater=ew2(lambda a, b: a > b), greater_equal=ew2(lambda a, b: a >= b),
        equal=ew2(lambda a, b: a == b), not_equal=ew2(lambda a, b: a != b),
        maximum=outer_minmax(True), minimum=outer_minmax(False), mod=ew2(lambda a, b: a % b), fmod=ew2(lambda a, b: a % b),
        logical_and=_binmap(and_, "b"), logical_or=_binmap(or_, "b"), logical_not=ew(not_, "b"), invert=ew(not_, "b"), bitwise_not=ew(not_, "b"),
        bitwise_and=_binmap(and_, "b"), bitwise_or=_binmap(or_, "b"), logical_xor=_binmap(lambda a, b: wrap(z3.Xor(boolterm(a), boolterm(b))), "b"),
        where=where, concatenate=concatenate, unique=unique, sort=sort_, clip=clip, dot=dot, inner=dot, prod=prod, cumsum=cumsum, vdot=dot,
        quantile=lambda x, q, **k: quantile_(x, q, 1, **k), percentile=lambda x, q, **k: quantile_(x, q, 100, **k), median=lambda x, **k: quantile_(x, 0.5, 1, **k),
        argmax=argext(True), argmin=argext(False), arange=arange, count_nonzero=_count, flatnonzero=nonzero_idx, nonzero=lambda x: (nonzero_idx(x),),
        array_equal=array_equal, vstack=lambda xs: to_rows(list(xs)), stack=lambda xs, axis=0: to_rows(list(xs)), hstack=concatenate,
        append=lambda a, b: concatenate([a, b if not is_scalar(b) else [b]]),
        ndarray=ndarray, float64=_mk("float64"), float32=_mk("float64"), int64=_mk("int64"), int32=_mk("int64"), integer=_mk("integer"),
        bool_=_mk("bool_"), floating=_mk("float64"), number=_mk("float64"),
        inf=float("inf"), pi=math.pi, e=math.e, newaxis=None, nan=float("nan"), infty=float("inf"),
        ndim=lambda x: to_arr(x).ndim if isinstance(x, (Opaque, list)) else 0, shape=lambda x: to_arr(x).shape, size=lambda x: to_arr(x).size,
        squeeze=lambda x: x, ravel=lambda x: to_arr(x).ravel(), isscalar=is_scalar,
        random=Rng(), errstate=_errstate, seterr=lambda **k: {},
        finfo=_finfo, ma=_ma(),
    )
    return m


class _finfo(object):
    def __init__(self, t=None):
        self.eps = 2.220446049250313e-16
        self.max = 1.7976931348623157e308
        self.min = -1.7976931348623157e308
        self.tiny = 2.2250738585072014e-308


class _errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _ma():
    m = NumpyModule("numpy.ma")
    c = NumpyModule("numpy.ma.core")

    class MaskedConstant(object):
        pass

    class MaskedArray(object):
        pass
    c.__dict__["MaskedConstant"] = MaskedConstant
    m.__dict__.update(core=c, MaskedArray=MaskedArray, masked=MaskedConstant())
    return m


def _notarr(r):
    return ~r if isinstance(r, (SArr, SMat)) else not_(r)


def _empty(n, dtype=None):
    c = cx()
    if isinstance(n, tuple):
        raise Unsupported("np.empty matrix")
    fn = c.fresh_fn("empty", z3.IntSort(), z3.RealSort())
    return SArr(n, lambda i: SNum(fn(term(i))), "f")


def _nm(t):
    return getattr(t, "vcname", getattr(t, "__name__", str(t))) if t is not None else None


def _dt(t):
    n = _nm(t)
    if n in ("bool", "bool_"):
        return "b"
    if n in ("int", "int64", "int32"):
        return "i"
    return "f"


def _dtof(a):
    return getattr(a, "dt", "f")


def make_math():
    m = NumpyModule("math")

    def lift(f, g):
        def h(x):
            return f(x) if isinstance(x, Opaque) else g(x)
        return h
    m.__dict__.update(
        log=lambda x, *b: (core.log_(x) if not b else divide(core.log_(x), core.log_(b[0]))) if isinstance(x, Opaque) else math.log(x, *b),
        exp=lift(core.exp_, math.exp), sqrt=lift(core.sqrt_, math.sqrt), floor=lift(core.floor_, math.floor),
        ceil=lift(lambda a: -core.floor_(-a), math.ceil), pow=lambda a, b: core.power(a, b), fabs=lift(abs, math.fabs),
        isnan=lambda x: False if isinstance(x, Opaque) else math.isnan(x), isinf=lambda x: not_(isfinite(x)) if isinstance(x, Opaque) else math.isinf(x),
        log1p=lift(lambda a: core.log_(a + 1), math.log1p), inf=math.inf, pi=math.pi, e=math.e, nan=math.nan,
        isfinite=lambda x: isfinite(x) if isinstance(x, Opaque) else math.isfinite(x))
    return m
