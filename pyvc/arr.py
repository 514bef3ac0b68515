"""Symbolic numpy arrays (1-D, 2-D) and symbolic-length python sequences."""
import z3

from . import core
from .core import (SNum, SBool, Opaque, Unsupported, PathDead, term, numterm, boolterm, wrap, ite, divide, is_num)


def cx():
    return core.CTX


def is_scalar(x):
    return isinstance(x, (SNum, SBool)) or is_num(x)


def length_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(term(a) == term(b))
    if z3.is_true(e):
        return True
    return cx().fork(e)


def lt(a, b):
    return a < b


class Filt(object):
    """order preserving enumeration of {r < N : sel(r)} (boolean mask indexing / comprehension filters)"""

    def __init__(self, N, sel):
        c = cx()
        self.N, self.sel = N, sel
        self.count = c.sum(N, lambda r: ite(sel(r), 1, 0), integer=True)
        e = c.fresh_fn("emb", z3.IntSort(), z3.IntSort())
        inv = c.fresh_fn("inv", z3.IntSort(), z3.IntSort())
        self.e, self.inv = e, inv
        k, l, r = z3.Ints("k!q l!q r!q")
        n, cnt = term(N), term(self.count)
        c.assume_raw(cnt >= 0)
        c.assume_raw(cnt <= n)
        c.assume_raw(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt),
                                               z3.And(0 <= e(k), e(k) < n, boolterm(sel(SNum(e(k)))), inv(e(k)) == k)),
                               patterns=[e(k)]))
        body = z3.Implies(z3.And(0 <= r, r < n, boolterm(sel(SNum(r)))),
                          z3.And(0 <= inv(r), inv(r) < cnt, e(inv(r)) == r))
        c.assume_raw(z3.ForAll([r], body))
        for t in list(c.index_terms):
            c.assume_raw(z3.substitute(body, (r, t)))
        c.univ.append((r, body))
        c.assume_raw(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < cnt), e(k) < e(l)),
                               patterns=[z3.MultiPattern(e(k), e(l))]))

    def at(self, k):
        return SNum(self.e(term(k)))


def get_filt(N, sel):
    c = cx()
    body = boolterm(c.under(core.KVAR, sel))
    key = (term(N).sexpr(), z3.simplify(body).sexpr())
    if c.sub:
        raise Unsupported("boolean indexing inside a summarised expression")
    if key not in c.filts:
        c.filts[key] = Filt(N, sel)
    return c.filts[key]


def add_index_term(t, front=False):
    """register a row/element index at which universal facts are instantiated"""
    c = cx()
    t = term(t)
    if any(z3.eq(t, x) for x in c.index_terms):
        return
    if front:
        c.index_terms.insert(0, t)
    else:
        c.index_terms.append(t)
    for v, body in c.univ:
        c.assume_raw(z3.substitute(body, (v, t)))


def forall_fact(N, pred):
    """assume: for all 0<=i<N pred(i)"""
    c = cx()
    if isinstance(N, int):
        for i in range(N):
            c.assume(pred(i))
        return
    i = z3.Int("i!q%d" % c.nq())
    p = c.under(i, pred)
    if p is True:
        return
    body = z3.Implies(z3.And(0 <= i, i < term(N)), boolterm(p))
    c.assume_raw(z3.ForAll([i], body))
    for t in list(c.index_terms):
        c.assume_raw(z3.substitute(body, (i, t)))
    c.univ.append((i, body))


def forall_term(N, pred):
    """z3 Bool for: for all 0<=i<N pred(i)"""
    if isinstance(N, int):
        return z3.And([boolterm(pred(i)) for i in range(N)]) if N else z3.BoolVal(True)
    i = z3.Int("i!q%d" % cx().nq())
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < term(N)), boolterm(cx().under(i, pred))))


def exists_term(N, pred):
    if isinstance(N, int):
        return z3.Or([boolterm(pred(i)) for i in range(N)]) if N else z3.BoolVal(False)
    i = z3.Int("i!q%d" % cx().nq())
    return z3.Exists([i], z3.And(0 <= i, i < term(N), boolterm(cx().under(i, pred))))


def pick(values, i):
    """values: python list of scalars, i symbolic index"""
    r = values[-1]
    for j in range(len(values) - 2, -1, -1):
        r = ite(wrap(term(i) == j), values[j], r)
    return r


def norm_index(i, n):
    if isinstance(i, bool):
        raise Unsupported("bool index")
    if hasattr(i, "item") and not isinstance(i, Opaque):
        i = i.item()
    if isinstance(i, int) and i < 0:
        i = n + i
    if isinstance(i, int) and isinstance(n, int):
        if not 0 <= i < n:
            raise IndexError("index out of bounds")
        return i
    inb = z3.simplify(z3.And(term(i) >= 0, term(i) < term(n)))
    c = cx()
    if z3.is_true(inb) or c.sub:
        return i
    if not c.fork(inb):
        # negative python style index
        neg = wrap(z3.And(term(i) < 0, term(i) >= -term(n)))
        if bool(neg):
            return i + n
        raise IndexError("index out of bounds")
    return i


class SArr(Opaque):
    __array_ufunc__ = None

    def __init__(self, n, fn, dtype="f", origin=None, view=False):
        self.n, self.fn, self.dt, self.origin, self.view = n, fn, dtype, origin, view

    # -- construction helpers
    @staticmethod
    def of_list(vals, dtype=None):
        vals = list(vals)
        if dtype is None:
            dtype = "b" if vals and all(isinstance(v, (bool, SBool)) for v in vals) else "f"
            if vals and all((isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, SNum) and v.is_int) for v in vals):
                dtype = "i"
        vs = list(vals)

        def fn(i):
            if isinstance(i, int):
                return vs[i]
            if not vs:
                raise Unsupported("symbolic index into empty array")
            return pick(vs, i)
        return SArr(len(vs), fn, dtype)

    def get(self, i):
        return self.fn(i)

    def concrete(self):
        return isinstance(self.n, int)

    def vals(self):
        if not self.concrete():
            raise Unsupported("enumerating an array of symbolic length")
        return [self.fn(i) for i in range(self.n)]

    # -- python protocol
    @property
    def __class__(self):
        return SArr

    def __len__(self):
        if self.concrete():
            return self.n
        raise Unsupported("len() of a symbolic array through C code")

    def __iter__(self):
        if self.concrete():
            return iter(self.vals())
        raise Unsupported("iterating an array of symbolic length outside an instrumented loop")

    def __bool__(self):
        if self.concrete() and self.n == 1:
            return bool(self.fn(0))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __hash__(self):
        return id(self)

    def __contains__(self, x):
        return bool(wrap(exists_term(self.n, lambda i: self.fn(i) == x)))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, list):
            k = SArr.of_list(k)
        if isinstance(k, SymSeq):
            k = seq_to_arr(k)
        if isinstance(k, SArr):
            if k.dt == "b":
                return self._filter(k)
            f, g = self.fn, k.fn
            return SArr(k.n, lambda i: f(g(i)), self.dt)
        if k is Ellipsis:
            return self
        if k is None:
            raise Unsupported("newaxis")
        if is_scalar(k) or hasattr(k, "__index__"):
            return self.fn(norm_index(k, self.n))
        raise Unsupported("array index %s" % type(k).__name__)

    def _slice(self, s):
        a, b, st = s.start, s.stop, s.step
        n, f = self.n, self.fn
        if a is None and b is None and st in (None, 1):
            r = SArr(n, f, self.dt, self.origin, view=True)
            r.base = self
            return r
        if st == -1 and a is None and b is None:
            return SArr(n, lambda i: f(n - 1 - i), self.dt, view=True)
        if st not in (None, 1):
            raise Unsupported("slice step")
        a = 0 if a is None else a
        b = n if b is None else b
        if isinstance(a, int) and a < 0:
            a = n + a
        if isinstance(b, int) and b < 0:
            b = n + b
        if isinstance(a, int) and isinstance(b, int) and isinstance(n, int):
            a, b = max(0, min(a, n)), max(0, min(b, n))
            m = max(0, b - a)
        else:
            a, b = mn(a, n), mn(b, n)
            m = mx(b - a, 0)
        return SArr(m, lambda i: f(i + a), self.dt, view=True)

    def _filter(self, k):
        if not length_eq(self.n, k.n):
            raise IndexError("boolean index did not match indexed array")
        if self.concrete():
            idx = [i for i in range(self.n) if bool(k.fn(i))]
            f = self.fn
            return SArr(len(idx), lambda i: f(idx[i]) if isinstance(i, int) else pick([f(j) for j in idx], i), self.dt)
        flt = get_filt(self.n, k.fn)
        f = self.fn
        if self.origin is not None:
            o = self.origin
            return SArr(flt.count, lambda i: f(flt.at(i)), self.dt)
        return SArr(flt.count, lambda i: f(flt.at(i)), self.dt, origin=(flt, f))

    def __setitem__(self, k, v):
        if self.view:
            raise Unsupported("write through an array view")
        f = self.fn
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step in (None, 1):
                if isinstance(v, SArr):
                    if not length_eq(v.n, self.n):
                        raise ValueError("could not broadcast input array")
                    g = v.fn
                    self.fn = lambda i: g(i)
                else:
                    self.fn = lambda i: v
                return
            raise Unsupported("slice assignment")
        if isinstance(k, SArr) and k.dt == "b":
            if not length_eq(self.n, k.n):
                raise IndexError("boolean index did not match indexed array along axis 0")
            m = k.fn
            if is_scalar(v):
                self.fn = lambda i: ite(m(i), v, f(i))
                return
            if isinstance(v, SArr):
                if isinstance(v.n, int) and v.n == 1:
                    v0 = v.fn(0)
                    self.fn = lambda i: ite(m(i), v0, f(i))
                    return
                if self.concrete():
                    idx = [i for i in range(self.n) if bool(m(i))]
                    if len(idx) != v.n:
                        raise ValueError("NumPy boolean array indexing assignment mismatch")
                    vs = {j: v.fn(q) for q, j in enumerate(idx)}
                    self.fn = _dictfn(vs, f)
                    return
                if v.origin is not None:
                    flt, g = v.origin
                    if flt is get_filt(self.n, m):
                        self.fn = lambda i: ite(m(i), g(i), f(i))
                        return
            raise Unsupported("masked assignment")
        if is_scalar(k):
            k = norm_index(k, self.n)
            if isinstance(k, int) and self.concrete():
                self.fn = _dictfn({k: v}, f)
            else:
                self.fn = lambda i: ite(wrap(term(i) == term(k)), v, f(i))
            return
        raise Unsupported("array assignment index %s" % type(k).__name__)

    # -- elementwise
    def _ew(self, o, op, dtype=None, rev=False):
        if isinstance(o, SMat):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = SArr.of_list(o)
        if isinstance(o, SymSeq):
            o = seq_to_arr(o)
        f = self.fn
        dt = dtype or self.dt
        if is_scalar(o) or o is None:
            if o is None:
                raise TypeError("unsupported operand type(s): array and NoneType")
            fn = (lambda i: op(o, f(i))) if rev else (lambda i: op(f(i), o))
            org = None
            if self.origin:
                g = self.origin[1]
                org = (self.origin[0], (lambda i: op(o, g(i))) if rev else (lambda i: op(g(i), o)))
            return SArr(self.n, fn, dt, org)
        if isinstance(o, SArr):
            if o is not self and not length_eq(self.n, o.n):
                if isinstance(o.n, int) and o.n == 1:
                    return self._ew(o.fn(0), op, dtype, rev)
                if isinstance(self.n, int) and self.n == 1:
                    return o._ew(self.fn(0), op, dtype, not rev)
                raise ValueError("operands could not be broadcast together")
            h = o.fn
            fn = (lambda i: op(h(i), f(i))) if rev else (lambda i: op(f(i), h(i)))
            org = None
            if self.origin and o.origin and self.origin[0] is o.origin[0]:
                g1, g2 = self.origin[1], o.origin[1]
                org = (self.origin[0], (lambda i: op(g2(i), g1(i))) if rev else (lambda i: op(g1(i), g2(i))))
            if dtype is None and o.dt == "f":
                dt = "f"
            return SArr(self.n, fn, dt, org)
        return NotImplemented

    def __add__(self, o): return self._ew(o, lambda a, b: a + b, self._ndt())
    def __radd__(self, o): return self._ew(o, lambda a, b: a + b, self._ndt(), True)
    def __sub__(self, o): return self._ew(o, lambda a, b: a - b, self._ndt())
    def __rsub__(self, o): return self._ew(o, lambda a, b: a - b, self._ndt(), True)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b, self._ndt())
    def __rmul__(self, o): return self._ew(o, lambda a, b: a * b, self._ndt(), True)
    def __truediv__(self, o): return self._ew(o, divide, "f")
    def __rtruediv__(self, o): return self._ew(o, divide, "f", True)
    def __pow__(self, o): return self._ew(o, core.power, self._ndt())
    def __mod__(self, o): return self._ew(o, core.modulo, self._ndt())
    def __neg__(self): return self.map(lambda a: -a)
    def __pos__(self): return self.map(lambda a: a)
    def __abs__(self): return self.map(abs)

    def _ndt(self):
        return "f" if self.dt == "b" else None

    def __lt__(self, o): return self._ew(o, lambda a, b: a < b, "b")
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b, "b")
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b, "b")
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b, "b")

    def __eq__(self, o):
        if o is None:
            return self.map(lambda a: False, "b")
        if not (is_scalar(o) or isinstance(o, (SArr, list, tuple, SymSeq))):
            return NotImplemented
        return self._ew(o, eq_, "b")

    def __ne__(self, o):
        if o is None:
            return self.map(lambda a: True, "b")
        if not (is_scalar(o) or isinstance(o, (SArr, list, tuple, SymSeq))):
            return NotImplemented
        return self._ew(o, lambda a, b: not_(eq_(a, b)), "b")

    def __and__(self, o): return self._ew(o, and_, "b" if self.dt == "b" else None)
    def __or__(self, o): return self._ew(o, or_, "b" if self.dt == "b" else None)
    def __xor__(self, o): return self._ew(o, lambda a, b: wrap(z3.Xor(boolterm(a), boolterm(b))), "b")
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ on a non-bool array")
        return self.map(not_, "b")

    def map(self, op, dtype=None):
        f = self.fn
        org = None
        if self.origin:
            g = self.origin[1]
            org = (self.origin[0], lambda i: op(g(i)))
        return SArr(self.n, lambda i: op(f(i)), dtype or self.dt, org)

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if self.view:
            raise Unsupported("in-place update of an array view")
        self.fn, self.origin = r.fn, r.origin
        self.dt = r.dt if self.dt == "b" else self.dt
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)

    # -- reductions and methods
    def sum(self, axis=None, **kw):
        integer = self.dt in ("b", "i")
        if self.origin is not None:
            flt, g = self.origin
            return cx().sum(flt.N, lambda r: ite(flt.sel(r), SNum(numterm(g(r))), 0), integer)
        f = self.fn
        return cx().sum(self.n, lambda i: _num(f(i)), integer)

    def mean(self, axis=None, **kw):
        return divide(self.sum(), self.n)

    def min(self, axis=None):
        return extremum(self, False)

    def max(self, axis=None):
        return extremum(self, True)

    def any(self, axis=None):
        f = self.fn
        return wrap(exists_term(self.n, f))

    def all(self, axis=None):
        f = self.fn
        return wrap(forall_term(self.n, f))

    def astype(self, t, copy=True):
        name = getattr(t, "vcname", getattr(t, "__name__", str(t)))
        f = self.fn
        if name in ("float", "float64", "float32", "f8"):
            return self.map(lambda a: to_f(a), "f")
        if name in ("int", "int64", "int32", "i8"):
            if self.dt == "b":
                return self.map(lambda a: ite(a, 1, 0), "i")
            if self.dt == "i":
                return self.map(lambda a: a)
            raise Unsupported("float array cast to int")
        if name in ("bool", "bool_"):
            if self.dt == "b":
                return self.map(lambda a: a)
            return self.map(lambda a: not_(eq_(a, 0)), "b")
        if name == "object":
            return self.map(lambda a: a)
        raise Unsupported("astype(%s)" % name)

    def copy(self, order=None):
        return SArr(self.n, self.fn, self.dt, self.origin)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def tolist(self):
        if self.concrete():
            return self.vals()
        return SymSeq(self.n, self.fn)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    @property
    def ndim(self):
        return 1

    @property
    def data(self):
        return self

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return DType(self.dt)

    def flatten(self):
        return self.copy()

    def ravel(self):
        return SArr(self.n, self.fn, self.dt, self.origin, view=True)

    def reshape(self, *s):
        if s == (-1,) or s == ((-1,),):
            return self.ravel()
        raise Unsupported("reshape")

    def fill(self, v):
        self[:] = v

    def item(self, *a):
        if not a and self.concrete() and self.n == 1:
            return self.fn(0)
        raise Unsupported("item")

    def var(self, axis=None, ddof=0):
        m = self.mean()
        return divide(self.map(lambda a: (a - m) * (a - m)).sum(), self.n - ddof if ddof else self.n)

    def std(self, axis=None, ddof=0):
        return core.sqrt_(self.var(ddof=ddof))

    def dot(self, o):
        return (self * o).sum()

    def __matmul__(self, o):
        return self.dot(o)

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        if k == "mask":
            raise AttributeError(k)
        raise Unsupported("ndarray.%s" % k)

    def __repr__(self):
        return "SArr(n=%s,%s)" % (self.n, self.dt)


class DType(object):
    def __init__(self, k):
        self.kind = {"f": "f", "i": "i", "b": "b"}.get(k, "O")

    def __eq__(self, o):
        n = getattr(o, "vcname", getattr(o, "__name__", o))
        return {"f": ("float", "float64", "f"), "i": ("int", "int64", "i"), "b": ("bool", "bool_", "b")}.get(self.kind, ()).count(n) > 0 \
            or (isinstance(o, DType) and o.kind == self.kind)

    def __hash__(self):
        return hash(self.kind)


def _dictfn(vs, f):
    def fn(i):
        if isinstance(i, int):
            return vs[i] if i in vs else f(i)
        r = f(i)
        for j, v in vs.items():
            r = ite(wrap(term(i) == j), v, r)
        return r
    return fn


def _num(v):
    return ite(v, 1, 0) if isinstance(v, (bool, SBool)) else v


def to_f(a):
    if isinstance(a, (bool, SBool)):
        return SNum(core.to_real(numterm(a)))
    if isinstance(a, SNum):
        return SNum(core.to_real(a.e))
    return float(a)


def eq_(a, b):
    if is_scalar(a) and is_scalar(b):
        if not isinstance(a, Opaque) and not isinstance(b, Opaque):
            return bool(a == b)
        ae, be = term(a), term(b)
        if z3.is_bool(ae) and z3.is_bool(be):
            return wrap(ae == be)
        x, y = core.coerce(numterm(a), numterm(b))
        return wrap(x == y)
    r = a == b
    return r


def not_(a):
    if isinstance(a, bool):
        return not a
    return wrap(z3.Not(boolterm(a)))


def and_(a, b):
    return wrap(z3.And(boolterm(a), boolterm(b)))


def or_(a, b):
    return wrap(z3.Or(boolterm(a), boolterm(b)))


def mn(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return ite(a <= b, a, b)


def mx(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return ite(a >= b, a, b)


def extremum(a, is_max):
    c = cx()
    if a.concrete():
        vs = a.vals()
        if not vs:
            raise ValueError("zero-size array to reduction operation")
        r = vs[0]
        for v in vs[1:]:
            r = ite(v > r if is_max else v < r, v, r)
        return r
    if not c.fork(term(a.n) > 0):
        raise ValueError("zero-size array to reduction operation")
    body = z3.simplify(numterm(c.under(core.KVAR, a.fn)))
    if any(core.mentions(body, b) for b in c.bound):
        raise Unsupported("extremum under a quantifier or sum")
    key = ("ext", is_max, term(a.n).sexpr(), body.sexpr())
    if key in c.memo:
        return c.memo[key]
    if c.sub:
        raise Unsupported("array extremum inside a summarised expression")
    m = c.fresh("max" if is_max else "min", body.sort())
    if a.origin is not None:
        flt, g = a.origin
        forall_fact(flt.N, lambda r: or_(not_(flt.sel(r)), (SNum(m) >= g(r)) if is_max else (SNum(m) <= g(r))))
        k = c.fresh("at", z3.IntSort())
        c.assume_raw(z3.And(0 <= k, k < term(flt.N), boolterm(flt.sel(SNum(k))), numterm(g(SNum(k))) == m))
    else:
        f = a.fn
        forall_fact(a.n, lambda r: (SNum(m) >= f(r)) if is_max else (SNum(m) <= f(r)))
        k = c.fresh("at", z3.IntSort())
        c.assume_raw(z3.And(0 <= k, k < term(a.n), numterm(f(SNum(k))) == m))
    add_index_term(k)
    c.memo[key] = SNum(m)
    return c.memo[key]


class SMat(Opaque):
    __array_ufunc__ = None

    def __init__(self, n, p, fn, dtype="f", rowfilt=None):
        self.n, self.p, self.fn, self.dt, self.rowfilt = n, p, fn, dtype, rowfilt

    @property
    def shape(self):
        return (self.n, self.p)

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def size(self):
        return self.n * self.p

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len() of a symbolic matrix through C code")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self._row(i) for i in range(self.n)])
        raise Unsupported("iterating a matrix of symbolic length")

    def __hash__(self):
        return id(self)

    def _row(self, i):
        f = self.fn
        return SArr(self.p, lambda j: f(i, j), self.dt, view=True)

    def col(self, j):
        f = self.fn
        j = norm_index(j, self.p)
        org = None
        if self.rowfilt:
            flt, g = self.rowfilt
            org = (flt, lambda i: g(i, j))
        return SArr(self.n, lambda i: f(i, j), self.dt, org, view=True)

    def _rows(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step in (None, 1):
                return self
            f = self.fn
            s = SArr(self.n, lambda i: i)[k]
            sf = s.fn
            return SMat(s.n, self.p, lambda i, j: f(sf(i), j), self.dt)
        if isinstance(k, list):
            k = SArr.of_list(k)
        if isinstance(k, SArr) and k.dt == "b":
            if not length_eq(k.n, self.n):
                raise IndexError("boolean index did not match indexed array along axis 0")
            f = self.fn
            if isinstance(self.n, int):
                idx = [i for i in range(self.n) if bool(k.fn(i))]
                return SMat(len(idx), self.p,
                            lambda i, j: f(idx[i], j) if isinstance(i, int) else pick([f(q, j) for q in idx], i), self.dt)
            flt = get_filt(self.n, k.fn)
            return SMat(flt.count, self.p, lambda i, j: f(flt.at(i), j), self.dt, rowfilt=(flt, f))
        if isinstance(k, SArr):
            f, g = self.fn, k.fn
            return SMat(k.n, self.p, lambda i, j: f(g(i), j), self.dt)
        raise Unsupported("matrix row index")

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise Unsupported("matrix index")
            a, b = k
            if is_scalar(a) and is_scalar(b):
                return self.fn(norm_index(a, self.n), norm_index(b, self.p))
            if is_scalar(b) or (hasattr(b, "__index__") and not isinstance(b, SArr)):
                return self._rows(a).col(b)
            if is_scalar(a):
                return self._row(norm_index(a, self.n))[b]
            m = self._rows(a)
            if isinstance(b, slice):
                if b.start is None and b.stop is None and b.step in (None, 1):
                    return m
                idx = SArr(self.p, lambda j: j, "i")[b]
            elif isinstance(b, (list, SArr)):
                idx = SArr.of_list(b) if isinstance(b, list) else b
                if idx.dt == "b":
                    raise Unsupported("boolean column index")
            else:
                raise Unsupported("matrix column index")
            f = m.fn
            xf = idx.fn
            return SMat(m.n, idx.n, lambda i, j: f(i, xf(j)), self.dt)
        if is_scalar(k):
            return self._row(norm_index(k, self.n))
        return self._rows(k)

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None, None, None) and is_scalar(k[1]):
            c = norm_index(k[1], self.p)
            f = self.fn
            if isinstance(v, SArr):
                if not length_eq(v.n, self.n):
                    raise ValueError("could not broadcast input array")
                g = v.fn
            else:
                g = lambda i: v
            self.fn = lambda i, j: (g(i) if (isinstance(j, int) and isinstance(c, int) and j == c) else
                                    (f(i, j) if (isinstance(j, int) and isinstance(c, int)) else
                                     ite(wrap(term(j) == term(c)), g(i), f(i, j))))
            return
        if isinstance(k, tuple) and len(k) == 2 and is_scalar(k[0]) and is_scalar(k[1]):
            a, b = norm_index(k[0], self.n), norm_index(k[1], self.p)
            f = self.fn
            self.fn = lambda i, j: ite(wrap(z3.And(term(i) == term(a), term(j) == term(b))), v, f(i, j))
            return
        raise Unsupported("matrix assignment")

    def _ew(self, o, op, dt=None):
        f = self.fn
        if is_scalar(o):
            return SMat(self.n, self.p, lambda i, j: op(f(i, j), o), dt or self.dt)
        if isinstance(o, SMat):
            if not (length_eq(self.n, o.n) and length_eq(self.p, o.p)):
                raise ValueError("shape mismatch")
            g = o.fn
            return SMat(self.n, self.p, lambda i, j: op(f(i, j), g(i, j)), dt or self.dt)
        if isinstance(o, SArr):
            if not length_eq(self.p, o.n):
                raise ValueError("shape mismatch")
            g = o.fn
            return SMat(self.n, self.p, lambda i, j: op(f(i, j), g(j)), dt or self.dt)
        return NotImplemented

    def __add__(self, o): return self._ew(o, lambda a, b: a + b)
    def __sub__(self, o): return self._ew(o, lambda a, b: a - b)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b)
    __radd__, __rmul__ = __add__, __mul__
    def __truediv__(self, o): return self._ew(o, divide)
    def __lt__(self, o): return self._ew(o, lambda a, b: a < b, "b")
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b, "b")
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b, "b")
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b, "b")

    def __eq__(self, o):
        if not (is_scalar(o) or isinstance(o, (SMat, SArr))):
            return NotImplemented
        return self._ew(o, eq_, "b")

    def __ne__(self, o):
        if not (is_scalar(o) or isinstance(o, (SMat, SArr))):
            return NotImplemented
        return self._ew(o, lambda a, b: not_(eq_(a, b)), "b")

    def __and__(self, o): return self._ew(o, and_, "b")
    def __or__(self, o): return self._ew(o, or_, "b")
    def __invert__(self): return SMat(self.n, self.p, (lambda f: lambda i, j: not_(f(i, j)))(self.fn), "b")

    def map(self, op, dtype=None):
        f = self.fn
        return SMat(self.n, self.p, lambda i, j: op(f(i, j)), dtype or self.dt)

    def astype(self, t, copy=True):
        name = getattr(t, "vcname", getattr(t, "__name__", str(t)))
        if name in ("float", "float64"):
            return self.map(to_f, "f")
        if name in ("bool", "bool_"):
            return self.map(lambda a: a if self.dt == "b" else not_(eq_(a, 0)), "b")
        raise Unsupported("matrix astype(%s)" % name)

    def copy(self, order=None):
        return SMat(self.n, self.p, self.fn, self.dt, self.rowfilt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def reduce_axis(self, axis, kind):
        f = self.fn
        if axis == 0:
            mk = lambda j: SArr(self.n, lambda i: f(i, j), self.dt)
            m = self.p
        elif axis in (1, -1):
            mk = lambda i: SArr(self.p, lambda j: f(i, j), self.dt)
            m = self.n
        else:
            raise Unsupported("axis")
        return SArr(m, lambda q: getattr(mk(q), kind)(), "b" if kind in ("all", "any") else "f")

    def sum(self, axis=None):
        if axis is None:
            f = self.fn
            if isinstance(self.n, int) and isinstance(self.p, int):
                return SArr.of_list([f(i, j) for i in range(self.n) for j in range(self.p)]).sum()
            raise Unsupported("total matrix sum")
        return self.reduce_axis(axis, "sum")

    def mean(self, axis=None):
        if axis is None:
            return divide(self.sum(), self.n * self.p)
        return self.reduce_axis(axis, "mean")

    def all(self, axis=None):
        if axis is None:
            f = self.fn
            return wrap(forall_term(self.n, lambda i: wrap(forall_term(self.p, lambda j: f(i, j)))))
        return self.reduce_axis(axis, "all")

    def any(self, axis=None):
        if axis is None:
            f = self.fn
            return wrap(exists_term(self.n, lambda i: wrap(exists_term(self.p, lambda j: f(i, j)))))
        return self.reduce_axis(axis, "any")

    def max(self, axis=None):
        if axis is None:
            raise Unsupported("matrix max")
        return self.reduce_axis(axis, "max")

    def min(self, axis=None):
        if axis is None:
            raise Unsupported("matrix min")
        return self.reduce_axis(axis, "min")

    @property
    def T(self):
        f = self.fn
        return SMat(self.p, self.n, lambda i, j: f(j, i), self.dt)

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        raise Unsupported("matrix.%s" % k)


# ----------------------------------------------------------------------------------------------------------------

class Cat(object):
    """index structure of the concatenation of C pieces, piece q having length(q) elements: element k is element pos(k) of piece ch(k)"""

    def __init__(self, C, length):
        c = cx()
        self.C, self.length = C, length
        self.total = term(c.sum(C, length, integer=True))
        self.ch, self.pos = c.fresh_fn("ch", z3.IntSort(), z3.IntSort()), c.fresh_fn("pos", z3.IntSort(), z3.IntSort())
        k = z3.Int("k!c%d" % c.nq())
        ch, pos = self.ch(k), self.pos(k)
        body = lambda k: z3.Implies(z3.And(k >= 0, k < self.total), z3.And(self.ch(k) >= 0, self.ch(k) < term(C), self.pos(k) >= 0,
                                                                           self.pos(k) < term(length(SNum(self.ch(k))))))
        c.assume_raw(z3.ForAll([k], body(k), patterns=[self.ch(k)]))
        c.cats.append(self)


class SymSeq(Opaque):
    """python list/range of symbolic length: elem(i) for 0<=i<n, then a concrete tail of appended values"""

    def __init__(self, n, elem, member=None, ident=False):
        self.n0, self.elem0, self.member = n, elem, member
        self.writes = []
        self.tail = []
        self.ident = ident      # elem(i) is the integer i (a range)
        self.cache = {}
        self.ctermss = {}
        self.values = False     # elements without identity
        self.distinct = False   # different indices hold different objects, made by elem
        self.under = None       # elements are those of this list, at other indices: found(t) gives the index here of element t there
        self.found = self.place = None

    def find(self, x):
        """index of the object x, or None if it is not in the list"""
        if self.writes or self.values or is_scalar(x) or type(x).__eq__ is not object.__eq__:
            raise Unsupported("search in a symbolic list")
        t = None
        if self.under is not None:
            t = self.under.find(x)
            if t is not None:
                t = self.found(t)
        elif self.distinct:
            if cx().sub or cx().bound:
                raise Unsupported("search in a symbolic list under a quantifier")
            t = next((t for t, v in self.ctermss.values() if v is x), None)
            t = SNum(t) if t is not None else None
            if t is not None and not (cx().fork(z3.And(term(t) >= 0, term(t) < term(self.n0)))):
                t = None
        else:
            raise Unsupported("search in a symbolic list")
        if t is None:
            for q, v in enumerate(self.tail):
                if v is x:
                    return self.n0 + q
        return t

    def place_of(self, base, i):
        """(element i of `base` is in the symbolic part, its index there)"""
        if self.under is None:
            if self.elem0 is not base.elem0:
                raise Unsupported("the list is not made from that one")
            return SBool(z3.BoolVal(True)), i
        if self.place is None:
            raise Unsupported("the list is not made from that one")
        here, t = self.under.place_of(base, i)
        there, t = self.place(t)
        return and_(here, there), t

    def remove_at(self, p):
        """drop the element at index p of the symbolic part"""
        old = self.copy()
        old.tail = []
        pt = term(p)
        self.place = lambda t: (wrap(term(t) != pt), wrap(z3.If(term(t) > pt, term(t) - 1, term(t))))
        self.elem0 = lambda i: old.get(wrap(z3.If(term(i) >= pt, term(i) + 1, term(i))))
        self.n0, self.ident, self.member, self.cache, self.ctermss, self.distinct = self.n0 - 1, False, None, {}, {}, False

        def found(t):
            if cx().fork(term(t) == pt):
                return None
            return wrap(z3.If(term(t) > pt, term(t) - 1, term(t)))
        self.under, self.found = old, found

    @property
    def n(self):
        return self.n0 + len(self.tail) if self.tail else self.n0

    def get(self, i):
        if self.tail:
            if bool(wrap(term(i) >= term(self.n0))):
                for q, v in enumerate(self.tail):
                    if q == len(self.tail) - 1 or bool(wrap(term(i) == term(self.n0) + q)):
                        return v
        for (w, v) in reversed(self.writes):
            e = z3.simplify(term(i) == term(w))
            if z3.is_true(e) or (not z3.is_false(e) and cx().fork(e)):
                return v
        return self.elem_at(i)

    def elem_at(self, i):
        if self.values or self.under is not None or cx().sub or cx().bound and any(core.mentions(term(i), b) for b in cx().bound):
            return self.elem0(i)
        t = z3.simplify(term(i))
        key = t.sexpr()
        if key in self.cache:
            return self.cache[key]
        # the same element reached through another index term is the same object
        for k2, (t2, v2) in list(self.ctermss.items()):
            if is_scalar(v2) or v2 is None or isinstance(v2, (str, SArr, SMat)):
                break
            e = z3.simplify(t == t2)
            if z3.is_false(e):
                continue
            if cx().fork(e):
                self.cache[key] = v2
                return v2
        v = self.elem0(i)
        self.cache[key] = v
        self.ctermss[key] = (t, v)
        cx().made(v)
        return v

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.tail or self.writes:
                raise Unsupported("slice of a modified symbolic list")
            s = SArr(self.n, lambda i: i, "i")[k]
            return SymSeq(s.n, lambda i: self.get(s.fn(i)))
        return self.get(norm_index(k, self.n))

    def __setitem__(self, k, v):
        self.writes.append((norm_index(k, self.n), v))

    def append(self, v):
        self.tail.append(v)

    def extend(self, vs):
        if isinstance(vs, SymSeq):
            raise Unsupported("extend by a symbolic list")
        self.tail.extend(list(vs))

    def pop(self, *a):
        if a and a[0] == 0 and not self.tail and not self.writes and not isinstance(a[0], (SNum, SBool)):
            if not cx().fork(term(self.n0) > 0):
                raise IndexError("pop from empty list")
            v, old = self.get(0), SymSeq(self.n0, self.elem0, self.member)
            old.cache, old.ctermss = self.cache, self.ctermss
            self.n0, self.elem0, self.ident, self.cache, self.ctermss = self.n0 - 1, lambda i: old.get(i + 1), False, {}, {}
            return v
        if a and not (isinstance(a[0], int) and a[0] == -1):
            if not (self.distinct or self.under is not None):
                raise Unsupported("pop(i) of a symbolic list")
            v = self[a[0]]
            del self[a[0]]
            return v
        if self.tail:
            return self.tail.pop()
        if not cx().fork(term(self.n0) > 0):
            raise IndexError("pop from empty list")
        v = self.get(self.n0 - 1)
        self.n0 = self.n0 - 1
        return v

    def copy(self):
        r = SymSeq(self.n0, self.elem0, self.member, self.ident)
        r.writes, r.tail, r.cache, r.ctermss = list(self.writes), list(self.tail), self.cache, self.ctermss
        r.values, r.distinct, r.under, r.found, r.place = self.values, self.distinct, self.under, self.found, self.place
        if "spec" in self.__dict__:
            r.spec = self.spec
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy as _copy
        src = self.copy()
        r = SymSeq(src.n0, lambda i: _copy.deepcopy(src.get(i)), self.member, self.ident)
        r.tail = _copy.deepcopy(src.tail, memo)
        src.tail = []
        for k in ("spec", "derive_spec"):
            if k in self.__dict__:
                r.__dict__[k] = self.__dict__[k]
        memo[id(self)] = r
        return r

    def remove(self, x):
        t = self.find(x)
        if t is None:
            raise ValueError("list.remove(x): x not in list")
        for q, v in enumerate(self.tail):
            if v is x:
                del self.tail[q]
                return
        self.remove_at(t)

    def __delitem__(self, k):
        if isinstance(k, slice) or self.writes:
            raise Unsupported("del of a symbolic list")
        k = norm_index(k, self.n)
        for q in range(len(self.tail)):
            if bool(wrap(term(k) == term(self.n0) + q)):
                del self.tail[q]
                return
        self.remove_at(k)

    def __len__(self):
        raise Unsupported("len() of a symbolic list through C code")

    def __iter__(self):
        raise Unsupported("iterating a symbolic list outside an instrumented loop")

    def __bool__(self):
        return cx().fork(term(self.n) > 0)

    def __contains__(self, x):
        if self.distinct or self.under is not None:
            return self.find(x) is not None
        if self.writes or self.tail:
            raise Unsupported("membership in a modified symbolic list")
        if self.member is not None:
            r = self.member(x)
            return r if isinstance(r, bool) else bool(r)
        raise Unsupported("membership in a symbolic list")

    def index(self, x):
        t = self.find(x)
        if t is None:
            raise ValueError("object is not in list")
        return t

    def __add__(self, o):
        if isinstance(o, list):
            r = self.copy()
            r.tail += o
            return r
        raise Unsupported("concatenation of symbolic lists")

    def __radd__(self, o):
        if isinstance(o, list) and not o:
            return self.copy()
        raise Unsupported("concatenation of symbolic lists")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        raise Unsupported("list.%s on a symbolic list" % k)


def seq_to_arr(s):
    if isinstance(s, SymSeq):
        if s.tail or s.writes:
            raise Unsupported("array of a modified symbolic list")
        return SArr(s.n, s.get, "i" if s.ident else "f")
    return s


core.Ctx.univ = None


def _init_ctx(self):
    self.univ = []
    self.filts = {}
    self.memo = {}
    self._q = 0


def _nq(self):
    self._q += 1
    return self._q


_old_init = core.Ctx.__init__


def _new_init(self, prefix, cfg):
    _init_ctx(self)
    _old_init(self, prefix, cfg)


core.Ctx.__init__ = _new_init
core.Ctx.nq = _nq


def _seq_repeat(self, lst, n):
    if len(lst) != 1:
        raise Unsupported("list repetition by a symbolic count")
    v = lst[0]
    return SymSeq(n, lambda i: v)


core.Ctx.seq_repeat = _seq_repeat
