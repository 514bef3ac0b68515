"""Symbolic core: path exploration, symbolic scalars, obligations.

The verifier executes the *real* bartpy code objects (see universe.py) with CPython on symbolic values.  Every
boolean decision on a symbolic value forks the path (exhaustive depth-first re-execution); every `ensure` of a
contract becomes a verification condition (path condition => goal) that is discharged by an SMT solver.
"""
import fractions
import os
import subprocess
import tempfile
import time

import z3

z3.set_param("smt.random_seed", 1)


class PathDead(BaseException):
    """path condition infeasible, or path completed early (cut by a loop rule)"""


class Unsupported(BaseException):
    """construct outside the verifier's subset (never a violation)"""


class Budget(BaseException):
    pass


class Restart(BaseException):
    """a loop rule learnt something (in the search store) and needs the exploration to start over"""


CTX = None  # current Ctx


def ctx():
    return CTX


# ----------------------------------------------------------------------------------------------------------------
# helpers on z3 terms

def rv(x):
    """python number -> z3 numeral (floats are read as the decimal they print as: mathematical reals)"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if x == float("inf"):
            return PINF()
        if x == float("-inf"):
            return NINF()
        if x != x:
            raise Unsupported("nan constant")
        return z3.RealVal(repr(x))
    raise Unsupported("numeral %r" % (type(x),))


def PINF():
    return z3.Const("inf!pos", z3.RealSort())


def NINF():
    return z3.Const("inf!neg", z3.RealSort())


def is_num(x):
    import numbers
    return isinstance(x, numbers.Number) and not isinstance(x, complex)


def term(x):
    """python/symbolic scalar -> z3 term"""
    if isinstance(x, (SNum, SBool)):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_num(x):
        return rv(x if isinstance(x, (int, float, fractions.Fraction)) else float(x))
    t = type(x).__name__
    if hasattr(x, "item") and not isinstance(x, Opaque):
        return term(x.item())
    raise Unsupported("cannot use %s as a scalar" % t)


def numterm(x):
    e = term(x)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def boolterm(x):
    e = term(x)
    if z3.is_bool(e):
        return e
    return e != 0


def to_real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def coerce(a, b):
    if a.sort() != b.sort():
        return to_real(a), to_real(b)
    return a, b


def wrap(e):
    """z3 term -> python value (constants become python numbers)"""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_bool(e):
        return SBool(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SNum(e)


def ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    if a is b:
        return a
    ce = boolterm(c)
    ae, be = term(a), term(b)
    if z3.is_bool(ae) != z3.is_bool(be):
        ae, be = numterm(a), numterm(b)
    if not z3.is_bool(ae):
        ae, be = coerce(ae, be)
    return wrap(z3.If(ce, ae, be))


class Opaque(object):
    """base class of all proxies"""


# ----------------------------------------------------------------------------------------------------------------
# symbolic scalars

class SBool(Opaque):
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.fork(self.e)

    def __and__(self, o):
        return self._bin(o, z3.And)

    def __or__(self, o):
        return self._bin(o, z3.Or)

    def __xor__(self, o):
        return self._bin(o, z3.Xor)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def _bin(self, o, f):
        if isinstance(o, (SBool, bool)):
            return wrap(f(self.e, boolterm(o)))
        return NotImplemented

    def __invert__(self):
        return wrap(z3.Not(self.e))

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (SBool, bool)):
            return wrap(self.e == boolterm(o))
        if is_num(o) or isinstance(o, SNum):
            return SNum(numterm(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def _n(self):
        return SNum(numterm(self))

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __mul__(self, o):
        return self._n() * o

    def __rmul__(self, o):
        return o * self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __float__(self):
        raise Unsupported("float() of a symbolic bool")

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        raise Unsupported("attribute %s of a symbolic bool" % k)

    def item(self):
        return self

    def astype(self, t):
        return self if t is bool else self._n()

    def __repr__(self):
        return "SBool(%s)" % str(self.e)[:60]


class SNum(Opaque):
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    def _ok(self, o):
        return isinstance(o, (SNum, SBool)) or is_num(o)

    def _arith(self, o, f, rev=False):
        if not self._ok(o):
            return NotImplemented
        a, b = coerce(self.e, numterm(o))
        if rev:
            a, b = b, a
        return wrap(f(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinstance(o, SNum) and CTX is not None and CTX.sums:
            d = CTX.sum_diff(self.e, o.e)
            if d is not None:
                return SNum(d)
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, list):
            return CTX.seq_repeat(o, self)
        return self._arith(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o) if self._ok(o) else NotImplemented

    def __rfloordiv__(self, o):
        return floordiv(o, self) if self._ok(o) else NotImplemented

    def __mod__(self, o):
        return modulo(self, o) if self._ok(o) else NotImplemented

    def __rmod__(self, o):
        return modulo(o, self) if self._ok(o) else NotImplemented

    def __pow__(self, o):
        if not self._ok(o):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        if not self._ok(o):
            return NotImplemented
        return power(o, self)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __invert__(self):
        raise Unsupported("~ of a symbolic number")

    def _cmp(self, o, f):
        if not self._ok(o):
            return NotImplemented
        a, b = coerce(self.e, numterm(o))
        return wrap(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        # symbolic keys of dicts/sets: hash on the term; equality then goes through __eq__ (may fork)
        return hash(self.e) if CTX is not None and CTX.allow_hash else _nohash()

    def __bool__(self):
        return CTX.fork(self.e != 0)

    def __index__(self):
        raise Unsupported("symbolic number used as a concrete index")

    def __float__(self):
        raise Unsupported("symbolic number converted to a concrete float")

    __int__ = __float__

    def __round__(self, *a):
        raise Unsupported("round of symbolic number")

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        return self

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def sum(self):
        return self

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        raise Unsupported("attribute %s of a symbolic number" % k)

    def __repr__(self):
        return "SNum(%s)" % str(self.e)[:80]


def _nohash():
    raise Unsupported("hash of a symbolic number")


SBool.__deepcopy__ = lambda self, memo: self
SBool.__copy__ = lambda self: self


# ----------------------------------------------------------------------------------------------------------------
# arithmetic with side conditions, transcendental functions

LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def divide(a, b):
    ae, be = to_real(numterm(a)), to_real(numterm(b))
    CTX.side("division by zero", be != 0)
    if not CTX.sub:
        CTX.nonzero[be.get_id()] = be
    return wrap(ae / be)


def floor_(a):
    e = numterm(a)
    if e.sort() == z3.IntSort():
        return a
    return wrap(z3.ToInt(e))


def floordiv(a, b):
    ae, be = numterm(a), numterm(b)
    CTX.side("division by zero", be != 0)
    if ae.sort() == z3.IntSort() and be.sort() == z3.IntSort():
        if z3.is_int_value(be) and be.as_long() > 0:
            return wrap(ae / be)
        return wrap(z3.If(be > 0, ae / be, (-ae) / (-be)))
    return wrap(z3.ToReal(z3.ToInt(to_real(ae) / to_real(be))))


def modulo(a, b):
    ae, be = numterm(a), numterm(b)
    CTX.side("division by zero", be != 0)
    if ae.sort() == z3.IntSort() and be.sort() == z3.IntSort():
        if z3.is_int_value(be) and be.as_long() > 0:
            return wrap(ae % be)
        return wrap(z3.If(be > 0, ae % be, -((-ae) % (-be))))
    ae, be = to_real(ae), to_real(be)
    return wrap(ae - be * z3.ToReal(z3.ToInt(ae / be)))


def sqrt_(a):
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        r = float(a) ** 0.5
        if r == int(r):
            return float(int(r))
    e = z3.simplify(to_real(numterm(a)))
    CTX.side("square root of a negative number", e >= 0)
    s = SQRT(e)
    if CTX.once(("sqrt", e.sexpr())):
        CTX.assume_raw(z3.Implies(e >= 0, z3.And(s >= 0, s * s == e)))
        CTX.sqrt_terms.append(e)
    return SNum(s)


def power(a, b):
    if isinstance(b, (SNum, SBool)):
        be = z3.simplify(numterm(b))
        if z3.is_rational_value(be):
            b = fractions.Fraction(be.numerator_as_long(), be.denominator_as_long())
        elif z3.is_int_value(be):
            b = be.as_long()
    if is_num(b):
        fb = fractions.Fraction(b).limit_denominator(10 ** 6) if not isinstance(b, fractions.Fraction) else b
        if fb.denominator == 1 and abs(fb.numerator) <= 6:
            k = abs(fb.numerator)
            r = 1
            for _ in range(k):
                r = a if isinstance(r, int) else r * a
            if k == 0:
                return 1
            return r if fb.numerator > 0 else divide(1.0, r)
        if fb == fractions.Fraction(1, 2):
            return sqrt_(a)
        if fb == fractions.Fraction(-1, 2):
            return divide(1.0, sqrt_(a))
    if is_num(a) and is_num(b):
        return float(a) ** float(b)
    x, y = z3.simplify(to_real(numterm(a))), z3.simplify(to_real(numterm(b)))
    p = POW(x, y)
    if CTX.once(("pow", p.sexpr())):
        CTX.assume_raw(z3.Implies(x > 0, p > 0))
        CTX.assume_raw(z3.Implies(z3.And(x >= 1, y <= 0), p <= 1))
        CTX.assume_raw(z3.Implies(z3.And(x >= 1, y >= 0), p >= 1))
        CTX.assume_raw(z3.Implies(x == 1, p == 1))
        CTX.assume_raw(z3.Implies(y == 0, p == 1))
        # reciprocal pairing: x^y * x^-y = 1
        ny = z3.simplify(-y)
        q = POW(x, ny)
        CTX.assume_raw(z3.Implies(x > 0, z3.And(q > 0, p * q == 1)))
        CTX.pow_terms.append((x, y))
    return SNum(p)


def exp_(a):
    if is_num(a):
        import math
        if a == 0:
            return 1.0
        if a == float("-inf"):
            return 0.0
    e = z3.simplify(to_real(numterm(a)))
    t = EXP(e)
    if CTX.once(("exp", e.sexpr())):
        CTX.assume_raw(t > 0)
        CTX.assume_raw(LOG(t) == e)
        CTX.exp_terms.append(e)
        CTX.log_terms.append(t)
    return SNum(t)


def _log_const(num):
    """log of a positive integer constant, by prime factors"""
    out = []
    d = 2
    while num > 1 and d * d <= num and d < 2000:
        while num % d == 0:
            out.append(d)
            num //= d
        d += 1
    if num > 1:
        out.append(num)
    r = z3.RealVal(0)
    for q in out:
        r = r + _log_atom(z3.RealVal(q))
    return r


def _log_atom(x):
    x = z3.simplify(x)
    t = LOG(x)
    if CTX.once(("log", x.sexpr())):
        CTX.log_terms.append(x)
        if z3.is_rational_value(x) and x.numerator_as_long() > 0:
            import math
            v = x.numerator_as_long() / x.denominator_as_long()
            l = math.log(v)
            CTX.assume_raw(z3.And(t > z3.RealVal("%.9f" % (l - 1e-7)), t < z3.RealVal("%.9f" % (l + 1e-7))))
        else:
            CTX.assume_raw(z3.And(z3.Implies(x == 0, t == NINF()), z3.Implies(x > 0, z3.And(t > NINF(), t < PINF()))))
    return t


def _log_expand(x, depth=0):
    x = z3.simplify(x) if depth == 0 else x
    if z3.is_rational_value(x):
        n, d = x.numerator_as_long(), x.denominator_as_long()
        if n > 0:
            return z3.simplify(_log_const(n) - _log_const(d))
        return _log_atom(x)
    if z3.is_app(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            c, a, b = x.children()
            return z3.If(c, _log_expand(a), _log_expand(b))
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            ch = x.children()
            if all(CTX.entails(c > 0) for c in ch):
                parts = [_log_expand(c, depth + 1) for c in ch]
                r = parts[0]
                for q in parts[1:]:
                    r = r + q if k == z3.Z3_OP_MUL else r - q
                return r
        if k == z3.Z3_OP_POWER:
            b, p = x.children()
            if CTX.entails(b > 0):
                return p * _log_expand(b, depth + 1)
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm == "sqrt":
                a = x.children()[0]
                if CTX.entails(a > 0):
                    return _log_expand(a, depth + 1) / 2
            if nm == "exp":
                return x.children()[0]
            if nm == "pow":
                b, p = x.children()
                if CTX.entails(b > 0):
                    return p * _log_expand(b, depth + 1)
    if CTX.cfg.get("bounded") and depth == 0:
        # small sizes: a count that the path fixes is a number
        v = CTX.fixed_value(x)
        if v is not None and v > 0:
            return _log_expand(z3.RealVal(v))
    return _log_atom(x)


def log_(a):
    if is_num(a):
        import math
        if a == 1:
            return 0.0
        if a == 0:
            return float("-inf")
    e = to_real(numterm(a))
    if CTX.log_guard:
        CTX.side("logarithm of a non-positive number", e > 0)
    e = z3.simplify(e)
    r = _log_expand(e)
    old = CTX.log_memo.get(e.get_id())
    if old is not None and not r.eq(old[1]):
        # more is known about the argument now than when its logarithm was first taken: both are the same number
        CTX.log_ties.append((old[1], r))
        CTX.assume_raw(old[1] == r)
    CTX.log_memo[e.get_id()] = (e, r)
    return wrap(r)


# ----------------------------------------------------------------------------------------------------------------
# sums

class SumTerm(object):
    def __init__(self, sid, N, body, kvar, const):
        self.sid, self.N, self.body, self.kvar, self.const = sid, N, body, kvar, const

    def at(self, j):
        return z3.substitute(self.body, (self.kvar, j))


KVAR = z3.Const("kappa!", z3.IntSort())


def _below(c, kv):
    """c  <=>  kv < u + off (lower) or kv >= u + off (not lower), u without constant part (None: zero): (u, off, lower)"""
    neg = False
    while z3.is_not(c):
        c, neg = c.children()[0], not neg
    if not z3.is_app(c) or c.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or c.children()[0].sort() != z3.IntSort():
        return None
    k = c.decl().kind()
    l, r = c.children()
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        l, r = r, l
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    # l <= r  or  l < r
    d = z3.simplify(l - r)
    d0, d1 = z3.simplify(z3.substitute(d, (kv, z3.IntVal(0)))), z3.simplify(z3.substitute(d, (kv, z3.IntVal(1))))
    co = z3.simplify(d1 - d0)
    if not z3.is_int_value(co) or abs(co.as_long()) != 1 or mentions(d0, kv):
        return None
    if co.as_long() == 1:
        u, lower = (-d0 if strict else 1 - d0), True           # kv + d0 < 0 | <= 0
    else:
        u, lower = (d0 + 1 if strict else d0), False           # kv > d0 | >= d0
    if neg:
        lower = not lower
    u = z3.simplify(u)
    off = 0
    if z3.is_int_value(u):
        return None, u.as_long(), lower
    if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ADD:
        cs = [x.as_long() for x in u.children() if z3.is_int_value(x)]
        off = sum(cs)
        u = z3.simplify(u - off)
    return u, off, lower


def _nonneg(e):
    """syntactically non-negative"""
    if z3.is_int_value(e):
        return e.as_long() >= 0
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            return _nonneg(e.children()[1]) and _nonneg(e.children()[2])
        if k == z3.Z3_OP_TO_REAL:
            return _nonneg(e.children()[0])
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return all(_nonneg(c) for c in e.children())
    return False


def _zero_one(e):
    """syntactically 0 or 1"""
    if z3.is_int_value(e):
        return e.as_long() in (0, 1)
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            return _zero_one(e.children()[1]) and _zero_one(e.children()[2])
        if k == z3.Z3_OP_MUL:
            return all(_zero_one(c) for c in e.children())
    return False


def _has_var(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        todo.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def fresh_since(e, n):
    """does e mention a symbol numbered after n? (sums and bound variables are numbered apart)"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            b, _, d = x.decl().name().rpartition("!")
            if d.isdigit() and b not in ("sum", "sumf", "kappa", "outer", "sk!sum") and int(d) > n:
                return True
        todo.extend(x.children())
    return False


def mentions(e, v):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, v):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


# ----------------------------------------------------------------------------------------------------------------
# the path context

class Obligation(object):
    __slots__ = ("name", "status", "time", "model", "detail", "kind", "path", "backend", "inputs")

    def __init__(self, name, status, tm, model=None, detail="", kind="ensure", path=(), backend="z3", inputs=None):
        self.name, self.status, self.time, self.model = name, status, tm, model
        self.detail, self.kind, self.path, self.backend, self.inputs = detail, kind, path, backend, inputs


class Ctx(object):
    def __init__(self, prefix, cfg):
        self.values = []        # (object without identity, its attributes)
        self.prefix = list(prefix)
        self.decisions = []
        self.log_memo, self.log_ties = {}, []
        self.pending = []
        self.cfg = cfg
        self.solver = z3.Solver()
        self.solver.set("timeout", cfg.get("fork_timeout_ms", 1000))
        self.solver.set("mbqi", False)
        self.facts = []          # everything assumed on this path (z3)
        self.counter = 0
        self.onces = set()
        self.obligations = []
        self.sums = []
        self.bound, self.bound0, self.sumfns = [], 0, {}
        self.nonzero = {}
        self.sum_memo = {}
        self.index_terms = []
        self.log_terms = []
        self.exp_terms = []
        self.sqrt_terms = []
        self.pow_terms = []
        self.cats = []           # concatenations of a symbolic number of pieces
        self.inputs = {}         # declared inputs name -> (kind, data)
        self.allow_hash = False
        self.log_guard = False
        self.check_side = True
        self.sub = 0
        self.stack, self.summaries = (), {}
        self.search = cfg.setdefault("search_store", {})
        self.loop_specs = {}
        self.draws = []
        self.solver_time = 0.0
        self.notes = set()
        self.entail_memo = {}
        self.assume_raw(PINF() > 0)
        self.assume_raw(NINF() < 0)

    # -- naming
    pinned = ()

    def fixed_value(self, x):
        """the number the path conditions force x to be, if they do"""
        from fractions import Fraction
        if self._check() != z3.sat:
            return None
        try:
            m = self.solver.model().eval(x, model_completion=True)
        except z3.Z3Exception:
            return None
        if not z3.is_rational_value(m):
            return None
        return m.as_fraction() if self.entails(x == m) else None

    def pin(self, v):
        """keep the lemmas about this (sum) term available"""
        if isinstance(v, SNum):
            self.pinned = tuple(self.pinned) + (v.e,)
        return v

    def point_lemmas(self, v, at):
        """instances of the sum axioms at given indices, as facts: a sum of non-negative terms is at least each term, and a
        sum that differs from its term at `a` has another non-zero term"""
        from . import arr
        if not isinstance(v, SNum):
            return
        names = set()
        _collect_consts(v.e, names)
        for s in [x for x in self.sums if x.const.decl().name() in names]:
            nn = _nonneg(s.body)
            for a in at:
                a = term(a)
                inr = z3.And(0 <= a, a < s.N)
                if nn:
                    self.assume_raw(z3.Implies(inr, s.const >= z3.simplify(s.at(a))))
                if _zero_one(s.body):
                    self.assume_raw(z3.Implies(inr, s.const <= s.N - 1 + z3.simplify(s.at(a))))
                w = self.fresh("other", z3.IntSort())
                self.assume_raw(z3.Implies(inr, z3.Or(s.const == s.at(a), z3.And(0 <= w, w < s.N, w != a, s.at(w) != 0))))
                arr.add_index_term(w, True)

    def fresh(self, base, sort):
        self.counter += 1
        return z3.Const("%s!%d" % (base, self.counter), sort)

    def fresh_map(self):
        f = self.fresh_fn("map", z3.IntSort(), z3.IntSort())
        return lambda i: SNum(f(term(i)))

    def fresh_fn(self, base, *sorts):
        self.counter += 1
        return z3.Function("%s!%d" % (base, self.counter), *sorts)

    def once(self, key):
        if self.sub:
            return True  # inside a summarised thunk assumptions may be dropped: always re-emit
        if key in self.onces:
            return False
        self.onces.add(key)
        return True

    # -- facts
    def assume_raw(self, e):
        if self.sumfns:
            e = self.resolve(e)
        self.facts.append(e)
        self.solver.add(e)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathDead()
        e = boolterm(c)
        self.assume_raw(e)
        if self.infeasible():
            raise PathDead()

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.solver_time += dt
        self.cfg["solver_time"] = self.cfg.get("solver_time", 0) + dt
        if self.cfg.get("deadline") and time.time() > self.cfg["deadline"]:
            raise Budget()
        return r

    def infeasible(self):
        """the path condition is contradictory (not asked again where an earlier path with the same decisions has asked)"""
        if len(self.decisions) < len(self.prefix):
            return False
        quick = self.cfg.get("fork_ms")
        if quick:
            self.solver.set("timeout", quick)
        r = self._check()
        if quick:
            self.solver.set("timeout", self.cfg.get("fork_timeout_ms", 1000))
        return r == z3.unsat

    def state(self):
        """names the point of the exploration: the same in every path with the same decisions so far"""
        return (self.stack, tuple(self.decisions), len(self.facts))

    def entails(self, e):
        key = ("ent", self.state(), e.get_id())
        if key not in self.search:
            self.search[key] = (field.decides(self, e) or self._check(z3.Not(e)) == z3.unsat, e)
        return self.search[key][0]

    def side(self, what, e):
        """safety side condition of an operation"""
        e = z3.simplify(e)
        if z3.is_true(e) or not self.check_side:
            return
        if field.decides(self, e):
            return
        if self._check(z3.Not(e)) == z3.unsat:
            return
        if self.sub:
            # inside a summarised expression: leave it as a guarded side condition
            self.notes.add("side condition inside a summarised expression left unchecked: " + what)
            return
        self.prove("safety: no " + what, wrap(e), kind="safety")

    # -- forks
    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.assume_raw(e if d else z3.Not(e))
            return d
        if len(self.decisions) > self.cfg.get("max_depth", 400):
            raise Unsupported("path too deep")
        quick = self.cfg.get("fork_ms")
        if quick:
            self.solver.set("timeout", quick)
        rf = self._check(z3.Not(e))
        rt = self._check(e)
        if quick:
            self.solver.set("timeout", self.cfg.get("fork_timeout_ms", 1000))
        if rt == z3.unsat and rf == z3.unsat:
            raise PathDead()
        if rt == z3.unsat:
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            if any(mentions(e, b) for b in self.bound[self.bound0:]):
                raise Unsupported("branch on a bound variable")
            d = True
            self.pending.append(self.decisions + [False])
        self.decisions.append(d)
        self.assume_raw(e if d else z3.Not(e))
        return d

    def choose(self, k, name="choice"):
        """n-ary demonic choice, k python int"""
        for j in range(k - 1):
            if self._choice():
                return j
        return k - 1

    def _choice(self):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = True
            self.pending.append(self.decisions + [False])
        self.decisions.append(d)
        return d

    # -- summarise a side-effect free thunk: list of (cond, value)
    def summarize(self, thunk, limit=64):
        saved = (self.prefix, self.decisions, self.pending)
        results = []
        key = self.state()
        self.summaries[key] = self.summaries.get(key, 0) + 1
        key = ("summ", key, self.summaries[key])
        known = self.search.get(key)            # the cases an earlier path with the same decisions found here
        found = []
        stack = [[]] if known is None else [list(d) for d in reversed(known)]
        outer = self.stack
        self.stack = (outer, tuple(self.decisions), self.summaries[key[1]])
        self.sub += 1
        b0, self.bound0 = self.bound0, len(self.bound)
        try:
            while stack:
                pre = stack.pop()
                if len(results) > limit:
                    raise Unsupported("too many cases in a summarised expression")
                self.prefix, self.decisions, self.pending = list(pre), [], []
                nf = len(self.facts)
                self.solver.push()
                try:
                    v = thunk()
                    results.append((z3.And(*self.facts[nf:]) if len(self.facts) > nf else z3.BoolVal(True), v))
                    found.append(list(self.decisions))
                except PathDead:
                    pass
                finally:
                    self.solver.pop()
                    del self.facts[nf:]
                if known is None:
                    stack.extend(reversed(self.pending))
            if known is None:
                self.search[key] = found
        finally:
            self.stack = outer
            self.sub -= 1
            self.bound0 = b0
            self.prefix, self.decisions, self.pending = saved
        return results

    # -- sums over 0..N-1 of a z3-valued function
    def sum(self, N, fn, integer=False):
        if isinstance(N, int):
            tot = z3.IntVal(0) if integer else z3.RealVal(0)
            for j in range(N):
                t = numterm(fn(j))
                a, b = coerce(tot, t)
                tot = a + b
            return wrap(tot)
        nest = sum(1 for b in self.bound if b.decl().name().startswith("kappa!"))
        kv = KVAR if not nest else z3.Const("kappa!%d" % nest, z3.IntSort())
        body = z3.simplify(numterm(self.under(kv, fn)))
        outs = [b for b in self.bound if mentions(body, b) or mentions(term(N), b)]
        if outs or nest:
            return wrap(self._nested(term(N), body, kv, outs))
        r = self._sum(term(N), body)
        sg = field.sign(self, body)
        if sg in ("+", "0+", "0") and not z3.is_const(r) and self.once(("sum>=0", r.sexpr())):
            self.assume_raw(r >= 0)
        return wrap(r)

    def under(self, v, fn):
        """fn at a bound variable: sums that depend on it become functions of it; other values created on the way must not"""
        n0 = self.counter
        self.bound.append(v)
        try:
            r = fn(SNum(v))
        finally:
            self.bound.pop()
        if self.counter > n0:
            e = term(r) if not isinstance(r, (bool, int, float)) else None
            if e is not None and fresh_since(e, n0):
                raise Unsupported("a value created under a quantifier or sum")
        return r

    def _nested(self, N, body, kv, outs):
        """a sum whose summand depends on variables bound outside it: a function of those variables"""
        hole = [z3.Const("outer!%d" % j, z3.IntSort()) for j in range(len(outs))]
        sub = list(zip(outs, hole)) + [(kv, KVAR)]
        saved, self.bound = self.bound, []
        try:
            r = self._sum(z3.substitute(N, *sub[:-1]) if hole else N, z3.substitute(body, *sub))
        finally:
            self.bound = saved
        names = set()
        _collect_consts(r, names)
        back = []
        for s in self.sums:
            if s.const.decl().name() in names and any(mentions(s.body, h) or mentions(s.N, h) for h in hole):
                key = "sumf!%d" % s.sid
                if (key, len(hole)) not in self.sumfns:
                    self.sumfns[(key, len(hole))] = (z3.Function(key, *([z3.IntSort()] * len(hole) + [s.body.sort()])), s, hole)
                back.append((s.const, self.sumfns[(key, len(hole))][0](*outs)))
        return z3.substitute(r, *(back + list(zip(hole, outs)))) if back or hole else r

    def resolve(self, e, depth=0):
        """sum functions applied to terms without bound variables are ordinary sums"""
        if not self.sumfns or depth > 4:
            return e
        todo, seen, subs = [e], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                k = (x.decl().name(), x.num_args())
                if k in self.sumfns and not any(mentions(a, b) for a in x.children() for b in self.bound + [KVAR]) and not _has_var(x):
                    _, s, hole = self.sumfns[k]
                    pr = list(zip(hole, x.children()))
                    subs.append((x, self._sum(z3.substitute(s.N, *pr), self.resolve(z3.simplify(z3.substitute(s.body, *pr)), depth + 1))))
                    continue
            todo.extend(x.children())
        return z3.substitute(e, *subs) if subs else e

    def _sum(self, N, body):
        """linear normalisation, then an uninterpreted constant per distinct summand"""
        isint = body.sort() == z3.IntSort()
        zero = z3.IntVal(0) if isint else z3.RealVal(0)
        if not mentions(body, KVAR):
            return (N if isint else z3.ToReal(N)) * body
        if z3.is_app(body):
            k = body.decl().kind()
            ch = body.children()
            if k == z3.Z3_OP_ADD:
                return z3.Sum([self._sum(N, c) for c in ch])
            if k == z3.Z3_OP_SUB:
                r = self._sum(N, ch[0])
                for c in ch[1:]:
                    r = r - self._sum(N, c)
                return r
            if k == z3.Z3_OP_UMINUS:
                return -self._sum(N, ch[0])
            if k == z3.Z3_OP_TO_REAL:
                return z3.ToReal(self._sum(N, ch[0]))
            if k == z3.Z3_OP_MUL:
                free = [c for c in ch if not mentions(c, KVAR)]
                dep = [c for c in ch if mentions(c, KVAR)]
                if free:
                    r = self._sum(N, _prod(dep))
                    for c in free:
                        r = r * c
                    return r
                # push products into ite
                for idx, c in enumerate(dep):
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                        cc, a, b = c.children()
                        rest = dep[:idx] + dep[idx + 1:]
                        return self._sum(N, z3.simplify(z3.If(cc, _prod([a] + rest), _prod([b] + rest))))
                for idx, c in enumerate(dep):
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ADD:
                        rest = dep[:idx] + dep[idx + 1:]
                        return z3.Sum([self._sum(N, z3.simplify(_prod([a] + rest))) for a in c.children()])
            if k == z3.Z3_OP_DIV and not mentions(ch[1], KVAR):
                return self._sum(N, ch[0]) / ch[1]
            if k == z3.Z3_OP_ITE:
                c, a, b = ch
                if not mentions(c, KVAR):
                    return z3.If(c, self._sum(N, a), self._sum(N, b))
                # point update
                if z3.is_eq(c):
                    l, r = c.children()
                    for x, y in ((l, r), (r, l)):
                        if z3.eq(x, KVAR) and not mentions(y, KVAR):
                            # sum of (kappa==y ? a : b) = sum b + (0<=y<N ? a(y)-b(y) : 0)
                            ay = self.resolve(z3.substitute(a, (KVAR, y)))
                            by = self.resolve(z3.substitute(b, (KVAR, y)))
                            return self._sum(N, b) + z3.If(z3.And(0 <= y, y < N), ay - by, zero)
                # kappa < u + c: the elements between u and u + c apart
                up = _below(c, KVAR)
                if up is not None and up[0] is None and up[1] <= 4:
                    # kappa < literal: the first few elements apart
                    lo_, hi_ = (a, b) if up[2] else (b, a)
                    r = hi_
                    for q in range(up[1]):
                        r = z3.If(KVAR == q, lo_, r)
                    return self._sum(N, r)
                if up is not None and up[0] is not None and 0 < abs(up[1]) <= 3:
                    u, off, lower = up
                    lo_, hi_ = (a, b) if lower else (b, a)          # value below, value from there on
                    r = z3.If(KVAR < u, lo_, hi_)
                    for q in range(off) if off > 0 else range(-1, off - 1, -1):
                        r = z3.If(KVAR == z3.simplify(u + q), lo_ if off > 0 else hi_, r)
                    return self._sum(N, r)
                za, zb = z3.eq(z3.simplify(a), zero), z3.eq(z3.simplify(b), zero)
                if not za and not zb:
                    return self._sum(N, z3.simplify(z3.If(c, a, zero))) + self._sum(N, z3.simplify(z3.If(c, zero, b)))
                inner, pos = (b, False) if za else (a, True)
                # linear pieces inside the guard
                if z3.is_app(inner):
                    ik = inner.decl().kind()

                    def g(t):
                        return z3.simplify(z3.If(c, t, zero) if pos else z3.If(c, zero, t))
                    if ik == z3.Z3_OP_ADD:
                        return z3.Sum([self._sum(N, g(t)) for t in inner.children()])
                    if ik == z3.Z3_OP_UMINUS:
                        return -self._sum(N, g(inner.children()[0]))
                    if ik == z3.Z3_OP_MUL:
                        free = [t for t in inner.children() if not mentions(t, KVAR)]
                        dep = [t for t in inner.children() if mentions(t, KVAR)]
                        if free:
                            one = z3.IntVal(1) if isint else z3.RealVal(1)
                            r = self._sum(N, g(_prod(dep) if dep else one))
                            for t in free:
                                r = r * t
                            return r
                    if not mentions(inner, KVAR) and not z3.is_rational_value(inner) and not z3.is_int_value(inner):
                        one = z3.IntVal(1) if isint else z3.RealVal(1)
                        return inner * self._sum(N, g(one))
        for cat in self.cats:
            # a sum over a concatenation is the sum over its pieces of the sums over each piece
            if z3.eq(N, cat.total):
                q, t = z3.Int("cat!q"), z3.Int("cat!t")
                b2 = z3.substitute(body, (cat.ch(KVAR), q), (cat.pos(KVAR), t))
                if not mentions(b2, KVAR):
                    saved, self.bound = self.bound, []
                    try:
                        return term(self.sum(cat.C, lambda a: self.sum(cat.length(a), lambda b: wrap(z3.substitute(b2, (q, term(a)), (t, term(b)))))))
                    finally:
                        self.bound = saved
        key = (N.sexpr(), body.sexpr())
        if key not in self.sum_memo:
            sid = len(self.sums)
            new = SumTerm(sid, N, body, KVAR, z3.Const("sum!%d" % sid, body.sort()))
            for old in self.sums:
                if z3.eq(old.N, N) and old.body.sort() == body.sort() and _pointwise_eq(old, new):
                    new = old
                    break
            self.sum_memo[key] = new.const
            if new.sid == sid:
                self.sums.append(new)
        return self.sum_memo[key]

    def sum_diff(self, a, b):
        """sum_i [c1]v - sum_i [c2]v with c2 => c1 is the sum_i [c1 and not c2]v"""
        if not (z3.is_const(a) and z3.is_const(b)) or not (a.decl().name().startswith("sum!") and b.decl().name().startswith("sum!")):
            return None
        A = [x for x in self.sums if z3.eq(x.const, a)]
        B = [x for x in self.sums if z3.eq(x.const, b)]
        if not A or not B or not z3.eq(A[0].N, B[0].N) or A[0].body.sort() != B[0].body.sort():
            return None
        g1, g2 = _guarded(A[0].body), _guarded(B[0].body)
        if g1 is None or g2 is None or not z3.eq(z3.simplify(g1[1]), z3.simplify(g2[1])):
            return None
        key = ("sumdiff", a.decl().name(), b.decl().name())
        if key not in self.sum_memo:
            s = z3.Solver()
            s.set("timeout", 300)
            s.add(g2[0], z3.Not(g1[0]))
            if s.check() != z3.unsat:
                self.sum_memo[key] = None
            else:
                zero = z3.IntVal(0) if a.sort() == z3.IntSort() else z3.RealVal(0)
                body = z3.simplify(z3.If(z3.And(g1[0], z3.Not(g2[0])), g1[1], zero))
                self.sum_memo[key] = self._sum(A[0].N, body)
        d = self.sum_memo[key]
        if d is not None and self.once(("sumdiff-fact", key)):
            self.assume_raw(a == b + d)
        return d

    def sum_lemmas(self, exprs):
        """ground instances of the sum axioms for the sums occurring in exprs"""
        names = set()
        for e in exprs:
            _collect_consts(e, names)
        for e in self.pinned:
            _collect_consts(e, names)
        terms = [s for s in self.sums if s.const.decl().name() in names]
        out = []
        m = [0]

        def sk():
            m[0] += 1
            return z3.Const("sk!sum!%d" % m[0], z3.IntSort())
        for s in terms:
            j = sk()
            inr = z3.And(0 <= j, j < s.N)
            nonneg_fails = z3.And(inr, s.at(j) < 0)
            out.append(z3.Or(nonneg_fails, s.const >= 0))
            j2 = sk()
            out.append(z3.Or(z3.And(0 <= j2, j2 < s.N, s.at(j2) != 0), s.const == 0))
            out.append(z3.Implies(s.N == 1, s.const == s.at(z3.IntVal(0))))
            idx = self.index_terms[:14]
            for a in idx:
                out.append(z3.Or(nonneg_fails, z3.Not(z3.And(0 <= a, a < s.N)), s.const >= s.at(a)))
            for ia in range(len(idx)):
                for ib in range(ia + 1, len(idx)):
                    a, b = idx[ia], idx[ib]
                    if len(idx) <= 8:
                        out.append(z3.Or(nonneg_fails, z3.Not(z3.And(0 <= a, a < s.N, 0 <= b, b < s.N, a != b)),
                                         s.const >= s.at(a) + s.at(b)))
        for i in range(len(terms)):
            for k in range(i + 1, len(terms)):
                A, B = terms[i], terms[k]
                if A.body.sort() != B.body.sort():
                    continue
                if z3.eq(A.N, B.N):
                    j = sk()
                    inr = z3.And(0 <= j, j < A.N)
                    out.append(z3.Or(z3.And(inr, A.at(j) != B.at(j)), A.const == B.const))
                    j = sk()
                    out.append(z3.Or(z3.And(0 <= j, j < A.N, A.at(j) > B.at(j)), A.const <= B.const))
                    j = sk()
                    out.append(z3.Or(z3.And(0 <= j, j < A.N, A.at(j) < B.at(j)), A.const >= B.const))
                    # complementary counts
                    if _zero_one(A.body) and _zero_one(B.body):
                        j = sk()
                        one = z3.IntVal(1) if A.body.sort() == z3.IntSort() else z3.RealVal(1)
                        size = A.N if A.body.sort() == z3.IntSort() else z3.ToReal(A.N)
                        out.append(z3.Or(z3.And(0 <= j, j < A.N, A.at(j) + B.at(j) != one), A.N < 0, A.const + B.const == size))
                    # strictness: pointwise <= and strict somewhere at a known index
                    for a in self.index_terms[:8]:
                        j = sk()
                        out.append(z3.Or(z3.And(0 <= j, j < A.N, A.at(j) > B.at(j)),
                                         z3.Not(z3.And(0 <= a, a < A.N, A.at(a) < B.at(a))),
                                         A.const < B.const))
                        j = sk()
                        out.append(z3.Or(z3.And(0 <= j, j < A.N, A.at(j) < B.at(j)),
                                         z3.Not(z3.And(0 <= a, a < A.N, A.at(a) > B.at(a))),
                                         A.const > B.const))
        groups = {}
        for t in terms:
            groups.setdefault((t.N.sexpr(), str(t.body.sort())), []).append(t)
        for g in groups.values():
            full = len(g) <= 9
            if len(g) > 24:
                continue
            for A in g:
                for i in range(len(g)):
                    for k in range(i + 1, len(g)):
                        B, C = g[i], g[k]
                        if A is B or A is C:
                            continue
                        if not full and not _pointwise(A, B, C):
                            continue
                        j = sk()
                        out.append(z3.Or(z3.And(0 <= j, j < A.N, A.at(j) != B.at(j) + C.at(j)),
                                         A.const == B.const + C.const))
        return out

    def log_lemmas(self):
        ts = self.log_terms
        out = [z3.Implies(x == 1, LOG(x) == 0) for x in ts if not z3.is_rational_value(x)]
        if len(ts) > 14:
            return out
        for i in range(len(ts)):
            for k in range(len(ts)):
                if i != k:
                    a, b = ts[i], ts[k]
                    if z3.is_rational_value(a) and z3.is_rational_value(b):
                        continue
                    out.append(z3.Implies(z3.And(a > 0, b > 0, a < b), LOG(a) < LOG(b)))
        return out

    def check_values(self):
        for o, d in self.values:
            if len(o.__dict__) != len(d) or any(o.__dict__.get(k, o) is not v for k, v in d.items()):
                raise Unsupported("%s is changed in place" % type(o).__name__)

    # -- obligations
    def prove(self, name, goal, kind="ensure"):
        t0 = time.time()
        if self.sub:
            raise Unsupported("obligation inside a summarised expression")
        self.check_values()
        path = tuple(self.decisions)
        if goal is True:
            if len(self.decisions) < len(self.prefix):
                return True
            self.obligations.append(Obligation(name, "proved", 0.0, kind=kind, path=path, backend="trivial"))
            return True
        g = z3.BoolVal(False) if goal is False else boolterm(goal)
        for a, b in self.log_ties:
            g = z3.substitute(g, (a, b))
        if len(self.decisions) < len(self.prefix):
            # this path shares its decisions up to here with one explored before, on which this obligation was discharged or reported
            self.assume_raw(self.resolve(g) if self.sumfns else g)
            if self.cfg.get("deadline") and time.time() > self.cfg["deadline"]:
                raise Budget()
            return True
        timeout = self.cfg.get("prove_timeout_ms", 20000)
        neg = z3.Not(g)
        base = list(self.facts)
        if self.sumfns:
            g = self.resolve(g)
            neg = z3.Not(g)
        extra = self.sum_lemmas(base + [g]) + (self.log_lemmas() if self.log_terms else [])
        status, model, backend = None, None, "z3"
        strategies = [(base, extra, min(timeout, 300)), None, (base, extra, timeout)]
        for st in strategies:
            if st is None:
                if field.prove(self, z3.simplify(g)) or field.prove(self, g):
                    status, backend = "proved", "field"
                    break
                continue
            fs, ex, tmo = st
            s = z3.Solver()
            s.set("timeout", tmo)
            s.add(*fs)
            s.add(*ex)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                status = "proved"
                break
            elif r == z3.sat:
                if st is strategies[0] and (field.prove(self, z3.simplify(g)) or field.prove(self, g)):
                    # log/sqrt/sums are only axiomatised for the solver: its model may contradict their algebra
                    status, backend = "proved", "field"
                    break
                status, model = "refuted", s.model()
                break
            else:
                status = "unknown"
        if status == "unknown":
            # other tactics on the same query
            for tac in ("qfnra-nlsat", "smt-nl"):
                r = self._alt(tac, base, extra, neg, timeout)
                if r == "unsat":
                    status, backend = "proved", "z3/" + tac
                    break
        if status == "unknown" and self.cfg.get("use_cvc5", True):
            r = cvc5_check(base + extra + [neg], self.cfg.get("cvc5_timeout_s", 20))
            if r == "unsat":
                status, backend = "proved", "cvc5"
        dt = time.time() - t0
        self.cfg["solver_time"] = self.cfg.get("solver_time", 0) + dt
        ob = Obligation(name, status, dt, kind=kind, path=path, backend=backend)
        if model is not None:
            ob.inputs = self.concretize(model, base + extra + [neg])
            ob.detail = str(z3.simplify(g))[:400]
        elif status == "unknown":
            ob.detail = str(z3.simplify(g))[:400]
        self.obligations.append(ob)
        self.assume_raw(g)
        if status != "proved" and self._check() == z3.unsat:
            raise PathDead()
        if self.cfg.get("deadline") and time.time() > self.cfg["deadline"]:
            raise Budget()
        return status == "proved"

    def canary(self):
        """vacuity guard: False must not be provable at the end of this path"""
        s = z3.Solver()
        s.set("timeout", 1000)
        s.set("mbqi", False)
        s.add(*self.facts)
        s.add(*self.sum_lemmas(self.facts))
        s.add(*(self.log_lemmas() if self.log_terms else []))
        return s.check() != z3.unsat

    def _alt(self, tac, base, extra, neg, timeout):
        try:
            if tac == "smt-nl":
                s = z3.SolverFor("AUFNIRA") if False else z3.Tactic("smt").solver()
                s.set("arith.solver", 2)
            else:
                s = z3.Then("simplify", "solve-eqs", "purify-arith", "elim-uncnstr", "qfnra-nlsat").solver()
            s.set("timeout", timeout)
            s.add(*base)
            s.add(*extra)
            s.add(neg)
            return str(s.check())
        except z3.Z3Exception:
            return "unknown"

    def feasible_model(self):
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*self.facts)
        if s.check() == z3.sat:
            return self.concretize(s.model(), self.facts)
        return None

    def concretize(self, model, facts=None):
        """values of the declared inputs in the model; prefer small round numbers when possible"""
        nice = []
        reals = []
        for name, (kind, data) in self.inputs.items():
            if kind == "real":
                reals.append(data)
            elif kind == "reals":
                n, fn = data
                if isinstance(n, int):
                    reals += [fn(j) for j in range(n)]
            elif kind == "matrix":
                n, p, fn = data
                if isinstance(n, int) and isinstance(p, int):
                    reals += [fn(i, j) for i in range(n) for j in range(p)]
        if facts is not None and reals and len(reals) < 60:
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*facts)
            for q, r in enumerate(reals):
                k = z3.Int("nice!%d" % q)
                s.add(to_real(term(r)) == z3.ToReal(k) / 4, k >= -64, k <= 64)
            if s.check() == z3.sat:
                model = s.model()
        sizes = [term(data) for name, (kind, data) in self.inputs.items() if kind in ("size", "int") and not isinstance(data, (int, bool))]
        if facts is not None and sizes:
            for cap in (3, 6, 12, 40, 130, 390):
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*facts)
                s.add(*[z3.And(e <= cap, e >= -cap) for e in sizes])
                if s.check() == z3.sat:
                    model = s.model()
                    break
        out = {}

        def val(e):
            e = term(e)
            v = model.eval(e, model_completion=True)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return v.numerator_as_long() / v.denominator_as_long()
            if z3.is_algebraic_value(v):
                a = v.approx(20)
                return a.numerator_as_long() / a.denominator_as_long()
            return None
        for name, (kind, data) in self.inputs.items():
            try:
                if kind in ("real", "int", "bool", "size"):
                    out[name] = data if isinstance(data, (int, float, bool)) else val(data)
                elif kind in ("reals", "bools", "ints"):
                    n, fn = data
                    nn = n if isinstance(n, int) else val(n)
                    out[name] = [val(fn(j)) for j in range(min(nn, 400))]
                elif kind == "tensor":
                    a, b, d, fn = data
                    a, b, d = [x if isinstance(x, int) else val(x) for x in (a, b, d)]
                    out[name] = [[[val(fn(i, j, k)) for k in range(min(d, 20))] for j in range(min(b, 20))] for i in range(min(a, 20))]
                elif kind in ("matrix",):
                    n, p, fn = data
                    nn = n if isinstance(n, int) else val(n)
                    pp = p if isinstance(p, int) else val(p)
                    out[name] = [[val(fn(i, j)) for j in range(min(pp, 60))] for i in range(min(nn, 400))]
                elif kind == "choice":
                    out[name] = data
            except Exception as ex:
                out[name] = None
        return out

    def seq_repeat(self, lst, n):
        raise Unsupported("list repetition by a symbolic count")


_pw = {}


def _pointwise(A, B, C):
    """A(j) = B(j) + C(j) holds identically (cheap filter)"""
    key = (A.body.sexpr(), B.body.sexpr(), C.body.sexpr())
    if key not in _pw:
        s = z3.Solver()
        s.set("timeout", 200)
        s.add(A.body != B.body + C.body)
        _pw[key] = s.check() == z3.unsat
    return _pw[key]


def _guarded(body):
    """(c, v) if body is [c]v"""
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = body.children()
        z = lambda e: z3.is_rational_value(e) and e.numerator_as_long() == 0 or z3.is_int_value(e) and e.as_long() == 0
        if z(y):
            return c, x
        if z(x):
            return z3.Not(c), y
    return None


def _pointwise_eq(A, B):
    key = (A.body.sexpr(), B.body.sexpr())
    if key not in _pw:
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(A.body != B.body)
        _pw[key] = s.check() == z3.unsat
    return _pw[key]


def _prod(ts):
    r = ts[0]
    for t in ts[1:]:
        a, b = coerce(r, t)
        r = a * b
    return r


def _collect_consts(e, names):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            todo.extend(x.children())


CVC5 = "/usr/bin/cvc5"


def cvc5_check(assertions, timeout_s):
    import shutil
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    s = z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([exe, "--tlimit=%d" % (timeout_s * 1000), "--nl-ext-tplanes", f.name],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        o = r.stdout.strip().split("\n")[0]
        return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


# ----------------------------------------------------------------------------------------------------------------
# exploration

class Result(object):
    def __init__(self):
        self.paths = 0
        self.dead = 0
        self.obligations = []
        self.unsupported = []
        self.errors = []         # unexpected exceptions: (repr, inputs, trace)
        self.solver_time = 0.0
        self.truncated = False
        self.notes = set()
        self.feasible = 0


def explore(run, cfg):
    """run(ctx) executes the contract once along one path"""
    global CTX
    res = Result()
    restarts = 0
    stack = [[]]
    maxp = cfg.get("max_paths", 3000)
    while stack:
        pre = stack.pop()
        c = Ctx(pre, cfg)
        CTX = c
        try:
            run(c)
            c.check_values()
            res.paths += 1
            if res.feasible < 3 and c.canary():
                res.feasible += 1
        except PathDead:
            res.dead += 1
        except Restart:
            restarts += 1
            if restarts > 40:
                res.unsupported.append("loop analysis does not stabilise")
                break
            for k in [k for k in cfg["search_store"] if k[0] in ("loop", "ent", "summ")]:
                del cfg["search_store"][k]
            res = Result()
            stack = [[]]
            continue
        except Unsupported as u:
            res.unsupported.append(str(u))
            if cfg.get("stop_on_unsupported", True):
                res.obligations += c.obligations
                res.notes |= c.notes
                break
        except Budget:
            res.truncated = True
            res.unsupported.append("time budget exhausted")
            res.obligations += c.obligations
            break
        except RecursionError as ex:
            res.unsupported.append("recursion limit")
            break
        except Exception as ex:
            import traceback
            m = None
            tb = traceback.format_exc()
            try:
                m = c.feasible_model()
            except Exception:
                pass
            if m is not None:
                res.errors.append((repr(ex)[:300], m, tb[-1500:]))
            elif c._check() == z3.unsat:
                res.dead += 1
            else:
                res.unsupported.append("exception on a path of unknown feasibility: %r" % ex)
            res.paths += 1
        finally:
            CTX = None
        if not (res.unsupported and cfg.get("stop_on_unsupported", True)):
            res.obligations += c.obligations
        res.notes |= c.notes
        stack.extend(c.pending)
        if res.paths + res.dead > maxp:
            res.truncated = True
            res.unsupported.append("path budget exhausted (%d)" % maxp)
            break
        if cfg.get("stop_early") and (res.errors or any(o.status == "refuted" for o in res.obligations)):
            break
    res.solver_time = cfg.get("solver_time", 0.0)
    return res


from . import field  # noqa: E402
