"""Symbolic half of the contract API (proof and bounded back ends)."""
import z3

import builtins
from . import core, npf, universe
from .core import SNum, SBool, Unsupported, PathDead, term, numterm, boolterm, wrap, ite, is_num, to_real
from .arr import SArr, SMat, SymSeq, eq_, not_, and_, or_, forall_fact, forall_term, exists_term, add_index_term
from .api import Skip, Failed


class SymH(object):
    concrete = False
    vc_opaque = True        # (not part of the heap of the program)

    def __init__(self, c, bounded, sizes=None):
        self.c = c
        self.bounded = bounded
        self.proof = not bounded
        self.mode = "bounded" if bounded else "proof"
        self.U = universe.Universe()
        self.sizes = sizes or {}
        self.fixed = {}
        c.universe = self.U
        c.uniq = []

    @property
    def draws(self):
        return self.c.draws

    def mod(self, name):
        return self.U.load(name)

    # -- inputs
    def size(self, name, lo=1, hi=None, small=None):
        c = self.c
        if self.bounded:
            mx = self.sizes.get(name, small if small is not None else self.sizes.get("*", 3))
            if hi is not None:
                mx = min(mx, hi)
            mx = max(mx, lo)
            v = lo + c.choose(mx - lo + 1)
            c.inputs[name] = ("size", v)
            return v
        v = z3.Int(name)
        c.assume_raw(v >= lo)
        if hi is not None:
            c.assume_raw(v <= hi)
        c.inputs[name] = ("size", SNum(v))
        return SNum(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = z3.Real(name)
        c = self.c
        c.inputs[name] = ("real", SNum(v))
        c.assume_raw(z3.And(v > core.NINF(), v < core.PINF()))
        if lo is not None:
            c.assume_raw(v > lo if lo_open else v >= lo)
        if hi is not None:
            c.assume_raw(v < hi if hi_open else v <= hi)
        return SNum(v)

    def int_(self, name, lo, hi=None):
        v = z3.Int(name)
        c = self.c
        c.inputs[name] = ("int", SNum(v))
        c.assume_raw(v >= lo)
        if hi is not None:
            c.assume_raw(v <= hi)
        return SNum(v)

    def flag(self, name):
        v = bool(self.fixed[name]) if name in self.fixed else self.c._choice()
        self.c.inputs[name] = ("choice", v)
        return v

    def pick(self, name, k):
        v = self.fixed[name] if name in self.fixed else self.c.choose(k)
        self.c.inputs[name] = ("choice", v)
        return v

    def index(self, name, n):
        c = self.c
        if isinstance(n, int):
            if n <= 0:
                raise PathDead()
            v = c.choose(n)
            c.inputs[name] = ("choice", v)
            return v
        v = z3.Int(name)
        c.inputs[name] = ("int", SNum(v))
        c.assume_raw(z3.And(v >= 0, v < term(n)))
        if c.infeasible():
            raise PathDead()
        add_index_term(v, True)
        return SNum(v)

    def reals(self, name, n, finite=False, lo=None, hi=None):
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        c = self.c
        fn = lambda i: SNum(f(term(i)))
        c.inputs[name] = ("reals", (n, fn))
        if finite:
            forall_fact(n, lambda i: wrap(z3.And(f(term(i)) > core.NINF(), f(term(i)) < core.PINF())))
        if lo is not None:
            forall_fact(n, lambda i: wrap(f(term(i)) >= lo))
        if hi is not None:
            forall_fact(n, lambda i: wrap(f(term(i)) <= hi))
        return SArr(n, fn, "f")

    def bools(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        fn = lambda i: SBool(f(term(i)))
        self.c.inputs[name] = ("bools", (n, fn))
        return SArr(n, fn, "b")

    def ints(self, name, n, lo, hi):
        """python list of n ints (n concrete)"""
        out = []
        for i in range(n):
            out.append(lo + self.c.choose(hi - lo + 1))
        self.c.inputs[name] = ("choice", list(out))
        return out

    def func(self, name, arity):
        """an arbitrary function of real arguments"""
        f = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
        return lambda *a: SNum(f(*[core.to_real(term(x)) for x in a]))

    def build(self, n, fn):
        return SArr(n, fn, "f")

    def indices(self, name, m, n):
        """an array of m arbitrary indices below n"""
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        fn = lambda i: SNum(f(term(i)))
        c = self.c
        c.inputs[name] = ("ints", (m, fn))
        if isinstance(m, int):
            for i in range(m):
                c.assume_raw(z3.And(f(i) >= 0, f(i) < term(n)))
        else:
            i = z3.Int("i!x")
            c.assume_raw(z3.ForAll([i], z3.And(f(i) >= 0, f(i) < term(n)), patterns=[f(i)]))
        return SArr(m, fn, "i")

    def matrix(self, name, n, p, finite=False):
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        fn = lambda i, j: SNum(f(term(i), term(j)))
        c = self.c
        c.inputs[name] = ("matrix", (n, p, fn))
        if finite:
            if isinstance(n, int) and isinstance(p, int):
                for i in range(n):
                    for j in range(p):
                        c.assume_raw(z3.And(f(i, j) > core.NINF(), f(i, j) < core.PINF()))
            else:
                i, j = z3.Ints("i!m j!m")
                c.assume_raw(z3.ForAll([i, j], z3.And(f(i, j) > core.NINF(), f(i, j) < core.PINF()), patterns=[f(i, j)]))
        return SMat(n, p, fn, "f")

    def counts(self, name, n, lo):
        """n arbitrary integers >= lo, as a function of the index"""
        c = self.c
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        if isinstance(n, int):
            vs = [lo + c.choose(2) for _ in range(n)]
            c.inputs[name] = ("choice", vs)
            return lambda i: vs[i]
        c.inputs[name] = ("ints", (n, lambda i: SNum(f(term(i)))))
        i = z3.Int("i!c")
        c.assume_raw(z3.ForAll([i], f(i) >= lo, patterns=[f(i)]))
        return lambda i: SNum(f(term(i)))

    def tensor(self, name, a, b, d):
        """arbitrary reals by three indices; b may be a function of the first index"""
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        fn = lambda i, j, k: SNum(f(term(i), term(j), term(k)))
        self.c.inputs[name] = ("tensor", (a, 6, d, fn))
        return fn

    def vector(self, n, fn):
        """the array fn(0) .. fn(n-1)"""
        return SArr(n, fn, "f")

    def truths(self, n, fn):
        """the array of booleans fn(i)"""
        return SArr(n, lambda i: wrap(boolterm(fn(i))), "b")

    def objects(self, n, fn, values=False):
        """a list of n objects, the i-th of which is fn(i); values: their identity does not matter and they are never changed (checked)"""
        if isinstance(n, int):
            return [fn(i) for i in range(n)]
        s = SymSeq(n, self._unchanged(fn) if values else fn)
        s.values = values
        s.distinct = not values
        return s

    def _unchanged(self, fn):
        def one(i):
            o = fn(i)
            self.c.values.append((o, dict(o.__dict__)))
            return o
        return one

    def loop_invariant(self, seq, where, enter, inv, owns):
        """invariant of the loops over seq in the functions named in `where` (see LoopSpec)"""
        if isinstance(seq, SymSeq):
            seq.spec = universe.LoopSpec(where, enter, inv, owns)
            return seq.spec

    def range_invariant(self, where, enter, inv, owns):
        """as loop_invariant, for the loops over a range (or the enumerated elements of a list) of unbounded length in those functions"""
        self.c.range_spec = universe.LoopSpec(where, enter, inv, owns)
        return self.c.range_spec

    def fresh_vector(self, n):
        """an array of arbitrary numbers"""
        f = self.c.fresh_fn("hav", z3.IntSort(), z3.RealSort())
        return SArr(n, lambda i: SNum(f(term(i))), "f")

    def fresh_reals(self):
        """an arbitrary function of an index"""
        f = self.c.fresh_fn("hav", z3.IntSort(), z3.RealSort())
        return lambda i: SNum(f(term(i)))

    def symdict(self, n, elem, values=False):
        """the dict {0: elem(0), ..., n-1: elem(n-1)}"""
        d = universe.SymDict(n, self._unchanged(elem) if values else elem)
        d.base_seq.values = values
        return d

    def row(self, M, i):
        """row i of a matrix, as a fresh array"""
        f = M.fn
        return SArr(M.p, lambda j: f(i, j), M.dt)

    # -- logic
    def requires(self, cond):
        self.c.assume(cond)

    assume = requires

    def summ(self, thunk):
        """the value of thunk() as one term"""
        return npf.summ(thunk)

    def implied(self, cond):
        """the conditions of the path imply cond"""
        return self.c.entails(boolterm(cond))

    def add_index(self, i):
        """look at the universally quantified facts at index i"""
        if not self.c.sub and not self.c.bound:
            add_index_term(term(i), True)

    def requires_forall(self, n, pred):
        forall_fact(n, pred)
        if self.c.infeasible():
            raise PathDead()

    def ensures(self, name, cond):
        if isinstance(cond, (list, tuple)):
            raise Unsupported("bad ensures")
        if isinstance(cond, (SArr, SMat)):
            cond = cond.all()
        self.c.prove(name, cond if isinstance(cond, (bool, SBool)) else bool(cond))

    def ensures_forall(self, name, n, pred):
        c = self.c
        if isinstance(n, int):
            for i in range(n):
                c.prove(name, _b(pred(i)))
            return
        i = c.fresh("i", z3.IntSort())
        c.assume_raw(z3.And(i >= 0, i < term(n)))
        add_index_term(i)
        if c.infeasible():
            c.prove(name, True)
            return
        c.prove(name, _b(pred(SNum(i))))

    def forall(self, n, pred):
        return wrap(forall_term(n, pred))

    def exists(self, n, pred):
        if isinstance(n, int):
            return wrap(exists_term(n, pred))
        c = self.c
        i = z3.Int("i!q%d" % c.nq())
        ts = [z3.And(t >= 0, t < term(n), boolterm(pred(SNum(t)))) for t in list(c.index_terms)[:24]]
        return wrap(z3.Or(z3.Exists([i], z3.And(0 <= i, i < term(n), boolterm(c.under(i, pred)))), *ts))

    def and_(self, *a):
        return wrap(z3.And(*[boolterm(x) for x in a]))

    def or_(self, *a):
        return wrap(z3.Or(*[boolterm(x) for x in a]))

    def not_(self, a):
        return not_(a)

    def implies(self, a, b):
        return wrap(z3.Implies(boolterm(a), boolterm(b)))

    def iff(self, a, b):
        return wrap(boolterm(a) == boolterm(b))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        return eq_(a, b)

    exact = eq

    def near_tie(self, a, b):
        return False

    def finite(self, x):
        return wrap(z3.And(to_real(numterm(x)) > core.NINF(), to_real(numterm(x)) < core.PINF()))

    def sum(self, n, f):
        return self.c.sum(n, f)

    def count(self, n, pred):
        if isinstance(n, int) and self.bounded and n <= 4:
            return builtins.sum(1 for i in range(n) if bool(pred(i)))
        return self.c.sum(n, lambda i: ite(pred(i), 1, 0), integer=True)

    def lemma(self, v, at=()):
        self.c.point_lemmas(v, at)
        return self.c.pin(v)

    def log(self, x):
        return core.log_(x)

    def exp(self, x):
        return core.exp_(x)

    def sqrt(self, x):
        return core.sqrt_(x)

    def pow(self, a, b):
        return core.power(a, b)

    def at(self, a, i, j=None):
        if isinstance(a, (list, tuple)):
            return a[i]
        if j is None:
            return a.fn(i) if isinstance(a, SArr) else a.get(i)
        return a.fn(i, j)

    def range(self, n):
        return universe.b_range(n)

    def len(self, a):
        return universe.b_len(a)

    def array(self, xs):
        return npf.to_arr(list(xs))

    def copy(self, a):
        return a.copy()

    def const(self, v, n):
        return SArr(n, lambda i: v, "f")

    def frame(self, X):
        return universe.DataFrameStub(X)

    def raises(self, exc, thunk):
        try:
            return False, thunk()
        except exc:
            return True, None

    def patch(self, obj, attr, value):
        if isinstance(obj, str):
            obj = self.mod(obj)
        if not hasattr(obj, attr):
            raise Unsupported("no attribute %s to replace by its contract" % attr)
        setattr(obj, attr, value)

    def patch_random(self, g):
        self.U.np.random = g
        self.U.stubs["numpy.random"] = g

    def arange(self, n, offset=0.0):
        return SArr(n, lambda i: i + offset, "f")

    def listed(self, a):
        return universe.b_list(a)

    def record_rng(self):
        pass

    def cleanup(self):
        pass

    def unsupported(self, why):
        raise Unsupported(why)


def _b(v):
    return v if isinstance(v, (bool, SBool)) else wrap(boolterm(v))
