"""Algebraic back end: sign inference and equality of rational functions.

Used in front of the SMT solvers for the non-linear obligations.
 sign(e)      structural sign of a real/int term from unit facts of the path ('+', '0+', '-', '0-', '0' or None)
 equal(a, b)  a and b are the same rational function of the path's atoms, modulo  sqrt(x)^2 = x,  pow(x,y) pow(x,-y) = 1,
              linearity of finite sums (bodies in normal form over their index-dependent atoms), idempotent 0/1 conditions, log of products of positive factors, and congruence of log/sqrt/exp/pow; every divisor must be known to be non-zero
"""
import fractions
import itertools

import z3

_S = {}


def _num(e):
    if z3.is_int_value(e):
        return fractions.Fraction(e.as_long())
    if z3.is_rational_value(e):
        return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _sgn(q):
    return "+" if q > 0 else ("-" if q < 0 else "0")


_NEG = {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0", None: None}


def _mul(a, b):
    if a == "0" or b == "0":
        return "0"
    if a is None or b is None:
        return None
    neg = (a in ("-", "0-")) != (b in ("-", "0-"))
    strict = a in ("+", "-") and b in ("+", "-")
    r = "+" if strict else "0+"
    return _NEG[r] if neg else r


def _add(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    if a is None or b is None:
        return None
    if a in ("+", "0+") and b in ("+", "0+"):
        return "+" if "+" in (a, b) else "0+"
    if a in ("-", "0-") and b in ("-", "0-"):
        return "-" if "-" in (a, b) else "0-"
    return None


def _join(a, b):
    """sign of a value that is one of two"""
    if a == b:
        return a
    s = {a, b}
    if None in s:
        return None
    if s <= {"+", "0+", "0"}:
        return "0+"
    if s <= {"-", "0-", "0"}:
        return "0-"
    return None


class Signs(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.unit = {}
        self.memo = {}

    def refresh(self):
        fs = self.ctx.facts
        if len(fs) < self.n:
            self.n, self.unit, self.memo = 0, {}, {}
        if self.n < len(fs):
            self.memo = {}
        while self.n < len(fs):
            self._fact(fs[self.n])
            self.n += 1

    def _fact(self, f, pos=True):
        if z3.is_and(f) and pos:
            for c in f.children():
                self._fact(c)
            return
        if z3.is_not(f):
            return self._fact(f.children()[0], not pos)
        if z3.is_or(f) and not pos:
            for c in f.children():
                self._fact(c, False)
            return
        if not z3.is_app(f) or f.num_args() != 2:
            return
        k = f.decl().kind()
        a, b = f.children()
        if not z3.is_arith(a):
            return
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "="}
        if k not in ops:
            return
        op = ops[k]
        if not pos:
            if op == "=":
                return
            op = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[op]
        if _num(a) is not None:
            a, b = b, a
            op = {"<=": ">=", "<": ">", ">=": "<=", ">": "<", "=": "="}[op]
        q = _num(b)
        if q is None:
            return
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
            a = a.children()[0]
        isint = a.sort() == z3.IntSort()
        s = None
        if op == "=":
            s = _sgn(q)
        elif op == ">":
            s = "+" if q >= 0 else ("0+" if isint and q >= -1 else None)
        elif op == ">=":
            s = "+" if q > 0 else ("0+" if q == 0 else None)
        elif op == "<":
            s = "-" if q <= 0 else None
        elif op == "<=":
            s = "-" if q < 0 else ("0-" if q == 0 else None)
        if s is None:
            return
        key = a.get_id()
        old = self.unit.get(key, (None, None))[1]
        if old in (None, "0+", "0-"):
            self.unit[key] = (a, s)

    def sign(self, e, depth=0):
        if depth == 0:
            self.refresh()
        q = _num(e)
        if q is not None:
            return _sgn(q)
        key = e.get_id()
        if key in self.memo:
            return self.memo[key][1]
        r = self._sign(e, depth)
        self.memo[key] = (e, r)
        return r

    def _sign(self, e, depth):
        if depth > 60 or not z3.is_app(e):
            return None
        u = self.unit.get(e.get_id())
        if u is not None and u[1] in ("+", "-", "0"):
            return u[1]
        s = self._struct(e, depth)
        if s is None or (u is not None and s in ("0+", "0-") and u[1] in ("+", "-")):
            return u[1] if u is not None else s
        return s

    def one_sum(self, e):
        """a combination of sums over one range, read as a single sum: the sign all its terms share"""
        terms = {}

        def walk(x, c):
            k = x.decl().kind() if z3.is_app(x) else None
            if k == z3.Z3_OP_TO_REAL:
                return walk(x.children()[0], c)
            if k == z3.Z3_OP_UMINUS:
                return walk(x.children()[0], -c)
            if k == z3.Z3_OP_ADD:
                return all(walk(y, c) for y in x.children())
            if k == z3.Z3_OP_SUB:
                return walk(x.children()[0], c) and all(walk(y, -c) for y in x.children()[1:])
            if k == z3.Z3_OP_MUL and len(x.children()) == 2 and _num(x.children()[0]) is not None:
                return walk(x.children()[1], c * _num(x.children()[0]))
            if not z3.is_const(x) or k != z3.Z3_OP_UNINTERPRETED:
                return False
            terms[x.get_id()] = (x, terms.get(x.get_id(), (x, 0))[1] + c)
            return True
        if not walk(e, 1):
            return None
        sums = {s.const.get_id(): s for s in self.ctx.sums}
        used = [sums[i] for i in terms if i in sums]
        if not used or len(terms) > 6:
            return None
        N = used[0].N
        body = z3.RealVal(0)
        for i, (x, c) in terms.items():
            if i in sums:
                if not z3.eq(sums[i].N, N):
                    return None
                b = sums[i].body
            elif z3.eq(x, N):
                b = z3.RealVal(1)
            else:
                return None
            body = body + z3.RealVal(str(c)) * (z3.ToReal(b) if z3.is_int(b) else b)
        key = body.sexpr()
        if key not in _S:
            out = None
            for bad, s in ((body < 0, "0+"), (body > 0, "0-")):
                sol = z3.Solver()
                sol.set("timeout", 300)
                sol.add(bad)
                if sol.check() == z3.unsat:
                    out = s
                    break
            _S[key] = out
        return _S[key]

    def _struct(self, e, depth):
        k = e.decl().kind()
        ch = e.children()
        g = lambda x: self.sign(x, depth + 1)
        if k == z3.Z3_OP_TO_REAL:
            return g(ch[0])
        if k == z3.Z3_OP_UMINUS:
            return _NEG[g(ch[0])]
        if k == z3.Z3_OP_ADD:
            r = "0"
            for c in ch:
                r = _add(r, g(c))
                if r is None:
                    return self.one_sum(e)
            return r
        if k == z3.Z3_OP_SUB:
            r = g(ch[0])
            for c in ch[1:]:
                r = _add(r, _NEG[g(c)])
                if r is None:
                    return self.one_sum(e)
            return r
        if k == z3.Z3_OP_MUL:
            # squares
            cnt = {}
            for c in ch:
                cnt[c.get_id()] = cnt.get(c.get_id(), 0) + 1
            r, seen = "+", set()
            for c in ch:
                if c.get_id() in seen:
                    continue
                seen.add(c.get_id())
                m = cnt[c.get_id()]
                s = g(c)
                if m % 2 == 0:
                    s = "+" if s in ("+", "-") else ("0" if s == "0" else "0+")
                r = _mul(r, s)
            if r is None and len(ch) == 2:
                if z3.eq(z3.simplify(ch[0]), z3.simplify(ch[1])):
                    return "0+"
            return r
        if k == z3.Z3_OP_DIV:
            a, b = g(ch[0]), g(ch[1])
            if b in ("+", "-"):
                return _mul(a, b)
            return None
        if k == z3.Z3_OP_POWER:
            q = _num(ch[1])
            if q is not None and q.denominator == 1 and q.numerator % 2 == 0:
                return "+" if g(ch[0]) in ("+", "-") else "0+"
            if q is not None and q.denominator == 1 and q.numerator > 0:
                return g(ch[0])
            return None
        if k == z3.Z3_OP_ITE:
            return _join(g(ch[1]), g(ch[2]))
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm == "sqrt":
                s = g(ch[0])
                return "+" if s == "+" else ("0+" if s == "0+" else None)
            if nm == "exp":
                return "+"
            if nm == "pow":
                return "+" if g(ch[0]) == "+" else None
            if nm.startswith("sum!"):
                for s in self.ctx.sums:
                    if s.const.decl().name() == nm:
                        b = g(s.body)
                        return {"+": "0+", "-": "0-"}.get(b, b)
        return None


def signs(ctx):
    if not hasattr(ctx, "_signs"):
        ctx._signs = Signs(ctx)
    return ctx._signs


def sign(ctx, e):
    return signs(ctx).sign(e)


def decides(ctx, e):
    """True if the sign rules establish the comparison e"""
    if z3.is_and(e):
        return all(decides(ctx, c) for c in e.children())
    neg = False
    if z3.is_not(e):
        e, neg = e.children()[0], True
    if not z3.is_app(e) or e.num_args() != 2 or not z3.is_arith(e.children()[0]):
        return False
    k = e.decl().kind()
    a, b = e.children()
    if neg:
        if k == z3.Z3_OP_EQ:
            k = z3.Z3_OP_DISTINCT
        else:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
    if _num(b) == 0:
        s = sign(ctx, a)
    elif _num(a) == 0:
        s = _NEG[sign(ctx, b)]
    else:
        s = sign(ctx, z3.simplify(a - b))
    if s is None:
        return False
    return s in {z3.Z3_OP_LE: ("-", "0-", "0"), z3.Z3_OP_LT: ("-",), z3.Z3_OP_GE: ("+", "0+", "0"), z3.Z3_OP_GT: ("+",),
                 z3.Z3_OP_DISTINCT: ("+", "-"), z3.Z3_OP_EQ: ("0",)}.get(k, ())


# ----------------------------------------------------------------------------------------------------------------

class NotField(Exception):
    pass


def KVAR_ID():
    from .core import KVAR
    return KVAR.get_id()


class Alg(object):
    """rational functions  num * prod(factor^e)  over the rationals; indicator variables are idempotent, square roots reduce

    A polynomial is a dict {monomial: coefficient}, a monomial a sorted tuple of (variable, exponent); the factors are a dict {factor: exponent}
    (exponents of either sign) where a factor is a polynomial in normal form (leading coefficient 1, as a sorted tuple of items).
    """
    LIMIT = 6000

    def __init__(self):
        self.nv = 0
        self.ind = set()
        self.sq = {}             # variable s with s^2 = value (a Rat)

    def var(self):
        self.nv += 1
        return self.nv

    @staticmethod
    def const(q):
        q = fractions.Fraction(q)
        return ({(): q} if q else {}, {})

    def of(self, v):
        return ({((v, 1),): fractions.Fraction(1)}, {})

    def mono(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for v, e in b:
            d[v] = 1 if v in self.ind else d.get(v, 0) + e
        return tuple(sorted(d.items()))

    def padd(self, p, q, c=1):
        r = dict(p)
        for m, k in q.items():
            t = r.get(m, 0) + c * k
            if t:
                r[m] = t
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) * len(q) > 400000:
            raise NotField("too large")
        r = {}
        for m, k in p.items():
            for m2, k2 in q.items():
                mm = self.mono(m, m2)
                t = r.get(mm, 0) + k * k2
                if t:
                    r[mm] = t
                else:
                    r.pop(mm, None)
        if len(r) > self.LIMIT:
            raise NotField("too large")
        return r

    def ppow(self, p, n):
        r = {(): fractions.Fraction(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def factor(self, p):
        """p = c * x^a * f with f in normal form; returns c, monomial content, f as a key (or None)"""
        ms = list(p)
        content = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            content = {v: min(e, d[v]) for v, e in content.items() if v in d}
        content = {v: e for v, e in content.items() if v not in self.ind or len(ms) == 1 or True}
        rest = {}
        for m, k in p.items():
            rest[tuple((v, e - content.get(v, 0)) for v, e in m if e > content.get(v, 0))] = k
        lead = rest[max(rest)]
        rest = {m: k / lead for m, k in rest.items()}
        key = None if rest == {(): 1} else tuple(sorted(rest.items()))
        return lead, content, key

    def plain(self, f):
        """may this factor stay a factor (no rule rewrites a product with it)"""
        return not any(v in self.ind or v in self.sq for m, _ in f for v, _ in m)

    def tidy(self, num, fac):
        """num * prod(factor^exponent) with squares of square roots reduced and monomial content moved into single-variable factors"""
        if not num:
            return ({}, {})
        fac = {f: e for f, e in fac.items() if e}
        for f in list(fac):
            if len(f) == 1:      # a single variable
                v = f[0][0][0][0]
                if v in self.sq and abs(fac[f]) >= 2:
                    h, sg = abs(fac[f]) // 2, (1 if fac[f] > 0 else -1)
                    fac[f] -= sg * 2 * h
                    r = self.tidy(num, fac)
                    for _ in range(h):
                        r = self.mul(r, self.sq[v]) if sg > 0 else self.div(r, self.sq[v])
                    return r
            if fac[f] > 0 and not self.plain(f):
                e = fac.pop(f)
                return self.tidy(self.pmul(num, self.ppow(dict(f), e)), fac)
        hit = next((v for m in num for v, e in m if e >= 2 and v in self.sq), None)
        if hit is not None:
            lo, hi = {}, {}
            for m, k in num.items():
                d = dict(m)
                e = d.get(hit, 0)
                if e >= 2:
                    d[hit] = e - 2
                    if not d[hit]:
                        del d[hit]
                    hi[tuple(sorted(d.items()))] = k
                else:
                    lo[m] = k
            return self.add(self.tidy(lo, fac), self.mul(self.tidy(hi, fac), self.sq[hit]))
        c, content, key = self.factor(num)
        moved = {}
        for v, e in content.items():
            f = ((((v, 1),), fractions.Fraction(1)),)
            if v not in self.ind and (v not in self.sq or f in fac):
                moved[v] = e
                fac[f] = fac.get(f, 0) + e
                if not fac[f]:
                    del fac[f]
        if moved:
            num = {tuple((v, e - moved.get(v, 0)) for v, e in m if e > moved.get(v, 0)): k for m, k in num.items()}
            if any(v in self.sq and fac.get(((((v, 1),), fractions.Fraction(1)),), 0) > 0 for v in moved):
                return self.tidy(num, fac)
        if key is not None and len(num) > 1 and (key in fac or self.plain(key)):
            fac[key] = fac.get(key, 0) + 1
            if not fac[key]:
                del fac[key]
            num = {tuple(sorted((v, e) for v, e in content.items() if v not in moved)): c}
        return (num, fac)

    def expand(self, p, fac):
        for f, e in fac.items():
            p = self.pmul(p, self.ppow(dict(f), e))
        return p

    def flat(self, a):
        """the same value as numerator / denominator, both expanded products of factors: (polynomial, {factor: exponent > 0})"""
        return self.expand(a[0], {f: e for f, e in a[1].items() if e > 0}), {f: -e for f, e in a[1].items() if e < 0}

    def add(self, a, b, c=1):
        if not a[0]:
            return b if c == 1 else self.scale(b, c)
        if not b[0]:
            return a
        com = {f: min(a[1].get(f, 0), b[1].get(f, 0)) for f in list(a[1]) + list(b[1])}
        na = self.expand(a[0], {f: a[1].get(f, 0) - e for f, e in com.items()})
        nb = self.expand(b[0], {f: b[1].get(f, 0) - e for f, e in com.items()})
        return self.tidy(self.padd(na, nb, c), com)

    def scale(self, a, c):
        return ({m: k * c for m, k in a[0].items()}, a[1])

    def mul(self, a, b):
        fac = dict(a[1])
        for f, e in b[1].items():
            fac[f] = fac.get(f, 0) + e
        return self.tidy(self.pmul(a[0], b[0]), fac)

    def inv(self, a):
        if not a[0]:
            raise NotField("division by zero")
        c, content, key = self.factor(a[0])
        fac = {f: -e for f, e in a[1].items()}
        for v, e in content.items():
            f = ((((v, 1),), fractions.Fraction(1)),)
            fac[f] = fac.get(f, 0) - e
        if key is not None:
            fac[key] = fac.get(key, 0) - 1
        return self.tidy({(): 1 / c}, fac)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def power(self, a, n):
        if n < 0:
            return self.power(self.inv(a), -n)
        r = self.const(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def number(self, a):
        """the value of a constant, or None"""
        if not a[0]:
            return fractions.Fraction(0)
        if not a[1] and list(a[0]) == [()]:
            return a[0][()]
        return None

    @staticmethod
    def key(p):
        return tuple(sorted(p.items()))


class Field(object):
    def __init__(self, ctx, forced=None):
        self.ctx = ctx
        self.forced = forced or {}   # values assumed for conditions (case analysis)
        self.conds = {}              # key of a condition -> the z3 condition
        self.A = Alg()
        self.atoms = {}          # z3 id -> (expr, value)
        self.fns = []            # (name, [values], value)
        self.expr = {}           # variable -> the z3 term it stands for
        self.size = 0
        self.done = set()
        self.inds = {}           # key of a condition -> variable of its indicator (0 or 1)
        self.katoms = set()      # variables whose value depends on the bound index of a sum
        self.sumsyms = {}        # (bound, monomial) -> value of the sum of that monomial
        self.known = None
        self.origin = {}         # factor -> (z3 term, its value) that it came from
        self._dep = {}

    def step(self):
        self.size += 1
        if self.size > 6000:
            raise NotField("too large")

    def atom(self, e):
        v = self.A.var()
        self.expr[v] = e
        if self.depends(e):
            self.katoms.add(v)
        return self.A.of(v)

    # -- conditions as 0/1 polynomials
    def indicator(self, key, depends, cond=None):
        if key in self.forced:
            return self.A.const(self.forced[key])
        if not depends and cond is not None:
            self.conds[key] = cond
        if key not in self.inds:
            v = self.A.var()
            self.inds[key] = v
            self.A.ind.add(v)
            if depends:
                self.katoms.add(v)
        return self.A.of(self.inds[key])

    def depends(self, e):
        """does e contain the bound index of a sum"""
        i = e.get_id()
        if i not in self._dep:
            self._dep[i] = (e, i == KVAR_ID() or any(self.depends(c) for c in e.children()))
        return self._dep[i][1]

    def compl(self, a):
        return self.A.add(self.A.const(1), a, -1)

    def boolean(self, c):
        A = self.A
        self.step()
        if z3.is_true(c):
            return A.const(1)
        if z3.is_false(c):
            return A.const(0)
        if not z3.is_app(c):
            raise NotField("condition")
        k, ch = c.decl().kind(), c.children()
        if k == z3.Z3_OP_NOT:
            return self.compl(self.boolean(ch[0]))
        if k == z3.Z3_OP_AND:
            r = A.const(1)
            for x in ch:
                r = A.mul(r, self.boolean(x))
            return r
        if k == z3.Z3_OP_OR:
            r = A.const(1)
            for x in ch:
                r = A.mul(r, self.compl(self.boolean(x)))
            return self.compl(r)
        if k == z3.Z3_OP_IMPLIES:
            a, b = [self.boolean(x) for x in ch]
            return self.compl(A.mul(a, self.compl(b)))
        if k == z3.Z3_OP_ITE:
            q, a, b = [self.boolean(x) for x in ch]
            return A.add(b, A.mul(q, A.add(a, b, -1)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_XOR) and z3.is_bool(ch[0]):
            a, b = [self.boolean(x) for x in ch]
            x = A.add(A.add(a, b), A.mul(a, b), -2)
            return x if k == z3.Z3_OP_XOR else self.compl(x)
        dep = self.depends(c)
        if not dep:
            if self.known is None:
                self.known = {}
                for f in self.ctx.facts:
                    for g in (f.children() if z3.is_and(f) else [f]):
                        if z3.is_not(g):
                            self.known[g.children()[0].get_id()] = (g, 0)
                        else:
                            self.known[g.get_id()] = (g, 1)
            if c.get_id() in self.known:
                return A.const(self.known[c.get_id()][1])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(ch[0]):
            d = None
            try:
                d = A.add(self.conv(ch[0]), self.conv(ch[1]), -1)
            except NotField:
                pass
            d, den = A.flat(d) if d is not None else (None, True)
            if den:
                return self.indicator(("opaque", c.sexpr()), dep, c)
            q = A.number((d, {}))
            if q is not None:
                return A.const(int({z3.Z3_OP_LE: q <= 0, z3.Z3_OP_LT: q < 0, z3.Z3_OP_GE: q >= 0, z3.Z3_OP_GT: q > 0, z3.Z3_OP_EQ: q == 0}[k]))
            if k == z3.Z3_OP_EQ:
                return self.indicator(("eq", min(A.key(d), A.key(A.padd({}, d, -1)))), dep, c)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_LT):
                d = A.padd({}, d, -1)
            lead = abs(d[max(d)])
            x = self.indicator(("le", A.key(A.padd({}, d, 1 / lead))), dep, c if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else z3.Not(c))
            return x if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else self.compl(x)
        return self.indicator(("opaque", c.sexpr()), dep, c)

    def linear(self, s):
        """a finite sum as a combination of sums of monomials"""
        A = self.A
        num, den = A.flat(self.conv(s.body))
        if any(v in self.katoms for f in den for m, _ in f for v, _ in m):
            raise NotField("division inside a sum")
        out = A.const(0)
        N = None
        for m, c in num.items():
            co = tuple((v, e) for v, e in m if v not in self.katoms)
            mono = tuple((v, e) for v, e in m if v in self.katoms)
            if not mono:
                N = N or self.conv(s.N)
                x = N
            else:
                key = (s.N.sexpr(), mono)
                if key not in self.sumsyms:
                    self.sumsyms[key] = A.of(A.var())
                x = self.sumsyms[key]
            out = A.add(out, A.mul(A.tidy({co: c}, {}), x))
        return A.mul(out, ({(): fractions.Fraction(1)}, {f: -e for f, e in den.items()}))

    def back(self, p):
        """the z3 term of a polynomial, None if a variable has none"""
        out = []
        for m, c in (p.items() if isinstance(p, dict) else p):
            t = z3.RealVal(str(c))
            for v, e in m:
                x = self.expr.get(v)
                if x is None:
                    return None
                x = z3.ToReal(x) if z3.is_int(x) else x
                for _ in range(e):
                    t = t * x
            out.append(t)
        return z3.simplify(z3.Sum(*out)) if out else z3.RealVal(0)

    def is_pos(self, e):
        return decides(self.ctx, e > 0) or self.ctx.entails(e > 0)

    def psign(self, p):
        """+1 or -1 if the polynomial is known to have that sign, else 0"""
        key = tuple(sorted(p.items()))
        if key in self.origin:
            e, (num, fac) = self.origin[key]
            sg = 1 if self.is_pos(e) else (-1 if self.is_pos(-e) else 0)
            (m, c), = num.items()
            sg *= 1 if c > 0 else -1
            rest = [({((v, 1),): fractions.Fraction(1)}, n) for v, n in m] + [(dict(f), n) for f, n in fac.items() if f != key]
            for q, n in rest:
                if not sg:
                    break
                sg *= 1 if n % 2 == 0 else self.psign(q)
            if sg:
                return sg
        e = self.back(p)
        if e is None:
            return 0
        return 1 if self.is_pos(e) else (-1 if self.is_pos(-e) else 0)

    def positive(self, p):
        return self.psign(p) > 0

    def log(self, arg, e):
        """log of a value: split over the factors that are known to be positive"""
        A = self.A
        num, fac = arg
        q = A.number(arg)
        if q == 1:
            return A.const(0)
        if not num:
            return self.fn("log", [arg], e)
        c, content, key = A.factor(num)
        parts = [({((v, 1),): fractions.Fraction(1)}, n) for v, n in content.items()] + ([(dict(key), 1)] if key else []) + [(dict(f), n) for f, n in fac.items()]
        if len(parts) + (c != 1) > 1:
            signs = [self.psign(p) for p, _ in parts]
            parts = [(p if g > 0 else self.A.padd({}, p, -1), n) for g, (p, n) in zip(signs, parts)]
            for g, (_, n) in zip(signs, parts):
                c = c * g ** (n % 2)
        if len(parts) + (c != 1) > 1 and c > 0 and all(signs):
            out = A.const(0)
            for p, n in parts:
                out = A.add(out, A.scale(self.log1(p), fractions.Fraction(n)))
            for n, w in ((c.numerator, 1), (c.denominator, -1)):
                d = 2
                while n > 1:
                    if d * d > n or d > 5000:
                        d = n
                    while n % d == 0:
                        n //= d
                        out = A.add(out, A.scale(self.log1({(): fractions.Fraction(d)}), w))
                    d += 1
            return out
        if len(parts) == 1 and c == 1:
            return A.scale(self.log1(parts[0][0]), fractions.Fraction(parts[0][1])) if parts[0][1] == 1 or self.positive(parts[0][0]) else self.fn("log", [arg], e)
        return self.fn("log", [arg], e)

    def log1(self, p):
        """log of one factor; a square root halves"""
        A = self.A
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in A.sq:
                inner = A.sq[m[0][0]]
                if inner[0]:
                    return A.scale(self.log(inner, None), fractions.Fraction(1, 2))
        return self.fn("log", [A.tidy(dict(p), {})], None)

    def fn(self, nm, args, e):
        A = self.A
        for n2, a2, s2 in self.fns:
            if n2 == nm and all(self.zero(A.add(x, y, -1)) for x, y in zip(args, a2)):
                return s2
        v = A.var()
        if e is not None:
            self.expr[v] = e
        if any(x in self.katoms for a in args for p in [a[0]] + [dict(f) for f in a[1]] for m in p for x, _ in m):
            self.katoms.add(v)
        s = A.of(v)
        self.fns.append((nm, args, s))
        return s

    def conv(self, e):
        i = e.get_id()
        if i in self.atoms:
            return self.atoms[i][1]
        v = self.conv1(e)
        self.atoms[i] = (e, v)
        if len(v[0]) == 1:
            big = [f for f in v[1] if len(f) > 1]
            if len(big) == 1 and abs(v[1][big[0]]) == 1 and big[0] not in self.origin:
                self.origin[big[0]] = (e, v)
        elif len(v[0]) > 1 and not v[1]:
            c, content, key = self.A.factor(v[0])
            if not content and key not in self.origin:
                self.origin[key] = (e, ({(): c}, {key: 1}))
        return v

    def conv1(self, e):
        self.step()
        A = self.A
        q = _num(e)
        if q is not None:
            return A.const(q)
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_ADD:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = A.add(r, self.conv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = A.add(r, self.conv(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return A.scale(self.conv(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = A.mul(r, self.conv(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.conv(ch[0]), self.conv(ch[1])
            if A.number(b) is None and ch[1].get_id() not in self.done:
                self.nonzero(ch[1])
                self.done.add(ch[1].get_id())
            return A.div(a, b)
        if k == z3.Z3_OP_POWER:
            q = _num(ch[1])
            if q is not None and q.denominator == 1 and abs(q) <= 8:
                if q < 0:
                    self.nonzero(ch[0])
                return A.power(self.conv(ch[0]), int(q))
            raise NotField("power")
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm in ("sqrt", "log", "exp", "pow"):
                args = [self.conv(c) for c in ch]
                if nm == "log":
                    return self.log(args[0], e)
                n0 = len(self.fns)
                s = self.fn(nm, args, e)
                if nm == "sqrt" and len(self.fns) > n0 and (decides(self.ctx, ch[0] >= 0) or self.ctx.entails(ch[0] >= 0)):
                    A.sq[A.nv] = args[0]
                return s
            if nm.startswith("sum!"):
                t = [x for x in self.ctx.sums if x.const.decl().name() == nm]
                if t:
                    try:
                        return self.linear(t[0])
                    except NotField:
                        pass
                    from .core import _pointwise, _pointwise_eq
                    known = [x for x in self.ctx.sums if x.const.get_id() in self.atoms and z3.eq(x.N, t[0].N) and x.body.sort() == t[0].body.sort()]
                    for i in range(len(known)):
                        for j in range(len(known)):
                            if i < j and _pointwise(t[0], known[i], known[j]):
                                return A.add(self.conv(known[i].const), self.conv(known[j].const))
                            if i != j and _pointwise(known[i], known[j], t[0]):
                                return A.add(self.conv(known[i].const), self.conv(known[j].const), -1)
                    for x in known:
                        if _pointwise_eq(t[0], x):
                            return self.conv(x.const)
        if k == z3.Z3_OP_ITE:
            try:
                b = self.boolean(ch[0])
                x, y = self.conv(ch[1]), self.conv(ch[2])
                return A.add(y, A.mul(b, A.add(x, y, -1)))
            except NotField:
                pass
            for e2, s2 in self.atoms.values():
                if z3.is_app(e2) and e2.decl().kind() == z3.Z3_OP_ITE and e2.sexpr() == e.sexpr():
                    return s2
        if not z3.is_arith(e):
            raise NotField("sort")
        return self.atom(e)

    def nonzero(self, d):
        if d.get_id() in self.ctx.nonzero:
            return
        if decides(self.ctx, d != 0):
            return
        if self.ctx.entails(d != 0):
            return
        raise NotField("possible division by zero")

    def zero(self, a):
        return not a[0]


def known_values(ctx):
    """sums the path conditions fix to a number"""
    out = []
    for f in ctx.facts:
        if z3.is_eq(f) and z3.is_arith(f.children()[0]):
            a, b = f.children()
            if _num(a) is not None:
                a, b = b, a
            if _num(b) is not None and z3.is_const(a) and a.decl().name().startswith("sum!"):
                out.append((a, b))
    return out


def equal(ctx, a, b):
    try:
        kv = known_values(ctx)
        if kv:
            from .core import LOG
            one = (LOG(z3.RealVal(1)), z3.RealVal(0))
            a, b = [z3.simplify(z3.substitute(z3.simplify(z3.substitute(x, *kv)), one)) for x in (a, b)]
        f = Field(ctx)
        if f.zero(f.A.add(f.conv(a), f.conv(b), -1)):
            return True
        if not 0 < len(f.conds) <= 5:
            return False
        # case analysis over the conditions
        keys = list(f.conds)
        for bits in itertools.product((0, 1), repeat=len(keys)):
            g = Field(ctx, dict(zip(keys, bits)))
            if not g.zero(g.A.add(g.conv(a), g.conv(b), -1)):
                if not ctx.entails(z3.Not(z3.And(*[f.conds[q] if v else z3.Not(f.conds[q]) for q, v in zip(keys, bits)]))):
                    return False
        return True
    except NotField:
        return False


def prove(ctx, goal):
    """True if the goal (an equality, an inequality of known sign, or a conjunction of such) is established"""
    if z3.is_true(goal):
        return True
    if z3.is_and(goal):
        return all(prove(ctx, c) for c in goal.children())
    if z3.is_eq(goal) and z3.is_arith(goal.children()[0]):
        a, b = goal.children()
        return equal(ctx, a, b)
    return decides(ctx, goal)
