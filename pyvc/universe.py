"""Loads bartpy's current source from /repo and executes it, unmodified apart from a mechanical instrumentation of
loops and comprehensions, in a private module universe whose numpy is the facade of npf.py.

Instrumentation (everything it does):
  * `for T in E: B`    -> `_it = _vc_for(E, ...); for T in _it: <restore carried locals>; B  else: <restore>; ...`
  * `while C: B`       -> `_w = _vc_while(...); while _w.test(lambda: C): <restore>; B`
  * `[e for T in E if c]` (list/set/dict/generator) -> `_vc_comp(kind, E, lambda s: [e for T in s if c])`
  * `assert` is kept; nothing is dropped.
With concrete (non-symbolic) iterables/conditions all three behave exactly like the original statement.
"""
import ast
import builtins
import importlib
import inspect
import os
import sys
import types

import z3

from . import core, npf
from .core import SNum, SBool, Opaque, Unsupported, PathDead, term, boolterm, wrap, ite, numterm, is_num
from .arr import SArr, SMat, SymSeq, is_scalar, forall_term, exists_term, mn, mx, not_, and_, or_, forall_fact, add_index_term, eq_

REPO = os.environ.get("VC_REPO", "/repo")


def cx():
    return core.CTX


# ----------------------------------------------------------------------------------------------------------------
# AST instrumentation

def _stores(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def _loads(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out


class Liveness(object):
    """backward liveness of locals over the statements of one function (over-approximated):
    heads[loop] = names that may be read before being assigned again, seen from the top of an iteration;
    after[loop] = the same seen from the exit of the loop"""

    def __init__(self, fn):
        self.heads, self.after = {}, {}
        captured, self.closures = set(), []
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)):
                self.closures.append((x, _loads([x])))
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                captured |= set(x.names)
        self.captured = captured
        self.block(fn.body, set(), set(), set(), set())

    def block(self, stmts, out, brk, cont, exc):
        for st in reversed(stmts):
            out = self.stmt(st, set(out), brk, cont, exc) | self.captured | exc
        return out

    def kills(self, t):
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[self.kills(e) for e in t.elts]) if t.elts else set()
        if isinstance(t, ast.Starred):
            return self.kills(t.value)
        return set()

    def stmt(self, st, out, brk, cont, exc):
        if isinstance(st, ast.Assign):
            k = set().union(*[self.kills(t) for t in st.targets])
            return (out - k) | _loads([st])
        if isinstance(st, ast.AnnAssign):
            return (out - (self.kills(st.target) if st.value is not None else set())) | _loads([st.value] if st.value is not None else []) | _loads([st.target])
        if isinstance(st, ast.AugAssign):
            return out | _loads([st]) | self.kills(st.target)
        if isinstance(st, (ast.Return, ast.Raise)):
            return _loads([st])
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cont)
        if isinstance(st, ast.If):
            return _loads([st.test]) | self.block(st.body, out, brk, cont, exc) | self.block(st.orelse, out, brk, cont, exc)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            isfor = not isinstance(st, ast.While)
            done = self.block(st.orelse, out, brk, cont, exc)
            tg = self.kills(st.target) if isfor else set()
            test = (_loads([st.target]) if isfor else _loads([st.test]))
            head = set(done) | test
            for _ in range(50):
                new = head | (self.block(st.body, head, out, head, exc) - tg)
                if new == head:
                    break
                head = new
            # closures made outside the loop may read any iteration's values (those made inside do not outlive the frame check)
            inside = set(map(id, ast.walk(st)))
            outer = set().union(*[l for x, l in self.closures if id(x) not in inside])
            self.heads[st], self.after[st] = head | out | outer, done | out | outer
            return head | (_loads([st.iter]) if isfor else set())
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self.block(st.body, out, brk, cont, exc | out) | _loads(st.items)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            fin = self.block(st.finalbody, out, brk, cont, exc) if st.finalbody else out
            hs = set().union(*[self.block(h.body, fin, brk | fin, cont | fin, exc) for h in st.handlers]) if st.handlers else set()
            hs |= _loads([h.type for h in st.handlers if h.type is not None])
            e2 = exc | hs | fin
            els = self.block(st.orelse, fin, brk | fin, cont | fin, exc)
            return self.block(st.body, els, brk | fin, cont | fin, e2)
        return out | _loads([st])


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.live, self.after = {}, {}
        self.k = 0
        self.fn = []          # stack of function nodes
        self.qual = []

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        self.fn.append(node)
        lv = Liveness(node)
        self.live.update(lv.heads)
        self.after.update(lv.after)
        self._block(node.body)
        self.generic_visit(node)
        self.fn.pop()
        self.qual.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.fn.append(None)
        self.generic_visit(node)
        self.fn.pop()
        self.qual.pop()
        return node

    def _carried(self, node, body, targets=()):
        """locals assigned in the loop body whose value at the top of an iteration may be read, there or after the loop"""
        return sorted(v for v in _stores(body) & self.live.get(node, set()) if v not in targets and not v.startswith("_vc_"))

    def _restore(self, it, names):
        src = "\n".join("if %s.has(%r): %s = %s.val(%r)" % (it, n, n, it, n) for n in names)
        return ast.parse(src).body

    def _block(self, stmts):
        """`acc = []; ...; for T in S: v = e; if c: acc.append(E)`  is  `acc = [E for T in S for v in [e] if c]`"""
        f = self.fn[-1] if self.fn else None
        if f is None:
            return
        for q, st in enumerate(stmts):
            if not (isinstance(st, ast.For) and not st.orelse and isinstance(st.target, (ast.Name, ast.Tuple))):
                continue
            gens, body = [], list(st.body)
            comp = [(st.target, st.iter, [])]
            ok, elt, acc = True, None, None
            while body:
                b = body[0]
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and len(body) > 1:
                    comp.append((b.targets[0], ast.List([b.value], ast.Load()), []))
                    body = body[1:]
                elif isinstance(b, ast.If) and not b.orelse and len(body) == 1:
                    comp[-1][2].append(b.test)
                    body = list(b.body)
                elif (isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Continue) and len(body) > 1):
                    comp[-1][2].append(ast.UnaryOp(ast.Not(), b.test))
                    body = body[1:]
                elif (len(body) == 1 and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute)
                      and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and len(b.value.args) == 1
                      and not b.value.keywords and not isinstance(b.value.args[0], ast.Starred)):
                    acc, elt = b.value.func.value.id, b.value.args[0]
                    body = []
                else:
                    ok = False
                    break
            if not ok or acc is None:
                continue
            names = _stores([st.target]) | {t.id for t, _, _ in comp[1:]}
            inner = [x for b in st.body for x in ast.walk(b)]
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in inner + list(ast.walk(st.iter))):
                continue
            if sum(isinstance(x, ast.Name) and x.id == acc for x in inner) != 1 or acc in names or any(isinstance(x, ast.Name) and x.id == acc for x in ast.walk(st.iter)):
                continue
            # the loop's own names live only inside it
            span = set(map(id, ast.walk(st)))
            if any(isinstance(x, ast.Name) and x.id in names and id(x) not in span for x in ast.walk(f)):
                continue
            if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
                continue
            # acc is a fresh empty list, untouched since
            j = next((j for j in range(q - 1, -1, -1) if any(isinstance(x, ast.Name) and x.id == acc for x in ast.walk(stmts[j]))), None)
            if j is None:
                continue
            p = stmts[j]
            if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.List) and not p.value.elts):
                continue
            new = ast.Assign([ast.Name(acc, ast.Store())], ast.ListComp(elt, [ast.comprehension(t, it, ifs, 0) for t, it, ifs in comp]))
            ast.copy_location(new, st)
            for x in ast.walk(new):
                if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                    ast.copy_location(x, st)
            ast.fix_missing_locations(new)
            stmts[q] = new

    def visit_If(self, node):
        self._block(node.body)
        self._block(node.orelse)
        return self.generic_visit(node)

    def visit_For(self, node):
        self._block(node.body)
        tg = _stores([node.target])
        carried, aft = self._carried(node, node.body, tg), self.after.get(node, set())
        self.k += 1
        it = "_vc_it%d" % self.k
        lid = "%s:%s#%d" % (self.modname, ".".join(self.qual), self.k)
        self.generic_visit(node)
        last = tuple(sorted(set(tg) & aft))
        if last:
            last = (node.target.id,) if isinstance(node.target, ast.Name) else ("?",)
        pre = ast.parse("%s = _vc_for(None, %r, %r, %r, %r)" % (it, lid, tuple(carried), tuple(sorted(tg)), last)).body[0]
        pre.value.args[0] = node.iter
        node.iter = ast.Name(it, ast.Load())
        if carried or last:
            node.body = self._restore(it, carried) + node.body
            node.orelse = self._restore(it, tuple(carried) + (last if last != ("?",) else ())) + node.orelse
        for n in [pre] + node.body + node.orelse:
            pass
        ast.copy_location(pre, node)
        ast.fix_missing_locations(pre)
        for n in ast.walk(node):
            if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                ast.copy_location(n, node)
        ast.fix_missing_locations(node)
        return [pre, node]

    def visit_While(self, node):
        carried = self._carried(node, node.body)
        self.k += 1
        w = "_vc_w%d" % self.k
        lid = "%s:%s#%d" % (self.modname, ".".join(self.qual), self.k)
        self.generic_visit(node)
        pre = ast.parse("%s = _vc_while(%r, %r)" % (w, lid, tuple(carried))).body[0]
        test = ast.parse("%s.test(lambda: 0)" % w).body[0].value
        test.args[0].body = node.test
        asm = ast.parse("if %s.fresh: %s.assume(lambda: 0)" % (w, w)).body[0]
        import copy
        asm.body[0].value.args[0].body = copy.deepcopy(node.test)
        node.test = test
        node.body = self._restore(w, carried) + [asm] + node.body
        ast.copy_location(pre, node)
        ast.fix_missing_locations(pre)
        ast.fix_missing_locations(node)
        return [pre, node]

    def _comp(self, node, kind):
        self.generic_visit(node)
        it = node.generators[0].iter
        node.generators[0].iter = ast.Name("_vc_s", ast.Load())
        lam = ast.parse("lambda _vc_s: 0").body[0].value
        lam.body = node
        call = ast.Call(ast.Name("_vc_comp", ast.Load()), [ast.Constant(kind), it, lam], [])
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        return call

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_AnnAssign(self, node):
        # local annotations are not evaluated in functions; leave as is
        self.generic_visit(node)
        return node


_code_cache = {}


def code_for(path, modname):
    key = (path, modname)
    if key not in _code_cache:
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = Instr(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _code_cache[key] = compile(tree, path, "exec")
    return _code_cache[key]


# ----------------------------------------------------------------------------------------------------------------
# heap snapshots (frame conditions of loops)

ATOMS = (int, float, str, bytes, type(None), bool, types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, SNum, SBool)


def snapshot(roots, limit=4000):
    """{path-independent id -> shallow contents} of everything reachable from roots; keeps references alive"""
    snap = {}
    keep = []
    todo = list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, ATOMS) or id(x) in snap or getattr(type(x), "vc_opaque", False):
            continue
        keep.append(x)
        if isinstance(x, SArr):
            base = getattr(x, "base", None)
            snap[id(x)] = (x, ("arr", x.fn))
            continue
        if isinstance(x, SMat):
            snap[id(x)] = (x, ("mat", x.fn))
            continue
        if isinstance(x, SymSeq):
            snap[id(x)] = (x, ("seq", term(x.n0).get_id(), x.elem0, tuple((id(w), id(v)) for w, v in x.writes), tuple(id(v) for v in x.tail)))
            keep.extend(x.tail)
            todo.extend(x.tail)
            todo.extend(v for w, v in x.writes)
            while x is not None:
                todo.extend(x.cache.values())
                x = x.under
            continue
        if isinstance(x, dict):
            snap[id(x)] = (x, ("dict", tuple((id(k), _vid(v)) for k, v in x.items())))
            todo.extend(x.values())
            todo.extend(x.keys())
            keep.extend(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            snap[id(x)] = (x, ("list", tuple(_vid(v) for v in x)))
            todo.extend(x)
            keep.extend(x)
        elif hasattr(x, "vc_snapshot"):
            snap[id(x)] = (x, x.vc_snapshot())
        elif hasattr(x, "__dict__") and not isinstance(x, types.GeneratorType):
            d = x.__dict__
            snap[id(x)] = (x, ("obj", tuple((k, _vid(v)) for k, v in sorted(d.items()))))
            todo.extend(d.values())
            keep.extend(d.values())
        if len(snap) > limit:
            raise Unsupported("heap too large for a frame check")
    snap["keep"] = keep
    return snap


def _vid(v):
    """identity of a value: terms by their AST, other values by object identity"""
    if isinstance(v, (SNum, SBool)):
        return ("t", v.e.get_id())
    if isinstance(v, (int, float, str, bool, type(None))):
        return ("c", repr(v))
    return ("o", id(v))


def made(self, v):
    """an element of a list is reached for the first time: inside a loop it must stay as it is"""
    if self.lazies is not None and not is_scalar(v):
        self.lazies.append((v, snapshot([v])))


core.Ctx.lazies = None
core.Ctx.range_spec = None
core.Ctx.made = made


def snap_diff(a, b):
    """objects present in both snapshots whose shallow contents differ"""
    out = []
    for k, v in a.items():
        if k == "keep":
            continue
        if k in b and b[k][0] is v[0] and not _same(b[k][1], v[1]):
            out.append(v[0])
    return out


def _same(x, y):
    return x == y if not (isinstance(x, tuple) and x and x[0] in ("arr", "mat")) else (x[0] == y[0] and x[1] is y[1])


# ----------------------------------------------------------------------------------------------------------------
# loops

def frame_roots(fr, skip):
    d = fr.f_locals
    return [v for k, v in d.items() if k not in skip and not k.startswith("_vc_")], d


class LoopSpec(object):
    """Invariant of the loops of function `where` over a symbolic sequence.

    enter(k): puts the heap the loop owns into an arbitrary state (fresh values) as after k iterations;
    inv(k): the invariant: (name, condition) or (name, n, predicate of an index below n);
    owns(o): may the body change object o."""

    def __init__(self, where, enter, inv, owns):
        self.where, self.enter, self.inv, self.owns = where, enter, inv, owns
        self.locals = {}        # of the frame the loop is in
        self.assumed = False    # the iterations are another contract's obligation (`lemma` of the contract); the entry is checked here


class Fold(object):
    """one accumulator of a loop (a carried local, or an array updated in place): havocked to a fresh symbol in the
    generic iteration; the update is recognised as  h and G | h or G | h + G | (M ? V : h)  and the loop is replaced by
    the closed form of that fold"""

    def __init__(self, c, name, val, lid):
        self.c, self.name, self.lid, self.init = c, name, lid, val
        self.arr = None
        if isinstance(val, SArr):
            self.n, self.dt = val.n, val.dt
            self.h = c.fresh_fn("fold_" + name, z3.IntSort(), z3.BoolSort() if val.dt == "b" else (z3.IntSort() if val.dt == "i" else z3.RealSort()))
            self.isarr = True
            f = val.fn
            self.init_fn = lambda r: term(f(r))
        elif is_scalar(val):
            self.isarr = False
            if isinstance(val, (bool, SBool)):
                srt = z3.BoolSort()
            elif isinstance(val, int) or (isinstance(val, SNum) and val.is_int):
                srt = z3.IntSort()
            else:
                srt = z3.RealSort()
            self.h = c.fresh("fold_" + name, srt)
            self.init_fn = lambda r: term(val)
        else:
            raise Unsupported("loop carries %s %s [%s]" % (type(val).__name__, name, lid))

    def hav(self):
        h = self.h
        if self.isarr:
            w = SBool if self.dt == "b" else SNum
            return SArr(self.n, lambda i: w(h(term(i))), self.dt)
        return SBool(h) if z3.is_bool(h) else SNum(h)

    def classify(self, new, k, facts):
        """-> dict(kind, G=fn(r)) for this path, G in terms of k and r"""
        c = self.c
        if self.isarr:
            if not isinstance(new, SArr) or not c.entails(term(new.n) == term(self.n)):
                raise Unsupported("accumulator %s changes shape [%s]" % (self.name, self.lid))
            r = c.fresh("fr", z3.IntSort())
            c.assume_raw(z3.And(r >= 0, r < term(self.n)))
            t = term(new.fn(SNum(r)))
            hr = self.h(r)
        else:
            if not is_scalar(new):
                raise Unsupported("accumulator %s changes type [%s]" % (self.name, self.lid))
            r = None
            t, hr = term(new), self.h
        if z3.is_bool(hr) != z3.is_bool(t):
            raise Unsupported("accumulator %s changes type [%s]" % (self.name, self.lid))
        if not z3.is_bool(hr) and hr.sort() != t.sort():
            if hr.sort() == z3.IntSort():
                self.retype = True
                raise Unsupported("accumulator %s changes type [%s]" % (self.name, self.lid))
            t = core.to_real(t)
        t = z3.simplify(t)
        if any(self._mentions_other(f) for f in facts):
            raise Unsupported("control flow of the loop depends on accumulator %s [%s]" % (self.name, self.lid))

        def sub(v):
            return z3.simplify(z3.substitute(t, (hr, v)))

        def okterm(g):
            return not self._mentions(g)
        if z3.is_bool(hr):
            T, F = z3.BoolVal(True), z3.BoolVal(False)
            g1, g0 = sub(T), sub(F)
            if okterm(g1) and okterm(g0):
                if z3.is_false(g0) or c.entails(z3.Not(g0)):
                    return {"kind": "and", "G": g1, "r": r}
                if z3.is_true(g1) or c.entails(g1):
                    return {"kind": "or", "G": g0, "r": r}
                # overwritten where g1 == g0
                return {"kind": "set", "M": z3.simplify(g1 == g0), "V": g0, "r": r,
                        "ok": c.entails(z3.Or(g1 == g0, z3.And(g1, z3.Not(g0))))}
            raise Unsupported("accumulator %s: update not recognised [%s]" % (self.name, self.lid))
        zero = z3.IntVal(0) if hr.sort() == z3.IntSort() else z3.RealVal(0)
        one = z3.IntVal(1) if hr.sort() == z3.IntSort() else z3.RealVal(1)
        g = sub(zero)
        if not okterm(g):
            raise Unsupported("accumulator %s: update not recognised [%s]" % (self.name, self.lid))
        if z3.is_true(z3.simplify(t == hr + g)) or c.entails(t == hr + g):
            return {"kind": "sum", "G": g, "r": r}
        g1 = sub(one)
        m = z3.simplify(g == g1)
        if okterm(g1) and c.entails(t == z3.If(m, g, hr)):
            return {"kind": "set", "M": m, "V": g, "r": r, "ok": True}
        raise Unsupported("accumulator %s: update not recognised [%s]" % (self.name, self.lid))

    def _mentions(self, e):
        return _mentions_decl(e, self.h if self.isarr else self.h.decl())

    _mentions_other = _mentions

    def closed(self, paths, lo, n):
        """paths: [(kterm, facts, class)] -> final value"""
        c = self.c
        kinds = {cl["kind"] for _, _, cl in paths}
        idt = {"and", "or", "sum", "set"}
        if len(kinds) > 1:
            raise Unsupported("accumulator %s is updated in different ways [%s]" % (self.name, self.lid))
        kind = kinds.pop()
        if any(cl.get("ok") is False for _, _, cl in paths):
            raise Unsupported("accumulator %s: update not recognised [%s]" % (self.name, self.lid))

        def inst(e, cl, kk, k, r):
            subs = [(kk, k)]
            if cl["r"] is not None:
                subs.append((cl["r"], r))
            return z3.substitute(e, *subs)

        def G(key, k, r, default):
            res = default
            for kk, facts, cl in paths:
                cond = inst(z3.And(*facts) if facts else z3.BoolVal(True), cl, kk, k, r)
                res = z3.If(cond, inst(cl[key], cl, kk, k, r), res)
            return z3.simplify(res)
        nt = term(n)
        init = self.init_fn

        if kind == "and":
            def val(r):
                k = z3.Int("k!f%d" % c.nq())
                body = z3.Implies(z3.And(k >= lo, k < nt), G("G", k, term(r), z3.BoolVal(True)))
                ground = [z3.substitute(body, (k, t)) for t in c.index_terms[:20]]
                return wrap(z3.And(boolterm(wrap(init(r))), z3.ForAll([k], body), *ground))
        elif kind == "or":
            def val(r):
                k = z3.Int("k!f%d" % c.nq())
                body = z3.And(k >= lo, k < nt, G("G", k, term(r), z3.BoolVal(False)))
                ground = [z3.substitute(body, (k, t)) for t in c.index_terms[:20]]
                return wrap(z3.Or(boolterm(wrap(init(r))), z3.Exists([k], body), *ground))
        elif kind == "sum":
            def val(r):
                rr = term(r) if r is not None else None
                zero = z3.IntVal(0) if (self.h.range() if self.isarr else self.h.sort()) == z3.IntSort() else z3.RealVal(0)
                g0 = lambda k: SNum(G("G", term(k), rr, zero))
                tot = c.sum(SNum(nt) if not z3.is_int_value(nt) else nt.as_long(),
                            lambda k: ite(wrap(term(k) >= lo), g0(k), SNum(zero)), integer=zero.sort() == z3.IntSort())
                return wrap(core.coerce(init(r), term(tot))[0] + core.coerce(init(r), term(tot))[1])
        else:
            if not self.isarr:
                # scalar: last writer
                last = c.fresh("last", z3.IntSort())
                lastf = lambda r: last
            else:
                lf = c.fresh_fn("last", z3.IntSort(), z3.IntSort())
                lastf = lambda r: lf(term(r))
            srt = self.h.range() if self.isarr else self.h.sort()
            resf = c.fresh_fn("res", z3.IntSort(), srt)
            dm = z3.BoolVal(False)
            dv = z3.BoolVal(False) if srt == z3.BoolSort() else (z3.IntVal(0) if srt == z3.IntSort() else z3.RealVal(0))

            def axiom(r):
                l, rr = lastf(r), term(r) if r is not None else None
                k = z3.Int("k!f%d" % c.nq())
                nobody = z3.Implies(z3.And(k >= lo, k < nt, k > l), z3.Not(G("M", k, rr, dm)))
                ground = [z3.substitute(nobody, (k, t)) for t in c.index_terms[:20]]
                res = resf(rr if rr is not None else 0)
                a, b = res, init(r)
                if not z3.is_bool(b):
                    a, b = core.coerce(a, b)
                return wrap(z3.And(z3.Or(z3.And(l == lo - 1, a == b),
                                         z3.And(l >= lo, l < nt, G("M", l, rr, dm), res == G("V", l, rr, dv))),
                                   z3.ForAll([k], nobody), *ground))
            if self.isarr:
                forall_fact(self.n, axiom)
                val = lambda r: wrap(resf(term(r)))
            else:
                c.assume_raw(boolterm(axiom(None)))
                val = lambda r: wrap(resf(0))
        if self.isarr:
            memo = {}

            def fn(r):
                key = z3.simplify(term(r)).sexpr() + "/%d" % len(c.index_terms)
                if key not in memo:
                    memo[key] = val(r)
                return memo[key]
            return SArr(self.n, fn, self.dt)
        return val(None)


def _mentions_decl(e, d):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(d):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


class SymLoop(object):
    """Rule for `for x in s: B` with s of symbolic length:
    iteration 0 is executed; then either an arbitrary iteration k>=1 (accumulators havocked, everything else framed) or
    the exit, where (a) every iteration satisfied the disjunction of the fall-through path conditions (search loops)
    and (b) every accumulator has the closed form of its fold."""

    def __init__(self, seq, lid, carried, targets, last=()):
        self.seq, self.lid, self.carried, self.targets, self.last = seq, lid, carried, targets, last
        self.state = "start"
        self.spec = getattr(seq, "spec", None) or cx().range_spec
        if self.spec is not None and lid.split("#")[0].split(".")[-1].split(":")[-1] not in self.spec.where:
            self.spec = None
        self.c = cx()
        self.now = {}
        self.folds = {}
        self.arrfolds = []

    def has(self, n):
        return n in self.now

    def val(self, n):
        return self.now[n]

    def __iter__(self):
        return self

    def _roots(self, fr):
        roots = [v for k, v in fr.f_locals.items() if not k.startswith("_vc_") and k not in self.targets]
        for f, carried, targets in consumers(fr):
            roots += [v for k, v in f.f_locals.items() if not k.startswith("_vc_") and k not in targets]
        return roots

    def _locals(self, fr):
        return {k: _vid(fr.f_locals[k]) for k in self.carried if k in fr.f_locals}

    def _outer(self, fr):
        return {(j, k): _vid(f.f_locals[k]) for j, (f, carried, targets) in enumerate(consumers(fr)) for k in carried if k in f.f_locals}

    def _inv(self, k, assume):
        self.spec.assuming = assume
        if assume:
            self.spec.enter(k)
        for item in self.spec.inv(k):
            name, what = item[0], "loop invariant %s [%s]" % (item[0], self.lid.split("#")[0])
            if len(item) == 2:
                if assume:
                    self.c.assume(item[1])
                else:
                    self.c.prove(what, item[1], kind="invariant")
            else:
                n, pred = item[1:]
                if assume:
                    forall_fact(n, pred)
                elif isinstance(n, int):
                    for i in range(n):
                        self.c.prove(what, pred(i), kind="invariant")
                else:
                    r = SNum(self.c.fresh("row", z3.IntSort()))
                    self.c.assume_raw(z3.And(term(r) >= 0, term(r) < term(n)))
                    add_index_term(r)
                    rs = self.c.summarize(lambda: pred(r))
                    for cond, v in rs if len(rs) <= 1 else [(z3.BoolVal(True), wrap(z3.And(*[z3.Implies(cd, boolterm(v)) for cd, v in rs])))]:
                        self.c.prove(what, v, kind="invariant")

    def __next__(self):
        c = self.c
        fr = sys._getframe(1)
        s = self.seq
        spec = self.spec
        if spec is not None:
            spec.locals, spec.seq = fr.f_locals, s
        if self.state == "start":
            if not c.fork(term(s.n) > 0):
                self.state = "done"
                raise StopIteration
            self.entry = snapshot(self._roots(fr))
            if spec is not None:
                self.heap_allowed = spec.owns
                self._inv(0, False)
                return self._generic(fr, 0)
            self.state = "peeled"
            return s.get(0)
        if self.state == "peeled":
            snap1 = snapshot(self._roots(fr))
            if not c.fork(term(s.n) > 1):
                self.state = "done"
                raise StopIteration
            self.heap_allowed = lambda o: False
            for k, v in list(snap1.items()):
                if k == "keep":
                    continue
                same = k in self.entry and self.entry[k][0] is v[0]
                if v[1][0] == "arr" and not v[0].view:
                    if same and not _same(self.entry[k][1], v[1]):
                        self.arrfolds.append((v[0], Fold(c, "array", v[0], self.lid)))
            for arr, f in self.arrfolds:
                arr.fn, arr.origin = f.hav().fn, None
            # arrays created in iteration 0 that later iterations update in place
            created = c.search.get(("arrays", self.lid), set())
            if created:
                for path, v in _paths(fr, self.targets):
                    if path in created and isinstance(v, SArr) and not any(v is a for a, _ in self.arrfolds):
                        f = Fold(c, "array", v, self.lid)
                        self.arrfolds.append((v, f))
                        v.fn, v.origin = f.hav().fn, None
            for n in sorted(c.search.get(("locals", self.lid), ())):
                if n in fr.f_locals:
                    f = Fold(c, n, fr.f_locals[n], self.lid)
                    self.folds[n] = f
                    self.now[n] = f.hav()
            return self._generic(fr, 1)
        if self.state == "iter":
            # the generic iteration fell through: frame, then invariant preservation
            nfb = len(c.facts)
            snap2 = snapshot(self._roots(fr))
            okids = {id(a) for a, _ in self.arrfolds}
            for o in snap_diff(self.pre, snap2):
                if id(o) in okids or self.heap_allowed(o):
                    continue
                if isinstance(o, SArr):
                    for path, v in _paths(fr, self.targets):
                        if v is o and path not in c.search.get(("arrays", self.lid), set()):
                            c.search.setdefault(("arrays", self.lid), set()).add(path)
                            raise core.Restart()
                raise Unsupported("loop body changes %s, which has no invariant [%s]" % (type(o).__name__, self.lid))
            for v, before in c.lazies[self.nlazy:]:
                for o in snap_diff(before, snapshot([v])):
                    if not self.heap_allowed(o):
                        raise Unsupported("loop body changes %s, which has no invariant [%s]" % (type(o).__name__, self.lid))
            l2 = self._locals(fr)
            ch = {n for n in set(l2) | set(self.locals1) if l2.get(n) != self.locals1.get(n)} - set(self.folds)
            if self._outer(fr) != self.outer1:
                raise Unsupported("the consumer of a generator carries locals [%s]" % self.lid)
            if ch:
                known = c.search.setdefault(("locals", self.lid), set())
                if ch <= known:
                    raise Unsupported("loop carries a local of unknown initial value [%s]" % self.lid)
                known |= ch
                raise core.Restart()
            if spec is not None:
                self._inv(self.k + 1, False)
            facts = [f for f in c.facts[self.nf:nfb]]
            cls = {}
            for n, f in self.folds.items():
                cls[n] = f.classify(fr.f_locals[n], self.k, facts)
            for q, (arr, f) in enumerate(self.arrfolds):
                cls["arr%d" % q] = f.classify(arr, self.k, facts)
            c.search.setdefault(self.skey, []).append((self.k, list(facts), cls))
            raise PathDead()
        raise StopIteration

    def _generic(self, fr, lo):
        c = self.c
        s = self.seq
        self.skey = ("loop", self.lid, tuple(c.decisions))
        assumed = self.spec is not None and self.spec.assumed
        if not assumed and c._choice():
            self.state = "iter"
            k = c.fresh("k", z3.IntSort())
            c.assume_raw(z3.And(k >= lo, k < term(s.n)))
            add_index_term(k)
            self.k = SNum(k)
            if self.spec is not None:
                self._inv(self.k, True)
            if c.infeasible():
                raise PathDead()
            self.locals1 = self._locals(fr)
            self.outer1 = self._outer(fr)
            self.nf = len(c.facts)
            e = s.get(self.k)
            self.lazies, c.lazies = c.lazies, c.lazies or []
            self.nlazy = len(c.lazies)
            self.pre = snapshot(self._roots(fr))
            return e
        # exit: every iteration lo..n-1 fell through
        self.state = "done"
        paths = [] if assumed else c.search.get(self.skey)
        if not paths and not assumed:
            # no path through the body falls through: the loop cannot be exhausted
            raise PathDead()
        disj = []
        ok = True
        for k, facts, cls in paths:
            kk = term(k)
            if any(_has_fresh(f, kk, c) for f in facts):
                ok = False
                break
            disj.append((kk, facts))
        if ok and not assumed:
            def pred(i):
                return wrap(z3.Or(*[z3.And(*[z3.substitute(f, (kk, term(i))) for f in facts] or [z3.BoolVal(True)]) for kk, facts in disj]))
            n = s.n
            forall_fact(n, lambda i: or_(wrap(term(i) < lo), pred(i)))
        if self.folds or self.arrfolds:
            for k, facts, cls in paths:
                kk = term(k)
                for q, cl in cls.items():
                    for key in ("G", "M", "V"):
                        if key in cl and _has_fresh(cl[key], kk, c, ok=cl["r"]):
                            raise Unsupported("accumulator depends on a value created in the loop body [%s]" % self.lid)
                if len(paths) > 1 and not ok:
                    raise Unsupported("accumulator depends on a value created in the loop body [%s]" % self.lid)
            for n, f in self.folds.items():
                self.now[n] = f.closed([(term(k), facts if len(paths) > 1 else [], cls[n]) for k, facts, cls in paths], lo, s.n)
            for q, (arr, f) in enumerate(self.arrfolds):
                r = f.closed([(term(k), facts if len(paths) > 1 else [], cls["arr%d" % q]) for k, facts, cls in paths], lo, s.n)
                arr.fn, arr.origin = r.fn, None
        if self.spec is not None:
            self._inv(s.n, True)
        if c.infeasible():
            raise PathDead()
        for t in self.last:
            if t == "?":
                raise Unsupported("loop targets used after the loop [%s]" % self.lid)
            self.now[t] = s.get(s.n - 1)
        raise StopIteration


def consumers(fr):
    """if the loop is inside a generator: the frames that run between its iterations, with the locals their own loops carry"""
    out = []
    while fr is not None and fr.f_code.co_flags & inspect.CO_GENERATOR:
        fr = fr.f_back
        while fr is not None and "_vc_for" not in fr.f_builtins and os.path.dirname(os.path.abspath(fr.f_code.co_filename)) == os.path.dirname(os.path.abspath(__file__)):
            fr = fr.f_back              # (the loop machinery)
        if fr is None or "_vc_for" not in fr.f_builtins:
            break
        carried, targets = set(), set()
        for k, v in fr.f_locals.items():
            if k.startswith("_vc_it") and isinstance(v, (PyLoop, SymLoop)):
                carried |= set(v.carried)
                targets |= set(v.targets)
        out.append((fr, sorted(carried), targets))
    return out


def _paths(fr, targets):
    """(access path, value) of values reachable by one attribute step from the locals"""
    out = []
    for k, v in fr.f_locals.items():
        if k.startswith("_vc_") or k in targets:
            continue
        out.append((k, v))
        if hasattr(v, "__dict__") and not isinstance(v, (Opaque, type, types.ModuleType)):
            for a, w in v.__dict__.items():
                out.append((k + "." + a, w))
    return out


def _has_fresh(f, k, c, ok=None, names=()):
    """does f mention a symbol created after k (other than k)?"""
    kn = int(k.decl().name().split("!")[-1])
    okn = ok.decl().name() if ok is not None else None
    for n in _decl_names(f):
        if n == okn or n in names:
            continue
        p = n.split("!")
        if p[0] == "sum":
            # a sum depending on k has k in its body
            for s in c.sums:
                if s.const.decl().name() == n and (core.mentions(s.body, k) or _has_fresh(s.body, k, c, ok, names)):
                    return True
            continue
        if p[0] == "sumf":
            s = c.sums[int(p[1])]
            if core.mentions(s.body, k) or core.mentions(s.N, k) or _has_fresh(s.body, k, c, ok, names):
                return True
            continue
        if len(p) == 2 and p[1].isdigit() and int(p[1]) > kn:
            return True
    return False


def _decl_names(e):
    seen, names, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            todo.extend(x.children())
    return names


class PyLoop(object):
    """plain iteration of a concrete iterable"""

    def __init__(self, it, carried=(), targets=()):
        self.it, self.carried, self.targets = iter(it), carried, targets

    def __iter__(self):
        return self

    def __next__(self):
        c = core.CTX
        if c is not None and c.cfg.get("deadline"):
            import time
            if time.time() > c.cfg["deadline"]:
                raise core.Budget()
        return next(self.it)

    def has(self, n):
        return False


def vc_for(e, lid, carried, targets, last=()):
    if isinstance(e, SArr):
        if e.concrete():
            return PyLoop(e.vals(), carried, targets)
        e = SymSeq(e.n, e.fn)
    if isinstance(e, SMat):
        if isinstance(e.n, int):
            return PyLoop([e._row(i) for i in range(e.n)], carried, targets)
        m = e
        e = SymSeq(e.n, m._row)
    if isinstance(e, SymSeq):
        if isinstance(e.n, int):
            return PyLoop([e.get(i) for i in range(e.n)], carried, targets)
        return SymLoop(e, lid, carried, targets, last)
    if hasattr(e, "vc_iter"):
        return e.vc_iter(lid, carried, targets, last)
    return PyLoop(e, carried, targets)


class While(object):
    """rule for retry loops: zero iterations, or an arbitrary last iteration"""

    def __init__(self, lid, carried):
        self.lid, self.carried = lid, carried
        self.fresh = False
        self.vals = {}
        self.sym = 0
        self.true = 0

    def has(self, n):
        return self.fresh and n in self.vals

    def val(self, n):
        return self.vals[n]

    def test(self, cond):
        c = core.CTX
        v = cond()
        if v is True or self.true:
            return self.forever(v, sys._getframe(1))
        if isinstance(v, (SBool, SNum)):
            fr = sys._getframe(1)
            if self.sym == 2 and not (c.cfg.get("bounded") and c.cfg.get("unroll_while")):
                # after the arbitrary last iteration
                snap = snapshot([x for k, x in fr.f_locals.items() if not k.startswith("_vc_")])
                bad = [o for o in snap_diff(self.pre, snap)]
                if bad:
                    raise Unsupported("while body changes %s [%s]" % (type(bad[0]).__name__, self.lid))
                b = bool(v)
                if b:
                    raise PathDead()
                self.fresh = False
                return False
            if c.cfg.get("bounded") and c.cfg.get("unroll_while"):
                self.sym += 1
                if self.sym > c.cfg["unroll_while"]:
                    c.notes.add("while loop unrolled %d times [%s]" % (c.cfg["unroll_while"], self.lid))
                    if bool(v):
                        raise PathDead()
                    return False
                return bool(v)
            if not bool(v):
                self.fresh = False
                return False
            self.havoc(fr)
            self.fresh = True
            self.sym = 2
            self.pre = snapshot([x for k, x in fr.f_locals.items() if not k.startswith("_vc_")])
            return True
        return bool(v)

    def havoc(self, fr):
        c = core.CTX
        # havoc the carried locals
        self.vals = {}
        for n in self.carried:
            if n not in fr.f_locals:
                raise Unsupported("while loop carries local %s, not assigned yet [%s]" % (n, self.lid))
            else:
                old = fr.f_locals[n]
                if isinstance(old, SNum):
                    self.vals[n] = SNum(c.fresh("hv_" + n, old.e.sort()))
                elif isinstance(old, SBool):
                    self.vals[n] = SBool(c.fresh("hv_" + n, z3.BoolSort()))
                elif isinstance(old, float):
                    self.vals[n] = SNum(c.fresh("hv_" + n, z3.RealSort()))
                elif old is None or isinstance(old, ATOMS):
                    raise Unsupported("while loop carries local %s [%s]" % (n, self.lid))
                else:
                    raise Unsupported("while loop carries object %s [%s]" % (n, self.lid))

    def forever(self, v, fr):
        """`while True`: the first iteration, then -- if it changed nothing but the carried locals -- an arbitrary last one"""
        c = core.CTX
        if v is not True:
            self.true = 0
            self.sym = 0
            return bool(v)
        mark = (c.counter, len(c.decisions))
        if self.true == 0:
            self.true = 1
            self.pre, self.mark = snapshot([x for k, x in fr.f_locals.items() if not k.startswith("_vc_")]), mark
            return True
        if self.true == 3:
            return True
        if c.cfg.get("bounded") and c.cfg.get("unroll_while"):
            if mark != self.mark:
                self.sym += 1
                self.mark = mark
            if self.sym > c.cfg["unroll_while"]:
                c.notes.add("while loop unrolled %d times [%s]" % (c.cfg["unroll_while"], self.lid))
                raise PathDead()
            return True
        bad = snap_diff(self.pre, snapshot([x for k, x in fr.f_locals.items() if not k.startswith("_vc_")]))
        if self.true == 2:
            if bad:
                raise Unsupported("while body changes %s [%s]" % (type(bad[0]).__name__, self.lid))
            raise PathDead()
        if bad or mark == self.mark:
            self.true = 3               # deterministic or with effects: iterate as Python does
            return True
        try:
            self.havoc(fr)
        except Unsupported:
            self.true = 3
            return True
        self.fresh = True
        self.true = 2
        self.pre = snapshot([x for k, x in fr.f_locals.items() if not k.startswith("_vc_")])
        return True

    def assume(self, cond):
        c = core.CTX
        self.fresh = False
        v = cond()
        if not bool(v):
            raise PathDead()


def vc_while(lid, carried):
    return While(lid, carried)


# ----------------------------------------------------------------------------------------------------------------
# comprehensions

def vc_comp(kind, it, f):
    if isinstance(it, SArr) and not it.concrete():
        a = it
        it = SymSeq(a.n, a.fn)
    if isinstance(it, SMat) and not isinstance(it.n, int):
        m = it
        it = SymSeq(m.n, m._row)
    if hasattr(it, "vc_comp"):
        return it.vc_comp(kind, f)
    if isinstance(it, SymSeq) and not isinstance(it.n, int):
        if kind == "dict":
            return symdict(it, early(f))
        if kind == "set":
            raise Unsupported("%s comprehension over a symbolic sequence" % kind)
        return symcomp(it, f if kind == "gen" else early(f))
    if isinstance(it, SymSeq):
        it = [it.get(i) for i in range(it.n)]
    return f(it)


def early(f):
    """f with the values its free variables have now"""
    def cell(x):
        try:
            return types.CellType(x.cell_contents)
        except ValueError:
            return x
    if not f.__closure__:
        return f
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cell(x) for x in f.__closure__))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


class SymDict(Opaque):
    """dict whose keys are the elements 0..n-1 of a range: {v: e(v) for v in range(n)}"""

    def __init__(self, n, elem):
        self.base_seq = SymSeq(n, elem)
        self.keyseq = SymSeq(n, lambda i: i, member=lambda x: and_(wrap(numterm(x) >= 0), wrap(numterm(x) < term(n))), ident=True)

    @property
    def n(self):
        return self.keyseq.n

    def vc_len(self):
        return self.n

    def _has(self, k):
        if isinstance(k, float) or isinstance(k, SNum) and not k.is_int:
            raise Unsupported("real dictionary key")
        return wrap(z3.And(term(k) >= 0, term(k) < term(self.n)))

    def __getitem__(self, k):
        if not bool(self._has(k)):
            raise KeyError(k)
        return self.base_seq.get(k)

    def __setitem__(self, k, v):
        if not bool(self._has(k)):
            raise Unsupported("new key in a symbolic dict")
        self.base_seq.writes.append((k, v))

    def get(self, k, d=None):
        return self[k] if bool(self._has(k)) else d

    def __contains__(self, k):
        return bool(self._has(k))

    def keys(self):
        return self.keyseq

    def values(self):
        return SymSeq(self.n, self.base_seq.get)

    def items(self):
        return SymSeq(self.n, lambda i: (i, self.base_seq.get(i)))

    def copy(self):
        r = SymDict(self.n, None)
        r.base_seq = self.base_seq.copy()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _copy
        r = SymDict(self.n, None)
        r.base_seq = _copy.deepcopy(self.base_seq, memo)
        return r

    def vc_iter(self, lid, carried, targets, last=()):
        return vc_for(self.keyseq, lid, carried, targets, last)

    def vc_comp(self, kind, f):
        return vc_comp(kind, self.keyseq, f)

    def vc_list(self):
        return self.keyseq.copy()

    def vc_snapshot(self):
        b = self.base_seq
        return ("symdict", tuple((id(w), id(v)) for w, v in b.writes))

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec"):
            raise AttributeError(k)
        raise Unsupported("dict.%s on a symbolic dict" % k)


def symdict(s, f):
    c = cx()
    if not s.ident or s.tail or s.writes:
        raise Unsupported("dict comprehension over a symbolic sequence")

    def one(i):
        old = c.allow_hash
        c.allow_hash = True
        try:
            d = f([i])
        finally:
            c.allow_hash = old
        if len(d) != 1:
            raise Unsupported("filtered dict comprehension over a symbolic sequence")
        (k, v), = d.items()
        if k is not i:
            raise Unsupported("dict comprehension with computed keys over a symbolic sequence")
        return v
    return SymDict(s.n, one)


class _NotPure(Exception):
    pass


def freeze(n, elem):
    """an element function that gives the values elem(i) has now, whatever happens to the heap later.

    The element is evaluated once for a generic index; other elements are obtained by substitution. Elements that are
    objects (or depend on fresh symbols) cannot be frozen: they are evaluated on demand, and the path is noted."""
    c = cx()
    kk = c.fresh("frz", z3.IntSort())
    try:
        nf = len(c.facts)

        def thunk():
            c.assume_raw(z3.And(kk >= 0, kk < term(n)))
            return elem(SNum(kk))
        rs = c.summarize(thunk)
        cases = []
        for cond, v in rs:
            if _has_fresh(cond, kk, c):
                raise _NotPure()
            if v is None or isinstance(v, (bool, int, float, str)):
                pass
            elif isinstance(v, (SNum, SBool)):
                if _has_fresh(v.e, kk, c):
                    raise _NotPure()
            elif isinstance(v, SArr):
                pass
            else:
                raise _NotPure()
            cases.append((cond, v, v.fn if isinstance(v, SArr) else None))
        if not cases:
            raise _NotPure()
    except (_NotPure, Unsupported):
        return elem

    def sub(e, i):
        return z3.substitute(e, (kk, term(i)))

    def val(v, fn, i):
        if isinstance(v, (SNum, SBool)):
            return wrap(sub(v.e, i))
        if isinstance(v, SArr):
            def g(j):
                x = fn(j)
                if isinstance(x, (SNum, SBool)):
                    if _has_fresh(x.e, kk, c, names=_decl_names(term(j))):
                        raise Unsupported("list of arrays with computed elements")
                    return wrap(sub(x.e, i))
                return x
            m = v.n
            if isinstance(m, SNum):
                if core.mentions(m.e, kk):
                    m = wrap(sub(m.e, i))
            return SArr(m, g, v.dt)
        return v

    def get(i):
        for cond, v, fn in cases[:-1]:
            e = z3.simplify(sub(cond, i))
            if z3.is_true(e) or (not z3.is_false(e) and c.fork(e)):
                return val(v, fn, i)
        return val(cases[-1][1], cases[-1][2], i)
    return get


def symcomp(s, f):
    """[e(x) for x in s if c(x)] for a symbolic sequence"""
    c = cx()
    if not s.ident:
        src = s
        s = s.copy()
        for a in ("derive_spec", "spec"):
            if hasattr(src, a):
                setattr(s, a, getattr(src, a))
    if s.tail or s.writes:
        if s.writes:
            pass
        if s.tail:
            tail, s.tail = s.tail, []
            r = symcomp(s, f)
            r = r if isinstance(r, list) else r.copy()
            r.extend(list(f(tail)))
            return r

    same, itself = [True], [True]

    def filt(i):
        e = s.get(i)
        r = list(f([e]))
        if len(r) == 1 and r[0] is not e:
            same[0] = False
        if len(r) == 1 and not (isinstance(r[0], SNum) and z3.eq(z3.simplify(r[0].e), z3.simplify(term(i)))):
            itself[0] = False
        return len(r) == 1
    probe = SNum(c.fresh("probe", z3.IntSort()))
    c.assume_raw(z3.And(term(probe) >= 0, term(probe) < term(s.n)))
    rs = c.summarize(lambda: filt(probe))
    if all(v is True for _, v in rs):
        r = SymSeq(s.n, s.get if same[0] and (s.distinct or s.under is not None) else freeze(s.n, lambda i: list(f([s.get(i)]))[0]))
        if same[0] and (s.distinct or s.under is not None):
            r.under, r.found, r.place = s, lambda t: t, lambda t: (True, t)
        return r
    if not rs:
        return []
    from .arr import get_filt

    def sel(i):
        rs = c.summarize(lambda: filt(i))
        return wrap(z3.Or(*[cond for cond, v in rs if v] or [z3.BoolVal(False)]))
    flt = get_filt(s.n, freeze(s.n, sel))
    def elem(k):
        c.assume_raw(z3.Implies(z3.And(term(k) >= 0, term(k) < term(flt.count)), boolterm(flt.sel(flt.at(k)))))
        if itself[0]:
            return flt.at(k)
        if not same[0]:
            return list(f([s.get(flt.at(k))]))[0]
        return s.get(flt.at(k))
    r = SymSeq(flt.count, elem)
    if itself[0]:           # the indices that are selected
        def member(x):
            if not isinstance(x, int) and not (isinstance(x, SNum) and x.is_int):
                raise Unsupported("membership in a symbolic list")
            if not c.sub:
                add_index_term(term(x))
            return wrap(z3.And(term(x) >= 0, term(x) < term(s.n), boolterm(flt.sel(x))))
        r.member = member
        if not c.sub and not c.bound:
            add_index_term(flt.e(z3.IntVal(0)))     # if there is one, here is one
    if same[0] and (s.distinct or s.under is not None):
        def found(t):
            if not c.fork(boolterm(flt.sel(t))):
                return None
            add_index_term(t)
            return wrap(flt.inv(term(t)))
        r.under, r.found, r.place = s, found, lambda t: (flt.sel(t), wrap(flt.inv(term(t))))
    if hasattr(s, "derive_spec"):
        r.spec = s.derive_spec(r, flt)
    return r


# ----------------------------------------------------------------------------------------------------------------
# builtins

class _TM(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, k):
        return issubclass(k, cls._py) if isinstance(k, type) else False

    def __call__(cls, *a, **k):
        return cls._call(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._py

    def __hash__(cls):
        return hash(cls._py)

    def __repr__(cls):
        return repr(cls._py)

    def __getattr__(cls, k):
        return getattr(cls._py, k)


def _cls(name, py, inst, call):
    return _TM(name, (), {"_py": py, "_inst": staticmethod(inst), "_call": staticmethod(call), "vcname": name})


def b_len(x):
    if isinstance(x, (SArr, SMat, SymSeq)):
        return x.n
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return len(x)


def b_range(*a):
    a = [x.as_long() if False else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 3:
        raise Unsupported("symbolic range with a step")
    lo, hi = (0, a[0]) if len(a) == 1 else a
    for x in (lo, hi):
        if isinstance(x, SNum) and not x.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    n = mx(hi - lo, 0)
    if isinstance(lo, int) and lo == 0:
        # range(n): assume nothing about sign
        if isinstance(hi, SNum) and cx().entails(term(hi) >= 0):
            n = hi
        return SymSeq(n, lambda i: i, member=lambda x: and_(wrap(numterm(x) >= 0), wrap(numterm(x) < term(hi))), ident=True)
    return SymSeq(n, lambda i: i + lo, member=lambda x: and_(wrap(numterm(x) >= term(lo)), wrap(numterm(x) < term(hi))))


def b_list(x=()):
    if isinstance(x, SymSeq):
        return x.copy()
    if isinstance(x, SArr):
        return x.vals() if x.concrete() else SymSeq(x.n, x.fn) if not hasattr(x, "draw") else _drawseq(x)
    if hasattr(x, "vc_list"):
        return x.vc_list()
    return list(x)


def _drawseq(a):
    s = SymSeq(a.n, a.fn)
    s.draw = a.draw
    return s


def b_any(x):
    if isinstance(x, SArr):
        return x.any()
    if isinstance(x, SymSeq):
        c = cx()
        e = exists_term(x.n, lambda i: npf.summ(lambda: _truthy(x.get(i))))
        if c.sub or c.bound:
            return wrap(e)
        if not c.fork(e):
            forall_fact(x.n, lambda i: not_(npf.summ(lambda: _truthy(x.get(i)))))
            return False
        k = c.fresh("witness", z3.IntSort())
        c.assume_raw(z3.And(k >= 0, k < term(x.n)))
        c.assume(npf.summ(lambda: _truthy(x.get(SNum(k)))))
        add_index_term(k)
        return True
    for v in x:
        if bool(v):
            return True
    return False


def _truthy(v):
    if isinstance(v, (SBool, SNum, bool)):
        return wrap(boolterm(v))
    return bool(v)


def b_all(x):
    if isinstance(x, SArr):
        return x.all()
    if isinstance(x, SymSeq):
        return wrap(forall_term(x.n, lambda i: npf.summ(lambda: _truthy(x.get(i)))))
    for v in x:
        if not bool(v):
            return False
    return True


def b_sum(x, start=0):
    if isinstance(x, SArr):
        return x.sum() + start if not (isinstance(start, int) and start == 0) else x.sum()
    if isinstance(x, SymSeq):
        a = npf.to_arr(x)
        if isinstance(a, SMat):
            return a.sum(axis=0)
        return a.sum()
    r = start
    for v in x:
        r = r + v
    return r


def b_enumerate(x, start=0):
    if isinstance(x, SArr) and not x.concrete():
        x = SymSeq(x.n, x.fn)
    if isinstance(x, SymSeq):
        return SymSeq(x.n, lambda i: (i + start if not (isinstance(start, int) and start == 0) else i, x.get(i)))
    return enumerate(x, start)


def b_zip(*xs):
    if any(isinstance(x, (SymSeq,)) or (isinstance(x, SArr) and not x.concrete()) for x in xs):
        ys = []
        for x in xs:
            if isinstance(x, SArr):
                x = SymSeq(x.n, x.fn)
            if not isinstance(x, SymSeq):
                raise Unsupported("zip of symbolic and concrete sequences")
            ys.append(x)
        n = ys[0].n
        for y in ys[1:]:
            n = mn(n, y.n)
        return SymSeq(n, lambda i: tuple(y.get(i) for y in ys))
    return zip(*xs)


def _ext(is_max):
    def g(*a, **k):
        if k:
            if any(isinstance(x, Opaque) for x in a):
                raise Unsupported("min/max with key")
            return (max if is_max else min)(*a, **k)
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (SArr, SymSeq)):
                return npf.extremum(npf.to_arr(x), is_max)
            a = list(x)
            if not a:
                raise ValueError("empty sequence")
        r = a[0]
        for v in a[1:]:
            if isinstance(v, Opaque) or isinstance(r, Opaque):
                r = ite(v > r if is_max else v < r, v, r)
            else:
                r = max(r, v) if is_max else min(r, v)
        return r
    return g


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, SymSeq):
        raise Unsupported("sorted symbolic list")
    x = list(x)
    if any(isinstance(v, Opaque) for v in x):
        if key or reverse:
            raise Unsupported("sorted with key")
        return npf.sort_list(x)
    return sorted(x, key=key, reverse=reverse)


def b_reversed(x):
    if isinstance(x, SymSeq):
        return x[::-1]
    return reversed(x)


def b_type(*a):
    if len(a) == 3:
        return type(*a)
    x = a[0]
    t = builtins.type(x)
    if hasattr(t, "vc_as"):
        return t.vc_as
    if t in (SArr, SMat, npf.ObjArr):
        return npf.ndarray
    if t is SymSeq:
        return list
    if t is SNum:
        return float if not x.is_int else int
    if t is SBool:
        return bool
    return t


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if isinstance(k, tuple):
            if b_isinstance(x, k):
                return True
            continue
        py = getattr(k, "_py", k)
        if isinstance(x, SymSeq):
            if py is list:
                return True
            continue
        if isinstance(x, SNum):
            if py is float and not x.is_int or py is int and x.is_int or py is object:
                return True
            if isinstance(py, npf._ScMeta):
                if isinstance(x, py):
                    return True
            continue
        if isinstance(x, SBool):
            if py is bool or py is int:
                return True
            continue
        if isinstance(x, py):
            return True
    return False


def b_id(x):
    return id(x)


def b_abs(x):
    return abs(x)


def b_round(x, *a):
    if isinstance(x, Opaque):
        raise Unsupported("round")
    return round(x, *a)


def b_map(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], SymSeq):
        x = xs[0]
        return SymSeq(x.n, lambda i: f(x.get(i)))
    return map(f, *xs)


def b_filter(f, x):
    if isinstance(x, SymSeq):
        return symcomp(x, lambda s: [v for v in s if (f(v) if f else v)])
    return filter(f, x)


def b_print(*a, **k):
    pass


def b_tuple(x=()):
    if isinstance(x, SymSeq):
        return x.copy()
    if isinstance(x, SArr):
        return tuple(x.vals())
    return tuple(x)


def b_set(x=()):
    if isinstance(x, (SymSeq,)) or (isinstance(x, SArr) and not x.concrete()):
        a = npf.to_arr(x)
        return _SetOf(a)
    x = list(x)
    if any(isinstance(v, Opaque) for v in x):
        return _SetOf(SArr.of_list(x))
    return set(x)


class _SetOf(Opaque):
    """set(array): size and membership only"""

    def __init__(self, a):
        self.a = a

    def vc_len(self):
        return npf.unique(self.a).n

    def __contains__(self, x):
        f = self.a.fn
        return bool(wrap(exists_term(self.a.n, lambda i: eq_(f(i), x))))


def b_hash(x):
    return hash(x)


def b_bool(x=False):
    if isinstance(x, (SBool, SNum)):
        return wrap(boolterm(x))
    return bool(x)


def b_next(it, *d):
    if isinstance(it, SymSeq):
        raise Unsupported("next() of a symbolic generator")
    return next(it, *d)


def b_iter(x, *a):
    if isinstance(x, SymSeq):
        return x
    return iter(x, *a)


# ----------------------------------------------------------------------------------------------------------------
# stub modules

class Stub(types.ModuleType):
    """module whose attributes are opaque classes/functions"""

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        full = self.__name__ + "." + k
        v = StubAttr(full)
        self.__dict__[k] = v
        return v


class StubAttr(object):
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._name)

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return StubAttr(self._name + "." + k)

    def __mro_entries__(self, bases):
        return ()


class DataFrameStub(object):
    """pd.DataFrame: only `.values` access is modelled"""

    def __init__(self, data=None, **k):
        if isinstance(data, dict):
            cols = list(data.values())
            self._cols = list(data.keys())
            if cols and all(not isinstance(c, SymSeq) for c in cols):
                arrs = [npf.to_arr(list(c) if not isinstance(c, SArr) else c) for c in cols]
                n = arrs[0].n
                arrs = [a.copy() for a in arrs]
                self._mat = SMat(n, len(arrs), lambda i, j: (arrs[j].fn(i) if isinstance(j, int) else _pickcol(arrs, i, j)))
                return
        if isinstance(data, SMat):
            self._mat = data
            self._cols = None
            return
        raise Unsupported("DataFrame constructor")

    @property
    def values(self):
        return self._mat

    @property
    def shape(self):
        return self._mat.shape

    def vc_len(self):
        return self._mat.n

    def to_numpy(self, *a, **k):
        return self._mat

    def iterrows(self):
        m = self._mat
        if not isinstance(m.n, int):
            raise Unsupported("iterrows of a symbolic frame")
        for i in range(m.n):
            yield i, m._row(i)

    def max(self, axis=0):
        return self._mat.max(axis=axis)

    def __getattr__(self, k):
        if k.startswith(("__", "vc")) or k in ("spec", "derive_spec", "draw", "base", "item"):
            raise AttributeError(k)
        if k in ("iter_rows",):
            raise AttributeError("'DataFrame' object has no attribute %r" % k)
        raise Unsupported("DataFrame." + k)


def _pickcol(arrs, i, j):
    r = arrs[-1].fn(i)
    for q in range(len(arrs) - 2, -1, -1):
        r = ite(wrap(term(j) == q), arrs[q].fn(i), r)
    return r


class ParallelStub(object):
    """joblib.Parallel: assumed contract = the delayed calls are executed once each, results in input order.
    Arguments may be pickled copies in worker processes or shared with the caller (threads / n_jobs=1)."""

    def __init__(self, n_jobs=None, **k):
        self.n_jobs = n_jobs

    def __call__(self, tasks):
        if isinstance(tasks, SymSeq):
            return SymSeq(tasks.n, lambda i: (lambda t: t[0](*t[1], **t[2]))(tasks.get(i)))
        import copy as _copy
        share = cx().cfg.get("parallel_share", True)
        out = []
        for f, a, k in tasks:
            if not share:
                a = _copy.deepcopy(a)
            out.append(f(*a, **k))
        return out


def delayed_stub(f):
    def g(*a, **k):
        return (f, a, k)
    return g


class BaseEstimator(object):
    pass


class RegressorMixin(object):
    pass


class SelectorMixin(object):
    def get_support(self, indices=False):
        return self._get_support_mask()


def tqdm_stub(x=None, *a, **k):
    return x


def clone_stub(est, safe=True):
    import copy as _copy
    c = _copy.deepcopy(est)
    if hasattr(c, "reset"):
        c.reset()
    return c


REAL_OK = {"typing", "abc", "copy", "operator", "collections", "functools", "itertools", "enum", "dataclasses", "contextlib", "warnings",
           "numbers", "types", "__future__", "sys", "os", "time", "logging", "string", "re", "inspect", "weakref", "collections.abc", "typing_extensions",
           "bisect", "heapq"}


class Universe(object):
    def __init__(self):
        self.modules = {}
        self.np = npf.make_numpy()
        self.stubs = {}
        self._mk_stubs()
        self.builtins = self._mk_builtins()
        self.loaded_files = set()

    def _stub(self, name, **attrs):
        m = Stub(name)
        m.__dict__.update(attrs)
        m.__path__ = []
        self.stubs[name] = m
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par not in self.stubs:
                self._stub(par)
            self.stubs[par].__dict__[leaf] = m
        return m

    def _mk_stubs(self):
        s = self._stub
        s("pandas", DataFrame=DataFrameStub, Series=type("Series", (), {}))
        s("joblib", Parallel=ParallelStub, delayed=delayed_stub)
        s("tqdm", tqdm=tqdm_stub, trange=lambda n, **k: b_range(n))
        s("sklearn")
        s("sklearn.base", RegressorMixin=RegressorMixin, BaseEstimator=BaseEstimator, clone=clone_stub)
        s("sklearn.ensemble")
        s("sklearn.model_selection")
        s("sklearn.linear_model")
        s("sklearn.linear_model.base")
        s("sklearn.feature_selection", SelectorMixin=SelectorMixin)
        s("sklearn.feature_selection.base", SelectorMixin=SelectorMixin)
        s("matplotlib")
        s("matplotlib.pyplot", hist=b_print, title=b_print, xlabel=b_print, ylabel=b_print, show=b_print)
        s("seaborn")
        s("statsmodels")
        s("statsmodels.api")
        s("scipy")
        s("scipy.stats")
        self.stubs["numpy"] = self.np
        self.stubs["numpy.random"] = self.np.random
        self.stubs["numpy.ma"] = self.np.ma
        self.stubs["math"] = npf.make_math()

    def _mk_builtins(self):
        d = dict(vars(builtins))
        d.update(
            len=b_len, range=b_range, any=b_any, all=b_all, sum=b_sum, enumerate=b_enumerate, zip=b_zip, min=_ext(False), max=_ext(True),
            sorted=b_sorted, reversed=b_reversed, type=b_type, isinstance=b_isinstance, round=b_round, map=b_map, filter=b_filter, print=b_print,
            next=b_next, iter=b_iter,
            list=_cls("list", list, lambda x: isinstance(x, (list, SymSeq)), b_list),
            tuple=_cls("tuple", tuple, lambda x: isinstance(x, tuple), b_tuple),
            set=_cls("set", set, lambda x: isinstance(x, (set, _SetOf)), b_set),
            float=_cls("float", float, lambda x: isinstance(x, float) or isinstance(x, SNum) and not x.is_int, npf.builtin_float),
            int=_cls("int", int, lambda x: isinstance(x, int) or isinstance(x, SNum) and x.is_int, npf.builtin_int),
            bool=_cls("bool", bool, lambda x: isinstance(x, (bool, SBool)), b_bool),
            _vc_for=vc_for, _vc_while=vc_while, _vc_comp=vc_comp,
        )
        d["__import__"] = self._import
        d["__build_class__"] = builtins.__build_class__
        return d

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals.get("__name__").rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "bartpy":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._find(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load(top)
        if top in ("numpy", "math") or top in self.stubs:
            if name not in self.stubs:
                if top == "numpy":
                    raise Unsupported("import " + name)
                self._stub(name)
            return self.stubs[name] if fromlist else self.stubs[top]
        if top in REAL_OK:
            return builtins.__import__(name, None, None, fromlist, 0)
        if top == "random":
            raise Unsupported("module random")
        st = self._stub(name)
        return st if fromlist else self.stubs[top]

    def _find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        f = self._find(name)
        if f is None:
            raise ImportError("No module named " + name)
        path, ispkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = []
        self.modules[name] = m
        par = name.rpartition(".")[0]
        if par:
            self.load(par)
        if path is not None:
            self.loaded_files.add(path)
            try:
                exec(code_for(path, name), m.__dict__)
            except BaseException:
                del self.modules[name]
                raise
        if par:
            setattr(self.modules[par], name.rpartition(".")[2], m)
        return m
