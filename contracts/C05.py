"""C05 splittable variables are exact and sampled splits are non-degenerate"""
from pyvc.api import contract
from common import *
from C01 import SPLIT

FN = SPLIT + ("bartpy.data.is_not_constant", "bartpy.data.CovariateMatrix.splittable_variables", "bartpy.data.CovariateMatrix.get_column",
              "bartpy.data.CovariateMatrix.is_at_least_one_splittable_variable", "bartpy.data.CovariateMatrix.n_splittable_variables",
              "bartpy.node.LeafNode.is_splittable")
DRAW = FN + ("bartpy.data.CovariateMatrix.random_splittable_value", "bartpy.data.CovariateMatrix.max_value_of_column",
             "bartpy.data.CovariateMatrix.random_splittable_variable", "bartpy.samplers.unconstrainedtree.proposer.sample_split_condition")

B = "at most 2 columns, any number of rows, any subset of them"


def leaf(H, pmax=2, q=False):
    n = H.size("n", 1, small=3)
    p = H.pick("p_minus_1", pmax) + 1 if not H.concrete else H.size("p", 1, 4)
    X = H.matrix("X", n, p, finite=True)
    y = H.reals("y", n)
    mask = H.bools("mask", n)
    return n, p, X, leaf_node(H, X, y, mask), H.copy(X), H.copy(mask)


def varies(H, n, col, sel):
    """two rows of the selection differ"""
    return H.exists(n, lambda r: H.and_(sel(r), H.exists(n, lambda t: H.and_(sel(t), H.not_(H.exact(col(r), col(t)))))))


def constant(H, n, col, sel):
    return H.forall(n, lambda r: H.forall(n, lambda t: H.implies(H.and_(sel(r), sel(t)), H.exact(col(r), col(t)))))


def distinct(H, n, col, sel):
    return H.forall(n, lambda r: H.forall(n, lambda t: H.implies(H.and_(sel(r), sel(t), H.not_(H.exact(r, t))), H.not_(H.exact(col(r), col(t))))))


def exact(H, what, M, p, n, X0, sel):
    """the list of splittable variables is exact"""
    vs = M.splittable_variables()
    for v in range(p):
        col = lambda r, v=v: H.at(X0, r, v)
        if any(bool(v == w) for w in vs):
            H.ensures(what + ": reported variable takes two values", varies(H, n, col, sel))
        else:
            r, t = H.index("%s_r%d" % (what, v), n), H.index("%s_t%d" % (what, v), n)
            H.ensures(what + ": unreported variable is constant", H.implies(H.and_(sel(r), sel(t)), H.exact(col(r), col(t))))
    H.ensures(what + ": no repetition", len(vs) == len(set(int(w) for w in vs)))
    return vs


class Answers(object):
    """which of any number of columns are known to be splittable: 1 yes, 0 no, 2 not known"""

    def __init__(self, H, n):
        raw = H.c.fresh_map()
        self.H, self.n, self.at = H, n, lambda i: H.ite(H.or_(H.exact(raw(i), 0), H.exact(raw(i), 1)), raw(i), 2)

    def element(self, i):
        k = self.at(i)
        return False if self.H.exact(k, 0) else True if self.H.exact(k, 1) else None


def right(H, X, mask, n, code, i):
    """what is known about column i is so"""
    sel, col = (lambda r: H.not_(H.at(mask, r))), (lambda r: H.at(X, r, i))
    return H.and_(H.implies(H.exact(code, 1), varies(H, n, col, sel)), H.implies(H.exact(code, 0), constant(H, n, col, sel)))


def column_loops(H, n, p, lemma):
    """the loops over the columns that find out which are splittable: what is known stays right, and the columns passed are known"""
    parts = lambda: (lambda M: (M, M._splittable_variables))(spec.locals["self"])
    start = {}

    def others(M):
        return {k: v for k, v in M.__dict__.items() if k != "_X_cache"}

    def complete(L):
        """all the answers are known, by the invariant at the end of an earlier loop: they stay as they are"""
        return not lemma and getattr(L.elem0, "all_known", False) and not L.writes

    def enter(k):
        M, L = parts()
        if M._X_cache is None and H.c._choice():
            M.get_column(0)
        if complete(L):
            return
        a = Answers(H, p)
        element = lambda i: a.element(i)
        element.all_known = not lemma and H.implied(H.exact(k, p))
        L.elem0, L.writes, L.tail, L.cache, L.ctermss = element, [], [], {}, {}
        start["map"] = a.at

    def known(L, i, now=True):
        if spec.assuming and now:
            return start["map"](i)
        x = L[i]
        return 1 if x is True else 0 if x is False else 2 if x is None else H.unsupported("answers of an unknown kind")

    def inv(k):
        M, L = parts()
        if not spec.assuming:
            if isinstance(k, int):
                start["map"] = None
                start["others"], start["answers"] = others(M), L.copy()
            H.ensures("only the answers change", others(M) == start["others"] and H.len(L) == p)
        if complete(L) and not (spec.assuming and start["map"] is not None):
            start["map"] = None
            return []
        X, mask = M.values, M.mask
        first = start["answers"]
        before = lambda i: H.summ(lambda: known(first, i, False))
        return [("what is known stays so", p, lambda i: (lambda b: H.or_(H.exact(b, 2), H.exact(known(L, i), b)))(before(i))),
                ("what is known about the columns is right", p, lambda i: right(H, X, mask, n, known(L, i), i)),
                ("the columns passed are known", p, lambda i: H.implies(i < k, H.not_(H.exact(known(L, i), 2))))]

    def owns(o):
        M, L = parts()
        return o is L or o is M
    spec = H.range_invariant(("splittable_variables",), enter, inv, owns)
    spec.assumed = not lemma


def any_leaf(H, lemma=False, unique=False, hints=True):
    """a node with any number of columns and rows; hints about the columns, as left by the nodes above, are right where they say no"""
    n, p = H.size("n", 1), H.size("p", 1)
    X, y, mask = H.matrix("X", n, p, finite=True), H.reals("y", n), H.bools("mask", n)
    X0, m0 = H.copy(X), H.copy(mask)
    data, split_mod, node = H.mod("bartpy.data"), H.mod("bartpy.split"), H.mod("bartpy.node")
    given = {}
    if unique and H.flag("unique_hints"):
        u = Answers(H, p)
        H.requires_forall(p, lambda i: H.implies(H.exact(u.at(i), 1), distinct(H, n, lambda r: H.at(X0, r, i), lambda r: H.not_(H.at(m0, r)))))
        given["unique_columns"] = H.objects(p, u.element)
    if hints and H.flag("hints"):
        a = Answers(H, p)
        sel = lambda r: H.not_(H.at(m0, r))
        H.requires_forall(p, lambda i: H.implies(H.exact(a.at(i), 0), constant(H, n, lambda r: H.at(X0, r, i), sel)))
        given["splittable_variables"] = H.objects(p, a.element)
    d = data.Data(X, y, mask=mask, **given)
    column_loops(H, n, p, lemma)
    return n, p, X, node.LeafNode(split_mod.Split(d)), X0, m0


def the_loop(H):
    """the lemma the others use: the loops over the columns keep their invariant"""
    n, p, X, node, X0, m0 = any_leaf(H, True)
    node.data.X.splittable_variables()
    H.ensures("the loop ends", True)


def any_exact(H, what, M, p, n, X0, sel):
    """the list of splittable variables is exact, for some variable v of any number"""
    vs = M.splittable_variables()
    v = H.index("v", p)
    col = lambda r: H.at(X0, r, v)
    if v in vs:
        H.ensures(what + ": reported variable takes two values", varies(H, n, col, sel))
    else:
        r, t = H.index("r", n), H.index("t", n)
        H.ensures(what + ": unreported variable is constant", H.implies(H.and_(sel(r), sel(t)), H.exact(col(r), col(t))))
    return vs


@contract("C05", functions=FN, fallback=B, fork_ms=40, proof_shard=[("the_loop", 2), ("hints", 2)])
def splittable_variables_are_exact(H):
    if H.proof:
        if H.flag("the_loop"):
            return the_loop(H)
        n, p, X, node, X0, m0 = any_leaf(H)
        M = node.data.X
        if H.flag("exact"):
            return any_exact(H, "node", M, p, n, X0, lambda r: H.not_(H.at(m0, r)))
        vs = M.splittable_variables()
        if H.flag("repetition"):
            H.requires(H.len(vs) > 0)
            j, k = H.index("j", H.len(vs)), H.index("k", H.len(vs))
            H.ensures("no repetition", H.or_(H.exact(j, k), H.not_(H.exact(vs[j], vs[k]))))
            return
        if H.flag("count"):
            return H.ensures("count", H.eq(M.n_splittable_variables, H.len(vs)))
        v = H.index("v", p)
        before = v in vs
        H.ensures("asking again gives the same answer", (v in M.splittable_variables()) == before)
        return
    n, p, X, node, X0, m0 = leaf(H)
    sel = lambda r: H.not_(H.at(m0, r))
    a = exact(H, "node", node.data.X, p, n, X0, sel)
    b = node.data.X.splittable_variables()
    H.ensures("asking again gives the same answer", list(a) == list(b))
    H.ensures("count", H.eq(node.data.X.n_splittable_variables, len(a)))


@contract("C05", functions=FN, fallback=B, fork_ms=40, lemma="splittable_variables_are_exact")
def node_splittable_iff_some_variable_is(H):
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf(H)
    sel = lambda r: H.not_(H.at(m0, r))
    if H.flag("asked_before"):
        node.data.X.splittable_variables()
    if node.is_splittable():
        H.ensures("splittable node has two distinct rows",
                  H.exists(p, lambda v: varies(H, n, lambda r: H.at(X0, r, v), sel)))
    else:
        r, t, v = H.index("r", n), H.index("t", n), H.index("v", p)
        H.ensures("rows of an unsplittable node are equal", H.implies(H.and_(sel(r), sel(t)), H.exact(H.at(X0, r, v), H.at(X0, t, v))))


@contract("C05", functions=FN, fallback=B, fork_ms=40, lemma="splittable_variables_are_exact", shard=[("p_minus_1", 2), ("parent_asked", 2), ("left", 2)],
          proof_shard=[("hints", 2), ("parent_asked", 2), ("left", 2)])
def exact_in_children_with_inherited_caches(H):
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf(H)
    exact = any_exact if H.proof else globals()["exact"]
    if H.flag("parent_asked"):
        node.data.X.splittable_variables()
    if H.flag("parent_unique_asked"):
        node.data.X.is_column_unique(0)
    v, s = H.index("v", p), H.real("s")
    dn = split(H, node, v, s)
    if H.flag("left"):
        exact(H, "left child", dn.left_child.data.X, p, n, X0, lambda r: H.and_(H.not_(H.at(m0, r)), H.at(X0, r, v) <= s))
    else:
        exact(H, "right child", dn.right_child.data.X, p, n, X0, lambda r: H.and_(H.not_(H.at(m0, r)), H.at(X0, r, v) > s))


@contract("C05", functions=DRAW, fallback=B, fork_ms=40, lemma="splittable_variables_are_exact")
def drawn_value_leaves_both_sides(H):
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf(H)
    sel = lambda r: H.not_(H.at(m0, r))
    v = H.index("v", p)
    r, t = H.index("r", n), H.index("t", n)
    H.requires(H.and_(sel(r), sel(t), H.not_(H.exact(H.at(X0, r, v), H.at(X0, t, v)))))
    if H.flag("asked_before"):
        node.data.X.max_value_of_column(v)
    s = node.data.X.random_splittable_value(v)
    H.ensures("an observed value of the node", H.exists(n, lambda k: H.and_(sel(k), H.exact(H.at(X0, k, v), s))))
    H.ensures("some observation is greater", H.exists(n, lambda k: H.and_(sel(k), H.at(X0, k, v) > s)))


@contract("C05", functions=DRAW, fallback=B, fork_ms=40, lemma="splittable_variables_are_exact")
def no_value_for_an_unsplittable_variable(H):
    err = H.mod("bartpy.errors").NoSplittableVariableException
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf(H)
    v = H.index("v", p)
    c = H.real("c")
    if H.concrete:
        X[:, v] = c
        node = leaf_node(H, X, node.data.y.values, m0)
    else:
        H.requires_forall(n, lambda k: H.implies(H.not_(H.at(m0, k)), H.exact(H.at(X0, k, v), c)))
    raised, _ = H.raises(err, lambda: node.data.X.random_splittable_value(v))
    H.ensures("raises NoSplittableVariableException", raised)
    vs = node.data.X.splittable_variables()
    if H.len(vs) == 0:
        raised, _ = H.raises(err, lambda: node.data.X.random_splittable_variable())
        H.ensures("no random splittable variable", raised)


@contract("C05", functions=DRAW, fallback=B, fork_ms=40, lemma="splittable_variables_are_exact", proof_shard=[("hints", 2)])
def random_variable_is_splittable(H):
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf(H)
    if node.is_splittable():
        v = node.data.X.random_splittable_variable()
        vs = node.data.X.splittable_variables()
        H.ensures("member of the splittable variables", v in vs if H.proof else any(bool(v == w) for w in vs))


@contract("C05", functions=DRAW, fallback=B, fork_ms=40, lemma="splittable_variables_are_exact", proof_shard=[("hints", 2)])
def sampled_rule_is_non_degenerate(H):
    le, gt = le_gt()
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf(H)
    sel = lambda r: H.not_(H.at(m0, r))
    H.requires(node.is_splittable())
    L, R = H.mod("bartpy.samplers.unconstrainedtree.proposer").sample_split_condition(node)
    v, s = L.splitting_variable, L.splitting_value
    H.ensures("one rule, two sides", H.and_(v == R.splitting_variable, H.eq(s, R.splitting_value), L.operator is le, R.operator is gt))
    H.ensures("variable in range", H.and_(v >= 0, v < p))
    for w in [v] if H.proof else range(p):
        if bool(v == w):
            H.ensures("left side occupied", H.exists(n, lambda k: H.and_(sel(k), H.at(X0, k, w) <= s)))
            H.ensures("right side occupied", H.exists(n, lambda k: H.and_(sel(k), H.at(X0, k, w) > s)))


@contract("C05", modes="c", functions=DRAW + ("bartpy.tree.mutate",))
def histories(H):
    import history
    np = H.np

    def after(s, m):
        for node in s.tree.nodes:
            if H.rng.random() < 0.4:
                node.data.X.splittable_variables()
            if H.rng.random() < 0.2:
                node.data.X.is_at_least_one_splittable_variable()
    s = history.random_tree(H, steps=9, after=after)
    for node in s.tree.nodes:
        rows = s.X[~node.data.mask]
        want = [v for v in range(s.X.shape[1]) if len(rows) and len(set(rows[:, v].tolist())) > 1]
        H.ensures("exact", list(node.data.X.splittable_variables()) == want)
        H.ensures("splittable", bool(node.data.X.is_at_least_one_splittable_variable()) == (len(want) > 0))
        for v in want:
            for _ in range(3):
                t = node.data.X.random_splittable_value(v)
                H.ensures("observed value", bool((rows[:, v] == t).any()))
                H.ensures("non-degenerate", bool((rows[:, v] > t).any()))
