"""C02 a node selects the same rows in training and in prediction"""
from pyvc.api import contract
from common import *
from C01 import SPLIT, RULE


B = "rules of at most 2 conditions (3 in the thorough tier, and at small sizes); any number of rows and columns"


def depth(H, name):
    k = H.pick(name, 4)
    if k == 3 and H.proof and not H.deep:
        H.requires(False)
    return k


@contract("C02", functions=SPLIT + RULE, sizes={"n": 2, "p": 2}, bound=B, shard=[("depth", 4)])
def training_rows_equal_rule_rows(H):
    n = H.size("n", 1, small=2)
    p = H.size("p", 1, small=2)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    X0 = H.copy(X)
    root = leaf_node(H, X, y)
    node, path = chain(H, root, p, depth(H, "depth"))
    ins = node.split.condition()
    oos = node.split.condition(X)
    H.ensures("lengths", H.and_(H.len(ins) == n, H.len(oos) == n))
    r = H.index("r", n)
    H.ensures("rows held = rows selected on the training covariates", H.iff(H.at(ins, r), H.at(oos, r)))
    H.ensures("rows held = rows satisfying the path", H.iff(inside(H, node, r), satisfies(H, lambda v: H.at(X0, r, v), path)))
    H.ensures("in-sample condition = rows held", H.iff(H.at(ins, r), inside(H, node, r)))


@contract("C02", functions=SPLIT + RULE, sizes={"n": 1, "p": 2, "m": 1}, bound=B, shard=[("depth", 4)])
def rule_selects_rows_satisfying_the_path(H):
    n = H.size("n", 1, small=1)
    p = H.size("p", 1, small=2)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    node, path = chain(H, leaf_node(H, X, y), p, depth(H, "depth"))
    m = H.size("m", 1, small=1)
    Z = H.matrix("Z", m, p, finite=True)
    c = node.split.condition(Z)
    H.ensures("length", H.len(c) == m)
    r = H.index("r", m)
    H.ensures("selected iff every condition on the path holds", H.iff(H.at(c, r), satisfies(H, lambda v: H.at(Z, r, v), path)))


@contract("C02", functions=("bartpy.splitcondition.CombinedVariableCondition.add_condition", "bartpy.splitcondition.CombinedVariableCondition.__init__"))
def a_condition_narrows_the_interval_of_its_variable(H):
    """the induction step of any longer rule: whatever interval the earlier conditions left, adding one keeps exactly its points satisfying it"""
    sc = H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    if not hasattr(sc, "CombinedVariableCondition"):
        H.unsupported("rules are represented differently")
    k = H.pick("bounds", 4)
    inf = float("inf")
    lo, hi = (-inf if k & 1 else H.real("lo")), (inf if k & 2 else H.real("hi"))
    p = H.size("p", 1)
    v, w, s, left = H.index("v", p), H.index("w", p), H.real("s"), H.flag("left")
    a = sc.CombinedVariableCondition(v, lo, hi)
    if not (hasattr(a, "min_value") and hasattr(a, "max_value")):
        H.unsupported("rules are represented differently")
    b = a.add_condition(sc.SplitCondition(w, s, le if left else gt))
    x = H.real("x")
    was = H.and_(True if k & 1 else x > lo, True if k & 2 else x <= hi)
    H.ensures("interval after", H.iff(H.and_(x > b.min_value, x <= b.max_value), H.and_(was, H.or_(H.not_(H.exact(v, w)), (x <= s) if left else (x > s)))))
    H.ensures("same variable", H.exact(b.splitting_variable, v))
    H.ensures("the earlier interval object is not changed", H.iff(H.and_(x > a.min_value, x <= a.max_value), was))


@contract("C02", functions=RULE, sizes={"p": 2, "m": 1}, bound=B, shard=[("k", 4)])
def combined_condition_is_the_conjunction(H):
    """conditions in any order, repeated or redundant, given at construction or added"""
    sc = H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    p = H.size("p", 1, small=2)
    k = depth(H, "k")
    if H.proof:
        variables = H.mod("bartpy.data").Data(H.matrix("X", H.size("n", 1), p), H.reals("y", H.size("n", 1))).X.variables
    else:
        variables = list(range(p))
    path, conds = [], []
    for i in range(k):
        v, s, left = H.index("v%d" % i, p), H.real("s%d" % i), H.flag("l%d" % i)
        path.append((v, s, left))
        conds.append(sc.SplitCondition(v, s, le if left else gt))
    if H.flag("added"):
        cc = sc.CombinedCondition(variables, [])
        for c in conds:
            cc = cc + c
    else:
        cc = sc.CombinedCondition(variables, conds)
    m = H.size("m", 1, small=1)
    Z = H.matrix("Z", m, p, finite=True)
    out = cc.condition(Z)
    r = H.index("r", m)
    H.ensures("length", H.len(out) == m)
    H.ensures("conjunction of the conditions", H.iff(H.at(out, r), satisfies(H, lambda v: H.at(Z, r, v), path)))
    last = cc.most_recent_split_condition()
    if k == 0:
        H.ensures("no most recent condition", last is None)
    else:
        H.ensures("most recent condition is the last one",
                  H.and_(H.eq(last.splitting_variable, path[-1][0]), H.eq(last.splitting_value, path[-1][1]), (last.operator == le) == path[-1][2]))


@contract("C02", functions=RULE, sizes={"p": 2, "m": 1, "conditions": 2}, fork_ms=20, shard=[("added", 2)])
def rule_of_any_length(H):
    """any number of conditions in any order, repeated or redundant, given at construction or added"""
    sc = H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    p = H.size("p", 1, small=2)
    variables = H.range(p)
    added = H.flag("added")
    extra = (H.index("w", p), H.real("t"), H.flag("goes_left")) if added else None
    rule, conds = any_rule(H, p, extra)
    m = H.size("m", 1, small=1)
    Z = H.matrix("Z", m, p, finite=True)
    r = H.index("r", m)
    interval_invariant(H, rule, conds, p, lambda v: H.at(Z, r, v))
    cc = sc.CombinedCondition(variables, conds)
    if added:
        cc = cc + sc.SplitCondition(extra[0], extra[1], le if extra[2] else gt)
    out = cc.condition(Z)
    H.ensures("length", H.len(out) == m)
    H.ensures("conjunction of the conditions", H.iff(H.at(out, r), H.forall(rule.n, lambda i: rule.holds(i, lambda v: H.at(Z, r, v)))))
    last = cc.most_recent_split_condition()
    if last is None:
        H.ensures("no conditions", rule.n == 0)
    else:
        v, s, left = extra if added else (rule.v(rule.K - 1), rule.s(rule.K - 1), rule.left(rule.K - 1))
        H.ensures("most recent condition is the last one",
                  H.and_(rule.n > 0, H.exact(last.splitting_variable, v), H.exact(last.splitting_value, s), H.iff(last.operator == le, left)))


@contract("C02", functions=SPLIT + RULE, sizes={"n": 2, "p": 2, "conditions": 1}, fork_ms=20, shard=[("goes_left", 2)])
def training_rows_equal_rule_rows_below_any_node(H):
    """the induction step for nodes at any depth: a node whose rows are those satisfying its rule, of any number of
    conditions, is split; its children's rows are those their rules select among the training rows"""
    data, sp, sc = H.mod("bartpy.data"), H.mod("bartpy.split"), H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=2)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    X0 = H.copy(X)
    w, t, side = H.index("w", p), H.real("t"), H.flag("goes_left")
    rule, conds = any_rule(H, p, (w, t, side))
    before = lambda q: H.forall(rule.K, lambda i: rule.holds(i, lambda v: H.at(X0, q, v)))
    d = data.Data(X, y, mask=H.truths(n, lambda q: H.not_(before(q))))
    r = H.index("r", n)
    interval_invariant(H, rule, conds, p, lambda v: H.at(X0, r, v))
    node = sp.Split(d, sc.CombinedCondition(d.X.variables, conds))
    H.ensures("rows held = rows selected in the node", H.iff(H.at(node.condition(), r), H.at(node.condition(X), r)))
    child = node + sc.SplitCondition(w, t, le if side else gt)
    ins, oos = child.condition(), child.condition(X)
    H.ensures("lengths", H.and_(H.len(ins) == n, H.len(oos) == n))
    H.ensures("rows held = rows selected on the training covariates", H.iff(H.at(ins, r), H.at(oos, r)))
    H.ensures("rows held = rows satisfying every condition", H.iff(H.at(ins, r), H.and_(before(r), rule.holds(rule.K, lambda v: H.at(X0, r, v)))))
    H.ensures("rows held by the data", H.iff(H.at(ins, r), H.not_(H.at(child.data.mask, r))))
    H.ensures("the parent keeps its rows", H.iff(H.at(node.condition(), r), before(r)))


@contract("C02", modes="c", functions=SPLIT + RULE + ("bartpy.tree.mutate",))
def deep_histories(H):
    """long random histories of grows and prunes on the real code: every node agrees with its rule"""
    import history
    t = history.random_tree(H, steps=12)
    for node in t.tree.nodes:
        ins, oos = node.split.condition(), node.split.condition(t.X)
        H.ensures("rows held = rows selected", bool((ins == oos).all()))
        H.ensures("rows held = mask", bool((ins == ~node.data.mask).all()))
