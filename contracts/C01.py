"""C01 leaves of every tree partition the observations"""
from pyvc.api import contract
from common import *

SPLIT = ("bartpy.node.split_node", "bartpy.split.Split.__add__", "bartpy.data.Data.__add__", "bartpy.data.Data.__init__", "bartpy.data.CovariateMatrix.update_mask",
         "bartpy.data.CovariateMatrix.__init__", "bartpy.data.Target.__init__", "bartpy.splitcondition.SplitCondition.__init__")
RULE = ("bartpy.split.Split.condition", "bartpy.split.Split.out_of_sample_condition", "bartpy.splitcondition.CombinedCondition.__init__",
        "bartpy.splitcondition.CombinedCondition.__add__", "bartpy.splitcondition.CombinedCondition.condition",
        "bartpy.splitcondition.CombinedVariableCondition.add_condition")


@contract("C01", functions=SPLIT)
def children_partition_the_node(H):
    n, p, X, y, mask, node = arbitrary_leaf(H)
    v, s = H.index("v", p), H.real("s")
    X0, m0 = H.copy(X), H.copy(mask)
    dn = split(H, node, v, s)
    L, R = dn.left_child, dn.right_child
    H.ensures("lengths", H.and_(H.len(L.data.mask) == n, H.len(R.data.mask) == n))
    H.ensures_forall("left holds exactly the node's rows <= value", n,
                     lambda r: H.iff(inside(H, L, r), H.and_(H.not_(H.at(m0, r)), H.at(X0, r, v) <= s)))
    H.ensures_forall("right holds exactly the node's rows > value", n,
                     lambda r: H.iff(inside(H, R, r), H.and_(H.not_(H.at(m0, r)), H.at(X0, r, v) > s)))
    H.ensures_forall("the split node keeps its rows", n, lambda r: H.iff(inside(H, dn, r), H.not_(H.at(m0, r))))
    H.ensures_forall("every row of the node is in exactly one child", n,
                     lambda r: H.eq(H.ite(inside(H, L, r), 1, 0) + H.ite(inside(H, R, r), 1, 0), H.ite(H.at(m0, r), 0, 1)))


@contract("C01", functions=SPLIT + RULE, sizes={"n": 2, "p": 2}, bound="rules of at most 2 conditions; any number of rows, columns and points")
def child_rules_partition_the_space(H):
    """for the rules reached by up to two further splits: a point satisfies exactly one child rule iff it satisfies the parent's"""
    n = H.size("n", 1, small=1)
    p = H.size("p", 1, small=2)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    root = leaf_node(H, X, y)
    node, path = chain(H, root, p, H.pick("depth", 2))
    v, s = H.index("v", p), H.real("s")
    dn = split(H, node, v, s)
    m = H.size("m", 1, small=1)
    Z = H.matrix("Z", m, p, finite=True)
    cp, cl, cr = node.split.condition(Z), dn.left_child.split.condition(Z), dn.right_child.split.condition(Z)
    H.ensures("lengths", H.and_(H.len(cl) == m, H.len(cr) == m))
    r = H.index("r", m)
    H.ensures("left rule", H.iff(H.at(cl, r), H.and_(H.at(cp, r), H.at(Z, r, v) <= s)))
    H.ensures("right rule", H.iff(H.at(cr, r), H.and_(H.at(cp, r), H.at(Z, r, v) > s)))


@contract("C01", functions=SPLIT + RULE, sizes={"n": 2, "p": 2, "conditions": 1}, fork_ms=20)
def child_rules_of_any_node_partition_its_space(H):
    """whatever rule, of any number of conditions, a node has: a point satisfies exactly one child rule iff it satisfies the node's"""
    data, sp, sc, nd = H.mod("bartpy.data"), H.mod("bartpy.split"), H.mod("bartpy.splitcondition"), H.mod("bartpy.node")
    n, p, m = H.size("n", 1, small=2), H.size("p", 1, small=2), H.size("m", 1, small=1)
    X, y, Z = H.matrix("X", n, p), H.reals("y", n), H.matrix("Z", m, p, finite=True)
    rule, conds = any_rule(H, p)
    r = H.index("r", m)
    interval_invariant(H, rule, conds, p, lambda v: H.at(Z, r, v))
    d = data.Data(X, y, mask=H.bools("mask", n))
    node = nd.LeafNode(sp.Split(d, sc.CombinedCondition(d.X.variables, conds)))
    v, s = H.index("w", p), H.real("t")
    dn = split(H, node, v, s)
    cp, cl, cr = node.split.condition(Z), dn.left_child.split.condition(Z), dn.right_child.split.condition(Z)
    H.ensures("lengths", H.and_(H.len(cl) == m, H.len(cr) == m))
    H.ensures("left rule", H.iff(H.at(cl, r), H.and_(H.at(cp, r), H.at(Z, r, v) <= s)))
    H.ensures("right rule", H.iff(H.at(cr, r), H.and_(H.at(cp, r), H.at(Z, r, v) > s)))


@contract("C01", functions=RULE)
def root_rule_accepts_everything(H):
    n, p, X, y, mask, node = arbitrary_leaf(H, with_mask=False)
    m = H.size("m", 1, small=2)
    Z = H.matrix("Z", m, p, finite=True)
    c = node.split.condition(Z)
    H.ensures("length", H.len(c) == m)
    H.ensures_forall("every finite point is in the root", m, lambda r: H.at(c, r))
    H.ensures_forall("every observation is in the root", n, lambda r: inside(H, node, r))
    ins = node.split.condition()
    H.ensures_forall("in-sample condition of the root", n, lambda r: H.at(ins, r))
