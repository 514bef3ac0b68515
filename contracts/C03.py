"""C03 node counts and target sums always equal a recount"""
from pyvc.api import contract
from common import *
from C01 import SPLIT

SUMS = SPLIT + ("bartpy.data.Target.summed_y", "bartpy.data.Target.update_y", "bartpy.data.Data.update_y", "bartpy.data.CovariateMatrix.n_obsv")


def check(H, what, node, n, sel, y):
    """sel: row -> bool, y: current target"""
    H.ensures(what + ": count", H.eq(node.data.X.n_obsv, H.count(n, sel)))
    H.ensures(what + ": target sum", H.eq(node.data.y.summed_y(), H.sum(n, lambda r: H.ite(sel(r), H.at(y, r), 0.0))))


@contract("C03", functions=SUMS)
def leaf_count_and_sum(H):
    n, p, X, y, mask, node = arbitrary_leaf(H)
    y0, m0 = H.copy(y), H.copy(mask)
    sel = lambda r: H.not_(H.at(m0, r))
    check(H, "leaf", node, n, sel, y0)
    check(H, "leaf, second read", node, n, sel, y0)


@contract("C03", functions=SUMS)
def children_of_a_split(H):
    n, p, X, y, mask, node = arbitrary_leaf(H)
    y0, m0, X0 = H.copy(y), H.copy(mask), H.copy(X)
    if H.flag("parent_read_first"):
        node.data.y.summed_y()
    v, s = H.index("v", p), H.real("s")
    dn = split(H, node, v, s)
    m = lambda r: H.not_(H.at(m0, r))
    if H.flag("right_first"):
        check(H, "right", dn.right_child, n, lambda r: H.and_(m(r), H.at(X0, r, v) > s), y0)
        check(H, "left", dn.left_child, n, lambda r: H.and_(m(r), H.at(X0, r, v) <= s), y0)
    else:
        check(H, "left", dn.left_child, n, lambda r: H.and_(m(r), H.at(X0, r, v) <= s), y0)
        check(H, "right", dn.right_child, n, lambda r: H.and_(m(r), H.at(X0, r, v) > s), y0)
    check(H, "node", dn, n, m, y0)


@contract("C03", functions=SUMS + ("bartpy.node.TreeNode.update_y",))
def no_stale_sums_after_update(H):
    """read or not, update through any ancestor, read: the sum is that of the current target, for node and children"""
    n, p, X, y, mask, node = arbitrary_leaf(H)
    m0, X0 = H.copy(mask), H.copy(X)
    m = lambda r: H.not_(H.at(m0, r))
    cur = H.copy(y)
    if H.flag("read0"):
        node.data.y.summed_y()
    if H.flag("update_before"):
        y1 = H.reals("y1", n)
        cur = H.copy(y1)
        node.update_y(y1)
        check(H, "leaf after update", node, n, m, cur)
    v, s = H.index("v", p), H.real("s")
    dn = split(H, node, v, s)
    L, R = lambda r: H.and_(m(r), H.at(X0, r, v) <= s), lambda r: H.and_(m(r), H.at(X0, r, v) > s)
    if H.flag("read1"):
        dn.left_child.data.y.summed_y()
        dn.right_child.data.y.summed_y()
    y2 = H.reals("y2", n)
    cur = H.copy(y2)
    dn.update_y(y2)
    check(H, "node after update", dn, n, m, cur)
    check(H, "left after update", dn.left_child, n, L, cur)
    check(H, "right after update", dn.right_child, n, R, cur)


@contract("C03", functions=SUMS + ("bartpy.node.TreeNode.update_y",))
def the_same_array_updated_in_place(H):
    """the caller reuses one residual array: changed in place and handed over again, it is a new target"""
    n, p, X, y, mask, node = arbitrary_leaf(H)
    m0 = H.copy(mask)
    m = lambda r: H.not_(H.at(m0, r))
    buf = H.reals("y1", n)
    node.update_y(buf)
    if H.flag("read"):
        node.data.y.summed_y()
    d = H.reals("d", n)
    b0 = H.copy(buf)
    cur = H.build(n, lambda r: H.at(b0, r) + H.at(d, r))
    buf += d
    node.update_y(buf)
    check(H, "leaf after the in-place change", node, n, m, cur)


@contract("C03", functions=SUMS + ("bartpy.tree.Tree.update_y", "bartpy.node.TreeNode.update_y"), sizes={"n": 2, "p": 1})
def split_of_split_with_updates(H):
    n, p, X, y, mask, node = arbitrary_leaf(H)
    m0, X0 = H.copy(mask), H.copy(X)
    m = lambda r: H.not_(H.at(m0, r))
    tree = H.mod("bartpy.tree")
    v, s, v2, s2 = H.index("v", p), H.real("s"), H.index("v2", p), H.real("s2")
    dn = split(H, node, v, s)
    left = H.flag("left")
    ch = dn.left_child if left else dn.right_child
    sel = (lambda r: H.and_(m(r), H.at(X0, r, v) <= s)) if left else (lambda r: H.and_(m(r), H.at(X0, r, v) > s))
    if H.flag("update"):
        y = H.reals("y1", n)
        tree.Tree([dn, dn.left_child, dn.right_child]).update_y(y)
    cur = H.copy(y)
    H.lemma(H.count(n, sel))
    H.lemma(H.sum(n, lambda r: H.ite(sel(r), H.at(cur, r), 0.0)))
    g = split(H, ch, v2, s2)
    if H.flag("left2"):
        check(H, "grandchild", g.left_child, n, lambda r: H.and_(sel(r), H.at(X0, r, v2) <= s2), cur)
    else:
        check(H, "grandchild", g.right_child, n, lambda r: H.and_(sel(r), H.at(X0, r, v2) > s2), cur)


@contract("C03", modes="c", functions=SUMS + ("bartpy.tree.mutate", "bartpy.tree.Tree.update_y"))
def histories(H):
    """random histories of mutations, target updates and cached reads"""
    import history
    np = H.np

    def after(s, m):
        if H.rng.random() < 0.5:
            s.y = np.array([H._real() for _ in s.y])
            s.tree.update_y(s.y.copy())
        for node in s.tree.nodes:
            if H.rng.random() < 0.5:
                node.data.y.summed_y()
    s = history.random_tree(H, steps=10, after=after)
    for node in s.tree.nodes:
        rows = ~node.data.mask
        H.ensures("count", node.data.X.n_obsv == rows.sum())
        H.ensures("sum", H.eq(node.data.y.summed_y(), s.y[rows].sum()))
    y2 = np.array([H._real() for _ in s.y])
    s.tree.update_y(y2)
    for node in s.tree.nodes:
        H.ensures("sum after update", H.eq(node.data.y.summed_y(), y2[~node.data.mask].sum()))
