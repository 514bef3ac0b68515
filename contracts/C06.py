"""C06 applying a mutation edits the tree exactly where it says"""
from pyvc.api import contract
from common import *

FN = ("bartpy.tree.mutate", "bartpy.tree.Tree.remove_node", "bartpy.tree.Tree.add_node", "bartpy.tree.Tree.leaf_nodes", "bartpy.tree.Tree.decision_nodes",
      "bartpy.tree.Tree.splittable_leaf_nodes", "bartpy.tree.Tree.prunable_decision_nodes", "bartpy.mutation.GrowMutation.__init__",
      "bartpy.mutation.PruneMutation.__init__", "bartpy.node.DecisionNode.is_prunable")


def snap(H, nodes):
    return [(x, type(x), x.depth, x.split, x.left_child, x.right_child, x.current_value if is_leaf(H, x) else None) for x in nodes]


def lists(H, tree):
    ls = [x for x in tree.nodes if is_leaf(H, x)]
    ds = [x for x in tree.nodes if is_decision(H, x)]
    H.ensures("leaf_nodes", same_set(tree.leaf_nodes, ls))
    H.ensures("decision_nodes", same_set(tree.decision_nodes, ds))
    H.ensures("splittable_leaf_nodes", same_set(tree.splittable_leaf_nodes, [x for x in ls if x.split.data.X.flag]))
    H.ensures("prunable_decision_nodes", same_set(tree.prunable_decision_nodes, [x for x in ds if is_leaf(H, x.left_child) and is_leaf(H, x.right_child)]))


def unchanged(H, before, tree, gone, new, old, repl):
    """every other node is as before, except that its link to old is now a link to repl"""
    for x, t, depth, sp, l, r, val in before:
        if any(x is g for g in gone):
            continue
        H.ensures("type kept", type(x) is t)
        H.ensures("depth kept", x.depth == depth)
        H.ensures("split kept", x.split is sp)
        H.ensures("left link", x.left_child is (repl if l is old and l is not None else l))
        H.ensures("right link", x.right_child is (repl if r is old and r is not None else r))
        if val is not None:
            H.ensures("value kept", H.eq(x.current_value, val))
    keep = [b[0] for b in before if not any(b[0] is g for g in gone)]
    H.ensures("exactly the stated nodes are in the tree", same_set(tree.nodes, keep + new))


def shape_of(H, limit):
    ss = shapes_upto(limit)
    return ss[H.pick("shape", len(ss))]


def any_node_lists(H, T, tree, new, gone):
    """the four lists of a tree of any number of nodes: all of them of a given tree, what changes in them by a mutation"""
    name = LISTS[H.pick("list", 4)]
    def member(x):
        if name == "leaf_nodes":
            return is_leaf(H, x)
        if name == "decision_nodes":
            return is_decision(H, x)
        if name == "splittable_leaf_nodes":
            return is_leaf(H, x) and bool(x.split.data.X.flag)
        return is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)
    ns = getattr(tree, name)
    named = new + gone
    question = H.pick("question", 2 + len(named))
    if question < len(new):
        H.ensures("a new node is in %s as it should" % name, (named[question] in ns) == member(named[question]))
    elif question < len(named):
        H.ensures("a removed node is not in " + name, named[question] not in ns)
    elif question == len(named):
        if new and not name in ("leaf_nodes", "decision_nodes"):
            return
        x = T.nodes[H.index("some_node", T.n)]
        H.ensures("every such node is in " + name, (x in ns) == (x in tree.nodes and member(x)))
    elif H.len(ns) > 0:
        j, k = H.index("j", H.len(ns)), H.index("k", H.len(ns))
        x, y = ns[j], ns[k]
        H.ensures("only such nodes are in " + name, x in tree.nodes and member(x))
        H.ensures("once", j == k or x is not y)


LISTS = ["leaf_nodes", "decision_nodes", "splittable_leaf_nodes", "prunable_decision_nodes"]


def any_unchanged(H, T, tree, gone, new, old, repl):
    """as `unchanged`, for a tree of any number of nodes: some node that is still in it"""
    i = H.index("some_node", T.n)
    x = T.nodes[i]
    staying = not any(x is g for g in gone)
    H.ensures("exactly the stated nodes are gone", (x in tree.nodes) == staying)
    for y in new:
        H.ensures("the new nodes are in the tree", y in tree.nodes)
    H.ensures("number of nodes", H.len(tree.nodes) == T.n - len(gone) + len(new))
    if not staying:
        return
    j = tree.nodes.index(x)
    H.add_index(j)
    H.ensures("nothing but the links changes", T.kept(x))
    for side, now in (("left", x.left_child), ("right", x.right_child)):
        was = T.node(T.start[side](i))
        H.ensures(side + " link", now is (repl if was is old else was))


def any_grow(H):
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    flags = H.bools("splittable", H.size("nodes", 1))
    T = AnyTree(H, lambda i: GhostSplit(H.at(flags, i)), n=flags.n)
    t = H.index("t", T.n)
    H.requires(T.leaf(t))
    target = T.nodes[t]
    tree = tree_mod.Tree(T.list)
    fresh = H.bools("splittable_child", 2)
    a, b = [node.LeafNode(GhostSplit(H.at(fresh, q)), depth=target.depth + 1) for q in range(2)]
    d = node.DecisionNode(target.split, a, b, depth=target.depth)
    kept = [dict(x.__dict__) for x in (a, b, d)]
    T.relinked(t, d)
    tree_mod.mutate(tree, mut.GrowMutation(target, d))
    H.ensures("the new nodes are as they were", all(x.__dict__ == k for x, k in zip((a, b, d), kept)))
    if H.flag("lists"):
        any_node_lists(H, T, tree, [a, b, d], [target])
    else:
        any_unchanged(H, T, tree, [target], [d, a, b], target, d)


def any_prune(H):
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    flags = H.bools("splittable", H.size("nodes", 1))
    T = AnyTree(H, lambda i: GhostSplit(H.at(flags, i)), n=flags.n)
    t = H.index("t", T.n)
    H.requires(H.not_(T.leaf(t)))
    cl, cr = T.start["left"](t), T.start["right"](t)
    H.add_index(cl)
    H.add_index(cr)
    H.requires(H.and_(T.leaf(cl), T.leaf(cr)))
    target, l, r = T.nodes[t], T.nodes[cl], T.nodes[cr]
    tree = tree_mod.Tree(T.list)
    leaf = node.LeafNode(target.split, depth=target.depth, value=H.real("new_value"))
    kept = dict(leaf.__dict__)
    T.relinked(t, leaf)
    tree_mod.mutate(tree, mut.PruneMutation(target, leaf))
    H.ensures("the new leaf is as it was", leaf.__dict__ == kept)
    if H.flag("lists"):
        any_node_lists(H, T, tree, [leaf], [target, l, r])
    else:
        any_unchanged(H, T, tree, [target, l, r], [leaf], target, leaf)


@contract("C06", functions=FN, fallback="trees with at most 3 internal nodes before the mutation (all shapes, every leaf, three list orders)", max_paths=20000, fork_ms=20)
def grow(H):
    if H.proof:
        return any_grow(H)
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    nodes = ghost_nodes(H, shape_of(H, 3 if not H.concrete else 5), flags=True)
    ls = [x for x in nodes if is_leaf(H, x)]
    target = ls[H.pick("leaf", len(ls))]
    tree = tree_mod.Tree(reorder(H, nodes))
    before = snap(H, nodes)
    a, b = node.LeafNode(GhostSplit(H.flag("fa")), depth=target.depth + 1), node.LeafNode(GhostSplit(H.flag("fb")), depth=target.depth + 1)
    d = node.DecisionNode(target.split, a, b, depth=target.depth)
    tree_mod.mutate(tree, mut.GrowMutation(target, d))
    unchanged(H, before, tree, [target], [d, a, b], target, d)
    H.ensures("the new node keeps its children", H.and_(d.left_child is a, d.right_child is b))
    H.ensures("depths of the new nodes", H.and_(d.depth == target.depth, a.depth == target.depth + 1, b.depth == target.depth + 1))
    lists(H, tree)


@contract("C06", functions=FN, fallback="trees with at most 4 internal nodes (all shapes, every prunable node, three list orders)", max_paths=20000, fork_ms=20, budget=300)
def prune(H):
    if H.proof:
        return any_prune(H)
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    nodes = ghost_nodes(H, shape_of(H, 4 if not H.concrete else 6), flags=True)
    ds = [x for x in nodes if is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)]
    if not ds:
        H.requires(False)
    target = ds[H.pick("decision", len(ds))]
    tree = tree_mod.Tree(reorder(H, nodes))
    before = snap(H, nodes)
    l, r = target.left_child, target.right_child
    leaf = node.LeafNode(target.split, depth=target.depth, value=H.real("new_value"))
    tree_mod.mutate(tree, mut.PruneMutation(target, leaf))
    unchanged(H, before, tree, [target, l, r], [leaf], target, leaf)
    lists(H, tree)


@contract("C06", functions=FN, fallback="trees with at most 3 internal nodes", max_paths=20000, fork_ms=20)
def node_lists(H):
    if H.proof:
        flags = H.bools("splittable", H.size("nodes", 1))
        T = AnyTree(H, lambda i: GhostSplit(H.at(flags, i)), n=flags.n)
        return any_node_lists(H, T, H.mod("bartpy.tree").Tree(T.list), [], [])
    tree_mod = H.mod("bartpy.tree")
    nodes = ghost_nodes(H, shape_of(H, 3 if not H.concrete else 5))
    lists(H, tree_mod.Tree(reorder(H, nodes)))


@contract("C06", functions=FN, fallback="trees with at most 3 internal nodes", max_paths=20000, fork_ms=20)
def guards(H):
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    if H.proof:
        T = AnyTree(H, lambda i: GhostSplit(True))
        x = T.nodes[H.index("t", T.n)]
    else:
        nodes = ghost_nodes(H, shape_of(H, 3 if not H.concrete else 5), flags=True)
        x = nodes[H.pick("node", len(nodes))]
    leaf = node.LeafNode(x.split, depth=x.depth)
    d = node.DecisionNode(x.split, node.LeafNode(GhostSplit(True)), node.LeafNode(GhostSplit(True)))
    bad_grow, g = H.raises(TypeError, lambda: mut.GrowMutation(x, d))
    H.ensures("grow only from a leaf", bad_grow == (not is_leaf(H, x)))
    prunable = is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)
    bad_prune, q = H.raises(TypeError, lambda: mut.PruneMutation(x, leaf))
    H.ensures("prune only a decision node with two leaf children", bad_prune == (not prunable))
    if g is not None:
        H.ensures("grow mutation carries its nodes", H.and_(g.kind == "grow", g.existing_node is x, g.updated_node is d))
    if q is not None:
        H.ensures("prune mutation carries its nodes", H.and_(q.kind == "prune", q.existing_node is x, q.updated_node is leaf))


@contract("C06", modes="c", functions=FN)
def histories(H):
    """long random histories: the node list always is the set of nodes reachable from the root, depths follow the links"""
    import history

    def after(s, m):
        parents = {}
        for x in s.tree.nodes:
            for ch in (x.left_child, x.right_child):
                if ch is not None:
                    H.ensures("one parent", id(ch) not in parents)
                    parents[id(ch)] = x
                    H.ensures("depth one more than the parent's", ch.depth == x.depth + 1)
        roots = [x for x in s.tree.nodes if id(x) not in parents]
        H.ensures("one root", len(roots) == 1 and roots[0].depth == 0)
        reach, todo = [], [roots[0]]
        while todo:
            x = todo.pop()
            reach.append(x)
            if is_decision(H, x):
                todo += [x.left_child, x.right_child]
            else:
                H.ensures("leaves have no children", x.left_child is None and x.right_child is None)
        H.ensures("node list = reachable nodes", same_set(reach, s.tree.nodes))
        H.ensures("mutation applied", any(m.updated_node is x for x in s.tree.nodes) and not any(m.existing_node is x for x in s.tree.nodes))
    history.random_tree(H, steps=14, after=after)
    H.checked.append("structure")
