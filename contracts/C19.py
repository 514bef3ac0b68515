"""C19 proposals are valid, local and do not touch the tree"""
from pyvc.api import contract
from common import *
from C05 import leaf as leaf_with, any_leaf, the_loop, varies, DRAW, FN as COLUMNS
from C06 import snap
from C11 import unchanged
from C23 import Draws

P = "bartpy.samplers.unconstrainedtree.proposer."
GROW = DRAW + tuple(P + f for f in ("uniformly_sample_grow_mutation", "random_splittable_leaf_node", "sample_split_condition", "sample_split_node")) + ("bartpy.mutation.GrowMutation.__init__",)
PRUNE = tuple(P + f for f in ("uniformly_sample_prune_mutation", "random_prunable_decision_node")) + ("bartpy.mutation.PruneMutation.__init__", "bartpy.tree.Tree.prunable_decision_nodes")
PROP = (P + "UniformMutationProposer.__init__", P + "UniformMutationProposer.propose")


def public(H, name):
    m = H.mod("bartpy.samplers.unconstrainedtree.proposer")
    if not hasattr(m, name):
        H.unsupported("no " + name)
    return getattr(m, name)


def data_of(H, nodes, r, p):
    vs = range(p) if isinstance(p, int) else [H.index("kcol", p)]
    return [(x, H.at(x.data.mask, r), H.at(x.data.y.values, r), [(v, H.at(x.data.X.values, r, v)) for v in vs]) for x in nodes]


def data_kept(H, before, r):
    for x, m, yv, xs in before:
        H.ensures("data of the tree untouched", H.and_(H.iff(H.at(x.data.mask, r), m), H.eq(H.at(x.data.y.values, r), yv), *[H.eq(H.at(x.data.X.values, r, v), was) for v, was in xs]))


def check_grow(H, m, nodes, n, p, X0, sel):
    """m splits a leaf of the tree whose rows are sel, one level deeper, with rows on both sides"""
    node = H.mod("bartpy.node")
    old, new = m.existing_node, m.updated_node
    H.ensures("a grow", m.kind == "grow" and is_leaf(H, old) and is_decision(H, new))
    H.ensures("of a leaf of the tree", any(old is x for x in nodes))
    l, r = new.left_child, new.right_child
    H.ensures("one level deeper, same depth for the new decision node", new.depth == old.depth and l.depth == old.depth + 1 and r.depth == old.depth + 1)
    H.ensures("into two new leaves", is_leaf(H, l) and is_leaf(H, r) and l is not r and not any(l is x or r is x for x in nodes))
    cl, cr = l.split.most_recent_split_condition(), r.split.most_recent_split_condition()
    v, s = cl.splitting_variable, cl.splitting_value
    H.ensures("one rule for both sides", H.and_(H.exact(v, cr.splitting_variable), H.eq(s, cr.splitting_value), cl.operator is le_gt()[0], cr.operator is le_gt()[1]))
    H.ensures("an existing variable", H.and_(v >= 0, v < p))
    rows = sel(old)
    k = H.index("row", n)
    H.ensures("left rows", H.iff(inside(H, l, k), H.and_(rows(k), H.at(X0, k, v) <= s)))
    H.ensures("right rows", H.iff(inside(H, r, k), H.and_(rows(k), H.at(X0, k, v) > s)))
    H.ensures("observations on the left", H.exists(n, lambda q: H.and_(rows(q), H.at(X0, q, v) <= s)))
    H.ensures("observations on the right", H.exists(n, lambda q: H.and_(rows(q), H.at(X0, q, v) > s)))
    H.ensures("the decision node keeps the rows of the leaf", H.iff(inside(H, new, k), rows(k)))


@contract("C19", modes="p", functions=COLUMNS)
def loop_over_the_columns(H):
    """used by grow_proposal (from C05)"""
    the_loop(H)


@contract("C19", functions=GROW, fallback="a tree of one leaf, at most 2 columns; any rows, any subset of them", shard=[("p_minus_1", 2), ("asked_before", 2)],
          proof_shard=[("hints", 2), ("asked_before", 2)], lemma="loop_over_the_columns", fork_ms=40)
def grow_proposal(H):
    errors = H.mod("bartpy.errors")
    grow = public(H, "uniformly_sample_grow_mutation")
    n, p, X, node, X0, m0 = any_leaf(H) if H.proof else leaf_with(H)
    node.depth = H.int_("depth", 0) if H.proof else H.int_("depth", 0, 3)
    tree = H.mod("bartpy.tree").Tree([node])
    sel = lambda r: H.not_(H.at(m0, r))
    if H.flag("asked_before"):
        node.is_splittable()
    before, order = snap(H, [node]), list(tree.nodes)
    k = H.index("krow", n)
    kept = data_of(H, [node], k, p)
    raised, m = H.raises(errors.NoSplittableVariableException, lambda: grow(tree))
    unchanged(H, before, tree, order)
    data_kept(H, kept, k)
    if raised:
        a, b, v = H.index("a", n), H.index("b", n), H.index("v", p)
        H.ensures("refused only if all rows are equal", H.implies(H.and_(sel(a), sel(b)), H.exact(H.at(X0, a, v), H.at(X0, b, v))))
    else:
        H.ensures("the leaf has two distinct rows", H.exists(p, lambda v: varies(H, n, lambda r: H.at(X0, r, v), sel)))
        check_grow(H, m, [node], n, p, X0, lambda x: sel)


@contract("C19", functions=GROW, bound="a tree of two leaves, one column; any rows", sizes={"n": 3}, max_paths=20000, shard=[("order", 3)])
def grow_proposal_among_leaves(H):
    errors = H.mod("bartpy.errors")
    grow = public(H, "uniformly_sample_grow_mutation")
    n = H.size("n", 1, small=3)
    X, y = H.matrix("X", n, 1, finite=True), H.reals("y", n)
    X0 = H.copy(X)
    tree, leaves = real_tree(H, X, y, n, 1, (None, None), values=False)
    tree = H.mod("bartpy.tree").Tree(reorder(H, tree.nodes))
    nodes = list(tree.nodes)
    rows = {id(l): (lambda r, path=path: satisfies(H, lambda v: H.at(X0, r, v), path)) for l, path, _ in leaves}
    before, order = snap(H, nodes), list(nodes)
    raised, m = H.raises(errors.NoSplittableVariableException, lambda: grow(tree))
    unchanged(H, before, tree, order)
    if raised:
        a, b = H.index("a", n), H.index("b", n)
        for l, path, _ in leaves:
            H.ensures("refused only if all leaves have equal rows", H.implies(H.and_(rows[id(l)](a), rows[id(l)](b)), H.exact(H.at(X0, a, 0), H.at(X0, b, 0))))
    else:
        check_grow(H, m, nodes, n, 1, X0, lambda x: rows[id(x)])


def any_choice(H):
    """a node chosen among any number"""
    errors, tree_mod = H.mod("bartpy.errors"), H.mod("bartpy.tree")
    flags = H.bools("splittable", H.size("nodes", 1))
    T = AnyTree(H, lambda i: GhostSplit(H.at(flags, i)), n=flags.n)
    tree = tree_mod.Tree(T.list)
    if H.flag("leaf"):
        f, exc = public(H, "random_splittable_leaf_node"), errors.NoSplittableVariableException
        valid = lambda x: is_leaf(H, x) and bool(x.split.data.X.flag)
    else:
        f, exc = public(H, "random_prunable_decision_node"), errors.NoPrunableNodeException
        valid = lambda x: is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)
    raised, x = H.raises(exc, lambda: f(tree))
    if raised:
        H.ensures("refused only if there is none", not valid(T.nodes[H.index("some_node", T.n)]))
    else:
        H.ensures("a node of the tree", x in T.nodes)
        H.ensures("a valid one", valid(x))
    H.ensures("tree untouched", T.untouched(tree))


@contract("C19", functions=GROW + PRUNE, fallback="trees with at most 3 internal nodes, every choice of splittable leaves", fork_ms=20)
def only_valid_nodes_are_chosen(H):
    if H.proof:
        return any_choice(H)
    errors, tree_mod = H.mod("bartpy.errors"), H.mod("bartpy.tree")
    ss = shapes_upto(3 if not H.concrete else 5)
    nodes = ghost_nodes(H, ss[H.pick("shape", len(ss))])
    tree = tree_mod.Tree(reorder(H, nodes))
    before, order = snap(H, nodes), list(tree.nodes)
    if H.flag("leaf"):
        f, exc = public(H, "random_splittable_leaf_node"), errors.NoSplittableVariableException
        ok = [x for x in nodes if is_leaf(H, x) and x.split.data.X.flag]
    else:
        f, exc = public(H, "random_prunable_decision_node"), errors.NoPrunableNodeException
        ok = [x for x in nodes if is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)]
    raised, x = H.raises(exc, lambda: f(tree))
    H.ensures("refused exactly if there is none", raised == (len(ok) == 0))
    H.ensures("a valid node of the tree", raised or any(x is q for q in ok))
    unchanged(H, before, tree, order)


def any_prune_proposal(H):
    """a prune of a tree of any number of nodes; a node's rows are those of its split"""
    errors, tree_mod = H.mod("bartpy.errors"), H.mod("bartpy.tree")
    flags = H.bools("splittable", H.size("nodes", 1))
    T = AnyTree(H, lambda i: GhostSplit(H.at(flags, i)), n=flags.n)
    tree = tree_mod.Tree(T.list)
    prunable = lambda x: is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)
    raised, m = H.raises(errors.NoPrunableNodeException, lambda: public(H, "uniformly_sample_prune_mutation")(tree))
    if raised:
        H.ensures("refused only if nothing can be pruned", not prunable(T.nodes[H.index("some_node", T.n)]))
    else:
        old, new = m.existing_node, m.updated_node
        H.ensures("a prune of a decision node with two leaf children", m.kind == "prune" and old in T.nodes and prunable(old))
        H.ensures("by a new leaf at the same depth", is_leaf(H, new) and bool(new.depth == old.depth) and getattr(new, "vc_tree", None) is None)
        if new.split is not old.split:
            H.unsupported("the new leaf has another split")
        H.ensures("holding the same observations", new.split is old.split)
    H.ensures("tree untouched", T.untouched(tree))


@contract("C19", functions=PRUNE, fallback="trees with at most 2 internal nodes; any rows, columns and rules", sizes={"n": 2, "p": 1}, fork_ms=20)
def prune_proposal(H):
    if H.proof:
        return any_prune_proposal(H)
    errors = H.mod("bartpy.errors")
    prune = public(H, "uniformly_sample_prune_mutation")
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    ss = shapes_upto(2 if not H.concrete else 4)
    tree, leaves = real_tree(H, X, y, n, p, ss[H.pick("shape", len(ss))])
    tree = H.mod("bartpy.tree").Tree(reorder(H, tree.nodes))
    nodes = list(tree.nodes)
    before, order = snap(H, nodes), list(nodes)
    ok = [x for x in nodes if is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)]
    r = H.index("r", n)
    was = [(x, inside(H, x, r)) for x in nodes]
    raised, m = H.raises(errors.NoPrunableNodeException, lambda: prune(tree))
    unchanged(H, before, tree, order)
    for x, w in was:
        H.ensures("rows of the tree's nodes untouched", H.iff(inside(H, x, r), w))
    H.ensures("refused exactly if nothing can be pruned", raised == (len(ok) == 0))
    if not raised:
        old, new = m.existing_node, m.updated_node
        H.ensures("a prune of a decision node with two leaf children", m.kind == "prune" and any(old is x for x in ok))
        H.ensures("by a new leaf at the same depth", is_leaf(H, new) and new.depth == old.depth and not any(new is x for x in nodes))
        H.ensures("holding the same observations", H.iff(inside(H, new, r), inside(H, old, r)))
        H.ensures("same count", H.eq(new.data.X.n_obsv, old.data.X.n_obsv))
        H.ensures("same target", H.eq(H.at(new.data.y.values, r), H.at(y, r)))


class Methods(object):
    """two ways to propose, each possible or not"""

    def __init__(self, H, possible):
        self.H, self.possible, self.calls = H, possible, []
        errors = H.mod("bartpy.errors")
        self.results = [Ghost(), Ghost()]

        def grow(tree):
            self.calls.append((0, tree))
            if not possible[0]:
                raise errors.NoSplittableVariableException()
            return self.results[0]

        def prune(tree):
            self.calls.append((1, tree))
            if not possible[1]:
                raise errors.NoPrunableNodeException()
            return self.results[1]
        self.grow, self.prune = grow, prune


@contract("C19", functions=PROP, bound="at most 3 impossible proposals in a row; any probabilities", max_paths=20000)
def the_other_kind_if_one_is_impossible(H):
    pm = H.mod("bartpy.samplers.unconstrainedtree.proposer")
    g = Draws(H)
    which = H.pick("possible", 3)
    possible = [which != 1, which != 2]
    k = H.pick("tries", 4)
    first = H.pick("first", 2)
    # whichever end the store is used up from: k draws of the first kind, then a possible kind
    then = 1 - first if possible[1 - first] else first
    g.picks = lambda b, i, c: first if (i < k or i >= 1000 - k) else then
    H.patch_random(g)
    me = Methods(H, possible)
    a = H.real("p_grow", 0, 1, lo_open=True, hi_open=True)
    prop = pm.UniformMutationProposer(prob_method_lookup={me.grow: a, me.prune: 1 - a})
    tree = Ghost()
    out = prop.propose(tree)
    if not g.batches:
        H.unsupported("no draws seen")
    H.ensures("a proposal of a possible kind", (out is me.results[0] and possible[0]) or (out is me.results[1] and possible[1]))
    H.ensures("made for this tree", len(me.calls) > 0 and all(t is tree for _, t in me.calls))
    H.ensures("no further proposals after the first possible one", all(not possible[q] for q, _ in me.calls[:-1]) and out is me.results[me.calls[-1][0]])
    if possible[0] and possible[1]:
        H.ensures("the kind that was drawn", out is me.results[first if k > 0 else then])


@contract("C19", modes="c", functions=PROP, conc_s=2)
def impossible_draws_in_long_runs(H):
    pm = H.mod("bartpy.samplers.unconstrainedtree.proposer")
    H.np.random.seed(H.rng.randrange(2 ** 31))
    which = H.rng.randrange(2)
    me = Methods(H, [which == 0, which == 1])
    a = H.rng.choice([0.0005, 0.01, 0.3])
    if H.rng.random() < 0.5:
        # the possible kind is the rare one
        lookup = {me.grow: a, me.prune: 1 - a} if which == 0 else {me.grow: 1 - a, me.prune: a}
    else:
        lookup = {me.grow: 0.5, me.prune: 0.5}
    prop = pm.UniformMutationProposer(prob_method_lookup=lookup)
    tree = Ghost()
    for _ in range(3):
        H.ensures("the possible kind", prop.propose(tree) is me.results[which])


@contract("C19", functions=PROP + PRUNE + GROW, bound="a tree of two splittable leaves; any probabilities")
def kinds_are_drawn_with_their_probabilities(H):
    pm = H.mod("bartpy.samplers.unconstrainedtree.proposer")
    g = Draws(H)
    k = H.pick("kind", 2)
    g.picks = lambda b, i, c: k if b == 0 else 0
    H.patch_random(g)
    a = H.real("p_grow", 0, 1, lo_open=True, hi_open=True)
    given = H.flag("given")
    prop = pm.UniformMutationProposer([a, 1 - a]) if given else pm.UniformMutationProposer()
    X, y = H.array([[0.0], [1.0], [2.0], [3.0]]), H.array([0.0, 1.0, 2.0, 3.0])
    leaf = leaf_node(H, X, y)
    dn = split(H, leaf, 0, 1.0)
    tree = H.mod("bartpy.tree").Tree([dn, dn.left_child, dn.right_child])
    m = prop.propose(tree)
    if not g.batches or g.batches[0][0] != "choice" or len(g.batches[0][2]) != 2:
        H.unsupported("kind not drawn in one choice of two")
    p = g.batches[0][4]
    H.requires(p is not None)
    want = (a if given else 0.5) if m.kind == "grow" else (1 - a if given else 0.5)
    H.ensures("probability of the drawn kind", H.eq(p[k], want))
    H.ensures("both kinds can be drawn", m.kind in ("grow", "prune"))


@contract("C19", modes="c", functions=GROW + PRUNE + PROP, conc_s=8)
def proposals_on_histories(H):
    """the real proposer on trees with a random history"""
    import history
    np = H.np
    np.random.seed(H.rng.randrange(2 ** 31))
    s = history.random_tree(H, steps=H.rng.choice([0, 3, 8]))
    prop = H.mod("bartpy.samplers.unconstrainedtree.proposer").UniformMutationProposer([0.5, 0.5])
    splittable = lambda x: len(set(map(tuple, s.X[~x.data.mask]))) > 1
    leaves = [x for x in s.tree.nodes if is_leaf(H, x)]
    can_prune = any(is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child) for x in s.tree.nodes)
    H.requires(can_prune or any(splittable(x) for x in leaves))
    kinds = set()
    for _ in range(12):
        before, order = snap(H, s.tree.nodes), list(s.tree.nodes)
        masks = [x.data.mask.copy() for x in order]
        m = prop.propose(s.tree)
        kinds.add(m.kind)
        unchanged(H, before, s.tree, order)
        H.ensures("rows of the tree untouched", all(bool(np.array_equal(a, x.data.mask)) for a, x in zip(masks, order)))
        if m.kind == "grow":
            l, r = m.updated_node.left_child, m.updated_node.right_child
            c = l.split.most_recent_split_condition()
            rows = ~m.existing_node.data.mask
            H.ensures("a splittable leaf of the tree", any(m.existing_node is x for x in leaves) and splittable(m.existing_node))
            col = s.X[:, c.splitting_variable]
            H.ensures("children by the rule", bool(np.array_equal(~l.data.mask, rows & (col <= c.splitting_value)) and np.array_equal(~r.data.mask, rows & (col > c.splitting_value))))
            H.ensures("both sides populated", bool((~l.data.mask).any() and (~r.data.mask).any()))
            H.ensures("depth", l.depth == r.depth == m.existing_node.depth + 1 and m.updated_node.depth == m.existing_node.depth)
        else:
            d = m.existing_node
            H.ensures("a prunable node of the tree", any(d is x for x in order) and is_leaf(H, d.left_child) and is_leaf(H, d.right_child))
            H.ensures("replaced by a leaf with its rows and depth", is_leaf(H, m.updated_node) and bool(np.array_equal(m.updated_node.data.mask, d.data.mask)) and m.updated_node.depth == d.depth)
    if not can_prune:
        H.ensures("only grows possible", kinds == {"grow"})
    if not any(splittable(x) for x in leaves):
        H.ensures("only prunes possible", kinds == {"prune"})
