"""C11 a proposal is applied if and only if the Metropolis-Hastings test accepts"""
from pyvc.api import contract
from common import *
from C06 import snap, any_unchanged
from C09 import Fixed

FN = ("bartpy.samplers.unconstrainedtree.treemutation.UnconstrainedTreeMutationSampler.sample",
      "bartpy.samplers.unconstrainedtree.treemutation.UnconstrainedTreeMutationSampler.step", "bartpy.tree.mutate")
OB = ("bartpy.samplers.oblivioustrees.treemutation.UnconstrainedTreeMutationSampler.sample",
      "bartpy.samplers.oblivioustrees.treemutation.UnconstrainedTreeMutationSampler.step", "bartpy.tree.mutate")
RATIO = ("bartpy.samplers.treemutation.TreeMutationLikihoodRatio.log_probability_ratio",)


class Proposer(Ghost):
    def __init__(self, m):
        self.m, self.calls, self.tree = m, 0, None

    def propose(self, tree):
        self.calls += 1
        self.tree = tree
        return self.m


class Ratio(Ghost):
    def __init__(self, rs):
        self.rs, self.calls = list(rs), []

    def log_probability_ratio(self, model, tree, mutation):
        self.calls.append((model, tree, mutation))
        return self.rs[len(self.calls) - 1]


def unchanged(H, before, tree, order):
    H.ensures("same nodes in the same order", len(order) == len(tree.nodes) and all(a is b for a, b in zip(order, tree.nodes)))
    for x, t, depth, sp, l, r, val in before:
        H.ensures("node untouched", type(x) is t and x.depth == depth and x.split is sp and x.left_child is l and x.right_child is r)
        if val is not None:
            H.ensures("value untouched", H.eq(x.current_value, val))


def proposal(H, k):
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    ss = shapes_upto(k)
    nodes = ghost_nodes(H, ss[H.pick("shape", len(ss))], flags=True)
    tree = tree_mod.Tree(reorder(H, nodes))
    ls = [x for x in nodes if is_leaf(H, x)]
    ds = [x for x in nodes if is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)]
    if ds and H.flag("prune"):
        d = ds[H.pick("decision", len(ds))]
        m = mut.PruneMutation(d, node.LeafNode(d.split, depth=d.depth))
        gone, new = [d, d.left_child, d.right_child], [m.updated_node]
    else:
        l = ls[H.pick("leaf", len(ls))]
        d = node.DecisionNode(l.split, node.LeafNode(GhostSplit(True), depth=l.depth + 1), node.LeafNode(GhostSplit(True), depth=l.depth + 1), depth=l.depth)
        m = mut.GrowMutation(l, d)
        gone, new = [l], [d, d.left_child, d.right_child]
    return nodes, tree, m, gone, new


def any_proposal(H):
    """a tree of any number of nodes and a mutation of it"""
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    T = AnyTree(H, lambda i: GhostSplit(True))
    t = H.index("t", T.n)
    old = T.nodes[t]
    if is_leaf(H, old):
        d = node.DecisionNode(old.split, node.LeafNode(GhostSplit(True), depth=old.depth + 1), node.LeafNode(GhostSplit(True), depth=old.depth + 1), depth=old.depth)
        m, gone, new = mut.GrowMutation(old, d), [old], [d, d.left_child, d.right_child]
    else:
        cl, cr = T.start["left"](t), T.start["right"](t)
        H.add_index(cl)
        H.add_index(cr)
        H.requires(H.and_(T.leaf(cl), T.leaf(cr)))
        leaf = node.LeafNode(old.split, depth=old.depth)
        m, gone, new = mut.PruneMutation(old, leaf), [old, T.nodes[cl], T.nodes[cr]], [leaf]
    T.relinked(t, new[0])
    return T, tree_mod.Tree(T.list), m, gone, new


def any_step(H, only_sample):
    tm = H.mod("bartpy.samplers.unconstrainedtree.treemutation")
    T, tree, m, gone, new = any_proposal(H)
    r, u = H.real("r"), H.real("u", 0, 1, hi_open=True)
    model = Ghost()
    prop, ratio, draw = Proposer(m), Ratio([r]), Fixed([u])
    sampler = tm.UnconstrainedTreeMutationSampler(prop, ratio, draw)
    kept = [dict(x.__dict__) for x in new]
    out = (sampler.sample if only_sample else sampler.step)(model, tree)
    H.ensures("one proposal for this tree, one draw", prop.calls == 1 and prop.tree is tree and draw.used == 1)
    H.ensures("the ratio of that very proposal", len(ratio.calls) == 1 and ratio.calls[0][0] is model and ratio.calls[0][1] is tree and ratio.calls[0][2] is m)
    H.ensures("reported if and only if accepted", H.iff(out is not None, u < H.exp(r)))
    H.ensures("the proposal is what is reported", out is None or out is m)
    H.ensures("the new nodes are as they were", all(x.__dict__ == k for x, k in zip(new, kept)))
    if out is None or only_sample:
        H.ensures("tree untouched", T.untouched(tree))
    else:
        any_unchanged(H, T, tree, gone, new, gone[0], new[0])


@contract("C11", functions=FN, fallback="trees with at most 2 internal nodes; any ratio and draw", max_paths=20000, fork_ms=20)
def applied_iff_accepted(H):
    if H.proof:
        return any_step(H, False)
    tm = H.mod("bartpy.samplers.unconstrainedtree.treemutation")
    nodes, tree, m, gone, new = proposal(H, 2 if not H.concrete else 4)
    r, u = H.real("r", -50, 50) if H.concrete else H.real("r"), H.real("u", 0, 1, hi_open=True)
    model = Ghost()
    prop, ratio, draw = Proposer(m), Ratio([r]), Fixed([u])
    before, order = snap(H, nodes), list(tree.nodes)
    out = tm.UnconstrainedTreeMutationSampler(prop, ratio, draw).step(model, tree)
    H.ensures("one proposal for this tree, one draw", prop.calls == 1 and prop.tree is tree and draw.used == 1)
    H.ensures("the ratio of that very proposal", len(ratio.calls) == 1 and ratio.calls[0][0] is model and ratio.calls[0][1] is tree and ratio.calls[0][2] is m)
    accepts = u < H.exp(r)
    near = H.concrete and H.near_tie(u, H.exp(r))
    if out is not None:
        H.ensures("reported only if accepted", H.or_(accepts, near))
        H.ensures("the proposal is what is reported", out is m)
        H.ensures("applied exactly once", same_set(tree.nodes, [x for x in nodes if not any(x is g for g in gone)] + new))
    else:
        H.ensures("not reported only if rejected", H.or_(H.not_(accepts), near))
        unchanged(H, before, tree, order)


@contract("C11", functions=FN, fallback="trees with at most 1 internal node; any ratio and draw", fork_ms=20)
def sample_reports_without_applying(H):
    if H.proof:
        return any_step(H, True)
    tm = H.mod("bartpy.samplers.unconstrainedtree.treemutation")
    nodes, tree, m, gone, new = proposal(H, 1)
    r, u = H.real("r", -50, 50) if H.concrete else H.real("r"), H.real("u", 0, 1, hi_open=True)
    before, order = snap(H, nodes), list(tree.nodes)
    out = tm.UnconstrainedTreeMutationSampler(Proposer(m), Ratio([r]), Fixed([u])).sample(Ghost(), tree)
    near = H.concrete and H.near_tie(u, H.exp(r))
    H.ensures("accepted iff u < exp(r)", H.or_(near, H.iff(out is not None, u < H.exp(r))))
    H.ensures("reports the proposal", out is None or out is m)
    unchanged(H, before, tree, order)


@contract("C11", functions=OB, bound="one or two simultaneous proposals; any ratios and draw")
def oblivious_applied_iff_accepted(H):
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    tm = H.mod("bartpy.samplers.oblivioustrees.treemutation")
    nodes = ghost_nodes(H, [None, (None, None)][H.pick("shape", 2)], flags=True)
    tree = tree_mod.Tree(list(nodes))
    ms, new = [], []
    ls = [x for x in nodes if is_leaf(H, x)]
    for l in ls:
        d = node.DecisionNode(l.split, node.LeafNode(GhostSplit(True), depth=l.depth + 1), node.LeafNode(GhostSplit(True), depth=l.depth + 1), depth=l.depth)
        ms.append(mut.GrowMutation(l, d))
        new += [d, d.left_child, d.right_child]
    rs = [H.real("r%d" % i, -30, 30) if H.concrete else H.real("r%d" % i) for i in range(len(ms))]
    u = H.real("u", 0, 1, hi_open=True)
    before, order = snap(H, nodes), list(tree.nodes)
    ratio = Ratio(rs)
    out = tm.UnconstrainedTreeMutationSampler(Proposer(ms), ratio, Fixed([u])).step(Ghost(), tree)
    H.assume(H.finite(sum(rs)))
    accepts = u < H.exp(sum(rs))
    near = H.concrete and H.near_tie(u, H.exp(sum(rs)))
    H.ensures("one ratio per proposal", len(ratio.calls) == len(ms) and all(c[2] is m for c, m in zip(ratio.calls, ms)))
    if out is not None:
        H.ensures("reported only if accepted", H.or_(accepts, near))
        H.ensures("the proposals are what is reported", len(out) == len(ms) and all(a is b for a, b in zip(out, ms)))
        H.ensures("every proposal applied exactly once", same_set(tree.nodes, [x for x in nodes if not any(x is l for l in ls)] + new))
    else:
        H.ensures("not reported only if rejected", H.or_(H.not_(accepts), near))
        unchanged(H, before, tree, order)


@contract("C11", functions=RATIO)
def ratio_is_the_sum_of_its_parts(H):
    base = H.mod("bartpy.samplers.treemutation").TreeMutationLikihoodRatio
    a, b, c = H.real("a"), H.real("b"), H.real("c")
    model, tree, m = Ghost(), Ghost(), Ghost()
    seen = []

    class R(base):
        def log_transition_ratio(self, t, mu):
            seen.append(t is tree and mu is m)
            return a

        def log_tree_ratio(self, mo, t, mu):
            seen.append(mo is model and t is tree and mu is m)
            return b

        def log_likihood_ratio(self, mo, t, mu):
            seen.append(mo is model and t is tree and mu is m)
            return c
    out = R().log_probability_ratio(model, tree, m)
    H.ensures("sum of transition, data-fit and prior ratios", H.eq(out, a + b + c))
    H.ensures("each for this model, tree and proposal", len(seen) == 3 and all(seen))
