"""C13 tree-prior and proposal ratios of a grow and its prune cancel"""
from pyvc.api import contract
from common import *
from C01 import SPLIT
from C05 import leaf, any_leaf, the_loop, distinct, FN as COLUMNS, B

MOD = "bartpy.samplers.unconstrainedtree.likihoodratio"
CLS = MOD + ".UniformTreeMutationLikihoodRatio"
PROB = tuple(MOD + "." + f for f in ("log_probability_split_within_tree", "log_probability_split_within_node", "log_probability_node_split", "log_probability_node_not_split",
                                     "n_prunable_decision_nodes", "n_splittable_leaf_nodes", "n_prunable_decision_nodes_after_grow", "n_splittable_leaf_nodes_after_prune"))
FN = tuple(CLS + "." + f for f in ("log_transition_ratio", "log_tree_ratio", "log_grow_transition_ratio", "log_prune_transition_ratio", "log_tree_ratio_grow", "log_tree_ratio_prune")) + PROB
RULE = SPLIT + ("bartpy.data.CovariateMatrix.proportion_of_value_in_variable", "bartpy.data.CovariateMatrix.is_column_unique", "bartpy.data.CovariateMatrix.n_splittable_variables",
                "bartpy.data.CovariateMatrix.splittable_variables", "bartpy.data.is_not_constant", "bartpy.node.DecisionNode.most_recent_split_condition")
TREE = ("bartpy.tree.Tree.splittable_leaf_nodes", "bartpy.tree.Tree.prunable_decision_nodes", "bartpy.tree.mutate")


def prior_model(H):
    a, b = H.real("alpha", 0, 1, lo_open=True, hi_open=True), H.real("beta", 0, 5 if H.concrete else None)
    return H.mod("bartpy.model").Model(None, None, trees=[], alpha=a, beta=b), a, b


def prior(H, a, b, d):
    """log prior of splitting a leaf at depth d into two leaves"""
    return H.log(a * H.pow(1 + d, -b)) + 2 * H.log(1 - a * H.pow(2 + d, -b)) - H.log(1 - a * H.pow(1 + d, -b))


def real_leaf(H):
    """a leaf, split on a value observed in it"""
    n, p, X, node, X0, m0 = any_leaf(H, unique=True) if H.proof else leaf(H)
    node.depth = H.int_("depth", 0)
    sel = lambda r: H.not_(H.at(m0, r))
    v = H.index("v", p) if H.proof else H.pick("v", p)
    r0, r1 = H.index("r0", n), H.index("r1", n)
    H.requires(H.and_(sel(r0), sel(r1)))
    s = H.at(X0, r0, v)
    H.requires(H.at(X0, r1, v) > s)
    if H.flag("asked_before"):
        node.data.X.is_column_unique(v)
    m = H.len(node.data.X.splittable_variables())
    cnt, eq = H.count(n, sel), H.count(n, lambda r: H.and_(sel(r), H.exact(H.at(X0, r, v), s)))
    H.lemma(cnt, at=[r0])
    H.lemma(eq, at=[r0])
    rule = (-H.log(cnt) if bool(eq == 1) else H.log(eq) - H.log(cnt)) - H.log(m)
    return node, split(H, node, v, s), rule


@contract("C13", modes="p", functions=COLUMNS)
def loop_over_the_columns(H):
    """used by the others (from C05)"""
    the_loop(H)


@contract("C13", functions=FN + RULE, fallback=B, fork_ms=40, lemma="loop_over_the_columns", proof_shard=[("unique_hints", 2), ("hints", 2)])
def prior_ratio_of_a_grow(H):
    mut, nd = H.mod("bartpy.mutation"), H.mod("bartpy.node")
    node, dn, rule = real_leaf(H)
    model, a, b = prior_model(H)
    lr = H.mod(MOD).UniformTreeMutationLikihoodRatio()
    want = prior(H, a, b, node.depth) + rule
    H.ensures("grow", H.eq(lr.log_tree_ratio(model, Ghost(), mut.GrowMutation(node, dn)), want))
    H.ensures("prune", H.eq(lr.log_tree_ratio(model, Ghost(), mut.PruneMutation(dn, nd.LeafNode(dn.split, depth=dn.depth))), -want))


class CountX(GhostX):
    """covariates known by how many variables are splittable and by the share of a value"""

    def __init__(self, flag, m, share):
        GhostX.__init__(self, flag)
        self.m, self.share = m, share

    def splittable_variables(self):
        raise_skip("which variables are splittable")

    @property
    def n_splittable_variables(self):
        return self.m

    def proportion_of_value_in_variable(self, variable, value):
        return self.share(variable, value)


def raise_skip(what):
    from pyvc.api import Skip
    raise Skip(what)


def rule_split(H, parent_split, v, s, right, flag):
    """the split of a child: the parent's plus the rule"""
    g = GhostSplit(flag)
    cond = conditions(H, v, s)[1 if right else 0]
    g.most_recent_split_condition = lambda: cond
    return g


def scene(H, kmax):
    """a tree of opaque nodes and one grow of it"""
    node, tree_mod, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    ss = shapes_upto(kmax)
    nodes = ghost_nodes(H, ss[H.pick("shape", len(ss))], depth=0)
    tree = tree_mod.Tree(reorder(H, nodes))
    ls = [x for x in nodes if is_leaf(H, x) and x.data.X.flag]
    if not ls:
        raise_skip("nothing to grow")
    l = ls[H.pick("leaf", len(ls))]
    m, v, s = H.int_("n_vars", 1, 9 if H.concrete else None), H.int_("v", 0, 5 if H.concrete else None), H.real("s")
    share = H.real("share", 0, 1, lo_open=True)
    seen = []

    def share_of(variable, value):
        seen.append(H.and_(H.exact(variable, v), H.exact(value, s)))
        return share
    l.split.data.X = CountX(True, m, share_of)
    fl, fr = H.flag("left_splittable"), H.flag("right_splittable")
    d = node.DecisionNode(l.split, node.LeafNode(rule_split(H, l.split, v, s, False, fl), depth=l.depth + 1),
                          node.LeafNode(rule_split(H, l.split, v, s, True, fr), depth=l.depth + 1), depth=l.depth)
    return nodes, tree, l, d, H.log(share) - H.log(m), (v, s), seen


def n_splittable(H, nodes):
    return len([x for x in nodes if is_leaf(H, x) and x.data.X.flag])


def n_prunable(H, nodes):
    return len([x for x in nodes if is_decision(H, x) and is_leaf(H, x.left_child) and is_leaf(H, x.right_child)])


SH = "trees with at most 2 internal nodes before the grow; any counts, shares, depths, probabilities"


@contract("C13", functions=FN + TREE, bound=SH, max_paths=20000)
def transition_ratio_of_a_grow(H):
    tree_mod, mut, nd = H.mod("bartpy.tree"), H.mod("bartpy.mutation"), H.mod("bartpy.node")
    nodes, tree, l, d, rule, vs, seen = scene(H, 2 if not H.concrete else 4)
    pg, pp = H.real("p_grow", 0, 1, lo_open=True, hi_open=True), H.real("p_prune", 0, 1, lo_open=True, hi_open=True)
    lr = H.mod(MOD).UniformTreeMutationLikihoodRatio([pg, pp])
    g = mut.GrowMutation(l, d)
    got = lr.log_transition_ratio(tree, g)
    leaves_before = n_splittable(H, nodes)
    order = list(tree.nodes)
    H.ensures("evaluating leaves the tree alone", same_set(order, nodes) and l.split is d.split)
    tree_mod.mutate(tree, g)
    prunable_after = n_prunable(H, tree.nodes)
    want = H.log(pp) - H.log(prunable_after) - (H.log(pg) - H.log(leaves_before) + rule)
    H.ensures("the chosen rule is the one evaluated", H.and_(True, *seen))
    H.ensures("grow", H.eq(got, want))
    back = lr.log_transition_ratio(tree, mut.PruneMutation(d, nd.LeafNode(d.split, depth=d.depth)))
    H.ensures("the prune that undoes it is the negative", H.eq(back, -want))


@contract("C13", functions=FN, bound="trees with at most 1 internal node; any depth, alpha, beta, share", max_paths=20000)
def prior_ratio_cancels(H):
    mut, nd, tree_mod = H.mod("bartpy.mutation"), H.mod("bartpy.node"), H.mod("bartpy.tree")
    nodes, tree, l, d, rule, vs, seen = scene(H, 1)
    model, a, b = prior_model(H)
    lr = H.mod(MOD).UniformTreeMutationLikihoodRatio()
    g = mut.GrowMutation(l, d)
    got = lr.log_tree_ratio(model, tree, g)
    want = prior(H, a, b, l.depth) + rule
    H.ensures("grow", H.eq(got, want))
    tree_mod.mutate(tree, g)
    back = lr.log_tree_ratio(model, tree, mut.PruneMutation(d, nd.LeafNode(d.split, depth=d.depth)))
    H.ensures("the prune that undoes it is the negative", H.eq(back, -want))


@contract("C13", functions=RULE, fallback=B, shard=[("p_minus_1", 2), ("parent_asked", 2), ("left", 2)], fork_ms=40,
          proof_shard=[("unique_hints", 2), ("parent_asked", 2), ("left", 2)])
def rule_probability(H):
    """the share of a value among the observations of the node, whatever was cached before and on the parent"""
    n, p, X, node, X0, m0 = any_leaf(H, unique=True, hints=False) if H.proof else leaf(H)
    sel = lambda r: H.not_(H.at(m0, r))
    v, r0 = H.index("v", p) if H.proof else H.pick("v", p), H.index("r0", n)
    if H.flag("parent_asked"):
        node.data.X.is_column_unique(v)
    s = H.real("s")
    dn = split(H, node, v, s)
    child = dn.left_child if H.flag("left") else dn.right_child
    inn = lambda r: H.and_(sel(r), (H.at(X0, r, v) <= s) if child is dn.left_child else (H.at(X0, r, v) > s))
    H.requires(inn(r0))
    val = H.at(X0, r0, v)
    cnt, eq = H.count(n, inn), H.count(n, lambda r: H.and_(inn(r), H.exact(H.at(X0, r, v), val)))
    H.lemma(cnt, at=[r0])
    H.lemma(eq, at=[r0])
    H.lemma(child.data.X.n_obsv, at=[r0])
    H.requires(cnt > 0)
    got = child.data.X.proportion_of_value_in_variable(v, val)
    H.ensures("share of the observations equal to the value", H.eq(got * cnt, eq))
    again = child.data.X.proportion_of_value_in_variable(v, val)
    H.ensures("asking again", H.eq(again, got))
    H.ensures("between 0 and 1", H.and_(got > 0, got <= 1))


@contract("C13", modes="p", functions=RULE, fork_ms=40)
def hints_passed_on_are_right(H):
    """a column is only said to hold distinct values, in a node or a child of it, if it does"""
    n, p, X, node, X0, m0 = any_leaf(H, unique=True, hints=False)
    v, w, s = H.index("v", p), H.index("w", p), H.real("s")
    if H.flag("parent_asked"):
        node.data.X.is_column_unique(v)
    inn = lambda r: H.not_(H.at(m0, r))
    if H.flag("child"):
        dn, left = split(H, node, w, s), H.flag("left")
        node = dn.left_child if left else dn.right_child
        inn = lambda r: H.and_(H.not_(H.at(m0, r)), (H.at(X0, r, w) <= s) if left else (H.at(X0, r, w) > s))
    H.requires(node.data.X.is_column_unique(v))
    a, b = H.index("a", n), H.index("b", n)
    H.requires(H.and_(inn(a), inn(b), H.not_(H.exact(a, b))))
    H.ensures("distinct values", H.not_(H.exact(H.at(X0, a, v), H.at(X0, b, v))))


@contract("C13", modes="c", functions=FN + RULE + TREE)
def histories(H):
    """random trees on data with ties: every grow and the prune that undoes it"""
    import history
    np, mut, nd, tree_mod = H.np, H.mod("bartpy.mutation"), H.mod("bartpy.node"), H.mod("bartpy.tree")
    s = history.random_tree(H, steps=7)
    model, a, b = prior_model(H)
    pg = H.real("p_grow", 0.05, 0.95)
    lr = H.mod(MOD).UniformTreeMutationLikihoodRatio([pg, 1 - pg])

    def splittable(leaf):
        rows = s.X[~leaf.data.mask]
        return [v for v in range(s.X.shape[1]) if len(set(rows[:, v].tolist())) > 1]
    ls = [l for l in s.tree.nodes if is_leaf(H, l) and splittable(l)]
    H.requires(len(ls) > 0)
    l = H.rng.choice(ls)
    rows = s.X[~l.data.mask]
    v = H.rng.choice(splittable(l))
    val = H.rng.choice([x for x in rows[:, v] if x < rows[:, v].max()])
    d = split(H, l, v, val)
    rule = np.log(np.mean(rows[:, v] == val) / len(splittable(l)))
    n_sp = len(ls)
    g = mut.GrowMutation(l, d)
    t1, q1 = lr.log_transition_ratio(s.tree, g), lr.log_tree_ratio(model, s.tree, g)
    tree_mod.mutate(s.tree, g)
    pr = mut.PruneMutation(d, nd.LeafNode(d.split, depth=d.depth))
    t2, q2 = lr.log_transition_ratio(s.tree, pr), lr.log_tree_ratio(model, s.tree, pr)
    want_t = np.log(1 - pg) - np.log(n_prunable(H, s.tree.nodes)) - (np.log(pg) - np.log(n_sp) + rule)
    want_q = prior(H, a, b, l.depth) + rule
    H.ensures("grow transition", H.eq(t1, want_t))
    H.ensures("grow prior", H.eq(q1, want_q))
    H.ensures("prune transition", H.eq(t2, -want_t))
    H.ensures("prune prior", H.eq(q2, -want_q))
