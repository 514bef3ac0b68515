"""Shared builders for contracts: they only use the public constructors of bartpy."""


def le_gt():
    import operator
    return operator.le, operator.gt


def leaf_node(H, X, y, mask=None, depth=0, value=0.0):
    data, split, node = H.mod("bartpy.data"), H.mod("bartpy.split"), H.mod("bartpy.node")
    d = data.Data(X, y, mask=mask) if mask is not None else data.Data(X, y)
    return node.LeafNode(split.Split(d), depth=depth, value=value)


def conditions(H, v, s):
    sc = H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    return sc.SplitCondition(v, s, le), sc.SplitCondition(v, s, gt)


def split(H, node, v, s):
    return H.mod("bartpy.node").split_node(node, conditions(H, v, s))


def inside(H, node, r):
    """training row r belongs to the node"""
    return H.not_(H.at(node.data.mask, r))


def arbitrary_leaf(H, tag="", depth=0, with_mask=True):
    """a leaf holding an arbitrary subset of an arbitrary training set"""
    n = H.size("n" + tag, 1, small=3)
    p = H.size("p" + tag, 1, small=2)
    X = H.matrix("X" + tag, n, p)
    y = H.reals("y" + tag, n)
    mask = H.bools("mask" + tag, n) if with_mask else None
    return n, p, X, y, mask, leaf_node(H, X, y, mask, depth)


def argext(H, name, n, f, is_max):
    """an index at which f is extremal"""
    if H.concrete:
        return (max if is_max else min)(range(n), key=lambda k: float(f(k)))
    i = H.index(name, n)
    H.requires_forall(n, (lambda k: f(k) <= f(i)) if is_max else (lambda k: f(k) >= f(i)))
    return i


def chain(H, node, p, depth, tag=""):
    """split `depth` times, each time following the left or the right child; returns (node, [(v, s, is_left)])"""
    path = []
    for d in range(depth):
        v, s = H.index("v%s%d" % (tag, d), p), split_value(H, node, "s%s%d" % (tag, d))
        left = H.flag("left%s%d" % (tag, d))
        dn = split(H, node, v, s)
        node = dn.left_child if left else dn.right_child
        path.append((v, s, left))
    return node, path


def split_value(H, node, name):
    return H.real(name)


def satisfies(H, row, path):
    """row: function column -> value"""
    return H.and_(True, *[(row(v) <= s) if left else (row(v) > s) for (v, s, left) in path])


# ---- tree shapes
def shapes(k):
    """binary tree shapes with exactly k internal nodes: None = leaf, (l, r) = internal"""
    if k == 0:
        return [None]
    out = []
    for i in range(k):
        for l in shapes(i):
            for r in shapes(k - 1 - i):
                out.append((l, r))
    return out


def shapes_upto(k):
    return [s for i in range(k + 1) for s in shapes(i)]


class Ghost(object):
    """an object known only by the part of its interface the contract talks about; code that needs more is out of reach of the contract"""

    def __getattr__(self, k):
        if k.startswith(("__", "vc_", "_vc")):
            raise AttributeError(k)
        from pyvc.api import Skip
        raise Skip("ghost object has no " + k)


class GhostX(Ghost):
    """stands for the covariates of a node where only its splittability matters"""

    def __init__(self, flag):
        self.flag = flag
        self.n_obsv = 3

    def is_at_least_one_splittable_variable(self):
        return self.flag

    def splittable_variables(self):
        return [0] if self.flag else []

    @property
    def n_splittable_variables(self):
        return len(self.splittable_variables())


class GhostData(Ghost):
    def __init__(self, flag):
        self.X = GhostX(flag)


class GhostSplit(Ghost):
    """an opaque Split"""

    def __init__(self, flag):
        self.data = GhostData(flag)


def ghost_nodes(H, shape, depth=0, tag="n", flags=None):
    """nodes of a tree of the given shape, root first; the splits are opaque"""
    node = H.mod("bartpy.node")
    if shape is None:
        f = H.flag("splittable_" + tag) if flags is None else flags
        return [node.LeafNode(GhostSplit(f), depth=depth, value=H.real("value_" + tag))]
    l, r = ghost_nodes(H, shape[0], depth + 1, tag + "l", flags), ghost_nodes(H, shape[1], depth + 1, tag + "r", flags)
    return [node.DecisionNode(GhostSplit(True), l[0], r[0], depth=depth)] + l + r


def same(a, b):
    return a is b


def reorder(H, nodes, name="order"):
    """the node list of a tree is in no particular order"""
    k = H.pick(name, 3)
    if k == 1:
        return list(reversed(nodes))
    if k == 2:
        return nodes[len(nodes) // 2:] + nodes[:len(nodes) // 2]
    return list(nodes)


def kind(x):
    return getattr(type(x), "vc_as", type(x))


def is_leaf(H, x):
    return kind(x) is H.mod("bartpy.node").LeafNode


def is_decision(H, x):
    return kind(x) is H.mod("bartpy.node").DecisionNode


def same_set(xs, ys):
    return sorted(map(id, xs)) == sorted(map(id, ys))


# ---- real trees over real data
class Spec(object):
    """what a tree is supposed to be: leaves with the rows (as a predicate) and values they should have"""
    pass


def real_tree(H, X, y, n, p, shape, tag="", values=True):
    """grow a tree of the given shape by split_node with arbitrary rules; returns Tree, [(leaf, path, value)]"""
    tree_mod = H.mod("bartpy.tree")
    leaves, nodes = [], []

    def build(leaf, shape, path, tag):
        if shape is None:
            if values:
                val = H.real("value" + tag)
                leaf.set_value(val)
            else:
                val = None
            leaves.append([leaf, path, val])
            nodes.append(leaf)
            return leaf
        v, s = H.index("v" + tag, p), H.real("s" + tag)
        dn = split(H, leaf, v, s)
        l = build(dn.left_child, shape[0], path + [(v, s, True)], tag + "l")
        r = build(dn.right_child, shape[1], path + [(v, s, False)], tag + "r")
        dn = H.mod("bartpy.node").DecisionNode(dn.split, l, r, depth=dn.depth)
        nodes.append(dn)
        return dn
    root = build(leaf_node(H, X, y), shape, [], tag)
    return tree_mod.Tree(nodes), leaves


def spec_value(H, leaves, row):
    """the value of the leaf whose path the row satisfies"""
    out = 0.0
    for leaf, path, val in leaves:
        out = H.ite(satisfies(H, row, path), val, out)
    return out


# ---- rules of any length
class Rule(object):
    """conditions in a list of any length: (variable, value, goes left) of the i-th, the last one possibly apart"""

    def __init__(self, H, K, v, s, left, extra=None):
        self.H, self.K, self.extra = H, K, extra
        self.v, self.s, self.left = v, s, left
        self.n = K if extra is None else K + 1

    def holds(self, i, value):
        """condition i holds for a row whose value of variable v is value(v)"""
        H = self.H
        if self.extra is not None:
            ev, es, el = self.extra
            e = value(ev) <= es if el else value(ev) > es
            if isinstance(i, int) and i == self.K:
                return e
        c = H.iff(self.left(i), value(self.v(i)) <= self.s(i))
        return c if self.extra is None else H.ite(i < self.K, c, e)

    def var(self, i):
        return self.v(i) if self.extra is None else self.H.ite(i < self.K, self.v(i), self.extra[0])


def any_rule(H, p, extra=None):
    """-> (rule, the conditions): a list of any number of conditions on p variables"""
    sc = H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    K = H.size("conditions", 0, small=3)
    vs, left, s = H.counts("v", K, 0), H.bools("left", K), H.reals("s", K)
    if H.concrete:
        var = lambda i: vs(i) % p
    else:
        H.requires_forall(K, lambda i: vs(i) < p)
        var = vs
    rule = Rule(H, K, var, lambda i: H.at(s, i), lambda i: H.at(left, i), extra)
    conds = H.objects(K, lambda i: sc.SplitCondition(var(i), H.at(s, i), le if H.at(left, i) else gt), values=True)
    return rule, conds


def interval_invariant(H, rule, conds, p, value):
    """the loop that turns conditions into intervals: after k of them, the interval of every variable holds value(v)
    exactly if each of the first k conditions on that variable does"""
    sc = H.mod("bartpy.splitcondition")
    le, gt = le_gt()
    if not H.proof:
        return
    if not hasattr(sc, "CombinedVariableCondition"):
        H.unsupported("rules are represented differently")

    def intervals():
        me = spec.locals.get("self")
        d = getattr(me, "variables", None)
        if d is None:
            H.unsupported("rules are represented differently")
        return me, d

    def interval(d, v):
        if spec.assuming:
            return v, spec.lo(v), spec.hi(v)
        e = d[v]
        return e.splitting_variable, e.min_value, e.max_value

    def within(d, v, x):
        w, lo, hi = interval(d, v)
        return H.and_(x > lo, x <= hi)

    def enter(k):
        me, d = intervals()
        spec.lo, spec.hi = lo, hi = H.fresh_reals(), H.fresh_reals()
        me.variables = H.symdict(p, lambda v: sc.CombinedVariableCondition(v, lo(v), hi(v)), values=True)
        spec.rest, spec.of = {a: x for a, x in me.__dict__.items() if a != "variables"}, me

    def inv(k):
        me, d = intervals()
        if len(spec.seq.tail) > 1:
            H.unsupported("more than one condition added at once")
        now = Rule(H, rule.K, rule.v, rule.s, rule.left, *[(c.splitting_variable, c.splitting_value, c.operator == le) for c in spec.seq.tail])
        rest = spec.rest if getattr(spec, "of", None) is me else None
        same = rest is None or (set(me.__dict__) == set(rest) | {"variables"} and all(me.__dict__[a] is x for a, x in rest.items()))
        return [("nothing else changes", same),
                ("one interval per variable", H.len(d) == p),
                ("each interval is that of its variable", p, lambda v: H.exact(interval(d, v)[0], v)),
                ("the interval of a variable is what the conditions so far leave", p,
                 lambda v: H.iff(within(d, v, value(v)), H.forall(k, lambda i: H.or_(H.not_(H.exact(now.var(i), v)), now.holds(i, value)))))]
    spec = H.loop_invariant(conds, ("__init__",), enter, inv, lambda o: o is spec.locals.get("self") or o is spec.locals["self"].variables)


# ---- trees of any number of nodes (proof mode)
class AnyTree(object):
    """the nodes of an arbitrary tree, in any order: node i is a leaf or has two children, nodes of the same tree. The links live in two maps
    from node to node (`link`), so that a loop that changes them has them as its state; objects outside the tree are reached as -2, -3, ..."""

    def __init__(self, H, split, n=None):
        node = H.mod("bartpy.node")
        self.H = H
        self.n = H.size("nodes", 1) if n is None else n
        kinds, self.values = H.bools("leaf", self.n), H.reals("value", self.n)
        self.leaf = lambda i: H.at(kinds, i)
        self.depth = H.counts("depth", self.n, 0)
        kids = {s: H.counts(s, self.n, 0) for s in ("left", "right")}
        self.start = {s: (lambda i, s=s: H.ite(self.leaf(i), -1, kids[s](i))) for s in kids}
        self.state, self.writes, self.outside = dict(self.start), [], []
        for s in kids:
            H.requires_forall(self.n, lambda i: H.or_(self.leaf(i), H.and_(kids[s](i) < self.n, H.not_(H.exact(kids[s](i), i)))))
        H.requires_forall(self.n, lambda i: H.or_(self.leaf(i), H.not_(H.exact(kids["left"](i), kids["right"](i)))))
        tree = self

        def lazy(cls):
            class Node(cls):
                vc_as = cls
                _left_child = property(lambda me: tree.read("left", me.vc_index), lambda me, x: tree.write("left", me, x))
                _right_child = property(lambda me: tree.read("right", me.vc_index), lambda me, x: tree.write("right", me, x))
                __class__ = property(lambda me: cls)
            return Node
        Leaf, Decision = lazy(node.LeafNode), lazy(node.DecisionNode)
        self.making = False

        def make(i):
            x = (Leaf if self.leaf(i) else Decision).__new__(Leaf if self.leaf(i) else Decision)
            x.vc_index, x.vc_tree = i, self
            H.add_index(i)
            self.making = True
            try:
                if self.leaf(i):
                    x.__init__(split(i), depth=self.depth(i), value=H.at(self.values, i))
                else:
                    x.__init__(split(i), None, None, depth=self.depth(i))
            finally:
                self.making = False
            x.vc_made = dict(x.__dict__)
            return x
        self.nodes = H.objects(self.n, make)
        self.list = self.nodes.copy()       # what the tree is given

    def code(self, side, i):
        """where the link leads now, as a number"""
        H = self.H
        r = self.state[side](i)
        for s, w, c in self.writes:
            if s == side:
                r = H.ite(H.exact(w, i), c, r)
        return r

    def node(self, code):
        H = self.H
        if H.exact(code, -1):
            return None
        for q, x in enumerate(self.outside):
            if H.exact(code, -2 - q):
                return x
        H.c.assume(H.and_(code >= 0, code < self.n))
        return self.nodes[code]

    def read(self, side, i):
        H = self.H
        for s, w, c in reversed(self.writes):
            if s == side and H.exact(w, i):
                return self.node(c)
        return self.node(self.state[side](i))

    def encode(self, x):
        if x is None:
            return -1
        if getattr(x, "vc_tree", None) is self:
            return x.vc_index
        for q, y in enumerate(self.outside):
            if x is y:
                return -2 - q
        self.outside.append(x)
        return -1 - len(self.outside)

    def write(self, side, me, x):
        if not self.making:
            self.writes.append((side, me.vc_index, self.encode(x)))

    def kept(self, x):
        """nothing but the links has changed in node x"""
        now = {k: v for k, v in x.__dict__.items() if k != "vc_made"}
        return set(now) == set(x.vc_made) and all(now[k] is v for k, v in x.vc_made.items())

    def untouched(self, tree):
        """the tree has the same nodes in the same order, and none of them has changed"""
        H, same = self.H, True
        now = tree.nodes
        if now is not self.nodes:
            i = H.index("any_position", self.n)
            same = bool(H.len(now) == self.n) and now[i] is self.nodes[i]
        made = [x for t, x in self.nodes.ctermss.values()]
        return same and not self.writes and all(self.state[s] is self.start[s] for s in self.state) and all(self.kept(x) for x in made)

    def relinked(self, old, new):
        """the loop over the nodes of the tree that turns every link to node number `old` into a link to `new`"""
        H = self.H
        code = self.encode(new)
        after = lambda c: H.ite(H.exact(c, old), code, c)
        self.expected = after

        def enter(k):
            f = {s: H.c.fresh_map() for s in ("left", "right")}
            self.state = f
            self.writes[:] = []

        def inv(k):
            s = spec.seq

            def right(side):
                def at(i):
                    here, q = s.place_of(self.nodes, i)
                    return H.implies(here, H.exact(self.code(side, i), H.ite(q < k, after(self.start[side](i)), self.start[side](i))))
                return at
            return [("links of the nodes passed (%s)" % side, self.n, right(side)) for side in ("left", "right")]
        spec = H.loop_invariant(self.list, ("mutate",), enter, inv, lambda o: o is self.writes)
        return spec
