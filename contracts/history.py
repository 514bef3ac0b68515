"""Random histories on the real code (concrete mode only): used for the whole-history parts of the properties."""


class Sim(object):
    pass


def random_tree(H, steps=8, X=None, y=None, after=None):
    """apply random grow / prune mutations through the public API; after(sim, mutation) is called after each"""
    rng = H.rng
    np = H.np
    node, tree, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    data, split = H.mod("bartpy.data"), H.mod("bartpy.split")
    s = Sim()
    if X is None:
        n, p = H.some(2, 14, 80), rng.randint(1, 3)
        X = np.array([[H._cov() for _ in range(p)] for _ in range(n)], dtype=float).reshape(n, p)
        y = np.array([H._real() for _ in range(n)], dtype=float)
        X, y = X.copy(), y.copy()
    H.inputs["X"], H.inputs["y"] = X.tolist(), y.tolist()
    s.X, s.y = X, y
    s.tree = tree.Tree([node.LeafNode(split.Split(data.Data(X, y)))])
    s.ops = []
    H.inputs["ops"] = s.ops
    for _ in range(H.some(0, steps, 40)):
        m = step(H, s)
        if m is not None and after is not None:
            after(s, m)
    return s


def step(H, s, grow_p=0.65):
    rng = H.rng
    node, tree, mut = H.mod("bartpy.node"), H.mod("bartpy.tree"), H.mod("bartpy.mutation")
    leaves = [x for x in s.tree.nodes if type(x) == node.LeafNode]
    prunable = [x for x in s.tree.nodes if type(x) == node.DecisionNode and type(x.left_child) == node.LeafNode and type(x.right_child) == node.LeafNode]
    if not prunable or rng.random() < grow_p:
        leaf = rng.choice(leaves)
        rows = [r for r in range(len(s.y)) if not leaf.data.mask[r]]
        v = rng.randrange(s.X.shape[1])
        vals = sorted(set(s.X[r, v] for r in rows))
        if len(vals) < 2:
            return None
        value = rng.choice(vals[:-1])
        s.ops.append(["grow", leaves.index(leaf), v, float(value)])
        from common import conditions
        dn = node.split_node(leaf, conditions(H, v, value))
        dn.left_child.set_value(rng.choice([0.5, -1.0, 2.0, rng.gauss(0, 1)]))
        dn.right_child.set_value(rng.choice([0.25, -3.0, 1.0, rng.gauss(0, 1)]))
        m = mut.GrowMutation(leaf, dn)
    else:
        d = rng.choice(prunable)
        s.ops.append(["prune", prunable.index(d)])
        m = mut.PruneMutation(d, node.LeafNode(d.split, depth=d.depth, value=rng.gauss(0, 1)))
    tree.mutate(s.tree, m)
    return m
