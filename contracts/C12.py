"""C12 the data-fit ratio is the exact marginal likelihood ratio"""
from pyvc.api import contract
from common import *
from C01 import SPLIT
from C09 import model_for

MODS = ["bartpy.samplers.unconstrainedtree.likihoodratio", "bartpy.samplers.oblivioustrees.likihoodratio"]
FN = SPLIT + tuple(m + q for m in MODS for q in (".log_grow_ratio", ".UniformTreeMutationLikihoodRatio.log_likihood_ratio",
                                               ".UniformTreeMutationLikihoodRatio.log_likihood_ratio_grow", ".UniformTreeMutationLikihoodRatio.log_likihood_ratio_prune")) \
    + ("bartpy.model.Model.sigma_m", "bartpy.data.Target.summed_y")


def marginal(H, n, S, s2, t2):
    """log marginal likelihood of n targets with sum S, without the terms that do not depend on how they are grouped"""
    return 0.5 * H.log(s2 / (s2 + n * t2)) + t2 * S * S / (2 * s2 * (s2 + n * t2))


def setting(H):
    n, p, X, y, mask, node = arbitrary_leaf(H, depth=0)
    m0, X0, y0 = H.copy(mask), H.copy(X), H.copy(y)
    model, T, k, s = model_for(H)
    t2 = 1.0 / (4 * k * k * T)
    v, sv = H.index("v", p), H.real("s")
    dn = split(H, node, v, sv)
    inn = lambda r: H.not_(H.at(m0, r))
    L, R = lambda r: H.and_(inn(r), H.at(X0, r, v) <= sv), lambda r: H.and_(inn(r), H.at(X0, r, v) > sv)
    cnt = [H.count(n, q) for q in (inn, L, R)]
    S = [H.sum(n, lambda r, q=q: H.ite(q(r), H.at(y0, r), 0.0)) for q in (inn, L, R)]
    want = marginal(H, cnt[1], S[1], s * s, t2) + marginal(H, cnt[2], S[2], s * s, t2) - marginal(H, cnt[0], S[0], s * s, t2)
    lr = H.mod(MODS[H.pick("module", 2)]).UniformTreeMutationLikihoodRatio()
    return node, dn, model, lr, want


@contract("C12", functions=FN)
def grow_ratio_is_the_marginal_likelihood_ratio(H):
    node, dn, model, lr, want = setting(H)
    mut = H.mod("bartpy.mutation")
    out = lr.log_likihood_ratio(model, Ghost(), mut.GrowMutation(node, dn))
    H.ensures("difference of log marginal likelihoods", H.eq(out, want))


@contract("C12", functions=FN)
def prune_ratio_is_the_negative(H):
    node, dn, model, lr, want = setting(H)
    mut, nd = H.mod("bartpy.mutation"), H.mod("bartpy.node")
    out = lr.log_likihood_ratio(model, Ghost(), mut.PruneMutation(dn, nd.LeafNode(dn.split, depth=dn.depth)))
    H.ensures("minus the ratio of the grow it undoes", H.eq(out, -want))


@contract("C12", modes="c", functions=FN)
def against_numerical_integration(H):
    """independent oracle: the ratio computed from multivariate normal densities"""
    import history
    np = H.np
    s = history.random_tree(H, steps=5)
    model, T, k, sg = model_for(H)
    lr = H.mod(MODS[H.rng.randrange(2)]).UniformTreeMutationLikihoodRatio()
    t2 = (0.5 / (k * T ** 0.5)) ** 2

    def logml(rows):
        y = s.y[rows]
        m = len(y)
        C = sg * sg * np.eye(m) + t2 * np.ones((m, m))
        sign, ld = np.linalg.slogdet(C)
        return -0.5 * ld - 0.5 * y @ np.linalg.solve(C, y)
    mut, nd = H.mod("bartpy.mutation"), H.mod("bartpy.node")
    for d in s.tree.nodes:
        if is_decision(H, d) and is_leaf(H, d.left_child) and is_leaf(H, d.right_child):
            want = logml(~d.left_child.data.mask) + logml(~d.right_child.data.mask) - logml(~d.data.mask)
            leaf = nd.LeafNode(d.split, depth=d.depth)
            tol = 1e-5 * (1 + abs(want)) + 1e-9 * float((s.y ** 2).sum()) / (sg * sg)
            H.ensures("grow", abs(lr.log_likihood_ratio(model, s.tree, mut.GrowMutation(leaf, d)) - want) <= tol)
            H.ensures("prune", abs(lr.log_likihood_ratio(model, s.tree, mut.PruneMutation(d, leaf)) + want) <= tol)
