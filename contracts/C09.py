"""C09 leaf values are drawn from the conjugate normal posterior"""
from pyvc.api import contract
from common import *
from C01 import SPLIT

FN = SPLIT + ("bartpy.samplers.leafnode.LeafNodeSampler.step", "bartpy.samplers.leafnode.LeafNodeSampler.sample", "bartpy.model.Model.sigma_m",
              "bartpy.data.Target.summed_y", "bartpy.node.LeafNode.set_value")


class Fixed(object):
    """scalar sampler with known draws"""

    def __init__(self, zs):
        self.zs = list(zs)
        self.used = 0

    def sample(self):
        self.used += 1
        return self.zs[self.used - 1]


def model_for(H, trees=None):
    T, k, s = H.int_("n_trees", 1, 60 if H.concrete else None), H.real("k", 0, lo_open=True), H.real("sigma", 0, lo_open=True)
    sigma = H.mod("bartpy.sigma").Sigma(1.0, 1.0, 1.0)
    sigma.set_value(s)
    model = H.mod("bartpy.model").Model(None, sigma, trees=trees if trees is not None else [], k=k)
    model.n_trees = T
    return model, T, k, s


def check_draw(H, what, out, z, n, S, T, k, s):
    """out = mean + z * sd with 1/sd^2 = 1/v0 + n/s^2, mean = sd^2 S / s^2, v0 = (0.5 / (k sqrt(T)))^2"""
    prec = 4 * k * k * T * s * s + n             # s^2 / sd^2   (1 / v0 = 4 k^2 T)
    H.ensures(what + ": posterior mean plus draw times posterior sd", H.eq(out, S / prec + z * H.sqrt(s * s / prec)))


@contract("C09", functions=FN)
def draw_is_posterior(H):
    n, p, X, y, mask, node = arbitrary_leaf(H)
    m0 = H.copy(mask)
    inn = lambda r: H.not_(H.at(m0, r))
    r0 = H.index("r0", n)
    H.requires(inn(r0))
    model, T, k, s = model_for(H)
    z = H.real("z")
    y2 = y
    if H.flag("updated"):
        if H.flag("read_before"):
            node.data.y.summed_y()
        y2 = H.reals("y2", n)
        node.update_y(H.copy(y2))
    cur = H.copy(y2)
    sampler = H.mod("bartpy.samplers.leafnode").LeafNodeSampler(Fixed([z, z]))
    cnt, S = H.count(n, inn), H.sum(n, lambda r: H.ite(inn(r), H.at(cur, r), 0.0))
    out = sampler.step(model, node)
    check_draw(H, "drawn value", out, z, cnt, S, T, k, s)
    H.ensures("stored in the leaf", H.eq(node.current_value, out))
    q = H.index("q", n)
    H.ensures("rows unchanged", H.iff(H.at(node.data.mask, q), H.at(m0, q)))
    H.ensures("target unchanged", H.eq(H.at(node.data.y.values, q), H.at(cur, q)))
    H.ensures("noise unchanged", H.eq(model.sigma.current_value(), s))


@contract("C09", functions=FN)
def leaf_prior_scale(H):
    model, T, k, s = model_for(H)
    sm = model.sigma_m
    H.ensures("positive", sm > 0)
    H.ensures("0.5 / (k sqrt(number of trees))", H.eq(sm * sm * k * k * T * 4, 1.0))


@contract("C09", functions=FN + ("bartpy.model.Model.__init__",))
def number_of_trees_is_counted(H):
    k = H.size("t", 1)
    model = H.mod("bartpy.model").Model(None, None, trees=H.objects(k, lambda i: Ghost()))
    H.ensures("n_trees", model.n_trees == k)
    H.ensures("default k is 2", H.eq(model.sigma_m * model.sigma_m * 16 * k, 1.0))


@contract("C09", functions=FN, sizes={"n": 2, "p": 1})
def only_that_leaf_changes(H):
    """any other leaf, over any other subset of the same training data, keeps its value, its rows and its target"""
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p, finite=True), H.reals("y", n)
    X0, y0 = H.copy(X), H.copy(y)
    ma, mb = H.bools("ma", n), H.bools("mb", n)
    ma0, mb0 = H.copy(ma), H.copy(mb)
    va, vb = H.real("va"), H.real("vb")
    leaf, other = leaf_node(H, X, y, ma, depth=1, value=va), leaf_node(H, X, y, mb, depth=1, value=vb)
    r0 = H.index("r0", n)
    H.requires(inside(H, leaf, r0))
    H.lemma(H.count(n, lambda r: inside(H, leaf, r)))
    model, T, k, s = model_for(H, [H.mod("bartpy.tree").Tree([leaf, other])])
    before = list(model.trees[0].nodes)
    H.mod("bartpy.samplers.leafnode").LeafNodeSampler(Fixed([H.real("z")])).step(model, leaf)
    H.ensures("other leaf keeps its value", H.eq(other.current_value, vb))
    H.ensures("same nodes", same_set(before, model.trees[0].nodes))
    q, v = H.index("q", n), H.index("v", p)
    for nd, m0 in ((leaf, ma0), (other, mb0)):
        H.ensures("target kept", H.eq(H.at(nd.data.y.values, q), H.at(y0, q)))
        H.ensures("rows kept", H.iff(inside(H, nd, q), H.not_(H.at(m0, q))))
        H.ensures("covariates kept", H.eq(H.at(nd.data.X.values, q, v), H.at(X0, q, v)))
