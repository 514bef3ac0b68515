"""C10 noise is drawn from its inverse gamma conditional"""
from pyvc.api import contract
from common import *
from C08 import GhostTree

FN = ("bartpy.samplers.sigma.SigmaSampler.step", "bartpy.samplers.sigma.SigmaSampler.sample", "bartpy.model.Model.residuals", "bartpy.model.Model.predict",
      "bartpy.sigma.Sigma.set_value", "bartpy.sigma.Sigma.current_value", "bartpy.sigma.Sigma.current_unnormalized_value")


@contract("C10", functions=FN)
def draw_is_inverse_gamma(H):
    n, p = H.size("n", 1, small=2), H.size("p", 1, small=1)
    X, y = H.matrix("X", n, p), H.reals("y", n)
    y0 = H.copy(y)
    a, b, scale = H.real("alpha", 0, lo_open=True), H.real("beta", 0, lo_open=True), H.real("scale", 0, lo_open=True)
    k = H.size("trees", 1, small=2)
    preds = H.matrix("preds", k, n)
    sigma = H.mod("bartpy.sigma").Sigma(a, b, scale)
    sigma.set_value(H.real("previous", 0, lo_open=True))
    model = H.mod("bartpy.model").Model(H.mod("bartpy.data").Data(X, y), sigma, trees=H.objects(k, lambda i: GhostTree(H.row(preds, i), None)))
    H.record_rng()
    out = H.mod("bartpy.samplers.sigma").SigmaSampler().step(model, model.sigma)
    ds = [d for d in H.draws if d[0] == "gamma"]
    if len(ds) != 1:
        H.unsupported("the noise is not drawn by one gamma draw")
    _, g, par = ds[0]
    resid = lambda r: H.at(y0, r) - H.sum(k, lambda i: H.at(preds, i, r))
    ss = H.sum(n, lambda r: resid(r) * resid(r))
    H.ensures("shape is the prior shape plus half the number of observations", H.eq(par["shape"], a + n / 2.0))
    H.ensures("positive", out > 0)
    H.ensures("inverse square root of a gamma draw with rate prior scale plus half the squared residuals", H.eq(out * out * g, b + ss / 2.0))
    H.ensures("becomes the current value", H.eq(model.sigma.current_value(), out))
    H.ensures("un-normalised form", H.eq(model.sigma.current_unnormalized_value(), out * scale))
    H.ensures("prior kept", H.and_(H.eq(model.sigma.alpha, a), H.eq(model.sigma.beta, b), H.eq(model.sigma.scaling_factor, scale)))
    q = H.index("q", n)
    H.ensures("target kept", H.eq(H.at(model.data.y.values, q), H.at(y0, q)))


@contract("C10", functions=FN)
def noise_value_is_kept(H):
    a, b, s = H.real("a", 0, lo_open=True), H.real("b", 0, lo_open=True), H.real("scale", 0, lo_open=True)
    sigma = H.mod("bartpy.sigma").Sigma(a, b, s)
    v, w = H.real("v", 0, lo_open=True), H.real("w", 0, lo_open=True)
    sigma.set_value(v)
    H.ensures("current value", H.eq(sigma.current_value(), v))
    sigma.set_value(w)
    H.ensures("current value after a second draw", H.eq(sigma.current_value(), w))
    H.ensures("scaled", H.eq(sigma.current_unnormalized_value(), w * s))
