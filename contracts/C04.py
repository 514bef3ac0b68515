"""C04 target normalisation is an exact affine round trip"""
from pyvc.api import contract

FN = ("bartpy.data.Target.__init__", "bartpy.data.Target.normalize_y", "bartpy.data.Target.unnormalize_y", "bartpy.data.Target.unnormalized_y",
      "bartpy.data.Target.normalizing_scale", "bartpy.data.Data.__init__", "bartpy.data.make_bartpy_data")


def target(H, ctor):
    n = H.size("n", 2, small=3)
    p = H.size("p", 1, small=1)
    X = H.matrix("X", n, p)
    y = H.reals("y", n)
    a, b = H.index("a", n), H.index("b", n)
    H.requires(H.not_(H.eq(H.at(y, a), H.at(y, b))))
    data = H.mod("bartpy.data")
    y0 = H.copy(y)
    d = data.make_bartpy_data(X, y) if ctor else data.Data(X, y, normalize=True)
    return n, y0, d


@contract("C04", functions=FN)
def normalised_range_and_order(H):
    n, y, d = target(H, H.flag("via_make"))
    z = d.y.values
    H.ensures("length kept", H.len(z) == n)
    i, j = H.index("i", n), H.index("j", n)
    zi, zj, yi, yj = H.at(z, i), H.at(z, j), H.at(y, i), H.at(y, j)
    tol = 1e-12 if H.concrete else 0
    H.ensures("at least -0.5", zi >= -0.5 - tol)
    H.ensures("at most 0.5", zi <= 0.5 + tol)
    H.ensures("increasing", H.or_(H.iff(yi < yj, zi < zj), H.concrete and H.near_tie(yi, yj)))
    H.requires(H.forall(n, lambda k: H.at(y, k) >= yi))
    H.ensures("minimum at -0.5", H.eq(zi, -0.5))
    H.requires(H.forall(n, lambda k: H.at(y, k) <= yj))
    H.ensures("maximum at 0.5", H.eq(zj, 0.5))


@contract("C04", functions=FN)
def normalisation_is_affine(H):
    n, y, d = target(H, H.flag("via_make"))
    z = d.y.values
    i, j, k = H.index("i", n), H.index("j", n), H.index("k", n)
    f = lambda a, t: H.at(a, t)
    H.ensures("differences scale", H.eq((f(z, i) - f(z, j)) * (f(y, j) - f(y, k)), (f(z, j) - f(z, k)) * (f(y, i) - f(y, j))))
    H.ensures("slope is one over the scale", H.eq((f(z, i) - f(z, j)) * d.y.normalizing_scale, f(y, i) - f(y, j)))


@contract("C04", functions=FN)
def round_trip(H):
    n, y, d = target(H, H.flag("via_make"))
    z = d.y.values
    back = d.y.unnormalize_y(z)
    H.ensures("length kept", H.len(back) == n)
    H.ensures_forall("unnormalize(normalize(y)) = y", n, lambda r: H.eq(H.at(back, r), H.at(y, r)))
    un = d.y.unnormalized_y
    H.ensures_forall("unnormalized_y = y", n, lambda r: H.eq(H.at(un, r), H.at(y, r)))


@contract("C04", functions=FN)
def unnormalise_is_linear(H):
    n, y, d = target(H, H.flag("via_make"))
    m = H.size("m", 1, small=2)
    u = H.reals("u", m)
    out = d.y.unnormalize_y(u)
    a, b = H.index("i", n), H.index("j", n)
    H.requires(H.forall(n, lambda k: H.and_(H.at(y, k) >= H.at(y, a), H.at(y, k) <= H.at(y, b))))
    rng = H.at(y, b) - H.at(y, a)
    H.ensures("scale is max minus min", H.eq(d.y.normalizing_scale, rng))
    H.ensures_forall("linear with slope max-min", m, lambda r: H.eq(H.at(out, r), H.at(y, a) + (H.at(u, r) + 0.5) * rng))


@contract("C04", functions=FN + ("bartpy.sklearnmodel.SklearnModel._construct_model", "bartpy.sigma.Sigma.current_unnormalized_value"))
def scale_reaches_the_noise(H):
    n = H.size("n", 2, small=3)
    p = H.size("p", 1, small=1)
    X = H.matrix("X", n, p)
    y = H.reals("y", n)
    a, b = H.index("i", n), H.index("j", n)
    H.requires(H.not_(H.eq(H.at(y, a), H.at(y, b))))
    H.requires(H.forall(n, lambda k: H.and_(H.at(y, k) >= H.at(y, a), H.at(y, k) <= H.at(y, b))))
    sk = H.mod("bartpy.sklearnmodel").SklearnModel(n_trees=1, initializer=None)
    m = sk._construct_model(X, y)
    s = H.real("s", 0, lo_open=True)
    m.sigma.set_value(s)
    H.ensures("unnormalised noise = noise * range", H.eq(m.sigma.current_unnormalized_value(), s * (H.at(y, b) - H.at(y, a))))
