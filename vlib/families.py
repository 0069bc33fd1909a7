"""Elementwise bijection families: constructor, domain, closed-form reference.

Each family is sampled with an array of parameter sets of shape (K, 1) so that a
single bijection object carries K different parameterisations; points have shape
(K, M).  ``ref``/``dref`` are independent longdouble implementations of the
documented map and of log|f'|; ``cond`` bounds how far the *inverse* image moves
per unit rounding error of the output.
"""

from .jx import *

L = np.longdouble


def softplus(x):
    x = np.asarray(x, L)
    return np.where(x > 30, x + np.exp(-np.abs(x)), np.log1p(np.exp(np.minimum(x, 30))))


class Fam:
    def __init__(self, name, build, dom, ref, dref, raw=None):
        self.name, self.build, self.dom, self.ref, self.dref = name, build, dom, ref, dref


def real_line(scale):
    def dom(rng, shape, p):
        u = rng.random(shape)
        a = rng.uniform(-1, 1, shape) * scale
        b = np.sign(rng.normal(size=shape)) * scale * 10 ** rng.uniform(-8, 0, shape)
        x = np.where(u < 0.6, a, b)
        x[..., 0] = 0.0
        return x

    return dom


def unit_interval(lo=-9):
    def dom(rng, shape, p):
        u = rng.random(shape)
        a = rng.random(shape)
        t = 10 ** rng.uniform(lo, -0.31, shape)
        x = np.where(u < 0.6, a, np.where(u < 0.8, t, 1 - t))
        x = np.clip(x, 10.0 ** (lo - 1), 1 - 10.0 ** (lo - 1))
        x[..., 0] = 0.5
        return x

    return dom


def positive(lo=-6, hi=4):
    def dom(rng, shape, p):
        x = 10 ** rng.uniform(lo, hi, shape)
        x[..., 0] = 1.0
        return x

    return dom


def families(rng, K, wide=False):
    """Fresh random parameterisations (K of each family); ``wide`` adds the far ends of domains and parameter ranges."""
    from scipy import special

    kinds = [nnx.Param, nnx.Param, nnx.Variable, bijx.Const]
    P = lambda a: kinds[int(rng.integers(4))](jnp.asarray(a))  # noqa: E731
    out = []

    def add(name, bij, dom, ref, dref, approx=(0.0, 0.0), **params):
        # approx: documented truncation error (value, log-derivative) of the map
        out.append(
            dict(
                name=name, bij=bij, dom=dom, ref=ref, dref=dref, params=params,
                approx=tuple(np.asarray(v, float) for v in approx),
            )
        )

    def norm_cdf(z):
        return 0.5 * special.erfc(-np.asarray(z, float) / np.sqrt(2))

    sc = rng.uniform(-2, 3, (K, 1))
    mu = rng.normal(size=(K, 1)) * 2
    s = softplus(sc)

    def gdom(rng, shape, p):
        z = real_line(5.0)(rng, shape, p)
        return np.asarray(mu + z * np.asarray(s, float))

    add(
        "GaussianCDF",
        bijx.GaussianCDF(P(sc), P(mu)),
        gdom,
        lambda x: norm_cdf((x - mu) / s),
        lambda x: -0.5 * ((x - mu) / s) ** 2 - 0.5 * np.log(2 * np.pi) - np.log(s),
        scale=sc,
        mean=mu,
    )
    # transform applied to the mean too, explicit positive scale
    sc2 = rng.uniform(0.2, 3, (K, 1))
    mu2 = rng.normal(size=(K, 1))

    def gdom2(rng, shape, p):
        return np.sinh(mu2) + real_line(5.0)(rng, shape, p) * sc2

    add(
        "GaussianCDF[transforms]",
        bijx.GaussianCDF(
            P(sc2), P(mu2), transform_scale=None, transform_mean=jnp.sinh
        ),
        gdom2,
        lambda x: norm_cdf((x - np.sinh(mu2)) / sc2),
        lambda x: -0.5 * ((x - np.sinh(mu2)) / sc2) ** 2
        - 0.5 * np.log(2 * np.pi)
        - np.log(sc2),
        scale=sc2,
        mean=mu2,
    )
    add(
        "Tan",
        bijx.Tan(),
        unit_interval(-6),
        lambda x: np.tan(np.pi * (x - L(0.5))),
        lambda x: np.log(np.pi) - 2 * np.log(np.cos(np.pi * (x - L(0.5)))),
    )
    add(
        "Sigmoid",
        bijx.Sigmoid(),
        real_line(20.0),
        lambda x: 1 / (1 + np.exp(-x)),
        lambda x: -softplus(x) - softplus(-x),
    )
    add(
        "Tanh",
        bijx.Tanh(),
        real_line(9.0),
        np.tanh,
        lambda x: -2 * np.log(np.cosh(x)),
    )
    add("Exponential", bijx.Exponential(), real_line(30.0), np.exp, lambda x: x)
    add(
        "SoftPlus",
        bijx.SoftPlus(),
        real_line(30.0),
        softplus,
        lambda x: -softplus(-x),
    )
    e = rng.uniform(0.3, 3, (K, 1)) * np.sign(rng.normal(size=(K, 1)))
    e[0] = 1.0
    add(
        "Power",
        bijx.Power(P(e)),
        positive(-3, 3),
        lambda x: x ** np.abs(e).astype(L),
        lambda x: np.log(np.abs(e)) + (np.abs(e) - 1) * np.log(x),
        exponent=e,
    )
    en = rng.uniform(0.3, 3, (K, 1)) * np.sign(rng.normal(size=(K, 1)))
    add(
        "Power[signed exponent]",
        bijx.Power(P(en), transform_exponent=None),
        positive(-2, 2),
        lambda x: x ** en.astype(L),
        lambda x: np.log(np.abs(en)) + (en - 1) * np.log(x),
        exponent=en,
    )
    add(
        "Sinh",
        bijx.Sinh(),
        real_line(15.0),
        np.sinh,
        lambda x: np.log(np.cosh(x)),
    )
    a = rng.normal(size=(K, 1)) * 2
    b = rng.normal(size=(K, 1)) * 3
    add(
        "AffineLinear",
        bijx.AffineLinear(P(a), P(b)),
        real_line(100.0),
        lambda x: np.exp(a.astype(L)) * x + b,
        lambda x: a + 0 * x,
        scale=a,
        shift=b,
    )
    aneg = -rng.uniform(0.2, 3, (K, 1))
    aneg[: K // 2] *= -1
    bt = rng.normal(size=(K, 1))
    add(
        "AffineLinear[transforms]",
        bijx.AffineLinear(
            P(aneg), P(bt), transform_scale=None, transform_shift=jnp.tanh
        ),
        real_line(100.0),
        lambda x: aneg.astype(L) * x + np.tanh(bt),
        lambda x: np.log(np.abs(aneg)) + 0 * x,
        scale=aneg,
        shift=bt,
    )
    s2 = rng.uniform(0.05, 5, (K, 1)) * np.sign(rng.normal(size=(K, 1)))
    add(
        "Scaling",
        bijx.Scaling(P(s2)),
        real_line(100.0),
        lambda x: x * s2.astype(L),
        lambda x: np.log(np.abs(s2)) + 0 * x,
        scale=s2,
    )
    sh = rng.normal(size=(K, 1)) * 5
    add(
        "Shift",
        bijx.Shift(P(sh)),
        real_line(100.0),
        lambda x: x + sh.astype(L),
        lambda x: 0 * x,
        shift=sh,
    )
    ap = rng.uniform(-1.5, 3, (K, 1))
    aa = softplus(ap)

    def bs_ref(x):
        x = np.asarray(x, L)
        return x**aa / (x**aa + (1 - x) ** aa)

    def bs_dref(x):
        x = np.asarray(x, L)
        lx, l1 = np.log(x), np.log1p(-x)
        m = np.logaddexp(aa * lx, aa * l1)
        return np.log(aa) + (aa - 1) * (lx + l1) - 2 * m

    add(
        "BetaStretch",
        bijx.BetaStretch(P(ap)),
        unit_interval(-4),
        bs_ref,
        bs_dref,
        a=ap,
    )

    # ---- analytic families ----
    loc = rng.normal(size=(K, 1))
    al = rng.normal(size=(K, 1)) * 2
    be = rng.normal(size=(K, 1)) * 2
    # effective (constrained) parameters are read back from the object; that they obey
    # the documented constraints alpha in (-1, 8), beta > 0 is checked separately
    cub = bijx.CubicRational(P(loc), P(al), P(be))
    alv = np.asarray(cub.alpha.get_value()).astype(L)
    bev = np.asarray(cub.beta.get_value()).astype(L)

    def cr(x):
        z = np.asarray(x, L) - loc
        return z + alv * z / (1 + bev * z**2) + loc

    def crd(x):
        z = np.asarray(x, L) - loc
        w = bev * z**2
        return np.log(np.abs(1 + alv * (1 - w) / (1 + w) ** 2))

    add(
        "CubicRational",
        cub,
        real_line(30.0),
        cr,
        crd,
        loc=loc,
        alpha=alv.astype(float),
        beta=bev.astype(float),
    )
    alp = rng.uniform(-1.5, 2, (K, 1))
    beta = rng.normal(size=(K, 1))
    m_, n_ = rng.normal(size=(K, 1)) * 1.5, rng.normal(size=(K, 1)) * 1.5
    sinhc = bijx.SinhConjugation(P(loc), P(alp), P(beta), P(m_), P(n_))
    alpv = np.asarray(sinhc.alpha.get_value()).astype(L)
    mm, nn_ = np.arcsinh(m_.astype(L)), np.arcsinh(n_.astype(L))

    def sc_ref(x):
        z = (np.asarray(x, L) - loc) / alpv
        return np.arcsinh(np.exp(mm) * (np.exp(nn_) * np.sinh(z) + beta)) * alpv + loc

    def sc_dref(x):
        z = (np.asarray(x, L) - loc) / alpv
        arg = np.exp(mm) * (np.exp(nn_) * np.sinh(z) + beta)
        return mm + nn_ + np.log(np.cosh(z)) - 0.5 * np.log1p(arg**2)

    def sc_dom(rng, shape, p):
        z = real_line(9.0)(rng, shape, p)
        return loc + z * np.asarray(alpv, float)

    add(
        "SinhConjugation",
        bijx.SinhConjugation(P(loc), P(alp), P(beta), P(m_), P(n_)),
        sc_dom,
        sc_ref,
        sc_dref,
        (8 * EPS * np.abs(beta) * np.maximum(np.exp(-nn_), np.exp(mm)),) * 2,
        loc=loc,
        alpha=alp,
        beta=beta,
        mu=m_,
        nu=n_,
    )

    # deep asymptotic regime: |z| in [20, 200], where f(z) = z +- (mu + nu)
    def sc_far(rng, shape, p):
        z = rng.uniform(20, 200, shape) * np.sign(rng.normal(size=shape))
        return loc + z * np.asarray(alpv, float)

    add(
        "SinhConjugation[tails]",
        bijx.SinhConjugation(P(loc), P(alp), P(beta), P(m_), P(n_)),
        sc_far,
        sc_ref,
        sc_dref,
        (8 * EPS * np.abs(beta) * np.maximum(np.exp(-nn_), np.exp(mm)),) * 2,
        loc=loc,
        alpha=alp,
        beta=beta,
        mu=m_,
        nu=n_,
    )
    # around the switch to the linear tails
    def sc_mid(rng, shape, p):
        z = rng.uniform(9, 45, shape) * np.sign(rng.normal(size=shape))
        return loc + z * np.asarray(alpv, float)

    add(
        "SinhConjugation[switch]",
        bijx.SinhConjugation(P(loc), P(alp), P(beta), P(m_), P(n_)),
        sc_mid,
        sc_ref,
        sc_dref,
        (8 * EPS * np.abs(beta) * np.maximum(np.exp(-nn_), np.exp(mm)),) * 2,  # linear beyond -log(eps)
        loc=loc,
        alpha=alp,
        beta=beta,
        mu=m_,
        nu=n_,
    )
    ca, cb = rng.normal(size=(K, 1)) * 1.5, rng.normal(size=(K, 1)) * 1.5
    cav, cbv = softplus(ca), softplus(cb)

    def cubic_root(a, b, y):
        # real root of b x^3 + a x = y, Newton in longdouble from a safe start
        y = np.asarray(y, L)
        x = np.cbrt(y / b)
        x = np.where(np.abs(y / a) < np.abs(x), y / a, x)
        for _ in range(200):
            x = x - (b * x**3 + a * x - y) / (3 * b * x**2 + a)
        return x

    def cc_ref(x):
        z = np.asarray(x, L) - loc
        return cubic_root(cav, cbv, cav * z + cbv * z**3 + beta) + loc

    def cc_dref(x):
        z = np.asarray(x, L) - loc
        w = cubic_root(cav, cbv, cav * z + cbv * z**3 + beta)
        return np.log((cav + 3 * cbv * z**2) / (cav + 3 * cbv * w**2))

    add(
        "CubicConjugation",
        bijx.CubicConjugation(P(loc), P(beta), P(ca), P(cb)),
        real_line(20.0),
        cc_ref,
        cc_dref,
        loc=loc,
        beta=beta,
        a=ca,
        b=cb,
    )
    if wide:
        add_wide(rng, K, add, P, norm_cdf, bs_ref)
    for f in out:
        f.update(SCALES.get(f["name"], {}))
    return out


def add_wide(rng, K, add, P, norm_cdf, bs_ref):
    """Far tails (where the output is still resolved relative to itself) and extreme admissible parameters."""
    sc = rng.uniform(-12, 12, (K, 1))
    s = softplus(sc)
    mu = rng.normal(size=(K, 1)) * np.asarray(s, float)

    def left(lo, hi):  # mostly the far left tail
        def dom(rng, shape, p):
            x = rng.uniform(lo, hi, shape)
            return np.where(rng.random(shape) < 0.3, rng.uniform(hi - 4, hi, shape), x)

        return dom

    add(
        "GaussianCDF[wide]", bijx.GaussianCDF(P(sc), P(mu)),
        lambda rng, shape, p: np.asarray(mu + left(-36.0, 2.0)(rng, shape, p) * np.asarray(s, float)),
        lambda x: norm_cdf((x - mu) / s),
        lambda x: -0.5 * ((x - mu) / s) ** 2 - 0.5 * np.log(2 * np.pi) - np.log(s),
        scale=sc, mean=mu,
    )
    add("Sigmoid[wide]", bijx.Sigmoid(), left(-600.0, 3.0), lambda x: 1 / (1 + np.exp(-x)),
        lambda x: -softplus(x) - softplus(-x))
    add("Tanh[wide]", bijx.Tanh(), real_line(16.0), np.tanh,
        lambda x: 2 * (np.log(L(2)) - np.abs(x) - np.log1p(np.exp(-2 * np.abs(x)))))
    add("Exponential[wide]", bijx.Exponential(), real_line(650.0), np.exp, lambda x: x)
    add("SoftPlus[wide]", bijx.SoftPlus(), lambda rng, shape, p: np.where(
        rng.random(shape) < 0.5, rng.uniform(-650, 30, shape), 10 ** rng.uniform(0, 8, shape)),
        softplus, lambda x: -softplus(-x))
    add("Sinh[wide]", bijx.Sinh(), real_line(650.0), np.sinh,
        lambda x: np.abs(x) + np.log1p(np.exp(-2 * np.abs(x))) - np.log(L(2)))
    e = 10 ** rng.uniform(-1.5, 0.9, (K, 1))
    add("Power[wide]", bijx.Power(P(e)), positive(-30, 30), lambda x: x ** e.astype(L),
        lambda x: np.log(e) + (e - 1) * np.log(x), exponent=e)
    a, b = rng.uniform(-25, 25, (K, 1)), rng.normal(size=(K, 1))
    add("AffineLinear[wide]", bijx.AffineLinear(P(a), P(b)), real_line(1e6),
        lambda x: np.exp(a.astype(L)) * x + b, lambda x: a + 0 * x, scale=a, shift=b)
    # steep and strongly offset conjugations
    loc, alp = rng.normal(size=(K, 1)), rng.uniform(-3, 3, (K, 1))
    be = 10 ** rng.uniform(-2, 4, (K, 1)) * np.sign(rng.normal(size=(K, 1)))
    m_, n_ = (10 ** rng.uniform(-1, 2.5, (K, 1)) * np.sign(rng.normal(size=(K, 1))) for _ in range(2))
    sinhc = bijx.SinhConjugation(P(loc), P(alp), P(be), P(m_), P(n_))
    alv = np.asarray(sinhc.alpha.get_value()).astype(L)
    mm, nn = np.arcsinh(m_.astype(L)), np.arcsinh(n_.astype(L))

    def arg(x):
        z = (np.asarray(x, L) - loc) / alv
        return z, np.exp(mm) * (np.exp(nn) * np.sinh(z) + be)

    def wd(x):
        z, g = arg(x)
        return mm + nn + np.log(np.cosh(z)) - 0.5 * np.log1p(g**2)

    add("SinhConjugation[wide]", sinhc,
        lambda rng, shape, p: loc + np.asarray(alv, float) * rng.uniform(-30, 30, shape) * rng.choice([0.1, 1.0], shape),
        lambda x: np.arcsinh(arg(x)[1]) * alv + loc, wd,
        (100 * EPS * np.abs(be) * np.maximum(np.exp(-nn), np.exp(mm)) * np.maximum(1, alv),) * 2, loc=loc, alpha=alp, beta=be, mu=m_, nu=n_)
    s2 = 10 ** rng.uniform(-12, 12, (K, 1)) * np.sign(rng.normal(size=(K, 1)))
    add("Scaling[wide]", bijx.Scaling(P(s2)), real_line(1e8), lambda x: x * s2.astype(L),
        lambda x: np.log(np.abs(s2)) + 0 * x, scale=s2)
    sh = 10 ** rng.uniform(-8, 8, (K, 1)) * np.sign(rng.normal(size=(K, 1)))
    add("Shift[wide]", bijx.Shift(P(sh)), real_line(1e6), lambda x: x + sh.astype(L), lambda x: 0 * x, shift=sh)
    ap = rng.uniform(-2.5, 8, (K, 1))
    aa = softplus(ap)

    def bs(x):
        x = np.asarray(x, L)
        return 1 / (1 + np.exp(aa * (np.log1p(-x) - np.log(x))))

    def bd(x):
        x = np.asarray(x, L)
        lx, l1 = np.log(x), np.log1p(-x)
        return np.log(aa) + (aa - 1) * (lx + l1) - 2 * np.logaddexp(aa * lx, aa * l1)

    ap2 = rng.uniform(-2, 0.5, (K, 1))
    a2 = softplus(ap2)

    def bs2(x):
        x = np.asarray(x, L)
        return 1 / (1 + np.exp(a2 * (np.log1p(-x) - np.log(x))))

    def bd2(x):
        x = np.asarray(x, L)
        lx, l1 = np.log(x), np.log1p(-x)
        return np.log(a2) + (a2 - 1) * (lx + l1) - 2 * np.logaddexp(a2 * lx, a2 * l1)

    def dom2(rng, shape, p):
        t = 10 ** rng.uniform(-9, -0.3, shape)
        return np.where(rng.random(shape) < 0.5, t, 1 - t)

    add("BetaStretch[wide,flat]", bijx.BetaStretch(P(ap2)), dom2, bs2, bd2, a=ap2)
    # x <= 0.6 only: on the other side the output rounds to exactly one
    add("BetaStretch[wide]", bijx.BetaStretch(P(ap)), lambda rng, shape, p: np.where(
        rng.random(shape) < 0.5, rng.uniform(0.01, 0.6, shape), 10 ** rng.uniform(-8, -0.3, shape)), bs, bd, a=ap)


# natural absolute scale of rounding errors (default 1): xs in the argument, ys in the value;
# ls: whether the log-derivative may lose digits where the slope is small (it is formed from 1 - y or the like)
SCALES = {
    "Exponential": dict(ys=0.0, ls=0.0),
    "SoftPlus": dict(ys=0.0, ls=0.0),
    "Power": dict(xs=0.0, ys=0.0, ls=0.0),
    "Power[signed exponent]": dict(xs=0.0, ys=0.0, ls=0.0),
    "Scaling": dict(xs=0.0, ys=0.0, ls=0.0),
    "Sinh": dict(xs=0.0, ys=0.0, ls=0.0),
    "Tanh": dict(xs=0.0, ys=0.0),
    "BetaStretch[wide,flat]": dict(unit=True),
    "BetaStretch[wide]": dict(unit=True),
    "BetaStretch": dict(unit=True),
    "Tan": dict(unit=True),
    "GaussianCDF[wide]": dict(ys=0.0, ls=0.0),
    "Sigmoid[wide]": dict(ys=0.0, ls=0.0),
    "Exponential[wide]": dict(ys=0.0, ls=0.0),
    "SoftPlus[wide]": dict(ys=0.0, ls=0.0),
    "Power[wide]": dict(xs=0.0, ys=0.0, ls=0.0),
    "Scaling[wide]": dict(xs=0.0, ys=0.0, ls=0.0),
    "Sinh[wide]": dict(xs=0.0, ys=0.0, ls=0.0),
    "Tanh[wide]": dict(xs=0.0, ys=0.0),
}


def draw(f, rng, K, M):
    return np.asarray(f["dom"](rng, (K, M), None), float)


def curvature(f, x):
    """|d log|f'| / dx| by central differences of the longdouble reference."""
    x = np.asarray(x, L)
    h = 1e-4 * np.minimum(x, 1 - x) if f.get("unit") else 1e-6 * np.abs(x) + 1e-9
    with np.errstate(all="ignore"):
        d = (f["dref"](x + h) - f["dref"](x - h)) / (2 * h)
    d = np.abs(np.asarray(d, float))
    return np.where(np.isfinite(d), d, 1.0 / np.abs(np.asarray(x, float) + 1e-300))


def bounds(f, x, y, ld, c, EPS=EPS):
    """First-order rounding bounds (dx, dy, dlog) for a round trip at x -> y."""
    sl = slope(f, x)
    x, y = np.asarray(x, float), np.asarray(y, float)
    xs, ys = f.get("xs", 1.0), f.get("ys", 1.0)
    with np.errstate(all="ignore"):
        dy = c * EPS * (np.abs(y) + ys + sl * (np.abs(x) + xs))
        dx = c * EPS * (np.abs(x) + xs + (np.abs(y) + ys) / sl)
        dl = c * EPS * (10 + np.abs(ld) + f.get("ls", 1.0) / np.minimum(1, sl)) + curvature(f, x) * dx
    av, al = f.get("approx", (0.0, 0.0))
    return dx + av, dy + av, 10 * dl + al


def slope(f, x):
    """|f'(x)| from the reference, as float64."""
    return np.exp(np.asarray(f["dref"](np.asarray(x, L)), float))


__all__ = ["curvature", "bounds", "families", "draw", "slope", "Fam", "L", "softplus"]
