"""C03: each named elementwise transform computes its documented function."""

from vlib.core import unit
from vlib.families import *
from vlib.jx import *

PROP = "C03"
RULE = (
    "random parameter vectors x hostile points for every elementwise family, forward and reverse values against "
    "independent longdouble closed forms; default-initialised instances against their documented initial map; "
    "constrained parameters against their documented intervals; non-trivial = parameters not identity"
)
ASSUMPTIONS = ["float64", "documented formulas of the class docstrings are the specification"]
MIN_COUNTERS = {"values": 5000, "defaults": 10}
SLACK = {"CubicRational": 3e4, "CubicConjugation": 3e5, "SinhConjugation": 3e3,
         "SinhConjugation[tails]": 3e3, "SinhConjugation[switch]": 3e3}


def check_family(ctx, f, K, M):
    b, name = f["bij"], f["name"]
    x = draw(f, ctx.rng, K, M)
    ctx.case({"family": name, "params": f["params"], "x": x}, count=x.size, sig=(name, x.tobytes()))
    want = np.asarray(f["ref"](np.asarray(x, L)), float)
    z = jnp.zeros(x.shape)
    okc, r = ctx.call(f"{name}:forward", b.forward, jnp.asarray(x), z)
    if not okc:
        return
    y = N(r[0])
    c = SLACK.get(name, 200)
    dx, dy, _ = bounds(f, x, want, 0.0, c)
    ctx.close(y, want, f"{name}:forward-value", atol=0, rtol=0, scale=dy)
    okc, r = ctx.call(f"{name}:reverse", b.reverse, jnp.asarray(want), z)
    if okc:
        ctx.close(N(r[0]), x, f"{name}:reverse-value", atol=0, rtol=0, scale=2 * dx)
    ctx.saw("values", 2 * x.size)


for _i in range(4):

    def _u(ctx, _i=_i):
        K, M = 8, ctx.n(64, 256)
        for rep in range(ctx.n(2, 12)):
            for j, f in enumerate(families(ctx.rng, K, wide=True)):
                if j % 4 == _i:
                    check_family(ctx, f, K, M)

    unit(PROP, f"values-{_i}")(_u)


@unit(PROP)
def defaults(ctx):
    """Documented initial maps of default-constructed instances."""
    from scipy import special

    x = ctx.rng.normal(size=(40,))
    u = ctx.rng.uniform(0.05, 0.95, size=(40,))
    p = ctx.rng.uniform(0.1, 5, size=(40,))
    for shape in [(), (40,), (1,)]:
        rngs = nnx.Rngs(int(ctx.rng.integers(2**31)))
        for name, b, pt, want in [
            ("GaussianCDF", bijx.GaussianCDF(shape, shape, rngs=rngs), x, special.ndtr(x)),
            ("AffineLinear", bijx.AffineLinear(shape, shape, rngs=rngs), x, x),
            ("Scaling", bijx.Scaling(shape, rngs=rngs), x, x),
            ("Shift", bijx.Shift(shape, rngs=rngs), x, x),
            ("Power", bijx.Power(shape, rngs=rngs), p, p),
            ("BetaStretch", bijx.BetaStretch(shape, rngs=rngs), u, u),
        ]:
            ctx.case({"default": name, "param_shape": shape}, count=pt.size)
            okc, r = ctx.call(f"{name}:default-forward", b.forward, jnp.asarray(pt), jnp.zeros(pt.shape))
            if okc:
                ctx.close(N(r[0]), want, f"{name}:default-value", atol=1e-12, rtol=1e-12)
                if name != "GaussianCDF":
                    ctx.close(N(r[1]), np.zeros(pt.shape), f"{name}:default-density", atol=1e-11)
            ctx.saw("defaults")


@unit(PROP)
def constraints(ctx):
    """Constrained parameters stay inside their documented range for any raw value."""
    K = ctx.n(4000, 40000)
    raw = np.concatenate([ctx.rng.normal(size=K) * 10 ** ctx.rng.uniform(-2, 2, K), [0.0, -500.0, 500.0]])
    P = lambda a: nnx.Param(jnp.asarray(a))  # noqa: E731
    z = P(np.zeros_like(raw))
    ctx.case({"raw": raw}, count=raw.size)
    cub = bijx.CubicRational(z, P(raw), P(raw))
    al, be = N(cub.alpha.get_value()), N(cub.beta.get_value())
    ctx.ok(np.all((al >= -1) & (al <= 8)), "CubicRational:alpha-range", lo=al.min(), hi=al.max())
    ctx.ok(np.all(be > 0), "CubicRational:beta-range", lo=be.min())
    i = np.argsort(raw)
    ctx.ok(np.all(np.diff(al[i]) >= -1e-12), "CubicRational:alpha-monotone")
    ctx.close(al[raw == 0], np.zeros((raw == 0).sum()), "CubicRational:alpha-zero-at-raw-zero", atol=1e-12)
    ctx.ok(al.max() > 7.9 and al.min() < -0.9, "CubicRational:alpha-covers", lo=al.min(), hi=al.max())
    from bijx.bijections import analytic

    for low, high in [(-0.5, 3.0), (-1.0, 2.0), (-0.2, 0.9)]:
        f = analytic.SigmoidTransform(low, high)
        c2 = N(bijx.CubicRational(z, P(raw), P(raw), alpha_transform=f).alpha.get_value())
        ctx.ok(np.all((c2 >= low) & (c2 <= high)) and c2.max() > high - 0.05 and c2.min() < low + 0.05,
               "CubicRational:alpha-range[custom]", low=low, high=high, lo=c2.min(), hi=c2.max())
        ctx.close(c2[raw == 0], np.zeros((raw == 0).sum()), "CubicRational:alpha-zero-at-raw-zero[custom]", atol=1e-12)
    a = N(bijx.SinhConjugation(z, P(raw), z, z, z).alpha.get_value())
    ctx.ok(np.all(a > 0), "SinhConjugation:alpha-range", lo=a.min())
    for nm, v in [
        ("GaussianCDF", bijx.GaussianCDF(P(raw), z).scale.get_value()),
        ("BetaStretch", bijx.BetaStretch(P(raw)).a.get_value()),
        ("Power", bijx.Power(P(raw)).exponent.get_value()),
    ]:
        v = N(v)
        ctx.ok(np.all(v >= 0) and np.all(v[np.abs(raw) < 300] [raw[np.abs(raw)<300]!=0] > 0), f"{nm}:positive", lo=v.min())
    ctx.ok(np.all(N(bijx.AffineLinear(P(raw), z).scale.get_value())[np.abs(raw) < 300] > 0), "AffineLinear:positive")


@unit(PROP)
def endpoints(ctx):
    """Closed domains include their finite end points."""
    P = lambda a: nnx.Param(jnp.asarray(a))  # noqa: E731
    for rep in range(ctx.n(6, 40)):
        a = float(ctx.rng.uniform(-2, 4))
        e = float(ctx.rng.uniform(0.2, 4))
        ends = np.array([0.0, 1.0])
        for nm, b in [("BetaStretch", bijx.BetaStretch(P(a))), ("Power", bijx.Power(P(e)))]:
            ctx.case({"family": nm, "a": a, "exponent": e}, count=2)
            for d, f in (("forward", b.forward), ("reverse", b.reverse)):
                okc, r = ctx.call(f"{nm}:{d}[ends]", f, jnp.asarray(ends), jnp.zeros(2))
                if okc:
                    ctx.close(N(r[0]), ends, f"{nm}:{d}[ends]", atol=1e-12)


@unit(PROP)
def cubic_solver(ctx):
    """solve_cubic returns a real root of a x^3 + b x^2 + c x + d (single-root cubics)."""
    K = ctx.n(4000, 40000)
    r = ctx.rng
    x0 = r.normal(size=K) * 3
    p, q = r.normal(size=K) * 2, r.uniform(0.3, 3, K)  # quadratic factor (x-p)^2 + q^2
    lead = r.uniform(0.2, 4, K) * np.sign(r.normal(size=K))
    a = lead
    b = lead * (-2 * p - x0)
    c = lead * (p**2 + q**2 + 2 * p * x0)
    d = -lead * x0 * (p**2 + q**2)
    ctx.case({"cubics": K, "x0": x0}, count=K)
    okc, got = ctx.call("solve_cubic", bijx.solve_cubic, *map(jnp.asarray, (a, b, c, d)))
    if okc:
        sep = (x0 - p) ** 2 + q**2
        size = 1 + np.abs(x0) + np.abs(p) + q
        ctx.close(N(got), x0, "solve_cubic:root", atol=0, rtol=0, scale=1e4 * EPS * size**3 / np.minimum(sep, 1) ** 2)
    ctx.saw("values", K)
