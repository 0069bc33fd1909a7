"""C01: elementwise bijections are inverted by their reverse direction."""

from vlib.core import unit
from vlib.families import *
from vlib.jx import *

PROP = "C01"
RULE = (
    "random parameter vectors x hostile points (interior, near-boundary, zero, tails) "
    "for every elementwise family; a case is non-trivial when the parameters are not the "
    "identity parameterisation and all forward outputs are finite"
)
ASSUMPTIONS = [
    "float64; points where the output is representable away from the range boundary",
    "tolerance is the first-order conditioning bound eps*|y|/|f'(x)| times a constant",
]
MIN_COUNTERS = {"roundtrips": 5000}
SLACK = {  # analytic inverses amplify rounding by a family-specific constant
    "CubicRational": 3e5, "CubicConjugation": 3e5, "SinhConjugation": 3e3,
    "SinhConjugation[tails]": 3e3, "SinhConjugation[switch]": 3e3,
}


def check_family(ctx, f, K, M):
    b, name = f["bij"], f["name"]
    x = draw(f, ctx.rng, K, M)
    desc = {"family": name, "params": {k: v for k, v in f["params"].items()}, "x": x}
    ctx.case(desc, count=x.size, sig=(name, x.tobytes()))
    ld0 = ctx.rng.normal(size=x.shape)
    okc, r = ctx.call(f"{name}:forward", b.forward, jnp.asarray(x), jnp.asarray(ld0))
    if not okc:
        return
    y, ld1 = map(N, r)
    ctx.ok(np.all(np.isfinite(y)) and np.all(np.isfinite(ld1)), f"{name}:finite",
           x=x[~np.isfinite(y + ld1)][:3], y=y[~np.isfinite(y + ld1)][:3])
    okc, r = ctx.call(f"{name}:reverse", b.reverse, jnp.asarray(y), jnp.asarray(ld1))
    if not okc:
        return
    x2, ld2 = map(N, r)
    c = SLACK.get(name, 200)
    dx, dy, dl = bounds(f, x, y, ld0, c)
    ctx.close(x2, x, f"{name}:x-forward-reverse", atol=0, rtol=0, scale=dx)
    ctx.close(ld2, ld0, f"{name}:density-forward-reverse", atol=0, rtol=0, scale=dl)
    ctx.saw("roundtrips", x.size)

    # the other way round, from points of the codomain
    ok2, r = ctx.call(f"{name}:reverse", b.reverse, jnp.asarray(y), jnp.asarray(ld0))
    if not ok2:
        return
    xr, l1 = r
    ok3, r = ctx.call(f"{name}:forward", b.forward, xr, l1)
    if not ok3:
        return
    yr, l2 = map(N, r)
    ctx.close(yr, y, f"{name}:y-reverse-forward", atol=1e-300, rtol=0, scale=2 * dy)
    ctx.close(l2, ld0, f"{name}:density-reverse-forward", atol=0, rtol=0, scale=dl)
    # strict order preservation / reversal (injectivity on the sampled grid)
    xs = np.sort(x, axis=1)
    ys = N(b.forward(jnp.asarray(xs), jnp.zeros(xs.shape))[0])
    d = np.diff(ys, axis=1)
    gap = np.diff(xs, axis=1)
    lo = np.minimum(slope(f, xs)[:, 1:], slope(f, xs)[:, :-1])
    resolvable = gap * lo > 1e3 * c * EPS * np.abs(ys[:, 1:]) + 1e3 * c * EPS
    inc = (d > 0) | ~resolvable
    dec = (d < 0) | ~resolvable
    good = np.all(inc, axis=1) | np.all(dec, axis=1)
    ctx.ok(np.all(good), f"{name}:monotone", row=int(np.argmin(good)))
    ctx.saw("order-pairs", int(resolvable.sum()))


for _i in range(4):

    def _u(ctx, _i=_i):
        K, M = 8, ctx.n(64, 256)
        for rep in range(ctx.n(2, 12)):
            for j, f in enumerate(families(ctx.rng, K, wide=True)):
                if j % 4 == _i:
                    check_family(ctx, f, K, M)

    unit(PROP, f"roundtrip-{_i}")(_u)
