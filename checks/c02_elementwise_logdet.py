"""C02: elementwise bijections report the exact log-derivative of the map they apply."""

from vlib.core import unit
from vlib.families import *
from vlib.jx import *

PROP = "C02"
RULE = (
    "random parameter vectors x hostile points for every elementwise family; oracle is (a) forward-mode "
    "autodiff of the map actually applied and (b) an independent longdouble log-derivative; non-trivial when "
    "the derivative differs from 1 somewhere in the batch"
)
ASSUMPTIONS = ["float64", "jax.jvp differentiates the executed forward map correctly"]
MIN_COUNTERS = {"derivatives": 5000}
SLACK = {"CubicRational": 3e5, "CubicConjugation": 3e5, "SinhConjugation": 3e3,
         "SinhConjugation[tails]": 3e3, "SinhConjugation[switch]": 3e3}


def check_family(ctx, f, K, M):
    b, name = f["bij"], f["name"]
    x = draw(f, ctx.rng, K, M)
    want = np.asarray(f["dref"](np.asarray(x, L)), float)
    ld0 = ctx.rng.normal(size=x.shape) * 3
    ctx.case({"family": name, "params": f["params"], "x": x}, count=x.size,
             nontrivial=bool(np.any(np.abs(want) > 1e-12)), sig=(name, x.tobytes()))
    okc, r = ctx.call(f"{name}:forward", b.forward, jnp.asarray(x), jnp.asarray(ld0))
    if not okc:
        return
    y, ld = map(N, r)
    c = SLACK.get(name, 200)
    dx, dy, dl = bounds(f, x, y, ld0, c)
    ctx.close(ld0 - ld, want, f"{name}:forward-density-vs-reference", atol=0, rtol=0, scale=dl)
    # autodiff of what was executed
    auto = "[wide]" not in name  # autodiff of the same formulas over- or underflows in the far tails
    okc, t = auto and ctx.call(f"{name}:jvp", elementwise_grad,
                      lambda v: b.forward(v, jnp.zeros(v.shape))[0], x) or (False, None)
    if okc:
        g = np.log(np.abs(N(t)))
        # autodiff itself loses accuracy where f' underflows against intermediates
        ctx.close(ld0 - ld, g, f"{name}:forward-density-vs-autodiff", atol=0, rtol=0, scale=20 * dl + 1e-13)
    okc, r = ctx.call(f"{name}:reverse", b.reverse, jnp.asarray(y), jnp.asarray(ld0))
    if okc:
        ldr = N(r[1])
        ctx.close(ldr - ld0, want, f"{name}:reverse-density-vs-reference", atol=0, rtol=0, scale=2 * dl)
        okc, t = auto and ctx.call(f"{name}:reverse-jvp", elementwise_grad,
                                   lambda v: b.reverse(v, jnp.zeros(v.shape))[0], y) or (False, None)
        if okc:
            g = -np.log(np.abs(N(t)))
            ctx.close(ldr - ld0, g, f"{name}:reverse-density-vs-autodiff", atol=0, rtol=0, scale=20 * dl + 1e-13)
    ctx.saw("derivatives", 2 * x.size)


for _i in range(4):

    def _u(ctx, _i=_i):
        K, M = 8, ctx.n(64, 256)
        for rep in range(ctx.n(2, 12)):
            for j, f in enumerate(families(ctx.rng, K, wide=True)):
                if j % 4 == _i:
                    check_family(ctx, f, K, M)

    unit(PROP, f"logdet-{_i}")(_u)
