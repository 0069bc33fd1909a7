"""C04: event/batch/parameter broadcasting of elementwise bijections."""

from vlib.core import unit
from vlib.families import *
from vlib.jx import *

PROP = "C04"
RULE = (
    "random (batch shape, event shape, parameter shape) triples incl. rank 0 and size-1 axes for every elementwise "
    "family; oracle sums the longdouble per-entry log-derivative over exactly the event axes and compares each batch "
    "item with a stand-alone evaluation; non-trivial = at least one batch axis or event rank >= 1"
)
ASSUMPTIONS = ["float64", "event rank = rank(x) - rank(log_density), the documented convention"]
MIN_COUNTERS = {"shapes": 60, "items": 100, "kwargs": 3}

SPECS = {
    # name: (constructor(params dict->bij), param samplers, domain, ref value, ref logderiv)
    "AffineLinear": (lambda p: bijx.AffineLinear(p["scale"], p["shift"]),
                     {"scale": lambda r, s: r.normal(size=s), "shift": lambda r, s: r.normal(size=s)},
                     lambda r, s: r.normal(size=s) * 3,
                     lambda x, p: np.exp(p["scale"]) * x + p["shift"], lambda x, p: p["scale"] + 0 * x),
    "Scaling": (lambda p: bijx.Scaling(p["scale"]),
                {"scale": lambda r, s: r.uniform(0.2, 3, s) * np.sign(r.normal(size=s))},
                lambda r, s: r.normal(size=s) * 3,
                lambda x, p: x * p["scale"], lambda x, p: np.log(np.abs(p["scale"])) + 0 * x),
    "Shift": (lambda p: bijx.Shift(p["shift"]), {"shift": lambda r, s: r.normal(size=s)},
              lambda r, s: r.normal(size=s) * 3, lambda x, p: x + p["shift"], lambda x, p: 0 * x),
    "Power": (lambda p: bijx.Power(p["e"]), {"e": lambda r, s: r.uniform(0.3, 3, s)},
              lambda r, s: r.uniform(0.2, 4, s),
              lambda x, p: x ** p["e"], lambda x, p: np.log(p["e"]) + (p["e"] - 1) * np.log(x)),
    "BetaStretch": (lambda p: bijx.BetaStretch(p["a"], transform_a=None),
                    {"a": lambda r, s: r.uniform(0.3, 3, s)}, lambda r, s: r.uniform(0.02, 0.98, s),
                    lambda x, p: x ** p["a"] / (x ** p["a"] + (1 - x) ** p["a"]),
                    lambda x, p: np.log(p["a"]) + (p["a"] - 1) * np.log(x * (1 - x))
                    - 2 * np.log(x ** p["a"] + (1 - x) ** p["a"])),
    "GaussianCDF": (lambda p: bijx.GaussianCDF(p["s"], p["m"], transform_scale=None),
                    {"s": lambda r, s: r.uniform(1.0, 2, s), "m": lambda r, s: r.uniform(-0.5, 0.5, s)},
                    lambda r, s: r.uniform(-3.5, 3.5, s), None,
                    lambda x, p: -0.5 * ((x - p["m"]) / p["s"]) ** 2 - 0.5 * np.log(2 * np.pi) - np.log(p["s"])),
    "CubicRational": (lambda p: bijx.CubicRational(p["l"], p["a"], p["b"], alpha_transform=None, beta_transform=None),
                      {"l": lambda r, s: r.normal(size=s), "a": lambda r, s: r.uniform(-0.9, 7, s),
                       "b": lambda r, s: r.uniform(0.1, 3, s)}, lambda r, s: r.normal(size=s) * 3,
                      lambda x, p: x + p["a"] * (x - p["l"]) / (1 + p["b"] * (x - p["l"]) ** 2),
                      lambda x, p: np.log(1 + p["a"] * (1 - p["b"] * (x - p["l"]) ** 2)
                                          / (1 + p["b"] * (x - p["l"]) ** 2) ** 2)),
    "SinhConjugation": (lambda p: bijx.SinhConjugation(p["l"], p["a"], p["b"], p["m"], p["n"], alpha_transform=None,
                                                      mu_transform=None, nu_transform=None),
                        {"l": lambda r, s: r.normal(size=s), "a": lambda r, s: r.uniform(0.5, 2, s),
                         "b": lambda r, s: r.normal(size=s), "m": lambda r, s: r.normal(size=s),
                         "n": lambda r, s: r.normal(size=s)}, lambda r, s: r.normal(size=s) * 2,
                        lambda x, p: np.arcsinh(np.exp(p["m"]) * (np.exp(p["n"]) * np.sinh((x - p["l"]) / p["a"])
                                                                  + p["b"])) * p["a"] + p["l"],
                        lambda x, p: p["m"] + p["n"] + np.log(np.cosh((x - p["l"]) / p["a"]))
                        - 0.5 * np.log1p((np.exp(p["m"]) * (np.exp(p["n"]) * np.sinh((x - p["l"]) / p["a"])
                                                            + p["b"])) ** 2)),
    "CubicConjugation": (lambda p: bijx.CubicConjugation(p["l"], p["be"], p["a"], p["b"]),
                         {"l": lambda r, s: r.normal(size=s), "be": lambda r, s: r.normal(size=s),
                          "a": lambda r, s: r.normal(size=s), "b": lambda r, s: r.normal(size=s)},
                         lambda r, s: r.normal(size=s) * 2, None, None),
    "Sigmoid": (lambda p: bijx.Sigmoid(), {}, lambda r, s: r.normal(size=s) * 2,
                lambda x, p: 1 / (1 + np.exp(-x)), lambda x, p: -x - 2 * np.log1p(np.exp(-x))),
    "Tanh": (lambda p: bijx.Tanh(), {}, lambda r, s: r.normal(size=s), lambda x, p: np.tanh(x),
             lambda x, p: -2 * np.log(np.cosh(x))),
    "Tan": (lambda p: bijx.Tan(), {}, lambda r, s: r.uniform(0.05, 0.95, s),
            lambda x, p: np.tan(np.pi * (x - 0.5)), lambda x, p: np.log(np.pi) - 2 * np.log(np.cos(np.pi * (x - 0.5)))),
    "Exponential": (lambda p: bijx.Exponential(), {}, lambda r, s: r.normal(size=s), lambda x, p: np.exp(x), lambda x, p: x),
    "SoftPlus": (lambda p: bijx.SoftPlus(), {}, lambda r, s: r.normal(size=s), lambda x, p: np.log1p(np.exp(x)),
                 lambda x, p: -np.log1p(np.exp(-x))),
    "Sinh": (lambda p: bijx.Sinh(), {}, lambda r, s: r.normal(size=s), lambda x, p: np.sinh(x), lambda x, p: np.log(np.cosh(x))),
}

SHAPES = [(), (1,), (3,), (2, 3), (2, 1), (2, 3, 2)]
BATCH = [(), (4,), (1,), (2, 3), (3, 1, 2)]


def pshape(rng, event):
    """A parameter shape that broadcasts against the event by numpy rules."""
    k = int(rng.integers(0, len(event) + 1))
    s = list(event[len(event) - k:])
    for i in range(len(s)):
        if rng.random() < 0.25:
            s[i] = 1
    return tuple(s)


def one(ctx, name, batch, event):
    build, samplers, dom, ref, dref = SPECS[name]
    r = ctx.rng
    raw = {k: f(r, pshape(r, event)) for k, f in samplers.items()}
    b = build({k: nnx.Param(jnp.asarray(v)) for k, v in raw.items()})
    x = np.asarray(dom(r, batch + event))
    ld0 = np.asarray(r.normal(size=batch))
    desc = {"family": name, "batch": batch, "event": event,
            "pshapes": {k: np.shape(v) for k, v in raw.items()}}
    ctx.case({**desc, "x": x}, nontrivial=bool(batch or event), sig=(name, batch, event, str(desc["pshapes"]), x.tobytes()))
    okc, res = ctx.call(f"{name}:forward", b.forward, jnp.asarray(x), jnp.asarray(ld0))
    if not okc:
        return
    y, ld = map(N, res)
    ctx.saw("shapes")
    ctx.ok(y.shape == x.shape, f"{name}:value-shape", got=y.shape, want=x.shape)
    if not ctx.ok(ld.shape == ld0.shape, f"{name}:density-shape", got=ld.shape, want=ld0.shape):
        return
    ax = tuple(range(len(batch), len(batch) + len(event)))
    if ref is not None:
        ctx.close(y, ref(x, raw), f"{name}:broadcast-value", atol=1e-11, rtol=1e-11)
    if dref is not None:
        lj = np.broadcast_to(dref(x, raw), x.shape)
        ctx.close(ld0 - ld, lj.sum(axis=ax), f"{name}:event-sum-forward", atol=1e-7, rtol=1e-9)
    okc, res = ctx.call(f"{name}:reverse", b.reverse, jnp.asarray(y), jnp.asarray(ld0))
    if okc and y.shape == x.shape:
        ctx.ok(N(res[1]).shape == ld0.shape, f"{name}:density-shape-reverse")
        if dref is not None:
            ctx.close(N(res[1]) - ld0, lj.sum(axis=ax), f"{name}:event-sum-reverse", atol=1e-7, rtol=1e-9)
    # every batch item on its own
    idx = list(np.ndindex(*batch))
    for i in [idx[j] for j in r.choice(len(idx), size=min(2, len(idx)), replace=False)]:
        yi, li = b.forward(jnp.asarray(x[i]), jnp.asarray(ld0[i]))
        ctx.close(N(yi), y[i], f"{name}:item-value", atol=1e-12, rtol=1e-12)
        ctx.close(N(li), ld[i], f"{name}:item-density", atol=1e-11, rtol=1e-11)
        ctx.saw("items")


names = list(SPECS)
for _i in range(5):

    def _u(ctx, _i=_i):
        for name in names[_i::5]:
            combos = [(b, e) for b in BATCH for e in SHAPES]
            ctx.rng.shuffle(combos)
            for b, e in combos[: ctx.n(8, 30)]:
                one(ctx, name, tuple(b), tuple(e))

    unit(PROP, f"shapes-{_i}", cost=2)(_u)


def spline_case(ctx, batch, event):
    """Event reduction of the element-wise spline layer."""
    r = ctx.rng
    b = bijx.MonotoneRQSpline(5, event, rngs=nnx.Rngs(int(r.integers(2**31))))
    perturb(b, r, 1.0)
    x = r.uniform(-0.3, 1.3, batch + event)
    ld0 = np.asarray(r.normal(size=batch))
    ctx.case({"spline": 1, "batch": batch, "event": event, "x": x})
    fwd = jax.jit(lambda v, l: b.forward(v, l))
    y, ld = map(N, fwd(jnp.asarray(x), jnp.asarray(ld0)))
    ctx.ok(y.shape == x.shape and ld.shape == ld0.shape, "spline:shape", y=y.shape, ld=ld.shape)
    g = N(jax.jit(lambda v: elementwise_grad(lambda u: b.forward(u, jnp.zeros(batch))[0], v))(x))
    ax = tuple(range(len(batch), x.ndim))
    ctx.close(ld0 - ld, np.log(np.abs(g)).sum(axis=ax), "spline:event-sum", atol=1e-9, rtol=1e-9)
    single = jax.jit(lambda v, l: b.forward(v, l))
    for i in list(np.ndindex(*batch))[:3]:
        yi, li = single(jnp.asarray(x[i]), jnp.asarray(ld0[i]))
        ctx.close(N(yi), y[i], "spline:item-value", atol=1e-12)
        ctx.close(N(li), ld[i], "spline:item-density", atol=1e-11)
        ctx.saw("items")
    ctx.saw("shapes")


for _e in [(), (3,), (2, 3)]:

    def _s(ctx, _e=_e):
        for batch in [(), (3,), (2, 2)][: ctx.n(3, 3)]:
            spline_case(ctx, batch, _e)

    unit(PROP, f"spline-{len(_e)}", cost=3)(_s)


@unit(PROP)
def keyword_delivery(ctx):
    """Keyword arguments reach the map and its log-derivative, in both directions."""
    seen = []

    class Cond(bijx.ScalarBijection):
        def fwd(self, x, *, c, **kw):
            seen.append(("fwd", set(kw)))
            return x * c

        def rev(self, y, *, c, **kw):
            seen.append(("rev", set(kw)))
            return y / c

        def log_jac(self, x, y, *, c=None, **kw):
            seen.append(("log_jac", set(kw)))
            if c is None:
                return jnp.full(jnp.shape(x), jnp.nan)
            return jnp.broadcast_to(jnp.log(jnp.abs(c)), jnp.shape(x))

    for c in [2.5, -0.3, ctx.rng.uniform(0.5, 4, (3,))]:
        x = ctx.rng.normal(size=(2, 3))
        ld0 = ctx.rng.normal(size=2)
        ctx.case({"kwargs": "c", "c": c, "x": x})
        okc, res = ctx.call("kwargs:forward", Cond().forward, jnp.asarray(x), jnp.asarray(ld0), c=jnp.asarray(c), other=1)
        if okc:
            lj = np.broadcast_to(np.log(np.abs(c)), x.shape).sum(-1)
            ctx.close(N(res[0]), x * c, "kwargs:forward-value")
            ctx.close(ld0 - N(res[1]), lj, "kwargs:forward-density")
        okc, res = ctx.call("kwargs:reverse", Cond().reverse, jnp.asarray(x * c), jnp.asarray(ld0), c=jnp.asarray(c), other=1)
        if okc:
            ctx.close(N(res[0]), x, "kwargs:reverse-value")
            ctx.close(N(res[1]) - ld0, lj, "kwargs:reverse-density")
        ctx.saw("kwargs")
    # unrelated keywords are ignored by every built-in elementwise bijection
    for f in families(ctx.rng, 2):
        x = draw(f, ctx.rng, 2, 3)
        ctx.case({"ignored-kwarg": f["name"]})
        okc, a = ctx.call(f"{f['name']}:kwargs", f["bij"].forward, jnp.asarray(x), jnp.zeros(x.shape), unused=jnp.ones(2))
        if okc:
            b_ = f["bij"].forward(jnp.asarray(x), jnp.zeros(x.shape))
            ctx.close(N(a[0]), N(b_[0]), f"{f['name']}:kwargs-value", atol=0, rtol=0)
            ctx.close(N(a[1]), N(b_[1]), f"{f['name']}:kwargs-density", atol=0, rtol=0)
        okc, a = ctx.call(f"{f['name']}:kwargs-reverse", f["bij"].reverse, a[0], a[1], unused=jnp.ones(2))
        ctx.saw("kwargs")
