"""C06: radial bijections move points along rays from the centre only."""

from vlib.core import unit
from vlib.families import L
from vlib.jx import *

PROP = "C06"
RULE = (
    "random centre/scale/scalar-map parameters x points on random rays, near and exactly at the centre, in n=1..5 with "
    "several batch shapes; oracle is the closed form c + f(|S(x-c)|) x-hat re-evaluated outside the class plus the dense "
    "autodiff Jacobian of the executed map; non-trivial = scalar map is not the identity"
)
ASSUMPTIONS = ["float64", "scalar map increasing with f(0)=0 (documented precondition)"]
MIN_COUNTERS = {"points": 150, "jacobians": 60, "origins": 20, "rays": 200, "conditional": 60, "ray_arguments": 30}


def scalar_maps(rng, rngs):
    """(name, bijection, f(r) -> value, f'(r) -> derivative) for R+ -> R+."""
    out = []
    s = float(rng.uniform(0.3, 3))
    out.append(("scaling", bijx.Scaling(jnp.asarray(s)), lambda r: s * r, lambda r: s + 0 * r))
    out.append(("sinh", bijx.Sinh(), np.sinh, np.cosh))
    a, b, l = rng.uniform(-0.8, 5), rng.uniform(0.2, 2), rng.normal()
    cr = lambda x: x + a * (x - l) / (1 + b * (x - l) ** 2)
    dcr = lambda x: 1 + a * (1 - b * (x - l) ** 2) / (1 + b * (x - l) ** 2) ** 2
    out.append(("ray-cubic", bijx.RayTransform(bijx.CubicRational(
        jnp.asarray(l), jnp.asarray(a), jnp.asarray(b), alpha_transform=None, beta_transform=None)),
        lambda r: cr(r) - cr(0.0), dcr))
    t = float(rng.normal())
    k = float(rng.uniform(0.3, 2.5))
    out.append(("ray-affine", bijx.RayTransform(bijx.AffineLinear(jnp.asarray(np.log(k)), jnp.asarray(t))),
                lambda r: k * r, lambda r: k + 0 * r))
    out.append(("ray-softplus", bijx.RayTransform(bijx.SoftPlus()),
                lambda r: np.log1p(np.exp(r)) - np.log(2.0), lambda r: 1 / (1 + np.exp(-r))))
    out.append(("ray-exp", bijx.RayTransform(bijx.Exponential()), np.expm1, np.exp))
    return out


def make(rng, f, n, mode):
    rngs = nnx.Rngs(int(rng.integers(2**31)))
    if mode == "params":
        c, ls = rng.normal(size=n) * 2, rng.normal(size=n) * 0.6
    elif mode == "scalar":
        c, ls = np.asarray(rng.normal()), np.asarray(rng.normal() * 0.5)
    else:
        c, ls = None, None
    if mode == "default":
        r = bijx.Radial(f, center=(n,), scale=(n,), rngs=rngs)
        c, ls = N(r.center[...]), N(r.log_scale[...])
    else:
        r = bijx.Radial(f, center=jnp.asarray(c), scale=jnp.asarray(ls), rngs=rngs)
    return r, np.asarray(c, float), np.exp(np.asarray(ls, float))


def reference(x, c, S, f, df):
    n = x.shape[-1]
    y = (x - c) * S
    r = np.sqrt((np.asarray(y, L) ** 2).sum(-1)).astype(float)
    fr, d = f(r), df(r)
    safe = np.where(r > 0, r, 1)
    out = c + np.where(r > 0, fr / safe, d)[..., None] * y / S
    ld = np.log(d) + (n - 1) * np.log(np.where(r > 0, fr / safe, d))
    return out, ld


for _i in range(3):

    def _u(ctx, _i=_i):
        for rep in range(ctx.n(2, 10)):
            for n in range(1, 6):
                if (n + rep) % 3 != _i:
                    continue
                for name, f, fv, df in scalar_maps(ctx.rng, None):
                    mode = ["params", "scalar", "default"][int(ctx.rng.integers(3))]
                    b, c, S = make(ctx.rng, f, n, mode)
                    batch = [(), (5,), (2, 3)][int(ctx.rng.integers(3))]
                    x = ctx.rng.normal(size=batch + (n,)) * 1.5
                    ld0 = ctx.rng.normal(size=batch)
                    k = f"radial[{name}]"
                    ctx.case({"map": name, "n": n, "mode": mode, "c": c, "S": S, "x": x}, count=max(1, int(np.prod(batch))))
                    okc, r = ctx.call(k + ":forward", b.forward, jnp.asarray(x), jnp.asarray(ld0))
                    if not okc:
                        continue
                    y, ld = N(r[0]), N(r[1])
                    wy, wld = reference(x, c, S, fv, df)
                    ctx.close(y, wy, k + ":value", atol=1e-10, rtol=1e-9)
                    ctx.close(ld, ld0 - wld, k + ":log-density", atol=1e-9, rtol=1e-9)
                    ctx.saw("points", max(1, int(np.prod(batch))))
                    # rays: S(y-c) is a positive multiple of S(x-c)
                    u, v = (x - c) * S, (y - c) * S
                    nu, nv = np.linalg.norm(u, axis=-1), np.linalg.norm(v, axis=-1)
                    ctx.close((u * v).sum(-1), nu * nv, k + ":ray", atol=1e-10, rtol=1e-9)
                    ctx.saw("rays", max(1, int(np.prod(batch))))
                    okc, r = ctx.call(k + ":reverse", b.reverse, jnp.asarray(y), jnp.asarray(ld))
                    if okc:
                        ctx.close(N(r[0]), x, k + ":roundtrip", atol=1e-8, rtol=1e-7)
                        ctx.close(N(r[1]), ld0, k + ":roundtrip-ld", atol=1e-7, rtol=1e-7)
                    okc, r = ctx.call(k + ":reverse", b.reverse, jnp.asarray(x), jnp.asarray(ld0)) if name != "ray-softplus" else (False, 0)
                    if okc:
                        ok2, r2 = ctx.call(k + ":forward", b.forward, r[0], r[1])
                        if ok2 and np.all(np.isfinite(N(r[0]))):
                            ctx.close(N(r2[0]), x, k + ":roundtrip2", atol=1e-8, rtol=1e-7)
                            ctx.close(N(r2[1]), ld0, k + ":roundtrip2-ld", atol=1e-7, rtol=1e-7)
                    # dense Jacobian of what was executed
                    x1 = jnp.asarray(x.reshape(-1, n)[0])
                    J, _ = flat_logdet(lambda z: b.forward(z, jnp.zeros(()))[0], x1)
                    _, l1 = b.forward(x1, jnp.zeros(()))
                    ctx.close(N(l1), -N(J), k + ":jacobian", atol=1e-8, rtol=1e-8)
                    ctx.saw("jacobians")
                    # the centre and its limit
                    cc = np.broadcast_to(c, (n,)).copy()
                    okc, r = ctx.call(k + ":centre", b.forward, jnp.asarray(cc), jnp.zeros(()))
                    if okc:
                        ctx.close(N(r[0]), cc, k + ":centre-fixed", atol=1e-12, rtol=1e-12)
                        ctx.close(N(r[1]), np.asarray(-n * np.log(df(np.zeros(())))), k + ":centre-ld", atol=1e-9, rtol=1e-9)
                        ctx.saw("origins")
                    okc, r = ctx.call(k + ":centre", b.reverse, jnp.asarray(cc), jnp.zeros(()))
                    if okc:
                        ctx.close(N(r[0]), cc, k + ":centre-fixed", atol=1e-12, rtol=1e-12)
                        ctx.close(N(r[1]), np.asarray(n * np.log(df(np.zeros(())))), k + ":centre-ld", atol=1e-9, rtol=1e-9)
                    xe = cc + 1e-7 * ctx.rng.normal(size=n)
                    _, lde = b.forward(jnp.asarray(xe), jnp.zeros(()))
                    ctx.close(N(lde), np.asarray(-n * np.log(df(np.zeros(())))), k + ":near-centre-ld", atol=3e-5, rtol=3e-5)

    unit(PROP, f"radial-{_i}")(_u)


@unit(PROP)
def ray_transform(ctx):
    """RayTransform(b) is b - b(0), with b's log-derivative, in both directions."""
    for rep in range(ctx.n(3, 20)):
        for b in [
            bijx.SoftPlus(), bijx.Exponential(),
            bijx.AffineLinear(jnp.asarray(ctx.rng.normal()), jnp.asarray(ctx.rng.normal())),
            bijx.SinhConjugation(*[jnp.asarray(v) for v in (ctx.rng.normal(), 1.3, ctx.rng.normal(), 0.3, -0.2)],
                                 alpha_transform=None, mu_transform=None, nu_transform=None),
            bijx.Chain(bijx.Sinh(), bijx.Shift(jnp.asarray(0.7))),
        ]:
            name = type(b).__name__
            x = np.abs(ctx.rng.normal(size=(7,)))
            x[0] = 0.0
            ld0 = ctx.rng.normal(size=(7,))
            ctx.case({"ray": name, "x": x, "rep": rep}, count=7)
            r = bijx.RayTransform(b)
            okc, o = ctx.call(f"ray[{name}]", r.forward, jnp.asarray(x), jnp.asarray(ld0))
            if not okc:
                continue
            fy, fld = b.forward(jnp.asarray(x), jnp.asarray(ld0))
            f0, _ = b.forward(jnp.zeros(()), jnp.zeros(()))
            ctx.close(N(o[0]), N(fy) - N(f0), f"ray[{name}]:value", atol=1e-12, rtol=1e-12)
            ctx.close(N(o[0])[0], np.asarray(0.0), f"ray[{name}]:zero", atol=0, rtol=0)
            ctx.close(N(o[1]), N(fld), f"ray[{name}]:ld", atol=1e-12, rtol=1e-12)
            okc, q = ctx.call(f"ray[{name}]", r.reverse, o[0], o[1])
            if okc:
                ctx.close(N(q[0]), x, f"ray[{name}]:roundtrip", atol=1e-9, rtol=1e-9)
                ctx.close(N(q[1]), ld0, f"ray[{name}]:roundtrip-ld", atol=1e-8, rtol=1e-8)
            okc, o2 = ctx.call(f"ray[{name}]:kwargs", r.forward, jnp.asarray(x), jnp.asarray(ld0), unused=1)
            if okc:
                ctx.close(N(o2[0]), N(o[0]), f"ray[{name}]:kwargs", atol=0, rtol=0)


class Tilt(bijx.Bijection):
    """x -> exp(a t) x + b t: value at the origin and slope both follow a call-time argument."""

    def forward(self, x, ld, *, t=0.5, **kw):
        return jnp.exp(0.6 * t) * x + 0.8 * t, ld - 0.6 * t

    def reverse(self, y, ld, *, t=0.5, **kw):
        return (y - 0.8 * t) * jnp.exp(-0.6 * t), ld + 0.6 * t


@unit(PROP)
def ray_arguments(ctx):
    """A call-time argument reaches both evaluations (point and offset), in both directions."""
    for rep in range(ctx.n(10, 60)):
        t = float(ctx.rng.normal())
        x, ld0 = np.abs(ctx.rng.normal(size=5)), ctx.rng.normal(size=5)
        r = bijx.RayTransform(Tilt())
        ctx.case({"t": t, "x": x}, count=5)
        for kw, s in (({"t": t}, t), ({}, 0.5), ({"t": t, "other": 1}, t)):
            okc, o = ctx.call("ray[arguments]", r.forward, jnp.asarray(x), jnp.asarray(ld0), **kw)
            if okc:
                ctx.close(N(o[0]), np.exp(0.6 * s) * x, "ray[arguments]:value", atol=1e-12, rtol=1e-12)
                ctx.close(N(o[1]), ld0 - 0.6 * s, "ray[arguments]:ld", atol=1e-12, rtol=1e-12)
            okc, o = ctx.call("ray[arguments]", r.reverse, jnp.asarray(x), jnp.asarray(ld0), **kw)
            if okc:
                ctx.close(N(o[0]), np.exp(-0.6 * s) * x, "ray[arguments]:reverse-value", atol=1e-12, rtol=1e-12)
                ctx.close(N(o[1]), ld0 + 0.6 * s, "ray[arguments]:reverse-ld", atol=1e-12, rtol=1e-12)
            ctx.saw("ray_arguments")


class Net(nnx.Module):
    def __init__(self, w, b):
        self.w, self.b = nnx.Param(jnp.asarray(w)), nnx.Param(jnp.asarray(b))

    def __call__(self, v):
        return jnp.tanh(v @ self.w[...]) + self.b[...]


def conditional(ctx, name_):
    """Direction-dependent radial maps: parameters depend on the unit direction only."""
    for rep in range(ctx.n(3, 12)):
        for n in (1, 2, 3, 4):
            for name in (name_,):
                rng = ctx.rng
                rngs = nnx.Rngs(int(rng.integers(2**31)))
                if name == "scaling":
                    sb = bijx.RayTransform(bijx.AffineLinear((), (), rngs=rngs))
                elif name == "cubic":
                    sb = bijx.RayTransform(bijx.CubicRational(rngs=rngs))
                else:
                    sb = bijx.MonotoneRQSpline(5, (), rngs=rngs)
                tmpl = bijx.ModuleReconstructor(sb)
                P = tmpl.params_total_size
                net = Net(rng.normal(size=(n, P)), rng.normal(size=P) * 0.3)
                c, ls = rng.normal(size=n), rng.normal(size=n) * 0.4
                b = bijx.RadialConditional(sb, net, center=jnp.asarray(c), scale=jnp.asarray(ls))
                S = np.exp(ls)
                batch = [(), (4,), (2, 2)][int(rng.integers(3))]
                v = rng.normal(size=batch + (n,))
                r = rng.uniform(0.05, 0.95 if name == "spline" else 2.5, size=batch)
                x = c + v / np.linalg.norm(v, axis=-1, keepdims=True) * r[..., None] / S
                ld0 = rng.normal(size=batch)
                k = f"radialcond[{name}]"
                ctx.case({"map": name, "n": n, "c": c, "x": x}, count=max(1, int(np.prod(batch))))
                okc, out = ctx.call(k + ":forward", b.forward, jnp.asarray(x), jnp.asarray(ld0))
                if not okc:
                    continue
                y, ld = N(out[0]), N(out[1])
                # independent per-point evaluation
                for idx in np.ndindex(*batch):
                    u = (x[idx] - c) * S
                    rr = np.linalg.norm(u)
                    th = net(jnp.asarray(u / rr))
                    one = tmpl.from_params(th)
                    fr, dl = one.forward(jnp.asarray(rr), jnp.zeros(()))
                    fr, dl = float(fr), float(dl)
                    ctx.close(y[idx], c + fr * u / rr / S, k + ":value", atol=1e-9, rtol=1e-9)
                    want = ld0[idx] + dl - (n - 1) * np.log(fr / rr)
                    ctx.close(ld[idx], want, k + ":log-density", atol=1e-8, rtol=1e-8)
                    ctx.saw("conditional")
                okc, rv = ctx.call(k + ":reverse", b.reverse, jnp.asarray(y), jnp.asarray(ld))
                if okc:
                    ctx.close(N(rv[0]), x, k + ":roundtrip", atol=1e-8, rtol=1e-7)
                    ctx.close(N(rv[1]), ld0, k + ":roundtrip-ld", atol=1e-6, rtol=1e-6)
                # exactly at the centre (parameters not depending on the direction): the limit along any ray
                b0 = bijx.RadialConditional(sb, Net(np.zeros((n, P)), rng.normal(size=P) * 0.3), center=jnp.asarray(c), scale=jnp.asarray(ls))
                e = c + 1e-8 * v.reshape(-1, n)[0]
                for way in ("forward", "reverse"):
                    okc, at = ctx.call(f"{k}:centre:{way}", getattr(b0, way), jnp.stack([jnp.asarray(c), jnp.asarray(e)]), jnp.zeros(2))
                    if okc:
                        ctx.close(N(at[0])[0], c, f"{k}:centre-fixed", atol=1e-12, rtol=1e-12)
                        ctx.close(N(at[1])[0], N(at[1])[1], f"{k}:centre-ld", atol=1e-5, rtol=1e-5, way=way)
                        ctx.saw("origins")
                x1 = jnp.asarray(x.reshape(-1, n)[0])
                J, _ = flat_logdet(lambda z: b.forward(z, jnp.zeros(()))[0], x1)
                _, l1 = b.forward(x1, jnp.zeros(()))
                ctx.close(N(l1), -N(J), k + ":jacobian", atol=1e-7, rtol=1e-7)
                ctx.saw("jacobians")


for _n in ("scaling", "cubic", "spline"):
    unit(PROP, "conditional-" + _n)(lambda ctx, _n=_n: conditional(ctx, _n))
