"""C07: coupling layers change only the active part, driven only by the passive part."""

from vlib.core import unit
from vlib.jx import *

PROP = "C07"
RULE = (
    "random masks (checker, random, very uneven, flipped) x event shapes x split/multiplicative x scalar/vector inner "
    "bijections x random conditioners; oracles: exact equality of the passive part, diagonal active Jacobian, per-entry "
    "reference evaluation and dense autodiff Jacobian; non-trivial = active part changed"
)
ASSUMPTIONS = ["float64", "vector inner bijections under multiplicative masking get masks constant along the vector axes"]
MIN_COUNTERS = {"layers": 40, "passive": 300, "jacobians": 30, "independent": 60}


class Net(nnx.Module):
    """A nonlinear conditioner."""

    def __init__(self, rng, nin, nout, out_shape, ein):
        self.w = nnx.Param(jnp.asarray(rng.normal(size=(nin, nout)) * 0.7))
        self.b = nnx.Param(jnp.asarray(rng.normal(size=nout) * 0.3))
        self.out_shape, self.ein = out_shape, ein

    def __call__(self, p):
        batch = p.shape[: p.ndim - self.ein]
        f = p.reshape(batch + (-1,))
        return (jnp.sin(jnp.arcsinh(f) @ self.w[...]) + self.b[...]).reshape(batch + self.out_shape)


def inner(rng, kind):
    rngs = nnx.Rngs(int(rng.integers(2**31)))
    if kind == "affine":
        return bijx.AffineLinear(rngs=rngs), "R"
    if kind == "cubic":
        return bijx.CubicRational(rngs=rngs), "R"
    if kind == "spline":
        return bijx.MonotoneRQSpline(int(rng.integers(3, 7)), (), rngs=rngs), "U"
    if kind == "chain":
        return bijx.Chain(bijx.AffineLinear(rngs=rngs), bijx.Sinh(), bijx.AffineLinear(rngs=rngs)), "R"
    if kind == "stretch":
        return bijx.BetaStretch((), rngs=rngs), "U"
    if kind == "softplus":
        return bijx.Chain(bijx.SoftPlus(), bijx.Power((), rngs=rngs)), "R+"
    if kind == "power":
        return bijx.Power((), rngs=rngs), "P"
    raise KeyError(kind)


def masks(rng, ev, const_axes=0):
    lead = ev[: len(ev) - const_axes]
    n = int(np.prod(lead))
    k = int(rng.integers(0, 3))
    if k == 0 and const_axes == 0:
        m = bijx.checker_mask(ev, bool(rng.integers(2)))
        return (~m if rng.integers(2) else m)
    while True:
        b = rng.random(lead) < (0.5 if k == 1 else 0.2)
        if 0 < b.sum() < n:
            break
    b = np.broadcast_to(b.reshape(lead + (1,) * const_axes), ev)
    m = bijx.BinaryMask.from_boolean_mask(jnp.asarray(b))
    return (~m if rng.integers(2) else m)


def sample(rng, dom, shape):
    if dom == "U":
        return rng.uniform(0.05, 0.95, size=shape)
    if dom == "P":
        return rng.uniform(0.2, 3, size=shape)
    return rng.normal(size=shape)


def run(ctx, kinds, split):
    rng = ctx.rng
    for rep in range(ctx.n(4, 16)):
        for kind in kinds:
            ev = [(4,), (3, 4), (2, 3, 2), (7,), (1, 5)][int(rng.integers(5))]
            batch = [(), (3,), (2, 2), (1,)][int(rng.integers(4))]
            m = masks(rng, ev)
            b, dom = inner(rng, kind)
            tmpl = bijx.ModuleReconstructor(b)
            Pn = tmpl.params_total_size
            mb = N(m.boolean_mask)
            if split:
                nin, osh, ein = m.count_secondary, (m.count_primary, Pn), 1
            else:
                nin, osh, ein = int(np.prod(ev)), ev + (Pn,), len(ev)
            net = Net(rng, nin, int(np.prod(osh)), osh, ein)
            layer = bijx.GeneralCouplingLayer(net, m, tmpl, bijection_event_rank=0, split=split)
            x = sample(rng, dom, batch + ev)
            # passive entries are unrestricted; their size differs between batch items
            x = np.where(mb, x, rng.normal(size=batch + ev) * 10 ** rng.uniform(-2, 3, size=batch + (1,) * len(ev)))
            ld0 = rng.normal(size=batch)
            k = f"coupling[{kind},{'split' if split else 'mult'}]"
            ctx.case({"kind": kind, "split": split, "event": ev, "batch": batch, "mask": mb.astype(int).tolist(), "x": x},
                     count=max(1, int(np.prod(batch))))
            okc, out = ctx.call(k + ":forward", jax.jit(layer.forward), jnp.asarray(x), jnp.asarray(ld0))
            if not okc:
                continue
            y, ld = N(out[0]), N(out[1])
            ctx.saw("layers")
            ctx.ok(y.shape == x.shape and ld.shape == ld0.shape, k + ":shape", got=[y.shape, ld.shape])
            ctx.ok(np.array_equal(y[..., ~mb], x[..., ~mb]), k + ":passive-changed")
            ctx.saw("passive", y[..., ~mb].size)
            # reference: every active entry transformed on its own with the parameters the conditioner gave
            passive = x[..., ~mb] if split else np.where(mb, 0.0, x)
            par = N(net(jnp.asarray(passive))).reshape(batch + osh)
            wy, wld = x.copy(), ld0.copy()
            idxs = np.argwhere(mb)
            for bi in np.ndindex(*batch):
                th = np.stack([par[bi][j] if split else par[bi][tuple(ix)] for j, ix in enumerate(idxs)])
                one = jax.jit(jax.vmap(lambda t, v: tmpl.from_params(t).forward(v, jnp.zeros(()))))
                fy, fl = one(jnp.asarray(th), jnp.asarray(x[bi][mb]))
                wy[bi][mb] = N(fy)
                wld[bi] += N(fl).sum()
            ctx.close(y, wy, k + ":value", atol=1e-10, rtol=1e-10)
            ctx.close(ld, wld, k + ":log-density", atol=1e-9, rtol=1e-9)
            okc, rv = ctx.call(k + ":reverse", jax.jit(layer.reverse), jnp.asarray(y), jnp.asarray(ld))
            if okc:
                ctx.close(N(rv[0]), x, k + ":roundtrip", atol=1e-7, rtol=1e-7)
                ctx.close(N(rv[1]), ld0, k + ":roundtrip-ld", atol=1e-6, rtol=1e-6)
                ctx.ok(np.array_equal(N(rv[0])[..., ~mb], x[..., ~mb]), k + ":passive-changed-reverse")
            x1 = jnp.asarray(x.reshape((-1,) + ev)[0])
            J, j = flat_logdet(lambda z: layer.forward(z, jnp.zeros(()))[0], x1)
            ctx.close(np.asarray((ld - ld0).reshape(-1)[0]), -N(J), k + ":jacobian", atol=1e-8, rtol=1e-8)
            j, f = N(j), mb.ravel()
            ctx.ok(np.array_equal(j[~f][:, ~f], np.eye((~f).sum())) and not j[~f][:, f].any(), k + ":passive-jacobian")
            jj = j[f][:, f]
            ctx.ok(not (jj - np.diag(np.diag(jj))).any(), k + ":active-depends-on-active", jac=jj)
            ctx.saw("independent", int(f.sum()))
            ctx.saw("jacobians")


for _k in ("affine", "cubic", "spline", "chain", "stretch", "softplus", "power"):
    for _s in (True, False):
        unit(PROP, f"{_k}-{'split' if _s else 'mult'}")(lambda ctx, _k=_k, _s=_s: run(ctx, (_k,), _s))


class VecMix(bijx.Bijection):
    """A genuine vector bijection: y = U x + t with U upper triangular, exp(diagonal)."""

    def __init__(self, d):
        self.a = nnx.Param(jnp.zeros((d, d)))
        self.t = nnx.Param(jnp.zeros((d,)))

    def mat(self):
        a = self.a[...]
        return jnp.triu(a, 1) + jnp.diag(jnp.exp(jnp.diag(a)))

    def forward(self, x, ld, **kw):
        return self.mat() @ x + self.t[...], ld - jnp.trace(self.a[...])

    def reverse(self, y, ld, **kw):
        return jax.scipy.linalg.solve_triangular(self.mat(), y - self.t[...]), ld + jnp.trace(self.a[...])


@unit(PROP)
def vector_split(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(6, 20)):
        ev = [(4,), (3, 4), (2, 3, 2)][rep % 3]
        batch = [(), (3,), (2, 2)][int(rng.integers(3))]
        m = masks(rng, ev)
        b = VecMix(m.count_primary)
        tmpl = bijx.ModuleReconstructor(b)
        net = Net(rng, m.count_secondary, tmpl.params_total_size, (tmpl.params_total_size,), 1)
        layer = bijx.GeneralCouplingLayer(net, m, tmpl, bijection_event_rank=1, split=True)
        common(ctx, f"vector-split", rng, layer, m, ev, batch)


@unit(PROP)
def vector_mult(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(6, 20)):
        ev = [(4, 2), (3, 3), (2, 3, 2)][rep % 3]
        batch = [(), (3,), (2, 2)][int(rng.integers(3))]
        m = masks(rng, ev, const_axes=1)
        b = VecMix(ev[-1])
        tmpl = bijx.ModuleReconstructor(b)
        osh = ev[:-1] + (tmpl.params_total_size,)
        net = Net(rng, int(np.prod(ev)), int(np.prod(osh)), osh, len(ev))
        layer = bijx.GeneralCouplingLayer(net, m, tmpl, bijection_event_rank=1, split=False)
        common(ctx, f"vector-mult", rng, layer, m, ev, batch)


def common(ctx, k, rng, layer, m, ev, batch):
    mb = N(m.boolean_mask)
    x, ld0 = rng.normal(size=batch + ev), rng.normal(size=batch)
    ctx.case({"kind": k, "event": ev, "batch": batch, "mask": mb.astype(int).tolist(), "x": x}, count=max(1, int(np.prod(batch))))
    okc, out = ctx.call(k + ":forward", jax.jit(layer.forward), jnp.asarray(x), jnp.asarray(ld0))
    if not okc:
        return
    y, ld = N(out[0]), N(out[1])
    ctx.saw("layers")
    ctx.ok(y.shape == x.shape and ld.shape == ld0.shape, k + ":shape", got=[y.shape, ld.shape])
    ctx.ok(np.array_equal(y[..., ~mb], x[..., ~mb]), k + ":passive-changed")
    ctx.saw("passive", y[..., ~mb].size)
    okc, rv = ctx.call(k + ":reverse", jax.jit(layer.reverse), jnp.asarray(y), jnp.asarray(ld))
    if okc:
        ctx.close(N(rv[0]), x, k + ":roundtrip", atol=1e-7, rtol=1e-7)
        ctx.close(N(rv[1]), ld0, k + ":roundtrip-ld", atol=1e-7, rtol=1e-7)
    for bi in list(np.ndindex(*batch))[:3]:
        x1 = jnp.asarray(x[bi])
        J, j = flat_logdet(lambda z: layer.forward(z, jnp.zeros(()))[0], x1)
        ctx.close(np.asarray(ld[bi] - ld0[bi]), -N(J), k + ":jacobian", atol=1e-8, rtol=1e-8)
        j, f = N(j), mb.ravel()
        ctx.ok(np.array_equal(j[~f][:, ~f], np.eye((~f).sum())) and not j[~f][:, f].any(), k + ":passive-jacobian")
        ctx.saw("jacobians")
