"""C17: vector fields report the exact negative divergence of the velocity they return."""

from functools import partial

from vlib.core import unit
from vlib.jx import *
from bijx.nn import conv as C
from bijx.nn import embeddings as E
from bijx.nn import features as F

PROP = "C17"
RULE = (
    "random automatic-Jacobian and convolutional vector fields (kernel sizes odd/even/lattice sized, 1-3 dimensions, 1-3 "
    "channels, all options of the builder, every time embedding and feature map) with randomised parameters; oracle is the trace of "
    "the dense autodiff Jacobian of the returned velocity, per batch item, plus lattice symmetry of the executed field"
)
ASSUMPTIONS = ["float64", "convolution kernel not larger than the lattice", "symmetric kernels (a symmetry function is given)"]
MIN_COUNTERS = {"autojac": 15, "conv": 12, "features": 15, "symmetries": 12}


def trace(f, x):
    J = jax.jit(jax.jacfwd(lambda v: jnp.ravel(f(v.reshape(x.shape)))))(jnp.ravel(x))
    return float(np.trace(N(J)))


@unit(PROP)
def autojac(ctx):
    rng = ctx.rng
    for i in range(ctx.n(10, 80)):
        ev = [(), (1,), (3,), (2, 2), (2, 1, 3), (4,)][i % 6]
        n = int(np.prod(ev))
        W, U = rng.normal(size=(n, n)), rng.normal(size=(n, n))
        batch = [(), (3,), (2, 2), (1,)][int(rng.integers(4))]

        def base(t, x, amp=1.0, shift=0.0):
            v = x.reshape(x.shape[: x.ndim - len(ev)] + (n,))
            v = amp * jnp.tanh(v @ W.T + t) @ U.T + shift
            return v.reshape(x.shape)

        if rng.random() < 0.5:
            class Mod(nnx.Module):
                def __init__(self):
                    self.s = nnx.Param(jnp.asarray(1.7))

                def __call__(self, t, x, **k):
                    return self.s * base(t, x, **k)

            vf0 = Mod()
        else:
            vf0 = base
        vf = bijx.AutoJacVF(vf0, event_dim=len(ev))
        kw = {"amp": float(rng.normal())} if rng.random() < 0.6 else {}
        t, x = float(rng.normal()), jnp.asarray(rng.normal(size=batch + ev))
        ctx.case({"ev": ev, "batch": batch, "kw": sorted(kw), "module": vf0 is not base}, sig=i)
        okc, r = ctx.call("autojac", lambda: vf(t, x, **kw))
        if not okc:
            continue
        v, d = r
        ctx.close(N(v), N(vf0(t, x, **kw)), "autojac:velocity", atol=1e-12, rtol=1e-10)
        if ctx.ok(d.shape == batch, "autojac:shape", got=d.shape, want=batch):
            xs = x.reshape((-1,) + ev)
            for j, dj in enumerate(np.ravel(N(d))[:3]):
                ctx.saw("autojac")
                ctx.close(np.float64(dj), np.float64(-trace(lambda y: vf0(t, y, **kw), xs[j])), "autojac:divergence", atol=1e-9, rtol=1e-9)


def random_vf(ctx, i):
    """A built ConvVF with randomised parameters and options."""
    rng = ctx.rng
    dim = [2, 1, 2, 3, 2, 2][i % 6]
    k = [3, 5, 2, 3, 4, 1][i % 6]
    L = k + int(rng.integers(0, 3)) if dim < 3 else k
    if i % 7 == 6:
        L = k
    ch = [(), (1,), (2,), (2,), (3,), ()][int(rng.integers(6))] if i else (2,)
    sym = C.kernel_d4 if rng.random() < 0.6 else C.kernel_equidist
    tk = [E.KernelFourier(5), E.KernelFourier(6), E.KernelGauss(6), E.KernelLin(5), E.PositionalEmbedding(4)][int(rng.integers(5))]
    feats = [
        (partial(F.FourierFeatures, 4), partial(F.PolynomialFeatures, (1,))),
        (partial(F.PolynomialFeatures, (0, 1, 2, 3)),),
        (partial(F.FourierFeatures, 3),),
        (partial(F.FourierFeatures, 2), partial(F.FourierFeatures, 3), partial(F.PolynomialFeatures, (1, 3))),
    ][int(rng.integers(4))]
    kw = dict(symmetry=sym, use_bias=bool(rng.random() < 0.4), time_kernel=tk,
              time_kernel_reduced=None if rng.random() < 0.4 else int(rng.integers(1, 5)),
              features=feats, features_reduced=None if rng.random() < 0.4 else int(rng.integers(1, 5)))
    desc = {"dim": dim, "k": k, "L": L, "ch": ch, "sym": sym.__name__, "emb": type(tk).__name__, "feats": len(feats),
            "bias": kw["use_bias"], "tr": kw["time_kernel_reduced"], "fr": kw["features_reduced"]}
    ctx.case(desc, nontrivial=True, sig=(i, str(desc)))
    okc, vf = ctx.call("conv:build", lambda: bijx.ConvVF.build((k,) * dim, ch, rngs=nnx.Rngs(int(rng.integers(2**30))), **kw))
    if okc:
        perturb(vf, rng, 0.7)
    return okc, vf, (L,) * dim, ch, k


@unit(PROP)
def conv_divergence(ctx):
    conv_unit(ctx, 0)


@unit(PROP)
def conv_divergence_2(ctx):
    conv_unit(ctx, 1)


def conv_unit(ctx, part):
    rng = ctx.rng
    for i in range(part, ctx.n(16, 100), 2):
        okc, vf, lat, ch, k = random_vf(ctx, i)
        if not okc:
            continue
        batch = [(), (2,), (2, 1), (3,)][int(rng.integers(4))]
        t = float(rng.uniform(0, 1))
        x = jnp.asarray(rng.normal(size=batch + lat + ch))
        run = jax.jit(lambda t, x: vf(t, x))
        okc, r = ctx.call("conv", run, t, x)
        if not okc:
            continue
        v, d = r
        if not ctx.ok(v.shape == x.shape and d.shape == batch, "conv:shape", got=[v.shape, d.shape]):
            continue
        xs = x.reshape((-1,) + lat + ch)
        for j, dj in enumerate(np.ravel(N(d))[:2]):
            ctx.saw("conv")
            ctx.close(np.float64(dj), np.float64(-trace(lambda y: vf(t, y)[0], xs[j])), "conv:divergence", atol=1e-9, rtol=1e-9)
        # batch items are independent
        one = run(t, xs[-1])
        ctx.close(N(v).reshape(xs.shape)[-1], N(one[0]), "conv:batch", atol=1e-10, rtol=1e-10)
        ctx.close(np.ravel(N(d))[-1], N(one[1]), "conv:batch", atol=1e-10, rtol=1e-10)
        # lattice symmetries: translations always; point group when the kernel is symmetric on this lattice
        sp = tuple(range(len(batch), len(batch) + len(lat)))
        ops = []
        sh = tuple(int(s) for s in rng.integers(0, 5, size=len(lat)))
        ops.append(("translation", lambda a: jnp.roll(a, sh, sp)))
        if k % 2 or k == lat[0]:
            ax = int(rng.integers(len(lat)))
            ops.append(("reflection", lambda a: jnp.flip(a, sp[ax])))
            if len(lat) > 1:
                ops.append(("rotation", lambda a: jnp.rot90(a, 1, (sp[0], sp[-1]))))
        for nm, op in ops:
            ctx.saw("symmetries")
            w, e = run(t, op(x))
            ctx.close(N(w), N(op(v)), "conv:equivariance:" + nm, atol=1e-9, rtol=1e-9)
            ctx.close(N(e), N(d), "conv:divergence-invariance:" + nm, atol=1e-9, rtol=1e-9)


@unit(PROP)
def features(ctx):
    """Feature maps: values and local divergences for an arbitrary local coupling."""
    rng = ctx.rng
    for i in range(ctx.n(18, 120)):
        ch = int(rng.integers(1, 4))
        kind = i % 3
        r = nnx.Rngs(int(rng.integers(2**30)))
        powers = tuple(int(p) for p in rng.permutation(4)[: rng.integers(1, 4)])
        nf = int(rng.integers(1, 5))
        fo = F.FourierFeatures(nf, ch, rngs=r)
        po = F.PolynomialFeatures(powers, ch)
        fm = {0: lambda: fo, 1: lambda: po, 2: lambda: F.ConcatFeatures([fo, po] if i % 2 else [po, fo])}[kind]()
        batch, space = int(rng.integers(1, 4)), tuple(int(s) for s in rng.integers(1, 4, size=rng.integers(1, 3)))
        x = jnp.asarray(rng.normal(size=(batch,) + space + (ch,)))
        freq = N(fo.phi_freq[...])
        fv = np.sin(N(x)[..., None] * freq)
        pv = np.stack([N(x) ** p for p in powers], -1)
        dfv = np.cos(N(x)[..., None] * freq) * freq
        dpv = np.stack([p * N(x) ** (p - 1) if p else 0 * N(x) for p in powers], -1)
        if kind == 2:
            order = [(fv, dfv), (pv, dpv)] if i % 2 else [(pv, dpv), (fv, dfv)]
        else:
            order = [(fv, dfv)] if kind == 0 else [(pv, dpv)]
        val = np.concatenate([a for a, _ in order], -1)
        der = np.concatenate([b for _, b in order], -1)
        m = val.shape[-1]
        W = rng.normal(size=(ch, ch, m))
        mask = rng.random(size=(batch,) + space) < 0.5 if i % 4 == 3 else None
        ctx.case({"map": type(fm).__name__, "ch": ch, "space": space, "batch": batch, "masked": mask is not None}, sig=i)
        ctx.ok(fm.out_channel_size == ch * m, "features:count", got=fm.out_channel_size, want=ch * m)
        kw = {} if mask is None else {"mask": jnp.asarray(mask)}
        flat = bool(rng.random() < 0.6)
        okc, r = ctx.call("features", lambda: fm(x, jnp.asarray(W), flatten_features=flat, **kw))
        if okc:
            ctx.saw("features")
            ctx.close(N(r[0]), val.reshape(x.shape[:-1] + (-1,)) if flat else val, "features:values", atol=1e-11, rtol=1e-11)
            loc = np.einsum("b...im,iim->b...i", der, W)
            if mask is not None:
                loc = loc * mask[..., None]
            ctx.close(N(r[1]), loc.reshape(batch, -1).sum(1), "features:divergence", atol=1e-9, rtol=1e-9)
