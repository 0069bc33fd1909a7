"""C19: embeddings and ready-made networks compute their documented functions."""

from vlib.core import unit
from vlib.jx import *
from bijx.nn import embeddings as E
from bijx.nn import nets

PROP = "C19"
RULE = (
    "random feature counts (odd/even), input ranges, widths, options and batch shapes for every embedding; random widths, "
    "depths and activations for the networks with randomised weights; oracle is a numpy re-evaluation from the documented "
    "formula and the module's own weights; non-trivial = more than one feature"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"embeddings": 60, "networks": 12}
softplus = lambda v: np.log1p(np.exp(v))


def vals(rng):
    shp = [(), (5,), (2, 3), (1,)][int(rng.integers(4))]
    return rng.normal(size=shp) if rng.random() < 0.5 else rng.uniform(0, 1, size=shp)


def check(ctx, k, emb, v, want, n):
    ctx.saw("embeddings")
    ctx.ok(emb.feature_count == n, k + ":feature_count", got=emb.feature_count, want=n)
    arg = float(v) if np.ndim(v) == 0 and ctx.rng.random() < 0.5 else jnp.asarray(v)
    okc, r = ctx.call(k, emb, arg)
    if okc:
        ctx.close(N(r), want, k + ":values", atol=1e-10, rtol=1e-10)


@unit(PROP)
def embeddings(ctx):
    rng = ctx.rng
    for i in range(ctx.n(25, 150)):
        v = vals(rng)
        vr = None if rng.random() < 0.5 else tuple(sorted(rng.normal(size=2) * 2))
        u = (v - vr[0]) / (vr[1] - vr[0]) if vr else v
        n = int(rng.integers(2, 12))
        pos = np.arange(n) / (n - 1)
        # gaussians
        kw = dict(adaptive_width=bool(rng.random() < 0.6), norm=bool(rng.random() < 0.5), one_width=bool(rng.random() < 0.5))
        if rng.random() < 0.5:
            kw["width_factor"] = float(rng.normal())
        ctx.case({"emb": "gauss", "n": n, "range": vr, "kw": kw, "shape": np.shape(v)}, sig=("g", i))
        okc, e = ctx.call("gauss:build", lambda: E.KernelGauss(n, val_range=vr, **kw))
        if okc:
            ctx.ok(isinstance(e.width_factor, nnx.Param) == kw["adaptive_width"], "gauss:trainable-width")
            if kw["adaptive_width"]:
                ctx.ok(e.width_factor[...].shape == (() if kw["one_width"] else (n,)), "gauss:width-shape")
                if "width_factor" not in kw:
                    ctx.close(softplus(N(e.width_factor[...])), np.ones(e.width_factor[...].shape), "gauss:default-width", atol=1e-9)
                perturb(e, rng, 0.5)
            w = softplus(N(e.width_factor[...]) if kw["adaptive_width"] else np.asarray(e.width_factor.get_value()))
            g = np.exp(-((np.asarray(u)[..., None] - pos) ** 2) * w * (n - 1))
            if kw["norm"]:
                g = g / g.sum(-1, keepdims=True)
            check(ctx, "gauss", e, v, g, n)
        # piecewise linear interpolation
        ctx.case({"emb": "lin", "n": n, "range": vr, "shape": np.shape(v)}, sig=("l", i))
        okc, e = ctx.call("lin:build", lambda: E.KernelLin(n, val_range=vr))
        if okc:
            check(ctx, "lin", e, v, np.maximum(1 - np.abs(np.asarray(u)[..., None] - pos) * (n - 1), 0), n)
        # fourier
        m = (n - 1) // 2
        f = np.arange(1, m + 1)
        th = 2 * np.pi * f * np.asarray(u)[..., None]
        want = np.concatenate([np.sin(th), np.cos(th), np.ones(np.shape(u) + (1,))], -1)
        ctx.case({"emb": "fourier", "n": n, "range": vr, "shape": np.shape(v)}, sig=("f", i))
        okc, e = ctx.call("fourier:build", lambda: E.KernelFourier(n, val_range=vr))
        if okc:
            check(ctx, "fourier", e, v, want, 2 * m + 1)
            q = int(rng.integers(1, 8))
            okc, red = ctx.call("reduced:build", lambda: E.KernelReduced(e, q, rngs=nnx.Rngs(i)))
            if okc:
                perturb(red, rng, 0.5)
                S = N(red.superposition[...])
                ctx.case({"emb": "reduced", "n": n, "q": q, "shape": np.shape(v)}, sig=("r", i))
                if ctx.ok(S.shape == (q, 2 * m + 1), "reduced:shape", got=S.shape):
                    check(ctx, "reduced", red, v, want @ S.T / (2 * m + 1), q)
        # positional
        n2 = 2 * int(rng.integers(1, 6))
        mp, ap = float(rng.uniform(2, 1e4)), bool(rng.random() < 0.5)
        h = n2 // 2
        fr = mp ** (-np.arange(h) / max(h - 1, 1))
        a = np.asarray(v)[..., None] * fr
        want = np.concatenate([np.sin(a), np.cos(a)] + ([np.asarray(v)[..., None]] if ap else []), -1)
        ctx.case({"emb": "positional", "n": n2, "max": mp, "append": ap, "shape": np.shape(v)}, sig=("p", i))
        okc, e = ctx.call("positional:build", lambda: E.PositionalEmbedding(n2, max_positions=mp, append_input=ap))
        if okc:
            check(ctx, "positional", e, v, want, n2)
        ctx.close(np.asarray(E.rescale_range(v, vr)), np.asarray(u), "rescale_range", atol=1e-12)


def lin(layer, x):
    return x @ N(layer.kernel[...]) + N(layer.bias[...])


ACT = {"tanh": (jnp.tanh, np.tanh), "sin": (jnp.sin, np.sin), "leaky": (nnx.leaky_relu, lambda v: np.where(v >= 0, v, 0.01 * v)),
       "softplus": (nnx.softplus, softplus)}


@unit(PROP)
def networks(ctx):
    rng = ctx.rng
    names = list(ACT)
    for i in range(ctx.n(6, 40)):
        a, b = (ACT[names[int(j)]] for j in rng.integers(len(names), size=2))
        nin, nout = (int(v) for v in rng.integers(1, 5, size=2))
        batch = [(), (3,), (2, 2)][int(rng.integers(3))]
        x = rng.normal(size=batch + (nin,))
        hid = [int(v) for v in rng.integers(1, 6, size=rng.integers(1, 4))]
        ctx.case({"net": "mlp", "in": nin, "hidden": hid, "out": nout, "batch": batch}, sig=("m", i))
        okc, net = ctx.call("mlp:build", lambda: nets.MLP(nin, nout, hid, activation=a[0], final_activation=b[0], rngs=nnx.Rngs(i)))
        if okc:
            perturb(net, rng, 0.5)
            h = x
            for l in list(net.layers)[:-1]:
                h = a[1](lin(l, h))
            ctx.ok([l.kernel[...].shape for l in net.layers] == list(zip([nin] + hid, hid + [nout])), "mlp:layers")
            ctx.saw("networks")
            okc, y = ctx.call("mlp", net, jnp.asarray(x))
            if okc:
                ctx.close(N(y), b[1](lin(net.layers[-1], h)), "mlp:values", atol=1e-10)
        w, dep = int(rng.integers(1, 6)), int(rng.integers(0, 4))
        ctx.case({"net": "resnet", "in": nin, "width": w, "depth": dep, "out": nout, "batch": batch}, sig=("r", i))
        okc, net = ctx.call("resnet:build", lambda: nets.ResNet(nin, nout, w, dep, activation=a[0], final_activation=b[0], dropout=0.5 * (i % 2), rngs=nnx.Rngs(i)))
        if okc:
            perturb(net, rng, 0.5)
            net.eval()
            h = lin(net.first_layer, x)
            for l in net.hidden_layers:
                h = h + lin(l, a[1](h))
            ctx.ok(len(net.hidden_layers) == dep, "resnet:depth")
            ctx.saw("networks")
            xin = jnp.asarray(x)
            okc, y = ctx.call("resnet", net, xin)
            if okc:
                ctx.close(N(y), b[1](lin(net.final_layer, h)), "resnet:values", atol=1e-10)
        d = int(rng.integers(1, 3))
        k = (3,) * d
        hid = [int(v) for v in rng.integers(1, 4, size=rng.integers(1, 4))]
        ctx.case({"net": "conv", "in": nin, "hidden": hid, "out": nout, "dim": d}, sig=("c", i))
        okc, net = ctx.call("convnet:build", lambda: nets.ConvNet(nin, nout, k, hid, activation=a[0], final_activation=b[0], rngs=nnx.Rngs(i)))
        if okc:
            perturb(net, rng, 0.5)
            x = rng.normal(size=(2,) + (4,) * d + (nin,))

            def conv(l, v):
                K = N(l.kernel[...])
                out = np.zeros(v.shape[:-1] + (K.shape[-1],))
                for off in np.ndindex(*K.shape[:-2]):
                    out += np.roll(v, [1 - o for o in off], tuple(range(1, 1 + d))) @ K[off]
                return out + N(l.bias[...])

            h = x
            for l in list(net.conv_layers)[:-1]:
                h = a[1](conv(l, h))
            ctx.ok([l.kernel[...].shape[-2:] for l in net.conv_layers] == list(zip([nin] + hid, hid + [nout])), "convnet:layers")
            ctx.saw("networks")
            okc, y = ctx.call("convnet", jax.jit(lambda v: net(v)), jnp.asarray(x))
            if okc:
                ctx.close(N(y), b[1](conv(net.conv_layers[-1], h)), "convnet:values", atol=1e-10)
