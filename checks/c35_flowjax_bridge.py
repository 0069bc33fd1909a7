"""C35: the flowjax bridge is a faithful translation in both directions."""

import equinox as eqx
import flowjax.bijections as FB
import flowjax.distributions as FD
import flowjax.flows as FF
import jax.random as jr

from vlib.core import unit
from vlib.jx import *
import bijx.flowjax as fb

PROP = "C35"
RULE = (
    "flowjax bijections, flows and distributions (with and without conditions) wrapped for bijx, bijx ones wrapped for flowjax, and round "
    "trips, over batch shapes of data, log-density and condition; oracles: the wrapped object's own per-event result and the dense Jacobian "
    "of the map, parameter gradients of either framework, compiled and vectorised calls; non-trivial = non-identity map"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"from_bijections": 9, "to_bijections": 8, "from_distributions": 5, "to_distributions": 5, "gradients": 3}


def fj_bijection(rng, key, i):
    f = lambda *s: jnp.asarray(rng.normal(size=s))
    pos = lambda *s: jnp.asarray(rng.uniform(0.4, 2, size=s))
    base = FD.StandardNormal((3,))
    return [
        ("Affine", lambda: FB.Affine(f(3), pos(3))),
        ("RQS", lambda: FB.RationalQuadraticSpline(knots=5, interval=(-2.5, 2.5))),
        ("MAF", lambda: FF.masked_autoregressive_flow(key, base_dist=base, flow_layers=1, nn_width=6).bijection),
        ("cMAF", lambda: FF.masked_autoregressive_flow(key, base_dist=base, cond_dim=2, flow_layers=1, nn_width=6).bijection),
        ("coupling", lambda: FF.coupling_flow(key, base_dist=base, flow_layers=1, nn_width=6).bijection),
        ("ccoupling", lambda: FF.coupling_flow(key, base_dist=base, cond_dim=2, flow_layers=1, nn_width=6).bijection),
        ("Permute", lambda: FB.Permute(jnp.asarray(rng.permutation(4)))),
        ("TriangularAffine", lambda: FB.TriangularAffine(f(3), jnp.tril(f(3, 3), -1) + jnp.diag(pos(3)))),
        ("Chain", lambda: FB.Chain([FB.Affine(f(2, 2), pos(2, 2)), FB.Tanh((2, 2))])),
        ("Exp", lambda: FB.Exp((2,))),
        ("scalar-Affine", lambda: FB.Affine(f(), pos())),
        ("Invert", lambda: FB.Invert(FB.Affine(f(3), pos(3)))),
        ("AdditiveCondition", lambda: FB.AdditiveCondition(lambda c: jnp.sin(c).sum() * jnp.ones(3), (3,), (2, 2))),
        ("LeakyTanh", lambda: FB.LeakyTanh(3.0, (2,))),
    ][i]


def close_ld(ctx, got, want, key):
    return ctx.close(N(got), N(want), key, atol=1e-8, rtol=1e-8)


@unit(PROP)
def from_bijections(ctx):
    rng = ctx.rng
    todo = range(14) if ctx.tier == "thorough" else [3, 0, 1, 7, 8, 9, 10, 11, 12, 6, 5, 13]
    for i in todo:
        name, make = fj_bijection(rng, ctx.key(), i)
        b = make()
        ev, cs = b.shape, b.cond_shape
        okc, w = ctx.call("from_flowjax", fb.from_flowjax, b)
        if not okc:
            continue
        if not ctx.ok(isinstance(w, bijx.Bijection), "from_flowjax:type", got=type(w).__name__):
            continue
        for bs in [(), (3,), (2, 2)][i % 2 :]:
            x = jnp.asarray(rng.normal(size=bs + ev))
            kw = {}
            cb = ()
            if cs is not None:
                cb = [(), bs][int(rng.integers(2))]
                kw = {"condition": jnp.asarray(rng.normal(size=cb + cs))}
            ld = jnp.asarray(rng.normal(size=bs))
            ctx.case({"bijection": name, "batch": bs, "cond_batch": cb if cs is not None else None}, sig=(name, bs, cb), nontrivial=True)
            ctx.saw("from_bijections")
            fx = N(x).reshape((-1,) + ev)
            fc = [None] * len(fx) if cs is None else list(np.broadcast_to(N(kw["condition"]), bs + cs).reshape((-1,) + cs))
            ref = [b.transform_and_log_det(jnp.asarray(p), None if c is None else jnp.asarray(c)) for p, c in zip(fx, fc)]
            want_y = np.stack([N(r[0]) for r in ref]).reshape(bs + ev)
            want_d = np.stack([N(r[1]) for r in ref]).reshape(bs)
            okc, r = ctx.call("forward:" + name, w.forward, x, ld, **kw)
            if okc:
                ctx.close(N(r[0]), want_y, "from:forward", atol=1e-9, name=name)
                close_ld(ctx, r[1], N(ld) - want_d, "from:forward-log-density")
                okc, q = ctx.call("reverse:" + name, w.reverse, r[0], r[1], **kw)
                if okc:
                    ctx.close(N(q[0]), N(x), "from:reverse", atol=1e-6, name=name)
                    ctx.close(N(q[1]), N(ld), "from:reverse-log-density", atol=1e-6, name=name)
                j = jax.jit(lambda x, ld, kw: w.forward(x, ld, **kw))(x, ld, kw)
                ctx.close(N(j[0]), N(r[0]), "from:jit", atol=1e-10)
                # unrelated keyword arguments are ignored, as in the rest of bijx
                okc, q = ctx.call("forward-kwargs:" + name, w.forward, x, ld, **kw, unrelated=3)
                if okc:
                    ctx.close(N(q[1]), N(r[1]), "from:unrelated-kwargs", atol=0)
            if bs == (3,) and i % 2 == 0 or name == "cMAF":
                # true volume change of the map, for a single event
                c0 = {} if cs is None else {"condition": jnp.asarray(fc[0])}
                det, _ = flat_logdet(lambda v: w.forward(v, jnp.zeros(()), **c0)[0], jnp.asarray(fx[0]))
                close_ld(ctx, w.forward(jnp.asarray(fx[0]), jnp.zeros(()), **c0)[1], -det, "from:jacobian")


@unit(PROP)
def gradients(ctx):
    """Parameters remain trainable: gradients through the wrapper equal those of the wrapped object."""
    rng = ctx.rng
    for i in ([0, 3, 7, 6] if ctx.tier == "quick" else [0, 1, 3, 4, 5, 6, 7, 8]):
        name, make = fj_bijection(rng, ctx.key(), i)
        b = make()
        w = fb.from_flowjax(b)
        x = jnp.asarray(rng.normal(size=b.shape))
        c = None if b.cond_shape is None else jnp.asarray(rng.normal(size=b.cond_shape))
        kw = {} if c is None else {"condition": c}
        ctx.case({"gradient": name}, sig=("grad", name))
        ctx.saw("gradients")

        def loss(w):
            y, l = w.forward(x, jnp.zeros(()), **kw)
            return (y**2).sum() - 2 * l

        def ref(b):
            y, l = b.transform_and_log_det(x, c)
            return (y**2).sum() + 2 * l

        okc, g = ctx.call("nnx.grad", nnx.grad(loss), w)
        if okc:
            got = [N(v) for v in jax.tree.leaves(g)]
            want = [N(v) for v in jax.tree.leaves(eqx.filter_grad(ref)(b))]
            if ctx.ok(len(got) == len(want), "nnx.grad:leaves", got=len(got), want=len(want), name=name):
                for a, z in zip(got, want):
                    ctx.close(a, z, "nnx.grad:value", atol=1e-8, rtol=1e-8, name=name)
        # parameters changed through nnx take effect, and the wrapper survives split, merge and compilation
        st = nnx.state(w, nnx.Param)
        shifted = jax.tree.map(lambda v: v + 0.125, st)
        nnx.update(w, shifted)
        b2 = eqx.combine(jax.tree.map(lambda v: v + 0.125, eqx.filter(b, eqx.is_inexact_array)), eqx.filter(b, eqx.is_inexact_array, inverse=True))
        ctx.close(N(loss(w)), N(ref(b2)), "updated-parameters", atol=1e-8, rtol=1e-8, name=name)
        ctx.close(N(ref(w.flowjax_bijection)), N(ref(b2)), "reconstructed-bijection", atol=1e-8, rtol=1e-8, name=name)
        okc, v = ctx.call("nnx.jit", nnx.jit(loss), w)
        if okc:
            ctx.close(N(v), N(ref(b2)), "nnx.jit", atol=1e-8, rtol=1e-8, name=name)
        okc, v = ctx.call("split-merge", lambda: loss(nnx.merge(*nnx.split(w))))
        if okc:
            ctx.close(N(v), N(ref(b2)), "split-merge", atol=1e-8, rtol=1e-8, name=name)


@unit(PROP)
def from_distributions(ctx):
    rng = ctx.rng
    f = lambda *s: jnp.asarray(rng.normal(size=s))
    pos = lambda *s: jnp.asarray(rng.uniform(0.4, 2, size=s))
    dists = [
        ("Normal", lambda: FD.Normal(f(3), pos(3))),
        ("MVN", lambda: FD.MultivariateNormal(f(2), jnp.diag(pos(2)) + 0.1)),
        ("scalar", lambda: FD.Normal(f(), pos())),
        ("Gumbel", lambda: FD.Gumbel(f(2, 2), pos(2, 2))),
        ("cMAF", lambda: FF.masked_autoregressive_flow(ctx.key(), base_dist=FD.StandardNormal((3,)), cond_dim=2, flow_layers=1, nn_width=6)),
        ("coupling", lambda: FF.coupling_flow(ctx.key(), base_dist=FD.Normal(jnp.zeros(3)), flow_layers=1, nn_width=6)),
    ]
    for i, (name, make) in enumerate(dists):
        d = make()
        okc, w = ctx.call("from_flowjax", fb.from_flowjax, d)
        if not okc:
            continue
        ev, cs = d.shape, d.cond_shape
        for bs in [(), (3,), (2, 2)]:
            cb = (4,) if cs is not None and bs == (3,) else ()
            kw = {} if cs is None else {"condition": f(*cb, *cs)}
            ctx.case({"distribution": name, "batch": bs, "cond_batch": cb}, sig=(name, bs, cb))
            ctx.saw("from_distributions")
            k = ctx.key()
            okc, r = ctx.call("sample:" + name, w.sample, bs, rng=k, **kw)
            if not okc:
                continue
            if not ctx.ok(r[0].shape == bs + cb + ev and r[1].shape == bs + cb, "sample:shape", got=[r[0].shape, r[1].shape], name=name):
                continue
            want = d.sample(k, bs, kw.get("condition"))
            ctx.close(N(r[0]), N(want), "from:sample", atol=1e-9, name=name)
            lp = d.log_prob(r[0], kw.get("condition"))
            close_ld(ctx, r[1], lp, "from:sample-density")
            x = f(*bs, *cb, *ev)
            okc, l = ctx.call("log_density:" + name, w.log_density, x, **kw)
            if okc:
                close_ld(ctx, l, d.log_prob(x, kw.get("condition")), "from:log_density")
                ctx.ok(tuple(w.get_batch_shape(x)) == bs + cb, "get_batch_shape", got=w.get_batch_shape(x))
        x = f(*ev)
        c = None if cs is None else f(*cs)
        kw = {} if cs is None else {"condition": c}
        okc, g = ctx.call("nnx.grad(log_density)", nnx.grad(lambda w: w.log_density(x, **kw)), w)
        if okc:
            got = [N(v) for v in jax.tree.leaves(g)]
            want = [N(v) for v in jax.tree.leaves(eqx.filter_grad(lambda d: d.log_prob(x, c))(d))]
            ctx.saw("gradients")
            if ctx.ok(len(got) == len(want), "distribution-gradient:leaves", got=len(got), want=len(want), name=name):
                for a, z in zip(got, want):
                    ctx.close(a, z, "distribution-gradient", atol=1e-7, rtol=1e-7, name=name)


class Shift(bijx.Bijection):
    def __init__(self, p):
        self.p = nnx.Param(p)

    def forward(self, x, log_density, condition=None, **kw):
        s = jnp.tanh(condition).sum(-1, keepdims=True)
        return x * jnp.exp(s) + self.p, log_density - s[..., 0] * x.shape[-1]

    def reverse(self, x, log_density, condition=None, **kw):
        s = jnp.tanh(condition).sum(-1, keepdims=True)
        return (x - self.p) * jnp.exp(-s), log_density + s[..., 0] * x.shape[-1]


@unit(PROP)
def to_bijections(ctx):
    rng = ctx.rng
    f = lambda *s: jnp.asarray(rng.normal(size=s))
    items = [
        ("Sigmoid", bijx.Sigmoid(), (3,), None, lambda: f(3)),
        ("Affine", bijx.AffineLinear(jnp.asarray(rng.uniform(0.5, 2, size=3)), f(3)), (3,), None, lambda: f(3)),
        ("Spline", bijx.MonotoneRQSpline(5, (), rngs=nnx.Rngs(int(rng.integers(99)))), (4,), None, lambda: jnp.asarray(rng.uniform(0.05, 0.95, size=4))),
        ("Chain", bijx.Chain(bijx.Tanh(), bijx.AffineLinear(jnp.asarray(rng.uniform(0.5, 2, size=2)), f(2)), bijx.Sinh()), (2,), None, lambda: f(2)),
        ("inverse", bijx.Sigmoid().invert(), (2, 2), None, lambda: jnp.asarray(rng.uniform(0.1, 0.9, size=(2, 2)))),
        ("Shift", Shift(f(3)), (3,), (2,), lambda: f(3)),
    ]
    for name, b, ev, cs, draw in items:
        perturb(b, rng, 0.2)
        okc, w = ctx.call("to_flowjax", fb.to_flowjax, b, ev, *(() if cs is None else (cs,)))
        if not okc:
            continue
        ctx.ok(tuple(w.shape) == ev and w.cond_shape == cs and isinstance(w, FB.AbstractBijection), "to_flowjax:declared-shapes", got=[w.shape, w.cond_shape])
        for rep in range(ctx.n(2, 5)):
            x = draw()
            c = None if cs is None else f(*cs)
            kw = {} if c is None else {"condition": c}
            ctx.case({"to": name, "rep": rep}, sig=("to", name, rep))
            ctx.saw("to_bijections")
            y, l = b.forward(x, jnp.zeros(()), **kw)
            okc, r = ctx.call("transform_and_log_det", w.transform_and_log_det, x, c)
            if okc:
                ctx.close(N(r[0]), N(y), "to:transform", atol=1e-10, name=name)
                close_ld(ctx, r[1], -l, "to:log-det")
                det, _ = flat_logdet(lambda v: w.transform_and_log_det(v, c)[0], x)
                close_ld(ctx, r[1], det, "to:jacobian")
                okc, q = ctx.call("inverse_and_log_det", w.inverse_and_log_det, r[0], c)
                if okc:
                    ctx.close(N(q[0]), N(x), "to:inverse", atol=1e-7, name=name)
                    ctx.close(N(q[1]), -N(r[1]), "to:inverse-log-det", atol=1e-7, name=name)
                    rev = b.reverse(r[0], jnp.zeros(()), **kw)
                    close_ld(ctx, q[1], -rev[1], "to:reverse-sign")
                ctx.close(N(w.transform(x, c)), N(y), "to:transform-only", atol=1e-10)
                okc, v = ctx.call("filter_jit", eqx.filter_jit(lambda w, x, c: w.transform_and_log_det(x, c)), w, x, c)
                if okc:
                    ctx.close(N(v[1]), N(r[1]), "to:jit", atol=1e-10)
                # there and back again
                okc, back = ctx.call("round-trip", fb.from_flowjax, w)
                if okc:
                    X = jnp.stack([x, x * 0.9, x * 0.8])
                    L = f(3)
                    C = {} if c is None else {"condition": jnp.stack([c, c + 1, -c])}
                    okc, z = ctx.call("round-trip:forward", back.forward, X, L, **C)
                    if okc:
                        for m in range(3):
                            wy, wl = b.forward(X[m], L[m], **({} if c is None else {"condition": C["condition"][m]}))
                            ctx.close(N(z[0])[m], N(wy), "round-trip:value", atol=1e-9, name=name)
                            close_ld(ctx, z[1][m], wl, "round-trip:log-density")
            if rep == 0 and jax.tree.leaves(nnx.state(b, nnx.Param)):
                okc, g = ctx.call("filter_grad", eqx.filter_grad(lambda w: w.transform_and_log_det(x, c)[0].sum() + w.transform_and_log_det(x, c)[1]), w)
                if okc:
                    h = nnx.grad(lambda b: b.forward(x, jnp.zeros(()), **kw)[0].sum() - b.forward(x, jnp.zeros(()), **kw)[1])(b)
                    got = sorted(float(np.sum(N(v))) for v in jax.tree.leaves(g) if np.any(N(v) != 0))
                    want = sorted(float(np.sum(N(v))) for v in jax.tree.leaves(h) if np.any(N(v) != 0))
                    ctx.saw("gradients")
                    if ctx.ok(len(got) == len(want), "to:gradient-leaves", got=len(got), want=len(want)):
                        ctx.close(np.array(got), np.array(want), "to:gradient", atol=1e-8, rtol=1e-8)
        bad = f(*(cs or (2,)), 5) if cs else f(2)
        for meth in (w.transform_and_log_det, w.inverse_and_log_det):
            try:
                meth(draw(), bad)
                ctx.violate("to:mismatched-condition-accepted", name=name)
            except (TypeError, ValueError):
                pass
    for bad in (bijx.Sigmoid(), bijx.IndependentNormal((2,))):
        try:
            fb.to_flowjax(bad)
            ctx.violate("to_flowjax:shape-not-required")
        except TypeError:
            pass
    for fn, arg in ((fb.from_flowjax, bijx.Sigmoid()), (fb.from_flowjax, 3), (lambda a: fb.to_flowjax(a, (2,)), FB.Exp((2,)))):
        try:
            fn(arg)
            ctx.violate("unsupported-accepted", arg=repr(arg))
        except ValueError:
            pass


@unit(PROP)
def to_distributions(ctx):
    rng = ctx.rng
    f = lambda *s: jnp.asarray(rng.normal(size=s))
    items = [
        ("normal", bijx.IndependentNormal((3,)), (3,), None),
        ("uniform", bijx.IndependentUniform((2, 2)), (2, 2), None),
        ("mvn", bijx.MultivariateNormal(f(2), jnp.asarray([1.0, 0.4, 0.8])), (2,), None),
        ("gmm", bijx.GaussianMixture(f(2, 3), jnp.asarray(rng.uniform(0.5, 2, size=(2, 3))), rngs=nnx.Rngs(1)), (3,), None),
        ("transformed", bijx.Transformed(bijx.IndependentNormal((2,)), bijx.AffineLinear(jnp.asarray([2.0, -0.5]), f(2))), (2,), None),
        ("conditional", bijx.Transformed(bijx.IndependentNormal((3,)), Shift(f(3))), (3,), (2,)),
    ]
    for name, d, ev, cs in items:
        okc, w = ctx.call("to_flowjax", fb.to_flowjax, d, ev, *(() if cs is None else (cs,)))
        if not okc:
            continue
        for bs in [(), (4,), (2, 3)]:
            ctx.case({"to-distribution": name, "batch": bs}, sig=(name, bs))
            ctx.saw("to_distributions")
            c = None if cs is None else f(*cs)
            kw = {} if c is None else {"condition": c}
            x = jnp.asarray(rng.uniform(0.1, 0.9, size=bs + ev))
            okc, l = ctx.call("log_prob", w.log_prob, x, c)
            if okc:
                want = d.log_density(x, **({} if c is None else {"condition": jnp.broadcast_to(c, bs + cs)}))
                close_ld(ctx, l, want, "to:log_prob")
            k = ctx.key()
            okc, r = ctx.call("sample_and_log_prob", w.sample_and_log_prob, k, bs, c)
            if okc:
                ctx.ok(r[0].shape == bs + ev and r[1].shape == bs, "to:shapes", got=[r[0].shape, r[1].shape])
                close_ld(ctx, r[1], w.log_prob(r[0], c), "to:sample-density")
                okc, s = ctx.call("sample", w.sample, k, bs, c)
                if okc:
                    ctx.close(N(s), N(r[0]), "to:sample-consistency", atol=1e-10)
                if bs:
                    flat = N(r[0]).reshape(-1, int(np.prod(ev)))
                    dd = np.abs(flat[:, None] - flat[None]).max(-1) + np.eye(len(flat))
                    ctx.ok(dd.min() > 1e-9, "to:repeated-samples")
            okc, v = ctx.call("filter_jit", eqx.filter_jit(lambda w, x, c: w.log_prob(x, c)), w, x, c)
            if okc:
                close_ld(ctx, v, l, "to:jit")
    # composition on the flowjax side: a bijx bijection transforming a flowjax base, imported back
    s = fb.to_flowjax(bijx.Sigmoid(), (5,))
    comp = FD.Transformed(FD.StandardNormal((5,)), s)
    ours = bijx.Transformed(bijx.IndependentNormal((5,)), bijx.Sigmoid())
    x = jnp.asarray(rng.uniform(0.1, 0.9, size=(4, 5)))
    okc, l = ctx.call("composed", fb.from_flowjax(comp).log_density, x)
    if okc:
        close_ld(ctx, l, ours.log_density(x), "composed:log_density")


class Named(bijx.Bijection):
    """A bijection conditioned through a keyword of its own choosing."""

    def __init__(self, p, word, rank):
        self.p, self.word, self.rank = nnx.Param(p), word, rank

    def shift(self, kw):
        c = jnp.tanh(kw[self.word])
        return c if self.rank == 0 else c.sum(-1)

    def forward(self, x, log_density, **kw):
        s = self.shift(kw)
        return x * jnp.exp(s)[..., None] + self.p, log_density - s * x.shape[-1]

    def reverse(self, x, log_density, **kw):
        s = self.shift(kw)
        return (x - self.p) * jnp.exp(-s)[..., None], log_density + s * x.shape[-1]


@unit(PROP)
def condition_names(ctx):
    """The keyword carrying the condition can be chosen, and scalar conditions are conditions too."""
    rng = ctx.rng
    f = lambda *s: jnp.asarray(rng.normal(size=s))
    for i, (word, cs) in enumerate([("context", (2,)), ("condition", ()), ("temperature", ()), ("label", (3,))]):
        b = Named(f(3), word, len(cs))
        c, x, k = f(*cs), f(3), ctx.key()
        C, X = f(4, *cs), f(4, 3)
        ctx.case({"keyword": word, "cond_shape": cs}, sig=("keyword", word, cs))
        ctx.saw("to_bijections")
        named = {} if word == "condition" and i % 2 else {"cond_name": word}
        okc, w = ctx.call("from_bijection", fb.BijxToFlowjaxBijection.from_bijection, b, (3,), cs, **named)
        if okc:
            want = b.forward(x, jnp.zeros(()), **{word: c})
            okc, r = ctx.call("named:transform", w.transform_and_log_det, x, c)
            if okc:
                ctx.close(N(r[0]), N(want[0]), "named:transform", atol=1e-10, word=word)
                close_ld(ctx, r[1], -want[1], "named:log-det")
                okc, q = ctx.call("named:inverse", w.inverse_and_log_det, r[0], c)
                if okc:
                    ctx.close(N(q[0]), N(x), "named:inverse", atol=1e-8, word=word)
                    close_ld(ctx, q[1], want[1], "named:inverse-log-det")
            # and back, under another name
            other = ["condition", "knob"][i // 2]
            okc, back = ctx.call("FlowjaxToBijxBijection", fb.FlowjaxToBijxBijection, w, *([] if other == "condition" else [other]))
            if okc:
                L = f(4)
                z = [b.forward(X[m], L[m], **{word: C[m]}) for m in range(4)]
                okc, r = ctx.call("renamed:forward", back.forward, X, L, **{other: C})
                if okc:
                    ctx.close(N(r[0]), np.stack([N(a) for a, _ in z]), "renamed:forward", atol=1e-9, word=other)
                    close_ld(ctx, r[1], np.stack([N(a) for _, a in z]), "renamed:log-density")
                    okc, q = ctx.call("renamed:reverse", back.reverse, r[0], r[1], **{other: C})
                    if okc:
                        ctx.close(N(q[0]), N(X), "renamed:reverse", atol=1e-8, word=other)
                        close_ld(ctx, q[1], L, "renamed:reverse-log-density")
        d = bijx.Transformed(bijx.IndependentNormal((3,)), b)
        okc, w = ctx.call("from_distribution", fb.BijxToFlowjaxDistribution.from_distribution, d, (3,), cs, **named)
        if not okc:
            continue
        ctx.saw("to_distributions")
        ctx.ok(tuple(w.shape) == (3,) and w.cond_shape == cs, "from_distribution:declared-shapes", got=[w.shape, w.cond_shape], want=cs)
        want = np.stack([N(d.log_density(X[m], **{word: C[m]})) for m in range(4)])
        for tag, ww in (("named", w),) + ((("to_flowjax", fb.to_flowjax(d, (3,), cs)),) if word == "condition" else ()):
            ctx.ok(ww.cond_shape == cs, tag + ":declared-condition", got=ww.cond_shape, want=cs)
            okc, l = ctx.call(tag + ":log_prob", ww.log_prob, X, C)
            if okc:
                close_ld(ctx, l, want, tag + ":log_prob")
            okc, l = ctx.call(tag + ":log_prob", ww.log_prob, X, c)
            if okc:
                close_ld(ctx, l, np.stack([N(d.log_density(X[m], **{word: c})) for m in range(4)]), tag + ":log_prob-shared-condition")
            okc, r = ctx.call(tag + ":sample", ww.sample_and_log_prob, k, (2,), C)
            if okc and ctx.ok(r[0].shape == (2, 4, 3) and r[1].shape == (2, 4), tag + ":shapes", got=[r[0].shape, r[1].shape]):
                ctx.close(N(r[1]), np.stack([[N(d.log_density(r[0][a, m], **{word: C[m]})) for m in range(4)] for a in range(2)]), tag + ":sample-density", atol=1e-8)
        other = ["knob", "condition"][i // 2]
        okc, back = ctx.call("FlowjaxToBijxDistribution", fb.FlowjaxToBijxDistribution, w, other, nnx.Rngs(i))
        if okc:
            ctx.saw("from_distributions")
            okc, l = ctx.call("renamed:log_density", back.log_density, X, **{other: C})
            if okc:
                close_ld(ctx, l, want, "renamed:log_density")
            okc, r = ctx.call("renamed:sample", back.sample, (2,), **{other: C})
            if okc and ctx.ok(r[0].shape == (2, 4, 3) and r[1].shape == (2, 4), "renamed:shapes", got=[r[0].shape, r[1].shape]):
                ctx.close(N(r[1]), np.stack([[N(d.log_density(r[0][a, m], **{word: C[m]})) for m in range(4)] for a in range(2)]), "renamed:sample-density", atol=1e-8)
                r2 = back.sample((2,), **{other: C})
                ctx.ok(np.abs(N(r2[0]) - N(r[0])).max() > 1e-9, "renamed:internal-state-not-advanced")


@unit(PROP)
def plain_array_leaves(ctx):
    """Modules holding numpy arrays are wrapped like those holding jax arrays."""
    rng = ctx.rng
    for i in range(3):
        loc, sc = rng.normal(size=3), rng.uniform(0.5, 2, size=3)
        b = FB.Affine(jnp.asarray(loc), jnp.asarray(sc))
        b = eqx.tree_at(lambda b: b.loc, b, loc if i < 2 else loc.astype(np.float32), is_leaf=lambda v: v is None)
        ctx.case({"numpy-leaf": i}, sig=("numpy-leaf", i))
        okc, w = ctx.call("from_flowjax:numpy", fb.from_flowjax, b)
        if not okc:
            continue
        ctx.saw("from_bijections")
        x = jnp.asarray(rng.normal(size=(4, 3)))
        okc, r = ctx.call("numpy:forward", w.forward, x, jnp.zeros(4))
        if okc:
            ctx.close(N(r[0]), N(x) * sc + b.loc, "numpy:forward", atol=1e-6)
        loss = lambda w: (w.forward(x[0], jnp.zeros(()))[0] ** 2).sum()
        okc, g = ctx.call("numpy:gradient", nnx.grad(loss), w)
        if okc:
            want = [N(v) for v in jax.tree.leaves(eqx.filter_grad(lambda b: (b.transform(x[0]) ** 2).sum())(b))]
            got = [N(v) for v in jax.tree.leaves(g)]
            ctx.saw("gradients")
            if ctx.ok(len(got) == len(want), "numpy:gradient-leaves", got=len(got), want=len(want)):
                for a, z in zip(got, want):
                    ctx.close(a, z, "numpy:gradient", atol=1e-5)
        okc, v = ctx.call("numpy:jit", nnx.jit(loss), w)
        if okc:
            ctx.close(N(v), N(loss(w)), "numpy:jit", atol=1e-6)
