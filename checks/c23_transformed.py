"""C23: a transformed distribution is the exact pushforward of its prior."""

from vlib.core import unit
from vlib.jx import *
from vlib.stats import ks, mvn_logpdf, phi

PROP = "C23"
RULE = (
    "priors (independent, correlated, mixture, nested transformed) x bijections (elementwise, spline, radial, coupling, "
    "chains, Fourier, inverses, argument-dependent probes) with randomised parameters x batch shapes x call-time arguments; "
    "oracles: prior density minus dense autodiff log-determinant at a point inverted by Newton-free re-evaluation, quadrature, "
    "KS through the known map, argument logs; non-trivial = bijection with non-constant Jacobian"
)
ASSUMPTIONS = ["float64", "the bijection keeps the event shape (documented)"]
MIN_COUNTERS = {"pushforwards": 14, "kwargs": 3, "laws": 3, "nested": 3}
BATCH = [(), (4,), (2, 2), (1,)]


def cases(ctx, i):
    """(name, prior, bijection, event shape) with random parameters."""
    rng = ctx.rng
    r = lambda: nnx.Rngs(int(rng.integers(10**6)))
    n = int(rng.integers(1, 4))
    opts = [
        ("normal-affine", lambda: (bijx.IndependentNormal((n,)), bijx.AffineLinear(rngs=r()), (n,))),
        ("normal-scalar", lambda: (bijx.IndependentNormal(()), bijx.Chain(bijx.AffineLinear(rngs=r()), bijx.Sigmoid()), ())),
        ("uniform-tan", lambda: (bijx.IndependentUniform((2, n)), bijx.Chain(bijx.Tan(), bijx.AffineLinear(rngs=r())), (2, n))),
        ("uniform-spline", lambda: (bijx.IndependentUniform((n,)), bijx.MonotoneRQSpline(6, (n,), rngs=r()), (n,))),
        ("mvn-softplus", lambda: (mvn(rng, n), bijx.Chain(bijx.SoftPlus(), bijx.Power(rngs=r())), (n,))),
        ("mvn-inverse", lambda: (mvn(rng, n), bijx.Inverse(bijx.Chain(bijx.AffineLinear(rngs=r()), bijx.Sinh())), (n,))),
        ("mixture-tanh", lambda: (bijx.GaussianMixture(jnp.asarray(rng.normal(size=(3, n))), jnp.asarray(rng.uniform(0.3, 1, size=(3, n))), jnp.asarray(rng.normal(size=3))), bijx.Tanh(), (n,))),
        ("lattice-fourier", lambda: (bijx.IndependentNormal((3, 4)), bijx.FreeTheoryScaling(0.7, (3, 4)), (3, 4))),
        ("coupling", lambda: (bijx.IndependentNormal((4,)), coupling(rng, r), (4,))),
        ("nested", lambda: (bijx.Transformed(bijx.IndependentNormal((n,)), perturb(bijx.AffineLinear(rngs=r()), rng)), bijx.Chain(bijx.Sigmoid(), bijx.Tan()), (n,))),
    ]
    name, f = opts[i % len(opts)]
    prior, b, ev = f()
    perturb(b, rng, 0.5)
    return name, prior, b, ev


def mvn(rng, n):
    L = np.tril(rng.normal(size=(n, n)))
    L[np.diag_indices(n)] = rng.choice([-1, 1], size=n) * rng.uniform(0.4, 1.5, size=n)
    return bijx.MultivariateNormal(jnp.asarray(rng.normal(size=n)), jnp.asarray(L[np.tril_indices(n)]))


def coupling(rng, r):
    m = bijx.checker_mask((4,), True)
    t = bijx.ModuleReconstructor(bijx.AffineLinear(rngs=r()))
    net = nnx.Sequential(bijx.nn.nets.MLP(m.count_secondary, m.count_primary * t.params_total_size, [5], rngs=r()),
                         lambda p: p.reshape(*p.shape[:-1], m.count_primary, -1))
    return bijx.Chain(bijx.GeneralCouplingLayer(net, m, t), bijx.GeneralCouplingLayer(net, ~m, t))


@unit(PROP)
def pushforward(ctx):
    run(ctx, 0)


@unit(PROP)
def pushforward_2(ctx):
    run(ctx, 1)


@unit(PROP)
def pushforward_3(ctx):
    run(ctx, 2)


@unit(PROP)
def pushforward_4(ctx):
    run(ctx, 3)


def run(ctx, par):
    rng = ctx.rng
    for i in range(par, ctx.n(20, 120), 4):
        name, prior, b, ev = cases(ctx, i)
        batch = BATCH[int(rng.integers(4))]
        ctx.case({"case": name, "event": ev, "batch": batch}, sig=(name, i), nontrivial=name != "normal-affine")
        ctx.saw("pushforwards")
        okc, d = ctx.call("build", bijx.Transformed, prior, b)
        if not okc:
            continue
        key = ctx.key()
        okc, r = ctx.call(name + ":sample", d.sample, batch, rng=key)
        okp, r0 = ctx.call(name + ":prior", prior.sample, batch, rng=key)
        if not (okc and okp):
            continue
        y, ly = r
        x, lx = r0
        if not ctx.ok(y.shape == batch + ev and ly.shape == batch, name + ":shapes", got=[y.shape, ly.shape]):
            continue
        # independent density: prior density at x minus the dense log-determinant at x
        f = jax.jit(lambda v: b.forward(v, jnp.zeros(()))[0])
        J = jax.jit(jax.jacfwd(lambda v: jnp.ravel(b.forward(v.reshape(ev), jnp.zeros(()))[0])))
        xf, yf, lf = N(x).reshape((-1,) + ev), N(y).reshape((-1,) + ev), N(ly).reshape(-1)
        k = min(len(xf), 3)
        jm = np.stack([N(J(jnp.ravel(jnp.asarray(v)))) for v in xf[:k]])
        want = N(prior.log_density(jnp.asarray(xf[:k]))) - np.linalg.slogdet(jm)[1]
        inv = np.array([np.abs(np.linalg.inv(j)).sum() for j in jm])
        ctx.close(yf[:k], np.stack([N(f(jnp.asarray(v))) for v in xf[:k]]), name + ":sample-is-image", atol=1e-10, rtol=1e-9)
        ctx.close(lf[:k], want, name + ":sample-density", atol=1e-7, rtol=1e-8)
        # evaluated at the sample, and at other points of the image
        okc, l = ctx.call(name + ":log_density", d.log_density, y)
        if okc:
            if ctx.ok(l.shape == batch, name + ":log_density-shape", got=l.shape):
                ctx.close(N(l).reshape(-1)[:k], want, name + ":log_density", atol=1e-6, rtol=1e-6, scale=1e-10 * np.minimum(inv, 1e6))
        okc, p = ctx.call(name + ":density", d.density, y)
        if okc:
            ctx.close(N(p), np.exp(N(l)), name + ":density", atol=1e-300, rtol=1e-10)
        ctx.ok(tuple(d.get_batch_shape(y)) == batch, name + ":get_batch_shape")
        okc, r2 = ctx.call(name + ":sample", d.sample, batch, rng=key)
        if okc:
            ctx.ok(np.array_equal(N(r2[0]), N(y)) and np.array_equal(N(r2[1]), N(ly)), name + ":deterministic")


@unit(PROP)
def law(ctx):
    """1-d pushforwards against the CDF through the known monotone map."""
    rng = ctx.rng
    M = ctx.n(6000, 20000)
    fwd = [
        ("exp", lambda: bijx.Exponential(), np.log, 1),
        ("sigmoid-tan", lambda: bijx.Chain(bijx.Sigmoid(), bijx.Tan()), lambda y: (lambda s: np.log(s / (1 - s)))(np.arctan(y) / np.pi + 0.5), 1),
        ("affine", lambda: perturb(bijx.AffineLinear(rngs=nnx.Rngs(0)), rng, 0.8), None, 0),
    ]
    for i in range(ctx.n(3, 15)):
        name, mk, inv, _ = fwd[i % 3]
        b = mk()
        d = bijx.Transformed(bijx.IndependentNormal((2,)), b)
        ctx.saw("laws")
        ctx.case({"law": name}, count=M, sig=(i,))
        okc, r = ctx.call(name + ":law", d.sample, (M,), rng=ctx.key())
        if okc:
            y = N(r[0])
            if inv is None:
                s = N(b.forward(jnp.array([[0.0, 1.0]]), jnp.zeros(1))[0])[0]
                inv = lambda y: (y - s[0]) / (s[1] - s[0])
            for j in range(2):
                dd, bd = ks(phi(inv(y[:, j])))
                ctx.ok(dd < bd, name + ":law", distance=dd, bound=bd)
        # normalisation by quadrature in y
        if name == "exp":
            t = np.linspace(-8, 8, 4001)
            yy = np.exp(t)
            d1 = bijx.Transformed(bijx.IndependentNormal(()), b)
            tot = np.trapezoid(np.exp(N(d1.log_density(jnp.asarray(yy)))) * yy, t)
            ctx.close(tot, 1.0, name + ":normalised", atol=1e-6)


class ArgShift(bijx.Bijection):
    """y = x * exp(a) + c with both given per call; remembers what it was given."""

    def __init__(self, log):
        self.log = nnx.static(log)

    def forward(self, x, log_density, *, a=0.0, c=0.0, **kw):
        self.log.append(("forward", a, c, tuple(sorted(kw))))
        return x * jnp.exp(a) + c, log_density - a * x.shape[-1]

    def reverse(self, x, log_density, *, a=0.0, c=0.0, **kw):
        self.log.append(("reverse", a, c, tuple(sorted(kw))))
        return (x - c) * jnp.exp(-a), log_density + a * x.shape[-1]


@unit(PROP)
def call_arguments(ctx):
    rng = ctx.rng
    for i in range(ctx.n(4, 20)):
        n = int(rng.integers(1, 4))
        log = []
        priors = [lambda: bijx.IndependentNormal((n,)), lambda: mvn(rng, n), lambda: bijx.DiagonalNormal(jnp.asarray(rng.normal(size=n)), jnp.asarray(rng.uniform(0.5, 2, size=n))),
                  lambda: bijx.GaussianMixture(jnp.asarray(rng.normal(size=(2, n))), jnp.asarray(rng.uniform(0.5, 2, size=(2, n))), jnp.zeros(2))]
        prior = priors[i % 4]()
        a, c = float(rng.normal()), float(rng.normal())
        ctx.saw("kwargs")
        ctx.case({"prior": type(prior).__name__, "n": n, "a": a, "c": c}, sig=(i,))
        d = bijx.Transformed(prior, ArgShift(log))
        key = ctx.key()
        okc, r = ctx.call("args:sample", lambda: d.sample((3,), rng=key, a=a, c=c))
        if not okc:
            continue
        x = N(prior.sample((3,), rng=key)[0])
        y = x * np.exp(a) + c
        want = N(prior.log_density(jnp.asarray(x))) - a * n
        ctx.close(N(r[0]), y, "args:sample", atol=1e-10)
        ctx.close(N(r[1]), want, "args:sample-density", atol=1e-9)
        for nm, f in (("log_density", d.log_density), ("density", d.density)):
            okc, l = ctx.call("args:" + nm, lambda: f(jnp.asarray(y), a=a, c=c))
            if okc:
                ctx.close(N(l) if nm == "log_density" else np.log(N(l)), want, "args:" + nm, atol=1e-8)
        # arguments reach every level of a nested pushforward (all of them take the same names here)
        e = bijx.Transformed(d, ArgShift(log))
        okc, r = ctx.call("nested-args:sample", lambda: e.sample((3,), rng=key, a=a, c=c))
        if okc:
            y2 = y * np.exp(a) + c
            ctx.close(N(r[0]), y2, "nested-args:sample", atol=1e-9)
            ctx.close(N(r[1]), want - a * n, "nested-args:sample-density", atol=1e-9)
            okc, l = ctx.call("nested-args:log_density", lambda: e.log_density(jnp.asarray(y2), a=a, c=c))
            if okc:
                ctx.close(N(l), want - a * n, "nested-args:log_density", atol=1e-8)


@unit(PROP)
def nested_and_rngs(ctx):
    rng = ctx.rng
    for i in range(ctx.n(4, 20)):
        n = int(rng.integers(1, 4))
        s = int(rng.integers(1000))
        mk = lambda: bijx.IndependentNormal((n,), rngs=nnx.Rngs(s))
        b1, b2 = [perturb(bijx.AffineLinear(rngs=nnx.Rngs(j)), rng) for j in (1, 2)]
        b3 = bijx.Sigmoid()
        ctx.saw("nested")
        ctx.case({"n": n, "seed": s}, sig=(i,))
        inner = bijx.Transformed(mk(), b1)
        outer = bijx.Transformed(bijx.Transformed(inner, b2), b3)
        flat = bijx.Transformed(mk(), bijx.Chain(b1, b2, b3))
        for rep in range(2):  # internal rngs advance in step
            okc, r = ctx.call("nested:sample", lambda: (outer.sample((2,)), flat.sample((2,))))
            if okc:
                ctx.close(N(r[0][0]), N(r[1][0]), "nested:sample", atol=1e-12)
                ctx.close(N(r[0][1]), N(r[1][1]), "nested:density", atol=1e-10)
                okc, l = ctx.call("nested:log_density", lambda: (outer.log_density(r[0][0]), flat.log_density(r[0][0])))
                if okc:
                    ctx.close(N(l[0]), N(l[1]), "nested:log_density", atol=1e-9)
        a = N(flat.sample((2,))[0])
        ctx.ok(not np.array_equal(a, N(r[1][0])), "nested:advance")
        g = jax.jit(lambda k: outer.sample((2,), rng=k))
        k = ctx.key()
        okc, r = ctx.call("nested:jit", lambda: (g(k), outer.sample((2,), rng=k)))
        if okc:
            ctx.close(N(r[0][0]), N(r[1][0]), "nested:jit", atol=1e-12)
