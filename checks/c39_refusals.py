"""C39: requests whose shapes or options contradict each other are refused; consistent ones are served."""

import diffrax
import flowjax.bijections as FB

from vlib.core import unit
from vlib.jx import *
from bijx import cg, lie
from bijx.utils import ShapeInfo
import bijx.flowjax as fb
from bijx.lattice import gauge, scalar
from bijx.nn import conv, embeddings

PROP = "C39"
RULE = (
    "random consistent requests and single-fault variants of them (one wrong axis length, rank, option, type or missing key) for "
    "distributions, parameters, masks, coupling layers, reconstructors, shapes, group functions, tableaux, lattice functions, kernels, "
    "solvers and the flowjax bridge, eager and traced; verdict: the consistent request returns the documented shape, the faulty one "
    "raises; non-trivial = a faulty variant whose consistent sibling was served"
)
ASSUMPTIONS = ["which exception is raised is left open"]
MIN_COUNTERS = {"served": 70, "refused": 130}
f = lambda rng, *s: jnp.asarray(rng.normal(size=s))


def pair(ctx, kind, run, good, bads, want=None):
    """``run(*good)`` must be served (with shape ``want``); ``run(*bad)`` must raise for every named faulty variant."""
    desc = lambda a: [list(np.shape(v)) if isinstance(v, (jax.Array, np.ndarray)) else repr(v)[:60] for v in a]
    ctx.case({"serve": kind, "args": desc(good)}, nontrivial=False)
    okc, r = ctx.call("serve:" + kind, lambda: jax.block_until_ready(run(*good)))
    if not okc:
        return
    ctx.saw("served")
    if want is not None:
        ctx.ok(np.shape(r) == tuple(want), f"serve:{kind}:shape", got=np.shape(r), want=want)
    for nm, bad in bads.items():
        ctx.case({"refuse": kind, "fault": nm, "args": desc(bad)}, sig=(kind, nm, str(desc(bad))))
        try:
            got = jax.block_until_ready(run(*bad))
        except Exception:
            ctx.saw("refused")
            continue
        leaves = [np.shape(x) for x in jax.tree.leaves(got) if isinstance(x, (jax.Array, np.ndarray))]
        ctx.violate(f"refuse:{kind}:{nm}", answered=str(leaves)[:200])


def other(rng, n, lo=1, hi=6):
    """A length different from n."""
    return int(rng.choice([k for k in range(lo, hi + 1) if k != n]))


@unit(PROP)
def distributions(ctx):
    rng = ctx.rng
    R = lambda: nnx.Rngs(int(rng.integers(1 << 20)))
    for _ in range(ctx.n(3, 20)):
        d, b = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        key = ctx.key()
        for nm, make in (
            ("normal", lambda r: bijx.IndependentNormal((d, b), rngs=r)),
            ("uniform", lambda r: bijx.IndependentUniform((d, b), rngs=r)),
            ("haar", lambda r: lie.HaarDistribution(d, rngs=r)),
            ("multivariate", lambda r: bijx.MultivariateNormal(f(rng, d), jnp.ones(d * (d + 1) // 2), rngs=r)),
            ("diagonal", lambda r: bijx.DiagonalNormal(f(rng, d), jnp.ones(d), rngs=r)),
            ("transformed", lambda r: bijx.Transformed(bijx.IndependentNormal((d,), rngs=r), bijx.Tanh())),
        ):
            pair(ctx, nm + "-key", lambda r, k, make=make: make(r).sample((b,), rng=k)[1], (None, key),
                 {"no-source-of-randomness": (None, None)}, (b,))
            pair(ctx, nm + "-stream", lambda r, make=make: make(r).sample((b,))[1], (R(),), {"no-stream": (None,)}, (b,))


@unit(PROP)
def gaussians(ctx):
    rng = ctx.rng
    D = bijx.distributions
    for _ in range(ctx.n(3, 20)):
        d = int(rng.integers(2, 5))
        e = other(rng, d, 2)
        R = nnx.Rngs(int(rng.integers(1 << 20)))
        tri = lambda k: k * (k + 1) // 2
        chol = lambda k: jnp.asarray(rng.normal(size=tri(k)))
        pair(ctx, "mean-and-cholesky", lambda m, c: D.MultivariateNormal(m, c, rngs=R).log_density(jnp.zeros((2, m.shape[-1]))),
             (f(rng, d), chol(d)), {"sizes": (f(rng, d), chol(e)), "shorter-mean": (f(rng, e), chol(d))}, (2,))
        A = rng.normal(size=(d, d))
        cov = jnp.asarray(A @ A.T + np.eye(d))
        B = rng.normal(size=(e, e))
        pair(ctx, "mean-and-covariance", lambda m, c: D.MultivariateNormal.given_cov(m, c, rngs=R).log_density(jnp.zeros((2, d))),
             (f(rng, d), cov), {"sizes": (f(rng, d), jnp.asarray(B @ B.T + np.eye(e))), "not-square": (f(rng, d), f(rng, d, e)),
                                "shape-not-square": (f(rng, d), (d, e))}, (2,))
        pair(ctx, "covariance-shape", lambda m, c: D.MultivariateNormal.given_cov(m, c, rngs=R).log_density(jnp.zeros((2, d))),
             (f(rng, d), (d, d)), {"not-square": (f(rng, d), (d, e)), "sizes": (f(rng, d), (e, e))}, (2,))
        pair(ctx, "mean-and-scales", lambda m, s: D.DiagonalNormal(m, s, rngs=R).log_density(jnp.zeros((2, d))),
             (f(rng, d), f(rng, d)), {"sizes": (f(rng, d), f(rng, e))}, (2,))
        # what specifies a parameter is an array, a shape with a source of randomness, or a variable
        w = bijx.utils.default_wrap
        pair(ctx, "parameter", lambda x, r: w(x, rngs=r, init_fn=nnx.initializers.normal()).get_value(), ((d, e), R),
             {"no-randomness": ((d, e), None), "text": ("three", R), "float": (3.5, R), "none": (None, R)}, (d, e))


@unit(PROP)
def shapes(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(4, 30)):
        a, b, c = (int(v) for v in rng.integers(2, 5, size=3))
        batch = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        o = other(rng, a, 2)
        bi = bijx.Reshape((a, b), (a * b,))
        for J in (lambda g: g, jax.jit):
            pair(ctx, "reshape-forward", J(lambda x: bi.forward(x, jnp.zeros(batch))[0]), (f(rng, *batch, a, b),),
                 {"axis": (f(rng, *batch, o, b),), "singleton": (f(rng, *batch, a, 1),), "total": (f(rng, *batch, a, b + 1),), "swapped": (f(rng, *batch, b + a, a),)}, batch + (a * b,))
            pair(ctx, "reshape-reverse", J(lambda x: bi.reverse(x, jnp.zeros(batch))[0]), (f(rng, *batch, a * b),),
                 {"axis": (f(rng, *batch, a * b + 1),)}, batch + (a, b))
        info = lambda s: ShapeInfo(event_shape=s)
        pair(ctx, "event-shape", lambda s, x: info(s).process_and_flatten(x)[0], ((a, b), f(rng, *batch, a, b)),
             {"axis": ((a, b), f(rng, *batch, o, b)), "other-axis": ((a, b), f(rng, *batch, a, b + 1)), "singleton": ((a, b), f(rng, *batch, a, 1)), "unknown": (None, f(rng, *batch, a, b))},
             batch + (a * b,))
        # masks
        m = bijx.checker_mask((a, b), True)
        pair(ctx, "array-times-mask", lambda x: x * m, (f(rng, *batch, a, b),), {"rank": (f(rng, b),), "scalar": (jnp.asarray(1.5),),
                                                                                "axis": (f(rng, a + 1, b),)}, batch + (a, b))
        pair(ctx, "mask-merge", lambda p, q: m.merge(p, q), (f(rng, *batch, m.count_primary), f(rng, *batch, m.count_secondary)),
             {"primary": (f(rng, *batch, m.count_primary + 1), f(rng, *batch, m.count_secondary)),
              "secondary": (f(rng, *batch, m.count_primary), f(rng, *batch, m.count_secondary + 2))}, batch + (a, b))


@unit(PROP)
def reconstructors(ctx):
    rng = ctx.rng
    for i in range(ctx.n(3, 16)):
        k = int(rng.integers(2, 5))
        rngs = nnx.Rngs(int(rng.integers(1 << 20)))
        T = [lambda: bijx.AffineLinear(rngs=rngs), lambda: bijx.MonotoneRQSpline(k, (), rngs=rngs), lambda: bijx.SinhConjugation(rngs=rngs)][i % 3]
        rec = bijx.ModuleReconstructor(T())
        n = rec.params_total_size
        run = lambda p: rec.from_params(p).forward(jnp.asarray(0.3), jnp.zeros(()))[0]
        sh = rec.params_shapes
        pair(ctx, "parameter-vector", run, (f(rng, n),), {"short": (f(rng, n - 1),), "long": (f(rng, n + 1),), "double": (f(rng, 2 * n),),
                                                         "text": ("x",), "tuple": (tuple(f(rng, *s) for s in sh),), "none": (None,)}, ())
        pair(ctx, "parameter-list", run, ([f(rng, *s) for s in sh],), {"short": ([f(rng, *s) for s in sh][:-1],),
                                                                      "long": ([f(rng, *s) for s in sh] + [f(rng)],)}, ())
        av = lambda p: rec.from_params(p, autovmap=True).forward(f(rng, 3), jnp.zeros(3), input_ranks=(0, 0))[0]
        pair(ctx, "vectorised-vector", av, (f(rng, 3, n),), {"short": (f(rng, 3, n - 1),), "batch": (f(rng, 4, n),), "text": ("x",)}, (3,))

        # complex parameters have no flat real vector
        class Cx(nnx.Module):
            def __init__(self, dtype):
                self.w = nnx.Param(jnp.ones(k, dtype))

        pair(ctx, "flat-size", lambda dt: jnp.zeros(bijx.ModuleReconstructor(Cx(dt)).params_total_size), (jnp.float64,),
             {"complex": (jnp.complex128,)}, (k,))


@unit(PROP)
def couplings(ctx):
    rng = ctx.rng

    class Net(nnx.Module):
        def __init__(self, shape):
            self.shape = shape

        def __call__(self, p):
            return jnp.zeros(p.shape[:1] + self.shape)

    for i in range(ctx.n(3, 16)):
        a, b = int(rng.integers(2, 4)), int(rng.integers(2, 5))
        m = bijx.checker_mask((a, b), bool(i % 2))
        rec = bijx.ModuleReconstructor(bijx.AffineLinear(rngs=nnx.Rngs(0)))
        n = rec.params_total_size
        x = f(rng, 2, a, b)
        run = lambda net, rank, split, x=x: bijx.GeneralCouplingLayer(net, m, rec, bijection_event_rank=rank, split=split).forward(x, jnp.zeros(2))[0]
        good = Net((m.count_primary, n))
        pair(ctx, "split-coupling", run, (good, 0, True), {"rank-2": (good, 2, True), "rank-3": (good, 3, True),
             "parameters": (Net((m.count_primary, n + 1)), 0, True), "count": (Net((m.count_primary + 2, n)), 0, True)}, x.shape)
        good = Net((a, b, n))
        pair(ctx, "masked-coupling", run, (good, 0, False), {"rank-3": (good, 3, False), "parameters": (Net((a, b, n + 1)), 0, False),
             "count": (Net((a, b + 1, n)), 0, False)}, x.shape)
        pair(ctx, "coupling-event", lambda x: run(Net((a, b, n)), 0, False, x), (x,), {"axis": (f(rng, 2, a, b + 1),)}, x.shape)


@unit(PROP)
def groups(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3, 16)):
        n, L = int(rng.integers(2, 4)), int(rng.integers(2, 4))
        o = 5 - n
        U = lambda k, *s: lie.sample_haar(ctx.key(), k, s)
        A = f(rng, L, n, n)
        pair(ctx, "contract", lambda *m: lie.contract(*m), (A, f(rng, L, n, n)), {"vector": (A, f(rng, n)), "scalar": (A, jnp.asarray(1.0)),
             "inner": (A, f(rng, L, n + 1, n)), "batch": (A, f(rng, L + 1, n, n))}, (L, n, n))
        pair(ctx, "contract-trace", lambda *m: lie.contract(*m, trace=True), (A, A), {"not-square": (A, f(rng, L, n, n + 1))}, (L,))
        pair(ctx, "eigenangle-grid", lambda k: lie.create_eigenvalue_grid(k, 6)[0], (n,), {"one": (1,), "zero": (0,), "negative": (-n,)})
        if hasattr(lie, "SU2_GEN") and hasattr(lie, "SU3_GEN"):
            gens = {2: lie.SU2_GEN, 3: lie.SU3_GEN}
            fun = lambda u: jnp.sum(jnp.real(jnp.trace(u, axis1=-2, axis2=-1)))
            for nm, g in (("path-gradient", lambda q, u: lie.path_grad(fun, q, u)[0]), ("path-gradient-2", lambda q, u: lie.path_grad2(fun, q, u)[0])):
                pair(ctx, nm, g, (gens[n], U(n)), {"group": (gens[o], U(n)), "state": (gens[n], U(o))}, ())
        lat = lambda d, k, s=None: U(k, *([L] * (s or d)), d)
        for d in (2, 3):
            pair(ctx, f"wilson-{d}", lambda u: gauge.wilson_action(u, 1.3), (lat(d, n),), {"too-few-axes": (lat(d, n, d - 1),)}, ())
        y = U(n)
        fld = lambda t, y, a: a * jnp.asarray(np.diag(1j * np.arange(n) - 1j * (n - 1) / 2))
        solve = lambda tab, a: cg.crouch_grossmann(fld, y, a, 0.0, 1.0, step_size=0.25, args_types=cg.Euclidean(), manifold_types=cg.Unitary(), tableau=tab)
        pair(ctx, "integrate", solve, (cg.CG2, jnp.asarray(0.4)), {"text-argument": (cg.CG2, "x"), "object-argument": (cg.CG2, object())}, (n, n))
        pair(ctx, "unitary", lambda adj, proj: cg.Unitary(transport_adjoint=adj, derivative=cg.UnitaryDeriv(project_step=proj)).special, (True, True),
             {"projected-ambient-adjoint": (False, True)})
        q = float(rng.uniform(0.2, 0.8))
        pair(ctx, "tableau", lambda a, b: cg.ButcherTableau(a, b).stages, ([[0, 0], [q, 0]], [1 - q, q]),
             {"implicit": ([[q, 0], [0, 0]], [1 - q, q]), "upper": ([[0, q], [0, 0]], [1 - q, q]), "weights": ([[0, 0], [q, 0]], [1 - q, q / 2]),
              "count": ([[0, 0], [q, 0]], [1.0]), "ragged": ([[0], [q, 0]], [1 - q, q])})
        pair(ctx, "matrix-side", lambda s: cg.Matrix(right_invariant=s).right_invariant, (True,), {"left": (False,)})


@unit(PROP)
def fields(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3, 16)):
        a, b = int(rng.integers(2, 5)), int(rng.integers(2, 5))
        o = other(rng, a, 2)
        T = lambda *s: f(rng, *s)
        pair(ctx, "correlation-matrix", scalar.cyclic_corr_mat, (T(a, b, a, b),), {"axis": (T(a, b, a, b + 1),), "first-axis": (T(a, b, o, b),),
             "singleton": (T(a, b, a, 1),), "singleton-2": (T(a, b, 1, b),), "permuted": (T(a, b + a, b + a, a),),
             "odd-rank": (T(a, b, a),)}, (a, b))
        pair(ctx, "correlation", scalar.cyclic_corr, (T(a, b), T(a, b)), {"sizes": (T(a, b), T(a, b + 1)), "rank": (T(a, b), T(o)), "singleton": (T(a, b), T(a, 1)), "singleton-2": (T(1, b), T(a, b))}, (a, b))
        pair(ctx, "correlation-tensor", scalar.cyclic_tensor, (T(a, b), T(a, b)), {"sizes": (T(a, b), T(a, b + 1)), "rank": (T(a, b), T(o)),
             "singleton": (T(a, b), T(a, 1)), "singleton-2": (T(1, b), T(a, b))}, (a, b, a, b))
        # kernels
        pair(ctx, "rotation-orbits", lambda s: conv.kernel_d4(s)[1], ((a, a),), {"oblong": ((a, o),), "oblong-3": ((a, a, o),)}, (a, a))
        K = lambda *s: np.asarray(rng.normal(size=s))
        pair(ctx, "resize-kernel", lambda k, s: conv.resize_kernel_weights(k, s), (K(a, b, 2, 1), (a + 1, b + 2)),
             {"too-few": (K(a, b, 2, 1), (a + 1,)), "too-many": (K(a, b, 2, 1), (a, b, b))}, (a + 1, b + 2, 2, 1))
        cnt, orb = conv.kernel_equidist((a, b))
        pair(ctx, "fold-kernel", lambda k: conv.fold_kernel(k, orb, cnt), (K(a, b, 2, 1),), {"axis": (K(a + 1, b, 2, 1),), "rank": (K(b, 2, 1),), "singleton": (K(a, 1, 2, 1),)},
             (cnt, 2, 1))
        n = 2 * int(rng.integers(1, 5))
        pair(ctx, "positions", lambda n: embeddings.PositionalEmbedding(n, rngs=nnx.Rngs(0))(jnp.arange(3.0)), (n,), {"odd": (n + 1,)}, (3, n))
        # Fourier representations
        FD = bijx.fourier.FourierData
        x = T(a, b)
        pair(ctx, "representation", lambda r: FD.from_real(x, (a, b)).to(r).data, (bijx.fourier.FFTRep.rfft,),
             {"text": ("rfft",), "number": (17,)}, (a, b // 2 + 1))


@unit(PROP)
def solvers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2, 10)):
        n = int(rng.integers(1, 4))
        y0 = f(rng, n)
        run = lambda a: bijx.odeint_rk4(lambda t, y, *a: -y, y0, 1.0, a, step_size=0.25)
        pair(ctx, "rk4-arguments", run, (jnp.asarray(0.5),), {"text": ("x",), "object": (object(),), "nested-text": ({"a": jnp.ones(2), "b": "x"},)}, (n,))
        cfg = lambda **k: bijx.DiffraxConfig(**k).solve(diffrax.ODETerm(lambda t, y, a: -y), y0, None).ys
        pair(ctx, "step-limit", lambda m: cfg(max_steps=m, dt=0.1), (12,), {"too-few": (5,)}, (1, n))
        sde = lambda m: bijx.DiffraxConfig(max_steps=m, dt=0.1).solve_sde(lambda t, y, a: -y, lambda t, y, a: 0.1 + 0 * y, y0, ctx.key()).ys
        pair(ctx, "stochastic-step-limit", sde, (12,), {"too-few": (5,)}, (1, n))


@unit(PROP)
def bridge(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3, 12)):
        n, c = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        aff = FB.Affine(f(rng, n), jnp.ones(n))
        pair(ctx, "to-flowjax", lambda m, s: fb.to_flowjax(m, shape=s).shape[0], (bijx.Tanh(), (n,)),
             {"no-shape": (bijx.Tanh(), None), "foreign": (aff, (n,)), "text": ("tanh", (n,)), "distribution-no-shape": (bijx.IndependentNormal((n,)), None)})
        pair(ctx, "from-flowjax", lambda m: fb.from_flowjax(m).forward(jnp.zeros(n), jnp.zeros(()))[0], (aff,),
             {"own": (bijx.Tanh(),), "text": ("x",), "none": (None,)}, (n,))

        class Cond(bijx.Bijection):
            def forward(self, x, log_density, condition=None, **k):
                return x + (0 if condition is None else jnp.sum(condition)), log_density

            def reverse(self, x, log_density, condition=None, **k):
                return x - (0 if condition is None else jnp.sum(condition)), log_density

        for cs in ((c,), (c, n), ()):
            b = fb.to_flowjax(Cond(), shape=(n,), cond_shape=cs)
            u = fb.to_flowjax(Cond(), shape=(n,))
            x = f(rng, n)
            bad = {"rank": (b, f(rng, *cs[1:]))} if cs else {}
            bad.update({f"axis-{k}": (b, f(rng, *[v + (j == k) for j, v in enumerate(cs)])) for k in range(len(cs))})
            bad.update({f"singleton-{k}": (b, f(rng, *[1 if j == k else v for j, v in enumerate(cs)])) for k in range(len(cs)) if cs[k] > 1})
            bad["unconditional"] = (u, f(rng, *cs))
            pair(ctx, "condition-forward", lambda w, q: w.transform_and_log_det(x, q)[0], (b, f(rng, *cs)), bad, (n,))
            pair(ctx, "condition-inverse", lambda w, q: w.inverse_and_log_det(x, q)[0], (b, f(rng, *cs)), bad, (n,))
