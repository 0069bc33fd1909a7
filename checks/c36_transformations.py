"""C36: every bijection and distribution gives the same result eagerly, compiled, vectorised, split, cloned or restored."""

from vlib.core import unit
from vlib.jx import *
from vlib import pool

PROP = "C36"
RULE = (
    "one randomised instance of every public bijection (35) and distribution (8), forward and reverse; the eager result on a batch is "
    "compared with single rows, other batch arrangements, vmap, jit with the module as argument, split/merge, clones and a checkpoint "
    "through numpy, and with plain numpy arguments; the module's state and the caller's arrays are compared before and after; modules with replaced parameters are compared with freshly constructed ones; non-trivial = the map changes its input"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"calls": 60, "rows": 60, "vmaps": 30, "compiled": 60, "states": 60, "numpy": 60, "updates": 12}
PARTS = 12


def state_np(m):
    return jax.tree.map(lambda v: np.asarray(v) if jnp.issubdtype(getattr(v, "dtype", np.float64), jnp.number) or v.dtype == bool else v, nnx.state(m))


def same_state(a, b):
    la, lb = jax.tree.leaves(a), jax.tree.leaves(b)
    return len(la) == len(lb) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(la, lb) if hasattr(x, "dtype") and not jnp.issubdtype(x.dtype, jax.dtypes.prng_key))


def pair(ctx, got, want, key, tol, name):
    for g, w, what in zip(got, want, ("value", "log-density")):
        ctx.close(N(g), N(w), f"{key}:{what}", atol=tol, rtol=tol, name=name)


def bijection_part(ctx, part):
    rng = ctx.rng
    items = pool.bijections()
    for rep in range(ctx.n(1, 4)):
        for it in items[part::PARTS]:
            m = it.build(rng)
            kw = it.kw(rng)
            tol = 1e-9
            n = int(rng.integers(2, 7)) * 2
            for direction, dom in (("forward", it.dom), ("reverse", it.out)):
                x, ld = jnp.asarray(it.draw(rng, (n,), dom)), jnp.asarray(rng.normal(size=n))
                name = f"{it.name}.{direction}"
                ctx.case({"module": name, "batch": n, "x": x}, count=n, sig=(name, rep))
                before = state_np(m)
                okc, base = ctx.call(name, getattr(m, direction), x, ld, **kw)
                ctx.saw("states")
                ctx.ok(same_state(before, state_np(m)), "state-changed-by-call", name=name)
                if not okc:
                    continue
                ctx.saw("calls")
                if not ctx.ok(N(base[0]).shape[0] == n and N(base[1]).shape == (n,), "shape", name=name, got=[N(v).shape for v in base]):
                    continue
                # plain numpy arguments: same result, and the caller's arrays are left alone
                xn, ln = np.array(x), np.array(ld)
                okc, v = ctx.call(name + ":numpy", getattr(m, direction), xn, ln, **kw)
                if okc:
                    ctx.saw("numpy")
                    pair(ctx, v, base, "numpy", tol, name)
                    ctx.ok(np.array_equal(xn, N(x)) and np.array_equal(ln, N(ld)), "argument-overwritten", name=name)
                graph, st = nnx.split(m)
                run = lambda d: jax.jit(lambda s, a, b, k: getattr(nnx.merge(graph, s), d)(a, b, **k))
                f = run(direction)
                # rows do not influence each other; any batch arrangement
                i = int(rng.integers(n))
                okc, one = ctx.call(name + ":row", f, st, x[i], ld[i], kw)
                ctx.saw("rows")
                if okc:
                    pair(ctx, one, [v[i] for v in base], "single-row", tol, name)
                perm = rng.permutation(n)
                okc, two = ctx.call(name + ":arranged", f, st, x[perm].reshape((2, n // 2) + it.ev), ld[perm].reshape(2, n // 2), kw)
                if okc:
                    pair(ctx, [N(two[0]).reshape(N(base[0]).shape), N(two[1]).reshape(n)], [N(v)[perm] for v in base], "arranged", tol, name)
                okc, v = ctx.call(name + ":vmap", jax.jit(jax.vmap(lambda a, b: getattr(m, direction)(a, b, **kw))), x, ld)
                if okc:
                    ctx.saw("vmaps")
                    pair(ctx, v, base, "vmap", tol, name)
                # compiled, with the module entering as state
                okc, v = ctx.call(name + ":jit", f, st, x, ld, kw)
                if okc:
                    ctx.saw("compiled")
                    pair(ctx, v, base, "jit", tol, name)
                    ck = jax.tree.map(lambda a: jnp.asarray(np.asarray(a)), st)
                    pair(ctx, f(ck, x, ld, kw), v, "checkpoint", tol, name)
                okc, v = ctx.call(name + ":nnx.jit", nnx.jit(lambda q, a, b: getattr(q, direction)(a, b, **kw)), m, x, ld)
                if okc:
                    ctx.saw("compiled")
                    pair(ctx, v, base, "nnx.jit", tol, name)
                okc, v = ctx.call(name + ":clone", lambda: f(nnx.split(nnx.clone(m))[1], x, ld, kw))
                if okc:
                    pair(ctx, v, base, "clone", tol, name)
                if direction == "forward" and "Flow" not in it.name and "RK4" not in it.name:  # discretised flows invert up to their own step error only
                    back = run("reverse" if direction == "forward" else "forward")(st, *base, kw)
                    pair(ctx, back, (x, ld), "inverse", 1e-6, name)


for _p in range(PARTS):

    def _u(ctx, _p=_p):
        bijection_part(ctx, _p)

    _u.__name__ = f"bijections_{_p}"
    unit(PROP, name=_u.__name__)(_u)


def distribution_part(ctx, part):
    rng = ctx.rng
    for rep in range(ctx.n(1, 4)):
        for it in pool.distributions()[part::4]:
            m = it.build(rng)
            n = 6
            x = jnp.asarray(it.draw(rng, (n,)))
            name = it.name
            ctx.case({"distribution": name, "x": x}, count=n, sig=(name, rep))
            before = state_np(m)
            okc, base = ctx.call(name, m.log_density, x)
            ctx.saw("states")
            ctx.ok(same_state(before, state_np(m)), "state-changed-by-call", name=name)
            if not okc:
                continue
            base = N(base)
            ctx.saw("calls")
            ctx.saw("rows")
            ctx.close(N(m.log_density(x[2])), base[2], "single-row:density", atol=1e-10, name=name)
            ctx.close(N(m.log_density(x.reshape((3, 2) + it.ev))), base.reshape(3, 2), "arranged:density", atol=1e-10, name=name)
            okc, v = ctx.call(name + ":vmap", jax.vmap(m.log_density), x)
            if okc:
                ctx.saw("vmaps")
                ctx.close(N(v), base, "vmap:density", atol=1e-10, name=name)
            graph, st = nnx.split(m)
            okc, v = ctx.call(name + ":jit", jax.jit(lambda s, a: nnx.merge(graph, s).log_density(a)), st, x)
            if okc:
                ctx.saw("compiled")
                ctx.close(N(v), base, "jit:density", atol=1e-10, name=name)
            ctx.close(N(nnx.clone(m).log_density(x)), base, "clone:density", atol=1e-10, name=name)
            ctx.close(N(m.density(x)), np.exp(base), "density", atol=1e-12, rtol=1e-9, name=name)
            k = ctx.key()
            okc, s = ctx.call(name + ":sample", m.sample, (4,), rng=k)
            if not okc:
                continue
            okc, v = ctx.call(name + ":sample:jit", jax.jit(lambda s, k: nnx.merge(graph, s).sample((4,), rng=k)), st, k)
            if okc:
                ctx.saw("compiled")
                pair(ctx, v, s, "jit:sample", 1e-9, name)
            keys = jax.random.split(k, 3)
            okc, v = ctx.call(name + ":sample:vmap", jax.vmap(lambda q: m.sample((), rng=q)), keys)
            if okc:
                ctx.saw("vmaps")
                for j in range(3):
                    pair(ctx, [a[j] for a in v], m.sample((), rng=keys[j]), "vmap:sample", 1e-9, name)
            pair(ctx, [s[1]], [m.log_density(s[0])], "sample-density", 1e-8, name)
            ctx.ok(same_state(before, state_np(m)), "state-changed-by-sampling", name=name)


P = lambda a: nnx.Param(jnp.asarray(a))


def parametric():
    """(name, shapes of the trainable parameters, constructor from explicit values, event shape, domain)."""
    R0 = lambda: nnx.Rngs(0)
    N3 = {"a": (3,), "b": (3,)}
    mul = lambda **sh: sh
    return [
        ("AffineLinear", N3, lambda p: bijx.AffineLinear(P(p["a"]), P(p["b"]), rngs=R0()), (3,), "R"),
        ("Scaling", mul(a=(3,)), lambda p: bijx.Scaling(P(np.exp(p["a"])), rngs=R0()), (3,), "R"),
        ("Shift", mul(a=(3,)), lambda p: bijx.Shift(P(p["a"]), rngs=R0()), (3,), "R"),
        ("Power", mul(a=(3,)), lambda p: bijx.Power(P(np.exp(p["a"])), rngs=R0()), (3,), "P"),
        ("GaussianCDF", N3, lambda p: bijx.GaussianCDF(P(p["a"]), P(p["b"]), rngs=R0()), (3,), "R"),
        ("BetaStretch", mul(a=(3,)), lambda p: bijx.BetaStretch(P(p["a"]), rngs=R0()), (3,), "U"),
        ("CubicRational", mul(a=(3,), b=(3,), c=(3,)), lambda p: bijx.CubicRational(P(p["a"]), P(p["b"]), P(p["c"]), rngs=R0()), (3,), "R"),
        ("SinhConjugation", {k: (3,) for k in "abcde"}, lambda p: bijx.SinhConjugation(*[P(p[k]) for k in "abcde"], rngs=R0()), (3,), "R"),
        ("CubicConjugation", {k: (3,) for k in "abcd"}, lambda p: bijx.CubicConjugation(*[P(p[k]) for k in "abcd"], rngs=R0()), (3,), "R"),
        ("SpectrumScaling", mul(a=(1,)), lambda p: bijx.SpectrumScaling(P(np.exp(p["a"][0]) * np.ones((4, 2)))), (4, 3), "R"),
        ("Radial", {"a": (3,), "b": (3,), "c": ()}, lambda p: bijx.Radial(bijx.RayTransform(bijx.Scaling(P(np.exp(p["c"])), rngs=R0())), P(p["a"]), P(p["b"]), rngs=R0()), (3,), "R"),
        ("MultivariateNormal", {"a": (2,), "b": (3,)}, lambda p: bijx.MultivariateNormal(P(p["a"]), P(p["b"] * 0.3 + np.array([1.0, 0.2, 1.4]))), (2,), None),
        ("DiagonalNormal", N3, lambda p: bijx.DiagonalNormal(P(p["a"]), P(np.exp(p["b"]))), (3,), None),
        ("GaussianMixture", {"a": (3, 2), "b": (3, 2), "c": (3,)}, lambda p: bijx.GaussianMixture(P(p["a"]), P(np.exp(p["b"])), P(p["c"])), (2,), None),
        ("GaussianMixture-full", {"a": (3, 2), "b": (3,), "c": (3,)}, lambda p: bijx.GaussianMixture(P(p["a"]), P(np.exp(p["b"])[:, None, None] * np.array([[1.0, 0.4], [0.4, 2.0]])), P(p["c"])), (2,), None),
    ]


@unit(PROP)
def updates(ctx):
    """A module whose parameters were replaced behaves as one constructed with those parameters: nothing stale is kept."""
    rng = ctx.rng
    for rep in range(ctx.n(1, 6)):
        for name, shapes, make, ev, dom in parametric():
            draw = lambda: {k: rng.normal(size=s) * 0.7 for k, s in shapes.items()}
            a, b = make(draw()), make(draw())
            ctx.case({"module": name}, sig=("update", name, rep))
            ctx.saw("updates")
            x = jnp.asarray(pool.Item(name, None, ev).draw(rng, (4,), dom or "R"))
            if dom is None:
                run = lambda m: (m.log_density(x),) + tuple(m.sample((3,), rng=jax.random.key(5)))
            else:
                run = lambda m: m.forward(x, jnp.zeros(4)) + m.reverse(m.forward(x, jnp.zeros(4))[0], jnp.zeros(4))
            old, want = run(a), run(b)
            nnx.update(a, nnx.state(b, nnx.Param))
            okc, got = ctx.call(name + ":updated", run, a)
            if okc:
                for i, (g, w) in enumerate(zip(got, want)):
                    ctx.close(N(g), N(w), f"stale-parameters:{i}", atol=1e-12, name=name)
                ctx.ok(not np.allclose(N(old[0]), N(want[0])) or not np.allclose(N(old[1]), N(want[1])), "parameters-without-effect", name=name)


for _p in range(4):

    def _d(ctx, _p=_p):
        distribution_part(ctx, _p)

    _d.__name__ = f"distributions_{_p}"
    unit(PROP, name=_d.__name__)(_d)
