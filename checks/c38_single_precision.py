"""C38: in jax's default single precision everything runs, stays single precision and agrees with double precision."""

from contextlib import contextmanager

from vlib.core import unit
from vlib.jx import *
from vlib import families as FM
from vlib import pool

PROP = "C38"
RULE = (
    "one randomised instance of every public bijection (35, forward and reverse) and distribution (8, density and samples); its state is "
    "rounded to single precision, run with jax's default 32-bit mode, and compared with the 64-bit run of the same rounded state and "
    "input, both executed from the current tree; non-trivial = map with a 64-bit reference that is finite"
)
ASSUMPTIONS = ["tolerance: measured 64-bit sensitivity of the map to one-ulp (32-bit) changes of its input and state, times a constant, plus 1e-4 relative"]
MIN_COUNTERS = {"calls": 60, "types": 60, "samples": 7, "scalar-points": 2000}
PARTS = 6


@contextmanager
def single():
    jax.config.update("jax_enable_x64", False)
    try:
        yield
    finally:
        jax.config.update("jax_enable_x64", True)


NARROW = {np.dtype("float64"): np.float32, np.dtype("complex128"): np.complex64, np.dtype("int64"): np.int32, np.dtype("uint64"): np.uint32}
WIDE = {np.dtype("float32"): np.float64, np.dtype("complex64"): np.complex128}


def cast(tree, table):
    """Host copies with converted dtypes (keys and non-arrays unchanged)."""

    def f(v):
        if not hasattr(v, "dtype") or jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
            return v
        v = np.asarray(v)
        return v.astype(table.get(v.dtype, v.dtype))

    return jax.tree.map(f, tree)


def jig(tree, rng):
    def f(v):
        if not hasattr(v, "dtype") or jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
            return v
        v = np.asarray(v)
        if np.issubdtype(v.dtype, np.inexact):
            return v * (1 + 6e-8 * rng.choice([-1.0, 1.0], size=v.shape)) + 1e-8 * rng.choice([-1.0, 1.0], size=v.shape)
        return v

    return jax.tree.map(f, tree)


def agree(ctx, got, want, spread, key, name):
    for g, w, s, what in zip(got, want, spread, ("value", "log-density")):
        ctx.saw("types")
        ctx.ok(g.dtype in (np.float32, np.complex64), f"{key}:not-single-precision", name=name, what=what, dtype=str(g.dtype))
        g = np.asarray(g)
        size = 1 + np.max(np.abs(w), initial=0)
        ctx.close(g, w, f"{key}:{what}", atol=1e-4 * size, rtol=3e-4, scale=40 * np.max(s, initial=0), name=name)


def compare(ctx, graph, st, call, args, key, name):
    """call(module, *args); args host arrays in double precision already rounded to single."""
    rng = ctx.rng
    s32 = cast(st, NARROW)
    a32 = cast(args, NARROW)
    s64, a64 = cast(s32, WIDE), cast(a32, WIDE)
    run = jax.jit(lambda s, a: call(nnx.merge(graph, s), *a))
    okc, want = ctx.call(f"{key}:{name}:double", run, s64, a64)
    if not okc:
        return None
    want = [N(v) for v in want]
    if not all(np.all(np.isfinite(v)) for v in want):
        return None
    spread = [np.zeros(w.shape) for w in want]
    for _ in range(2):
        other = run(jig(s64, rng), jig(a64, rng))
        spread = [np.maximum(s, np.abs(N(o) - w)) for s, o, w in zip(spread, other, want)]
    with single():
        okc, got = ctx.call(f"{key}:{name}:single", lambda: jax.device_get(jax.jit(lambda s, a: call(nnx.merge(graph, s), *a))(s32, a32)))
    if not okc:
        return None
    ctx.saw("calls")
    agree(ctx, got, want, spread, key, name)
    return got


def bijection_part(ctx, part):
    rng = ctx.rng
    for rep in range(ctx.n(1, 6)):
        for it in pool.bijections()[part::PARTS]:
            m = it.build(rng)
            kw = it.kw(rng)
            graph, st = nnx.split(m)
            n = 5
            for direction, dom in (("forward", it.dom), ("reverse", it.out)):
                x, ld = it.draw(rng, (n,), dom), rng.normal(size=n)
                name = f"{it.name}.{direction}"
                ctx.case({"module": name, "x": x}, count=n, sig=(name, rep))
                compare(ctx, graph, st, lambda q, a, b, k: getattr(q, direction)(a, b, **k), (x, ld, kw), "map", name)


for _p in range(PARTS):

    def _u(ctx, _p=_p):
        bijection_part(ctx, _p)

    _u.__name__ = f"bijections_{_p}"
    unit(PROP, name=_u.__name__)(_u)


# rounding amplification of the closed forms (as in the double-precision round-trip monitor)
SLACK = {"CubicRational": 3e5, "CubicConjugation": 3e5, "SinhConjugation": 3e3, "SinhConjugation[tails]": 3e3, "SinhConjugation[switch]": 3e3}


def scalar_part(ctx, part):
    """Elementwise maps over wide input ranges: error within the conditioning bound for 32-bit rounding."""
    rng = ctx.rng
    eps = float(np.finfo(np.float32).eps)
    for rep in range(ctx.n(2, 20)):
        for f in FM.families(rng, 6)[part::3]:
            name = f["name"]
            if name in ("CubicRational", "CubicConjugation"):
                continue  # closed-form cubic roots: no useful 32-bit bound
            graph, st = nnx.split(f["bij"])
            s32 = cast(st, NARROW)
            s64 = cast(s32, WIDE)
            x = FM.draw(f, rng, 6, 40).astype(np.float32)
            ld = rng.normal(size=x.shape).astype(np.float32)
            ctx.case({"family": name, "x": x}, count=x.size, sig=(name, rep))
            m64 = nnx.merge(graph, jax.tree.map(jnp.asarray, s64))
            with np.errstate(all="ignore"):
                y64, l64 = map(N, m64.forward(jnp.asarray(x, jnp.float64), jnp.asarray(ld, jnp.float64)))
                y = y64.astype(np.float32)
                x64, k64 = map(N, m64.reverse(jnp.asarray(y, jnp.float64), jnp.asarray(ld, jnp.float64)))
                dx, dy, dl = FM.bounds(f, x, y64, ld, SLACK.get(name, 200), EPS=eps)
                good = np.isfinite(y64 + l64 + x64 + k64) & (dl < 0.5) & (dx < 0.05 * (np.abs(x) + 1)) & (dy < 0.05 * (np.abs(y64) + 1)) & (np.abs(y64) < 1e30)
            with single():
                def run():
                    m = nnx.merge(graph, jax.tree.map(jnp.asarray, s32))
                    return jax.device_get((m.forward(jnp.asarray(x), jnp.asarray(ld)), m.reverse(jnp.asarray(y), jnp.asarray(ld))))
                okc, got = ctx.call(f"scalar:{name}", run)
            if not okc:
                continue
            (yf, lf), (xr, lr) = got
            ctx.saw("scalar-points", int(good.sum()))
            pick = lambda a: np.where(good, np.asarray(a, float), 0.0)  # noqa: E731
            ctx.close(pick(yf), pick(y64), f"scalar:{name}:forward-value", atol=0, rtol=0, scale=dy)
            ctx.close(pick(lf), pick(l64), f"scalar:{name}:forward-density", atol=0, rtol=0, scale=dl)
            ctx.close(pick(xr), pick(x64), f"scalar:{name}:reverse-value", atol=0, rtol=0, scale=dx)
            ctx.close(pick(lr), pick(k64), f"scalar:{name}:reverse-density", atol=0, rtol=0, scale=dl)


for _p in range(3):

    def _v(ctx, _p=_p):
        scalar_part(ctx, _p)

    _v.__name__ = f"scalars_{_p}"
    unit(PROP, name=_v.__name__)(_v)


@unit(PROP)
def distributions(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(1, 6)):
        for it in pool.distributions():
            m = it.build(rng)
            graph, st = nnx.split(m)
            x = it.draw(rng, (5,))
            ctx.case({"distribution": it.name, "x": x}, count=5, sig=(it.name, rep))
            compare(ctx, graph, st, lambda q, a: (q.log_density(a),), (x,), "density", it.name)
            s32 = cast(st, NARROW)
            seed = int(rng.integers(2**31))
            with single():
                okc, got = ctx.call(f"sample:{it.name}:single", lambda: jax.device_get(nnx.merge(graph, jax.tree.map(jnp.asarray, s32)).sample((6,), rng=jax.random.key(seed))))
            if not okc:
                continue
            ctx.saw("samples")
            for g, what in zip(got, ("value", "log-density")):
                ctx.ok(g.dtype in (np.float32, np.complex64), "sample:not-single-precision", name=it.name, what=what, dtype=str(g.dtype))
                ctx.ok(bool(np.all(np.isfinite(g))), "sample:not-finite", name=it.name, what=what)
            compare_density = nnx.merge(graph, jax.tree.map(jnp.asarray, cast(s32, WIDE))).log_density(jnp.asarray(np.asarray(got[0]).astype(np.complex128 if np.iscomplexobj(got[0]) else np.float64)))
            w = N(compare_density)
            ctx.close(np.asarray(got[1]), w, "sample:log-density", atol=1e-3 * (1 + np.max(np.abs(w))), name=it.name)
