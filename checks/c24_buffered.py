"""C24: the buffered sampler hands out each cached draw exactly once, with its own density."""

from vlib.core import unit
from vlib.jx import *

PROP = "C24"
RULE = (
    "random histories of single draws, batched draws, explicit-key draws, density evaluations and jit-compiled / scanned draws "
    "on buffer sizes 1-9 over array and pytree distributions with internal rngs; oracle is a model that replays the wrapped "
    "distribution's own refill sequence; non-trivial = at least two refills"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"histories": 8, "draws": 150, "refills": 20}


class PyTreeDist(bijx.Distribution):
    """Pytree samples; counts how often it is asked (outside jit)."""

    def __init__(self, rngs=None):
        super().__init__(rngs)
        self.offset = nnx.Param(jnp.array(0.25))

    def get_batch_shape(self, x):
        return x["s"].shape

    def sample(self, batch_shape=(), rng=None, scale=1.0, **kwargs):
        rng = self._get_rng(rng)
        a, b = jax.random.split(rng)
        x = {"s": scale * jax.random.normal(a, batch_shape) + self.offset, "v": jax.random.normal(b, batch_shape + (2,)),
             "n": jax.random.randint(a, batch_shape, 0, 1 << 40), "c": jax.lax.complex(*jax.random.normal(b, (2,) + batch_shape))}
        return x, self.log_density(x, scale=scale)

    def log_density(self, x, scale=1.0, **kwargs):
        z = (x["s"] - self.offset) / scale
        return -0.5 * z**2 - jnp.log(scale) - 0.5 * jnp.sum(x["v"] ** 2, -1) - 1.5 * jnp.log(2 * jnp.pi)


def make(i, s):
    if i % 3 == 0:
        return bijx.IndependentNormal((2,), rngs=nnx.Rngs(s))
    if i % 3 == 1:
        return PyTreeDist(nnx.Rngs(s))
    return bijx.Transformed(bijx.IndependentNormal((), rngs=nnx.Rngs(s)), bijx.AffineLinear(rngs=nnx.Rngs(1)))


def row(draw, j=None):
    """Flat numpy row (sample leaves and log-density) of one draw."""
    return np.concatenate([np.ravel(N(l) if j is None else N(l)[j]) for l in jax.tree.leaves(draw)])


@unit(PROP)
def histories(ctx):
    drive(ctx, 0)


@unit(PROP)
def histories_2(ctx):
    drive(ctx, 1)


@unit(PROP)
def histories_3(ctx):
    drive(ctx, 2)


def drive(ctx, par):
    rng = ctx.rng
    for i in range(par, ctx.n(9, 60), 3):
        size = int(rng.integers(1, 8))
        s = int(rng.integers(1000))
        i0 = i // 3 + par  # all kinds in every unit
        ops = [("one", "one", "one", "batch", "key", "density", "jit")[int(v)] for v in rng.integers(7, size=ctx.n(18, 60))]
        ctx.case({"kind": i0 % 3, "buffer": size, "seed": s, "ops": ops}, sig=(i,), nontrivial=size < 8)
        ctx.saw("histories")
        okc, b = ctx.call("build", bijx.BufferedSampler, make(i0, s), size)
        if not okc:
            continue
        ref = make(i0, s)  # replays the wrapped distribution's own key sequence
        jit1 = nnx.jit(lambda d: d.sample())
        pool = []  # draws of the current buffer not handed out yet
        for op in ops:
            if op in ("one", "key", "jit"):
                k = ctx.key()
                okc, r = ctx.call("sample", lambda: jit1(b) if op == "jit" else (b.sample(rng=k) if op == "key" else b.sample()))
                if not okc:
                    break
                if not pool:
                    full = ref.sample((size,), rng=k) if op == "key" else ref.sample((size,))
                    pool = [row(full, j) for j in range(size)]
                    ctx.saw("refills")
                x = row(r)
                ctx.saw("draws")
                hit = [j for j, p in enumerate(pool) if np.allclose(p, x, rtol=1e-9, atol=1e-12)]
                if not ctx.ok(len(hit) == 1, "each-cached-draw-once", op=op, remaining=len(pool)):
                    break
                pool.pop(hit[0])
                ctx.ok(r[1].shape == (), "single-shape", got=r[1].shape)
                ctx.close(N(r[1]), N(ref.log_density(r[0])), "density-of-draw", atol=1e-9)
                ctx.ok([l.dtype for l in jax.tree.leaves(r)] == [l.dtype for l in jax.tree.leaves(full)], "dtypes")
            elif op == "batch":
                bs = [(3,), (2, 2), (size,)][int(rng.integers(3))]
                okc, r = ctx.call("batch", b.sample, bs)
                if not okc:
                    break
                want = ref.sample(bs)
                ctx.close(np.concatenate([N(l).ravel() for l in jax.tree.leaves(r)]), np.concatenate([N(l).ravel() for l in jax.tree.leaves(want)]),
                          "batch-forwarded", atol=1e-12)
                ctx.ok(r[1].shape == bs, "batch-shape")
                ctx.ok(tuple(b.get_batch_shape(r[0])) == bs, "get_batch_shape")
            else:
                x, l = ref.sample((4,), rng=jax.random.key(3))
                okc, v = ctx.call("log_density", b.log_density, x)
                if okc:
                    ctx.close(N(v), N(l), "log_density", atol=1e-9)


@unit(PROP)
def scanned(ctx):
    """Draws inside a compiled loop: same sequence as draws one by one."""
    rng = ctx.rng
    for i in range(ctx.n(3, 15)):
        size = int(rng.integers(1, 6))
        n = 3 * size + int(rng.integers(1, 4))
        s = int(rng.integers(1000))
        ctx.case({"kind": i % 3, "buffer": size, "n": n, "seed": s}, sig=(i,))
        ctx.saw("histories")
        a, b = (bijx.BufferedSampler(make(i, s), size) for _ in range(2))

        @nnx.jit
        def loop(d):
            def body(d, _):
                r = d.sample()
                return d, r

            return nnx.scan(body, in_axes=(nnx.Carry, 0), out_axes=(nnx.Carry, 0))(d, jnp.arange(n))[1]

        okc, r = ctx.call("scan", loop, a)
        if not okc:
            continue
        one = []
        for _ in range(n):
            okc, d = ctx.call("sample", b.sample)
            one.append(row(d))
        ctx.saw("draws", n)
        got = np.stack([row(r, j) for j in range(n)])
        ctx.close(got, np.stack(one), "scan-equals-loop", atol=1e-12)
        ctx.ok(len(np.unique(got[:, 0])) == n, "no-draw-twice")


@unit(PROP)
def arguments(ctx):
    rng = ctx.rng
    for i in range(ctx.n(3, 12)):
        s, size, sc = int(rng.integers(100)), int(rng.integers(1, 5)), float(rng.uniform(0.5, 3))
        ctx.case({"buffer": size, "scale": sc, "seed": s}, sig=(i,))
        ctx.saw("histories")
        b, ref = bijx.BufferedSampler(PyTreeDist(nnx.Rngs(s)), size), PyTreeDist(nnx.Rngs(s))
        want = ref.sample((size,), scale=sc)
        got = []
        for _ in range(size):
            okc, r = ctx.call("kwargs", lambda: b.sample(scale=sc))
            if okc:
                got.append(row(r))
        ctx.saw("draws", size)
        ctx.saw("refills")
        if len(got) == size:
            o = lambda a: a[np.argsort(a[:, 0])]
            ctx.close(o(np.stack(got)), o(np.stack([row(want, j) for j in range(size)])), "kwargs:draws", atol=1e-10)
        x = {"s": jnp.asarray(rng.normal(size=3)), "v": jnp.asarray(rng.normal(size=(3, 2)))}
        okc, l = ctx.call("kwargs:log_density", lambda: b.log_density(x, scale=sc))
        if okc:
            ctx.close(N(l), N(ref.log_density(x, scale=sc)), "kwargs:log_density", atol=1e-12)
        okc, r = ctx.call("kwargs:batch", lambda: (b.sample((2,), rng=jax.random.key(1), scale=sc), ref.sample((2,), rng=jax.random.key(1), scale=sc)))
        if okc:
            ctx.close(row(r[0]), row(r[1]), "kwargs:batch", atol=1e-12)
