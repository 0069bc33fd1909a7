"""C21: samples follow the stated density, come with that density, and are a pure function of the random key."""

from vlib.core import unit
from vlib.jx import *
from vlib.stats import ks, phi, zbin

PROP = "C21"
RULE = (
    "every distribution x random parameters (negative scales and Cholesky diagonals) x batch shapes x keys and rngs; oracles: "
    "Kolmogorov-Smirnov on random projections (level 1e-10), whitened second moments, independence across batch entries, exact "
    "equality of the returned density with a fresh evaluation, and key determinism; non-trivial = non-empty batch"
)
ASSUMPTIONS = ["float64", "statistical oracles run at fixed seeds with level 1e-10 or 7 sigma"]
MIN_COUNTERS = {"laws": 10, "keys": 12}


def build(rng, i, rngs=lambda: None):
    """(kind, distribution, event shape, mean, covariance); calling it twice with equal rng states gives equal parameters."""
    kind = ["normal", "uniform", "mvn", "diag"][i % 4]
    if kind in ("normal", "uniform"):
        ev = tuple(int(v) for v in rng.integers(1, 4, size=rng.integers(0, 3)))
        d = (bijx.IndependentNormal if kind == "normal" else bijx.IndependentUniform)(ev, rngs=rngs())
        n = int(np.prod(ev))
        mean, cov = (np.zeros(n), np.eye(n)) if kind == "normal" else (np.full(n, 0.5), np.eye(n) / 12)
    else:
        n = int(rng.integers(1, 5))
        ev = (n,)
        mean = rng.normal(size=n) * 2
        L = np.tril(rng.normal(size=(n, n)))
        L[np.diag_indices(n)] = rng.choice([-1, 1], size=n) * rng.uniform(0.4, 2, size=n)
        if kind == "mvn":
            d = bijx.MultivariateNormal(jnp.asarray(mean), jnp.asarray(L[np.tril_indices(n)]), rngs=rngs())
        else:
            L = np.diag(np.diagonal(L))
            d = bijx.DiagonalNormal(jnp.asarray(mean), jnp.asarray(np.diagonal(L)), rngs=rngs())
        cov = L @ L.T
    return kind, d, ev, mean, cov


@unit(PROP)
def law(ctx):
    rng = ctx.rng
    for i in range(ctx.n(12, 60)):
        kind, d, ev, mean, cov = build(rng, i)
        M = ctx.n(4000, 20000)
        batch = [(M,), (M // 4, 4), (2, M // 2)][i % 3]
        ctx.saw("laws")
        ctx.case({"kind": kind, "event": ev, "batch": batch, "mean": mean.tolist(), "cov": cov.tolist()}, count=M, sig=(kind, i))
        okc, r = ctx.call(kind + ":sample", d.sample, batch, rng=ctx.key())
        if not okc:
            continue
        x, ld = N(r[0]), N(r[1])
        if not ctx.ok(x.shape == batch + ev and ld.shape == batch, kind + ":shapes", got=[x.shape, ld.shape]):
            continue
        ctx.close(ld, N(d.log_density(r[0])), kind + ":returned-density", atol=1e-12, rtol=1e-12)
        n = len(mean)
        f = x.reshape(M, n)
        w, v = np.linalg.eigh(cov)
        z = (f - mean) @ v / np.sqrt(w)
        for j in range(3):
            if kind == "uniform":
                u = f[:, j % n]
            else:
                a = rng.normal(size=n)
                u = phi(z @ a / np.linalg.norm(a))
            dd, bound = ks(u)
            ctx.ok(dd < bound, kind + ":marginal-law", distance=dd, bound=bound)
        C = z.T @ z / M
        se = np.sqrt(np.where(np.eye(n) > 0, 2.0, 1.0) / M)
        ctx.ok(np.all(np.abs(C - np.eye(n)) < 7 * se), kind + ":covariance", worst=np.max(np.abs(C - np.eye(n)) / se))
        # batch entries are independent draws
        if M >= 4:
            zz = z[: M // 2, 0] * z[M // 2 : 2 * (M // 2), 0]
            ctx.ok(abs(zz.mean()) < 7 * np.sqrt(zz.var() / zz.size), kind + ":independent-batch", corr=zz.mean())
            zl = z[1:, 0] * z[:-1, 0]
            ctx.ok(abs(zl.mean()) < 7 * np.sqrt(zl.var() / zl.size), kind + ":independent-neighbours", corr=zl.mean())
        ctx.ok(len(np.unique(f[:, 0])) == M, kind + ":distinct-draws")


@unit(PROP)
def keys(ctx):
    rng = ctx.rng
    for i in range(ctx.n(12, 80)):
        kind, d, ev, mean, cov = build(rng, i)
        batch = [(), (3,), (2, 2), (1,), (0,)][int(rng.integers(5))]
        ctx.saw("keys")
        s = int(rng.integers(1000))
        ctx.case({"kind": kind, "event": ev, "batch": batch, "seed": s}, sig=(kind, i))
        k1, k2 = jax.random.split(jax.random.key(s))
        okc, r = ctx.call(kind + ":sample", lambda: [d.sample(batch, rng=k) for k in (k1, k1, k2)])
        if not okc:
            continue
        a, b, c = [N(v[0]) for v in r]
        ctx.ok(a.shape == batch + ev and r[0][1].shape == batch, kind + ":shapes", got=a.shape)
        ctx.ok(np.array_equal(a, b) and np.array_equal(N(r[0][1]), N(r[1][1])), kind + ":deterministic-in-key")
        if a.size:
            ctx.ok(not np.any(a == c), kind + ":other-key-other-draw")
        okc, r2 = ctx.call(kind + ":kwargs", lambda: d.sample(batch, rng=k1, unused_argument=2))
        if okc:
            ctx.ok(np.array_equal(N(r2[0]), a), kind + ":kwargs")
        # without a key: internal rngs, which an explicit key does not advance
        try:
            d.sample(batch)
            ctx.violate(kind + ":no-key-must-fail")
        except ValueError:
            pass
        st = rng.bit_generator.state

        def fresh():
            g = np.random.default_rng()
            g.bit_generator.state = st
            return build(g, i, lambda: nnx.Rngs(s))[1]

        d1, d2 = fresh(), fresh()
        x1 = N(d1.sample(batch)[0])
        d1.sample(batch, rng=k2)
        x2 = N(d1.sample(batch)[0])
        y1, y2 = N(d2.sample(batch)[0]), N(d2.sample(batch)[0])
        ctx.ok(np.array_equal(x1, y1) and np.array_equal(x2, y2), kind + ":internal-rngs-reproducible")
        if x1.size:
            ctx.ok(not np.any(x1 == x2), kind + ":internal-rngs-advance")
        # same draw under jit
        okc, j = ctx.call(kind + ":jit", lambda: jax.jit(lambda k: d.sample(batch, rng=k))(k1))
        if okc:
            ctx.close(N(j[0]), a, kind + ":jit", atol=1e-12, rtol=1e-12)
