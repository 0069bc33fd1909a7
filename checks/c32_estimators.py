"""C32: reweighting estimators and smoothing equal their defining formulas for every log-weight range."""

from vlib.core import unit
from vlib.jx import *
from bijx import utils

PROP = "C32"
RULE = (
    "log-density arrays of 1..200 samples over ranges from 1e-8 to 1e4, with arbitrary constant shifts, -inf weights, ties and batched "
    "columns; oracles in extended precision with explicit max subtraction, bounds 1/n <= ESS <= 1, invariances, Gaussian closed forms by "
    "sampling; windows shorter, equal and longer than the series; non-trivial = at least two samples"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"ess": 30, "dkl": 30, "averages": 25, "gaussian": 3}


def ess_ref(lw):
    lw = np.asarray(lw, np.longdouble)
    w = np.exp(lw - lw.max(0))
    return (w.sum(0) ** 2 / (w**2).sum(0) / len(lw)).astype(float)


@unit(PROP)
def estimators(ctx):
    rng = ctx.rng
    for i in range(ctx.n(40, 200)):
        n = int(rng.integers(1, 200)) if i % 6 else [1, 2][i // 6 % 2]
        cols = (n,) if i % 3 else (n, 3)
        s = 10.0 ** rng.uniform(-8, 4) if i % 2 else 10.0 ** rng.uniform(-1, 1)
        p, q = rng.normal(size=cols) * s, rng.normal(size=cols) * s
        if i % 5 == 0 and n > 2:
            p[: n // 2] = -np.inf
        if i % 7 == 0:
            p = q + 0.0
        ctx.case({"n": n, "shape": cols, "scale": s, "zero_weights": bool(np.isinf(p).any())}, sig=(cols, i), nontrivial=n > 1)
        ctx.saw("ess")
        okc, e = ctx.call("effective_sample_size", utils.effective_sample_size, jnp.asarray(p), jnp.asarray(q))
        if okc:
            e = N(e)
            ctx.close(e, ess_ref(p - q), "effective_sample_size", atol=1e-10, rtol=1e-10, scale=1e-15 * s * 30)
            ctx.ok(np.all(e <= 1 + 1e-11 + 1e-14 * s) and np.all(e >= (1 - 1e-10 - 1e-14 * s) / n), "effective_sample_size:range", got=e, n=n)
            a, b = rng.normal(size=2) * 50
            ctx.close(N(utils.effective_sample_size(jnp.asarray(p + a), jnp.asarray(q + b))), e, "effective_sample_size:normalisation-independent", atol=1e-9, rtol=1e-9, scale=1e-12 * s)
            perm = rng.permutation(n)
            ctx.close(N(utils.effective_sample_size(jnp.asarray(p[perm]), jnp.asarray(q[perm]))), e, "effective_sample_size:order", atol=1e-10)
            rep = np.concatenate([p, p]), np.concatenate([q, q])
            ctx.close(N(utils.effective_sample_size(*map(jnp.asarray, rep))), e, "effective_sample_size:duplication", atol=1e-10)
        if np.isfinite(p).all():
            ctx.saw("dkl")
            okc, d = ctx.call("reverse_dkl", utils.reverse_dkl, jnp.asarray(p), jnp.asarray(q))
            if okc:
                ctx.close(N(d), np.mean((q - p).astype(np.longdouble)).astype(float), "reverse_dkl", atol=1e-12 * (1 + s), rtol=1e-10)
                c = rng.normal()
                ctx.close(N(utils.reverse_dkl(jnp.asarray(p + c), jnp.asarray(q))), N(d) - c, "reverse_dkl:shift", atol=1e-11 * (1 + s))
                ctx.close(N(utils.reverse_dkl(jnp.asarray(q), jnp.asarray(p))), -N(d), "reverse_dkl:antisymmetric", atol=1e-12 * (1 + s))


@unit(PROP)
def averages(ctx):
    rng = ctx.rng
    for i in range(ctx.n(30, 150)):
        n = int(rng.integers(1, 40))
        w = [int(rng.integers(1, 50)), n, n + 1, 1][i % 4]
        x = rng.normal(size=n) * 3
        if i % 5 == 0:
            x = rng.integers(-5, 6, size=n)
        default = i % 9 == 8
        w = 10 if default else w
        ctx.case({"n": n, "window": w, "int": bool(i % 5 == 0)}, sig=(n, w, i % 5 == 0), nontrivial=n > 1)
        ctx.saw("averages")
        okc, y = ctx.call("moving_average", utils.moving_average, jnp.asarray(x), *(() if default else (w,)))
        if okc:
            want = np.array([x[k : k + w].mean() for k in range(n - w + 1)]) if n >= w else np.array([x.mean()])
            ctx.close(N(y), want, "moving_average", atol=1e-11)


@unit(PROP)
def gaussian(ctx):
    """End to end: estimators on bijx densities against Gaussian closed forms."""
    rng = ctx.rng
    for i in range(ctx.n(4, 12)):
        s = rng.uniform(0.8, 1.2)
        M = ctx.n(40000, 200000)
        q = bijx.IndependentNormal((1,))
        p = bijx.DiagonalNormal(jnp.zeros(1), jnp.asarray([s]))
        ctx.case({"sigma": s, "samples": M}, count=M, sig=s)
        ctx.saw("gaussian")
        x, lq = q.sample((M,), rng=ctx.key())
        lp = p.log_density(x)
        d = N(lq - lp)
        want = np.log(s) + 1 / (2 * s * s) - 0.5
        ctx.ok(abs(N(utils.reverse_dkl(lp, lq)) - want) < 7 * d.std() / np.sqrt(M) + 1e-9, "reverse_dkl:gaussian", got=N(utils.reverse_dkl(lp, lq)), want=want)
        # E_q w^2 = 1 / (s sqrt(2 - s^2)) for s^2 < 2
        w = np.exp(-d)
        want = s * np.sqrt(2 - s * s)
        got = float(utils.effective_sample_size(lp, lq))
        se = (w**2).std() / (w**2).mean() / np.sqrt(M) + 2 * w.std() / np.sqrt(M)
        ctx.ok(abs(got - want) < 8 * se * want + 1e-9, "effective_sample_size:gaussian", got=got, want=want, se=se)
