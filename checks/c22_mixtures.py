"""C22: mixtures are the weighted sum of their components, in density and in sampling."""

from scipy.special import logsumexp

from vlib.core import unit
from vlib.jx import *
from vlib.stats import ks, mvn_logpdf, phi

PROP = "C22"
RULE = (
    "Gaussian mixtures (diagonal / full / unspecified covariances, given as arrays, variables or shapes) and stacks of "
    "user-defined component distributions x component counts, unnormalised weight logits over wide ranges, batch shapes; "
    "oracles: scipy log-sum-exp of closed forms, KS on random projections against the mixture CDF, component frequencies; "
    "non-trivial = at least two components with different weights"
)
ASSUMPTIONS = ["float64", "statistical oracles run at fixed seeds with level 1e-10 or 7 sigma"]
MIN_COUNTERS = {"mixtures": 12, "laws": 5, "stacks": 5}
BATCH = [(), (5,), (2, 3), (1,)]


def softmax(w):
    e = np.exp(w - w.max())
    return e / e.sum()


def build(ctx, i, rngs=None):
    rng = ctx.rng
    k, n = (int(rng.integers(2, 5)) if i % 5 else 1), int(rng.integers(1, 4))
    mu = rng.normal(size=(k, n)) * 2
    lw = rng.normal(size=k) * rng.choice([0.3, 1, 3])
    kind = ["diag", "full", "none", "diag-var", "full-var", "shape"][i % 6]
    if kind.startswith("diag"):
        v = rng.uniform(0.2, 3, size=(k, n))
        cov = np.stack([np.diag(a) for a in v])
        c = jnp.asarray(v)
    elif kind.startswith("full"):
        A = rng.normal(size=(k, n, n))
        cov = A @ A.transpose(0, 2, 1) + 0.3 * np.eye(n)
        c = jnp.asarray(cov)
    else:
        cov = np.stack([np.eye(n)] * k)
        c = None
    if kind.endswith("-var"):
        c = [nnx.Param, bijx.Const][int(rng.integers(2))](c)
    desc = {"kind": kind, "k": k, "n": n, "logits": lw.tolist(), "means": mu.tolist()}
    if kind == "none":
        f = lambda: bijx.GaussianMixture(jnp.asarray(mu), None, jnp.asarray(lw), rngs=nnx.Rngs(0))
    elif kind == "shape":
        f = lambda: bijx.GaussianMixture((k, n), (k, n), rngs=nnx.Rngs(int(i)))
    else:
        f = lambda: bijx.GaussianMixture(jnp.asarray(mu), c, jnp.asarray(lw), rngs=rngs)
    return desc, f, mu, cov, lw


def ref_ld(x, mu, cov, w):
    return logsumexp(np.stack([mvn_logpdf(x, m, c) for m, c in zip(mu, cov)], -1) + np.log(w), axis=-1)


@unit(PROP)
def gaussian_density(ctx):
    rng = ctx.rng
    for i in range(ctx.n(12, 72)):
        desc, f, mu, cov, lw = build(ctx, i)
        batch = BATCH[int(rng.integers(len(BATCH)))]
        desc["batch"] = batch
        ctx.case(desc, sig=(i,), nontrivial=len(lw) > 1)
        ctx.saw("mixtures")
        okc, d = ctx.call("build", f)
        if not okc:
            continue
        k, n = mu.shape
        if desc["kind"] == "shape":
            mu, lw = N(d.means), np.zeros(k)
            ctx.ok(mu.shape == (k, n) and np.all(np.abs(mu) < 0.2), "shape:initial-means")
        ctx.close(N(d.weights), softmax(lw), "weights", atol=1e-12)
        ctx.close(N(d.mixture.weights_log_normalized), np.log(softmax(lw)), "log-weights", atol=1e-10)
        ctx.close(N(d.means), mu, "means", atol=1e-12)
        ctx.close(N(d.covs), cov, "covs", atol=1e-8, rtol=1e-7)
        x = mu[rng.integers(k)] + rng.normal(size=batch + (n,)) * 2
        want = ref_ld(x, mu, cov, softmax(lw))
        okc, l = ctx.call("log_density", d.log_density, jnp.asarray(x))
        if okc:
            ctx.close(N(l), want, "log_density", atol=1e-6, rtol=1e-7)
        okc, l = ctx.call("log_density-kwargs", lambda: d.log_density(jnp.asarray(x), unused=1))
        okc, p = ctx.call("density", d.density, jnp.asarray(x))
        if okc:
            ctx.close(N(p), np.exp(want), "density", atol=1e-12, rtol=1e-5)
        okc, b = ctx.call("batch", d.get_batch_shape, jnp.asarray(x))
        if okc:
            ctx.ok(tuple(b) == batch, "get_batch_shape", got=b)
        # adding a constant to all logits, permuting components and far-away points
        lw2 = lw + 50.0
        d.mixture.weights.set_value(jnp.asarray(lw2))
        okc, l = ctx.call("log_density", d.log_density, jnp.asarray(x))
        if okc:
            ctx.close(N(l), want, "logit-shift", atol=1e-6, rtol=1e-7)
        far = x + 200.0
        okc, l = ctx.call("log_density", d.log_density, jnp.asarray(far))
        if okc:
            ctx.close(N(l), ref_ld(far, mu, cov, softmax(lw)), "far-tail", atol=1e-3, rtol=1e-6)


@unit(PROP)
def gaussian_law(ctx):
    rng = ctx.rng
    M = ctx.n(4000, 20000)
    for i in range(ctx.n(6, 36)):
        desc, f, mu, cov, lw = build(ctx, i)
        ctx.saw("laws")
        ctx.case(desc, count=M, sig=(i,), nontrivial=len(lw) > 1)
        okc, d = ctx.call("build", f)
        if not okc:
            continue
        k, n = mu.shape
        if desc["kind"] == "shape":
            mu, lw = N(d.means), np.zeros(k)
        w = softmax(lw)
        batch = [(M,), (2, M // 2)][i % 2]
        key = ctx.key()
        okc, r = ctx.call("sample", d.sample, batch, rng=key)
        if not okc:
            continue
        x = N(r[0])
        if not ctx.ok(x.shape == batch + (n,) and r[1].shape == batch, "shapes", got=x.shape):
            continue
        ctx.close(N(r[1]), ref_ld(x, mu, cov, w), "returned-density", atol=1e-6, rtol=1e-7)
        for j in range(3):
            a = rng.normal(size=n)
            u = sum(wi * phi((x.reshape(-1, n) @ a - m @ a) / np.sqrt(a @ c @ a)) for wi, m, c in zip(w, mu, cov))
            dd, b = ks(u)
            ctx.ok(dd < b, "law", distance=dd, bound=b)
        f0 = x.reshape(-1, n)[:, 0]
        ctx.ok(len(np.unique(f0)) == f0.size, "distinct-draws")
        okc, r2 = ctx.call("sample", lambda: (d.sample(batch, rng=key), d.sample((), rng=key), d.sample((3,), rng=key, unused=1)))
        if okc:
            ctx.ok(np.array_equal(N(r2[0][0]), x), "deterministic")
            ctx.ok(r2[1][0].shape == (n,) and r2[1][1].shape == (), "single-shape", got=[r2[1][0].shape, r2[1][1].shape])
            ctx.ok(r2[2][0].shape == (3, n) and r2[2][1].shape == (3,), "shapes")


class Shifted(bijx.Distribution):
    """Component whose draws identify it: x = 10*index + uniform, as a pytree, with call-time arguments."""

    def __init__(self, idx, rngs=None):
        super().__init__(rngs)
        self.idx = nnx.Param(idx)

    def get_batch_shape(self, x):
        return x["a"].shape

    def sample(self, batch_shape=(), rng=None, shift=0.0, **kwargs):
        rng = self._get_rng(rng)
        a, b = jax.random.split(rng)
        x = {"a": 10 * self.idx + shift + jax.random.uniform(a, batch_shape), "b": jax.random.normal(b, batch_shape + (2,))}
        return x, self.log_density(x, shift=shift)

    def log_density(self, x, shift=0.0, **kwargs):
        t = x["a"] - 10 * self.idx - shift
        return jnp.where((t >= 0) & (t <= 1), 0.0, -jnp.inf) - 0.5 * jnp.sum(x["b"] ** 2, -1) - jnp.log(2 * jnp.pi)


@unit(PROP)
def stacks(ctx):
    rng = ctx.rng
    for i in range(ctx.n(6, 30)):
        k = int(rng.integers(1, 5))
        lw = rng.normal(size=k) * 1.5
        own = bool(i % 2)
        shift = float(rng.choice([0.0, 2.0]))
        ctx.saw("stacks")
        ctx.case({"k": k, "logits": lw.tolist(), "own_rngs": own, "shift": shift}, sig=(i,), nontrivial=k > 1)
        stack = Shifted(jnp.arange(float(k)), rngs=nnx.Rngs(3) if own else None)
        okc, d = ctx.call("stack:build", lambda: bijx.MixtureStack(stack, jnp.asarray(lw), rngs=nnx.Rngs(7)))
        if not okc:
            continue
        ctx.ok((stack.rngs is not None) == own, "stack:given-distribution-untouched")
        kw = {} if shift == 0 else {"shift": shift}
        M = ctx.n(3000, 20000)
        batch = (M // 2, 2)
        okc, r = ctx.call("stack:sample", lambda: d.sample(batch, rng=ctx.key(), **kw))
        if not okc:
            continue
        x, ld = r
        w = softmax(lw)
        if not ctx.ok(x["a"].shape == batch and x["b"].shape == batch + (2,) and ld.shape == batch, "stack:shapes"):
            continue
        a = N(x["a"]) - shift
        comp = np.floor(a / 10 + 1e-12).astype(int)
        cnt = np.array([(comp == j).sum() for j in range(k)])
        ctx.ok(cnt.sum() == a.size, "stack:support")
        z = np.abs(cnt - a.size * w) / np.sqrt(np.maximum(a.size * w * (1 - w), 1))
        ctx.ok(np.all(z < 7), "stack:component-frequencies", counts=cnt, weights=w)
        want = np.log(w)[np.clip(comp, 0, k - 1)] - 0.5 * (N(x["b"]) ** 2).sum(-1) - np.log(2 * np.pi)
        ctx.close(N(ld), want, "stack:returned-density", atol=1e-9)
        okc, l = ctx.call("stack:log_density", lambda: d.log_density(x, **kw))
        if okc:
            ctx.close(N(l), want, "stack:log_density", atol=1e-9)
        u = a - 10 * comp
        dd, b = ks(u)
        ctx.ok(dd < b, "stack:component-law", distance=dd, bound=b)
        # the component choice and the draw within it are independent
        if k > 1:
            for j in range(k):
                sel = comp == j
                if sel.sum() > 200:
                    zz = (u[sel].mean() - 0.5) / np.sqrt(1 / 12 / sel.sum())
                    ctx.ok(abs(zz) < 7, "stack:choice-independent", z=zz)
        okc, r = ctx.call("stack:internal-rngs", lambda: (d.sample(), d.sample()))
        if okc:
            ctx.ok(float(r[0][0]["b"][0]) != float(r[1][0]["b"][0]), "stack:internal-rngs-advance")
        ctx.ok(tuple(d.get_batch_shape(x)) == batch, "stack:get_batch_shape")
