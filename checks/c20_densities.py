"""C20: distribution densities are the documented, normalised closed forms for every shape and parameter."""

import scipy.integrate as si

from vlib.core import unit
from vlib.jx import *
from vlib.stats import mvn_logpdf

PROP = "C20"
RULE = (
    "random event shapes (scalar to rank 3), batch shapes (incl. empty), means, scales of either sign over decades, Cholesky "
    "factors with diagonals of either sign, every constructor; oracle is the closed form via eigendecomposition, numerical "
    "normalisation, and the documented shape bookkeeping; non-trivial = more than one event entry or non-unit parameters"
)
ASSUMPTIONS = ["float64", "non-singular covariances (condition number < 1e8)"]
MIN_COUNTERS = {"iid": 15, "mvn": 15, "diag": 12, "normalised": 6}
BATCH = [(), (1,), (4,), (2, 3), (0,), (2, 1, 2)]


def density_api(ctx, k, d, x, want, batch, **tol):
    okc, l = ctx.call(k + ":log_density", d.log_density, jnp.asarray(x))
    if okc:
        ctx.close(N(l), want, k + ":log_density", **(tol or dict(atol=1e-9, rtol=1e-9)))
        ctx.ok(l.dtype == jnp.float64, k + ":dtype", got=l.dtype)
        okc, l2 = ctx.call(k + ":kwargs", lambda: d.log_density(jnp.asarray(x), unused_argument=1.0))
        if okc:
            ctx.ok(np.array_equal(N(l2), N(l), equal_nan=True), k + ":kwargs")
    okc, p = ctx.call(k + ":density", d.density, jnp.asarray(x))
    if okc:
        with np.errstate(over="ignore"):
            ctx.close(N(p), np.exp(N(d.log_density(jnp.asarray(x)))), k + ":density", atol=1e-300, rtol=1e-12)
    okc, b = ctx.call(k + ":batch", d.get_batch_shape, jnp.asarray(x))
    if okc:
        ctx.ok(tuple(b) == batch, k + ":get_batch_shape", got=b, want=batch)


@unit(PROP)
def iid(ctx):
    rng = ctx.rng
    for i in range(ctx.n(10, 80)):
        ev = tuple(int(v) for v in rng.integers(1, 4, size=rng.integers(0, 4)))
        batch = BATCH[int(rng.integers(len(BATCH)))]
        ax = tuple(range(-len(ev), 0))
        ctx.saw("iid", 2)
        x = rng.normal(size=batch + ev) * 10.0 ** rng.uniform(-3, 3)
        ctx.case({"dist": "normal", "event": ev, "batch": batch}, sig=("n", i), nontrivial=len(ev) > 0)
        okc, d = ctx.call("normal:build", lambda: bijx.IndependentNormal(ev))
        if okc:
            density_api(ctx, "normal", d, x, np.sum(-0.5 * x**2 - 0.5 * np.log(2 * np.pi), axis=ax), batch)
            shape_api(ctx, "normal", d, ev)
        u = rng.uniform(-0.1, 1.1, size=batch + ev)
        if u.size:
            u.ravel()[: 1 + u.size // 4] = rng.choice([0.0, 1.0, 0.5])
        ctx.case({"dist": "uniform", "event": ev, "batch": batch}, sig=("u", i), nontrivial=len(ev) > 0)
        okc, d = ctx.call("uniform:build", lambda: bijx.IndependentUniform(ev))
        if okc:
            inside = np.all((u >= 0) & (u <= 1), axis=ax)
            density_api(ctx, "uniform", d, u, np.where(inside, 0.0, -np.inf), batch)
            shape_api(ctx, "uniform", d, ev)


def shape_api(ctx, k, d, ev):
    ctx.ok(tuple(d.event_shape) == ev and d.event_dim == len(ev) and int(d.event_size) == int(np.prod(ev)), k + ":event", got=d.event_shape)
    ctx.ok(tuple(d.event_axes) == tuple(range(-len(ev), 0)), k + ":event_axes", got=d.event_axes)


def rand_chol(rng, n):
    L = np.tril(rng.normal(size=(n, n)))
    dg = rng.choice([-1, 1], size=n) * 10.0 ** rng.uniform(-1, 1, size=n)
    L[np.diag_indices(n)] = dg
    return L


@unit(PROP)
def multivariate(ctx):
    rng = ctx.rng
    for i in range(ctx.n(18, 120)):
        n = int(rng.integers(1, 6))
        batch = BATCH[int(rng.integers(len(BATCH)))]
        mean = rng.normal(size=n) * 10.0 ** rng.uniform(-2, 2)
        size = 10.0 ** rng.uniform(-6, 4) if i % 5 == 0 else 1.0
        L = rand_chol(rng, n) * size
        cov = L @ L.T
        mode = ["chol", "cov", "shapes", "var"][i % 4]
        ctx.saw("mvn")
        ctx.case({"dist": "mvn", "n": n, "batch": batch, "mode": mode, "L": L.tolist(), "mean": mean.tolist()}, sig=("m", i))
        packed = L[np.tril_indices(n)]
        if mode == "chol":
            okc, d = ctx.call("mvn:build", lambda: bijx.MultivariateNormal(jnp.asarray(mean), jnp.asarray(packed)))
        elif mode == "cov":
            okc, d = ctx.call("mvn:build", lambda: bijx.MultivariateNormal.given_cov(jnp.asarray(mean), jnp.asarray(cov)))
            if okc:
                ctx.ok(isinstance(d.mean, bijx.Const) and isinstance(d.cholesky, bijx.Const), "mvn:given_cov-constant")
        elif mode == "shapes":
            okc, d = ctx.call("mvn:build", [lambda: bijx.MultivariateNormal((n,), rngs=nnx.Rngs(i)),
                                            lambda: bijx.MultivariateNormal.given_dim(n, rngs=nnx.Rngs(i)),
                                            lambda: bijx.MultivariateNormal((n,), (n * (n + 1) // 2,), rngs=nnx.Rngs(i))][i % 3])
            if okc:
                ctx.ok(isinstance(d.mean, nnx.Param) and isinstance(d.cholesky, nnx.Param), "mvn:trainable")
                ctx.ok(np.all(np.linalg.eigvalsh(N(d.cov)) > 0.5), "mvn:initial-covariance-near-identity")
                d.mean.set_value(jnp.asarray(mean))
                d.cholesky.set_value(jnp.asarray(packed))
        else:
            okc, d = ctx.call("mvn:build", lambda: bijx.MultivariateNormal(nnx.Param(jnp.asarray(mean)), bijx.Const(jnp.asarray(packed)), rngs=nnx.Rngs(0)))
        if not okc:
            continue
        ctx.ok(int(d.dim) == n, "mvn:dim")
        shape_api(ctx, "mvn", d, (n,))
        ctx.close(N(d.cov), cov, "mvn:cov", atol=1e-10 * np.abs(cov).max(), rtol=1e-8)
        x = mean + rng.normal(size=batch + (n,)) @ L.T * rng.choice([0.3, 1, 4])
        cond = np.linalg.cond(cov)
        if cond > 1e8:
            continue
        want = mvn_logpdf(x, mean, cov)
        reg = 2e-10 * np.sum(1 / np.abs(np.diagonal(L)))  # documented regularisation of the diagonal
        cancel = 1e-13 * np.abs(mean).max() / size * np.sqrt(cond)  # x - mean
        density_api(ctx, "mvn", d, x, want, batch, atol=1e-8 + 1e-14 * cond * 50 + reg + cancel * 100, rtol=1e-8)


@unit(PROP)
def diagonal(ctx):
    rng = ctx.rng
    for i in range(ctx.n(16, 120)):
        n = int(rng.integers(1, 6))
        batch = BATCH[int(rng.integers(len(BATCH)))]
        mean = rng.normal(size=n) * 3
        s = rng.choice([-1, 1], size=n) * 10.0 ** rng.uniform(-3, 3, size=n)
        mode = ["scales", "variances", "variances-var", "shapes"][i % 4]
        ctx.saw("diag")
        ctx.case({"dist": "diagonal", "n": n, "batch": batch, "mode": mode, "s": s.tolist()}, sig=("d", i))
        if mode == "scales":
            okc, d = ctx.call("diag:build", lambda: bijx.DiagonalNormal(jnp.asarray(mean), jnp.asarray(s)))
        elif mode == "variances":
            okc, d = ctx.call("diag:build", lambda: bijx.DiagonalNormal.given_variances(jnp.asarray(mean), jnp.asarray(s**2)))
        elif mode == "variances-var":
            cls = [nnx.Param, bijx.Const][int(rng.integers(2))]
            v = cls(jnp.asarray(s**2))
            okc, d = ctx.call("diag:build", lambda: bijx.DiagonalNormal.given_variances(jnp.asarray(mean), v))
            if okc:
                ctx.ok(type(d.scales_bare) is cls, "diag:variable-type-kept", got=type(d.scales_bare).__name__)
                ctx.ok(np.array_equal(N(v[...]), s**2), "diag:given-variable-untouched")
        else:
            okc, d = ctx.call("diag:build", [lambda: bijx.DiagonalNormal((n,), rngs=nnx.Rngs(i)), lambda: bijx.DiagonalNormal.given_dim(n, rngs=nnx.Rngs(i)),
                                             lambda: bijx.DiagonalNormal.given_variances((n,), (n,), rngs=nnx.Rngs(i))][i % 3])
            if okc:
                ctx.close(N(d.scales), np.ones(n), "diag:unit-initial-scale", atol=1e-8)
                d.mean.set_value(jnp.asarray(mean))
                d.scales_bare.set_value(jnp.asarray(s))
        if not okc:
            continue
        ctx.ok(int(d.dim) == n, "diag:dim")
        shape_api(ctx, "diag", d, (n,))
        a = np.abs(s)
        ctx.close(N(d.scales), a, "diag:scales", atol=2e-10, rtol=1e-7)
        ctx.close(N(d.variances), a**2, "diag:variances", atol=1e-12, rtol=1e-6)
        ctx.close(N(d.cov), np.diag(a**2), "diag:cov", atol=1e-12, rtol=1e-6)
        x = mean + a * rng.normal(size=batch + (n,)) * rng.choice([0.3, 1, 4])
        z = (x - mean) / a
        density_api(ctx, "diag", d, x, np.sum(-0.5 * z**2 - np.log(a) - 0.5 * np.log(2 * np.pi), -1), batch, atol=1e-5, rtol=1e-6)


@unit(PROP)
def options(ctx):
    """Every constructor honours the variable class and the regularisation it is given."""
    rng = ctx.rng
    for i in range(ctx.n(6, 40)):
        n, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        eps = float(rng.choice([0.0, 1e-10, 0.03, 0.4]))
        cls = [nnx.Param, bijx.Const, nnx.BatchStat][i % 3]
        mean, s = jnp.asarray(rng.normal(size=n)), jnp.asarray(rng.uniform(0.3, 2, size=n))
        L = jnp.asarray(rand_chol(rng, n))
        L = L * jnp.sign(jnp.diagonal(L))  # the positive factor, as of a covariance
        packed = L[jnp.tril_indices(n)]
        kw = dict(rngs=nnx.Rngs(i), var_cls=cls, epsilon=eps)
        x = jnp.asarray(rng.normal(size=(3, n)))
        ctx.case({"n": n, "epsilon": eps, "cls": cls.__name__}, sig=("o", i))
        full = {"array": lambda: bijx.MultivariateNormal(mean, packed, **kw), "cov": lambda: bijx.MultivariateNormal.given_cov(mean, L @ L.T, **kw),
                "dim": lambda: bijx.MultivariateNormal.given_dim(n, **kw)}
        diag = {"array": lambda: bijx.DiagonalNormal(mean, s, **kw), "var": lambda: bijx.DiagonalNormal.given_variances(mean, s**2, **kw),
                "dim": lambda: bijx.DiagonalNormal.given_dim(n, **kw)}
        for kind, group, fields in (("mvn", full, ("mean", "cholesky")), ("diag", diag, ("mean", "scales_bare"))):
            ref = None
            for nm, mk in group.items():
                okc, d = ctx.call(f"options:{kind}:{nm}", mk)
                if not okc:
                    continue
                # the class applies to given arrays; parameters given as shapes are initialised as trainable
                ctx.ok(nm == "dim" or all(type(getattr(d, f)) is cls for f in fields), f"options:{kind}:{nm}:class", got=[type(getattr(d, f)).__name__ for f in fields])
                if nm == "dim":
                    d.mean.set_value(mean)
                    getattr(d, fields[1]).set_value(packed if kind == "mvn" else s)
                okc, l = ctx.call(f"options:{kind}:{nm}:log_density", d.log_density, x)
                if okc:
                    ref = N(l) if ref is None else ref
                    ctx.close(N(l), ref, f"options:{kind}:{nm}:epsilon", atol=1e-8, rtol=1e-7)
                if kind == "diag":
                    a = N(s) + eps
                    z = (N(x) - N(mean)) / a
                    ctx.close(N(d.scales), a, f"options:{nm}:scales", atol=1e-12)
                    ctx.close(N(d.variances), a**2, f"options:{nm}:variances", atol=1e-12)
                    ctx.close(N(d.cov), np.diag(a**2), f"options:{nm}:cov", atol=1e-12)
                    if okc:
                        ctx.close(N(l), np.sum(-0.5 * z**2 - np.log(a) - 0.5 * np.log(2 * np.pi), -1), f"options:{nm}:density", atol=1e-9)
        # mixtures hand both on to their components
        mu, v = jnp.asarray(rng.normal(size=(k, n))), jnp.asarray(rng.uniform(0.3, 2, size=(k, n)))
        covs = jnp.stack([jnp.diag(u) for u in v])
        for nm, c in (("diagonal", v), ("full", covs)):
            okc, m = ctx.call("options:mixture:" + nm, lambda: bijx.GaussianMixture(mu, c, jnp.zeros(k), **kw))
            if not okc:
                continue
            kinds = {cls_: sorted(tuple(np.shape(u)) for u in jax.tree.leaves(nnx.state(m, cls_))) for cls_ in (cls,)}
            want = (k, n) if nm == "diagonal" else (k, n * (n + 1) // 2)
            ctx.ok(want in kinds[cls], f"options:mixture:{nm}:class", got=kinds[cls], want=want)
            comp = bijx.DiagonalNormal.given_variances if nm == "diagonal" else bijx.MultivariateNormal.given_cov
            okc, l = ctx.call("options:mixture:log_density", lambda: (m.log_density(x), jnp.stack([comp(mu[j], c[j], **kw).log_density(x) for j in range(k)])))
            if okc:
                ctx.close(N(l[0]), N(jax.nn.logsumexp(l[1], axis=0)) - np.log(k), f"options:mixture:{nm}:epsilon", atol=1e-8)


@unit(PROP)
def normalisation(ctx):
    """Total probability one, by quadrature over the executed density."""
    rng = ctx.rng
    g, w = np.polynomial.hermite_e.hermegauss(40)
    for i in range(ctx.n(6, 40)):
        n = int(rng.integers(1, 4))
        L = rand_chol(rng, n)
        mean = rng.normal(size=n)
        full = i % 2 == 0
        ctx.saw("normalised")
        ctx.case({"full": full, "n": n, "L": L.tolist()}, sig=(i,))
        if full:
            okc, d = ctx.call("build", lambda: bijx.MultivariateNormal(jnp.asarray(mean), jnp.asarray(L[np.tril_indices(n)])))
        else:
            L = np.diag(np.diagonal(L))
            okc, d = ctx.call("build", lambda: bijx.DiagonalNormal(jnp.asarray(mean), jnp.asarray(np.diagonal(L))))
        if not okc:
            continue
        # importance quadrature on a deliberately different Gaussian grid (wider by 1.3)
        A = L * 1.3
        z = np.stack(np.meshgrid(*[g] * n, indexing="ij"), -1).reshape(-1, n)
        lw = np.log(np.stack(np.meshgrid(*[w] * n, indexing="ij"), -1).reshape(-1, n)).sum(-1) + 0.5 * (z**2).sum(-1)
        okc, l = ctx.call("log_density", d.log_density, jnp.asarray(mean + z @ A.T))
        if okc:
            tot = np.exp(N(l) + lw).sum() * abs(np.linalg.det(A))
            ctx.close(tot, 1.0, "normalisation", atol=1e-5)
            m1 = (np.exp(N(l) + lw)[:, None] * (z @ A.T)).sum(0) * abs(np.linalg.det(A))
            ctx.close(m1, np.zeros(n), "mean", atol=1e-4 * np.abs(L).sum())
