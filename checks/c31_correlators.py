"""C31: lattice correlators are the cyclic averages they name; correlation length is exact on pure exponentials."""

from itertools import product

from vlib.core import unit
from vlib.jx import *
from bijx.lattice import scalar, roll_lattice

PROP = "C31"
RULE = (
    "random fields and ensembles, d = 1..4, uneven lattice lengths down to 1; oracles: explicit double loops over sites, convolution "
    "theorem, sum rules, consistency between the three correlator routes, translation-closed ensembles, cosh correlators; "
    "non-trivial = more than one site"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"correlators": 12, "ensembles": 8, "lengths": 12}


def lat(rng, small=False):
    d = int(rng.integers(1, 5))
    return tuple(int(v) for v in rng.integers(1, {1: 8, 2: 6, 3: 4, 4: 4 - small}[d], size=d))


def add(x, y, sh):
    return tuple((a + b) % s for a, b, s in zip(x, y, sh))


def sites(sh):
    return list(product(*map(range, sh)))


def tensor(f, g):
    sh = f.shape
    T = np.empty(sh + sh)
    for x in sites(sh):
        for y in sites(sh):
            T[x + y] = f[y] * g[add(x, y, sh)]
    return T


@unit(PROP)
def correlators(ctx):
    rng = ctx.rng
    for i in range(ctx.n(14, 60)):
        sh = lat(rng, True)
        f, g = rng.normal(size=sh), rng.normal(size=sh) + 0.3
        ctx.case({"lattice": sh}, sig=(sh, i), nontrivial=f.size > 1)
        ctx.saw("correlators")
        d = len(sh)
        T = tensor(f, g)
        C = T.reshape(sh + (-1,)).mean(-1)
        F, G = jnp.asarray(f), jnp.asarray(g)
        okc, c = ctx.call("cyclic_corr", scalar.cyclic_corr, F, G)
        if okc:
            ctx.close(N(c), C, "cyclic_corr", atol=1e-12)
            via = np.fft.ifftn(np.conj(np.fft.fftn(f)) * np.fft.fftn(g)).real / f.size
            ctx.close(N(c), via, "cyclic_corr:convolution-theorem", atol=1e-12)
            ctx.close(N(c).sum(), f.mean() * g.sum(), "cyclic_corr:sum-rule", atol=1e-11)
            s = tuple(int(v) for v in rng.integers(-5, 6, size=d))
            ctx.close(N(scalar.cyclic_corr(roll_lattice(F, s), roll_lattice(G, s))), C, "cyclic_corr:translation-invariance", atol=1e-12)
            ctx.close(N(scalar.cyclic_corr(F, roll_lattice(G, s))), N(roll_lattice(jnp.asarray(C), s)), "cyclic_corr:shifted-field", atol=1e-12)
        okc, t = ctx.call("cyclic_tensor", scalar.cyclic_tensor, F, G)
        if okc:
            ctx.close(N(t), T, "cyclic_tensor", atol=1e-13)
        okc, m = ctx.call("cyclic_corr_mat", scalar.cyclic_corr_mat, jnp.asarray(np.multiply.outer(f, g)))
        if okc:
            ctx.close(N(m), C, "cyclic_corr_mat:outer-product", atol=1e-12)
        A = rng.normal(size=sh + sh)
        want = np.zeros(sh)
        for x in sites(sh):
            want[x] = np.mean([A[y + add(x, y, sh)] for y in sites(sh)])
        okc, m = ctx.call("cyclic_corr_mat", scalar.cyclic_corr_mat, jnp.asarray(A))
        if okc:
            ctx.close(N(m), want, "cyclic_corr_mat", atol=1e-12)


@unit(PROP)
def ensembles(ctx):
    rng = ctx.rng
    for i in range(ctx.n(10, 40)):
        sh = lat(rng, True)
        M = int(rng.integers(1, 6))
        phis = rng.normal(size=(M,) + sh) * 2 + 1
        ctx.case({"lattice": sh, "samples": M}, sig=(sh, M), nontrivial=phis[0].size > 1)
        ctx.saw("ensembles")
        per = np.stack([tensor(p, p).reshape(sh + (-1,)).mean(-1) for p in phis])
        P = jnp.asarray(phis)
        for kw, want in (({}, per.mean(0)), ({"average": True}, per.mean(0)), ({"average": False}, per)):
            okc, c = ctx.call("two_point", scalar.two_point, P, **kw)
            if okc:
                ctx.close(N(c), want, "two_point", atol=1e-12, kw=kw)
        # an ensemble closed under translations: the estimator's expectation is the exact connected function
        closed = np.stack([np.roll(p, s, tuple(range(len(sh)))) for p in phis for s in sites(sh)])
        want = per.mean(0) - phis.mean() ** 2
        okc, c = ctx.call("two_point_central", scalar.two_point_central, jnp.asarray(closed))
        if okc:
            ctx.close(N(c), want, "two_point_central:closed-ensemble", atol=1e-11)
            ctx.close(N(scalar.two_point_central(jnp.asarray(closed + 3.7))), want, "two_point_central:constant-shift", atol=1e-10)
        # summed over separations the connected function is the variance of the mean, times volume, for any ensemble
        okc, c = ctx.call("two_point_central", scalar.two_point_central, P)
        if okc:
            vol = phis[0].size
            ctx.close(N(c).sum(), vol * phis.reshape(M, -1).mean(1).var(), "two_point_central:sum-rule", atol=1e-10 * vol)


@unit(PROP)
def lengths(ctx):
    rng = ctx.rng
    for i in range(ctx.n(16, 60)):
        d = i % 4 + 1
        T = int(rng.integers(3, 16))
        sh = tuple(int(v) for v in rng.integers(1, 5, size=d - 1)) + (T,)
        xi = rng.uniform(0.4, 6)
        t = np.arange(T)
        g = np.cosh((t - T / 2) / xi) * rng.uniform(0.1, 10)
        w = rng.normal(size=sh[:-1] + (1,))
        w = w - w.mean() + 1.0
        G = w * g
        noise = rng.normal(size=sh) * 0.3
        if d > 1:
            G = G + noise - noise.mean(tuple(range(d - 1)))
        ctx.case({"shape": sh, "xi": xi}, sig=(sh, i))
        ctx.saw("lengths")
        okc, x = ctx.call("correlation_length", scalar.correlation_length, jnp.asarray(G))
        if okc:
            marg = G.mean(tuple(range(d - 1)))
            cond = np.max(np.abs(G)) / np.abs(marg).min()
            ctx.close(N(x), xi, "correlation_length:cosh", atol=1e-9 * (1 + xi) ** 3 * (1 + cond) * 10)
            ctx.close(N(scalar.correlation_length(jnp.asarray(G * 3.3))), N(x), "correlation_length:amplitude", atol=1e-8 * (1 + xi) ** 3 * (1 + cond))
        # noisy correlator: mean effective mass over separations where it exists
        y = np.abs(rng.normal(size=T)) + 0.2
        m = [(y[k - 1] + y[(k + 1) % T]) / (2 * y[k]) for k in range(1, T)]
        clear = all(abs(v - 1) > 1e-3 for v in m)
        m = [np.arccosh(v) for v in m if v >= 1]
        if m and clear:
            H = np.broadcast_to(y, sh)
            okc, x = ctx.call("correlation_length", scalar.correlation_length, jnp.asarray(H))
            if okc:
                ctx.close(N(x), 1 / np.mean(m), "correlation_length:effective-mass", rtol=1e-5)
