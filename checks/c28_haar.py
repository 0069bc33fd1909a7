"""C28: Haar sampling and the eigenangle tools describe the same invariant measure."""

from itertools import combinations
from math import factorial

from vlib.core import unit
from vlib.jx import *
from vlib.stats import ks
from vlib.su import *
from scipy import stats as st
from bijx import lie

PROP = "C28"
RULE = (
    "SU(N), N = 1..5, batch and base shapes, keys, internal random states; samples are tested for group membership and, at level 1e-10, "
    "against the exact entry law |U_ij|^2 ~ Beta(1, N-1) before and after fixed left and right translations, against the exact conjugacy "
    "class law and character moments; densities against numpy Vandermonde products, and quadratures of class functions against exact "
    "character integrals; non-trivial = N >= 2"
)
ASSUMPTIONS = ["float64", "statistical oracles run at fixed seeds with level 1e-10 or 7 sigma"]
MIN_COUNTERS = {"groups": 8, "laws": 8, "densities": 8, "grids": 8, "constructed": 6}


def member(ctx, u, n, key):
    ctx.close(u @ u.conj().swapaxes(-1, -2), np.broadcast_to(np.eye(n) + 0j, u.shape), key + ":unitary", atol=1e-12)
    ctx.close(np.linalg.det(u), np.ones(u.shape[:-2]) + 0j, key + ":determinant", atol=1e-12)


def moments(ctx, tr, n, key):
    """Exact character moments of SU(N): E|tr|^2, E|tr|^4, E tr^N."""
    M = tr.size

    def z(vals, want, what):
        se = vals.std() / np.sqrt(M) + 1e-12
        d = abs(vals.mean() - want)
        ctx.ok(d < 7 * se, f"{key}:{what}", got=vals.mean(), want=want, se=se)

    z(np.abs(tr) ** 2, 1.0, "E|tr|^2")
    z(np.abs(tr) ** 4, 2.0, "E|tr|^4")
    z(tr.real**n + 0 * tr.real if n == 2 else (tr**n).real, 1.0, "E tr^N")
    z((tr**n).imag, 0.0, "Im E tr^N")
    z(tr.real, 0.0, "E Re tr")
    z(tr.imag, 0.0, "E Im tr")
    if n > 2:
        z((tr**2).real, 0.0, "E tr^2")


@unit(PROP)
def group(ctx):
    rng = ctx.rng
    shapes = [(), (1,), (7,), (2, 3), (1, 4, 1), (5,), (3, 1), (2, 2, 2), (0,), (3, 0)]
    for i in range(ctx.n(10, 40)):
        n = [2, 3, 1, 4, 5][i % 5]
        sh = shapes[int(rng.integers(len(shapes)))] if i else (0,)
        ctx.case({"n": n, "batch": sh}, sig=(n, sh), nontrivial=n > 1 and 0 not in sh)
        ctx.saw("groups")
        k = ctx.key()
        okc, u = ctx.call("sample_haar", lie.sample_haar, k, n, sh)
        if not okc:
            continue
        u = N(u)
        if not ctx.ok(u.shape == sh + (n, n), "sample_haar:shape", got=u.shape, want=sh + (n, n)):
            continue
        member(ctx, u, n, "sample_haar")
        ctx.close(N(lie.sample_haar(k, n, sh)), u, "sample_haar:pure", atol=0)
        if u.size and n > 1:
            v = N(lie.sample_haar(ctx.key(), n, sh))
            ctx.ok(np.abs(u - v).max() > 1e-6, "sample_haar:key-ignored")
        f = u.reshape(-1, n, n)
        if len(f) > 1 and n > 1:
            d = np.abs(f[:, None] - f[None]).max((-1, -2)) + np.eye(len(f))
            ctx.ok(d.min() > 1e-6, "sample_haar:repeated-batch-entries")


@unit(PROP)
def law(ctx):
    rng = ctx.rng
    M = ctx.n(6000, 40000)
    for i, n in enumerate([2, 3, 4, 2, 3] + ([5, 4, 6] if ctx.tier == "thorough" else [])):
        via = ["sample_haar", "HaarDistribution"][i % 2]
        ctx.case({"n": n, "via": via, "samples": M}, count=M, sig=(n, via, i))
        ctx.saw("laws", 2)
        if i % 2:
            base = [(2,), (3, 2)][i % 4 // 2]
            d = lie.HaarDistribution(n, base)
            okc, r = ctx.call(via, d.sample, (M // int(np.prod(base)),), rng=ctx.key())
            if not okc:
                continue
            u = N(r[0])
            flat = u.reshape(-1, n, n)
            pair = (u.reshape(len(u), -1, n, n)[:, 0], u.reshape(len(u), -1, n, n)[:, 1])
        else:
            okc, u = ctx.call(via, lie.sample_haar, ctx.key(), n, (M // 2, 2))
            if not okc:
                continue
            u = N(u)
            flat, pair = u.reshape(-1, n, n), (u[:, 0], u[:, 1])
        if not ctx.ok(flat.shape[-1] == n and len(flat) >= M // 2, via + ":shape", got=u.shape):
            continue
        V, W = random_su(rng, n), random_su(rng, n)
        for what, x in (("plain", flat), ("left", V @ flat), ("right", flat @ W), ("both", V @ flat @ W), ("inverse", flat.conj().swapaxes(-1, -2) @ V)):
            p = np.abs(x) ** 2
            for _ in range(2):
                a, b = rng.integers(n, size=2)
                dist, bound = ks(st.beta(1, n - 1).cdf(p[:, a, b]))
                ctx.ok(dist < bound, f"{via}:entry-modulus-law", translated=what, entry=(a, b), distance=dist, bound=bound)
                # phases of entries are uniform
                ph = np.angle(x[:, a, b]) / (2 * np.pi) + 0.5
                dist, bound = ks(ph)
                ctx.ok(dist < bound, f"{via}:entry-phase-law", translated=what, entry=(a, b), distance=dist, bound=bound)
            moments(ctx, np.trace(x, axis1=-2, axis2=-1), n, f"{via}:{what}")
        if n == 2:
            # class angle t in [0, pi]: density (2/pi) sin^2 t
            t = np.arccos(np.clip(np.trace(flat, axis1=-2, axis2=-1).real / 2, -1, 1))
            dist, bound = ks((t - np.sin(t) * np.cos(t)) / np.pi)
            ctx.ok(dist < bound, f"{via}:class-law", distance=dist, bound=bound)
        # independence across entries of the batch: U V^dagger is Haar again
        rel = pair[0] @ pair[1].conj().swapaxes(-1, -2)
        moments(ctx, np.trace(rel, axis1=-2, axis2=-1), n, f"{via}:independence")


@unit(PROP)
def distribution(ctx):
    rng = ctx.rng
    for i in range(ctx.n(8, 30)):
        n = int(rng.integers(1, 5))
        base = tuple(int(v) for v in rng.integers(1, 4, size=rng.integers(0, 3)))
        lattice = i % 2 == 1
        bs = [None, (), (3,), (2, 2)][int(rng.integers(4))]
        ctx.case({"n": n, "base": base, "lattice": lattice, "batch": bs}, sig=(n, base, lattice, bs), nontrivial=n > 1)
        ctx.saw("distributions")
        if lattice:
            base = base or (2,)
            okc, d = ctx.call("periodic_gauge_lattice", lie.HaarDistribution.periodic_gauge_lattice, n, base)
            ev = base + (len(base), n, n)
        else:
            okc, d = ctx.call("HaarDistribution", lie.HaarDistribution, n, base)
            ev = base + (n, n)
        if not okc:
            continue
        ctx.ok(tuple(d.event_shape) == ev, "event_shape", got=d.event_shape, want=ev)
        k = ctx.key()
        okc, r = ctx.call("HaarDistribution.sample", *([d.sample] if bs is None else [d.sample, bs]), rng=k)
        if not okc:
            continue
        x, ld = N(r[0]), N(r[1])
        b = bs or ()
        if not ctx.ok(x.shape == b + ev and ld.shape == b, "HaarDistribution:shapes", got=[x.shape, ld.shape], want=[b + ev, b]):
            continue
        member(ctx, x, n, "HaarDistribution")
        ctx.close(ld, np.zeros(b), "HaarDistribution:sample-density", atol=0)
        okc, l2 = ctx.call("HaarDistribution.log_density", d.log_density, r[0])
        if okc:
            ctx.close(N(l2), np.zeros(b), "HaarDistribution:log_density", atol=0)
        ctx.close(N(d.sample(*([] if bs is None else [bs]), rng=k)[0]), x, "HaarDistribution:pure", atol=0)
        # the internal random state is used, and advanced
        make = lie.HaarDistribution.periodic_gauge_lattice if lattice else lie.HaarDistribution
        okc, d2 = ctx.call("HaarDistribution(rngs)", lambda: make(n, base, rngs=nnx.Rngs(sample=int(rng.integers(1000)))))
        if okc and n > 1:
            okc, ac = ctx.call("HaarDistribution(rngs).sample", lambda: (d2.sample((2,))[0], d2.sample((2,))[0]))
            if not okc:
                continue
            a, c = map(N, ac)
            ctx.ok(a.shape == (2,) + ev and np.abs(a - c).max() > 1e-6, "HaarDistribution:internal-state-not-advanced")
        raised = False
        try:
            d.sample((2,))
        except Exception:
            raised = True
        ctx.ok(raised, "HaarDistribution:sampled-without-randomness")


def vander2(th):
    full = np.concatenate([th, -th.sum(-1, keepdims=True)], -1)
    out = np.ones(th.shape[:-1])
    for i, j in combinations(range(full.shape[-1]), 2):
        out = out * (2 - 2 * np.cos(full[..., i] - full[..., j]))
    return out


@unit(PROP)
def eigenangles(ctx):
    rng = ctx.rng
    for i in range(ctx.n(12, 40)):
        n = [2, 3, 4, 5, 1 + 1][i % 5]
        sh = [(), (6,), (2, 3), (1,), (1, 4)][int(rng.integers(5))]
        th = rng.uniform(-7, 7, size=sh + (n - 1,))
        if i % 3 == 0 and n > 2:
            th[..., 1] = th[..., 0]
        ctx.case({"n": n, "batch": sh, "degenerate": bool(i % 3 == 0)}, count=max(1, int(np.prod(sh))), sig=(n, sh, i % 3))
        ctx.saw("densities")
        okc, d = ctx.call("compute_haar_density", lie.compute_haar_density, jnp.asarray(th))
        if okc:
            ctx.close(N(d), vander2(th), "compute_haar_density", atol=1e-11, rtol=1e-11)
        k = ctx.key()
        okc, u = ctx.call("construct_su_matrix", lie.construct_su_matrix_from_eigenvalues, k, jnp.asarray(th))
        if not okc:
            continue
        u = N(u)
        ctx.saw("constructed")
        if not ctx.ok(u.shape == sh + (n, n), "construct_su_matrix:shape", got=u.shape, want=sh + (n, n)):
            continue
        member(ctx, u, n, "construct_su_matrix")
        full = np.concatenate([th, -th.sum(-1, keepdims=True)], -1)
        # power traces determine the spectrum
        for p in range(1, n + 1):
            got = np.trace(np.linalg.matrix_power(u, p), axis1=-2, axis2=-1)
            ctx.close(got, np.exp(1j * p * full).sum(-1), "construct_su_matrix:spectrum", atol=1e-10)
        ctx.close(N(lie.construct_su_matrix_from_eigenvalues(k, jnp.asarray(th))), u, "construct_su_matrix:pure", atol=0)
        # one spectrum, many elements: no two batch entries share their eigenvectors
        fix = np.linspace(0.4, 0.9, n - 1) * np.where(np.arange(n - 1) % 2, -1, 1)
        sh2 = [(5,), (3, 4), (2, 1, 3), (4, 3), (1, 6), (2, 2, 2)][int(rng.integers(6))]
        okc, u = ctx.call("construct_su_matrix", lie.construct_su_matrix_from_eigenvalues, k, jnp.broadcast_to(jnp.asarray(fix), sh2 + (n - 1,)))
        if okc and ctx.ok(u.shape == sh2 + (n, n), "construct_su_matrix:shape", got=u.shape, want=sh2 + (n, n)):
            flat = N(u).reshape(-1, n, n)
            d = np.abs(flat[:, None] - flat[None]).max((-1, -2)) + np.eye(len(flat))
            ctx.ok(d.min() > 1e-6, "construct_su_matrix:repeated-batch-entries", batch=sh2)


@unit(PROP)
def eigenvectors(ctx):
    """Eigenvectors are Haar distributed, independently across the batch."""
    rng = ctx.rng
    M = ctx.n(5000, 30000)
    for n in (2, 3) if ctx.tier == "quick" else (2, 3, 4):
        th = rng.uniform(0.3, 1.0, size=n - 1) * rng.choice([-1, 1], size=n - 1)
        ctx.case({"n": n, "angles": th.tolist(), "samples": M}, count=M, sig=n)
        ctx.saw("laws")
        u = N(lie.construct_su_matrix_from_eigenvalues(ctx.key(), jnp.broadcast_to(jnp.asarray(th), (M, n - 1))))
        full = np.append(th, -th.sum())
        # projector on the first eigenvector by the spectral polynomial: P = prod_{j>0} (U - l_j) / (l_0 - l_j)
        lam = np.exp(1j * full)
        if min(abs(lam[0] - l) for l in lam[1:]) < 0.05:
            continue
        P = np.broadcast_to(np.eye(n), u.shape)
        for l in lam[1:]:
            P = P @ (u - l * np.eye(n)) / (lam[0] - l)
        W = random_su(rng, n)
        for what, X in (("plain", P), ("rotated", W @ P @ W.conj().T)):
            for a in range(n):
                dist, bound = ks(st.beta(1, n - 1).cdf(np.clip(X[:, a, a].real, 0, 1)))
                ctx.ok(dist < bound, "construct_su_matrix:eigenvector-law", basis=what, entry=a, distance=dist, bound=bound)
        s = np.abs((P[0::2][: M // 2] @ P[1::2][: M // 2]).trace(axis1=-2, axis2=-1))
        dist, bound = ks(st.beta(1, n - 1).cdf(np.clip(s, 0, 1)))
        ctx.ok(dist < bound, "construct_su_matrix:eigenvectors-dependent", distance=dist, bound=bound)


@unit(PROP)
def grids(ctx):
    rng = ctx.rng
    tr = lambda u: jnp.trace(u, axis1=-2, axis2=-1)
    fns = {
        "one": (lambda u: jnp.ones(u.shape[:-2]), lambda n: 1.0),
        "|tr|^2": (lambda u: jnp.abs(tr(u)) ** 2, lambda n: 1.0),
        "|tr|^4": (lambda u: jnp.abs(tr(u)) ** 4, lambda n: 2.0),
        "re tr": (lambda u: tr(u).real, lambda n: 0.0),
        "re tr U^2": (lambda u: tr(u @ u).real, lambda n: -1.0 if n == 2 else 0.0),
        "re tr^3": (lambda u: (tr(u) ** 3).real, lambda n: 1.0 if n == 3 else 0.0),
    }
    for i in range(ctx.n(10, 40)):
        n = [2, 3, 4][i % 3]
        g = int({2: rng.integers(7, 60), 3: rng.integers(11, 31), 4: rng.integers(14, 19)}[n])
        name = list(fns)[i % len(fns)] if i % 4 else "one"
        f, exact = fns[name]
        dom = ["torus", "weyl_chamber", None][int(rng.integers(3))]
        ctx.case({"n": n, "grid": g, "function": name, "domain": dom}, count=g ** (n - 1), sig=(n, g, name, dom))
        ctx.saw("grids")
        mid = -np.pi + (np.arange(g) + 0.5) * 2 * np.pi / g
        want = np.stack(np.meshgrid(*[mid] * (n - 1), indexing="ij"), -1)
        okc, a = ctx.call("create_eigenvalue_grid", lie.create_eigenvalue_grid, n, g)
        if okc:
            ctx.close(N(a), want, "create_eigenvalue_grid", atol=1e-12)
        kw = {"normalize": False} if dom is None else {} if (dom == "weyl_chamber" and i % 2) else {"normalization_domain": dom}
        if i % 2:
            kw["rng"] = ctx.key()
        seen = []

        def probe(u):
            seen.append(u)
            return f(u)

        okc, r = ctx.call("evaluate_density_on_eigenvalue_grid", lie.evaluate_density_on_eigenvalue_grid, probe, n, g, **kw)
        if not okc:
            continue
        ang, val, w = map(N, r)
        ctx.close(ang, want.reshape(-1, n - 1), "evaluate_density:angles", atol=1e-12)
        norm = {"torus": (2 * np.pi) ** (n - 1) * factorial(n), "weyl_chamber": (2 * np.pi) ** (n - 1), None: 1.0}[dom]
        ctx.close(w, vander2(want.reshape(-1, n - 1)) / norm, "evaluate_density:weights", atol=1e-11)
        u = N(seen[0])
        full = np.concatenate([ang, -ang.sum(-1, keepdims=True)], -1)
        if ctx.ok(u.shape == (g ** (n - 1), n, n), "evaluate_density:matrices-shape", got=u.shape):
            ctx.close(np.trace(u, axis1=-2, axis2=-1), np.exp(1j * full).sum(-1), "evaluate_density:matrices-belong-to-angles", atol=1e-10)
            ctx.close(val, N(f(seen[0])), "evaluate_density:values", atol=0)
        # trigonometric polynomials integrate exactly on these grids
        total = (val * w).sum() * (2 * np.pi / g) ** (n - 1)
        ctx.close(total, exact(n) * (2 * np.pi) ** (n - 1) * factorial(n) / norm, "evaluate_density:integral", atol=1e-8, fn=name)
    for bad in (1, 0):
        try:
            lie.create_eigenvalue_grid(bad, 4)
            ctx.violate("create_eigenvalue_grid:accepts-n<2", n=bad)
        except ValueError:
            pass
