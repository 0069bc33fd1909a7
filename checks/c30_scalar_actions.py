"""C30: scalar lattice action densities are the documented local sums on periodic lattices."""

from itertools import product

from vlib.core import unit
from vlib.jx import *
from bijx.lattice import scalar, roll_lattice

PROP = "C30"
RULE = (
    "random real fields, d = 1..4, uneven lattice lengths down to 1, couplings of either sign, None and zero, arrays; oracles: explicit "
    "site loops with modular neighbours, covariance under shifts, field sign flips and mirrored sums, momentum-space form of the free action, "
    "finite-difference forces and jit/vmap agreement; non-trivial = more than one site"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"densities": 40, "polynomials": 15, "covariances": 12, "spectra": 6}


def lat(rng):
    d = int(rng.integers(1, 5))
    return tuple(int(v) for v in rng.integers(1, {1: 10, 2: 7, 3: 5, 4: 4}[d], size=d))


def forward(phi):
    """list over directions of phi(x + mu), by explicit loops."""
    out = []
    for mu in range(phi.ndim):
        f = np.empty_like(phi)
        for x in product(*map(range, phi.shape)):
            y = list(x)
            y[mu] = (y[mu] + 1) % phi.shape[mu]
            f[x] = phi[tuple(y)]
        out.append(f)
    return out


def kin(phi):
    return sum((f - phi) ** 2 for f in forward(phi))


def phi4(phi, m2, lam):
    return kin(phi) + m2 * phi**2 + (0 if lam is None else lam) * phi**4


def alt(phi, kappa, lam):
    lam = 0 if lam is None else lam
    return -2 * kappa * phi * sum(forward(phi)) + (1 - 2 * lam) * phi**2 + lam * phi**4


def couplings(rng, i):
    m2 = [rng.normal() * 3, 0.0, -1.25, 2][i % 4]
    lam = [None, rng.uniform(0, 2), 0.0, -rng.uniform(), rng.uniform(0, 3)][i % 5]
    return m2, lam


@unit(PROP)
def densities(ctx):
    rng = ctx.rng
    for i in range(ctx.n(20, 100)):
        sh = lat(rng)
        phi = rng.normal(size=sh) * 10.0 ** rng.uniform(-3, 2)
        m2, lam = couplings(rng, i)
        ctx.case({"lattice": sh, "m2": m2, "lam": lam}, sig=(sh, m2, lam), nontrivial=phi.size > 1)
        ctx.saw("densities", 3)
        sc = 1e-13 * 20 * (np.abs(phi).max() ** 2 * (4 * len(sh) + 4) + np.abs(phi).max() ** 4 * 4) * (1 + abs(m2))
        for name, f, want in (
            ("kinetic_term", lambda: scalar.kinetic_term(jnp.asarray(phi)), kin(phi)),
            ("phi4_term", lambda: scalar.phi4_term(jnp.asarray(phi), m2, *(() if lam is None and i % 2 else (lam,))), phi4(phi, m2, lam)),
            ("phi4_term_alt", lambda: scalar.phi4_term_alt(jnp.asarray(phi), m2, *(() if lam is None and i % 2 else (lam,))), alt(phi, m2, lam)),
        ):
            okc, got = ctx.call(name, f)
            if okc:
                ctx.close(N(got), want, name, atol=1e-300, rtol=1e-11, scale=sc)


@unit(PROP)
def polynomials(ctx):
    rng = ctx.rng
    for i in range(ctx.n(20, 80)):
        sh = lat(rng) if i % 5 else ()
        phi = rng.normal(size=sh) * 2
        c = rng.normal(size=int(rng.integers(1, 7)))
        even = bool(i % 2)
        ctx.case({"lattice": sh, "coeffs": c.tolist(), "even": even}, sig=(sh, len(c), even), nontrivial=len(c) > 1)
        ctx.saw("polynomials")
        x = phi**2 if even else phi
        want = sum(cj * x ** (len(c) - j) for j, cj in enumerate(c)) + 0 * x
        okc, got = ctx.call("poly_term", scalar.poly_term, jnp.asarray(phi), jnp.asarray(c), *((True,) if even else ()))
        if okc:
            ctx.close(N(got), want, "poly_term", atol=1e-10, rtol=1e-10, scale=1e-13 * (1 + np.abs(x)) ** len(c) * 50)
        if sh and not even:
            a, b = rng.normal(size=2)
            # phi4 potentials are even polynomials
            got = N(scalar.phi4_term(jnp.asarray(phi), a, b)) - N(scalar.kinetic_term(jnp.asarray(phi)))
            okc, pot = ctx.call("poly_term", scalar.poly_term, jnp.asarray(phi), jnp.asarray([b, a]), True)
            if okc:
                ctx.close(got, N(pot), "phi4_term:potential", atol=1e-10)


@unit(PROP)
def covariance(ctx):
    rng = ctx.rng
    for i in range(ctx.n(14, 60)):
        sh = lat(rng)
        d = len(sh)
        phi = rng.normal(size=sh)
        m2, lam = couplings(rng, i)
        s = tuple(int(v) for v in rng.integers(-6, 7, size=d))
        ctx.case({"lattice": sh, "shift": s, "m2": m2, "lam": lam}, sig=(sh, s, i % 20), nontrivial=phi.size > 1)
        ctx.saw("covariances")
        perm = tuple(int(v) for v in rng.permutation(d))
        for name, f in (
            ("kinetic_term", scalar.kinetic_term),
            ("phi4_term", lambda p: scalar.phi4_term(p, m2, lam)),
            ("phi4_term_alt", lambda p: scalar.phi4_term_alt(p, m2, lam)),
        ):
            J = jnp.asarray(phi)
            okc, base = ctx.call(name, f, J)
            if not okc:
                continue
            base = N(base)
            ctx.close(N(f(roll_lattice(J, s))), N(roll_lattice(jnp.asarray(base), s)), name + ":translation", atol=1e-11)
            ctx.close(N(f(-J)), base, name + ":sign-flip", atol=1e-11)
            ctx.close(N(f(J.transpose(perm))), base.transpose(perm), name + ":axis-permutation", atol=1e-11)
            ax = int(rng.integers(d))
            ctx.close(N(f(jnp.flip(J, ax))).sum(), base.sum(), name + ":reflection", atol=1e-10)
            # batches through vmap, and compiled
            B = jnp.stack([J, 2 * J, -J + 1])
            v = N(jax.jit(jax.vmap(f))(B))
            ctx.close(v, np.stack([N(f(b)) for b in B]), name + ":vmap", atol=1e-10)
            # force by independent differencing of the site loop
            x = tuple(int(rng.integers(k)) for k in sh)
            ref = {"kinetic_term": kin, "phi4_term": lambda p: phi4(p, m2, lam), "phi4_term_alt": lambda p: alt(p, m2, lam)}[name]
            e = np.zeros(sh)
            e[x] = 1e-3
            want = sum(cj * (ref(phi + k * e).sum() - ref(phi - k * e).sum()) for k, cj in ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60))) / 1e-3
            got = N(jax.grad(lambda p: f(p).sum())(J))[x]
            ctx.close(got, want, name + ":force", atol=1e-8, rtol=1e-8)


@unit(PROP)
def free_spectrum(ctx):
    """Summed free action in momentum space, and its inverse is the covariance of FreeTheoryScaling."""
    rng = ctx.rng
    for i in range(ctx.n(8, 30)):
        sh = lat(rng)
        phi = rng.normal(size=sh)
        m2 = rng.uniform(0.05, 3)
        ctx.case({"lattice": sh, "m2": m2}, sig=(sh, i), nontrivial=phi.size > 1)
        ctx.saw("spectra")
        k2 = sum(
            (2 * np.sin(np.pi * np.arange(L) / L).reshape([-1 if j == a else 1 for j in range(len(sh))])) ** 2 for a, L in enumerate(sh)
        )
        want = (np.abs(np.fft.fftn(phi)) ** 2 * (k2 + m2)).sum() / phi.size
        okc, s = ctx.call("phi4_term", scalar.phi4_term, jnp.asarray(phi), m2)
        if okc:
            ctx.close(N(s).sum(), want, "phi4_term:momentum-space", atol=1e-9, rtol=1e-10)
        okc, k = ctx.call("fft_momenta", bijx.fourier.fft_momenta, sh, reduced=False, lattice=True)
        if okc:
            want2 = (np.abs(np.fft.fftn(phi)) ** 2 * (N(k) ** 2).sum(-1)).sum() / phi.size
            ctx.close(N(scalar.kinetic_term(jnp.asarray(phi))).sum(), want2, "kinetic_term:lattice-momenta", atol=1e-9, rtol=1e-10)
