"""C26: matrix and Lie algebra toolbox computes what it names."""

from vlib.core import unit
from vlib.jx import *
from vlib.su import *
from bijx import lie

PROP = "C26"
RULE = (
    "random complex (rectangular, batched, non-unitary) matrices and SU(N), N = 1..5; numpy oracles for products, traces, inner "
    "products, adjoints; defining equations for generators and for the cotangent projection; non-trivial = a matrix larger than 1x1"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"chains": 30, "products": 15, "projections": 20, "generators": 12}


def cplx(rng, *s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)


def documented(name):
    """2i for U(1), i times the Pauli and Gell-Mann matrices (docs/source/intro/lie.ipynb)."""
    if name == "U1_GEN":
        return np.array([[[2j]]])
    if name == "SU2_GEN":
        return 1j * np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    out = []
    for a, b in ((0, 1), (0, 2), (1, 2)):
        s, t = np.zeros((3, 3), complex), np.zeros((3, 3), complex)
        s[a, b] = s[b, a] = 1
        t[a, b], t[b, a] = -1j, 1j
        out += [s, t]
    out.insert(2, np.diag([1, -1, 0]).astype(complex))
    return 1j * np.stack(out + [np.diag([1, 1, -2]) / np.sqrt(3)])


@unit(PROP)
def generators(ctx):
    for name, n in (("U1_GEN", 1), ("SU2_GEN", 2), ("SU3_GEN", 3)):
        g = N(getattr(lie, name))
        ctx.case({"generators": name}, count=len(g), sig=(name,), nontrivial=True)
        ctx.saw("generators", len(g))
        if not ctx.ok(g.shape == (max(n * n - 1, 1), n, n), f"{name}:shape", got=g.shape):
            continue
        ctx.close(g, documented(name), f"{name}:documented", atol=1e-6)
        ctx.close(g.conj().swapaxes(-1, -2), -g, f"{name}:anti-hermitian", atol=1e-6)
        if n > 1:
            ctx.close(np.trace(g, axis1=-2, axis2=-1), np.zeros(len(g)), f"{name}:traceless", atol=1e-6)
            ctx.close(np.einsum("aij,bij->ab", g.conj(), g) / 2, np.eye(len(g)) + 0j, f"{name}:orthonormal", atol=1e-6)
            got = N(lie.scalar_prod(jnp.asarray(g)[:, None], jnp.asarray(g)[None]))
            ctx.close(got, np.eye(len(g)) + 0j, f"{name}:scalar_prod", atol=1e-6)
        else:
            ctx.ok(abs(g).min() > 0, f"{name}:nonzero")


@unit(PROP)
def chains(ctx):
    rng = ctx.rng
    for i in range(ctx.n(40, 300)):
        m = int(rng.integers(1, 6))
        lead = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        trace = bool(i % 2)
        dims = [int(v) for v in rng.integers(1, 5, size=m + 1)]
        if trace:
            dims[-1] = dims[0]
        batched = [bool(rng.integers(3)) or j == 0 for j in range(m)]
        rng.shuffle(batched)
        fs = [cplx(rng, *(lead if b else ()), dims[j], dims[j + 1]) for j, b in enumerate(batched)]
        ctx.case({"dims": dims, "lead": lead, "batched": batched, "trace": trace}, sig=(i,), nontrivial=max(dims) > 1)
        ctx.saw("chains")
        want = fs[0]
        for f in fs[1:]:
            want = want @ f
        want = np.broadcast_to(want, (*lead, dims[0], dims[-1])) if any(batched) else want
        if trace:
            want = np.trace(want, axis1=-2, axis2=-1)
        okc, got = ctx.call("contract", lie.contract, *map(jnp.asarray, fs), trace=trace)
        if okc:
            ctx.close(got, want, "contract:trace" if trace else "contract", atol=1e-9 * 4**m)


@unit(PROP)
def products(ctx):
    rng = ctx.rng
    for i in range(ctx.n(20, 120)):
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        lead = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        a, b = cplx(rng, *lead, n, m), cplx(rng, *lead, n, m)
        ctx.case({"shape": a.shape}, sig=(i,), nontrivial=n * m > 1)
        ctx.saw("products")
        ctx.close(lie.scalar_prod(jnp.asarray(a), jnp.asarray(b)), np.sum(a.conj() * b, (-1, -2)) / 2, "scalar_prod", atol=1e-11)
        ctx.close(lie.adjoint(jnp.asarray(a)), a.conj().swapaxes(-1, -2), "adjoint", atol=0, rtol=0)
        x, y = random_algebra(rng, n + 1, lead), random_algebra(rng, n + 1, lead)
        g = N(lie.scalar_prod(jnp.asarray(x), jnp.asarray(y)))
        ctx.close(g.imag, np.zeros(g.shape), "scalar_prod:real-on-algebra", atol=1e-11)


@unit(PROP)
def projections(ctx):
    """skew_traceless_cot(a, u) is the algebra element G with <G, X> = Re tr(a^T X u) for all X."""
    rng = ctx.rng
    for i in range(ctx.n(24, 150)):
        n = int(rng.integers(1, 6))
        lead = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        u = random_su(rng, n, lead) if i % 3 else cplx(rng, *lead, n, n)
        a = cplx(rng, *lead, n, n)
        ctx.case({"n": n, "lead": lead, "unitary": bool(i % 3)}, sig=(i,), nontrivial=n > 1)
        ctx.saw("projections")
        okc, g = ctx.call("skew_traceless_cot", lie.skew_traceless_cot, jnp.asarray(a), jnp.asarray(u))
        if not okc:
            continue
        b = su_basis(n)
        comp = np.einsum("...ij,eik,...kj->...e", a, b, u).real
        ctx.close(g, np.einsum("...e,eij->...ij", comp, b), "skew_traceless_cot", atol=1e-11)
