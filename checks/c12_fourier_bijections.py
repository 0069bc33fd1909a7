"""C12: Fourier-space scalings are the stated linear maps with their exact Jacobians."""

from vlib.core import unit
from vlib.jx import *

PROP = "C12"
RULE = (
    "random Hermitian-symmetric spectra (either sign) and free-theory parameters on odd/even/size-1 lattices in 1-3 "
    "dimensions with batch and channel axes; oracle is a dense matrix built from explicit DFT sums or the nearest-"
    "neighbour lattice operator, and the slogdet of that matrix; non-trivial = lattice with more than one site"
)
ASSUMPTIONS = ["float64", "user spectra are symmetric under k -> -k, as reality of the field requires"]
MIN_COUNTERS = {"spectra": 25, "free": 25}

SHAPES = [(1,), (2,), (5,), (6,), (3, 4), (4, 3), (5, 3), (2, 2), (4, 4), (1, 4), (3, 2, 4), (2, 3, 3)]


def dft(shape):
    """Unitary DFT matrix over flattened sites."""
    m = np.ones((1, 1))
    for n in shape:
        k = np.arange(n)
        m = np.kron(m, np.exp(-2j * np.pi * np.outer(k, k) / n) / np.sqrt(n))
    return m


def symmetrize(s):
    t = s
    for ax in range(s.ndim):
        t = np.roll(np.flip(t, ax), 1, ax)
    return s, t


def dense(full):
    F = dft(full.shape)
    M = F.conj().T @ (full.ravel()[:, None] * F)
    assert np.abs(M.imag).max() < 1e-9
    return M.real


def laplacian(shape):
    n = int(np.prod(shape))
    K = np.zeros((n, n))
    idx = np.arange(n).reshape(shape)
    for ax in range(len(shape)):
        for sh in (1, -1):
            nb = np.roll(idx, sh, ax)
            for a, b in zip(idx.ravel(), nb.ravel()):
                K[a, a] += 1
                K[a, b] -= 1
    return K


def monitor(ctx, k, b, M, shape, ch, rng):
    batch = [(), (3,), (2, 2)][int(rng.integers(3))]
    chs = tuple(int(v) for v in rng.integers(1, 4, size=ch))
    x, ld0 = rng.normal(size=batch + shape + chs), rng.normal(size=batch)
    C = int(np.prod(chs)) if chs else 1
    n = int(np.prod(shape))
    ap = lambda A, v: np.einsum("ij,bjc->bic", A, v.reshape(-1, n, C)).reshape(v.shape)
    sign, logdet = np.linalg.slogdet(M)
    cond = np.linalg.cond(M)
    for nm, f, A, s in (("forward", b.forward, M, -1), ("reverse", b.reverse, np.linalg.inv(M), 1)):
        okc, r = ctx.call(f"{k}:{nm}", f, jnp.asarray(x), jnp.asarray(ld0))
        if okc:
            ctx.close(N(r[0]), ap(A, x), f"{k}:{nm}:value", atol=1e-11 * cond, rtol=1e-9)
            ctx.close(N(r[1]), ld0 + s * C * logdet, f"{k}:{nm}:log-density", atol=1e-8, rtol=1e-9)
    okc, r = ctx.call(k + ":roundtrip", b.forward, jnp.asarray(x), jnp.asarray(ld0), unused=0)
    if okc:
        okc, q = ctx.call(k + ":roundtrip", b.reverse, *r)
        if okc:
            ctx.close(N(q[0]), x, k + ":roundtrip", atol=1e-10 * cond, rtol=1e-9)
            ctx.close(N(q[1]), ld0, k + ":roundtrip", atol=1e-9, rtol=1e-9)


def spectrum(ctx, shapes):
    rng = ctx.rng
    for rep in range(ctx.n(5, 30)):
        for shape in shapes:
            full = np.exp(rng.normal(size=shape) * 0.5)
            a, b_ = symmetrize(full)
            full = (a + b_) / 2
            sg = np.sign(rng.normal(size=shape))
            a, b_ = symmetrize(sg)
            full = full * np.where(a + b_ == 0, 1, a) if rng.integers(2) else full
            red = full[..., : shape[-1] // 2 + 1]
            ch = int(rng.integers(0, 3))
            k = "spectrum" + ("[channels]" if ch else "")
            ctx.case({"shape": shape, "scaling": red, "channels": ch}, nontrivial=np.prod(shape) > 1)
            okc, b = ctx.call(k, bijx.SpectrumScaling, jnp.asarray(red) if rep % 2 else nnx.Param(jnp.asarray(red)), ch)
            if okc:
                monitor(ctx, k, b, dense(full), shape, ch, rng)
                ctx.saw("spectra")


def free(ctx, shapes):
    rng = ctx.rng
    for rep in range(ctx.n(5, 30)):
        for shape in shapes:
            m2 = float(np.exp(rng.normal() if rep % 2 else rng.uniform(-7, 4)))
            lat, half, pre = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
            var = int(rng.integers(3))
            ch = int(rng.integers(0, 2))
            k = f"free[{'lattice' if lat else 'continuum'}{',lazy' if not pre or var else ''}{',channels' if ch else ''}]"
            ctx.case({"shape": shape, "m2": m2, "lattice": lat, "half": half, "precompute": pre, "m2kind": var, "channels": ch},
                     nontrivial=np.prod(shape) > 1)
            mm = [m2, nnx.Param(jnp.asarray(m2)), bijx.Const(m2)][var]
            okc, b = ctx.call(k, bijx.FreeTheoryScaling, mm, shape, channel_dim=ch, finite_size=lat, precompute_spectrum=pre, half=half)
            if not okc:
                continue
            if lat:
                K = laplacian(shape)
            else:
                ks = np.stack(np.meshgrid(*[2 * np.pi * np.fft.fftfreq(n) for n in shape], indexing="ij"), -1)
                K = dense((ks ** 2).sum(-1))
            K = K + m2 * np.eye(len(K))
            w, V = np.linalg.eigh(K)
            M = (V * np.sqrt((1 if half else 0.5) / w)) @ V.T
            monitor(ctx, k, b, M, shape, ch, rng)
            ctx.saw("free")
            if ch == 0:
                # white noise -> exactly the Gaussian with action (1/2 or 1) phi K phi
                n = len(K)
                eps = rng.normal(size=(2,) + shape)
                lp = -0.5 * (eps.reshape(2, -1) ** 2).sum(-1) - 0.5 * n * np.log(2 * np.pi)
                okc, r = ctx.call(k + ":law", b.forward, jnp.asarray(eps), jnp.asarray(lp))
                if okc:
                    phi = N(r[0]).reshape(2, -1)
                    P = K * (1 if half else 2)
                    want = -0.5 * np.einsum("bi,ij,bj->b", phi, P, phi) + 0.5 * np.log(np.linalg.eigvalsh(P)).sum() - 0.5 * n * np.log(2 * np.pi)
                    ctx.close(N(r[1]), want, k + ":law", atol=1e-8, rtol=1e-8)


for _i in range(4):
    unit(PROP, f"spectrum-{_i}")(lambda ctx, _i=_i: spectrum(ctx, SHAPES[_i::4]))
    unit(PROP, f"free-{_i}")(lambda ctx, _i=_i: free(ctx, SHAPES[_i::4]))


@unit(PROP)
def learnable_mass(ctx):
    """With a variable mass the map follows the variable and is differentiable in it."""
    for rep in range(ctx.n(6, 24)):
        shape = [(5,), (4, 3), (3, 3)][rep % 3]
        kind = (nnx.Param, nnx.Variable, bijx.Const, nnx.BatchStat)[(rep // 3 + rep) % 4]
        m2 = kind(jnp.asarray(float(np.exp(ctx.rng.normal()))))
        okc, b = ctx.call("mass", bijx.FreeTheoryScaling, m2, shape)
        if not okc:
            continue
        new = float(np.exp(ctx.rng.uniform(-6, 3)))
        ctx.case({"shape": shape, "m2": new, "kind": kind.__name__})
        b.m2.set_value(jnp.asarray(new))
        K = laplacian(shape) + new * np.eye(int(np.prod(shape)))
        okc, r = ctx.call("mass", b.forward, jnp.ones(shape), jnp.zeros(()))
        if okc:
            ctx.close(N(r[1]), np.asarray(0.5 * np.linalg.slogdet(K)[1]), "mass:updated", atol=1e-9, rtol=1e-9)
            g, s = nnx.split(b)
            okc, d = ctx.call("mass:grad", jax.grad(lambda st: nnx.merge(g, st).forward(jnp.ones(shape), jnp.zeros(()))[1]), s)
            if okc:
                ctx.close(N(jax.tree.leaves(d["m2"])[0]), np.asarray(0.5 * np.trace(np.linalg.inv(K))), "mass:grad", atol=1e-9, rtol=1e-8)
