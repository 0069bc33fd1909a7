"""C27: derivatives on matrix groups are the derivatives along exp(tX) g."""

from vlib.core import unit
from vlib.jx import *
from vlib.su import *
from bijx import lie

PROP = "C27"
RULE = (
    "random real functions of one or several group elements (traces of words in U and U^dagger with random matrices, their squares "
    "and exponentials) on SU(N), N = 1..4; oracle is sixth-order differencing along scipy's exp(tX) g; non-trivial = N >= 2"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"grads": 14, "curves": 16, "paths": 12, "laplacians": 8}
TOL = 3e-7


class Fn:
    """Random smooth real function of (N x N complex) matrices; same formula in numpy and jax."""

    def __init__(self, rng, n, k=1):
        self.a = [(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))) / n for _ in range(4)]
        self.words = [[(int(rng.integers(k)), bool(rng.integers(2))) for _ in range(int(rng.integers(1, 4)))] for _ in range(3)]
        self.words[0][0] = (0, False)

    def __call__(self, *us, xp=np):
        out = 0.0
        for j, w in enumerate(self.words):
            m = xp.asarray(self.a[j])
            for idx, dag in w:
                u = us[idx]
                m = m @ (u.conj().T if dag else u) @ xp.asarray(self.a[3])
            t = xp.trace(m)
            out = out + t.real + 0.3 * t.imag + (0.2 * t.real**2 if j == 1 else 0.0) + (xp.sin(t.real) if j == 2 else 0.0)
        return out

    def jax(self, *us):
        return self(*us, xp=jnp)


def move(u, x, t, left=False):
    return u @ expm(t * x) if left else expm(t * x) @ u


def components(f, u, basis):
    return np.array([diff1(lambda t: f(move(u, e, t))) for e in basis])


@unit(PROP)
def grads(ctx):
    rng = ctx.rng
    for i in range(ctx.n(14, 100)):
        n = int(rng.integers(2, 5)) if i % 5 else 1
        f, u = Fn(rng, n), random_su(rng, n)
        scale = float(rng.normal())
        b = su_basis(n)
        ctx.case({"n": n, "words": f.words, "u": repr(u.tolist())}, sig=(i,), nontrivial=n > 1)
        want = np.einsum("e,eij->ij", components(f, u, b), b)
        ju = jnp.asarray(u)
        ctx.saw("grads")
        okc, g = ctx.call("grad", lie.grad(f.jax), ju)
        if okc:
            ctx.close(g, want, "grad", atol=TOL, rtol=1e-7)
        okc, g = ctx.call("grad:jit", jax.jit(lie.grad(f.jax)), ju)
        if okc:
            ctx.close(g, want, "grad:jit", atol=TOL, rtol=1e-7)
        okc, r = ctx.call("grad:value", lie.grad(f.jax, return_value=True), ju)
        if okc:
            ctx.close(r[0], f(u), "grad:value", atol=1e-10)
            ctx.close(r[1], want, "grad:value-gradient", atol=TOL, rtol=1e-7)
        h = lambda s, v, shift=0.0: s * f.jax(v) + shift
        for an in (1, -2 + 1):
            okc, g = ctx.call("grad:argnum", lie.grad(h, argnum=an), scale, ju)
            if okc:
                ctx.close(g, scale * want, "grad:argnum", atol=TOL, rtol=1e-7)
        okc, g = ctx.call("grad:kwargs", lambda: lie.grad(h, argnum=1, return_value=True)(scale, ju, shift=2.5))
        if okc:
            ctx.close(g[0], scale * f(u) + 2.5, "grad:kwargs", atol=1e-9)
        fa = lambda v: (f.jax(v), {"tag": v + 1})
        okc, g = ctx.call("grad:aux", lie.grad(fa, has_aux=True), ju)
        if okc and ctx.ok(isinstance(g, tuple) and len(g) == 2, "grad:aux-structure"):
            ctx.close(g[0], want, "grad:aux", atol=TOL, rtol=1e-7)
            ctx.close(g[1]["tag"], u + 1, "grad:aux-value", atol=1e-12)
        okc, g = ctx.call("grad:value-aux", lie.grad(fa, has_aux=True, return_value=True), ju)
        if okc:
            ctx.close(g[0][0], f(u), "grad:value-aux", atol=1e-10)
            ctx.close(g[0][1]["tag"], u + 1, "grad:value-aux-value", atol=1e-12)
            ctx.close(g[1], want, "grad:value-aux-gradient", atol=TOL, rtol=1e-7)
        # projection given by a basis, possibly of a subalgebra
        sub = b[: max(1, len(b) // 2)] if n > 1 else 1j * np.ones((1, 1, 1)) * np.sqrt(2)
        for basis, tag in ((b if n > 1 else sub, "full"), (sub, "sub")):
            w = np.einsum("e,eij->ij", components(f, u, basis), basis)
            okc, g = ctx.call("grad:basis", lie.grad(f.jax, algebra=jnp.asarray(basis)), ju)
            if okc:
                ctx.close(g, w, f"grad:basis-{tag}", atol=TOL, rtol=1e-7)
        okc, g = ctx.call("grad:custom", lie.grad(f.jax, algebra=lambda a, v: (a, v)), ju)
        if okc:
            ctx.close(g[1], u, "grad:custom-element", atol=0)
            x = random_algebra(rng, n) if n > 1 else np.array([[1j]])
            ctx.close(np.sum(N(g[0]) * (x @ u)).real, diff1(lambda t: f(move(u, x, t))), "grad:custom-cotangent", atol=TOL, rtol=1e-7)


@unit(PROP)
def fields(ctx):
    """Arrays of group elements: every entry gets its own gradient."""
    rng = ctx.rng
    for i in range(ctx.n(5, 30)):
        n = int(rng.integers(2, 4))
        shape = [(3,), (2, 2), (1,), (2, 1, 2)][int(rng.integers(4))]
        f, us = Fn(rng, n, 2), random_su(rng, n, shape)
        flat = int(np.prod(shape))
        ctx.case({"n": n, "shape": shape, "words": f.words}, sig=(i,), nontrivial=True)
        ctx.saw("grads")

        def total(v, xp):
            v = v.reshape(flat, n, n)
            return sum(f(v[k], v[(k + 1) % flat], xp=xp) for k in range(flat))

        b = su_basis(n)
        want = np.zeros((flat, n, n), complex)
        for k in range(flat):
            def at(m):
                w = us.reshape(flat, n, n).copy()
                w[k] = m
                return total(w, np)

            want[k] = np.einsum("e,eij->ij", components(at, us.reshape(flat, n, n)[k], b), b)
        want = want.reshape(us.shape)
        okc, g = ctx.call("field", lie.grad(lambda v: total(v, jnp)), jnp.asarray(us))
        if okc:
            ctx.close(g, want, "field-gradient", atol=2 * TOL, rtol=1e-7)
        okc, g = ctx.call("field:basis", lie.grad(lambda v: total(v, jnp), algebra=jnp.asarray(b)), jnp.asarray(us))
        if okc:
            ctx.close(g, want, "field-gradient:basis", atol=2 * TOL, rtol=1e-7)


@unit(PROP)
def laplacians(ctx):
    rng = ctx.rng
    for i in range(ctx.n(9, 60)):
        n = int(rng.integers(2, 4))
        f, u = Fn(rng, n), random_su(rng, n)
        b = su_basis(n)
        if i % 3 == 2:
            b = b[rng.permutation(len(b))[: max(1, len(b) - 1)]]
        ctx.case({"n": n, "basis": len(b), "words": f.words}, sig=(i,), nontrivial=True)
        ctx.saw("laplacians")
        okc, r = ctx.call("value_grad_divergence", lie.value_grad_divergence, f.jax, jnp.asarray(u), jnp.asarray(b))
        if okc:
            ctx.close(r[0], f(u), "laplacian:value", atol=1e-10)
            ctx.close(r[1], np.einsum("e,eij->ij", components(f, u, b), b), "laplacian:grad", atol=TOL, rtol=1e-7)
            ctx.close(r[2], sum(diff2(lambda t, e=e: f(move(u, e, t))) for e in b), "laplacian", atol=1e-5, rtol=1e-5)


@unit(PROP)
def curves(ctx):
    rng = ctx.rng
    for i in range(ctx.n(18, 120)):
        n = int(rng.integers(1, 5))
        f, u = Fn(rng, n), random_su(rng, n)
        x = random_algebra(rng, n) if n > 1 else np.array([[0.7j]])
        if i % 4 == 3:  # directions need not be normalised or traceless
            x = x + 1j * np.eye(n)
        left = bool(i % 2)
        ctx.case({"n": n, "left": left, "words": f.words}, sig=(i,), nontrivial=n > 1)
        ctx.saw("curves")
        want = diff1(lambda t: f(move(u, x, t, left)))
        ju, jx = jnp.asarray(u), jnp.asarray(x)
        okc, d = ctx.call("curve_grad", lie.curve_grad(f.jax, jx, left=left), ju)
        if okc:
            ctx.close(d, want, "curve_grad", atol=TOL, rtol=1e-7)
        okc, r = ctx.call("curve_grad:value", lie.curve_grad(f.jax, jx, left=left, return_value=True), ju)
        if okc:
            ctx.close(r[0], f(u), "curve_grad:value", atol=1e-10)
            ctx.close(r[1], want, "curve_grad:value-derivative", atol=TOL, rtol=1e-7)
        g = lambda s, v: (s * f.jax(v), v)
        okc, r = ctx.call("curve_grad:aux", lie.curve_grad(g, jx, argnum=1, has_aux=True, left=left), 2.0, ju)
        if okc and ctx.ok(isinstance(r, tuple) and len(r) == 2, "curve_grad:aux-structure"):
            ctx.close(r[0], 2 * want, "curve_grad:aux", atol=2 * TOL, rtol=1e-7)
            ctx.close(r[1], u, "curve_grad:aux-value", atol=1e-12)
        okc, r = ctx.call("curve_grad:value-aux", lie.curve_grad(g, jx, argnum=1, has_aux=True, return_value=True, left=left), 2.0, ju)
        if okc:
            ctx.close(r[0], 2 * f(u), "curve_grad:value-aux", atol=1e-9)
            ctx.close(r[1], 2 * want, "curve_grad:value-aux-derivative", atol=2 * TOL, rtol=1e-7)
        # remaining arguments, defaulted or given by keyword, reach the function at every evaluation
        def opts(s, v, p=1.5, *, q=0.5, r=2.0):
            return s * p * f.jax(v) * q + r * jnp.trace(v @ v).real

        tr2 = diff1(lambda t: (lambda m: np.trace(m @ m).real)(move(u, x, t, left)))
        for kw in ({}, {"p": -0.5}, {"q": 1.25, "r": -1.0}, {"p": 2.0, "r": 0.5}):
            p, q, r_ = kw.get("p", 1.5), kw.get("q", 0.5), kw.get("r", 2.0)
            okc, fn = ctx.call("curve_grad:keywords", lie.curve_grad, opts, jx, 1, False, bool(i % 3 == 0), left)
            okc, d = ctx.call("curve_grad:keywords", lambda: fn(0.7, ju, **kw)) if okc else (False, None)
            if okc:
                val, d = d if i % 3 == 0 else (None, d)
                ctx.close(d, 0.7 * p * q * want + r_ * tr2, "curve_grad:keywords", atol=5 * TOL, rtol=1e-7)
                if val is not None:
                    ctx.close(val, 0.7 * p * q * f(u) + r_ * np.trace(u @ u).real, "curve_grad:keywords-value", atol=1e-9)
        # array-valued functions
        okc, d = ctx.call("curve_grad:array", lie.curve_grad(lambda v: (v @ v @ v).real, jx, left=left), ju)
        if okc:
            ctx.close(d, diff1(lambda t: (lambda m: (m @ m @ m).real)(move(u, x, t, left))), "curve_grad:array", atol=TOL, rtol=1e-7)


def tree_of(rng, kind, n):
    if kind == 0:
        return random_su(rng, n)
    if kind == 1:
        return [random_su(rng, n), random_su(rng, n)]
    return {"a": random_su(rng, n, (2,)), "b": (random_su(rng, n), random_su(rng, n, (1, 2)))}


@unit(PROP)
def paths(ctx):
    rng = ctx.rng
    for i in range(ctx.n(9, 60)):
        n = int(rng.integers(2, 4))
        us = tree_of(rng, i % 3, n)
        leaves, td = jax.tree.flatten(us)
        mats = np.concatenate([l.reshape(-1, n, n) for l in leaves])
        f = Fn(rng, n, len(mats))
        b = su_basis(n)[rng.permutation(n * n - 1)]
        ctx.case({"n": n, "kind": i % 3, "words": f.words}, sig=(i,), nontrivial=True)
        ctx.saw("paths")

        def fun(t):
            v = jnp.concatenate([l.reshape(-1, n, n) for l in jax.tree.leaves(t)])
            return f.jax(*[v[k] for k in range(len(mats))])

        def at(k, m):
            w = list(mats)
            w[k] = m
            return f(*w)

        d1 = np.array([components(lambda m, k=k: at(k, m), mats[k], b) for k in range(len(mats))])
        d2 = np.array([[diff2(lambda t: at(k, move(mats[k], e, t))) for e in b] for k in range(len(mats))])

        def fold(d):
            out, o = [], 0
            for l in leaves:
                c = int(np.prod(l.shape[:-2]))
                out.append(d[o : o + c].reshape(*l.shape[:-2], len(b)))
                o += c
            return out

        ju = jax.tree.map(jnp.asarray, us)
        okc, r = ctx.call("path_grad", lie.path_grad, fun, jnp.asarray(b), ju)
        if okc:
            ctx.close(r[0], f(*mats), "path_grad:value", atol=1e-10)
            if ctx.ok(jax.tree.structure(r[1]) == td, "path_grad:structure"):
                for got, want in zip(jax.tree.leaves(r[1]), fold(d1)):
                    ctx.close(got, want, "path_grad", atol=TOL, rtol=1e-7)
        okc, r = ctx.call("path_grad2", lie.path_grad2, fun, jnp.asarray(b), ju)
        if okc:
            ctx.close(r[0], f(*mats), "path_grad2:value", atol=1e-10)
            for got, want in zip(jax.tree.leaves(r[1]), fold(d1)):
                ctx.close(got, want, "path_grad2:first", atol=TOL, rtol=1e-7)
            for got, want in zip(jax.tree.leaves(r[2]), fold(d2)):
                ctx.close(got, want, "path_grad2:second", atol=1e-5, rtol=1e-5)


@unit(PROP)
def divergences(ctx):
    """path_div: divergence of a field given by its components in the generator basis."""
    rng = ctx.rng
    for i in range(ctx.n(8, 40)):
        n = int(rng.integers(2, 4))
        b = su_basis(n)
        lead = () if i % 2 else (int(rng.integers(1, 3)),)
        u = random_su(rng, n, lead)
        fs = [Fn(rng, n) for _ in range(len(b))]
        ctx.case({"n": n, "lead": lead}, sig=(i,), nontrivial=True)
        ctx.saw("paths")

        def vf(v, xp=jnp):
            w = v.reshape(-1, n, n)
            return xp.stack([xp.stack([f(w[k], xp=xp) for f in fs]) for k in range(w.shape[0])]).reshape(*v.shape[:-2], len(b))

        mats = u.reshape(-1, n, n)
        want = sum(diff1(lambda t: fs[e](move(m, b[e], t))) for m in mats for e in range(len(b)))
        okc, r = ctx.call("path_div", lie.path_div, vf, jnp.asarray(b), jnp.asarray(u))
        if okc:
            ctx.close(N(r[0]).ravel(), vf(u, np).ravel(), "path_div:value", atol=1e-10)
            ctx.close(r[1], want, "path_div", atol=1e-6, rtol=1e-7)
