"""C29: lattice gauge actions are gauge and lattice-symmetry invariant and equal the plaquette sum."""

from itertools import product

from vlib.core import unit
from vlib.jx import *
from vlib.su import *
from bijx.lattice import gauge, roll_lattice

PROP = "C29"
RULE = (
    "random SU(N) (and general complex) link fields, N = 1..4, d = 1..4, uneven lattice lengths down to 1 and 2, batches, couplings of "
    "either sign (also batched); oracles: explicit site loops over plaquettes, gauge rotations, reflections, swaps, rotations and shifts, "
    "group relations, and exact invariance of the action; non-trivial = d >= 2 and N >= 2"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"actions": 12, "gauge_rotations": 10, "symmetries": 15, "rolls": 20}


def lat_shape(rng, d):
    hi = {1: 7, 2: 6, 3: 4, 4: 3}[d]
    return tuple(int(v) for v in rng.integers(1, hi + 1, size=d))


def field(rng, n, shape, batch=(), unitary=True):
    full = batch + shape + (len(shape),)
    if unitary:
        return random_su(rng, n, full)
    return rng.normal(size=full + (n, n)) + 1j * rng.normal(size=full + (n, n))


def nb(x, mu, shape, s=1):
    y = list(x)
    y[mu] = (y[mu] + s) % shape[mu]
    return tuple(y)


def dag(a):
    return a.conj().swapaxes(-1, -2)


def plaquette_sum(u, shape):
    d, tot = len(shape), 0.0
    for x in product(*map(range, shape)):
        for mu in range(d):
            for nu in range(mu + 1, d):
                p = u[x][mu] @ u[nb(x, mu, shape)][nu] @ dag(u[nb(x, nu, shape)][mu]) @ dag(u[x][nu])
                tot += np.trace(p).real
    return tot


def cases(ctx, quick, thorough):
    rng = ctx.rng
    for i in range(ctx.n(quick, thorough)):
        d = [2, 3, 1, 2, 4, 2][i % 6]
        n = int(rng.integers(1, 5))
        yield i, d, n, lat_shape(rng, d)


@unit(PROP)
def action(ctx):
    rng = ctx.rng
    for i, d, n, sh in cases(ctx, 15, 80):
        batch = [(), (3,), (2, 2)][i % 3]
        uni = i % 4 != 3
        u = field(rng, n, sh, batch, uni)
        beta = rng.normal() * 3 if i % 2 or not batch else rng.normal(size=batch)
        ctx.case({"n": n, "lattice": sh, "batch": batch, "unitary": uni, "beta": beta}, sig=(n, sh, batch, uni, np.ndim(beta)), nontrivial=n > 1 and d > 1)
        ctx.saw("actions")
        flat = u.reshape((-1,) + u.shape[len(batch):])
        want = np.array([plaquette_sum(f, sh) for f in flat]).reshape(batch) * beta / n
        sc = 1e-12 * np.abs(beta) * u.size * 50 * np.max(np.abs(u)) ** 4
        okc, lp = ctx.call("wilson_log_prob", gauge.wilson_log_prob, jnp.asarray(u), jnp.asarray(beta))
        if okc:
            ctx.close(N(lp), want, "wilson_log_prob", scale=sc)
        okc, s = ctx.call("wilson_action", gauge.wilson_action, jnp.asarray(u), jnp.asarray(beta))
        if okc:
            ctx.close(N(s), -want, "wilson_action", scale=sc)
        if d == 1:
            continue
        one = np.broadcast_to(np.eye(n) + 0j, u.shape)
        okc, s1 = ctx.call("wilson_action", gauge.wilson_action, jnp.asarray(one), 1.5)
        if okc:
            ctx.close(N(s1), np.full(batch, -1.5 * np.prod(sh) * d * (d - 1) / 2), "wilson_action:identity-field")


@unit(PROP)
def gauge_rotation(ctx):
    rng = ctx.rng
    for i, d, n, sh in cases(ctx, 14, 60):
        batch = [(), (2,), (1, 3)][i % 3]
        u = field(rng, n, sh, batch)
        g, h = random_su(rng, n, sh), random_su(rng, n, sh)
        ctx.case({"n": n, "lattice": sh, "batch": batch}, sig=(n, sh, batch), nontrivial=n > 1)
        ctx.saw("gauge_rotations")
        okc, v = ctx.call("apply_gauge_sym", gauge.apply_gauge_sym, jnp.asarray(u), jnp.asarray(g))
        if not okc:
            continue
        v = N(v)
        want = np.empty_like(u)
        for x in product(*map(range, sh)):
            for mu in range(d):
                ix = (Ellipsis, *x, mu, slice(None), slice(None))
                want[ix] = g[x] @ u[ix] @ dag(g[nb(x, mu, sh)])
        ctx.close(v, want, "apply_gauge_sym", atol=1e-12)
        w = N(gauge.apply_gauge_sym(jnp.asarray(v), jnp.asarray(h)))
        ctx.close(w, N(gauge.apply_gauge_sym(jnp.asarray(u), jnp.asarray(h @ g))), "apply_gauge_sym:composition", atol=1e-12)
        beta = rng.normal()
        a, b = [N(gauge.wilson_action(jnp.asarray(q), beta)) for q in (u, v)]
        ctx.close(b, a, "wilson_action:gauge-invariance", atol=1e-11 * u.size, case=i)


def swap_ref(u, sh, a, b):
    t = list(sh)
    t[a], t[b] = t[b], t[a]
    perm = list(range(len(sh)))
    perm[a], perm[b] = perm[b], perm[a]
    out = np.empty(tuple(t) + u.shape[len(sh):], u.dtype)
    for x in product(*map(range, t)):
        y = tuple(x[perm[k]] for k in range(len(sh)))
        for mu in range(len(sh)):
            out[x][mu] = u[y][perm[mu]]
    return out, tuple(t)


def flip_ref(u, sh, a):
    out = np.empty_like(u)
    for x in product(*map(range, sh)):
        y = list(x)
        y[a] = sh[a] - 1 - x[a]
        z = list(x)
        z[a] = (sh[a] - 2 - x[a]) % sh[a]
        for mu in range(len(sh)):
            out[x][mu] = dag(u[tuple(z)][mu]) if mu == a else u[tuple(y)][mu]
    return out


@unit(PROP)
def symmetries(ctx):
    rng = ctx.rng
    for i, d, n, sh in cases(ctx, 12, 80):
        u = field(rng, n, sh)
        a, b = (int(v) for v in rng.choice(d, size=2, replace=False)) if d > 1 else (0, 0)
        ctx.case({"n": n, "lattice": sh, "axes": [a, b]}, sig=(n, sh, a, b), nontrivial=n > 1 and d > 1)
        ctx.saw("symmetries", 3)
        beta = rng.normal()
        S = N(gauge.wilson_action(jnp.asarray(u), beta))
        tol = 1e-11 * u.size
        J = jnp.asarray(u)
        okc, f = ctx.call("flip_axis", gauge.flip_axis, J, a)
        if okc:
            ctx.close(N(f), flip_ref(u, sh, a), "flip_axis", atol=0)
            ctx.close(N(gauge.flip_axis(f, a)), u, "flip_axis:involution", atol=0)
            ctx.close(N(gauge.wilson_action(f, beta)), S, "flip_axis:action", atol=tol)
        if d == 1:
            continue
        okc, s = ctx.call("swap_axes", gauge.swap_axes, J, a, b)
        if okc:
            want, t = swap_ref(u, sh, a, b)
            ctx.close(N(s), want, "swap_axes", atol=0)
            ctx.close(N(gauge.swap_axes(s, a, b)), u, "swap_axes:involution", atol=0)
            ctx.close(N(gauge.swap_axes(J, b, a)), N(s), "swap_axes:argument-order", atol=0)
            ctx.close(N(gauge.wilson_action(s, beta)), S, "swap_axes:action", atol=tol)
        okc, r = ctx.call("rotate_lat", gauge.rotate_lat, J, a, b)
        if okc:
            want, t = swap_ref(u, sh, a, b)
            ctx.close(N(r), flip_ref(want, t, a), "rotate_lat", atol=0)
            ctx.close(N(gauge.wilson_action(r, beta)), S, "rotate_lat:action", atol=tol)
            q = r
            for k in range(3):
                q = gauge.rotate_lat(q, a, b)
                if k == 0:
                    ctx.close(N(gauge.rotate_lat(gauge.rotate_lat(q, b, a), b, a)), u, "rotate_lat:opposite", atol=0)
            ctx.close(N(q), u, "rotate_lat:order-four", atol=0)
        # defaults act in the plane of the first two axes
        ctx.close(N(gauge.rotate_lat(J)), N(gauge.rotate_lat(J, 0, 1)), "rotate_lat:defaults", atol=0)
        # gauge rotations and shifts commute: shifting field and gauge together
        sft = tuple(int(v) for v in rng.integers(-5, 6, size=d))
        g = random_su(rng, n, sh)
        okc, m = ctx.call("roll_lattice", roll_lattice, J, sft)
        if okc:
            lhs = gauge.apply_gauge_sym(m, roll_lattice(jnp.asarray(g), sft))
            rhs = roll_lattice(gauge.apply_gauge_sym(J, jnp.asarray(g)), sft)
            ctx.close(N(lhs), N(rhs), "gauge:translation-covariance", atol=1e-12)
            ctx.close(N(gauge.wilson_action(m, beta)), S, "roll_lattice:action", atol=tol)


@unit(PROP)
def rolls(ctx):
    rng = ctx.rng
    for i in range(ctx.n(20,100)):
        d = int(rng.integers(1, 5))
        sh = lat_shape(rng, d)
        ch = tuple(int(v) for v in rng.integers(1, 4, size=rng.integers(0, 3)))
        k = d if i % 3 else int(rng.integers(1, d + 1))
        x = rng.normal(size=sh + ch)
        loc = tuple(int(v) for v in rng.integers(-9, 10, size=k))
        inv = bool(i % 2)
        ctx.case({"lattice": sh, "channels": ch, "shift": loc, "invert": inv}, sig=(sh, ch, loc, inv), nontrivial=x.size > 1)
        ctx.saw("rolls")
        okc, y = ctx.call("roll_lattice", roll_lattice, jnp.asarray(x), loc, inv)
        if not okc:
            continue
        want = np.empty_like(x)
        for p in product(*map(range, sh)):
            q = tuple((p[j] + (-1 if inv else 1) * (loc[j] if j < k else 0)) % sh[j] for j in range(d))
            want[p] = x[q]
        ctx.close(N(y), want, "roll_lattice", atol=0)
        ctx.close(N(roll_lattice(y, loc, not inv)), x, "roll_lattice:inverse", atol=0)


@unit(PROP)
def forces(ctx):
    """The action's Lie gradient is equivariant and equals the staple force (independent numpy differencing)."""
    rng = ctx.rng
    for i, d, n, sh in cases(ctx, 6, 24):
        if d == 1 or n == 1:
            continue
        u = field(rng, n, sh)
        beta = rng.normal()
        ctx.case({"force": True, "n": n, "lattice": sh}, sig=("force", n, sh))
        ctx.saw("forces")
        okc, G = ctx.call("lie.grad(wilson_action)", bijx.lie.grad(lambda q: gauge.wilson_action(q, beta)), jnp.asarray(u))
        if not okc:
            continue
        x = tuple(int(rng.integers(s)) for s in sh)
        mu = int(rng.integers(d))
        X = random_algebra(rng, n)

        def along(t):
            w = u.copy()
            w[x][mu] = expm(t * X) @ u[x][mu]
            return -beta / n * plaquette_sum(w, sh)

        want = diff1(along)
        got = np.trace(dag(N(G)[x][mu]) @ X).real / 2
        ctx.close(got, want, "wilson_action:force", atol=1e-6 * (1 + abs(want)))
