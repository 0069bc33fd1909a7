"""C16: Crouch-Grossmann integration stays on the group, has its stated order and correct adjoints."""

from vlib.core import unit
from vlib.jx import *
from vlib.ode import dop
from bijx import cg

import scipy.linalg as sl

PROP = "C16"
RULE = (
    "random time- and state-dependent algebra-valued fields on SU(N), U(N), SO(N), GL(N) and product (pytree) states, "
    "random tableaux (incl. user-built), windows of both directions, projections and adjoint transports; oracles are a "
    "by-hand stage evaluation with scipy expm, DOP853 in the matrix algebra, observed orders and directional finite "
    "differences of the reference; non-trivial = non-commuting field"
)
ASSUMPTIONS = ["float64", "the vector field returns Lie algebra elements (documented)"]
MIN_COUNTERS = {"steps": 20, "orders": 3, "gradients": 20, "projections": 6}
TAB = {"euler": cg.EULER, "cg2": cg.CG2, "cg3": cg.CG3}


def alg(rng, n, kind):
    a = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if kind in ("su", "u") else 0)
    if kind == "gl":
        return a * 0.5
    a = (a - a.conj().T) / 2
    return a - (np.trace(a) / n * np.eye(n) if kind == "su" else 0)


def problem(rng, kind, n, batch=()):
    """Coupled group/vector ODE; returns jax field, numpy field, state, args."""
    A, B, C = (alg(rng, n, kind) * s for s in (0.7, 0.6, 0.6))
    w = rng.normal(size=2)
    nb = int(np.prod(batch))
    g0 = np.stack([sl.expm(alg(rng, n, kind)) for _ in range(nb)]).reshape(batch + (n, n))
    v0 = rng.normal(size=batch + (2,))

    def f(t, y, args, xp=jnp):
        U, v = y["U"], y["v"]
        a, b = args
        inv = U.conj().swapaxes(-1, -2) if kind != "gl" else None
        m = U @ C @ inv if kind != "gl" else xp.real(U @ C) * 0.3
        out = a * A + xp.cos(2 * t) * B + b * m + xp.sum(v, -1)[..., None, None] * 0.2 * B
        dv = xp.sin(t) * v * b + w * xp.real(xp.einsum("...ii->...", U @ A))[..., None]
        return {"U": out, "v": dv}

    return f, {"U": g0, "v": v0}, (float(rng.normal()), float(rng.normal() * 0.5))


def hand(f, tab, y, t0, t1, steps, args):
    a, b = np.array(tab.a), np.array(tab.b)
    c = a.sum(1)
    h = (t1 - t0) / steps

    def move(y, co, ks):
        U, v = y["U"], y["v"]
        for x, kk in zip(co, ks):
            if x:
                e = np.stack([sl.expm(m) for m in (h * x * kk["U"]).reshape(-1, *U.shape[-2:])]).reshape(U.shape)
                U, v = e @ U, v + h * x * kk["v"]
        return {"U": U, "v": v}

    for s in range(steps):
        t = t0 + s * h
        ks = []
        for i in range(len(c)):
            kk = f(t + c[i] * h, move(y, a[i], ks), args, xp=np)
            ks.append({"U": np.broadcast_to(kk["U"], y["U"].shape), "v": kk["v"]})
        y = move(y, b, ks)
    return y


KINDS = {"su": lambda: cg.Unitary(), "u": lambda: cg.Unitary(special=False), "so": lambda: cg.Matrix(), "gl": lambda: cg.Matrix()}


def rtab(rng):
    """A user-built explicit tableau."""
    s = int(rng.integers(2, 5))
    a = np.tril(rng.normal(size=(s, s)) * 0.4, -1)
    b = rng.normal(size=s)
    b += (1 - b.sum()) / s
    return cg.ButcherTableau(a.tolist(), b.tolist())


@unit(PROP)
def stages(ctx):
    """Few-step runs equal the scheme the tableau defines."""
    rng = ctx.rng
    for i in range(ctx.n(10, 80)):
        kind = ["su", "u", "so", "gl"][i % 4]
        n = int(rng.integers(2, 4))
        batch = [(), (2,)][int(rng.integers(2))]
        f, y0, args = problem(rng, kind, n, batch)
        nm, tab = ("user", rtab(rng)) if i % 5 == 4 else list(TAB.items())[i % 3]
        t0 = float(rng.uniform(-1, 1))
        t1 = t0 + float(rng.uniform(0.3, 1)) * (-1 if rng.random() < 0.4 else 1)
        steps = int(rng.integers(1, 4))
        mt = {"U": KINDS[kind](), "v": cg.Euclidean()}
        ctx.case({"kind": kind, "n": n, "batch": batch, "tableau": nm, "t": [t0, t1], "steps": steps}, sig=i)
        run = jax.jit(lambda y, a: cg.crouch_grossmann(f, y, a, t0, t1, (t1 - t0) / steps, manifold_types=mt, tableau=tab))
        okc, y = ctx.call("cg:step", run, jax.tree.map(jnp.asarray, y0), args)
        if okc:
            ctx.saw("steps", steps)
            want = hand(f, tab, y0, t0, t1, steps, args)
            ctx.close(N(y["U"]), want["U"], f"cg:scheme[{nm}]:group", atol=1e-9, rtol=1e-9)
            ctx.close(N(y["v"]), want["v"], f"cg:scheme[{nm}]:vector", atol=1e-9, rtol=1e-9)
            if kind != "gl":
                U = N(y["U"])
                drift = lambda V: V @ V.conj().swapaxes(-1, -2)
                ctx.close(drift(U), drift(y0["U"]), "cg:stays-on-group", atol=1e-11, rtol=0)
                if kind == "su":
                    ctx.close(np.linalg.det(U), np.linalg.det(y0["U"]), "cg:determinant", atol=1e-11, rtol=0)


@unit(PROP)
def order(ctx):
    rng = ctx.rng
    for i in range(ctx.n(4, 24)):
        kind = ["su", "so", "u", "gl"][i % 4]
        n = 3 if kind == "so" else int(rng.integers(2, 4))
        f, y0, args = problem(rng, kind, n)
        t0, t1 = (0.0, 1.0) if i % 2 else (0.5, -0.4)

        def g(t, v):
            U, w = v[: n * n].reshape(n, n), v[n * n :].real
            r = f(t, {"U": U, "v": w}, args, xp=np)
            return np.concatenate([(r["U"] @ U).ravel(), r["v"]])

        v0 = np.concatenate([y0["U"].ravel(), y0["v"]])
        ref = dop(g, v0, t0, t1, rtol=1e-12, atol=1e-13)
        mt = {"U": KINDS[kind](), "v": cg.Euclidean()}
        for p, (nm, tab) in enumerate(TAB.items(), 1):
            ctx.case({"order": nm, "kind": kind, "n": n, "t": [t0, t1]}, sig=(i, nm))
            ctx.saw("orders")
            errs = []
            for steps in (32, 128):
                okc, y = ctx.call("cg:order", lambda: cg.crouch_grossmann(f, jax.tree.map(jnp.asarray, y0), args, t0, t1, (t1 - t0) / steps, manifold_types=mt, tableau=tab))
                if not okc:
                    break
                got = np.concatenate([N(y["U"]).ravel(), N(y["v"])])
                errs.append(np.abs(got - ref).max())
            if len(errs) == 2:
                rate = np.log(errs[0] / errs[1]) / np.log(4)
                ctx.ok(rate > p - 0.35 or errs[1] < 1e-9, f"cg:order[{nm}]", rate=rate, errs=errs, expected=p)


@unit(PROP)
def projections(ctx):
    rng = ctx.rng
    for i in range(ctx.n(8, 50)):
        special = bool(i % 2)
        n = int(rng.integers(2, 5))
        kind = "su" if special else "u"
        batch = [(), (3,), (2, 2)][int(rng.integers(3))]
        A = alg(rng, n, kind)
        off = np.stack([sl.expm(alg(rng, n, kind)) for _ in range(int(np.prod(batch)))]).reshape(batch + (n, n))
        pert = off + 0.02 * (rng.normal(size=off.shape) + 1j * rng.normal(size=off.shape))
        mode = ["project_step", "project_stage"][int(rng.integers(2))]
        mt = cg.Unitary(special=special, **{mode: True})
        ctx.case({"projection": mode, "special": special, "n": n, "batch": batch}, sig=i)
        ctx.saw("projections")
        eye = np.broadcast_to(np.eye(n), off.shape)
        okc, y = ctx.call("cg:project", lambda: cg.crouch_grossmann(lambda t, U, a: jnp.broadcast_to(a * A, U.shape), jnp.asarray(pert), 0.5, 0.0, 1.0, 0.5,
                                                                     manifold_types=mt, tableau=cg.CG2))
        if okc:
            y = N(y)
            ctx.close(y @ y.conj().swapaxes(-1, -2), eye + 0j, f"cg:{mode}:unitary", atol=1e-10, rtol=0)
            if special:
                ctx.close(np.linalg.det(y), np.ones(batch) + 0j, f"cg:{mode}:determinant", atol=1e-10, rtol=0)
            ctx.close(y, sl.expm(0.5 * A) @ off, f"cg:{mode}:near-solution", atol=0.5, rtol=0)
        # the projections themselves
        okc, m = ctx.call("project", mt.project, jnp.asarray(pert))
        if okc:
            u, _, vh = np.linalg.svd(pert)
            w = u @ vh
            if special:
                w = w / (np.linalg.det(w) ** (1 / n))[..., None, None]
            ctx.close(N(m), w, "project:group", atol=1e-10, rtol=0)
            ctx.close(N(mt.project(jnp.asarray(off))), off, "project:identity-on-group", atol=1e-10, rtol=0)
        okc, d = ctx.call("project:algebra", cg.UnitaryDeriv(special=special).project, jnp.asarray(pert))
        if okc:
            w = (pert - pert.conj().swapaxes(-1, -2)) / 2
            if special:
                w = w - np.einsum("...ii->...", w)[..., None, None] / n * np.eye(n)
            ctx.close(N(d), w, "project:algebra", atol=1e-12, rtol=0)


@unit(PROP)
def adjoints_ambient(ctx):
    adjoints(ctx, 0, ["su", "so", "gl", "u"])


@unit(PROP)
def adjoints_transport(ctx):
    adjoints(ctx, 1, ["su", "gl", "u", "so"])


@unit(PROP)
def adjoints_projected(ctx):
    adjoints(ctx, 2, ["su", "u"])


def adjoints(ctx, which, kinds):
    """Gradients through the integrator along every input, in every adjoint mode."""
    rng = ctx.rng
    modes = [dict(), dict(transport_adjoint=True), dict(transport_adjoint=True, derivative=cg.UnitaryDeriv(project_step=True)),
             dict(transport_adjoint=True, derivative=cg.UnitaryDeriv(project_stage=True))]
    for i in range(ctx.n(2, 12)):
        kind = kinds[i % len(kinds)]
        n = int(rng.integers(2, 4))
        batch = [(), (2,)][int(rng.integers(2))]
        f, y0, args = problem(rng, kind, n, batch)
        t0 = float(rng.uniform(-0.5, 0.5))
        t1 = t0 + (0.8 if i % 3 else -0.7)
        X = alg(rng, n, kind)
        G = rng.normal(size=y0["U"].shape) + (1j * rng.normal(size=y0["U"].shape) if kind in ("su", "u") else 0)
        cv = rng.normal(size=y0["v"].shape)

        def loss(y):
            return jnp.sum(jnp.real(G * y["U"])) + jnp.sum(cv * jnp.sin(y["v"])) + jnp.sum(jnp.abs(y["U"][..., 0, 1]) ** 2)

        def start(eps, v):
            return {"U": jax.scipy.linalg.expm(eps * X) @ y0["U"], "v": v}

        def ref(eps, v, args, t0, t1):
            # plain RK4 in the ambient space, differentiated directly
            y, steps = start(eps, v), 200
            h = (t1 - t0) / steps

            def F(t, y):
                r = f(t, y, args)
                return {"U": r["U"] @ y["U"], "v": r["v"]}

            ax = lambda y, k, s: jax.tree.map(lambda a, b: a + s * b, y, k)

            def body(y, j):
                t = t0 + j * h
                k1 = F(t, y)
                k2 = F(t + h / 2, ax(y, k1, h / 2))
                k3 = F(t + h / 2, ax(y, k2, h / 2))
                k4 = F(t + h, ax(y, k3, h))
                return jax.tree.map(lambda a, p, q, r, s: a + h / 6 * (p + 2 * q + 2 * r + s), y, k1, k2, k3, k4), None

            return loss(jax.lax.scan(body, y, jnp.arange(steps))[0])

        a = (0.1, jnp.asarray(y0["v"]), args, t0, t1)
        want = jax.jit(jax.grad(ref, argnums=(0, 1, 2, 3, 4)))(*a)
        cand = [KINDS[kind]()]
        if kind in ("su", "u"):
            cand = [cg.Unitary(special=kind == "su", **{**m, **({"derivative": cg.UnitaryDeriv(special=kind == "su", project_step=m["derivative"].project_step,
                    project_stage=m["derivative"].project_stage)} if "derivative" in m else {})}) for m in (modes[:1], modes[1:2], modes[2 + i % 2 :][:1])[which]]
        elif kind == "gl" or kind == "so":
            cand = [cg.Matrix(transport_adjoint=which == 1)]
        for mt in cand:
            two = i % 2 == 0

            def run(eps, v, args, t0, t1):
                def go(y, a, b):
                    return cg.crouch_grossmann(f, y, args, a, b, hstep, manifold_types={"U": mt, "v": cg.Euclidean()}, tableau=cg.CG3)
                y = start(eps, v)
                if two:  # two consecutive integrations
                    m = 0.5 * (t0 + t1)
                    return loss(go(go(y, t0, m), m, t1))
                return loss(go(y, t0, t1))

            hstep = (t1 - t0) / 100
            nm = f"{kind},{'transport' if mt.transport_adjoint else 'ambient'},{type(mt.derivative_type()).__name__}"
            ctx.case({"adjoint": nm, "n": n, "batch": batch, "t": [t0, t1], "two": two}, sig=(i, nm, repr(mt)))
            okc, g = ctx.call("cg:gradient", jax.jit(jax.grad(run, argnums=(0, 1, 2, 3, 4))), *a)
            if okc:
                for lab, p, q in zip(("group-start", "vector-start", "arguments", "start-time", "end-time"), g, want):
                    ctx.saw("gradients")
                    for x, y in zip(jax.tree.leaves(p), jax.tree.leaves(q)):
                        ctx.close(N(x), N(y), f"cg:gradient[{'transport' if mt.transport_adjoint else 'ambient'}]:{lab}", atol=2e-4, rtol=2e-4)


@unit(PROP)
def tableaux(ctx):
    """Consistency of tableaux: nodes are row sums; inconsistent coefficients are rejected."""
    rng = ctx.rng
    for nm, t in TAB.items():
        ctx.case({"tableau": nm})
        ctx.close(np.array(t.c), np.array(t.a).sum(1), "tableau:nodes", atol=1e-15)
        ctx.close(np.sum(t.b), np.float64(1.0), "tableau:weights", atol=1e-14)
        ctx.ok(t.stages == len(t.b), "tableau:stages")
    for i in range(10):
        t = rtab(rng)
        ctx.case({"tableau": "user", "a": t.a, "b": t.b})
        ctx.close(np.array(t.c), np.array(t.a).sum(1), "tableau:nodes", atol=1e-12)
    for a, b in (([[0, 0], [0.5, 0]], [0.5, 0.6]), ([[0, 0.1], [0.5, 0]], [0, 1]), ([[0.1]], [1]), ([[0, 0], [0.5, 0]], [1])):
        ctx.case({"reject": [a, b]})
        try:
            cg.ButcherTableau(a, b)
            ctx.violate("tableau:accepts-inconsistent", a=a, b=b)
        except (AssertionError, ValueError):
            pass
