"""C14: continuous flows solve the stated ODE and transport densities with it, in both directions."""

from vlib.core import unit
from vlib.jx import *
from vlib.ode import dop, rk4

import diffrax
import scipy.linalg as sl

PROP = "C14"
RULE = (
    "random nonlinear time-dependent vector fields (with call-time arguments) on vector/array/matrix-group states x "
    "random time windows of either direction, step counts, overrides, solvers and batch shapes; oracle is a DOP853 "
    "solution of the augmented ODE (and a by-hand RK4 grid); non-trivial = start and end time differ"
)
ASSUMPTIONS = ["float64", "step sizes small enough that the fixed-step error is below the oracle tolerance"]
MIN_COUNTERS = {"diffrax": 6, "rk4": 6, "cg": 5, "roundtrips": 12, "volumes": 4, "grids": 30}


class VF(nnx.Module):
    """v = amp * U tanh(W x + b t) + c sin(t) x + shift, with exact divergence."""

    def __init__(self, rng, ev):
        n = int(np.prod(ev))
        self.ev = ev
        self.W = nnx.Param(jnp.asarray(rng.normal(size=(n, n)) / np.sqrt(n)))
        self.U = nnx.Param(jnp.asarray(rng.normal(size=(n, n)) / np.sqrt(n)))
        self.b = nnx.Param(jnp.asarray(rng.normal(size=n)))
        self.c = bijx.Const(jnp.asarray(rng.normal() * 0.5))
        self.prm = None

    def __call__(self, t, x, amp=1.0, shift=0.0):
        return field(jnp, self.W[...], self.U[...], self.b[...], self.c[...], self.ev, t, x, amp, shift)


def field(xp, W, U, b, c, ev, t, x, amp, shift):
    n = W.shape[0]
    xf = x.reshape(x.shape[: x.ndim - len(ev)] + (n,))
    h = xp.tanh(xp.einsum("ij,...j->...i", W, xf) + b * t)
    v = amp * xp.einsum("ij,...j->...i", U, h) + c * xp.sin(t) * xf + shift
    div = amp * xp.einsum("ij,ji,...j->...", U, W, 1 - h**2) + n * c * xp.sin(t)
    return v.reshape(x.shape), -div


def mirror(vf, ev, kw):
    W, U, b, c = (np.asarray(p[...]) for p in (vf.W, vf.U, vf.b, vf.c))
    n = W.shape[0]
    amp, shift = float(kw.get("amp", 1.0)), float(kw.get("shift", 0.0))

    def f(t, y):  # rows: batch; last column: log density
        v, d = field(np, W, U, b, c, (n,), t, y[:, :n], amp, shift)
        return np.concatenate([v, d[:, None]], 1)

    return f


def pack(x, ld, ev):
    n = int(np.prod(ev))
    return np.concatenate([np.asarray(x).reshape(-1, n), np.asarray(ld).reshape(-1, 1)], 1)


def setup(rng):
    ev = [(1,), (2,), (3,), (2, 2), ()][int(rng.integers(5))]
    batch = [(), (3,), (2, 2)][int(rng.integers(3))]
    vf = VF(rng, ev)
    x, ld = rng.normal(size=batch + ev), rng.normal(size=batch)
    kw = {}
    if rng.random() < 0.6:
        kw["amp"] = jnp.asarray(rng.normal())
    if rng.random() < 0.4:
        kw["shift"] = jnp.asarray(rng.normal() * 0.3)
    return ev, batch, vf, x, ld, kw


def window(rng, i):
    t0, t1 = float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1))
    if i == 0:
        return 0.0, 1.0
    if abs(t1 - t0) < 0.3:
        t1 = t0 + 0.7 * (1 if rng.random() < 0.5 else -1)
    return t0, t1


def judge(ctx, k, got, want, x, ld, ev, tol):
    okx = np.shape(got[0]) == np.shape(x) and np.shape(got[1]) == np.shape(ld)
    if ctx.ok(okx, k + ":shape", got=[np.shape(got[0]), np.shape(got[1])], want=[np.shape(x), np.shape(ld)]):
        g = pack(got[0], got[1], ev)
        ctx.close(g[:, :-1], want[:, :-1], k + ":state", atol=tol, rtol=tol)
        ctx.close(g[:, -1], want[:, -1], k + ":log-density", atol=tol, rtol=tol)


def scenario(ctx, k, flow, vf, ev, x, ld, kw, t0, t1, over, tol, extra, counter):
    """forward/reverse against the ODE solution over the effective window; mutual inversion."""
    f = mirror(vf, ev, kw)
    a, b = over.get("t_start", t0), over.get("t_end", t1)
    y0 = pack(x, ld, ev)
    fwd = jax.jit(lambda x, l, kw: flow.forward(x, l, **over, **extra, **kw))
    rev = jax.jit(lambda x, l, kw: flow.reverse(x, l, **over, **extra, **kw))
    ctx.saw(counter)
    ok1, y = ctx.call(k + ":forward", fwd, jnp.asarray(x), jnp.asarray(ld), kw)
    if ok1:
        judge(ctx, k + ":forward", y, dop(f, y0, a, b), x, ld, ev, tol)
        ok2, z = ctx.call(k + ":reverse", rev, y[0], y[1], kw)
        if ok2:
            ctx.saw("roundtrips")
            judge(ctx, k + ":roundtrip", z, y0, x, ld, ev, tol * 10)
    ok3, z = ctx.call(k + ":reverse", rev, jnp.asarray(x), jnp.asarray(ld), kw)
    if ok3:
        judge(ctx, k + ":reverse", z, dop(f, y0, b, a), x, ld, ev, tol)


def diffrax_unit(ctx, part):
    rng = ctx.rng
    for i in range(part, ctx.n(8, 40), 2):
        ev, batch, vf, x, ld, kw = setup(rng)
        t0, t1 = window(rng, i)
        mode = ["plain", "adaptive", "heun", "dopri8"][i % 4]
        if mode == "adaptive":
            cfg = dict(solver=diffrax.Tsit5(), dt=0.1, stepsize_controller=diffrax.PIDController(rtol=1e-9, atol=1e-10))
        elif mode == "heun":
            cfg = dict(solver=diffrax.Heun(), dt=0.0015)
        elif mode == "dopri8":
            cfg = dict(solver=diffrax.Dopri8(), dt=0.1, adjoint=diffrax.DirectAdjoint())
        else:
            cfg = dict(dt=0.02)
        config = bijx.DiffraxConfig(t_start=t0, t_end=t1, **cfg)
        flow = bijx.ContFlowDiffrax(vf, config)
        over = {}
        if rng.random() < 0.5:
            over["t_start"] = float(rng.uniform(-1, 1))
        if rng.random() < 0.5:
            over["t_end"] = float(rng.uniform(-1, 1))
        ctx.case({"flow": "diffrax", "ev": ev, "batch": batch, "t": [t0, t1], "over": over, "mode": mode, "kw": sorted(kw)},
                 count=x.size, sig=i)
        scenario(ctx, f"diffrax[{mode}]", flow, vf, ev, x, ld, kw, t0, t1, over, 2e-6, {}, "diffrax")
        if i % 4 == part:
            # intermediate times through solve_flow
            ts = np.linspace(t0, t1, 4)
            okc, sol = ctx.call("diffrax:solve_flow", flow.solve_flow, jnp.asarray(x), jnp.asarray(ld), dt=0.02 if mode == "plain" else None,
                                saveat=diffrax.SaveAt(ts=jnp.asarray(ts)), **kw)
            if okc:
                ref = dop(mirror(vf, ev, kw), pack(x, ld, ev), t0, t1, t_eval=ts)
                for j in range(4):
                    judge(ctx, "diffrax:solve_flow", (sol.ys[0][j], sol.ys[1][j]), ref[j], x, ld, ev, 2e-6)
        if i % 4 == 0:
            # the flow owns live parameters: updating them changes the solution accordingly
            W2 = rng.normal(size=vf.W[...].shape) * 0.5
            st = nnx.state(flow)
            st = jax.tree.map(lambda v: jnp.asarray(W2) if v.shape == W2.shape and np.allclose(v, vf.W[...]) else v, st)
            nnx.update(flow, st)
            vf.W[...] = jnp.asarray(W2)
            okc, y = ctx.call("diffrax:updated", flow.forward, jnp.asarray(x), jnp.asarray(ld), **kw)
            if okc:
                judge(ctx, "diffrax:updated", y, dop(mirror(vf, ev, kw), pack(x, ld, ev), t0, t1), x, ld, ev, 2e-6)


@unit(PROP)
def diffrax_flows(ctx):
    diffrax_unit(ctx, 0)


@unit(PROP)
def diffrax_flows_2(ctx):
    diffrax_unit(ctx, 1)


@unit(PROP)
def rk4_flows(ctx):
    rng = ctx.rng
    for i in range(ctx.n(7, 40)):
        ev, batch, vf, x, ld, kw = setup(rng)
        t0, t1 = window(rng, i)
        steps = int(rng.integers(60, 100))
        flow = bijx.ContFlowRK4(vf, t_start=t0, t_end=t1, steps=steps)
        over = {}
        if rng.random() < 0.5:
            over["t_start"] = float(rng.uniform(-1, 1))
        if rng.random() < 0.5:
            over["t_end"] = float(rng.uniform(-1, 1))
        ctx.case({"flow": "rk4", "ev": ev, "batch": batch, "t": [t0, t1], "over": over, "steps": steps, "kw": sorted(kw)},
                 count=x.size, sig=i)
        scenario(ctx, "rk4", flow, vf, ev, x, ld, kw, t0, t1, over, 2e-5, {}, "rk4")
        # the documented uniform grid with the requested number of steps
        few = int(rng.integers(1, 6))
        okc, y = ctx.call("rk4:grid", flow.forward, jnp.asarray(x), jnp.asarray(ld), steps=few, **over, **kw)
        if okc:
            a, b = over.get("t_start", t0), over.get("t_end", t1)
            judge(ctx, "rk4:grid", y, rk4(mirror(vf, ev, kw), pack(x, ld, ev), a, b, few), x, ld, ev, 1e-9)


@unit(PROP)
def volume(ctx):
    """Density transport against the dense Jacobian of the executed flow map."""
    rng = ctx.rng
    for i in range(ctx.n(4, 20)):
        ev = [(1,), (2,), (3,), (2, 2)][i % 4]
        n = int(np.prod(ev))
        W, U = (jnp.asarray(rng.normal(size=(n, n))) for _ in range(2))

        def base(t, x, W=W, U=U):
            v = x.reshape(x.shape[: x.ndim - len(ev)] + (n,))
            return (jnp.tanh(v @ W.T + t) @ U.T * 0.7).reshape(x.shape)

        vf = bijx.AutoJacVF(base, event_dim=len(ev))
        flow = bijx.ContFlowRK4(vf, steps=60) if i % 2 else bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(dt=0.02))
        x = jnp.asarray(rng.normal(size=ev))
        for nm, g in (("forward", flow.forward), ("reverse", flow.reverse)):
            def only(v):
                return jnp.ravel(g(v.reshape(ev), jnp.zeros(()))[0])
            ctx.case({"flow": type(flow).__name__, "ev": ev, "dir": nm}, sig=(i, nm))
            okc, r = ctx.call("volume", jax.jit(g), x, jnp.asarray(0.3))
            if okc:
                okc, J = ctx.call("volume:jacobian", jax.jit(jax.jacrev(only)), x.ravel())
            if okc:
                ctx.saw("volumes")
                ctx.close(N(r[1]), 0.3 - np.linalg.slogdet(N(J))[1], f"volume[{type(flow).__name__}]:{nm}", atol=2e-6, rtol=1e-6)


def alg(rng, n, special=True):
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    a = (a - a.conj().T) / 2
    return a - (np.trace(a) / n * np.eye(n) if special else 0)


@unit(PROP)
def cg_flows(ctx):
    rng = ctx.rng
    from bijx import cg

    for i in range(ctx.n(5, 30)):
        n = int(rng.integers(2, 4))
        batch = [(), (2,)][i % 2]
        A, B, C = (alg(rng, n) * s for s in (0.6, 0.5, 0.5))
        U0 = np.stack([sl.expm(alg(rng, n)) for _ in range(int(np.prod(batch)))]).reshape(batch + (n, n))
        ld = rng.normal(size=batch)
        amp = float(rng.normal())

        def vf(t, U, amp=1.0, xp=jnp, A=A, B=B, C=C):
            m = xp.einsum("...ij,jk,...lk->...il", U, C, U.conj())
            v = amp * A + xp.cos(t) * B + m
            d = xp.real(xp.einsum("...ii->...", U @ C)) * xp.sin(t)
            return v, d

        t0, t1 = window(rng, i)
        steps = 70
        over = {}
        if i >= 2:
            over = {"t_start": float(rng.uniform(-1, 1)), "t_end": float(rng.uniform(-1, 1))}
            over = {kk: over[kk] for kk in over if rng.random() < 0.7}
        flow = bijx.ContFlowCG(vf, t_start=t0, t_end=t1, steps=steps, tableau=cg.CG3)
        ctx.case({"flow": "cg", "n": n, "batch": batch, "t": [t0, t1], "over": over}, count=U0.size, sig=i)
        ctx.saw("cg")

        def f(t, y):
            U = y[:, :-1].reshape(-1, n, n)
            v, d = vf(t, U, amp=amp, xp=np)
            return np.concatenate([(v @ U).reshape(len(U), -1), d[:, None]], 1)

        y0 = np.concatenate([U0.reshape(-1, n * n), ld.reshape(-1, 1) + 0j], 1)
        a, b = over.get("t_start", t0), over.get("t_end", t1)

        def jd(k, r, want, tol=5e-4):
            if ctx.ok(r[0].shape == U0.shape and r[1].shape == ld.shape, k + ":shape"):
                ctx.close(N(r[0]).reshape(-1, n * n), want[:, :-1], k + ":state", atol=tol, rtol=0)
                ctx.close(N(r[1]).ravel(), want[:, -1].real, k + ":log-density", atol=tol, rtol=0)
                g = N(r[0]).reshape(-1, n, n)
                ctx.close(g @ g.conj().swapaxes(-1, -2), np.broadcast_to(np.eye(n) + 0j, g.shape), k + ":group", atol=1e-11, rtol=0)

        fwd = jax.jit(lambda x, l, amp: flow.forward(x, l, amp=amp, **over))
        rev = jax.jit(lambda x, l, amp: flow.reverse(x, l, amp=amp, **over))
        okc, r = ctx.call("cg:forward", fwd, jnp.asarray(U0), jnp.asarray(ld), amp)
        if okc:
            jd("cg:forward", r, dop(f, y0, a, b))
            okc, q = ctx.call("cg:reverse", rev, *r, amp)
            if okc:
                ctx.saw("roundtrips")
                jd("cg:roundtrip", q, y0, 2e-3)
        okc, r = ctx.call("cg:reverse", rev, jnp.asarray(U0), jnp.asarray(ld), amp)
        if okc:
            jd("cg:reverse", r, dop(f, y0, b, a))


def cg_grid(vf, tab, U, ld, t0, t1, steps, amp):
    """By-hand Crouch-Grossmann steps on a batch of matrices and their log densities."""
    n = U.shape[-1]
    a, b = np.array(tab.a), np.array(tab.b)
    h = (t1 - t0) / steps
    ex = lambda m: np.stack([sl.expm(q) for q in m.reshape(-1, n, n)]).reshape(m.shape)

    def move(U, ld, co, ks):
        for c, (v, d) in zip(co, ks):
            if c:
                U, ld = ex(h * c * v) @ U, ld + h * c * d
        return U, ld

    for s in range(steps):
        ks = []
        for i in range(len(b)):
            ks.append(vf(t0 + s * h + a[i].sum() * h, move(U, ld, a[i], ks)[0], amp=amp, xp=np))
        U, ld = move(U, ld, b, ks)
    return U, ld


@unit(PROP)
def discretisation(ctx):
    """The flow takes exactly the configured steps with the configured scheme, over the effective window.

    The field oscillates fast, so each grid has its own answer; windows have one end at zero while the configured
    window does not, and vice versa.
    """
    rng = ctx.rng
    from bijx import cg

    def wins(i):
        t0, t1 = float(rng.uniform(0.3, 0.9)), float(rng.uniform(1.2, 1.9))
        if i % 2:
            t0, t1 = t1, t0
        ov = [{"t_start": 0.0}, {"t_end": 0.0}, {"t_start": 0.0, "t_end": float(rng.uniform(0.5, 1))}, {},
              {"t_start": float(rng.uniform(0.5, 1)), "t_end": 0.0}][i % 5]
        return t0, t1, dict(ov)

    for i in range(ctx.n(5, 30)):
        # vector states: Runge-Kutta and Euler grids
        n = int(rng.integers(1, 4))
        W, w0 = rng.normal(size=(n, n)) * 0.5, float(rng.uniform(300, 500))
        t0, t1, over = wins(i)
        x, ld = rng.normal(size=(2, n)), rng.normal(size=2)

        def vf(t, x, amp=1.0, xp=jnp, W=W, w0=w0):
            h = xp.tanh(x @ W.T + t)
            osc = xp.cos(w0 * t)
            return amp * h + 3 * osc, -amp * xp.sum(xp.diag(W) * (1 - h**2), -1) + osc

        def f(t, y, amp=0.7, vf=vf, n=n):
            v, d = vf(t, y[:, :n], amp, np)
            return np.concatenate([v, d[:, None]], 1)

        steps = [int(rng.integers(1, 8)), int(rng.integers(110, 200))]
        steps = steps if i % 2 else steps[::-1]
        flow = bijx.ContFlowRK4(vf, t_start=t0, t_end=t1, steps=steps[0])
        a, b = over.get("t_start", t0), over.get("t_end", t1)
        y0 = pack(x, ld, (n,))
        for st in (None, steps[1]):
            for nm, p, q in (("forward", a, b), ("reverse", b, a)):
                kw = dict(over, amp=0.7, **({} if st is None else {"steps": st}))
                ctx.case({"flow": "rk4", "t": [t0, t1], "over": over, "steps": [steps[0], st], "dir": nm}, sig=("rk4", i, st, nm))
                okc, r = ctx.call(f"rk4:steps:{nm}", jax.jit(lambda x, l, g=getattr(flow, nm), kw=kw: g(x, l, **kw)), jnp.asarray(x), jnp.asarray(ld))
                if okc:
                    ctx.saw("grids")
                    judge(ctx, f"rk4:steps:{nm}", r, rk4(f, y0, p, q, st or steps[0]), x, ld, (n,), 1e-8)
        # diffrax with Euler steps: the step size is the configured or overridden one, whatever its sign
        dt0, cnt = abs(b - a) / int(rng.integers(9, 20)), int(rng.integers(3, 9))  # even grids: a remainder is diffrax's affair
        cfg = bijx.DiffraxConfig(solver=diffrax.Euler(), t_start=t0, t_end=t1, dt=dt0 * (-1) ** (i // 2))

        class M(nnx.Module):
            def __call__(self, t, x, amp=1.0, vf=vf):
                return vf(t, x, amp)

        flow = bijx.ContFlowDiffrax(M(), cfg)
        for nm, p, q in (("forward", a, b), ("reverse", b, a)):
            for dt in (None, abs(q - p) / cnt, -abs(q - p) / cnt):
                kw = dict(over, amp=0.7, **({} if dt is None else {"dt": dt}))
                h = abs(dt or dt0) * np.sign(q - p)
                y, t = y0, p
                for _ in range(round(abs(q - p) / abs(h))):
                    y, t = y + h * f(t, y), t + h
                ctx.case({"flow": "diffrax", "t": [t0, t1], "over": over, "dt": [float(cfg.dt), dt], "dir": nm}, sig=("dfx", i, dt, nm))
                okc, r = ctx.call(f"diffrax:step:{nm}", jax.jit(lambda x, l, g=getattr(flow, nm), kw=kw: g(x, l, **kw)), jnp.asarray(x), jnp.asarray(ld))
                if okc:
                    ctx.saw("grids")
                    judge(ctx, f"diffrax:step:{nm}", r, y, x, ld, (n,), 1e-6)
        # group states, every tableau
        n = int(rng.integers(2, 4))
        A, B, C = (alg(rng, n) * s for s in (0.6, 0.9, 0.5))
        U0 = np.stack([sl.expm(alg(rng, n)) for _ in range(2)])

        def gf(t, U, amp=1.0, xp=jnp, A=A, B=B, C=C, w0=w0):
            m = xp.einsum("...ij,jk,...lk->...il", U, C, U.conj())
            return amp * A + 2 * xp.cos(w0 * t) * B + m, xp.real(xp.einsum("...ii->...", U @ C)) * xp.sin(w0 * t)

        tab = [cg.EULER, cg.CG2, cg.CG3, cg.ButcherTableau([[0, 0], [0.3, 0]], [0.4, 0.6])][i % 4]
        s0, s1 = int(rng.integers(1, 5)), int(rng.integers(6, 12))
        kws = {} if tab is cg.CG2 else {"tableau": tab}
        flow = bijx.ContFlowCG(gf, t_start=t0, t_end=t1, steps=s0, **kws)
        for st in (None, s1):
            for nm, p, q in (("forward", a, b), ("reverse", b, a)):
                kw = dict(over, amp=0.7, **({} if st is None else {"steps": st}))
                ctx.case({"flow": "cg", "n": n, "t": [t0, t1], "over": over, "steps": [s0, st], "dir": nm}, sig=("cg", i, st, nm))
                okc, r = ctx.call(f"cg:steps:{nm}", jax.jit(lambda x, l, g=getattr(flow, nm), kw=kw: g(x, l, **kw)), jnp.asarray(U0), jnp.asarray(ld))
                if okc:
                    ctx.saw("grids")
                    want = cg_grid(gf, tab, U0, ld, p, q, st or s0, 0.7)
                    for z, g, v in zip(("state", "log-density"), r, want):
                        ctx.close(N(g), v, f"cg:steps:{nm}:{z}", atol=1e-8, rtol=1e-8)
