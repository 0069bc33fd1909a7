"""C15: ODE/SDE solver front ends solve the configured problem and differentiate it correctly."""

from vlib.core import unit
from vlib.jx import *
from vlib.ode import dop, rk4
from bijx.solvers import odeint_rk4

import diffrax

PROP = "C15"
RULE = (
    "random nonlinear time-dependent ODEs on pytree states, random windows (both directions, windows not divisible by the "
    "step), closures and arguments; oracle is a by-hand RK4 grid, DOP853 and forward-mode derivatives of an independent "
    "scan integrator for gradients; SDE law by moments of many paths with 6-sigma bounds; non-trivial = non-empty window"
)
ASSUMPTIONS = ["float64", "adjoint gradients are compared at step sizes where the discretisation error is below tolerance",
               "statistical SDE oracles use 6.5 sigma bounds at fixed seeds"]
MIN_COUNTERS = {"rk4": 10, "gradients": 30, "configs": 30, "sde": 4}


def make(rng):
    n = int(rng.integers(1, 4))
    W, V = rng.normal(size=(n, n)), rng.normal(size=(n, n))
    cc = float(rng.normal())

    def f(t, y, args, xp=jnp, c=cc):
        u, w = y["u"], y["w"]
        k, p = args
        return {"u": p * xp.tanh(W @ u + k * t) - 0.3 * u + c * xp.cos(t), "w": -0.5 * w * u[0] + xp.sum(V @ u) * k}

    y0 = {"u": rng.normal(size=n), "w": rng.normal(size=(2,))}
    args = (float(rng.normal()), rng.normal(size=n))
    return n, f, y0, args, cc


def pk(y):
    return np.concatenate([np.ravel(y["u"]), np.ravel(y["w"])])


@unit(PROP)
def rk4_values(ctx):
    rng = ctx.rng
    for i in range(ctx.n(10, 60)):
        n, f, y0, args, c = make(rng)
        t0 = float(rng.uniform(-1, 1)) if i % 3 else 0.0
        t1 = t0 + float(rng.uniform(0.4, 1.5))
        if i % 5 == 4:
            t0, t1 = t1, t0
        steps = int(rng.integers(1, 8))
        h = abs(t1 - t0) / steps
        g = lambda t, v: pk(f(t, {"u": v[:n], "w": v[n:]}, args, xp=np))
        y0j = jax.tree.map(jnp.asarray, y0)
        ctx.case({"n": n, "t": [t0, t1], "steps": steps}, sig=i)
        ctx.saw("rk4")
        okc, y = ctx.call("rk4", odeint_rk4, f, y0j, t1, jax.tree.map(jnp.asarray, args), step_size=h, start_time=t0)
        if okc:
            ctx.close(pk(y), rk4(g, pk(y0), t0, t1, steps), "rk4:grid", atol=1e-9, rtol=1e-9)
        # step does not divide the window: the last step is cut at the end time
        h = abs(t1 - t0) / 40.37
        okc, y = ctx.call("rk4", odeint_rk4, f, y0j, t1, jax.tree.map(jnp.asarray, args), step_size=h, start_time=t0)
        if okc:
            ctx.close(pk(y), dop(g, pk(y0), t0, t1), "rk4:solution", atol=3e-5, rtol=3e-5)
        okc, y = ctx.call("rk4:default-start", odeint_rk4, f, y0j, 0.9, jax.tree.map(jnp.asarray, args), step_size=0.3)
        if okc:
            ctx.close(pk(y), rk4(g, pk(y0), 0.0, 0.9, 3), "rk4:default-start", atol=1e-9, rtol=1e-9)
    # several positional arguments, scalar state
    okc, y = ctx.call("rk4:args", odeint_rk4, lambda t, y, a, b: a * y + b * t, 1.5, 1.0, 0.3, -0.7, step_size=0.02)
    if okc:
        ctx.close(N(y), dop(lambda t, v: 0.3 * v - 0.7 * t, np.array(1.5), 0.0, 1.0), "rk4:args", atol=1e-7)


def ref_solver(f, y0, t1, args, t0, steps):
    """Independent RK4 by scan over a unit interval; differentiable by plain jax."""
    d = t1 - t0
    h = d / steps
    ax = lambda y, k, s: jax.tree.map(lambda a, b: a + s * b, y, k)

    def body(y, i):
        t = t0 + i * h
        k1 = f(t, y, args)
        k2 = f(t + h / 2, ax(y, k1, h / 2), args)
        k3 = f(t + h / 2, ax(y, k2, h / 2), args)
        k4 = f(t + h, ax(y, k3, h), args)
        return jax.tree.map(lambda a, p, q, r, s: a + h / 6 * (p + 2 * q + 2 * r + s), y, k1, k2, k3, k4), None

    return jax.lax.scan(body, y0, jnp.arange(steps))[0]


@unit(PROP)
def rk4_gradients(ctx):
    rng = ctx.rng
    for i in range(ctx.n(5, 30)):
        n, f, y0, args, c = make(rng)
        t0 = float(rng.uniform(-1, 1)) if i else 0.0
        t1 = t0 + float(rng.uniform(0.4, 1.5)) * (-1 if i % 4 == 3 else 1)
        cu, cw = rng.normal(size=n), rng.normal(size=2)
        loss = lambda y: jnp.sum(cu * y["u"]) + jnp.sum(cw * jnp.sin(y["w"]))

        def run(y0, args, t0, t1, c):
            return loss(odeint_rk4(lambda t, y, a: f(t, y, a, c=c), y0, t1, args, step_size=0.02, start_time=t0))

        def ref(y0, args, t0, t1, c):
            return loss(ref_solver(lambda t, y, a: f(t, y, a, c=c), y0, t1, args, t0, 160))

        a = (jax.tree.map(jnp.asarray, y0), jax.tree.map(jnp.asarray, args), t0, t1, c)
        ctx.case({"n": n, "t": [t0, t1]}, sig=i)
        okc, g = ctx.call("rk4:gradient", jax.jit(jax.grad(run, argnums=(0, 1, 2, 3, 4))), *a)
        if not okc:
            continue
        want = jax.jit(jax.grad(ref, argnums=(0, 1, 2, 3, 4)))(*a)
        for nm, p, q in zip(("initial-state", "arguments", "start-time", "end-time", "closure"), g, want):
            ctx.saw("gradients")
            for x, y in zip(jax.tree.leaves(p), jax.tree.leaves(q)):
                ctx.close(N(x), N(y), "rk4:gradient:" + nm, atol=1e-5, rtol=1e-5)


@unit(PROP)
def flow_gradients(ctx):
    """Gradients of flows with respect to input, parameters and call arguments."""
    rng = ctx.rng
    for i in range(ctx.n(4, 16)):
        n = int(rng.integers(1, 4))

        class VF(nnx.Module):
            def __init__(self):
                self.W = nnx.Param(jnp.asarray(rng.normal(size=(n, n))))

            def __call__(self, t, x, amp):
                h = jnp.tanh(x @ self.W[...].T + t)
                return amp * h, -amp * jnp.sum(jnp.diag(self.W[...]) * (1 - h**2), -1)

        kind = i % 4
        t0, t1 = [(0.0, 1.0), (0.4, -0.5), (-0.3, 0.6), (0.0, 0.8)][kind]
        if kind == 1:
            flow = bijx.ContFlowRK4(VF(), t_start=t0, t_end=t1, steps=60)
        elif kind == 3:
            flow = bijx.ContFlowCG(VF(), bijx.cg.Euclidean(), t_start=t0, t_end=t1, steps=80, tableau=bijx.cg.CG3)
        else:
            adj = diffrax.RecursiveCheckpointAdjoint() if kind == 0 else diffrax.BacksolveAdjoint()
            flow = bijx.ContFlowDiffrax(VF(), bijx.DiffraxConfig(t_start=t0, t_end=t1, dt=0.02, adjoint=adj))
        graph, prm, rest = nnx.split(flow, nnx.Param, ...)
        (W,) = [v for v in jax.tree.leaves(prm) if v.shape == (n, n)]
        x, amp, cx = jnp.asarray(rng.normal(size=(2, n))), jnp.asarray(0.8), jnp.asarray(rng.normal(size=(2, n)))

        def loss(y, ld):
            return jnp.sum(cx * y) + jnp.sum(jnp.sin(ld))

        def run(x, W, amp, rev):
            b = nnx.merge(graph, jax.tree.map(lambda v: W, prm), rest)
            return loss(*(b.reverse if rev else b.forward)(x, jnp.zeros(2), amp=amp))

        def ref(x, W, amp, rev):
            def f(t, s, _):
                h = jnp.tanh(s[0] @ W.T + t)
                return amp * h, -amp * jnp.sum(jnp.diag(W) * (1 - h**2), -1)
            a, b = (t1, t0) if rev else (t0, t1)
            return loss(*ref_solver(f, (x, jnp.zeros(2)), b, None, a, 160))

        for rev in (False, True):
            k = f"flow-gradient[{type(flow).__name__},{'reverse' if rev else 'forward'}]"
            ctx.case({"flow": type(flow).__name__, "kind": kind, "n": n, "rev": rev}, sig=(i, rev))
            okc, g = ctx.call(k, jax.jit(jax.grad(run, argnums=(0, 1, 2)), static_argnums=3), x, W, amp, rev)
            if okc:
                want = jax.jit(jax.grad(ref, argnums=(0, 1, 2)), static_argnums=3)(x, W, amp, rev)
                for nm, p, q in zip(("input", "parameters", "arguments"), g, want):
                    ctx.saw("gradients")
                    ctx.close(N(p), N(q), k + ":" + nm, atol=2e-5, rtol=2e-5)


@unit(PROP)
def config(ctx):
    """Overrides change exactly the named settings and solve() honours the resulting configuration."""
    rng = ctx.rng
    base = dict(solver=diffrax.Heun(), t_start=0.2, t_end=1.4, dt=0.05, max_steps=777, throw=False)
    fields = ["solver", "t_start", "t_end", "dt", "saveat", "stepsize_controller", "adjoint", "event", "max_steps", "throw",
              "solver_state", "controller_state", "made_jump"]
    same = lambda a, b: a is b or (jax.tree.structure(a) == jax.tree.structure(b) and all(np.array_equal(x, y) for x, y in zip(jax.tree.leaves(a), jax.tree.leaves(b))))
    for i in range(ctx.n(40, 200)):
        c = bijx.DiffraxConfig(**base)
        opts = dict(t_start=float(rng.normal()), t_end=0.0, dt=float(rng.uniform(0.01, 1)), saveat=diffrax.SaveAt(ts=jnp.array([0.3, 0.5])),
                    solver_state=(1.0, 2.0), controller_state=(3.0,))
        pick = {kk: v for kk, v in opts.items() if rng.random() < 0.5}
        ctx.case({"override": sorted(pick)}, nontrivial=bool(pick), sig=i)
        ctx.saw("configs")
        before = {f: getattr(c, f) for f in fields}
        okc, d = ctx.call("override", c.optional_override, **pick, **{kk: None for kk in opts if kk not in pick})
        if not okc:
            continue
        for f in fields:
            ctx.ok(same(getattr(d, f), pick.get(f, before[f])), "override:" + f, got=repr(getattr(d, f)))
            ctx.ok(getattr(c, f) is before[f], "override:mutates-original", field=f)
        d = c.replace(max_steps=5, throw=True)
        ctx.ok(d.max_steps == 5 and d.throw is True and d.t_end == 1.4 and c.max_steps == 777, "replace")
    # solve: order-2 solver on a known grid in both directions
    for t0, t1, dt in ((0.2, 1.4, 0.1), (1.4, 0.2, 0.1), (1.4, 0.2, -0.1), (0.0, 1.0, -0.25)):
        c = bijx.DiffraxConfig(solver=diffrax.Euler(), t_start=t0, t_end=t1, dt=dt)
        n = int(round(abs(t1 - t0) / abs(dt)))
        h = (t1 - t0) / n
        y = 1.3
        for j in range(n):
            y = y + h * (-0.7 * y + np.sin(t0 + j * h))
        ctx.case({"solve": [t0, t1, dt]})
        okc, sol = ctx.call("solve", c.solve, diffrax.ODETerm(lambda t, y, a: -a * y + jnp.sin(t)), jnp.asarray(1.3), 0.7)
        if okc:
            ctx.close(N(sol.ys), np.array([y]), "solve:grid", atol=1e-9)
            ctx.ok(int(sol.stats["num_steps"]) in (n, n + 1), "solve:steps", got=int(sol.stats["num_steps"]), want=n)


@unit(PROP)
def sde(ctx):
    rng = ctx.rng
    M = 40000
    for i in range(ctx.n(2, 8)):
        mu, s, T0, T = float(rng.normal() * 0.5), float(rng.uniform(0.3, 0.8)), float(rng.uniform(-1, 1)), float(rng.uniform(0.5, 1.5))
        steps = 40
        dt = T / steps
        cfg = bijx.DiffraxConfig(t_start=T0, t_end=T0 + T, dt=dt, max_steps=100)
        key = ctx.key()
        y0 = jnp.full((M,), 1.0)
        # geometric Brownian motion, Ito: Euler gives E y = (1 + mu dt)^n, E y^2 = ((1+mu dt)^2 + s^2 dt)^n
        run = jax.jit(lambda k, y0: cfg.solve_sde(lambda t, y, a: a[0] * y, lambda t, y, a: a[1] * y, y0, k, (mu, s)).ys[-1])
        ctx.case({"sde": "gbm", "mu": mu, "s": s, "T": T}, count=M, sig=(i, "gbm"))
        okc, y = ctx.call("sde", run, key, y0)
        if okc:
            ctx.saw("sde")
            y = N(y)
            m1, m2 = (1 + mu * dt) ** steps, ((1 + mu * dt) ** 2 + s * s * dt) ** steps
            ctx.ok(abs(y.mean() - m1) < 6.5 * np.sqrt((m2 - m1**2) / M), "sde:ito-mean", got=y.mean(), want=m1)
            se = np.std(y**2) / np.sqrt(M)
            ctx.ok(abs((y**2).mean() - m2) < 6.5 * se, "sde:second-moment", got=(y**2).mean(), want=m2, se=se)
            c = np.corrcoef(y[:-1], y[1:])[0, 1]
            ctx.ok(abs(c) < 6.5 / np.sqrt(M), "sde:independent-components", corr=c)
            y2 = N(run(key, y0))
            ctx.ok(np.array_equal(y, y2), "sde:deterministic")
        # correlated noise through the transform; time-dependent diffusion
        A = rng.normal(size=(2, 2))
        run = jax.jit(lambda k, y0: cfg.solve_sde(lambda t, y, a: 0 * y + 0.3, lambda t, y, a: 1 + 0 * y + t * jnp.array([1.0, 0.0]), y0, k,
                                                  noise_transform=lambda w: w @ A.T).ys[-1])
        ctx.case({"sde": "correlated", "A": A.tolist(), "T": T}, count=M, sig=(i, "corr"))
        okc, y = ctx.call("sde:transform", run, key, jnp.zeros((M, 2)))
        if okc:
            ctx.saw("sde")
            y = N(y)
            ts = T0 + dt * np.arange(steps)
            g = np.stack([1 + ts, 1 + 0 * ts], -1)
            C = np.einsum("ti,tj->ij", g, g) * dt * (A @ A.T)
            emp = np.cov(y.T)
            tol = 6.5 * np.sqrt((np.outer(np.diag(C), np.diag(C)) + C**2) / M)
            ctx.ok(np.all(np.abs(emp - C) < tol), "sde:covariance", got=emp, want=C, tol=tol)
            ctx.ok(np.all(np.abs(y.mean(0) - 0.3 * T) < 6.5 * np.sqrt(np.diag(C) / M)), "sde:drift", got=y.mean(0), want=0.3 * T)
        # Heun (Stratonovich) when explicitly requested: gbm mean exp((mu + s^2/2) T)
        run = jax.jit(lambda k, y0: cfg.solve_sde(lambda t, y, a: mu * y, lambda t, y, a: s * y, y0, k, solver=diffrax.Heun()).ys[-1])
        ctx.case({"sde": "heun", "mu": mu, "s": s, "T": T}, count=M, sig=(i, "heun"))
        okc, y = ctx.call("sde:solver", run, key, y0)
        if okc:
            ctx.saw("sde")
            a = 1 + mu * dt + (mu * dt) ** 2 / 2 + s * s * dt / 2
            m1 = a**steps
            y = N(y)
            ctx.ok(abs(y.mean() - m1) < 6.5 * y.std() / np.sqrt(M), "sde:requested-solver", got=y.mean(), want=m1)
    # zero noise reduces to the ODE on the same grid
    cfg = bijx.DiffraxConfig(t_start=0.0, t_end=1.0, dt=0.1)
    okc, sol = ctx.call("sde:zero", cfg.solve_sde, lambda t, y, a: -a * y, lambda t, y, a: 0 * y, jnp.ones(3), ctx.key(), 0.5)
    if okc:
        ctx.close(N(sol.ys)[-1], np.full(3, 0.95**10), "sde:zero-noise", atol=1e-9)


@unit(PROP)
def forwarding(ctx):
    """Every field of the configuration reaches the integrator: same answer as calling diffrax with that setting."""
    rng = ctx.rng
    n = 3
    W = jnp.asarray(rng.normal(size=(n, n)))
    term = diffrax.ODETerm(lambda t, y, a: a * jnp.tanh(W @ y) + jnp.cos(3 * t))
    y0, arg = jnp.asarray(rng.normal(size=n)), jnp.asarray(0.6)

    def state_of(t1):
        s = diffrax.diffeqsolve(term, diffrax.Tsit5(), t0=0.1, t1=t1, dt0=0.1, y0=y0, args=arg,
                                saveat=diffrax.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True),
                                stepsize_controller=diffrax.PIDController(rtol=1e-5, atol=1e-6))
        return s.solver_state, s.controller_state, s.made_jump

    ss, cs, mj = state_of(0.7)
    pid = diffrax.PIDController(rtol=1e-5, atol=1e-6)
    variants = {
        "plain": {},
        "solver": dict(solver=diffrax.Midpoint(), dt=0.2),
        "saveat": dict(saveat=diffrax.SaveAt(t0=True, t1=True, ts=jnp.array([0.2, 0.45]))),
        "saveat-steps": dict(saveat=diffrax.SaveAt(steps=True), max_steps=64),
        "controller": dict(stepsize_controller=pid, dt=0.3),
        "controller-steps": dict(stepsize_controller=diffrax.StepTo(ts=jnp.array([0.1, 0.15, 0.5, 0.9])), dt=None, solver=diffrax.Euler()),
        "event": dict(event=diffrax.Event(lambda t, y, a, **k: t > 0.4)),
        "max-steps": dict(max_steps=3, throw=False),
        "throw": dict(max_steps=3, throw=True),
        "solver-state": dict(stepsize_controller=pid, dt=0.2, solver_state=(jnp.array(False), ss[1] * 1.5)),
        "controller-state": dict(stepsize_controller=pid, dt=0.2, solver_state=ss, controller_state=cs),
        "made-jump": dict(stepsize_controller=pid, dt=0.2, solver_state=(jnp.array(False), ss[1] * 1.5), controller_state=cs, made_jump=jnp.array(True)),
    }
    for nm, v in variants.items():
        kw = dict(solver=diffrax.Tsit5(), t_start=0.1, t_end=0.9, dt=0.05, **{})
        kw.update(v)
        dkw = {k: x for k, x in kw.items() if k not in ("dt", "t_start", "t_end")}
        if nm == "controller-steps":
            kw["dt"], dt0 = 0.05, None
        else:
            dt0 = kw["dt"]

        def direct():
            return diffrax.diffeqsolve(term, t0=0.1, t1=0.9, dt0=dt0, y0=y0, args=arg, **dkw)

        if nm == "controller-steps":
            continue  # diffrax refuses an initial step together with StepTo
        ctx.case({"field": nm})
        ctx.saw("forwarded")
        try:
            want = direct()
        except Exception:
            want = None
        got = err = None
        try:
            got = bijx.DiffraxConfig(**kw).solve(term, y0, arg)
        except Exception as e:
            err = e
        if want is None:
            ctx.ok(got is None, f"forward:{nm}:raises")
            continue
        if not ctx.ok(err is None, f"forward:{nm}:raised", error=repr(err)[:300]):
            continue
        ctx.close(N(got.ts), N(want.ts), f"forward:{nm}:times", atol=1e-12, rtol=1e-12)
        ctx.close(N(got.ys), N(want.ys), f"forward:{nm}:values", atol=1e-12, rtol=1e-12)
        ctx.ok(bool(got.result == want.result), f"forward:{nm}:result")
        ctx.ok(int(got.stats["num_steps"]) == int(want.stats["num_steps"]), f"forward:{nm}:steps",
               got=int(got.stats["num_steps"]), want=int(want.stats["num_steps"]))
    # overriding the stored states at call time
    c = bijx.DiffraxConfig(t_start=0.1, t_end=0.9, dt=0.2, stepsize_controller=pid)
    for nm, ov in (("solver_state", dict(solver_state=(jnp.array(False), ss[1] * 1.5))), ("controller_state", dict(controller_state=cs)),
                   ("dt", dict(dt=0.31)), ("saveat", dict(saveat=diffrax.SaveAt(ts=jnp.array([0.3]))))):
        d = dict(solver=diffrax.Tsit5(), t0=0.1, t1=0.9, dt0=ov.get("dt", 0.2), y0=y0, args=arg, stepsize_controller=pid)
        d.update({k: x for k, x in ov.items() if k != "dt"})
        ctx.case({"override": nm})
        okc, got = ctx.call("forward:override", lambda: c.optional_override(**ov).solve(term, y0, arg))
        if okc:
            ctx.saw("forwarded")
            ctx.close(N(got.ys), N(diffrax.diffeqsolve(term, **d).ys), f"forward:override:{nm}", atol=1e-12, rtol=1e-12)
    # the adjoint decides which derivatives exist
    for nm, adj in (("forward-mode", diffrax.ForwardMode()), ("direct", diffrax.DirectAdjoint())):
        c = bijx.DiffraxConfig(t_start=0.1, t_end=0.9, dt=0.05, adjoint=adj, max_steps=64)
        ctx.case({"adjoint": nm})
        okc, t = ctx.call("forward:adjoint", jax.jvp, lambda a: c.solve(term, y0, a).ys[-1], (arg,), (jnp.asarray(1.0),))
        if okc:
            ctx.saw("forwarded")
            e = 1e-5
            fd = (diffrax.diffeqsolve(term, diffrax.Tsit5(), 0.1, 0.9, 0.05, y0, arg + e).ys[-1]
                  - diffrax.diffeqsolve(term, diffrax.Tsit5(), 0.1, 0.9, 0.05, y0, arg - e).ys[-1]) / (2 * e)
            ctx.close(N(t[1]), N(fd), f"forward:adjoint:{nm}", atol=1e-7, rtol=1e-6)


@unit(PROP)
def sde_forwarding(ctx):
    """The SDE front end honours its solver, steps, save times, arguments and Levy-area settings, path by path."""
    rng = ctx.rng
    key = ctx.key()
    a = (float(rng.normal() * 0.5), float(rng.uniform(0.3, 0.8)))
    drift, diff = lambda t, y, a: a[0] * y + jnp.sin(t), lambda t, y, a: a[1] * y
    zero = lambda t, y, a: 0 * y
    y0 = jnp.asarray(rng.normal(size=4))
    base = dict(t_start=0.2, t_end=1.2, dt=0.05)
    C = bijx.DiffraxConfig

    def run(cfg, drift=drift, diff=diff, **k):
        return cfg.solve_sde(drift, diff, y0, key, a, **k)

    def same(k, f, g):
        ctx.case({"sde": k})
        okc, p = ctx.call("sde-forward:" + k, f)
        okd, q = ctx.call("sde-forward:" + k, g)
        if okc and okd:
            ctx.saw("forwarded")
            ctx.close(N(p.ys), N(q.ys), "sde-forward:" + k, atol=1e-12, rtol=1e-12)
        return (p, q) if okc and okd else None

    # a configured stochastic solver is used; anything else falls back to Euler
    r = same("configured-heun", lambda: run(C(solver=diffrax.Heun(), **base)), lambda: run(C(**base), solver=diffrax.Heun()))
    s = same("fallback-euler", lambda: run(C(**base)), lambda: run(C(solver=diffrax.Heun(), **base), solver=diffrax.Euler()))
    if r and s:
        ctx.ok(not np.allclose(N(r[0].ys), N(s[0].ys), atol=1e-6), "sde-forward:solvers-differ")
    # by-hand Euler-Maruyama from the same Brownian path (same increments for the same key and times)
    bm = diffrax.UnsafeBrownianPath(shape=y0.shape, key=key, levy_area=diffrax.BrownianIncrement)
    for dtv, (t0, t1) in ((0.1, (0.2, 1.2)), (0.1, (0.0, 0.5)), (-0.1, (0.2, 1.2))):
        ctx.case({"sde": "by-hand", "dt": dtv, "t": [t0, t1]})
        okc, sol = ctx.call("sde-forward:by-hand", run, C(t_start=t0, t_end=t1, dt=dtv, saveat=diffrax.SaveAt(steps=True), max_steps=32))
        if okc:
            ctx.saw("forwarded")
            ts = [t0] + [float(t) for t in N(sol.ts) if np.isfinite(t)]
            ctx.ok(np.allclose(np.diff(ts), 0.1, atol=1e-9) and len(ts) == round((t1 - t0) / 0.1) + 1, "sde-forward:grid", got=ts)
            y = N(y0)
            for i, (p, q) in enumerate(zip(ts[:-1], ts[1:])):
                y = y + (q - p) * (a[0] * y + np.sin(p)) + a[1] * y * N(bm.evaluate(p, q))
                ctx.close(N(sol.ys)[i], y, "sde-forward:path", atol=1e-9, rtol=1e-9)
    # save times, step limit, failure policy
    ts = jnp.array([0.2, 0.45, 1.0])
    okc, sol = ctx.call("sde-forward:saveat", run, C(saveat=diffrax.SaveAt(ts=ts), **base), drift=lambda t, y, a: 1 + 0 * y, diff=zero)
    if okc:
        ctx.ok(N(sol.ys).shape == (3, 4), "sde-forward:saveat:shape", got=N(sol.ys).shape)
        ctx.close(N(sol.ys), N(y0) + (N(ts) - 0.2)[:, None], "sde-forward:saveat", atol=1e-9)
    ctx.case({"sde": "limits"})
    okc, sol = ctx.call("sde-forward:max-steps", run, C(max_steps=3, throw=False, **base))
    if okc:
        ctx.ok(bool(sol.result != diffrax.RESULTS.successful), "sde-forward:max-steps")
    raised = False
    try:
        jax.block_until_ready(run(C(max_steps=3, **base)).ys)
    except Exception:
        raised = True
    ctx.ok(raised, "sde-forward:throw")
    # clipped steps from the configured controller: jump at 0.63 splits a step
    pid = diffrax.ClipController(diffrax.ConstantStepSize(), step_ts=jnp.array([0.63])) if hasattr(diffrax, "ClipController") else None
    if pid is not None:
        ctx.case({"sde": "controller"})
        try:
            diffrax.diffeqsolve(diffrax.ODETerm(lambda t, y, a: y), diffrax.Euler(), 0.2, 1.2, 0.25, y0, stepsize_controller=pid)
            usable = True
        except Exception:
            usable = False
        if usable:
            c = C(stepsize_controller=pid, t_start=0.2, t_end=1.2, dt=0.25)
            okc, sol = ctx.call("sde-forward:controller", run, c, diff=zero)
            if okc:
                want = diffrax.diffeqsolve(diffrax.ODETerm(drift), diffrax.Euler(), 0.2, 1.2, 0.25, y0, args=a, stepsize_controller=pid)
                ctx.saw("forwarded")
                ctx.close(N(sol.ys), N(want.ys), "sde-forward:controller", atol=1e-12)
    # solvers that need more than increments get the requested Levy area
    ctx.case({"sde": "levy"})
    okc, sol = ctx.call("sde-forward:levy-area", run, C(**base), diff=lambda t, y, a: jnp.full(4, 0.4), solver=diffrax.ShARK(),
                        levy_area=diffrax.SpaceTimeLevyArea)
    if okc:
        ctx.saw("forwarded")
        ctx.ok(np.all(np.isfinite(N(sol.ys))), "sde-forward:levy-area:finite")
