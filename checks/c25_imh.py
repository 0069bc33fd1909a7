"""C25: independent Metropolis-Hastings accepts with the exact probability and preserves its target."""

from vlib.core import unit
from vlib.jx import *
from vlib.stats import ks, phi

PROP = "C25"
RULE = (
    "random targets (Gaussian, bimodal, truncated, unnormalised by large offsets) x proposals (independent, transformed, "
    "mixture, buffered, pytree) x many keys and states; oracles: acceptance formula, consistency of decision, state and info, "
    "calibration of decisions against the stated probability overall and by bin, stationarity and convergence by KS; "
    "non-trivial = target differs from proposal"
)
ASSUMPTIONS = ["float64", "statistical oracles run at fixed seeds with level 1e-10 or 7 sigma"]
MIN_COUNTERS = {"steps": 20000, "accepted": 1000, "rejected": 1000, "stationary": 3, "converged": 1}


def targets(rng, i):
    m, s = float(rng.normal() * 0.7), float(rng.uniform(0.5, 1.2))
    off = float(rng.choice([0.0, 300.0, -1000.0]))
    if i % 3 == 0:
        return ("gauss", lambda x: -0.5 * jnp.sum((x - m) ** 2, -1) / s**2 + off, lambda u: m + s * u)
    if i % 3 == 1:
        return ("bimodal", lambda x: jax.nn.logsumexp(jnp.stack([-0.5 * jnp.sum((x - m - 1) ** 2, -1), -0.5 * jnp.sum((x + 1) ** 2, -1)]), axis=0) + off, None)
    return ("truncated", lambda x: jnp.where(jnp.all(x > m, -1), -0.5 * jnp.sum((x - m) ** 2, -1) / s**2, -jnp.inf) + off, lambda u: m + s * np.abs(u))


def proposal(rng, i, n):
    if i % 4 == 0:
        return "normal", bijx.IndependentNormal((n,))
    if i % 4 == 1:
        return "diag", bijx.DiagonalNormal(jnp.asarray(rng.normal(size=n) * 0.5), jnp.asarray(rng.uniform(0.8, 2, size=n)))
    if i % 4 == 2:
        return "flow", bijx.Transformed(bijx.IndependentNormal((n,)), perturb(bijx.AffineLinear(rngs=nnx.Rngs(0)), rng, 0.3))
    return "mixture", bijx.GaussianMixture(jnp.asarray(rng.normal(size=(2, n))), jnp.asarray(rng.uniform(0.5, 2, size=(2, n))), jnp.asarray(rng.normal(size=2)))


@unit(PROP)
def steps(ctx):
    rng = ctx.rng
    for i in range(ctx.n(8, 48)):
        n = int(rng.integers(1, 3))
        tn, tgt, _ = targets(rng, i)
        pn, q = proposal(rng, i + i // 4, n)
        M = ctx.n(4000, 10000)
        ctx.case({"target": tn, "proposal": pn, "n": n}, count=M, sig=(i, tn, pn))
        okc, imh = ctx.call("build", bijx.IMH, q, tgt)
        if not okc:
            continue
        k0, k1 = jax.random.split(ctx.key())
        okc, st = ctx.call("init", jax.jit(jax.vmap(imh.init)), jax.random.split(k0, M))
        if not okc:
            continue
        chk_state(ctx, "init", st, q, tgt, n, M)
        okc, r = ctx.call("step", jax.jit(jax.vmap(imh.step)), jax.random.split(k1, M), st)
        if not okc:
            continue
        new, info = r
        ctx.saw("steps", M)
        p = info.proposal
        chk_state(ctx, "proposal", p, q, tgt, n, M)
        acc = N(info.is_accepted)
        ctx.saw("accepted", acc.sum())
        ctx.saw("rejected", (~acc).sum())
        with np.errstate(all="ignore"):
            la = N(p.log_prob_target) - N(p.log_prob_proposal) - N(st.log_prob_target) + N(st.log_prob_proposal)
            alpha = np.minimum(1.0, np.exp(la))
        fin = ~np.isnan(alpha)
        ctx.close(N(info.accept_prob)[fin], alpha[fin], "accept-prob", atol=1e-12, rtol=1e-8)
        ctx.ok(acc[fin & (alpha >= 1)].all(), "uphill-always-accepted")
        ctx.ok(not acc[fin & (alpha == 0)].any(), "impossible-never-accepted")
        for f in ("position", "log_prob_target", "log_prob_proposal"):
            a, b, c = N(getattr(new, f)), N(getattr(p, f)), N(getattr(st, f))
            sel = acc.reshape(acc.shape + (1,) * (a.ndim - 1))
            ctx.ok(np.array_equal(a, np.where(sel, b, c)), "new-state:" + f)
        # decisions are calibrated against the stated probability, whatever the proposal was
        for lo, hi in [(0, 1), (0, 0.3), (0.3, 0.7), (0.7, 1)]:
            s = fin & (alpha > lo) & (alpha < hi)
            if s.sum() > 100:
                z = (acc[s].sum() - alpha[s].sum()) / np.sqrt((alpha[s] * (1 - alpha[s])).sum() + 1e-9)
                ctx.ok(abs(z) < 7, "calibration", z=z, bin=[lo, hi], n=int(s.sum()))
        pos = N(p.position)[:, 0]
        for s in (pos > np.median(pos), pos <= np.median(pos)):
            s = s & fin & (alpha < 1)
            if s.sum() > 100:
                z = (acc[s].sum() - alpha[s].sum()) / np.sqrt((alpha[s] * (1 - alpha[s])).sum() + 1e-9)
                ctx.ok(abs(z) < 7, "decision-independent-of-proposal", z=z)
        # a fixed state against fresh keys: decisions are fresh, proposals do not depend on the state
        one = jax.tree.map(lambda a: a[0], st)
        two = jax.tree.map(lambda a: a[1], st)
        ks_ = jax.random.split(ctx.key(), 50)
        okc, r = ctx.call("step", lambda: [jax.jit(jax.vmap(imh.step, in_axes=(0, None)))(ks_, v) for v in (one, two)])
        if okc:
            ctx.ok(np.array_equal(N(r[0][1].proposal.position), N(r[1][1].proposal.position)), "proposal-independent-of-state")
            ctx.ok(len(np.unique(N(r[0][1].proposal.position)[:, 0])) == 50, "fresh-proposals")


@unit(PROP)
def rare_decisions(ctx):
    """Very unlikely acceptances and very unlikely rejections happen as often as they should."""
    rng = ctx.rng
    q = bijx.IndependentNormal((1,))
    for i, c in enumerate([0.002, 0.006, 0.03, 0.4, 0.97, 0.995]):
        M = ctx.n(150000, 600000)
        r = -np.log(c)
        # far out the target is raised by r: leaving from there is accepted with probability exp(-r)
        tgt = lambda x: q.log_density(x) + jnp.where(x[..., 0] > 3.5, r, 0.0)
        ctx.case({"ratio": c}, count=M, sig=("rare", c))
        okc, imh = ctx.call("build", bijx.IMH, q, tgt)
        x = jnp.asarray([float(rng.uniform(3.6, 5))])
        st = bijx.mcmc.IMHState(x, tgt(x), q.log_density(x))
        okc, v = ctx.call("step", jax.jit(jax.vmap(imh.step, in_axes=(0, None))), jax.random.split(ctx.key(), M), st)
        if not okc:
            return
        ctx.saw("steps", M)
        out = N(v[1].proposal.position)[:, 0] <= 3.5
        acc = N(v[1].is_accepted)[out]
        n = int(out.sum())
        z = (acc.sum() - n * c) / np.sqrt(n * c * (1 - c))
        ctx.ok(abs(z) < 7, "rare-calibration", ratio=c, z=z, accepted=int(acc.sum()), n=n)


def chk_state(ctx, k, st, q, tgt, n, M):
    if ctx.ok(st.position.shape == (M, n) and st.log_prob_target.shape == (M,) and st.log_prob_proposal.shape == (M,), k + ":shapes"):
        ctx.close(N(st.log_prob_target), N(tgt(st.position)), k + ":target-density", atol=1e-9)
        ctx.close(N(st.log_prob_proposal), N(q.log_density(st.position)), k + ":proposal-density", atol=1e-8)


@unit(PROP)
def stationary(ctx):
    """Exact target draws stay exact target draws; other starts converge to them."""
    rng = ctx.rng
    for i in range(ctx.n(4, 24)):
        tn, tgt, draw = targets(rng, [0, 2][i % 2])
        pn, q = proposal(rng, i, 1)
        M, T = ctx.n(6000, 20000), 6
        ctx.case({"target": tn, "proposal": pn, "chains": M, "steps": T}, count=M * T, sig=(i,))
        ctx.saw("stationary")
        imh = bijx.IMH(q, tgt)
        x0 = draw(rng.normal(size=(M, 1)))
        u0 = lambda x: phi((x - draw(np.zeros(1))) / (draw(np.ones(1)) - draw(np.zeros(1))))
        cdf = u0 if tn == "gauss" else (lambda x: 2 * u0(x) - 1)
        mk = lambda x: bijx.mcmc.IMHState(jnp.asarray(x), tgt(jnp.asarray(x)), q.log_density(jnp.asarray(x)))
        step = jax.jit(jax.vmap(imh.step))
        # uniform ergodicity: total variation after t steps is at most (1 - 1/W)^t, W = sup target/proposal
        g = draw(np.linspace(-12, 12, 4001)[:, None])
        lt, lq = N(tgt(jnp.asarray(g))), N(q.log_density(jnp.asarray(g)))
        srt = np.argsort(g[:, 0])
        dens = np.exp(lt - lt.max())[srt]
        lz = np.log(np.trapezoid(dens, g[srt, 0])) + lt.max()
        W = np.exp(np.max(lt - lz - lq))
        need = int(np.ceil(np.log(1e-4) / np.log1p(-1 / max(W, 1.0001))))
        runs = [("exact-start", mk(x0), T)]
        if need <= ctx.n(150, 400):
            runs.append(("other-start", None, need))
            ctx.saw("converged")
        for nm, st, TT in runs:
            if st is None:
                st = jax.jit(jax.vmap(imh.init))(jax.random.split(ctx.key(), M))
            for t in range(TT):
                okc, r = ctx.call("step", step, jax.random.split(ctx.key(), M), st)
                if not okc:
                    return
                st = r[0]
            ctx.saw("steps", M * TT)
            d, b = ks(cdf(N(st.position)))
            ctx.ok(d < b, nm + ":target-law", distance=d, bound=b, target=tn, proposal=pn)
            ctx.close(N(st.log_prob_target), N(tgt(st.position)), nm + ":carried-density", atol=1e-9)


@unit(PROP)
def buffered_and_pytree(ctx):
    rng = ctx.rng
    for i in range(ctx.n(3, 12)):
        s, size = int(rng.integers(100)), int(rng.integers(2, 6))
        ctx.case({"buffer": size, "seed": s}, sig=(i,))
        q = bijx.BufferedSampler(bijx.IndependentNormal((1,), rngs=nnx.Rngs(s)), size)
        tgt = lambda x: -0.5 * jnp.sum((x - 0.3) ** 2)
        imh = bijx.IMH(q, tgt)
        okc, st = ctx.call("buffered:init", imh.init, ctx.key())
        seen = [float(st.position[0])] if okc else []
        for t in range(3 * size):
            okc, r = ctx.call("buffered:step", imh.step, ctx.key(), st)
            if not okc:
                return
            new, info = r
            seen.append(float(info.proposal.position[0]))
            want = info.proposal if bool(info.is_accepted) else st
            ctx.ok(np.array_equal(N(new.position), N(want.position)) and float(new.log_prob_target) == float(want.log_prob_target)
                   and float(new.log_prob_proposal) == float(want.log_prob_proposal), "buffered:new-state")
            st = new
        ctx.saw("steps", 3 * size)
        ctx.ok(len(set(seen)) == len(seen), "buffered:fresh-proposals")


@unit(PROP)
def info_records(ctx):
    """Replacing one field of a step's record keeps all others, and leaves the record itself alone."""
    rng = ctx.rng
    for i in range(ctx.n(3, 12)):
        n = int(rng.integers(1, 4))
        imh = bijx.IMH(bijx.IndependentNormal((n,)), lambda x: -jnp.sum(x**2, -1))
        okc, st = ctx.call("init", imh.init, ctx.key())
        okc, r = ctx.call("step", imh.step, ctx.key(), st) if okc else (False, None)
        if not okc:
            continue
        info = r[1]
        names = ["is_accepted", "accept_prob", "proposal"]
        old = [getattr(info, k) for k in names]
        for j, name in enumerate(names):
            new = [jnp.asarray(not bool(info.is_accepted)), jnp.asarray(0.125), st][j]
            ctx.case({"record": name, "n": n}, sig=("record", name, n, i))
            okc, q = ctx.call("IMHInfo.replace", lambda: info.replace(**{name: new}))
            if not okc:
                continue
            for k, o in zip(names, old):
                want = new if k == name else o
                same = lambda a, b: all(np.array_equal(N(x), N(y)) for x, y in zip(jax.tree.leaves(a), jax.tree.leaves(b))) and jax.tree.structure(a) == jax.tree.structure(b)
                ctx.ok(same(getattr(q, k), want), "IMHInfo.replace:field", changed=name, field=k)
                ctx.ok(same(getattr(info, k), o), "IMHInfo.replace:original-changed", changed=name, field=k)
