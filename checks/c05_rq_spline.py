"""C05: monotone rational-quadratic splines."""

from vlib.core import unit
from vlib.families import L, softplus
from vlib.jx import *

PROP = "C05"
RULE = (
    "random knot parameters (incl. extreme logits and all-zero) x inputs inside, outside, on the boundary and exactly "
    "on knots; oracle is an independent longdouble spline; non-trivial = inputs strictly inside (0,1)"
)
ASSUMPTIONS = ["float64", "slope parameterisation: raw 0 gives slope 1 (softplus with log 2 normalisation)"]
MIN_COUNTERS = {"inside": 3000, "outside": 500, "knots": 500, "minimums": 5}


def ref_knots(w, h, s, mw, mh, ms):
    w, h, s = (np.asarray(a, L) for a in (w, h, s))
    n = w.shape[-1]

    def sm(a):
        e = np.exp(a - a.max(-1, keepdims=True))
        return e / e.sum(-1, keepdims=True)

    bw = mw + (1 - L(mw) * n) * sm(w)
    bh = mh + (1 - L(mh) * n) * sm(h)
    z = np.zeros(w.shape[:-1] + (1,), L)
    kx = np.concatenate([z, np.cumsum(bw, -1)], -1)
    ky = np.concatenate([z, np.cumsum(bh, -1)], -1)
    sc = np.log(L(2)) / (1 - L(ms))
    sl = L(ms) + softplus(sc * s) / sc
    one = np.ones(w.shape[:-1] + (1,), L)
    return kx, ky, np.concatenate([one, sl, one], -1)


def ref_spline(x, kx, ky, sl):
    """rows of parameters (R, n+1), x (R, M) -> y, log dy/dx (longdouble)."""
    x = np.asarray(x, L)
    y, ld = x.copy(), np.zeros_like(x)
    n = kx.shape[-1] - 1
    for r in range(x.shape[0]):
        ins = (x[r] >= 0) & (x[r] <= 1)
        xi = x[r][ins]
        k = np.clip(np.searchsorted(kx[r], xi, side="right") - 1, 0, n - 1)
        w, h = kx[r][k + 1] - kx[r][k], ky[r][k + 1] - ky[r][k]
        d0, d1, s = sl[r][k], sl[r][k + 1], h / w
        t = np.clip((xi - kx[r][k]) / w, 0, 1)
        den = s + (d0 + d1 - 2 * s) * t * (1 - t)
        y[r][ins] = ky[r][k] + h * (s * t**2 + d0 * t * (1 - t)) / den
        ld[r][ins] = np.log(s**2 * (d1 * t**2 + 2 * s * t * (1 - t) + d0 * (1 - t) ** 2)) - 2 * np.log(den)
    return y, ld


def params(rng, R, n):
    mag = 10 ** rng.uniform(-1, 0.8, (R, 1))
    w, h = rng.normal(size=(R, n)) * mag, rng.normal(size=(R, n)) * mag
    s = rng.normal(size=(R, n - 1)) * 10 ** rng.uniform(-1, 0.8, (R, 1))
    w[0], h[0], s[0] = 0, 0, 0
    # unnormalised logits: a common offset changes nothing, however large
    w[1:4] += np.array([800.0, -800.0, 0.0])[:, None][: len(w[1:4])]
    h[2:5] += np.array([800.0, -800.0, 300.0])[:, None][: len(h[2:5])]
    return w, h, s


def inputs(rng, R, M, kx):
    u = rng.random((R, M))
    x = np.where(u < 0.7, rng.random((R, M)), rng.uniform(-3, 4, (R, M)))
    t = 10 ** rng.uniform(-12, -1, (R, M))
    x = np.where((u > 0.3) & (u < 0.36), t, x)
    x = np.where((u > 0.36) & (u < 0.42), 1 - t, x)
    x[:, :4] = [0.0, 1.0, -1e-9, 1 + 1e-9]
    n = kx.shape[-1]
    x[:, 4:4 + n] = np.asarray(kx, float)
    return np.clip(x, -3, 4)


def judge(ctx, tag, fwd, rev, x, kx, ky, sl, slack=0.0):
    yw, lw = ref_spline(x, kx, ky, sl)
    yw, lw = np.asarray(yw, float), np.asarray(lw, float)
    okc, r = ctx.call(f"{tag}:forward", fwd, jnp.asarray(x))
    if not okc:
        return
    y, ld = map(N, r)
    g = np.exp(lw)
    ctx.close(y, yw, f"{tag}:forward-value", atol=1e-12, rtol=1e-11, scale=1e3 * EPS * g)
    # near a knot the log-slope may be evaluated from either side
    inside = (x > 0) & (x < 1)
    near = np.min(np.abs(x[:, :, None] - np.asarray(kx, float)[:, None, :]), -1) < 1e-12
    jump = np.where(near, 1e-6, 0.0)
    minw = np.min(np.diff(np.asarray(kx, float), axis=-1), -1, keepdims=True)
    # conditioning: what a shift of the position by a few roundings does to the exact log-slope
    e = 64 * EPS
    unit_ = (x >= 0) & (x <= 1)

    def swing(d):
        around = [ref_spline(np.where(unit_, np.clip(x + t, 0, 1), x), kx, ky, sl)[1] for t in (-d, -d / 8, d / 8, d)]
        return np.max([np.abs(np.asarray(a, float) - lw) for a in around], 0)

    cond = swing(e)
    ctx.close(ld, lw, f"{tag}:forward-logdet", atol=1e-10, rtol=1e-9,
              scale=jump + 1e4 * EPS / minw * (1 + g) + cond)
    ctx.saw("inside", int(inside.sum()))
    out = (x < 0) | (x > 1)
    ctx.ok(np.all(y[out] == x[out]) and np.all(ld[out] == 0), f"{tag}:identity-outside")
    ctx.saw("outside", int(out.sum()))
    okc, r = ctx.call(f"{tag}:reverse", rev, jnp.asarray(yw))
    if okc:
        xb, lb = map(N, r)
        minh = np.min(np.diff(np.asarray(ky, float), axis=-1), -1, keepdims=True)
        smin = np.min(np.asarray(sl, float), -1, keepdims=True)
        xt = 1e-10 + 1e4 * EPS * (1 + 1 / g) / np.minimum(minh * smin, 1) + slack
        ctx.close(xb, x, f"{tag}:reverse-value", atol=0, rtol=0, scale=xt)
        # log-slope sensitivity to the position error, |d log g/dx| <= C / min bin width / min slope ratio
        if not slack:
            ctx.close(lb, -lw, f"{tag}:reverse-logdet", atol=1e-8, rtol=1e-8,
                      scale=2 * jump + 2 * swing(xt))
    xs = np.sort(x, 1)
    ys = N(fwd(jnp.asarray(xs))[0])
    d = np.diff(ys, axis=1)
    ctx.ok(np.all(d >= -1e-14), f"{tag}:monotone", worst=float(d.min()))
    res = np.diff(xs, axis=1) > 1e-7
    ctx.ok(np.all(d[res] > 0), f"{tag}:strictly-monotone", worst=float(d[res].min()))
    # knots map onto knots
    kxf = np.asarray(kx, float)
    yk = N(fwd(jnp.asarray(np.pad(kxf, ((0, 0), (0, x.shape[1] - kxf.shape[1])), constant_values=0.5)))[0])[:, : kxf.shape[1]]
    smax = np.max(np.asarray(sl, float), -1, keepdims=True)
    ratio = np.max(np.diff(ky, axis=-1) / np.diff(kx, axis=-1), -1, keepdims=True).astype(float)
    ctx.close(yk, np.asarray(ky, float), f"{tag}:knots", atol=1e-12, rtol=0, scale=1e2 * EPS * (smax + ratio**2 / np.minimum(1, smax)))
    ctx.saw("knots", kxf.size)


def functional(ctx, n, R=24, M=80):
    r = ctx.rng
    for rep in range(ctx.n(3, 12)):
        mw, mh, ms = [(1e-3, 1e-3, 1e-3), (0.3 / n, 0.02 / n, 0.2), (1e-6, 1e-6, 1e-3)][rep % 3]
        w, h, s = params(r, R, n)
        kx, ky, sl = ref_knots(w, h, s, mw, mh, ms)
        x = inputs(r, R, M, kx)
        ctx.case({"bins": n, "mins": (mw, mh, ms), "w": w, "h": h, "s": s, "x": x}, count=x.size,
                 sig=("f", n, w.tobytes()))

        def go(v, inverse):
            return bijx.rational_quadratic_spline(
                v, jnp.asarray(w)[:, None], jnp.asarray(h)[:, None], jnp.asarray(s)[:, None], inverse=inverse,
                min_bin_width=mw, min_bin_height=mh, min_slope=ms)

        fwd, rev = jax.jit(lambda v: go(v, False)), jax.jit(lambda v: go(v, True))
        # bins of width 1e-6: the quadratic formula of the inverse loses digits, the forward map does not
        judge(ctx, "function", fwd, rev, x, kx, ky, sl, 1e-4 if mh < 1e-4 else 0.0)


for _n in (1, 2, 3, 5, 8, 16, 24, 40):

    def _u(ctx, _n=_n):
        functional(ctx, _n)

    unit(PROP, f"functional-{_n}")(_u)


@unit(PROP)
def layer(ctx):
    """The module uses its own parameters, bin count and minimum settings."""
    r = ctx.rng
    M = 60
    for rep in range(ctx.n(4, 16)):
        n = int(r.integers(2, 9))
        F = int(r.integers(1, 4))
        kw = {} if rep == 0 else dict(min_bin_width=float(r.uniform(0.05, 0.6) / n),
                                      min_bin_height=float(r.uniform(0.05, 0.6) / n),
                                      min_slope=float(r.uniform(0.02, 0.6)))
        b = bijx.MonotoneRQSpline(n, (F,), rngs=nnx.Rngs(int(r.integers(2**31))), **kw)
        perturb(b, r, 1.5)
        mw, mh, ms = (kw.get(k, 1e-3) for k in ("min_bin_width", "min_bin_height", "min_slope"))
        w, h, s = map(N, (b.widths.get_value(), b.heights.get_value(), b.slopes.get_value()))
        kx, ky, sl = ref_knots(w, h, s, mw, mh, ms)
        x = inputs(r, F, M, kx)
        ctx.case({"layer": n, "F": F, **kw, "x": x, "w": w}, count=x.size)

        # (M, F) batch; density of shape (M, F) exposes the per-entry log-slope
        def run(v, rev):
            f = b.reverse if rev else b.forward
            y, ld = f(v.T, jnp.zeros((M, F)))
            return y.T, -ld.T

        judge(ctx, "layer", jax.jit(lambda v: run(v, False)), jax.jit(lambda v: run(v, True)), x, kx, ky, sl)
        ctx.ok(b.param_count == sum(b.param_splits) == sum(a.size for _, a in tree_params(b)) // F,
               "layer:param-count", got=b.param_count)
        # the documented split of a flat vector into widths, heights, slopes, per entry
        shapes = [a.get_value().shape for a in (b.widths, b.heights, b.slopes)]
        ctx.ok(shapes == [(F, k) for k in b.param_splits], "layer:param-splits", got=list(b.param_splits), want=shapes)


@unit(PROP)
def minimums(ctx):
    """Minimum bin sizes and slopes are respected by the executed map itself."""
    r = ctx.rng
    for rep in range(ctx.n(5, 20)):
        n = int(r.integers(2, 6))
        mw, mh, ms = float(r.uniform(0.1, 0.9) / n), float(r.uniform(0.1, 0.9) / n), float(r.uniform(0.05, 0.8))
        b = bijx.MonotoneRQSpline(n, (), min_bin_width=mw, min_bin_height=mh, min_slope=ms,
                                  rngs=nnx.Rngs(int(r.integers(2**31))))
        perturb(b, r, 8.0)
        ctx.case({"mins": (mw, mh, ms), "n": n, "w": N(b.widths.get_value())})
        w, h, s = map(N, (b.widths.get_value(), b.heights.get_value(), b.slopes.get_value()))
        kx, ky, sl = ref_knots(w, h, s, mw, mh, ms)
        g = N(elementwise_grad(lambda v: b.forward(v, jnp.zeros(v.shape))[0],
                               jnp.asarray(np.asarray(kx[1:-1], float) + 1e-10)))
        ctx.ok(np.all(g >= ms * (1 - 1e-5)), "minimum-slope", g=g, ms=ms)
        # a bin of height >= mh over any window wider than a whole bin: y(x + wmax) - y(x) >= mh is implied
        yk = N(b.forward(jnp.asarray(np.asarray(kx, float)), jnp.zeros(n + 1))[0])
        ctx.ok(np.all(np.diff(yk) >= mh * (1 - 1e-6)), "minimum-height", dy=np.diff(yk), mh=mh)
        ctx.saw("minimums")
