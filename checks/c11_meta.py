"""C11: shape-only and argument-only wrappers permute entries and never touch densities."""

from vlib.core import unit
from vlib.jx import *

PROP = "C11"
RULE = (
    "random batch/event shapes (incl. scalar events and empty batches) for reshape, expand/squeeze and user meta layers, "
    "random fixed/call-time arguments for partial application; oracle is numpy on the same array with exact equality; "
    "non-trivial = more than one entry"
)
ASSUMPTIONS = []
MIN_COUNTERS = {"reshapes": 60, "squeezes": 30, "partials": 30}


def factor(rng, n):
    out = []
    while n > 1:
        ds = [d for d in range(2, n + 1) if n % d == 0]
        d = int(rng.choice(ds))
        out.append(d)
        n //= d
    for _ in range(int(rng.integers(0, 2))):
        out.insert(int(rng.integers(0, len(out) + 1)), 1)
    return tuple(out)


def both(ctx, k, b, x, want, ld):
    okc, r = ctx.call(k, b.forward, jnp.asarray(x), ld)
    if okc:
        ctx.ok(N(r[0]).shape == want.shape and np.array_equal(N(r[0]), want), k + ":value", got=N(r[0]).shape, want=want.shape)
        ctx.ok(np.array_equal(N(r[1]), N(ld)) and N(r[1]).shape == N(ld).shape, k + ":density")
    okc, r = ctx.call(k, b.reverse, jnp.asarray(want), ld)
    if okc:
        ctx.ok(N(r[0]).shape == x.shape and np.array_equal(N(r[0]), x), k + ":reverse-value", got=N(r[0]).shape, want=x.shape)
        ctx.ok(np.array_equal(N(r[1]), N(ld)), k + ":reverse-density")
    okc, r = ctx.call(k + ":kwargs", b.forward, jnp.asarray(x), ld, t=1.0)
    if okc:
        ctx.ok(np.array_equal(N(r[0]), want), k + ":kwargs")


@unit(PROP)
def reshape(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(70, 500)):
        n = int(rng.choice([1, 1, 2, 4, 6, 12, 24]))
        a, b = factor(rng, n), factor(rng, n)
        batch = [(), (3,), (2, 2), (1,), (0,), (4, 1, 2)][int(rng.integers(6))]
        x = rng.normal(size=batch + a)
        ctx.case({"from": a, "to": b, "batch": batch, "rep": rep}, nontrivial=x.size > 1)
        okc, bj = ctx.call("reshape", bijx.Reshape, a, b)
        if okc:
            both(ctx, "reshape" + ("[scalar]" if a == () or b == () else ""), bj, x, x.reshape(batch + b), jnp.asarray(rng.normal(size=batch)))
            ctx.saw("reshapes")
            if a and not (len(x.shape) >= len(a) and x.shape[len(x.shape) - len(a):] != a):
                bad = rng.normal(size=batch + a[:-1] + (a[-1] + 1,))
                try:
                    bj.forward(jnp.asarray(bad), jnp.zeros(batch))
                    ctx.violate("reshape:mismatch-accepted", shape=bad.shape, want=a)
                except Exception:
                    pass


@unit(PROP)
def dims(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(40, 300)):
        nd = int(rng.integers(1, 4))
        x = rng.normal(size=tuple(int(v) for v in rng.integers(1, 4, size=nd)))
        ax = int(rng.integers(-nd - 1, nd + 1))
        ld = jnp.asarray(rng.normal(size=x.shape[:1]))
        ctx.case({"shape": x.shape, "axis": ax, "rep": rep})
        y = np.expand_dims(x, ax)
        both(ctx, "expand", bijx.ExpandDims(ax), x, y, ld)
        both(ctx, "squeeze", bijx.SqueezeDims(ax), y, x, ld)
        if ax == -1:
            both(ctx, "expand-default", bijx.ExpandDims(), x, y, ld)
            both(ctx, "squeeze-default", bijx.SqueezeDims(), y, x, ld)
        perm = rng.permutation(nd)
        both(ctx, "meta", bijx.MetaLayer(lambda v: jnp.transpose(v, perm), lambda v: jnp.transpose(v, np.argsort(perm))),
             x, np.transpose(x, perm), ld)
        ctx.saw("squeezes")


class Rec(bijx.Bijection):
    def __init__(self, log):
        self.log = nnx.static(log)

    def forward(self, x, ld, **kw):
        self.log.append(("f", dict(kw)))
        return x + kw.get("s", 0), ld - 1

    def reverse(self, x, ld, **kw):
        self.log.append(("r", dict(kw)))
        return x - kw.get("s", 0), ld + 1


@unit(PROP)
def partials(ctx):
    rng = ctx.rng
    names = ["s", "t", "u", "v"]
    for rep in range(ctx.n(40, 300)):
        log = []
        pick = lambda: {n: int(rng.integers(100)) if n == "s" or rng.integers(4) else None for n in names if rng.integers(2)}
        fixed, call, inner = pick(), pick(), pick()
        nested = bool(rng.integers(2))
        b = Rec(log)
        p = bijx.Partial(bijx.Partial(b, **inner), **fixed) if nested else bijx.Partial(b, **fixed)
        want = {**(inner if nested else {}), **fixed, **call}
        x, ld = jnp.asarray(rng.normal(size=2)), jnp.asarray(0.3)
        ctx.case({"fixed": fixed, "call": call, "inner": inner if nested else None, "rep": rep}, nontrivial=bool(want))
        for d, f in (("f", p.forward), ("r", p.reverse)):
            log.clear()
            for again in (False, True):  # a call must not leave its arguments behind
                okc, r = ctx.call("partial", f, x, ld, **(call if not again else {}))
                w = want if not again else {**(inner if nested else {}), **fixed}
                if okc:
                    ctx.ok(log[-1] == (d, w), "partial:arguments", got=log[-1], want=(d, w))
                    sg = 1 if d == "f" else -1
                    ctx.close(N(r[0]), N(x) + sg * w.get("s", 0), "partial:value", atol=1e-12)
                    ctx.close(N(r[1]), N(ld) - sg, "partial:density", atol=1e-12)
            ctx.saw("partials")
        c = bijx.Chain(bijx.Partial(Rec(log), s=1), bijx.Partial(Rec(log), s=2))
        log.clear()
        okc, r = ctx.call("partial:chain", c.forward, x, ld)
        if okc:
            ctx.ok([e[1]["s"] for e in log] == [1, 2], "partial:chain")
