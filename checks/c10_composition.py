"""C10: composition wrappers obey the laws of function composition."""

from vlib.core import unit
from vlib.jx import *

PROP = "C10"
RULE = (
    "random (nested) chains of heterogeneous bijections, scan stacks, inverses, conditional inverses (also traced flags) "
    "and frozen wrappers; oracle composes the recorded elementary calls by hand; a call-logging probe bijection records "
    "order, direction and delivered arguments; non-trivial = at least two elementary steps"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"chains": 40, "steps": 200, "scans": 20, "cond": 20, "probe_calls": 100, "steered": 300}


class Probe(bijx.Bijection):
    """Shift by a unique amount; logs (id, direction, kwargs) of each call."""

    def __init__(self, i, log):
        self.i, self.log = i, nnx.static(log)

    def forward(self, x, ld, **kw):
        self.log.append((self.i, "f", kw))
        return x * (1 + self.i) + self.i, ld - np.log(1 + self.i)

    def reverse(self, x, ld, **kw):
        self.log.append((self.i, "r", kw))
        return (x - self.i) / (1 + self.i), ld + np.log(1 + self.i)


def elementary(rng):
    r = nnx.Rngs(int(rng.integers(2**31)))
    return [
        lambda: bijx.AffineLinear(rngs=r), lambda: bijx.CubicRational(rngs=r), lambda: bijx.Sinh().invert(),
        lambda: bijx.SinhConjugation(rngs=r), lambda: bijx.Shift(jnp.asarray(rng.normal())),
        lambda: bijx.Chain(bijx.Sigmoid(), bijx.MonotoneRQSpline(4, (), rngs=r), bijx.Sigmoid().invert()),
        lambda: bijx.Scaling(jnp.asarray(rng.uniform(0.4, 2))), lambda: bijx.MetaLayer(lambda v: v[..., ::-1], lambda v: v[..., ::-1]),
        lambda: bijx.Chain(), lambda: bijx.Bijection(),
    ][int(rng.integers(10))]()


def flat(b, direction, steps):
    """Expand any composition into its elementary calls (independent of the classes' own methods)."""
    if type(b) is bijx.Chain:
        bs = list(b.bijections)
        for c in bs if direction == "f" else bs[::-1]:
            flat(c, direction, steps)
    elif type(b) is bijx.Inverse:
        flat(b.bijection, "r" if direction == "f" else "f", steps)
    elif type(b) is bijx.Frozen:
        flat(b.frozen, direction, steps)
    else:
        steps.append((b, direction))
    return steps


def apply_steps(steps, x, ld):
    for b, d in steps:
        x, ld = (b.forward if d == "f" else b.reverse)(x, ld)
    return x, ld


def wrap(rng, b):
    u = int(rng.integers(5))
    if u == 0:
        return b.invert()
    if u == 1:
        return bijx.Inverse(b)
    if u == 2:
        return bijx.Frozen(b)
    return b


def chains(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(22, 100)):
        def build(depth):
            parts = [wrap(rng, build(depth - 1) if depth and rng.integers(3) == 0 else elementary(rng))
                     for _ in range(int(rng.integers(0 if depth < 2 else 2, 5)))]
            return bijx.Chain(*parts)

        b = wrap(rng, build(2))
        steps = flat(b, "f", [])
        batch = [(), (3,)][int(rng.integers(2))]
        x, ld0 = jnp.asarray(rng.normal(size=batch + (4,))), jnp.asarray(rng.normal(size=batch))
        ctx.case({"chain": [type(s).__name__ + d for s, d in steps], "x": x}, nontrivial=len(steps) > 1)
        okc, r = ctx.call("chain:forward", b.forward, x, ld0)
        if not okc:
            continue
        w = apply_steps(steps, x, ld0)
        ctx.saw("chains")
        ctx.saw("steps", len(steps))
        ctx.close(N(r[0]), N(w[0]), "chain:value", atol=1e-12, rtol=1e-12)
        ctx.close(N(r[1]), N(w[1]), "chain:ld", atol=1e-12, rtol=1e-12)
        okc, q = ctx.call("chain:call", b, x, ld0)
        if okc:
            ctx.close(N(q[0]), N(r[0]), "chain:call", atol=0, rtol=0)
        x = r[0]
        okc, q = ctx.call("chain:reverse", b.reverse, x, ld0)
        if okc:
            w = apply_steps(flat(b, "r", []), x, ld0)
            ctx.close(N(q[0]), N(w[0]), "chain:reverse-value", atol=1e-12, rtol=1e-12)
            ctx.close(N(q[1]), N(w[1]), "chain:reverse-ld", atol=1e-12, rtol=1e-12)
            okc, i1 = ctx.call("chain:invert", b.invert().forward, x, ld0)
            if okc:
                ctx.close(N(i1[0]), N(q[0]), "chain:invert", atol=0, rtol=0)
                ctx.close(N(i1[1]), N(q[1]), "chain:invert", atol=0, rtol=0)
            okc, i2 = ctx.call("chain:invert", b.invert().invert().reverse, x, ld0)
            if okc:
                ctx.close(N(i2[0]), N(q[0]), "chain:double-invert", atol=0, rtol=0)


@unit(PROP)
def delivery(ctx):
    """Which elementary step runs when, in which direction, with which arguments."""
    rng = ctx.rng
    for rep in range(ctx.n(30, 300)):
        log = []
        n = int(rng.integers(1, 6))
        inv = [bool(rng.integers(2)) for _ in range(n)]
        parts = [Probe(i + 1, log) for i in range(n)]
        c = bijx.Chain(*[p.invert() if v else p for p, v in zip(parts, inv)])
        mode = int(rng.integers(4))
        al = [{f"a{i}": i} for i in range(n)] if mode in (1, 3) else None
        kw = {"t": rep, "nothing": None} if mode in (2, 3) else {}
        args = dict(kw)
        if al is not None:
            args["arg_list"] = al
        x, ld = jnp.asarray(rng.normal(size=3)), jnp.zeros(())
        ctx.case({"n": n, "inv": inv, "mode": mode, "rep": rep}, nontrivial=n > 1)
        for d in "fr":
            log.clear()
            okc, r = ctx.call("delivery", c.forward if d == "f" else c.reverse, x, ld, **args)
            if not okc:
                continue
            order = range(n) if d == "f" else range(n)[::-1]
            want = [(i + 1, ("r" if d == "f" else "f") if inv[i] else d, {**(al[i] if al else {}), **kw}) for i in order]
            ctx.ok(log == want, "delivery:order-or-arguments", got=log, want=want)
            ctx.saw("probe_calls", len(log))
        if al is not None:
            for bad in (al[:-1], al + [{}]):
                try:
                    c.forward(x, ld, arg_list=bad)
                    ctx.violate("delivery:arg-list-length", why="mismatched arg_list silently accepted", n=n, got=len(bad))
                except (ValueError, TypeError):
                    pass


def stack(rng, n):
    r = lambda: nnx.Rngs(int(rng.integers(2**31)))

    def one():
        return bijx.Chain(bijx.AffineLinear(rngs=r()), bijx.SinhConjugation(rngs=r()), bijx.CubicRational(rngs=r()))

    mods = [perturb(one(), rng, 0.2) for _ in range(n)]
    g = nnx.split(mods[0])[0]
    sts = [nnx.split(m)[1] for m in mods]
    return mods, nnx.merge(g, jax.tree.map(lambda *v: jnp.stack(v), *sts))


def scan(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(6, 40)):
        n = int(rng.integers(1, 6))
        mods, st = stack(rng, n)
        s, c = bijx.ScanChain(st), bijx.Chain(*mods)
        x, ld0 = jnp.asarray(rng.normal(size=(3, 2))), jnp.asarray(rng.normal(size=3))
        ctx.case({"n": n, "x": x}, nontrivial=n > 1)
        for k, f, g in (("forward", s.forward, c.forward), ("reverse", s.reverse, c.reverse)):
            okc, r = ctx.call("scan:" + k, f, x, ld0)
            if okc:
                w = jax.jit(g)(x, ld0)
                ctx.close(N(r[0]), N(w[0]), f"scan:{k}:value", atol=1e-10, rtol=1e-10)
                ctx.close(N(r[1]), N(w[1]), f"scan:{k}:ld", atol=1e-10, rtol=1e-10)
                ctx.saw("scans")
        okc, r = ctx.call("scan:forward", s.forward, x, ld0, unused=1.0)
        if okc:
            ctx.ok(np.array_equal(N(r[0]), N(s.forward(x, ld0)[0])), "scan:kwargs")


class Steered(bijx.Bijection):
    """Conditional scalar map: call-time arguments t and s (either may be absent) steer scale and offset."""

    def __init__(self, w):
        self.w = nnx.Param(jnp.asarray(w))

    def coef(self, t=None, s=None, **kw):
        return self.w[...] + (0.3 if t is None else t), 0.1 if s is None else s

    def forward(self, x, ld, **kw):
        a, b = self.coef(**kw)
        return x * jnp.exp(a) + b, ld - a * 2

    def reverse(self, x, ld, **kw):
        a, b = self.coef(**kw)
        return (x - b) * jnp.exp(-a), ld + a * 2


class SteeredApply(bijx.ApplyBijection):
    """The same written with the unified method."""

    def __init__(self, w):
        self.inner = Steered(w)

    def apply(self, x, ld, reverse=False, **kw):
        return (self.inner.reverse if reverse else self.inner.forward)(x, ld, **kw)


def steered(ctx):
    """Call-time arguments reach every elementary step, in both directions, through every wrapper."""
    rng = ctx.rng
    wrappers = {
        "plain": lambda b: b, "inverse": lambda b: b.invert(), "Inverse": bijx.Inverse, "frozen": bijx.Frozen,
        "cond-false": lambda b: bijx.CondInverse(b, False), "cond-true": lambda b: bijx.CondInverse(b, True),
        "chain": bijx.Chain, "frozen-inverse": lambda b: bijx.Frozen(b).invert(), "cond-flip": lambda b: bijx.CondInverse(b, True).invert(),
        "inverse-chain": lambda b: bijx.Chain(b).invert(),
    }
    for rep in range(ctx.n(1, 8)):
        for wn, wr in wrappers.items():
            ws = rng.normal(size=2) * 0.3
            kind = (Steered, SteeredApply)[int(rng.integers(2))]
            b = bijx.Chain(wr(kind(ws[0])), wr(kind(ws[1])))
            # expected elementary directions for the forward call
            back = wn in ("inverse", "Inverse", "cond-true", "frozen-inverse", "inverse-chain")
            x, ld0 = rng.normal(size=(3, 2)), rng.normal(size=3)
            for kw in ({}, {"t": float(rng.normal())}, {"s": 0.7}, {"t": -0.4, "s": float(rng.normal()), "other": 1.0}, {"t": None, "s": 0.2}):
                ctx.case({"wrapper": wn, "kind": kind.__name__, "kw": kw, "x": x}, sig=(wn, rep, str(kw)))
                t, s = kw.get("t"), kw.get("s")
                a, o = ws + (0.3 if t is None else t), 0.1 if s is None else s

                def ref(x, l, rev):
                    for i in ((1, 0) if rev else (0, 1)):
                        x, l = ((x - o) * np.exp(-a[i]), l + 2 * a[i]) if rev != back else (x * np.exp(a[i]) + o, l - 2 * a[i])
                    return x, l

                for nm, f, rev in (("forward", b.forward, False), ("reverse", b.reverse, True), ("call", b, False),
                                   ("jit", jax.jit(b.reverse), True)):
                    if nm == "jit" and rng.integers(3):
                        continue
                    okc, r = ctx.call(f"steered:{nm}", f, jnp.asarray(x), jnp.asarray(ld0), **kw)
                    if okc:
                        w = ref(x, ld0, rev)
                        ctx.close(N(r[0]), w[0], f"steered:{nm}:value", atol=1e-11, rtol=1e-11, wrapper=wn)
                        ctx.close(N(r[1]), w[1], f"steered:{nm}:density", atol=1e-11, rtol=1e-11, wrapper=wn)
                        ctx.saw("steered")
        # scan stacks and per-step arguments
        n = int(rng.integers(2, 5))
        ws = rng.normal(size=n) * 0.3
        sc, ch = bijx.ScanChain(Steered(ws)), bijx.Chain(*[Steered(w) for w in ws])
        kw = {"t": jnp.asarray(rng.normal()), "s": float(rng.normal())}
        al = [{"s": float(rng.normal())} for _ in range(n)]
        x, ld0 = jnp.asarray(rng.normal(size=3)), jnp.asarray(0.2)
        ctx.case({"scan": n, "kw": {k: float(v) for k, v in kw.items()}, "al": al})
        for rev in (False, True):
            d = "reverse" if rev else "forward"
            w = (np.asarray(x), 0.2)
            for i in range(n)[:: -1 if rev else 1]:
                a = ws[i] + float(kw["t"])
                w = ((w[0] - kw["s"]) * np.exp(-a), w[1] + 2 * a) if rev else (w[0] * np.exp(a) + kw["s"], w[1] - 2 * a)
            for tag, f in (("scan", getattr(sc, d)), ("chain", getattr(ch, d)), ("scan-jit", jax.jit(getattr(sc, d)))):
                okc, r = ctx.call(f"steered:{tag}", f, x, ld0, **kw)
                if okc:
                    ctx.close(N(r[0]), w[0], f"steered:{tag}:value", atol=1e-11, rtol=1e-11)
                    ctx.close(N(r[1]), np.asarray(w[1]), f"steered:{tag}:density", atol=1e-11, rtol=1e-11)
                    ctx.saw("steered")
            w = (np.asarray(x), 0.2)
            for i in range(n)[:: -1 if rev else 1]:
                a, o = ws[i] + 0.5, al[i]["s"]
                w = ((w[0] - o) * np.exp(-a), w[1] + 2 * a) if rev else (w[0] * np.exp(a) + o, w[1] - 2 * a)
            okc, r = ctx.call("steered:arg-list", getattr(ch, d), x, ld0, arg_list=al, t=0.5)
            if okc:
                ctx.close(N(r[0]), w[0], "steered:arg-list:value", atol=1e-11, rtol=1e-11)
                ctx.close(N(r[1]), np.asarray(w[1]), "steered:arg-list:density", atol=1e-11, rtol=1e-11)


def cond_inverse(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(4, 30)):
        b = perturb(bijx.Chain(bijx.AffineLinear(rngs=nnx.Rngs(rep)), bijx.SinhConjugation(rngs=nnx.Rngs(rep + 1))), rng, 0.3)
        x, ld0 = jnp.asarray(rng.normal(size=(3, 2))), jnp.asarray(rng.normal(size=3))
        F, R = b.forward(x, ld0), b.reverse(x, ld0)
        for flag in (True, False):
            ctx.case({"flag": flag, "x": x})
            okc, c = ctx.call("cond", bijx.CondInverse, b, flag)
            if not okc:
                continue
            fw, rv = (R, F) if flag else (F, R)
            for k, fn, w in (("forward", c.forward, fw), ("reverse", c.reverse, rv), ("jit", jax.jit(c.forward), fw)):
                okc, r = ctx.call("cond:" + k, fn, x, ld0)
                if okc:
                    ctx.close(N(r[0]), N(w[0]), f"cond:{k}", atol=1e-12, rtol=1e-12)
                    ctx.close(N(r[1]), N(w[1]), f"cond:{k}", atol=1e-12, rtol=1e-12)
                    ctx.saw("cond")
            okc, ci = ctx.call("cond:invert", lambda: c.invert())
            if okc:
                okc, r = ctx.call("cond:invert", ci.forward, x, ld0)
                if okc:
                    ctx.close(N(r[0]), N(rv[0]), "cond:invert", atol=1e-12, rtol=1e-12)
                okc, r = ctx.call("cond:invert", ci.invert().forward, x, ld0)
                if okc:
                    ctx.close(N(r[0]), N(fw[0]), "cond:double-invert", atol=1e-12, rtol=1e-12)
        # a traced flag
        okc, r = ctx.call("cond:traced", jax.jit(jax.vmap(lambda fl: bijx.CondInverse(b, fl).forward(x, ld0))), jnp.asarray([True, False]))
        if okc:
            ctx.close(N(r[0]), np.stack([N(R[0]), N(F[0])]), "cond:traced", atol=1e-12, rtol=1e-12)
            ctx.close(N(r[1]), np.stack([N(R[1]), N(F[1])]), "cond:traced", atol=1e-12, rtol=1e-12)


@unit(PROP)
def arbitrary_event_chains(ctx):
    """Composition is agnostic to what flows through it (pytrees, changing event shapes)."""
    rng = ctx.rng
    for rep in range(ctx.n(6, 40)):
        m = bijx.BinaryMask.from_boolean_mask(jnp.asarray(rng.permutation(6) < 3))
        swap = bijx.MetaLayer(lambda t: (t[1], t[0]), lambda t: (t[1], t[0]))
        c = bijx.Chain(bijx.Reshape((2, 3), (6,)), m, swap, m.invert(), bijx.AffineLinear((6,), (6,), rngs=nnx.Rngs(rep)))
        x, ld0 = jnp.asarray(rng.normal(size=(2, 2, 3))), jnp.asarray(rng.normal(size=2))
        ctx.case({"mask": N(m.boolean_mask).astype(int).tolist(), "x": x})
        okc, r = ctx.call("pytree", c.forward, x, ld0, extra=1)
        if okc:
            xf = N(x).reshape(2, 6)
            p, s = N(m.split(jnp.asarray(xf))[0]), N(m.split(jnp.asarray(xf))[1])
            w = c.bijections[4].forward(m.merge(jnp.asarray(s), jnp.asarray(p)), ld0)
            ctx.close(N(r[0]), N(w[0]), "pytree:value", atol=1e-12, rtol=1e-12)
            okc, q = ctx.call("pytree", c.reverse, *r)
            if okc:
                ctx.close(N(q[0]), N(x), "pytree:roundtrip", atol=1e-12, rtol=1e-12)
                ctx.close(N(q[1]), N(ld0), "pytree:roundtrip", atol=1e-12, rtol=1e-12)


for _f, _n in ((chains, 3), (scan, 2), (cond_inverse, 2), (steered, 3)):
    for _i in range(_n):
        unit(PROP, f"{_f.__name__}-{_i}")(_f)
