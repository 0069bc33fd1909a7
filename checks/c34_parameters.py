"""C34: parameter specifications, freezing and noise act on exactly the parameters they name."""

from vlib.core import unit
from vlib.jx import *
from vlib.stats import ks, phi
from bijx import utils

PROP = "C34"
RULE = (
    "random modules mixing trainable, constant, custom and 'frozen' variables at several depths; every kind of parameter specification; "
    "optimiser steps and noise with every filter; oracle is an explicit walk over variable paths; noise law by KS at level 1e-10; "
    "non-trivial = at least two kinds of variables"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"specs": 40, "shapes": 30, "splits": 8, "noise": 10, "optimised": 3}


class Special(nnx.Param):
    pass


class Block(nnx.Module):
    def __init__(self, rng, depth=0):
        f = lambda *s: jnp.asarray(rng.normal(size=s))
        self.w = nnx.Param(f(3))
        self.special = Special(f(2, 2))
        self.c = bijx.Const(f(2))
        self.frozen_looking = nnx.Param(f(2))
        self.other = nnx.Variable(f(2))
        self.scalar = nnx.Param(f())
        self.singleton = Special(f(1, 1))
        if depth < 2:
            self.frozen = Block(rng, 5) if depth == 1 else nnx.Param(f(4))
            self.child = Block(rng, depth + 1)
            self.children = nnx.List([Block(rng, 5)])


def walk(mod):
    """{path: (variable type, array)} by explicit state flattening."""
    return {tuple(map(str, p)): (type(v), N(v[...])) for p, v in nnx.to_flat_state(nnx.state(mod))}


@unit(PROP)
def specs(ctx):
    rng = ctx.rng
    for i in range(ctx.n(50, 200)):
        kind = ["variable", "jax", "numpy", "tuple", "list"][i % 5]
        sh = tuple(int(v) for v in rng.integers(1, 5, size=rng.integers(0, 4)))
        a = rng.normal(size=sh)
        cls = [nnx.Param, bijx.Const, Special][int(rng.integers(3))]
        icls = [nnx.Param, bijx.Const, Special][int(rng.integers(3))]
        seen = []

        def init(key, shape):
            seen.append((key, tuple(shape)))
            return jax.random.normal(key, shape) * 3 + 1

        seed = int(rng.integers(1000))
        rngs = nnx.Rngs(params=seed)
        ctx.case({"kind": kind, "shape": sh, "cls": cls.__name__, "init_cls": icls.__name__}, sig=(kind, sh, cls.__name__, icls.__name__))
        ctx.saw("specs")
        x = {"variable": icls(jnp.asarray(a)), "jax": jnp.asarray(a), "numpy": a, "tuple": sh, "list": list(sh)}[kind]
        default = i % 10 in (1, 3) or i % 10 == 8 and False
        kw = {} if kind in ("variable",) and i % 2 else {"cls": cls, "init_fn": init, "init_cls": icls, "rngs": rngs}
        if default:
            kw = {"rngs": rngs}
        okc, v = ctx.call("default_wrap", bijx.utils.default_wrap, x, **kw)
        if not okc:
            continue
        if kind == "variable":
            ctx.ok(v is x, "default_wrap:variable-kept")
        elif kind in ("jax", "numpy"):
            ctx.ok(type(v) is (nnx.Param if default else cls), "default_wrap:array-class", got=type(v).__name__)
            ctx.close(N(v[...]), a, "default_wrap:array-value", atol=0)
            ctx.ok(not seen, "default_wrap:init-called-for-array")
        else:
            ctx.ok(type(v) is (nnx.Param if default else icls), "default_wrap:init-class", got=type(v).__name__)
            ctx.ok(N(v[...]).shape == sh, "default_wrap:init-shape", got=N(v[...]).shape)
            if not default and ctx.ok(len(seen) == 1 and seen[0][1] == sh, "default_wrap:init-arguments", got=seen):
                key = nnx.Rngs(params=seed).params()
                ctx.close(N(v[...]), N(jax.random.normal(key, sh) * 3 + 1), "default_wrap:params-stream", atol=0)
                w = bijx.utils.default_wrap(x, **kw)
                ctx.ok(not sh or np.abs(N(w[...]) - N(v[...])).max() > 0, "default_wrap:repeated-randomness")
    # arrays are kept as they are: exactly, with their type
    for a in (
        np.array([2**60 + 1, -(2**53) - 1]),
        np.array([True, False]),
        np.array([1 + 2j, -0.5j]),
        np.array([1.5, 2.5], np.float32),
        np.array(3.0),
        np.zeros((0, 2)),
        np.array([np.inf, -np.inf, 0.0]),
        np.arange(6, dtype=np.int32).reshape(2, 3),
    ):
        for x in (a, jnp.asarray(a)):
            ctx.case({"kind": type(x).__name__, "dtype": str(a.dtype), "shape": a.shape}, sig=(type(x).__name__, str(a.dtype), a.shape))
            ctx.saw("specs")
            okc, v = ctx.call("default_wrap", bijx.utils.default_wrap, x, rngs=nnx.Rngs(0))
            if okc:
                g = np.asarray(v[...])
                ctx.ok(g.dtype == a.dtype and g.shape == a.shape and np.array_equal(g, a), "default_wrap:array-kept", got=g, want=a)
    for bad in (1.0, "abc", None, (2, 0), (2, -1), (2.5,), {"a": 1}, object()):
        try:
            r = bijx.utils.default_wrap(bad, rngs=nnx.Rngs(0))
            ctx.violate("default_wrap:unsupported-accepted", spec=repr(bad), got=repr(r))
        except ValueError:
            pass


@unit(PROP)
def shapes(ctx):
    rng = ctx.rng
    for i in range(ctx.n(40, 100)):
        vals = [int(v) for v in rng.integers(-1, 5, size=rng.integers(0, 5))]
        if i % 4 == 1:
            vals = [v if v % 2 else [v, 2.5, "a", None][i % 3 + 1] for v in vals]
        box = [tuple, list, np.array, set][i % 4 if i % 8 > 3 else i % 2]
        try:
            x = box(vals)
        except Exception:
            continue
        ctx.case({"value": repr(x)}, sig=repr(x))
        ctx.saw("shapes")
        want = box in (tuple, list) and all(type(v) is int and v > 0 for v in vals)
        okc, got = ctx.call("is_shape", utils.is_shape, x)
        if okc:
            ctx.ok(bool(got) == want, "is_shape", got=got, want=want)


@unit(PROP)
def frozen(ctx):
    rng = ctx.rng
    for i in range(ctx.n(4, 12)):
        m = Block(rng, i % 2)
        flat = walk(m)
        isf = {p: issubclass(t, bijx.Const) or "frozen" in p for p, (t, _) in flat.items()}
        ctx.case({"depth": i % 2, "paths": sorted(map("/".join, flat))}, count=len(flat), sig=i)
        ctx.saw("splits", len(flat))
        okc, r = ctx.call("FrozenFilter", lambda: nnx.split(m, bijx.FrozenFilter, ...))
        if not okc:
            continue
        got = {tuple(map(str, p)) for p, _ in nnx.to_flat_state(r[1])}
        ctx.ok(got == {p for p, f in isf.items() if f}, "FrozenFilter:selection", got=sorted(got), want=sorted(p for p, f in isf.items() if f))
        # one optimiser step moves trainable, unfrozen parameters only
        import optax

        wrt = nnx.All(nnx.Param, nnx.Not(bijx.FrozenFilter))
        opt = nnx.Optimizer(m, optax.sgd(0.1), wrt=wrt)
        loss = lambda q: sum((v**2).sum() for v in jax.tree.leaves(nnx.state(q)))
        grads = nnx.grad(loss, argnums=nnx.DiffState(0, wrt))(m)
        opt.update(m, grads)
        ctx.saw("optimised")
        after = walk(m)
        for p, (t, a) in flat.items():
            want = a * 0.8 if issubclass(t, nnx.Param) and not isf[p] else a
            ctx.close(after[p][1], want, "optimiser:frozen" if isf[p] else "optimiser:free", atol=1e-12, path=p)


@unit(PROP)
def frozen_layers(ctx):
    """Frozen(bijection) keeps the map and hides its parameters from FrozenFilter-aware training."""
    rng = ctx.rng
    for i in range(ctx.n(3, 10)):
        n = int(rng.integers(1, 4))
        inner = bijx.AffineLinear(jnp.asarray(rng.uniform(0.5, 2, size=n)), jnp.asarray(rng.normal(size=n)))
        chain = bijx.Chain(bijx.Frozen(inner), bijx.AffineLinear(jnp.asarray(rng.uniform(0.5, 2, size=n)), jnp.asarray(rng.normal(size=n))))
        ctx.case({"frozen-layer": n}, sig=("layer", n, i))
        ctx.saw("optimised")
        okc, r = ctx.call("split", lambda: nnx.split(chain, bijx.FrozenFilter, ...))
        if not okc:
            continue
        size = lambda st: sum(np.size(v) for v in jax.tree.leaves(st))
        total = size(nnx.state(inner))
        ctx.ok(size(r[1]) == total, "Frozen:selected", got=size(r[1]), want=total)
        ctx.ok(size(r[2]) == total, "Frozen:rest", got=size(r[2]), want=total)


@unit(PROP)
def noise(ctx):
    rng = ctx.rng
    filts = [(), (nnx.Param,), (bijx.Const,), (Special,), (Special, bijx.Const), (bijx.FrozenFilter,), (nnx.Not(bijx.FrozenFilter),), (nnx.Variable,)]
    match = [
        lambda p, t: issubclass(t, nnx.Param),
        lambda p, t: issubclass(t, nnx.Param),
        lambda p, t: issubclass(t, bijx.Const),
        lambda p, t: issubclass(t, Special),
        lambda p, t: issubclass(t, (Special, bijx.Const)),
        lambda p, t: issubclass(t, bijx.Const) or "frozen" in p,
        lambda p, t: not (issubclass(t, bijx.Const) or "frozen" in p),
        lambda p, t: True,
    ]
    for i in range(ctx.n(16, 64)):
        j = i % len(filts)
        m = Block(rng, i // 8 % 2)
        before = walk(m)
        scale = [0.3, 1, 0.0, -2.0][i % 4]
        args = () if scale == 1 and not filts[j] else (scale, *filts[j])
        kw = {}
        if i % 3 == 1:
            kw["noise_fn"] = lambda k, s: jax.random.uniform(k, s) + 5
        seed = int(rng.integers(1000))
        src = lambda: nnx.Rngs(seed) if i % 2 else jax.random.key(seed)
        ctx.case({"filter": j, "scale": scale, "custom": bool(kw), "rngs": bool(i % 2)}, count=len(before), sig=(j, scale, bool(kw), i % 2))
        ctx.saw("noise")
        okc, q = ctx.call("noise_model", bijx.utils.noise_model, src(), m, *args, **kw)
        if not okc:
            continue
        ctx.ok(type(q) is type(m) and q is not m, "noise_model:new-instance")
        now, got = walk(m), walk(q)
        for p in before:
            ctx.close(now[p][1], before[p][1], "noise_model:original-changed", atol=0)
        if not ctx.ok({p: t for p, (t, _) in got.items()} == {p: t for p, (t, _) in before.items()}, "noise_model:structure"):
            continue
        deltas = []
        for p, (t, a) in before.items():
            d = got[p][1] - a
            if not match[j](p, t):
                ctx.close(d, np.zeros_like(a), "noise_model:unselected-changed", atol=0, path=p)
            elif scale:
                z = d / scale
                deltas.append(z.ravel())
                if kw:
                    ctx.ok(np.all((z > 5 - 1e-9) & (z < 6 + 1e-9)), "noise_model:noise-function", got=z)
                else:
                    ctx.ok(np.all(z != 0) and np.all(np.abs(z) < 8), "noise_model:scale", got=z)
            else:
                ctx.close(d, np.zeros_like(a), "noise_model:zero-scale", atol=0)
        if deltas:
            z = np.concatenate(deltas)
            r = np.sort(z)
            ctx.ok(len(z) == 1 or np.diff(r).min() > 1e-9, "noise_model:repeated-noise", got=z)
        r2 = walk(bijx.utils.noise_model(src(), m, *args, **kw))
        for p in before:
            ctx.close(r2[p][1], got[p][1], "noise_model:pure", atol=0)


@unit(PROP)
def noise_law(ctx):
    rng = ctx.rng

    class Big(nnx.Module):
        def __init__(self):
            self.a = nnx.Param(jnp.zeros((3000,)))
            self.b = nnx.Param(jnp.zeros((50, 60)))

    for i in range(ctx.n(2, 6)):
        s = rng.uniform(0.1, 3)
        q = bijx.utils.noise_model(ctx.key(), Big(), s)
        z = np.concatenate([N(q.a[...]).ravel(), N(q.b[...]).ravel()]) / s
        ctx.case({"noise-law": s}, count=z.size, sig=("law", i))
        ctx.saw("noise")
        d, b = ks(phi(z))
        ctx.ok(d < b, "noise_model:law", distance=d, bound=b)
        a, c = z[:3000], z[3000:]
        ctx.ok(abs((a * c).mean()) < 7 / np.sqrt(3000), "noise_model:correlated-leaves", got=(a * c).mean())
