"""C09: parameter representations of a module template are interchangeable."""

from vlib.core import unit
from vlib.jx import *

PROP = "C09"
RULE = (
    "templates built from random (nested) modules and bare states x flat-array/list/dict/state parameter representations "
    "x parameter batch shapes; oracle rebuilds the module by hand with the same leaves and loops over the batch in "
    "Python; non-trivial = template has >= 2 parameter leaves or a batch axis"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"representations": 100, "batched": 60, "roundtrips": 20}


class Odd(nnx.Module):
    """Template mixing parameter ranks, constants and nested modules."""

    def __init__(self, rng):
        self.b = nnx.Param(jnp.asarray(rng.normal(size=(2, 3))))
        self.a = nnx.Param(jnp.asarray(rng.normal()))
        self.c = bijx.Const(jnp.asarray(rng.normal(size=3)))
        self.cube = nnx.Param(jnp.asarray(rng.normal(size=(2, 3, 2))))
        self.sub = Sub(rng)
        self.label = "odd"

    def f(self, x, y, table=None, scale=1.0):
        y = y if table is None else y + (table * jnp.arange(table.shape[0])).sum()
        out = scale * (self.b[...] @ x) * self.a[...] + self.sub.w[...] @ jnp.asarray([1.0, 2, 3, 4]) * y + self.c[...][:2]
        return out + jnp.einsum("ijk,j,k->i", self.cube[...], x, y), (x * self.sub.v[...]).sum()


class Sub(nnx.Module):
    def __init__(self, rng):
        self.w = nnx.Param(jnp.asarray(rng.normal(size=(4,))))
        self.v = nnx.Param(jnp.asarray(rng.normal(size=(1,))))
        self.stat = nnx.BatchStat(jnp.asarray(rng.normal()))


def template_modules(rng):
    r = lambda: nnx.Rngs(int(rng.integers(2**31)))
    return [
        ("odd", Odd(rng)),
        ("affine", bijx.AffineLinear(rngs=r())),
        ("spline", bijx.MonotoneRQSpline(5, (), rngs=r())),
        ("chain", bijx.Chain(bijx.AffineLinear(rngs=r()), bijx.CubicRational(rngs=r()), bijx.Tanh())),
        ("mlp", bijx.nn.nets.MLP(in_features=3, out_features=2, hidden_features=[4], rngs=r())),
        ("vec", bijx.AffineLinear((3,), (3,), rngs=r())),
    ]


def leaves_of(mod):
    st = nnx.state(mod, nnx.Param)
    return jax.tree.leaves(st)


def by_hand(mod, leaves):
    """Independent reconstruction: write leaf values into a clone, in flattening order."""
    m = nnx.clone(mod)
    st = nnx.state(m, nnx.Param)
    td = jax.tree.structure(st)
    nnx.update(m, jax.tree.unflatten(td, [jnp.asarray(v) for v in leaves]))
    return m


def same_state(a, b):
    la, lb = jax.tree.leaves(nnx.state(a)), jax.tree.leaves(nnx.state(b))
    return len(la) == len(lb) and all(np.array_equal(N(x), N(y)) for x, y in zip(la, lb))


@unit(PROP)
def representations(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(6, 30)):
        for name, mod in template_modules(rng):
            k = f"recon[{name}]"
            okc, t = ctx.call(k, bijx.ModuleReconstructor, mod)
            if not okc:
                continue
            lv = [N(v) for v in leaves_of(mod)]
            sizes = [v.size for v in lv]
            ctx.case({"template": name, "shapes": [v.shape for v in lv], "rep": rep}, nontrivial=len(lv) > 1)
            ctx.ok(int(t.params_total_size) == sum(sizes), k + ":total-size", got=int(t.params_total_size), want=sum(sizes))
            ctx.ok(list(map(tuple, t.params_shapes)) == [v.shape for v in lv], k + ":shapes")
            ctx.ok([int(s) for s in t.params_sizes] == sizes, k + ":sizes")
            new = [rng.normal(size=v.shape) for v in lv]
            want = by_hand(mod, new)
            flat = np.concatenate([v.ravel() for v in new])
            st = nnx.state(want, nnx.Param)
            dct = nnx.to_pure_dict(st)
            reprs = {"array": jnp.asarray(flat), "nparray": flat, "list": [jnp.asarray(v) for v in new], "dict": dct, "state": st}
            for rn, rv in reprs.items():
                okc, got = ctx.call(f"{k}:{rn}", t.from_params, rv)
                if okc:
                    ctx.ok(type(got) is type(mod) and same_state(got, want), f"{k}:{rn}:value")
                    ctx.saw("representations")
            ctx.ok(jax.tree.map(jnp.shape, t.params_dict) == jax.tree.map(jnp.shape, dct), k + ":dict-shapes")
            ctx.ok(t.params_shape_dict == jax.tree.map(jnp.shape, dct), k + ":shape-dict")
            ctx.ok(list(t.params_array_splits) == list(np.cumsum(sizes)[:-1]), k + ":splits")
            ctx.ok(list(t.params_dtypes) == [v.dtype for v in lv] and not t.has_complex_params, k + ":dtypes")
            # another variable kind can be the parameterised one; the rest stays as it is
            if name == "odd":
                for flt in (bijx.Const, nnx.BatchStat, (nnx.Param, bijx.Const)):
                    okc, tf = ctx.call(k + ":filter", bijx.ModuleReconstructor, mod, flt)
                    if not okc:
                        continue
                    sel, other = nnx.split_state(nnx.state(mod), flt, ...)
                    ls, td = jax.tree.flatten(sel)
                    nw = [rng.normal(size=v.shape) for v in ls]
                    wantf = nnx.clone(mod)
                    nnx.update(wantf, jax.tree.unflatten(td, [jnp.asarray(v) for v in nw]))
                    ctx.ok(int(tf.params_total_size) == sum(v.size for v in nw), k + ":filter:size")
                    for rv in (jnp.asarray(np.concatenate([v.ravel() for v in nw])), [jnp.asarray(v) for v in nw]):
                        okc, got = ctx.call(k + ":filter", tf.from_params, rv)
                        if okc:
                            ctx.ok(same_state(got, wantf), k + ":filter:value")
            # the template is unaffected and reusable
            okc, got = ctx.call(f"{k}:reuse", t.from_params, jnp.asarray(np.concatenate([v.ravel() for v in lv])))
            if okc:
                ctx.ok(same_state(got, mod), k + ":reuse")
                ctx.saw("roundtrips")
            # bare-state template
            stt = nnx.state(mod)
            okc, t2 = ctx.call(k + ":state-template", bijx.ModuleReconstructor, stt)
            if okc:
                okc, got = ctx.call(k + ":state-template", t2.from_params, jnp.asarray(flat))
                if okc:
                    g, w = jax.tree.leaves(got), jax.tree.leaves(nnx.state(want))
                    ctx.ok(len(g) == len(w) and all(np.array_equal(N(x), N(y)) for x, y in zip(g, w)), k + ":state-template:value")
            # jit/pytree transparency: the template survives flattening
            tt = jax.tree.unflatten(jax.tree.structure(t), jax.tree.leaves(t))
            okc, got = ctx.call(k + ":pytree", tt.from_params, jnp.asarray(flat))
            if okc:
                ctx.ok(same_state(got, want), k + ":pytree")


def calls(rng, name):
    """(method, per-item inputs builder, input ranks, kwargs)"""
    if name == "odd" and rng.integers(2):
        # positional arguments beyond the declared ranks are shared by all items
        table = jnp.asarray(rng.normal(size=int(rng.integers(1, 5))))
        return "f", [lambda b: rng.normal(size=b + (3,)), lambda b: rng.normal(size=b + (2,))], (1, 1), {"scale": 0.7, "+": (table,)}
    if name == "odd":
        return "f", [lambda b: rng.normal(size=b + (3,)), lambda b: rng.normal(size=b + (2,))], (1, 1), {"scale": 0.7}
    if name == "mlp":
        return "__call__", [lambda b: rng.normal(size=b + (3,))], (1,), {}
    ev = (3,) if name == "vec" else ()
    dom = (lambda s: rng.uniform(0.05, 0.95, size=s)) if name == "spline" else (lambda s: rng.normal(size=s))
    return "forward", [lambda b: dom(b + ev), lambda b: rng.normal(size=b)], (len(ev), 0), {}


def batched(ctx, names):
    rng = ctx.rng
    for rep in range(ctx.n(6, 30)):
        for name, mod in template_modules(rng):
            if name not in names:
                continue
            t = bijx.ModuleReconstructor(mod)
            lv = [N(v) for v in leaves_of(mod)]
            pb, xb = [((), (3,)), ((3,), ()), ((3,), (3,)), ((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((1, 3), (2, 1)), ((), ())][
                int(rng.integers(8))]
            if rep == 0:
                pb, xb = (2, 3), (2, 3)
            new = [rng.normal(size=pb + v.shape) for v in lv]
            flat = np.concatenate([v.reshape(pb + (-1,)) for v in new], -1)
            meth, mk, ranks, kw = calls(rng, name)
            ins = [f(xb) for f in mk]
            kw = dict(kw)
            more = kw.pop("+", ())
            full = np.broadcast_shapes(pb, xb)
            k = f"autovmap[{name}]"
            ctx.case({"template": name, "param_batch": pb, "input_batch": xb, "rep": rep}, count=max(1, int(np.prod(full))))
            one = jax.jit(lambda leaves, args: getattr(by_hand(mod, leaves), meth)(*args, *more, **kw))
            want = None
            for ix in np.ndindex(*full):
                pi = tuple(i if d > 1 else 0 for i, d in zip(ix[len(full) - len(pb):], pb))
                xi = tuple(i if d > 1 else 0 for i, d in zip(ix[len(full) - len(xb):], xb))
                o = [N(v) for v in jax.tree.leaves(one([v[pi] for v in new], [a[xi] for a in ins]))]
                if want is None:
                    want = [np.empty(full + v.shape) for v in o]
                for w, v in zip(want, o):
                    w[ix] = v
            td = jax.tree.structure(nnx.state(mod, nnx.Param))
            stt = jax.tree.unflatten(td, [jnp.asarray(v) for v in new])
            for rn, rv in {"array": jnp.asarray(flat), "list": [jnp.asarray(v) for v in new],
                           "dict": nnx.to_pure_dict(stt), "state": stt}.items():
                okc, av = ctx.call(f"{k}:{rn}", t.from_params, rv, autovmap=True)
                if not okc:
                    continue
                if name == "odd":
                    ctx.ok(av.label == "odd", f"{k}:attribute")
                fn = (lambda *a, **q: av("__call__", *a, **q)) if meth == "__call__" else getattr(av, meth)
                okc, got = ctx.call(f"{k}:{rn}", fn, *[jnp.asarray(a) for a in ins], *more, input_ranks=ranks, **kw)
                if okc:
                    g = [N(v) for v in jax.tree.leaves(got)]
                    for a, w in zip(g, want):
                        ctx.close(a, w, f"{k}:{rn}:value", atol=1e-10, rtol=1e-10)
                    ctx.saw("batched", max(1, int(np.prod(full))))


for _n in ("odd", "affine", "spline", "chain", "mlp", "vec"):
    unit(PROP, f"batched-{_n}")(lambda ctx, _n=_n: batched(ctx, (_n,)))
