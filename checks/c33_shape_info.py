"""C33: ShapeInfo infers the one consistent split of event axes and survives jax transformations."""

from vlib.core import unit
from vlib.jx import *
from bijx.utils import ShapeInfo

PROP = "C33"
RULE = (
    "space and channel shapes of 0..3 axes each, lengths 1..4, every combination of specifications that determines some of the six "
    "attributes, lists or tuples, batch shapes of 0..3 axes including empty; oracle is a fixpoint inference written over sets of known "
    "facts; flattening compared with explicit reshapes; non-trivial = at least one event axis"
)
ASSUMPTIONS = []
MIN_COUNTERS = {"inferences": 120, "arrays": 60, "pytrees": 20}
ATTRS = ("event_shape", "space_shape", "channel_shape", "event_dim", "space_dim", "channel_dim")


def infer(known):
    """Fixpoint of: dim = len(shape); e = s + c (dims); event = space + channel; event and dims give the parts."""
    k = dict(known)
    while True:
        before = dict(k)
        for p in ("event", "space", "channel"):
            if k.get(p + "_shape") is not None:
                k[p + "_dim"] = len(k[p + "_shape"])
        e, s, c = (k.get(p + "_dim") for p in ("event", "space", "channel"))
        if s is not None and c is not None:
            k["event_dim"] = s + c
        if e is not None and s is not None:
            k["channel_dim"] = e - s
        if e is not None and c is not None:
            k["space_dim"] = e - c
        if k.get("space_shape") is not None and k.get("channel_shape") is not None:
            k["event_shape"] = k["space_shape"] + k["channel_shape"]
        if k.get("event_shape") is not None and k.get("space_dim") is not None:
            k["space_shape"] = k["event_shape"][: k["space_dim"]]
            k["channel_shape"] = k["event_shape"][k["space_dim"] :]
        if k == before:
            return {a: k.get(a) for a in ATTRS}


def attrs(i):
    return {a: getattr(i, a) for a in ATTRS}


def draw(rng):
    s = tuple(int(v) for v in rng.integers(1, 5, size=rng.integers(0, 4)))
    c = tuple(int(v) for v in rng.integers(1, 5, size=rng.integers(0, 4)))
    full = {"event_shape": s + c, "space_shape": s, "channel_shape": c, "event_dim": len(s + c), "space_dim": len(s), "channel_dim": len(c)}
    return s, c, full


@unit(PROP)
def inference(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(4, 16)):
        s, c, full = draw(rng)
        if rep == 0:
            s, c = (3, 2), ()
        if rep == 1:
            s, c = (), (2, 4)
        full = {"event_shape": s + c, "space_shape": s, "channel_shape": c, "event_dim": len(s + c), "space_dim": len(s), "channel_dim": len(c)}
        for mask in range(64):
            spec = {a: full[a] for j, a in enumerate(ATTRS) if mask >> j & 1}
            given = {a: (list(v) if isinstance(v, tuple) and (mask + rep) % 3 == 0 else v) for a, v in spec.items()}
            ctx.case({"given": given}, sig=(s, c, mask), nontrivial=bool(s + c) and mask > 0)
            ctx.saw("inferences")
            okc, i = ctx.call("ShapeInfo", ShapeInfo, **given)
            if not okc:
                continue
            want = infer(spec)
            ctx.ok(attrs(i) == want, "ShapeInfo:inference", got=attrs(i), want=want)
            if all(want[a] is not None for a in ATTRS):
                e = len(s + c)
                ctx.ok(i.event_axes == tuple(range(-e, 0)), "event_axes", got=i.event_axes)
                ctx.ok(i.space_axes == tuple(range(-e, -len(c))), "space_axes", got=i.space_axes)
                ctx.ok(i.channel_axes == tuple(range(-len(c), 0)), "channel_axes", got=i.channel_axes)
                sizes = tuple(int(v) for v in (i.event_size, i.space_size, i.channel_size))
                ctx.ok(sizes == (int(np.prod(s + c)), int(np.prod(s)), int(np.prod(c))), "sizes", got=sizes)


@unit(PROP)
def arrays(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(90, 300)):
        s, c, full = draw(rng)
        e = len(s + c)
        batch = [(), (3,), (2, 1), (0,), (2, 3, 1)][rep % 5]
        kinds = [
            {"event_shape": s + c, "space_dim": len(s)},
            {"event_dim": e, "channel_dim": len(c)},
            {"space_dim": len(s), "channel_dim": len(c)},
            {"space_shape": s, "channel_shape": c},
            {"space_shape": s, "channel_dim": len(c)},
        ]
        spec = kinds[rep % 5 if rep % 2 else int(rng.integers(5))]
        ctx.case({"spec": spec, "space": s, "channel": c, "batch": batch}, sig=(s, c, batch, tuple(spec)), nontrivial=e > 0)
        ctx.saw("arrays")
        info = ShapeInfo(**spec)
        before = attrs(info)
        x = rng.normal(size=batch + s + c)
        okc, r = ctx.call("process_event", info.process_event, x.shape)
        if okc:
            ctx.ok(tuple(r[0]) == batch and attrs(r[1]) == infer({"space_shape": s, "channel_shape": c}), "process_event", got=[r[0], attrs(r[1])])
        okc, r = ctx.call("process_and_flatten", info.process_and_flatten, jnp.asarray(x))
        if okc:
            ctx.close(N(r[0]), x.reshape(batch + (int(np.prod(s + c)),)), "process_and_flatten", atol=0)
            ctx.ok(tuple(r[1]) == batch, "process_and_flatten:batch", got=r[1])
            ctx.close(N(r[0]).reshape(tuple(r[1]) + tuple(r[2].event_shape)), x, "process_and_flatten:round-trip", atol=0)
        okc, r = ctx.call("process_and_canonicalize", info.process_and_canonicalize, jnp.asarray(x))
        if okc:
            ctx.close(N(r[0]), x.reshape((int(np.prod(batch)),) + s + (int(np.prod(c)),)), "process_and_canonicalize", atol=0)
            ctx.ok(tuple(r[1]) == batch, "process_and_canonicalize:batch", got=r[1])
        ctx.ok(attrs(info) == before, "process:mutates-info", before=before, after=attrs(info))
        if e and "event_shape" in spec and rep % 2:
            bad = list(s + c)
            bad[int(rng.integers(e))] += 1
            try:
                info.process_event(batch + tuple(bad))
                ctx.violate("process_event:mismatch-accepted", got=batch + tuple(bad))
            except AssertionError:
                pass
    for spec in ({}, {"space_dim": 2}, {"channel_shape": (3,)}):
        try:
            ShapeInfo(**spec).process_event((4, 4, 3))
            ctx.violate("process_event:unknown-event-accepted", spec=spec)
        except RuntimeError:
            pass


@unit(PROP)
def pytrees(ctx):
    rng = ctx.rng
    seen = {}
    for rep in range(ctx.n(24, 80)):
        s, c, full = draw(rng)
        mask = int(rng.integers(64))
        spec = {a: full[a] for j, a in enumerate(ATTRS) if mask >> j & 1}
        a, b = ShapeInfo(**spec), ShapeInfo(**infer(spec))
        ctx.case({"spec": spec}, sig=(s, c, mask), nontrivial=bool(spec))
        ctx.saw("pytrees")
        okc, h = ctx.call("hash", lambda: (hash(a), hash(b)))
        if okc:
            ctx.ok(a == b and h[0] == h[1], "equality-and-hash", a=attrs(a), b=attrs(b))
        key = tuple(attrs(a).values())
        for k2, o in seen.items():
            ctx.ok((o == a) == (k2 == key), "equality", one=k2, other=key)
        seen[key] = a
        ctx.ok(a != full and not (a == None) and a != 3, "equality-with-others")  # noqa: E711
        leaves, tree = jax.tree_util.tree_flatten(a)
        ctx.ok(leaves == [] and jax.tree_util.tree_unflatten(tree, leaves) == a, "pytree-round-trip")
        x = jnp.asarray(rng.normal(size=(2,) + s + c))
        full_info = ShapeInfo(event_shape=s + c, space_dim=len(s))
        okc, r = ctx.call("jit", jax.jit(lambda i, v: i.process_and_flatten(v)[0]), full_info, x)
        if okc:
            ctx.close(N(r), N(x).reshape(2, -1), "jit", atol=0)
        okc, r = ctx.call("jit-static", jax.jit(lambda i, v: (i, i.process_and_canonicalize(v)[0]), static_argnums=0), full_info, x)
        if okc:
            ctx.ok(r[0] == full_info, "jit:returned-info", got=r[0])
        okc, r = ctx.call("vmap", jax.vmap(lambda i, v: i.process_and_flatten(v)[0], in_axes=(None, 0)), full_info, x)
        if okc:
            ctx.close(N(r), N(x).reshape(2, -1), "vmap", atol=0)
