"""C08: masks partition the event and split/merge are exact inverses."""

import warnings

from vlib.core import unit
from vlib.jx import *

PROP = "C08"
RULE = (
    "random boolean masks and checkerboards of rank 1-4 (sizes up to 300), index-built masks, repeated flips, batch and "
    "channel dimensions, several dtypes; oracle is a pure-numpy model of the mask; non-trivial = both parts non-empty"
)
ASSUMPTIONS = ["index-built masks receive distinct indices"]
MIN_COUNTERS = {"masks": 100, "merges": 300, "checkers": 40}


def monitor(ctx, m, ref, k):
    """All observables of a mask against the boolean reference array."""
    rng = ctx.rng
    ev = ref.shape
    ctx.saw("masks")
    ctx.ok(np.array_equal(N(m.boolean_mask), ref), k + ":boolean")
    ctx.ok(tuple(m.event_shape) == ev, k + ":event_shape", got=m.event_shape)
    ctx.ok(int(m.count_primary) == ref.sum() and int(m.count_secondary) == (~ref).sum(), k + ":counts",
           got=[int(m.count_primary), int(m.count_secondary)])
    ctx.ok(tuple(int(c) for c in m.counts) == (ref.sum(), (~ref).sum()) and int(m.event_size) == ref.size, k + ":counts")
    cov = np.zeros(ev, int)
    np.add.at(cov, tuple(N(i) for i in m.primary_indices), 1)
    np.add.at(cov, tuple(N(i) for i in m.secondary_indices), 1)
    ctx.ok((cov == 1).all(), k + ":partition", cover=cov)
    for ch in (0, 1, 2):
        batch = [(), (3,), (2, 2), (1, 2)][int(rng.integers(4))]
        chs = tuple(int(v) for v in rng.integers(1, 4, size=ch))
        dt = [np.float64, np.float32, np.int32, np.complex128, bool][int(rng.integers(5))]
        x = (rng.normal(size=batch + ev + chs) * 5).astype(dt) if dt is not bool else rng.random(batch + ev + chs) < 0.5
        okc, r = ctx.call(k + ":split", m.split, jnp.asarray(x), ch)
        if not okc:
            continue
        p, s = r
        fl = x.reshape(batch + (-1,) + chs)
        pe = np.take(fl, np.flatnonzero(ref), axis=len(batch))
        ctx.ok(p.shape == batch + (int(ref.sum()),) + chs and s.shape == batch + (int((~ref).sum()),) + chs, k + ":split-shape",
               got=[p.shape, s.shape])
        srt = lambda a: np.sort(N(a).reshape(int(np.prod(batch)), -1), axis=-1)
        if p.shape == pe.shape:
            # the entries selected are those of the mask (order is not documented)
            ctx.ok(np.array_equal(srt(p), srt(pe)), k + ":split-values")
        # documented: splitting is indexing with mask.indices(); flipping swaps the two parts, entry for entry
        xi = N(jnp.asarray(x))
        ctx.ok(np.array_equal(N(p), xi[m.indices(ch)]) and np.array_equal(N(s), xi[m.indices(ch, primary=False)]), k + ":split-is-indexing")
        okc, fl2 = ctx.call(k + ":flip-split", lambda: (~m).split(jnp.asarray(x), ch))
        if okc:
            ctx.ok(np.array_equal(N(fl2[0]), N(s)) and np.array_equal(N(fl2[1]), N(p)), k + ":flip-swaps")
        okc, y = ctx.call(k + ":flip-merge", lambda: (~m).merge(s, p, ch))
        if okc:
            ctx.ok(np.array_equal(N(y), xi), k + ":flip-merge")
        okc, y = ctx.call(k + ":merge", m.merge, p, s, ch)
        if okc:
            ctx.ok(y.shape == x.shape and y.dtype == p.dtype and np.array_equal(N(y), N(jnp.asarray(x))), k + ":merge-split")
        p2 = jnp.asarray(rng.permutation(np.array(p).ravel()).reshape(p.shape))
        s2 = jnp.asarray(rng.permutation(np.array(s).ravel()).reshape(s.shape))
        okc, y = ctx.call(k + ":merge", m.merge, p2, s2, ch)
        if okc:
            q = m.split(y, ch)
            ctx.ok(np.array_equal(N(q[0]), N(p2)) and np.array_equal(N(q[1]), N(s2)), k + ":split-merge")
        if ch == 0:
            ld = rng.normal(size=batch)
            okc, r = ctx.call(k + ":forward", m.forward, jnp.asarray(x), jnp.asarray(ld))
            if okc:
                ctx.ok(np.array_equal(N(r[0][0]), N(p)) and np.array_equal(N(r[0][1]), N(s)) and np.array_equal(N(r[1]), ld), k + ":forward")
                okc, r2 = ctx.call(k + ":reverse", m.reverse, *r)
                if okc:
                    ctx.ok(np.array_equal(N(r2[0]), N(jnp.asarray(x))) and np.array_equal(N(r2[1]), ld), k + ":reverse")
            okc, z = ctx.call(k + ":mul", lambda a: m * a, jnp.asarray(x))
            if okc:
                ctx.ok(np.array_equal(N(z), np.where(ref, N(jnp.asarray(x)), 0)), k + ":mul")
            okc, z = ctx.call(k + ":rmul", lambda a: a * m, jnp.asarray(x))
            if okc:
                ctx.ok(np.array_equal(N(z), np.where(ref, N(jnp.asarray(x)), 0)), k + ":rmul")
        ctx.saw("merges")
    for prim in (True, False):
        for bs in (True, False):
            okc, ind = ctx.call(k + ":indices", m.indices, 1, bs, prim)
            if okc:
                z = np.zeros(ev + (1,), int)
                z[ind] = 1
                ctx.ok(np.array_equal(z[..., 0] == 1, ref if prim else ~ref), k + ":indices")


def random_masks(ctx):
    for rep in range(ctx.n(5, 40)):
        rank = int(ctx.rng.integers(1, 5))
        ev = tuple(int(v) for v in ctx.rng.integers(1, 5, size=rank))
        ref = ctx.rng.random(ev) < ctx.rng.choice([0.1, 0.5, 0.9])
        ctx.case({"mask": ref.astype(int).tolist()}, nontrivial=0 < ref.sum() < ref.size)
        okc, m = ctx.call("bool", bijx.BinaryMask.from_boolean_mask, jnp.asarray(ref) if rep % 2 else ref)
        if okc:
            monitor(ctx, m, ref, "bool")
            monitor(ctx, ~m, ~ref, "bool~")
            monitor(ctx, m.flip().flip(), ref, "bool~~")


def index_masks(ctx):
    for rep in range(ctx.n(5, 40)):
        rank = int(ctx.rng.integers(1, 4))
        ev = tuple(int(v) for v in ctx.rng.integers(1, 6, size=rank))
        n = int(np.prod(ev))
        sel = ctx.rng.permutation(n)[: int(ctx.rng.integers(0, n + 1))]
        ref = np.zeros(n, bool)
        ref[sel] = True
        ref = ref.reshape(ev)
        idx = np.unravel_index(sel, ev)  # deliberately unsorted
        ctx.case({"indices": [i.tolist() for i in idx], "event": ev}, nontrivial=0 < len(sel) < n)
        okc, m = ctx.call("index", bijx.BinaryMask.from_indices, tuple(np.asarray(i) for i in idx), ev)
        if okc:
            monitor(ctx, m, ref, "index")
            monitor(ctx, ~m, ~ref, "index~")
            monitor(ctx, ~(~m), ref, "index~~")


@unit(PROP)
def checkers(ctx):
    shapes = [(1,), (2,), (5,), (300,), (257, 2), (3, 4), (2, 2, 2), (3, 3, 5), (2, 3, 2, 3)]
    for rep in range(ctx.n(3, 20)):
        for shp in shapes + [tuple(int(v) for v in ctx.rng.integers(1, 7, size=int(ctx.rng.integers(1, 4))))]:
            for parity in (True, False, 0, 1):
                ctx.case({"checker": shp, "parity": parity})
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    okc, m = ctx.call("checker", bijx.checker_mask, shp, parity)
                if not okc:
                    continue
                ctx.saw("checkers")
                ref = (np.indices(shp).sum(0) + int(parity)) % 2 == 1
                ctx.ok(np.array_equal(N(m.boolean_mask), ref), "checker:pattern", shape=shp, parity=parity)
                ctx.ok(bool(N(m.boolean_mask)[(0,) * len(shp)]) == bool(parity), "checker:parity")
                if rep == 0 and parity is True and np.prod(shp) < 100:
                    monitor(ctx, m, ref, "checker")


for _i in range(4):
    unit(PROP, f"random-{_i}")(random_masks)
    unit(PROP, f"index-{_i}")(index_masks)
