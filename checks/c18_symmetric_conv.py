"""C18: symmetric convolutions share weights exactly along symmetry orbits and commute with the symmetry."""

import itertools

from vlib.core import unit
from vlib.jx import *
from bijx.nn import conv as C

PROP = "C18"
RULE = (
    "random lattice and kernel shapes in 1-4 dimensions, generator sets (point group, shells, random permutations), "
    "channel counts, biases and weights; oracles: brute-force periodic convolution sum, an independent union-find of "
    "coordinates under signed permutations, and group action on inputs; non-trivial = more than one site"
)
ASSUMPTIONS = ["float64", "kernel not larger than the lattice"]
MIN_COUNTERS = {"orbits": 40, "convs": 12, "resizes": 60, "folds": 30}


def coords(shape):
    return list(itertools.product(*[range(-((s - 1) // 2), s // 2 + 1) for s in shape]))


def canon(labels):
    """Relabel by first occurrence: equal arrays <=> equal partitions."""
    m = {}
    return [m.setdefault(int(v), len(m)) for v in np.ravel(labels)]


def union(n, pairs):
    p = list(range(n))

    def find(a):
        while p[a] != a:
            p[a] = p[p[a]]
            a = p[a]
        return a

    for a, b in pairs:
        p[find(a)] = find(b)
    return [find(a) for a in range(n)]


def monitor_orbits(ctx, k, got, shape, want):
    cnt, orb = got
    orb = np.asarray(orb)
    ctx.saw("orbits")
    if ctx.ok(orb.shape == tuple(shape), k + ":shape", got=orb.shape):
        ctx.ok(canon(orb) == canon(want), k + ":partition", shape=shape)
        ctx.ok(int(cnt) == len(set(map(int, np.ravel(want)))), k + ":count", got=int(cnt))
        ctx.ok(sorted(set(np.ravel(orb).tolist())) == list(range(int(cnt))), k + ":contiguous")


@unit(PROP)
def orbits(ctx):
    rng = ctx.rng
    shapes = [(s,) * d for d in (1, 2) for s in range(1, 8)] + [(2,) * 3, (3,) * 3, (4,) * 3, (3,) * 4]
    for shape in shapes:
        cs = coords(shape)
        idx = {c: i for i, c in enumerate(cs)}
        wrap = lambda c: tuple((v + (s - 1) // 2) % s - (s - 1) // 2 for v, s in zip(c, shape))
        d = len(shape)
        ops = [(p, sg) for p in itertools.permutations(range(d)) for sg in itertools.product((1, -1), repeat=d)]
        want = union(len(cs), [(idx[c], idx[wrap(tuple(sg[j] * c[p[j]] for j in range(d)))]) for c in cs for p, sg in ops])
        ctx.case({"orbits": "point group", "shape": shape}, nontrivial=len(cs) > 1)
        okc, r = ctx.call("kernel_d4", C.kernel_d4, shape)
        if okc:
            monitor_orbits(ctx, "kernel_d4", r, shape, want)
    for _ in range(ctx.n(15, 60)):
        shape = tuple(int(v) for v in rng.integers(1, 7, size=rng.integers(1, 4)))
        ctx.case({"orbits": "shells", "shape": shape}, nontrivial=np.prod(shape) > 1)
        d2 = [sum(v * v for v in c) for c in coords(shape)]
        okc, r = ctx.call("kernel_equidist", C.kernel_equidist, shape)
        if okc:
            monitor_orbits(ctx, "kernel_equidist", r, shape, d2)
            o = np.ravel(r[1])
            ctx.ok(all((o[i] < o[j]) == (d2[i] < d2[j]) for i in range(len(o)) for j in range(len(o))), "kernel_equidist:distance-order", shape=shape)
        okc, u = ctx.call("unique_index", C.unique_index_kernel, shape)
        if okc:
            u = np.ravel(u)
            ctx.ok(sorted(u.tolist()) == list(range(len(u))), "unique_index:bijective", shape=shape)
            ctx.ok(np.all(np.diff(np.array(d2)[np.argsort(u)]) >= 0), "unique_index:ordered-by-distance", shape=shape)
            ctx.ok(d2[int(np.argmin(u))] == 0, "unique_index:centre-first", shape=shape)
        # orbits of arbitrary generators
        n = int(np.prod(shape))
        perms = [rng.permutation(n) for _ in range(int(rng.integers(1, 3)))]
        if rng.random() < 0.6:  # sparse permutations produce many orbits
            perms = []
            for _ in range(int(rng.integers(1, 4))):
                p = np.arange(n)
                if n > 1:
                    a, b = rng.choice(n, 2, replace=False)
                    p[[a, b]] = p[[b, a]]
                perms.append(p)
        ctx.case({"orbits": "generators", "shape": shape, "n": len(perms)}, nontrivial=n > 1)
        okc, r = ctx.call("gather_orbits", C.gather_orbits, shape, [lambda a, p=p: np.ravel(a)[p].reshape(a.shape) for p in perms])
        if okc:
            monitor_orbits(ctx, "gather_orbits", r, shape, union(n, [(i, int(p[i])) for p in perms for i in range(n)]))


@unit(PROP)
def lattice_ops(ctx):
    """Elementary lattice symmetries act as the stated coordinate maps."""
    rng = ctx.rng
    for i in range(ctx.n(60, 300)):
        d = int(rng.integers(1, 4))
        shape = tuple(int(v) for v in rng.integers(1, 6, size=d))
        a = rng.normal(size=shape)
        cs = coords(shape)
        at = dict(zip(cs, np.ravel(a)))
        wrap = lambda c, s: tuple((v + (n - 1) // 2) % n - (n - 1) // 2 for v, n in zip(c, s))
        ax = int(rng.integers(d))
        ctx.case({"flip": shape, "ax": ax}, sig=("f", i))
        okc, r = ctx.call("flip", C.flip_lattice, a, ax)
        if okc:
            want = [at[wrap(tuple(-v if j == ax else v for j, v in enumerate(c)), shape)] for c in cs]
            ctx.close(np.ravel(r), np.array(want), "flip:coordinates", atol=0, rtol=0)
        if d > 1:
            L = int(rng.integers(1, 6))
            shape = (L,) * d
            b = rng.normal(size=shape)
            i1, i2 = (int(v) for v in rng.choice(d, 2, replace=False))
            ctx.case({"rot": shape, "ax": [i1, i2]}, sig=("r", i))
            okc, r = ctx.call("rot", C.rot_lattice_90, b, i1, i2)
            if okc:
                q = r
                for _ in range(3):
                    q = C.rot_lattice_90(q, i1, i2)
                ctx.ok(np.array_equal(q, b), "rot:order-four")
                r2 = C.rot_lattice_90(r, i1, i2)
                ctx.ok(np.array_equal(r2, C.flip_lattice(C.flip_lattice(b, i1), i2)), "rot:squares-to-inversion")
        # relative index tables
        full = bool(rng.random() < 0.5)
        cen = bool(rng.random() < 0.5)
        shape = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4))))
        okc, r = ctx.call("conv_indices", C.conv_indices, shape, return_flat=not full, center=cen)
        if okc:
            pts = list(itertools.product(*map(range, shape)))
            want = np.array([[[(y[j] - x[j] + (shape[j] // 2 if cen else 0)) % shape[j] for y in pts] for x in pts] for j in range(len(shape))])
            ctx.ok(np.array_equal(r, want.reshape((len(shape),) + shape + shape) if full else want), "conv_indices", shape=shape)


def brute(x, kern, bias):
    """Periodic cross-correlation centred at (k-1)//2; x: space+(cin,), kern: ks+(cin,cout)."""
    ks = kern.shape[:-2]
    out = np.zeros(x.shape[:-1] + (kern.shape[-1],))
    for off in itertools.product(*map(range, ks)):
        sh = tuple(-(o - (k - 1) // 2) for o, k in zip(off, ks))
        out += np.roll(x, sh, tuple(range(len(ks)))) @ kern[off]
    return out + (0 if bias is None else bias)


@unit(PROP)
def layers(ctx):
    rng = ctx.rng
    for i in range(ctx.n(14, 80)):
        d = [1, 2, 2, 3][i % 4]
        k = int(rng.integers(1, 4 if d == 3 else 6))
        L = k + int(rng.integers(0, 3))
        mode = ["d4", "equidist", "none"][i % 3]
        fn = {"d4": C.kernel_d4, "equidist": C.kernel_equidist, "none": None}[mode]
        cin, cout = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        ub = bool(i % 2)
        ctx.case({"d": d, "k": k, "L": L, "mode": mode, "cin": cin, "cout": cout, "bias": ub}, sig=i)
        okc, conv = ctx.call("conv:build", lambda: C.ConvSym(cin, cout, (k,) * d, fn, use_bias=ub, rngs=nnx.Rngs(int(rng.integers(2**30)))))
        if not okc:
            continue
        perturb(conv, rng, 0.8)
        ctx.ok((conv.bias is not None) == ub, "conv:bias-flag")
        K = N(conv.kernel[...])
        if fn is not None:
            cnt, orb = fn((k,) * d)
            ctx.close(K, N(conv.kernel_params[...])[np.asarray(orb)], "conv:weight-sharing", atol=0, rtol=0)
            ctx.ok(conv.kernel_params[...].shape == (cnt, cin, cout), "conv:parameter-count", got=conv.kernel_params[...].shape)
        batch = [(), (2,), (2, 2)][int(rng.integers(3))]
        x = rng.normal(size=batch + (L,) * d + (cin,))
        run = jax.jit(lambda a: conv(a))
        okc, y = ctx.call("conv", run, jnp.asarray(x))
        if not okc:
            continue
        ctx.saw("convs")
        b = N(conv.bias[...]) if ub else None
        want = np.stack([brute(v, K, b) for v in x.reshape((-1,) + (L,) * d + (cin,))]).reshape(batch + (L,) * d + (cout,))
        ctx.close(N(y), want, "conv:values", atol=1e-10, rtol=1e-10)
        if fn is not None and (k % 2 or k == L):
            nb = len(batch)
            for p in itertools.islice(itertools.permutations(range(d)), 1, 3):
                tr = tuple(range(nb)) + tuple(nb + q for q in p) + (nb + d,)
                ctx.close(N(run(jnp.transpose(x, tr))), np.transpose(N(y), tr), "conv:axis-permutation", atol=1e-9, rtol=1e-9)
            ax = nb + int(rng.integers(d))
            ctx.close(N(run(jnp.flip(x, ax))), np.flip(N(y), ax), "conv:reflection", atol=1e-9, rtol=1e-9)
        sh = int(rng.integers(1, 4))
        ax = len(batch) + int(rng.integers(d))
        ctx.close(N(run(jnp.roll(x, sh, ax))), np.roll(N(y), sh, ax), "conv:translation", atol=1e-9, rtol=1e-9)


@unit(PROP)
def fold(ctx):
    rng = ctx.rng
    for i in range(ctx.n(40, 200)):
        shape = tuple([int(rng.integers(1, 6))] * int(rng.integers(1, 3)))
        cnt, orb = [C.kernel_d4, C.kernel_equidist][i % 2](shape)
        cin, cout = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        p = rng.normal(size=(cnt, cin, cout))
        ctx.case({"fold": shape, "orbits": int(cnt)}, sig=i)
        ctx.saw("folds")
        okc, w = ctx.call("unfold", C.unfold_kernel, p, orb)
        if okc:
            want = np.stack([p[o] for o in np.ravel(orb)]).reshape(shape + (cin, cout))
            ctx.close(w, want, "unfold", atol=0, rtol=0)
            ctx.close(C.fold_kernel(N(w), orb, cnt), p, "fold:inverse-of-unfold", atol=1e-12)
        w = rng.normal(size=shape + (cin, cout))
        okc, q = ctx.call("fold", C.fold_kernel, w, orb, cnt)
        if okc:
            ctx.close(q, np.stack([w[np.asarray(orb) == o].mean(0) for o in range(cnt)]), "fold:orbit-average", atol=1e-12)


@unit(PROP)
def resize(ctx):
    """Growing/cropping keeps every displacement's weight (split at even edges)."""
    rng = ctx.rng
    for i in range(ctx.n(120, 600)):
        d = int(rng.integers(1, 4))
        old = tuple(int(v) for v in rng.integers(1, 7 if d < 3 else 4, size=d))
        new = tuple(int(v) for v in rng.integers(1, 8 if d < 3 else 5, size=d))
        if i % 6 == 0:
            new = old
        if i % 6 == 1:
            new = (int(rng.integers(1, 8)),) * d
        c = (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
        w = rng.normal(size=old + c)
        ctx.case({"resize": [old, new]}, sig=i)
        ctx.saw("resizes")
        arg = new[0] if (i % 6 == 1 and i % 4 == 1) else new
        keep = w.copy()
        okc, r = ctx.call("resize", C.resize_kernel_weights, jnp.asarray(w) if i % 3 == 0 else w, arg)
        if not okc:
            continue
        ctx.ok(np.array_equal(w, keep), "resize:mutates-input")
        want = np.zeros(new + c)
        for idx in itertools.product(*map(range, old)):
            opts = []
            for j, o in enumerate(idx):
                x = o - (old[j] - 1) // 2
                cand = [(x, 1.0)]
                if old[j] % 2 == 0 and new[j] > old[j] and x == old[j] // 2:
                    cand = [(x, 0.5), (-x, 0.5)]
                opts.append(cand)
            for combo in itertools.product(*opts):
                pos = tuple(x + (n - 1) // 2 for (x, _), n in zip(combo, new))
                if all(0 <= q < n for q, n in zip(pos, new)):
                    want[pos] += np.prod([f for _, f in combo]) * w[idx]
        ctx.close(N(r), want, "resize:weights", atol=1e-12, old=old, new=new)
