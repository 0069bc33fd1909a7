"""C40: results depend on the arguments alone: not on earlier calls, other instances, threads, or reused buffers."""

import os
import pickle
import subprocess
import sys
import tempfile
import threading
import zlib

from vlib.core import unit
from vlib.jx import *
from vlib import pool
from vlib.su import random_su
from bijx import cg, fourier, lie
from bijx.lattice import gauge, roll_lattice, scalar
from bijx.nn import conv, embeddings, features, nets
from bijx.utils import ShapeInfo

PROP = "C40"
RULE = (
    "families of calls that differ in one option, shape or parameter set only (every public map and distribution with two parameter sets, "
    "and every public function), run in separate processes in opposite and random orders and repeated, with returned buffers overwritten "
    "by the caller, and from several threads at once on shared instances; oracle: identical values everywhere, arguments unchanged, and "
    "variants that differ in an option differ in value where they must; non-trivial = a call whose value was compared between two histories"
)
ASSUMPTIONS = ["float64", "same machine and compiler settings"]
MIN_COUNTERS = {"compared": 300, "threaded": 60, "arguments": 100}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def leaves(r):
    r = jax.tree.map(lambda v: jax.random.key_data(v) if isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jax.dtypes.prng_key) else v, r)
    return [np.array(v) for v in jax.tree.leaves(r) if isinstance(v, (jax.Array, np.ndarray, float, int, complex, bool))]


def functions(rng):
    """(family, variant, function, args): variants of one family share everything but one option."""
    out = []
    J = jnp.asarray
    f = lambda *s: rng.normal(size=s)

    def fam(name, fn, *variants):
        for i, v in enumerate(variants):
            out.append((name, i, fn, v))

    a, b = f(4, 4), f(4, 4)
    # kernels and orbits (numpy in, numpy out)
    for nm in ("unique_index_kernel", "kernel_d4", "kernel_equidist"):
        fam("conv." + nm, getattr(conv, nm), ((3, 3),), ((4, 4),), ((3,),), ((2, 2, 2),))
    fam("conv.kernel_equidist-oblong", conv.kernel_equidist, ((3, 4),), ((4, 3),))
    fam("conv.conv_indices", conv.conv_indices, ((3, 4), True, True), ((3, 4), True, False), ((3, 4), False, True), ((4, 3), True, True))
    k = f(3, 3, 2, 1)
    fam("conv.resize", conv.resize_kernel_weights, (k, (5, 5)), (k, (4, 5)), (k, (3, 3)), (k, 2), (f(4, 4, 2, 1), (6, 6)))
    cnt, orb = conv.kernel_d4((3, 3))
    cnt2, orb2 = conv.kernel_equidist((3, 3))
    fam("conv.fold", conv.fold_kernel, (k, np.array(orb), cnt), (k, np.arange(9).reshape(3, 3), 9), (k * 2, np.array(orb2), cnt2))
    w = f(9, 2, 1)
    fam("conv.unfold", conv.unfold_kernel, (J(w[:cnt]), orb), (J(w), J(np.arange(9).reshape(3, 3))), (J(w[1 : cnt + 1]), orb))
    # Fourier
    fam("fourier.momenta", lambda s, r, u: fourier.fft_momenta(s, reduced=r, unit=u),
        ((4, 3), True, True), ((4, 3), False, True), ((4, 3), True, False), ((3, 4), True, True), ((5,), True, True), ((4, 4), True, True), ((4, 4), False, False))
    x = f(4, 3, 2)
    real = lambda x, s, c, r: fourier.FourierData.from_real(J(x), s, to=r, channel_dim=c).data
    FR = fourier.FFTRep
    fam("fourier.data", real, (x, (4, 3), 1, FR.rfft), (x, (3, 2), 0, FR.rfft), (x, (4, 3), 1, FR.comp_real), (x, (4, 3), 1, FR.comp_complex),
        (x, (4, 3, 2), 0, FR.comp_real))
    meta = lambda s, c: {q: getattr(fourier.FourierMeta.create(s, c), q) for q in ("mr", "mi", "ks_full", "copy_from", "copy_to")}
    fam("fourier.meta", meta, ((4, 3), 0), ((4, 3), 1), ((3, 4), 0), ((4,), 0))
    fam("fourier.spectrum", lambda s, m: bijx.FreeTheoryScaling(m, s).forward(jnp.ones(s), jnp.zeros(())), ((4, 3), 1.0), ((4, 3), 0.5), ((3, 4), 1.0))
    # lattices
    for nm in ("cyclic_corr", "cyclic_tensor"):
        fam("lattice." + nm, lambda p, q, g=getattr(scalar, nm): g(J(p), J(q)), (a, b), (b, a), (a[:3], b[:3]), (a[:, 0], b[:, 0]))
    phi = f(3, 4, 4)
    fam("lattice.two_point", lambda p, av: scalar.two_point(J(p), average=av), (phi, True), (phi, False), (phi[:2], True))
    fam("lattice.poly", lambda p, c, e: scalar.poly_term(J(p), J(c), even=e), (a, np.array([0.3, 0.2]), False), (a, np.array([0.3, 0.2]), True), (b, np.array([0.2, 0.3]), False))
    fam("lattice.phi4", lambda p, m, l: scalar.phi4_term(J(p), m, l), (a, 0.5, 0.1), (a, 0.1, 0.5), (a[:, 0], 0.5, 0.1))
    fam("lattice.kinetic", lambda p: scalar.kinetic_term(J(p)), (a,), (a.T,), (a[0],))
    fam("lattice.roll", lambda p, l, i: roll_lattice(J(p), l, invert=i), (a, (1, 2), False), (a, (1, 2), True), (a, (2, 1), False))
    lat = np.array(random_su(rng, 2, (3, 3, 2)))
    fam("gauge.wilson", lambda u, be: gauge.wilson_action(J(u), be), (lat, 1.0), (lat, 2.0), (np.array(random_su(rng, 3, (2, 2, 2))), 1.0))
    fam("gauge.swap", lambda u, i, j: gauge.swap_axes(J(u), i, j), (lat, 0, 1), (lat[::-1], 0, 1))
    fam("gauge.flip", lambda u, i: gauge.flip_axis(J(u), i), (lat, 0), (lat, 1))
    fam("gauge.rotate", lambda u, i, j: gauge.rotate_lat(J(u), i, j), (lat, 0, 1), (lat, 1, 0))
    # groups
    m2 = f(3, 2, 2) + 1j * f(3, 2, 2)
    fam("lie.contract", lambda *m, trace=False: lie.contract(*map(J, m), trace=trace), (m2, m2[::-1]), (m2[::-1], m2), (m2, m2, m2))
    fam("lie.contract-trace", lambda *m: lie.contract(*map(J, m), trace=True), (m2, m2[::-1]), (m2, m2, m2))
    fam("lie.grid", lambda n, g: lie.create_eigenvalue_grid(n, g), (2, 8), (2, 9), (3, 4))
    fam("lie.haar", lambda n, s, c: lie.sample_haar(jax.random.key(s), n, c), (2, 0, (2,)), (2, 1, (2,)), (3, 0, (2,)), (2, 0, (2, 1)))
    fam("lie.density", lambda t: lie.compute_haar_density(J(t)), (f(5, 1),), (f(5, 2),))
    u2, v2 = np.array(random_su(rng, 2, ())), np.array(random_su(rng, 2, ()))
    tr = lambda s: (lambda u, v: s * jnp.real(jnp.trace(u @ v @ u)))
    g1 = {s: tr(s) for s in (1.0, 2.0)}
    fam("lie.grad", lambda s, n, u, v: lie.grad(g1[s], argnum=n)(J(u), J(v)), (1.0, 0, u2, v2), (2.0, 0, u2, v2), (1.0, 1, u2, v2), (1.0, 0, v2, u2))
    g2 = {s: (lambda u, s=s: s * jnp.real(jnp.trace(u @ u))) for s in (1.0, 3.0)}
    G = 1j * np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    for nm in ("value_grad_divergence",):
        fam("lie." + nm, lambda s, u, g, h=getattr(lie, nm): h(g2[s], J(u), J(g)), (1.0, u2, G), (3.0, u2, G), (1.0, v2, G), (1.0, u2, G[:2]))
    for nm in ("path_grad", "path_grad2"):
        fam("lie." + nm, lambda s, u, g, h=getattr(lie, nm): h(g2[s], J(g), J(u)), (1.0, u2, G), (3.0, u2, G), (1.0, v2, G), (1.0, u2, G[:2]))
    # solvers
    sol = lambda w, y, h, t: bijx.odeint_rk4(lambda t, y, w: jnp.cos(w * t) - y, J(y), t, J(w), step_size=h)
    fam("rk4", sol, (1.0, f(2), 0.1, 1.0), (2.0, np.ones(2), 0.1, 1.0), (2.0, np.ones(2), 0.25, 1.0), (2.0, np.ones(2), 0.1, 0.5), (2.0, np.ones(3), 0.1, 1.0))
    gsol = lambda w, y, h, t: jax.grad(lambda w: jnp.sum(bijx.odeint_rk4(lambda t, y, w: jnp.cos(w * t) - w * y, J(y), t, w, step_size=h)))(J(w))
    fam("rk4-gradient", gsol, (1.0, np.ones(2), 0.1, 1.0), (2.0, np.ones(2), 0.1, 1.0), (2.0, np.ones(2), 0.25, 1.0))
    A = np.array([[0.3j, 0.2], [-0.2, -0.3j]])
    cgs = lambda w, u, tab, h: cg.crouch_grossmann(lambda t, y, w: w * J(A) * jnp.cos(t), J(u), J(w), 0.0, 1.0, step_size=h, tableau=tab)
    fam("cg", cgs, (1.0, u2, cg.EULER, 0.25), (1.0, u2, cg.CG2, 0.25), (1.0, u2, cg.CG3, 0.25), (2.0, u2, cg.CG2, 0.25), (1.0, u2, cg.CG2, 0.5))
    # shapes, masks, reconstructors
    fam("shape-info", lambda e, s: ShapeInfo(event_dim=e, space_dim=s).process_and_flatten(J(x))[0], (3, 2), (2, 1), (1, 1))
    fam("mask", lambda s, p: bijx.checker_mask(s, p).boolean_mask, ((3, 4), True), ((3, 4), False), ((4, 3), True), ((12,), True))
    fam("mask-split", lambda s, p: bijx.checker_mask(s, p).split(J(np.arange(12.0).reshape(s))), ((3, 4), True), ((3, 4), False), ((4, 3), True))
    T = {
        0: bijx.ModuleReconstructor(bijx.AffineLinear(rngs=nnx.Rngs(0))),
        1: bijx.ModuleReconstructor(bijx.Chain(bijx.Shift(rngs=nnx.Rngs(0)), bijx.Scaling(rngs=nnx.Rngs(0)))),
    }
    p3 = f(3, 2)
    fam("reconstructor", lambda i, p: T[i].from_params(J(p), autovmap=True).forward(jnp.ones(3) * 0.3, jnp.zeros(3), input_ranks=(0, 0)), (0, p3), (1, p3), (0, p3[::-1]))
    # embeddings, networks
    z = f(6)
    for nm, mk in (
        ("gauss", lambda n, r: embeddings.KernelGauss(n, val_range=(0.0, r), rngs=nnx.Rngs(0))),
        ("lin", lambda n, r: embeddings.KernelLin(n, val_range=(0.0, r), rngs=nnx.Rngs(0))),
        ("fourier", lambda n, r: embeddings.KernelFourier(n, val_range=(0.0, r), rngs=nnx.Rngs(0))),
    ):
        fam("embedding." + nm, lambda n, r, z, mk=mk: mk(n, r)(J(z)), (5, 1.0, abs(z)), (5, 2.0, abs(z)), (7, 1.0, abs(z)))
    fam("embedding.positions", lambda n, m, z: embeddings.PositionalEmbedding(n, max_positions=m, rngs=nnx.Rngs(0))(J(z)), (4, 100.0, z), (4, 10.0, z), (6, 100.0, z))
    fam("mlp", lambda s, h, z: nets.MLP(in_features=6, out_features=2, hidden_features=h, rngs=nnx.Rngs(s))(J(z)), (0, [4], z), (1, [4], z), (0, [5], z))
    c = f(2, 4, 4, 1)
    fam("conv-sym", lambda s, o, c: conv.ConvSym(1, 2, (3, 3), orbit_function=o, rngs=nnx.Rngs(s))(J(c)), (0, conv.kernel_d4, c), (1, conv.kernel_d4, c),
        (0, conv.kernel_equidist, c))
    # estimators
    l1, l2 = f(40), f(40)
    fam("ess", lambda p, q: bijx.effective_sample_size(J(p), J(q)), (l1, l2), (l2, l1), (l1[:20], l2[:20]))
    fam("dkl", lambda p, q: bijx.reverse_dkl(J(p), J(q)), (l1, l2), (l2, l1))
    fam("moving-average", lambda p, w: bijx.moving_average(J(p), w), (l1, 3), (l1, 5), (l2, 3))
    # random functions
    fam("noise", lambda s, q: nnx.state(bijx.noise_model(nnx.Rngs(s), bijx.AffineLinear((2,), (2,), rngs=nnx.Rngs(0)), q)), (0, 0.1), (1, 0.1), (0, 0.2))
    fam("wrap", lambda s, sh: bijx.default_wrap(sh, rngs=nnx.Rngs(s), init_fn=nnx.initializers.normal()).get_value(), (0, (2,)), (1, (2,)), (0, (3,)))
    return out


def objects(wide=False):
    """Two parameter sets of every public map and density; instances are shared by all their calls."""
    out = []

    def lazy(make):
        box = []
        lock = threading.Lock()

        def get():
            with lock:
                if not box:
                    box.append(make())
            return box[0]

        return get

    for it in pool.bijections(3):
        sd = zlib.crc32(it.name.encode())
        objs = [lazy(lambda it=it, j=j: it.build(np.random.default_rng(sd + j))) for j in (0, 1)]
        r = np.random.default_rng(sd)
        x = {bt: it.draw(r, bt) for bt in ((2,), (1, 3))}
        y = it.draw(r, (2,), it.out)

        def call(j, back, x, objs=objs, ev=it.ev):
            o = objs[j]()
            return (o.reverse if back else o.forward)(jnp.asarray(x), jnp.zeros(x.shape[: x.ndim - len(ev)]))

        for i, v in enumerate([(0, False, x[(2,)]), (1, False, x[(2,)]), (0, True, y)] + [(0, False, x[(1, 3)])] * wide):
            out.append(("map." + it.name, i, call, v))
    for it in pool.distributions():
        sd = zlib.crc32(it.name.encode())
        objs = [lazy(lambda it=it, j=j: it.build(np.random.default_rng(sd + j))) for j in (0, 1)]
        x = it.draw(np.random.default_rng(sd), (2,))

        def dens(j, x, objs=objs):
            return objs[j]().log_density(jnp.asarray(x))

        def samp(j, s, n, objs=objs):
            return objs[j]().sample((n,), rng=jax.random.key(s))

        for i, v in enumerate([(0, x), (1, x), (0, x[:1])]):
            out.append(("density." + it.name, i, dens, v))
        for i, v in enumerate([(0, 0, 2), (1, 0, 2), (0, 1, 2)] + [(0, 0, 3)] * wide):
            out.append(("sample." + it.name, i, samp, v))
    return out


def registry(part):
    return functions(np.random.default_rng(40)) if part == "functions" else objects(part == "objects+")


def run(entry, overwrite=False):
    """Value of one call, plus whether its arguments came back unchanged."""
    _, _, fn, args = entry
    args = tuple(np.array(v) if isinstance(v, np.ndarray) else v for v in args)
    before = [np.array(v) if isinstance(v, np.ndarray) else None for v in args]
    try:
        r = fn(*args)
        val = leaves(r)
    except Exception as e:
        return ("raised", f"{type(e).__name__}: {str(e)[:200]}"), True
    same = all(p is None or np.array_equal(p, q) for p, q in zip(before, args))
    if overwrite:
        for v in jax.tree.leaves(r):
            if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
                v[...] = 0 if v.dtype == bool else 7
    return val, same


def history(part, order):
    """Every call of a part in the given order, then once more; {(family, variant): values of both rounds}."""
    ent = registry(part)
    idx = list(range(len(ent)))
    if order == "reversed":
        idx = idx[::-1]
    elif order != "natural":
        np.random.default_rng(int(order)).shuffle(idx)
    rounds = 2 if part == "functions" else 1
    res = {}
    for k in range(rounds):
        for i in idx:
            res.setdefault(ent[i][:2], []).append(run(ent[i], overwrite=True))
    return res


def spawn(part, orders):
    """Run histories in separate fresh processes."""
    from run import REPO

    ps = []
    tmp = tempfile.mkdtemp(prefix="c40-")
    for o in orders:
        path = os.path.join(tmp, f"{part}-{o}.pkl")
        code = (f"import sys; sys.path[:0] = [{HERE!r}, {os.path.join(REPO, 'src')!r}]\nimport warnings; warnings.filterwarnings('ignore')\n"
                f"import pickle, checks.c40_history as c\npickle.dump(c.history({part!r}, {o!r}), open({path!r}, 'wb'))\n")
        ps.append((o, path, subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    out = {}
    try:
        for o, path, p in ps:
            err = p.communicate(timeout=700)[1]
            if p.returncode:
                raise RuntimeError(f"history {part}/{o} ended with {p.returncode}: {err[-800:]!r}")
            out[o] = pickle.load(open(path, "rb"))
    finally:
        for _, path, p in ps:
            p.kill()
            if os.path.exists(path):
                os.unlink(path)
        os.rmdir(tmp)
    return out


def equal(p, q):
    if isinstance(p, tuple) or isinstance(q, tuple):
        return p == q
    return len(p) == len(q) and all(
        u.shape == v.shape and u.dtype == v.dtype
        and (np.array_equal(u, v) if u.dtype.kind in "bOUSiu" else np.allclose(u, v, rtol=1e-12, atol=1e-13, equal_nan=True))
        for u, v in zip(p, q)
    )


def compare(ctx, part, hist):
    ref_order = next(iter(hist))
    ref = hist[ref_order]
    for key, rounds in ref.items():
        fam, var = key
        first = rounds[0][0]
        ctx.case({"call": fam, "variant": var, "histories": list(hist)}, sig=key)
        if isinstance(first, tuple):
            ctx.violate(f"history:{fam}:raised", error=first[1])
            continue
        for o, h in hist.items():
            for k, (val, same) in enumerate(h[key]):
                ctx.saw("compared")
                ctx.ok(equal(first, val), f"history:{fam}", order=o, round=k, got=val if isinstance(val, tuple) else val[:1], want=first[:1])
                ctx.saw("arguments")
                ctx.ok(same, f"arguments:{fam}", order=o, round=k)
    # the variants of a family were chosen to differ
    fams = {}
    for (fam, var), rounds in ref.items():
        fams.setdefault(fam, []).append(rounds[0][0])
    same = [f for f, v in fams.items() if len(v) > 1 and all(equal(v[0], w) for w in v[1:])]
    ctx.case({"families": len(fams)}, nontrivial=False)
    constant = {"map.Sinh", "map.Tan", "map.Sigmoid", "map.Tanh", "map.Exponential", "map.SoftPlus", "map.ExpandDims"}
    for fam in same:
        ctx.ok(fam in constant, f"variants:{fam}")


@unit(PROP, cost=3.0)
def function_orders(ctx):
    """Every public function, in opposite and random orders, each history in its own process."""
    orders = ["natural", "reversed"] + [str(ctx.rng.integers(1 << 30)) for _ in range(ctx.n(1, 6))]
    compare(ctx, "functions", spawn("functions", orders))


@unit(PROP, cost=3.0)
def object_orders(ctx):
    """Every public map and distribution on shared instances, in opposite (and random) orders."""
    orders = ["natural", "reversed"] + [str(ctx.rng.integers(1 << 30)) for _ in range(ctx.n(0, 6))]
    part = ctx.n("objects", "objects+")
    compare(ctx, part, spawn(part, orders))


@unit(PROP, cost=2.0)
def threads(ctx):
    """The same calls from several threads at once, switching every 10 microseconds."""
    ent = [e for p in ("functions", "objects") for e in registry(p)]
    pick = ctx.rng.permutation(len(ent))[: ctx.n(70, 400)]
    ent = [ent[i] for i in pick]
    nt = 4
    got = [[None] * len(ent) for _ in range(nt)]
    bar = threading.Barrier(nt)
    old = sys.getswitchinterval()

    def body(t):
        r = np.random.default_rng([ctx.seed, t])
        idx = list(range(len(ent)))
        bar.wait()
        # neighbours in the list run close together, in a different order per thread
        for lo in range(0, len(idx), 8):
            blk = idx[lo : lo + 8]
            r.shuffle(blk)
            for i in blk:
                got[t][i] = run(ent[i])

    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    for i, e in enumerate(ent):
        ctx.case({"threads": nt, "call": e[0], "variant": e[1]}, sig=("t", e[0], e[1]))
        want, _ = run(e)
        for t in range(nt):
            ctx.saw("threaded")
            val, same = got[t][i]
            ctx.ok(equal(want, val), f"threads:{e[0]}", thread=t, got=val if isinstance(val, tuple) else val[:1])
            ctx.ok(same, f"threads:arguments:{e[0]}", thread=t)
