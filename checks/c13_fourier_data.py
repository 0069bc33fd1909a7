"""C13: Fourier representations carry exactly the field, without loss or redundancy."""

from vlib.core import unit
from vlib.jx import *
from bijx.fourier import FFTRep, FourierData, FourierMeta, fft_momenta

PROP = "C13"
RULE = (
    "random real fields on odd/even/size-1 lattices in 1-4 dimensions with batch and channel axes through every ordered "
    "pair of representations, and random independent-dof vectors the other way; oracle is numpy's full complex FFT and "
    "explicit momentum formulas; non-trivial = more than one site"
)
ASSUMPTIONS = ["float64"]
MIN_COUNTERS = {"conversions": 300, "fields": 20, "momenta": 60, "tofourier": 30}
SHAPES = [(1,), (2,), (5,), (6,), (3, 4), (4, 3), (5, 3), (2, 2), (4, 4), (1, 4), (4, 1), (3, 2, 4), (2, 3, 3), (2, 2, 2), (2, 1, 3, 2)]
REPS = list(FFTRep)


def fields(ctx, shapes):
    rng = ctx.rng
    for rep in range(ctx.n(2, 10)):
        for shape in shapes:
            ch = int(rng.integers(0, 3))
            chs = tuple(int(v) for v in rng.integers(1, 4, size=ch))
            batch = [(), (3,), (2, 2)][int(rng.integers(3))]
            n, d = int(np.prod(shape)), len(shape)
            x = rng.normal(size=batch + shape + chs)
            k = "fourier" + ("[channels]" if ch else "")
            ctx.case({"shape": shape, "channels": chs, "batch": batch, "x": x}, nontrivial=n > 1)
            okc, fd = ctx.call(k, FourierData.from_real, jnp.asarray(x), shape, None, ch)
            if not okc:
                continue
            ctx.saw("fields")
            axes = tuple(range(len(batch), len(batch) + d))
            X = np.fft.fftn(x, axes=axes, norm="ortho")
            half = X[tuple([np.s_[:]] * (len(batch) + d - 1) + [np.s_[: shape[-1] // 2 + 1]])]
            data = {}
            for rp in REPS:
                okc, r = ctx.call(f"{k}:to-{rp.name}", fd.to, rp)
                if okc:
                    ctx.ok(r.rep == rp, k + ":rep")
                    data[rp] = r
            if FFTRep.rfft in data:
                ctx.close(N(data[FFTRep.rfft].data), half, k + ":rfft", atol=1e-11, rtol=1e-11)
            meta = fd.meta
            mr, mi = N(meta.mr), N(meta.mi)
            ctx.ok(mr.sum() + mi.sum() == n and not (mi & ~mr).any(), k + ":dof-count")
            if FFTRep.comp_complex in data:
                c = N(data[FFTRep.comp_complex].data)
                want = np.moveaxis(np.moveaxis(half, axes, range(d))[mr], 0, len(batch))
                ctx.close(c, want, k + ":comp-complex", atol=1e-11, rtol=1e-11)
                # every mode of the field (as |F(k)| multiset) is covered exactly once up to conjugation
                mult = np.where(mi[mr], 2.0, 1.0).reshape((-1,) + (1,) * ch)
                ctx.close((np.abs(c) ** 2 * mult).sum(len(batch)), (x ** 2).sum(axes), k + ":parseval", atol=1e-10, rtol=1e-10)
            if FFTRep.comp_real in data:
                r = data[FFTRep.comp_real].data
                ctx.ok(r.shape == batch + (n,) + chs and not np.iscomplexobj(N(r)), k + ":comp-real-shape", got=r.shape)
            for a in data:
                for b in REPS:
                    okc, r = ctx.call(f"{k}:{a.name}->{b.name}", data[a].to, b)
                    if okc and b in data:
                        ctx.close(N(r.data), N(data[b].data), f"{k}:{a.name}->{b.name}", atol=1e-10, rtol=1e-10)
                        ctx.saw("conversions")
            okc, r = ctx.call(f"{k}:none", fd.to, None)
            if okc:
                ctx.ok(r.rep == FFTRep.real_space and np.array_equal(N(r.data), x), k + ":none")
            # arbitrary independent degrees of freedom are a field
            v = rng.normal(size=batch + (n,) + chs)
            okc, r = ctx.call(k + ":from-dof", lambda: FourierData(jnp.asarray(v), FFTRep.comp_real, meta).to(FFTRep.real_space).to(FFTRep.comp_real))
            if okc:
                ctx.close(N(r.data), v, k + ":from-dof", atol=1e-10, rtol=1e-10)
            for rp in (FFTRep.rfft, FFTRep.comp_complex, FFTRep.comp_real):
                okc, r = ctx.call(k + ":from_real-to", FourierData.from_real, jnp.asarray(x), shape, rp, ch)
                if okc and rp in data:
                    ctx.ok(r.rep == rp and np.array_equal(N(r.data), N(data[rp].data)), k + ":from_real-to")


def tofourier(ctx, shapes):
    rng = ctx.rng
    for rep in range(ctx.n(2, 10)):
        for shape in shapes:
            ch = int(rng.integers(0, 2))
            chs = (2,) * ch
            batch = [(), (3,)][int(rng.integers(2))]
            x, ld = rng.normal(size=batch + shape + chs), rng.normal(size=batch)
            for rp in REPS + [None]:
                for unpack in (False, True):
                    k = f"tofourier[{rp.name if rp is not None else 'default'}]"
                    ctx.case({"shape": shape, "rep": k, "unpack": unpack, "channels": ch, "batch": batch})
                    okc, b = ctx.call(k, bijx.ToFourierData, shape, rp, ch, unpack)
                    if not okc:
                        continue
                    okc, r = ctx.call(k, b.forward, jnp.asarray(x), jnp.asarray(ld), extra=1)
                    if not okc:
                        continue
                    ctx.saw("tofourier")
                    want = FourierData.from_real(jnp.asarray(x), shape, rp, ch)
                    got = r[0] if unpack else r[0].data
                    ctx.close(N(got), N(want.data), k + ":value", atol=1e-12, rtol=1e-12)
                    if not unpack:
                        ctx.ok(r[0].rep == (FFTRep.real_space if rp is None else rp), k + ":rep")
                        # the container knows its own representation, whichever the layer produces
                        other = REPS[int(rng.integers(4))]
                        okc, q = ctx.call(k + ":reverse-other", b.reverse, r[0].to(other), r[1])
                        if okc:
                            ctx.close(N(q[0]), x, k + ":reverse-other", atol=1e-10, rtol=1e-10, rep=other.name)
                    ctx.ok(np.array_equal(N(r[1]), ld), k + ":density")
                    okc, q = ctx.call(k + ":reverse", b.reverse, *r)
                    if okc:
                        ctx.close(N(q[0]), x, k + ":roundtrip", atol=1e-10, rtol=1e-10)
                        ctx.ok(np.array_equal(N(q[1]), ld), k + ":density")


for _i in range(5):
    unit(PROP, f"fields-{_i}")(lambda ctx, _i=_i: fields(ctx, SHAPES[_i::5]))
    unit(PROP, f"tofourier-{_i}")(lambda ctx, _i=_i: tofourier(ctx, SHAPES[_i::5]))


@unit(PROP)
def momenta(ctx):
    rng = ctx.rng
    for shape in SHAPES + [tuple(int(v) for v in rng.integers(1, 9, size=int(rng.integers(1, 4)))) for _ in range(ctx.n(10, 60))]:
        d = len(shape)
        for reduced in (True, False):
            sh = shape[:-1] + (shape[-1] // 2 + 1,) if reduced else shape
            idx = np.moveaxis(np.indices(sh), 0, -1)
            L = np.asarray(shape)
            fold = np.where(2 * idx > L, idx - L, idx)
            ctx.case({"shape": shape, "reduced": reduced})
            for kind in ("unit", "continuum", "lattice"):
                okc, k = ctx.call(f"momenta[{kind}]", fft_momenta, shape, reduced=reduced, lattice=kind == "lattice", unit=kind == "unit")
                if not okc:
                    continue
                k = N(k)
                ctx.saw("momenta")
                if not ctx.ok(k.shape == sh + (d,), f"momenta[{kind}]:shape", got=k.shape):
                    continue
                if kind == "unit":
                    ctx.ok(np.array_equal(np.mod(k, L), idx) , "momenta[unit]:value")
                elif kind == "continuum":
                    # Nyquist sign is a convention: compare modulo 2 pi and by magnitude
                    ctx.close(np.abs(k), 2 * np.pi * np.abs(fold) / L, "momenta[continuum]:value", atol=1e-12, rtol=1e-12)
                    ctx.close(np.exp(1j * k), np.exp(2j * np.pi * fold / L), "momenta[continuum]:phase", atol=1e-12, rtol=1e-12)
                else:
                    # eigenvalues of the lattice Laplacian per direction
                    ctx.close(k ** 2, 2 - 2 * np.cos(2 * np.pi * idx / L), "momenta[lattice]:square", atol=1e-12, rtol=1e-12)
    for shape in SHAPES:
        okc, m = ctx.call("meta", FourierMeta.create, shape)
        if not okc:
            continue
        ctx.case({"meta": shape})
        sh = shape[:-1] + (shape[-1] // 2 + 1,)
        idx = np.moveaxis(np.indices(sh), 0, -1)
        fold = np.where(2 * idx > np.asarray(shape), idx - np.asarray(shape), idx)
        k2 = (fold ** 2).sum(-1)
        ctx.ok(np.array_equal(N(m.ks_full), k2), "meta:ks_full")
        kr = N(m.ks_reduced)
        ctx.ok(np.array_equal(kr, k2[N(m.mr)]), "meta:ks_reduced")
        u = kr[N(m.unique_idc)]
        ctx.ok(np.array_equal(u[N(m.unique_unfold).ravel()], kr) and len(np.unique(u)) == len(u), "meta:unique")
        ctx.ok(tuple(m.real_shape) == shape, "meta:real_shape")


@unit(PROP)
def comp_real_volume(ctx):
    """log-density bookkeeping of the real independent-dof packing (change of variables)."""
    for shape in [(5,), (4,), (3, 4), (4, 3)]:
        b = bijx.ToFourierData(shape, FFTRep.comp_real, 0, True)
        x = jnp.asarray(ctx.rng.normal(size=shape))
        ctx.case({"shape": shape, "what": "volume"})
        ld, _ = flat_logdet(lambda z: b.forward(z, jnp.zeros(()))[0], x)
        _, l1 = b.forward(x, jnp.zeros(()))
        off = -float(l1) - float(ld)
        n_im = int(N(b.meta.mi).sum())
        # each (re, im) pair of a conjugate mode pair is scaled by 1/sqrt(2)
        if abs(off) > 1e-8:
            if abs(off - n_im * np.log(2)) < 1e-8:
                ctx.violate("tofourier[comp_real]:constant-volume-offset", offset=off, pairs=n_im)
            else:
                ctx.violate("tofourier[comp_real]:jacobian", offset=off, pairs=n_im)
