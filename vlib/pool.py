"""One instance of every kind of public bijection and distribution, with points in its domain."""

from functools import partial

import diffrax

from .jx import *
from .su import random_su
from bijx.nn import embeddings as E
from bijx.nn import features as F


class Item:
    def __init__(self, name, build, ev, dom="R", out="R", kw=None, per_row_kw=False):
        self.name, self.build, self.ev, self.dom, self.out = name, build, ev, dom, out
        self.kw = kw or (lambda rng: {})

    def draw(self, rng, batch, dom=None):
        d = dom or self.dom
        s = batch + self.ev
        if d == "U":
            return rng.uniform(0.1, 0.9, size=s)
        if d == "P":
            return rng.uniform(0.3, 2.5, size=s)
        if d == "S":
            return rng.uniform(-0.85, 0.85, size=s)
        if d == "G":
            return rng.uniform(1.2, 2.5, size=s)
        if d == "SU":
            return random_su(rng, self.ev[-1], batch + self.ev[:-2])
        return rng.normal(size=s)


class Net(nnx.Module):
    def __init__(self, rng, nin, out, ein=1):
        self.w = nnx.Param(jnp.asarray(rng.normal(size=(nin, int(np.prod(out)))) * 0.5))
        self.b = nnx.Param(jnp.asarray(rng.normal(size=int(np.prod(out))) * 0.3))
        self.out, self.ein = tuple(out), ein

    def __call__(self, p):
        batch = p.shape[: p.ndim - self.ein]
        return (jnp.tanh(p.reshape(batch + (-1,)) @ self.w[...]) + self.b[...]).reshape(batch + self.out)


class Field(nnx.Module):
    """v(t, x) with its exact negative divergence."""

    def __init__(self, rng, n):
        self.w = nnx.Param(jnp.asarray(rng.normal(size=(n, n)) * 0.5))
        self.b = nnx.Param(jnp.asarray(rng.normal(size=n) * 0.3))

    def __call__(self, t, x, amp=1.0, **kw):
        h = jnp.tanh(x @ self.w[...].T + self.b[...] * t)
        return amp * h, -amp * jnp.einsum("...i,ii->...", 1 - h**2, self.w[...])


class Drift(nnx.Module):
    def __init__(self, rng, n):
        self.w = nnx.Param(jnp.asarray(rng.normal(size=(n, n)) * 0.5))

    def __call__(self, t, x, **kw):
        return jnp.sin(x @ self.w[...].T) * (1 + t)


class MatField(nnx.Module):
    """Left-invariant flow on SU(n): algebra element linear in the matrix, zero divergence slot not exact (not used)."""

    def __init__(self, rng, n):
        self.a = nnx.Param(jnp.asarray(rng.normal(size=(n, n)) * 0.4))

    def __call__(self, t, u, **kw):
        m = self.a[...] @ u
        m = m - m.conj().swapaxes(-1, -2)
        m = m - jnp.trace(m, axis1=-2, axis2=-1)[..., None, None] * jnp.eye(u.shape[-1]) / u.shape[-1]
        return m, jnp.real(jnp.trace(u, axis1=-2, axis2=-1)) * (1 + t)


def R(rng):
    return nnx.Rngs(int(rng.integers(2**31)))


def P(rng, make, scale=0.4):
    return perturb(make(R(rng)), rng, scale)


def coupling(rng, ev, split, inner=None):
    b = inner or (lambda r: bijx.AffineLinear(rngs=r))
    t = bijx.ModuleReconstructor(b(R(rng)))
    m = bijx.checker_mask(ev, bool(rng.integers(2)))
    n = t.params_total_size
    net = Net(rng, m.count_secondary, (m.count_primary, n)) if split else Net(rng, int(np.prod(ev)), ev + (n,), len(ev))
    return bijx.GeneralCouplingLayer(net, m, t, bijection_event_rank=0, split=split)


def radial_conditional(rng):
    b = bijx.RayTransform(bijx.CubicRational(rngs=R(rng)))
    net = Net(rng, 3, (bijx.ModuleReconstructor(b).params_total_size,))
    return bijx.RadialConditional(b, net, center=jnp.asarray(rng.normal(size=3)), scale=jnp.asarray(rng.normal(size=3) * 0.3))


def scan_chain(rng):
    graph, stack = None, None
    mods = [P(rng, lambda r: bijx.AffineLinear((3,), (3,), rngs=r)) for _ in range(3)]
    graph = nnx.split(mods[0])[0]
    states = [nnx.split(m)[1] for m in mods]
    return bijx.ScanChain(nnx.merge(graph, jax.tree.map(lambda *a: jnp.stack(a), *states)))


def bijections(rk_steps=0):
    rk = lambda n: rk_steps or n
    I = Item
    A = lambda rng: P(rng, lambda r: bijx.AffineLinear((3,), (3,), rngs=r))
    return [
        I("AffineLinear", A, (3,)),
        I("Sinh", lambda rng: bijx.Sinh(), (2,)),
        I("Tan", lambda rng: bijx.Tan(), (3,), "U", "P"),
        I("Sigmoid", lambda rng: bijx.Sigmoid(), (2, 2), "R", "U"),
        I("Tanh", lambda rng: bijx.Tanh(), (3,), "R", "S"),
        I("Exponential", lambda rng: bijx.Exponential(), (3,), "R", "P"),
        I("SoftPlus", lambda rng: bijx.SoftPlus(), (3,), "R", "P"),
        I("Power", lambda rng: P(rng, lambda r: bijx.Power(jnp.ones(3) * 0.8, rngs=r), 0.2), (3,), "P", "P"),
        I("GaussianCDF", lambda rng: P(rng, lambda r: bijx.GaussianCDF((3,), (3,), rngs=r)), (3,), "R", "U"),
        I("BetaStretch", lambda rng: P(rng, lambda r: bijx.BetaStretch((3,), rngs=r)), (3,), "U", "U"),
        I("Scaling", lambda rng: P(rng, lambda r: bijx.Scaling(jnp.ones(3) * 1.5, rngs=r), 0.2), (2, 3)),
        I("Shift", lambda rng: P(rng, lambda r: bijx.Shift((3,), rngs=r)), (3,)),
        I("CubicRational", lambda rng: P(rng, lambda r: bijx.CubicRational((3,), (3,), (3,), rngs=r)), (3,)),
        I("SinhConjugation", lambda rng: P(rng, lambda r: bijx.SinhConjugation(*[(3,)] * 5, rngs=r)), (3,)),
        I("CubicConjugation", lambda rng: P(rng, lambda r: bijx.CubicConjugation(*[(3,)] * 4, rngs=r)), (3,)),
        I("MonotoneRQSpline", lambda rng: P(rng, lambda r: bijx.MonotoneRQSpline(6, (3,), rngs=r)), (3,), "U", "U"),
        I("Radial", lambda rng: P(rng, lambda r: bijx.Radial(bijx.RayTransform(bijx.CubicRational(rngs=r)), (3,), (3,), rngs=r)), (3,)),
        I("RadialConditional", radial_conditional, (3,)),
        I("RayTransform", lambda rng: P(rng, lambda r: bijx.RayTransform(bijx.CubicRational(rngs=r))), (2,), "P", "P"),
        I("split-coupling", lambda rng: coupling(rng, (2, 3), True), (2, 3)),
        I("multiplicative-coupling", lambda rng: coupling(rng, (2, 3), False), (2, 3)),
        I("spline-coupling", lambda rng: coupling(rng, (4,), True, lambda r: bijx.MonotoneRQSpline(5, (), rngs=r)), (4,), "U", "U"),
        I("Chain", lambda rng: bijx.Chain(A(rng), bijx.Sinh(), A(rng).invert(), coupling(rng, (3,), True)), (3,)),
        I("ScanChain", scan_chain, (3,)),
        I("Inverse", lambda rng: bijx.Inverse(bijx.Chain(A(rng), bijx.Sinh())), (3,)),
        I("CondInverse", lambda rng: bijx.CondInverse(A(rng), bool(rng.integers(2))), (3,)),
        I("Frozen", lambda rng: bijx.Frozen(A(rng)), (3,)),
        I("MetaLayer", lambda rng: bijx.Chain(bijx.Reshape((6,), (2, 3)), A(rng), bijx.Reshape((2, 3), (6,))), (6,)),
        I("ExpandDims", lambda rng: bijx.Chain(bijx.ExpandDims(-1), bijx.Sinh(), bijx.SqueezeDims(-1)), (3,)),
        I("SpectrumScaling", lambda rng: P(rng, lambda r: bijx.SpectrumScaling(nnx.Param(jnp.exp(jnp.asarray(rng.normal(size=(4, 2)) * 0.2)).at[1].set(1.3).at[3].set(1.3).at[:, 0].set(1.1).at[0, 0].set(0.8))), 0.0), (4, 3)),
        I("FreeTheoryScaling", lambda rng: bijx.FreeTheoryScaling(float(rng.uniform(0.5, 2)), (4, 3)), (4, 3)),
        I("ContFlowRK4", lambda rng: bijx.ContFlowRK4(Field(rng, 3), steps=rk(8)), (3,), kw=lambda rng: {"amp": jnp.asarray(rng.uniform(0.5, 1.5))}),
        I("ContFlowDiffrax", lambda rng: bijx.ContFlowDiffrax(Field(rng, 3), bijx.DiffraxConfig(dt=0.1)), (3,)),
        I("AutoJac-RK4", lambda rng: bijx.ContFlowRK4(bijx.AutoJacVF(Drift(rng, 3), event_dim=1), steps=rk(6)), (3,)),
        I(
            "ConvVF-RK4",
            lambda rng: bijx.ContFlowRK4(
                P(rng, lambda r: bijx.ConvVF.build(
                    (3, 3), (), rngs=r, time_kernel=E.KernelFourier(5), time_kernel_reduced=3, features_reduced=3,
                    features=(partial(F.FourierFeatures, 4), partial(F.PolynomialFeatures, (1,))),
                ), 0.2),
                steps=rk(5),
            ),
            (4, 3),
        ),
        I("ContFlowCG", lambda rng: bijx.ContFlowCG(MatField(rng, 2), t_start=0.0, t_end=1.0, steps=rk(5)), (2, 2), "SU", "SU"),
    ]


def gmm(rng):
    return bijx.GaussianMixture(
        jnp.asarray(rng.normal(size=(3, 2))), jnp.asarray(np.stack([np.eye(2) * s for s in rng.uniform(0.5, 2, size=3)])), jnp.asarray(rng.normal(size=3))
    )


def distributions():
    I = Item
    return [
        I("IndependentNormal", lambda rng: bijx.IndependentNormal((2, 2)), (2, 2)),
        I("IndependentUniform", lambda rng: bijx.IndependentUniform((3,)), (3,), "U"),
        I("MultivariateNormal", lambda rng: bijx.MultivariateNormal(jnp.asarray(rng.normal(size=2)), jnp.asarray([1.0, 0.3, 0.8])), (2,)),
        I("DiagonalNormal", lambda rng: bijx.DiagonalNormal(jnp.asarray(rng.normal(size=3)), jnp.asarray(rng.uniform(0.5, 2, size=3))), (3,)),
        I("GaussianMixture", gmm, (2,)),
        I("Transformed", lambda rng: bijx.Transformed(bijx.IndependentNormal((3,)), bijx.Chain(P(rng, lambda r: bijx.AffineLinear((3,), (3,), rngs=r)), bijx.Sinh())), (3,)),
        I("coupling-flow", lambda rng: bijx.Transformed(bijx.IndependentNormal((2, 3)), bijx.Chain(coupling(rng, (2, 3), True), coupling(rng, (2, 3), False))), (2, 3)),
        I("Haar", lambda rng: bijx.lie.HaarDistribution(2, (3,)), (3, 2, 2), "SU"),
    ]
