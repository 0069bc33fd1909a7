"""C37: reverse-mode gradients of values and densities are the derivatives of what was computed, for inputs, parameters and arguments."""

from vlib.core import unit
from vlib.jx import *
from vlib import pool

PROP = "C37"
RULE = (
    "one randomised instance of every public bijection (35, forward and reverse) and distribution (8, density and reparameterised "
    "samples); the gradient of a random linear functional of value and log-density along random directions of inputs, parameters and "
    "call-time arguments is compared with sixth-order differencing of the executed map at two step sizes; non-trivial = map with a derivative"
)
ASSUMPTIONS = ["float64", "points away from knots and kinks up to the observed disagreement of the two step sizes"]
MIN_COUNTERS = {"directions": 120, "parameters": 25, "inputs": 60}
PARTS = 8
W = {1: 3 / 4, 2: -3 / 20, 3: 1 / 60}


def floats(tree):
    return jax.tree.map(lambda v: v if hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jnp.floating) else None, tree)


def direction(rng, tree):
    return jax.tree.map(lambda v: jnp.asarray(rng.normal(size=v.shape), v.dtype), tree)


def compare(ctx, loss, arg, key, name, rng):
    """loss: jitted scalar function of one pytree of floats."""
    okc, g = ctx.call(f"{key}:grad:{name}", jax.jit(jax.grad(loss)), arg)
    if not okc:
        return
    run = jax.jit(loss)
    for _ in range(2):
        d = direction(rng, arg)
        got = sum(float(jnp.sum(a * b)) for a, b in zip(jax.tree.leaves(g), jax.tree.leaves(d)))
        fd = []
        for h in (2e-3, 1e-3):
            step = lambda t: float(run(jax.tree.map(lambda v, e: v + t * e, arg, d)))
            fd.append(sum(w * (step(k * h) - step(-k * h)) for k, w in W.items()) / h)
        size = sum(float(jnp.sum(jnp.abs(a * b))) for a, b in zip(jax.tree.leaves(g), jax.tree.leaves(d)))
        ctx.saw("directions")
        rel = 1e-2 if "CG" in name else 1e-4 if "RK4" in name else 1e-7  # continuous adjoints (odeint_rk4, crouch_grossmann) agree up to the step error
        ctx.close(np.float64(got), np.float64(fd[1]), key, atol=1e-7, scale=rel * size + 20 * abs(fd[0] - fd[1]), name=name)


def bijection_part(ctx, part):
    rng = ctx.rng
    for rep in range(ctx.n(1, 5)):
        for it in pool.bijections(rk_steps=40)[part::PARTS]:
            m = it.build(rng)
            graph, prm, rest = nnx.split(m, nnx.Param, ...)
            for dr, dom in (("forward", it.dom), ("reverse", it.out)):
                kw = it.kw(rng)
                x, ld = jnp.asarray(it.draw(rng, (2,), dom)), jnp.asarray(rng.normal(size=2))
                a, b = rng.normal(size=x.shape), rng.normal(size=2)
                if jnp.iscomplexobj(x):
                    a = a + 1j * rng.normal(size=x.shape)
                name = f"{it.name}.{dr}"
                ctx.case({"module": name, "x": x}, sig=(name, rep))

                def loss(p, x, ld, kw):
                    y, l = getattr(nnx.merge(graph, p, rest), dr)(x, ld, **kw)
                    w = jnp.asarray(a).reshape(y.shape)
                    return jnp.sum((w * y).real) + jnp.sum(jnp.asarray(b) * l)

                if not jnp.iscomplexobj(x):
                    ctx.saw("inputs")
                    compare(ctx, lambda t: loss(prm, t[0], t[1], t[2]), (x, ld, kw), "input-gradient", name, rng)
                if jax.tree.leaves(prm):
                    ctx.saw("parameters")
                    compare(ctx, lambda p: loss(p, x, ld, kw), prm, "parameter-gradient", name, rng)


for _p in range(PARTS):

    def _u(ctx, _p=_p):
        bijection_part(ctx, _p)

    _u.__name__ = f"bijections_{_p}"
    unit(PROP, name=_u.__name__)(_u)


@unit(PROP)
def distributions(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(1, 5)):
        for it in pool.distributions()[:-1]:
            m = it.build(rng)
            graph, prm, rest = nnx.split(m, nnx.Param, ...)
            x = jnp.asarray(it.draw(rng, (2,)))
            b = jnp.asarray(rng.normal(size=2))
            ctx.case({"distribution": it.name, "x": x}, sig=(it.name, rep))
            ctx.saw("inputs")
            ld = lambda p, x: jnp.sum(b * nnx.merge(graph, p, rest).log_density(x))
            compare(ctx, lambda x: ld(prm, x), x, "density-input-gradient", it.name, rng)
            if not jax.tree.leaves(prm):
                continue
            ctx.saw("parameters")
            compare(ctx, lambda p: ld(p, x), prm, "density-parameter-gradient", it.name, rng)
            if "Mixture" in it.name:
                continue
            k = ctx.key()
            w = jnp.asarray(rng.normal(size=(2,) + it.ev))

            def reparam(p):
                s, l = nnx.merge(graph, p, rest).sample((2,), rng=k)
                return jnp.sum(w * s) + jnp.sum(b * l)

            compare(ctx, reparam, prm, "sample-parameter-gradient", it.name, rng)
