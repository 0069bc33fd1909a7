"""JAX side helpers (import only inside workers)."""

import jax

jax.config.update("jax_enable_x64", True)

import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from flax import nnx  # noqa: E402

import bijx  # noqa: E402

EPS = np.finfo(np.float64).eps


def N(x):
    return np.asarray(x)


def elementwise_grad(f, x):
    """d f(x)_i / d x_i for an elementwise map (exact forward-mode derivative)."""
    x = jnp.asarray(x)
    _, t = jax.jvp(f, (x,), (jnp.ones_like(x),))
    return t


def flat_logdet(f, x, out_shape=None):
    """log|det J| of a map R^n -> R^n at one point (any event shape), via jacfwd."""
    x = jnp.asarray(x)
    shp = x.shape

    def g(v):
        return jnp.ravel(f(v.reshape(shp)))

    j = np.asarray(jax.jit(jax.jacfwd(g))(x.ravel()))
    s, ld = np.linalg.slogdet(j)
    return np.asarray(ld), j


def tree_params(mod):
    """All float leaves of a module's state as a list of (path, array)."""
    st = nnx.state(mod)
    return [
        (p, v)
        for p, v in jax.tree_util.tree_flatten_with_path(st)[0]
        if hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jnp.floating)
    ]


def perturb(mod, rng, scale=0.5, only=nnx.Param):
    """Randomise every trainable parameter in place (so init values hide nothing)."""
    st = nnx.state(mod, only)

    def f(a):
        if hasattr(a, "dtype") and jnp.issubdtype(a.dtype, jnp.floating):
            return a + jnp.asarray(scale * rng.normal(size=a.shape), a.dtype)
        return a

    nnx.update(mod, jax.tree.map(f, st))
    return mod


__all__ = [
    "jax", "jnp", "np", "nnx", "bijx", "EPS", "N", "elementwise_grad",
    "flat_logdet", "tree_params", "perturb",
]
