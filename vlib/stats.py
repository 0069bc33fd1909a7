"""Statistical oracles with fixed, very small error levels (no jax)."""

import numpy as np
from scipy import stats


def ks(u):
    """Kolmogorov-Smirnov distance of values u from uniform(0, 1) and its 1e-10 level bound."""
    u = np.sort(np.asarray(u, float).ravel())
    n = u.size
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    return d, np.sqrt(-0.5 * np.log(0.5e-10) / n)


def zbin(k, p, n):
    """z value of k successes out of n at probability p."""
    return (k - n * p) / np.sqrt(max(n * p * (1 - p), 1e-12))


def mvn_logpdf(x, mean, cov):
    """Closed form via eigendecomposition (independent of any Cholesky code)."""
    w, v = np.linalg.eigh(cov)
    z = (x - mean) @ v / np.sqrt(w)
    return -0.5 * np.sum(z * z, -1) - 0.5 * np.sum(np.log(w)) - 0.5 * len(w) * np.log(2 * np.pi)


def phi(z):
    return stats.norm.cdf(z)
