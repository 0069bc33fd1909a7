"""Independent numpy tools for SU(N) (no jax)."""

import itertools

import numpy as np
from scipy.linalg import expm


def su_basis(n):
    """Orthonormal basis of su(n) under <A, B> = tr(A^dagger B) / 2."""
    out = []
    for i, j in itertools.combinations(range(n), 2):
        a = np.zeros((n, n), complex)
        a[i, j] = a[j, i] = 1j
        b = np.zeros((n, n), complex)
        b[i, j], b[j, i] = 1, -1
        out += [a, b]
    for k in range(1, n):
        d = np.zeros(n)
        d[:k], d[k] = 1, -k
        out.append(1j * np.diag(d) * np.sqrt(2 / (k * (k + 1))))
    return np.stack(out) if out else np.zeros((0, n, n), complex)


def random_su(rng, n, shape=()):
    z = rng.normal(size=(*shape, n, n)) + 1j * rng.normal(size=(*shape, n, n))
    q, _ = np.linalg.qr(z)
    d = np.linalg.det(q)
    return q / (d ** (1 / n))[..., None, None]


def random_algebra(rng, n, shape=()):
    b = su_basis(n)
    return np.einsum("...e,eij->...ij", rng.normal(size=(*shape, len(b))), b)


_D1 = {1: 3 / 4, 2: -3 / 20, 3: 1 / 60}
_D2 = {0: -49 / 18, 1: 3 / 2, 2: -3 / 20, 3: 1 / 90}


def diff1(f, h=0.01):
    """f'(0), sixth order."""
    return sum(c * (np.asarray(f(k * h)) - np.asarray(f(-k * h))) for k, c in _D1.items()) / h


def diff2(f, h=0.02):
    """f''(0), sixth order."""
    return (_D2[0] * np.asarray(f(0.0)) + sum(_D2[k] * (np.asarray(f(k * h)) + np.asarray(f(-k * h))) for k in (1, 2, 3))) / h**2


__all__ = ["su_basis", "random_su", "random_algebra", "diff1", "diff2", "expm"]
