"""Independent ODE references (numpy/scipy only)."""

import numpy as np
from scipy.integrate import solve_ivp


def dop(f, y0, t0, t1, t_eval=None, rtol=1e-11, atol=1e-12):
    """Solve y' = f(t, y) for a complex or real array; returns y(t1) (or the list at t_eval)."""
    y0 = np.asarray(y0)
    cplx = np.iscomplexobj(y0)
    shp = y0.shape
    pack = (lambda y: np.concatenate([y.real.ravel(), y.imag.ravel()])) if cplx else (lambda y: y.ravel())

    def unpack(v):
        if cplx:
            h = v.size // 2
            return (v[:h] + 1j * v[h:]).reshape(shp)
        return v.reshape(shp)

    if t0 == t1 and t_eval is None:
        return y0
    s = solve_ivp(lambda t, v: pack(f(t, unpack(v))), (t0, t1), pack(y0).astype(float), method="DOP853",
                  rtol=rtol, atol=atol, t_eval=t_eval)
    assert s.success
    if t_eval is None:
        return unpack(s.y[:, -1])
    return np.stack([unpack(s.y[:, i]) for i in range(s.y.shape[1])])


def rk4(f, y0, t0, t1, steps):
    h = (t1 - t0) / steps
    y, t = np.asarray(y0, float), t0
    for i in range(steps):
        t = t0 + i * h
        k1 = f(t, y)
        k2 = f(t + h / 2, y + h * k1 / 2)
        k3 = f(t + h / 2, y + h * k2 / 2)
        k4 = f(t + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y
