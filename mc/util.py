"""Shared helpers of the harnesses."""

from __future__ import annotations

import itertools

import numpy as np

from mc.setup_env import BACKENDS, to_np


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False))


def expect_close(env, got, want, msg, rtol=1e-9, atol=1e-12, key=None, **details):
    g, w = to_np(got), np.asarray(want)
    if g.shape != w.shape:
        env.fail(f"{msg}: shape {g.shape} instead of {w.shape}", key, got=g, want=w, **details)
    env.check(
        np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=False),
        f"{msg}: values differ", key, got=g, want=w, **details,
    )


def expect_raises(env, exc, func, msg, **details):
    try:
        r = func()
    except exc:
        env.checks += 1
        return
    except Exception as e:  # noqa: BLE001
        env.fail(f"{msg}: raised {type(e).__name__}: {e}", **details)
    env.fail(f"{msg}: was accepted", result=r, **details)


def is_backend(x, xp):
    name = {"numpy": "numpy", "array_api_strict": "array_api_strict", "jax.numpy": "jax"}[xp.__name__]
    if name == "numpy":
        return isinstance(x, (np.ndarray, np.generic))
    return type(x).__module__.split(".")[0] in (name, "jaxlib" if name == "jax" else name)


def choose_backend(env, names=("numpy", "strict", "jax")):
    return BACKENDS[env.choose("backend", list(names))]


def product(*args, **kw):
    return list(itertools.product(*args, **kw))


class Cosmo:
    """A flat matter + Lambda cosmology with analytic functions by quadrature."""

    def __init__(self, om=0.3, dh=4.4e3):
        self.om, self._dh = om, dh
        z = np.concatenate([np.linspace(0, 10, 20001)])
        self._z = z
        e = np.sqrt(om * (1 + z) ** 3 + 1 - om)
        f = dh / e
        self._x = np.concatenate([[0.0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(z))])

    Omega_m0 = property(lambda self: self.om)
    critical_density0 = 3e4
    hubble_distance = property(lambda self: self._dh)

    def _xp(self, z):
        return z.__array_namespace__() if hasattr(z, "__array_namespace__") else np

    def _wrap(self, z, v):
        xp = self._xp(z)
        return xp.asarray(v) if xp is not np else v

    def H_over_H0(self, z):
        zz = np.asarray(z)
        v = np.sqrt(self.om * (1 + zz) ** 3 + 1 - self.om)
        return float(v) if isinstance(z, (int, float)) else self._wrap(z, v)

    def Omega_m(self, z):
        zz = np.asarray(z)
        return self._wrap(z, self.om * (1 + zz) ** 3 / (self.om * (1 + zz) ** 3 + 1 - self.om))

    def rho_m_z(self, z):
        zz = np.asarray(z)
        return self._wrap(z, self.om * self.critical_density0 * (1 + zz) ** 3)

    def _cd(self, z):
        if isinstance(z, (list, tuple)):
            z = [float(v) for v in z]
        return np.interp(np.asarray(z), self._z, self._x)

    def comoving_distance(self, z, z2=None):
        if z2 is None:
            return self._wrap(z, self._cd(z))
        return self._wrap(z, self._cd(z2) - self._cd(z))

    def inv_comoving_distance(self, dc):
        return self._wrap(dc, np.interp(np.asarray(dc), self._x, self._z))

    def transverse_comoving_distance(self, z, z2=None):
        return self.comoving_distance(z, z2)


class CurvedCosmo(Cosmo):
    """As Cosmo, but with spatial curvature: K in units of the Hubble distance."""

    def __init__(self, om=0.3, dh=4.4e3, k=0.5):
        super().__init__(om, dh)
        self.k = k

    def transverse_comoving_distance(self, z, z2=None):
        x = self._cd(z) if z2 is None else self._cd(z2) - self._cd(z)
        x = x / self._dh
        r = abs(self.k) ** 0.5
        x = np.sin(r * x) / r if self.k > 0 else np.sinh(r * x) / r if self.k < 0 else x
        return self._wrap(z2 if z2 is not None else z, x * self._dh)
