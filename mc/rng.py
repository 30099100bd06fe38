"""Random number generators whose every answer is decided by the harness."""

from __future__ import annotations

import numpy as np
from scipy.special import ndtri


def _np(x):
    return np.asarray(x)


def _size(size, *params):
    if size is None:
        return np.broadcast_shapes(*[np.shape(_np(p)) for p in params]) if params else ()
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


class ScriptRNG:
    """
    Implements the generator interface of glass on top of three sources.

    ``unit(shape)`` returns the numbers of a uniform draw in [0, 1), ``gauss(shape)``
    those of a standard normal draw, ``count(lam)`` those of a Poisson draw with the
    given (broadcast) expectations, and ``multi(n, pvals)`` of one multinomial draw.
    """

    def __init__(self, unit=None, gauss=None, count=None, multi=None):
        self.unit, self.gauss, self.count, self.multi = unit, gauss, count, multi
        self.calls = []

    def _need(self, f, name):
        if f is None:
            raise AssertionError(f"unexpected use of {name} random numbers")
        return f

    def _u(self, shape):
        u = np.array(self._need(self.unit, "uniform")(shape), dtype=np.float64)
        return u.reshape(shape)

    def _z(self, shape):
        z = np.array(self._need(self.gauss, "normal")(shape), dtype=np.float64)
        return z.reshape(shape)

    def random(self, size=None, dtype=None, out=None):
        s = _size(size)
        self.calls.append(("uniform", s))
        return self._u(s)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = _np(low), _np(high)
        s = _size(size, low, high)
        self.calls.append(("uniform", s))
        return low + (high - low) * self._u(s)

    def standard_normal(self, size=None, dtype=None, out=None):
        s = _size(size)
        self.calls.append(("normal", s))
        return self._z(s)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = _np(loc), _np(scale)
        s = _size(size, loc, scale)
        self.calls.append(("normal", s))
        return loc + scale * self._z(s)

    def poisson(self, lam=1.0, size=None):
        lam = _np(lam).astype(np.float64)
        s = _size(size, lam)
        self.calls.append(("poisson", s))
        lam = np.broadcast_to(lam, s)
        if (lam < 0).any() or np.isnan(lam).any():
            raise ValueError("lam < 0 or lam contains NaNs")
        return np.array(self._need(self.count, "Poisson")(lam), dtype=np.int64).reshape(s)

    def multinomial(self, n, pvals, size=None):
        f = self._need(self.multi, "multinomial")
        n, pvals = _np(n), _np(pvals).astype(np.float64)
        if (pvals < 0).any() or (pvals.sum(axis=-1) > 1 + 1e-9).any():
            raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
        s = _size(size, n, np.zeros(pvals.shape[:-1]))
        self.calls.append(("multinomial", s))
        n = np.broadcast_to(n, s)
        p = np.broadcast_to(pvals, (*s, pvals.shape[-1]))
        out = np.zeros(p.shape, dtype=np.int64)
        for k in np.ndindex(*s):
            out[k] = f(int(n[k]), p[k])
        return out


class SeqSource:
    """Serve numbers of an endless sequence f(0), f(1), ... in order of use."""

    def __init__(self, f):
        self.f, self.i = f, 0

    def __call__(self, shape):
        n = int(np.prod(shape))
        r = np.array([self.f(self.i + k) for k in range(n)], dtype=np.float64)
        self.i += n
        return r.reshape(shape)


def weyl(i, offset=0.0):
    """Deterministic well-spread sequence in (0, 1): all values distinct."""
    return (0.5 + offset + (i + 1) * 0.6180339887498949) % 1.0


class Impulse:
    """Normal random numbers that are all zero except for number ``hot``."""

    def __init__(self, hot=None, value=1.0):
        self.hot, self.value, self.i = hot, value, 0

    def __call__(self, shape):
        n = int(np.prod(shape))
        z = np.zeros(n)
        if self.hot is not None and self.i <= self.hot < self.i + n:
            z[self.hot - self.i] = self.value
        self.i += n
        return z.reshape(shape)
