"""Catalogue of calls to all public functions.

Every case is a function of the environment that chooses data and optional arguments,
and returns the inputs (nested NumPy arrays) and a function that performs the call.
The catalogue is shared by the checks that hold for every function: inputs are not
modified, results are independent, and backends agree.
"""

from __future__ import annotations

import numpy as np

import glass
import glass.algorithm
import glass.arraytools
import glass.harmonics
import glass.healpix as hp
from mc.rng import ScriptRNG, SeqSource, ndtri, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import Cosmo

CASES = {}
COSMOLOGIES = {}


def cosmo(om=0.3):
    """One object for each cosmology, as in real use."""
    if om not in COSMOLOGIES:
        COSMOLOGIES[om] = Cosmo(om)
    return COSMOLOGIES[om]


ALL = ("numpy", "strict", "jax")
NOSTRICT = ("numpy", "jax")


class Case:
    def __init__(self, name, func, backends, exempt, rtol, slow):
        self.name, self.func, self.backends, self.exempt, self.rtol, self.slow = name, func, backends, exempt, rtol, slow


def case(backends=ALL, views=False, rtol=1e-9, slow=False):
    """Register a case; ``views`` if results are views of inputs by purpose."""

    def deco(f):
        CASES[f.__name__] = Case(f.__name__, f, backends, views, rtol, slow)
        return f

    return deco


def a(*x):
    return np.array(x, dtype=float)


def ramp(shape, d=0, lo=-1.0, hi=1.0):
    """Deterministic values; d=1 has zeros, d=2 constant and extreme values."""
    n = int(np.prod(shape))
    x = lo + (hi - lo) * ((0.3 + 0.618033988749895 * np.arange(1, n + 1)) % 1.0)
    if d == 1:
        x[::2] = 0.0
    if d == 2 and n:
        x[0], x[-1] = lo, hi
    return x.reshape(shape)


def conv(xp, o):
    """Convert arrays within nested structures."""
    if isinstance(o, np.ndarray):
        return o if xp is np else xp.asarray(o)
    if isinstance(o, glass.RadialWindow):
        return glass.RadialWindow(conv(xp, o.za), conv(xp, o.wa), o.zeff)
    if isinstance(o, tuple):
        return tuple(conv(xp, v) for v in o)
    if isinstance(o, list):
        return [conv(xp, v) for v in o]
    if isinstance(o, dict):
        return {k: conv(xp, v) for k, v in o.items()}
    return o


def arrays(o):
    """All arrays within nested structures."""
    if isinstance(o, (tuple, list)):
        return [v for x in o for v in arrays(x)]
    if isinstance(o, dict):
        return [v for x in o.values() for v in arrays(x)]
    if isinstance(o, glass.RadialWindow):
        return [*arrays(o.za), *arrays(o.wa), *arrays(o.zeff)]
    return [o] if hasattr(o, "__array_namespace__") else []


def leaves(o):
    """All leaves of a nested result, with their structure."""
    if isinstance(o, (tuple, list)):
        return [v for x in o for v in leaves(x)]
    if isinstance(o, dict):
        return [v for k in o for v in leaves(o[k])]
    if isinstance(o, glass.RadialWindow):
        return [o.za, o.wa, o.zeff]
    return [o]


class XRNG:
    """Scripted random numbers, as arrays of a backend."""

    def __init__(self, xp, offset=0.0):
        unit, gauss = SeqSource(lambda i: weyl(i, offset)), SeqSource(lambda i: weyl(3 * i, 0.1 + offset))
        self.rng = ScriptRNG(
            unit=unit, gauss=lambda s: ndtri(gauss(s)),
            count=lambda lam: np.floor(lam + 0.5).astype(int), multi=self.multi,
        )
        self.xp, self.draws = xp, 0

    @staticmethod
    def multi(n, p):
        c = np.floor(np.cumsum(p) * n + 1e-9).astype(int)
        return np.diff(np.concatenate([[0], c]))

    def __getattr__(self, name):
        f = getattr(self.rng, name)

        def draw(*args, **kw):
            self.draws += 1
            if self.draws > 5000:
                raise RuntimeError("sampling does not end")
            dtype = kw.pop("dtype", None)
            args = [to_np(x) if hasattr(x, "__array_namespace__") else x for x in args]
            kw = {k: to_np(x) if hasattr(x, "__array_namespace__") else x for k, x in kw.items()}
            r = f(*args, **kw)
            return self.xp.asarray(r) if dtype is None else self.xp.asarray(r, dtype=dtype)

        return draw


def rng_of(xp, offset=0.0):
    return XRNG(xp, offset)


# -- fields ---------------------------------------------------------------------

CLS2 = [a(1.0, 0.8, 0.5, 0.2), a(0.9, 0.7, 0.4, 0.1), a(0.3, 0.2, 0.1, 0.05)]
CLS3 = [*CLS2, a(0.7, 0.6, 0.3, 0.2), a(0.2, 0.1, 0.05, 0.01), a(0.1, 0.05, 0.0, 0.0)]


def spectra(env):
    return {
        "two": [c.copy() for c in CLS2], "three": [c.copy() for c in CLS3],
        "ragged": [a(1.0, 0.8, 0.5), a(0.9, 0.7), np.zeros(0)],
    }[env.choose("spectra", ["two", "three", "ragged"])]


@case()
def cls2cov(env):
    cls = [c.copy() for c in CLS3]
    nc = env.choose("nc", [0, 1, 2])
    # the yielded buffer is reused by the next field
    return {"cls": cls}, lambda xp, i, r: [xp.asarray(to_np(c).copy()) for c in glass.cls2cov(i["cls"], 4, 3, nc)]


@case()
def iternorm(env):
    n = env.choose("shape", [(), (3,)])
    covs = [ramp((*n, k + 1), 0, 0.05, 0.2) for k in range(3)]
    for c in covs:
        c[..., 0] = 1.0 + c[..., 0]

    def call(xp, i, r):
        out = []
        for x in glass.iternorm(i["covs"]):
            out.append(xp.asarray(to_np(x).copy()))
        return out

    return {"covs": covs}, call


@case(views=True)
def discretized_cls(env):
    cls = spectra(env)
    lmax = env.choose("lmax", [None, 1, 6])
    ncorr = env.choose("ncorr", [None, 0, 1])
    nside = env.choose("nside", [None, 1, 2])
    if nside and any(len(c) == 0 for c in cls):
        cls = cls[:1]
    return {"cls": cls}, lambda xp, i, r: glass.discretized_cls(i["cls"], lmax=lmax, ncorr=ncorr, nside=nside)


@case()
def effective_cls(env):
    cls = [c.copy() for c in CLS3]
    lmax = env.choose("lmax", [None, 2, 6])
    s1 = env.choose("weights1", [(3,), (3, 2), (3, 1, 2)])
    s2 = env.choose("weights2", [None, (3,), (3, 2)])
    d = env.choose("data", [0, 1])
    i = {"cls": cls, "w1": ramp(s1, d), "w2": None if s2 is None else ramp(s2, 2)}
    return i, lambda xp, i, r: glass.effective_cls(i["cls"], i["w1"], i["w2"], lmax=lmax)


FIELDS = {
    "normal": lambda: glass.grf.Normal(), "lognormal": lambda: glass.grf.Lognormal(), "shifted": lambda: glass.grf.Lognormal(0.5), "squared": lambda: glass.grf.SquaredNormal(0.5),
}


def transformations(env, n):
    f = [env.choose("field0", list(FIELDS))]
    if n > 1:
        f += [env.choose("field1", ["squared"] if f[0] == "squared" else [k for k in FIELDS if k != "squared"])]
    return [FIELDS[f[k % len(f)]]() for k in range(n)]


@case(NOSTRICT)
def compute_gaussian_spectra(env):
    cls = [1e-2 * c for c in (CLS2 if env.choose("fields", [2, 3]) == 2 else CLS3)]
    t = [glass.grf.Normal() if k == 0 else glass.grf.Lognormal(1.0) for k in range(2 if len(cls) == 3 else 3)]
    return {"cls": cls}, lambda xp, i, r: glass.compute_gaussian_spectra(t, i["cls"])


@case(rtol=1e-6)
def solve_gaussian_spectra(env):
    cls = [1e-2 * c for c in CLS2]
    t = transformations(env, 2)
    return {"cls": cls}, lambda xp, i, r: glass.solve_gaussian_spectra(t, i["cls"])


@case(NOSTRICT)
def lognormal_gls(env):
    cls = [1e-2 * c for c in CLS2]
    shift = env.choose("shift", [1.0, 0.5])
    return {"cls": cls}, lambda xp, i, r: glass.lognormal_gls(i["cls"], shift)


def _fields(env):
    kind = env.choose("set", ["two", "three"])
    return [c.copy() for c in (CLS2 if kind == "two" else CLS3)], 2 if kind == "two" else 3


@case()
def generate(env):
    cls, n = _fields(env)
    ncorr = env.choose("ncorr", [None, 0, 1])
    nside = env.choose("nside", [1, 2])
    t = transformations(env, n)
    return {"gls": cls}, lambda xp, i, r: list(glass.generate(t, i["gls"], nside, ncorr=ncorr, rng=r))


@case()
def generate_gaussian(env):
    cls, n = _fields(env)
    ncorr = env.choose("ncorr", [None, 0, 1])
    return {"gls": cls}, lambda xp, i, r: list(glass.generate_gaussian(i["gls"], 2, ncorr=ncorr, rng=r))


@case()
def generate_lognormal(env):
    cls, n = _fields(env)
    shift = env.choose("shift", [1.0, 0.5])
    return {"gls": cls}, lambda xp, i, r: list(glass.generate_lognormal(i["gls"], 2, shift, rng=r))


@case(views=True)
def getcl(env):
    cls = [c.copy() for c in CLS3]
    i, j = env.choose("pair", [(0, 0), (1, 0), (0, 2), (2, 2)])
    lmax = env.choose("lmax", [None, 1, 3, 6])
    return {"cls": cls}, lambda xp, x, r: glass.getcl(x["cls"], i, j, lmax)


@case(views=True)
def enumerate_spectra(env):
    return {"cls": spectra(env)}, lambda xp, i, r: list(glass.enumerate_spectra(i["cls"]))


@case(views=True)
def orders(env):
    f = env.choose("function", [glass.glass_to_healpix_spectra, glass.healpix_to_glass_spectra])
    return {"cls": spectra(env)}, lambda xp, i, r: f(i["cls"])


@case()
def cov_from_spectra(env):
    lmax = env.choose("lmax", [None, 1, 5])
    return {"cls": spectra(env)}, lambda xp, i, r: glass.cov_from_spectra(i["cls"], lmax=lmax)


@case()
def check_posdef_spectra(env):
    cls = spectra(env)
    if env.choose("negative", [False, True]):
        cls[0] = -cls[0]
    return {"cls": cls}, lambda xp, i, r: bool(glass.check_posdef_spectra(i["cls"]))


@case(rtol=1e-6)
def regularized_spectra(env):
    method = env.choose("method", ["nearest", "clip"])
    lmax = env.choose("lmax", [None, 2, 5])
    cls = [c.copy() for c in CLS3]
    cls[2][...] = 0.9
    return {"cls": cls}, lambda xp, i, r: glass.regularized_spectra(i["cls"], lmax=lmax, method=method)


# -- grf --------------------------------------------------------------------------


@case(views=True)
def grf_corr(env):
    t = transformations(env, 2)
    f = env.choose("function", [glass.grf.corr, glass.grf.icorr, glass.grf.dcorr])
    d = env.choose("data", [0, 1, 2])
    x = ramp((2, 3) if d == 0 else (4,), d, -0.2, 0.3)
    if f is glass.grf.icorr:
        x = np.abs(x) * 0.5
    return {"x": x}, lambda xp, i, r: f(*t, i["x"])


@case(rtol=1e-6)
def grf_solve(env):
    t = transformations(env, 2)
    pad = env.choose("pad", [0, 3])
    init = env.choose("initial", [False, True])
    mono = env.choose("monopole", [None, 0.0])
    i = {"cl": 1e-2 * CLS2[0], "initial": 0.9e-2 * CLS2[0] if init else None}
    return i, lambda xp, i, r: glass.grf.solve(i["cl"], *t, pad=pad, initial=i["initial"], monopole=mono)


@case(NOSTRICT)
def grf_compute(env):
    t = [FIELDS[env.choose("field", ["normal", "lognormal", "shifted"])]()] * 2
    return {"cl": 1e-2 * CLS2[env.choose("spectrum", [0, 1])]}, lambda xp, i, r: glass.grf.compute(i["cl"], *t)


@case(views=True)
def transformation(env):
    t = FIELDS[env.choose("field", list(FIELDS))]()
    d = env.choose("data", [0, 1, 2])
    return {"x": ramp((5,), d), "var": 0.25}, lambda xp, i, r: t(i["x"], i["var"])


# -- shells -------------------------------------------------------------------------


def shells(n=3):
    z = a(0.0, 0.5, 0.9, 1.6, 2.0)
    w = [a(1.0, 0.6, 0.0, 0.0, 0.0), a(0.0, 0.5, 1.0, 0.3, 0.0), a(0.0, 0.0, 0.0, 0.7, 1.0)]
    return [glass.RadialWindow(z.copy(), w[k], [0.3, 1.0, 1.8][k]) for k in range(n)]


@case()
def windows(env):
    f = env.choose("function", [glass.tophat_windows, glass.linear_windows, glass.cubic_windows])
    dz = env.choose("dz", [0.3, 0.05])
    grid = env.choose("grid", [a(0.0, 0.5, 1.0, 2.0), a(0.1, 0.2, 0.5, 0.6, 1.0)])
    weight = env.choose("weight", [None, "cosmology", "other"])
    wf = None if weight is None else glass.DistanceWeight(cosmo(0.3 if weight == "cosmology" else 0.6))
    return {"grid": grid}, lambda xp, i, r: f(i["grid"], dz, wf)


@case()
def weights(env):
    f, om = env.choose("weight", [glass.DensityWeight, glass.DistanceWeight, glass.VolumeWeight]), env.choose("cosmology", [0.3, 0.6])
    w = f(cosmo(om))
    return {"z": env.choose("z", [a(0.0, 0.5, 2.0), np.linspace(0.1, 1.0, 4).reshape(2, 2)])}, lambda xp, i, r: w(i["z"])


@case(views=True)
def restrict(env):
    k = env.choose("shell", [0, 1, 2])
    z = env.choose("z", [a(0.0, 0.7, 1.1, 3.0), a(0.1, 0.2), a(0.0, 0.5, 1.0, 1.5, 2.0)])
    lead = env.choose("leading", [(), (2,)])
    return {"z": z, "f": ramp((*lead, len(z)), 2, 0.0, 3.0), "w": shells()[k]}, lambda xp, i, r: glass.restrict(i["z"], i["f"], i["w"])


@case(rtol=1e-7)
def partition(env):
    method = env.choose("method", ["nnls", "lstsq", "restrict"])
    lead = env.choose("leading", [(), (2,)])
    z = a(0.0, 0.1, 0.5, 0.8, 1.0, 1.3, 1.6, 1.9, 2.0)
    d = env.choose("data", [0, 1])
    return {"z": z, "fz": ramp((*lead, 9), d, 0.0, 3.0), "shells": shells()}, lambda xp, i, r: glass.partition(i["z"], i["fz"], i["shells"], method=method)


@case()
def combine(env):
    s = env.choose("weights", [(3,), (3, 2), (3, 1, 2)])
    return {"z": a(0.0, 0.4, 1.0, 1.7, 1.9, 2.5), "w": ramp(s, 2, 0.0, 2.0), "shells": shells()}, lambda xp, i, r: glass.combine(i["z"], i["w"], i["shells"])


@case()
def distribute(env):
    z = a(0.0, 0.2, 0.6, 1.0, 1.4, 1.9, 2.0, 0.7).reshape(env.choose("shape", [(8,), (2, 4), (2, 2, 2)]))
    return {"z": z, "shells": shells()}, lambda xp, i, r: glass.distribute(i["z"], i["shells"], rng=r)


@case()
def grids(env):
    kind = env.choose("grid", ["redshift dz", "redshift num", "distance dx", "distance num"])
    c = cosmo()

    def call(xp, i, r):
        if kind == "redshift dz":
            return glass.redshift_grid(0.1, 0.8, dz=0.2, xp=xp)
        if kind == "redshift num":
            return glass.redshift_grid(0.1, 0.8, num=4, xp=xp)
        return None

    return {}, call


@case()
def fields_of_shells(env):
    kind = env.choose("kind", ["gaussian", "lognormal", "shifted"])

    def call(xp, i, r):
        if kind == "gaussian":
            f = glass.gaussian_fields(i["shells"])
        else:
            f = glass.lognormal_fields(i["shells"], None if kind == "lognormal" else glass.lognormal_shift_hilbert2011)
        return [float(getattr(x, "lamda", 0.0)) for x in f]

    return {"shells": shells()}, call


# -- lensing --------------------------------------------------------------------------


def kmap(nside, d=0):
    return ramp((12 * nside**2,), d, -0.1, 0.1)


@case()
def from_convergence(env):
    flags = env.choose("flags", [(p, q, s) for p in (0, 1) for q in (0, 1) for s in (0, 1)])
    lmax = env.choose("lmax", [None, 3])
    disc = env.choose("discretized", [False, True])
    nside = env.choose("nside", [2, 4])
    kw = dict(zip(("potential", "deflection", "shear"), map(bool, flags)))
    return {"kappa": kmap(nside)}, lambda xp, i, r: glass.from_convergence(i["kappa"], lmax, discretized=disc, **kw)


@case(("numpy",))
def shear_from_convergence(env):
    disc = env.choose("discretized", [False, True])
    return {"kappa": kmap(4)}, lambda xp, i, r: glass.shear_from_convergence(i["kappa"], discretized=disc)


@case()
def multi_plane(env):
    n = env.choose("planes", [1, 2, 3])
    sh = shells()
    om = env.choose("cosmology", [0.3, 0.6])
    maps = [kmap(1, k) for k in range(n)]

    def call(xp, i, r):
        m = glass.MultiPlaneConvergence(cosmo(om))
        out = []
        for d, w in zip(i["maps"], i["shells"]):
            m.add_window(d, w)
            out += [xp.asarray(to_np(m.kappa).copy()), xp.asarray(to_np(m.delta).copy())]
        return out

    return {"maps": maps, "shells": sh[:n]}, call


@case()
def multi_plane_weights(env):
    s = env.choose("shape", [(3,), (3, 2)])
    d = env.choose("data", [0, 1])
    om = env.choose("cosmology", [0.3, 0.6])
    return {"w": np.abs(ramp(s, d)) + 0.1, "shells": shells()}, lambda xp, i, r: glass.multi_plane_weights(i["w"], i["shells"], cosmo(om))


@case()
def multi_plane_matrix(env):
    n, om = env.choose("planes", [1, 2, 3]), env.choose("cosmology", [0.3, 0.6])
    return {"shells": shells(n)}, lambda xp, i, r: glass.multi_plane_matrix(i["shells"], cosmo(om))


def points(n=5):
    return np.linspace(-170.0, 170.0, n), np.linspace(-80.0, 85.0, n)


@case()
def deflect(env):
    kind = env.choose("deflection", ["complex", "real"])
    d = env.choose("data", [0, 1])
    scale = env.choose("scale", [1e-3, 0.5])
    lon, lat = points()
    al = ramp((5, 2), d) * scale if kind == "real" else scale * (ramp((5,), d) + 1j * ramp((5,), 2))
    if kind == "real":
        al = al.T.copy()
    return {"lon": lon, "lat": lat, "alpha": al}, lambda xp, i, r: glass.deflect(i["lon"], i["lat"], i["alpha"])


@case()
def displace(env):
    kind = env.choose("displacement", ["complex", "real"])
    d = env.choose("data", [0, 1])
    scale = env.choose("scale", [1e-3, 0.5])
    lon, lat = points()
    al = (ramp((5, 2), d) * scale) if kind == "real" else scale * (ramp((5,), d) + 1j * ramp((5,), 2))
    if kind == "real":
        al = al.T.copy()
    return {"lon": lon, "lat": lat, "alpha": al}, lambda xp, i, r: glass.displace(i["lon"], i["lat"], i["alpha"])


@case()
def displacement(env):
    lon, lat = points()
    same = env.choose("points", ["same", "other", "broadcast"])
    to = (lon.copy(), lat.copy()) if same == "same" else (lon[::-1].copy(), lat + 3.0) if same == "other" else (lon[:1].copy(), lat[:1].copy())
    i = {"a": lon, "b": lat, "c": to[0], "d": to[1]}
    return i, lambda xp, i, r: glass.displacement(i["a"], i["b"], i["c"], i["d"])


@case()
def galaxy_shear(env):
    red = env.choose("reduced", [True, False])
    d = env.choose("data", [0, 1])
    lon, lat = points()
    i = {"lon": lon, "lat": lat, "eps": 0.5 * (ramp((5,), d) + 0.5j * ramp((5,), 2)), "kappa": kmap(2), "g1": kmap(2, 1), "g2": kmap(2, 2)}
    return i, lambda xp, i, r: glass.galaxy_shear(i["lon"], i["lat"], i["eps"], i["kappa"], i["g1"], i["g2"], reduced_shear=red)


# -- observations -----------------------------------------------------------------------

Z = a(0.0, 0.3, 1.0, 1.4, 2.1, 2.2, 3.0)


@case()
def gaussian_nz(env):
    m = env.choose("mean", [(), (2,), (2, 1)])
    s = env.choose("sigma", [(), (2,)] if m != (2, 1) else [(), (2, 1), (1, 3)])
    norm = env.choose("norm", [None, 2.0])
    i = {"z": Z.copy(), "m": ramp(m, 0, 0.5, 2.0), "s": ramp(s, 0, 0.2, 0.5)}
    return i, lambda xp, i, r: glass.gaussian_nz(i["z"], i["m"], i["s"], norm=norm)


@case()
def smail_nz(env):
    m = env.choose("mode", [(), (2,)])
    b = env.choose("beta", [(), (2,)])
    norm = env.choose("norm", [None, 2.0])
    i = {"z": Z.copy(), "m": ramp(m, 0, 0.5, 2.0), "a": ramp((), 0, 1.5, 2.5), "b": ramp(b, 0, 1.2, 2.0)}
    return i, lambda xp, i, r: glass.smail_nz(i["z"], i["m"], i["a"], i["b"], norm=norm)


@case()
def equal_dens_zbins(env):
    n = env.choose("bins", [1, 2, 3, 5])
    # the distribution is interpolated in its cumulative integral
    return {"z": Z.copy(), "nz": a(0.0, 1.0, 2.0, 1.5, 0.7, 0.3, 0.1)}, lambda xp, i, r: [tuple(map(float, e)) for e in glass.equal_dens_zbins(i["z"], i["nz"], n)]


@case()
def tomo_nz_gausserr(env):
    s = env.choose("sigma", [0.05, 0.3])
    bins = env.choose("bins", [[(0.0, 1.0), (1.0, 2.0)], [(0.5, 0.6)]])
    d = env.choose("data", [0, 1])
    return {"z": Z.copy(), "nz": ramp((7,), d, 0.0, 1.0), "bins": bins}, lambda xp, i, r: glass.tomo_nz_gausserr(i["z"], i["nz"], s, i["bins"])


@case()
def fixed_zbins(env):
    kw = env.choose("arguments", [{"nbins": 3}, {"dz": 0.3}, {"nbins": 1}])
    return {}, lambda xp, i, r: [tuple(map(float, e)) for e in glass.fixed_zbins(0.1, 1.3, xp=xp, **kw)]


# -- galaxies ---------------------------------------------------------------------------


@case()
def redshifts(env):
    n = env.choose("number", [0, 1, 7])
    k = env.choose("shell", [0, 1, 2])
    return {"w": shells()[k]}, lambda xp, i, r: glass.redshifts(n, i["w"], rng=r)


@case()
def redshifts_from_nz(env):
    c = env.choose("count", ["int", "0d", "array"])
    lead = env.choose("leading", [(), (2,)])
    cnt = {"int": 4, "0d": np.array(4), "array": np.array([3, 0])}[c]
    d = env.choose("data", [0, 1])
    nz = np.abs(ramp((*lead, 7), d, 0.0, 2.0))
    nz[..., 3] = 1.0
    return {"count": cnt, "z": Z.copy(), "nz": nz}, lambda xp, i, r: glass.redshifts_from_nz(i["count"], i["z"], i["nz"], rng=r, warn=False)


@case()
def redshifts_from_bins(env):
    shape = env.choose("shape", [(6,), (2, 3), (0,)])
    bins = (np.arange(int(np.prod(shape))) * 2 % 3).reshape(shape)
    nz = {k: np.roll(a(0.0, 1.0, 2.0, 1.5, 0.7, 0.3, 0.1), k) for k in range(3)}
    return {"bins": bins, "z": Z.copy(), "nz": nz}, lambda xp, i, r: glass.redshifts_from_bins(i["bins"], i["z"], i["nz"], rng=r)


@case()
def gaussian_phz(env):
    form = env.choose("z", ["array", "2d", "0d"])
    sig = env.choose("sigma", ["float", "array"])
    lo = env.choose("lower", [None, 0.0])
    up = env.choose("upper", [None, 2.0, "array"])
    z = {"array": a(0.1, 0.5, 1.0, 1.8), "2d": a(0.1, 0.5, 1.0, 1.8).reshape(2, 2), "0d": np.array(0.7)}[form]
    s = 0.3 if sig == "float" else np.full(z.shape, 0.2)
    i = {"z": z, "s": s, "up": up if up != "array" else np.full(z.shape, 2.2)}
    return i, lambda xp, i, r: glass.gaussian_phz(i["z"], i["s"], lower=lo, upper=i["up"], rng=r)


# -- shapes ------------------------------------------------------------------------------


@case()
def ellipticity(env):
    f = env.choose("function", [glass.ellipticity_gaussian, glass.ellipticity_intnorm])
    c = env.choose("count", ["int", "0d", "array", "2d"])
    s = env.choose("sigma", ["float", "0d", "array"])
    cnt = {"int": 4, "0d": np.array(4), "array": np.array([3, 0]), "2d": np.array([[1], [2]])}[c]
    sig = {"float": 0.3, "0d": np.array(0.3), "array": a(0.2, 0.4)}[s]
    return {"c": cnt, "s": sig}, lambda xp, i, r: f(i["c"], i["s"], rng=r, xp=xp)


@case()
def ryden(env):
    form = env.choose("parameters", ["float", "0d", "array"])
    size = env.choose("size", [None, 3, (2, 2)])
    p = [-1.85, 0.89, 0.222, 0.056]
    if form == "0d":
        p = [np.array(x) for x in p]
    if form == "array":
        p = [np.array([x, 0.9 * x]) for x in p]
        size = {None: None, 3: (2,), (2, 2): (3, 2)}[size]
    return {"p": p}, lambda xp, i, r: glass.ellipticity_ryden04(*i["p"], size, rng=r, xp=xp)


@case()
def triaxial(env):
    form = env.choose("parameters", ["float", "0d", "array"])
    size = env.choose("size", [None, 3, (2, 2)])
    p = [0.8, 0.4]
    if form == "0d":
        p = [np.array(x) for x in p]
    if form == "array":
        p = [np.array([x, 0.9 * x]) for x in p]
        size = {None: None, 3: (2,), (2, 2): (3, 2)}[size]
    return {"p": p}, lambda xp, i, r: glass.triaxial_axis_ratio(*i["p"], size, rng=r, xp=xp)


@case()
def resample_shapes(env):
    kw = env.choose("variances", [{"varg": 0.01}, {"vargamma": 0.05}])
    d = env.choose("data", [0, 1])
    return {"eps": 0.6 * (ramp((4,), d) + 0.5j * ramp((4,), 0))}, lambda xp, i, r: glass.resample_shapes(i["eps"], rng=r, **kw)


# -- points -------------------------------------------------------------------------------


@case()
def effective_bias(env):
    k = env.choose("shell", [0, 1, 2])
    return {"z": Z.copy(), "bz": np.sqrt(1.0 + Z), "w": shells()[k]}, lambda xp, i, r: glass.effective_bias(i["z"], i["bz"], i["w"])


@case()
def bias(env):
    f = env.choose("function", [glass.linear_bias, glass.loglinear_bias])
    d = env.choose("data", [0, 1, 2])
    b = env.choose("bias", ["float", "0d", "array"])
    i = {"delta": ramp((5,), d, -1.0, 2.0), "b": {"float": 1.5, "0d": np.array(0.7), "array": ramp((5,), 0, 0.5, 2.0)}[b]}
    return i, lambda xp, i, r: f(i["delta"], i["b"])


@case()
def positions_from_delta(env):
    pop = env.choose("populations", ["float", "two", "stack"])
    bias = env.choose("bias", [None, 1.5, "array"])
    vis = env.choose("vis", [False, True])
    mono = env.choose("monopole", [False, True])
    batch = env.choose("batch", [3, 1000])
    i = {
        "n": {"float": 2e-6, "two": a(1e-6, 2e-6), "stack": a(1e-6, 2e-6)}[pop],
        "delta": kmap(1) * 8 if pop != "stack" else np.stack([kmap(1) * 8, kmap(1, 1) * 5]),
        "bias": bias if bias != "array" else a(1.2, 0.5) if pop != "float" else np.array(1.2),
        "vis": None if not vis else np.abs(ramp((12,), 1)),
    }
    return i, lambda xp, i, r: list(glass.positions_from_delta(i["n"], i["delta"], i["bias"], i["vis"], remove_monopole=mono, batch=batch, rng=r))


@case()
def uniform_positions(env):
    pop = env.choose("populations", ["float", "0d", "two", "2d"])
    n = {"float": 3e-8, "0d": np.array(3e-8), "two": a(2e-8, 4e-8), "2d": a(2e-8, 4e-8).reshape(2, 1)}[pop]
    return {"n": n}, lambda xp, i, r: list(glass.uniform_positions(i["n"], rng=r, xp=xp))


@case()
def position_weights(env):
    s = env.choose("densities", [(3,), (3, 2)])
    b = env.choose("bias", [None, 1.5, (3,), (3, 2)])
    d = env.choose("data", [0, 1])
    i = {"n": np.abs(ramp(s, d)) + 0.05, "b": ramp(b, 0, 0.5, 2.0) if isinstance(b, tuple) else b}
    return i, lambda xp, i, r: glass.position_weights(i["n"], i["b"])


# -- algorithms and helpers ---------------------------------------------------------------


@case(rtol=1e-7)
def nnls(env):
    d = env.choose("data", [0, 1, 2])
    m, n = env.choose("size", [(3, 2), (4, 4), (5, 3)])
    return {"a": ramp((m, n), d) + 0.5 * np.eye(m, n), "b": ramp((m,), 0)}, lambda xp, i, r: glass.algorithm.nnls(i["a"], i["b"])


def sym(n, d, lead=()):
    x = ramp((*lead, n, n), d)
    return (x + np.swapaxes(x, -1, -2)) / 2 + np.eye(n)


@case(rtol=1e-6)
def covariances(env):
    f = env.choose("function", [glass.algorithm.cov_clip, glass.algorithm.cov_nearest, glass.algorithm.nearcorr])
    lead = env.choose("leading", [(), (2,)])
    x = sym(3, env.choose("data", [0, 1]), lead)
    if f is glass.algorithm.nearcorr:
        x = x * (1 - np.eye(3)) + np.eye(3)
    else:
        x = x + np.eye(3)
    return {"x": x}, lambda xp, i, r: f(i["x"])


@case(views=True)
def broadcasting(env):
    return {"a": ramp((3,), 0), "b": ramp((3, 2), 0)}, lambda xp, i, r: [*glass.arraytools.broadcast_first(i["a"], i["b"]), *glass.arraytools.broadcast_leading_axes((i["a"], 1), (i["b"], 2))[1:]]


@case()
def integrals(env):
    d = env.choose("data", [0, 1])
    i = {"x": Z.copy(), "f": ramp((7,), d), "y": Z[1:5] + 0.1, "g": ramp((4,), 2), "q": a(-1.0, 0.2, 1.3, 9.0), "h": ramp((2, 7), d)}
    return i, lambda xp, i, r: [
        glass.arraytools.trapezoid_product((i["x"], i["f"]), (i["y"], i["g"])), glass.arraytools.cumulative_trapezoid(i["h"], i["x"]),
        glass.arraytools.ndinterp(i["q"], i["x"], i["h"]), glass.arraytools.ndinterp(i["q"], i["x"], i["f"], left=0.0, right=1.0),
    ]


@case()
def multalm(env):
    return {"alm": ramp((10,), 0) + 1j * ramp((10,), 1), "bl": ramp((4,), env.choose("data", [0, 1])) + 0j}, lambda xp, i, r: glass.harmonics.multalm(i["alm"], i["bl"])


@case()
def healpix(env):
    f = env.choose("function", ["alm2map", "alm2map3", "spin", "almxfl", "ang2pix", "ang2vec", "map2alm", "map2alm3", "weights", "randang", "rotate"])
    alm = ramp((10,), 0) + 1j * ramp((10,), 1)
    alm[:4] = alm[:4].real
    lon, lat = points()
    i = {
        "alm2map": {"x": alm}, "alm2map3": {"x": [alm, 2 * alm, 3 * alm]}, "spin": {"x": [alm, 2 * alm]}, "almxfl": {"x": alm, "y": ramp((3,), 0)},
        "ang2pix": {"x": lon, "y": lat}, "ang2vec": {"x": lon, "y": lat}, "map2alm": {"x": kmap(2)}, "map2alm3": {"x": [kmap(2, k) for k in range(3)]},
        "weights": {"x": kmap(2)}, "randang": {"x": np.array([0, 3, 3, 11])}, "rotate": {"x": kmap(2)},
    }[f]
    call = {
        "alm2map": lambda i, r: hp.alm2map(i["x"], 2), "alm2map3": lambda i, r: hp.alm2map(i["x"], 2, lmax=3), "spin": lambda i, r: hp.alm2map_spin(i["x"], 2, 2, 3),
        "almxfl": lambda i, r: hp.almxfl(i["x"], i["y"]), "ang2pix": lambda i, r: hp.ang2pix(4, i["x"], i["y"], lonlat=True),
        "ang2vec": lambda i, r: hp.ang2vec(i["x"], i["y"], lonlat=True), "map2alm": lambda i, r: hp.map2alm(i["x"], lmax=2),
        "map2alm3": lambda i, r: hp.map2alm(i["x"]), "weights": lambda i, r: hp.map2alm(i["x"], use_pixel_weights=True),
        "randang": lambda i, r: hp.randang(1, i["x"], lonlat=True, rng=r), "rotate": lambda i, r: hp.Rotator(coord="GC").rotate_map_pixel(i["x"]),
    }[f]
    return i, lambda xp, i, r: call(i, r)
