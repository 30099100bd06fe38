"""C35: results for an element do not depend on how many are processed together."""

import os
import tempfile
import warnings

import numpy as np

import glass
import glass.algorithm
import glass.arraytools
import glass.galaxies
import glass.grf
import glass.harmonics
import glass.healpix
import glass.jax
import glass.rng
from mc.engine import Prune, Space
from mc.rng import ScriptRNG
from mc.setup_env import BACKENDS, to_np
from mc.util import Cosmo, CurvedCosmo, expect_close

TECHNIQUE = "exhaustive enumeration of functions and sizes (around all powers of two and ten, multiples of thousand) with periodic inputs, against the results for one period; distinctness of all random numbers"
NOTE = (
    "All functions that act on arrays or lists of galaxies, redshifts, pixels, modes, populations, spectra, shells, planes, writes, for sizes up to 1e5 "
    "(quick) and 1e6 (thorough). Elements repeat with a period of 13, such that the result for any size follows from one period, for which "
    "the other properties decide it."
)

P = 13
U = (np.arange(P) * 5 % P + 0.5) / P


def sizes(limit, thorough):
    s = {1, 2, 3, P, P + 1}
    for k in range(5, 21):
        s |= {2**k - 1, 2**k, 2**k + 1}
    for k in range(2, 7):
        s |= {10**k - 1, 10**k, 10**k + 1, 5 * 10**k - 1, 5 * 10**k, 5 * 10**k + 1, 2 * 10**k + 1}
    if thorough:
        s |= set(range(1, 300)) | {1000 * k + d for k in range(1, 21) for d in (-1, 0, 1)}
    return sorted(v for v in s if v <= limit)


def tile(a, n, axis=-1):
    """First n elements of the periodic continuation of the array along the axis."""
    a = np.asarray(a)
    return np.take(a, np.arange(n) % a.shape[axis], axis=axis)


def const(u=0.3, g=0.5):
    """Generator with the same random number for every draw."""
    return ScriptRNG(
        unit=lambda s: np.full(s, u), gauss=lambda s: np.full(s, g), count=lambda lam: np.floor(lam + 0.5).astype(int),
        multi=lambda n, p: np.eye(len(p), dtype=int)[int(np.argmax(np.cumsum(p) > u * p.sum()))] * n,
    )


LON, LAT = -170 + 340 * U, np.degrees(np.arcsin(-0.95 + 1.9 * U[::-1]))
ALPHA = (0.05 + U) * np.exp(2j * np.pi * U[::-1])
Z = 0.05 + 1.9 * U
SHELLS = [
    glass.RadialWindow(np.array([0.0, 0.5, 1.0]), np.array([0.0, 1.0, 0.0]), 0.5),
    glass.RadialWindow(np.array([0.5, 1.0, 1.5]), np.array([0.0, 2.0, 0.0]), 1.0),
    glass.RadialWindow(np.array([1.0, 1.5, 2.5]), np.array([0.0, 1.0, 0.5]), 1.5),
]
ZG = np.array([0.0, 0.2, 0.5, 1.0, 1.7, 2.0])
NZ = np.array([0.0, 1.0, 2.0, 1.0, 0.3, 0.0])
MAP = 0.3 * np.sin(np.arange(48.0))
COV = [np.diag([1.0, 2.0, 0.5]) + 0.3 * np.sin(k + np.add.outer(np.arange(3), np.arange(3))) for k in range(P)]
CORR = np.stack([c / np.sqrt(np.outer(np.diag(c), np.diag(c))) for c in COV])
COV = np.stack(COV)
CLS = [COV[:, i, j] for i, j in ((0, 0), (1, 1), (1, 0), (2, 2), (2, 1), (2, 0))]


def shells_of(xp):
    return [glass.RadialWindow(xp.asarray(w.za), xp.asarray(w.wa), w.zeff) for w in SHELLS]


# functions of n elements: from inputs for n elements (last axes) to results (last axes)
ELEMENTS = {
    "displace": (lambda xp, n, a, b, c: glass.displace(a, b, c), [LON, LAT, ALPHA]),
    "displace pairs": (lambda xp, n, a, b, c: glass.displace(a, b, c), [LON, LAT, np.stack([ALPHA.real, ALPHA.imag])]),
    "displacement": (lambda xp, n, a, b, c, d: glass.displacement(a, b, c, d), [LON, LAT, LON[::-1], LAT * 0.7]),
    "deflect": (lambda xp, n, a, b, c: glass.deflect(a, b, c), [LON, LAT, ALPHA]),
    "linear_bias": (lambda xp, n, a, b: glass.linear_bias(a, b), [U - 0.3, 1 + U]),
    "loglinear_bias": (lambda xp, n, a, b: glass.loglinear_bias(a, b), [U - 0.3, 1 + U]),
    "shift": (lambda xp, n, a: glass.fields.lognormal_shift_hilbert2011(a), [Z]),
    "galaxy_shear": (lambda xp, n, a, b, c: glass.galaxy_shear(a, b, c, xp.asarray(MAP), xp.asarray(0.3 * MAP[::-1].copy()), xp.asarray(0.2 * MAP + 0.01)), [LON, LAT, 0.4 * ALPHA]),
    "galaxy_shear plain": (lambda xp, n, a, b, c: glass.galaxy_shear(a, b, c, xp.asarray(MAP), xp.asarray(0.3 * MAP[::-1].copy()), xp.asarray(0.2 * MAP + 0.01), reduced_shear=False), [LON, LAT, 0.4 * ALPHA]),
    "ang2pix": (lambda xp, n, a, b: glass.healpix.ang2pix(16, a, b, lonlat=True, xp=xp), [LON, LAT]),
    "ang2vec": (lambda xp, n, a, b: glass.healpix.ang2vec(a, b, lonlat=True, xp=xp), [LON, LAT]),
    "randang": (lambda xp, n, a: glass.healpix.randang(4, a, lonlat=True, rng=const(), xp=xp), [np.arange(P) * 11]),
    "ndinterp": (lambda xp, n, a: glass.arraytools.ndinterp(a, xp.asarray(ZG), xp.asarray(NZ)), [Z]),
    "ndinterp table": (lambda xp, n, a, b: glass.arraytools.ndinterp(a, xp.asarray(ZG), xp.asarray(np.stack([NZ, NZ[::-1]])), left=0.0, right=0.0) + 0 * b, [Z * 1.2, Z]),
    "combine": (lambda xp, n, a: glass.combine(a, xp.asarray(np.array([1.0, 0.5, 2.0])), shells_of(xp)), [Z * 1.3]),
    "tomo": (lambda xp, n, a, b: glass.tomo_nz_gausserr(a, b, 0.1, [(0.0, 0.5), (0.5, 1.0), (1.0, 3.0)]), [Z, U]),
    "distribute": (lambda xp, n, a: glass.distribute(a, shells_of(xp), rng=const(0.7)), [Z * 1.4]),
    "gaussian_phz": (lambda xp, n, a, b: glass.gaussian_phz(a, b, rng=const()), [Z, 0.1 * U]),
    "gaussian_phz bounds": (lambda xp, n, a, b, c, d: glass.gaussian_phz(a, b, lower=c, upper=d, rng=const()), [Z, 0.1 * U, Z - 0.1 * U, Z + 0.5]),
    "triaxial": (lambda xp, n, a, b: glass.triaxial_axis_ratio(a, b, rng=const()), [0.6 + 0.4 * U, 0.2 + 0.3 * U]),
    "ryden": (lambda xp, n, a, b: glass.ellipticity_ryden04(a, b, 0.3 + 0 * a, 0.1 + 0 * a, rng=const()), [-2.0 + U, 0.1 + 0.5 * U]),
    "position_weights": (lambda xp, n, a, b: glass.position_weights(a, b), [np.stack([U, 1 + U, 2 - U]), np.stack([1 + U, 1 - U, U])]),
    "multi_plane_weights": (lambda xp, n, a: glass.multi_plane_weights(a, shells_of(xp), CurvedCosmo()), [np.stack([U, 1 + U, 2 - U])]),
    "partition restrict": (lambda xp, n, a: glass.partition(xp.asarray(ZG), a.T, shells_of(xp), method="restrict"), [NZ[:, None] * (1 + U) + np.outer(ZG, U)]),
    "partition lstsq": (lambda xp, n, a: glass.partition(xp.asarray(ZG), a.T, shells_of(xp), method="lstsq"), [NZ[:, None] * (1 + U) + np.outer(ZG, U)]),
    "density weight": (lambda xp, n, a: glass.DensityWeight(Cosmo())(a), [Z]),
    "volume weight": (lambda xp, n, a: glass.VolumeWeight(Cosmo())(a), [Z]),
    "distance weight": (lambda xp, n, a: glass.DistanceWeight(Cosmo())(a), [Z]),
    "normal": (lambda xp, n, a: glass.grf.Normal()(a, 0.4), [U]),
    "lognormal": (lambda xp, n, a: glass.grf.Lognormal(0.7)(a, 0.4), [U]),
    "squared normal": (lambda xp, n, a: glass.grf.SquaredNormal(0.7, 2.0)(a, 0.4), [U]),
    "corr": (lambda xp, n, a: glass.grf.corr(glass.grf.Lognormal(0.7), glass.grf.Lognormal(), a), [U]),
    "icorr": (lambda xp, n, a: glass.grf.icorr(glass.grf.Lognormal(0.7), glass.grf.Lognormal(), a), [U]),
    "dcorr": (lambda xp, n, a: glass.grf.dcorr(glass.grf.Lognormal(0.7), glass.grf.Lognormal(), a), [U]),
    "broadcast_first": (lambda xp, n, a, b: glass.arraytools.broadcast_first(a, b), [np.stack([U, 1 - U]), np.stack([U, 2 * U])]),
    "cumulative rows": (lambda xp, n, a: glass.arraytools.cumulative_trapezoid(a.T, xp.asarray(ZG)).T, [NZ[:, None] * (1 + U)]),
    "gaussian_nz": (lambda xp, n, a, b: rev(glass.gaussian_nz(xp.asarray(ZG), a, b)), [Z, 0.2 + U]),
    "smail_nz": (lambda xp, n, a, b, c: rev(glass.smail_nz(xp.asarray(ZG), a, b, c)), [Z, 1 + U, 1.5 + U]),
    # modes
    "cov_from_spectra": (lambda xp, n, *a: rev(glass.cov_from_spectra(list(a))), CLS),
    "cov_clip": (lambda xp, n, a: rev(glass.algorithm.cov_clip(rev(a))), [COV.T]),
    "cov_nearest": (lambda xp, n, a: rev(glass.algorithm.cov_nearest(rev(a), niter=500)), [COV.T]),
    "nearcorr": (lambda xp, n, a: rev(glass.algorithm.nearcorr(rev(a), niter=500)), [CORR.T]),
    "regularized clip": (lambda xp, n, *a: tuple(glass.regularized_spectra(list(a), method="clip")), CLS),
    "regularized nearest": (lambda xp, n, *a: tuple(glass.regularized_spectra(list(a), niter=500)), CLS),
    "discretized": (lambda xp, n, *a: tuple(v if v.shape[0] else 0 * a[0] for v in glass.discretized_cls(list(a), ncorr=1, lmax=n)), CLS),
    "getcl": (lambda xp, n, *a: glass.getcl(list(a), 0, 2), CLS),
    "effective": (lambda xp, n, *a: glass.effective_cls(list(a), xp.asarray(np.array([1.0, 0.5, -1.0])), xp.asarray(np.array([0.3, 2.0, 1.0]))), CLS),
    "cls2cov": (lambda xp, n, *a: tuple(rev(xp.asarray(v, copy=True)) for v in glass.cls2cov(list(a), n, 3, 2)), CLS),
    "iternorm": (lambda xp, n, a, b, c: tuple(rev(w) for w in glass.iternorm([rev(a), rev(b), rev(c)])), [np.stack([2 + U]), np.stack([1 + U, 0.5 * U]), np.stack([1 + U, 0.1 + 0 * U, 0.3 * U])]),
}
# loops over the elements in Python, or large results
SLOW = {
    "tomo": 20001, "partition restrict": 5001, "cumulative rows": 50001, "distribute": 20001, "cov_nearest": 20001, "nearcorr": 20001, "regularized nearest": 20001,
    "ndinterp table": 20001, "volume weight": 50001, "density weight": 50001, "partition lstsq": 20001,
}
POPULATIONS = {
    "partition nnls": (lambda xp, n, a: glass.partition(xp.asarray(ZG), a.T, shells_of(xp), method="nnls"), [NZ[:, None] * (1 + U) + np.outer(ZG, U)]),
    "effective matrix": (lambda xp, n, a: glass.effective_cls([xp.asarray(c) for c in CLS], a, xp.asarray(np.array([0.3, 2.0, 1.0]))).T, [np.stack([U, 1 + U, 2 - U])]),
    "effective_bias": (lambda xp, n, a: xp.stack([xp.asarray(glass.effective_bias(xp.asarray(ZG), xp.asarray(ZG) * float(v), shells_of(xp)[1])) for v in a]), [U]),
}
DRAWS = {
    "gaussian_phz": lambda n, rng: glass.gaussian_phz(np.full(n, 1.0), 0.1, rng=rng),
    "gaussian_phz bounds": lambda n, rng: glass.gaussian_phz(np.full(n, 1.0), 0.3, lower=0.9, upper=1.1, rng=rng),
    "triaxial": lambda n, rng: glass.triaxial_axis_ratio(0.8, 0.4, size=n, rng=rng, xp=np),
    "ryden": lambda n, rng: glass.ellipticity_ryden04(-1.85, 0.89, 0.222, 0.056, size=n, rng=rng, xp=np),
    "gaussian": lambda n, rng: glass.ellipticity_gaussian(n, 0.5, rng=rng, xp=np),
    "intnorm": lambda n, rng: glass.ellipticity_intnorm(n, 0.3, rng=rng, xp=np),
    "resample": lambda n, rng: glass.resample_shapes(np.full(n, 0.3 + 0.1j), rng=rng),
    "redshifts": lambda n, rng: glass.redshifts(n, SHELLS[1], rng=rng),
    "from_nz": lambda n, rng: glass.redshifts_from_nz(n, ZG, NZ, rng=rng, warn=False),
    "from_bins": lambda n, rng: glass.redshifts_from_bins(np.arange(n) % 3, ZG, {0: NZ, 1: NZ, 2: NZ}, rng=rng),
    "uniform longitudes": lambda n, rng: next(iter(glass.uniform_positions(n / glass.points.ARCMIN2_SPHERE, rng=Counted(rng, n), xp=np)))[0],
    "uniform latitudes": lambda n, rng: next(iter(glass.uniform_positions(n / glass.points.ARCMIN2_SPHERE, rng=Counted(rng, n), xp=np)))[1],
    "positions": lambda n, rng: np.concatenate([v[0] for v in glass.positions_from_delta(12 * n / glass.points.ARCMIN2_SPHERE, np.array([0.0] + [-1.0] * 11), batch=70000, rng=Counted(rng, n))]),
    "positions, batches": lambda n, rng: np.concatenate([v[0] for v in glass.positions_from_delta(768 * per_pixel(n) / glass.points.ARCMIN2_SPHERE, np.zeros(768), batch=max(n // 5, 1), rng=Counted(rng, None))]),
    "randang": lambda n, rng: glass.healpix.randang(1, np.full(n, 5), rng=rng)[0],
    "generator random": lambda n, rng: glass.rng.Generator(rng=rng, xp=np).random(n),
    "generator normal": lambda n, rng: glass.rng.Generator(rng=rng, xp=np).normal(size=n),
    "generator uniform": lambda n, rng: glass.rng.Generator(rng=rng, xp=np).uniform(size=n),
    "generator standard_normal": lambda n, rng: glass.rng.Generator(rng=rng, xp=np).standard_normal(n),
    "jax random": lambda n, rng: glass.jax.Generator(seed=5).random(n),
    "jax normal": lambda n, rng: glass.jax.Generator(seed=5).normal(size=n),
}


def per_pixel(n):
    return max(n // 768, 1)


class Meter:
    """Real generator that counts its random numbers."""

    def __init__(self, rng):
        self.rng, self.used = rng, 0

    def __getattr__(self, name):
        f = getattr(self.rng, name)

        def method(*args, **kw):
            v = f(*args, **kw)
            self.used += np.size(v)
            return v

        return method


class Counted:
    """Real generator, with Poisson numbers that are the (rounded) expectations."""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n

    def poisson(self, lam, size=None):
        return np.floor(np.asarray(lam) + 0.5).astype(int)

    def __getattr__(self, name):
        return getattr(self.rng, name)


def trap(y, x):
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))


def rev(a):
    """Axes in reverse order."""
    return a.__array_namespace__().permute_dims(a, tuple(range(a.ndim))[::-1])


def as_tuple(v):
    return v if isinstance(v, tuple) else (v,)


def spaces(tier):
    thorough = tier != "quick"
    limit = 1000001 if thorough else 131073
    base = {}

    def run_tiled(env, name, f, inputs, n, xp, rtol=1e-7):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if name not in base:
                base[name] = tuple(np.array(to_np(v)) for v in as_tuple(f(np, P, *[np.array(a) for a in inputs])))
            got = as_tuple(f(xp, n, *[xp.asarray(tile(a, n)) for a in inputs]))
        env.check(len(got) == len(base[name]), "number of results")
        for g, w in zip(got, base[name], strict=True):
            expect_close(env, g, tile(w, n), f"{name} of {n} elements", rtol=rtol, atol=1e-9)

    def elements(env):
        name = env.choose("function", list(ELEMENTS))
        n = env.choose("size", sizes(min(limit, SLOW.get(name, limit) * (4 if thorough else 1)), thorough))
        run_tiled(env, name, *ELEMENTS[name], n, np)

    def backends(env):
        name = env.choose("function", list(ELEMENTS))
        xp = BACKENDS[env.choose("backend", ["strict", "jax"])]
        n = env.choose("size", [130, 1001, 4097, 10001] + ([20001, 65537] if thorough else []) if xp is not BACKENDS["jax"] or thorough else [1001, 10001])
        if n > SLOW.get(name, n):
            raise Prune
        run_tiled(env, name, *ELEMENTS[name], n, xp)

    def populations(env):
        kind = env.choose("what", list(POPULATIONS) + ["redshifts_from_nz", "redshifts_from_bins", "ellipticity_gaussian", "ellipticity_intnorm", "uniform_positions", "positions_from_delta", "save_cls", "write_catalog"])
        n = env.choose("size", sizes(2049 if thorough else 513, thorough))
        counts = np.array([2, 0, 1, 3, 0, 5, 1, 1, 0, 2, 4, 1, 0])
        c = tile(counts, n)
        if kind in POPULATIONS:
            run_tiled(env, kind, *POPULATIONS[kind], n, np)
        elif kind == "redshifts_from_nz":
            nz = NZ + np.outer(U, ZG)
            got = glass.redshifts_from_nz(c, ZG, tile(nz, n, axis=0), rng=const(), warn=False)
            one = [float(glass.redshifts_from_nz(1, ZG, f, rng=const(), warn=False)[0]) for f in nz]
            expect_close(env, got, np.repeat(tile(one, n), c), "redshifts of populations", rtol=1e-9)
        elif kind == "redshifts_from_bins":
            # as many labels as elements
            labels = (np.arange(3 * n) * 7 + np.arange(3 * n) // n) % n
            d = {i: NZ + U[i % P] * ZG for i in range(n)}
            got = glass.redshifts_from_bins(labels.reshape(3, n), ZG, d, rng=const())
            one = [float(glass.redshifts_from_nz(1, ZG, NZ + u * ZG, rng=const(), warn=False)[0]) for u in U]
            expect_close(env, got, tile(one, n)[labels].reshape(3, n), "redshifts of bins", rtol=1e-9)
        elif kind.startswith("ellipticity"):
            f = getattr(glass, kind)
            s = 0.1 + 0.4 * U
            got = f(c, tile(s, n), rng=const(), xp=np)
            one = np.array([complex(f(1, v, rng=const(), xp=np)[0]) for v in s])
            expect_close(env, got, np.repeat(tile(one, n), c), "ellipticities of populations", rtol=1e-9)
        elif kind == "uniform_positions":
            k = 0
            for k, (lon, lat, count) in enumerate(glass.uniform_positions(c / glass.points.ARCMIN2_SPHERE, rng=const(), xp=np), 1):
                env.check(lon.shape == lat.shape == (c[k - 1],), "number of positions")
                want = np.zeros(n, dtype=int)
                want[k - 1] = c[k - 1]
                env.check(np.array_equal(to_np(count), want), "counts of population", got=count, want=want)
            env.check(k == n, "number of populations", got=k, want=n)
        elif kind == "positions_from_delta":
            delta = np.array([0.0] + [-1.0] * 11)
            got = list(glass.positions_from_delta(12 * c / glass.points.ARCMIN2_SPHERE, delta, rng=const()))
            total = sum(to_np(g[2]) for g in got) if got else np.zeros(n)
            env.check(np.array_equal(total, c), "counts of populations", got=total, want=c)
            env.check(sum(g[0].shape[0] for g in got) == c.sum(), "number of positions")
        elif kind == "save_cls":
            cls = [np.arange(float(v)) + i for i, v in enumerate(c)]
            with tempfile.TemporaryDirectory() as d:
                glass.save_cls(os.path.join(d, "x.npz"), cls)
                got = glass.load_cls(os.path.join(d, "x.npz"))
            env.check(len(got) == n, "number of spectra", got=len(got), want=n)
            for a, b in zip(got, cls, strict=True):
                env.check(np.array_equal(a, b), "loaded spectrum", got=a, want=b)
        else:
            import astropy.io.fits

            n = min(n, 130) if not thorough else n
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "x.fits")
                with glass.write_catalog(p) as f:
                    for i in range(n):
                        f.write(A=np.arange(c[i]) + 10.0 * i, B=np.full(c[i], i))
                with astropy.io.fits.open(p) as h:
                    a, b = np.array(h[1].data["A"]), np.array(h[1].data["B"])
            env.check(np.array_equal(a, np.concatenate([np.arange(v) + 10.0 * i for i, v in enumerate(c[:n])])), "rows of writes")
            env.check(np.array_equal(b, np.repeat(np.arange(n), c[:n])), "rows of writes")

    def draws(env):
        name = env.choose("function", list(DRAWS))
        jax = name.startswith("jax")
        n = env.choose("size", [130, 1001, 4097, 10001, 65537] if jax else sizes(limit, thorough))
        rng = Meter(np.random.default_rng(7))
        a, b = np.asarray(DRAWS[name](n, rng)), np.asarray(DRAWS[name](n, rng)) if not jax else None
        if name == "positions, batches":
            n = 768 * per_pixel(n)
        env.check(a.shape == (n,), "number of elements", got=a.shape, want=n)
        env.check(np.all(np.isfinite(a)), "values that are not finite")
        all_ = a if jax else np.concatenate([a, b])
        # distinct up to chance: single precision would have collisions
        for part in [all_.real, all_.imag] if np.iscomplexobj(all_) else [all_]:
            k = len(np.unique(part))
            env.check(k >= len(part) - 2, "random numbers are repeated", got=k, want=len(part))
        # functions need as many random numbers for each element as for a few elements
        if not jax and n >= 1001:
            few = Meter(np.random.default_rng(7))
            size = len(np.asarray(DRAWS[name](1001, few))) + len(np.asarray(DRAWS[name](1001, few)))
            env.check(rng.used / len(all_) >= 0.8 * few.used / size, "fewer random numbers than elements need", got=rng.used / len(all_), want=few.used / size)

    def lists(env):
        kind = env.choose("what", ["tophat", "linear", "cubic", "redshift_grid", "distance_grid", "fixed_zbins", "equal_dens_zbins", "planes", "matrix", "distribute", "combine", "restrict", "tomo", "lognormal_fields", "convert", "covariance"])
        small = kind in ("matrix", "convert", "covariance")
        n = env.choose("size", sizes((129 if not small else 65) * (4 if thorough and not small else 1), thorough))
        w = 0.02
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind in ("tophat", "linear", "cubic"):
                # boundaries on exact numbers, such that the windows are those of a subset
                edges = np.arange(n + 3) / 64
                f = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}[kind]
                k = 2 if kind == "tophat" else 3
                ws = f(edges, dz=1 / 256)
                env.check(len(ws) == len(edges) - k + 1, "number of windows", got=len(ws))
                for i, s in enumerate(ws):
                    (t,) = f(edges[i : i + k], dz=1 / 256)
                    expect_close(env, s.za, t.za, "redshifts of window")
                    expect_close(env, s.wa, t.wa, "values of window")
                    expect_close(env, float(s.zeff), float(t.zeff), "effective redshift")
            elif kind == "redshift_grid":
                expect_close(env, glass.redshift_grid(0.0, n / 8, num=n), np.arange(n + 1) / 8, "grid")
                expect_close(env, glass.redshift_grid(0.0, n / 8, dz=0.125), np.arange(n + 1) / 8, "grid")
            elif kind == "distance_grid":
                c = Cosmo()
                x = np.linspace(0.0, float(c.comoving_distance(1.0)), n + 1)
                expect_close(env, glass.distance_grid(c, 0.0, 1.0, num=n), c.inv_comoving_distance(x), "grid", rtol=1e-7, atol=1e-7)
            elif kind == "fixed_zbins":
                want = [(i / 8, (i + 1) / 8) for i in range(n)]
                expect_close(env, np.array(glass.fixed_zbins(0.0, n / 8, nbins=n)), want, "bins")
                expect_close(env, np.array(glass.fixed_zbins(0.0, n / 8, dz=0.125)), want, "bins")
            elif kind == "equal_dens_zbins":
                z = np.linspace(0.0, 2.0, 9)
                b = np.array(glass.equal_dens_zbins(z, np.ones(9), n))
                expect_close(env, b, np.stack([np.arange(n), np.arange(1, n + 1)], axis=1) * 2 / n, "bins")
            elif kind in ("planes", "matrix"):
                c = Cosmo()
                zs = 0.05 + np.arange(n) * 0.02
                x = np.asarray(c.comoving_distance(zs)) / c.hubble_distance
                k = np.triu(1.5 * c.Omega_m0 * x[:, None] * (x[None, :] - x[:, None]) / x[None, :] * ((1 + zs) / np.asarray(c.H_over_H0(zs)))[:, None], 1) * w
                if kind == "planes":
                    m = glass.MultiPlaneConvergence(c)
                    d = np.stack([tile(U, n) - 0.5, tile(U[::-1], n)], axis=1)
                    for i in range(n):
                        m.add_plane(d[i].copy(), float(zs[i]), w)
                        expect_close(env, m.kappa, k[:, i] @ d, f"convergence of {i + 1} planes", rtol=1e-6, atol=1e-10)
                else:
                    sh = [glass.RadialWindow(np.array([v - w, v, v + w]), np.array([0.0, 1.0, 0.0]), v) for v in zs]
                    expect_close(env, glass.multi_plane_matrix(sh, c), k.T, "matrix of lensing", rtol=1e-6, atol=1e-10)
            elif kind in ("distribute", "combine", "restrict", "tomo"):
                edges = np.arange(n + 1) / 16
                sh = glass.tophat_windows(edges, dz=1 / 32)
                mid = (edges[1:] + edges[:-1]) / 2
                if kind == "distribute":
                    got = glass.distribute(np.append(mid[::-1], [-1.0, n + 1.0]), sh, rng=const())
                    env.check(np.array_equal(got, np.append(np.arange(n)[::-1], [-1, -1])), "shells of redshifts", got=got)
                elif kind == "combine":
                    expect_close(env, glass.combine(mid, tile(U, n), sh), tile(U, n) * 16, "combined windows")
                elif kind == "restrict":
                    fz = np.append(tile(U, n), 0.3)
                    got = glass.partition(edges, fz, sh, method="restrict")
                    expect_close(env, got, (fz[1:] + fz[:-1]) / 32, "partition")
                else:
                    from math import erf

                    b = glass.fixed_zbins(0.0, n / 16, nbins=n)
                    got = glass.tomo_nz_gausserr(ZG, NZ, 0.1, b)
                    s = np.sqrt(2) * 0.1 * (1 + ZG)
                    e = np.array([[erf((z - v) / q) for z, q in zip(ZG, s, strict=True)] for v in edges])
                    want = (e[:-1] - e[1:]) / (1 + np.array([erf(z / q) for z, q in zip(ZG, s, strict=True)])) * NZ
                    expect_close(env, got, want, "bins of distribution", rtol=1e-8, atol=1e-10)
            elif kind == "lognormal_fields":
                sh = [glass.RadialWindow(np.array([0.0, 1.0]), np.array([1.0, 1.0]), 0.1 * i) for i in range(n)]
                got = glass.lognormal_fields(sh, lambda z: 1 + z)
                expect_close(env, np.array([t.lamda for t in got]), 1 + 0.1 * np.arange(n), "shifts of fields")
                env.check(len(glass.gaussian_fields(sh)) == n, "number of fields")
            elif kind == "convert":
                s = list(range(n * (n + 1) // 2))
                h = glass.glass_to_healpix_spectra(s)
                env.check(h == [i * (i + 1) // 2 + k for k in range(n) for i in range(k, n)], "order of spectra")
                env.check(glass.healpix_to_glass_spectra(h) == s, "order of spectra")
            else:
                cls = [np.array([100.0 * i + j, 7.0]) for i in range(n) for j in range(i, -1, -1)]
                cov = glass.cov_from_spectra(cls)
                i = np.arange(n)
                want = 100.0 * np.maximum.outer(i, i) + np.minimum.outer(i, i)
                expect_close(env, cov[0], want, "covariance")
                expect_close(env, cov[1], np.full((n, n), 7.0), "covariance")

    def samples(env):
        kind = env.choose("what", ["trapezoid_product", "cumulative_trapezoid", "zeff", "effective_bias", "restrict", "gaussian_nz", "smail_nz", "equal_dens_zbins", "redshifts", "save_cls", "write_catalog", "multalm", "solve", "windows"])
        n = env.choose("size", sizes({"solve": 1025, "multalm": 1001, "windows": 20001}.get(kind, limit), thorough)[2:])
        x = 0.1 + np.arange(n) / n + 0.3 * np.sin(np.arange(n)) / n
        y = 1 + 0.5 * np.sin(3 * x)
        if kind == "trapezoid_product":
            q = np.array([0.0, 0.4, 2.0])
            f = np.array([1.0, 2.0, 0.5])
            u = np.union1d(x, q[(q > x[0]) & (q < x[-1])])
            expect_close(env, glass.arraytools.trapezoid_product((x, y), (q, f)), trap(np.interp(u, x, y) * np.interp(u, q, f), u), "integral of product")
            expect_close(env, glass.arraytools.trapezoid_product((q, f), (x, y)), trap(np.interp(u, x, y) * np.interp(u, q, f), u), "integral of product")
        elif kind == "cumulative_trapezoid":
            got = glass.arraytools.cumulative_trapezoid(y, x)
            expect_close(env, got, np.append(0, np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))), "cumulative integral")
        elif kind == "zeff":
            expect_close(env, float(glass.RadialWindow(x, y).zeff), trap(x * y, x) / trap(y, x), "effective redshift")
        elif kind == "effective_bias":
            got = glass.effective_bias(x, 1 + x, glass.RadialWindow(x, y))
            expect_close(env, float(got), trap((1 + x) * y, x) / trap(y, x), "effective bias")
        elif kind == "restrict":
            s = glass.RadialWindow(np.array([0.2, 0.6, 1.0]), np.array([0.0, 1.0, 0.0]), 0.6)
            zr, fr = glass.restrict(x, y, s)
            want = np.union1d(s.za, x[(x > 0.2) & (x < 1.0)])
            expect_close(env, zr, want, "redshifts of restricted function")
            expect_close(env, fr, np.interp(want, x, y, left=0, right=0) * np.interp(want, s.za, s.wa), "restricted function")
        elif kind in ("gaussian_nz", "smail_nz"):
            if kind == "gaussian_nz":
                got, f = glass.gaussian_nz(x, 0.5, 0.2), np.exp(-(((x - 0.5) / 0.2) ** 2) / 2)
            else:
                got, f = glass.smail_nz(x, 0.5, 2.0, 1.5), x**2 * np.exp(-2 / 1.5 * (x / 0.5) ** 1.5)
            expect_close(env, got, f / trap(f, x), "distribution")
        elif kind in ("equal_dens_zbins", "redshifts"):
            c = np.append(0, np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x)))
            if kind == "redshifts":
                got = glass.redshifts(3, glass.RadialWindow(x, y, 0.5), rng=const(0.37))
                expect_close(env, got, np.full(3, np.interp(0.37, c / c[-1], x)), "redshifts")
            else:
                b = np.interp(np.linspace(0, 1, 6), c / c[-1], x)
                expect_close(env, np.array(glass.equal_dens_zbins(x, y, 5)), np.stack([b[:-1], b[1:]], axis=1), "bins", rtol=1e-7)
        elif kind == "save_cls":
            with tempfile.TemporaryDirectory() as d:
                glass.save_cls(os.path.join(d, "x.npz"), [x, y[:5], y])
                got = glass.load_cls(os.path.join(d, "x.npz"))
            env.check(len(got) == 3 and all(np.array_equal(a, b) for a, b in zip(got, [x, y[:5], y], strict=True)), "loaded spectra")
        elif kind == "write_catalog":
            import astropy.io.fits

            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "x.fits")
                with glass.write_catalog(p) as f:
                    f.write(A=x, B=np.arange(n))
                    f.write(A=y, B=np.arange(n) + n)
                with astropy.io.fits.open(p) as h:
                    a, b = np.array(h[1].data["A"]), np.array(h[1].data["B"])
            env.check(np.array_equal(a, np.append(x, y)) and np.array_equal(b, np.arange(2 * n)), "rows of writes")
        elif kind == "multalm":
            alm = tile(ALPHA, n * (n + 1) // 2)
            expect_close(env, glass.harmonics.multalm(alm, y), alm * np.repeat(y, np.arange(1, n + 1)), "product of modes")
            h = to_np(glass.fields._glass_to_healpix_alm(np.arange(n * (n + 1) // 2)))
            want = np.concatenate([np.arange(m, n) * (np.arange(m, n) + 1) // 2 + m for m in range(n)])
            env.check(np.array_equal(h, want), "order of modes")
        elif kind == "solve":
            cl = 0.1 / (1.0 + np.arange(n)) ** 2
            t = glass.grf.Lognormal()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                (gl,) = glass.compute_gaussian_spectra([t], [cl])
                back = _corrtocl(np.expm1(_cltocorr(gl)))
                expect_close(env, back, cl, "realised spectrum", rtol=1e-6, atol=1e-12)
                if n <= 300:
                    (gl,) = glass.solve_gaussian_spectra([t], [cl])
                    back = _corrtocl(np.expm1(_cltocorr(np.pad(gl, (0, 2 * n)))))[:n]
                    expect_close(env, back, cl, "realised spectrum", rtol=2e-5, atol=0)
        else:
            (s,) = glass.tophat_windows(np.array([0.0, 1.0]), dz=1 / n)
            m = max(n, 2)
            expect_close(env, s.za, np.arange(m) / (m - 1), "redshifts of window")
            (s,) = glass.linear_windows(np.array([0.0, 1.0, 2.0]), dz=1 / n)
            expect_close(env, s.wa, 1 - np.abs(s.za - 1), "values of window")
            (s,) = glass.cubic_windows(np.array([0.0, 1.0, 2.0]), dz=1 / n)
            u = 1 - np.abs(s.za - 1)
            expect_close(env, s.wa, u**2 * (3 - 2 * u), "values of window")
            env.check(len(s.za) == 2 * m - 1, "number of redshifts", got=len(s.za), want=2 * m - 1)

    return [
        Space("elements", elements, "48 functions, sizes around all powers of 2 and 10 up to 1.3e5 (thorough 1e6)", 2),
        Space("backends", backends, "48 functions, 2 backends, 4 or 2 sizes (thorough 6)", 2),
        Space("populations", populations, "11 functions of up to 513 populations, spectra, or writes", 2),
        Space("draws", draws, "21 functions, all sizes, two consecutive calls", 2),
        Space("lists", lists, "16 functions of up to 129 shells, bins, planes, or fields", 2),
        Space("samples", samples, "14 functions of functions sampled at up to 1.3e5 points", 2),
    ]


def _cltocorr(cl):
    import transformcl

    return transformcl.cltocorr(cl)


def _corrtocl(x):
    import transformcl

    return transformcl.corrtocl(x)
