"""C34: cosmologies are used through their documented interface, in their own units."""

import warnings

import numpy as np

import glass
import glass.galaxies
from mc.engine import Prune, Space
from mc.setup_env import to_np
from mc.util import CurvedCosmo, choose_backend, expect_close, is_backend

TECHNIQUE = "exhaustive enumeration of functions, cosmologies, units, kinds of return values and backends against direct formulas and a reference cosmology"
NOTE = (
    "All functions that take a cosmology, for flat, open and closed cosmologies, four systems of units, five kinds of return values "
    "(new, read-only, shared, 0-d arrays, strict access to the members of the documented interface), grids of redshifts and "
    "backends. Lensing and weights are compared with direct formulas in terms of the reference cosmology."
)

COMMON = {"comoving_distance", "critical_density0", "H_over_H0", "hubble_distance", "h", "Omega_m0", "transverse_comoving_distance"}
EXTRA = {"growth": {"growth_factor"}, "inverse": {"inv_comoving_distance"}, "matter": {"Omega_m"}, "plain": set()}


class Reference(CurvedCosmo):
    h = 0.7

    def growth_factor(self, z):
        return 1 / (1 + np.asarray(z)) ** 0.9 if not hasattr(z, "__array_namespace__") else self._wrap(z, 1 / (1 + np.asarray(z)) ** 0.9)


class Guarded:
    """Only documented members, other units, and several kinds of return values."""

    def __init__(self, ref, protocol, kind, length, density, xp):
        d = self.__dict__
        d["_ref"], d["_members"], d["_kind"], d["_length"], d["_density"], d["_xp"] = ref, COMMON | EXTRA[protocol], kind, length, density, xp
        d["_cache"], d["_undocumented"] = {}, []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in self._members:
            self._undocumented.append(name)
            raise AttributeError(f"not in the interface: {name}")
        if name in ("h", "Omega_m0"):
            return getattr(self._ref, name)
        if name == "critical_density0":
            return self._ref.critical_density0 * self._density
        if name == "hubble_distance":
            return self._ref.hubble_distance * self._length
        f = getattr(self._ref, name)

        def method(*args):
            args = tuple(to_np(a) if hasattr(a, "__array_namespace__") else a for a in args)
            args = tuple(np.asarray([float(to_np(v)) for v in a]) if isinstance(a, (list, tuple)) else a for a in args)
            if name == "inv_comoving_distance":
                args = tuple(np.asarray(a) / self._length for a in args)
            v = np.asarray(f(*args), dtype=float)
            if "distance" in name and name != "inv_comoving_distance":
                v = v * self._length
            return self._out(name, args, v)

        return method

    def __setattr__(self, name, value):
        raise AttributeError(f"cosmology was modified: {name}")

    def _out(self, name, args, v):
        xp = self._xp
        if v.ndim == 0 and self._kind == "float":
            return float(v)
        if self._kind == "shared":
            key = (name, tuple((np.asarray(a).shape, np.asarray(a).tobytes()) for a in args))
            if key not in self._cache:
                self._cache[key] = (xp.asarray(np.array(v)), np.array(v))
            return self._cache[key][0]
        if self._kind == "readonly":
            if xp is not np or v.ndim == 0:
                return xp.asarray(np.array(v))
            v = np.array(v)
            v.flags.writeable = False
            return v
        return xp.asarray(np.array(v))


CURV = {"flat": (0.3, 0.0), "closed": (0.4, 0.8), "open": (0.2, -0.6)}
REFS = {}


def reference(name):
    if name not in REFS:
        REFS[name] = Reference(CURV[name][0], k=CURV[name][1])
    return REFS[name]


def spaces(tier):
    def setup(env, protocol):
        xp = choose_backend(env)
        name = env.choose("cosmology", list(CURV))
        length, density = env.choose("units", [(1.0, 1.0), (1e3, 1e-9), (0.7, 1.0 / 0.49), (3e22, 1e40)])
        kind = env.choose("values", ["new", "shared", "readonly", "float"])
        ref = reference(name)
        return xp, ref, Guarded(ref, protocol, kind, length, density, xp), length, density

    def finish(env, c):
        env.check(not c._undocumented, "members outside of the documented interface", got=c._undocumented)
        for v, keep in c._cache.values():
            env.check(np.array_equal(to_np(v), keep), "value of the cosmology was modified")

    def dm(ref, *z):
        return np.asarray(ref.transverse_comoving_distance(*z), dtype=float) / ref.hubble_distance

    def weights(env):
        f = env.choose("weight", ["distance", "volume", "density"])
        xp, ref, c, length, density = setup(env, "matter" if f == "density" else "plain")
        z = np.array(env.choose("redshifts", [[0.0, 0.1, 0.5, 2.0], [1.0], [0.3, 0.2]]))
        zx = xp.asarray(z)
        e = ref.H_over_H0(z)
        w = {"distance": glass.DistanceWeight, "volume": glass.VolumeWeight, "density": glass.DensityWeight}[f](c)
        want = {"distance": 1 / e, "volume": dm(ref, z) ** 2 / e, "density": ref.critical_density0 * density * ref.Omega_m(z) * dm(ref, z) ** 2 / e}[f]
        for _ in range(2):
            got = w(zx)
            env.check(is_backend(got, xp), "array type")
            expect_close(env, got, want, "weight function", rtol=1e-10, atol=0)
            if c._kind != "float":
                finish(env, c)
        env.check(np.array_equal(to_np(zx), z), "redshifts were modified")
        if len(z) == 4:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for g in (glass.tophat_windows, glass.linear_windows, glass.cubic_windows):
                    ws = g(xp.asarray(np.array([0.1, 0.3, 0.8])), dz=0.1, weight=w)
                    for s in ws:
                        e = ref.H_over_H0(to_np(s.za))
                        x = dm(ref, to_np(s.za)) ** 2 / e
                        full = {"distance": 1 / e, "volume": x, "density": ref.critical_density0 * density * ref.Omega_m(to_np(s.za)) * x}[f]
                        za = to_np(s.za)
                        shape = np.ones_like(za)
                        if g is not glass.tophat_windows:
                            u = np.interp(za, [za[0], float(s.zeff), za[-1]], [0.0, 1.0, 0.0])
                            shape = u if g is glass.linear_windows else u**2 * (3 - 2 * u)
                        expect_close(env, s.wa, shape * full, "weighted window", rtol=1e-9, atol=1e-9 * full.max())
        finish(env, c)

    def kernel(ref, zl, zs):
        if zs <= zl:
            return 0.0
        return 1.5 * ref.Omega_m0 * dm(ref, zl) * dm(ref, zl, zs) / dm(ref, zs) * (1 + zl) / float(ref.H_over_H0(zl))

    def lensing(env):
        xp, ref, c, length, density = setup(env, "plain")
        n = env.choose("planes", [1, 2, 3, 4])
        how = env.choose("interface", ["plane", "array redshift", "window", "matrix", "weights"])
        if how == "array redshift" and c._kind == "float":
            raise Prune
        zs = [0.2, 0.5, 0.9, 1.6][:n]
        za = [np.array([a, b, d]) for a, b, d in [(0.1, 0.2, 0.3), (0.3, 0.5, 0.7), (0.7, 0.9, 1.2), (1.2, 1.6, 2.0)][:n]]
        wa = np.array([0.0, 1.0, 0.2])
        shells = [glass.RadialWindow(xp.asarray(x), xp.asarray(wa), z) for x, z in zip(za, zs, strict=True)]
        wl = [float(np.sum((wa[1:] + wa[:-1]) / 2 * np.diff(x))) for x in za]
        k = np.array([[kernel(ref, zs[j], zs[i]) * wl[j] for j in range(n)] for i in range(n)])
        if how == "matrix":
            got = glass.multi_plane_matrix(shells, c)
            expect_close(env, got, k, "lensing matrix", rtol=1e-9, atol=1e-13)
        elif how == "weights":
            w = np.arange(1.0, n + 1)
            got = glass.multi_plane_weights(xp.asarray(w), shells, c)
            expect_close(env, got, k.T @ (w / w.sum()), "lensing weights", rtol=1e-9, atol=1e-13)
        else:
            m = glass.MultiPlaneConvergence(c)
            ds = [np.array([1.0 + i, -0.5, 0.3 * i]) for i in range(n)]
            for i in range(n):
                d = xp.asarray(ds[i])
                if how == "window":
                    m.add_window(d, shells[i])
                else:
                    m.add_plane(d, zs[i] if how == "plane" else xp.asarray(zs[i]), wl[i])
                want = sum(k[i, j] * ds[j] for j in range(n))
                env.check(is_backend(m.kappa, xp), "array type")
                expect_close(env, m.kappa, want, "convergence", rtol=1e-9, atol=1e-13)
                env.check(np.array_equal(to_np(d), ds[i]), "matter plane was modified")
        finish(env, c)

    def grids(env):
        xp, ref, c, length, density = setup(env, "inverse")
        if c._kind == "float":
            raise Prune
        a, b = env.choose("redshifts", [(0.0, 1.0), (0.2, 0.9)])
        x0, x1 = (np.asarray(ref.comoving_distance(z), dtype=float) for z in (a, b))
        num = env.choose("steps", [1, 3, 7])
        form = env.choose("form", ["num", "dx"])
        kw = {"num": num} if form == "num" else {"dx": float((x1 - x0) / num * length)}
        got = to_np(glass.distance_grid(c, a, b, **kw))
        want = ref.inv_comoving_distance(np.linspace(x0, x1, num + 1))
        expect_close(env, got, want, "grid of distances", rtol=1e-9, atol=1e-9)
        finish(env, c)

    def alignments(env):
        xp, ref, c, length, density = setup(env, "growth")
        z = env.choose("redshift", [0.0, 0.5, 1.7])
        a = env.choose("amplitude", [1.0, -2.5])
        kw = {k: v for k, v in (
            ("z0", env.choose("z0", [None, 0.62])), ("eta", env.choose("eta", [None, -1.3])), ("lbar", env.choose("lbar", [None, 2.0])),
            ("l0", env.choose("l0", [None, 0.5])), ("beta", env.choose("beta", [None, 0.7])),
        ) if v is not None}
        d = np.array([0.3, -0.2, 0.0, 1.5])
        x = xp.asarray(d)
        p = {"z0": 0.0, "eta": 0.0, "lbar": 0.0, "l0": 1e-9, "beta": 0.0} | kw
        got = glass.galaxies._kappa_ia_nla(x, z, a, c, **kw)
        env.check(is_backend(got, xp), "array type")
        f = -a * 5e-14 / ref.h**2 * ref.critical_density0 * density * ref.Omega_m0 / float(ref.growth_factor(z))
        f = f * ((1 + z) / (1 + p["z0"])) ** p["eta"] * (p["lbar"] / p["l0"]) ** p["beta"]
        expect_close(env, got, f * d, "intrinsic alignments", rtol=1e-10, atol=abs(f) * 1e-12)
        env.check(np.array_equal(to_np(x), d), "matter field was modified")
        finish(env, c)

    return [
        Space("weights", weights, "3 weight functions and windows, 3 cosmologies, 4 systems of units, 4 kinds of values, 3 backends", 3),
        Space("lensing", lensing, "5 interfaces, up to 4 planes, 3 cosmologies, 4 systems of units, 4 kinds of values, 3 backends", 3),
        Space("grids", grids, "2 ranges, 3 numbers of steps, by number and spacing", 3),
        Space("alignments", alignments, "all combinations of the options of the model", 3),
    ]
