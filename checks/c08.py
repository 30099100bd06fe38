"""C08: radial windows, restriction, combination, grids."""

import dataclasses
import itertools
import math
import warnings

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS, to_np
from mc.util import Cosmo, choose_backend, expect_close, expect_raises, is_backend, product

TECHNIQUE = "exhaustive enumeration of redshift grids, samplings and shapes on the real functions against exact piecewise linear references"
NOTE = (
    "All increasing redshift grids over a six-point alphabet, window families, spacings, weights; functions and windows "
    "sampled on all subsets of a common grid, so that every relative position of samples occurs. Reference: exact "
    "piecewise linear interpolation and trapezoidal sums on the union grid."
)

POINTS = [0.0, 0.05, 0.1, 0.3, 1.0, 1.01]


def interp0(x, xp, fp):
    return np.interp(x, xp, fp, left=0.0, right=0.0)


def trap(y, x):
    return np.sum((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x), axis=-1)


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        return f(*a, **k), [str(w.message) for w in rec]


def increasing(points, lo, hi):
    return [c for n in range(lo, hi + 1) for c in itertools.combinations(points, n)]


def spaces(tier):
    thorough = tier != "quick"
    cosmo = Cosmo()

    def windows(env):
        kind = env.choose("family", ["tophat", "linear", "cubic"])
        grid = np.array(env.choose("grid", increasing(POINTS, 2 if kind == "tophat" else 3, 6)))
        dz = env.choose("dz", [None, 0.01, 0.07, 0.5] if thorough else [0.01, 0.07, 0.5])
        weight = env.choose("weight", [None, "linear", "volume"])
        xp = choose_backend(env, ("numpy", "strict", "jax")) if len(grid) == 4 else np
        wf = {None: None, "linear": lambda z: 1 + z, "volume": glass.VolumeWeight(cosmo)}[weight]
        func = getattr(glass, f"{kind}_windows")
        kw = {} if dz is None else {"dz": dz}
        if wf is not None:
            kw["weight"] = wf
        ws, rec = quiet(func, xp.asarray(grid), **kw)
        env.check(bool(rec) == (grid[0] != 0), "warning if windows do not start at zero", got=rec)
        wt = (lambda z: np.ones_like(z)) if wf is None else (lambda z: np.asarray(wf(z)))
        n = len(grid) - (1 if kind == "tophat" else 2)
        env.check(len(ws) == n, "number of windows", got=len(ws))
        for i, w in enumerate(ws):
            env.check(is_backend(w.za, xp) and is_backend(w.wa, xp), "array type")
            za, wa = to_np(w.za), to_np(w.wa)
            lo, hi = grid[i], grid[i + (1 if kind == "tophat" else 2)]
            env.check(za.shape == wa.shape and za.ndim == 1, "shape of window")
            env.check((np.diff(za) > 0).all(), "redshifts of window increase", za=za)
            env.check(za[0] == lo and abs(za[-1] - hi) < 1e-12, "boundaries of window", za=za[[0, -1]], lo=lo, hi=hi)
            if kind == "tophat":
                shape = np.ones_like(za)
                zeff = trap(za * wa, za) / trap(wa, za)
            else:
                mid = grid[i + 1]
                env.check(np.abs(za - mid).min() < 1e-12, "central node is sampled", za=za)
                shape = np.where(za <= mid, (za - lo) / (mid - lo), (hi - za) / (hi - mid))
                if kind == "cubic":
                    shape = shape**2 * (3 - 2 * shape)
                zeff = mid
            expect_close(env, wa, shape * wt(za), "values of window", rtol=1e-9, atol=1e-9)
            expect_close(env, float(w.zeff), zeff, "effective redshift", rtol=1e-10, atol=1e-12)
            # spacing
            parts = [(lo, hi)] if kind == "tophat" else [(lo, grid[i + 1]), (grid[i + 1], hi)]
            for a, b in parts:
                m = np.sum((za >= a - 1e-12) & (za <= b + 1e-12)) - 1
                d = 1e-3 if dz is None else dz
                if (b - a) / d > 4:
                    env.check(0.5 * d < (b - a) / m < 2 * d, "spacing of window", m=m, dz=d)
        # sum of the windows between nominal redshifts
        if wf is None:
            if kind == "tophat":
                x = (grid[1:] + grid[:-1]) / 2
                x = np.concatenate([x, grid[:-1] + 1e-4, grid[1:] - 1e-4, grid[[0, -1]]])
            else:
                x = np.linspace(grid[1], grid[-2], 301)
                x = np.concatenate([x, grid[1:-1]])
            tot = sum(interp0(x, to_np(w.za), to_np(w.wa)) for w in ws)
            expect_close(env, tot, np.ones_like(x), "sum of windows", rtol=0, atol=1e-9)
        env.outcome([to_np(w.za).shape for w in ws])

    def invalid(env):
        xp = choose_backend(env)
        f = env.choose("family", ["tophat", "linear", "cubic"])
        func = getattr(glass, f"{f}_windows")
        need = 2 if f == "tophat" else 3
        for n in range(need):
            expect_raises(env, ValueError, lambda n=n: func(xp.asarray(np.arange(float(n)))), "too few nodes")
        expect_raises(env, ValueError, lambda: func(xp.asarray(np.ones((2, 3)))), "not one-dimensional")
        w = func(xp.asarray([0.0, 1.0, 2.0]))[0]
        try:
            w.zeff = 3.0
        except dataclasses.FrozenInstanceError:
            env.check(True, "frozen")
        else:
            env.fail("window is mutable")
        za, wa, zeff = w
        env.check(za is w.za and wa is w.wa and zeff is w.zeff, "iteration over window")
        z = xp.asarray([0.0, 0.5, 2.0])
        v = glass.RadialWindow(z, xp.asarray([1.0, 0.5, 0.25]))
        zz, ww = to_np(z), np.array([1.0, 0.5, 0.25])
        expect_close(env, float(v.zeff), trap(zz * ww, zz) / trap(ww, zz), "default effective redshift")
        env.check(math.isnan(glass.RadialWindow(z[:0], z[:0]).zeff), "empty window")
        env.check(glass.RadialWindow(z, z, 0.0).zeff == 0.0, "given effective redshift")
        expect_raises(env, ValueError, lambda: glass.restrict(xp.asarray(np.ones((2, 3))), xp.asarray(np.ones((2, 3))), w), "two-dimensional redshifts")

    def weights(env):
        k = env.choose("weight", ["distance", "volume", "density"])
        xp = choose_backend(env)
        om = env.choose("omega", [0.3, 1.0, 0.05])
        c = Cosmo(om)
        z = np.array([0.0, 0.1, 1.0, 3.0])
        e = np.sqrt(om * (1 + z) ** 3 + 1 - om)
        x = c._cd(z) / c._dh
        want = {
            "distance": 1 / e, "volume": x**2 / e,
            "density": c.critical_density0 * om * (1 + z) ** 3 / e**2 * x**2 / e,
        }[k]
        f = {"distance": glass.DistanceWeight, "volume": glass.VolumeWeight, "density": glass.DensityWeight}[k](c)
        expect_close(env, f(xp.asarray(z)), want, "weight", rtol=1e-9)

    NODES = np.array([0.0, 0.25, 0.5, 0.75, 1.0, 1.25])

    def sampling(env, label, nmin=2, pts=NODES):
        return np.array(env.choose(label, increasing(list(pts), nmin, len(pts))))

    def fun(x, k):
        return 1.3 + np.sin(7.0 * x + k) + k

    def restrict(env):
        shift = env.choose("shift", [0.0, 0.1, 0.25, 2.0])
        wz = sampling(env, "window nodes", 2, NODES[1:5] if not thorough else NODES)
        fz = sampling(env, "function nodes", 1 if thorough else 2) + shift
        w = glass.RadialWindow(wz, fun(wz, 1), 0.5)
        f = fun(fz, 0)
        zr, fr = glass.restrict(fz, f, w)
        want_z = np.unique(np.concatenate([wz, fz[(fz > wz[0]) & (fz < wz[-1])]]))
        expect_close(env, zr, want_z, "redshifts of restriction", rtol=0, atol=0)
        want = interp0(want_z, fz, f) * np.interp(want_z, wz, w.wa)
        expect_close(env, fr, want, "restriction", rtol=1e-12, atol=1e-13)
        # effective bias for functions that cover the window
        if fz[0] <= wz[0] and fz[-1] >= wz[-1]:
            g = np.union1d(wz, fz[(fz >= wz[0]) & (fz <= wz[-1])])
            eb = trap(np.interp(g, fz, f) * np.interp(g, wz, w.wa), g) / trap(w.wa, wz)
            expect_close(env, glass.effective_bias(fz, f, w), eb, "effective bias", rtol=1e-12)
            expect_close(env, glass.effective_bias(fz, 0 * f + 2.5, w), 2.5, "constant bias", rtol=1e-12)

    def restrict_nd(env):
        dims = env.choose("shape", [(), (1,), (2,), (2, 1), (3, 2)])
        xp = choose_backend(env)
        shift = env.choose("shift", [0.0, 0.1])
        wz = np.array([0.25, 0.5, 1.0])
        fz = NODES + shift
        f = np.array([fun(fz, k) for k in range(int(np.prod(dims)))]).reshape(*dims, 6)
        w = glass.RadialWindow(xp.asarray(wz), xp.asarray(fun(wz, 1)), 0.5)
        zr, fr = glass.restrict(xp.asarray(fz), xp.asarray(f), w)
        env.check(is_backend(zr, xp) and is_backend(fr, xp), "array type")
        g = np.unique(np.concatenate([wz, fz[(fz > wz[0]) & (fz < wz[-1])]]))
        expect_close(env, zr, g, "redshifts of restriction", rtol=0, atol=0)
        want = np.array([interp0(g, fz, y) * np.interp(g, wz, fun(wz, 1)) for y in f.reshape(-1, 6)]).reshape(*dims, len(g))
        expect_close(env, fr, want, "restriction", rtol=1e-12)
        eb = glass.effective_bias(xp.asarray(fz), xp.asarray(fun(fz, 0)), dataclasses.replace(w, za=xp.asarray(wz + 0.1), zeff=0.5))
        g = np.union1d(wz + 0.1, fz[(fz >= wz[0] + 0.1) & (fz <= wz[-1] + 0.1)])
        want = trap(np.interp(g, fz, fun(fz, 0)) * np.interp(g, wz + 0.1, fun(wz, 1)), g) / trap(fun(wz, 1), wz)
        expect_close(env, eb, want, "effective bias", rtol=1e-12)

    def combine(env):
        n = env.choose("shells", [1, 2, 3])
        dims = env.choose("shape", [(), (1,), (2,), (2, 3)])
        # iterating over arrays is not part of the array API standard
        xp = choose_backend(env, ("numpy", "jax") if dims else ("numpy", "jax", "strict"))
        kind = env.choose("family", ["tophat", "cubic", "overlap"])
        grid = xp.asarray([0.0, 0.4, 1.0, 1.2, 2.0])
        if kind == "overlap":
            ws = [glass.RadialWindow(xp.asarray(NODES + 0.1 * i), xp.asarray(fun(NODES, i)), 0.5) for i in range(n)]
        else:
            ws = getattr(glass, f"{kind}_windows")(grid[: n + (1 if kind == "tophat" else 2)], dz=0.1)
        z = env.choose("redshifts", [[], [0.2], [0.0, 0.4, 1.2, 5.0], list(np.linspace(-0.1, 2.3, 25))])
        z = np.array(z)
        wt = np.sqrt(2.0 + np.arange(n * int(np.prod(dims)))).reshape(n, *dims) * (-1) ** np.arange(n).reshape(n, *([1] * len(dims)))
        got = glass.combine(xp.asarray(z), xp.asarray(wt), ws)
        env.check(is_backend(got, xp), "array type")
        want = np.zeros((*dims, len(z)))
        for x, w in zip(wt, ws, strict=True):
            za, wa = to_np(w.za), to_np(w.wa)
            want += x[..., None] * interp0(z, za, wa) / trap(wa, za)
        expect_close(env, got, want, "combination", rtol=1e-10, atol=1e-12)

    def grids(env):
        """All grids with bounds and steps given in decimal fractions."""
        zmin = env.choose("zmin", [0, 1, 5, 7])
        n = env.choose("length", list(range(1, 40 if thorough else 25)))
        q = env.choose("unit", [10, 20, 100, 1000, 8, 3])
        for s in range(1, 8):
            a, b, dz = zmin / q, (zmin + n) / q, s / q
            steps = -(-n // s)
            g = glass.redshift_grid(a, b, dz=dz)
            env.check(g.shape == (steps + 1,), "number of points", a=a, b=b, dz=dz, got=g, want=steps + 1)
            expect_close(env, g, (zmin + s * np.arange(steps + 1)) / q, "grid", rtol=0, atol=1e-12)
            g = glass.redshift_grid(a, b, num=s)
            expect_close(env, g, a + (b - a) * np.arange(s + 1) / s, "grid", rtol=0, atol=1e-12)
            env.check(g[0] == a and g[-1] == b, "ends of grid", g=g)

    def distances(env):
        om = env.choose("omega", [0.3, 0.7])
        zmin = env.choose("zmin", [0.0, 0.2, 1.0])
        zmax = env.choose("zmax", [1.0, 1.5, 3.0])
        if zmax <= zmin:
            raise Prune
        how = env.choose("how", [("dx", 100.0), ("dx", 333.0), ("dx", "divide7"), ("num", 1), ("num", 6), ("num", 50)])
        c = Cosmo(om)
        x0, x1 = c._cd(zmin), c._cd(zmax)
        k, v = how
        if v == "divide7":
            v = (x1 - x0) / 7
        g = glass.distance_grid(c, zmin, zmax, **{k: v})
        x = c._cd(g)
        d = np.diff(x)
        if k == "num":
            env.check(len(g) == v + 1, "number of points")
            expect_close(env, d, np.full(v, (x1 - x0) / v), "spacing", rtol=1e-6)
            expect_close(env, x[[0, -1]], [x0, x1], "ends", rtol=1e-9, atol=1e-6)
        else:
            m = math.ceil(round((x1 - x0) / v, 9))
            env.check(len(g) == m + 1, "number of points", got=len(g), want=m + 1)
            expect_close(env, d, np.full(m, v), "spacing", rtol=1e-6)
            expect_close(env, x[0], x0, "start", rtol=1e-9, atol=1e-6)

    def grids_misc(env):
        xp = choose_backend(env)
        how = env.choose("how", ["none", "both", "dz", "num"])
        if how in ("none", "both"):
            kw = {} if how == "none" else {"dz": 0.1, "num": 3}
            expect_raises(env, ValueError, lambda: glass.redshift_grid(0.0, 1.0, xp=xp, **kw), "grid options")
            kw = {} if how == "none" else {"dx": 0.1, "num": 3}
            expect_raises(env, ValueError, lambda: glass.distance_grid(cosmo, 0.0, 1.0, **kw), "grid options")
        else:
            g = glass.redshift_grid(0.0, 1.0, xp=xp, **({"dz": 0.25} if how == "dz" else {"num": 4}))
            env.check(is_backend(g, xp), "array type")
            expect_close(env, g, [0.0, 0.25, 0.5, 0.75, 1.0], "grid", rtol=1e-12)
            kw = {"dx": 333.0} if how == "dz" else {"num": 4}
            g = glass.distance_grid(Cosmo(), xp.asarray(0.1), xp.asarray(1.0), **kw)
            env.check(is_backend(g, xp), "array type")
            expect_close(env, g, glass.distance_grid(Cosmo(), np.array(0.1), np.array(1.0), **kw), "grid", rtol=1e-10)

    return [
        Space("windows", windows, "all increasing grids from 6 points, 3 families, 3 spacings, 3 weights", 3),
        Space("invalid", invalid, "rejected input, window objects", 2),
        Space("weights", weights, "weight functions", 2),
        Space("restrict", restrict, "all samplings from 6 nodes, 4 offsets", 3),
        Space("restrict_nd", restrict_nd, "all shapes and backends", 2),
        Space("combine", combine, "1..3 shells, all shapes and backends", 3),
        Space("grids", grids, "all grids n/q with step s/q, n < 25 (40), s < 8, 6 units", 3),
        Space("distances", distances, "distance grids", 3),
        Space("grids_misc", grids_misc, "options and backends", 2),
    ]
