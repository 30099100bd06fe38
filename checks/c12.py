"""C12: displacements on the sphere."""

import warnings

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, is_backend

TECHNIQUE = "exhaustive enumeration of positions, lengths and directions on grids with all special points against vector geometry"
NOTE = (
    "All pairs of positions on a grid that contains the poles, antipodes, coincident points, the wrapped meridian and "
    "nearby points, all lengths (including zero, tiny, a quarter and half circle, more) and 16 directions; the reference "
    "rotates Cartesian vectors. Tolerance 1e-12 on unit vectors."
)

LON = [-540.0, -180.0, -90.0, -30.0, 0.0, 1e-7, 45.0, 179.9999, 180.0, 270.0, 360.0]
LAT = [-90.0, -89.9999, -60.0, -30.0, -1e-7, 0.0, 10.0, 45.0, 60.0, 90.0]
LEN = [0.0, 1e-9, 1e-4, 0.1, 1.0, np.pi / 2, 2.0, np.pi, 4.0]
DIR = [k * np.pi / 8 for k in range(-8, 8)]


def vec(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack(np.broadcast_arrays(np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)), axis=-1)


def north(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack(np.broadcast_arrays(-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)), axis=-1)


def east(lon, lat):
    lon = np.radians(lon)
    return np.stack(np.broadcast_arrays(-np.sin(lon), np.cos(lon), 0 * lon + 0 * np.asarray(lat)), axis=-1)


def moved(lon, lat, a, g):
    a, g = np.asarray(a)[..., None], np.asarray(g)[..., None]
    return np.cos(a) * vec(lon, lat) + np.sin(a) * (np.cos(g) * north(lon, lat) + np.sin(g) * east(lon, lat))


def angle(u, v):
    return np.arctan2(np.linalg.norm(np.cross(u, v), axis=-1), np.sum(u * v, axis=-1))


def spaces(tier):
    thorough = tier != "quick"

    def displace(env):
        lon, lat = env.choose("lon", LON), env.choose("lat", LAT)
        xp = choose_backend(env, ("numpy", "strict", "jax"))
        func = env.choose("function", ["displace", "deflect"])
        rep = env.choose("representation", ["complex", "components"])
        a, g = (x.reshape(-1) for x in np.meshgrid(LEN, DIR, indexing="ij"))
        if rep == "components" and xp is BACKENDS["strict"]:
            raise Prune  # unpacking arrays is not part of the array API standard
        al = a * np.exp(1j * g)
        alpha = xp.asarray(al if rep == "complex" else np.stack([al.real, al.imag]))
        lo, la = xp.asarray(np.full(len(a), lon)), xp.asarray(np.full(len(a), lat))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, y = getattr(glass, func)(lo, la, alpha)
        env.check(is_backend(x, xp) and is_backend(y, xp), "array type")
        x, y = to_np(x), to_np(y)
        env.check(x.shape == a.shape and y.shape == a.shape, "shape of positions")
        env.check((np.abs(y) <= 90 + 1e-9).all(), "range of latitudes")
        # for deflections, the second component has the opposite sign
        want = moved(lon, lat, a, g if func == "displace" else -g)
        got = vec(x, y)
        env.check(np.abs(got - want).max() < 1e-12, "displaced position", lon=lon, lat=lat,
                  worst=(a[np.abs(got - want).max(-1).argmax()], g[np.abs(got - want).max(-1).argmax()]))
        d = angle(vec(lon, lat), got)
        env.check(np.abs(np.cos(d) - np.cos(a)).max() < 1e-12, "length of displacement")
        small = a < 3
        env.check(np.abs(d - a)[small].max() < 1e-12, "length of displacement", got=d, want=a)
        # nearby longitudes are not wrapped
        env.check(np.abs(x - lon).max() <= 180 + 1e-9, "change of longitude")
        env.outcome(np.round(x, 6).tolist())

    def between(env):
        lon1, lat1 = env.choose("from lon", LON), env.choose("from lat", LAT)
        xp = choose_backend(env)
        lon2, lat2 = (x.reshape(-1) for x in np.meshgrid(LON, LAT, indexing="ij"))
        l1, b1 = np.full(len(lon2), lon1), np.full(len(lon2), lat1)
        X = [xp.asarray(q) for q in (l1, b1, lon2, lat2)]
        al = glass.displacement(*X)
        env.check(is_backend(al, xp), "array type")
        back = glass.displace(X[0], X[1], al)
        al = to_np(al)
        env.check(al.shape == lon2.shape and np.iscomplexobj(al), "complex displacement")
        d = angle(vec(lon1, lat1), vec(lon2, lat2))
        env.check(np.abs(np.abs(al) - d).max() < 1e-9, "length of displacement", got=np.abs(al), want=d)
        env.check(np.abs(vec(*map(to_np, back)) - vec(lon2, lat2)).max() < 1e-9, "displacement does not lead to the point")
        # precise for nearby points
        near = d < 1e-3
        env.check(np.abs(np.abs(al) - d)[near].max(initial=0) < 1e-13, "length of small displacement")
        env.outcome(np.round(al, 9).tolist())

    SH = [(), (1,), (3,), (2, 1), (2, 3)]

    def shapes(env):
        s1, s2, s3 = (env.choose(n, SH) for n in ("lon", "lat", "alpha"))
        func = env.choose("function", ["displace", "deflect", "displacement"])
        rep = env.choose("representation", ["complex", "components"])
        xp = choose_backend(env) if thorough or len(s1) == 1 else np
        if rep == "components" and (xp is BACKENDS["strict"] or func == "displacement"):
            raise Prune
        g = lambda s, q: np.modf(np.sqrt(2 + 3 * np.arange(float(np.prod(s))) + q) * 7.1)[0].reshape(s)
        lon, lat, al = g(s1, 1) * 360, g(s2, 2) * 180 - 90, g(s3, 3) * np.exp(2j * np.pi * g(s3, 4))
        dims = np.broadcast_shapes(s1, s2, s3)
        if func == "displacement":
            lat2 = 60 * g(s3, 5)
            got = to_np(glass.displacement(xp.asarray(lon), xp.asarray(lat), xp.asarray(lon * 0.5), xp.asarray(lat2)))
            env.check(got.shape == dims, "shape of displacement", got=got.shape, want=dims)
            L, B, L2, B2 = (np.broadcast_to(q, dims) for q in (lon, lat, lon * 0.5, lat2))
            env.check(np.abs(moved(L, B, np.abs(got), np.angle(got)) - vec(L2, B2)).max() < 1e-9, "displacement")
            return
        alpha = al if rep == "complex" else np.stack([al.real, al.imag])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, y = getattr(glass, func)(xp.asarray(lon), xp.asarray(lat), xp.asarray(alpha))
        x, y = np.broadcast_arrays(to_np(x), to_np(y))
        env.check(x.shape == dims, "shape of positions", got=x.shape, want=dims)
        L, B, A = (np.broadcast_to(q, dims) for q in (lon, lat, al))
        s = 1 if func == "displace" else -1
        env.check(np.abs(vec(x, y) - moved(L, B, np.abs(A), s * np.angle(A))).max() < 1e-12, "displaced positions")

    return [
        Space("displace", displace, "11 x 10 positions, 9 lengths, 16 directions, both representations, all backends", 2),
        Space("between", between, "all pairs of 11 x 10 positions, all backends", 2),
        Space("shapes", shapes, "all broadcast shapes", 3),
    ]
