"""C11: uniform positions and weights for clustering."""

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.rng import ScriptRNG, SeqSource, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, is_backend, product

TECHNIQUE = "exhaustive enumeration of sampled counts and shapes, and of the mapping of uniform random numbers to positions"
NOTE = (
    "The counts of all populations are chosen by the explorer from {0,1,2,5}; every uniform random number on a grid is "
    "followed to the position it creates, which decides uniformity of the mapping; all shapes of densities and bias."
)

SPHERE = 4 * np.pi * (180 * 60 / np.pi) ** 2


def spaces(tier):
    thorough = tier != "quick"

    def positions(env):
        shape = env.choose("shape", [(), (1,), (2,), (3,), (2, 2), (1, 2), (2, 1, 2), (0,), (2, 3), (3, 3), (2, 2, 2)])
        xp = choose_backend(env) if shape in ((), (2,), (2, 2)) else np
        dt = env.choose("dtype", ["float", "int", "scalar"] if shape == () else ["float", "int"])
        if dt == "int" and xp is BACKENDS["strict"]:
            raise Prune  # promotion of integers is not part of the array API standard
        n = int(np.prod(shape))
        alpha = [0, 1, 2, 5] if n < 4 else [0, 1, 3] if n == 4 else [0, 2]
        counts = np.array([env.choose(f"count{i}", alpha) for i in range(n)], dtype=int).reshape(shape)
        ngal = np.arange(1.0, n + 1).reshape(shape) * (1 if dt == "int" else 1e-7)
        if dt == "int":
            ngal = ngal.astype(np.int64)
        lams = []

        def count(lam):
            lams.append(np.array(lam))
            return counts

        seq = SeqSource(weyl)
        arg = float(ngal) if dt == "scalar" else xp.asarray(ngal)
        kw = {"xp": xp} if dt == "scalar" else {}
        gen = glass.uniform_positions(arg, rng=ScriptRNG(unit=seq, count=count), **kw)
        got = np.zeros(shape, dtype=int)
        used = []
        batches = 0
        for lon, lat, c in gen:
            env.check(is_backend(lon, xp) and is_backend(lat, xp), "array type")
            lon, lat, c = to_np(lon), to_np(lat), np.asarray(to_np(c))
            env.check(c.shape == shape, "shape of count", got=c.shape, want=shape)
            env.check(lon.ndim == 1 and lon.shape == lat.shape and c.sum() == len(lon), "reported count", got=c, want=len(lon))
            env.check(np.sum(c > 0) <= 1, "count of several populations", got=c)
            env.check((np.abs(lon) <= 180).all() and (np.abs(lat) <= 90).all(), "range of positions")
            got = got + c
            used += ((lon + 180) / 360).tolist() + ((np.sin(np.radians(lat)) + 1) / 2).tolist()
            batches += 1
        env.check((got == counts).all(), "counts of populations", got=got, want=counts)
        env.check(batches == n, "one batch for each population", got=batches, want=n)
        lam = np.concatenate([x.reshape(-1) for x in lams]) if lams else np.zeros(0)
        expect_close(env, lam, (SPHERE * ngal).reshape(-1), "expected number of points", rtol=1e-12)
        # every random number is used exactly once, for a uniform coordinate
        env.check(seq.i == 2 * counts.sum(), "uniform random numbers", got=seq.i, want=2 * counts.sum())
        src = np.sort([weyl(i) for i in range(seq.i)])
        use = np.array(used)
        ok = np.array([min(np.abs(src - u).min(), np.abs(1 - src - u).min()) < 1e-9 for u in use], dtype=bool)
        env.check(ok.all(), "coordinates are not uniform", got=use)
        key = np.array([int(np.argmin(np.minimum(np.abs(src - u), np.abs(1 - src - u)))) for u in use])
        env.check(len(set(key.tolist())) == len(key), "random number used twice")
        env.outcome((shape, counts.tolist()))

    def mapping(env):
        """The mapping of uniform numbers to coordinates on a grid."""
        xp = choose_backend(env)
        u = env.choose("u", [0.0, 2.0**-53] + [k / 16 for k in range(1, 16)] + [1 - 2.0**-53])
        v = env.choose("v", [0.0, 2.0**-53] + [k / 16 for k in range(1, 16)] + [1 - 2.0**-53])
        calls = []

        def unit(shape):
            calls.append(shape)
            return np.full(shape, u if len(calls) == 1 else v)

        ((lon, lat, c),) = list(glass.uniform_positions(1e-8, rng=ScriptRNG(unit=unit, count=lambda lam: 1), xp=xp))
        lon, lat = float(lon[0]), float(lat[0])
        env.check(c == 1 and len(calls) == 2, "number of draws")
        env.check(-180 <= lon <= 180 and -90 <= lat <= 90, "range of positions", lon=lon, lat=lat)
        a, b = (lon + 180) / 360, (np.sin(np.radians(lat)) + 1) / 2
        near = lambda x, y: min(abs(x - y), abs(1 - x - y)) < 1e-12
        env.check((near(a, u) and near(b, v)) or (near(a, v) and near(b, u)), "coordinates are not uniform", a=a, b=b)

    SH = [(), (1,), (2,), (3,), (3, 1), (3, 2), (1, 2), (3, 2, 2), (3, 1, 2), (2, 2)]

    def weights(env):
        sd = env.choose("densities", SH[1:])
        sb = env.choose("bias", [None, "int", "float"] + SH)
        xp = choose_backend(env)
        zero = env.choose("zero", [False, True])
        n = int(np.prod(sd))
        d = np.sqrt(2 + np.arange(float(n))).reshape(sd)
        if zero and sd[0] > 1:
            d[0] = 0.0
        if sb is None:
            b = None
        elif sb in ("int", "float"):
            b = 2 if sb == "int" else 1.7
        else:
            b = np.sqrt(5 + np.arange(float(np.prod(sb)))).reshape(sb)
        if b is None:
            want = d / d.sum(axis=0)
            args = (xp.asarray(d),)
        else:
            bb = np.asarray(b, dtype=float)
            try:
                x, y = np.broadcast_arrays(np.moveaxis(d, 0, -1), np.moveaxis(bb, 0, -1) if bb.ndim else bb)
            except ValueError:
                x = None
            args = (xp.asarray(d), b if sb in ("int", "float") else xp.asarray(b))
            if x is None:
                try:
                    glass.position_weights(*args)
                except Exception:  # noqa: BLE001
                    env.check(True, "rejected")
                else:
                    env.fail("shapes that do not match were accepted")
                return
            x, y = np.moveaxis(x, -1, 0), np.moveaxis(y, -1, 0)
            want = x / x.sum(axis=0) * y
        got = glass.position_weights(*args)
        env.check(is_backend(got, xp), "array type")
        expect_close(env, got, want, "weights", rtol=1e-12)
        env.outcome((sd, sb, want.shape))

    return [
        Space("positions", positions, "all counts from {0,1,2,5}, all shapes up to 4 populations", 3),
        Space("mapping", mapping, "grid of uniform random numbers including the ends", 3),
        Space("weights", weights, "all shapes of densities and bias, all backends", 3),
    ]
