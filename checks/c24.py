"""C24: all array backends give the same results."""

import numpy as np

import glass
from mc import api
from mc.engine import Space
from mc.setup_env import BACKENDS, to_np

TECHNIQUE = "exhaustive enumeration of calls to all public functions with the same values and random numbers on all array backends, NumPy being the model that the others must conform to"
NOTE = (
    "All combinations of the optional arguments in a catalogue of calls to every public function, on three backends, with scripted random numbers. "
    "Functions for which a backend is not supported (transformcl, deprecated functions) are left out for that backend."
)


def native(xp, x):
    """True if the leaf is an array of the backend."""
    return type(x) is type(xp.asarray(0.0)) or isinstance(x, type(xp.asarray(0.0)))


def compare(env, xp, got, want, rtol, where=""):
    if isinstance(want, glass.RadialWindow):
        env.check(isinstance(got, glass.RadialWindow), "type of the result", where=where)
        got, want = (got.za, got.wa, got.zeff), (want.za, want.wa, want.zeff)
    if isinstance(want, dict):
        env.check(isinstance(got, dict) and list(got) == list(want), "keys of the result", where=where)
        got, want = list(got.values()), list(want.values())
    if isinstance(want, (list, tuple)):
        env.check(isinstance(got, (list, tuple)) and len(got) == len(want), "structure of the result", where=where, got=got, want=want)
        for k, (g, w) in enumerate(zip(got, want)):
            compare(env, xp, g, w, rtol, f"{where}[{k}]")
        return
    if want is None:
        env.check(got is None, "result is not None", where=where, got=got)
        return
    if isinstance(want, np.ndarray):
        env.check(native(xp, got), f"result is {type(got).__module__}.{type(got).__name__}, not an array of the backend", where=where)
    g, w = np.asarray(to_np(got)), np.asarray(want)
    env.check(g.shape == w.shape, "shape of the result", where=where, got=g.shape, want=w.shape)
    kinds = {"b": "b", "i": "iu", "u": "iu", "f": "f", "c": "c"}
    env.check(g.dtype.kind in kinds.get(w.dtype.kind, g.dtype.kind), "kind of the result", where=where, got=g.dtype, want=w.dtype)
    if w.dtype.kind in "biu":
        env.check(np.array_equal(g, w), "results differ", where=where, got=g, want=w)
    elif w.size:
        env.check(np.array_equal(np.isnan(g), np.isnan(w)), "results are not a number", where=where, got=g, want=w)
        fin = np.abs(w[np.isfinite(w)])
        scale = fin.max() if fin.size else 0.0
        env.check(np.allclose(g, w, rtol=rtol, atol=rtol * scale + 1e-14, equal_nan=True), "results differ", where=where, got=g, want=w)


def spaces(tier):
    names = list(api.CASES)
    thorough = tier != "quick"

    def backend(which):
        def run(env):
            xp = BACKENDS[which]
            name = env.choose("function", [k for k in names if which in api.CASES[k].backends])
            c = api.CASES[name]
            i, call = c.func(env)
            want = call(np, i, api.rng_of(np))
            got = call(xp, api.conv(xp, i), api.rng_of(xp))
            compare(env, xp, got, want, c.rtol)

        return run

    lon, lat, alp = [-170.0, 0.0, 33.0, 180.0], [-90.0, -20.0, 0.0, 71.0], [0.0, 0.1 + 0.2j, -2.0j, -3.0]
    positive, signed = [0.1, 0.7, 2.0], [-1.0, 0.0, 0.3, 2.5]
    # function of scalars or arrays, and the alphabets of the arguments
    ELEMENTS = {
        "displace": (lambda xp, u, v, w: glass.displace(u, v, w), [lon, lat, alp]),
        "deflect": (lambda xp, u, v, w: glass.deflect(u, v, w), [lon, lat, alp]),
        "displacement": (lambda xp, u, v, w, x: glass.displacement(u, v, w, x), [lon[1:], lat[:3], lon[:3], lat[1:]]),
        "linear_bias": (lambda xp, u, v: glass.linear_bias(u, v), [signed, positive]),
        "loglinear_bias": (lambda xp, u, v: glass.loglinear_bias(u, v), [signed, positive]),
        "density": (lambda xp, u: glass.DensityWeight(api.Cosmo())(u), [signed[1:]]),
        "distance": (lambda xp, u: glass.DistanceWeight(api.Cosmo())(u), [signed[1:]]),
        "volume": (lambda xp, u: glass.VolumeWeight(api.Cosmo())(u), [signed[1:]]),
        "normal": (lambda xp, u, v: glass.grf.Normal()(u, v), [signed, positive]),
        "lognormal": (lambda xp, u, v: glass.grf.Lognormal(0.7)(u, v), [signed, positive]),
        "squared": (lambda xp, u, v: glass.grf.SquaredNormal(0.5, 0.2)(u, v), [signed, positive]),
        "corr": (lambda xp, u: glass.grf.corr(glass.grf.Lognormal(), glass.grf.Lognormal(0.5), u), [signed[:3]]),
        "icorr": (lambda xp, u: glass.grf.icorr(glass.grf.Lognormal(), glass.grf.Lognormal(0.5), u), [signed[1:]]),
        "dcorr": (lambda xp, u: glass.grf.dcorr(glass.grf.SquaredNormal(1.0), glass.grf.SquaredNormal(0.5), u), [signed]),
    }

    def elements(env):
        """Results for arrays are those for their elements."""
        name = env.choose("function", list(ELEMENTS))
        f, sets = ELEMENTS[name]
        which = env.choose("backend", ["numpy", "strict"] + (["jax"] if thorough else []))
        xp = BACKENDS[which]
        grid = [np.ascontiguousarray(x).ravel() for x in np.meshgrid(*map(np.array, sets), indexing="ij")]
        form = env.choose("form", ["1d", "2d", "column", "mixed"])
        if form == "mixed" and len(sets) < 2:
            return
        if form == "mixed":
            # first argument is a scalar, others are arrays
            args = [x[-1:].reshape(()) if k == 0 else x for k, x in enumerate(grid)]
        elif form == "2d":
            args = [x.reshape(-1, len(sets[-1])) for x in grid]
        elif form == "column":
            args = [np.array(x).reshape((-1,) + (1,) * (len(sets) - 1 - k)) for k, x in enumerate(sets)]
        else:
            args = grid
        res = f(xp, *[xp.asarray(x) for x in args])
        multi = isinstance(res, tuple)
        res = [np.asarray(to_np(r)) for r in (res if multi else [res])]
        full = [np.asarray(x) for x in np.broadcast_arrays(*args)]
        for r in res:
            # results may not depend on all of the arguments
            env.check(np.broadcast_shapes(r.shape, full[0].shape) == full[0].shape, "shape of the result", got=r.shape, want=full[0].shape)
        res = [np.broadcast_to(r, full[0].shape) for r in res]
        for k in np.ndindex(full[0].shape):
            one = f(xp, *[xp.asarray(x[k]) for x in full])
            for r, o in zip(res, one if multi else [one]):
                env.check(np.shape(to_np(o)) == (), "result for scalars is not a scalar", got=o)
                env.check(np.allclose(r[k], np.asarray(to_np(o)), rtol=1e-11, atol=1e-11, equal_nan=True), "result for an array is not that for its elements", got=r[k], want=o, args=[x[k] for x in full])

    def scalars(env):
        """Python scalars and arrays without dimensions are the same."""
        which = env.choose("backend", ["numpy", "strict", "jax"] if thorough else ["numpy", "strict"])
        xp = BACKENDS[which]
        calls = {
            "gaussian": (lambda r, n, s: glass.ellipticity_gaussian(n, s, rng=r, xp=xp), [(3, 0.2), (0, 0.5)]),
            "intnorm": (lambda r, n, s: glass.ellipticity_intnorm(n, s, rng=r, xp=xp), [(3, 0.2), (0, 0.5)]),
            "ryden04": (lambda r, *p: glass.ellipticity_ryden04(*p, 3, rng=r, xp=xp), [(-1.85, 0.89, 0.222, 0.056)]),
            "ryden04 one": (lambda r, *p: glass.ellipticity_ryden04(*p, rng=r, xp=xp), [(-1.85, 0.89, 0.222, 0.056)]),
            "triaxial": (lambda r, *p: glass.triaxial_axis_ratio(*p, 3, rng=r, xp=xp), [(0.8, 0.4)]),
            "triaxial one": (lambda r, *p: glass.triaxial_axis_ratio(*p, rng=r, xp=xp), [(0.8, 0.4)]),
            "uniform": (lambda r, n: list(glass.uniform_positions(n, rng=r, xp=xp)), [(3e-8,), (0.0,)]),
            "delta": (lambda r, n, b: list(glass.positions_from_delta(n, xp.asarray(api.kmap(1)), b, rng=r)), [(2e-6, 1.5)]),
            "redshifts": (lambda r, n: glass.redshifts(n, api.conv(xp, api.shells()[0]), rng=r), [(4,), (0,)]),
            "redshifts_from_nz": (lambda r, n: glass.redshifts_from_nz(n, xp.asarray(api.Z), xp.asarray(api.Z), rng=r, warn=False), [(4,), (0,)]),
            "linear_bias": (lambda r, b: glass.linear_bias(xp.asarray(api.Z), b), [(1.5,), (0.0,)]),
            "loglinear_bias": (lambda r, b: glass.loglinear_bias(xp.asarray(api.Z), b), [(1.5,), (0.0,)]),
        }
        name = env.choose("function", list(calls))
        f, vals = calls[name]
        v = env.choose("values", vals)
        want = f(api.rng_of(xp), *v)
        for mask in range(1, 1 << len(v)):
            args = [xp.asarray(x) if mask >> k & 1 else x for k, x in enumerate(v)]
            got = f(api.rng_of(xp), *args)
            # NumPy returns its scalars for arrays without dimensions
            compare(env, xp, jsonlike(got) if xp is np else got, jsonlike(want), 1e-12)

    def jsonlike(o):
        if isinstance(o, (list, tuple)):
            return [jsonlike(x) for x in o]
        return np.asarray(to_np(o)) if hasattr(o, "__array_namespace__") or isinstance(o, np.generic) else o

    return [
        Space("elements", elements, "14 functions, two (thorough: three) backends, four forms of the arguments", 3),
        Space("scalars", scalars, "twelve functions, all combinations of scalars and arrays without dimensions", 3),
        Space("strict", backend("strict"), "all calls of the catalogue", 3),
        Space("jax", backend("jax"), "all calls of the catalogue", 3),
    ]
