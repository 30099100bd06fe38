"""C30: invalid arguments are rejected, valid arguments are accepted."""

import os
import sys
import warnings

import numpy as np

from mc.setup_env import BACKENDS, REPO, to_np

import glass
import glass.algorithm
import glass.healpix as hp
from mc import api
from mc.engine import Prune, Space
from mc.util import Cosmo

TECHNIQUE = "exhaustive enumeration of argument structures and boundary values for every function that validates its arguments, against a predicate for validity that follows the documentation"
NOTE = (
    "For every documented condition, all shapes, counts and values of a small alphabet on both sides of the boundary, three backends; the rejected call must not change "
    "its inputs, and a valid call before and after it must give the same result. Warnings are checked over all argument variants of the catalogue of calls."
)

VE = (ValueError,)
SHAPES = [(), (0,), (1,), (2,), (3,), (1, 2), (2, 2), (3, 1)]
TRI = {k * (k + 1) // 2: k for k in range(12)}


def fill(shape, lo=0.1, hi=1.0):
    return api.ramp(shape, 0, lo, hi)


def spectra(n, length=3):
    """Valid spectra: decreasing auto-spectra, weak correlations."""
    out, i = [], 0
    for k in range(n):
        i = max(j for j in range(20) if j * (j + 1) // 2 <= k)
        out.append((1.0 if k == i * (i + 1) // 2 else 0.05) / np.arange(1.0, length + 1))
    return out


# -- arguments -----------------------------------------------------------------------
# each function chooses arguments and returns inputs, call, validity, and type of error


def number_of_spectra(env):
    f = env.choose("use", ["nfields", "indices", "cov", "to healpix", "to glass", "effective", "discretized", "lognormal_gls", "gaussian", "regularized", "posdef"])
    k = env.choose("spectra", list(range(0 if f in ("nfields", "to healpix", "to glass", "discretized") else 1, 13)))
    cls = spectra(k)
    call = {
        "nfields": lambda xp, i: glass.nfields_from_nspectra(k),
        "indices": lambda xp, i: glass.nfields_from_nspectra(k),
        "cov": lambda xp, i: glass.cov_from_spectra(i),
        "to healpix": lambda xp, i: glass.glass_to_healpix_spectra(i),
        "to glass": lambda xp, i: glass.healpix_to_glass_spectra(i),
        "effective": lambda xp, i: glass.effective_cls(i, xp.ones((TRI.get(k, 2), 1))),
        "discretized": lambda xp, i: glass.discretized_cls(i, ncorr=1),
        "lognormal_gls": lambda xp, i: glass.lognormal_gls([0.1 * c for c in i]),
        "gaussian": lambda xp, i: list(glass.generate_gaussian(i, 1)),
        "regularized": lambda xp, i: glass.regularized_spectra(i),
        "posdef": lambda xp, i: bool(glass.check_posdef_spectra(i)),
    }[f]
    return cls, call, k in TRI, VE


def number_of_fields(env):
    f = env.choose("use", ["generate", "compute", "solve"])
    n = env.choose("fields", [1, 2, 3, 4])
    k = env.choose("spectra", list(range(1, 12)))
    t = [glass.grf.Normal()] * n
    call = {
        "generate": lambda xp, i: list(glass.generate(t, i, 1)),
        "compute": lambda xp, i: glass.compute_gaussian_spectra(t, i),
        "solve": lambda xp, i: glass.solve_gaussian_spectra(t, i),
    }[f]
    return spectra(k), call, k == n * (n + 1) // 2, VE


def empty_spectra(env):
    lens = [env.choose(f"length {k}", [0, 1, 3]) for k in range(3)]
    cls = [c[:n] for c, n in zip(spectra(3), lens)]
    # a field without variance can not be correlated with others
    valid = max(lens) > 0
    if valid and lens[2] > min(lens[0], lens[1]):
        raise Prune
    return cls, lambda xp, i: list(glass.generate([glass.grf.Normal()] * 2, i, 1)), valid, VE


def covariance_values(env):
    f = env.choose("use", ["generate", "generate independent", "cls2cov"])
    c0 = env.choose("first", [-1.0, -1e-300, 0.0, 1.0])
    c1 = env.choose("second", [-1.0, -1e-300, 0.0, 4.0])
    cc = env.choose("cross", [-2.5, -2.0, 0.0, 1.0, 2.5])
    ell = env.choose("mode", [0, 2])
    cls = [np.ones(3), np.ones(3), np.zeros(3)]
    cls[0][ell], cls[1][ell], cls[2][ell] = c0, c1, cc
    if f == "cls2cov":
        valid = c0 >= 0 and c1 >= 0
        return cls, lambda xp, i: [to_np(c).tolist() for c in glass.cls2cov(i, 3, 2, 1)], valid, VE
    nc = 0 if f == "generate independent" else None
    valid = c0 >= 0 and c1 >= 0 and (nc == 0 or cc**2 <= c0 * c1)
    if c0 == 0 and cc != 0 and nc is None and valid is False and c1 >= 0:
        # no regression on a field without variance: the correlation can not be realised, and is dropped
        raise Prune
    return cls, lambda xp, i: list(glass.generate([glass.grf.Normal()] * 2, i, 1, ncorr=nc)), valid, VE


def iternorm_rows(env):
    first = env.choose("leading", [(), (1,), (2,)])
    other = env.choose("leading of other", [(), (1,), (2,), (3,), (2, 1)])
    where = env.choose("other row", [0, 1, 2])
    size = env.choose("columns", [0, 1, 2])
    rows = []
    for k in range(3):
        lead, n = (other, size) if k == where else (first, 2)
        r = np.zeros((*lead, n))
        r[..., :1] = 1.0
        rows.append(r)
    valid = size > 0 and other == first
    if size > 2:
        raise Prune
    return rows, lambda xp, i: [to_np(x).tolist() for x in glass.iternorm(i)], valid, VE


def effective_weights(env):
    n = env.choose("fields", [1, 2, 3])
    s1 = env.choose("weights1", SHAPES)
    s2 = env.choose("weights2", [None, *SHAPES])
    if any(0 in (s or ()) for s in (s1, s2)):
        raise Prune
    valid = all(s is None or (len(s) > 0 and s[0] == n) for s in (s1, s2))
    i = {"cls": spectra(n * (n + 1) // 2), "w1": fill(s1), "w2": None if s2 is None else fill(s2)}
    return i, lambda xp, i: glass.effective_cls(i["cls"], i["w1"], i["w2"]), valid, VE


def method_names(env):
    f = env.choose("use", ["regularized", "partition"])
    good = {"regularized": ["nearest", "clip"], "partition": ["nnls", "lstsq", "restrict"]}
    m = env.choose("method", ["nearest", "clip", "nnls", "lstsq", "restrict", "", "Nearest", "clip ", "nearcorr", "partition_nnls", "LSTSQ"])
    if f == "regularized":
        return spectra(3), lambda xp, i: glass.regularized_spectra(i, method=m), m in good[f], VE
    z = np.linspace(0.0, 2.0, 9)
    i = {"z": z, "f": fill((9,)), "s": api.shells()}
    return i, lambda xp, i: glass.partition(i["z"], i["f"], i["s"], method=m), m in good[f], VE


def photoz_bounds(env):
    form = env.choose("z", ["0d", "3"])
    vals = [None, -1.0, 0.0, 0.999, 1.0, 1.001, 3.0, float("nan")]
    lo, up = env.choose("lower", vals), env.choose("upper", vals)
    arr = env.choose("bounds", ["scalars", "arrays", "arrays of other shape", "one bad"] if form == "3" else ["scalars"])
    z = np.array(1.0) if form == "0d" else np.ones(3)
    l = 0.0 if lo is None else lo
    u = np.inf if up is None else up
    valid = bool(l < u)
    if valid and not l <= 1.0 <= u:
        # bounds are valid but rejection sampling would not end
        raise Prune
    if arr != "scalars" and (lo is None or up is None):
        raise Prune
    if arr == "arrays":
        lo, up = np.full(3, lo), np.full(3, up)
    elif arr == "arrays of other shape":
        k = env.choose("shape", [2, 4])
        lo, up, valid = np.full(k, lo), np.full(k, up), False
    elif arr == "one bad":
        if not valid:
            raise Prune
        k = env.choose("element", [0, 1, 2])
        lo, up = np.full(3, lo), np.full(3, up)
        lo[k], up[k], valid = 1.5, 1.5, False
    i = {"z": z, "lo": lo, "up": up}
    rng = lambda xp: api.rng_of(xp)
    return i, lambda xp, i: glass.gaussian_phz(i["z"], 0.2, lower=i["lo"], upper=i["up"], rng=rng(xp)), valid, VE


def shape_sigma(env):
    lim = 0.5**0.5
    vals = [-1.0, -1e-300, 0.0, 0.3, 0.7, float(np.nextafter(lim, 0)), lim, float(np.nextafter(lim, 1)), 2.0, float("nan")]
    s = env.choose("sigma", vals)
    form = env.choose("form", ["float", "0d", "array"])
    ok = s >= 0 and s < lim
    sig = {"float": s, "0d": np.array(s), "array": None}[form]
    if form == "array":
        sig = np.full(3, 0.2)
        sig[env.choose("element", [0, 1, 2])] = s
    i = {"n": np.array(2), "s": sig}
    return i, lambda xp, i: glass.ellipticity_intnorm(i["n"], i["s"], rng=api.rng_of(xp)), bool(ok), VE


def resample_variances(env):
    eps = np.array([0.5, -0.5, 0.5j, -0.5j])  # variance 1/4
    vals = [None, 0.0, 0.1, 0.25, float(np.nextafter(0.25, 1)), 1.0]
    g, k = env.choose("varg", vals), env.choose("vargamma", vals)
    valid = (g is None or k is None) and all(v is None or v <= 0.25 for v in (g, k))
    return {"e": eps}, lambda xp, i: glass.resample_shapes(i["e"], varg=g, vargamma=k, rng=api.rng_of(xp)), valid, VE


def window_grids(env):
    f = env.choose("function", ["tophat", "linear", "cubic"])
    shape = env.choose("shape", [(), (0,), (1,), (2,), (3,), (4,), (1, 3), (3, 3), (3, 1)])
    z = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    valid = len(shape) == 1 and shape[0] >= (2 if f == "tophat" else 3)
    fn = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}[f]
    return {"z": z}, lambda xp, i: fn(i["z"], 0.5), valid, VE


def restrict_shape(env):
    shape = env.choose("shape", [(), (3,), (4,), (1, 3), (2, 3), (3, 1)])
    z = np.linspace(0.0, 2.0, int(np.prod(shape))).reshape(shape)
    i = {"z": z, "f": np.ones(shape), "w": api.shells()[1]}
    return i, lambda xp, i: glass.restrict(i["z"], i["f"], i["w"]), len(shape) == 1, VE


def step_or_number(env):
    f = env.choose("function", ["redshift_grid", "distance_grid", "fixed_zbins"])
    d, n = env.choose("step", [None, 0.25, 0.3]), env.choose("number", [None, 1, 4])
    valid = (d is None) != (n is None)
    if f == "redshift_grid":
        return {}, lambda xp, i: glass.redshift_grid(0.0, 1.0, dz=d, num=n, xp=xp), valid, VE
    if f == "distance_grid":
        return {}, lambda xp, i: glass.distance_grid(Cosmo(), np.array(0.0), np.array(1.0), dx=None if d is None else d * 1e3, num=n), valid, VE
    return {}, lambda xp, i: glass.fixed_zbins(0.0, 1.0, dz=d, nbins=n, xp=xp), valid, VE


def nnls_shapes(env):
    s = [(), (1,), (2,), (3,), (1, 1), (2, 2), (3, 2), (2, 2, 2), (1, 2, 2)]
    sa, sb = env.choose("a", s), env.choose("b", s)
    valid = len(sa) == 2 and len(sb) == 1 and sa[0] == sb[0]
    a = fill(sa)
    if len(sa) == 2:
        a = a + np.eye(*sa)
    return {"a": a, "b": fill(sb)}, lambda xp, i: glass.algorithm.nnls(i["a"], i["b"]), valid, VE


def matrices(env):
    f = env.choose("function", ["nearcorr", "cov_nearest"])
    lead = env.choose("leading", [(), (2,), (2, 1)])
    if f == "nearcorr":
        m, n = env.choose("rows", [1, 2, 3]), env.choose("columns", [1, 2, 3])
        x = np.zeros((*lead, m, n)) + np.eye(m, n)
        return {"x": x}, lambda xp, i: glass.algorithm.nearcorr(i["x"]), m == n, VE
    n = env.choose("size", [1, 2, 3])
    v = env.choose("value", [-1.0, -1e-300, -0.0, 0.0, 1.0])
    k = env.choose("position", list(range(n)))
    b = env.choose("matrix", [0, -1]) if lead else 0
    x = np.zeros((*lead, n, n)) + np.eye(n)
    x.reshape(-1, n, n)[b, k, k] = v
    return {"x": x}, lambda xp, i: glass.algorithm.cov_nearest(i["x"]), v >= 0, VE


def plane_weights(env):
    n = env.choose("shells", [1, 2, 3])
    s = env.choose("weights", [s for s in SHAPES if 0 not in s])
    return {"w": fill(s), "s": api.shells(n)}, lambda xp, i: glass.multi_plane_weights(i["w"], i["s"], Cosmo()), len(s) > 0 and s[0] == n, VE


def plane_order(env):
    zs = [env.choose(f"redshift {k}", [0.0, 0.4, 0.5, 1.0]) for k in range(3)]
    valid = all(a < b for a, b in zip([0.0, *zs], zs))

    def call(xp, i):
        m = glass.MultiPlaneConvergence(Cosmo())
        for z in zs:
            m.add_plane(i["d"], z, 1.0)
        return xp.asarray(to_np(m.kappa).copy())

    return {"d": fill((12,))}, call, valid, VE


def visibility_pairs(env):
    pairs = [(), (0.5,), (0.5, 1.0), (0.5, 1.0, 1.5)]
    form = env.choose("form", [tuple, list])
    g, e = form(env.choose("galactic", pairs)), form(env.choose("ecliptic", pairs))
    return {}, lambda xp, i: glass.vmap_galactic_ecliptic(1, g, e), len(g) == len(e) == 2, (TypeError,)


def bias_models(env):
    b = env.choose("bias_model", ["linear_bias", "", None, 1.5, (), "function", "lambda", "class"])
    f = {"function": glass.loglinear_bias, "lambda": lambda d, b: b * d}.get(b, b)
    if b == "class":

        class Model:
            def __call__(self, d, b):
                return b * d

        f = Model()
    with_bias = env.choose("bias", [None, 1.5])
    i = {"d": np.full(12, 0.1)}
    call = lambda xp, i: list(glass.positions_from_delta(1e-8, i["d"], with_bias, bias_model=f, rng=api.rng_of(xp)))
    return i, call, b in ("function", "lambda", "class"), (TypeError,)


class Custom:
    """Transformation that knows about normal fields only."""

    def corr(self, other, x):
        return 2 * x if type(other) is glass.grf.Normal else NotImplemented

    def icorr(self, other, x):
        return x / 2 if type(other) is glass.grf.Normal else NotImplemented

    def dcorr(self, other, x):
        return 2 + 0 * x if type(other) is glass.grf.Normal else NotImplemented


def transformation_pairs(env):
    t = {"normal": glass.grf.Normal(), "lognormal": glass.grf.Lognormal(0.5), "squared": glass.grf.SquaredNormal(0.5), "custom": Custom()}
    a, b = env.choose("first", list(t)), env.choose("second", list(t))
    f = env.choose("function", [glass.grf.corr, glass.grf.icorr, glass.grf.dcorr])
    pairs = {frozenset(p) for p in [("normal",), ("lognormal",), ("squared",), ("normal", "lognormal"), ("normal", "custom")]}
    return {"x": fill((3,), 0.0, 0.1)}, lambda xp, i: f(t[a], t[b], i["x"]), frozenset((a, b)) in pairs, (NotImplementedError,)


def solver_padding(env):
    pad = env.choose("pad", [-2, -1, 0, 1, 3])
    return {"cl": 0.01 * spectra(1)[0]}, lambda xp, i: glass.grf.solve(i["cl"], glass.grf.Lognormal(), pad=pad)[0], pad >= 0, VE


def broadcasting(env):
    f = env.choose("function", ["positions", "broadcast_leading_axes", "phz", "intnorm"])
    s1, s2 = env.choose("first", SHAPES), env.choose("second", SHAPES)
    try:
        np.broadcast_shapes(s1, s2)
        valid = True
    except ValueError:
        valid = False
    if f == "positions":
        i = {"n": 1e-8 * fill(s1), "d": 0.1 * np.ones((*s2, 12))}
        return i, lambda xp, i: list(glass.positions_from_delta(i["n"], i["d"], rng=api.rng_of(xp))), valid, (ValueError, TypeError)
    if f == "broadcast_leading_axes":
        i = {"a": fill(s1), "b": fill((*s2, 5))}
        return i, lambda xp, i: [to_np(x).tolist() for x in glass.arraytools.broadcast_leading_axes((i["a"], 0), (i["b"], 1))[1:]], valid, (ValueError, TypeError)
    if f == "phz":
        i = {"z": fill(s1), "s": 0.1 * fill(s2)}
        return i, lambda xp, i: glass.gaussian_phz(i["z"], i["s"], rng=api.rng_of(xp)), valid, (ValueError, TypeError)
    i = {"n": np.ones(s1, int), "s": 0.5 * fill(s2)}
    return i, lambda xp, i: glass.ellipticity_intnorm(i["n"], i["s"], rng=api.rng_of(xp)), valid, (ValueError, TypeError)


def missing_backend(env):
    f = env.choose("function", ["deflect", "gaussian", "intnorm", "ryden", "triaxial", "uniform"])
    given = env.choose("given", [False, True])

    def call(xp, i):
        xp = xp if given else None
        r = api.rng_of(xp or np)
        return {
            "deflect": lambda: glass.deflect(1.0, 2.0, 0.1j, xp=xp), "gaussian": lambda: glass.ellipticity_gaussian(2, 0.2, rng=r, xp=xp),
            "intnorm": lambda: glass.ellipticity_intnorm(2, 0.2, rng=r, xp=xp), "ryden": lambda: glass.ellipticity_ryden04(-1.85, 0.89, 0.222, 0.056, 2, rng=r, xp=xp),
            "triaxial": lambda: glass.triaxial_axis_ratio(0.8, 0.4, 2, rng=r, xp=xp), "uniform": lambda: list(glass.uniform_positions(1e-8, rng=r, xp=xp)),
        }[f]()

    return {}, call, given, (ValueError, TypeError)


def datapath(env):
    kind = env.choose("HEALPY_DATAPATH", ["directory", "missing", "file"])
    f = env.choose("function", ["pixwin", "map2alm", "discretized"])
    good = os.environ["HEALPY_DATAPATH"]
    path = {"directory": good, "missing": os.path.join(good, "missing"), "file": __file__}[kind]

    def call(xp, i):
        os.environ["HEALPY_DATAPATH"] = path
        try:
            return {
                "pixwin": lambda: hp.pixwin(2, xp=xp), "map2alm": lambda: hp.map2alm(i["m"], lmax=3, use_pixel_weights=True),
                "discretized": lambda: glass.discretized_cls([i["m"][:5]], nside=2),
            }[f]()
        finally:
            os.environ["HEALPY_DATAPATH"] = good

    return {"m": api.kmap(2)}, call, kind == "directory", VE


FUNCS = {
    f.__name__: (f, b)
    for f, b in [
        (number_of_spectra, "nsj"), (number_of_fields, "ns"), (empty_spectra, "n"), (covariance_values, "ns"), (iternorm_rows, "ns"), (effective_weights, "ns"),
        (method_names, "nsj"), (photoz_bounds, "ns"), (shape_sigma, "nsj"), (resample_variances, "ns"), (window_grids, "nsj"), (restrict_shape, "ns"),
        (step_or_number, "nsj"), (nnls_shapes, "ns"), (matrices, "ns"), (plane_weights, "ns"), (plane_order, "ns"), (visibility_pairs, "n"), (bias_models, "ns"),
        (transformation_pairs, "nsj"), (solver_padding, "nsj"), (broadcasting, "n"), (missing_backend, "nsj"), (datapath, "nsj"),
    ]
}
NAMES = {"n": "numpy", "s": "strict", "j": "jax"}

DEPRECATED = {"lognormal_gls", "generate_gaussian", "generate_lognormal"}


def own(w):
    """True for warnings that name a line of this check or of glass."""
    return not issubclass(w.category, RuntimeWarning)


def spaces(tier):
    def arguments(env):
        name = env.choose("function", list(FUNCS))
        f, b = FUNCS[name]
        xp = BACKENDS[NAMES[env.choose("backend", list(b))]]
        i, call, valid, exc = f(env)
        if xp is BACKENDS["strict"] and "use" in (c := {t[0]: t[3] for t in env.trace}) and c["use"] in ("lognormal_gls", "compute"):
            raise Prune  # array_api_strict is not supported by the transforms
        before = [x.copy() for x in api.arrays(i)]
        j = api.conv(xp, i)
        try:
            r = call(xp, j)
            err = None
        except Exception as e:  # noqa: BLE001
            err = e
        after = [to_np(x) for x in api.arrays(j)]
        if valid:
            env.check(err is None, f"valid arguments are rejected: {type(err).__name__}: {err}")
            for x in api.leaves(r):
                if hasattr(x, "__array_namespace__"):
                    env.check(not np.isnan(to_np(x)).any(), "result is not a number", got=x)
        else:
            env.check(err is not None, "invalid arguments are accepted", got=r if err is None else None)
            env.check(isinstance(err, exc), f"invalid arguments raise {type(err).__name__}: {err}")
            env.check(str(err) != "", "error without a message")
        env.check(len(before) == len(after) and all(np.array_equal(p, q, equal_nan=True) for p, q in zip(before, after)), "inputs were changed")
        env.outcome((name, valid, type(err).__name__))

    def call_warnings(env):
        """Warnings are given exactly where documented."""
        name = env.choose("function", list(api.CASES))
        c = api.CASES[name]
        i, call = c.func(env)
        chosen = {t[0]: t[3] for t in env.trace}
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            call(np, i, api.rng_of(np))
        got = {w.category.__name__ for w in rec if not issubclass(w.category, RuntimeWarning)}
        want = set()
        if name in DEPRECATED:
            want.add("DeprecationWarning")
        if name == "windows" and chosen["grid"][0] != 0:
            want.add("UserWarning")
        if name == "solve_gaussian_spectra":
            got.discard("UserWarning")  # convergence is decided by another property
        if name in ("lognormal_gls", "covariances", "regularized_spectra"):
            got.discard("UserWarning")
        env.check(got == want, "warnings", got=sorted(f"{w.category.__name__}: {w.message}" for w in rec), want=want)

    def warn_argument(env):
        warn = env.choose("warn", [None, True, False])
        shape = env.choose("count", [3, "array"])
        f = env.choose("function", ["redshifts_from_nz", "redshifts", "redshifts_from_bins"])
        kw = {} if warn is None or f != "redshifts_from_nz" else {"warn": warn}
        z, nz = api.Z, np.ones(7)
        n = 3 if shape == 3 else np.array([2, 1])
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if f == "redshifts":
                glass.redshifts(3, api.shells()[0], rng=api.rng_of(np))
            elif f == "redshifts_from_bins":
                glass.redshifts_from_bins(np.array([1, 2, 1]), z, {1: nz, 2: nz}, rng=api.rng_of(np))
            else:
                glass.redshifts_from_nz(n, z, nz, rng=api.rng_of(np), **kw)
        env.check(bool(rec) == (f == "redshifts_from_nz" and warn is not False), "warning about the use of the function", got=[str(w.message) for w in rec])
        for w in rec:
            env.check(os.path.realpath(w.filename) == os.path.realpath(__file__), "warning does not name the line of the caller", got=w.filename)

    def convergence(env):
        """Iterations that do not converge warn, others do not."""
        niter = env.choose("niter", [1, 2, 3, 5, 10, 50, 100])
        c = env.choose("correlation", [-0.9, -0.4, 0.0, 0.3, 0.9])
        d = env.choose("other correlation", [-0.9, 0.0, 0.9])
        x = np.array([[1.0, c, d], [c, 1.0, c], [d, c, 1.0]])
        f = env.choose("function", [glass.algorithm.nearcorr, glass.algorithm.cov_nearest])
        tol = 1e-6
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            r = f(x, tol=tol, niter=niter)
        best = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            best = glass.algorithm.nearcorr(x, tol=1e-14, niter=20000)
        if not rec:
            env.check(np.linalg.norm(r - best) < 100 * tol, "result is wrong, without a warning", got=r, want=best)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r2 = glass.algorithm.nearcorr(x, tol=tol, niter=niter)
        env.check(np.allclose(r, r2, rtol=0, atol=1e-12), "limits of the iteration are not passed on", got=r, want=r2)
        if niter >= 2 and np.linalg.eigvalsh(x)[0] > 1e-3:
            env.check(not rec, "warning for a correlation matrix", got=[str(w.message) for w in rec])

    return [
        Space("arguments", arguments, f"{len(FUNCS)} groups of validated arguments, all shapes and values of the alphabets, up to three backends", 3, timeout=60),
        Space("warnings", call_warnings, "all argument variants of the catalogue of calls", 2),
        Space("warn", warn_argument, "all values of the argument", 2),
        Space("convergence", convergence, "correlation matrices on a grid, seven numbers of iterations, two functions", 2),
    ]
