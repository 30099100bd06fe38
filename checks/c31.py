"""C31: results depend on the values of inputs, not on how they are stored."""

import collections
import os
import tempfile

import numpy as np

from mc.setup_env import BACKENDS, to_np

import glass
from mc import api
from mc.engine import Prune, Space
from mc.util import expect_close

TECHNIQUE = "exhaustive enumeration of storage layouts, byte orders, precisions and containers for every input of every call in a catalogue of calls to all public functions, against the same call with plain arrays"
NOTE = (
    "Layouts are changed for all inputs at once and, one by one, for each single input. Reference is the same call with plain contiguous arrays, with equal values and equal random numbers. "
    "Integers are not converted to floats or vice versa, since the type of numbers is a part of the value."
)


class Sub(np.ndarray):
    """Subclass without any behaviour of its own."""


def padded(o):
    """View into larger memory, with gaps in all axes."""
    big = np.full([2 * n + 1 for n in o.shape], 7, o.dtype)
    v = big[(*(slice(1, None, 2) for _ in o.shape), ...)]
    v[...] = o
    return v


def record(o):
    """Column of a packed record array, which is not aligned in memory."""
    r = np.zeros(o.shape, dtype=[("p", "i1"), ("x", o.dtype), ("q", "i2")])
    r["x"] = o
    return r["x"]


def negative(o):
    r = (*[slice(None, None, -1)] * o.ndim, ...)
    return o[r].copy()[r]


def mapped(o):
    """File that is mapped into memory, as when loading with mmap_mode."""
    if o.size == 0:
        return o.copy()
    with tempfile.TemporaryFile(dir=os.environ["MC_SCRATCH"]) as f:
        m = np.memmap(f, dtype=o.dtype, mode="w+", shape=o.shape)
    m[...] = o
    return m


LAYOUTS = {
    "big-endian": lambda o: o.astype(o.dtype.newbyteorder(">")),
    "gaps": padded,
    "record": record,
    "negative": negative,
    "fortran": lambda o: np.array(o, order="F"),
    "transposed": lambda o: np.array(o.T, order="C").T if o.ndim > 1 else o.copy(),
    "subclass": lambda o: o.copy().view(Sub),
    "mapped": mapped,
    "readonly big-endian gaps": lambda o: frozen(padded(o.astype(o.dtype.newbyteorder(">")))),
}


def frozen(o):
    o.flags.writeable = False
    return o


def rebuild(o, f, path=()):
    """Apply a function to all arrays."""
    if isinstance(o, np.ndarray):
        return f(o, path)
    if isinstance(o, glass.RadialWindow):
        return glass.RadialWindow(f(o.za, (*path, "za")), f(o.wa, (*path, "wa")), o.zeff)
    if isinstance(o, (tuple, list)):
        return type(o)(rebuild(v, f, (*path, k)) for k, v in enumerate(o))
    if isinstance(o, dict):
        return {k: rebuild(v, f, (*path, k)) for k, v in o.items()}
    return o


def containers(o, how):
    if isinstance(o, dict):
        return {k: containers(v, how) for k, v in o.items()}
    if isinstance(o, list) and o:
        if how == "stack":
            if all(isinstance(v, np.ndarray) and v.ndim for v in o) and len({v.shape for v in o}) == 1:
                return np.stack(o)
            return o
        return {"tuple": tuple, "list": list, "user list": collections.UserList}[how](o)
    if isinstance(o, tuple) and o and how != "stack":
        return {"tuple": tuple, "list": list, "user list": collections.UserList}[how](o)
    return o


def compare(env, got, want, rtol, atol, msg):
    p, q = api.leaves(got), api.leaves(want)
    env.check(len(p) == len(q), f"{msg}: structure of the result", got=len(p), want=len(q))
    for u, v in zip(p, q):
        if hasattr(v, "__array_namespace__") or isinstance(v, (int, float, complex, np.generic)):
            u, v = to_np(u), to_np(v)
            env.check(u.shape == v.shape, f"{msg}: shape of the result", got=u.shape, want=v.shape)
            s = max(1.0, float(np.max(np.abs(v[np.isfinite(v)]), initial=0.0))) if v.dtype.kind in "fc" else 1.0
            env.check(np.allclose(u, v, rtol=rtol, atol=atol * s, equal_nan=True), f"{msg}: result", got=u, want=v)
        else:
            env.check(repr(u) == repr(v), f"{msg}: result", got=u, want=v)


# float32 inputs where rounding decides about the result
UNSTABLE = {"nnls": "singular matrix"}


def outcome(call, xp, i):
    try:
        return call(xp, i, api.rng_of(xp)), None
    except Exception as e:  # noqa: BLE001
        return None, e


INTEGERS = ["redshifts_from_nz", "redshifts_from_bins", "ellipticity", "healpix"]


class XCount:
    """Counts are the expected ones of a density that is much lower."""

    def __init__(self, rng):
        self.rng = rng

    def __getattr__(self, name):
        return getattr(self.rng, name)

    def poisson(self, lam, size=None):
        return self.rng.xp.asarray(np.floor(to_np(lam) * 2e-8 + 0.5).astype(int))


def spaces(tier):
    names = [k for k, c in api.CASES.items()]

    def run(env, xp, i, call, alt, rtol, atol, msg):
        want, e0 = outcome(call, xp, i)
        got, e1 = outcome(call, xp, alt)
        if e0 is not None:
            env.check(type(e1) is type(e0), f"{msg}: accepted", error=e0)
            return
        env.check(e1 is None, f"{msg}: {type(e1).__name__}: {e1}")
        compare(env, got, want, rtol, atol, msg)

    def layouts(env):
        name = env.choose("function", names)
        c = api.CASES[name]
        how = env.choose("layout", list(LAYOUTS))
        i, call = c.func(env)
        if not api.arrays(i):
            raise Prune
        f = LAYOUTS[how]
        ref = rebuild(i, lambda o, p: o.copy())
        run(env, np, ref, call, rebuild(i, lambda o, p: f(o)), 100 * c.rtol, 1e-10, how)

    def single(env):
        """One of the inputs is stored in another way."""
        name = env.choose("function", names)
        c = api.CASES[name]
        i, call = c.func(env)
        paths = []
        rebuild(i, lambda o, p: paths.append(p) or o)
        if len(paths) < 2:
            raise Prune
        at = env.choose("input", paths)
        how = env.choose("layout", ["readonly big-endian gaps", "record"] if tier == "quick" else list(LAYOUTS))
        f = LAYOUTS[how]
        ref = rebuild(i, lambda o, p: o.copy())
        run(env, np, ref, call, rebuild(i, lambda o, p: f(o) if p == at else o.copy()), 100 * c.rtol, 1e-10, f"{how} {at}")

    def precision(env):
        name = env.choose("function", [k for k in names if k not in UNSTABLE])
        c = api.CASES[name]
        i, call = c.func(env)
        small = lambda o: o.astype({"f": np.float32, "c": np.complex64, "i": np.int32}.get(o.dtype.kind, o.dtype))
        if not any(small(o).dtype != o.dtype for o in api.arrays(i)):
            raise Prune
        # reference has the same values
        ref = rebuild(i, lambda o, p: small(o).astype(o.dtype))
        run(env, np, ref, call, rebuild(i, lambda o, p: small(o)), 1e-4, 1e-4, "single precision")

    def sequences(env):
        name = env.choose("function", names)
        c = api.CASES[name]
        xp = BACKENDS[env.choose("backend", [b for b in c.backends if b != "jax" or not c.slow])]
        how = env.choose("container", ["tuple", "list", "stack"])
        i, call = c.func(env)
        alt = containers(i, how)
        if repr(alt) == repr(i) or (how == "stack" and xp is BACKENDS["strict"]):
            raise Prune
        run(env, xp, api.conv(xp, i), call, api.conv(xp, alt), 100 * c.rtol, 1e-10, how)

    def integers(env):
        """Integers of any type, also where their total does not fit into it."""
        dt = env.choose("type", ["i1", "u1", "i2", "u2", "i4", "u4", "u8"])
        b = env.choose("backend", ["numpy", "strict", "jax"])
        if b == "jax" and tier == "quick" and dt not in ("i1", "u4"):
            raise Prune
        xp = BACKENDS[b]
        f = env.choose("function", ["catalogue", "redshifts_from_nz", "ellipticity_gaussian", "ellipticity_intnorm", "redshifts_from_bins", "uniform_positions", "cumulative_trapezoid", "randang"])
        if f == "catalogue":
            # quick: those with integer arrays among their inputs
            name = env.choose("name", INTEGERS if tier == "quick" else [k for k in names if b in api.CASES[k].backends])
            i, call = api.CASES[name].func(env)
            fits = lambda o: o.dtype.kind == "i" and (o.size == 0 or (np.iinfo(dt).min <= o.min() and o.max() <= np.iinfo(dt).max))
            if not any(fits(o) for o in api.arrays(i)):
                raise Prune
            alt = rebuild(i, lambda o, p: o.astype(dt) if fits(o) else o)
            run(env, xp, api.conv(xp, i), call, api.conv(xp, alt), 100 * api.CASES[name].rtol, 1e-10, dt)
            return
        shape = env.choose("shape", [(3,), (3, 1), (2, 3)])
        big = 100 if dt in ("i1", "u1") else 40
        c = np.resize([big, 0, big - 1, 3], shape)
        nz = np.array([0.0, 1.0, 2.0, 0.5])
        z = np.array([0.0, 0.5, 1.0, 1.5])
        call = {
            "redshifts_from_nz": lambda xp, i, r: glass.redshifts_from_nz(i, xp.asarray(z), xp.asarray(nz), rng=r, warn=False),
            "ellipticity_gaussian": lambda xp, i, r: glass.ellipticity_gaussian(i, 0.2, rng=r),
            "ellipticity_intnorm": lambda xp, i, r: glass.ellipticity_intnorm(i, 0.2, rng=r),
            "redshifts_from_bins": lambda xp, i, r: glass.redshifts_from_bins(i, xp.asarray(z), {k: xp.asarray(nz + k) for k in (0, 3, big - 1, big)}, rng=r),
            "uniform_positions": lambda xp, i, r: list(glass.uniform_positions(i[:1, ...] // big, rng=XCount(r), xp=xp)),
            "cumulative_trapezoid": lambda xp, i, r: glass.arraytools.cumulative_trapezoid(i, xp.asarray(np.arange(shape[-1]) * 30, dtype=i.dtype)),
            "randang": lambda xp, i, r: glass.healpix.randang(8, xp.reshape(i, (-1,)), lonlat=True, rng=r),
        }[f]
        if xp is BACKENDS["strict"] and f == "uniform_positions":
            # Python floats and integer arrays are not combined by this backend
            raise Prune
        run(env, xp, xp.asarray(c), call, xp.asarray(c.astype(dt)), 1e-7, 1e-9, dt)

    def files(env):
        """Files that are written from columns and spectra in other layouts."""
        how = env.choose("layout", [*LAYOUTS, "list"])
        dt = env.choose("type", ["f8", "f4", "i8", "i4", "i2", "u1", "c16", "?"])
        kind = env.choose("file", ["spectra", "columns", "record", "append"])
        n = env.choose("size", [1, 3])
        f = LAYOUTS.get(how, lambda o: o.tolist())
        x = (np.arange(1, n + 1) * 3 % 5).astype(dt)
        y = (np.arange(1, n + 1) * 7 % 11 - (0 if dt in ("u1", "?") else 5)).astype(dt)
        with tempfile.TemporaryDirectory(dir=os.environ["MC_SCRATCH"]) as d:
            if kind == "spectra":
                if how == "list":
                    raise Prune
                glass.save_cls(os.path.join(d, "cls.npz"), [f(x), f(y)])
                got = glass.load_cls(os.path.join(d, "cls.npz"))
                env.check(len(got) == 2, "number of spectra")
            else:
                import fitsio

                if how in ("list", "subclass", "mapped") or (how == "big-endian" and dt == "?"):
                    raise Prune
                p = os.path.join(d, "cat.fits")
                with glass.write_catalog(p) as out:
                    if kind == "record":
                        r = np.zeros(n, dtype=[("x", x.dtype), ("y", y.dtype)])
                        r["x"], r["y"] = x, y
                        out.write(f(r) if how in ("gaps", "negative", "fortran") else r)
                    else:
                        if kind == "append":
                            out.write(x=x, y=y)
                        out.write(x=f(x), y=f(y))
                t = fitsio.read(p)
                env.check(len(t) == n * (2 if kind == "append" else 1), "number of rows", got=len(t))
                got = [t["x"][-n:], t["y"][-n:]]
                if kind == "append":
                    env.check((t["x"][:n] == x).all() and (t["y"][:n] == y).all(), "rows of other writes")
            for u, v in zip(got, (x, y)):
                env.check(np.array_equal(u, v), "values in file", got=u, want=v)
                env.check(u.dtype.kind == v.dtype.kind and u.dtype.itemsize == v.dtype.itemsize, "type of values in file", got=u.dtype, want=v.dtype)

    return [
        Space("layouts", layouts, f"all calls of the catalogue, {len(LAYOUTS)} layouts of all inputs", 3),
        Space("single", single, "all calls of the catalogue, two (thorough: all) layouts of each single input", 3),
        Space("precision", precision, "all calls of the catalogue with single precision", 2),
        Space("sequences", sequences, "all calls of the catalogue, three containers, three backends", 3),
        Space("integers", integers, "seven types of integers, all calls of the catalogue with integers and seven calls with large ones, three backends", 3),
        Space("files", files, "all layouts and eight types of spectra, columns and records", 3),
    ]
