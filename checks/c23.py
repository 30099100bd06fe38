"""C23: inputs are not modified."""

import numpy as np

import glass
from mc import api
from mc.engine import Space
from mc.setup_env import BACKENDS, to_np

TECHNIQUE = "exhaustive enumeration of calls to all public functions with all layouts of the inputs and histories of repeated calls with modified results, compared byte by byte with a snapshot of the inputs"
NOTE = (
    "All combinations of the optional arguments in a catalogue of calls to every public function, with writable, read-only, strided and shared inputs, "
    "and all histories of two calls where the results of the first are overwritten. NumPy arrays, as those of other libraries cannot be changed in this way (JAX) or behave the same."
)


def freeze(o):
    """Deep description of the inputs, including contents of arrays."""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.strides, o.tobytes(), o.flags.writeable, id(o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o), tuple(freeze(v) for v in o))
    if isinstance(o, dict):
        return ("dict", id(o), tuple((k, freeze(v)) for k, v in o.items()))
    if isinstance(o, glass.RadialWindow):
        return ("window", id(o), freeze(o.za), freeze(o.wa), freeze(o.zeff))
    return repr(o)


def relayout(o, how, single=False):
    if isinstance(o, np.ndarray):
        if how == "readonly":
            o = o.copy()
            o.flags.writeable = False
        elif how == "strided" and o.ndim:
            big = np.full((*o.shape[:-1], 2 * o.shape[-1] + 1), 7, o.dtype)
            v = big[..., 1::2]
            v[...] = o
            o = v
        elif how == "fortran" and o.ndim > 1:
            o = np.asfortranarray(o)
        elif how == "offset":
            # view into a larger array
            big = np.full(o.size + 2, 5, o.dtype)
            v = big[1:-1].reshape(o.shape)
            v[...] = o
            o = v
        elif how == "float32" and o.dtype == np.float64:
            o = o.astype(np.float32)
        return o
    if isinstance(o, glass.RadialWindow):
        return glass.RadialWindow(relayout(o.za, how), relayout(o.wa, how), o.zeff)
    if isinstance(o, tuple):
        return tuple(relayout(v, how) for v in o)
    if isinstance(o, list):
        return [relayout(v, how) for v in o]
    if isinstance(o, dict):
        return {k: relayout(v, how) for k, v in o.items()}
    return o


def bases(o):
    """Arrays and the memory they belong to."""
    out = []
    for x in api.arrays(o):
        out.append(x if x.base is None or not isinstance(x.base, np.ndarray) else x.base)
    return out


def plain(o):
    return (o.za, o.wa, o.zeff) if isinstance(o, glass.RadialWindow) else o


def equal(p, q):
    p, q = plain(p), plain(q)
    if isinstance(p, (tuple, list)):
        return len(p) == len(q) and all(equal(u, v) for u, v in zip(p, q))
    if hasattr(p, "__array_namespace__") or isinstance(p, np.generic):
        return np.shape(p) == np.shape(q) and np.array_equal(np.asarray(p), np.asarray(q), equal_nan=np.asarray(p).dtype.kind in "fc")
    return repr(p) == repr(q)


def deepcopy(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, tuple):
        return tuple(deepcopy(v) for v in o)
    if isinstance(o, list):
        return [deepcopy(v) for v in o]
    if isinstance(o, glass.RadialWindow):
        return glass.RadialWindow(deepcopy(o.za), deepcopy(o.wa), deepcopy(o.zeff))
    return o


def spaces(tier):
    thorough = tier != "quick"
    names = list(api.CASES)

    def inputs(env):
        name = env.choose("function", names)
        how = env.choose("layout", ["plain", "readonly", "strided", "offset"] + (["fortran", "float32"] if thorough else []))
        c = api.CASES[name]
        i, call = c.func(env)
        ref = call(np, i, api.rng_of(np)) if how != "plain" else None
        i, call2 = i, call
        i = relayout(i, how)
        before = freeze(i)
        old = [b.tobytes() for b in bases(i)]
        mem = bases(i)
        try:
            res = call(np, i, api.rng_of(np))
        except ValueError as e:
            if "read-only" in str(e):
                env.fail("read-only input is written to", error=str(e))
            raise
        env.check(freeze(i) == before, "inputs were modified", inputs=i)
        env.check([b.tobytes() for b in mem] == old, "memory around the inputs was modified")
        if how not in ("plain", "float32"):
            env.check(equal_close(res, ref), "result depends on the layout of the inputs", got=res, want=ref)
        if not c.exempt:
            for x in api.arrays(res):
                for b in mem:
                    env.check(not (np.may_share_memory(x, b) and x.size and b.size and np.shares_memory(x, b) and x.flags.writeable), "result shares memory with an input", result=x)

    def equal_close(p, q):
        p, q = plain(p), plain(q)
        if isinstance(p, (tuple, list)):
            return len(p) == len(q) and all(equal_close(u, v) for u, v in zip(p, q))
        if hasattr(p, "__array_namespace__") or isinstance(p, np.generic):
            return np.shape(p) == np.shape(q) and np.allclose(np.asarray(p), np.asarray(q), rtol=1e-6, atol=1e-9, equal_nan=True)
        return repr(p) == repr(q)

    def repeated(env):
        """A call is not affected by what was done to the results of an earlier one."""
        name = env.choose("function", names)
        c = api.CASES[name]
        i, call = c.func(env)
        keep = relayout(i, "offset")
        first = call(np, i, api.rng_of(np))
        copy = deepcopy(first)
        before = freeze(i)
        if not c.exempt:
            for x in api.arrays(first):
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = 99
        env.check(freeze(i) == before, "inputs change with the results")
        second = call(np, i, api.rng_of(np))
        env.check(equal(copy, second), "second call gives another result", got=second, want=copy)
        third = call(np, keep, api.rng_of(np))
        env.check(equal_close(third, copy), "call with equal inputs gives another result", got=third, want=copy)

    def strict(env):
        """Arrays of the strict library can be modified in place, too."""
        xp = BACKENDS["strict"]
        name = env.choose("function", [k for k in names if "strict" in api.CASES[k].backends])
        c = api.CASES[name]
        i, call = c.func(env)
        j = api.conv(xp, deepcopy(i))
        before = deepcopy(i)
        first = call(xp, j, api.rng_of(xp))
        old = [to_np(x).copy() for x in api.arrays(first)]
        for x, y in zip(api.arrays(j), api.arrays(before)):
            env.check(np.array_equal(to_np(x), y), "inputs were modified", got=x, want=y)
        again = call(xp, j, api.rng_of(xp))
        for x, y in zip(api.arrays(again), old):
            env.check(np.array_equal(to_np(x), y, equal_nan=y.dtype.kind in "fc"), "second call gives another result", got=x, want=y)
        for x, y in zip(api.arrays(first), old):
            env.check(np.array_equal(to_np(x), y, equal_nan=y.dtype.kind in "fc"), "second call changes the result of the first", got=x, want=y)

    def shared(env):
        """The same array is given for all inputs of the same shape and type."""
        name = env.choose("function", names)
        c = api.CASES[name]
        i, call = c.func(env)
        pool = {}

        def share(o):
            if isinstance(o, np.ndarray) and o.dtype == np.float64:
                return pool.setdefault((o.shape, o.tobytes()), o)
            if isinstance(o, glass.RadialWindow):
                return glass.RadialWindow(share(o.za), share(o.wa), o.zeff)
            if isinstance(o, (list, tuple)):
                return type(o)(share(v) for v in o)
            if isinstance(o, dict):
                return {k: share(v) for k, v in o.items()}
            return o

        ref = call(np, i, api.rng_of(np))
        ref = deepcopy(ref)
        j = share(i)
        before = freeze(j)
        res = call(np, j, api.rng_of(np))
        env.check(freeze(j) == before, "inputs were modified")
        env.check(equal(res, ref), "result depends on inputs being the same object", got=res, want=ref)

    return [
        Space("inputs", inputs, "all calls of the catalogue, four (thorough: six) memory layouts", 3),
        Space("repeated", repeated, "all histories of two calls, with results overwritten in between", 2),
        Space("strict", strict, "all calls of the catalogue with strict arrays, twice", 2),
        Space("shared", shared, "all calls with equal arrays being the same object", 2),
    ]
