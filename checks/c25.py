"""C25: array helpers."""

import itertools

import numpy as np

import glass
import glass.arraytools as at
import glass.jax
from glass import _array_api_utils as utils
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend

TECHNIQUE = "exhaustive enumeration of shapes, sampling grids and optional arguments, compared with element by element definitions"
NOTE = (
    "All shapes of up to three dimensions (sizes 1 to 3) for pairs and triples of arrays, all sampling grids that are subsets of five points, "
    "all positions of interpolated values relative to them, for three array backends."
)

uxpx = utils.xp_additions
SHAPES = [s for n in range(4) for s in itertools.product([1, 2, 3], repeat=n)]
SMALL = [(), (1,), (2,), (3,), (1, 2), (2, 1), (2, 3), (3, 2), (0,), (2, 0)]


def arr(shape, k=0):
    n = int(np.prod(shape))
    return (np.arange(n) * 3 + 100.0 * k + 0.5).reshape(shape)


def element(a, idx):
    """Element of broadcast array."""
    if a.ndim == 0:
        return a[()]
    idx = idx[len(idx) - a.ndim :]
    return a[tuple(0 if n == 1 else i for i, n in zip(idx, a.shape))]


def bshape(*shapes):
    """Shape after broadcasting by definition, or None."""
    nd = max([len(s) for s in shapes], default=0)
    out = []
    for i in range(1, nd + 1):
        sz = {s[-i] for s in shapes if len(s) >= i} - {1}
        if len(sz) > 1:
            return None
        out.append(sz.pop() if sz else 1)
    return tuple(out[::-1])


def linear(x, xq, fq, left=None, right=None, period=None):
    """Interpolate a single value by definition."""
    if period is not None:
        pts = sorted((p % period, v) for p, v in zip(xq, fq))
        x = x % period
        pts = [(pts[-1][0] - period, pts[-1][1]), *pts, (pts[0][0] + period, pts[0][1])]
        xq, fq = [p for p, _ in pts], [v for _, v in pts]
    if x < xq[0]:
        return fq[0] if left is None else left
    if x > xq[-1]:
        return fq[-1] if right is None else right
    for i in range(len(xq) - 1, -1, -1):
        if x >= xq[i]:
            break
    if x == xq[i]:
        return fq[i]
    t = (x - xq[i]) / (xq[i + 1] - xq[i])
    return fq[i] + t * (fq[i + 1] - fq[i])


GRID = [0.0, 0.5, 1.5, 2.0, 4.0]
SUBSETS = [tuple(c) for n in (1, 2, 3, 4, 5) for c in itertools.combinations(GRID, n)]


def func(k):
    return lambda x: np.array([[1.0, 2.5, -1.0, 3.0, 0.5], [2.0, 0.0, 1.0, -3.0, 7.0], [0.25, 4.0, 4.0, 1.0, -2.0]][k % 3])[[GRID.index(v) for v in x]]


def spaces(tier):
    thorough = tier != "quick"

    def first(env):
        n = env.choose("arrays", [1, 2, 3, 5])
        pool = [(2,), (3, 1), ()] if n == 5 else SHAPES if n == 2 else [s for s in SHAPES if len(s) < 3 or s in ((2, 3, 1), (2, 1, 3), (3, 2, 2))] if thorough or n == 1 else SMALL
        shapes = [env.choose(f"shape{i}", pool) for i in range(n)]
        xp = choose_backend(env) if n == 2 and all(len(s) < 3 for s in shapes) else np
        arrays = [arr(s, i) for i, s in enumerate(shapes)]
        moved = [s[1:] + s[:1] for s in shapes]
        want = bshape(*moved)
        args = [xp.asarray(a) for a in arrays]
        if want is None:
            expect_raises(env, Exception, lambda: at.broadcast_first(*args), "shapes do not broadcast", shapes=shapes)
            return
        got = at.broadcast_first(*args)
        env.check(len(got) == n, "number of arrays")
        env.check(all(is_backend(g, xp) for g in got), "array type")
        full = want[-1:] + want[:-1] if want else ()
        for a, g in zip(arrays, got):
            g = to_np(g)
            env.check(g.shape == full, "shape", got=g.shape, want=full)
            for idx in np.ndindex(full):
                m = np.moveaxis(a, 0, -1) if a.ndim else a
                w = element(m, (*idx[1:], idx[0]) if idx else ())
                env.check(g[idx] == w, "value", index=idx, got=g[idx], want=w)
        env.outcome((shapes, full))

    def leading(env):
        n = env.choose("arrays", [1, 2, 3])
        shapes = [env.choose(f"shape{i}", SHAPES if n == 2 and thorough else [s for s in SHAPES if len(s) < 3] + [(2, 3, 1), (1, 2, 3)] if n < 3 else SMALL) for i in range(n)]
        keep = [env.choose(f"kept axes {i}", range(len(s) + 1)) for i, s in enumerate(shapes)]
        xp = choose_backend(env) if n < 3 else np
        scalar = env.choose("scalar", [True, False] if n > 1 and () in shapes else [False])
        arrays = [arr(s, i) for i, s in enumerate(shapes)]
        dims = bshape(*[s[: len(s) - k] for s, k in zip(shapes, keep)])
        args = [(float(a) if scalar and a.ndim == 0 else xp.asarray(a), k) for a, k in zip(arrays, keep)]
        kw = {"xp": xp} if all(isinstance(a, float) for a, _ in args) or env.choose("xp", [False, True] if n == 1 else [False]) else {}
        if dims is None:
            expect_raises(env, Exception, lambda: at.broadcast_leading_axes(*args, **kw), "shapes do not broadcast", shapes=shapes, keep=keep)
            return
        got = at.broadcast_leading_axes(*args, **kw)
        env.check(tuple(got[0]) == dims, "dimensions", got=got[0], want=dims)
        env.check(len(got) == n + 1, "number of arrays")
        for a, k, g in zip(arrays, keep, got[1:]):
            env.check(is_backend(g, xp), "array type")
            g = to_np(g)
            trail = a.shape[a.ndim - k :]
            env.check(g.shape == dims + trail, "shape", got=g.shape, want=dims + trail)
            for idx in np.ndindex(dims):
                lead = a.ndim - k
                i = idx[len(idx) - lead :] if lead else ()
                i = tuple(0 if m == 1 else j for j, m in zip(i, a.shape))
                env.check(np.array_equal(g[idx], a[i]), "value", index=idx, got=g[idx], want=a[i])
        env.outcome((shapes, keep, dims))

    XS = [-1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 1.75, 2.0, 3.0, 4.0, 5.5]

    def interp(env):
        """One-dimensional and N-dimensional interpolation."""
        xp = choose_backend(env)
        grid = env.choose("grid", SUBSETS)
        opts = [{}, {"left": -7.0}, {"right": 9.0}, {"left": 0.0, "right": 0.0}, {"period": 5.0}, {"period": 4.5}]
        # jax.numpy.interp does not extrapolate from a single point as NumPy does, and
        # confuses left and right (its cache of traces ignores which of the two is None)
        opt = env.choose("options", opts if xp is not BACKENDS["jax"] else [opts[0], *opts[3:]] if len(grid) > 1 else opts[:1])
        kind = env.choose("shape", ["scalar", "1d", "2d", "empty"])
        x = {"scalar": np.array(1.75), "1d": np.array(XS), "2d": np.array(XS[:10]).reshape(2, 5), "empty": np.zeros(0)}[kind]
        xq, fq = np.array(grid), func(0)(grid)
        want = np.array([linear(v, xq, fq, **opt) for v in x.reshape(-1)]).reshape(x.shape)
        got = uxpx.interp(xp.asarray(x), xp.asarray(xq), xp.asarray(fq), **opt)
        expect_close(env, got, want, "interpolation", rtol=1e-12, atol=1e-14)
        env.check(is_backend(got, xp), "array type")
        got = at.ndinterp(xp.asarray(x), xp.asarray(xq), xp.asarray(fq), **opt)
        expect_close(env, got, want, "N-dimensional interpolation of one-dimensional data", rtol=1e-12, atol=1e-14)
        env.outcome(want)

    def ndinterp(env):
        grid = env.choose("grid", [SUBSETS[i] for i in ((0, 7, 12, 20, 30) if not thorough else range(len(SUBSETS)))])
        lead = env.choose("leading axes", [(), (1,), (2,), (2, 3), (0,)])
        trail = env.choose("trailing axes", [(), (1,), (3,), (2, 2)])
        xs = env.choose("shape of x", [None, (), (1,), (4,), (2, 3), (0,)])
        neg = env.choose("axis", ["from start", "from end"])
        opt = env.choose("options", [{}, {"left": -7.0}, {"right": 9.0}, {"left": 0.0, "right": 0.0}, {"period": 5.0}])
        jax = (len(grid) > 1 or not opt) and len(opt.keys() & {"left", "right"}) != 1 and (thorough or (len(grid) == 3 and xs in (None, (4,))))
        xp = choose_backend(env, ("numpy", "strict", "jax") if jax else ("numpy", "strict"))
        if 0 in lead + trail:
            raise Prune  # apply_along_axis is not defined for arrays without slices
        fq = arr((*lead, len(grid), *trail)) ** 2 % 17
        axis = len(lead) if neg == "from start" else -1 - len(trail)
        x = np.array(1.75) if xs is None else np.array(([0.25, -1.0, 1.5, 5.5, 3.0, 0.7])[: int(np.prod(xs))]).reshape(xs)
        if xp is BACKENDS["strict"] and xs is None:
            raise Prune
        arg = float(x) if xs is None else xp.asarray(x)
        if 0 in x.shape:
            raise Prune
        want = np.zeros((*lead, *x.shape, *trail))
        for i in np.ndindex(lead):
            for j in np.ndindex(trail):
                col = [fq[(*i, k, *j)] for k in range(len(grid))]
                for m in np.ndindex(x.shape):
                    want[(*i, *m, *j)] = linear(x[m], grid, col, **opt)
        got = at.ndinterp(arg, xp.asarray(np.array(grid)), xp.asarray(fq), axis=axis, **opt)
        env.check(is_backend(got, xp), "array type")
        expect_close(env, got, want, "interpolated array", rtol=1e-12, atol=1e-12)
        if not trail and neg == "from end":
            expect_close(env, at.ndinterp(arg, xp.asarray(np.array(grid)), xp.asarray(fq), **opt), want, "default axis", rtol=1e-12, atol=1e-12)

    def product(env):
        n = env.choose("functions", [1, 2, 3, 4, 6])
        some = SUBSETS if n < 3 else [g for g in SUBSETS if len(g) in (1, 2)] if n == 3 else [g for g in SUBSETS if len(g) == 4]
        grids = [env.choose(f"grid{i}", some) for i in range(min(n, 4))]
        grids += grids[: n - 4] if n > 4 else []
        jax = n == 2 and (thorough or len(grids[0]) + len(grids[1]) == 5 or 1 in map(len, grids))
        xp = choose_backend(env, ("numpy", "strict", "jax") if jax else ("numpy", "strict")) if n < 3 else np
        lo, hi = max(g[0] for g in grids), min(g[-1] for g in grids)
        pts = sorted({p for g in grids for p in g if lo <= p <= hi})
        want = 0.0
        val = [np.prod([linear(p, g, func(i)(g)) for i, g in enumerate(grids)]) for p in pts]
        for i in range(len(pts) - 1):
            want += (pts[i + 1] - pts[i]) * (val[i + 1] + val[i]) / 2
        args = [(xp.asarray(np.array(g)), xp.asarray(func(i)(g))) for i, g in enumerate(grids)]
        got = at.trapezoid_product(*args)
        expect_close(env, got, want, "integral of product", rtol=1e-12, atol=1e-12, points=pts)
        if n > 1 and lo <= hi:
            expect_close(env, at.trapezoid_product(*args[::-1]), want, "order of functions", rtol=1e-12, atol=1e-12)
        env.outcome(want)

    def cumulative(env):
        xp = choose_backend(env)
        grid = env.choose("grid", SUBSETS)
        lead = env.choose("leading axes", [(), (1,), (2,), (2, 3)])
        xlead = env.choose("leading axes of x", [(), lead] if lead else [()])
        dt = env.choose("type", ["f8", "f4", "i8"])
        f = (arr((*lead, len(grid))) % 7 - 3).astype(dt)
        x = np.broadcast_to(np.array(grid), (*xlead, len(grid))) * (1 + np.arange(int(np.prod(xlead))).reshape(*xlead, 1))
        if dt == "i8":
            x = np.round(2 * x).astype(dt)
        want = np.zeros(f.shape)
        for i in np.ndindex(lead):
            xx = x[i] if xlead else x
            for k in range(1, len(grid)):
                want[(*i, k)] = want[(*i, k - 1)] + (float(f[(*i, k)]) + float(f[(*i, k - 1)])) / 2 * (float(xx[k]) - float(xx[k - 1]))
        got = at.cumulative_trapezoid(xp.asarray(f), xp.asarray(x))
        env.check(is_backend(got, xp), "array type")
        env.check(to_np(got).dtype == np.float64, "type of result", got=to_np(got).dtype)
        expect_close(env, got, want, "cumulative integral", rtol=1e-12, atol=1e-12)
        env.outcome(want)

    def additions(env):
        which = env.choose("function", ["trapezoid", "gradient", "lstsq", "einsum", "tril", "angles", "vectorize", "along axis", "ndindex"])
        xp = choose_backend(env)
        if which == "trapezoid":
            s = env.choose("shape", [(3,), (1,), (2, 3), (3, 2), (2, 2, 3)])
            axis = env.choose("axis", range(-len(s), len(s)))
            x = env.choose("x", ["none", "1d", "same shape", "dx"])
            y = arr(s) % 11
            n = s[axis]
            if x in ("none", "dx"):
                xx = np.arange(n) * (1.0 if x == "none" else 0.3)
                got = uxpx.trapezoid(xp.asarray(y), axis=axis, **({"dx": 0.3} if x == "dx" else {}))
            elif x == "1d":
                xx = np.array(GRID[:n])
                got = uxpx.trapezoid(xp.asarray(y), xp.asarray(xx), axis=axis)
            else:
                xx = np.moveaxis(np.broadcast_to(np.array(GRID[:n]), (*np.moveaxis(y, axis, -1).shape[:-1], n)) * 1.5, -1, axis).copy()
                got = uxpx.trapezoid(xp.asarray(y), xp.asarray(xx), axis=axis)
                xx = 1.5 * np.array(GRID[:n])
            ym = np.moveaxis(y, axis, -1)
            want = sum(((ym[..., i] + ym[..., i + 1]) / 2 * (xx[i + 1] - xx[i]) for i in range(n - 1)), np.zeros(ym.shape[:-1]))
            expect_close(env, got, want, "trapezoidal rule", rtol=1e-12, atol=1e-12)
            if xp is BACKENDS["jax"]:
                f = glass.jax.trapezoid
                kw = {} if x == "none" else {"dx": 0.3} if x == "dx" else {"x": xp.asarray(xx)}
                got = f(xp.asarray(y), axis=axis, **kw)
                expect_close(env, got, want, "trapezoidal rule of the JAX module", rtol=1e-12, atol=1e-12)
                if axis == len(s) - 1:
                    expect_close(env, f(xp.asarray(y), **kw), want, "trapezoidal rule along the last axis", rtol=1e-12, atol=1e-12)
        elif which == "gradient":
            n = env.choose("size", [2, 3, 4, 5])
            f = arr((n,)) ** 2 % 13
            want = [f[1] - f[0]] + [(f[i + 1] - f[i - 1]) / 2 for i in range(1, n - 1)] + [f[-1] - f[-2]]
            expect_close(env, uxpx.gradient(xp.asarray(f)), want, "gradient")
        elif which == "lstsq":
            m, n = env.choose("size", [(2, 2), (3, 2), (4, 3), (3, 3)])
            k = env.choose("columns", [None, 1, 2])
            a = (arr((m, n)) ** 2 % 13) + np.eye(m, n)
            b = arr((m,) if k is None else (m, k)) % 7
            x, res, rank, sv = uxpx.linalg_lstsq(xp.asarray(a), xp.asarray(b))
            x = to_np(x)
            # normal equations
            expect_close(env, a.T @ (a @ x - b), np.zeros_like(x), "least squares solution", atol=1e-9)
            env.check(int(to_np(rank)) == n, "rank", got=rank)
            expect_close(env, np.sort(to_np(sv)), np.sort(np.sqrt(np.abs(np.linalg.eigvalsh(a.T @ a)))), "singular values", rtol=1e-6, atol=1e-6)
        elif which == "einsum":
            sub = env.choose("subscripts", ["ij,jk->ik", "ji,...j", "i,i->", "ij->ji", "i,j->ij"])
            ops = {"ij,jk->ik": [(2, 3), (3, 2)], "ji,...j": [(3, 2), (2, 2, 3)], "i,i->": [(3,), (3,)], "ij->ji": [(2, 3)], "i,j->ij": [(2,), (3,)]}[sub]
            a = [arr(s, i) for i, s in enumerate(ops)]
            want = {"ij,jk->ik": lambda a, b: a @ b, "ji,...j": lambda a, b: b @ a, "i,i->": lambda a, b: (a * b).sum(), "ij->ji": lambda a: a.T, "i,j->ij": lambda a, b: a[:, None] * b}[sub](*a)
            got = to_np(uxpx.einsum(sub, *map(xp.asarray, a)))
            if sub == "ji,...j":
                want = np.moveaxis(want, -1, -1)
                # implicit output: broadcast axes first, then i
            expect_close(env, got, want, "einsum")
        elif which == "tril":
            n = env.choose("rows", [0, 1, 2, 3, 4])
            m = env.choose("columns", [None, 1, 2, 5])
            k = env.choose("diagonal", [-2, -1, 0, 1, 2])
            i, j = uxpx.tril_indices(n, k=k, m=m, xp=xp)
            want = [(r, c) for r in range(n) for c in range(n if m is None else m) if c - r <= k]
            env.check(list(zip(to_np(i).tolist(), to_np(j).tolist())) == want, "indices", got=(i, j), want=want)
        elif which == "angles":
            s = env.choose("shape", [(), (1,), (2, 3)])
            v = arr(s) * 17 - 180
            expect_close(env, uxpx.radians(xp.asarray(v)), v * np.pi / 180, "radians", rtol=1e-14)
            expect_close(env, uxpx.degrees(xp.asarray(v)), v / np.pi * 180, "degrees", rtol=1e-14)
        elif which == "vectorize":
            s = env.choose("shape", [(), (1,), (2, 3)])
            v = arr(s)
            f = uxpx.vectorize(lambda x, y: x * 2 + y, otypes=(float,), xp=xp)
            expect_close(env, f(np.asarray(v) if xp is BACKENDS["strict"] else xp.asarray(v), 1.5), v * 2 + 1.5, "vectorised function")
        elif which == "along axis":
            s = env.choose("shape", [(3,), (2, 3), (2, 3, 2)])
            axis = env.choose("axis", range(-len(s), len(s)))
            v = arr(s) % 11
            got = uxpx.apply_along_axis(lambda c, y: c * y[0] - y[-1], (xp.asarray(2.0),), axis, xp.asarray(v))
            m = np.moveaxis(v, axis, 0)
            expect_close(env, got, 2.0 * m[0] - m[-1], "function along axis")
        elif which == "ndindex":
            s = env.choose("shape", SHAPES + [(0,), (2, 0)])
            env.check(list(uxpx.ndindex(s, xp=xp)) == list(itertools.product(*map(range, s))), "indices")

    def fallback(env):
        """Conversion of nested arguments and results."""
        xp = choose_backend(env)
        form = env.choose("form", ["array", "tuple", "list", "dict", "nested", "none", "keyword"])
        out = env.choose("result", ["same", "array", "scalar", "tuple", "list", "dict", "none"])
        withxp = env.choose("xp", ["absent", "none", "given"])
        a = arr((2, 3))
        x = xp.asarray(a)
        seen = []

        def body(*args, **kw):
            def walk(o):
                if isinstance(o, (tuple, list)):
                    for v in o:
                        walk(v)
                elif isinstance(o, dict):
                    for v in o.values():
                        walk(v)
                elif hasattr(o, "shape"):
                    seen.append(o)
                    env.check(type(o) is np.ndarray, "argument is no NumPy array", got=type(o))

            walk(args)
            walk({k: v for k, v in kw.items() if k != "xp"})
            r = a * 2
            return {"same": args, "array": r, "scalar": 3.5, "tuple": (r, 1, "x"), "list": [r, [r]], "dict": {"a": r, "b": (r,)}, "none": None}[out]

        f = utils.numpy_fallback(body)
        arg = {"array": x, "tuple": (x, 1), "list": [x, "s", None], "dict": {"k": x}, "nested": [({"k": [x]},)], "none": None, "keyword": 3}[form]
        kw = {"y": (x, [x])} if form == "keyword" else {}
        if withxp != "absent":
            kw["xp"] = xp if withxp == "given" or form == "none" else None
        res = f(arg, **kw)
        n = {"keyword": 2, "none": 0}.get(form, 1)
        env.check(len(seen) == n and all(np.array_equal(s, a) for s in seen), "arguments", got=seen)
        if n == 0:
            return
        got = {"same": lambda: flat(res), "array": lambda: [res], "scalar": lambda: [], "tuple": lambda: [res[0]], "list": lambda: [res[0], res[1][0]], "dict": lambda: [res["a"], res["b"][0]], "none": lambda: []}[out]()
        want = {"same": 0 if form == "keyword" else 1, "array": 1, "scalar": 0, "tuple": 1, "list": 2, "dict": 2, "none": 0}[out]
        env.check(len(got) == want, "results", got=got)
        for g in got:
            env.check(is_backend(g, xp), "array type of result", got=type(g))
            env.check(np.array_equal(to_np(g), a if out == "same" else a * 2), "value of result", got=g)
        if out == "scalar":
            env.check(res == 3.5, "scalar result", got=res)
        if out == "none":
            env.check(res is None, "result None", got=res)
        if out == "tuple":
            env.check(type(res) is tuple and res[1:] == (1, "x"), "tuple", got=res)

    def flat(o):
        if isinstance(o, (tuple, list)):
            return [v for x in o for v in flat(x)]
        if isinstance(o, dict):
            return flat(list(o.values()))
        return [o] if hasattr(o, "shape") else []

    return [
        Space("broadcast_first", first, "all pairs of shapes up to three dimensions, triples of small shapes, five arrays", 3),
        Space("leading", leading, "all pairs of shapes and numbers of kept axes, triples of small shapes", 4),
        Space("interp", interp, "all 31 grids on five points, eleven positions, six sets of options", 2),
        Space("ndinterp", ndinterp, "shapes of data and positions, axes, options", 3),
        Space("product", product, "pairs of grids out of 31, triples of grids of one or two points, four and six functions", 2),
        Space("cumulative", cumulative, "all grids, leading axes and types", 2),
        Space("additions", additions, "shapes and options of the array API additions", 2),
        Space("fallback", fallback, "forms of arguments and results", 2),
    ]
