"""C07: non-negative least squares and partitions of distributions."""

import warnings

import numpy as np

import glass
import glass.shells
from glass.algorithm import nnls
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend, product

TECHNIQUE = "exhaustive enumeration of matrices and vectors over finite alphabets with exact optimality conditions"
NOTE = (
    "All matrices and all vectors over the alphabets (up to 3x2 and 2x3, 3x3 with independent columns), all partition methods for "
    "window families with up to four shells and all leading shapes. Optimality is decided by the Karush-Kuhn-Tucker "
    "conditions of the documented least squares problem, termination by a time limit per execution."
)


def kkt(env, a, b, x, what, tol=1e-9, wtol=0.0):
    s = 1 + np.abs(a).max() * (np.abs(b).max() + 1)
    w = a.T @ (b - a @ x)
    env.check(np.isfinite(x).all(), f"{what}: not finite", a=a, b=b, x=x)
    env.check(x.min() >= 0, f"{what}: negative entries", a=a, b=b, x=x)
    env.check(w.max() <= tol * s + wtol, f"{what}: not optimal", a=a, b=b, x=x, w=w)
    if (x > 0).any():
        env.check(np.abs(w[x > 0]).max() <= tol * s, f"{what}: not optimal in positive entries", a=a, b=b, x=x, w=w)


def shells_of(kind, n, offset=0.0, xp=np):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "tophat":
            return glass.tophat_windows(xp.asarray(offset + np.array([0.0, 0.5, 1.1, 1.4, 2.0])[: n + 1]), dz=0.2)
        if kind == "linear":
            return glass.linear_windows(xp.asarray(offset + np.array([0.0, 0.5, 1.1, 1.4, 2.0, 2.2])[: n + 2]), dz=0.2)
        if kind == "cubic":
            return glass.cubic_windows(xp.asarray(offset + np.array([0.0, 0.5, 1.1, 1.4, 2.0, 2.2])[: n + 2]), dz=0.2)
        if kind == "overlap":
            return [
                glass.RadialWindow(
                    xp.asarray(offset + np.array([0.0, 0.3, 0.8, 1.5]) + 0.35 * i),
                    xp.asarray(np.array([0.0, 1.0, 0.4 + 0.1 * i, 0.0])), 0.5 + i,
                )
                for i in range(n)
            ]
    raise KeyError(kind)


def interp0(x, xp, fp):
    return np.interp(x, xp, fp, left=0.0, right=0.0)


def trap(y, x):
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))


def design(z, fz, shells, sumtol=0.01):
    """The documented least squares problem."""
    grid = np.unique(np.concatenate([z] + [to_np(w.za) for w in shells]))
    dz = np.gradient(grid)
    a = []
    for w in shells:
        y = interp0(grid, to_np(w.za), to_np(w.wa))
        a.append(y / trap(y, grid) * dz)
    a = np.array(a).T
    lam = 1 / sumtol
    a = np.vstack([a, np.full((1, len(shells)), lam)])
    b = np.append(interp0(grid, z, fz) * dz, lam * trap(fz, z))
    return grid, a, b


TARGETS = ["wide", "narrow", "disjoint", "coarse", "negative", "zero", "offset"]


def target(name):
    if name == "wide":
        z = np.linspace(0, 3, 31)
        return z, z**2 * np.exp(-((z / 0.7) ** 1.5))
    if name == "narrow":
        z = np.linspace(0.6, 0.75, 4)
        return z, np.array([0.0, 1.0, 3.0, 0.0])
    if name == "disjoint":
        z = np.linspace(5, 6, 5)
        return z, np.array([0.0, 1.0, 2.0, 1.0, 0.0])
    if name == "coarse":
        return np.array([0.0, 0.95, 2.0]), np.array([0.3, 1.0, 0.1])
    if name == "negative":
        z = np.linspace(0, 2, 11)
        return z, np.cos(4 * z)
    if name == "zero":
        z = np.linspace(0, 2, 11)
        return z, 0 * z
    z = np.linspace(0.33, 1.63, 9)
    return z, 1 + 0.2 * np.sin(20 * z)


def spaces(tier):
    thorough = tier != "quick"

    def small(env):
        m, n = env.choose("size", [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2)])
        alpha = [-1.0, 0.0, 1.0, 2.0] + ([3.0] if thorough else [])
        a = np.array([[env.choose(f"a{i}{j}", alpha) for j in range(n)] for i in range(m)])
        if np.linalg.matrix_rank(a) < n:
            raise Prune
        xs = set()
        for b in product([-1.0, 0.0, 1.0, 3.0], repeat=m):
            b = np.array(b)
            x = nnls(a, b)
            xs.add(tuple(np.round(x, 6)))
            kkt(env, a, b, x, "nnls")
        env.outcome(sorted(xs))

    def three(env):
        alpha = [-1.0, 0.0, 2.0] if thorough else [-1.0, 0.0, 1.0]
        a = np.array([[env.choose(f"a{i}{j}", alpha) for j in range(3)] for i in range(3)])
        if abs(np.linalg.det(a)) < 1e-6:
            raise Prune
        for b in product([-1.0, 1.0, 3.0], repeat=3):
            b = np.array(b)
            kkt(env, a, b, nnls(a, b), "nnls")

    def dependent_rows(env):
        """Tall matrices: structured families up to 5 x 4."""
        n = env.choose("columns", [3, 4])
        k = env.choose("family", list(range(40 if not thorough else 400)))
        i, j = np.indices((n + 1, n))
        a = np.cos(1.7 * i + 2.3 * j * (1 + 0.37 * k) + 0.1 * k * i * j) + env.choose("bias", [0.0, 0.8])
        if np.linalg.cond(a) > 300:
            raise Prune
        for q in range(40):
            b = np.sin(3.1 * (np.arange(n + 1) + 1) * (q + 1) * 0.713) * (1 + q % 3)
            kkt(env, a, b, nnls(a, b), "nnls", tol=1e-7)

    def dependent(env):
        """Matrices without full rank: the solution is not unique, the optimum is."""
        m, n = env.choose("size", [(1, 2), (1, 3), (2, 2), (3, 2), (2, 3)] + ([(3, 3)] if thorough else []))
        alpha = [-1.0, 0.0, 1.0, 2.0] if m * n < 9 else [-1.0, 0.0, 2.0]
        a = np.array([[env.choose(f"a{i}{j}", alpha) for j in range(n)] for i in range(m)])
        if np.linalg.matrix_rank(a) == n:
            raise Prune
        for b in product([-1.0, 0.3, 3.0], repeat=m):
            b = np.array(b)
            kkt(env, a, b, nnls(a, b), "nnls")

    def wide(env):
        """Matrices with more columns than rows, or repeated columns, whose entries are rounded."""
        xp = choose_backend(env)
        m, n = env.choose("size", [(1, 3), (2, 4), (3, 5), (5, 3)])
        k = env.choose("family", list(range(8 if not thorough else 80)))
        i, j = np.indices((m, n))
        a = np.cos(1.7 * i + 2.3 * j * (1 + 0.37 * k) + 0.1 * k * i * j)
        if m > n:
            a = np.concatenate([a, a[:, ::-1] @ np.diag([1.0, 0.3, 2.0])], axis=1)
        a = a * env.choose("scale", [1.0, 1e-9, 1e9])
        s = np.abs(a).max()
        for q in range(8 if xp is np else 2):
            b = np.sin(3.1 * (np.arange(m) + 1) * (q + 1) * 0.713) * (1 + q % 3)
            x = to_np(nnls(xp.asarray(a), xp.asarray(b)))
            kkt(env, a / s, b, x * s, "nnls", tol=1e-7)

    def repeated(env):
        """Shells that are listed more than once."""
        kind = env.choose("windows", ["tophat", "linear", "cubic", "overlap"])
        n = env.choose("shells", [1, 2, 3])
        name = env.choose("target", TARGETS)
        z, fz = target(name)
        ws = shells_of(kind, n)
        ws = env.choose("order", [ws + ws, ws + ws[:1], ws[-1:] + ws, [w for w in ws for _ in (0, 1)]])
        x = glass.partition(z, fz, ws)
        _, a, b = design(z, fz, ws)
        kkt(env, a, b, x, "partition", tol=1e-6)

    def options(env):
        xp = choose_backend(env)
        k = env.choose("matrix", list(range(12)))
        tol = env.choose("tol", [None, 0.0, 0.5])
        i, j = np.indices((3, 3))
        a = np.round(np.cos(1.7 * i + 2.3 * j * (1 + 0.37 * k) + 0.1 * k * i * j) * 2)
        if abs(np.linalg.det(a)) < 1e-6:
            raise Prune
        for b in ([1.0, 2.0, -1.0], [3.0, 0.0, 1.0], [-1.0, -1.0, -1.0]):
            b = np.array(b)
            x = nnls(xp.asarray(a), xp.asarray(b), **({} if tol is None else {"tol": tol}))
            env.check(is_backend(x, xp), "array type")
            kkt(env, a, b, to_np(x), "nnls", wtol=tol or 0.0)
            x0 = to_np(nnls(xp.asarray(a), xp.asarray(b), maxiter=0))
            env.check((x0 == 0).all(), "no iterations")
            x9 = to_np(nnls(xp.asarray(a), xp.asarray(b), maxiter=50))
            kkt(env, a, b, x9, "nnls")
        for bad in ((a[0], b), (a, a), (a, b[:2]), (a[None], b)):
            expect_raises(env, ValueError, lambda bad=bad: nnls(xp.asarray(bad[0]), xp.asarray(bad[1])), "shape")

    def recover(env):
        """Distributions that are combinations of shells."""
        kind = env.choose("windows", ["tophat", "linear", "cubic", "overlap"])
        n = env.choose("shells", [1, 2, 3, 4])
        method = env.choose("method", ["nnls", "lstsq", "default"])
        extra = env.choose("extra nodes", [False, True])
        xw = np.array([env.choose(f"x{i}", [0.0, 1.0, 2.5] + ([-1.0] if method == "lstsq" else [])) for i in range(n)])
        ws = shells_of(kind, n)
        grid = np.unique(np.concatenate([w.za for w in ws]))
        if extra:
            grid = np.unique(np.concatenate([grid, (grid[1:] + grid[:-1]) / 2, [grid[-1] + 0.5]]))
        f = np.zeros(len(grid))
        for x, w in zip(xw, ws, strict=True):
            y = interp0(grid, w.za, w.wa)
            f += x * y / trap(y, grid)
        kw = {} if method == "default" else {"method": method}
        got = glass.partition(grid, f, ws, **kw)
        expect_close(env, got, xw, "weights of the combination", rtol=0, atol=1e-7)
        if method != "lstsq":
            env.check(got.min() >= 0, "negative weights", got=got)

    def optimal(env):
        kind = env.choose("windows", ["tophat", "linear", "cubic", "overlap"])
        n = env.choose("shells", [1, 2, 3, 4])
        name = env.choose("target", TARGETS)
        method = env.choose("method", ["nnls", "lstsq", "restrict"])
        offset = env.choose("offset", [0.0, 0.25])
        z, fz = target(name)
        ws = shells_of(kind, n, offset)
        x = glass.partition(z, fz, ws, method=method)
        env.check(x.shape == (n,), "shape of weights", got=x.shape)
        env.outcome(np.round(x, 9).tolist())
        if method == "restrict":
            want = []
            for w in ws:
                g = np.unique(np.concatenate([w.za, z[(z > w.za[0]) & (z < w.za[-1])]]))
                want.append(trap(interp0(g, z, fz) * np.interp(g, w.za, w.wa), g))
            expect_close(env, x, want, "integral of restriction", rtol=1e-10, atol=1e-12)
            if kind == "tophat":
                lo, hi = ws[0].za[0], ws[-1].za[-1]
                edges = np.array([w.za[0] for w in ws] + [hi])
                g = np.unique(np.concatenate([edges, z[(z > lo) & (z < hi)]] + [w.za for w in ws]))
                expect_close(env, x.sum(), trap(interp0(g, z, fz), g), "sum of partition", rtol=1e-10, atol=1e-12)
            return
        for sumtol in (None, 0.1, 1e-9):
            if sumtol is None:
                y = x
            else:
                y = getattr(glass.shells, f"partition_{method}")(z, fz, ws, sumtol=sumtol)
            _, a, b = design(z, fz, ws, max(0.01 if sumtol is None else sumtol, 1e-4))
            if method == "nnls":
                kkt(env, a, b, y, "partition", tol=1e-6)
                cond = np.linalg.cond(a)
                if cond < 1e5:
                    act = y > 0
                    sol = np.zeros(n)
                    if act.any():
                        sol[act] = np.linalg.lstsq(a[:, act], b, rcond=None)[0]
                    expect_close(env, y, sol, "non-negative least squares", rtol=1e-5, atol=1e-6)
            else:
                expect_close(env, y, np.linalg.lstsq(a, b, rcond=None)[0], "least squares", rtol=1e-6, atol=1e-8)
            if name in ("wide", "narrow", "offset", "zero") and sumtol != 0.1:
                # integral is constrained up to the least squares trade-off
                tot = trap(fz, z)
                best = np.linalg.norm(b)
                env.check(abs(y.sum() - tot) <= best * (0.01 if sumtol is None else 1e-4) + 1e-9, "normalisation", got=y.sum(), want=tot)

    def arrays(env):
        kind = env.choose("windows", ["tophat", "linear", "cubic"])
        method = env.choose("method", ["nnls", "lstsq", "restrict"])
        dims = env.choose("shape", [(), (1,), (2,), (3,), (1, 2), (2, 1), (2, 3), (2, 2, 2)])
        n = env.choose("shells", [1, 3])
        xp = choose_backend(env) if n == 3 and len(dims) < 3 else np
        z = np.linspace(0.0, 2.5, 12)
        ws = shells_of(kind, n)
        wx = shells_of(kind, n, xp=xp)
        k = int(np.prod(dims))
        f = np.array([np.exp(-((z - 0.3 * q - 0.4) ** 2) / 0.1) * (1 + q) for q in range(k)]).reshape(*dims, len(z))
        got = glass.partition(xp.asarray(z), xp.asarray(f), wx, method=method)
        env.check(is_backend(got, xp), "array type")
        got = to_np(got)
        env.check(got.shape == (n, *dims), "shape of weights", got=got.shape, want=(n, *dims))
        for i in np.ndindex(*dims):
            want = glass.partition(z, f[i], ws, method=method)
            expect_close(env, got[(slice(None), *i)], want, "weights of one distribution", rtol=1e-7, atol=1e-9)
        expect_raises(env, ValueError, lambda: glass.partition(z, f, ws, method="other"), "unknown method")

    return [
        Space("small", small, "all full-rank matrices from {-1,0,1,2} up to 3x2, all vectors from {-1,0,1,3}", 4, timeout=20),
        Space("three", three, "all regular 3x3 matrices from {-1,0,1}, all vectors from {-1,1,3}", 4, timeout=20),
        Space("dependent_rows", dependent_rows, "structured 4x3 and 5x4 matrices, 40 vectors each", 2, timeout=20),
        Space("dependent", dependent, "all matrices without full rank from {-1,0,1,2} up to 2x3 and 3x2, all vectors from {-1,0.3,3}", 4, timeout=20),
        Space("wide", wide, "structured matrices with linearly dependent columns, 3 scales, backends", 3, timeout=60),
        Space("repeated", repeated, "4 window families, shells that are listed more than once, 7 targets", 3, timeout=30),
        Space("options", options, "backends, tolerances, limits, rejected input", 2, timeout=20),
        Space("recover", recover, "4 window families, 1..4 shells, all weights from {0,1,2.5}", 4, timeout=30),
        Space("optimal", optimal, "4 window families, 1..4 shells, 7 targets, all methods", 3, timeout=30),
        Space("arrays", arrays, "all leading shapes up to three dimensions, all backends", 3, timeout=30),
    ]
