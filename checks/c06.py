"""C06: regularisation of spectra and covariance matrices."""

import warnings

import numpy as np

import glass
import glass.algorithm as alg
from mc.engine import Space
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend, product

TECHNIQUE = "exhaustive enumeration of symmetric matrices over a finite alphabet with an exact optimality certificate"
NOTE = (
    "All symmetric 2x2 and 3x3 matrices over the alphabets, all ways of stacking them, all ragged lengths. Optimality "
    "of the nearest correlation matrix is decided by its dual certificate (Y = X - A off the diagonal, XY = 0, Y >= 0), "
    "so no reference solver is trusted. Numerical tolerance 1e-6 for the certificate."
)


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def matrix(diag, off):
    n = len(diag)
    m = np.diag(np.array(diag, dtype=float))
    for (i, j), v in zip([(i, j) for i in range(n) for j in range(i)], off, strict=True):
        m[i, j] = m[j, i] = v
    return m


def ref_clip(m, rtol=None):
    w, v = np.linalg.eigh(m)
    r = m.shape[-1] * np.finfo(float).eps if rtol is None else rtol
    w = np.maximum(w, r * max(w.max(), 0.0))
    return (v * w) @ v.T


def corr_of(m):
    d = np.sqrt(np.diag(m))
    s = np.outer(d, d)
    return m / np.where(s > 0, s, 1.0)


def certify(env, a, x, tol=1e-6, psdtol=1e-9):
    """x is the correlation matrix nearest to a."""
    n = len(a)
    env.check(np.isfinite(x).all(), "result is not finite", a=a, x=x)
    env.check(np.abs(np.diag(x) - 1).max() <= 1e-12, "unit diagonal", a=a, x=x)
    env.check(np.abs(x - x.T).max() <= 1e-12, "symmetry", a=a, x=x)
    env.check(np.linalg.eigvalsh(x).min() >= -psdtol, "not positive semi-definite", a=a, x=x)
    y = x - a
    np.fill_diagonal(y, 0.0)
    np.fill_diagonal(y, -np.sum(x * y, axis=1))
    s = 1 + np.abs(a).max()
    env.check(np.linalg.eigvalsh((y + y.T) / 2).min() >= -tol * s, "not the nearest correlation matrix", a=a, x=x)
    env.check(np.abs(x @ y).max() <= tol * s, "not the nearest correlation matrix (complementarity)", a=a, x=x)


def quiet(f, *args, **kw):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = f(*args, **kw)
    return r, any("not found" in str(w.message) for w in rec)


OFF3 = [-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5]


def spaces(tier):
    thorough = tier != "quick"

    def nearcorr(env):
        n = env.choose("size", [1, 2, 3] + ([4] if thorough else []))
        if n == 4:
            off = [env.choose(f"a{i}{j}", [-1.2, 0.0, 0.9]) for i in range(4) for j in range(i)]
            diag = [1.0] * 4
        else:
            off = [env.choose(f"a{i}{j}", OFF3) for i in range(n) for j in range(i)]
            diag = env.choose("diagonal", [[1.0] * n, [0.5 + i for i in range(n)], [0.0] * n])
        a = matrix(diag, off)
        a0 = a.copy()
        x, warned = quiet(alg.nearcorr, a, niter=20000, tol=1e-13)
        env.check((a == a0).all(), "input was modified")
        env.outcome(np.round(x, 6).tolist())
        if warned:
            # no convergence was reported: result must still be a correlation matrix by shape
            env.check(np.abs(np.diag(x) - 1).max() <= 1e-12, "unit diagonal")
            return
        certify(env, a, to_np(x))

    def nearcorr_valid(env):
        """Valid correlation matrices are unchanged."""
        n = env.choose("size", [1, 2, 3, 4])
        v = np.array([[env.choose(f"v{i}{k}", [-1.0, 0.5, 2.0]) if i * k < 3 else 1.0 for k in range(2)] for i in range(n)])
        mix = env.choose("identity", [0.0, 0.5])
        c = v @ v.T + mix * np.eye(n)
        c = corr_of(c)
        xp = choose_backend(env) if n < 3 or thorough else np
        x, warned = quiet(alg.nearcorr, xp.asarray(c))
        env.check(not warned, "no convergence for a valid matrix")
        expect_close(env, x, c, "valid correlation matrix", rtol=0, atol=1e-12)
        expect_close(env, alg.cov_nearest(xp.asarray(c * 3)), c * 3, "valid covariance matrix", rtol=0, atol=1e-11)
        expect_close(env, alg.cov_clip(xp.asarray(c * 3)), c * 3, "valid covariance matrix", rtol=0, atol=1e-11)

    def limits(env):
        """Iteration limit and tolerance."""
        a = matrix([1.0] * 3, [env.choose(f"a{k}", [-1.0, 0.3, 1.0]) for k in range(3)])
        niter = env.choose("niter", [0, 1, 2, 5, 100])
        tol = env.choose("tol", [None, 1e-3, 0.3])
        f = env.choose("function", ["nearcorr", "cov_nearest"])
        d = np.array([1.0, 0.5, 2.0]) if f == "cov_nearest" else np.ones(3)
        d = np.outer(d, d)
        x, warned = quiet(getattr(alg, f), a * d, niter=niter, tol=tol)
        x = x / d
        # reference iteration
        y, ds, ok = a, np.zeros((3, 3)), False
        t = 3 * np.finfo(float).eps if tol is None else tol
        for _ in range(niter):
            r = y - ds
            p = ref_clip(r)
            ds = p - r
            y = p.copy()
            np.fill_diagonal(y, 1.0)
            if np.linalg.norm(y - p) <= t * np.linalg.norm(y):
                ok = True
                break
        if tol is not None or niter < 100:
            env.check(warned == (not ok), "warning exactly without convergence", ok=ok)
            expect_close(env, x, y, "alternating projections", rtol=0, atol=1e-9)
        for bad in (np.zeros((2, 3)), np.zeros((4, 3, 2))):
            expect_raises(env, ValueError, lambda bad=bad: alg.nearcorr(bad), "non-square matrix")

    def clip(env):
        n = env.choose("size", [1, 2, 3])
        diag = [env.choose(f"d{i}", [-2.0, 0.0, 1.0, 4.0]) for i in range(n)]
        off = [env.choose(f"a{k}", [-2.0, 0.0, 1.0, 3.0]) for k in range(n * (n - 1) // 2)]
        rtol = env.choose("rtol", [None, 0.0, 0.1])
        xp = BACKENDS[env.choose("backend", ["numpy", "strict", "jax"])] if thorough or n < 3 else np
        m = matrix(diag, off)
        x = to_np(alg.cov_clip(xp.asarray(m), rtol) if rtol is not None else alg.cov_clip(xp.asarray(m)))
        env.outcome(np.round(x, 6).tolist())
        expect_close(env, x, ref_clip(m, rtol), "clipped matrix", rtol=0, atol=1e-10)
        env.check(np.linalg.eigvalsh(x).min() >= -1e-12 * (1 + np.abs(m).max()), "not positive semi-definite", x=x)

    def nearest(env):
        n = env.choose("size", [1, 2, 3])
        diag = [env.choose(f"d{i}", [0.0, 1.0, 4.0] if n < 3 or thorough else [0.0, 1.0, 9.0]) for i in range(n)]
        off = [env.choose(f"a{k}", [-3.0, -1.0, 0.0, 1.0, 3.0]) for k in range(n * (n - 1) // 2)]
        m = matrix(diag, off)
        x, warned = quiet(alg.cov_nearest, m, niter=20000, tol=1e-13)
        expect_close(env, np.diag(x), np.array(diag), "auto-covariances", rtol=1e-12, atol=0)
        env.check(np.linalg.eigvalsh(x).min() >= -1e-8, "not positive semi-definite", m=m, x=x)
        env.outcome(np.round(x, 6).tolist())
        # fields with zero variance have no correlations
        keep = [i for i in range(n) if diag[i] > 0]
        zero = [i for i in range(n) if diag[i] == 0]
        env.check(np.abs(x[zero]).max(initial=0.0) == 0, "correlations with a vanishing field", x=x)
        if keep and not warned:
            # the vanishing fields take part in the correlation matrix
            a = corr_of(m)
            if not zero:
                certify(env, a, corr_of(x))

    def negative(env):
        n = env.choose("size", [1, 2, 3])
        k = env.choose("entry", list(range(n)))
        xp = choose_backend(env)
        d = [1.0] * n
        d[k] = -0.5
        expect_raises(env, ValueError, lambda: alg.cov_nearest(xp.asarray(matrix(d, [0.0] * (n * (n - 1) // 2)))), "negative diagonal")
        stack = np.stack([np.eye(n), matrix(d, [0.0] * (n * (n - 1) // 2))])
        expect_raises(env, ValueError, lambda: alg.cov_nearest(xp.asarray(stack)), "negative diagonal")

    pool = [
        matrix([1, 1, 1], [0.2, -0.1, 0.3]), matrix([1, 1, 1], [0.9, 0.9, -0.9]), matrix([4, 1, 1], [3, 0, 1]),
        matrix([1, 0, 2], [0.5, 0, 1]), matrix([0, 0, 0], [0, 0, 0]), matrix([1e-6, 1, 1e6], [1e-3, 2, 1e3]),
    ]

    single = {}

    def stacks(env):
        f = env.choose("function", ["cov_clip", "cov_nearest", "nearcorr"])
        shape = env.choose("shape", [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2)])
        n = int(np.prod(shape))
        idx = [env.choose(f"m{k}", list(range(6 if n < 3 else 4 if n < 4 else 3))) for k in range(n)]
        xp = choose_backend(env) if n == 2 else np
        a = np.stack([pool[i] for i in idx]).reshape(*shape, 3, 3)
        kw = {} if f == "cov_clip" else {"niter": 300}
        func = getattr(alg, f)
        x, w = quiet(func, xp.asarray(a), **kw)
        x = to_np(x)
        env.check(is_backend(func(xp.asarray(pool[0])), xp), "array type")
        env.check(x.shape == a.shape, "shape of result", got=x.shape, want=a.shape)
        for k, y in zip(idx, x.reshape(-1, 3, 3), strict=True):
            if (f, k) not in single:
                single[f, k] = quiet(func, pool[k], **kw)
            want, w1 = single[f, k]
            env.check(w or not w1, "warning of stack")
            s = np.abs(pool[k]).max()
            expect_close(env, y, want, "matrix of stack", rtol=0, atol=1e-7 * (1 + s if f == "nearcorr" else s))

    def spectra(env):
        n = env.choose("fields", [1, 2, 3])
        m = n * (n + 1) // 2
        lens = env.choose("lengths", product([0, 1, 3] if n < 3 else [0, 2], repeat=m))
        lmax = env.choose("lmax", [None, 0, 1, 4])
        method = env.choose("method", ["default", "nearest", "clip"])
        values = env.choose("values", ["valid", "invalid"])
        k = max(lens) if lmax is None else lmax + 1
        full = np.zeros((k, n, n))
        cls = []
        for q, (i, j) in enumerate(pairs(n)):
            base = np.array([1.0, 0.5, 2.0])[: lens[q]]
            if i == j:
                c = base * (1 + i)
            else:
                c = base * (0.2 if values == "valid" else 1.9) * (-1) ** (i + j) + 0.01 * (q + 1)
            cls.append(c)
            z = min(k, len(c))
            full[:z, i, j] = full[:z, j, i] = c[:z]
        keep = [c.copy() for c in cls]
        kw = {} if lmax is None else {"lmax": lmax}
        if method != "default":
            kw["method"] = method
        if method != "clip":
            kw["niter"] = 3000
        out, warned = quiet(glass.regularized_spectra, cls, **kw)
        env.check(len(out) == m, "number of spectra")
        res = np.zeros((k, n, n))
        for (i, j), c in zip(pairs(n), out, strict=True):
            env.check(c.shape == (k,), "length of spectrum", got=c.shape, want=k)
            res[:, i, j] = res[:, j, i] = c
        for c, c0 in zip(cls, keep, strict=True):
            env.check((c == c0).all(), "input was modified")
        for l in range(k):
            env.check(np.linalg.eigvalsh(res[l]).min() >= -1e-9, f"mode {l} is not positive semi-definite", res=res[l])
            if method == "clip":
                expect_close(env, res[l], ref_clip(full[l]), f"mode {l}", rtol=0, atol=1e-10)
            else:
                expect_close(env, np.diag(res[l]), np.diag(full[l]), "auto-spectra", rtol=1e-12, atol=0)
                if np.linalg.eigvalsh(full[l]).min() >= 0:
                    expect_close(env, res[l], full[l], "valid spectra", rtol=0, atol=1e-10)
                elif not warned and np.diag(full[l]).min() > 0:
                    certify(env, corr_of(full[l]), corr_of(res[l]))
        # test of definiteness
        w = min((np.linalg.eigvalsh(f).min() for f in full), default=0.0) if lmax is None else None
        if w is not None and abs(w) > 1e-9:
            env.check(bool(glass.check_posdef_spectra(cls)) == (w > 0), "check_posdef_spectra", w=w)
        if k and lmax is None and values == "valid" and all(x == max(lens) for x in lens):
            env.check(bool(glass.check_posdef_spectra(cls)), "check_posdef_spectra")
        env.outcome(np.round(res, 6).tolist())

    def backends(env):
        n = env.choose("fields", [1, 2, 3])
        method = env.choose("method", ["nearest", "clip"])
        scale = env.choose("scale", [0.1, 1.4])
        xp = choose_backend(env)
        cls = [np.array([1.0, 0.5]) * (1 if i == j else scale * (-1) ** j) for i, j in pairs(n)]
        a = glass.regularized_spectra(cls, method=method)
        b = glass.regularized_spectra([xp.asarray(c) for c in cls], method=method)
        for x, y in zip(a, b, strict=True):
            env.check(is_backend(y, xp), "array type")
            expect_close(env, y, x, "regularised spectra", rtol=0, atol=1e-9)
        r = bool(glass.check_posdef_spectra([xp.asarray(c) for c in cls]))
        w = min(np.linalg.eigvalsh(m).min() for m in to_np(glass.cov_from_spectra(cls)))
        if abs(w) > 1e-9:
            env.check(r == (w > 0), "check_posdef_spectra")
        expect_raises(env, ValueError, lambda: glass.regularized_spectra(cls, method="other"), "unknown method")
        expect_raises(env, ValueError, lambda: glass.regularized_spectra([*cls, cls[0]]), "number of spectra")

    return [
        Space("nearcorr", nearcorr, "all symmetric matrices with off-diagonals from {0,+-.5,+-1,+-1.5}, 3 diagonals, up to 3x3 (thorough: 4x4)", 3),
        Space("nearcorr_valid", nearcorr_valid, "gram matrices up to 4x4", 3),
        Space("limits", limits, "iteration limits and tolerances", 3),
        Space("clip", clip, "all symmetric matrices from {-2,0,1,3 | -2,0,1,4} up to 3x3", 4),
        Space("nearest", nearest, "all symmetric matrices from {0,+-1,+-3 | 0,1,4} up to 3x3", 4),
        Space("negative", negative, "negative diagonals", 2),
        Space("stacks", stacks, "all stacks of shapes up to (2,2) from pool of matrices", 3),
        Space("spectra", spectra, "1..3 fields, all lengths, truncations, methods", 4),
        Space("backends", backends, "backends and rejected input", 2),
    ]
