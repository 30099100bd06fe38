"""C03: transformations of Gaussian fields and solver for their spectra."""

import warnings

import numpy as np
import transformcl

import glass
import glass.grf as grf
from mc.engine import Prune, Space
from mc.setup_env import to_np
from mc.util import choose_backend, expect_close, expect_raises, product

TECHNIQUE = "bounded exhaustive exploration of inputs of the real solver against closed-form and quadrature oracles"
NOTE = (
    "Exhaustive over pairs of transformations with parameter grids, correlations on grids, and all spectra over small "
    "alphabets with up to four modes, all paddings, starting points, fixed monopoles and iteration limits listed. Trusts "
    "the transformcl package for Legendre transforms. Non-termination is detected with a time limit per execution."
)

# name, transformation, function of (x, var), implied variance (or None if free)
T = {
    "N": (grf.Normal(), lambda x, v: x, None),
    "L1": (grf.Lognormal(), lambda x, v: np.exp(x - v / 2) - 1, None),
    "L.5": (grf.Lognormal(0.5), lambda x, v: 0.5 * (np.exp(x - v / 2) - 1), None),
    "L2": (grf.Lognormal(2.0), lambda x, v: 2 * (np.exp(x - v / 2) - 1), None),
    "S.6": (grf.SquaredNormal(0.6), lambda x, v: (x - 0.6) ** 2 - 1, 1 - 0.36),
    "S.8x3": (grf.SquaredNormal(0.8, 3.0), lambda x, v: 3.0 * ((x - 0.8) ** 2 - 1), 1 - 0.64),
    "S.3": (grf.SquaredNormal(0.3), lambda x, v: (x - 0.3) ** 2 - 1, 1 - 0.09),
}
PAIRS = [
    (a, b) for a in T for b in T
    if (a[0] == b[0]) or {a[0], b[0]} == {"N", "L"}
]
BAD = [(a, b) for a in T for b in T if (a, b) not in PAIRS]

_h, _w = np.polynomial.hermite_e.hermegauss(60)
_w = _w / _w.sum()


def expectation(f1, f2, v1, v2, c):
    """E[f1(X) f2(Y)] for Gaussian X, Y by quadrature."""
    s1 = np.sqrt(v1)
    x = s1 * _h
    b = c / v1 if v1 > 0 else 0.0
    r = v2 - b * c
    y = b * x[:, None] + np.sqrt(max(r, 0.0)) * _h
    return np.sum(_w[:, None] * _w * f1(x, v1)[:, None] * f2(y, v2))


def ref_corr(a, b, x):
    """Closed-form correlation of transformed fields."""
    t1, t2 = T[a][0], T[b][0]
    l1, l2 = getattr(t1, "lamda", 1.0), getattr(t2, "lamda", 1.0)
    if a[0] == "S":
        return 2 * l1 * l2 * x * (x + 2 * t1.a * t2.a)
    if a[0] == b[0] == "L":
        return l1 * l2 * np.expm1(x)
    return l1 * l2 * x


def spaces(tier):
    thorough = tier != "quick"

    def moments(env):
        """Zero mean and correlation of transformed fields."""
        a, b = env.choose("pair", PAIRS)
        v1 = T[a][2] if T[a][2] is not None else env.choose("v1", [0.2, 1.0])
        v2 = T[b][2] if T[b][2] is not None else env.choose("v2", [0.3, 1.0])
        rho = env.choose("rho", [-0.9, -0.4, 0.0, 0.3, 0.8, 1.0])
        c = rho * np.sqrt(v1 * v2)
        f1 = lambda x, v: np.asarray(T[a][0](x, v))
        f2 = lambda x, v: np.asarray(T[b][0](x, v))
        expect_close(env, np.sum(_w * f1(np.sqrt(v1) * _h, v1)), 0.0, "mean of transformed field", atol=1e-9)
        want = expectation(f1, f2, v1, v2, c)
        got = grf.corr(T[a][0], T[b][0], np.asarray([c, 0.0, c]))
        env.outcome(round(float(got[0]), 9))
        expect_close(env, got, [want, 0.0, want], "correlation of transformed fields", rtol=1e-7, atol=1e-8)

    def inverse(env):
        a, b = env.choose("pair", PAIRS)
        xp = choose_backend(env)
        s = 1.0
        if a[0] == "S":
            s = T[a][0].a * T[b][0].a  # domain of the inverse
        x = np.array([-0.9, -0.5, -0.1, -1e-4, 0.0, 1e-4, 0.1, 0.5, 1.0, 2.0]) * s
        X = xp.asarray(x)
        y = grf.corr(T[a][0], T[b][0], X)
        expect_close(env, y, ref_corr(a, b, x), "correlation", rtol=1e-12)
        expect_close(env, grf.icorr(T[a][0], T[b][0], y), x, "inverse of correlation", rtol=1e-8, atol=1e-11)
        expect_close(env, grf.corr(T[b][0], T[a][0], X), to_np(y), "correlation is symmetric")
        expect_close(env, grf.icorr(T[b][0], T[a][0], y), x, "inverse is symmetric", rtol=1e-8, atol=1e-11)
        h = 1e-5
        d = (ref_corr(a, b, x + h) - ref_corr(a, b, x - h)) / (2 * h)
        expect_close(env, grf.dcorr(T[a][0], T[b][0], X), d, "derivative", rtol=1e-6, atol=1e-9)
        expect_close(env, grf.dcorr(T[b][0], T[a][0], X), d, "derivative", rtol=1e-6, atol=1e-9)
        env.outcome(to_np(y).tolist())

    def fields(env):
        """Transformation of maps on all backends, and unsupported pairs."""
        a = env.choose("transformation", list(T))
        xp = choose_backend(env)
        var = env.choose("variance", [0.0, 0.3, 1.2])
        x = np.array([-2.0, -0.5, 0.0, 0.1, 3.0])
        expect_close(env, T[a][0](xp.asarray(x), var), T[a][1](x, var), "transformed field", rtol=1e-12)
        for p in BAD:
            if p[0] == a:
                for f in (grf.corr, grf.icorr, grf.dcorr):
                    expect_raises(env, NotImplementedError, lambda f=f, p=p: f(T[p[0]][0], T[p[1]][0], xp.asarray(x)), f"pair {p}")

    def compute(env):
        a, b = env.choose("pair", PAIRS)
        n = env.choose("modes", [1, 2, 3, 4])
        cl = np.array([env.choose(f"cl{l}", [0.0, 0.3, 0.05] if l else [0.0, 0.2]) for l in range(n)])
        if a[0] == "S":
            cl = cl * 0.2
        xp = choose_backend(env, ("numpy", "jax")) if n == 2 else np
        if a[0] in "SL" and b[0] == a[0]:
            # correlation beyond the range of the transformation
            t1, t2 = T[a][0], T[b][0]
            c = transformcl.cltocorr(cl) / (t1.lamda * t2.lamda)
            if (c <= (-2 * (t1.a * t2.a) ** 2 if a[0] == "S" else -1)).any():
                raise Prune
        gl = to_np(grf.compute(xp.asarray(cl), T[a][0], T[b][0]))
        env.check(gl.shape == cl.shape, "number of modes")
        got = ref_corr(a, b, transformcl.cltocorr(gl))
        expect_close(env, got, transformcl.cltocorr(cl), "realised correlation", rtol=1e-7, atol=1e-10)
        if a == b:
            expect_close(env, grf.compute(xp.asarray(cl), T[a][0]), gl, "single transformation")

    def verify(env, a, b, cl, gl, rl, info, pad, cltol, monopole, n):
        env.check(info in (0, 1, 2, 3), "value of info", info=info)
        env.check(gl.shape == (n,), "number of modes", got=gl.shape)
        if monopole is not None:
            env.check(gl[0] == monopole, "fixed monopole", got=gl[0], want=monopole)
        real = transformcl.corrtocl(ref_corr(a, b, transformcl.cltocorr(np.pad(gl, (0, pad)))))
        if np.all(np.isfinite(real)):
            env.check(rl.shape == (n + pad,), "length of realised spectrum", got=rl.shape)
            expect_close(env, rl, real, "realised spectrum", rtol=1e-7, atol=1e-9 * (1 + np.abs(real).max()))
        if info & 1:
            err = np.abs(real[:n] - cl)
            lim = cltol * np.abs(cl) * (1 + 1e-6) + 1e-11
            if monopole is not None:
                err[0] = 0
            env.check((err <= lim).all(), "spectrum does not reproduce target although convergence was reported",
                      cl=cl, real=real[:n], info=info)

    def solve_any(env):
        """All targets over a small alphabet, feasible or not."""
        a, b = env.choose("pair", [("L1", "L1"), ("N", "L1"), ("L.5", "L2"), ("S.6", "S.6"), ("S.8x3", "S.3"), ("N", "N")])
        n = env.choose("modes", [1, 2, 3, 4] if thorough else [1, 2, 3])
        cl = np.array([env.choose(f"cl{l}", [0.0, 0.5, -0.5, 3.0, -3.0] if n < 4 else [0.0, 0.5, -0.5]) for l in range(n)])
        pad = env.choose("pad", [0, 3])
        monopole = env.choose("monopole", [None, 0.0, 0.25])
        gl, rl, info = grf.solve(cl, T[a][0], T[b][0], pad=pad, monopole=monopole)
        env.outcome((a, b, info))
        verify(env, a, b, cl, to_np(gl), to_np(rl), info, pad, 1e-5, monopole, n)

        def error(rl):
            d = rl[:n] - cl
            if monopole is not None:
                d[0] = 0
            with np.errstate(all="ignore"):
                return float(np.max(np.where(d != 0, np.abs(d / cl), 0.0)))

        last = None
        for k in (0, 1, 2, 3):
            e = error(to_np(grf.solve(cl, T[a][0], T[b][0], pad=pad, monopole=monopole, maxiter=k)[1]).copy())
            env.check(last is None or not e > last * (1 + 1e-9) + 1e-12, "iteration increases the error", cl=cl, iterations=k, error=e, before=last)
            last = e
        e = error(to_np(rl).copy())
        env.check(not e > last * (1 + 1e-9) + 1e-12, "iterations increase the error", cl=cl, error=e, before=last)

    def solve_ok(env):
        """Targets realised by a known Gaussian spectrum."""
        a, b = env.choose("pair", [p for p in PAIRS if p != ("N", "N")])
        n = env.choose("modes", [2, 3, 4])
        s = {"N": 1.0, "L": 1.0, "S": 0.1}[a[0]]
        g0 = s * np.array([env.choose(f"gl{l}", [0.4, 0.1, 0.02] if l else [0.3, 0.05]) for l in range(n)])
        pad = env.choose("pad", [0, 2 * n])
        mono = env.choose("monopole", [False, True])
        cltol = env.choose("cltol", [1e-5, 1e-8])
        cl = transformcl.corrtocl(ref_corr(a, b, transformcl.cltocorr(np.pad(g0, (0, pad)))))[:n]
        monopole = float(g0[0]) if mono else None
        gl, rl, info = grf.solve(cl, T[a][0], T[b][0], pad=pad, monopole=monopole, cltol=cltol, gltol=1e-12)
        verify(env, a, b, cl, gl, rl, info, pad, cltol, monopole, n)
        env.outcome((a, b, n, info))
        env.check(info & 1, "solver did not converge for a realisable target", cl=cl, gl=gl, g0=g0, info=info)
        expect_close(env, gl, g0, "solution", rtol=1e-2 if cltol > 1e-6 else 1e-5, atol=1e-3 * s * 1e-2)

    def solve_opts(env):
        """Starting points, iteration limits, tolerances."""
        a, b = env.choose("pair", [("L1", "L1"), ("L.5", "L2"), ("S.6", "S.8x3")])
        n = 3
        cl = np.array([0.2, 0.1, 0.05]) * (0.1 if a[0] == "S" else 1)
        init = env.choose("initial", ["none", "zero", "short", "long", "exact"])
        pad = env.choose("pad", [0, 1, 6])
        maxiter = env.choose("maxiter", [0, 1, 2, 20])
        monopole = env.choose("monopole", [None, 0.0, 0.1])
        gltol = env.choose("gltol", [1e-5, 1e-1])
        exact, _, _ = grf.solve(cl, T[a][0], T[b][0], pad=pad, monopole=monopole, cltol=1e-9, gltol=0)
        initial = {
            "none": None, "zero": np.full(n, 1e-3), "short": np.array([0.05]) * (0.1 if a[0] == "S" else 1),
            "long": np.append(exact, [0.3, 0.2]), "exact": exact.copy(),
        }[init]
        before = None if initial is None else initial.copy()
        gl, rl, info = grf.solve(cl, T[a][0], T[b][0], pad=pad, initial=initial, maxiter=maxiter, monopole=monopole, gltol=gltol)
        verify(env, a, b, cl, gl, rl, info, pad, 1e-5, monopole, n)
        if before is not None:
            env.check((initial == before).all(), "starting point was modified")
        if init in ("long", "exact"):
            expect_close(env, gl, exact, "solution is a fixed point", rtol=1e-3)
            env.check(maxiter == 0 or info & 1, "convergence from the solution", info=info)
        if maxiter == 20 and gltol < 1e-2:
            env.check(info > 0, "solver did not converge", info=info)
            expect_close(env, gl, exact, "solution is independent of starting point", rtol=1e-3, atol=1e-6)
        if maxiter == 0:
            env.check(info == 0, "no convergence can be reported without iterations", info=info)
        expect_raises(env, ValueError, lambda: grf.solve(cl, T[a][0], T[b][0], pad=-1), "negative padding")

    def pairs(n):
        return [(i, j) for i in range(n) for j in range(i, -1, -1)]

    def sets(env):
        """Sets of spectra use the transformations of their own fields."""
        n = env.choose("fields", [1, 2, 3])
        kind = env.choose("kind", ["lognormal", "squared", "mixed"])
        f = {"lognormal": ["L1", "L.5", "L2"], "squared": ["S.6", "S.8x3", "S.3"], "mixed": ["N", "L.5", "L2"]}[kind][:n]
        which = env.choose("function", ["solve", "compute"])
        m = n * (n + 1) // 2
        lens = env.choose("lengths", [x for x in product([0, 3] if n == 3 else [0, 1, 3], repeat=m)])
        mono0 = env.choose("monopole", ["zero", "positive"])
        names = ("numpy", "strict", "jax") if which == "solve" else ("numpy", "jax")
        xp = choose_backend(env, names) if n < 3 else np
        s = 0.05 if kind == "squared" else 0.5
        spectra = []
        for k, (i, j) in enumerate(pairs(n)):
            cl = s / (1 + abs(i - j)) * (1 + 0.1 * k) * np.array([0.2, 0.3, 0.1])
            if mono0 == "zero":
                cl[0] = 0.0
            spectra.append(cl[: lens[k]])
        func = glass.solve_gaussian_spectra if which == "solve" else glass.compute_gaussian_spectra
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            gls = func([T[x][0] for x in f], [xp.asarray(x) for x in spectra])
        env.check(len(gls) == m, "number of spectra")
        for k, (i, j) in enumerate(pairs(n)):
            cl, gl = spectra[k], to_np(gls[k])
            env.check(gl.shape == cl.shape, "length of spectrum", got=gl.shape, want=cl.shape)
            if len(cl) == 0:
                continue
            pad = 2 * len(cl) if which == "solve" else 0
            real = transformcl.corrtocl(ref_corr(f[i], f[j], transformcl.cltocorr(np.pad(gl, (0, pad)))))[: len(cl)]
            if which == "solve" and mono0 == "zero":
                env.check(gl[0] == 0, "monopole of Gaussian spectrum", got=gl)
                expect_close(env, real[1:], cl[1:], f"realised spectrum ({i}, {j})", rtol=2e-5, atol=1e-9)
            elif which == "solve" and not rec:
                expect_close(env, real, cl, f"realised spectrum ({i}, {j})", rtol=2e-5, atol=1e-9)
            elif which == "compute":
                expect_close(env, real, cl, f"realised spectrum ({i}, {j})", rtol=1e-7, atol=1e-10)
        env.check(not rec or not any("converge" in str(w.message) for w in rec), "spectra did not converge")

    def sets_misc(env):
        n = env.choose("fields", [0, 1, 2, 3])
        what = env.choose("what", ["mismatch", "warning", "fields", "lognormal_gls"])
        if what == "mismatch":
            for k in range(0, 8):
                if k != n * (n + 1) // 2:
                    for func in (glass.solve_gaussian_spectra, glass.compute_gaussian_spectra):
                        expect_raises(env, ValueError, lambda k=k, func=func: func([grf.Normal()] * n, [np.ones(2)] * k), "mismatch")
        elif what == "warning" and n:
            # a lognormal field cannot have these spectra
            spectra = [np.array([1.0, 10.0, -10.0])] * (n * (n + 1) // 2)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                glass.solve_gaussian_spectra([grf.Lognormal()] * n, spectra)
            got = [str(w.message) for w in rec if "converge" in str(w.message)]
            env.check(len(got) == len(spectra), "one warning for each spectrum that did not converge", got=got)
            for (i, j), w in zip(pairs(n), got, strict=True):
                env.check(f"({i}, {j})" in w, "warning names the fields", got=w)
        elif what == "fields":
            za = np.array([0.0, 1.0])
            shells = [glass.RadialWindow(za + i, np.array([1.0, 1.0]), 0.5 + i) for i in range(n)]
            g = glass.gaussian_fields(shells)
            env.check(len(g) == n and all(type(x) is grf.Normal for x in g), "Gaussian fields")
            l0 = glass.lognormal_fields(shells)
            env.check(len(l0) == n and all(x.lamda == 1.0 for x in l0), "default shift")
            l1 = glass.lognormal_fields(shells, glass.lognormal_shift_hilbert2011)
            for i in range(n):
                z = 0.5 + i
                want = 0.008 * z + 0.029 * z**2 - 0.0079 * z**3 + 0.00065 * z**4
                expect_close(env, l1[i].lamda, want, "lognormal shift", rtol=1e-10)
        elif what == "lognormal_gls" and n:
            spectra = [np.array([0.2, 0.1, 0.05]) / (1 + i - j) for i, j in pairs(n)]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a = glass.lognormal_gls(spectra, 0.7)
            b = glass.solve_gaussian_spectra([grf.Lognormal(0.7)] * n, spectra)
            for x, y in zip(a, b, strict=True):
                expect_close(env, x, y, "spectra of deprecated function")

    return [
        Space("moments", moments, "all pairs, variances and correlation coefficients", 2),
        Space("inverse", inverse, "all pairs and backends, grid of correlations", 2),
        Space("fields", fields, "all transformations, backends, unsupported pairs", 2),
        Space("compute", compute, "all pairs, 1..4 modes", 3),
        Space("solve_any", solve_any, "all spectra from {0,+-0.5,+-3}", 4, timeout=60),
        Space("solve_ok", solve_ok, "all realisable spectra from alphabet of Gaussian spectra", 4, timeout=60),
        Space("solve_opts", solve_opts, "starting points, limits, tolerances", 3, timeout=60),
        Space("sets", sets, "1..3 fields, all lengths", 4, timeout=60),
        Space("sets_misc", sets_misc, "mismatch, warnings, field constructors", 2),
    ]
