"""C05: effective and discretised angular power spectra."""

import itertools

import numpy as np

import glass
from mc.engine import Space
from mc.hpdata import window
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend, product

TECHNIQUE = "exhaustive enumeration of lengths, shapes and options of the real functions against direct sums"
NOTE = (
    "The results are (bi)linear in the values, so generic values decide all values; lengths, numbers of fields, weight "
    "shapes, truncations, correlation lengths and resolutions are enumerated exhaustively within bounds. The pixel "
    "windows are synthetic files read through healpy."
)


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def generic(shape, seed):
    """Values without relations between them."""
    k = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    return np.sqrt(2 + 3 * k + 7 * seed) * np.where((k + seed) % 3 == 1, -1.0, 1.0)


def spectra_of(lens, seed=0):
    return [generic((m,), 5 * k + seed) for k, m in enumerate(lens)]


def table(n, cls, k):
    c = np.zeros((n, n, k))
    for (i, j), cl in zip(pairs(n), cls, strict=True):
        m = min(k, len(cl))
        c[i, j, :m] = c[j, i, :m] = cl[:m]
    return c


def check_effective(env, n, cls, w1, w2, lmax, xp):
    kw = {} if lmax is None else {"lmax": lmax}
    k = max((len(c) for c in cls), default=0) if lmax is None else lmax + 1
    X = [xp.asarray(c) for c in cls]
    W1 = xp.asarray(w1)
    if w2 is None:
        got = glass.effective_cls(X, W1, **kw)
        v = w1
    elif w2 is w1:
        got = glass.effective_cls(X, W1, W1, **kw)
        v = w1
    else:
        got = glass.effective_cls(X, W1, xp.asarray(w2), **kw)
        v = w2
    t = table(n, cls, k)
    a, b = w1.shape[1:], v.shape[1:]
    f1, f2 = w1.reshape(n, int(np.prod(a))), v.reshape(n, int(np.prod(b)))
    want = np.einsum("ia,jb,ijl->abl", f1, f2, t).reshape(a + b + (k,))
    env.check(is_backend(got, xp), "array type of result")
    expect_close(env, got, want, "effective spectra", rtol=1e-10, atol=1e-10)
    env.outcome((n, a, b, k))
    return to_np(got)


SHAPES = [(), (1,), (2,), (3,), (2, 2), (0,), (1, 3)]


def spaces(tier):
    thorough = tier != "quick"

    def shapes(env):
        n = env.choose("fields", [0, 1, 2, 3, 4] if thorough else [0, 1, 2, 3])
        s1 = env.choose("shape1", SHAPES)
        s2 = env.choose("shape2", [None, "same"] + SHAPES)
        xp = choose_backend(env)
        lmax = env.choose("lmax", [None, 0, 2, 5])
        cls = spectra_of([3 + (k % 2) for k in range(n * (n + 1) // 2)])
        w1 = generic((n, *s1), 3)
        w2 = None if s2 is None else w1 if s2 == "same" else generic((n, *s2), 11)
        got = check_effective(env, n, cls, w1, w2, lmax, xp)
        if s2 is not None and s2 != "same" and xp is np:
            # exchange of weights
            other = check_effective(env, n, cls, w2, w1, lmax, xp)
            d1, d2 = len(s1), len(s2)
            axes = [*range(d2, d1 + d2), *range(d2), d1 + d2]
            expect_close(env, np.transpose(other, axes), got, "exchange of weights", rtol=1e-10, atol=1e-10)

    def ragged(env):
        n = env.choose("fields", [1, 2, 3] if thorough else [1, 2, 3])
        m = n * (n + 1) // 2
        alpha = [0, 1, 3] if n < 3 or thorough else [0, 2]
        lens = env.choose("lengths", product(alpha, repeat=m))
        lmax = env.choose("lmax", [None, 0, 1, 2, 6])
        cross = env.choose("second weights", [False, True])
        dt = env.choose("dtype", [np.float64, np.int64])
        w1, w2 = generic((n, 2), 3), generic((n,), 5)
        if dt is np.int64:
            w1, w2 = np.round(w1).astype(dt), np.round(w2).astype(dt)
        check_effective(env, n, spectra_of(lens), w1, w2 if cross else None, lmax, np)

    def rejected(env):
        n = env.choose("fields", [0, 1, 2, 3])
        k = env.choose("number of spectra", list(range(11)))
        n1 = env.choose("first axis", [None, 0, 1, 2, 3, 4])
        n2 = env.choose("second axis", ["none", None, 0, 1, 2, 3, 4])
        xp = choose_backend(env)
        tri = [0, 1, 3, 6, 10]
        cls = [xp.asarray(generic((2,), i)) for i in range(k)]
        w = lambda m: xp.asarray(1.5) if m is None else xp.ones((m, 2))
        args = (w(n1),) if n2 == "none" else (w(n1), w(n2))
        f = tri.index(k) if k in tri else None
        ok = f is not None and n1 == f and n2 in ("none", f)
        if ok:
            glass.effective_cls(cls, *args)
            env.check(True, "accepted")
        else:
            expect_raises(env, ValueError, lambda: glass.effective_cls(cls, *args), "inconsistent input")
        if f is None:
            expect_raises(env, ValueError, lambda: glass.discretized_cls(cls, ncorr=n), "inconsistent number of spectra")

    def discretized(env):
        n = env.choose("fields", [0, 1, 2, 3, 4] if thorough else [0, 1, 2, 3])
        m = n * (n + 1) // 2
        pattern = env.choose("lengths", ["long", "ragged", "short", "gaps", "verylong"])
        ncorr = env.choose("ncorr", [None, 0, 1, 2, 5])
        nside = env.choose("nside", [None, 1, 2, 4])
        lmax = env.choose("lmax", [None, 0, 1, 3, 7, 40])
        lens = {
            "long": [5] * m, "ragged": [k % 4 + 1 for k in range(m)], "short": [1] * m,
            "gaps": [(k % 3) * 4 for k in range(m)], "verylong": [30 + k for k in range(m)],
        }[pattern]
        # indexing out of bounds is not part of the array API standard
        inside = lmax is None or all(x == 0 or x > lmax for x in lens)
        names = ("numpy", "jax", "strict") if inside else ("numpy", "jax")
        xp = choose_backend(env, names) if n == 2 or thorough else np
        cls = spectra_of(lens)
        given = [xp.asarray(c) for c in cls]
        out = glass.discretized_cls(given, **{
            k: v for k, v in (("ncorr", ncorr), ("nside", nside), ("lmax", lmax)) if v is not None
        })
        env.check(len(out) == m, "number of spectra")
        for c0, c, (i, j), g in zip(given, cls, pairs(n), out, strict=True):
            want = c if ncorr is None or i - j <= ncorr else c[:0]
            if lmax is not None:
                want = want[: lmax + 1]
            if nside is not None:
                pw = window(nside)[0][: 3 * nside if lmax is None else lmax + 1]
                k = min(len(want), len(pw))
                want = want[:k] * pw[:k] ** 2
            env.check(is_backend(g, xp), "array type of result")
            expect_close(env, g, want, f"discretised spectrum ({i}, {j})", rtol=1e-12, atol=0)
            expect_close(env, c0, c, "input spectrum", rtol=0, atol=0)
        env.outcome([x.shape for x in out])

    def lengths(env):
        """All lengths of spectra with all truncations."""
        n = env.choose("fields", [2])
        lens = env.choose("lengths", product([0, 1, 2, 6], repeat=3))
        nside = env.choose("nside", [None, 1])
        lmax = env.choose("lmax", [None, 0, 1, 2, 5, 6])
        ncorr = env.choose("ncorr", [None, 0, 1])
        cls = spectra_of(lens)
        out = glass.discretized_cls(cls, lmax=lmax, nside=nside, ncorr=ncorr)
        for c, (i, j), g in zip(cls, pairs(n), out, strict=True):
            want = c if ncorr is None or i - j <= ncorr else c[:0]
            if lmax is not None:
                want = want[: lmax + 1]
            if nside is not None:
                pw = window(nside)[0][: 3 * nside if lmax is None else lmax + 1]
                k = min(len(want), len(pw))
                want = want[:k] * pw[:k] ** 2
            expect_close(env, g, want, f"discretised spectrum ({i}, {j})", rtol=1e-12, atol=0)

    return [
        Space("shapes", shapes, "0..3 fields (thorough: 4), all pairs of weight shapes, backends, truncations", 3),
        Space("ragged", ragged, "1..3 fields, all lengths", 3),
        Space("rejected", rejected, "0..10 spectra, all weight axes", 3),
        Space("discretized", discretized, "0..3 fields (thorough: 4), all combinations of options", 3),
        Space("lengths", lengths, "2 fields, all lengths from {0,1,2,6}", 3),
    ]
