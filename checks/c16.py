"""C16: sampled redshifts."""

import warnings

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.rng import ScriptRNG, SeqSource, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, is_backend, product

TECHNIQUE = "exhaustive enumeration of distributions, counts, labels and grids of uniform random numbers against the inverse cumulative distribution"
NOTE = (
    "All distributions over {0,1,3} on grids of up to five redshifts and a grid of 65 uniform random numbers including 0, "
    "all counts per population from {0,1,3} for all broadcast shapes up to two dimensions, all assignments of up to three "
    "labels to up to five galaxies in all shapes. The random numbers are those of a scripted generator."
)

GRIDS = [[0.0, 1.0], [0.5, 1.0, 2.0], [0.0, 0.1, 0.7, 1.0], [0.2, 0.3, 0.5, 1.0, 3.0], [0.0, 1.0, 1.5, 2.5, 3.0]]


def cdf_of(z, nz):
    c = np.concatenate([[0.0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    return c / c[-1]


def is_inverse(u, x, z, nz, tol=1e-9):
    """x is in the support, and the piecewise linear distribution function there is u."""
    c = cdf_of(z, nz)
    if not (np.isfinite(x).all() and (x >= z[0] - tol).all() and (x <= z[-1] + tol).all()):
        return False
    if np.abs(np.interp(x, z, c) - u).max(initial=0) > tol:
        return False
    # closed support
    ok = np.zeros(np.shape(x), dtype=bool)
    for i in range(len(z) - 1):
        if c[i + 1] > c[i]:
            ok |= (x >= z[i] - tol) & (x <= z[i + 1] + tol)
    return bool(ok.all())


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)


def spaces(tier):
    thorough = tier != "quick"
    ALPHA = [0.0, 1.0, 3.0] if not thorough else [0.0, 0.1, 1.0, 3.0]

    def inverse(env):
        z = np.array(env.choose("grid", GRIDS))
        nz = np.array([env.choose(f"nz{i}", ALPHA) for i in range(len(z))])
        if not nz.any():
            raise Prune
        xp = choose_backend(env)
        how = env.choose("how", ["nz", "window", "bins"])
        n = 64 if not thorough else 512
        # grid of random numbers including zero, the midpoints, and all values of the cdf
        c = cdf_of(z, nz)
        us = np.unique(np.concatenate([np.arange(n) / n, (np.arange(n) + 0.5) / n, c - 1e-10, c + 1e-10]))
        # at a plateau, rounding decides on which side a value lies
        us = us[(us >= 0) & (us < 1)]
        us = us[(us == 0) | (np.abs(us[:, None] - c).min(axis=1) > 1e-12)]
        us = us[(np.arange(len(us)) * 37) % len(us)] if len(us) % 37 else us
        it = SeqSource(lambda i: us[i])
        rng = ScriptRNG(unit=it)
        if how == "nz":
            got = glass.redshifts_from_nz(len(us), xp.asarray(z), xp.asarray(nz), rng=rng, warn=False)
        elif how == "window":
            got = glass.redshifts(len(us), glass.RadialWindow(xp.asarray(z), xp.asarray(nz), 0.5), rng=rng)
        else:
            got = glass.redshifts_from_bins(xp.full(len(us), 7, dtype=xp.int64), xp.asarray(z), {7: xp.asarray(nz)}, rng=rng)
        env.check(is_backend(got, xp), "array type")
        got = to_np(got)
        env.check(got.shape == us.shape, "number of redshifts")
        env.check(it.i == len(us), "number of random numbers", got=it.i, want=len(us))
        if how == "bins":
            got, us = np.sort(got), np.sort(us)
        env.check(is_inverse(us, got, z, nz), "not the inverse of the distribution function", u=us, got=got, c=c)
        env.outcome(np.round(got, 9).tolist())

    SH = [(), (1,), (2,), (3,), (1, 2), (2, 1), (2, 2)]
    ZS = [(), (1,), (2,), (2, 1)]

    def populations(env):
        cs = env.choose("shape of count", SH)
        zs = env.choose("shape of z", ZS)
        ns = env.choose("shape of nz", [*ZS, (3,), (2, 2)])
        try:
            dims = np.broadcast_shapes(cs, zs, ns)
        except ValueError:
            raise Prune from None
        k = int(np.prod(cs))
        count = np.array([env.choose(f"count{i}", [0, 1, 3] if k < 4 else [0, 2]) for i in range(k)], dtype=int).reshape(cs)
        full = k <= 2 and len(dims) <= 1
        xp = choose_backend(env) if full else np
        how = env.choose("how", ["nz", "window", "scalar"] if cs == () else ["nz", "window"]) if full else "nz"
        base = np.array([0.0, 0.5, 1.5, 2.0])
        z = base + 10 * np.arange(np.prod(zs)).reshape((*zs, 1))
        nz = 1.0 + (np.arange(np.prod(ns)).reshape((*ns, 1)) + 1) * np.array([0.0, 3.0, 1.0, 0.5])
        seq = SeqSource(weyl)
        rng = ScriptRNG(unit=seq)
        c = int(count) if how == "scalar" else xp.asarray(count)
        if how == "window":
            got = glass.redshifts(c, glass.RadialWindow(xp.asarray(z), xp.asarray(nz), 0.5), rng=rng)
        else:
            got = quiet(glass.redshifts_from_nz, c, xp.asarray(z), xp.asarray(nz), rng=rng)
        env.check(is_backend(got, xp), "array type")
        got = to_np(got)
        cb = np.broadcast_to(count, dims)
        env.check(got.shape == (cb.sum(),), "number of redshifts", got=got.shape, want=cb.sum())
        env.check(seq.i == cb.sum(), "number of random numbers", got=seq.i, want=cb.sum())
        zb, nb = np.broadcast_to(z, (*dims, 4)), np.broadcast_to(nz, (*dims, 4))
        i = 0
        for j in np.ndindex(*dims):
            n = cb[j]
            u = np.array([weyl(q) for q in range(i, i + n)])
            env.check(is_inverse(u, got[i : i + n], zb[j], nb[j]), "redshifts of population", population=j, got=got[i : i + n])
            i += n
        env.outcome((dims, cb.tolist(), np.round(got, 9).tolist()))

    KEYS = {"int": [3, -1, 7], "sorted": [1, 2, 3], "float": [0.5, 0.25, -2.0]}

    def labels(env):
        shape = env.choose("shape", [(0,), (1,), (2,), (3,), (4,), (2, 2), (1, 3), (2, 1, 2), (2, 0), ()] + ([(5,), (3, 2)] if thorough else [(5,)]))
        n = int(np.prod(shape))
        kind = env.choose("labels", list(KEYS))
        keys = KEYS[kind]
        which = [env.choose(f"label{i}", [0, 1, 2] if n < 5 or thorough else [0, 1]) for i in range(n)]
        order = env.choose("order of keys", [(0, 1, 2), (2, 0, 1)])
        xp = choose_backend(env) if n <= 3 and kind == "int" else np
        dt = xp.float64 if kind == "float" else xp.int64
        bins = xp.reshape(xp.asarray([keys[w] for w in which], dtype=dt), shape)
        z = np.array([0.0, 1.0, 2.0, 3.0])
        nz = [np.array([1.0, 2.0, 1.0, 3.0]), np.array([0.0, 5.0, 0.5, 1.0]), np.array([3.0, 0.0, 0.0, 1.0])]
        d = {keys[k]: xp.asarray(nz[k]) for k in order}
        seq = SeqSource(weyl)
        got = glass.redshifts_from_bins(bins, xp.asarray(z), d, rng=ScriptRNG(unit=seq))
        env.check(is_backend(got, xp), "array type")
        got = to_np(got)
        env.check(got.shape == shape, "shape of redshifts", got=got.shape, want=shape)
        env.check(seq.i == n, "number of random numbers", got=seq.i, want=n)
        # random numbers that the redshifts would belong to
        us = [float(np.interp(x, z, cdf_of(z, nz[w]))) for x, w in zip(got.reshape(-1), which)]
        env.check(np.allclose(sorted(us), sorted(weyl(i) for i in range(n)), atol=1e-9),
                  "redshifts do not follow the distributions of their labels", bins=to_np(bins), got=got, us=us)
        env.outcome((which, np.round(got, 9).tolist()))

    def separated(env):
        """Labels of distributions on disjoint intervals, larger catalogues."""
        n = env.choose("galaxies", [6, 17, 100, 1000])
        nlab = env.choose("labels", [2, 3, 10])
        mul = env.choose("pattern", [1, 3, 7, 11])
        xp = choose_backend(env)
        lab = (np.arange(n) * mul + np.arange(n) // 5) % nlab
        z = np.linspace(0, nlab, 8 * nlab + 1)
        d = {k: xp.asarray(((z > k) & (z < k + 1)) * 1.0) for k in range(nlab)}
        shape = (n,) if n % 2 else (n // 2, 2)
        got = to_np(glass.redshifts_from_bins(xp.asarray(lab.reshape(shape)), xp.asarray(z), d, rng=ScriptRNG(unit=SeqSource(weyl))))
        env.check((np.floor(got) == lab.reshape(shape)).all(), "redshift outside of the distribution of its label")
        env.check(len(np.unique(np.round(got - np.floor(got), 12))) >= n - nlab, "repeated random numbers")
        env.outcome(float(got.sum()))

    return [
        Space("inverse", inverse, "all distributions over 3 (thorough: 4) values on 5 grids, grid of random numbers, 3 backends, 3 functions", 3),
        Space("populations", populations, "all broadcast shapes and counts of populations", 3),
        Space("labels", labels, "all labels of up to five galaxies in all shapes", 4),
        Space("separated", separated, "larger catalogues of labels", 2),
    ]
