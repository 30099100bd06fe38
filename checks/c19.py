"""C19: redshift distributions and tomographic bins."""

import math
from fractions import Fraction

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend

TECHNIQUE = "exhaustive enumeration of distributions, parameters, shapes and bin edges over small alphabets against direct definitions"
NOTE = (
    "All distributions over three values on grids of up to five redshifts, all pairs and triples of bin edges on a grid "
    "including open ended bins, all sizes and numbers of bins in steps of 0.05 with exact rational arithmetic, all parameter "
    "shapes up to two dimensions. Normalisations other than scalars are not covered."
)

SH = [(), (1,), (2,), (3,), (2, 1), (2, 3)]
ZG = [np.linspace(0, 2, 21), np.array([0.01, 0.2, 0.3, 0.9, 1.5]), np.array([0.5, 1.0]), np.linspace(0.2, 4, 5)]


def trapz(y, x):
    return np.sum((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x), axis=-1)


def cdf(z, nz):
    c = np.concatenate([[0.0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    return c / c[-1]


def spaces(tier):
    thorough = tier != "quick"

    def params(env, xp, name, shape, i):
        v = [[0.7, 0.3, 1.1, 0.5, 0.9, 1.4], [0.2, 0.5, 0.11, 0.3, 0.7, 1.0], [2.0, 1.5, 0.7, 1.0, 3.0, 2.2], [1.5, 1.0, 0.8, 2.0, 1.2, 2.5]][i]
        a = np.array(v[: int(np.prod(shape))]).reshape(shape)
        return a, (xp.asarray(a) if shape != () or env.choose(name + " as", ["array", "scalar"]) == "array" else float(a))

    def gaussian(env):
        z = ZG[env.choose("z", range(len(ZG)))]
        s1, s2 = env.choose("shape of mean", SH), env.choose("shape of sigma", SH)
        try:
            dims = np.broadcast_shapes(s1, s2)
        except ValueError:
            raise Prune from None
        norm = env.choose("norm", [None, 1.0, 2.5, 0.0])
        xp = choose_backend(env)
        m, mx = params(env, xp, "mean", s1, 0)
        s, sx = params(env, xp, "sigma", s2, 1)
        got = glass.gaussian_nz(xp.asarray(z), mx, sx, norm=norm)
        env.check(is_backend(got, xp), "array type")
        M, S = np.broadcast_to(m, dims)[..., None], np.broadcast_to(s, dims)[..., None]
        p = np.exp(-0.5 * ((z - M) / S) ** 2)
        want = p / trapz(p, z)[..., None] * (1.0 if norm is None else norm)
        expect_close(env, got, want, "distribution", rtol=1e-10)
        env.check(np.allclose(trapz(to_np(got), z), 1.0 if norm is None else norm), "normalisation")
        env.outcome(np.round(to_np(got), 9).tolist())

    def smail(env):
        z = ZG[env.choose("z", range(len(ZG)))]
        s1, s2, s3 = (env.choose(f"shape of {n}", SH if thorough else SH[:1] + SH[2:3] + SH[4:]) for n in ("mode", "alpha", "beta"))
        try:
            dims = np.broadcast_shapes(s1, s2, s3)
        except ValueError:
            raise Prune from None
        norm = env.choose("norm", [None, 2.5])
        xp = choose_backend(env)
        (m, mx), (a, ax), (b, bx) = (params(env, xp, n, s, i) for n, s, i in (("mode", s1, 0), ("alpha", s2, 2), ("beta", s3, 3)))
        got = glass.smail_nz(xp.asarray(z), mx, ax, bx, norm=norm)
        env.check(is_backend(got, xp), "array type")
        M, A, B = (np.broadcast_to(q, dims)[..., None] for q in (m, a, b))
        z0 = M * (B / A) ** (1 / B)
        p = (z / z0) ** A * np.exp(-((z / z0) ** B))
        want = p / trapz(p, z)[..., None] * (1.0 if norm is None else norm)
        expect_close(env, got, want, "distribution", rtol=1e-10)
        env.outcome(np.round(to_np(got), 9).tolist())

    STEP = 20

    def fixed(env):
        a = env.choose("zmin", [0, 1, 2, 7, 14, 33])
        n = env.choose("span", list(range(1, 81 if thorough else 41)))
        kind = env.choose("kind", ["nbins", "dz", "both", "none"])
        xp = choose_backend(env)
        zmin, zmax = a / STEP, (a + n) / STEP
        if kind in ("both", "none"):
            kw = {"nbins": 2, "dz": 0.1} if kind == "both" else {}
            expect_raises(env, ValueError, lambda: glass.fixed_zbins(zmin, zmax, xp=xp, **kw), "number and size of bins")
            return
        if kind == "nbins":
            k = env.choose("nbins", [1, 2, 3, 5, 10])
            bins = glass.fixed_zbins(zmin, zmax, nbins=k, xp=xp)
            width = (zmax - zmin) / k
        else:
            d = env.choose("dz", [1, 2, 3, 4, 5, 7, 10, 20, 60])
            k = math.ceil(Fraction(n, d))
            width = d / STEP
            bins = glass.fixed_zbins(zmin, zmax, dz=width, xp=xp)
        env.check(len(bins) == k, "number of bins", got=len(bins), want=k, bins=bins)
        e = np.array([[float(x) for x in b] for b in bins])
        env.check((e[1:, 0] == e[:-1, 1]).all(), "bins are not contiguous", bins=e)
        env.check(e[0, 0] == zmin and e[-1, 1] >= zmax - 1e-9 and e[-1, 0] < zmax - 1e-9, "range of bins", bins=e)
        env.check(np.abs(e[:, 1] - e[:, 0] - width).max() < 1e-9, "size of bins", bins=e)
        if kind == "nbins":
            env.check(abs(e[-1, 1] - zmax) < 1e-12, "end of bins")
        env.outcome(np.round(e, 9).tolist())

    GRIDS = [[0.0, 1.0], [0.5, 1.0, 2.0], [0.0, 0.1, 0.7, 1.0], [0.2, 0.3, 0.5, 1.0, 3.0]]

    def equal(env):
        z = np.array(env.choose("grid", GRIDS))
        nz = np.array([env.choose(f"nz{i}", [0.0, 1.0, 3.0] if not thorough else [0.0, 0.2, 1.0, 3.0]) for i in range(len(z))])
        if not nz.any():
            raise Prune
        xp = choose_backend(env)
        c = cdf(z, nz)
        for k in (1, 2, 3, 4, 7, 10):
            bins = glass.equal_dens_zbins(xp.asarray(z), xp.asarray(nz), k)
            env.check(len(bins) == k, "number of bins", got=len(bins), want=k)
            e = np.array([[float(x) for x in b] for b in bins])
            env.check((e[1:, 0] == e[:-1, 1]).all(), "bins are not contiguous", bins=e)
            env.check((e[:, 1] > e[:, 0]).all(), "empty bin", bins=e)
            share = np.interp(e[:, 1], z, c) - np.interp(e[:, 0], z, c)
            env.check(np.abs(share - 1 / k).max() < 1e-9, "share of galaxies", bins=e, share=share)
            env.outcome(np.round(e, 9).tolist())

    def phi(x):
        return 0.5 * (1 + np.vectorize(math.erf)(x / 2**0.5))

    EDGES = [0.0, 0.2, 0.5, 0.9, 1.5, math.inf]

    def tomo(env):
        z = ZG[env.choose("z", range(len(ZG)))]
        kind = env.choose("nz", ["flat", "peak", "sparse", "unit"])
        nz = {"flat": np.ones(len(z)), "peak": np.exp(-((z - 0.8) ** 2)), "sparse": (np.arange(len(z)) % 2) * 2.0,
              "unit": np.eye(1, len(z), len(z) // 2)[0]}[kind]
        s0 = env.choose("sigma", [0.01, 0.05, 0.3, 2.0])
        xp = choose_backend(env)
        edges = [env.choose("edge", EDGES)]
        for i in range(3):
            later = [x for x in EDGES if x > edges[-1]]
            x = env.choose("next edge", [*later, None])
            if x is None:
                break
            edges.append(x)
        if len(edges) < 2:
            raise Prune
        f = lambda bins: to_np(glass.tomo_nz_gausserr(xp.asarray(z), xp.asarray(nz), s0, bins))
        bins = list(zip(edges[:-1], edges[1:]))
        raw = glass.tomo_nz_gausserr(xp.asarray(z), xp.asarray(nz), s0, bins)
        env.check(is_backend(raw, xp), "array type")
        got = to_np(raw)
        env.check(got.shape == (len(bins), len(z)), "shape", got=got.shape)
        s = s0 * (1 + z)
        # probability of photometric redshift in bin given that it is positive
        want = [nz * (phi((b - z) / s) - phi((a - z) / s)) / phi(z / s) for a, b in bins]
        expect_close(env, got, want, "tomographic distributions", rtol=1e-9, atol=1e-13)
        expect_close(env, got.sum(0), f([(edges[0], edges[-1])])[0], "contiguous bins do not add up", atol=1e-12)
        if edges[0] == 0 and edges[-1] == math.inf:
            expect_close(env, got.sum(0), nz, "complete bins do not add up to the distribution", atol=1e-12)
        for j, b in enumerate(bins):
            expect_close(env, f([b])[0], got[j], "bin depends on other bins", atol=1e-14)
        env.check((got >= -1e-14).all(), "negative distribution")
        if len(bins) > 1:
            expect_close(env, f(bins[::-1]), got[::-1], "order of bins", atol=1e-14)
        env.outcome(np.round(got, 9).tolist())

    return [
        Space("gaussian", gaussian, "all shapes of mean and standard deviation, 4 grids, 4 normalisations", 3),
        Space("smail", smail, "all shapes of the parameters, 4 grids", 3),
        Space("fixed", fixed, "6 starts, 40 (thorough: 80) spans, 9 sizes and 5 numbers of bins", 2),
        Space("equal", equal, "all distributions over 3 (thorough: 4) values on 4 grids, 6 numbers of bins", 3),
        Space("tomo", tomo, "all sequences of up to three contiguous bins over 6 edges", 3),
    ]
