"""C15: observed galaxy shears."""

import healpy
import numpy as np

import glass
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, is_backend

TECHNIQUE = "exhaustive enumeration of small catalogues over all pixels and values, and of catalogue sizes around multiples of the batch size"
NOTE = (
    "All catalogues of up to three galaxies over an alphabet of pixels and ellipticities, all pixels of nside 1 to 8 with "
    "all pairs of lensing and ellipticity values, and all sizes next to multiples of the batch size of 10 000 up to three "
    "batches (thorough: five). The pixel lookup is that of healpy, an independent library."
)

EPS = [0.0, 0.3, -0.5 + 0.2j, 0.9j, 1.0, -1.0j]
KAPPA = [0.0, 0.1, -0.2, 0.5, 1.5, -3.0]
GAMMA = [0.0, 0.02 + 0.01j, -0.1j, 0.3 - 0.2j]


def reference(nside, lon, lat, eps, kappa, gamma, reduced):
    ipix = healpy.ang2pix(nside, lon, lat, lonlat=True)
    k, g = kappa[ipix], gamma[ipix]
    if not reduced:
        return eps + g
    g = g / (1 - k)
    return (eps + g) / (1 + np.conj(g) * eps)


def maps(nside, i=0):
    """Lensing maps with distinct values in each pixel."""
    n = np.arange(12 * nside**2)
    kappa = 0.1 * np.cos(1 + 2.3 * n + i)
    gamma = 0.1 * (np.cos(2 + 0.9 * n + i) + 1j * np.sin(0.3 + 1.7 * n - i))
    return kappa, gamma


def spaces(tier):
    thorough = tier != "quick"

    def call(env, xp, lon, lat, eps, kappa, gamma, reduced, default=False):
        a = [xp.asarray(x) for x in (lon, lat)]
        e = eps if isinstance(eps, (int, float, complex)) else xp.asarray(eps)
        m = [xp.asarray(x) for x in (kappa, gamma.real, gamma.imag)]
        kw = {} if default else {"reduced_shear": reduced}
        got = glass.galaxy_shear(*a, e, *m, **kw)
        env.check(is_backend(got, xp), "array type")
        return got

    def pixels(env):
        nside = env.choose("nside", [1, 2, 4, 8])
        du, dv = env.choose("offset", [(0, 0), (0.3, 0.1), (-0.2, 0.4)])
        k0 = env.choose("kappa", KAPPA)
        g0 = env.choose("gamma", GAMMA)
        xp = choose_backend(env)
        reduced = env.choose("reduced", [True, False])
        lon, lat = healpy.pix2ang(nside, np.arange(12 * nside**2), lonlat=True)
        lon = lon + du * 20 / nside
        lat = np.clip(lat + dv * 20 / nside, -90, 90)
        kappa, gamma = maps(nside)
        kappa, gamma = kappa + k0, gamma + g0
        for e in EPS:
            eps = np.full(len(lon), e, dtype=complex)
            got = call(env, xp, lon, lat, eps, kappa, gamma, reduced)
            want = reference(nside, lon, lat, eps, kappa, gamma, reduced)
            expect_close(env, got, want, "shear", rtol=1e-12, atol=1e-14)
            if reduced:
                got = to_np(got)
                expect_close(env, call(env, xp, lon, lat, eps, kappa, gamma, None, True), want, "default", rtol=1e-12)
                w = np.abs(gamma) < np.abs(1 - kappa)
                w = w[healpy.ang2pix(nside, lon, lat, lonlat=True)]
                env.check((np.abs(got[w]) <= 1 + 1e-12).all(), "ellipticity outside of unit disc")
                if abs(e) == 1:
                    env.check(np.allclose(np.abs(got[w]), 1), "modulus of unit ellipticity")
        env.outcome(np.round(to_np(got), 9).tolist())

    POS = [(0.0, 90.0), (45.0, 0.0), (-130.0, -50.0), (359.999, 10.0)] + ([(-180.0, -90.0), (180.0, 1.0)] if thorough else [])

    def catalogues(env):
        nside = env.choose("nside", [1, 4])
        n = env.choose("galaxies", [1, 2, 3])
        reduced = env.choose("reduced", [True, False])
        lon, lat, eps = np.zeros(n), np.zeros(n), np.zeros(n, dtype=complex)
        for i in range(n):
            lon[i], lat[i] = env.choose(f"position{i}", POS)
            eps[i] = env.choose(f"ellipticity{i}", [0.0, 0.3 - 0.4j, 0.8j])
        xp = choose_backend(env) if n < 3 else np
        kappa, gamma = maps(nside)
        got = call(env, xp, lon, lat, eps, kappa, gamma, reduced)
        want = reference(nside, lon, lat, eps, kappa, gamma, reduced)
        expect_close(env, got, want, "shear", rtol=1e-12, atol=1e-14)
        # every galaxy as if it was alone
        for i in range(n):
            one = call(env, np, lon[i : i + 1], lat[i : i + 1], eps[i : i + 1], kappa, gamma, reduced)
            env.check(np.abs(one[0] - to_np(got)[i]) < 1e-13, "depends on other galaxies")
        env.outcome(np.round(to_np(got), 9).tolist())

    B = 10_000

    def sizes(env):
        near = sorted({k * B + d for k in range(0, 6 if thorough else 4) for d in (-2, -1, 0, 1, 2)} | {4096, 5000, 8192, 12345, 16384, 17777})
        n = env.choose("size", [m for m in near if m >= 0])
        nside = env.choose("nside", [1, 16])
        kind = env.choose("ellipticity", ["array", "scalar", "one"])
        reduced = env.choose("reduced", [True, False])
        xp = choose_backend(env)
        if kind == "scalar" and xp is BACKENDS["strict"]:
            raise Prune
        i = np.arange(n)
        lon = (i * 137.508) % 360 - 180
        lat = np.degrees(np.arcsin(((i * 0.7548776662) % 1) * 2 - 1))
        eps = 0.5 * np.cos(i * 0.1) + 0.3j * np.sin(i * 0.37)
        if kind == "scalar":
            eps = 0.2 - 0.1j
        if kind == "one":
            eps = eps[:1]
            if n == 0:
                raise Prune
        kappa, gamma = maps(nside, 1)
        got = call(env, xp, lon, lat, eps, kappa, gamma, reduced)
        want = reference(nside, lon, lat, np.broadcast_to(eps, n), kappa, gamma, reduced)
        expect_close(env, got, want, "shear", rtol=1e-12, atol=1e-14)
        env.outcome((n, complex(np.sum(want))))

    return [
        Space("pixels", pixels, "all pixels of nside 1, 2, 4, 8, three offsets, 6 x 4 lensing values, 6 ellipticities, 3 backends", 3),
        Space("catalogues", catalogues, "all catalogues of up to three galaxies", 4),
        Space("sizes", sizes, "all sizes within 2 of multiples of the batch size", 2),
    ]
