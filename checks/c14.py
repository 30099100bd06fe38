"""C14: lensing fields from convergence."""

import os
import warnings

import healpy
import numpy as np

import glass
from mc.engine import Space
from mc.hpdata import window
from mc.setup_env import to_np
from mc.util import choose_backend, expect_close, is_backend, product

TECHNIQUE = "exhaustive enumeration of a basis of all maps (pixels and harmonic modes) and all combinations of outputs against the harmonic kernels"
NOTE = (
    "The maps are linear in the input, so that all unit pixels of nside 1 and 2 (thorough: 4), and all unit modes of "
    "nside 8, decide the whole linear map; linearity itself is checked for combinations of two basis elements. "
    "Pixel windows and weights are synthetic because HEALPix data cannot be downloaded here. The harmonic transforms "
    "of healpy are trusted, except for the sign and order of the deflection, which is compared with the gradient."
)

COMBOS = product([False, True], [False, True], [False, True])


def ells(lmax):
    return np.concatenate([np.arange(m, lmax + 1) for m in range(lmax + 1)])


def reference(kappa, nside, lmax, disc):
    """The three fields by their harmonic kernels."""
    lmax = 3 * nside - 1 if lmax is None else lmax
    alm = healpy.map2alm(kappa, lmax=lmax, pol=False, use_pixel_weights=True, datapath=os.environ["HEALPY_DATAPATH"])
    l = ells(lmax).astype(float)
    psi = np.where(l > 0, -2 * alm / np.where(l > 0, l * (l + 1), 1), 0)
    a = np.sqrt(l * (l + 1)) * psi
    g = 0.5 * np.sqrt(np.clip((l + 2) * (l + 1) * l * (l - 1), 0, None)) * psi
    if disc:
        pw, pp = window(nside)
        g = g * (pp / pw)[l.astype(int)]
    z = np.zeros_like(psi)
    out = [healpy.alm2map(psi, nside, lmax=lmax)]
    for x, s in ((a, 1), (g, 2)):
        re, im = healpy.alm2map_spin([x, z], nside, s, lmax)
        out.append(re + 1j * im)
    return out


def unit(env, nside, lin):
    kind = env.choose("l", list(range(lin + 1)))
    m = env.choose("m", list(range(kind + 1)))
    c = env.choose("part", [1.0, 1j] if m else [1.0])
    alm = np.zeros((lin + 1) * (lin + 2) // 2, dtype=complex)
    alm[healpy.Alm.getidx(lin, kind, m)] = c
    return healpy.alm2map(alm, nside, lmax=lin)


def compare(env, kappa, nside, lmax, xp, combos=COMBOS, discs=(False, True)):
    for disc in discs:
        want = reference(kappa, nside, lmax, disc)
        for combo in combos:
            p, d, s = combo
            k = xp.asarray(kappa)
            kw = {} if lmax is None else {"lmax": lmax}
            got = glass.from_convergence(k, potential=p, deflection=d, shear=s, discretized=disc, **kw)
            env.check(isinstance(got, tuple) and len(got) == sum(combo), "number of fields", combo=combo, got=len(got))
            for g, w, name in zip(got, [w for w, c in zip(want, combo) if c], [n for n, c in zip("pag", combo) if c]):
                env.check(is_backend(g, xp), "array type")
                env.check(np.iscomplexobj(to_np(g)) == (name != "p"), "type of field", name=name)
                expect_close(env, g, w, f"field {name} of {combo}", rtol=1e-8, atol=1e-9, discretized=disc)
            env.check((to_np(k) == kappa).all(), "input modified")
            if disc and combo == (True, True, True):
                # discretisation is the default
                got = glass.from_convergence(k, potential=p, deflection=d, shear=s, **kw)
                for g, w in zip(got, want):
                    expect_close(env, g, w, "default", rtol=1e-8, atol=1e-9)
        env.outcome(np.round(want[2], 6).tolist())


def spaces(tier):
    thorough = tier != "quick"

    def pixels(env):
        nside = env.choose("nside", [1, 2, 4] if thorough else [1, 2])
        ipix = env.choose("pixel", list(range(12 * nside**2)))
        lmax = env.choose("lmax", [None, 2, 3 * nside - 1, 2 * nside, nside + 1, 4 * nside - 1])
        xp = choose_backend(env, ("numpy", "strict", "jax")) if nside < 4 and lmax in (None, 2) else np
        k = np.zeros(12 * nside**2)
        k[ipix] = 1.0
        compare(env, k, nside, lmax, xp)

    def modes(env):
        nside = env.choose("nside", [4, 8, 16] if thorough else [4, 8])
        kappa = unit(env, nside, min(2 * nside, 12 if thorough else 9))
        lmax = env.choose("lmax", [None, 3, nside, 2 * nside])
        xp = choose_backend(env, ("numpy", "jax")) if lmax == 3 and nside == 4 else np
        compare(env, kappa, nside, lmax, xp, [(True, True, True), (False, True, False), (True, False, True)])

    def kernels(env):
        """Independent of the analysis: a resolved mode has known modes."""
        nside = 16
        kappa = unit(env, nside, 8 if thorough else 5)
        xp = choose_backend(env, ("numpy", "strict", "jax"))
        alm = healpy.map2alm(kappa, lmax=16, iter=10)
        psi, alpha, gamma = map(to_np, glass.from_convergence(
            xp.asarray(kappa), 16, potential=True, deflection=True, shear=True, discretized=False))
        l = ells(16)
        tol = 2e-2 * np.abs(alm).max() + 1e-6  # quadrature without iterations
        # Poisson equation, without monopole
        pal = healpy.map2alm(psi, lmax=16, iter=10)
        env.check(np.allclose(-l * (l + 1) * pal / 2, np.where(l > 0, alm, 0), atol=tol), "Poisson equation")
        # deflection is minus the gradient in the direction south, east
        m, dt, dp = healpy.alm2map_der1(pal, nside)
        env.check(np.allclose(alpha, -(dt + 1j * dp), atol=1e-6) or np.allclose(alpha, dt + 1j * dp, atol=1e-6),
                  "deflection is not a gradient of the potential")
        sgn = -1 if np.allclose(alpha, -(dt + 1j * dp), atol=1e-6) else 1
        env.outcome(sgn if abs(alpha).max() > 1e-3 else 0)
        # shear has pure E-modes with the power of the convergence
        e, b = healpy.map2alm_spin([gamma.real, gamma.imag], 2, 16)
        l2 = np.where(l > 1, l, 2)
        f = -np.sqrt((l2 + 2) * (l2 - 1) / (l2 * (l2 + 1)))
        env.check(np.allclose(e, np.where(l > 1, f * alm, 0), atol=tol), "E-modes of shear")
        env.check(np.abs(b).max() <= tol, "B-modes of shear")
        # truncation removes exactly the higher modes
        for lmax in (2, 3, 5):
            t = to_np(glass.from_convergence(xp.asarray(kappa), lmax, potential=True)[0])
            tal = healpy.map2alm(t, lmax=16, iter=10)
            env.check(np.abs(tal[l > lmax]).max() < 1e-6, "modes beyond the truncation")
            env.check(np.allclose(tal[l <= lmax], pal[l <= lmax], atol=1e-6), "modes within the truncation")

    def direction(env):
        """Points are deflected towards regions of positive convergence."""
        nside = 16
        lat = env.choose("latitude", [-60.0, -20.0, 0.0, 35.0, 70.0])
        lon = env.choose("longitude", [0.0, 75.0, 180.0, 300.0])
        ang = env.choose("direction", [k * np.pi / 6 for k in range(12)])
        # overdensity a little in the given direction from the point
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            olon, olat = glass.displace(np.asarray(lon), np.asarray(lat), np.asarray(0.6 * np.exp(1j * ang)))
        x = np.array(healpy.pix2vec(nside, np.arange(12 * nside**2))).T
        o = healpy.ang2vec(float(olon), float(olat), lonlat=True)
        kappa = np.exp((x @ o - 1) / 0.02)
        (alpha,) = glass.from_convergence(kappa - kappa.mean(), deflection=True, discretized=False)
        p = healpy.ang2pix(nside, lon, lat, lonlat=True)
        a = complex(to_np(alpha)[p])
        plon, plat = healpy.pix2ang(nside, p, lonlat=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nlon, nlat = glass.deflect(np.asarray(plon), np.asarray(plat), np.asarray(a))
        n = healpy.ang2vec(float(nlon), float(nlat), lonlat=True)
        env.outcome((round(a.real, 6), round(a.imag, 6)))
        env.check(n @ o > x[p] @ o, "deflected away from overdensity", lon=plon, lat=plat, alpha=a)

    def linear(env):
        nside = env.choose("nside", [1, 2])
        i = env.choose("first", list(range(0, 12 * nside**2, 1 if nside == 1 else 5)))
        j = env.choose("second", list(range(0, 12 * nside**2, 1 if nside == 1 else 7)))
        a, b = env.choose("coefficients", [(1.0, 1.0), (2.0, -3.0), (1e-3, 1e3)])
        u, v = np.zeros(12 * nside**2), np.zeros(12 * nside**2)
        u[i] += 1
        v[j] += 1
        f = lambda k: [to_np(x) for x in glass.from_convergence(k, potential=True, deflection=True, shear=True)]
        for x, y, z in zip(f(u), f(v), f(a * u + b * v)):
            expect_close(env, z, a * x + b * y, "linearity", rtol=1e-9, atol=1e-9 * (abs(a) + abs(b)))

    def deprecated(env):
        nside = env.choose("nside", [1, 2, 4])
        lin = 2 * nside
        if env.choose("basis", ["pixel", "mode"]) == "pixel":
            k = np.zeros(12 * nside**2)
            k[env.choose("pixel", list(range(12 * nside**2)))] = 1
        else:
            k = unit(env, nside, lin)
        lmax = env.choose("lmax", [None, 2, nside + 1, 3 * nside - 1])
        for disc in (False, True):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = glass.shear_from_convergence(k, lmax, discretized=disc)
            want = reference(k, nside, lmax, disc)[2]
            env.check(len(g) == 2, "components of shear")
            expect_close(env, np.asarray(g[0]) + 1j * np.asarray(g[1]), want, "shear", rtol=1e-8, atol=1e-9)

    return [
        Space("pixels", pixels, "all unit pixels of nside 1, 2 (thorough: 4), 6 truncations, 8 combinations, 3 backends", 2),
        Space("modes", modes, "all unit modes up to l=9 (thorough: 12) of nside 4, 8 (thorough: 16), 4 truncations", 3),
        Space("kernels", kernels, "all unit modes up to l=5 (thorough: 8) of nside 16", 3),
        Space("linear", linear, "pairs of pixels and coefficients", 2),
        Space("deprecated", deprecated, "all unit pixels and modes of nside 1, 2, 4", 3),
        Space("direction", direction, "240 positions and directions of an overdensity", 2),
    ]
