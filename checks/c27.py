"""C27: HEALPix wrappers and products of modes."""

import itertools
import os

import healpix
import healpy
import numpy as np
from scipy.special import sph_harm_y

import glass.harmonics
import glass.healpix as hp
import glass.jax
import glass.rng
from mc.engine import Prune, Space
from mc.hpdata import window
from mc.rng import ScriptRNG, SeqSource, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, is_backend

TECHNIQUE = "exhaustive enumeration of unit modes, pixels, positions within pixels and optional arguments, compared with the wrapped library and with analytic definitions"
NOTE = (
    "All unit modes up to l = 4 (thorough: 7) for scalar and spin maps, all pixels for resolutions 1, 2, 4 with a grid of positions within each pixel, "
    "all combinations of optional arguments, three array backends. Pixel windows and weights are synthetic, as the data files are not available."
)


def size(lmax):
    return (lmax + 1) * (lmax + 2) // 2


def modes(lmax):
    """HEALPix order of modes."""
    return [(l, m) for m in range(lmax + 1) for l in range(m, lmax + 1)]


def ylm(l, m, nside):
    th, ph = healpy.pix2ang(nside, np.arange(12 * nside**2))
    return sph_harm_y(l, m, th, ph)


def spaces(tier):
    thorough = tier != "quick"
    L = 7 if thorough else 4

    def alm2map(env):
        lmax = env.choose("lmax", range(L + 1))
        xp = choose_backend(env)
        mode = env.choose("mode", modes(lmax))
        val = env.choose("value", [1.0, 1j])
        nside = env.choose("nside", [1, 4])
        form = env.choose("form", ["scalar", "cut", "given", "three", "three unpolarised", "inplace"])
        l, m = mode
        if m == 0 and val == 1j:
            raise Prune
        alm = np.zeros(size(lmax), complex)
        alm[modes(lmax).index(mode)] = val
        want = (val * ylm(l, m, nside)).real * (1 if m == 0 else 2)
        keep = alm.copy()
        arg = xp.asarray(alm)
        if form == "scalar":
            got = hp.alm2map(arg, nside)
        elif form == "inplace":
            got = hp.alm2map(arg, nside, inplace=True)
        elif form == "given":
            got = hp.alm2map(arg, nside, lmax=lmax)
        elif form == "cut":
            # modes beyond lmax of a larger array
            got = hp.alm2map(arg, nside, lmax=lmax)
            big = np.zeros(size(lmax + 1), complex)
            big[modes(lmax + 1).index(mode)] = val
            expect_close(env, hp.alm2map(xp.asarray(big), nside), want, "same mode with larger lmax", rtol=1e-9, atol=1e-10)
        elif form == "three":
            if l < 2:
                raise Prune
            z = xp.asarray(np.zeros_like(alm))
            got = hp.alm2map([z, arg, z], nside, pol=True)
            ref = healpy.alm2map([np.zeros_like(alm), alm, np.zeros_like(alm)], nside, pol=True)
            got = to_np(got) if hasattr(got, "shape") else np.array([to_np(g) for g in got])
            expect_close(env, got, np.array(ref), "polarised maps", atol=1e-12)
            env.check(np.abs(got[0]).max() == 0, "temperature is not zero")
            return
        elif form == "three unpolarised":
            z = xp.asarray(np.zeros_like(alm))
            got = hp.alm2map([z, arg, z], nside, pol=False)
            got = to_np(got) if hasattr(got, "shape") else got
            env.check(len(got) == 3 and np.abs(to_np(got[0])).max() == 0 and np.abs(to_np(got[2])).max() == 0, "independent maps")
            got = xp.asarray(got[1])
        env.check(is_backend(got, xp), "array type", got=type(got))
        expect_close(env, got, want, "map of a mode", rtol=1e-9, atol=1e-10)
        env.check(np.array_equal(to_np(arg), keep), "alm was modified")

    def spin(env):
        lmax = env.choose("lmax", range(1, L + 1))
        s = env.choose("spin", [x for x in (1, 2, 3) if x <= lmax])
        xp = choose_backend(env)
        mode = env.choose("mode", modes(lmax))
        part = env.choose("component", [0, 1])
        val = env.choose("value", [1.0, 1j])
        nside = env.choose("nside", [1, 4])
        alms = [np.zeros(size(lmax), complex) for _ in range(2)]
        alms[part][modes(lmax).index(mode)] = val
        ref = healpy.alm2map_spin([a.copy() for a in alms], nside, s, lmax)
        args = [xp.asarray(a) for a in alms]
        got = hp.alm2map_spin(args, nside, s, lmax)
        env.check(len(got) == 2 and all(is_backend(g, xp) for g in got), "array type")
        for g, r in zip(got, ref):
            expect_close(env, g, r, "spin map", rtol=1e-12, atol=1e-13)
        env.check(all(np.array_equal(to_np(a), b) for a, b in zip(args, alms)), "alms were modified")
        if mode[0] < s:
            env.check(all(np.abs(to_np(g)).max() < 1e-12 for g in got), "mode below spin")

    def map2alm(env):
        nside = env.choose("nside", [1, 2] + ([4] if thorough else []))
        xp = choose_backend(env)
        pix = env.choose("pixel", range(12 * nside**2))
        lmax = env.choose("lmax", [None, 0, 1, 2])
        weights = env.choose("pixel weights", [False, True])
        form = env.choose("maps", ["one", "three", "three unpolarised"])
        if form != "one" and (lmax == 0 or lmax == 1):
            raise Prune
        m = np.zeros(12 * nside**2)
        m[pix] = 1.0
        dp = os.environ["HEALPY_DATAPATH"]
        if form == "one":
            arg = xp.asarray(m)
            got = hp.map2alm(arg, lmax=lmax, use_pixel_weights=weights)
            ref = healpy.map2alm(m.copy(), lmax=lmax, use_pixel_weights=weights, datapath=dp)
            env.check(is_backend(got, xp), "array type")
            env.check(np.array_equal(to_np(arg), m), "map was modified")
        else:
            pol = form == "three"
            maps = [m, 2 * m[::-1], 3 * np.roll(m, 1)]
            got = hp.map2alm([xp.asarray(x) for x in maps], lmax=lmax, pol=pol, use_pixel_weights=weights)
            got = np.array([to_np(g) for g in got]) if not hasattr(got, "shape") else to_np(got)
            ref = np.array(healpy.map2alm([x.copy() for x in maps], lmax=lmax, pol=pol, use_pixel_weights=weights, datapath=dp))
        expect_close(env, got, ref, "modes of a map", rtol=1e-12, atol=1e-14)

    def transforms(env):
        """The synthesis is inverted by the analysis."""
        nside = env.choose("nside", [4, 8])
        mode = env.choose("mode", modes(3))
        val = env.choose("value", [1.0, 1j])
        xp = choose_backend(env)
        if mode[1] == 0 and val == 1j:
            raise Prune
        alm = np.zeros(size(3), complex)
        alm[modes(3).index(mode)] = val
        back = hp.map2alm(hp.alm2map(xp.asarray(alm), nside), lmax=3)
        expect_close(env, back, alm, "round trip", atol=2e-4)

    def almxfl(env):
        lmax = env.choose("lmax", range(5))
        n = env.choose("length of function", range(0, 7))
        inplace = env.choose("inplace", [False, True])
        xp = choose_backend(env)
        if n == 0:
            raise Prune
        alm = (np.arange(size(lmax)) + 1.0) * (1 + 0.5j)
        fl = np.arange(n) * 2.0 - 3
        ref = np.array([a * (fl[l] if l < n else 0) for (l, _), a in zip(modes(lmax), alm)])
        a, f = xp.asarray(alm.copy()), xp.asarray(fl.copy())
        if inplace and xp is not np:
            raise Prune
        got = hp.almxfl(a, f, inplace=inplace)
        env.check(is_backend(got, xp), "array type")
        expect_close(env, got, ref, "product", rtol=1e-14, atol=1e-14)
        env.check(np.array_equal(to_np(f), fl), "function was modified")
        if inplace:
            expect_close(env, a, ref, "array in place", rtol=1e-14, atol=1e-14)
        else:
            env.check(np.array_equal(to_np(a), alm), "alm was modified")

    def multalm(env):
        lmax = env.choose("lmax", range(6))
        unit = env.choose("degree", range(lmax + 1))
        xp = choose_backend(env)
        dt = env.choose("type", ["complex", "float"])
        ro = env.choose("readonly", [False, True] if xp is np else [False])
        alm = (np.arange(size(lmax)) + 1.0) * ((1 - 2j) if dt == "complex" else 1)
        bl = np.where(np.arange(lmax + 1) == unit, 2.5, -0.5)
        want = np.array([a * bl[l] for a, l in zip(alm, [l for l in range(lmax + 1) for m in range(l + 1)])])
        if dt == "float" and False:
            raise Prune
        a, b = xp.asarray(alm.copy()), xp.asarray(bl.copy() if dt == "float" or xp is not BACKENDS["strict"] else bl.astype(complex))
        if ro:
            a.flags.writeable = b.flags.writeable = False
        got = glass.harmonics.multalm(a, b)
        env.check(is_backend(got, xp), "array type")
        expect_close(env, got, want, "product of modes", rtol=1e-14)
        env.check(np.array_equal(to_np(a), alm) and np.array_equal(to_np(b), bl), "inputs were modified")

    def angles(env):
        nside = env.choose("nside", [1, 2, 4, 3])
        lonlat = env.choose("lonlat", [False, True])
        xp = choose_backend(env)
        form = env.choose("form", ["array", "2d", "scalar"])
        i = env.choose("block", range(8))
        th = np.linspace(0.0, np.pi, 17)
        ph = np.linspace(-np.pi, 2 * np.pi, 25)
        t, p = (x.reshape(-1) for x in np.meshgrid(th, ph, indexing="ij"))
        sel = slice(i, None, 8)
        t, p = t[sel] + 0.013 * (t[sel] < 3), p[sel] + 0.007
        x, y = (np.degrees(p), 90 - np.degrees(t)) if lonlat else (t, p)
        if form == "scalar":
            k = env.choose("point", range(0, len(t), 9))
            t, p, x, y = t[k], p[k], x[k], y[k]
            a, b = float(x), float(y)
        else:
            if form == "2d":
                t, p, x, y = (v[: len(v) // 2 * 2].reshape(2, -1) for v in (t, p, x, y))
            a, b = xp.asarray(x), xp.asarray(y)
        kw = {"lonlat": True} if lonlat else {}
        pix = hp.ang2pix(nside, a, b, **kw)
        vec = hp.ang2vec(a, b, **kw)
        env.check(len(vec) == 3, "components")
        if form != "scalar":
            env.check(is_backend(pix, xp) and all(is_backend(v, xp) for v in vec), "array type")
        want = np.stack([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
        expect_close(env, np.stack([to_np(v) for v in vec]), want, "vector", atol=1e-12)
        pix = to_np(pix)
        ref = healpy.ang2pix(nside, x, y, lonlat=lonlat) if nside != 3 else healpix.ang2pix(nside, x, y, lonlat=lonlat)
        env.check(np.array_equal(pix, ref), "pixel", got=pix, want=ref)
        env.check(np.shape(pix) == np.shape(t) and ((pix >= 0) & (pix < 12 * nside**2)).all(), "pixel")
        env.outcome(np.asarray(pix).tolist())

    def sizes(env):
        nside = env.choose("nside", [1, 2, 3, 4, 5, 7, 8, 16, 100, 1024, 8192])
        xp = choose_backend(env)
        env.check(hp.nside2npix(nside) == 12 * nside**2 and type(hp.nside2npix(nside)) is int, "number of pixels")
        env.check(hp.npix2nside(12 * nside**2) == nside and type(hp.npix2nside(12 * nside**2)) is int, "nside")
        if nside in (1, 2, 4, 8, 16):
            env.check(hp.get_nside(xp.asarray(np.zeros(12 * nside**2))) == nside, "nside of map")

    def pixwin(env):
        nside = env.choose("nside", [1, 2, 4, 8, 16])
        lmax = env.choose("lmax", [None, 0, 1, 2, 3, 4])
        pol = env.choose("pol", [False, True])
        xp = choose_backend(env)
        give = env.choose("xp", [True, False] if xp is np else [True])
        got = hp.pixwin(nside, lmax=lmax, pol=pol, **({"xp": xp} if give else {}))
        pw, pp = window(nside)
        n = (3 * nside - 1 if lmax is None else lmax) + 1
        if pol:
            env.check(isinstance(got, tuple) and len(got) == 2, "two windows")
            env.check(all(is_backend(g, xp) for g in got), "array type")
            expect_close(env, got[0], pw[:n], "temperature window", rtol=1e-7)
            expect_close(env, got[1], pp[:n], "polarisation window", rtol=1e-7)
        else:
            env.check(is_backend(got, xp), "array type")
            expect_close(env, got, pw[:n], "pixel window", rtol=1e-7)

    def strip(env):
        nside = env.choose("nside", [1, 2, 4, 8])
        ths = [0.0, 0.3, 0.7, 1.2, np.pi / 2, 1.9, 2.6, np.pi]
        a = env.choose("from", ths)
        b = env.choose("to", [t for t in ths if t > a])
        xp = choose_backend(env)
        dt = env.choose("dtype", [None, "float64", "bool", "int64"])
        kw = {} if dt is None else {"dtype": getattr(xp, dt)}
        got = hp.query_strip(nside, (a, b), xp=xp, **kw)
        env.check(is_backend(got, xp), "array type")
        got = to_np(got)
        env.check(got.dtype == np.dtype(dt or "int64"), "type", got=got.dtype)
        th, _ = healpy.pix2ang(nside, np.arange(12 * nside**2))
        edge = (np.abs(th - a) < 1e-9) | (np.abs(th - b) < 1e-9)
        want = (th >= a) & (th <= b)
        env.check(got.shape == th.shape and np.array_equal(got.astype(bool)[~edge], want[~edge]), "pixels of strip", got=got, want=want)
        env.check(set(np.unique(got.astype(float))) <= {0.0, 1.0}, "values of mask")
        env.outcome(got.astype(int).tolist())

    def randang(env):
        """Positions for a grid of random numbers within all pixels."""
        nside = env.choose("nside", [1, 2, 4, 3])
        lonlat = env.choose("lonlat", [False, True])
        kind = env.choose("pixels", ["numpy", "strict", "readonly", "int32", "repeated", "empty", "2d"])
        k = 4
        n = 12 * nside**2
        xp = BACKENDS["strict"] if kind == "strict" else np
        base = np.arange(n)
        ipix = np.repeat(base, k * k) if kind not in ("empty", "repeated") else np.zeros(0, int) if kind == "empty" else np.repeat(base[::-1], k * k)
        g = (np.arange(k) + 0.5) / k
        uu, vv = (np.tile(x.reshape(-1), len(ipix) // (k * k)) for x in np.meshgrid(g, g, indexing="ij"))
        if kind == "2d":
            ipix = ipix.reshape(n, -1)
        vals = itertools.chain(uu.tolist(), vv.tolist())
        arr = np.asarray(ipix, dtype=np.int32 if kind == "int32" else np.int64)
        if kind == "readonly":
            arr = arr.copy()
            arr.flags.writeable = False
        arg = xp.asarray(arr)
        rng = ScriptRNG(unit=lambda size: np.array([next(vals) for _ in range(int(np.prod(size)))]).reshape(size) if size is not None else next(vals))
        th, ph = hp.randang(nside, arg, lonlat=lonlat, rng=rng)
        env.check(is_backend(th, xp) and is_backend(ph, xp), "array type")
        th, ph = to_np(th), to_np(ph)
        env.check(th.shape == ipix.shape == ph.shape, "shape", got=th.shape, want=ipix.shape)
        env.check(np.array_equal(to_np(arg), ipix), "pixels were modified")
        env.check(np.array_equal(healpix.ang2pix(nside, th, ph, lonlat=lonlat), ipix), "position outside of pixel")
        if ipix.size:
            sub = healpix.ang2pix(nside * k, th, ph, lonlat=lonlat)
            c = np.bincount(sub.reshape(-1), minlength=12 * (nside * k) ** 2)
            env.check((c == 1).all(), "positions are not uniform within pixels", got=c)

    def generators(env):
        """All kinds of generators."""
        nside = env.choose("nside", [1, 2, 4])
        kind = env.choose("generator", ["default", "numpy", "jax", "wrapped"])
        xp = choose_backend(env)
        lonlat = env.choose("lonlat", [False, True])
        seed = env.choose("seed", [1, 2])
        ipix = np.tile(np.arange(12 * nside**2), 2)

        def make():
            return {"default": lambda: None, "numpy": lambda: np.random.default_rng(seed), "jax": lambda: glass.jax.Generator(seed),
                    "wrapped": lambda: glass.rng.Generator(xp=BACKENDS["strict"], seed=seed)}[kind]()

        rng = make()
        a = hp.randang(nside, xp.asarray(ipix), lonlat=lonlat, rng=rng)
        env.check(all(is_backend(x, xp) for x in a), "array type")
        th, ph = map(to_np, a)
        env.check(np.array_equal(healpix.ang2pix(nside, th, ph, lonlat=lonlat), ipix), "position outside of pixel")
        n = len(ipix) // 2
        env.check((th[:n] != th[n:]).any(), "same position within a pixel")
        b = hp.randang(nside, xp.asarray(ipix), lonlat=lonlat, rng=make())
        env.check(np.array_equal(th, to_np(b[0])) and np.array_equal(ph, to_np(b[1])), "same seed, other positions")
        if rng is not None:
            c = hp.randang(nside, xp.asarray(ipix), lonlat=lonlat, rng=rng)
            env.check((th != to_np(c[0])).any(), "generator did not advance")

    def rotate(env):
        nside = env.choose("nside", [1, 2, 4])
        coord = env.choose("coordinates", ["GC", "CE", "CG", "EC", "GE", ("G", "E"), ["C", "G"], "GG"])
        pix = env.choose("pixel", range(0, 12 * nside**2, 1 if nside < 4 or thorough else 5))
        xp = choose_backend(env)
        m = np.zeros(12 * nside**2)
        m[pix] = 1.0
        arg = xp.asarray(m)
        got = hp.Rotator(coord=coord).rotate_map_pixel(arg)
        env.check(is_backend(got, xp), "array type")
        expect_close(env, got, healpy.Rotator(coord=coord).rotate_map_pixel(m.copy()), "rotated map", atol=1e-14)
        env.check(np.array_equal(to_np(arg), m), "map was modified")

    OPTIONS = {
        "alm2map": {"lmax": (None, 2), "pixwin": (False, True), "pol": (True, False), "inplace": (False, True)},
        "map2alm": {"lmax": (None, 3), "pol": (True, False), "use_pixel_weights": (False, True)},
        "almxfl": {"inplace": (False, True)},
        "ang2pix": {"lonlat": (False, True)},
        "ang2vec": {"lonlat": (False, True)},
        "pixwin": {"lmax": (None, 3), "pol": (False, True)},
        "strip": {"dtype": (None, "float64")},
        "randang": {"lonlat": (False, True), "rng": (None, "given")},
        "rotator": {"coord": (None, "GC")},
    }

    def defaults(env):
        """Optional arguments that are left out have the documented default."""
        name = env.choose("function", list(OPTIONS))
        xp = choose_backend(env)
        nside = env.choose("nside", [2, 4])
        kw, full = {}, {}
        for o, (default, other) in OPTIONS[name].items():
            how = env.choose(o, ["omitted", "default", "other"])
            full[o] = other if how == "other" else default
            if how != "omitted":
                kw[o] = full[o]
        if full.get("inplace") and xp is BACKENDS["jax"]:
            raise Prune  # arrays that cannot be modified
        dp = os.environ["HEALPY_DATAPATH"]
        rng = np.random.default_rng(3)
        npix = 12 * nside**2
        lm = 3 * nside - 1
        if name == "alm2map":
            n = size(lm if full["lmax"] is None else full["lmax"])
            a = np.round(rng.standard_normal((3, n)) + 1j * rng.standard_normal((3, n)), 3)
            a[:, : (lm if full["lmax"] is None else full["lmax"]) + 1].imag = 0
            # the library may use the memory of the modes if it is asked to
            arg = [xp.asarray(x.copy()) for x in a]
            # the library does not take the path of its data here
            window_of = healpy.sphtfunc.pixwin
            healpy.sphtfunc.pixwin = lambda nside, pol=False, lmax=None: window_of(nside, pol=pol, lmax=lmax, datapath=dp)
            try:
                ref = healpy.alm2map([x.copy() for x in a], nside, lmax=full["lmax"], pol=full["pol"], pixwin=full["pixwin"])
                got = hp.alm2map(arg, nside, **kw)
            finally:
                healpy.sphtfunc.pixwin = window_of
            if not full["inplace"]:
                for x, y in zip(arg, a, strict=True):
                    env.check(np.array_equal(to_np(x), y), "modes were modified")
        elif name == "map2alm":
            m = np.round(rng.standard_normal((3, npix)), 3)
            arg = [xp.asarray(x.copy()) for x in m]
            ref = healpy.map2alm([x.copy() for x in m], datapath=dp, **full)
            got = hp.map2alm(arg, **kw)
            for x, y in zip(arg, m, strict=True):
                env.check(np.array_equal(to_np(x), y), "maps were modified")
        elif name == "almxfl":
            a = np.round(rng.standard_normal(size(3)) + 1j * rng.standard_normal(size(3)), 3)
            f = np.array([1.0, 0.5, -2.0, 3.0])
            arg = xp.asarray(a.copy())
            got, ref = hp.almxfl(arg, xp.asarray(f), **kw), healpy.almxfl(a.copy(), f)
            if not full["inplace"]:
                env.check(np.array_equal(to_np(arg), a), "modes were modified")
        elif name in ("ang2pix", "ang2vec"):
            t, f = (np.array([0.1, 1.2, 3.0]), np.array([0.0, 2.0, 6.0])) if not full["lonlat"] else (np.array([-170.0, 0.0, 200.0]), np.array([-80.0, 0.0, 45.0]))
            lead = (nside,) if name == "ang2pix" else ()
            got = getattr(hp, name)(*lead, xp.asarray(t), xp.asarray(f), **kw)
            ref = getattr(healpix, name)(*lead, t, f, **full)
        elif name == "pixwin":
            got, ref = hp.pixwin(nside, xp=xp, **kw), healpy.pixwin(nside, datapath=dp, **full)
            env.check(isinstance(got, tuple) == full["pol"], "one window for each component", got=type(got))
        elif name == "strip":
            if kw.get("dtype"):
                kw["dtype"] = xp.float64
            got = hp.query_strip(nside, (0.3, 1.1), xp=xp, **kw)
            ref = np.zeros(npix)
            ref[healpy.query_strip(nside, 0.3, 1.1)] = 1
            kind = "i" if full["dtype"] is None else "f"
            env.check(to_np(got).dtype.kind == kind, "type of the strip", got=to_np(got).dtype)
        elif name == "randang":
            if full["rng"] is not None:
                kw["rng"] = np.random.default_rng(7)
            seed = glass.rng.SEED if full["rng"] is None else 7
            ipix = np.array([0, 3, npix - 1, 3])
            got = hp.randang(nside, xp.asarray(ipix), **kw)
            ref = healpix.randang(nside, ipix, lonlat=full["lonlat"], rng=np.random.default_rng(seed))
        else:
            m = np.round(rng.standard_normal(npix), 3)
            got = hp.Rotator(**kw).rotate_map_pixel(xp.asarray(m))
            ref = healpy.Rotator(coord=full["coord"]).rotate_map_pixel(m.copy())
        got = [to_np(x) for x in got] if isinstance(got, (tuple, list)) else to_np(got)
        expect_close(env, np.array(got), np.array(ref), "value with default arguments", rtol=1e-10, atol=1e-12)

    return [
        Space("defaults", defaults, "all functions, each optional argument left out, given as its default, or another", 3),
        Space("alm2map", alm2map, "all unit modes up to l=4 (thorough: 7), forms of the arguments", 3),
        Space("spin", spin, "all unit modes up to l=4 (thorough: 7), spins 1 to 3", 3),
        Space("map2alm", map2alm, "all unit pixels of nside 1, 2 (thorough: 4), lmax, weights", 3),
        Space("transforms", transforms, "all modes up to l=3", 2),
        Space("almxfl", almxfl, "all lmax up to 4 and lengths of functions up to 6", 2),
        Space("multalm", multalm, "all lmax up to 5 and degrees", 2),
        Space("angles", angles, "425 positions on the sphere and scalars, four resolutions", 3),
        Space("sizes", sizes, "eleven resolutions", 2),
        Space("pixwin", pixwin, "five resolutions, lmax, polarisation", 2),
        Space("strip", strip, "all pairs of eight colatitudes, four resolutions", 2),
        Space("randang", randang, "4 x 4 positions in all pixels of four resolutions", 3),
        Space("generators", generators, "all kinds of generators and arrays", 2),
        Space("rotate", rotate, "all unit pixels, eight pairs of coordinate systems", 2),
    ]
