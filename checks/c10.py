"""C10: positions sampled from density contrast."""

import healpix
import numpy as np

import glass
from mc.engine import Prune, Space
from mc.rng import ScriptRNG, SeqSource, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend

TECHNIQUE = "exhaustive exploration of sampled pixel counts, batch sizes and population shapes under a scripted random number generator"
NOTE = (
    "The counts that the Poisson sampler returns are chosen by the explorer: all counts from {0,1,3} in critical pixels "
    "(start and end of the map, boundaries of the internal groups of 1000 pixels), all batch sizes around the counts, so "
    "that every segmentation of the batching loop occurs; all broadcast shapes of the populations. Trusts healpix for "
    "the pixel of a position, and the Poisson sampler of the generator."
)

SPHERE = 4 * np.pi * (180 * 60 / np.pi) ** 2


class U:
    """Uniform numbers inside of pixels, all different, counted."""

    def __init__(self):
        self.seq = SeqSource(lambda i: 0.05 + 0.9 * weyl(i))

    def __call__(self, shape):
        return self.seq(shape)

    used = property(lambda self: self.seq.i)


def collect(env, gen, dims, nside, batch, xp=np):
    """Read all batches; returns the counts per population and pixel."""
    npix = 12 * nside**2
    out = np.zeros((*dims, npix), dtype=int)
    seen = set()
    total = nb = 0
    for lon, lat, count in gen:
        if xp is not None:
            env.check(is_backend(lon, xp) and is_backend(lat, xp), "array type")
        lon, lat, count = to_np(lon), to_np(lat), to_np(count)
        env.check(lon.ndim == 1 and lon.shape == lat.shape, "shape of positions")
        env.check(count.shape == dims, "shape of counts", got=count.shape, want=dims)
        env.check(count.sum() == len(lon), "reported count", got=count, want=len(lon))
        env.check((np.abs(lat) <= 90).all(), "range of latitudes")
        ipix = healpix.ang2pix(nside, lon, lat, lonlat=True)
        hot = np.argwhere(np.asarray(count) > 0) if dims else [()]
        env.check(len(hot) <= 1 or len(lon) == 0, "batch names several populations", count=count)
        if len(lon):
            np.add.at(out[tuple(hot[0])] if dims else out, ipix, 1)
        if batch is not None:
            env.check(len(lon) <= batch or len(set(ipix.tolist())) == 1, "batch is too large", got=len(lon), batch=batch, pixels=ipix)
        for p in zip(lon.tolist(), lat.tolist(), strict=True):
            seen.add(p)
        total += len(lon)
        nb += 1
    env.check(len(seen) == total, "positions are repeated", distinct=len(seen), total=total)
    env.outcome((nb, total))
    return out, total


def check_counts(env, counts, nside, batch, xp=np, ngal=1e-3):
    counts = np.asarray(counts)
    npix = 12 * nside**2
    u = U()
    rng = ScriptRNG(unit=u, count=lambda lam: counts)
    kw = {} if batch is None else {"batch": batch}
    got, total = collect(env, glass.positions_from_delta(ngal, xp.zeros(npix), rng=rng, **kw), (), nside, batch, xp)
    env.check((got == counts).all(), "points per pixel", got=np.flatnonzero(got), want=np.flatnonzero(counts))
    env.check(u.used == 2 * total, "uniform random numbers per point", got=u.used, want=2 * total)


def reference(ngal, delta, bias, vis, model, monopole):
    """Expected counts for all populations."""
    arrs = [np.asarray(ngal)[..., None], delta] + ([] if bias is None else [np.asarray(bias)[..., None]]) + ([] if vis is None else [vis])
    dims = np.broadcast_shapes(*[a.shape[:-1] for a in arrs])
    npix = delta.shape[-1]
    d = np.broadcast_to(delta, (*dims, npix))
    if bias is not None:
        b = np.broadcast_to(np.asarray(bias)[..., None], (*dims, npix))
        d = {"linear": lambda: b * d, "loglinear": lambda: np.exp(b * np.log(1 + d)) - 1, "square": lambda: b * d**2}[model]()
    if monopole:
        d = d - d.mean(axis=-1, keepdims=True)
    n = (1 + d) * SPHERE / npix * np.asarray(ngal)[..., None]
    if vis is not None:
        n = n * vis
    return dims, np.clip(np.broadcast_to(n, (*dims, npix)), 0, None)


def spaces(tier):
    thorough = tier != "quick"

    def small(env):
        """12 pixels: free counts in six pixels."""
        where = env.choose("pixels", [[0, 1, 2, 3, 4, 5], [6, 7, 8, 9, 10, 11], [0, 2, 5, 6, 10, 11]])
        c = np.zeros(12, dtype=int)
        for p in where:
            c[p] = env.choose(f"count {p}", [0, 1, 3])
        for batch in [1, 2, 3, 4, 5, 6, 7, 9, 10, 18, 100]:
            check_counts(env, c, 1, batch)
        check_counts(env, c, 1, None)

    def full(env):
        """All pixels occupied."""
        bg = env.choose("background", [1, 2])
        c = np.full(12, bg)
        for p in (0, 4, 11):
            c[p] = env.choose(f"count {p}", [0, 1, 2, 5, 8])
        batch = env.choose("batch", list(range(1, 40)))
        check_counts(env, c, 1, batch)

    def groups(env):
        """3072 pixels: counts around the boundaries of groups of 1000 pixels."""
        bg = env.choose("background", [0, 1])
        where = env.choose("pixels", [[0, 999, 1000], [998, 999, 1000, 1001], [1999, 2000, 3071], [999, 1999, 2999, 3000], [0, 1000, 2000, 3071]])
        c = np.full(3072, bg)
        for p in where:
            c[p] = env.choose(f"count {p}", [0, 1, 3] if bg == 0 else [0, 2])
        tot = int(c.sum())
        if bg == 0:
            batches = sorted({1, 2, 3, 4, 5, max(tot - 1, 1), max(tot, 1), tot + 1})
        else:
            part = [int(c[:k].sum()) for k in (999, 1000, 1001, 1999, 2000, 2001, 3000)]
            batches = sorted({part[0], part[1], part[2], part[4], part[6], tot - 1, tot, 700, 1500})
        batch = env.choose("batch", batches)
        check_counts(env, c, 16, batch)

    def bands(env):
        """Occupied and empty groups of pixels."""
        pattern = [env.choose(f"group {g}", [0, 1]) for g in range(4)]
        every = env.choose("every", [1, 3, 250, 999])
        c = np.zeros(3072, dtype=int)
        for g, on in enumerate(pattern):
            if on:
                c[1000 * g : 1000 * (g + 1) : every] = 1 + (g % 2)
        if env.choose("heavy", [False, True]):
            c[1500] = 40
        batch = env.choose("batch", [1 if every > 100 else 97, 7 if every > 100 else 333, 999, 1000, 1001, 2000, 5000])
        check_counts(env, c, 16, batch)

    SH = [(), (1,), (2,), (3,), (2, 1), (1, 2), (2, 2), (2, 1, 2)]

    def populations(env):
        """All shapes of the populations."""
        sn = env.choose("ngal", SH)
        sd = env.choose("delta", SH if thorough else SH[:5])
        sb = env.choose("bias", [None] + (SH if thorough else SH[:5]))
        sv = env.choose("vis", [None, (), (2,), (2, 1)] + ([(3,), (1, 1, 2)] if thorough else []))
        try:
            np.broadcast_shapes(sn, sd, *([sb] if sb is not None else []), *([sv] if sv is not None else []))
        except ValueError:
            raise Prune from None
        pixel_model(env, sn, sd, sb, sv, "linear", False, np)

    def pixel_model(env, sn, sd, sb, sv, model, mono, xp, batch=25, clip=False):
        npix = 12
        g = lambda s, q: np.array(np.modf(np.sqrt(2 + 3 * np.arange(float(np.prod(s))) + q) * 7.1)[0]).reshape(s)
        # expectations of a few points per pixel
        ngal = (1 + 2 * g(sn, 1)) * npix / SPHERE
        delta = (g((*sd, npix), 5) * 2 - 1) * (1.5 if clip else 0.9)
        bias = None if sb is None else 0.5 + g(sb, 11)
        vis = None if sv is None else np.where(g((*sv, npix), 3) < 0.3, 0.0, g((*sv, npix), 3))
        dims, lam = reference(ngal, delta, bias, vis, model, mono)
        lams = []

        def count(x):
            lams.append(np.array(x))
            return np.rint(3 * x)

        u = U()
        kw = {}
        if bias is not None:
            kw["bias"] = xp.asarray(bias)
        if vis is not None:
            kw["vis"] = xp.asarray(vis)
        if model == "loglinear":
            kw["bias_model"] = glass.loglinear_bias
        elif model == "square":
            kw["bias_model"] = lambda d, b: b * d**2
        if mono:
            kw["remove_monopole"] = True
        gen = glass.positions_from_delta(xp.asarray(ngal), xp.asarray(delta), **kw, batch=batch, rng=ScriptRNG(unit=u, count=count))
        got, total = collect(env, gen, dims, 1, batch, xp)
        # ignore counts on the edge of rounding
        safe = np.abs(3 * lam - np.floor(3 * lam) - 0.5) > 1e-6
        env.check((got == np.rint(3 * lam))[safe].all(), "points per population and pixel", got=got, want=np.rint(3 * lam))
        all_lams = np.concatenate([x.reshape(-1, npix) for x in lams]) if lams else np.zeros((0, npix))
        want = lam.reshape(-1, npix)
        env.check(all_lams.shape == want.shape, "Poisson draws per population", got=all_lams.shape, want=want.shape)
        left = list(range(len(want)))
        for row in all_lams:
            hit = [i for i in left if np.allclose(row, want[i], rtol=1e-9, atol=1e-12)]
            env.check(bool(hit), "expected number of points", got=row, want=want)
            left.remove(hit[0])
        env.check(u.used == 2 * total, "uniform random numbers per point", got=u.used, want=2 * total)

    def models(env):
        model = env.choose("model", ["linear", "loglinear", "square", "none"])
        mono = env.choose("monopole", [False, True])
        sv = env.choose("vis", [None, (), (2,)])
        clip = env.choose("clip", [False, True])
        xp = choose_backend(env)
        sd = env.choose("delta", [(), (2,)])
        batch = env.choose("batch", [1, 7, 1000])
        if model == "loglinear" and clip:
            raise Prune
        pixel_model(env, (), sd, None if model == "none" else (), sv, "linear" if model == "none" else model, mono, xp, batch, clip)

    def misc(env):
        what = env.choose("what", ["callable", "floats", "size", "repeat", "zero"])
        xp = choose_backend(env)
        if what == "callable":
            for bad in ("linear", 1.0, None):
                expect_raises(env, TypeError, lambda bad=bad: next(glass.positions_from_delta(1.0, xp.zeros(12), 1.0, bias_model=bad)), "bias model")
        elif what == "floats":
            u = U()
            c = np.arange(12)
            gen = glass.positions_from_delta(1e-9, xp.zeros(12), 2.0, xp.ones(12), rng=ScriptRNG(unit=u, count=lambda lam: c))
            got, _ = collect(env, gen, (), 1, None, xp)
            env.check((got == c).all(), "points per pixel")
        elif what == "size":
            # larger maps
            for nside in (2, 4, 8):
                npix = 12 * nside**2
                c = (np.arange(npix) * 7 + 3) % 3
                gen = glass.positions_from_delta(1e-9, xp.zeros(npix), rng=ScriptRNG(unit=U(), count=lambda lam, c=c: c), batch=50)
                got, _ = collect(env, gen, (), nside, 50, xp)
                env.check((got == c).all(), "points per pixel", nside=nside)
        elif what == "repeat":
            # real generators: batches and calls are different
            rng = np.random.default_rng(5)
            if xp is BACKENDS["jax"]:
                from glass.jax import Generator

                rng = Generator(5)
            seen, total = set(), 0
            for _ in range(2):
                for lon, lat, _c in glass.positions_from_delta(xp.asarray([60 / SPHERE, 60 / SPHERE]), xp.zeros(12), batch=10, rng=rng):
                    pts = list(zip(to_np(lon).tolist(), to_np(lat).tolist(), strict=True))
                    seen.update(pts)
                    total += len(pts)
            env.check(len(seen) == total and total > 50, "positions are repeated", distinct=len(seen), total=total)
        else:
            gen = glass.positions_from_delta(0.0, xp.zeros(12), rng=ScriptRNG(unit=U(), count=lambda lam: np.rint(lam)))
            got, total = collect(env, gen, (), 1, None, xp)
            env.check(total == 0, "no points")

    return [
        Space("small", small, "12 pixels, counts from {0,1,3} in 6 pixels, 12 batch sizes", 4),
        Space("full", full, "12 occupied pixels, all batch sizes up to 39", 3),
        Space("groups", groups, "3072 pixels, counts around boundaries of groups", 4),
        Space("bands", bands, "all patterns of empty and occupied groups", 4),
        Space("populations", populations, "all broadcast shapes", 4),
        Space("models", models, "bias models, monopole, visibility, clipping, backends", 4),
        Space("misc", misc, "rejected input, real generators", 2),
    ]
