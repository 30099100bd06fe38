"""C26: visibility map of the galactic and ecliptic planes."""

import healpy
import numpy as np
from astropy import units as u
from astropy.coordinates import BarycentricMeanEcliptic, SkyCoord

import glass
from mc.engine import Prune, Space
from mc.setup_env import to_np
from mc.util import choose_backend, expect_raises, is_backend

TECHNIQUE = "exhaustive enumeration of strips and resolutions, where every pixel is compared with the strips in the coordinate systems of astropy"
NOTE = (
    "All ranges over a grid of colatitudes for both strips, for resolutions 4 to 32 (thorough: 64). Pixels nearer to the edge of a strip than "
    "the interpolation of the rotations are only checked for their range of values. Trusts astropy for the coordinate systems."
)

THETAS = [0.0, 0.4, 0.9, 1.3, 1.8, 2.3, 2.75, np.pi]
NONE = (0.0, 1e-9)  # contains no pixel
COORD = {}


def frames(nside):
    """Colatitude in all coordinate systems of the pixels of an ecliptic map."""
    if nside not in COORD:
        th, ph = healpy.pix2ang(nside, np.arange(12 * nside**2))
        c = SkyCoord(lon=ph * u.rad, lat=(np.pi / 2 - th) * u.rad, frame=BarycentricMeanEcliptic())
        COORD[nside] = {"E": th, "C": np.pi / 2 - c.icrs.dec.rad, "G": np.pi / 2 - c.galactic.b.rad}
    return COORD[nside]


def inside(theta, strip, margin):
    """+1 for pixels inside of the strip, -1 for those outside, 0 near to the edges."""
    a, b = strip
    if strip == NONE:
        return np.full(theta.shape, -1)
    lo = theta - a if a > 0 else np.full_like(theta, 9.0)
    hi = b - theta if b < np.pi else np.full_like(theta, 9.0)
    d = np.minimum(lo, hi)
    return np.where(d > margin, 1, np.where(d < -margin, -1, 0))


def classify(nside, gal, ecl, frame, margin):
    f = frames(nside)
    g, e = inside(f["G"], gal, margin), inside(f[frame], ecl, margin)
    return np.where((g > 0) | (e > 0), 0.0, np.where((g < 0) & (e < 0), 1.0, np.nan))


def matches(m, want):
    ok = np.isfinite(want)
    return np.allclose(m[ok], want[ok], atol=1e-9, rtol=0)


def spaces(tier):
    thorough = tier != "quick"
    ranges = [(a, b) for a in THETAS for b in THETAS if a < b and not (a == 0 and b == np.pi)]

    def look(env, gal, ecl, nside, xp, form):
        args = (form(gal), form(ecl))
        m = glass.vmap_galactic_ecliptic(nside, *args, xp=xp)
        env.check(is_backend(m, xp), "array type", got=type(m))
        m = to_np(m)
        env.check(m.shape == (12 * nside**2,), "resolution", got=m.shape)
        env.check((m >= -1e-12).all() and (m <= 1 + 1e-12).all(), "range of values", got=(m.min(), m.max()))
        env.outcome(round(float(m.mean()), 6))
        margin = 2 * 2.2 * healpy.max_pixrad(nside)
        if nside >= 4:
            want = classify(nside, gal, ecl, "E", margin)
            known = classify(nside, gal, ecl, "C", margin)
            if not matches(m, want):
                # the second strip is applied in equatorial coordinates
                env.fail("pixels are not masked as requested", "ecliptic-frame" if matches(m, known) else None,
                         got=m, galactic=gal, ecliptic=ecl)
            env.checks += 1

    def galactic(env):
        """Only the galactic strip."""
        nside = env.choose("nside", [4, 8, 16, 32] + ([64] if thorough else []))
        gal = env.choose("galactic", ranges)
        xp = choose_backend(env) if nside == 8 else np
        look(env, gal, NONE, nside, xp, env.choose("form", [tuple, list] if nside == 4 else [tuple]))

    def ecliptic(env):
        nside = env.choose("nside", [8, 16, 32] + ([64] if thorough else []))
        ecl = env.choose("ecliptic", ranges)
        look(env, NONE, ecl, nside, np, tuple)

    def both(env):
        nside = 32
        a = env.choose("galactic", ranges[:: 1 if thorough else 2])
        b = env.choose("ecliptic", ranges[:: 1 if thorough else 2])
        margin = 2 * 2.2 * healpy.max_pixrad(nside)
        if not np.isfinite(classify(nside, a, b, "C", margin)).any():
            raise Prune
        look(env, a, b, nside, np, tuple)

    def defaults(env):
        """The default strips are given in degrees."""
        nside = env.choose("nside", [8, 16])
        xp = choose_backend(env)
        m = to_np(glass.vmap_galactic_ecliptic(nside, xp=xp))
        env.check(m.shape == (12 * nside**2,) and (m >= -1e-12).all() and (m <= 1 + 1e-12).all(), "values of default map")
        rad = lambda t: tuple(np.radians(t))
        want = to_np(glass.vmap_galactic_ecliptic(nside, rad((30, 90)), rad((20, 80))))
        if not np.allclose(m, want):
            same = np.allclose(m, to_np(glass.vmap_galactic_ecliptic(nside, (30, 90), (20, 80))))
            env.fail("default strips are not those in degrees", "default-degrees" if same else None, got=m, want=want)

    def invalid(env):
        n = env.choose("length of galactic", [0, 1, 2, 3, 4])
        k = env.choose("length of ecliptic", [0, 1, 2, 3, 4])
        form = env.choose("form", [tuple, list])
        nside = env.choose("nside", [1, 2, 4])
        f = lambda: glass.vmap_galactic_ecliptic(nside, form([0.5 + 0.1 * i for i in range(n)]), form([0.5 + 0.1 * i for i in range(k)]))
        if n == 2 and k == 2:
            env.check(len(f()) == 12 * nside**2, "resolution")
        else:
            expect_raises(env, TypeError, f, "invalid strip")

    return [
        Space("galactic", galactic, "all ranges over eight colatitudes, four (thorough: five) resolutions", 2),
        Space("ecliptic", ecliptic, "all ranges over eight colatitudes, three (thorough: four) resolutions", 2),
        Space("both", both, "pairs of every second range (thorough: all pairs)", 2),
        Space("defaults", defaults, "default strips", 2),
        Space("invalid", invalid, "all lengths of ranges up to four", 2),
    ]
