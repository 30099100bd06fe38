"""C33: a complete simulation is consistent: all components agree with each other."""

import os
import tempfile

import healpy
import numpy as np

from mc.setup_env import BACKENDS, to_np

import glass
from checks import c13, c14, c15
from mc import api
from mc.engine import Prune, Space
from mc.rng import ScriptRNG, SeqSource, ndtri, weyl
from mc.util import CurvedCosmo, expect_close

TECHNIQUE = "exhaustive enumeration of the configurations of a complete simulation (shells, spectra, fields, lensing, galaxies, catalogue) on the real code, where the resulting catalogue is compared with relations between matter fields and galaxies"
NOTE = (
    "All combinations of up to three shells, field types, correlation lengths, visibility, bias, populations, batch sizes and orders of operations, with scripted random numbers. Every row of the catalogue "
    "is compared with the matter fields that were sampled, and these with the fields sampled on their own. Trusts healpy's transforms and pixel lookup."
)

SPHERE = 4 * np.pi * (180 * 60 / np.pi) ** 2


class Recorder(ScriptRNG):
    """Scripted generator; Poisson numbers are the rounded expectations."""

    def __init__(self, offset):
        u, g = SeqSource(lambda i: 0.02 + 0.96 * weyl(i, offset)), SeqSource(lambda i: 0.02 + 0.96 * weyl(3 * i, 0.1 + offset))
        self.lams = []

        def count(lam):
            self.lams.append(np.array(lam))
            return np.floor(lam + 0.5).astype(int)

        super().__init__(unit=u, gauss=lambda s: ndtri(g(s)), count=count, multi=api.XRNG.multi)


def trap(y, x):
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))


def spectra(n, lmax):
    """Valid spectra in the order of glass: covariance of n fields is a Gram matrix for each mode."""
    l = np.arange(lmax + 1)
    out = []
    for i in range(n):
        for j in range(i, -1, -1):
            r = 0.5 ** (i - j)
            out.append(0.02 * (1 + 0.2 * i) ** 0.5 * (1 + 0.2 * j) ** 0.5 * r / (1 + l))
    return out


def spaces(tier):
    thorough = tier != "quick"

    def simulation(env):
        n = env.choose("shells", [1, 2, 3])
        nside = env.choose("nside", [1, 2] + ([4] if thorough else []))
        kind = env.choose("fields", ["normal", "lognormal", "mixed"])
        ncorr = env.choose("ncorr", [None, 0, 1])
        bias = env.choose("bias", [None, 1.5, "loglinear"])
        vis = env.choose("visibility", ["none", "mask", "fraction"])
        dims = env.choose("populations", [(), (2,)])
        batch = env.choose("batch", [1_000_000, 3])
        one = env.choose("generators", ["one", "two"])
        order = env.choose("order", ["lazy", "eager", "reversed galaxies"])
        fam = env.choose("windows", ["linear", "weighted"] if n > 1 and (thorough or nside == 1) and order == "lazy" and batch > 3 else ["linear"])
        if not thorough and nside == 2 and (bias == "loglinear" or vis == "fraction" or ncorr == 1):
            raise Prune
        if order != "lazy" and (batch == 3 or vis == "fraction" or bias == "loglinear"):
            raise Prune
        simulate(env, np, n, nside, kind, ncorr, bias, vis, dims, batch, one, order, fam)

    def backends(env):
        xp = BACKENDS[env.choose("backend", ["strict", "jax"])]
        n = env.choose("shells", [1, 2])
        kind = env.choose("fields", ["normal", "lognormal"])
        dims = env.choose("populations", [(), (2,)])
        simulate(env, xp, n, 1, kind, None, 1.5, "mask", dims, 1_000_000, "two", "lazy", "linear")

    def simulate(env, xp, n, nside, kind, ncorr, bias, vis, dims, batch, one, order, fam):
        npix, lmax = 12 * nside**2, 2 * nside
        cosmo = CurvedCosmo(0.3, k=0.0 if n != 2 else 0.2)
        c = lambda x: xp.asarray(x)
        # shells and spectra
        shells = glass.linear_windows(c(np.array([0.0, 0.4, 0.8, 1.2, 1.6])[: n + 2]), 0.05, None if fam == "linear" else glass.VolumeWeight(cosmo))
        env.check(len(shells) == n, "number of shells")
        W = [(to_np(w.za), to_np(w.wa), float(w.zeff)) for w in shells]
        cls = [c(x) for x in spectra(n, lmax + 2)]
        fields = {"normal": [glass.grf.Normal()] * n, "lognormal": glass.lognormal_fields(shells), "mixed": [glass.grf.Normal() if k % 2 else glass.grf.Lognormal(1.0) for k in range(n)]}[kind]
        disc = glass.discretized_cls(cls, nside=None, lmax=lmax, ncorr=ncorr)
        gls = glass.solve_gaussian_spectra(fields, disc)

        wrap = (lambda r: r) if xp is np else (lambda r: glass.rng.Generator(rng=r, xp=xp))
        rm = Recorder(0.0)
        rg = rm if one == "one" else Recorder(0.37)
        if one == "one" and order != "lazy":
            alone = None
        else:
            alone = [to_np(d) for d in glass.generate(fields, gls, nside, ncorr=ncorr, rng=wrap(Recorder(0.0)))]
        matter = glass.generate(fields, gls, nside, ncorr=ncorr, rng=wrap(rm))

        v = {"none": None, "mask": (np.arange(npix) % 3 != 1) * 1.0, "fraction": (np.arange(npix) % 4) / 4}[vis]
        ngal = np.array([2.0, 1.0, 3.0])[:n] * npix / SPHERE
        if dims:
            ngal = ngal[:, None] * np.array([1.0, 0.5])
        model = {"loglinear": glass.loglinear_bias}.get(bias, None)
        b = None if bias is None else 1.5

        conv = glass.MultiPlaneConvergence(cosmo)
        deltas, kappas, shears, rows, used = [], [], [], [], []
        first = []

        def lensing(i, delta):
            conv.add_window(delta, shells[i])
            kappas.append(to_np(conv.kappa).copy())
            full = glass.from_convergence(c(to_np(conv.kappa).copy()), shear=True, discretized=False)[0]
            shears.append(to_np(full).copy())
            g1, g2 = xp.real(full), xp.imag(full)
            return g1, g2, conv.kappa

        def galaxies(i, delta, g1, g2, kappa, out):
            kw = {"batch": batch}
            if model is not None:
                kw["bias_model"] = model
            before = len(rg.lams)
            for lon, lat, count in glass.positions_from_delta(c(ngal[i]), delta, b, None if v is None else c(v), rng=wrap(rg), **kw):
                z = glass.redshifts(count if dims else int(to_np(count)), shells[i], rng=wrap(rg))
                zp = glass.gaussian_phz(z, 0.05, rng=wrap(rg))
                eps = glass.ellipticity_intnorm(count if dims else c(np.asarray(to_np(count))), 0.2, rng=wrap(rg))
                she = glass.galaxy_shear(lon, lat, eps, kappa, g1, g2)
                cat = {k: to_np(x) for k, x in {"lon": lon, "lat": lat, "z": z, "zp": zp, "e1": xp.real(eps), "e2": xp.imag(eps), "s1": xp.real(she), "s2": xp.imag(she)}.items()}
                m = len(cat["lon"])
                pop = np.argwhere(to_np(count) > 0)
                env.check(m == int(to_np(count).sum()), "number of galaxies")
                if m == 0:
                    continue
                cat["shell"] = np.full(m, i)
                cat["pop"] = np.full(m, int(pop[0][0]) if dims else 0)
                rows.append(cat)
                out.write(**cat)
            used.append((i, rg.lams[before:]))

        with tempfile.TemporaryDirectory(dir=os.environ["MC_SCRATCH"]) as d:
            path = os.path.join(d, "cat.fits")
            with glass.write_catalog(path) as out:
                if order == "lazy":
                    for i, delta in enumerate(matter):
                        deltas.append(to_np(delta).copy())
                        first.append(delta)
                        galaxies(i, delta, *lensing(i, delta), out)
                else:
                    first = list(matter)
                    deltas = [to_np(x).copy() for x in first]
                    maps = []
                    for i, delta in enumerate(first):
                        g1, g2, k = lensing(i, delta)
                        maps.append((g1, g2, c(to_np(k).copy())))
                    for i in range(n) if order == "eager" else reversed(range(n)):
                        galaxies(i, first[i], *maps[i], out)
            if rows:
                import fitsio

                table = fitsio.read(path)
            else:
                table = None

        # the matter fields
        env.check(len(deltas) == n, "number of matter fields")
        if alone is not None and one == "two":
            for x, y in zip(deltas, alone):
                expect_close(env, x, y, "matter fields depend on the use of previous ones", rtol=1e-12, atol=1e-14)
        for i, (x, y) in enumerate(zip(deltas, first)):
            env.check((to_np(y) == x).all(), f"matter field {i} was modified")
            env.check(x.shape == (npix,) and np.isfinite(x).all(), "matter field")
            if kind == "lognormal":
                env.check((x > -1).all(), "density is not positive")

        # lensing from the matter fields
        weights = [trap(wa, za) / float(np.interp(ze, za, wa)) for za, wa, ze in W]
        for i in range(n):
            k = sum(c13.efficiency(cosmo, W[j][2], W[i][2]) * weights[j] * deltas[j] for j in range(i + 1))
            expect_close(env, kappas[i], k, f"convergence of shell {i}", rtol=1e-8, atol=1e-12)
            expect_close(env, shears[i], c14.reference(kappas[i], nside, None, False)[2], f"shear of shell {i}", rtol=1e-7, atol=1e-10)
        # one effective convergence of all galaxies
        flat = ngal.reshape(n, -1)
        mw = to_np(glass.multi_plane_weights(c(ngal), shells, cosmo)).reshape(n, -1)
        for p in range(flat.shape[1]):
            want = sum(flat[i, p] * kappas[i] for i in range(n)) / flat[:, p].sum()
            expect_close(env, sum(mw[j, p] * deltas[j] for j in range(n)), want, "convergence of the population", rtol=1e-7, atol=1e-12)
        # spectra of it, from those of the shells
        eff = to_np(glass.effective_cls([c(x) for x in spectra(n, lmax)], c(mw)))
        mat = np.zeros((n, n, lmax + 1))
        k = 0
        for i in range(n):
            for j in range(i, -1, -1):
                mat[i, j] = mat[j, i] = spectra(n, lmax)[k]
                k += 1
        expect_close(env, eff, np.einsum("ip,ijl,jq->pql", mw, mat, mw), "spectra of the population", rtol=1e-9, atol=1e-18)

        # the galaxies
        cat = {k: np.concatenate([r[k] for r in rows]) for k in rows[0]} if rows else None
        total = np.zeros((n, flat.shape[1], npix), int)
        for i in range(n):
            contrast = deltas[i] if bias is None else b * deltas[i] if bias != "loglinear" else np.expm1(b * np.log1p(deltas[i]))
            dens = np.clip(1 + contrast, 0, None) * (1.0 if v is None else v)
            for p in range(flat.shape[1]):
                total[i, p] = np.floor(flat[i, p] * SPHERE / npix * dens + 0.5)
                lam = flat[i, p] * SPHERE / npix * dens + 0.5
                if (np.abs(lam - np.round(lam)) < 1e-9).any():
                    raise Prune
        env.check((total.sum() == 0) == (cat is None), "number of galaxies")
        if cat is None:
            return
        ipix = healpy.ang2pix(nside, cat["lon"], cat["lat"], lonlat=True)
        got = np.zeros_like(total)
        np.add.at(got, (cat["shell"], cat["pop"], ipix), 1)
        env.check((got == total).all(), "galaxies do not follow the matter field", got=got, want=total)
        for i in range(n):
            za, wa, _ = W[i]
            z = cat["z"][cat["shell"] == i]
            env.check(((z >= za[0]) & (z <= za[-1])).all(), "redshifts are outside of their shell")
            env.check((np.interp(z, za, wa) > 0).all(), "redshifts where the window vanishes")
        env.check((cat["zp"] >= 0).all() and (np.abs(cat["zp"] - cat["z"]) <= 0.05 * (1 + cat["z"]) * 5).all(), "photometric redshifts")
        eps = cat["e1"] + 1j * cat["e2"]
        g = np.array(shears)[cat["shell"], ipix] / (1 - np.array(kappas)[cat["shell"], ipix])
        want = (eps + g) / (1 + np.conj(g) * eps)
        expect_close(env, cat["s1"] + 1j * cat["s2"], want, "galaxies are not sheared by their convergence", rtol=1e-8, atol=1e-11)
        env.check((np.abs(eps) < 1).all(), "shapes")
        # the file
        env.check(len(table) == len(ipix), "rows of the file", got=len(table), want=len(ipix))
        for k in cat:
            env.check((np.asarray(table[k]) == cat[k]).all(), f"column {k} of the file")
        env.outcome(got.tolist())
        env.state((n, tuple(total.sum(axis=-1).reshape(-1))))

    def populations(env):
        """Redshift distribution of a population: partition, sampling and distribution over shells."""
        method = env.choose("method", ["nnls", "lstsq", "restrict"])
        n = env.choose("shells", [2, 3, 4])
        shape = env.choose("distribution", ["flat", "ramp", "peak", "far"])
        fam = env.choose("windows", ["linear", "tophat"])
        zb = np.linspace(0.0, 1.6, n + 1 + (fam == "linear"))
        shells = {"linear": glass.linear_windows, "tophat": glass.tophat_windows}[fam](zb, 0.02)
        z = np.linspace(0.0, 1.6, 161)
        f = {"flat": np.ones(161), "ramp": z, "peak": np.exp(-((z - 0.7) ** 2) / 0.1), "far": np.where(z > 1.0, 1.0, 0.0)}[shape]
        part = glass.partition(z, f, shells, method=method)
        env.check(part.shape == (n,), "shape of partition")
        # total is kept wherever the shells cover the distribution
        sup = sum(np.interp(z, w.za, w.wa, left=0, right=0) for w in shells)
        if method != "restrict" or fam == "tophat":
            atol = 0.02 * trap(f, z)
            env.check(abs(part.sum() - trap(f, z)) <= atol or (sup == 0).any() and method == "restrict", "total number of galaxies", got=part.sum(), want=trap(f, z))
        # combination is a distribution with the same total
        comb = glass.combine(z, part, shells)
        if fam == "linear":
            env.check(abs(trap(comb, z) - part.sum()) <= 0.02 * abs(part).sum() + 1e-9, "total of the combination", got=trap(comb, z), want=part.sum())
        # redshifts drawn from a shell are distributed into shells that cover them
        for k, w in enumerate(shells):
            r = Recorder(0.1)
            zz = glass.redshifts(9, w, rng=r)
            s = glass.distribute(zz, shells, rng=r)
            for a_, b_ in zip(zz, s):
                env.check(b_ >= 0 and np.interp(a_, shells[b_].za, shells[b_].wa, left=0, right=0) > 0, "shell does not cover the redshift", z=a_, shell=b_)
            if fam == "tophat":
                env.check((s == k).sum() >= 8, "redshifts of another shell", got=s, want=k)

    return [
        Space("simulation", simulation, "up to three shells, three types of fields, all options of the galaxies, three orders", 5),
        Space("backends", backends, "two other backends", 3),
        Space("populations", populations, "three methods, two families, up to four shells, four distributions", 2),
    ]
