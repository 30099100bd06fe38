"""C18: galaxy shapes."""

import itertools

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.rng import ScriptRNG, SeqSource, _size, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend

TECHNIQUE = "exhaustive exploration of all sequences of accepted and rejected random numbers, and of parameters and random numbers on grids"
NOTE = (
    "The explorer chooses the outcome of every draw of every element up to three (thorough: five) rejections for the rejection "
    "samplers; all parameters over small alphabets with limiting values, all count shapes up to two dimensions; the axis "
    "ratio is compared with the numerical projection of the ellipsoid. Tolerance 1e-9; 1e-7 where a square root of zero is taken."
)


def projected(zeta, xi, ct, phi):
    """Axis ratio of an ellipsoid projected along a direction."""
    st = np.sqrt(1 - ct**2)
    n = np.array([st * np.cos(phi), st * np.sin(phi), ct])
    # basis of the plane of the sky
    a = np.array([ct * np.cos(phi), ct * np.sin(phi), -st])
    b = np.cross(n, a)
    p = np.array([a, b])
    w = np.linalg.eigvalsh(p @ np.diag([1.0, zeta**2, xi**2]) @ p.T)
    return np.sqrt(max(w[0], 0) / w[1]) if w[1] > 0 else np.nan


class Gaussian:
    """Draws for ellipticity_gaussian: real and imaginary parts one after the other."""

    GOOD = [0.3 + 0.4j, -0.85 + 0.2j, 0.1 - 0.95j]
    BAD = [0.8 + 0.8j, -1.2 + 0.05j, -0.1j - 1.05j]

    def __init__(self, env, counts, sigmas, bound):
        self.env, self.counts, self.sigmas, self.bound = env, counts, sigmas, bound
        self.pop = -1
        self.imag = None
        self.final = []
        self.round = 0
        self.draws = 0
        self._next()

    def _next(self):
        while True:
            self.pop += 1
            self.round = 0
            if self.pop >= len(self.counts):
                self.e = None
                return
            self.e = [None] * self.counts[self.pop]
            if self.e:
                return

    def __call__(self, shape):
        n = int(np.prod(shape))
        if n == 0:
            return np.zeros(shape)
        if self.imag is not None:
            if len(self.imag) != n:
                raise Prune  # another way of drawing complex numbers
            out, self.imag = self.imag, None
            self._done()
            return out.reshape(shape)
        if self.e is None:
            self.env.fail("draws random numbers after all were accepted")
        todo = [i for i, v in enumerate(self.e) if v is None]
        if n == len(self.e):
            who = range(n)
        elif n == len(todo):
            who = todo
        else:
            raise Prune
        s = self.sigmas[self.pop]
        vals = []
        for i in who:
            if self.e[i] is not None:
                v = 0.123 - 0.05j
            elif self.bound > 0 and self.env.choose(f"draw{self.round} of {self.pop},{i}", ["good", "bad"]) == "bad":
                v = self.BAD[(self.round + i) % 3]
                self.bound -= 1
            else:
                v = self.GOOD[(self.round + i + self.pop) % 3]
                self.e[i] = v
            vals.append(v / s)
        self.round += 1
        self.draws += n
        self.imag = np.imag(vals)
        return np.real(vals).reshape(shape)

    def _done(self):
        if all(v is not None for v in self.e):
            self.final += self.e
            self._next()


class Ryden(ScriptRNG):
    """Normal draws whose element is recognised by the mean."""

    def __init__(self, env, mu, sigma, gamma, sgamma, bound, unit):
        super().__init__(unit=unit, gauss=lambda s: (_ for _ in ()).throw(Prune()))
        self.env, self.bound = env, bound
        self.par = {"eps": (mu.reshape(-1), sigma.reshape(-1)), "gam": (gamma.reshape(-1), sgamma.reshape(-1))}
        self.final = {k: np.full(mu.size, np.nan) for k in self.par}
        self.rounds = {k: 0 for k in self.par}

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        s = _size(size, loc, scale)
        loc, scale = np.broadcast_to(loc, s).reshape(-1), np.broadcast_to(scale, s).reshape(-1)
        out = np.zeros(len(loc))
        if not len(loc):
            return out.reshape(s)
        name = "eps" if np.isin(loc, self.par["eps"][0]).all() else "gam"
        mean, width = self.par[name]
        fin = self.final[name]
        todo = np.flatnonzero(np.isnan(fin))
        who = range(len(fin)) if len(loc) == len(fin) else todo
        if len(who) != len(loc):
            self.env.fail(f"draws for other than all or the rejected elements ({name})", size=s, rejected=todo)
        for j, i in enumerate(who):
            self.env.check(loc[j] == mean[i] and scale[j] == width[i], f"draw uses parameters of another element ({name})",
                           got=(loc[j], scale[j]), want=(mean[i], width[i]))
            t = (0.29 + 0.21 * self.rounds[name] + 0.11 * i) % 1
            good = -0.05 - 2 * t if name == "eps" else 0.02 + 0.9 * t
            bads = [0.3 + t] if name == "eps" else [-0.1 - t, 1.1 + t]
            if not np.isnan(fin[i]):
                out[j] = good * 0.7
                continue
            opts = ["good"] + (["bad", "worse"][: len(bads)] if self.bound > 0 else [])
            k = self.env.choose(f"{name} draw{self.rounds[name]} of {i}", opts)
            if k == "good":
                out[j] = fin[i] = good
            else:
                out[j] = bads[opts.index(k) - 1]
                self.bound -= 1
        self.rounds[name] += 1
        return out.reshape(s)


def spaces(tier):
    thorough = tier != "quick"

    SH = [(), (1,), (2,), (3,), (1, 2), (2, 1)]

    def pops(env, two=True):
        cs = env.choose("shape of count", SH)
        ss = env.choose("shape of sigma", SH if two else [()])
        try:
            dims = np.broadcast_shapes(cs, ss)
        except ValueError:
            raise Prune from None
        return cs, ss, dims

    def gauss_reject(env):
        cs = env.choose("shape of count", [(), (1,), (2,), (2, 1), (3,)])
        n = int(np.prod(cs))
        count = np.array([env.choose(f"count{i}", [0, 1, 2, 3] if n == 1 else [0, 1, 2]) for i in range(n)], dtype=int).reshape(cs)
        ss = env.choose("sigma", ["scalar", "array"])
        sigma = np.array(0.3) if ss == "scalar" else (0.1 + 0.2 * np.arange(n)).reshape(cs)
        xp = choose_backend(env) if n < 3 else np
        S = np.broadcast_to(sigma, cs)
        tot = int(count.sum())
        bound = (5 if tot < 4 else 3) if thorough else (3 if tot < 3 else 2)
        g = Gaussian(env, [int(c) for c in count.reshape(-1)], [float(s) for s in S.reshape(-1)], bound)
        got = glass.ellipticity_gaussian(xp.asarray(count), xp.asarray(sigma), rng=ScriptRNG(gauss=g))
        env.check(is_backend(got, xp), "array type")
        env.check(g.e is None, "returned before all values were accepted")
        expect_close(env, got, np.array(g.final, dtype=complex), "ellipticities", rtol=1e-12, atol=1e-12)
        env.outcome(np.round(to_np(got), 9).tolist())
        env.state((count.tolist(), g.bound, g.draws))

    def gauss_pool(env):
        """Whatever the order of the random numbers."""
        cs, ss, dims = pops(env)
        c0 = env.choose("count", [0, 1, 4])
        mul = env.choose("numbers", [0.3, 1.0, 3.0])
        func = env.choose("function", ["gaussian", "intnorm"])
        py = cs == () and ss == () and env.choose("scalars", [False, True])
        xp = choose_backend(env)
        n = int(np.prod(cs))
        count = (c0 + (np.arange(n) if n > 1 else np.zeros(n))).astype(int).reshape(cs)
        sigma = (0.25 + 0.1 * np.arange(np.prod(ss))).reshape(ss)
        f = lambda i: mul * 2 * (weyl(i) - 0.5)
        seq = SeqSource(f)
        fn = getattr(glass, "ellipticity_" + func)
        if py:
            got = fn(int(count), float(sigma), rng=ScriptRNG(gauss=seq), xp=xp)
        else:
            got = fn(xp.asarray(count), xp.asarray(sigma), rng=ScriptRNG(gauss=seq))
        env.check(is_backend(got, xp), "array type")
        got = to_np(got)
        C, S = np.broadcast_to(count, dims).reshape(-1), np.broadcast_to(sigma, dims).reshape(-1)
        env.check(got.shape == (C.sum(),), "number of ellipticities", got=got.shape, want=C.sum())
        env.check(np.isfinite(got).all() and (np.abs(got) <= 1 + 1e-12).all(), "outside of unit disc", got=got)
        s = np.repeat(S, C)
        if func == "gaussian":
            z = got / s
        else:
            env.check(seq.i == 2 * C.sum(), "number of random numbers")
            eta = 2 * np.arctanh(np.abs(got)) * got / np.abs(np.where(got == 0, 1, got))
            z = eta / (s * np.sqrt((8 + 5 * s**2) / (2 - 4 * s**2)))
        pool = np.array([f(i) for i in range(seq.i)])
        if len(z):
            re, im = (np.abs(x[:, None] - pool) for x in (z.real, z.imag))
            env.check(max(re.min(1).max(), im.min(1).max()) < 1e-9, "ellipticity does not follow from random numbers")
            env.check(len({*re.argmin(1), *im.argmin(1)}) == 2 * len(z), "random number used more than once")
        env.outcome(np.round(got, 9).tolist())

    def intnorm(env):
        g1 = env.choose("g1", [0.0, 1e-12, -0.3, 1.0, -4.0, 30.0])
        g2 = env.choose("g2", [0.0, -1e-9, 0.5, 2.0, -40.0])
        sigma = env.choose("sigma", [0.0, 1e-8, 0.1, 0.3, 0.5, 0.7, 0.707, -0.1, 0.5**0.5, 0.8])
        xp = choose_backend(env)
        py = env.choose("scalar", [False, True])
        it = iter([g1, g2])
        rng = ScriptRNG(gauss=lambda s: np.array([next(it) for _ in range(int(np.prod(s)))]))
        s = sigma if py else xp.asarray([sigma])
        f = lambda: glass.ellipticity_intnorm(1 if py else xp.asarray([1]), s, rng=rng, **({"xp": xp} if py else {}))
        if sigma < 0 or sigma >= 0.5**0.5:
            expect_raises(env, ValueError, f, "inadmissible sigma")
            return
        got = to_np(f())
        eta = (g1 + 1j * g2) * sigma * np.sqrt((8 + 5 * sigma**2) / (2 - 4 * sigma**2))
        r = abs(eta)
        want = eta * (np.tanh(r / 2) / r if r > 0 else 1)
        expect_close(env, got, [want], "ellipticity", rtol=1e-9, atol=1e-300)
        env.check(np.abs(got).max() <= 1 + 1e-12, "outside of unit disc")
        env.outcome(np.round(got, 12).tolist())

    RATIOS = [0.0, 1e-3, 0.3, 0.5, 0.9, 1.0]
    US = [0.0, 0.125, 0.25, 0.4, 0.5, 0.6180339887, 0.75, 0.9, 1 - 2.0**-40]

    def axis_ratio(env):
        zeta = env.choose("zeta", RATIOS)
        xi = env.choose("xi", [x for x in RATIOS if x <= zeta])
        xp = choose_backend(env)
        how = env.choose("how", ["size", "shape", "scalar size"])
        u, v = (x.reshape(-1) for x in np.meshgrid(US, US, indexing="ij"))
        n = len(u)
        draws = iter([u, v])
        rng = ScriptRNG(unit=lambda s: next(draws))
        if how == "size":
            q = glass.triaxial_axis_ratio(xp.asarray(zeta), xp.asarray(xi), (n,), rng=rng)
        elif how == "shape":
            q = glass.triaxial_axis_ratio(xp.full((n,), zeta), xp.full((n,), xi), rng=rng)
        else:
            q = glass.triaxial_axis_ratio(zeta, xi, n, rng=rng, xp=xp)
        env.check(is_backend(q, xp), "array type")
        q = to_np(q)
        env.check(q.shape == (n,), "shape")
        want = np.array([projected(zeta, xi, 2 * a - 1, 2 * np.pi * b) for a, b in zip(u, v)])
        ok = np.full(n, True)
        if zeta == 0:
            # a needle seen end on has no axis ratio
            ok = (2 * u - 1) ** 2 + (1 - (2 * u - 1) ** 2) * np.sin(2 * np.pi * v) ** 2 > 1e-6
        env.check(np.isfinite(q[ok]).all(), "axis ratio is not finite", got=q)
        env.check((q[ok] >= 0).all() and (q[ok] <= 1 + 1e-12).all(), "axis ratio outside of unit interval", got=q)
        # rounding of a vanishing ratio is amplified by the square root
        env.check(np.abs(q - want)[ok].max() < 2e-5, "axis ratio of projected ellipsoid", got=q, want=want)
        env.check(np.abs(q**2 - want**2)[ok].max() < 1e-9, "axis ratio of projected ellipsoid", got=q, want=want)
        env.outcome(np.round(q, 6).tolist())

    def ratio_shapes(env):
        zs = env.choose("shape of zeta", [(), (2,), (3,), (2, 1), (1, 3)])
        xs = env.choose("shape of xi", [(), (1,), (3,), (2, 3), (2, 1)])
        try:
            dims = np.broadcast_shapes(zs, xs)
        except ValueError:
            raise Prune from None
        size = env.choose("size", [None, "dims", "more"])
        xp = choose_backend(env)
        zeta = (0.6 + 0.05 * np.arange(np.prod(zs))).reshape(zs)
        xi = (0.2 + 0.05 * np.arange(np.prod(xs))).reshape(xs)
        out = dims if size != "more" else (2, *dims)
        blocks = []

        def unit(s):
            b = (0.15 + 0.23 * len(blocks) + 0.071 * np.arange(np.prod(s))).reshape(s) % 1
            blocks.append(b)
            return b

        kw = {} if size is None else {"size": out}
        q = to_np(glass.triaxial_axis_ratio(xp.asarray(zeta), xp.asarray(xi), rng=ScriptRNG(unit=unit), **kw))
        env.check(q.shape == out, "shape", got=q.shape, want=out)
        env.check(len(blocks) == 2 and all(b.shape == out for b in blocks), "random direction for each element", got=[b.shape for b in blocks])
        Z, X = np.broadcast_to(zeta, out), np.broadcast_to(xi, out)
        ok = []
        for a, b in itertools.permutations(blocks):
            w = np.array([projected(Z[k], X[k], 2 * a[k] - 1, 2 * np.pi * b[k]) for k in np.ndindex(*out)]).reshape(out)
            ok.append(np.abs(q - w).max() < 1e-9)
        env.check(any(ok), "axis ratios", got=q)

    def ryden(env):
        form = env.choose("form", ["scalars", "size 2", "size 3", "arrays", "array 1", "mixed", "matrix"])
        shape = {"scalars": (), "size 2": (2,), "size 3": (3,), "arrays": (2,), "array 1": (1,), "mixed": (2,), "matrix": (1, 2)}[form]
        n = int(np.prod(shape))
        xp = choose_backend(env) if n < 3 else np
        if form in ("scalars", "size 2", "size 3"):
            par = [np.array(v) for v in (-1.5, 0.4, 0.35, 0.15)]
        elif form == "mixed":
            par = [np.array([-1.5, -0.7]), np.array(0.4), np.array([0.35]), np.array([0.15, 0.2])]
        else:
            par = [v + 0.1 * np.arange(n).reshape(shape) for v in (-1.5, 0.4, 0.35, 0.15)]
        full = [np.broadcast_to(v, shape) for v in par]
        blocks = []

        def unit(s):
            b = ((0.15 + 0.23 * len(blocks) + 0.071 * np.arange(np.prod(s))) % 1).reshape(s)
            blocks.append(b)
            return b

        rng = Ryden(env, *full, (4 if thorough else 3) if n < 3 else 2, unit)
        kw = {"size": shape} if form.startswith("size") else {}
        if form == "size 2":
            kw = {"size": 2} if env.choose("size", ["int", "tuple"]) == "int" and xp is not BACKENDS["strict"] and xp is np else kw
        e = glass.ellipticity_ryden04(*(xp.asarray(p) for p in par), rng=rng, **kw)
        env.check(is_backend(e, xp), "array type")
        e = to_np(e)
        env.check(e.shape == shape, "shape of ellipticities", got=e.shape, want=shape)
        eps, gam = rng.final["eps"], rng.final["gam"]
        env.check(not np.isnan(eps).any() and not np.isnan(gam).any(), "returned before all values were accepted")
        env.check((np.abs(e) <= 1 + 1e-12).all(), "outside of unit disc")
        env.check(len(blocks) == 3 and all(b.size == n for b in blocks), "uniform random numbers", got=[b.shape for b in blocks])
        zeta = 1 - np.exp(eps)
        xi = (1 - gam) * zeta
        ok = []
        for a, b, c in itertools.permutations([b.reshape(-1) for b in blocks]):
            q = np.array([projected(zeta[k], xi[k], 2 * a[k] - 1, 2 * np.pi * b[k]) for k in range(n)])
            w = (1 - q) / (1 + q) * np.exp(2j * np.pi * c)
            ok.append(np.abs(w - e.reshape(-1)).max() < 1e-9)
        env.check(any(ok), "ellipticities do not follow from accepted values", got=e, eps=eps, gam=gam)
        env.outcome(np.round(e, 9).tolist())
        env.state((form, rng.rounds, rng.bound))

    def resample(env):
        shape = env.choose("shape", [(1,), (2,), (3,), (4,), (2, 2), ()])
        n = int(np.prod(shape))
        eps = np.array([env.choose(f"epsilon{i}", [0.0, 0.3, -0.6j, 0.5 + 0.5j, 0.8 - 0.5j] if n < 4 else [0.0, 0.3, 0.8 + 0.5j]) for i in range(n)], dtype=complex).reshape(shape)
        kind = env.choose("kind", ["none", "varg", "vargamma", "both"])
        vare = float(np.mean(np.abs(eps) ** 2))
        fr = env.choose("fraction", [0.0, 1e-9, 0.1, 0.5, 0.9, 1.5] if kind in ("varg", "vargamma") else [0.1])
        var = fr * vare
        xp = choose_backend(env) if n < 3 else np
        if vare == 0 and kind in ("varg", "vargamma"):
            raise Prune
        blocks = []

        def unit(s):
            b = ((0.15 + 0.23 * len(blocks) + 0.171 * np.arange(np.prod(s))) % 1).reshape(s)
            blocks.append(b)
            return b

        kw = {"none": {}, "varg": {"varg": var}, "vargamma": {"vargamma": var}, "both": {"varg": var, "vargamma": var}}[kind]
        x = xp.asarray(eps)
        f = lambda: glass.resample_shapes(x, rng=ScriptRNG(unit=unit), **kw)
        if kind == "both" or (fr > 1 and kind != "none"):
            expect_raises(env, ValueError, f, "inconsistent variance")
            return
        got = f()
        env.check(is_backend(got, xp), "array type")
        env.check((to_np(x) == eps).all(), "input was modified")
        got = to_np(got)
        env.check(got.shape == shape and np.isfinite(got).all(), "resampled shapes", got=got)
        env.check(len(blocks) == 1 and blocks[0].shape == shape, "one random orientation for each shape", got=[b.shape for b in blocks])
        r = np.abs(eps)
        p = np.exp(2j * np.pi * blocks[0])
        s = float(np.sum(np.abs(got) * r) / np.sum(r * r)) if r.any() else 1.0
        expect_close(env, got, s * r * p, "not a common factor with random orientation", rtol=1e-9, atol=1e-12)
        if kind == "none":
            want = 1.0
        elif kind == "vargamma":
            want = np.sqrt(1 - fr)
        else:
            a, b, c = var * np.mean(r**4), (1 - 2 * var) * vare, var - vare
            res = a * s**4 + b * s**2 + c
            env.check(abs(res) < 1e-9 * vare, "variance of lensed shapes", residual=res, scale=s)
            env.check(0 <= s <= 1 + 1e-9, "scale of shapes", got=s)
            want = s
        env.check(abs(s - want) < 1e-7 if fr == 1 else abs(s - want) < 1e-9, "scale of shapes", got=s, want=want)
        env.outcome(np.round(got, 9).tolist())

    return [
        Space("gauss_reject", gauss_reject, "all counts of up to three populations, all outcomes of draws up to 2-3 (thorough: 5) rejections", 4),
        Space("gauss_pool", gauss_pool, "all shapes of counts and widths, both ellipticity samplers", 3),
        Space("intnorm", intnorm, "6 x 5 pairs of random numbers, 10 widths", 2),
        Space("axis_ratio", axis_ratio, "all pairs of 6 axis ratios, 9 x 9 directions", 3),
        Space("ratio_shapes", ratio_shapes, "all broadcast shapes", 2),
        Space("ryden", ryden, "all outcomes of draws up to three rejections, 7 forms of parameters", 3),
        Space("resample", resample, "all shapes over three to five values up to four galaxies, six variances", 4),
    ]
