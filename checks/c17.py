"""C17: photometric redshifts with Gaussian errors."""

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.rng import ScriptRNG, SeqSource, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, is_backend

TECHNIQUE = "exhaustive exploration of all sequences of accepted and rejected random numbers of the sampler against a per-element model"
NOTE = (
    "The explorer chooses for every draw of every element whether it falls below, within, or above the bounds of that "
    "element, up to four (thorough: six) rejections in total, for up to three elements; all forms of bounds and shapes. "
    "Distributions follow because the result is mean plus width times the standard normal number of that element."
)


class Chooser:
    """Answers normal draws so that each element is accepted or rejected as chosen."""

    def __init__(self, env, z, s, lo, hi, bound):
        self.env, self.bound = env, bound
        self.z, self.s, self.lo, self.hi = (np.asarray(x, dtype=float).reshape(-1) for x in (z, s, lo, hi))
        self.n = len(self.z)
        self.dims = np.shape(z)
        self.final = np.full(self.n, np.nan)
        self.round = 0
        self.weak = False
        self.poison = None

    def value(self, i, kind):
        lo, hi = self.lo[i], self.hi[i]
        if kind == "below":
            return lo - 0.01 * (1 + self.round) - 0.5 * (self.round % 2)
        if kind == "above":
            return hi + 0.02 * (1 + self.round) + 0.7 * (self.round % 2)
        t = (0.31 + 0.17 * self.round + 0.05 * i) % 1
        if kind == "other":  # acceptable, but never to be used
            t = (t + 0.4) % 1
        return lo + t * ((hi if np.isfinite(hi) else lo + 1.0) - lo)

    def __call__(self, shape):
        size = int(np.prod(shape))
        todo = np.flatnonzero(np.isnan(self.final))
        if size == self.n and tuple(shape) in (self.dims, (self.n,)):
            who = list(range(self.n))
        elif size == len(todo):
            who = list(todo)
        else:
            self.env.fail("draws random numbers for other than all or the rejected elements", shape=shape, rejected=todo)
        out = np.zeros(size)
        for j, i in enumerate(who):
            if np.isnan(self.final[i]):
                opts = ["within"]
                if self.bound > 0 and np.isfinite(self.lo[i]):
                    opts.append("below")
                if self.bound > 0 and np.isfinite(self.hi[i]):
                    opts.append("above")
                kind = self.env.choose(f"draw{self.round} of {i}", opts)
                v = self.value(i, kind)
                if kind == "within":
                    self.final[i] = v
                else:
                    self.bound -= 1
            else:
                if self.poison is None:
                    self.poison = self.env.choose("draws of accepted elements", ["other", "below"])
                v = self.value(i, self.poison)
            out[j] = (v - self.z[i]) / self.s[i]
        self.round += 1
        return out.reshape(shape)


def spaces(tier):
    thorough = tier != "quick"

    def rejection(env):
        shape = env.choose("shape", [(), (1,), (2,), (3,), (1, 2), (2, 1)])
        n = int(np.prod(shape))
        b = env.choose("bounds", ["none", "lower", "upper", "both", "lower array", "upper array", "both arrays", "scalar array", "array scalar", "negative"])
        xp = choose_backend(env) if n < 3 else choose_backend(env, ("numpy", "jax"))
        z = (0.4 + 0.35 * np.arange(n)).reshape(shape)
        s0 = 0.05
        lo1, hi1 = 0.1, 1.7
        loa = (0.05 + 0.3 * np.arange(n)).reshape(shape)
        hia = (0.9 + 0.4 * np.arange(n)).reshape(shape)
        lower, upper = {
            "none": (None, None), "lower": (lo1, None), "upper": (None, hi1), "both": (lo1, hi1),
            "lower array": (loa, None), "upper array": (None, hia), "both arrays": (loa, hia),
            "scalar array": (lo1, hia), "array scalar": (loa, hi1), "negative": (-1.0, 0.5),
        }[b]
        ch = Chooser(env, z, (1 + z) * s0, np.broadcast_to(0.0 if lower is None else lower, shape),
                     np.broadcast_to(np.inf if upper is None else upper, shape), 6 if thorough else (4 if n < 3 else 3))
        conv = lambda x: x if x is None or type(x) is float else xp.asarray(x)
        got = glass.gaussian_phz(xp.asarray(z), s0, lower=conv(lower), upper=conv(upper), rng=ScriptRNG(gauss=ch))
        env.check(is_backend(got, xp), "array type")
        env.check(not np.isnan(ch.final).any(), "returned before all values were accepted", got=got)
        expect_close(env, got, ch.final.reshape(shape), "photometric redshifts", rtol=1e-12, atol=1e-12)
        env.outcome((b, np.round(to_np(got), 9).tolist()))
        env.state((b, shape, ch.round, ch.bound))

    SH = [(), (1,), (3,), (2, 1), (1, 3), (2, 3)]

    def shapes(env):
        zs, ss = env.choose("shape of z", SH), env.choose("shape of sigma", SH)
        try:
            dims = np.broadcast_shapes(zs, ss)
        except ValueError:
            raise Prune from None
        bs = env.choose("bounds", ["none", "scalar", "array"])
        xp = choose_backend(env)
        mul = env.choose("numbers", [0.0, 1.0, 3.0])
        py = zs == () and ss == () and env.choose("scalars", [False, True])
        z = (0.1 + 0.4 * np.arange(np.prod(zs))).reshape(zs)
        s = (0.02 + 0.03 * np.arange(np.prod(ss))).reshape(ss)
        Z, S = np.broadcast_to(z, dims), np.broadcast_to((1 + z) * s, dims)
        lo = {"none": None, "scalar": 0.0, "array": np.maximum(Z - 0.1, 0)}[bs]
        hi = {"none": None, "scalar": 2.5, "array": Z + 0.12}[bs]
        seq = SeqSource(lambda i: mul * (2 * weyl(i) - 1))
        conv = lambda x: x if x is None or type(x) is float else xp.asarray(x)
        if py:
            got = glass.gaussian_phz(float(z), float(s), lower=None if lo is None else float(lo), upper=None if hi is None else float(hi),
                                     rng=ScriptRNG(gauss=seq), xp=xp)
        else:
            got = glass.gaussian_phz(xp.asarray(z), xp.asarray(s), lower=conv(lo), upper=conv(hi), rng=ScriptRNG(gauss=seq))
        got = to_np(got)
        env.check(got.shape == dims, "shape", got=got.shape, want=dims)
        L = np.broadcast_to(0.0 if lo is None else lo, dims)
        H = np.broadcast_to(np.inf if hi is None else hi, dims)
        env.check((got >= L).all() and (got <= H).all(), "outside of bounds", got=got, lower=L, upper=H)
        if seq.i == got.size:
            # nothing was rejected
            g = np.array([mul * (2 * weyl(i) - 1) for i in range(got.size)]).reshape(dims)
            expect_close(env, got, Z + S * g, "photometric redshifts", rtol=1e-12, atol=1e-12)
        else:
            # every value belongs to one of the random numbers
            g = ((got - Z) / S).reshape(-1)
            pool = np.array([mul * (2 * weyl(i) - 1) for i in range(seq.i)])
            env.check((np.abs(g[:, None] - pool).min(axis=1) < 1e-9).all(), "value is not a random number", got=got)
            first = Z + S * pool[: got.size].reshape(dims)
            ok = (first >= L + 1e-9) & (first <= H - 1e-9)
            env.check(np.abs(first - got)[ok].max(initial=0) < 1e-12, "accepted value was drawn again")
        env.outcome(np.round(got, 9).tolist())

    BAD = [0.0, 0.5, 1.0, 1.5]

    def invalid(env):
        shape = env.choose("shape", [(), (1,), (2,), (2, 2)])
        n = int(np.prod(shape))
        kind = env.choose("kind", ["scalar", "array", "shape"])
        xp = choose_backend(env)
        z = np.full(shape, 0.75)
        rng = lambda: ScriptRNG(gauss=lambda s: np.zeros(s))
        if kind == "shape":
            # bounds of another shape than the redshifts
            bshape = env.choose("shape of bounds", [(1,), (3,), (2,), (1, 2), (2, 2)])
            lo, hi = np.full(bshape, 0.1), np.full(bshape, 1.0)
            if bshape == shape:
                raise Prune
            expect_raises(env, ValueError, lambda: glass.gaussian_phz(xp.asarray(z), 0.1, lower=xp.asarray(lo), upper=xp.asarray(hi), rng=rng()), "bounds of other shape")
            return
        if kind == "scalar":
            lo, hi = env.choose("lower", [None, *BAD, 2.0]), env.choose("upper", [None, -1.0, *BAD])
            bad = (0.0 if lo is None else lo) >= (np.inf if hi is None else hi)
            conv = lambda x: x
            inside = (0.0 if lo is None else lo) < 0.75 < (np.inf if hi is None else hi)
        else:
            lo = np.array([env.choose(f"lower{i}", [0.0, 0.5, 1.0] if n < 3 else [0.5, 1.0]) for i in range(n)]).reshape(shape)
            hi = np.array([env.choose(f"upper{i}", [0.0, 1.0, 1.5] if n < 3 else [0.5, 1.0]) for i in range(n)]).reshape(shape)
            bad = bool((lo >= hi).any())
            conv = xp.asarray
            inside = bool(((lo < 0.75) & (hi > 0.75)).all())
        f = lambda: glass.gaussian_phz(xp.asarray(z), 0.1, lower=conv(lo), upper=conv(hi), rng=rng())
        if bad:
            expect_raises(env, ValueError, f, "inconsistent bounds")
        elif inside:
            expect_close(env, f(), z, "photometric redshifts")
        else:
            raise Prune  # not attainable by the random numbers here

    return [
        Space("rejection", rejection, "all outcomes of all draws for up to three elements, four (three elements: three; thorough: six) rejections, 10 forms of bounds", 4),
        Space("shapes", shapes, "all broadcast shapes of redshifts and widths", 3),
        Space("invalid", invalid, "all bounds over small alphabets", 4),
    ]
