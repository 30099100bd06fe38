"""C20: dependence of samplers on random number generators."""

import copy
import hashlib
import json
import os
import subprocess
import sys
import warnings

import numpy as np

from mc.setup_env import BACKENDS, to_np  # first, selects the repository

import glass
import glass.healpix as hp
import glass.jax
import glass.rng
from mc.engine import Space
from mc.util import choose_backend

TECHNIQUE = "exhaustive exploration of all histories of sampler calls with two generators and the default, and of all interleavings of lazy samplers"
NOTE = (
    "All sequences of two (thorough: three) operations out of all samplers, each with one of two seeded generators or the "
    "default, for three backends; all interleavings of two lazily evaluated samplers; the reference is the same subsequence "
    "of calls on a fresh generator. Uses the real generators of NumPy and JAX."
)

Z = np.array([0.0, 0.5, 1.0, 1.5, 2.0])
NZ = np.array([0.0, 1.0, 3.0, 1.0, 0.5])
DELTA = 0.3 * np.cos(np.arange(48.0))
CLS = [np.array([1.0, 0.5, 0.2]), np.array([0.8, 0.3, 0.1]), np.array([0.3, 0.2, 0.1])]
DENS = 2e-7


def flat(x):
    """Nested results as a list of arrays."""
    if isinstance(x, (tuple, list)):
        return [a for v in x for a in flat(v)]
    return [np.array(to_np(x))]


def windows(xp):
    z = xp.asarray(Z)
    return [
        glass.RadialWindow(z, xp.asarray([0.0, 1.0, 0.5, 0.0, 0.0]), 0.5),
        glass.RadialWindow(z, xp.asarray([0.0, 0.0, 0.5, 1.0, 1.0]), 1.5),
    ]


OPS = {
    "positions": lambda r, xp: list(glass.positions_from_delta(DENS, xp.asarray(DELTA), rng=r, batch=20)),
    "positions2": lambda r, xp: list(glass.positions_from_delta(xp.asarray([DENS, DENS]), xp.asarray(DELTA), rng=r)),
    "uniform": lambda r, xp: list(glass.uniform_positions(xp.asarray([DENS, DENS / 2]), rng=r)),
    "redshifts": lambda r, xp: glass.redshifts(7, windows(xp)[0], rng=r),
    "redshifts_nz": lambda r, xp: glass.redshifts_from_nz(xp.asarray([3, 4]), xp.asarray(Z), xp.asarray(NZ), rng=r, warn=False),
    "redshifts_bins": lambda r, xp: glass.redshifts_from_bins(xp.asarray([1, 2, 1, 1, 2]), xp.asarray(Z), {1: xp.asarray(NZ), 2: xp.asarray(NZ[::-1].copy())}, rng=r),
    "phz": lambda r, xp: glass.gaussian_phz(xp.asarray(Z), 0.5, lower=0.0, upper=2.2, rng=r),
    "gaussian": lambda r, xp: glass.ellipticity_gaussian(xp.asarray([5, 6]), xp.asarray(0.6), rng=r),
    "intnorm": lambda r, xp: glass.ellipticity_intnorm(xp.asarray([5, 6]), xp.asarray(0.3), rng=r),
    "ryden": lambda r, xp: glass.ellipticity_ryden04(xp.asarray(-1.85), xp.asarray(0.89), xp.asarray(0.222), xp.asarray(0.056), (6,), rng=r),
    "ratio": lambda r, xp: glass.triaxial_axis_ratio(xp.asarray(0.8), xp.asarray(0.4), (5,), rng=r),
    "resample": lambda r, xp: glass.resample_shapes(xp.asarray([0.3 + 0.1j, 0.2j, -0.4]), rng=r),
    "distribute": lambda r, xp: glass.distribute(xp.asarray(np.linspace(0.5, 2.0, 30)), windows(xp), rng=r),
    "fields": lambda r, xp: list(glass.generate([lambda x, v: x, lambda x, v: x], [xp.asarray(c) for c in CLS], 2, rng=r)),
    "randang": lambda r, xp: hp.randang(2, xp.asarray([0, 5, 5, 47]), lonlat=True, rng=r),
}

# the samplers that return a single redraw without information can not repeat
BOOL = {"distribute"}


def make(kind, xp, op=None):
    """Generators: two seeds, and the documented default."""
    seed = {"A": 7, "B": 8, "default": glass.rng.SEED}[kind]
    # positions within pixels are sampled by a NumPy library
    if xp is BACKENDS["jax"] and not (kind == "default" and op == "randang"):
        return glass.jax.Generator(seed)
    return np.random.default_rng(seed)


def run(op, rng, xp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return flat(OPS[op](rng, xp))


MEMO = {}


def reference(kind, ops, xp):
    """Result of the last operation of a sequence on a fresh generator."""
    key = (kind, tuple(ops), xp.__name__)
    if key not in MEMO:
        g = make(kind, xp, ops[-1])
        for op in ops:
            r = run(op, g, xp)
        MEMO[key] = r
    return MEMO[key]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def digest(xp_name):
    xp = BACKENDS[xp_name]
    out = {}
    for op in OPS:
        if op == "distribute" and xp_name == "jax":
            continue  # compiles for every call
        for kind in ("A", None):
            r = run(op, make(kind, xp) if kind else None, xp)
            out[f"{op}/{kind}"] = hashlib.md5(b"".join(a.tobytes() for a in r)).hexdigest()
    return out


def spaces(tier):
    thorough = tier != "quick"
    names = list(OPS)

    def step(env, hist, gens, i, ops, kinds, xp):
        k = env.choose(f"generator{i}", kinds)
        op = env.choose(f"operation{i}", ops)
        if k == "default":
            r = run(op, None, xp)
            want = reference("default", [op], xp)
        else:
            hist[k].append(op)
            r = run(op, gens[k], xp)
            want = reference(k, hist[k], xp)
        env.check(same(r, want), f"{op} depends on more than its generator", generator=k, got=r, want=want)
        return k, op, r

    def histories(env):
        xp = choose_backend(env)
        depth = 2 + (thorough and xp is np)
        hist = {"A": [], "B": []}
        gens = {k: make(k, xp) for k in hist}
        done = []
        for i in range(depth):
            ops = names if thorough or xp is not BACKENDS["jax"] else ["positions", "uniform", "redshifts", "phz", "intnorm", "ryden", "ratio", "resample", "randang"]
            k, op, r = step(env, hist, gens, i, ops, ["A", "B", "default"], xp)
            for k2, op2, r2 in done:
                if op2 == op and op not in BOOL:
                    if k == k2 and k != "default":
                        env.check(not same(r, r2), f"{op} repeats its result", generator=k, got=r)
                    if k != k2:
                        env.check(not same(r, r2), f"{op} is the same for another generator", got=r)
            done.append((k, op, r))
        env.outcome([(k, op) for k, op, _ in done])

    def deeper(env):
        """Longer histories of a few samplers of each kind."""
        xp = choose_backend(env, ("numpy", "jax"))
        ops = ["positions", "intnorm", "phz", "randang"]
        hist = {"A": [], "B": []}
        gens = {k: make(k, xp) for k in hist}
        for i in range(4 if thorough and xp is np else 3):
            step(env, hist, gens, i, ops, ["A", "B", "default"], xp)
        env.outcome(hist)

    def globals_(env):
        """Global random state is neither used nor changed."""
        import random

        xp = choose_backend(env)
        op = env.choose("operation", names)
        k = env.choose("generator", ["A", "default"])
        seed = env.choose("global seed", [0, 1])
        np.random.seed(seed)
        random.seed(seed)
        before = (copy.deepcopy(np.random.get_state()[1].tolist()), random.getstate())
        g = make(k, xp) if k == "A" else None
        r = run(op, g, xp)
        env.check(same(r, reference(k, [op], xp)), f"{op} depends on global random state")
        after = (np.random.get_state()[1].tolist(), random.getstate())
        env.check(before == after, f"{op} changes global random state")

    def hidden(env):
        """Operations with a generator do not draw from generators that they make from fixed seeds or entropy."""
        xp = choose_backend(env)
        op = env.choose("operation", names)
        k = env.choose("generator", ["A", "B"])
        shift = env.choose("other outcomes of hidden sources", [1, 2])
        real_np, real_jax = np.random.default_rng, glass.jax.Generator.__init__
        seeds = []

        def fixed(seed):
            return seed is None or (isinstance(seed, (int, np.integer)) and not isinstance(seed, bool))

        def with_sources(kind, perturb):
            def default_rng(seed=None):
                seeds.append(("numpy", repr(seed)))
                if fixed(seed) and perturb is not None and ("numpy", repr(seed)) in perturb:
                    return real_np([shift, 0 if seed is None else int(seed)])
                return real_np(seed)

            def init(self, seed=None, **kw):
                seeds.append(("jax", repr(seed)))
                if fixed(seed) and perturb is not None and ("jax", repr(seed)) in perturb:
                    seed = (0 if seed is None else int(seed)) + 1000 * shift
                return real_jax(self, seed, **kw) if seed is not None else real_jax(self, **kw)

            g = make(kind, xp)
            seeds.clear()
            np.random.default_rng, glass.jax.Generator.__init__ = default_rng, init
            try:
                r = run(op, g, xp)
            finally:
                np.random.default_rng, glass.jax.Generator.__init__ = real_np, real_jax
            return r, set(seeds)

        r, s1 = with_sources(k, None)
        _, s2 = with_sources("B" if k == "A" else "A", None)
        both = s1 & s2
        if both:
            r2, _ = with_sources(k, both)
            env.check(same(r, r2), f"{op} draws from a source other than its generator", sources=sorted(both), got=r2, want=r)
        env.outcome((op, xp.__name__, sorted(both)))

    LAZY = {
        "positions": lambda r, xp: glass.positions_from_delta(DENS, xp.asarray(DELTA), rng=r, batch=40),
        "populations": lambda r, xp: glass.positions_from_delta(xp.asarray([DENS, DENS / 3]), xp.asarray(DELTA), rng=r, batch=60),
        "uniform": lambda r, xp: glass.uniform_positions(xp.asarray([DENS, DENS / 2, DENS / 4]), rng=r),
        "fields": lambda r, xp: glass.generate([lambda x, v: x] * 3, [xp.asarray(CLS[i % 2] * (1.0 if i in (0, 1, 3) else 0.1)) for i in range(6)], 1, rng=r),
    }

    def interleave(env):
        xp = choose_backend(env, ("numpy", "jax"))
        n1, n2 = env.choose("first", list(LAZY)), env.choose("second", list(LAZY))
        how = env.choose("generators", ["A B", "A default", "default default", "A A'"] if xp is np or thorough else ["A B", "A default"])
        mk = {"A": lambda: make("A", xp), "B": lambda: make("B", xp), "default": lambda: None, "A'": lambda: make("A", xp)}
        kinds = how.split()
        limit = 3
        want = []
        for n, k in zip((n1, n2), kinds):
            g = LAZY[n](mk[k](), xp)
            want.append([flat(next(g, "end")) for _ in range(limit)])
        gens = [LAZY[n](mk[k](), xp) for n, k in zip((n1, n2), kinds)]
        got = [[], []]
        raw = []
        while len(got[0]) < limit or len(got[1]) < limit:
            i = env.choose("advance", [j for j in (0, 1) if len(got[j]) < limit])
            x = next(gens[i], "end")
            raw.append((x, flat(x)))
            got[i].append(flat(x))
        for i in (0, 1):
            for a, b in zip(got[i], want[i]):
                env.check(same(a, b), "lazy sampler depends on another sampler", sampler=(n1, n2)[i], got=a, want=b)
        for x, f in raw:
            env.check(same(flat(x), f), "yielded result changed later")
        env.outcome((n1, n2, how))

    def processes(env):
        name = env.choose("backend", ["numpy", "strict", "jax"])
        seed = env.choose("hash seed", ["1", "2"])
        code = "import json,sys; from checks.c20 import digest; print(json.dumps(digest(sys.argv[1])))"
        e = dict(os.environ, PYTHONHASHSEED=seed)
        p = subprocess.run([sys.executable, "-c", code, name], env=e, capture_output=True, text=True)
        env.check(p.returncode == 0, "cannot run in new process", err=p.stderr[-2000:])
        there = json.loads(p.stdout.splitlines()[-1])
        here = digest(name)
        for k in here:
            env.check(here[k] == there[k], "result differs in another process", operation=k)

    return [
        Space("histories", histories, "all sequences of two (thorough, numpy: three) of 15 operations with two generators and the default, 3 backends", 3),
        Space("deeper", deeper, "all sequences of three (thorough: four) of four operations", 3),
        Space("globals", globals_, "all operations with two global seeds", 2),
        Space("hidden", hidden, "all operations with two generators and two other outcomes of hidden sources", 2),
        Space("interleave", interleave, "all interleavings of two lazy samplers with three steps each", 4),
        Space("processes", processes, "two other processes per backend", 2),
    ]
