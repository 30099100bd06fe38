"""C21: the JAX random number generator."""

import itertools
import threading

import jax
import numpy as np

import glass.jax
from mc.engine import Prune, Space
from mc.sched import Deadlock, Lock, Scheduler, replace_locks
from mc.setup_env import BACKENDS, to_np
from mc.util import expect_close, expect_raises

TECHNIQUE = "controlled scheduler that explores all thread interleavings at bytecode granularity up to a preemption bound, checked for linearisability; exhaustive histories for key uniqueness"
NOTE = (
    "All interleavings of two threads with one call each up to two preemptions, for all pairs of methods, and of two threads with "
    "two calls or three threads with one call up to one (thorough: two) preemptions, at every bytecode instruction of glass/jax.py; "
    "calls into JAX are atomic. All histories of four calls for uniqueness of keys. Trusts the key splitting of JAX."
)

OPS = {
    "random": lambda g: g.random(2),
    "normal": lambda g: g.normal(1.0, 2.0, 2),
    "standard_normal": lambda g: g.standard_normal(2),
    "uniform": lambda g: g.uniform(1.0, 2.0, 2),
    "poisson": lambda g: g.poisson(1e6, 2),
    "split": lambda g: g.split(2),
    "split1": lambda g: g.split(),
    "spawn": lambda g: g.spawn(2),
}


def result(x):
    """Comparable form of a result."""
    if isinstance(x, glass.jax.Generator):
        return ("generator", tuple(np.ravel(jax.random.key_data(x.key)).tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(result(v) for v in x)
    if jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        return ("key", tuple(np.ravel(jax.random.key_data(x)).tolist()))
    return tuple(np.ravel(np.asarray(x)).tolist())


MEMO = {}


def sequential(program):
    """Results of a sequence of (thread, operation) on a fresh generator."""
    key = tuple(program)
    if key not in MEMO:
        g = glass.jax.Generator(3)
        MEMO[key] = tuple(result(OPS[op](g)) for _, op in program)
    return MEMO[key]


def merges(progs):
    """All orders of the calls that keep the order within each thread."""
    ids = [t for t, p in enumerate(progs) for _ in p]
    for order in sorted(set(itertools.permutations(ids))):
        pos = [0] * len(progs)
        out = []
        for t in order:
            out.append((t, progs[t][pos[t]]))
            pos[t] += 1
        yield out


class PatchedThreading:
    """Stand-in for module ``threading`` with controlled locks."""

    def __init__(self, sched):
        self.sched = sched

    def __getattr__(self, name):
        if name == "Lock":
            return lambda: Lock(self.sched)
        if name == "RLock":
            return lambda: Lock(self.sched, reentrant=True)
        return getattr(threading, name)


def schedules(env, progs, bound):
    sched = Scheduler(env, [glass.jax], bound)
    real = getattr(glass.jax, "threading", None)
    if real is not None:
        glass.jax.threading = PatchedThreading(sched)
    try:
        g = glass.jax.Generator(3)
        replace_locks(sched, g)
        funcs = [lambda p=p: [OPS[op](g) for op in p] for p in progs]
        try:
            res = sched.run(funcs)
        except Deadlock as e:
            env.fail(f"deadlock: {e}", "deadlock")
        after = g.random(2)
    finally:
        if real is not None:
            glass.jax.threading = real
    got = [[result(x) for x in r] for r in res]
    orders = []
    for order in merges(progs):
        want = sequential(order)
        per = [[] for _ in progs]
        for (t, _), w in zip(order, want):
            per[t].append(w)
        if per == got:
            orders.append(order)
    env.check(orders, "results are those of no sequential order of the calls", "race", got=got)
    # state of the generator afterwards
    fin = {sequential(order + [(0, "random")])[-1] for order in orders}
    env.check(result(after) in fin, "state of the generator after the calls", "race")
    env.outcome(tuple(map(tuple, got)))
    env.state((sched.points, sched.switches))


def spaces(tier):
    thorough = tier != "quick"

    def two(env):
        a = env.choose("thread 0", list(OPS))
        b = env.choose("thread 1", list(OPS))
        few = {"random", "split", "spawn"}
        schedules(env, [[a], [b]], (3 if {a, b} <= few else 2) if thorough else (2 if {a, b} <= few else 1))

    def more(env):
        kind = env.choose("threads", ["2x2", "3x1"])
        a = env.choose("operation", ["random", "uniform", "split", "spawn"])
        b = env.choose("other operation", ["normal", "spawn", "split1"])
        progs = [[a, b], [b, a]] if kind == "2x2" else [[a], [b], [a]]
        schedules(env, progs, 2 if thorough and a in ("random", "spawn") else 1)

    # -- histories ------------------------------------------------------------

    class Record:
        """Record every key that is consumed."""

        NAMES = ("uniform", "normal", "poisson", "multinomial", "split", "bits", "fold_in", "randint", "exponential", "gamma",
                 "binomial", "categorical", "truncated_normal", "choice", "permutation", "bernoulli")

        def __enter__(self):
            self.used, self.depth = [], 0
            self.real = {n: getattr(jax.random, n) for n in self.NAMES}
            for n, f in self.real.items():
                setattr(jax.random, n, self.wrap(n, f))
            return self

        def __exit__(self, *a):
            for n, f in self.real.items():
                setattr(jax.random, n, f)

        def wrap(self, name, f):
            def wrapped(key, *a, **kw):
                if self.depth == 0:
                    self.used.append((name, tuple(np.ravel(jax.random.key_data(key)).tolist())))
                self.depth += 1
                try:
                    return f(key, *a, **kw)
                finally:
                    self.depth -= 1

            return wrapped

    HIST = ["random", "normal", "poisson", "split", "spawn", "bad size", "bad dtype", "child"]

    def play(env, history, impl=None):
        """Perform a history; returns results and all keys."""
        gens = [glass.jax.Generator(11, impl=impl) if impl else glass.jax.Generator(11)]
        draws, given = [], []
        for op in history:
            if op == "child":
                # go on with a child generator
                gens.insert(0, gens[0].spawn(1)[0])
                continue
            g = gens[0]
            if op == "bad size":
                try:
                    g.normal(np.zeros(3), 1.0, 2)
                    env.fail("inconsistent size was accepted")
                except ValueError:
                    pass
            elif op == "bad dtype":
                try:
                    g.random(2, dtype=int)
                    env.fail("integer dtype was accepted")
                except (ValueError, TypeError):
                    pass
            elif op == "split":
                ks = g.split(2)
                given += [tuple(np.ravel(k).tolist()) for k in np.asarray(jax.random.key_data(ks))]
            elif op == "spawn":
                gens += g.spawn(2)
            else:
                draws.append((op, OPS[op](g)))
        # every generator goes on to draw
        for g in gens:
            draws.append(("random", g.random(2)))
        return draws, given, gens

    def histories(env):
        depth = 4 if thorough else 3
        history = []
        for i in range(depth):
            op = env.choose(f"call {i}", [*HIST, None])
            if op is None:
                break
            history.append(op)
        with Record() as rec:
            draws, given, gens = play(env, history)
        keys = [k for _, k in rec.used]
        env.check(len(set(keys)) == len(keys), "key is used more than once", history=history, used=rec.used)
        env.check(len(set(given)) == len(given) and not set(given) & set(keys), "key is handed out and used", history=history)
        now = [tuple(np.ravel(jax.random.key_data(g.key)).tolist()) for g in gens]
        env.check(len(set(now)) == len(now) and not set(now) & set(keys) and not set(now) & set(given), "generators share a key", history=history)
        vals = [v for op, x in draws for v in np.ravel(np.asarray(x)).tolist() if op != "poisson"]
        env.check(len(set(vals)) == len(vals), "random numbers are repeated", history=history)
        again, _, _ = play(env, history)
        env.check(len(again) == len(draws) and all(np.array_equal(a[1], b[1]) for a, b in zip(draws, again)), "not deterministic", history=history)
        env.outcome(vals)

    SH = [(), (1,), (2,), (3,), (2, 3), (2, 1)]
    SIZES = [None, 0, 2, 3, (), (2,), (2, 3), (0,), (3, 2), (1,)]

    def protocol(env):
        method = env.choose("method", ["random", "standard_normal", "normal", "uniform", "poisson"])
        size = env.choose("size", SIZES)
        seed = env.choose("seed", [1, 2])
        s1 = env.choose("shape of first parameter", [None, *SH] if method in ("normal", "uniform", "poisson") else [None])
        s2 = env.choose("shape of second parameter", [None, *SH] if method in ("normal", "uniform") else [None])
        if method == "poisson" and s1 is None:
            raise Prune
        xp = BACKENDS["jax"]
        v = lambda s, o: o if s is None else o + 0.5 * np.arange(np.prod(s)).reshape(s)
        c = lambda x: x if isinstance(x, float) else xp.asarray(x)
        par = []
        if method in ("normal", "uniform"):
            par = [v(s1, 0.5), v(s2, 10.0)]
        elif method == "poisson":
            par = [v(s1, 1e4) if s1 != (2,) else np.array([0.0, 1e4])]
        n = np.random.default_rng(1)
        try:
            want = np.shape(getattr(n, method)(*par, size))
            err = None
        except ValueError as e:
            err = e
        g = glass.jax.Generator(seed)
        f = lambda: getattr(g, method)(*[c(p) for p in par], size)
        try:
            bc = np.broadcast_shapes(*map(np.shape, par)) if par else ()
        except ValueError:
            bc = None
        full = None if size is None else ((size,) if isinstance(size, int) else size)
        if err is not None:
            expect_raises(env, (ValueError, TypeError), f, "parameters and size do not broadcast")
            return
        if full is not None and bc and full != bc:
            # NumPy broadcasts to a larger shape, which is not supported by the wrapper
            expect_raises(env, (ValueError, TypeError), f, "size other than that of the parameters")
            return
        x = f()
        got = to_np(x)
        env.check(got.shape == want, "shape of random numbers", got=got.shape, want=want)
        env.check(got.dtype == (np.int64 if method == "poisson" else np.float64), "type of random numbers", got=got.dtype)
        # parameters of the distribution: same key with standard parameters
        h = glass.jax.Generator(seed)
        if method == "normal":
            expect_close(env, got, par[0] + par[1] * to_np(h.standard_normal(want)), "mean and standard deviation", rtol=1e-12)
        elif method == "uniform":
            expect_close(env, got, par[0] + (par[1] - par[0]) * to_np(h.random(want)), "range", rtol=1e-12, atol=1e-12)
            lo, hi = np.minimum(*par), np.maximum(*par)
            env.check(((got >= lo) & (got <= hi)).all(), "outside of range")
        elif method == "random":
            env.check(((got >= 0) & (got < 1)).all(), "outside of range")
        elif method == "poisson":
            lam = np.broadcast_to(par[0], want)
            env.check((np.abs(got - lam) <= 8 * np.sqrt(lam)).all(), "expectation", got=got)
        if got.size > 1 and method != "poisson":
            z = got if not par else (got - par[0]) / (par[1] - (par[0] if method == "uniform" else 0))
            env.check(len(np.unique(z)) == got.size, "repeated random numbers")
        for dt in (np.float32, np.float64) if method not in ("poisson", "uniform") else ():
            y = getattr(glass.jax.Generator(seed), method)(*[c(p) for p in par], size, dtype=dt)
            env.check(y.shape == want and (y.dtype == dt or method == "normal"), "requested type", got=y.dtype, want=dt)
        env.outcome(got.tolist())

    def defaults(env):
        """Parameters that are not given have their standard values."""
        method, std = env.choose("method", [("normal", "standard_normal"), ("uniform", "random")])
        given = env.choose("given", ["none", "first", "second"])
        p = env.choose("value", [-2.0, 0.0, 0.5]) if given != "none" else None
        if given == "second":
            p = p + 3.0
        size = env.choose("size", [None, 4, (2, 3)])
        seed = env.choose("seed", [1, 2])
        key = {"normal": ("loc", "scale"), "uniform": ("low", "high")}[method]
        kw = {} if given == "none" else {key[given == "second"]: p}
        got = to_np(getattr(glass.jax.Generator(seed), method)(size=size, **kw))
        u = to_np(getattr(glass.jax.Generator(seed), std)(size))
        a, b = kw.get(key[0], 0.0), kw.get(key[1], 1.0)
        env.check(got.shape == u.shape, "shape of random numbers", got=got.shape, want=u.shape)
        expect_close(env, got, a + u * (b if method == "normal" else b - a), "standard parameters", rtol=1e-12, atol=1e-12)

    def moments(env):
        """Distribution of the draws, to be sure that the right one is sampled."""
        m = env.choose("method", ["random", "standard_normal", "normal", "uniform", "poisson"])
        seed = env.choose("seed", [0, 1, 2, 3])
        g = glass.jax.Generator(seed)
        n = 100_000
        x = {"random": lambda: g.random(n), "standard_normal": lambda: g.standard_normal(n), "normal": lambda: (g.normal(3.0, 2.0, n) - 3) / 2,
             "uniform": lambda: (g.uniform(-2.0, 3.0, n) + 2) / 5, "poisson": lambda: g.poisson(4.0, n)}[m]()
        x = np.sort(to_np(x))
        if m == "poisson":
            env.check(abs(x.mean() - 4) < 0.06 and abs(x.var() - 4) < 0.15, "moments of Poisson numbers")
            return
        from scipy import stats

        ref = stats.norm.cdf(x) if "normal" in m else x
        env.check(np.abs(ref - (np.arange(n) + 0.5) / n).max() < 0.01, "distribution of random numbers")

    def multinomial(env):
        ns = env.choose("shape of n", [(), (2,)])
        ps = env.choose("shape of pvals", [(3,), (2, 3), (1, 1)])
        size = env.choose("size", [None, (2,)])
        seed = env.choose("seed", [1, 2])
        n = np.array(5) if ns == () else np.array([4, 7])
        p = np.array([[0.2, 0.0, 0.8], [0.0, 1.0, 0.0]])[: ps[0] if len(ps) > 1 else 1, : ps[-1]]
        p = p / p.sum(-1, keepdims=True)
        p = p[0] if len(ps) == 1 else p
        bc = np.broadcast_shapes(ns, ps[:-1])
        if size is not None and bc and size != bc:
            raise Prune
        want = np.shape(np.random.default_rng(1).multinomial(n, p, size))
        g = glass.jax.Generator(seed)
        got = to_np(g.multinomial(n, p, size))
        env.check(got.shape == want, "shape", got=got.shape, want=want)
        env.check(np.issubdtype(got.dtype, np.integer) and (got >= 0).all(), "counts", got=got)
        env.check((got.sum(-1) == np.broadcast_to(n, got.shape[:-1])).all(), "sum of counts", got=got)
        env.check((got[np.broadcast_to(p, got.shape) == 0] == 0).all(), "impossible outcome", got=got)

    def keys(env):
        kind = env.choose("kind", ["key", "array key", "raw", "int", "none", "float array", "list"])
        seed = env.choose("seed", [0, 1, 12345])
        impl = env.choose("impl", [None, "threefry2x32", "rbg"])
        k = jax.random.key(seed, impl=impl)
        if kind == "key":
            a = glass.jax.Generator.from_key(k)
            b = glass.jax.Generator(seed, impl=impl)
            for op in OPS:
                if impl == "rbg" and op == "poisson":
                    continue
                env.check(result(OPS[op](a)) == result(OPS[op](b)), "generator from key differs", operation=op)
            # the key that was given remains usable
            env.check(np.array_equal(jax.random.key_data(k), jax.random.key_data(jax.random.key(seed, impl=impl))), "key was changed")
            return
        bad = {"raw": jax.random.PRNGKey(seed), "int": seed, "none": None, "float array": jax.numpy.ones(3), "list": [1, 2], "array key": None}[kind]
        if kind == "array key":
            raise Prune
        expect_raises(env, (ValueError, AttributeError, TypeError), lambda: glass.jax.Generator.from_key(bad), "not a random key")

    def shapes(env):
        size = env.choose("size", [None, 0, 1, 3, (), (2,), (2, 3), (0, 2)])
        seed = env.choose("seed", [0, 5])
        g = glass.jax.Generator(seed)
        ks = g.split(size)
        want = () if size is None else (size,) if isinstance(size, int) else size
        env.check(ks.shape == want, "shape of keys", got=ks.shape, want=want)
        data = np.asarray(jax.random.key_data(ks)).reshape(-1, 2)
        env.check(len({tuple(d) for d in data.tolist()}) == len(data), "keys are not distinct")
        n = env.choose("children", [0, 1, 3])
        ch = g.spawn(n)
        env.check(len(ch) == n and all(isinstance(c, glass.jax.Generator) for c in ch), "children")
        vals = {tuple(np.asarray(x.random(2)).tolist()) for x in [g, *ch]}
        env.check(len(vals) == n + 1, "children are not independent")

    return [
        Space("two", two, "all pairs of 8 methods, two preemptions for methods that differ in their use of the key (thorough: three), else one (two)", 2, timeout=60),
        Space("more", more, "2 x 2 and 3 x 1 calls, one (thorough: two) preemptions", 3, timeout=60),
        Space("histories", histories, "all histories of up to three (thorough: four) calls out of 8, including failing ones", 2),
        Space("defaults", defaults, "all combinations of given parameters", 2),
        Space("protocol", protocol, "all shapes of parameters and sizes for five methods", 3),
        Space("moments", moments, "five methods, four seeds", 2),
        Space("multinomial", multinomial, "shapes of numbers and probabilities", 2),
        Space("keys", keys, "kinds of keys", 2),
        Space("shapes", shapes, "all sizes of splits and numbers of children", 2),
    ]
