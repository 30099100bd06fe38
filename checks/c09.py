"""C09: distribution of redshifts over shells."""

import numpy as np

import glass
from mc.engine import Space
from mc.rng import ScriptRNG
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, is_backend

TECHNIQUE = "exhaustive enumeration of the answers of the random number generator, giving exact probabilities on the real code"
NOTE = (
    "Every outcome of the categorical draw of every redshift is enumerated, so that the probability of each shell is "
    "known exactly from the probabilities handed to the generator; all redshift positions relative to the window nodes, "
    "all sizes around multiples of the internal batch size. The generator itself (NumPy, JAX) is trusted."
)


def families(xp=np):
    W = lambda z, w: glass.RadialWindow(xp.asarray(np.array(z, float)), xp.asarray(np.array(w, float)), 0.5)
    return {
        "tophat": [W([0, 1], [1, 1]), W([1, 2], [1, 1]), W([2, 2.5, 3], [1, 1, 1])],
        "weighted": [W([0, 1], [1, 3]), W([1, 2], [0.5, 7])],
        "linear": [W([0, 1, 2], [0, 1, 0]), W([1, 2, 3], [0, 1, 0]), W([2, 3, 3.5], [0, 1, 0])],
        "overlap": [W([0, 2], [1, 1]), W([0.5, 1, 3], [0.2, 2, 0]), W([0, 3], [1e-3, 5]), W([1.5, 1.75], [4, 4])],
        "gap": [W([0.2, 0.8], [1, 1]), W([1.2, 1.5, 1.8, 2.5], [1, 0, 0, 2])],
        "nested": [W([0, 3], [1, 1]), W([1, 2], [2, 2])],
        "single": [W([0.5, 1, 2.5], [0, 3, 1])],
        "tiny": [W([0, 1], [1e-300, 1e-300]), W([0, 1, 3], [1e-300, 3e-300, 0])],
        "reverse": [W([2, 3], [1, 1]), W([1, 2], [1, 1]), W([0, 1], [1, 1])],
        "hole": [W([0, 3], [1, 1]), W([1, 1.2], [0, 0]), W([0, 1, 3], [0, 2, 0])],
    }


NODES = sorted({float(x) for f in families().values() for w in f for x in w.za})
ZS = sorted(set(
    NODES + [(a + b) / 2 for a, b in zip(NODES, NODES[1:], strict=False)] + [a + 1e-9 for a in NODES] + [-1.0, -1e-9, 9.0]
))


def expected(z, ws):
    p = np.array([np.interp(z, to_np(w.za), to_np(w.wa), left=0.0, right=0.0) for w in ws])  # (shells, n)
    t = p.sum(axis=0)
    out = np.zeros((len(ws) + 1, len(z)))
    out[0] = t == 0
    out[1:] = p / np.where(t == 0, 1.0, t)
    return out


def probabilities(env, z, ws, xp, pick=None):
    """Exact probability of shells -1, 0, ... for each redshift."""
    n = z.size
    total = np.zeros((len(ws) + 1, n))
    k = 0
    while True:
        rows = []
        unused = [True]

        def multi(m, p, k=k, rows=rows, unused=unused):
            assert m == 1
            pos = np.nonzero(p > 0)[0]
            j = pos[k] if k < len(pos) else pos[-1]
            if k < len(pos):
                unused[0] = False
            rows.append((k < len(pos), p[j]))
            e = np.zeros(len(p), dtype=int)
            e[j] = 1
            return e

        r = glass.distribute(xp.asarray(z), ws, rng=ScriptRNG(multi=multi))
        env.check(is_backend(r, xp), "array type")
        r = to_np(r)
        env.check(r.shape == z.shape, "shape of result", got=r.shape, want=z.shape)
        env.check(np.issubdtype(r.dtype, np.integer), "integer result", got=r.dtype)
        env.check(len(rows) == n, "one draw for each redshift", got=len(rows), want=n)
        if n == 0:
            return total
        flat = r.reshape(-1)
        env.check((flat >= -1).all() and (flat < len(ws)).all(), "range of result")
        for i, (used, p) in enumerate(rows):
            if used:
                total[flat[i] + 1, i] += p
        if unused[0]:
            return total
        k += 1


def compare(env, z, ws, xp):
    got = probabilities(env, z, ws, xp)
    want = expected(z.reshape(-1), ws)
    env.check(np.allclose(got, want, rtol=1e-9, atol=1e-12), "probabilities of shells", got=got, want=want)


def spaces(tier):
    thorough = tier != "quick"

    def positions(env):
        """Every redshift relative to every window."""
        fam = env.choose("windows", list(families()))
        xp = choose_backend(env)
        z = env.choose("redshift", ZS + ["all", "reversed"])
        if z == "all":
            z = np.array(ZS)
        elif z == "reversed":
            z = np.array(ZS[::-1])
        else:
            z = np.array([z])
        ws = families(xp)[fam]
        compare(env, z, ws, xp)
        env.outcome(np.round(expected(z, ws), 6).tolist())

    def sizes(env):
        fam = env.choose("windows", ["overlap", "gap", "linear"])
        shape = env.choose("shape", [
            (), (0,), (1,), (2,), (3,), (0, 2), (2, 2), (3, 1, 2), (998,), (999,), (1000,), (1001,), (1999,), (2000,),
            (2001,), (2999,), (3000,), (3001,), (25, 40), (7, 143), (2, 1000), (1000, 2), (1, 1, 1001),
        ])
        stride = env.choose("stride", [1, 7])
        xp = choose_backend(env, ("numpy", "jax")) if thorough else np
        n = int(np.prod(shape))
        z = np.array([ZS[(i * stride + i // 1000) % len(ZS)] for i in range(n)]).reshape(shape)
        ws = families(xp)[fam]
        compare(env, z, ws, xp)

    def order(env):
        """Different outcomes for different redshifts end up at their own redshift."""
        fam = env.choose("windows", ["overlap", "gap", "nested"])
        n = env.choose("size", [5, 999, 1001, 2001])
        s1 = env.choose("multiplier", [1, 3, 5])
        xp = choose_backend(env)
        ws = families(xp)[fam]
        z = np.array([ZS[(i * 11 + i // 1000) % len(ZS)] for i in range(n)])
        rows = []

        def multi(m, p):
            pos = np.nonzero(p > 0)[0]
            e = np.zeros(len(p), dtype=int)
            e[pos[(len(rows) * s1) % len(pos)]] = 1
            rows.append(e)
            return e

        r = to_np(glass.distribute(xp.asarray(z), ws, rng=ScriptRNG(multi=multi)))
        # decode the meaning of each outcome one by one
        want = expected(z, ws)
        for i in range(n):
            env.check(want[r[i] + 1, i] > 0, "redshift assigned to shell of probability zero", i=i, z=z[i], got=r[i])
            pos = np.nonzero(want[:, i] > 0)[0]
            env.check(r[i] + 1 == pos[(i * s1) % len(pos)], "outcome belongs to another redshift", i=i, z=z[i], got=r[i])

    def defaults(env):
        """Real generators, and no generator."""
        fam = env.choose("windows", list(families()))
        xp = choose_backend(env)
        how = env.choose("rng", ["none", "numpy"])
        ws = families(xp)[fam]
        z = np.array(ZS)
        kw = {} if how == "none" else {"rng": np.random.default_rng(7)}
        if how == "numpy" and xp is BACKENDS["jax"]:
            from glass.jax import Generator

            kw = {"rng": Generator(7)}
        r = glass.distribute(xp.asarray(z), ws, **kw)
        env.check(is_backend(r, xp), "array type")
        r = to_np(r)
        want = expected(z, ws)
        for i in range(len(z)):
            env.check(want[r[i] + 1, i] > 0, "redshift assigned to shell of probability zero", i=i, z=z[i], got=r[i])

    return [
        Space("positions", positions, "10 window families, all positions relative to nodes, all outcomes, all backends", 3),
        Space("sizes", sizes, "all sizes around multiples of 1000, all outcomes", 3),
        Space("order", order, "patterns of outcomes", 3),
        Space("defaults", defaults, "real generators", 2),
    ]
