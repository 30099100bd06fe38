"""C02: joint distribution of iteratively sampled random fields."""

import warnings

import numpy as np
from numpy.polynomial import legendre

import glass
import healpy
from mc.engine import Space
from mc.rng import Impulse, ScriptRNG, SeqSource, weyl
from mc.setup_env import BACKENDS, to_np
from mc.util import choose_backend, expect_close, expect_raises, product

TECHNIQUE = "exhaustive enumeration of unit responses of the real sampler (exact joint covariance) over bounded spectra"
NOTE = (
    "The sampler is linear in its normal random numbers, so the responses to all unit inputs determine the joint "
    "covariance of all maps exactly; linearity itself is checked. Exhaustive over the listed alphabets of spectra for up "
    "to four fields and five modes and all correlation lengths. Trusts healpy's pixel positions and Legendre polynomials."
)


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


_POLY = {}


def kernels(nside, n):
    """(2l+1)/(4 pi) P_l between all pixels."""
    if (nside, n) not in _POLY:
        v = np.array(healpy.pix2vec(nside, np.arange(12 * nside**2)))
        c = np.clip(v.T @ v, -1, 1)
        _POLY[nside, n] = np.array([
            (2 * l + 1) / (4 * np.pi) * legendre.legval(c, np.eye(l + 1)[l]) for l in range(n)
        ])
    return _POLY[nside, n]


def band(cov, k):
    """Remove correlations beyond k fields."""
    n = cov.shape[-1]
    i = np.arange(n)
    return np.where(np.abs(i[:, None] - i) <= k, cov, 0.0)


def sequential(cov, k):
    """
    Reference: sample fields one after the other, given up to k previous.

    Returns ("ok", None), ("reject", i), or ("open", i) if the correlations with
    previous fields of zero variance cannot be realised.
    """
    n = len(cov)
    L = np.zeros((n, n))
    opened = None
    for i in range(n):
        lo = max(0, i - k)
        if cov[i, i] < 0:
            return "reject", i
        A = L[lo:i, lo:i]
        c = cov[i, lo:i]
        if i > lo:
            a = np.linalg.lstsq(A, c, rcond=1e-9)[0]
            if np.abs(A @ a - c).max() > 1e-9:
                return "open", i
            L[i, lo:i] = a
        s2 = cov[i, i] - L[i] @ L[i]
        if s2 < -1e-6:
            return "reject", i
        if abs(s2) < 1e-9:
            s2 = 0.0
        L[i, i] = np.sqrt(max(s2, 0))
    return "ok", None


def make_gls(cov, xp=np, lens=None):
    """Standard order spectra from covariances with shape (l, n, n)."""
    n = cov.shape[-1]
    out = []
    for m, (i, j) in enumerate(pairs(n)):
        cl = cov[:, i, j]
        if lens is not None:
            cl = cl[: lens[m]]
        out.append(xp.asarray(np.array(cl)))
    return out


def sample(gls, nside, gauss, n, ncorr=None, fields=None):
    fields = fields or [glass.grf.Normal() for _ in range(n)]
    kw = {} if ncorr is None else {"ncorr": ncorr}
    src = gauss
    rng = ScriptRNG(gauss=src)
    return [to_np(x) for x in glass.generate(fields, gls, nside, rng=rng, **kw)]


def check_joint(env, gls, cov, nside, n, ncorr):
    """All unit responses, linearity, and joint covariance."""
    nmode = cov.shape[0]
    src = Impulse(None)
    zero = sample(gls, nside, src, n, ncorr)
    total = src.i
    env.check(len(zero) == n, "number of maps")
    for z in zero:
        expect_close(env, z, np.zeros(12 * nside**2), "map for vanishing random numbers", atol=1e-13)
    resp = []
    for hot in range(total):
        resp.append(sample(gls, nside, Impulse(hot), n, ncorr))
    resp = np.array(resp).reshape(total, n, -1)  # numbers, fields, pixels
    # linearity with a generic vector of random numbers
    g = np.array([4 * weyl(i) - 2 for i in range(total)])
    src = SeqSource(lambda i: 4 * weyl(i) - 2)
    got = np.array(sample(gls, nside, src, n, ncorr))
    scale = 1 + np.abs(got).max()
    expect_close(env, got, np.tensordot(g, resp, 1), "maps are linear in the random numbers", atol=1e-9 * scale)
    k = n - 1 if ncorr is None else ncorr
    want = np.einsum("lij,lpq->ipjq", band(cov, k), kernels(nside, nmode))
    joint = np.einsum("tip,tjq->ipjq", resp, resp)
    s = np.abs(want).max() + 1e-30
    for i in range(n):
        for j in range(n):
            expect_close(
                env, joint[i, :, j], want[i, :, j], f"covariance of fields {i} and {j}", rtol=1e-7, atol=1e-7 * s
            )


def gram(n):
    """Alphabet of factors G, where G @ G.T is a covariance."""
    base = {
        1: [[[1.0]], [[0.0]], [[3.0]]],
        2: [
            [[1, 0], [0, 1]], [[1, 0], [2, 0]], [[0, 0], [1, 1]], [[2, 0], [1, 0.5]], [[1, 0], [-1, 1e-3]], [[0.1, 0], [1.7, 0]],
            [[1, 2], [0, 0]],
        ],
        3: [
            np.eye(3).tolist(), [[1, 0, 0], [1, 0, 0], [1, 0, 0]], [[1, 0, 0], [0.5, 1, 0], [-0.5, 0.5, 2]],
            [[1, 0, 0], [2, 0, 0], [0, 1, 1]], [[0, 0, 0], [1, 1, 0], [1, -1, 1]], [[1, 1, 0], [1, -1, 0], [2, 0, 0]],
            [[0.1, 0, 0], [0.3, 0, 0], [1.7, 0, 0]],
        ],
        4: [
            np.eye(4).tolist(),
            [[1, 0, 0, 0], [0.5, 1, 0, 0], [0.3, -0.4, 1, 0], [0.2, 0.7, -0.6, 1]],
            [[1, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [1, 1, 0, 0]],
            [[0, 0, 0, 0], [1, 2, 0, 0], [0, 0, 0, 0], [2, 1, 1, 0]],
        ],
        5: [
            [[1, 0, 0, 0, 0], [0.5, 1, 0, 0, 0], [0.3, -0.4, 1, 0, 0], [0.2, 0.7, -0.6, 1, 0], [-0.5, 0.1, 0.4, 0.8, 1]],
            np.eye(5).tolist(),
        ],
    }
    return [np.array(g, float) for g in base[n]]


def spaces(tier):
    thorough = tier != "quick"

    def joint(env):
        n = env.choose("fields", [1, 2, 3])
        nmode = env.choose("modes", [1, 2, 3])
        gs = gram(n)
        if n == 3 and nmode == 3 and not thorough:
            gs = gs[1:5]
        cov = np.array([
            (lambda g: g @ g.T)(gs[env.choose(f"l={l}", range(len(gs)))]) for l in range(nmode)
        ])
        ncorr = env.choose("ncorr", [None, *range(0, n + 1)])
        k = n - 1 if ncorr is None else ncorr
        res = [sequential(band(c, k), k) for c in cov]
        if any(r[0] != "ok" for r in res):
            if any(r[0] == "open" for r in res):
                env.fail_open = True
            raise_at(env, cov, n, ncorr, k)
            return
        nside = 1 if nmode < 3 else 2
        env.outcome(cov.tolist())
        check_joint(env, make_gls(cov), cov, nside, n, ncorr)

    def joint_more(env):
        n = env.choose("fields", [4, 5])
        gs = gram(n)
        nmode = env.choose("modes", [2] if not thorough else [2, 3])
        cov = np.array([
            (lambda g: g @ g.T)(gs[env.choose(f"l={l}", range(len(gs)))]) for l in range(nmode)
        ])
        ncorr = env.choose("ncorr", [None, *range(0, n + 1)])
        k = n - 1 if ncorr is None else ncorr
        if any(sequential(band(c, k), k)[0] != "ok" for c in cov):
            raise_at(env, cov, n, ncorr, k)
            return
        env.outcome(cov.tolist())
        check_joint(env, make_gls(cov), cov, 1, n, ncorr)

    def raise_at(env, cov, n, ncorr, k):
        """Invalid covariances are rejected before the invalid map is returned."""
        res = [sequential(band(c, k), k) for c in cov]
        env.outcome([r[0] for r in res])
        rejects = [i for r, i in res if r == "reject"]
        opens = [i for r, i in res if r == "open"]
        first_open = min(opens, default=99)
        if not rejects or min(rejects) >= first_open:
            return
        out = []
        try:
            for x in glass.generate(
                [glass.grf.Normal()] * n, make_gls(cov), 1, rng=ScriptRNG(gauss=Impulse(0)),
                **({} if ncorr is None else {"ncorr": ncorr}),
            ):
                out.append(x)
        except ValueError:
            env.check(len(out) <= min(rejects), "invalid map was returned before the spectra were rejected", cov=cov)
            return
        env.fail("invalid spectra were not rejected", cov=cov, ncorr=ncorr)

    def invalid(env):
        """All integer matrices at a single mode (second mode is valid)."""
        n = env.choose("fields", [1, 2, 3])
        vals = [-1.0, 0.0, 1.0, 2.0]
        diag = [env.choose(f"C{i}{i}", vals) for i in range(n)]
        c = np.diag(diag)
        for i in range(n):
            for j in range(i):
                c[i, j] = c[j, i] = env.choose(f"C{i}{j}", [-2.0, -1.0, 0.0, 1.0] if n < 3 or thorough else [-1.0, 0.0, 1.0])
        pos = env.choose("mode", [0, 1])
        cov = np.array([c, np.eye(n)] if pos == 0 else [np.eye(n), c])
        ncorr = env.choose("ncorr", [None, 0, 1])
        k = n - 1 if ncorr is None else ncorr
        res = [sequential(band(x, k), k) for x in cov]
        if all(r[0] == "ok" for r in res):
            env.outcome("valid")
            check_joint(env, make_gls(cov), cov, 1, n, ncorr)
        else:
            raise_at(env, cov, n, ncorr, k)

    def ragged(env):
        n = env.choose("fields", [2, 3])
        m = n * (n + 1) // 2
        cov1 = np.full((n, n), 0.5) + np.diag(1.0 + np.arange(n))
        lens = env.choose("lengths", [x for x in product([0, 1, 3] if n == 3 else [0, 1, 2, 4], repeat=m)])
        nmode = max(lens)
        ncorr = env.choose("ncorr", [None, 1])
        cov = np.zeros((nmode, n, n))
        for x, (i, j) in enumerate(pairs(n)):
            cov[: lens[x], i, j] = cov[: lens[x], j, i] = cov1[i, j]
        gls = make_gls(cov, lens=lens)
        if nmode == 0:
            expect_raises(env, ValueError, lambda: sample(gls, 1, Impulse(0), n, ncorr), "all spectra empty")
            return
        k = n - 1 if ncorr is None else ncorr
        res = [sequential(band(x, k), k)[0] for x in cov]
        env.outcome((lens, res))
        if all(r == "ok" for r in res):
            check_joint(env, gls, cov, 1, n, ncorr)

    def transform(env):
        n = 3
        Ts = [
            ("normal", glass.grf.Normal(), lambda x, v: x),
            ("lognormal", glass.grf.Lognormal(), lambda x, v: np.exp(x - v / 2) - 1),
            ("lognormal 0.5", glass.grf.Lognormal(0.5), lambda x, v: 0.5 * (np.exp(x - v / 2) - 1)),
            ("squared", glass.grf.SquaredNormal(0.6), lambda x, v: (x - 0.6) ** 2 - 1),
            ("squared 2", glass.grf.SquaredNormal(0.3, 2.0), lambda x, v: 2.0 * ((x - 0.3) ** 2 - 1)),
        ]
        ts = [Ts[env.choose(f"field {i}", range(len(Ts)))] for i in range(n)]
        ncorr = env.choose("ncorr", [None, 1])
        xp = choose_backend(env) if ts[0][0] == "lognormal" else np
        cov = np.array([[[1, 0.5, 0.2], [0.5, 2, -0.3], [0.2, -0.3, 0.7]], [[0.3, 0.1, 0], [0.1, 0.4, 0], [0, 0, 0.2]],
                        [[0, 0, 0], [0, 1, 0], [0, 0, 0.1]]])
        lens = [3, 3, 2, 3, 1, 2]
        for x, (i, j) in enumerate(pairs(n)):
            cov[lens[x]:, i, j] = cov[lens[x]:, j, i] = 0
        gls = make_gls(cov, xp, lens)
        gauss = sample(gls, 2, SeqSource(lambda i: 4 * weyl(i) - 2), n, ncorr)
        got = sample(gls, 2, SeqSource(lambda i: 4 * weyl(i) - 2), n, ncorr, [t[1] for t in ts])
        env.check(len(got) == n, "number of maps")
        for i in range(n):
            var = sum((2 * l + 1) / (4 * np.pi) * cov[l, i, i] for l in range(len(cov)))
            expect_close(env, got[i], ts[i][2](gauss[i], var), f"transformed field {i} ({ts[i][0]})", rtol=1e-8, atol=1e-10)

    def iternorm(env):
        """Direct: stacks of covariances and window sizes."""
        n = env.choose("fields", [2, 3, 4])
        gs = gram(n)
        stack = env.choose("stack", [(), (1,), (2,), (2, 2)])
        size = int(np.prod(stack)) if stack else 1
        idx = [env.choose(f"entry {a}", range(len(gs))) if a < 2 else (a * 3 + 1) % len(gs) for a in range(size)]
        k = env.choose("correlated", range(0, n))
        xp = choose_backend(env) if len(stack) == 1 else np
        cov = np.array([band(gs[a] @ gs[a].T, k) for a in idx]).reshape(*stack, n, n)
        if any(sequential(c, k)[0] != "ok" for c in cov.reshape(-1, n, n)):
            env.outcome("invalid")
            return

        def rows():
            for i in range(n):
                row = np.zeros((*stack, k + 1))
                for j in range(min(i, k) + 1):
                    row[..., j] = cov[..., i, i - j]
                yield xp.asarray(row)

        ws = [to_np(w) for w in glass.iternorm(rows())]
        env.check(len(ws) == n, "number of vectors")
        L = np.zeros((*stack, n, n))
        for i, w in enumerate(ws):
            env.check(w.shape == (*stack, k + 1), "shape of scaling vector", got=w.shape)
            for j in range(min(i, k) + 1):
                L[..., i, i - j] = w[..., k - j]
        got = L @ np.swapaxes(L, -1, -2)
        env.outcome(np.round(got, 6).tolist())
        expect_close(env, got, cov, "covariance of iterative sampling", rtol=1e-7, atol=1e-7)

    def iternorm_bad(env):
        what = env.choose("what", ["empty", "shape", "indefinite", "negative"])
        pos = env.choose("position", [0, 1, 2])
        xp = choose_backend(env)

        def rows():
            for i in range(3):
                good = np.array([[2.0, 0.5 * (i > 0), 0.0], [1.0, 0.2 * (i > 0), 0.1 * (i > 1)]])
                if i == pos:
                    if what == "empty":
                        good = good[:, :0]
                    elif what == "shape":
                        good = good[:1] if pos else np.zeros((2, 0))
                    elif what == "indefinite":
                        good = np.array([[2.0, 0.5, 0], [1.0, 1.1 * (i > 0), 0]]) if pos else -good
                    else:
                        good[1, 0] = -1e-12
                yield xp.asarray(good)

        n = 0
        try:
            for _ in glass.iternorm(rows()):
                n += 1
        except ValueError:
            env.check(n <= pos, "rejected too late")
            return
        env.fail(f"covariance with {what} row {pos} was accepted")

    def covrows(env):
        """Spectra to rows of covariances."""
        n = env.choose("fields", [1, 2, 3])
        m = n * (n + 1) // 2
        lens = env.choose("lengths", product([0, 1, 2], repeat=m))
        nc = env.choose("correlated", range(0, n + 1))
        xp = BACKENDS[env.choose("backend", ["numpy", "strict", "jax"] if n < 3 else ["numpy"])]
        nl = max(lens) + env.choose("extra", [0, 1])
        if nl == 0:
            return
        cls = [xp.asarray([10.0 * x + l + 1 for l in range(s)], dtype=xp.float64) for x, s in enumerate(lens)]
        got = [np.array(to_np(r)) for r in glass.cls2cov(cls, nl, n, nc)]
        env.check(len(got) == n, "number of rows")
        ps = pairs(n)
        for i in range(n):
            want = np.zeros((nl, nc + 1))
            for j in range(min(i, nc) + 1):
                x = ps.index((i, i - j))
                want[: lens[x], j] = np.asarray(to_np(cls[x])) / 2
            expect_close(env, got[i], want, f"row {i}")

    def backends(env):
        n = env.choose("fields", [1, 2, 3])
        xp = choose_backend(env)
        g = gram(n)[env.choose("gram", range(len(gram(n))))]
        ncorr = env.choose("ncorr", [None, 0, 1])
        k = n - 1 if ncorr is None else ncorr
        cov = np.array([g @ g.T, np.eye(n), g @ g.T])
        if sequential(band(cov[0], k), k)[0] != "ok":
            return
        out = sample(make_gls(cov, xp), 2, SeqSource(lambda i: 4 * weyl(i) - 2), n, ncorr)
        ref = sample(make_gls(cov), 2, SeqSource(lambda i: 4 * weyl(i) - 2), n, ncorr)
        expect_close(env, np.array(out), np.array(ref), "maps for other array backend", rtol=1e-6, atol=1e-7)

    def wrappers(env):
        """Deprecated functions, lazy evaluation, and mismatched input."""
        n = env.choose("fields", [1, 2, 3])
        what = env.choose("what", ["gaussian", "lognormal", "mismatch", "lazy"])
        ncorr = env.choose("ncorr", [None, 0, 1])
        cov = np.array([np.eye(n) + 0.3] * 3)
        gls = make_gls(cov)
        src = lambda: ScriptRNG(gauss=SeqSource(lambda i: 4 * weyl(i) - 2))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what == "gaussian":
                a = list(glass.generate_gaussian(gls, 2, ncorr=ncorr, rng=src()))
                b = list(glass.generate([glass.grf.Normal()] * n, gls, 2, ncorr=ncorr, rng=src()))
            elif what == "lognormal":
                a = list(glass.generate_lognormal(gls, 2, 0.7, ncorr=ncorr, rng=src()))
                b = list(glass.generate([glass.grf.Lognormal(0.7)] * n, gls, 2, ncorr=ncorr, rng=src()))
            elif what == "lazy":
                # the first maps do not depend on the spectra of later fields
                a = list(glass.generate([glass.grf.Normal()] * n, gls, 2, ncorr=ncorr, rng=src()))
                m = n - 1
                if m == 0:
                    return
                b = list(glass.generate([glass.grf.Normal()] * m, gls[: m * (m + 1) // 2], 2, ncorr=ncorr, rng=src()))
                a = a[:m]
            else:
                for bad in (n - 1, n + 1):
                    expect_raises(
                        env, ValueError, lambda bad=bad: list(glass.generate([glass.grf.Normal()] * bad, gls, 2)), "mismatch"
                    )
                return
        expect_close(env, np.array(a), np.array(b), what)

    return [
        Space("joint", joint, "1..3 fields, 1..3 modes, all combinations of gram alphabet, all correlation lengths", 3),
        Space("joint_more", joint_more, "4..5 fields, 2 modes", 3),
        Space("invalid", invalid, "all integer covariances for 1..3 fields", 4),
        Space("ragged", ragged, "2..3 fields, all lengths", 2),
        Space("transform", transform, "3 fields, all triples of 5 transformations", 3),
        Space("iternorm", iternorm, "2..4 fields, stacks of up to two leading dimensions, all windows", 4),
        Space("iternorm_bad", iternorm_bad, "invalid rows at each position", 2),
        Space("covrows", covrows, "1..3 fields, all lengths from {0,1,2}", 3),
        Space("backends", backends, "1..3 fields, all backends", 3),
        Space("wrappers", wrappers, "deprecated functions and prefixes", 2),
    ]
