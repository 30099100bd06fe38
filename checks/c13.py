"""C13: multi-plane convergence."""

import warnings

import numpy as np

import glass
from mc.engine import Space
from mc.setup_env import BACKENDS, to_np
from mc.util import CurvedCosmo, choose_backend, expect_close, expect_raises, is_backend

TECHNIQUE = "exhaustive exploration of all operation sequences up to a depth on the real object against the direct sum over planes"
NOTE = (
    "All sequences of accepted planes, rejected planes and windows up to depth four (thorough: five), for flat and curved "
    "cosmologies; state is compared after every operation with the direct sum over all previous planes. Windows, matrix "
    "and vector forms for all families of up to five shells."
)


def trap(y, x):
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))


def efficiency(c, zl, zs):
    """Lensing kernel of a plane for a source."""
    d = c.hubble_distance
    x = lambda *a: float(np.asarray(c.transverse_comoving_distance(*a))) / d
    if zs <= zl:
        return 0.0
    return 1.5 * c.Omega_m0 * x(zl) * x(zl, zs) / x(zs) * (1 + zl) / float(c.H_over_H0(zl))


WINDOWS = {
    "tophat": (np.array([0.2, 0.3, 0.6]), np.array([1.0, 1.0, 1.0]), 0.4),
    "peak": (np.array([0.5, 0.9, 1.3]), np.array([0.0, 2.0, 0.5]), 0.85),
    "edge": (np.array([0.9, 1.5]), np.array([1.0, 3.0]), 1.5),
}
COSMOS = {"flat": (0.3, 0.0), "closed": (0.4, 0.8), "open": (0.2, -0.6)}


def delta_of(i, shape=(3,)):
    k = np.arange(float(np.prod(shape))).reshape(shape)
    return np.cos(1.3 * k + 2.1 * i) * (1 + 0.3 * i)


class Model:
    def __init__(self, cosmo):
        self.c, self.planes = cosmo, []

    z = property(lambda self: self.planes[-1][0] if self.planes else 0.0)

    def add(self, z, w, delta):
        self.planes.append((z, w, delta))

    def kappa(self):
        s = self.z
        return sum(efficiency(self.c, z, s) * w * d for z, w, d in self.planes)


def compare(env, mpc, model, xp=np):
    z, w, d = model.planes[-1]
    env.check(float(mpc.zsrc) == z, "source redshift", got=mpc.zsrc, want=z)
    expect_close(env, np.asarray(mpc.wlens), w, "lensing weight", rtol=1e-12)
    expect_close(env, mpc.delta, d, "matter plane", rtol=0, atol=0)
    env.check(is_backend(mpc.kappa, xp), "array type")
    expect_close(env, mpc.kappa, model.kappa(), "convergence", rtol=1e-9, atol=1e-12)


def operations(env, model, mpc, depth, xp, shape, zs, ws):
    inputs = []
    for step in range(depth):
        ops = [("plane", z, w) for z in zs for w in ws] + [("window", n, None) for n in WINDOWS]
        op, a, w = env.choose(f"operation {step}", ops)
        d = delta_of(step, shape)
        D = xp.asarray(d)
        inputs.append((D, d))
        if op == "plane":
            z = a
            call = (lambda: mpc.add_plane(D, z)) if w is None else (lambda: mpc.add_plane(D, z, w))
            w = 1.0 if w is None else w
        else:
            za, wa, z = WINDOWS[a]
            w = trap(wa, za) / float(np.interp(z, za, wa))
            call = lambda: mpc.add_window(D, glass.RadialWindow(xp.asarray(za), xp.asarray(wa), z))
        if z <= model.z:
            expect_raises(env, ValueError, call, "plane out of order")
        else:
            call()
            model.add(z, w, d)
        if model.planes:
            compare(env, mpc, model, xp)
        env.state((tuple((q[0], q[1]) for q in model.planes)))
        for x, y in inputs:
            env.check((to_np(x) == y).all(), "matter plane was modified")


def spaces(tier):
    thorough = tier != "quick"

    def sequences(env):
        cosmo = env.choose("cosmology", list(COSMOS))
        c = CurvedCosmo(COSMOS[cosmo][0], k=COSMOS[cosmo][1])
        depth = (5 if thorough else 4) if cosmo == "flat" else 3
        operations(env, Model(c), glass.MultiPlaneConvergence(c), depth, np, (3,), [0.0, 0.1, 0.4, 1.1, 2.0], [None, 0.35])

    def chains(env):
        """Long increasing sequences."""
        cosmo = env.choose("cosmology", list(COSMOS))
        c = CurvedCosmo(COSMOS[cosmo][0], k=COSMOS[cosmo][1])
        n = env.choose("planes", [8, 20])
        step = env.choose("spacing", ["uniform", "growing", "alternating"])
        reject = env.choose("reject every", [0, 1, 3])
        dz = np.full(n, 0.1) if step == "uniform" else 0.02 * 1.2 ** np.arange(n) if step == "growing" else np.where(np.arange(n) % 2, 0.3, 0.01)
        zs = np.cumsum(dz)
        m, mpc = Model(c), glass.MultiPlaneConvergence(c)
        for i, z in enumerate(zs):
            d = delta_of(i)
            w = 0.1 + 0.02 * (i % 5)
            mpc.add_plane(d, float(z), w)
            m.add(float(z), w, d)
            compare(env, mpc, m)
            if reject and i % reject == 0:
                for bad in (float(z), float(z) / 2, 0.0, -1.0):
                    expect_raises(env, ValueError, lambda bad=bad: mpc.add_plane(delta_of(99), bad, 3.3), "plane out of order")
                compare(env, mpc, m)

    def two(env):
        """Interleaved operations on two objects."""
        c = CurvedCosmo(0.3, k=0.0)
        pair = [(Model(c), glass.MultiPlaneConvergence(c)) for _ in range(2)]
        for step in range(5):
            k = env.choose(f"object {step}", [0, 1])
            z = env.choose(f"redshift {step}", [0.2, 0.7, 1.5])
            m, mpc = pair[k]
            d = delta_of(step)
            if z <= m.z:
                expect_raises(env, ValueError, lambda: mpc.add_plane(d, z), "plane out of order")
            else:
                mpc.add_plane(d, z, 0.5)
                m.add(z, 0.5, d)
            for m, mpc in pair:
                if m.planes:
                    compare(env, mpc, m)

    def backends(env):
        xp = choose_backend(env)
        shape = env.choose("shape", [(1,), (12,), (2, 3), (0,)])
        c = CurvedCosmo(0.3, k=0.0)
        operations(env, Model(c), glass.MultiPlaneConvergence(c), 3, xp, shape, [0.1, 0.4, 1.1], [None, 0.35])

    def vectors(env):
        cosmo = env.choose("cosmology", list(COSMOS))
        c = CurvedCosmo(COSMOS[cosmo][0], k=COSMOS[cosmo][1])
        fam = env.choose("windows", ["tophat", "linear", "cubic", "custom"])
        n = env.choose("shells", [1, 2, 3, 4, 5] if fam != "custom" else [1, 2, 3])
        xp = choose_backend(env, ("numpy", "strict", "jax")) if n in (1, 3) else np
        grid = np.array([0.0, 0.3, 0.5, 1.0, 1.1, 2.0, 3.0])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if fam == "custom":
                ws = [glass.RadialWindow(xp.asarray(a), xp.asarray(b), z) for a, b, z in list(WINDOWS.values())[:n]]
            else:
                ws = getattr(glass, f"{fam}_windows")(xp.asarray(grid[: n + (1 if fam == "tophat" else 2)]), dz=0.05)
        z = [float(w.zeff) for w in ws]
        wl = [trap(to_np(w.wa), to_np(w.za)) / float(np.interp(q, to_np(w.za), to_np(w.wa))) for q, w in zip(z, ws, strict=True)]
        want = np.array([[efficiency(c, z[j], z[i]) * wl[j] for j in range(n)] for i in range(n)])
        mat = glass.multi_plane_matrix(ws, c)
        env.check(is_backend(mat, xp), "array type")
        expect_close(env, mat, want, "matrix of contributions", rtol=1e-9, atol=1e-13)
        for shape in [(n,), (n, 1), (n, 2), (n, n), (n, 2, 3), (n, n, n)]:
            w = np.sqrt(2 + np.arange(float(np.prod(shape)))).reshape(shape)
            got = glass.multi_plane_weights(xp.asarray(w), ws, c)
            env.check(is_backend(got, xp), "array type")
            x = np.einsum("ij,i...->j...", want, w / w.sum(axis=0))
            expect_close(env, got, x, "weights", rtol=1e-9, atol=1e-13)
        for bad in [(), (n + 1,), (n + 1, n), (n - 1,)]:
            expect_raises(env, ValueError, lambda bad=bad: glass.multi_plane_weights(xp.asarray(np.ones(bad)), ws, c), "shape of weights")
        # windows one by one
        m, mpc = Model(c), glass.MultiPlaneConvergence(c)
        for i, w in enumerate(ws):
            d = delta_of(i)
            mpc.add_window(xp.asarray(d), w)
            m.add(z[i], wl[i], d)
            compare(env, mpc, m, xp)

    return [
        Space("sequences", sequences, "all sequences of 13 operations up to depth 4 (thorough 5), flat and curved", 3),
        Space("chains", chains, "sequences of up to 20 planes with rejections", 3),
        Space("two", two, "all interleavings of 5 operations on two objects", 3),
        Space("backends", backends, "all sequences of 9 operations to depth 3, all backends and shapes", 3),
        Space("vectors", vectors, "matrix and vector forms for all window families", 3),
    ]
