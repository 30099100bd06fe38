"""C01: index arithmetic of sets of angular power spectra."""

import numpy as np

import glass
from mc.engine import Space
from mc.util import choose_backend, expect_close, expect_raises, product

TECHNIQUE = "bounded exhaustive exploration of the real code against a list-of-pairs reference model"
NOTE = (
    "Exhaustive over all numbers of fields (enumeration up to 2000 fields, all pair look-ups up to 40, all permutation "
    "round trips up to 24) and all ragged lengths from {0,1,3} for up to three fields, on all backends. Trusts the "
    "written definition of the standard order (row by row, from the diagonal to the left)."
)


def pairs(n):
    """Reference: the standard order."""
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def hp_pairs(n):
    return [(i + k, i) for k in range(n) for i in range(n - k)]


def spaces(tier):
    nmax = 40 if tier == "quick" else 90
    big = [60, 100, 361, 724, 1000, 1500] if tier == "quick" else [60, 100, 361, 724, 1000, 2000, 3000, 4500]

    def orders(env):
        n = env.choose("fields", range(0, nmax + 1))
        ref = pairs(n)
        env.outcome(len(ref))
        got = [(int(i), int(j), e) for i, j, e in glass.enumerate_spectra(list(range(len(ref))))]
        env.check(got == [(i, j, k) for k, (i, j) in enumerate(ref)], "enumeration of spectra", got=got)
        if n > 0:
            xp = choose_backend(env)
            idx = np.asarray(glass.spectra_indices(n, xp=xp))
            env.check(idx.tolist() == [list(p) for p in ref], "index pairs", got=idx)
        env.check(glass.nfields_from_nspectra(len(ref)) == n, "number of fields")

    def lookup(env):
        n = env.choose("fields", range(1, nmax + 1))
        i = env.choose("i", range(n))
        ref = pairs(n)
        cls = [np.asarray([float(k), k + 0.5, -1.0]) for k in range(len(ref))]
        for j in range(n):
            k = ref.index((max(i, j), min(i, j)))
            for lmax in (None, 0, 1, 2, 3, 5):
                c = np.asarray(glass.getcl(cls, i, j, lmax=lmax) if lmax is not None else glass.getcl(cls, i, j))
                want = cls[k]
                if lmax is not None:
                    want = np.concatenate([want, np.zeros(10)])[: lmax + 1]
                expect_close(env, c, want, f"look-up of spectrum ({i}, {j}) with lmax={lmax}")

    def enum_large(env):
        n = env.choose("fields", big)
        want = 0
        k = 0
        it = glass.enumerate_spectra(range(n * (n + 1) // 2))
        for i in range(n):
            for j in range(i, -1, -1):
                a, b, e = next(it)
                if (a, b, e) != (i, j, k):
                    env.fail("enumeration of spectra", got=(a, b, e), want=(i, j, k))
                k += 1
        env.check(next(it, None) is None, "enumeration ends")
        env.check(glass.nfields_from_nspectra(k) == n, "number of fields")

    def counts(env):
        block = env.choose("block", range(20))
        tri = {n * (n + 1) // 2: n for n in range(200)}
        for k in range(block * 60, block * 60 + 60):
            if k in tri:
                env.check(glass.nfields_from_nspectra(k) == tri[k], "number of fields", nspectra=k)
            else:
                expect_raises(env, ValueError, lambda k=k: glass.nfields_from_nspectra(k), f"{k} spectra")
        # around large triangular numbers
        for n in (10**3 + block, 10**5 + block, 10**7 + block):
            t = n * (n + 1) // 2
            env.check(glass.nfields_from_nspectra(t) == n, "number of fields", nspectra=t)
            for k in (t - 1, t + 1):
                expect_raises(env, ValueError, lambda k=k: glass.nfields_from_nspectra(k), f"{k} spectra")

    def permute(env):
        n = env.choose("fields", range(0, 25 if tier == "quick" else 50))
        ref, hp = pairs(n), hp_pairs(n)
        kind = env.choose("entries", ["pairs", "arrays"])
        if kind == "pairs":
            a = glass.glass_to_healpix_spectra(list(ref))
            env.check(a == hp, "GLASS to HEALPix order", got=a)
            b = glass.healpix_to_glass_spectra(list(hp))
            env.check(b == ref, "HEALPix to GLASS order", got=b)
        else:
            s = [np.full(2, float(k)) for k in range(len(ref))]
            a = glass.glass_to_healpix_spectra(s)
            b = glass.healpix_to_glass_spectra(a)
            env.check(len(a) == len(b) == len(s), "no entries lost")
            for x, y in zip(s, b, strict=True):
                expect_close(env, y, x, "round trip")
            c = glass.glass_to_healpix_spectra(glass.healpix_to_glass_spectra(s))
            for x, y in zip(s, c, strict=True):
                expect_close(env, y, x, "inverse round trip")

    def bad_counts(env):
        k = env.choose("nspectra", [2, 4, 5, 7, 8, 9, 11])
        f = env.choose("function", ["glass_to_healpix_spectra", "healpix_to_glass_spectra", "cov_from_spectra", "regularized_spectra"])
        s = [np.ones(2) for _ in range(k)]
        expect_raises(env, ValueError, lambda: getattr(glass, f)(s), f"{f} of {k} spectra")

    def assemble(env):
        n = env.choose("fields", [1, 2, 3])
        m = n * (n + 1) // 2
        lens = env.choose("lengths", product([0, 1, 3], repeat=m))
        xp = choose_backend(env)
        ref = pairs(n)
        cls = [xp.asarray([10.0 * k + l + 1 for l in range(s)], dtype=xp.float64) for k, s in enumerate(lens)]
        for lmax in (None, 0, 1, 4):
            size = max(lens) if lmax is None else lmax + 1
            want = np.zeros((size, n, n))
            for k, (i, j) in enumerate(ref):
                for l in range(min(lens[k], size)):
                    want[l, i, j] = want[l, j, i] = 10.0 * k + l + 1
            got = glass.cov_from_spectra(cls, lmax=lmax)
            expect_close(env, got, want, f"covariance matrix with lmax={lmax}")

    def assemble_more(env):
        n = env.choose("fields", range(1, 13))
        ref = pairs(n)
        cls = [np.asarray([k + 1.0, -k]) for k in range(len(ref))]
        got = np.asarray(glass.cov_from_spectra(cls))
        for k, (i, j) in enumerate(ref):
            expect_close(env, got[:, i, j], cls[k], f"entry {(i, j)}")
            expect_close(env, got[:, j, i], cls[k], f"entry {(j, i)}")
            expect_close(env, glass.getcl(cls, j, i), cls[k], f"look-up {(j, i)}")

    return [
        Space("orders", orders, f"0..{nmax} fields", 1),
        Space("lookup", lookup, f"1..{nmax} fields, all pairs, lmax None,0,1,2,3,5", 2),
        Space("enum_large", enum_large, f"fields {big}", 1),
        Space("counts", counts, "all counts below 1200, and around n=1e3,1e5,1e7", 1),
        Space("permute", permute, "all numbers of fields", 1),
        Space("bad_counts", bad_counts, "non-triangular counts below 12", 1),
        Space("assemble", assemble, "1..3 fields, all lengths from {0,1,3}", 2),
        Space("assemble_more", assemble_more, "1..12 fields", 1),
    ]
