"""C22: saving and loading of angular power spectra."""

import os
import pathlib
import shutil
import tempfile

import numpy as np

import glass
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS

TECHNIQUE = "exhaustive enumeration of ragged lists, of histories of saves and loads over two files against a dictionary as model, and of all truncation points of a file"
NOTE = (
    "All lists of up to four (thorough: five) spectra with lengths 0 to 3 (mixed types and layouts), all histories of four (five) operations "
    "on two files, and every prefix of the file as torn write. Lists are not empty, as an empty list has no documented form on disk."
)

SPECIAL = np.array([0.0, -0.0, 1.5, -2.25, 5e-324, 1.7976931348623157e308, np.inf, -np.inf, np.nan, 1 / 3, 1e-300, 123456789.123456789])


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c22-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a.view(np.uint8) if a.dtype == b.dtype else a, b.view(np.uint8) if a.dtype == b.dtype else b)


def compare(env, got, want, msg):
    env.check(isinstance(got, list) and len(got) == len(want), f"{msg}: number of spectra", got=got, want=want)
    for i, (g, w) in enumerate(zip(got, want)):
        env.check(isinstance(g, np.ndarray) and g.shape == np.shape(w), f"{msg}: length of spectrum {i}", got=g, want=w)
        w = np.asarray(w)
        env.check(np.array_equal(g, w, equal_nan=w.dtype.kind == "f") and np.array_equal(np.signbit(g), np.signbit(w)), f"{msg}: values of spectrum {i}", got=g, want=w)


def values(n, start, dtype="float64"):
    x = SPECIAL[(start + np.arange(n)) % len(SPECIAL)]
    if dtype != "float64":
        x = np.arange(start + 1, start + n + 1)
    return x.astype(dtype)


def layout(x, how):
    if how == "strided":
        y = np.full(2 * len(x) + 1, 77, x.dtype)
        y[1::2] = x
        return y[1::2]
    if how == "reversed":
        return x[::-1].copy()[::-1]
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
    return x


def spaces(tier):
    thorough = tier != "quick"

    def lists(env):
        n = env.choose("spectra", [1, 2, 3, 4] + ([5] if thorough else []))
        lens = [env.choose(f"length{i}", [0, 1, 2, 3] if n < 5 else [0, 1, 3]) for i in range(n)]
        how = env.choose("layout", ["plain", "strided", "reversed", "readonly"])
        seq = env.choose("sequence", [list, tuple])
        cls = [layout(values(m, 5 * i), how) for i, m in enumerate(lens)]
        before = [c.copy() for c in cls]
        with Scratch() as d:
            name = os.path.join(d, "cls.npz")
            glass.save_cls(name, seq(cls))
            compare(env, cls, before, "after saving")
            for c in cls:
                if c.flags.writeable:
                    c[...] = 42.0
            got = glass.load_cls(name)
            compare(env, got, before, "loaded")
            os.unlink(name)
            for g in got:
                g += 1
            for i, g in enumerate(got):
                env.check(np.array_equal(g, before[i] + 1, equal_nan=True), "spectra share memory")
        env.outcome(lens)

    def types(env):
        n = env.choose("spectra", [1, 2, 3])
        dts = [env.choose(f"dtype{i}", ["float64", "float32", "int64", "complex128"]) for i in range(n)]
        back = env.choose("backend", ["numpy", "jax"])
        cls = [values(i + 1, i, d) for i, d in enumerate(dts)]
        xp = BACKENDS[back]
        with Scratch() as d:
            name = os.path.join(d, "cls.npz")
            glass.save_cls(name, [xp.asarray(c) for c in cls])
            got = glass.load_cls(name)
        env.check(len(got) == n, "number of spectra")
        for g, c in zip(got, cls):
            env.check(np.array_equal(g, c), "values", got=g, want=c)
        if len(set(dts)) == 1:
            env.check(all(g.dtype == c.dtype for g, c in zip(got, cls)), "type", got=[g.dtype for g in got], want=dts)

    def names(env):
        name = env.choose("name", ["cls.npz", "cls", "a.b", "cls.npy", "x.npz.bak", "sub/cls", "with space.npz", ".npz", "NPZ"])
        kind = env.choose("type", [str, pathlib.Path])
        rel = env.choose("relative", [True, False])
        again = env.choose("existing", ["none", "same name", "other name"])
        cls = [values(3, 1), values(0, 0), values(2, 4)]
        cwd = os.getcwd()
        with Scratch() as d:
            os.mkdir(os.path.join(d, "sub"))
            full = name if rel else os.path.join(d, name)
            os.chdir(d)
            try:
                stored = name if name.endswith(".npz") else name + ".npz"
                if again == "same name":
                    glass.save_cls(kind(full), [values(9, 9)])
                elif again == "other name":
                    with open(os.path.join(d, "other"), "w") as f:
                        f.write("something")
                glass.save_cls(kind(full), cls)
                files = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
                env.check(files == sorted([stored] + (["other"] if again == "other name" else [])), "files", got=files, want=stored)
                full = stored if rel else os.path.join(d, stored)
                compare(env, glass.load_cls(kind(full)), cls, "loaded")
            finally:
                os.chdir(cwd)

    LISTS = [[(3, 0)], [(0, 0)], [(1, 3), (2, 5), (0, 0)], [(2, 1), (0, 0), (3, 7)], [(0, 0), (0, 0), (5, 2)]]

    def histories(env):
        depth = 5 if thorough else 4
        model, held = {}, []
        with Scratch() as d:
            for i in range(depth):
                files = ["a.npz", "b.npz"]
                ops = [("save", f, k) for f in files for k in range(len(LISTS) if i < 2 else 2)]
                ops += [("load", f) for f in files if f in model] + ([("resave", f, g) for f in files for g in files if f in model])
                ops += [("missing", f) for f in files if f not in model]
                op = env.choose(f"operation {i}", ops)
                path = os.path.join(d, op[1])
                if op[0] == "save":
                    cls = [values(m, s + i) for m, s in LISTS[op[2]]]
                    glass.save_cls(path, cls)
                    model[op[1]] = [c.copy() for c in cls]
                elif op[0] == "load":
                    got = glass.load_cls(path)
                    compare(env, got, model[op[1]], "loaded")
                    held.append((got, [g.copy() for g in got]))
                elif op[0] == "resave":
                    # round trip, possibly onto itself
                    got = glass.load_cls(path)
                    compare(env, got, model[op[1]], "loaded")
                    glass.save_cls(os.path.join(d, op[2]), got)
                    model[op[2]] = model[op[1]]
                    held.append((got, [g.copy() for g in got]))
                else:
                    try:
                        glass.load_cls(path)
                        env.fail("missing file was loaded")
                    except OSError:
                        pass
                env.state(tuple((f, tuple(len(c) for c in v)) for f, v in sorted(model.items())))
            for f, want in model.items():
                compare(env, glass.load_cls(os.path.join(d, f)), want, "loaded at the end")
            for got, want in held:
                compare(env, got, want, "loaded earlier")
            env.check(sorted(os.listdir(d)) == sorted(model), "files", got=os.listdir(d), want=sorted(model))

    def torn(env):
        k = env.choose("list", range(len(LISTS)))
        first = env.choose("existing", [None, *range(2)])
        cls = [values(m, s) for m, s in LISTS[k]]
        with Scratch() as d:
            name = os.path.join(d, "cls.npz")
            if first is not None:
                glass.save_cls(name, [values(m, s + 1) for m, s in LISTS[first]])
            glass.save_cls(name, cls)
            data = open(name, "rb").read()
            n = 0
            cut = env.choose("lost bytes", [(a, b) for a in range(0, 4) for b in [4]])
            for m in range(cut[0], len(data), cut[1]):
                with open(name, "wb") as f:
                    f.write(data[:m])
                try:
                    got = glass.load_cls(name)
                except Exception:  # noqa: BLE001
                    n += 1
                    continue
                compare(env, got, cls, f"loaded from {m} of {len(data)} bytes")
            env.check(n > 0, "no truncation was detected")
            env.outcome((k, len(data), n))

    return [
        Space("lists", lists, "all lists of 1 to 4 (thorough: 5) spectra of lengths 0 to 3, four memory layouts", 3),
        Space("types", types, "all combinations of four types for up to three spectra", 2),
        Space("names", names, "nine names, given as string or path, relative or not", 2),
        Space("histories", histories, "all histories of four (thorough: five) operations over two files", 2),
        Space("torn", torn, "all prefixes of the files of five lists", 3),
    ]
