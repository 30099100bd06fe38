"""C28: catalogues on disk."""

import os
import pathlib
import shutil
import tempfile

import fitsio
import numpy as np
from astropy.io import fits as afits

import glass
from mc.engine import Prune, Space
from mc.setup_env import BACKENDS

TECHNIQUE = "exhaustive enumeration of histories of writes against a list of rows as model, with an exception injected at every point of the history and at every call into the FITS library"
NOTE = (
    "All histories of up to three (thorough: four) writes over batch sizes, column orders and forms of the data, with an exception "
    "between any two writes and from any call into the FITS library; the file is read back with astropy. Trusts CFITSIO and astropy."
)


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c28-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Failure(Exception):
    pass


COLS = {
    "one": [("RA", "f8")],
    "two": [("RA", "f8"), ("DEC", "f8")],
    "mixed": [("RA", "f8"), ("N", "i4"), ("W", "f4")],
    "wide": [("ID", "i8"), ("E", "f8", (2,)), ("FLAG", "u1"), ("NAME", "S4")],
}


def batch(cols, n, start):
    out = np.zeros(n, dtype=[tuple(c) for c in cols])
    for j, c in enumerate(cols):
        x = out[c[0]]
        if x.dtype.kind == "S":
            x[...] = [b"n%d" % ((start + i) % 100) for i in range(n)]
        elif x.ndim > 1:
            x[...] = np.arange(x.size).reshape(x.shape) + 0.25 + 10 * start
        else:
            x[...] = (np.arange(n) + 100 * start + 7 * j) % 251 + (0.125 if x.dtype.kind == "f" else 0)
    return out


def write(out, data, form):
    names = list(data.dtype.names)
    if form == "columns":
        out.write(**{n: data[n].copy() for n in names})
    elif form == "reordered":
        out.write(**{n: data[n].copy() for n in names[::-1]})
    elif form == "record":
        out.write(data)
    elif form == "strided":
        out.write(**{n: np.repeat(data[n], 2, axis=0)[::2] for n in names})
    elif form == "views":
        out.write(**{n: data[n] for n in names})
    elif form == "jax":
        out.write(**{n: BACKENDS["jax"].asarray(data[n].copy()) for n in names})
    elif form == "both":
        k = len(data) // 2
        out.write(data[:k], **{n: data[n][k:].copy() for n in names})
    else:
        raise ValueError(form)


def readback(env, path, cols, rows, ext, msg="", empty_ok=False):
    with afits.open(path, memmap=False) as f:
        f.verify("exception")
        tabs = [h for h in f if isinstance(h, afits.BinTableHDU)]
        if rows is None:
            env.check(not tabs, f"table without writes {msg}")
            return
        if not tabs and empty_ok:
            return
        env.check(len(tabs) == 1, f"number of tables {msg}", got=len(tabs))
        env.check(len(f) == 2, f"number of extensions {msg}", got=len(f))
        t = tabs[0]
        if ext is not None:
            env.check(t.name.lower() == ext.lower(), f"name of extension {msg}", got=t.name, want=ext)
        env.check(sorted(t.columns.names) == sorted(c[0] for c in cols), f"names of columns {msg}", got=t.columns.names, want=cols)
        env.check(len(t.data) == len(rows), f"number of rows {msg}", got=len(t.data), want=len(rows))
        for c in cols:
            g, w = t.data[c[0]], rows[c[0]]
            if w.dtype.kind == "S":
                g = np.char.encode(np.asarray(g)) if len(g) else np.zeros(0, "S4")
            else:
                env.check(g.dtype.kind == w.dtype.kind and g.dtype.itemsize == w.dtype.itemsize, f"type of column {msg}", got=g.dtype, want=w.dtype)
            env.check(np.shape(g) == w.shape and np.array_equal(g, w), f"values of column {c[0]} {msg}", got=g, want=w)
        return t.columns.names


def total(cols, parts):
    if not parts:
        return None
    return np.concatenate(parts)


def spaces(tier):
    thorough = tier != "quick"

    def writes(env):
        cols = COLS[env.choose("columns", list(COLS))]
        depth = env.choose("writes", [0, 1, 2, 3] + ([4] if thorough else []))
        ext = env.choose("extension", [None, "CATALOG", "cat"] if depth < 3 else [None, "CATALOG"])
        forms = ["columns", "reordered", "record"] if len(cols) > 1 else ["columns", "record"]
        if depth < 3:
            forms += ["strided", "views", "both"]
            if depth == 1 and cols is not COLS["wide"]:
                forms += ["jax"]
        fail = env.choose("exception", [False, True] if depth < 3 or thorough else [depth % 2 == 0 or cols is COLS["two"]])
        parts = []
        with Scratch() as d:
            path = os.path.join(d, "cat.fits")
            first = None
            try:
                with glass.write_catalog(path, ext=ext) as out:
                    for i in range(depth):
                        n = env.choose(f"size {i}", [0, 1, 3] if depth < 3 or (thorough and depth < 4) else [0, 2])
                        form = env.choose(f"form {i}", forms)
                        data = batch(cols, n, 1 + sum(len(p) for p in parts))
                        keep = data.copy()
                        write(out, data, form)
                        env.check(np.array_equal(data, keep), "data was changed")
                        parts.append(keep)
                        if first is None:
                            first = [c[0] for c in cols][:: -1 if form == "reordered" else 1]
                    if fail:
                        raise Failure
                env.check(not fail, "exception was suppressed")
            except Failure:
                env.check(fail, "exception")
            names = readback(env, path, cols, total(cols, parts), ext)
            if names is not None:
                env.check(list(names) == first, "order of columns", got=names, want=first)
            env.check(os.listdir(d) == ["cat.fits"], "files", got=os.listdir(d))
            env.state(tuple(map(len, parts)))
            env.outcome((len(cols), ext, tuple(map(len, parts))))

    def replace(env):
        """Histories of catalogues written to the same file."""
        depth = 3 if thorough else 2
        with Scratch() as d:
            path = os.path.join(d, "cat.fits")
            kind = env.choose("path", [str, pathlib.Path])
            before = env.choose("existing", [None, "text", "catalogue"])
            if before == "text":
                open(path, "w").write("no FITS file")
            elif before == "catalogue":
                with fitsio.FITS(path, "rw") as f:
                    f.write(batch(COLS["mixed"], 9, 3), extname="OLD")
                    f.write(batch(COLS["one"], 4, 3), extname="CATALOG")
            for k in range(depth):
                cols = COLS[env.choose(f"columns {k}", ["one", "mixed"])]
                ext = env.choose(f"extension {k}", [None, "CATALOG", "other"] if k < depth - 1 else [None])
                sizes = env.choose(f"sizes {k}", [(), (2,), (1, 3)])
                fail = env.choose(f"exception {k}", [False, True]) if k < depth - 1 else False
                parts = []
                try:
                    with glass.write_catalog(kind(path), ext=ext) as out:
                        for n in sizes:
                            b = batch(cols, n, 10 * k + sum(map(len, parts)))
                            write(out, b, "columns")
                            parts.append(b)
                        if fail:
                            raise Failure
                except Failure:
                    pass
                readback(env, path, cols, total(cols, parts), ext, f"of catalogue {k}")

    def faults(env):
        """An exception from every call into the FITS library."""
        cols = COLS[env.choose("columns", ["two", "mixed"])]
        ext = env.choose("extension", [None, "CATALOG"])
        sizes = env.choose("sizes", [(2,), (2, 1), (1, 0, 3), (0, 2, 2)])
        form = env.choose("form", ["columns", "record", "reordered"])
        at = env.choose("failing call", range(12))
        count = {"n": 0}
        real = {}
        targets = [(fitsio.FITS, "write"), (fitsio.FITS, "write_table"), (fitsio.FITS, "create_table_hdu"), (fitsio.hdu.TableHDU, "write"), (fitsio.hdu.TableHDU, "append"),
                   (fitsio.hdu.TableHDU, "get_nrows"), (fitsio.hdu.TableHDU, "write_column")]

        depth = {"n": 0}

        def wrap(f, name):
            def wrapped(self, *a, **kw):
                if depth["n"] == 0:
                    count["n"] += 1
                    if count["n"] == at + 1:
                        raise Failure(name)
                depth["n"] += 1
                try:
                    return f(self, *a, **kw)
                finally:
                    depth["n"] -= 1

            return wrapped

        for c, n in targets:
            if n in vars(c):
                real[c, n] = vars(c)[n]
                setattr(c, n, wrap(vars(c)[n], n))
        done = []
        failed = False
        try:
            with Scratch() as d:
                path = os.path.join(d, "cat.fits")
                try:
                    with glass.write_catalog(path, ext=ext) as out:
                        for n in sizes:
                            b = batch(cols, n, 1 + sum(map(len, done)))
                            write(out, b, form)
                            done.append(b)
                except Failure:
                    failed = True
                for (c, n), f in real.items():
                    setattr(c, n, f)
                real.clear()
                env.check(failed == (at < count["n"]), "exception was lost")
                if not failed and at > count["n"] + 1:
                    raise Prune
                if os.path.exists(path):
                    # without a completed write, there may be no valid file yet
                    if done:
                        readback(env, path, cols, total(cols, done), ext, f"after failure of call {at}")
                else:
                    env.check(not done, "file is missing")
                # the file was closed, and can be written again
                with glass.write_catalog(path, ext=ext) as out:
                    write(out, batch(cols, 2, 5), form)
                readback(env, path, cols, batch(cols, 2, 5), ext, "written again")
                env.check(not any(path in os.readlink(f"/proc/self/fd/{x}") for x in os.listdir("/proc/self/fd") if os.path.islink(f"/proc/self/fd/{x}")), "file is open")
        finally:
            for (c, n), f in real.items():
                setattr(c, n, f)

    def invalid(env):
        """A write that is refused after some that are not."""
        ext = env.choose("extension", [None, "CATALOG"])
        n = env.choose("good writes before", [1, 2, 3])
        bad = env.choose("bad write", ["lengths", "unknown column", "object"])
        form = env.choose("form", ["columns", "record", "reordered"])
        catch = env.choose("caught", [True, False])
        cols = COLS["two"]
        done = []
        with Scratch() as d:
            path = os.path.join(d, "cat.fits")
            try:
                with glass.write_catalog(path, ext=ext) as out:
                    for i in range(n):
                        b = batch(cols, 2, 1 + 3 * i)
                        write(out, b, form)
                        done.append(b)
                    if catch:
                        attempt(out, bad, n)
                    else:
                        bad_write(out, bad)
            except Exception:  # noqa: BLE001
                env.check(not catch, "exception")
            # rows of the refused write may be present after those of the completed ones
            with afits.open(path, memmap=False) as f:
                f.verify("exception")
                env.check(len(f) == 2, "number of extensions")
                for c in cols:
                    w = total(cols, done)[c[0]]
                    env.check(np.array_equal(f[1].data[c[0]][: len(w)], w), f"rows of completed writes ({bad})", got=f[1].data, want=w)

    def bad_write(out, bad):
        if bad == "lengths":
            out.write(RA=np.arange(3.0), DEC=np.arange(2.0))
        elif bad == "unknown column":
            out.write(RA=np.arange(2.0), XX=np.arange(2.0))
        elif bad == "object":
            out.write(RA=np.array([object(), 1], dtype=object), DEC=np.arange(2.0))

    def attempt(out, bad, n):
        try:
            bad_write(out, bad)
        except Exception:  # noqa: BLE001
            return True
        return False

    return [
        Space("writes", writes, "all histories of up to three (thorough: four) writes over sizes, column orders and forms, with and without exception", 4),
        Space("replace", replace, "all histories of two (thorough: three) catalogues written to the same file", 4),
        Space("faults", faults, "an exception from each of the first twelve calls into the FITS library", 3),
        Space("invalid", invalid, "a refused write after one to three others", 3),
    ]
