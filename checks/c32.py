"""C32: the package works in every environment: missing optional packages, import orders, extensions."""

import importlib
import importlib.abc
import io
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from mc.setup_env import REPO, to_np

from checks.c29 import child
from mc import api
from mc.engine import Prune, Space

TECHNIQUE = "exhaustive enumeration of environments (subsets of optional packages, orders of imports, search paths with extension packages), each explored with the real package in a forked process"
NOTE = (
    "Packages are hidden by a finder that comes first and by removing them from the loaded modules. Modules of glass are removed and imported again in each process. "
    "Extension packages are made in a scratch directory, up to three directories on the search path."
)

OPTIONAL = ["jax", "fitsio", "array_api_strict", "cosmology", "jaxtyping"]
HIDE = {"jax": ("jax", "jaxlib", "ml_dtypes", "opt_einsum")}

MODULES = sorted(
    "glass" + ("." + n if n else "")
    for n in ["", *[f[:-3] for f in os.listdir(os.path.join(REPO, "glass")) if f.endswith(".py") and f != "__init__.py"], "grf", "grf._core", "grf._solver", "ext"]
)


def forked(f):
    r = child(f)
    if r[0] != "ok":
        raise RuntimeError(*r[1:])
    return r[1]


class Hidden(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = {n for k in names for n in HIDE.get(k, (k,))}
        self.asked = set()

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in self.names:
            self.asked.add(top)
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def forget(*tops):
    for m in list(sys.modules):
        if m.partition(".")[0] in tops:
            del sys.modules[m]


def hide(names):
    f = Hidden(names)
    forget("glass", *f.names)
    sys.meta_path.insert(0, f)
    return f


def digest(x):
    if isinstance(x, Exception):
        return (type(x).__name__, str(x))
    out = []
    for v in api.leaves(x):
        if hasattr(v, "__array_namespace__") or isinstance(v, (int, float, complex, np.generic)):
            v = to_np(v)
            out.append((v.shape, v.dtype.str, v.tobytes()))
        else:
            out.append(repr(v))
    return tuple(out)


class Walk:
    """All choices of a case, without the explorer."""

    def __init__(self, choices):
        self.choices, self.trace = list(choices), []

    def choose(self, label, options):
        o = list(options)
        k = len(self.trace)
        j = self.choices[k] if k < len(self.choices) else 0
        self.trace.append((len(o), j))
        return o[j]


def variants(f):
    stack = [[]]
    while stack:
        c = stack.pop()
        w = Walk(c)
        try:
            r = f(w)
        except Prune:
            r = None
        for k in range(len(c), len(w.trace)):
            stack.extend([t[1] for t in w.trace[:k]] + [j] for j in range(1, w.trace[k][0]))
        if r is not None:
            yield [t[1] for t in w.trace], r


def reload_api():
    """The catalogue of calls, for the modules of glass that are loaded now."""
    import glass

    assert os.path.realpath(glass.__file__).startswith(os.path.realpath(REPO) + os.sep)
    for m in ("mc.util", "mc.api"):
        mod = sys.modules.get(m)
        if mod is not None and hasattr(mod, "glass"):
            mod.glass = glass
    return glass


def results(names):
    out = {}
    for name in names:
        c = api.CASES[name]
        for ch, (i, call) in variants(c.func):
            # with and without a generator
            for k in (0, 1):
                try:
                    r = digest(call(np, i, api.rng_of(np) if k == 0 else None))
                except Exception as e:  # noqa: BLE001
                    r = digest(e)
                out[name, tuple(ch), k] = r
    return out


REF = {}


def spaces(tier):
    thorough = tier != "quick"
    names = [k for k, c in api.CASES.items()]
    groups = [names[k::6] for k in range(6)]

    def reference(group):
        if group not in REF:

            def f():
                forget("glass")
                importlib.import_module("glass")
                exec_catalogue()
                return results(groups[group])

            REF[group] = forked(f)
        return REF[group]

    def exec_catalogue():
        """Make the catalogue again, since it holds objects of glass."""
        del sys.modules["mc.api"]
        for m in ("mc.util",):
            sys.modules.pop(m, None)
        globals()["api"] = importlib.import_module("mc.api")
        reload_api()

    def optional(env):
        """Without optional packages."""
        missing = [k for k in OPTIONAL if env.choose(f"{k} is installed", [True, False]) is False]
        group = env.choose("functions", list(range(6)))
        want = reference(group)

        def f():
            hook = hide(missing)
            # no error on import and nothing optional is loaded
            loaded = set(sys.modules)
            importlib.import_module("glass")
            new = {m.partition(".")[0] for m in set(sys.modules) - loaded}
            setattr(sys.modules["mc.setup_env"], "glass", sys.modules["glass"])
            exec_catalogue()
            got = results(groups[group])
            bad = [(k, want[k], got.get(k)) for k in want if got.get(k) != want[k]]
            return sorted(new & {*OPTIONAL, "jaxlib"}), len(got), bad[:2]

        new, n, bad = forked(f)
        env.check(not new, "import of glass loads optional packages", got=new)
        env.check(n == len(want), "number of calls")
        env.check(not bad, "result depends on packages that are installed", got=str(bad)[:2000])
        env.state((tuple(missing), group))

    def modules(env):
        """All orders of imports of two modules, in environments with and without JAX."""
        first = env.choose("first", MODULES)
        second = env.choose("second", MODULES)
        missing = env.choose("missing", [(), ("jax",), tuple(OPTIONAL)] if thorough or first == second else [()])
        need = {"glass.jax": {"jax"}, "glass.cosmology": {"cosmology"}}

        def f():
            hide(missing)
            out = []
            for m in (first, second):
                try:
                    importlib.import_module(m)
                    out.append(None)
                except Exception as e:  # noqa: BLE001
                    out.append((type(e).__name__, str(e)))
            g = sys.modules.get("glass")
            names = sorted(n for n in vars(g) if not n.startswith("_")) if g else []
            good = all(getattr(g, m.split(".")[1], None) is sys.modules[m] for m in sys.modules if m.startswith("glass.") and m.count(".") == 1)
            return out, [n for n in getattr(g, "__all__", []) if not hasattr(g, n)], good, names

        out, lacking, good, have = forked(f)
        for m, e in zip((first, second), out):
            if need.get(m, set()) & set(missing):
                env.check(e is not None and e[0] in ("ModuleNotFoundError", "ImportError"), f"import of {m} without its requirements", got=e)
            else:
                env.check(e is None, f"import of {m}", got=e)
        env.check(not lacking, "names of the package are not defined", got=lacking)
        env.check(good, "modules are not attributes of the package")
        public = {n for n in have if n not in {m.split(".")[1] for m in MODULES if "." in m}}
        env.check({"generate", "cosmology"} & set(have) >= {"generate"} and len(public) > 50, "functions of the package", got=len(public))
        env.state(tuple(sorted(public)))

    def catalogues(env):
        """Only write_catalog needs fitsio."""
        missing = env.choose("missing", [(), ("fitsio",)])
        at = env.choose("removed", ["before import", "after import"])

        def f():
            if at == "before import":
                hide(missing)
            glass = importlib.import_module("glass")
            if at == "after import":
                fnd = Hidden(missing)
                forget(*fnd.names)
                sys.meta_path.insert(0, fnd)
            d = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
            p = os.path.join(d, "c.fits")
            try:
                try:
                    with glass.write_catalog(p) as out:
                        out.write(x=np.arange(3.0))
                    r = "ok"
                except ImportError as e:
                    r = e.name
                return r, os.path.exists(p)
            finally:
                shutil.rmtree(d)

        r, exists = forked(f)
        if missing:
            env.check(r == "fitsio" and not exists, "error without fitsio", got=r)
        else:
            env.check(r == "ok" and exists, "catalogue", got=r)

    # what a directory on the search path contains: name -> (has __init__ of glass, extension modules or None without ext, packages)
    KINDS = {
        "empty": None,
        "glass without ext": (False, None),
        "a": (False, ["a"]),
        "b": (False, ["b"]),
        "a and package b": (False, ["a", "b/"]),
        "a in regular package": (True, ["a"]),
        "ext is a file": (False, "file"),
        "empty ext": (False, []),
        "missing": "missing",
        "ext with init": (False, ["__init__", "a"]),
        "file": "file",
    }

    def make(root, k, kind):
        d = os.path.join(root, "zyxcba"[2 * (k % 2) + k // 2] + f"{k}")
        spec = KINDS[kind]
        if spec == "missing":
            return d
        if spec == "file":
            with open(d, "w") as f:
                f.write("text")
            return d
        os.makedirs(d)
        if spec is None:
            return d
        init, ext = spec
        os.makedirs(os.path.join(d, "glass"))
        if init:
            with open(os.path.join(d, "glass", "__init__.py"), "w") as f:
                f.write("raise ImportError('not the package')\n")
        if ext is None:
            return d
        e = os.path.join(d, "glass", "ext")
        if ext == "file":
            with open(e, "w") as f:
                f.write("text")
            return d
        os.makedirs(e)
        for m in ext:
            if m.endswith("/"):
                os.makedirs(os.path.join(e, m))
                m = m + "__init__"
            with open(os.path.join(e, m + ".py"), "w") as f:
                f.write(f"where = {k}\n" if m != "__init__" else "raise ImportError('init of extension')\n")
        return d

    def extensions(env):
        n = env.choose("directories", [0, 1, 2] + ([3] if thorough else []))
        kinds = [env.choose(f"directory {k}", list(KINDS)) for k in range(n)]
        pos = env.choose("package", ["first", "last"])
        late = env.choose("import of the package", ["before", "after"])
        if "a in regular package" in kinds and pos == "last":
            raise Prune  # another package named glass hides this one
        if n > 1 and late == "before" and not thorough:
            raise Prune

        def f():
            forget("glass")
            with tempfile.TemporaryDirectory(dir=os.environ["MC_SCRATCH"]) as root:
                dirs = [make(root, k, kind) for k, kind in enumerate(kinds)]
                rest = [p for p in sys.path if os.path.realpath(p) != os.path.realpath(REPO)]
                if late == "before":
                    sys.path[:] = [REPO, *rest]
                    importlib.import_module("glass")
                sys.path[:] = [REPO, *dirs, *rest] if pos == "first" else [*dirs, REPO, *rest]
                importlib.invalidate_caches()
                glass = importlib.import_module("glass")
                out = {"core": os.path.realpath(os.path.dirname(glass.__file__)) == os.path.realpath(os.path.join(REPO, "glass"))}
                for m in ("a", "b", "c"):
                    try:
                        out[m] = importlib.import_module(f"glass.ext.{m}").where
                    except ModuleNotFoundError as e:
                        out[m] = e.name
                out["path"] = all(os.path.isdir(p) for p in importlib.import_module("glass.ext").__path__)
                out["count"] = len(importlib.import_module("glass.ext").__path__)
                return out

        got = forked(f)
        env.check(got["core"], "package itself comes from the extension")
        for m in ("a", "b", "c"):
            having = [k for k, kind in enumerate(kinds) if isinstance(KINDS[kind], tuple) and isinstance(KINDS[kind][1], list) and {m, m + "/"} & set(KINDS[kind][1])]
            want = having[0] if having else f"glass.ext.{m}"
            if m == "b" and having and "a and package b" == kinds[having[0]]:
                env.check(got[m] == want or isinstance(got[m], int), f"extension {m}", got=got, want=want)
                continue
            env.check(got[m] == want, f"extension {m}", got=got, want=want)
        env.check(got["path"], "search path of extensions contains other things than directories")
        env.state((tuple(kinds), got["count"]))

    return [
        Space("optional", optional, "all subsets of five packages, all calls of the catalogue with NumPy", 4, timeout=300),
        Space("modules", modules, "all ordered pairs of modules", 2),
        Space("catalogues", catalogues, "with and without fitsio", 2),
        Space("extensions", extensions, "all search paths with up to two (thorough: three) directories of eleven kinds", 3),
    ]
