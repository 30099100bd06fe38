"""C29: calls do not affect each other."""

import gc
import os
import pickle
import signal
import sys
import threading

import numpy as np

from mc.setup_env import BACKENDS, REPO, to_np

import glass
from mc import api
from mc.engine import Env, Prune, Space

TECHNIQUE = (
    "exhaustive exploration of histories of calls and of thread schedules on the real code, each in a process forked from a pristine one; "
    "the reference is the same call alone in a pristine process"
)
NOTE = (
    "All ordered pairs of argument variants of each function of the catalogue and all ordered pairs of functions, with results and inputs overwritten and "
    "buffers reused in between; all placements of one preemption between two calls at the granularity of source lines of glass (thorough: also two preemptions); "
    "all interleavings of two lazily evaluated calls. Threads are explored for NumPy arrays only; code of other libraries runs without preemption."
)


# -- processes --------------------------------------------------------------------


def child(func):
    """Run a function in a process forked from this one, which never calls glass itself."""
    # leave the objects of this process alone, so that their memory remains shared
    gc.disable()
    gc.freeze()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            try:
                out = ("ok", func())
            except Exception as e:  # noqa: BLE001
                import traceback

                out = ("error", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("process was aborted")
    return pickle.loads(data)


def build(name, path):
    """Build a case from its recorded choices."""
    return api.CASES[name].func(Env(list(path)))


def enumerate_variants(name):
    """All choices of a case."""
    out, stack = [], [[]]
    while stack:
        p = stack.pop()
        e = Env(p)
        try:
            api.CASES[name].func(e)
        except Prune:
            continue
        for d in range(len(p), len(e.trace)):
            for j in range(1, e.trace[d][1]):
                stack.append([t[2] for t in e.trace[:d]] + [j])
        out.append((tuple(t[2] for t in e.trace), ", ".join(f"{t[0]}={t[3]!r}" for t in e.trace)[:300]))
    return sorted(out)


class Variant:
    def __init__(self, path, text):
        self.path, self.text = path, text

    def __repr__(self):
        return self.text


MEMO = {}


def variants(name):
    if ("variants", name) not in MEMO:
        st, *x = child(lambda: enumerate_variants(name))
        assert st == "ok", x
        MEMO["variants", name] = [Variant(*v) for v in x[0]]
    return MEMO["variants", name]


# -- results ------------------------------------------------------------------------


def frozen(o):
    """Copy of a result, independent of everything."""
    if isinstance(o, glass.RadialWindow):
        return ("window", frozen(o.za), frozen(o.wa), frozen(o.zeff))
    if isinstance(o, (tuple, list)):
        return (type(o).__name__, *map(frozen, o))
    if isinstance(o, dict):
        return ("dict", *((k, frozen(v)) for k, v in o.items()))
    if isinstance(o, (np.ndarray, np.generic)) or hasattr(o, "__array_namespace__"):
        return np.array(to_np(o), copy=True)
    return o


def equal(a, b):
    """Same results, within rounding that may depend on the alignment of memory."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc" and a.size:
            fin = np.abs(b[np.isfinite(b)])
            return np.allclose(a, b, rtol=1e-11, atol=1e-12 * (fin.max() if fin.size else 0.0), equal_nan=True)
        return np.array_equal(a, b)
    return a == b or a != a and b != b


def outcome(call, xp, i, r=None):
    """Result of a call, or its error; and the live result."""
    try:
        live = call(xp, i, r or api.rng_of(xp))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__, str(e)), None
    return frozen(live), live


def scribble(o):
    """Overwrite all arrays in place."""
    for x in api.arrays(o):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            x[...] = 77 if x.dtype.kind in "iu" else (x == 0) if x.dtype.kind == "b" else -1.7e3


def restore(old, new):
    """Copy new values into the old buffers; False if they do not fit."""
    x, y = api.arrays(old), api.arrays(new)
    if len(x) != len(y) or any(p.shape != q.shape or p.dtype != q.dtype for p, q in zip(x, y)):
        return False
    for p, q in zip(x, y):
        if not isinstance(p, np.ndarray) or not p.flags.writeable:
            return False
    for p, q in zip(x, y):
        p[...] = q
    return True


def structure(o):
    """Nested input without its arrays."""
    if isinstance(o, (tuple, list)):
        return (type(o).__name__, *map(structure, o))
    if isinstance(o, dict):
        return tuple((k, structure(v)) for k, v in o.items())
    if hasattr(o, "__array_namespace__"):
        return "array"
    return repr(o)


def reference(name, path, xp=np):
    key = (name, path, xp.__name__)
    if key not in MEMO:

        def f():
            i, call = build(name, path)
            return outcome(call, xp, api.conv(xp, i))[0]

        MEMO[key] = child(f)
    return MEMO[key]


# -- threads --------------------------------------------------------------------------


class Preempt:
    """Two threads: the first is stopped before its line k, the second before its line m."""

    TOOL = 4

    def __init__(self, funcs, k, m=None):
        self.funcs, self.stop = funcs, [k, m]
        self.count = [0, 0]
        self.visits, self.lines = {}, []
        self.result = [None, None]
        self.back = [threading.Event(), threading.Event()]
        self.go = [threading.Event(), threading.Event()]
        self.local = threading.local()
        self.root = os.path.join(os.path.realpath(REPO), "glass") + os.sep

    def start(self, code, offset):
        if os.path.realpath(code.co_filename).startswith(self.root):
            sys.monitoring.set_local_events(self.TOOL, code, sys.monitoring.events.LINE)
        return sys.monitoring.DISABLE

    def line(self, code, line):
        t = getattr(self.local, "index", None)
        if t is None:
            return None
        self.count[t] += 1
        if t == 0:
            n = self.visits[code, line] = self.visits.get((code, line), 0) + 1
            self.lines.append(n)
        if self.count[t] == self.stop[t]:
            self.back[t].set()
            self.go[t].wait()
        return None

    def body(self, t):
        self.local.index = t
        try:
            self.result[t] = self.funcs[t]()
        finally:
            self.back[t].set()

    def run(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "mc.c29")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.register_callback(self.TOOL, mon.events.PY_START, self.start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        try:
            threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.funcs))]
            for t, th in enumerate(threads):
                th.start()
                # a thread that does not come back waits for the other
                self.back[t].wait(5)
            for t, th in enumerate(threads):
                self.stop[t] = None
                self.go[t].set()
                th.join(30 if t else 5)
            for th in threads:
                th.join(30)
        finally:
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
        return self.result


def lines_of(name, path):
    """Lines that the call executes in a pristine process, each as the number of its visits so far."""
    key = ("lines", name, path)
    if key not in MEMO:

        def f():
            i, call = build(name, path)
            p = Preempt([lambda: outcome(call, np, i)[0]], None)
            p.run()
            return p.lines

        st, *x = child(f)
        assert st == "ok", x
        MEMO[key] = x[0]
    return MEMO[key]


# -- lazy calls -------------------------------------------------------------------------

LAZY = {
    "generate": lambda d, r: glass.generate(
        [glass.grf.Normal(), glass.grf.Lognormal(), glass.grf.Normal()], [c * (1 + d) for c in api.CLS3], 1, ncorr=2 - d, rng=r),
    "generate long": lambda d, r: glass.generate(
        [glass.grf.Normal()] * 4, [np.full(3, 1.0 + d if k in (0, 1, 3, 6) else 0.2) for k in range(10)], 1, ncorr=1 + d, rng=r),
    "generate uncorrelated": lambda d, r: glass.generate([glass.grf.Normal()] * 3, [c * (1 + d) for c in api.CLS3], 1, ncorr=0, rng=r),
    "positions": lambda d, r: glass.positions_from_delta(np.array([4e-7, 8e-7]), api.kmap(1, d) * 8, rng=r, batch=60 + d),
    "positions bias": lambda d, r: glass.positions_from_delta(8e-7, api.kmap(1, d) * 8, 1.0 + d, np.abs(api.kmap(1)) * 10, rng=r, batch=20, remove_monopole=bool(d)),
    "uniform": lambda d, r: glass.uniform_positions(np.array([2e-8, 2e-8, 1e-8]) * (1 + d), rng=r, xp=np),
    "iternorm": lambda d, r: glass.iternorm([np.array([1.0 + d, *([0.1] * min(k, 2 - d))]) for k in range(4)]),
    "cls2cov": lambda d, r: glass.cls2cov([c * (1 + d) for c in api.CLS3], 4, 3, 2 - d),
}
# the yielded arrays are documented as working memory of the iterator
BUFFERS = {"iternorm", "cls2cov"}


def steps_of(name, d):
    """Results of a lazy call that runs alone."""
    key = ("lazy", name, d)
    if key not in MEMO:
        st, *x = child(lambda: [frozen(x) for x in LAZY[name](d, api.rng_of(np, 0.2 * d))])
        assert st == "ok", x
        MEMO[key] = x[0]
    return MEMO[key]


def preload():
    """Import the libraries that the calls import, but leave glass alone."""

    def f():
        import sys

        for name in api.CASES:
            i, c = build(name, enumerate_variants(name)[0][0])
            outcome(c, np, i)
        return sorted(k for k in sys.modules if k.split(".")[0] not in ("glass", "mc", "checks"))

    import importlib

    res = child(f)
    for k in res[1] if res[0] == "ok" else ():
        try:
            importlib.import_module(k)
        except ImportError:
            pass


def spaces(tier):
    preload()
    thorough = tier != "quick"
    names = list(api.CASES)

    # quick: several histories, one after the other, in one process
    size = 1 if thorough else 4

    def chunks(x):
        return [x[k : k + size] for k in range(0, len(x), size)]

    def play(env, a, bs, xp=np):
        """History of calls a, b, and b again with the buffers of a, in one process."""
        na, pa = a

        def one(nb, pb):
            i1, c1 = build(na, pa)
            i1 = api.conv(xp, i1)
            got1, live1 = outcome(c1, xp, i1)
            i2, c2 = build(nb, pb)
            i2 = api.conv(xp, i2)
            got2, live2 = outcome(c2, xp, i2)
            kept = frozen(live1) if live1 is not None else got1
            got3 = None
            if xp is np:
                for o in (live1, live2, i1, i2):
                    scribble(o)
                i3, c3 = build(nb, pb)
                if structure(i1) == structure(i3) and restore(i1, i3):
                    i3 = i1
                got3, _ = outcome(c3, xp, i3)
            return got1, kept, got2, got3

        res = child(lambda: [one(*b) for b in bs])
        env.check(res[0] == "ok", "history fails", got=res)
        for (nb, pb), (got1, kept, got2, got3) in zip(bs, res[1]):
            wants = [reference(na, pa, xp), reference(nb, pb, xp)]
            for w in wants:
                env.check(w[0] == "ok", "call alone fails", got=w)
            env.check(equal(got1, wants[0][1]), "call is not reproducible", got=got1, want=wants[0][1], second=nb)
            env.check(equal(kept, got1), "result was changed by a later call", got=kept, want=got1, second=nb)
            env.check(equal(got2, wants[1][1]), "result depends on an earlier call", got=got2, want=wants[1][1], second=nb)
            if xp is np:
                env.check(equal(got3, wants[1][1]), "result depends on earlier inputs or results, which were modified", got=got3, want=wants[1][1], second=nb)
            env.outcome(repr(got2)[:2000])

    def variants_of(env):
        name = env.choose("function", names)
        vs = variants(name)
        a = env.choose("first call", vs)
        # quick: pairs that differ in one argument
        near = [v for v in vs if len(v.path) != len(a.path) or sum(p != q for p, q in zip(v.path, a.path)) <= 1]
        bs = env.choose("second calls", chunks(vs if thorough or len(vs) <= 24 else near))
        play(env, (name, a.path), [(name, b.path) for b in bs])

    def functions(env):
        xp = BACKENDS[env.choose("backend", ["numpy", "strict"])]
        key = "numpy" if xp is np else "strict"
        sel = [k for k in names if key in api.CASES[k].backends]
        a = env.choose("first function", sel)
        bs = env.choose("second functions", chunks(sel))
        which = env.choose("variants", ["first", "last"] if thorough or xp is np else ["first"])
        k = 0 if which == "first" else -1
        play(env, (a, variants(a)[k].path), [(b, variants(b)[k].path) for b in bs], xp)

    def backends(env):
        """Same call with arrays of one backend after another."""
        name = env.choose("function", [k for k in names if "strict" in api.CASES[k].backends])
        v = env.choose("call", variants(name))
        order = env.choose("order", ["numpy strict", "strict numpy"])

        def f():
            out = []
            for k in order.split():
                xp = BACKENDS[k]
                i, c = build(name, v.path)
                got, live = outcome(c, xp, api.conv(xp, i))
                out.append((got, sorted({type(x).__module__.split(".")[0] for x in api.leaves(live) if hasattr(x, "__array_namespace__")})))
            return out

        res = child(f)
        env.check(res[0] == "ok", "history fails", got=res)
        for (got, kinds), k in zip(res[1], order.split()):
            want = reference(name, v.path, BACKENDS[k])
            env.check(want[0] == "ok" and equal(got, want[1]), "result depends on the backend of an earlier call", got=got, want=want)
            env.check(set(kinds) <= {"numpy" if k == "numpy" else "array_api_strict"}, "result is of the backend of an earlier call", got=kinds)

    def scaled(env):
        """Same buffers with other values: results follow the values."""
        name = env.choose("function", names)
        v = env.choose("call", variants(name))
        factor = env.choose("factor", [0.5, 2.0] if thorough else [0.5])
        n = env.choose("calls before", [1, 2, 3] if thorough else [1, 2])

        def scale(i):
            for x in api.arrays(i):
                if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
                    x[...] = x * factor

        def alone():
            i, c = build(name, v.path)
            scale(i)
            return outcome(c, np, i)[0]

        def f():
            i, c = build(name, v.path)
            before = [outcome(c, np, i)[0] for _ in range(n)]
            scale(i)
            return before, outcome(c, np, i)[0]

        want, res = child(alone), child(f)
        env.check(want[0] == res[0] == "ok", "history fails", got=res, want=want)
        ref = reference(name, v.path)
        for x in res[1][0]:
            env.check(equal(x, ref[1]), "repeated call gives another result", got=x, want=ref)
        env.check(equal(res[1][1], want[1]), "result does not follow the values of a reused buffer", got=res[1][1], want=want[1])

    def threads(env):
        name = env.choose("function", names)
        vs = variants(name)
        k = len(vs) // 2
        other = env.choose("second call", ["other arguments", "shared arguments"])
        first = [vs[0], vs[k]] if k else [vs[0]]
        a = env.choose("first call", vs if thorough and len(vs) < 8 else first if thorough or other == "shared arguments" else first[:1])
        b = a if other == "shared arguments" else vs[-1]
        # quick: lines in loops up to the third visit, eight preemptions in one process
        lines = [k + 1 for k, n in enumerate(lines_of(name, a.path)) if k and (thorough or n <= 3)]
        size = 1 if thorough else 8
        stops = env.choose("preempted before lines", [lines[k : k + size] for k in range(0, len(lines), size)])
        second = None
        if thorough and len(lines) <= 40:
            second = env.choose("second thread preempted before line", [None, *range(2, len(lines_of(name, b.path)) + 1)])

        def f(stops):
            out = []
            for stop in stops:
                i, c = build(name, a.path)
                j, d = (i, c) if other == "shared arguments" else build(name, b.path)
                p = Preempt([lambda: outcome(c, np, i)[0], lambda: outcome(d, np, j)[0]], stop, second)
                out.append((p.run(), p.count[0]))
            return out

        res = child(lambda: f(stops))
        env.check(res[0] == "ok", "threads fail", got=res)
        for (run, count), stop in zip(res[1], stops):
            if count < stop and size > 1:
                # an earlier call made this one shorter
                alone = child(lambda: f([stop]))
                env.check(alone[0] == "ok", "threads fail", got=alone)
                run, count = alone[1][0]
            for got, v in zip(run, (a, b)):
                want = reference(name, v.path)
                env.check(want[0] == "ok" and equal(got, want[1]), "result depends on a call in another thread", got=got, want=want, line=stop)

    def lazy(env):
        """Two lazy calls, advanced in any order, modified, abandoned."""
        a = env.choose("first", list(LAZY))
        b = env.choose("second", list(LAZY) if thorough else [a, "generate" if a != "generate" else "positions"])
        da, db = 0, env.choose("arguments of second", [0, 1])
        wants = [steps_of(a, da), steps_of(b, db)]
        n = [len(w) for w in wants]
        modify = env.choose("yielded results", ["kept", "modified"])
        if modify == "modified" and {a, b} & BUFFERS:
            raise Prune
        order, pos = [], [0, 0]
        alive = [0, 1]
        # at most so many changes between the calls, and one of them may be closed
        switches = 3 if thorough else 2
        cur = 0
        closed = None
        while alive:
            opts = [("next", cur)] if cur in alive else []
            for o in alive:
                if o != cur and (switches > 0 or not opts):
                    opts.append(("next", o))
            if closed is None and len(alive) == 2 and 0 < pos[cur] < n[cur]:
                opts.append(("close", cur))
                opts.append(("throw", cur))
            op, k = env.choose("step", opts)
            order.append((op, k))
            if k != cur:
                switches -= 1
                cur = k
            if op == "next":
                pos[k] += 1
                if pos[k] > n[k]:
                    alive.remove(k)
            else:
                closed = k
                alive.remove(k)

        def f():
            gens = [LAZY[a](da, api.rng_of(np, 0.2 * da)), LAZY[b](db, api.rng_of(np, 0.2 * db))]
            out = [[], []]
            kept = [[], []]
            for op, k in order:
                if op == "close":
                    gens[k].close()
                elif op == "throw":
                    try:
                        gens[k].throw(KeyError("thrown"))
                        out[k].append("swallowed")
                    except KeyError:
                        pass
                else:
                    try:
                        x = next(gens[k])
                    except StopIteration:
                        continue
                    out[k].append(frozen(x))
                    if modify == "modified":
                        scribble(x)
                    else:
                        kept[k].append(x)
            return out, [list(map(frozen, x)) for x in kept]

        res = child(f)
        env.check(res[0] == "ok", "history fails", got=res)
        out, kept = res[1]
        for k in (0, 1):
            m = min(pos[k], n[k])
            env.check(len(out[k]) == m and all(map(equal, out[k], wants[k])), "lazy results depend on what happens between the steps", got=out[k], want=wants[k][:m])
            if modify == "kept" and (a, b)[k] not in BUFFERS:
                env.check(all(map(equal, kept[k], out[k])), "yielded result was changed by a later step", got=kept[k], want=out[k])

    return [
        Space("variants", variants_of, "all ordered pairs of argument variants of each function (quick: of those with more than 24 variants, pairs that differ in one argument), three calls per history", 2, timeout=60),
        Space("functions", functions, "all ordered pairs of functions, two backends", 3, timeout=60),
        Space("backends", backends, "all argument variants, two orders of two backends", 2, timeout=60),
        Space("scaled", scaled, "all argument variants, buffers reused with other values after up to two (thorough: three) calls", 2, timeout=60),
        Space("threads", threads, "two calls of the same function on other or shared arguments, one preemption before every line (quick: up to its third visit; thorough: two for short functions)", 4, timeout=60),
        Space("lazy", lazy, "all interleavings of two lazy calls with up to two (thorough: three) switches, closed or interrupted at any step, results modified or kept", 5, timeout=60),
    ]
