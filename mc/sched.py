"""Controlled scheduler: explore thread interleavings at bytecode granularity.

Threads run one at a time.  Before every bytecode instruction of the traced modules
that may touch shared objects, the running thread hands control to the scheduler,
which lets the explorer choose whether it continues or is preempted.  Instructions
that only touch the stack and the local variables of a frame commute with all
instructions of other threads, and are no scheduling points.  Locks are replaced by controlled locks, so
that the scheduler knows which threads can run; a thread that does not come back
(because it waits for something else) counts as blocked.
"""

from __future__ import annotations

import _thread
import dis
import sys
import threading
import types

RealLock = _thread.allocate_lock

# instructions that only touch the frame of the thread
LOCAL = {
    "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "DELETE_FAST", "LOAD_CONST", "PUSH_NULL", "POP_TOP",
    "COPY", "SWAP", "NOP", "RESUME", "CACHE", "EXTENDED_ARG", "RETURN_VALUE", "RETURN_CONST", "BUILD_TUPLE", "BUILD_LIST",
    "KW_NAMES", "PRECALL", "JUMP_FORWARD", "JUMP_BACKWARD", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "POP_JUMP_IF_FALSE",
    "POP_JUMP_IF_TRUE", "IS_OP", "MAKE_FUNCTION", "COPY_FREE_VARS", "MAKE_CELL", "POP_EXCEPT", "PUSH_EXC_INFO", "UNPACK_SEQUENCE",
    "UNPACK_EX", "BUILD_MAP", "BUILD_SLICE", "LIST_EXTEND", "CALL_INTRINSIC_1", "LOAD_CLOSURE", "END_FOR",
}


def codes_of(module):
    """All code objects of a module, including nested ones."""
    out, seen = [], set()
    fname = module.__file__

    def code(c):
        if c.co_filename == fname and c not in out:
            out.append(c)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    code(k)

    def obj(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                obj(f)
        elif isinstance(o, types.FunctionType):
            code(o.__code__)
            if hasattr(o, "__wrapped__"):
                obj(o.__wrapped__)
        elif isinstance(o, type) and o.__module__ == module.__name__:
            for v in vars(o).values():
                obj(v)

    for v in vars(module).values():
        obj(v)
    return out


TOOL = 4


class Deadlock(Exception):
    pass


class _Stop(BaseException):
    pass


class Scheduler:
    """Runs functions in threads under the control of the explorer."""

    cache = {}

    def __init__(self, env, modules, bound):
        self.env, self.bound = env, bound
        key = tuple(m.__name__ for m in modules)
        if key not in Scheduler.cache:
            Scheduler.cache[key] = self._analyse(modules)
        self.codes, self.offsets = Scheduler.cache[key]
        self.next = None
        self.failure = None
        self.n = 0
        self.state = []  # "ready", "blocked", "done"
        self.wait = []  # what the thread waits for
        self.go = []
        self.main = threading.Semaphore(0)
        self.results = []
        self.errors = []
        self.points = 0
        self.switches = 0
        self.abort = False
        self.local = threading.local()

    @staticmethod
    def _analyse(modules):
        codes = [c for m in modules for c in codes_of(m)]
        # scheduling points; globals that never change are not shared state
        ins = {c: list(dis.get_instructions(c)) for c in codes}
        stored = {i.argval for v in ins.values() for i in v if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL")}
        return codes, {
            c: {i.offset for i in v if i.opname not in LOCAL and not (i.opname == "LOAD_GLOBAL" and i.argval not in stored)}
            for c, v in ins.items()
        }

    # -- inside of threads --------------------------------------------------
    def _pause(self, i):
        self.main.release()
        self.go[i].acquire()
        if self.abort:
            raise _Stop

    def me(self):
        return getattr(self.local, "index", None)

    def point(self):
        """The running thread may be preempted here."""
        i = self.me()
        if i is None:
            return
        if self.abort:
            raise _Stop
        self.points += 1
        if self.bound > 0:
            others = [j for j in range(self.n) if j != i and self.state[j] == "ready"]
            if others:
                try:
                    nxt = self.env.choose("run", [i, *others])
                except BaseException as e:
                    self.failure = e
                    raise _Stop from None
                if nxt != i:
                    self.bound -= 1
                    self.next = nxt
                    self._pause(i)

    def block(self, obj):
        i = self.me()
        self.state[i], self.wait[i] = "blocked", obj
        self._pause(i)

    def _instruction(self, code, offset):
        if offset in self.offsets.get(code, ()) and self.me() is not None:
            self.point()

    def _start(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "mc.sched")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._instruction)
        for c in self.codes:
            mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)

    def _stop(self):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(TOOL)

    def _body(self, i, func):
        self.local.index = i
        self.go[i].acquire()
        try:
            if not self.abort:
                self.results[i] = func()
        except _Stop:
            pass
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        finally:
            self.state[i] = "done"
            self.main.release()

    # -- in the main thread ---------------------------------------------------
    def run(self, funcs):
        self.n = len(funcs)
        self.state = ["ready"] * self.n
        self.wait = [None] * self.n
        self.go = [threading.Semaphore(0) for _ in funcs]
        self.results = [None] * self.n
        self.errors = [None] * self.n
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        for t in threads:
            t.start()
        cur = None
        self._start()
        try:
            while any(s != "done" for s in self.state):
                ready = [i for i in range(self.n) if self.state[i] == "ready"]
                if not ready:
                    raise Deadlock(f"all threads are blocked: {self.state}")
                nxt, self.next = self.next, None
                if nxt is None:
                    nxt = self.env.choose("run", ready) if len(ready) > 1 else ready[0]
                if nxt != cur:
                    self.switches += 1
                cur = nxt
                self.go[cur].release()
                if not self.main.acquire(timeout=20):
                    raise Deadlock(f"thread {cur} waits for something unknown")
                if self.failure is not None:
                    raise self.failure
        finally:
            self._stop()
            if any(s != "done" for s in self.state):
                self.abort = True
                for i in range(self.n):
                    if self.state[i] != "done":
                        self.go[i].release()
            for t in threads:
                t.join(timeout=5)
        for e in self.errors:
            if e is not None:
                raise e
        return self.results

    def lock(self):
        return Lock(self)


class Lock:
    """Lock that is known to the scheduler; behaves as usual outside of it."""

    def __init__(self, sched, reentrant=False):
        self.sched, self.owner, self.depth, self.reentrant = sched, None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = self.sched.me()
        who = ("main",) if me is None else me
        if me is not None:
            self.sched.point()
        if self.reentrant and self.owner == who:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if me is None:
                raise Deadlock("lock is held outside of threads")
            self.sched.block(self)
        self.owner, self.depth = who, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth:
            return
        self.owner = None
        for i in range(self.sched.n):
            if self.sched.state[i] == "blocked" and self.sched.wait[i] is self:
                self.sched.state[i] = "ready"

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def replace_locks(sched, obj):
    """Replace all locks held in attributes of the object."""
    names = set(getattr(obj, "__dict__", {}))
    for c in type(obj).__mro__:
        names |= set(getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else [c.__slots__])
    for n in names:
        try:
            v = getattr(obj, n)
        except AttributeError:
            continue
        if isinstance(v, (type(RealLock()), Lock)):
            setattr(obj, n, Lock(sched))
        elif type(v).__name__ == "RLock":
            setattr(obj, n, Lock(sched, reentrant=True))
