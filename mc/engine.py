"""Stateless explorer over a tree of choices.

A *space* is a driver function ``run(env)``.  Every source of nondeterminism
that the driver can see -- configuration, input from a finite alphabet, next
operation of a history, answer of the random number generator, result of a
device write, next thread to run -- is a call to ``env.choose(label, options)``.
The explorer enumerates *all* sequences of choices by depth-first search with
prefix replay.  Each complete sequence is one execution of the real code, which
the driver compares step by step with a reference model using ``env.check`` and
friends.

Divergence while replaying a prefix (another label or another number of options
than recorded) is an error: it means that there is nondeterminism which is not
owned by the harness (or, in the code under test, hidden state that survives an
execution), and is reported as a violation.
"""

from __future__ import annotations

import hashlib
import json
import os
import signal
import time
import traceback
import zlib


STOP = os.path.join(os.environ["MC_SCRATCH"], "stop") if os.environ.get("MC_FAILFAST") else None


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, msg, key=None, details=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.details = details


class Skip(Exception):
    """Execution belongs to another shard."""


class Prune(Exception):
    """Execution is outside of the space (e.g. an inadmissible input)."""


class Hang(BaseException):
    """Execution did not finish within the time limit."""


class Divergence(Exception):
    pass


def short(x, n=300):
    try:
        import numpy as np

        if hasattr(x, "__array_namespace__") and not isinstance(x, np.ndarray):
            x = np.asarray(x)
        if isinstance(x, np.ndarray):
            x = x.tolist()
    except Exception:  # noqa: BLE001
        pass
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Env:
    """The environment of one execution."""

    def __init__(self, prefix, counts=None, shard=None, shard_depth=2, replay=False):
        self.prefix = prefix
        self.counts = counts or []
        self.trace = []  # (label, n options, index, repr)
        self.shard = shard
        self.shard_depth = shard_depth
        self.checks = 0
        self.outcomes = []
        self.states = []
        self.replay = replay
        self.log = []
        self._shard_done = shard is None

    # -- nondeterminism ---------------------------------------------------
    def choose(self, label, options):
        """Branch over all options, in the given order."""
        options = list(options)
        i = len(self.trace)
        if not options:
            raise Prune
        if i < len(self.prefix):
            j = self.prefix[i]
            if i < len(self.counts) and self.counts[i] != (label, len(options)):
                raise Divergence(
                    f"replay diverged at choice {i}: expected {self.counts[i]}, "
                    f"got {(label, len(options))}"
                )
            if j >= len(options):
                raise Divergence(f"choice {i} ({label}) out of range: {j}")
        else:
            j = 0
        self.trace.append((label, len(options), j, options[j]))
        if not self._shard_done and i + 1 == self.shard_depth:
            self._check_shard()
        return options[j]

    def _check_shard(self):
        self._shard_done = True
        k, n = self.shard
        h = zlib.crc32(
            repr([t[2] for t in self.trace[: self.shard_depth]]).encode()
        )
        h = (h * 2654435761 & 0xFFFFFFFF) >> 8
        if h % n != k:
            raise Skip

    def finish(self):
        if not self._shard_done:
            self._check_shard()

    # -- oracle -----------------------------------------------------------
    def fail(self, msg, key=None, **details):
        raise Violation(msg, key, details)

    def check(self, cond, msg, key=None, **details):
        self.checks += 1
        if not bool(cond):
            raise Violation(msg, key, details)

    def outcome(self, obj):
        """Record an observed outcome (to count distinct ones)."""
        self.outcomes.append(hashlib.md5(repr(obj).encode()).hexdigest()[:16])

    def state(self, obj):
        """Record a canonical state visited by this execution."""
        self.states.append(hashlib.md5(repr(obj).encode()).hexdigest()[:16])

    def describe(self):
        return [[t[0], t[2], short(t[3])] for t in self.trace]


class Space:
    def __init__(self, name, run, bound="", shard_depth=2, timeout=120, serial=False):
        self.name = name
        self.run = run
        self.bound = bound
        self.shard_depth = shard_depth
        self.timeout = timeout
        self.serial = serial


def _alarm(signum, frame):
    raise Hang


def execute(space, env):
    """Run one execution; returns None or a violation record."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(space.timeout)
    try:
        space.run(env)
        env.finish()
    except Skip:
        raise
    except Prune:
        env.finish()
        return "pruned"
    except Violation as e:
        return {"msg": e.msg, "key": e.key, "details": {k: short(v, 2000) for k, v in (e.details or {}).items()}}
    except Hang:
        return {"msg": f"execution does not terminate within {space.timeout} s", "key": "hang", "details": {}}
    except Divergence as e:
        return {"msg": f"hidden nondeterminism: {e}", "key": "divergence", "details": {}}
    except Exception as e:  # noqa: BLE001
        return {
            "msg": f"unexpected exception {type(e).__name__}: {e}",
            "key": f"exception:{type(e).__name__}",
            "details": {"traceback": traceback.format_exc()[-4000:]},
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def explore(space, shard=None, known=(), max_violations=3, deadline=None):
    """Enumerate all executions of the space (in the given shard)."""
    st = {
        "space": space.name,
        "bound": space.bound,
        "executions": 0,
        "pruned": 0,
        "checks": 0,
        "nodes": 0,
        "top_nodes": set(),
        "max_depth": 0,
        "outcomes": set(),
        "model_states": set(),
        "complete": True,
        "samples": [],
        "violations": [],
        "known": [],
    }
    prefix, counts = [], []
    t0 = time.time()
    while True:
        env = Env(prefix, counts, shard, space.shard_depth)
        skipped = False
        v = None
        try:
            v = execute(space, env)
        except Skip:
            skipped = True
        tr = env.trace
        if not skipped:
            if v == "pruned":
                st["pruned"] += 1
            else:
                st["executions"] += 1
                st["checks"] += env.checks
                st["outcomes"].update(env.outcomes)
                st["model_states"].update(env.states)
                if len(st["samples"]) < 2 or (
                    st["executions"] in (10, 100, 1000)
                ):
                    st["samples"].append({"space": space.name, "choices": env.describe()})
                if isinstance(v, dict):
                    v["space"] = space.name
                    v["choices"] = [t[2] for t in tr]
                    v["trace"] = env.describe()
                    if v["key"] in known:
                        st["known"].append(v)
                    else:
                        st["violations"].append(v)
            # new nodes of the tree: those after the shared prefix
            # (nodes which may be shared with other shards are kept by name)
            d = space.shard_depth if shard is not None else 0
            for k in range(1, min(d, len(tr)) + 1):
                st["top_nodes"].add(tuple(t[2] for t in tr[:k]))
            st["nodes"] += max(0, len(tr) + 1 - max(len(prefix), d + 1))
            st["max_depth"] = max(st["max_depth"], len(tr))
            if len(st["violations"]) >= max_violations:
                st["complete"] = False
                break
        if isinstance(v, dict) and v["key"] == "divergence":
            st["complete"] = False
            break
        if deadline is not None and time.time() > deadline:
            st["complete"] = False
            break
        if STOP is not None:
            # stop all workers at the first violation (not used by registered checks)
            if st["violations"]:
                open(STOP, "w").close()
            if os.path.exists(STOP):
                st["complete"] = False
                break
        # backtrack
        i = len(tr) - 1
        while i >= 0 and tr[i][2] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            break
        prefix = [t[2] for t in tr[:i]] + [tr[i][2] + 1]
        counts = [(t[0], t[1]) for t in tr[: i + 1]]
    st["wall_s"] = time.time() - t0
    return st


def to_json(st):
    st = dict(st)
    st["outcomes"] = sorted(st["outcomes"])
    st["model_states"] = sorted(st["model_states"])
    st["top_nodes"] = sorted(st["top_nodes"])
    return json.dumps(st, default=short)
