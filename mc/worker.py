"""Worker process: explore one shard of all spaces of a check, or replay."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time


def main():
    cmd = sys.argv[1]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from mc import setup_env  # noqa: F401
    from mc import engine

    if cmd == "explore":
        _, _, prop, tier, shard, nshards, out, budget, only = sys.argv
        shard, nshards = int(shard), int(nshards)
        t0 = time.time()
        mod = importlib.import_module(f"checks.{prop.lower()}")
        known = json.loads(os.environ.get("MC_KNOWN", "[]"))
        spaces = mod.spaces(tier)
        with open(out, "w") as f:
            for i, sp in enumerate(spaces):
                if only and sp.name != only:
                    continue
                if sp.serial and i % nshards != shard:
                    continue
                st = engine.explore(
                    sp,
                    shard=None if sp.serial or nshards == 1 else (shard, nshards),
                    known=known,
                    deadline=t0 + float(budget),
                )
                f.write(engine.to_json(st) + "\n")
                f.flush()
            f.write(json.dumps({"done": True}) + "\n")
    elif cmd == "replay":
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module(f"checks.{rec['property'].lower()}")
        sp = next(s for s in mod.spaces(rec.get("tier", "quick")) if s.name == rec["space"])
        env = engine.Env(rec["choices"], replay=True)
        v = engine.execute(sp, env)
        for t in env.trace:
            print(f"  choose {t[0]}: {engine.short(t[3])}")
        if isinstance(v, dict):
            print(f"violation reproduced: {v['msg']}")
            for k, x in v["details"].items():
                print(f"  {k}: {x}")
            sys.exit(1)
        print("no violation in this execution")
    else:
        raise SystemExit(f"unknown command {cmd}")


if __name__ == "__main__":
    main()
