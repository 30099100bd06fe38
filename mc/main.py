"""Run a check: explore all spaces of a property in parallel shards.

usage: main.py PROPERTY [quick|thorough]
"""

from __future__ import annotations

import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                out[m[2]] = m[3]
    return out


def worker_env(scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=HERE,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        JAX_PLATFORMS="cpu",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        MC_SCRATCH=scratch,
        TMPDIR=scratch,
        HEALPY_DATAPATH=os.path.join(scratch, "healpy-data"),
        HOME=scratch,
    )
    return env


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nshards = int(os.environ.get("MC_SHARDS", "8"))
    budget = float(os.environ.get("MC_BUDGET", "600" if tier == "quick" else "5400"))
    t0 = time.time()
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix="glassmc-")
    try:
        env = worker_env(scratch)
        env["MC_KNOWN"] = json.dumps(list(known))
        subprocess.run([PY, "-m", "mc.hpdata", env["HEALPY_DATAPATH"]], env=env, cwd=HERE, check=True)
        procs = []
        for i in range(nshards):
            out = os.path.join(scratch, f"out{i}.jsonl")
            err = open(os.path.join(scratch, f"err{i}.txt"), "w")
            p = subprocess.Popen(
                [PY, "-m", "mc.worker", "explore", prop, tier, str(i), str(nshards), out, str(budget), only],
                env=env, cwd=HERE, stdout=err, stderr=err,
            )
            procs.append((p, out))
        crashed = []
        results = []
        for i, (p, out) in enumerate(procs):
            rc = p.wait()
            done = False
            if os.path.exists(out):
                for line in open(out):
                    r = json.loads(line)
                    if r.get("done"):
                        done = True
                    else:
                        results.append(r)
            if rc != 0 or not done:
                crashed.append((i, rc, open(os.path.join(scratch, f"err{i}.txt")).read()[-3000:]))
        return report(prop, tier, seed, known, results, crashed, time.time() - t0, nshards)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, known, results, crashed, wall, nshards):
    spaces = {}
    for r in results:
        s = spaces.setdefault(
            r["space"],
            {"space": r["space"], "bound": r["bound"], "executions": 0, "pruned": 0, "checks": 0,
             "nodes": 0, "max_depth": 0, "complete": True, "outcomes": set(), "model_states": set(),
             "top": set(), "samples": [], "violations": [], "known": [], "cpu_s": 0.0},
        )
        for k in ("executions", "pruned", "checks", "nodes"):
            s[k] += r[k]
        s["max_depth"] = max(s["max_depth"], r["max_depth"])
        s["complete"] &= r["complete"]
        s["outcomes"].update(r["outcomes"])
        s["model_states"].update(r["model_states"])
        s["top"].update(map(tuple, r["top_nodes"]))
        s["samples"] += r["samples"][:2]
        s["violations"] += r["violations"]
        s["known"] += r["known"]
        s["cpu_s"] += r["wall_s"]
    nodes = ex = chk = outs = 0
    violations, knownhit, samples, summary = [], {}, [], []
    for s in spaces.values():
        n = s["nodes"] + len(s["top"])
        nodes += n
        ex += s["executions"]
        chk += s["checks"]
        outs += len(s["outcomes"])
        violations += s["violations"]
        for v in s["known"]:
            knownhit.setdefault(v["key"], v)
        samples += s["samples"][:2]
        summary.append({
            "space": s["space"], "bound": s["bound"], "executions": s["executions"],
            "pruned": s["pruned"], "oracle_checks": s["checks"], "states": n,
            "max_depth": s["max_depth"], "distinct_outcomes": len(s["outcomes"]),
            "distinct_model_states": len(s["model_states"]), "exhaustive": s["complete"],
            "cpu_s": round(s["cpu_s"], 2),
        })
        print(f"{prop} {s['space']}: executions={s['executions']} states={n} transitions={n} "
              f"depth={s['max_depth']} outcomes={len(s['outcomes'])} model_states={len(s['model_states'])} "
              f"checks={s['checks']} exhaustive={s['complete']} cpu={s['cpu_s']:.1f}s")
    # write replay artefacts
    rdir = os.path.join(HERE, "replays")
    seen = set()
    lines = []
    for v in sorted(violations, key=lambda v: (len(v["choices"]), v["choices"])):
        sig = (v["space"], v["key"] or v["msg"][:80])
        if sig in seen:
            continue
        seen.add(sig)
        os.makedirs(rdir, exist_ok=True)
        rec = dict(v, property=prop, tier=tier)
        name = f"{prop}-{v['space']}-{hashlib.md5(json.dumps(rec['choices']).encode()).hexdigest()[:8]}.json"
        path = os.path.join(rdir, name)
        json.dump(rec, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"violated in space {v['space']}: {v['msg']}")
        for t in v["trace"]:
            print(f"    {t[0]} = {t[2]}")
        for k, x in v["details"].items():
            print(f"    {k}: {x}")
    for i, rc, err in crashed:
        # the process died while exploring, e.g. it was aborted by the code under test
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-crash-{i}.json")
        json.dump({"property": prop, "tier": tier, "shard": i, "rc": rc, "stderr": err}, open(path, "w"), indent=1)
        print(err)
        print(f"worker {i} ended with status {rc}")
        if rc not in (None, 0, -9):
            lines.append(f"VIOLATION property={prop} replay={path}")
    for key, v in knownhit.items():
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    complete = all(s["exhaustive"] for s in summary) and not crashed
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": nodes, "transitions": nodes, "traces_validated_against_impl": ex,
            "oracle_checks": chk, "distinct_outcomes": outs, "exhaustive": complete,
            "spaces": summary, "samples": samples[:12],
            "explanation": "states are the distinct nodes of the choice trees, transitions their edges; "
            "every complete path is one execution of the implementation compared with the reference model",
        },
        "assumptions": [
            "the seed is only recorded: exploration is exhaustive within the bounds and draws no random numbers",
            "bounds of each space as stated in coverage.spaces",
        ],
        "wall_s": round(wall, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for line in lines:
        print(line)
    print(f"{prop} {tier}: executions={ex} states={nodes} checks={chk} violations={len(lines)} "
          f"exhaustive={complete} wall={wall:.1f}s")
    if lines:
        return 1
    if crashed:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
