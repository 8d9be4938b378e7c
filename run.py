#!/usr/bin/env python3
"""run.py check PID [--tier quick|thorough] [--seed N]     decide a property on /repo's working tree
   run.py replay FILE                                      run one stored case
Exit: 0 held, 1 violated (with a VIOLATION line), 3 the machinery itself failed."""
import argparse
import ast
import collections
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib.core import digest  # noqa: E402

PY = "/opt/venv/bin/python"
WORKER = os.path.join(VERIF, "vlib", "worker.py")


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1")
    for k in ("PYTHONHOME", "PYTHONSTARTUP"):
        e.pop(k, None)
    return e


def constants(pid):
    """The module's plain constants, read without importing cadquery."""
    with open(os.path.join(VERIF, "props", f"{pid}.py")) as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ("RULE", "LEVEL", "QUICK", "THOROUGH", "SHARDS", "ONE_CASE_S"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def launch(pid, out, *args):
    log = open(out + ".log", "w")
    return subprocess.Popen([PY, WORKER, pid, out, *map(str, args)], cwd=VERIF, env=env(), stdout=log, stderr=log,
                            start_new_session=True)


def load(out):
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def run_cases(pid, work, tag, paths, limit):
    """Stored cases in one worker; (result or None, hung)."""
    out = os.path.join(work, tag + ".json")
    p = launch(pid, out, "case", *paths)
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return load(out), True
    return load(out), False


def write_replay(pid, best):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{digest(best['spec'])}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **best}, f, indent=1)
    return path


def known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def check(pid, tier, seed):
    t0 = time.time()
    c = constants(pid)
    examples, budget = c["QUICK"] if tier == "quick" else c["THOROUGH"]
    shards = c.get("SHARDS", 7)
    limit1 = c.get("ONE_CASE_S", 150)
    harness, best, inconclusive = [], None, []
    agg = {"n": collections.Counter(), "classes": collections.Counter(), "distinct": set(), "samples": [], "slowest": [0, None]}

    def merge(r):
        for k in ("n", "classes"):
            agg[k].update(r[k])
        agg["distinct"].update(r["distinct"])
        agg["samples"] += r["samples"]
        agg["slowest"] = max(agg["slowest"], r["slowest"], key=lambda s: s[0])

    with tempfile.TemporaryDirectory(prefix=f"verif-{pid}-") as work:
        # 1. known findings: still there?
        for k in known(pid):
            path = os.path.join(work, "known.json")
            with open(path, "w") as f:
                json.dump(k["spec"], f)
            r, hung = run_cases(pid, work, "known-out", [path], limit1)
            if r and r["harness"]:
                harness.append(r["harness"])
            elif hung or r is None or r["best"]:
                got = "nontermination" if hung else "crash" if r is None else r["best"]["code"]
                if got == k["code"]:
                    print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}", flush=True)
                else:
                    best = r["best"] if r and r["best"] else {"spec": k["spec"], "code": got, "msg": ""}
        # 2. regression cases
        rd = os.path.join(VERIF, "regress", pid)
        reg = sorted(os.path.join(rd, f) for f in os.listdir(rd)) if os.path.isdir(rd) else []
        procs = []
        if reg:
            out = os.path.join(work, "regress.json")
            procs.append({"p": launch(pid, out, "case", *reg), "out": out, "tag": "regress", "last": time.time(), "cur": ""})
        # 3. generated cases
        for i in range(shards):
            out = os.path.join(work, f"s{i}.json")
            s = (seed * 1000003 + i * 7919 + sum(map(ord, pid))) % (1 << 31)
            procs.append({"p": launch(pid, out, "generate", s, examples, budget), "out": out, "tag": f"s{i}", "seed": s,
                          "last": time.time(), "cur": "", "restarts": 0, "t0": time.time()})
        deadline = t0 + budget + 150
        while procs:
            time.sleep(0.1)
            for q in procs[:]:
                rc = q["p"].poll()
                try:
                    with open(q["out"] + ".current") as f:
                        cur = f.read()
                except OSError:
                    cur = ""
                if cur != q["cur"]:
                    q["cur"], q["last"] = cur, time.time()
                stalled = time.time() - q["last"] > limit1 or time.time() > deadline + 60
                if rc is None and not stalled:
                    continue
                procs.remove(q)
                if rc is None:
                    kill(q["p"])
                r = load(q["out"])
                if rc == 0 and r and r["done"]:
                    merge(r)
                    if r["harness"]:
                        harness.append(r["harness"])
                    if r["best"] and (best is None or len(json.dumps(r["best"])) < len(json.dumps(best))):
                        best = r["best"]
                    if r["best"]:
                        # the others need not go on for long
                        deadline = min(deadline, time.time() + 20)
                    continue
                if r:
                    merge(r)
                    if r["best"]:
                        best = best or r["best"]
                        continue
                # the worker died or stood still on a case: decide that case alone
                try:
                    spec = json.loads(cur)
                except ValueError:
                    with open(q["out"] + ".log") as f:
                        harness.append(f"worker {q['tag']} ended with {rc}\n" + f.read()[-3000:])
                    continue
                if time.time() > deadline:
                    continue
                path = os.path.join(work, q["tag"] + ".case")
                with open(path, "w") as f:
                    json.dump(spec, f)
                r1, hung = run_cases(pid, work, q["tag"] + "-one", [path], limit1)
                if hung:
                    best = best or {"spec": spec, "code": "nontermination", "msg": f"no result within {limit1} s, twice"}
                    continue
                if r1 and r1["best"]:
                    best = best or r1["best"]
                    continue
                inconclusive.append({"digest": digest(spec), "rc": rc, "alone": "crash" if not r1 else "passes", "spec": spec})
                if q["tag"] != "regress" and q["restarts"] < 3 and time.time() - t0 < budget:
                    q["restarts"] += 1
                    s = (q["seed"] + 104729 * q["restarts"]) % (1 << 31)
                    left = max(5, budget - (time.time() - q["t0"]))
                    out = q["out"][:-5] + "r.json"
                    procs.append({**q, "p": launch(pid, out, "generate", s, examples, left), "out": out,
                                  "last": time.time(), "cur": ""})
        replay = write_replay(pid, best) if best else None
    wall = round(time.time() - t0, 1)
    n = agg["n"]
    cov = {
        "evaluations": n["evaluated"], "distinct_nontrivial": len(agg["distinct"]), "rule": c["RULE"],
        "samples": agg["samples"][:8], "rejected": n["rejected"], "classes": dict(sorted(agg["classes"].items())),
        "regression_cases": len(reg), "inconclusive": inconclusive, "slowest_case_cpu_s": agg["slowest"],
        "skipped_for_time": n["skipped_budget"], "shards": shards,
        "totals": {k[4:]: v for k, v in n.items() if k.startswith("sum:")},
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c["LEVEL"], "coverage": cov, "wall_s": wall,
        "violations": [{"code": best["code"], "msg": best["msg"], "replay": replay}] if best else [],
    }
    if harness:
        ev["harness_errors"] = harness[:3]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {n['evaluated']} cases, {len(agg['distinct'])} distinct non-trivial, "
          f"{n['rejected']} rejected, {len(inconclusive)} inconclusive, slowest {agg['slowest'][0]} s, {wall} s", flush=True)
    if best:
        print(f"  {best['code']}: {best['msg'][:600]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if harness:
        print("the machinery failed:\n" + harness[0])
        return 3
    if len(agg["distinct"]) < 2:
        print("the machinery failed: hardly anything was explored")
        return 3
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid = d["property"]
    with tempfile.TemporaryDirectory(prefix="verif-replay-") as work:
        r, hung = run_cases(pid, work, "r", [path], constants(pid).get("ONE_CASE_S", 150))
    if hung:
        print("no result in time")
        return 1
    if r is None:
        print("the worker died")
        return 3
    if r["harness"]:
        print(r["harness"])
        return 3
    if r["best"]:
        print(f"{r['best']['code']}: {r['best']['msg']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("held" if r["n"].get("evaluated") else "rejected (outside the precondition)")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    a = sub.add_parser("check")
    a.add_argument("pid")
    a.add_argument("--tier", default=None)
    a.add_argument("--seed", type=int, default=None)
    b = sub.add_parser("replay")
    b.add_argument("path")
    args = ap.parse_args()
    if args.cmd == "replay":
        return replay(args.path)
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    return check(args.pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
