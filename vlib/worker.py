"""One shard of a check: generate, run, shrink, report as JSON.

usage: worker.py PID OUT.json KIND ARG...
  KIND generate SEED EXAMPLES BUDGET_S     search
       case PATH                           run the case(s) stored in the files
"""
from __future__ import annotations

import collections
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Hang, Reject, Violation, digest, dumps, guarded, setup_paths

setup_paths()


def on_cpu(signum, frame):
    raise Hang()


class Runner:
    def __init__(self, mod, out):
        self.mod, self.out = mod, out
        self.cpu = getattr(mod, "CASE_CPU_S", 90)
        self.n = collections.Counter()
        self.classes = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.slowest = [0.0, None]
        self.best = None
        self.harness = None
        self.cur = open(out + ".current", "w+")
        signal.signal(signal.SIGVTALRM, on_cpu)

    def one(self, spec):
        """Runs a case; returns None, or the Violation."""
        self.cur.seek(0)
        self.cur.write(dumps(spec))
        self.cur.truncate()
        self.cur.flush()
        t = time.process_time()
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu)
        try:
            info = guarded(self.mod.run_case, spec) or {}
        except Reject as e:
            self.n["rejected"] += 1
            self.classes[f"rejected:{e}"] += 1
            raise
        except Violation as v:
            self.n["evaluated"] += 1
            self.n["violating"] += 1
            s = dumps(spec)
            if self.best is None or len(s) < len(dumps(self.best["spec"])):
                self.best = {"spec": spec, "code": v.code, "msg": v.msg[:2000]}
                self.save()
            return v
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            t = time.process_time() - t
            if t > self.slowest[0]:
                self.slowest = [round(t, 2), digest(spec)]
        self.n["evaluated"] += 1
        if info.get("nontrivial", True):
            d = digest(spec)
            if d not in self.distinct:
                self.distinct.add(d)
                if len(self.samples) < 3 or (len(self.samples) < 6 and len(self.distinct) % 40 == 0):
                    if len(dumps(spec)) < 2500:
                        self.samples.append(spec)
        for c in info.get("classes", ()):
            self.classes[c] += 1
        for k, v in info.get("count", {}).items():
            self.n["sum:" + k] += v
        return None

    def save(self, done=False):
        r = {
            "done": done, "n": dict(self.n), "classes": dict(self.classes), "distinct": sorted(self.distinct),
            "samples": self.samples, "slowest": self.slowest, "best": self.best, "harness": self.harness,
        }
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(r, f)
        os.replace(tmp, self.out)


def generate(r: Runner, seed_, examples, budget):
    from hypothesis import HealthCheck, Phase, given, reject, seed, settings

    t0 = time.time()
    state = {"first_fail": None, "last_save": t0}

    def test(spec):
        now = time.time()
        if now - t0 > budget:
            r.n["skipped_budget"] += 1
            return
        if state["first_fail"] and now - state["first_fail"] > 45:
            return  # shrinking has taken long enough: the smallest case so far stands
        if now - state["last_save"] > 5:
            state["last_save"] = now
            r.save()
        try:
            v = r.one(spec)
        except Reject:
            reject()
        if v is not None:
            state["first_fail"] = state["first_fail"] or time.time()
            raise v

    test = seed(seed_)(
        settings(
            max_examples=examples, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False,
        )(given(r.mod.strategy())(test))
    )
    try:
        test()
    except BaseException:
        if r.best is None:
            raise


def main():
    pid, out, kind = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module(f"props.{pid}")
    import cq_cam

    assert os.path.realpath(cq_cam.__file__).startswith("/repo/src/"), cq_cam.__file__
    r = Runner(mod, out)
    try:
        if kind == "generate":
            generate(r, int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]))
        else:
            for path in sys.argv[4:]:
                with open(path) as f:
                    spec = json.load(f)
                spec = spec.get("spec", spec)
                try:
                    if r.one(spec) is not None:
                        break
                except Reject:
                    pass
    except BaseException:
        r.harness = traceback.format_exc()[-6000:]
    r.save(done=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
