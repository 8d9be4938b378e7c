"""Run the checks against the planted bugs, each on a copy of /repo mounted in a namespace of its own (development only).

python3 tools/hunt.py [-s SEED] [-p PROP] [-d DIR] [id...]"""
import argparse
import json
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-s", "--seed", default="1")
ap.add_argument("-p", "--prop")
ap.add_argument("-d", "--dir", default=f"{HERE}/seeded")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
for bug in a.ids or sorted(os.listdir(a.dir)):
    meta = json.load(open(f"{a.dir}/{bug}/meta.json"))
    copy = f"/tmp/hunt_{os.getpid()}"
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    r = subprocess.run(["git", "-C", copy, "apply", f"{a.dir}/{bug}/patch.diff"])
    prop = a.prop or meta["property"]
    cmd = f"mount --bind {copy} /repo && cd {HERE} && VERIF_SEED={a.seed} VERIF_TIER=quick timeout 900 python3 run.py check {prop} --tier quick --seed {a.seed}"
    p = subprocess.run(["unshare", "-rm", "bash", "-c", cmd], capture_output=True, text=True)
    lines = [x for x in p.stdout.splitlines() if x.strip()]
    caught = p.returncode == 1 and any(x.startswith(f"VIOLATION property={prop}") for x in lines)
    print(bug, prop, "CAUGHT" if caught else f"MISSED rc={p.returncode}", "|", " ".join(lines[-2:-1])[:160], flush=True)
    shutil.rmtree(copy)
