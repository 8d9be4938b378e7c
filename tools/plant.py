"""Plant bugs: confirm each candidate of a list and keep it under seeded/ (development only).

python3 tools/plant.py LIST.py [id...]   LIST.py defines BUGS = [dict(id, prop, file, edits=[(old, new)...], needs, breaks, demo)]
A demo is Python that fails (assert) on the broken tree and passes on the original.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/plant"
SH = """#!/bin/bash
. /opt/vp/env.sh
exec python3 "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(path):
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    owner = []
    for line in sh(f"git -C /repo blame -l -s {path}").stdout.splitlines():
        owner.append(line.split()[0].lstrip("^")[:39] == base[:39])
    return owner


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if b["demo"] == "assert False":
            continue
        if only and b["id"] not in only:
            continue
        shutil.rmtree(WORK, ignore_errors=True)
        sh(f"cp -a /repo {WORK}")
        rel = "src/cq_cam/" + b["file"]
        path = f"{WORK}/{rel}"
        src = open(path).read()
        new = src
        ok = True
        for old, rep in b["edits"]:
            if new.count(old) != 1:
                print(b["id"], "EDIT matches", new.count(old), "times:", old[:60])
                ok = False
                break
            new = new.replace(old, rep)
        if not ok:
            continue
        owner = original_lines(rel)
        open(path, "w").write(new)
        diff = sh(f"git -C {WORK} diff -U0").stdout
        import re

        mine = False
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if any(not owner[i - 1] for i in range(a, a + n)):
                mine = True
        out = f"{HERE}/seeded/{b['id']}"
        tmp = f"/tmp/plant_{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(f"{tmp}/patch.diff", "w").write(sh(f"git -C {WORK} diff").stdout)
        open(f"{tmp}/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(f"{tmp}/demo.sh", "w").write(SH)
        os.chmod(f"{tmp}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
        good = sh(f"bash {tmp}/demo.sh", cwd="/repo")
        # the same against the changed tree
        bad = sh(f". /opt/vp/env.sh; PYTHONPATH={WORK}/src python3 {tmp}/demo.py", cwd=WORK, executable="/bin/bash")
        where = sh(f". /opt/vp/env.sh; PYTHONPATH={WORK}/src python3 -c 'import cq_cam; print(cq_cam.__file__)'", cwd=WORK, executable="/bin/bash").stdout.strip()
        assert where.startswith(WORK), where
        t = sh(f"unshare -rm bash -c 'mount --bind {WORK} /repo && bash /opt/vp/test.sh /tmp/plant_tests.json 2>/dev/null | tail -1'").stdout.strip()
        assert sh(f"git -C /repo apply --check {tmp}/patch.diff").returncode == 0
        state = f"demo orig={good.returncode} patched={bad.returncode} tests={t} mine={mine}"
        keep = good.returncode == 0 and bad.returncode != 0 and "80 passed, 0 failed" in t and not mine
        print(b["id"], "KEPT" if keep else "NO", state)
        if good.returncode:
            print("   ", good.stderr.strip().splitlines()[-1:])
        if bad.returncode:
            print("    shows:", bad.stderr.strip().splitlines()[-1:])
        if keep:
            shutil.rmtree(out, ignore_errors=True)
            shutil.move(tmp, out)
        elif mine and good.returncode == 0 and bad.returncode != 0 and "80 passed, 0 failed" in t:
            # does not count (it changes lines of a fix), but the checks should see it all the same
            shutil.rmtree(f"/tmp/extra/{b['id']}", ignore_errors=True)
            os.makedirs("/tmp/extra", exist_ok=True)
            shutil.move(tmp, f"/tmp/extra/{b['id']}")
        shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(WORK, ignore_errors=True)


main()
