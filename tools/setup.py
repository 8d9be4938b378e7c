#!/usr/bin/env python3
"""Checks that what the checks need is installed; nothing has to be built."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.path.insert(0, V)
import run  # noqa: E402

r = subprocess.run([run.PY, "-c", "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
                    "import cadquery, shapely, hypothesis, cq_cam; print(cq_cam.__file__)"], env=run.env(), cwd=V)
sys.exit(r.returncode)
