"""Checks shared by several properties."""
from __future__ import annotations

import math

from . import gcode, jobs, shapes as sh
from .core import Reject, Violation


def play(spec, collect=None):
    """Builds the job of a small_jobs spec. Returns (job, plane)."""
    plane = sh.make_plane(spec["plane"])
    job = jobs.make_job(spec["job"], plane)
    for i, op in enumerate(spec["ops"]):
        job = jobs.apply_op(job, op, plane, spec.get("mode", "direct"))
    return job, plane


def parse(text):
    try:
        return gcode.run_program(text)
    except gcode.GCodeError as e:
        raise Violation("malformed", e) from None


def sections(spec):
    """[(title, op or None, Model state)] expected in the program."""
    m = jobs.Model(spec["job"])
    out = []
    for op in spec["ops"]:
        s = m.apply(op.get("tool"))
        if s:
            out.append((s, None, state(m)))
        title = {"profile": "Profile", "wire_profile": "Wire Profile", "pocket": "Pocket", "drill": "Drill"}[op["op"]]
        out.append((title, op, state(m)))
    return out


def state(m):
    return {"feed": m.feed, "plunge": m.plunge, "speed": m.speed, "loaded": m.loaded, "diameter": m.diameter}


def split(machine, expected):
    """Groups the moves by section: list of lists, one per expected section."""
    marks = [e for e in machine.events if e[0] == "comment"]
    if len(marks) != len(expected) + 1:
        raise Violation("sections", f"{len(marks) - 1} section comments for {len(expected)} expected sections: {[m[2] for m in marks]}")
    lines = [m[1] for m in marks[1:]] + [10**9]
    # the closing safety block is not part of the last section
    m30 = [e[1] for e in machine.events if e[0] in ("M2", "M30")]
    end = m30[-1] if m30 else 10**9
    tail = [m.no for m in machine.moves if m.kind == "home"]
    groups = []
    for a, b in zip(lines, lines[1:]):
        groups.append([m for m in machine.moves if a < m.no < b])
    if groups and groups[-1] and groups[-1][-1].kind == "home" and tail and groups[-1][-1].no == tail[-1] < end:
        groups[-1] = groups[-1][:-1]
    return groups


def arc_error(m):
    """Disagreement of the two radii of an arc."""
    cx, cy = m.center
    return abs(math.hypot(m.start[0] - cx, m.start[1] - cy) - math.hypot(m.end[0] - cx, m.end[1] - cy))


def same(a, b, tol=1e-9):
    return a == b or (a is not None and b is not None and abs(a - b) <= tol * max(1, abs(a), abs(b)))
