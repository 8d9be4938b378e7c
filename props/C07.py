"""Rapids stay clear of the material."""
from hypothesis import strategies as st

from vlib import jobs, oracle
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated jobs of 1-4 operations with generated rapid and safe heights, positions, step downs and tool changes; every rapid of "
        "the program is checked on a simulated controller; non-trivial: at least two separate cutting passes")
QUICK = (250, 150)
THOROUGH = (6000, 800)

TOL = 0.0005 + 1e-9


def strategy():
    return jobs.small_jobs(max_ops=4, min_ops=1)


def run_case(spec):
    p = spec["job"]
    job, plane = oracle.play(spec)
    mach = oracle.parse(job.to_gcode())
    expected = oracle.sections(spec)
    groups = oracle.split(mach, expected)
    rapid, safe = jobs.heights_of(p)
    passes = 0
    for (title, op, s), moves in zip(expected, groups):
        if op is None or not moves:
            continue
        drill = op["op"] == "drill"
        travel = safe if drill else rapid
        floor = 0.0 if drill else safe
        f = moves[0]
        if f.kind != "rapid" or f.end[:2] != f.start[:2]:
            raise Violation("start", f"{title} starts with {f.text!r}, not with a vertical rapid")
        prev = None
        for m in moves:
            where = f"{m.text!r} (line {m.no}, {title}, from {m.start})"
            if m.kind == "rapid":
                if m.start[:2] != m.end[:2]:
                    if m.start[2] is None or m.end[2] is None:
                        raise Violation("unknown", f"{where} travels at an unknown height")
                    if min(m.start[2], m.end[2]) < travel - TOL:
                        raise Violation("travel", f"{where} travels below {travel}")
                    if m.start[2] != m.end[2]:
                        raise Violation("travel", f"{where} is diagonal")
                elif m.start[2] is None:
                    if m.end[2] < travel - TOL:
                        raise Violation("start", f"{where} goes to {m.end[2]} before anything is known, {travel} is clear")
                elif m.end[2] < m.start[2]:
                    if m.end[2] < floor - TOL:
                        raise Violation("plunge", f"{where} rapids down to {m.end[2]}, below {floor}")
                elif m.end[2] < travel - TOL:
                    raise Violation("retract", f"{where} retracts to {m.end[2]} only, {travel} is clear")
            elif m.is_cut:
                if m.start[:2] != m.end[:2] and max(m.start[2], m.end[2]) > TOL:
                    raise Violation("air", f"{where} moves sideways above the job plane")
                if prev is not None and prev.kind == "rapid":
                    passes += 1
                    if m.start[:2] != m.end[:2]:
                        raise Violation("entry", f"{where} enters the material sideways")
                    if m.start[2] > max(safe, floor) + TOL:
                        raise Violation("entry", f"{where} plunges from {m.start[2]}")
            prev = m
    if spec.get("home"):
        for h in (m for m in mach.moves if m.kind == "home"):
            if h.start[2] is not None and h.start[2] < safe - TOL:
                raise Violation("home-from-depth", f"line {h.no}: the machine goes home from {h.start}")
    return {"nontrivial": passes >= 2, "classes": [f"passes:{min(passes, 8)}"] + sorted({f"op:{o['op']}" for o in spec["ops"]}),
            "count": {"passes": passes, "moves": len(mach.moves)}}
