"""The modal state declared by the job is in force at every move."""
from hypothesis import strategies as st

from vlib import gcode, jobs, oracle
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated jobs over every unit, work offset and path mode with 1-3 operations; the modal state of a simulated controller is "
        "compared with the declared one at every axis move; non-trivial: at least one setting differs from the default and something is cut")
QUICK = (250, 150)
THOROUGH = (6000, 800)


def strategy():
    return st.one_of(jobs.small_jobs(max_ops=3, min_ops=1), jobs.small_jobs(max_ops=2, min_ops=1))


def run_case(spec):
    p = spec["job"]
    job, plane = oracle.play(spec)
    text = job.to_gcode()
    mach = oracle.parse(text)
    want = {
        "units": jobs.UNIT_CODE[p.get("unit", "METRIC")],
        "wcs": jobs.WCS[p.get("coordinate", "OFFSET_1")],
        "path": jobs.MOTIONS[p.get("controller_motion", "CONTINUOUS")],
        "distance": "G90",
        "plane": "G17",
        "feedmode": "G94",
        "cutcomp": "G40",
        "arc_distance": "G91.1",
    }
    n = 0
    homes = 0
    for m in mach.moves:
        if m.kind == "home" and homes == 0:
            homes = 1
        for key, v in want.items():
            if m.state[key] != v:
                raise Violation("modal", f"{m.text!r} (line {m.no}) runs with {key}={m.state[key]}, the job declares {v}")
        n += m.is_cut
    # a later part of the program (after a tool change, say) never changes the declared state
    for e in mach.events:
        if e[0] in want and e[2] != want[e[0]]:
            raise Violation("modal", f"line {e[1]} sets {e[2]}, the job declares {want[e[0]]}")
    # the default heights depend on the unit: 10 and 1 mm, 0.4 and 0.04 in
    rapid, safe = jobs.heights_of(p)
    zs = {round(m.end[2], 3) for m in mach.moves if m.kind == "rapid" and m.end[2] is not None}
    # (an operation too large for its contours, or kept away from all of them, moves nowhere)
    cuts = [op for op in spec["ops"] if not op.get("nothing") and not op.get("avoid")]
    if any(op["op"] != "drill" for op in cuts):
        if round(rapid, 3) not in zs:
            raise Violation("height", f"rapid height {rapid} expected, the rapids go to {sorted(zs)}")
    if cuts and round(safe, 3) not in zs:
        raise Violation("height", f"safe height {safe} expected, the rapids go to {sorted(zs)}")
    special = sum(want[k] != d for k, d in (("units", "G21"), ("wcs", "G54"), ("path", "G64")))
    return {"nontrivial": special > 0 and n > 0,
            "classes": [want["units"], want["wcs"], want["path"]] + [f"op:{o['op']}" for o in spec["ops"]],
            "count": {"moves": len(mach.moves)}}
