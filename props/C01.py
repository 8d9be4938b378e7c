"""Every job renders to one well-formed, framed RS-274 program."""
from vlib import jobs, oracle
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated jobs (settings, 0-4 profile/wire profile/pocket/drill operations with tool changes on a generated job plane), "
        "rendered and read back by an independent strict RS-274 reader; non-trivial: at least two sections and at least one cutting move")
QUICK = (130, 150)
THOROUGH = (4000, 800)


def strategy():
    return jobs.small_jobs()


def run_case(spec):
    job, plane = oracle.play(spec)
    text = job.to_gcode()
    expected = oracle.sections(spec)
    mach = oracle.parse(text)
    # framing
    lines = [ln for ln in text.split("\n") if ln.strip()]
    if not lines[0].startswith("("):
        raise Violation("frame", "no header comment")
    if lines[-1].strip() != "M30" or not mach.ended:
        raise Violation("frame", f"the program ends with {lines[-1]!r}")
    if mach.state["spindle"] != "M5":
        raise Violation("frame", "the spindle runs at the end")
    if mach.state["coolant"]:
        raise Violation("frame", "the coolant runs at the end")
    # the machine is put in a known state before it moves
    groups = oracle.split(mach, expected)
    first = next((m for m in mach.moves if m.kind != "home"), None)
    homes = [m for m in mach.moves if m.kind == "home"]
    for m in ([homes[0]] if homes else []) + ([first] if first else []):
        for key in ("units", "wcs", "plane", "distance", "path", "feedmode", "cutcomp"):
            if m.state[key] is None:
                raise Violation("frame", f"{m.text!r} runs with {key} undefined")
    if not homes or (first and homes[0].no > first.no):
        raise Violation("frame", "the program does not begin from home")
    if homes[-1].no < (mach.moves[-1].no if mach.moves else 0):
        raise Violation("frame", "the program does not end at home")
    # sections, in the order they were added
    marks = [e[2] for e in mach.events if e[0] == "comment"]
    for mark, (title, _, _) in zip(marks[1:], expected):
        if not mark.endswith(f" - {title}"):
            raise Violation("sections", f"{mark!r} where {title!r} was added")
    # motion
    arcs = cuts = 0
    for (title, op, _), moves in zip(expected, groups):
        if op is None:
            if any(m.kind != "home" for m in moves):
                raise Violation("sections", f"axis moves in {title}")
            continue
        n = 0
        for m in moves:
            if m.kind == "home":
                raise Violation("frame", "home inside an operation")
            if m.is_cut:
                n += 1
                if m.state["spindle"] not in ("M3", "M4"):
                    raise Violation("frame", f"{m.text!r} cuts with the spindle stopped")
            if m.kind in ("cw", "ccw"):
                arcs += 1
                # both ends of the arc are on the same circle, to output resolution
                if oracle.arc_error(m) > 0.0025:
                    raise Violation("arc", f"{m.text!r} from {m.start}: radii differ by {oracle.arc_error(m):.4f}")
        if n == 0 and not op.get("nothing"):
            raise Violation("empty", f"{title} does not cut")
        cuts += n
    return {
        "nontrivial": len(expected) >= 2 and cuts > 0,
        "classes": [f"sections:{min(len(expected), 6)}", f"arcs:{bool(arcs)}"] + sorted({f"op:{o['op']}" for o in spec["ops"]}),
        "count": {"moves": len(mach.moves), "arcs": arcs},
    }
