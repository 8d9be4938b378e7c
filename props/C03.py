"""Tool, spindle, coolant and feed in force at each cut."""
from hypothesis import strategies as st

from vlib import jobs, oracle
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated jobs of 2-5 operations with tools that change number, speed, feed and diameter; a model of the settings in force "
        "is compared with a simulated controller at every cut; non-trivial: at least one tool or speed change before a cut")
QUICK = (250, 150)
THOROUGH = (6000, 800)


@st.composite
def _spec(draw):
    s = draw(jobs.small_jobs(max_ops=5, min_ops=2))
    return s


def strategy():
    return _spec()


def run_case(spec):
    p = spec["job"]
    job, plane = oracle.play(spec)
    text = job.to_gcode()
    mach = oracle.parse(text)
    expected = oracle.sections(spec)
    groups = oracle.split(mach, expected)
    coolant = frozenset([jobs.COOLANT[p["coolant"]]] if "coolant" in p else [])
    changes = 0
    m6 = [e for e in mach.events if e[0] == "M6"]
    wanted = [s["loaded"] for t, op, s in expected if t == "Tool Change"]
    if [e[2] for e in m6] != wanted:
        raise Violation("toolchange", f"M6 loads {[e[2] for e in m6]}, the tools ask for {wanted}")
    for e in m6:
        st_ = e[3]
        if st_["spindle"] != "M5":
            raise Violation("toolchange", f"line {e[1]}: the tool is changed with the spindle on")
        if st_["coolant"]:
            raise Violation("toolchange", f"line {e[1]}: the tool is changed with the coolant on")
        before = [x for x in mach.events if x[1] < e[1] and x[0] in ("home",)]
        last_move = [x for x in mach.moves if x.no < e[1]]
        if not before or last_move[-1].kind != "home":
            raise Violation("toolchange", f"line {e[1]}: the tool is changed away from home")
        # spindle stopped before the machine went home
        if last_move[-1].state["spindle"] != "M5":
            raise Violation("toolchange", f"line {e[1]}: the machine goes to the tool change with the spindle on")
    for (title, op, s), moves in zip(expected, groups):
        if op is None:
            changes += 1
            continue
        prev = None
        for m in moves:
            if m.is_cut:
                stt = m.state
                if stt["spindle"] != "M3":
                    raise Violation("spindle", f"{m.text!r} in {title}: spindle state {stt['spindle']}")
                if not oracle.same(stt["S"], s["speed"]):
                    raise Violation("speed", f"{m.text!r} in {title}: S{stt['S']} in force, {s['speed']} asked for")
                if stt["coolant"] != coolant:
                    raise Violation("coolant", f"{m.text!r} in {title}: coolant {set(stt['coolant'])}, {set(coolant)} asked for")
                if stt["tool"] != s["loaded"]:
                    raise Violation("tool", f"{m.text!r} in {title}: tool {stt['tool']} loaded, {s['loaded']} asked for")
                if s["loaded"] is not None and (stt["length"] != "G43" or stt["H"] != s["loaded"]):
                    raise Violation("length", f"{m.text!r} in {title}: length offset {stt['length']} H{stt['H']} for tool {s['loaded']}")
                entry = prev is not None and prev.kind == "rapid"
                vertical = m.start[:2] == m.end[:2]
                if entry and vertical and op["op"] != "drill":
                    want = s["plunge"]
                else:
                    want = s["feed"]
                if not oracle.same(m.feed, want):
                    raise Violation("feed", f"{m.text!r} in {title} ({'plunge' if entry else 'cut'}): F{m.feed} in force, {want} asked for")
            prev = m
    return {"nontrivial": changes > 0 and any(g for g in groups),
            "classes": [f"changes:{min(changes, 4)}"] + sorted({t for t, _, _ in expected}),
            "count": {"cuts": sum(m.is_cut for m in mach.moves)}}
