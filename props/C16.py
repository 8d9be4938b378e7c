"""Impossible requests are refused before anything is emitted."""
from hypothesis import strategies as st

from vlib import gen, jobs, shapes as sh
from vlib.core import Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated jobs with one or more impossible requests of every kind asked at generated points of their history, on any branch and with any tool; each has to raise, "
        "leave the job's program as it was, and the job has to go on like one that was never asked; non-trivial: the job has operations before and after the refusal")
QUICK = (260, 60)
THOROUGH = (9000, 800)
CASE_CPU_S = 25

KINDS = ["profile-offsets", "profile-diameter", "wire-diameter", "pocket-diameter", "profile-shape", "pocket-sloped", "pocket-above", "pocket-shape",
         "avoid-sloped", "avoid-above", "pocket-stepover", "pocket-stepdown", "drill-depth", "drill-nothing", "drill-empty", "drill-shape", "tabs-spacing",
         "profile-layers", "wire-layers", "profile-stepdown"]


@st.composite
def refusal(draw):
    k = draw(st.sampled_from(KINDS))
    r = {"kind": k, "face": draw(jobs.small_face())}
    if draw(st.booleans()):
        r["tool"] = draw(jobs.tools())
    if k in ("profile-shape", "pocket-shape", "drill-shape"):
        r["shape"] = draw(st.sampled_from(["edge", "vertex", "solid", "vector", "number", "string"]))
        r["list"] = draw(st.sampled_from(["alone", "list", "after"]))
    elif "sloped" in k:
        r["angle"] = draw(st.sampled_from([0.5, 1, 5, 30, 45, 89, 90, 120]))
    elif "above" in k:
        r["above"] = draw(st.sampled_from([0.001, 0.01, 0.25, 3, 50]))
        r["deeper"] = draw(st.booleans())
    elif k == "pocket-stepover":
        r["stepover"] = draw(st.sampled_from([0, 0.0, -0.5, -1, [0, 0], [0, -0.2], [1, -50]]))
    elif k in ("pocket-stepdown", "profile-stepdown"):
        r["stepdown"] = draw(st.sampled_from([-0.5, -1, -0.01]))
    elif k == "tabs-spacing":
        w = draw(grid(0.5, 5, 0.25))
        r["width"], r["spacing"] = w, round(w * draw(st.sampled_from([0, 0.5, 0.99, 1])), 4)
    elif k in ("profile-layers", "wire-layers"):
        r["layers"] = draw(st.sampled_from([103, 110, 150]))
    return r


@st.composite
def _spec(draw):
    s = draw(jobs.small_jobs(max_ops=3))
    s["refusals"] = draw(st.lists(st.tuples(st.integers(0, len(s["ops"])), refusal()).map(list), min_size=1, max_size=3))
    return s


def strategy():
    return _spec()


def thing(kind, plane):
    import cadquery as cq

    at = lambda x, y, z: sh.to_world(plane, x, y, z)
    return {
        "edge": lambda: cq.Edge.makeLine(at(0, 0, -1), at(9, 0, -1)), "vertex": lambda: cq.Vertex.makeVertex(*at(0, 0, -1).toTuple()),
        "solid": lambda: cq.Solid.makeBox(5, 6, 7), "vector": lambda: at(1, 1, -1), "number": lambda: 5, "string": lambda: "face",
    }[kind]()


def bare(job):
    """The same job before any tool was given a diameter."""
    from copy import copy

    j = copy(job)
    j.tool_diameter = None
    return j


def ask(job, r, plane):
    """Asks for the impossible. Returns the job given (or None when the request cannot be made impossible)."""
    import math

    import cadquery as cq
    from cq_cam.operations.tabs import EdgeTabs

    k, f = r["kind"], r["face"]
    tool = jobs.make_tool(r.get("tool"))
    good = sh.make_face(f, plane)
    wire = sh.make_wire(f["outer"], plane, f["z"])
    if "diameter" in k:
        job = bare(job)
        if tool is not None:
            tool.tool_diameter = None
    if k == "profile-offsets":
        return job.profile(good, outer_offset=None, inner_offset=None, tool=tool)
    if k == "profile-diameter":
        return job.profile(good, tool=tool)
    if k == "wire-diameter":
        return job.wire_profile(wire, tool=tool)
    if k == "pocket-diameter":
        return job.pocket(good, tool=tool)
    if k in ("profile-shape", "pocket-shape", "drill-shape"):
        o = thing(r["shape"], plane)
        if k == "drill-shape" and r["shape"] == "vector":
            o = thing("edge", plane)
        if r["list"] == "list" or k == "pocket-shape" and r["shape"] == "vertex":
            # (a bare vertex is taken for a collection without any face, which is nothing to do rather than impossible)
            o = [good, o] if r["list"] == "after" else [o]
        elif r["list"] == "after":
            o = [good, o]
        if k == "profile-shape":
            return job.profile(o, tool=tool)
        if k == "pocket-shape":
            return job.pocket(o, tool=tool)
        return job.drill(o, depth=1, tool=tool)
    if "sloped" in k:
        a = math.radians(r["angle"])
        local = cq.Plane((0, 0, f["z"]), (1, 0, 0), (0, -math.sin(a), math.cos(a)))
        bent = sh.make_face({**f, "z": 0.0}, local).moved(cq.Location(plane))
        if k == "pocket-sloped":
            return job.pocket(bent if r["angle"] != 5 else [good, bent], tool=tool)
        return job.pocket(good, avoid_areas=bent, tool=tool)
    if "above" in k:
        high = sh.make_face({**f, "z": r["above"]}, plane)
        if k == "pocket-above":
            # the tool must fit in, or there is nothing to refuse
            return job.pocket([good, high] if r["deeper"] else high, outer_offset=0, inner_offset=0, tool=tool)
        return job.pocket(good, avoid_areas=high, tool=tool)
    if k == "pocket-stepover":
        v = r["stepover"]
        return job.pocket(good, stepover=tuple(v) if isinstance(v, list) else v, outer_offset=0, tool=tool)
    if k == "pocket-stepdown":
        return job.pocket(good, stepdown=r["stepdown"], outer_offset=0, tool=tool)
    if k == "profile-stepdown":
        return job.profile(good, stepdown=r["stepdown"], outer_offset=0, tool=tool)
    if k == "drill-depth":
        return job.drill(good, tool=tool)
    if k == "drill-nothing":
        return job.drill(None, depth=2, tool=tool)
    if k == "drill-empty":
        return job.drill([], depth=2, tool=tool)
    if k == "tabs-spacing":
        return job.profile(good, tabs=EdgeTabs(spacing=r["spacing"], width=r["width"], height=0.2), tool=tool)
    if k == "profile-layers":
        return job.profile(good, stepdown=-f["z"] / r["layers"], tool=tool, outer_offset=0)
    if k == "wire-layers":
        return job.wire_profile(wire, stepdown=-f["z"] / r["layers"], tool=tool, offset=0)
    raise AssertionError(k)


def run_case(spec):
    plane = sh.make_plane(spec["plane"])
    job = jobs.make_job(spec["job"], plane)
    fresh = jobs.make_job(spec["job"], plane)
    kinds = []
    for i in range(len(spec["ops"]) + 1):
        for at, r in spec["refusals"]:
            if at != i:
                continue
            kinds.append(r["kind"])
            before = job.to_gcode()
            state = dict(vars(job))
            try:
                got = ask(job, r, plane)
            except Exception:
                got = None
            if got is not None:
                raise Violation("accepted", f"{r['kind']} was not refused; the program has {len(got.to_gcode().splitlines())} lines, {len(before.splitlines())} before")
            if job.to_gcode() != before or any(vars(job).get(a) is not b for a, b in state.items()):
                raise Violation("changed", f"the refusal of {r['kind']} changed the job")
        if i < len(spec["ops"]):
            op = spec["ops"][i]
            job = jobs.apply_op(job, op, plane, spec.get("mode", "direct"))
            fresh = jobs.apply_op(fresh, op, plane, spec.get("mode", "direct"))
            if job.to_gcode() != fresh.to_gcode():
                raise Violation("after", f"operation {i} comes out different after refusals of {kinds}")
    ats = [a for a, _ in spec["refusals"]]
    return {"nontrivial": any(0 < a < len(spec["ops"]) for a in ats), "classes": kinds, "count": {"refusals": len(kinds)}}
