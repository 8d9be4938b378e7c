"""Drilling visits every hole exactly once, at its centre, to the depth asked for."""
import math

from hypothesis import strategies as st

from vlib import gen, jobs, paths, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated hole patterns (points, circles and other closed wires, faces with and without holes, mixed and repeated, alone, in a list or on "
        "a workplane, built in place, relocated or picked from a solid) on generated job planes with generated depths and tools; the plunges of "
        "the program are matched with the centres computed from the pattern; non-trivial: at least two holes")
QUICK = (700, 120)
THOROUGH = (8000, 800)

TOL = 0.0005 + 1e-6


@st.composite
def _spec(draw):
    items = []
    n = draw(st.integers(1, 6))
    spread = draw(st.sampled_from([10, 60, 60]))
    pos = st.one_of(grid(-spread, spread, 0.5), grid(-spread, spread, 0.5), grid(-spread, spread, 0.001))
    for _ in range(n):
        kind = draw(st.sampled_from(["vec", "vec", "circle", "wire", "face", "holes"]))
        it = {"kind": kind, "z": draw(st.sampled_from([0, 0, -1, -3.25, 4, 7.5]))}
        if kind == "vec":
            it["at"] = [draw(pos), draw(pos)]
        elif kind == "circle":
            it["c"] = {"circle": [draw(pos), draw(pos), draw(grid(0.25, 8, 0.25))]}
        elif kind in ("wire", "face"):
            c = draw(gen.contours(place=False))
            it["c"] = sh.transform_contour(c, draw(gen.rotations), draw(pos), draw(pos))
        else:
            w, h = draw(grid(20, 60, 1)), draw(grid(20, 60, 1))
            x0, y0 = draw(pos), draw(pos)
            it["c"] = sh.transform_contour(
                sh.polygon_contour([(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)]), 0, x0, y0)
            cells = draw(st.lists(st.sampled_from([(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]), min_size=1, max_size=draw(st.sampled_from([3, 5, 9])), unique=True))
            it["inners"] = []
            for a, b in cells:
                r = draw(st.sampled_from([0.5, 1, 1.5, 2.5, 3]))
                it["inners"].append({"circle": [round(x0 + a * w / 3 + draw(grid(-0.25, 0.25, 0.125)), 6), round(y0 + b * h / 3, 6), r]})
        it["mode"] = draw(gen.face_modes if kind in ("face", "holes") else gen.wire_modes)
        items.append(it)
    if draw(st.integers(0, 5)) == 0:
        items.append(dict(items[0]))
    p = draw(jobs.job_params(named=False))
    p["tool_diameter"] = draw(st.sampled_from([None, 1, 6]))
    return {
        "job": p, "plane": draw(gen.planes()), "items": items, "depth": draw(st.sampled_from([0.5, 1, 3, 12.375, -2, -7.5, 40])),
        "input": draw(st.sampled_from(["list", "list", "workplane", "single"])), "tool": draw(st.one_of(st.none(), jobs.tools())),
    }


def strategy():
    return _spec()


def centre(c):
    if "circle" in c:
        return (*c["circle"][:2], 0)
    p = sh.contour_polygon(c)
    if not p.is_valid:
        raise Reject("self-intersecting outline")
    # the oracle's own polygon is only this good
    return (p.centroid.x, p.centroid.y, 5e-4)


def run_case(spec):
    import cadquery as cq

    plane = sh.make_plane(spec["plane"])
    objs, want = [], []
    for it in spec["items"]:
        if it["kind"] == "vec":
            objs.append(sh.to_world(plane, *it["at"], it["z"]))
            want.append((*it["at"], 0))
        elif it["kind"] in ("circle", "wire"):
            objs.append(sh.make_wire(it["c"], plane, it["z"], it["mode"]))
            want.append(centre(it["c"]))
        else:
            f = {"z": it["z"], "outer": it["c"]}
            if "inners" in it:
                f["inners"] = it["inners"]
            objs.append(sh.make_face(f, plane, it["mode"]))
            want += [centre(c) for c in it.get("inners") or [it["c"]]]
    if spec["input"] == "single":
        n = len(spec["items"][0].get("inners") or [0])
        arg, want = objs[0], want[:n]
    elif spec["input"] == "workplane":
        arg = cq.Workplane(plane).newObject(objs)
    else:
        arg = objs
    job = jobs.make_job(spec["job"], plane)
    job = job.drill(arg, tool=jobs.make_tool(spec["tool"]), depth=spec["depth"])
    moves = paths.op_moves(job.operations[-1])
    depth = -abs(spec["depth"])
    _, safe = jobs.heights_of(spec["job"])
    left = list(want)
    down = False
    for m in moves:
        if m.kind in ("cw", "ccw"):
            raise Violation("motion", f"{m.text!r} is an arc")
        if m.is_cut:
            if m.start[0] is None or m.end[0] is None or m.start[:2] != m.end[:2]:
                raise Violation("motion", f"{m.text!r} does not go straight down")
            if m.end[2] >= m.start[2]:
                raise Violation("motion", f"{m.text!r} does not go down")
            if abs(m.end[2] - depth) > TOL:
                raise Violation("depth", f"{m.text!r} ends at {m.end[2]}, not at {depth}")
            if m.start[2] > safe + TOL:
                raise Violation("depth", f"{m.text!r} starts at {m.start[2]}")
            x, y = m.end[:2]
            best = min(left, key=lambda p: math.dist(p[:2], (x, y)), default=None)
            if best is None or max(abs(best[0] - x), abs(best[1] - y)) > TOL + best[2]:
                raise Violation("place", f"a hole at ({x}, {y}); still to drill: {sorted(left)[:4]}")
            left.remove(best)
            down = True
        elif down:
            if m.start[:2] != m.end[:2] or m.end[2] < safe - TOL:
                raise Violation("retract", f"{m.text!r} after a hole, not a retract to {safe}")
            down = False
    if left:
        raise Violation("missed", f"{len(left)} of {len(want)} holes not drilled, such as {left[0]}")
    return {"nontrivial": len(want) > 1, "classes": [f"input:{spec['input']}"] + sorted({"kind:" + i["kind"] for i in spec["items"]})
            + [f"holes:{min(len(want), 10)}"], "count": {"holes": len(want)}}
