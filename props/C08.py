"""A profile cuts exactly the offset contour, at the depth of the shape."""
import math

import shapely
from hypothesis import strategies as st

from vlib import gen, jobs, paths, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated closed contours (polygons, fillets, slots, D shapes, circles; convex and concave, rotated, holes) as wires, faces, lists or "
        "workplanes on generated job planes, with generated tools and offset multipliers, against a level-set oracle computed with shapely; "
        "non-trivial: the tool fits and at least one loop is cut")
QUICK = (420, 75)
THOROUGH = (6000, 800)

MULT = [-2, -1.5, -1, -1, -1, -0.5, 0, 0, 0.5, 1, 1, 1, 1.5, 2]


@st.composite
def _spec(draw):
    kind = draw(st.sampled_from(["wire", "wire", "face"]))
    outer = draw(gen.contours())
    f = {"z": -draw(grid(0, 12, 0.25)), "outer": outer}
    spec = {"kind": kind, "plane": draw(gen.planes()), "dia": draw(grid(0.5, 6, 0.25))}
    if kind == "face":
        poly = sh.contour_polygon(outer)
        spec["mode"] = draw(gen.face_modes)
        spec["input"] = draw(st.sampled_from(["face", "list", "workplane", "tuple"]))
        spec["outer"] = draw(st.sampled_from(MULT + [None] * 4))
        spec["inner"] = draw(st.sampled_from(MULT + [None]))
        if spec["outer"] is None and spec["inner"] is None:
            spec["inner"] = -1
        if draw(st.integers(0, 3)):
            spec["faces"] = [with_holes(draw, f, poly)]
        else:
            spec["faces"] = [f]
        if draw(st.integers(0, 4)) == 0:
            for i in range(draw(st.sampled_from([1, 1, 2]))):
                g = {"z": -draw(grid(0, 12, 0.25)), "outer": sh.transform_contour(draw(gen.contours(place=False)), 0, 150 + 150 * i, 20)}
                if draw(st.booleans()):
                    g = with_holes(draw, g, sh.contour_polygon(g["outer"]))
                spec["faces"].append(g)
    else:
        spec["mode"] = draw(gen.wire_modes)
        spec["offset"] = draw(st.sampled_from(MULT))
        spec["reverse"] = draw(st.booleans())
        spec["faces"] = [f]
    spec["start"] = draw(st.integers(0, 5))
    spec["split"] = draw(st.integers(0, 3)) == 0
    spec["tool_from"] = draw(st.sampled_from(["job", "tool", "override"]))
    return spec


def with_holes(draw, f, poly):
    """Puts circular or square holes into a face where they fit."""
    holes = []
    minx, miny, maxx, maxy = poly.bounds
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 6]))):
        x = minx + (maxx - minx) * draw(st.integers(2, 8)) / 10
        y = miny + (maxy - miny) * draw(st.integers(2, 8)) / 10
        r = draw(grid(0.75, 5, 0.25))
        if draw(st.booleans()):
            c = {"circle": [round(x, 3), round(y, 3), r]}
        else:
            c = sh.transform_contour(sh.polygon_contour([(-r, -r), (r, -r), (r, r), (-r, r)]), draw(gen.rotations), round(x, 3), round(y, 3))
        hp = sh.contour_polygon(c)
        if poly.buffer(-0.5).contains(hp) and all(hp.buffer(0.3).disjoint(sh.contour_polygon(o)) for o in holes):
            holes.append(c)
    return {**f, "inners": holes} if holes else f


def strategy():
    return _spec()


def drawn(spec, c):
    """The contour as it is drawn: from one of its vertices, perhaps with its edges in two pieces."""
    if spec.get("split"):
        c = sh.split(c)
    return sh.restart(c, spec.get("start", 0))


def check_spec(spec):
    """The contours to follow: (face, contour, offset multiplier)."""
    todo = []
    for f in spec["faces"]:
        if spec["kind"] == "wire":
            todo.append((f, f["outer"], spec["offset"]))
        else:
            if spec["outer"] is not None:
                todo.append((f, f["outer"], spec["outer"]))
            if spec["inner"] is not None:
                todo += [(f, c, spec["inner"]) for c in f.get("inners", [])]
    for f, c, k in todo:
        if not sh.contour_polygon(c).is_valid:
            raise Reject("self-intersecting outline")
    return todo


def run_case(spec):
    import cadquery as cq
    from cq_cam import Job
    from cq_cam.tool import Tool

    todo = check_spec(spec)
    plane = sh.make_plane(spec["plane"])
    dia = spec["dia"]
    tf = spec["tool_from"]
    job = Job(plane, 300, tool_diameter={"job": dia, "tool": None, "override": dia + 1.75}[tf])
    tool = None if tf == "job" else Tool(tool_diameter=dia)
    if spec["kind"] == "wire":
        f = spec["faces"][0]
        c = drawn(spec, f["outer"])
        c = sh.reverse_contour(c) if spec["reverse"] else c
        w = sh.make_wire(c, plane, f["z"], spec["mode"])
        if spec["reverse"] and spec["mode"] == "moved":
            job = job.profile(w, outer_offset=spec["offset"], tool=tool)
        else:
            job = job.wire_profile(w, offset=spec["offset"], tool=tool)
    else:
        fs = [{**f, "outer": drawn(spec, f["outer"]), "inners": [drawn(spec, i) for i in f.get("inners", [])]} for f in spec["faces"]]
        fs = [sh.make_face(f, plane, spec["mode"]) for f in fs]
        inp = spec["input"]
        if inp == "face" and len(fs) == 1:
            shape = fs[0]
        elif inp == "workplane":
            shape = cq.Workplane(plane).newObject(fs)
        elif inp == "tuple":
            shape = tuple(fs)
        else:
            shape = fs
        job = job.profile(shape, outer_offset=spec["outer"], inner_offset=spec["inner"], tool=tool)
    moves = paths.op_moves(job.operations[-1])
    ps = paths.passes(moves)
    # assign each pass to the contour it follows: by depth and by nearness to the offset contour
    r = dia / 2
    loops = [[] for _ in todo]
    for p in ps:
        if len(p.zs) != 1:
            raise Violation("depth", f"a pass changes depth: {p.zs[:4]}")
        ln = p.line()
        best = None
        for i, (f, c, k) in enumerate(todo):
            if abs(f["z"] - p.zs[0]) > 0.0006:
                continue
            err = stray(p, c, k * r)
            if best is None or err < best[0]:
                best = (err, i)
        if best is None:
            raise Violation("depth", f"a pass at {p.zs[0]}, the shapes are at {sorted({f['z'] for f, _, _ in todo})}")
        if math.dist(p.xy()[0], p.xy()[-1]) > 0.003:
            raise Violation("open", f"a pass from {p.xy()[0]} ends at {p.xy()[-1]}")
        loops[best[1]].append(ln)
    want = 0
    for (f, c, k), lines in zip(todo, loops):
        want += paths.check_offset_path(lines, sh.contour_polygon(c), k * r)
    # inner contours come before outer ones
    if spec["kind"] == "face":
        order = []
        for p in ps:
            order.append(nearest_role(p, todo, r, spec))
        if "inner" in order and "outer" in order and order.index("outer") < len(order) - 1 - order[::-1].index("inner"):
            raise Violation("order", f"cut in the order {order}")
    return {
        "nontrivial": want > 0,
        "classes": [spec["kind"], "mode:" + spec["mode"]] + sorted({f"k:{k:g}" for _, _, k in todo}) + [f"loops:{min(len(ps), 5)}"]
        + (["holes"] if any("inners" in f for f in spec["faces"]) else []),
        "count": {"loops": len(ps)},
    }


def stray(p, c, d):
    """How far a pass is from the offset contour at its worst point."""
    ring = sh.contour_polygon(c, 1e-3).exterior
    return float(max(abs(shapely.distance(ring, shapely.points(p.xy())) - abs(d))))


def nearest_role(p, todo, r, spec):
    best = None
    for f, c, k in todo:
        if abs(f["z"] - p.zs[0]) > 0.0006:
            continue
        err = stray(p, c, k * r)
        role = "outer" if c is f["outer"] else "inner"
        if best is None or err < best[0] - 0.01:
            best = (err, role)
        elif abs(err - best[0]) <= 0.01 and role != best[1]:
            best = (best[0], "either")
    return best[1]
