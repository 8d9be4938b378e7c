"""Curves are followed to the working resolution."""
import math

import numpy as np
import shapely
from hypothesis import strategies as st

from vlib import gen, paths, pockets, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated closed contours of splines (open ones joined by lines or arcs, closed ones in a single edge) and, for pockets, ellipses, in either orientation, direct, "
        "moved or on a solid, followed, offset by a profile or pocketed at a working precision of one to three digits, against dense samples of the "
        "kernel's own curve; non-trivial: something is cut")
QUICK = (110, 70)
THOROUGH = (5000, 800)


@st.composite
def blob(draw):
    """A star-shaped ring of points, some runs of them splined."""
    n = draw(st.integers(5, 9))
    wob = draw(st.sampled_from([1, 2, 4]))
    pts = []
    r0 = draw(grid(2, 5, 0.25))
    for i in range(n):
        r = r0 + draw(st.integers(0, 4)) * 0.1 * wob
        a = 2 * math.pi * (i + draw(st.integers(-2, 2)) / 12) / n
        pts.append([round(r * math.cos(a), 3), round(r * math.sin(a), 3)])
    kind = draw(st.sampled_from(["closed", "one", "some", "some"]))
    if kind == "closed":
        return {"closed": pts}
    if kind == "one":
        # one open spline and a straight or round edge back
        k = draw(st.integers(n - 2, n - 1))
        segs = [["S", pts[1 : k + 1]]]
        for p in pts[k + 1 :] + [pts[0]]:
            segs.append(["L", *p])
        return {"start": pts[0], "segs": segs}
    segs, i = [], 0
    ring = pts[1:] + [pts[0]]
    while i < n:
        m = draw(st.integers(1, 4))
        part = ring[i : i + m]
        if len(part) > 1:
            segs.append(["S", part])
        else:
            segs.append(["L", *part[0]])
        i += m
    if not any(s[0] == "S" for s in segs):
        segs = [["S", ring[:3]]] + [["L", *p] for p in ring[3:]]
    return {"start": pts[0], "segs": segs}


@st.composite
def _spec(draw):
    op = draw(st.sampled_from(["follow", "profile", "profile", "pocket"]))
    s = {"op": op, "plane": draw(gen.planes()), "curve": draw(blob()), "z": -draw(grid(0.5, 4, 0.25)), "precision": draw(st.sampled_from([2, 2, 1, 3])),
         "reverse": draw(st.booleans()), "mode": draw(gen.wire_modes if op == "follow" else gen.face_modes), "rot": draw(gen.rotations), "shift": list(draw(gen.offsets2)),
         "scale": draw(st.sampled_from([1, 1, 1, 1, 2, 0.7]))}
    if op == "pocket" and draw(st.integers(0, 2)) == 0:
        s["curve"] = {"ellipse": [draw(grid(3, 6, 0.25)), draw(grid(1.5, 3, 0.25))]}
    if op != "follow":
        s["dia"] = draw(st.sampled_from([0.5, 1, 1.5, 2, 3]))
        s["offset"] = draw(st.sampled_from([1, 1, -1, 0.5, 2]))
    if s["precision"] == 3 and op != "pocket":
        s["scale"] = 0.7
    if s["precision"] == 1 and op != "pocket" and draw(st.booleans()):
        s["scale"] = draw(st.sampled_from([3, 8, 15] if op == "follow" else [2, 2, 3]))
    return s


def strategy():
    return _spec()


def curve(spec):
    """The contour in place, as a spec of its own."""
    c, k = spec["curve"], spec["scale"]
    if "ellipse" in c:
        return c
    if "closed" in c:
        t = sh.transform_contour({"start": c["closed"][0], "segs": [["S", c["closed"][1:]]]}, spec["rot"], *spec["shift"], scale=k)
        pts = [t["start"], *t["segs"][0][1]]
        return {"closed": pts[::-1] if spec["reverse"] else pts}
    t = sh.transform_contour(c, spec["rot"], *spec["shift"], scale=k)
    return sh.reverse_contour(t) if spec["reverse"] else t


def make_wire(spec, plane, z):
    import cadquery as cq

    c = curve(spec)
    w = lambda x, y: sh.to_world(plane, x, y, z)
    if "ellipse" in c:
        a, b = c["ellipse"]
        t = math.radians(spec["rot"])
        x = sh.to_world(plane, math.cos(t), math.sin(t)) - plane.origin
        e = cq.Edge.makeEllipse(a, b, w(*spec["shift"]), plane.zDir * (-1 if spec["reverse"] else 1), x)
        return cq.Wire.assembleEdges([e])
    if "closed" in c:
        return cq.Wire.assembleEdges([cq.Edge.makeSpline([w(*p) for p in c["closed"]], periodic=True)])
    return cq.Wire.assembleEdges(sh.contour_edges(c, plane, z))


def make(spec, plane):
    """(wire, face) as asked for."""
    import cadquery as cq

    z, mode = spec["z"], spec["mode"]
    if mode == "moved":
        loc = cq.Location(plane) * cq.Location(cq.Vector(0, 0, z))
        w = make_wire(spec, cq.Plane((0, 0, 0)), 0.0)
        return w.moved(loc), lambda: cq.Face.makeFromWires(w).moved(loc)
    w = make_wire(spec, plane, z)
    if mode == "direct":
        return w, lambda: cq.Face.makeFromWires(w)
    solid = cq.Solid.extrudeLinear(w, [], plane.zDir * (-1.5 if mode == "top" else 1.5))
    for face in solid.Faces():
        bb = face.transformShape(plane.fG).BoundingBox()
        if abs(bb.zmin - z) < 1e-3 and abs(bb.zmax - z) < 1e-3:
            return w, lambda: face
    raise Reject("the solid has no such face")


def run_case(spec):
    import cadquery as cq
    from cq_cam import Job

    plane = sh.make_plane(spec["plane"])
    wire, face = make(spec, plane)
    # the exact curve, by the kernel's own evaluation of the edges in order
    xy = cq.Plane((0, 0, 0))
    c = curve(spec)
    # (edges of a wire come in no particular order)
    flat = [make_wire(spec, xy, 0.0)] if "segs" not in c else [cq.Wire.assembleEdges([e]) for e in sh.contour_edges(c, xy, 0.0)]
    ring = [p[:2] for e in flat for s in sh.cq_samples(e, xy, 0.01) for p in s[:-1]]
    poly = shapely.Polygon(ring)
    if not poly.is_valid or poly.area < 1:
        raise Reject("the curve crosses itself")
    tol = 0.5 * 10 ** -spec["precision"] + 0.003
    dia = spec.get("dia", 1)
    job = Job(plane, 300, tool_diameter=dia, precision=spec["precision"])
    if spec["op"] == "follow":
        job = job.wire_profile(wire, offset=0)
        ps = paths.passes(paths.op_moves(job.operations[-1]))
        if len(ps) != 1:
            raise Violation("passes", f"{len(ps)} passes for one contour")
        ln = ps[0].line()
        check_z(spec, ps)
        d = sh.apart(ln, poly.exterior, 0.02)
        if d > tol:
            raise Violation("astray", f"the path strays {d:.4f} from the curve, precision {spec['precision']}")
        if math.dist(ln.coords[0], ln.coords[-1]) > 0.002:
            raise Violation("open", "the path does not close")
        # it goes round once, without turning back
        at = np.unwrap(shapely.line_locate_point(poly.exterior, shapely.points(shapely.get_coordinates(ln))) / poly.length * 2 * math.pi)
        turn = (at - at[0]) * (1 if at[-1] > at[0] else -1)
        back = (np.maximum.accumulate(turn) - turn).max() * poly.length / 2 / math.pi
        if back > 3 * tol:
            raise Violation("order", f"the path turns back by {back:.3f}")
        if abs(abs(at[-1] - at[0]) - 2 * math.pi) > 0.02:
            raise Violation("order", f"the path goes {(at[-1] - at[0]) / 2 / math.pi:.3f} times round the curve")
        return done(spec, True)
    if spec["op"] == "profile":
        d = spec["offset"] * dia / 2
        job = job.profile(face() if spec["mode"] in ("top", "bottom") or spec["reverse"] else wire, outer_offset=spec["offset"])
        ps = paths.passes(paths.op_moves(job.operations[-1]))
        check_z(spec, ps)
        n = paths.check_offset_path([p.line() for p in ps], poly, d, tol + 0.002)
        return done(spec, n > 0)
    job = job.pocket(face())
    cuts = pockets.cut_lines(paths.op_moves(job.operations[-1]))
    for z, ln in cuts:
        if abs(z - spec["z"]) > 0.0011:
            raise Violation("depth", f"cuts at {z}, the face is at {spec['z']}")
    lines = [ln for _, ln in cuts]
    slack = 2 * 10 ** -spec["precision"] + 0.004
    r = dia / 2
    allowed = sh.grow(poly, -r + slack)
    for ln in lines:
        out = ln.difference(allowed)
        if not out.is_empty:
            raise Violation("gouge", f"the tool centre comes closer to the curve than its radius less {slack:.4f} at {out.representative_point().wkt if out.geom_type == 'Polygon' else shapely.get_coordinates(out)[0]}")
    core = sh.grow(poly, -r - 3 * slack)
    if not core.is_empty:
        left = sh.grow(core, r, 24).difference(sh.swept(lines, r + slack, 24)) if lines else core
        if left.area > 1e-4:
            raise Violation("standing", f"{left.area:.4f} mm2 left standing at {left.representative_point().wkt}")
    return done(spec, bool(lines))


def check_z(spec, ps):
    for p in ps:
        if len(p.zs) != 1 or abs(p.zs[0] - spec["z"]) > 0.0006:
            raise Violation("depth", f"cuts at {p.zs[:3]}, the curve is at {spec['z']}")


def done(spec, cut):
    c = spec["curve"]
    kind = "ellipse" if "ellipse" in c else "closed spline" if "closed" in c else "mixed"
    return {"nontrivial": bool(cut), "classes": [spec["op"], kind, f"precision:{spec['precision']}", "mode:" + spec["mode"]], "count": {}}
