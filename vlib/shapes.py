"""Contours as plain JSON: built independently as cadquery shapes and as shapely polygons.

A contour is either
  {"start": [x, y], "segs": [["L", x, y] | ["A", mx, my, x, y] | ["S", [[x, y], ...]]]}  (closed)
  {"circle": [cx, cy, r]}
All coordinates are in the job plane.
"""
from __future__ import annotations

import math

import numpy as np
import pyclipper
import shapely
from shapely.geometry import LineString, Polygon


# ------------------------------------------------------------------ analytic side
def arc_params(p0, pm, p1):
    ax, ay = p0
    bx, by = pm
    cx, cy = p1
    d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
    ux = ((ax**2 + ay**2) * (by - cy) + (bx**2 + by**2) * (cy - ay) + (cx**2 + cy**2) * (ay - by)) / d
    uy = ((ax**2 + ay**2) * (cx - bx) + (bx**2 + by**2) * (ax - cx) + (cx**2 + cy**2) * (bx - ax)) / d
    r = math.hypot(ax - ux, ay - uy)
    a0 = math.atan2(ay - uy, ax - ux)
    am = math.atan2(by - uy, bx - ux)
    a1 = math.atan2(cy - uy, cx - ux)
    ccw = (am - a0) % (2 * math.pi) < (a1 - a0) % (2 * math.pi)
    sweep = (a1 - a0) % (2 * math.pi) if ccw else -((a0 - a1) % (2 * math.pi))
    return ux, uy, r, a0, sweep


def arc_points(p0, pm, p1, chord=1e-4):
    ux, uy, r, a0, sweep = arc_params(p0, pm, p1)
    step = min(max(2 * math.acos(max(0.0, 1 - min(chord / r, 1))), 1e-3), math.pi / 16)
    n = max(2, math.ceil(abs(sweep) / step))
    pts = [(ux + r * math.cos(a0 + sweep * i / n), uy + r * math.sin(a0 + sweep * i / n)) for i in range(n + 1)]
    pts[0], pts[-1] = tuple(p0), tuple(p1)
    return pts


def contour_points(c, chord=1e-4):
    """Closed list of points (first == last). Splines are left out: see cq_samples."""
    if "circle" in c:
        cx, cy, r = c["circle"]
        step = min(max(2 * math.acos(1 - min(chord / r, 1)), 1e-3), math.pi / 16)
        n = math.ceil(2 * math.pi / step)
        pts = [(cx + r * math.cos(2 * math.pi * i / n), cy + r * math.sin(2 * math.pi * i / n)) for i in range(n)]
        return pts + [pts[0]]
    p = tuple(c["start"])
    pts = [p]
    for s in c["segs"]:
        if s[0] == "L":
            q = (s[1], s[2])
            pts.append(q)
        elif s[0] == "A":
            q = (s[3], s[4])
            pts += arc_points(p, (s[1], s[2]), q, chord)[1:]
        else:
            raise ValueError("spline contour has no analytic points")
        p = q
    if pts[0] != pts[-1]:
        pts.append(pts[0])
    return pts


def contour_polygon(c, chord=1e-4) -> Polygon:
    return Polygon(contour_points(c, chord))


def face_polygon(f, chord=1e-4) -> Polygon:
    return Polygon(contour_points(f["outer"], chord), [contour_points(i, chord) for i in f.get("inners", [])])


def segments(c):
    if "circle" in c:
        return [["C"]]
    return c["segs"]


def transform_contour(c, rot=0.0, dx=0.0, dy=0.0, scale=1.0, mirror=False):
    co, si = math.cos(math.radians(rot)), math.sin(math.radians(rot))

    def t(x, y):
        x, y = x * scale, y * scale
        if mirror:
            x = -x
        return [round(x * co - y * si + dx, 6), round(x * si + y * co + dy, 6)]

    if "circle" in c:
        x, y, r = c["circle"]
        return {"circle": [*t(x, y), r * scale]}
    segs = []
    for s in c["segs"]:
        if s[0] == "L":
            segs.append(["L", *t(s[1], s[2])])
        elif s[0] == "A":
            segs.append(["A", *t(s[1], s[2]), *t(s[3], s[4])])
        else:
            segs.append(["S", [t(*p) for p in s[1]]])
    return {"start": t(*c["start"]), "segs": segs}


def reverse_contour(c):
    if "circle" in c:
        return c
    pts = [c["start"]]
    for s in c["segs"]:
        pts.append(s[-2:] if s[0] != "S" else s[1][-1])
    segs = []
    for i in range(len(c["segs"]) - 1, -1, -1):
        s = c["segs"][i]
        if s[0] == "L":
            segs.append(["L", *pts[i]])
        elif s[0] == "A":
            segs.append(["A", s[1], s[2], *pts[i]])
        else:
            segs.append(["S", [list(p) for p in reversed([pts[i]] + s[1][:-1])]])
    return {"start": list(pts[-1]), "segs": segs}


def restart(c, k):
    """The same contour from another of its vertices."""
    if "circle" in c or not k:
        return c
    segs = c["segs"]
    k %= len(segs)
    if not k:
        return c
    return {"start": list(segs[k - 1][-2:]), "segs": segs[k:] + segs[:k]}


def split(c):
    """The same contour with its edges in two pieces."""
    if "circle" in c:
        x, y, r = c["circle"]
        q = r * math.sqrt(0.5)
        return {"start": [x + r, y], "segs": [["A", x + q, y + q, x, y + r], ["A", x - q, y - q, x + r, y]]}
    p, out = c["start"], []
    for s in c["segs"]:
        if s[0] == "L":
            m = [(p[0] + s[1]) / 2, (p[1] + s[2]) / 2]
            out += [["L", *m], s]
        else:
            ux, uy, r, a0, sweep = arc_params(p, s[1:3], s[3:5])
            at = lambda k: [ux + r * math.cos(a0 + k * sweep), uy + r * math.sin(a0 + k * sweep)]
            out += [["A", *at(0.2), *at(0.4)], ["A", *at(0.7), *s[3:5]]]
        p = s[-2:]
    return {"start": c["start"], "segs": out}


def polygon_contour(pts):
    return {"start": list(pts[0]), "segs": [["L", *p] for p in pts[1:]] + [["L", *pts[0]]]}


def rounded_contour(pts, radii):
    """Polygon with the corners rounded (r=0 keeps a corner sharp). The caller keeps radii small enough."""
    n = len(pts)
    out = []
    for i in range(n):
        p = np.array(pts[i], float)
        a = np.array(pts[i - 1], float) - p
        b = np.array(pts[(i + 1) % n], float) - p
        la, lb = np.linalg.norm(a), np.linalg.norm(b)
        a, b = a / la, b / lb
        ang = math.acos(max(-1, min(1, float(a @ b))))
        r = radii[i]
        if r <= 0 or ang > math.pi - 0.05 or ang < 0.05:
            out.append((tuple(p), None, None))
            continue
        t = r / math.tan(ang / 2)
        bis = (a + b) / np.linalg.norm(a + b)
        cen = p + bis * (r / math.sin(ang / 2))
        mid = cen - bis * r
        out.append((tuple(p + a * t), tuple(mid), tuple(p + b * t)))
    segs = []
    first = None
    for e, m, l in out:
        if first is None:
            first = e
        else:
            segs.append(["L", *e])
        if m is not None:
            segs.append(["A", *m, *l])
    segs.append(["L", *first])
    c = {"start": list(first), "segs": segs}
    return transform_contour(c)


def slot_contour(length, r):
    h = length / 2
    return {
        "start": [-h, -r],
        "segs": [["L", h, -r], ["A", h + r, 0, h, r], ["L", -h, r], ["A", -h - r, 0, -h, -r]],
    }


def d_contour(r):
    return {"start": [0, -r], "segs": [["A", r, 0, 0, r], ["L", 0, -r]]}


# ------------------------------------------------------------------ cadquery side
def make_plane(p):
    import cadquery as cq

    return cq.Plane(tuple(p["origin"]), tuple(p["x"]), tuple(p["n"]))


XY = {"origin": [0, 0, 0], "x": [1, 0, 0], "n": [0, 0, 1]}


def to_world(plane, x, y, z=0.0):
    import cadquery as cq

    return plane.toWorldCoords(cq.Vector(x, y, z))


def contour_edges(c, plane, z):
    import cadquery as cq

    w = lambda x, y: to_world(plane, x, y, z)
    if "circle" in c:
        cx, cy, r = c["circle"]
        from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
        from OCP.gp import gp_Ax2, gp_Circ

        # starts in the x direction of the plane
        ax = gp_Ax2(w(cx, cy).toPnt(), plane.zDir.toDir(), plane.xDir.toDir())
        return [cq.Edge(BRepBuilderAPI_MakeEdge(gp_Circ(ax, r)).Edge())]
    p = c["start"]
    edges = []
    for s in c["segs"]:
        if s[0] == "L":
            q = s[1:3]
            if math.dist(p, q) > 1e-9:
                edges.append(cq.Edge.makeLine(w(*p), w(*q)))
        elif s[0] == "A":
            q = s[3:5]
            edges.append(cq.Edge.makeThreePointArc(w(*p), w(s[1], s[2]), w(*q)))
        else:
            q = s[1][-1]
            edges.append(cq.Edge.makeSpline([w(*p)] + [w(*v) for v in s[1]]))
        p = q
    return edges


def make_wire(c, plane, z, mode="direct"):
    """mode: direct (geometry built in place) or moved (built at the origin, carried by a location)."""
    import cadquery as cq

    if mode == "moved":
        w = make_wire(c, cq.Plane((0, 0, 0)), 0.0)
        return w.moved(cq.Location(plane) * cq.Location(cq.Vector(0, 0, z)))
    return cq.Wire.assembleEdges(contour_edges(c, plane, z))


def make_face(f, plane, mode="direct"):
    """mode: direct | moved | top | bottom (face picked from an extruded solid)."""
    import cadquery as cq

    z = f["z"]
    if mode == "moved":
        base = make_face({**f, "z": 0.0}, cq.Plane((0, 0, 0)))
        return base.moved(cq.Location(plane) * cq.Location(cq.Vector(0, 0, z)))
    outer = make_wire(f["outer"], plane, z)
    inners = [make_wire(i, plane, z) for i in f.get("inners", [])]
    if mode == "direct":
        return cq.Face.makeFromWires(outer, inners)
    h = 1.5
    # extrude away from the wanted face so that it is the solid's top or bottom
    vec = plane.zDir * (-h if mode == "top" else h)
    solid = cq.Solid.extrudeLinear(outer, inners, vec)
    want = None
    for face in solid.Faces():
        local = face.transformShape(plane.fG)
        bb = local.BoundingBox()
        if abs(bb.zmin - z) < 1e-4 and abs(bb.zmax - z) < 1e-4:
            want = face
    assert want is not None, "harness: face not found"
    return want


def cq_samples(shape, plane, chord_step=0.01):
    """Dense xy samples (job plane) along the edges of a wire, from the kernel's curves."""
    out = []
    for e in shape.Edges():
        n = max(3, int(e.Length() / chord_step))
        out.append([plane.toLocalCoords(v).toTuple() for v in e.positions(np.linspace(0, 1, n))])
    return out


# ------------------------------------------------------------------ shapely helpers
def apart(a, b, step=0.05):
    """Hausdorff distance of two lines, to within the step (the library's own is off for closed ones)."""
    pts = lambda g: shapely.points(shapely.get_coordinates(shapely.segmentize(g, step))[:, :2])
    return max(shapely.distance(pts(a), b).max(), shapely.distance(pts(b), a).max())


def clean(poly):
    return poly if poly.is_valid else shapely.make_valid(poly)


def polys(geom):
    if geom.is_empty:
        return []
    if geom.geom_type == "Polygon":
        return [geom]
    if hasattr(geom, "geoms"):
        r = []
        for g in geom.geoms:
            r += polys(g)
        return r
    return []


CLIP = 2**20


def swept(lines, r, qs=48):
    """What a disc of a radius sweeps along lines.

    Not by the buffer of GEOS: it simplifies a line by up to a hundredth of the radius first, and sometimes leaves a spurious hole
    or piece in the buffer of a closed line."""
    out = []
    for ln in lines:
        for g in getattr(ln, "geoms", [ln]):
            c = shapely.get_coordinates(g)
            if len(c) == 1:
                out.append(g.buffer(r, quad_segs=qs))
                continue
            off = pyclipper.PyclipperOffset(2.0, max(r * (1 - math.cos(math.pi / 4 / qs)), 1e-5) * CLIP)
            off.AddPath(np.rint(c * CLIP).astype(np.int64).tolist(), pyclipper.JT_ROUND, pyclipper.ET_OPENROUND)
            out += clipped(off.Execute2(r * CLIP))
    return shapely.union_all(out)


def clipped(node):
    """The polygons of a clipper tree."""
    out = []
    for n in node.Childs:
        if not n.IsHole:
            p = Polygon(np.array(n.Contour) / CLIP, [np.array(h.Contour) / CLIP for h in n.Childs])
            out.append(p if p.is_valid else p.buffer(0))
        out += clipped(n)
    return out


def grow(poly, d, qs=64):
    """Round-join offset, positive outwards."""
    if not d or poly.is_empty:
        return poly
    rings = []
    for p in polys(poly):
        rings += [LineString(p.exterior.coords), *[LineString(i.coords) for i in p.interiors]]
    band = swept(rings, abs(d), qs)
    return poly.union(band) if d > 0 else poly.difference(band)


def polyline(pts):
    return LineString(pts)


def path_line(pts2d):
    """LineString of a path; a degenerate one becomes a point."""
    uniq = [pts2d[0]]
    for p in pts2d[1:]:
        if p != uniq[-1]:
            uniq.append(p)
    if len(uniq) == 1:
        return shapely.Point(uniq[0])
    return LineString(uniq)
