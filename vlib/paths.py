"""Reading tool paths, and the geometric oracles for them."""
from __future__ import annotations

import math

import numpy as np
import shapely
from shapely.geometry import LineString, Point, Polygon

from . import gcode, shapes as sh
from .core import Violation


def op_moves(operation):
    """Moves of one operation's own text."""
    try:
        return gcode.run_body(operation.to_gcode())
    except gcode.GCodeError as e:
        raise Violation("malformed", e) from None


class Pass:
    """What is cut between two rapids: the entry plunge, then points (x, y, z)."""

    def __init__(self, entry):
        self.moves = []
        self.entry = entry
        self.pts = []

    def xy(self):
        return [(p[0], p[1]) for p in self.pts]

    def line(self):
        return sh.path_line(self.xy())

    @property
    def zs(self):
        return sorted({round(p[2], 4) for p in self.pts})


def passes(moves, chord=2e-4):
    """Cutting passes; a pass starts with the plunge that follows a rapid."""
    out = []
    cur = None
    for m in moves:
        if not m.is_cut:
            cur = None
            continue
        if cur is None:
            cur = Pass(m)
            out.append(cur)
            if m.start[:2] == m.end[:2] and m.kind == "feed":
                cur.pts = [m.end]
                continue
            cur.pts = [m.start]
        cur.moves.append(m)
        cur.pts += m.points(chord)[1:]
    return out


def samples(geom, step):
    """Points on lines, at most step apart."""
    out = []
    for g in getattr(geom, "geoms", [geom]):
        if g.geom_type == "Point":
            out.append(g)
            continue
        n = max(2, math.ceil(g.length / step) + 1)
        out += list(shapely.line_interpolate_point(g, np.linspace(0, g.length, n)))
    return out


def tool_side_radii(c, inside):
    """Radii of the arcs of a contour that curve around the tool when it runs on the given side."""
    if "circle" in c:
        return [c["circle"][2]] if inside else []
    ccw = sh.contour_polygon(c).exterior.is_ccw
    p, out = c["start"], []
    for s in c["segs"]:
        if s[0] == "A":
            _, _, r, _, sweep = sh.arc_params(p, s[1:3], s[3:5])
            convex = (sweep > 0) == ccw
            if convex == inside:
                out.append(r)
        p = s[-2:]
    return out


def check_offset_path(lines, poly, d, tol=0.004):
    """lines: LineStrings cut; poly: region of the contour; d: signed offset, outwards positive.

    The paths are at distance |d| from the contour, on the right side, and all of the offset contour is cut."""
    ring = poly.exterior
    shapely.prepare(ring)
    a = abs(d)
    for ln in lines:
        pts = shapely.get_coordinates(ln)
        seg = samples(ln, max(0.05, ln.length / 400)) if ln.length > 0 else []
        allp = np.concatenate([shapely.points(pts), np.array(seg, dtype=object)]) if len(seg) else shapely.points(pts)
        dist = shapely.distance(ring, allp)
        i = int(np.argmin(dist))
        if dist[i] < a - tol:
            raise Violation("gouge", f"the tool centre comes to {dist[i]:.4f} of the contour at {allp[i].wkt}, {a:.4f} asked for")
        i = int(np.argmax(dist))
        if dist[i] > a + tol:
            raise Violation("astray", f"the tool centre is {dist[i]:.4f} from the contour at {allp[i].wkt}, {a:.4f} asked for")
        if a > 4 * tol:
            ins = shapely.contains_xy(poly, shapely.get_x(allp), shapely.get_y(allp))
            if d > 0 and ins.any() or d < 0 and not ins.all():
                j = int(np.argmax(ins if d > 0 else ~ins))
                raise Violation("side", f"the tool centre is on the wrong side of the contour at {allp[j].wkt}")
    target = sh.grow(poly, d) if d else poly
    g = 0.01
    want = []
    for p in sh.polys(target):
        opened = sh.grow(sh.grow(p, -g), g)
        for q in sh.polys(opened):
            if q.area < 0.3:
                continue
            for r in [q.exterior, *q.interiors]:
                want += [s for s in samples(r, max(0.1, r.length / 300)) if p.boundary.distance(s) < 0.001]
    if not want:
        return 0
    if not lines:
        raise Violation("missing", "nothing is cut, but the tool fits")
    got = shapely.union_all(list(lines))
    dist = shapely.distance(got, want)
    i = int(np.argmax(dist))
    if dist[i] > tol + 0.004:
        raise Violation("missing", f"the offset contour is not cut at {want[i].wkt} (nearest cut {dist[i]:.4f} away)")
    return len(want)
