"""Generated pockets, and the region the tool centre is allowed in."""
from __future__ import annotations

import math

import shapely
from hypothesis import strategies as st

from . import gen, paths, shapes as sh
from .core import Reject
from .gen import grid

OFFS = [None, None, None, -1, 0, -0.5, -1.5, [-1, -0.5], [-1, 0.25], [0, -1], [-2, 0.5], 0.5]


@st.composite
def island(draw, poly):
    """A contour inside a polygon, or None."""
    x0, y0, x1, y1 = poly.bounds
    fx, fy = draw(st.integers(1, 19)), draw(st.integers(1, 19))
    x, y = round(x0 + (x1 - x0) * fx / 20, 2), round(y0 + (y1 - y0) * fy / 20, 2)
    kind = draw(st.sampled_from(["circle", "rect", "rect", "slot", "tri", "bell"]))
    if kind == "circle":
        c = {"circle": [0, 0, draw(grid(0.5, 5, 0.25))]}
    elif kind == "rect":
        w, h = draw(grid(0.5, 9, 0.5)), draw(grid(0.5, 5, 0.5))
        c = sh.polygon_contour([(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)])
    elif kind == "slot":
        c = sh.slot_contour(draw(grid(1, 10, 0.5)), draw(grid(0.5, 3, 0.25)))
    elif kind == "bell":
        # two ends of different sizes and a thin neck: in two parts when offset inwards
        a, b, n = draw(grid(0.75, 2.5, 0.25)), draw(grid(0.75, 2.5, 0.25)), draw(st.sampled_from([0.1, 0.2]))
        k = draw(grid(1, 3, 0.5))
        c = sh.polygon_contour([(-k - 2 * a, -a), (-k, -a), (-k, -n), (k, -n), (k, -b), (k + 2 * b, -b), (k + 2 * b, b), (k, b), (k, n), (-k, n), (-k, a), (-k - 2 * a, a)])
    else:
        r = draw(grid(1, 6, 0.25))
        c = sh.polygon_contour([(round(r * math.cos(a), 4), round(r * math.sin(a), 4)) for a in (0.3, 2.4, 4.5)])
    return sh.transform_contour(c, draw(gen.rotations), x, y)


@st.composite
def rooms(draw):
    """Rooms in a row, each open to the next through a narrow door: the area falls apart as it shrinks."""
    n, d = draw(st.integers(2, 6)), draw(grid(0.25, 3, 0.25))
    up, down, x = [], [], 0
    for i in range(n):
        w, h = draw(grid(5, 12, 1)), draw(grid(3, 6, 0.5))
        up += [(x, h), (x + w, h)]
        down += [(x, -h), (x + w, -h)]
        if i < n - 1:
            e = d if draw(st.integers(0, 3)) else draw(grid(0.25, 3, 0.25))
            up += [(x + w, e), (x + w + 1, e)]
            down += [(x + w, -e), (x + w + 1, -e)]
        x += w + 1
    return sh.polygon_contour([(round(px - x / 2, 3), y) for px, y in down + up[::-1]])


@st.composite
def area(draw, depth, holes=3, place=None):
    """A face at a depth with islands that leave it valid."""
    if draw(st.integers(0, 9)) == 5:
        c = sh.transform_contour(draw(rooms()), draw(gen.rotations), *(place or (0, 0)))
    else:
        c = sh.transform_contour(draw(gen.contours(place=False)), draw(gen.rotations), *(place or (0, 0)), scale=0.6)
    f = {"z": -depth, "outer": c}
    poly = sh.contour_polygon(c, 1e-3)
    inners, taken = [], None
    for _ in range(draw(st.integers(0, holes))):
        i = draw(island(poly))
        p = sh.contour_polygon(i, 1e-3)
        if p.is_valid and poly.is_valid and poly.buffer(-0.2).contains(p) and (taken is None or taken.distance(p) > 0.2):
            inners.append(i)
            taken = p if taken is None else taken.union(p)
    if inners:
        f["inners"] = inners
    return f


@st.composite
def large(draw):
    """A large plain area, straight-edged: many rings."""
    w, h = draw(grid(30, 160, 2)), draw(grid(20, 120, 2))
    kind = draw(st.sampled_from(["rect", "tri", "ell", "u"]))
    if kind == "rect":
        pts = [(0, 0), (w, 0), (w, h), (0, h)]
    elif kind == "tri":
        pts = [(0, 0), (w, 0), (draw(grid(0, 60, 2)), h)]
    elif kind == "ell":
        pts = [(0, 0), (w, 0), (w, h / 2), (w / 2, h / 2), (w / 2, h), (0, h)]
    else:
        pts = [(0, 0), (w, 0), (w, h), (w - w / 3, h), (w - w / 3, h / 3), (w / 3, h / 3), (w / 3, h), (0, h)]
    c = sh.transform_contour(sh.polygon_contour([(round(x, 3), round(y, 3)) for x, y in pts]), draw(gen.rotations), 0, 0)
    spec = {"plane": draw(gen.planes()), "mode": draw(gen.face_modes), "dia": draw(st.sampled_from([1, 0.75, 1.5, 2])), "large": True,
            "faces": [{"z": -draw(grid(0.5, 6, 0.25)), "outer": c}], "stepover": draw(st.sampled_from([None, 0.3, [0, 0.2], 0.5]))}
    if draw(st.booleans()):
        p = sh.contour_polygon(c, 1e-3).representative_point()
        q = sh.contour_polygon(c, 1e-3)
        i = sh.transform_contour(sh.polygon_contour([(-2, -1), (2, -1), (2, 1), (-2, 1)]), 0, round(p.x, 2), round(p.y, 2))
        if q.buffer(-0.2).contains(sh.contour_polygon(i, 1e-3)):
            spec["faces"][0]["inners"] = [i]
    return spec


@st.composite
def specs(draw, stepdown=False, max_stepover=None, faces=3):
    if not stepdown and draw(st.integers(0, 15)) == 7:
        return draw(large())
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3][: 3 + faces]))
    depth0 = draw(grid(0.5, 6, 0.25))
    fs = []
    for i in range(n):
        # the same depth, or a step
        d = depth0 if draw(st.booleans()) else draw(grid(0.5, 6, 0.25))
        place = (0, 0) if i == 0 else draw(st.sampled_from([(0, 0), (3, 1.5), (12, 0), (0, -7.5), (30, 0), (40, 40), (-15.5, 4)]))
        fs.append(draw(area(d, 3 if n == 1 else 1, place)))
    spec = {"plane": draw(gen.planes()), "mode": draw(gen.face_modes) if n == 1 else draw(st.sampled_from(["direct", "moved", "top", "bottom"])),
            "dia": draw(grid(1.5, 5, 0.25)), "faces": fs}
    if draw(st.integers(0, 2)) == 0:
        av = []
        for _ in range(draw(st.integers(1, 2))):
            f = draw(area(draw(st.one_of(st.just(0.0), grid(0, 6, 0.25))), 1, draw(st.sampled_from([(0, 0), (4, 2), (-6, 1), (0, 9), (12, -3)]))))
            av.append(f)
        spec["avoid"] = av
    if draw(st.booleans()):
        spec["outer_offset"] = draw(st.sampled_from(OFFS))
    if draw(st.booleans()):
        spec["inner_offset"] = draw(st.sampled_from([None, 1, 0, 0.5, 1.5, [1, 0.5], [0, 1], -0.25, [0, -0.3], [0, -0.5]]))
    if draw(st.integers(0, 2)) == 0:
        spec["avoid_outer_offset"] = draw(st.sampled_from([None, 1, 0, 0.5, 1.5, [1, 0.25], [0, -0.25]]))
    so = [None, None, 1, 0.5, 0.75, 0.9, 0.3, [0, 0.8], [0.5, 0.1]]
    if not max_stepover:
        so += [1.25, 1.5, 1.9, [1, 0.5]]
    spec["stepover"] = draw(st.sampled_from(so))
    if stepdown:
        spec["stepdown"] = draw(st.sampled_from([None, 0.5, 0.75, 1, 1.1, 1.5, 2, 0.3, 7]))
    return spec


def amount(r, v, default):
    if v is None:
        v = default
    return r * v[0] + v[1] if isinstance(v, (list, tuple)) else r * v


class Regions:
    """Where the tool centre may go at a depth, as the interface defines it."""

    def __init__(self, spec):
        r = self.r = spec["dia"] / 2
        avoid = spec.get("avoid", [])
        self.oo = amount(r, spec.get("outer_offset"), 0 if avoid else -1)
        self.io = amount(r, spec.get("inner_offset"), 1)
        self.ao = amount(r, spec.get("avoid_outer_offset"), 1)
        self.step = amount(r, spec.get("stepover"), 0.5)
        self.faces = [(f["z"], self.poly(f["outer"]), [self.poly(i) for i in f.get("inners", [])]) for f in spec["faces"]]
        self.avoid = [(f["z"], self.poly(f["outer"])) for f in avoid]
        self.cache = {}

    @staticmethod
    def poly(c):
        p = sh.contour_polygon(c)
        if not p.is_valid:
            raise Reject("self-intersecting outline")
        return p

    @property
    def depths(self):
        return sorted({f[0] for f in self.faces}, reverse=True)

    def at(self, z, slack=0.0, own=False):
        """Allowed centres for a cut at z: faces at z (or below it, unless only its own), without what is to be avoided at z or above it.

        slack moves every limit by as much, out of the region if positive."""
        key = (round(z, 3), slack, own)
        if key not in self.cache:
            z = key[0]
            regs = []
            for d, outer, inners in self.faces:
                if d <= z + 0.0006 and (not own or d >= z - 0.0006):
                    reg = sh.grow(outer, self.oo + slack, 96)
                    for i in inners:
                        reg = reg.difference(sh.grow(i, self.io - slack, 96))
                    regs.append(reg)
            reg = shapely.union_all(regs)
            for d, p in self.avoid:
                if d >= z - 0.0006:
                    reg = reg.difference(sh.grow(p, self.ao - slack, 96))
            self.cache[key] = reg
        return self.cache[key]


def build(spec, **kw):
    from cq_cam import Job

    plane = sh.make_plane(spec["plane"])
    job = Job(plane, 300, tool_diameter=spec["dia"])
    args = {}
    for k in ("outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset", "stepover", "stepdown"):
        v = spec.get(k)
        if v is not None:
            args[k] = tuple(v) if isinstance(v, list) else v
    args.update(kw)
    faces = [sh.make_face(f, plane, spec["mode"]) for f in spec["faces"]]
    if spec.get("avoid"):
        args["avoid_areas"] = [sh.make_face(f, plane, spec["mode"]) for f in spec["avoid"]]
    return job.pocket(faces if len(faces) > 1 else faces[0], **args)


def cut_lines(moves):
    """[(z, LineString or Point)] of what is cut, pass by pass, split where the depth changes."""
    out = []
    for p in paths.passes(moves):
        cur = [p.pts[0]]
        for q in p.pts[1:]:
            if abs(q[2] - cur[-1][2]) > 1e-9:
                if q[:2] != cur[-1][:2]:
                    # a ramp: count it at its lowest
                    out.append((min(q[2], cur[-1][2]), sh.path_line([cur[-1][:2], q[:2]])))
                out.append((cur[0][2], sh.path_line([c[:2] for c in cur])))
                cur = [q]
            else:
                cur.append(q)
        out.append((cur[0][2], sh.path_line([c[:2] for c in cur])))
    return out
