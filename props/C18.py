"""A surface job keeps to its area and follows the drop cutter."""
import math
import sys
import types

import numpy as np
import shapely
from hypothesis import strategies as st

from vlib import gen, jobs, oracle, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated areas (flat faces with islands, several at once, ramps and roofs), cutters, offsets, stepovers, step downs, interpolation steps, heights and job planes; the drop cutter is a "
        "stand-in that answers with a generated height field; the program is compared with area and height field; non-trivial: at least three lines are cut")
QUICK = (160, 60)
THOROUGH = (9000, 700)
TOL = 0.0012
XYTOL = 0.004


# ---------------------------------------------------------------- the drop cutter
class Field:
    """The height field the stand-in answers with, and what it was asked."""

    def __init__(self):
        self.start()

    def start(self, h=None):
        self.h, self.cutters, self.triangles, self.points = h, [], [], []


FIELD = Field()


def stub():
    if getattr(sys.modules.get("opencamlib"), "verif", False):
        return sys.modules["opencamlib"]

    class MillingCutter:
        def __init__(self, d, length):
            self.d, self.length = d, length

        def getDiameter(self):
            return self.d

        getRadius = lambda self: self.d / 2
        getLength = lambda self: self.length

    class Point:
        def __init__(self, x=0.0, y=0.0, z=0.0):
            self.x, self.y, self.z = float(x), float(y), float(z)

    class Triangle:
        def __init__(self, a, b, c):
            self.p = (a, b, c)

        getPoints = lambda self: list(self.p)

    class STLSurf:
        def __init__(self):
            self.triangles = []

        def addTriangle(self, t):
            self.triangles.append(t)

    class BatchDropCutter:
        def __init__(self):
            self.points, self.surf, self.cutter = [], None, None

        def setCutter(self, c):
            self.cutter = c

        def setSTL(self, s):
            self.surf = s

        def appendPoint(self, p):
            self.points.append(CLPoint(p.x, p.y, p.z))

        def setThreads(self, n):
            pass

        def setSampling(self, s):
            pass

        def run(self):
            FIELD.cutters.append(self.cutter)
            FIELD.triangles.append([[(p.x, p.y, p.z) for p in t.p] for t in self.surf.triangles])
            for p in self.points:
                FIELD.points.append((p.x, p.y, p.z))
                p.z = max(p.z, FIELD.h(p.x, p.y))

        def getCLPoints(self):
            return self.points

    class CLPoint(Point):
        pass

    m = types.ModuleType("opencamlib")
    m.verif = True
    for name in ("CylCutter", "BallCutter"):
        setattr(m, name, type(name, (MillingCutter,), {}))
    for c in (MillingCutter, Point, CLPoint, Triangle, STLSurf, BatchDropCutter):
        setattr(m, c.__name__, c)
    m.ocl = m
    sys.modules["opencamlib"] = m
    return m


# ---------------------------------------------------------------- cases
@st.composite
def _flat(draw):
    """A flat face with an island or not."""
    kind = draw(st.sampled_from(["rect", "ortho", "regular", "star", "slot", "d", "round"]))
    if kind in ("slot", "d"):
        c = sh.slot_contour(draw(grid(6, 24, 0.5)), draw(grid(5, 10, 0.5))) if kind == "slot" else sh.d_contour(draw(grid(6, 15, 0.5)))
    elif kind == "round":
        w, h = draw(grid(10, 30, 0.5)), draw(grid(10, 30, 0.5))
        c = sh.rounded_contour([(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)], [draw(st.sampled_from([0, 1.5, 4])) for _ in range(4)])
    else:
        c = sh.polygon_contour(draw({"rect": gen.rects(8, 30), "ortho": gen.orthos(), "regular": gen.regulars(6, 20), "star": gen.stars(8, 22)}[kind]))
    f = {"z": -draw(grid(0.5, 9, 0.25)), "outer": c}
    if draw(st.booleans()):
        p = sh.contour_polygon(c).representative_point()
        w, h = draw(grid(1, 5, 0.5)), draw(grid(1, 5, 0.5))
        if draw(st.booleans()):
            hole = {"circle": [round(p.x, 2), round(p.y, 2), w / 2 + 0.5]}
        else:
            hole = sh.polygon_contour([(round(p.x, 2) + x * w / 2, round(p.y, 2) + y * h / 2) for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1))])
        f["inners"] = [hole]
    return f


@st.composite
def _spec(draw):
    kind = draw(st.sampled_from(["flat", "flat", "ramps", "two"]))
    rot = draw(st.sampled_from([0, 0, 0, 90, 17, 45, 123]))
    dx, dy = draw(gen.offsets2)
    s = {"kind": kind, "plane": draw(gen.planes()), "rot": rot, "d": [dx, dy], "mode": draw(st.sampled_from(["direct", "moved", "top", "bottom"]))}
    if kind == "ramps":
        n = draw(st.integers(1, 4))
        s["xs"] = [draw(grid(3, 9, 0.5)) for _ in range(n)]
        s["zs"] = [-draw(grid(0.5, 8, 0.25)) for _ in range(n + 1)]
        s["width"] = draw(grid(8, 24, 0.5))
        s["mode"] = draw(st.sampled_from(["direct", "moved"]))
    else:
        f = draw(_flat())
        s["faces"] = [f]
        if kind == "two":
            g = draw(_flat())
            b = sh.contour_polygon(f["outer"]).bounds
            c = sh.contour_polygon(g["outer"]).bounds
            s["faces"].append({"z": g["z"], "outer": sh.transform_contour(g["outer"], 0, b[2] - c[0] + draw(grid(4, 12, 0.5)), draw(grid(-9, 9, 0.5))),
                               })
    s["dia"] = draw(st.sampled_from([1, 1.5, 2, 3, 3.175]))
    s["outer"] = draw(st.sampled_from([-1, -0.5, -0.5, 0, 0, 0.5, None, [-0.5, -0.25], [0, 0.5]]))
    s["stepover"] = draw(st.sampled_from([None, 0.8, 0.5, 1, 0.3]))
    s["stepdown"] = draw(st.sampled_from([None, None, 1, 0.5, 2, 3.3, 20]))
    if s["stepdown"] and kind != "ramps" and draw(st.integers(0, 2)) == 0:
        # a hair deeper or less deep than a whole number of steps
        k, d = draw(st.integers(1, 4)), draw(st.sampled_from([0.02, -0.02, 0.0, 0.0004, 0.09]))
        s["faces"][0]["z"] = -round(k * s["stepdown"] + d, 4)
    s["istep"] = draw(st.sampled_from([None, 0.5, 1, 2.5]))
    s["bump"] = [draw(grid(0, 3, 0.25)), draw(grid(0.1, 1.5, 0.1)), draw(grid(0.1, 1.5, 0.1)), draw(st.sampled_from([-1, 0, 0.5, 1]))]
    s["job"] = draw(jobs.job_params(named=False, unit="METRIC"))
    s["via"] = draw(st.sampled_from(["list", "list", "workplane"]))
    return s


def strategy():
    return _spec()


def polyface(pts, plane):
    import cadquery as cq

    w = [sh.to_world(plane, *p) for p in pts]
    return cq.Face.makeFromWires(cq.Wire.makePolygon(w + [w[0]]))


def build(s, plane):
    """The faces, the area in plan as (outline, holes) and the terrain (None off the area)."""
    import cadquery as cq

    a = math.radians(s["rot"])
    ca, sa, (dx, dy) = math.cos(a), math.sin(a), s["d"]
    place = lambda x, y: (x * ca - y * sa + dx, x * sa + y * ca + dy)
    back = lambda x, y: ((x - dx) * ca + (y - dy) * sa, -(x - dx) * sa + (y - dy) * ca)
    if s["kind"] == "ramps":
        xs = [0.0]
        for w in s["xs"]:
            xs.append(xs[-1] + w)
        wd = s["width"]
        faces = []
        at = cq.Plane((0, 0, 0)) if s["mode"] == "moved" else plane
        for x0, x1, z0, z1 in zip(xs, xs[1:], s["zs"], s["zs"][1:]):
            q = [(x0, 0, z0), (x1, 0, z1), (x1, wd, z1), (x0, wd, z0)]
            f = polyface([(*place(x, y), z) for x, y, z in q], at)
            faces.append(f.moved(cq.Location(plane)) if s["mode"] == "moved" else f)
        outline = [place(x, y) for x, y in ((0, 0), (xs[-1], 0), (xs[-1], wd), (0, wd))]
        ground = lambda x, y: float(np.interp(back(x, y)[0], xs, s["zs"]))
        return faces, [(shapely.Polygon(outline), [])], ground, min(s["zs"]), lambda x, y: ground(x, y)
    faces, areas = [], []
    for f in s["faces"]:
        g = {**f, "outer": sh.transform_contour(f["outer"], s["rot"], dx, dy)}
        if "inners" in f:
            g["inners"] = [sh.transform_contour(i, s["rot"], dx, dy) for i in f["inners"]]
        faces.append(sh.make_face(g, plane, s["mode"]))
        areas.append((sh.contour_polygon(g["outer"], 1e-3), [sh.contour_polygon(i, 1e-3) for i in g.get("inners", [])], f["z"]))
    low = min(f["z"] for f in s["faces"])

    def ground(x, y):
        p = shapely.Point(x, y)
        return min((o.distance(p), z) for o, _, z in areas)[1]

    return faces, [(o, i) for o, i, _ in areas], ground, low, ground


def run_case(s):
    ocl = stub()
    plane = sh.make_plane(s["plane"])
    faces, areas, ground, low, solid = build(s, plane)
    for o, inn in areas:
        if not o.is_valid or any(not o.buffer(-0.5).contains(i) for i in inn):
            raise Reject("not a face")
    amp, kx, ky, lift = s["bump"]
    h = lambda x, y: min(-0.01, ground(x, y) + lift + amp * (1 + math.sin(kx * x) * math.cos(ky * y)) / 2)
    FIELD.start(h)
    dia = s["dia"]
    job = jobs.make_job(s["job"], plane)
    import cadquery as cq

    o = faces if s["via"] == "list" else cq.Workplane().newObject(faces)
    kw = {}
    if s["outer"] is not None:
        kw["outer_boundary_offset"] = tuple(s["outer"]) if isinstance(s["outer"], list) else s["outer"]
    for k, name in (("stepover", "stepover"), ("istep", "interpolation_step")):
        if s[k] is not None:
            kw[name] = s[k]
    if s["stepdown"] is not None:
        kw["stepdown"] = s["stepdown"]
    # what the centre is allowed
    mult, plus = (s["outer"] if isinstance(s["outer"], list) else (-1 if s["outer"] is None else s["outer"], 0))
    off = mult * dia + plus
    region, wide = [], []
    for outl, inn in areas:
        region.append(sh.grow(outl, off) if off else outl)
        wide.append(sh.grow(outl, off + XYTOL))
    region, wide = shapely.unary_union(region), shapely.unary_union(wide)
    if region.is_empty or region.area < 1:
        raise Reject("the tool does not fit")
    tool = ocl.CylCutter(dia, 15)
    new = job.surface3d(o=o, tool=tool, **kw)
    mach = oracle.parse(new.to_gcode())
    # the drop cutter is asked about the surface as it lies in the job plane, with the tool
    if any(c is not tool for c in FIELD.cutters) or not FIELD.cutters:
        raise Violation("cutter", f"{len(FIELD.cutters)} drop cutter runs, not all with the tool")
    want = sum(f.Area() for f in faces)
    for tris in FIELD.triangles:
        area = sum(np.linalg.norm(np.cross(np.subtract(b, a), np.subtract(c, a))) / 2 for a, b, c in tris)
        if abs(area - want) > 0.01 * want:
            raise Violation("surface", f"the drop cutter is given a surface of {area:.3f}, the faces have {want:.3f}")
        for t in tris:
            for x, y, z in t:
                if abs(z - solid(x, y)) > 1e-3 or not region_of(areas).dwithin(shapely.Point(x, y), 1e-3):
                    raise Violation("surface", f"the drop cutter is given ({x:.3f}, {y:.3f}, {z:.3f}), the surface is at {solid(x, y):.3f} there")
    # motion
    rapid, safe = jobs.heights_of(s["job"])
    step = dia * (0.8 if s["stepover"] is None else s["stepover"])
    istep = 0.5 if s["istep"] is None else s["istep"]
    cuts = {}
    lines = []
    prev = None
    for m in mach.moves:
        if m.kind == "home":
            prev = None
            continue
        where = f"{m.text!r} from {m.start}"
        if m.kind == "rapid":
            if m.start[:2] != m.end[:2] and (m.start[2] is None or min(m.start[2], m.end[2]) < rapid - TOL):
                raise Violation("rapid", f"{where} travels below {rapid}")
            if m.end[2] < safe - TOL:
                raise Violation("rapid", f"{where} goes below {safe}")
        elif m.kind == "feed":
            plunge = prev == "rapid" and m.start[:2] == m.end[:2]
            asked = s["job"].get("plunge_feed") or s["job"]["feed"] if plunge else s["job"]["feed"]
            if not oracle.same(m.feed, asked):
                raise Violation("feed", f"{where}: F{m.feed} in force, {asked} asked for")
            x, y, z = m.end
            if plunge:
                lines.append([m.end])
            elif prev == "rapid":
                raise Violation("entry", f"{where} enters the material sideways")
            else:
                lines[-1].append(m.end)
                if math.dist(m.start[:2], m.end[:2]) > istep + 0.002:
                    raise Violation("interpolation", f"{where} is longer than {istep}")
            hz = max(low, h(x, y))
            if z < hz - TOL - 0.001 * amp * (kx + ky) - slope(s) * 0.001:
                raise Violation("gouge", f"{where} goes to {z}, the drop cutter gives {hz:.4f}")
            cuts.setdefault((x, y), []).append(z)
        else:
            raise Violation("motion", f"{where} is a {m.kind}")
        prev = m.kind
    if not cuts:
        raise Violation("standing", "nothing is cut")
    pts = shapely.points(np.array(list(cuts)))
    d = shapely.distance(pts, wide)
    if d.max() > 0:
        i = int(d.argmax())
        raise Violation("outside", f"the tool centre is {d[i]:.4f} and more outside the area at {pts[i].wkt}")
    paths = [shapely.LineString([p[:2] for p in ln]) for ln in lines if len(ln) > 1]
    for p in paths:
        if (left := p.difference(wide)).length > 1e-3:
            raise Violation("outside", f"the path leaves the area by {left.length:.4f} around {shapely.get_coordinates(left)[0]}")
    # every point ends up at its height, in steps
    down = s["stepdown"]
    for (x, y), zs in cuts.items():
        hz = max(low, h(x, y))
        tol = TOL + 0.001 * (amp * (kx + ky) + slope(s))
        if abs(min(zs) - hz) > tol:
            raise Violation("standing", f"at ({x}, {y}) the lowest cut is {min(zs)}, the drop cutter gives {hz:.4f}")
        if down:
            at = 0.0
            for z in zs:
                if z < at - down - tol:
                    raise Violation("deep", f"at ({x}, {y}) cut at {z} after {at}, step down {down}")
                at = min(at, z)
        elif max(zs) > hz + tol:
            raise Violation("deep", f"at ({x}, {y}) cut at {max(zs)} without a step down, the drop cutter gives {hz:.4f}")
    # lines, no further apart than the stepover, over the whole area
    allc = shapely.unary_union(paths).buffer(0.004)
    n = 0
    for piece in sh.polys(region):
        inner = piece.buffer(-0.002)
        x0, y0, x1, y1 = piece.bounds
        full = []
        for y in sorted({y for _, y in cuts if y0 <= y <= y1}):
            chord = shapely.intersection(inner, shapely.LineString([(x0 - 1, y), (x1 + 1, y)]))
            if chord.difference(allc).length < 0.02:
                full.append(y)
        marks = [y0] + full + [y1]
        gap = max(b - a for a, b in zip(marks, marks[1:]))
        if gap > step + 0.003 or not full:
            raise Violation("stepover", f"lines at {full} of an area from {y0:.3f} to {y1:.3f}: {gap:.4f} apart, stepover {step:.4f}")
        n = max(n, len(full))
    return {"nontrivial": n >= 3, "classes": [s["kind"], f"stepdown:{bool(down)}", f"offset:{s['outer']}", f"holes:{any(i for _, i in areas)}"],
            "count": {"cuts": len(cuts)}}


def region_of(areas):
    return shapely.unary_union([o.difference(shapely.unary_union(i)) if i else o for o, i in areas])


def slope(s):
    if s["kind"] != "ramps":
        return 0
    return max(abs(b - a) / w for a, b, w in zip(s["zs"], s["zs"][1:], s["xs"]))
