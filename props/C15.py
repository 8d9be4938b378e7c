"""The program depends only on the shapes relative to the job plane."""
import math

import shapely
from hypothesis import strategies as st

from vlib import gen, jobs, oracle, paths, pockets, shapes as sh
from vlib.core import Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated jobs (profiles, wire profiles, pockets with islands and avoid areas, drilling) built once on the world's own plane and once after a generated motion: "
        "job plane and shapes moved together anywhere in space, shapes turned, mirrored or shifted within the plane, or the plane alone shifted; "
        "non-trivial: the motion is not the identity and something is cut")
QUICK = (150, 60)
THOROUGH = (9000, 800)


@st.composite
def _spec(draw):
    kind = draw(st.sampled_from(["space", "space", "space", "turn", "plane"]))
    ops = draw(st.lists(jobs.small_op(), min_size=1, max_size=2))
    for op in ops:
        op.pop("tool", None)
        if op.get("stepover") == 1.5:
            # beyond the tool radius, what is left standing depends on the links between the loops
            op["stepover"] = 0.7
        if op.get("tabs", {}).get("kind") == "edge":
            # no edge is a whole number of spacings long, which would leave their number to rounding
            op["tabs"]["spacing"] = 3.9371
        if op["op"] == "pocket" and draw(st.booleans()):
            op["avoid"] = [draw(jobs.small_face(hole=False))]
            op["avoid"][0]["z"] = 0.0
    s = {"kind": kind, "ops": ops, "dia": draw(st.sampled_from([1, 1.5, 0.75, 1.25])), "mode": draw(st.sampled_from(["direct", "moved"]))}
    if kind == "space":
        s["plane"] = draw(gen.planes())
        return s
    for op in ops:
        op.pop("tabs", None)
        op.pop("stepdown", None)
    if kind == "turn":
        s["rot"] = draw(st.sampled_from([90, 180, 270, 30, 45, 73, 199, 0]))
        s["mirror"] = draw(st.booleans())
        s["shift"] = [draw(grid(-60, 60, 0.5)), draw(grid(-60, 60, 0.5))]
    else:
        s["plane"] = draw(gen.planes())
        s["shift"] = [draw(grid(-60, 60, 0.5)), draw(grid(-60, 60, 0.5)), draw(grid(0, 10, 0.25))]
    return s


def strategy():
    return _spec()


def motion(spec):
    """(x, y) -> (x, y) in the job plane, and the change of depth."""
    if spec["kind"] == "space":
        return lambda p: p, 0.0
    if spec["kind"] == "plane":
        dx, dy, dz = spec["shift"]
        return lambda p: (p[0] - dx, p[1] - dy), -dz
    co, si = math.cos(math.radians(spec["rot"])), math.sin(math.radians(spec["rot"]))
    dx, dy = spec["shift"]

    def f(p):
        x, y = (-p[0] if spec["mirror"] else p[0]), p[1]
        return x * co - y * si + dx, x * si + y * co + dy

    return f, 0.0


def moved_op(spec, op):
    if spec["kind"] != "turn":
        return op
    t = lambda c: sh.transform_contour(c, spec["rot"], *spec["shift"], mirror=spec["mirror"])
    out = dict(op)
    for k in ("faces", "avoid"):
        if k in op:
            out[k] = [{**f, "outer": t(f["outer"]), **({"inners": [t(i) for i in f["inners"]]} if "inners" in f else {})} for f in op[k]]
    if "points" in op:
        f, _ = motion(spec)
        out["points"] = [list(f(p)) for p in op["points"]]
    return out


def build(spec, moved):
    import cadquery as cq
    from cq_cam import Job

    if not moved:
        plane = job_plane = sh.make_plane(sh.XY)
    elif spec["kind"] == "space":
        plane = job_plane = sh.make_plane(spec["plane"])
    elif spec["kind"] == "turn":
        plane = job_plane = sh.make_plane(sh.XY)
    else:
        plane = sh.make_plane(spec["plane"])
        o = sh.to_world(plane, *spec["shift"])
        job_plane = cq.Plane(o.toTuple(), plane.xDir.toTuple(), plane.zDir.toTuple())
    job = Job(job_plane, 300, tool_diameter=spec["dia"])
    for op in spec["ops"]:
        job = jobs.apply_op(job, moved_op(spec, op) if moved else op, plane, spec["mode"])
    return job


def alike(a, b):
    """The same moves to the last digit but one."""
    if len(a) != len(b):
        return False
    for m, n in zip(a, b):
        if m.kind != n.kind or any((x is None) != (y is None) or x is not None and abs(x - y) > 0.0021 for x, y in zip(m.end, n.end)):
            return False
        if m.kind in ("cw", "ccw") and math.dist(m.center, n.center) > 0.006:
            return False
    return True


def by_depth(moves):
    out = {}
    for z, ln in pockets.cut_lines(moves):
        for k in out:
            if abs(k - z) < 0.0021:
                out[k].append(ln)
                break
        else:
            out[z] = [ln]
    return out


def far(a, b):
    """Largest distance of the lines a from the lines b, and where."""
    u = shapely.union_all(b)
    pts = [p for ln in a for p in paths.samples(ln, max(0.1, ln.length / 200))]
    d = shapely.distance(u, pts)
    i = int(d.argmax())
    return float(d[i]), pts[i]


def run_case(spec):
    one, two = build(spec, False), build(spec, True)
    f, dz = motion(spec)
    ident = spec["kind"] == "space" and spec["plane"] == sh.XY
    cut = exact = 0
    for op, o1, o2 in zip(spec["ops"], one.operations, two.operations):
        m1, m2 = paths.op_moves(o1), paths.op_moves(o2)
        cut += any(m.is_cut for m in m1)
        if spec["kind"] == "space" and alike(m1, m2):
            exact += 1
            continue
        if op["op"] == "drill":
            holes = lambda ms: [(m.end[0], m.end[1], m.end[2]) for m in ms if m.is_cut]
            h1 = [(*f(h[:2]), h[2]) for h in holes(m1)]
            h2 = holes(m2)
            if spec["kind"] == "plane":
                h2 = [(h[0], h[1], h[2]) for h in h2]
            if len(h1) != len(h2) or any(min(math.dist(a, b) for b in h2) > 0.003 for a in h1):
                raise Violation("moved", f"holes at {sorted(h1)[:4]} become {sorted(h2)[:4]}")
            continue
        d1 = {z + dz: [shapely.transform(ln, lambda c: _apply(f, c)) for ln in lns] for z, lns in by_depth(m1).items()}
        d2 = by_depth(m2)
        for z in d1:
            if not any(abs(z - y) < 0.0021 for y in d2):
                raise Violation("moved", f"{op['op']} cuts at {sorted(d1)} become cuts at {sorted(d2)}")
        if len(d1) != len(d2):
            raise Violation("moved", f"{op['op']} cuts at {sorted(d1)} become cuts at {sorted(d2)}")
        for z, a in d1.items():
            b = next(v for y, v in d2.items() if abs(z - y) < 0.0021)
            if op["op"] == "pocket":
                # loops may start elsewhere, so the links differ: what is cleared counts
                r = spec["dia"] / 2
                sa, sb = sh.swept(a, r, 16), sh.swept(b, r, 16)
                for x, y, w in ((sa, sb, "no longer"), (sb, sa, "newly")):
                    left = x.difference(y.buffer(0.006, quad_segs=4))
                    if left.area > 1e-4:
                        raise Violation("moved", f"pocket: {left.area:.4f} mm2 {w} cut at {z} around {left.representative_point().wkt}")
                continue
            for x, y, w in ((a, b, "no longer"), (b, a, "newly")):
                d, p = far(x, y)
                if d > 0.006:
                    raise Violation("moved", f"{op['op']}: {w} cut at {p.wkt}, z {z} ({d:.4f} from the nearest cut)")
    return {"nontrivial": bool(cut) and not ident, "classes": [spec["kind"]] + [op["op"] for op in spec["ops"]] + (["exact"] if exact else []), "count": {"ops": len(spec["ops"])}}


def _apply(f, c):
    import numpy as np

    return np.array([f(p) for p in c])
