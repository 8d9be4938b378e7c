"""The geometry helpers agree with exact geometry."""
import math
from fractions import Fraction

import numpy as np
import shapely
from hypothesis import strategies as st

from vlib import gen, paths, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated points, segments, paths, sets of overlapping contours with holes and trees of loops, degenerate, collinear and touching ones included, given to "
        "the distance, simplification, offset, union, difference and sequencing functions and compared with exact arithmetic, shapely and brute force; "
        "non-trivial: the input is not empty and the result is not the input")
QUICK = (3000, 60)
THOROUGH = (60000, 700)

coord = st.one_of(grid(-5, 5, 0.5), grid(-60, 60, 0.001), st.sampled_from([0, 1e-3, -1e-3, 1000.125, -250.5]))
point = st.tuples(coord, coord)


@st.composite
def ring(draw, lo=-12, hi=12):
    """A simple closed ring on a coarse grid, so that rings touch and share edges."""
    if draw(st.booleans()):
        x, y = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
        w, h = draw(st.integers(1, 12)), draw(st.integers(1, 12))
        pts = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    else:
        n = draw(st.integers(3, 7))
        cx, cy = draw(grid(lo, hi, 0.5)), draw(grid(lo, hi, 0.5))
        pts = []
        for i in range(n):
            r = draw(grid(1, 9, 0.25))
            a = 2 * math.pi * i / n
            pts.append((round(cx + r * math.cos(a), 3), round(cy + r * math.sin(a), 3)))
    k = draw(st.integers(0, len(pts) - 1))
    pts = pts[k:] + pts[:k]
    if draw(st.booleans()):
        pts = pts[::-1]
    return [list(map(float, p)) for p in pts + pts[:1]]


@st.composite
def _spec(draw):
    kind = draw(st.sampled_from(["segment", "path", "path", "simplify", "offset", "union", "difference", "faces", "tree", "offset-size"]))
    s = {"kind": kind}
    if kind == "segment":
        a = draw(point)
        b = draw(st.one_of(point, point, st.just(a), st.tuples(st.just(a[0]), coord)))
        p = draw(st.one_of(point, point, st.just(a), st.just(b), st.just(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))))
        s["points"] = [list(p), list(a), list(b)]
    elif kind == "path":
        pts = draw(st.lists(point, min_size=2, max_size=9))
        if draw(st.integers(0, 3)) == 0:
            pts.insert(draw(st.integers(0, len(pts))), draw(st.sampled_from(pts)))
        if draw(st.booleans()):
            pts.append(pts[0])
        s["path"] = [list(p) for p in pts]
        s["point"] = list(draw(st.one_of(point, st.sampled_from(pts))))
    elif kind == "simplify":
        n = draw(st.integers(3, 40))
        amp = draw(st.sampled_from([0.0, 0.0004, 0.002, 0.02, 1.0]))
        f = draw(st.integers(1, 5))
        s["path"] = [[round(i * 0.1 * f, 4), round(amp * draw(st.integers(-3, 3)) + (0.01 * f * i) ** 2, 5)] for i in range(n)]
        s["tolerance"] = draw(st.sampled_from([0.0005, 0.005, 0.05]))
    elif kind == "offset":
        s["contour"] = draw(gen.contours(place=True))
        s["offset"] = draw(st.sampled_from([0.5, -0.5, 1, -1, 2.25, -2.25, 5, -5]))
        s["precision"] = draw(st.sampled_from([2, 3, 3]))
        s["reverse"] = draw(st.booleans())
        s["start"] = draw(st.integers(0, 5))
    elif kind == "offset-size":
        s["radius"] = draw(grid(0, 10, 0.05))
        s["offset"] = draw(st.one_of(st.none(), grid(-3, 3, 0.05), st.tuples(grid(-3, 3, 0.05), grid(-5, 5, 0.05)).map(list)))
        s["default"] = draw(st.one_of(st.none(), grid(-3, 3, 0.05)))
    elif kind == "tree":
        s["branches"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=25))
    else:
        s["a"] = draw(st.lists(ring(), min_size=1, max_size=4))
        s["b"] = draw(st.lists(ring(), min_size=0, max_size=3))
        s["holes"] = [draw(st.lists(st.tuples(grid(0.1, 0.8, 0.1), grid(0.1, 0.8, 0.1)), max_size=2)) for _ in s["a"]]
        s["depth"] = -draw(grid(0, 9, 0.25))
    return s


def strategy():
    return _spec()


def exact_segment(p, a, b):
    """Squared distance from p to the segment, and the closest point, in rationals."""
    p, a, b = ([Fraction(v) for v in q] for q in (p, a, b))
    d = [b[0] - a[0], b[1] - a[1]]
    l2 = d[0] ** 2 + d[1] ** 2
    t = Fraction(0) if l2 == 0 else ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / l2
    t = max(Fraction(0), min(Fraction(1), t))
    c = (a[0] + t * d[0], a[1] + t * d[1])
    return float((p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2), (float(c[0]), float(c[1])), float(t)


def near(a, b, scale):
    return abs(a - b) <= 1e-9 * (1 + scale)


def run_case(spec):
    try:
        return globals()["run_" + spec["kind"].replace("-", "_")](spec)
    except ImportError as e:
        # a helper that was renamed or taken away is not one that is wrong
        raise Reject(f"no {e.name_from if hasattr(e, 'name_from') else e}") from e


def result(spec, nontrivial, *classes):
    return {"nontrivial": bool(nontrivial), "classes": [spec["kind"], *classes], "count": {}}


def run_segment(spec):
    from cq_cam.utils.utils import dist_to_segment_squared

    p, a, b = (tuple(q) for q in spec["points"])
    d2, c = dist_to_segment_squared(p, a, b)
    e2, ec, _ = exact_segment(p, a, b)
    size = max(map(abs, (*p, *a, *b)))
    if not near(d2, e2, size**2) or not near(c[0], ec[0], size) or not near(c[1], ec[1], size):
        raise Violation("segment", f"the distance from {p} to {a}-{b} comes out as {d2}, {c}, it is {e2}, {ec}")
    return result(spec, True, f"degenerate:{a == b}")


def run_path(spec):
    from cq_cam.utils.geometry_op import distance_to_path

    pts = [tuple(q) for q in spec["path"]]
    p = tuple(spec["point"])
    d2, c, (i, t) = distance_to_path(p, pts)
    best = min(exact_segment(p, a, b)[0] for a, b in zip(pts, pts[1:]))
    size = max(abs(v) for q in (*pts, p) for v in q)
    if not near(d2, best, size**2):
        raise Violation("distance", f"the distance squared from {p} to {pts} comes out as {d2}, it is {best}")
    if not near(math.dist(c, p) ** 2, d2, size**2):
        raise Violation("closest", f"{c} is not at the distance {math.sqrt(d2)} from {p}")
    if not 0 <= i < len(pts) - 1 or not -1e-9 <= t <= 1 + 1e-9:
        raise Violation("position", f"position {(i, t)} on a path of {len(pts)} points")
    a, b = pts[i], pts[i + 1]
    at = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    if math.dist(at, c) > 1e-6 * (1 + size):
        raise Violation("position", f"position {(i, t)} of {pts} is {at}, the closest point is given as {c}")
    return result(spec, len(pts) > 2, f"closed:{pts[0] == pts[-1]}")


def run_simplify(spec):
    from cq_cam.utils.geometry_op import simplify_path

    pts = [tuple(p) for p in spec["path"]]
    tol = spec["tolerance"]
    out = [tuple(p) for p in simplify_path(list(pts), tol)]
    if out[0] != pts[0] or out[-1] != pts[-1]:
        raise Violation("simplify", f"the ends of {pts} become {out[0]}, {out[-1]}")
    it = iter(pts)
    if not all(p in it for p in out):
        raise Violation("simplify", f"{out} is not made of the points of {pts} in order")
    off = shapely.distance(shapely.points(pts), shapely.LineString(out)).max()
    if off > tol * 1.001:
        raise Violation("simplify", f"{pts} is moved by {off} with tolerance {tol}")
    return result(spec, len(out) < len(pts))


def run_offset(spec):
    from cq_cam.utils.geometry_op import offset_path

    poly = sh.contour_polygon(spec["contour"])
    pts = [tuple(p[:2]) for p in poly.exterior.coords][:-1]
    k = spec["start"] % len(pts)
    pts = pts[k:] + pts[:k]
    if spec["reverse"]:
        pts = pts[::-1]
    before = list(pts + pts[:1])
    given = list(before)
    out = offset_path(given, spec["offset"], spec["precision"])
    if given != before:
        raise Violation("input", "the path given was changed")
    for p in out:
        if math.dist(p[0], p[-1]) > 1e-9:
            raise Violation("open", f"an offset path does not close: {p[0]}, {p[-1]}")
    n = paths.check_offset_path([shapely.LineString(p) for p in out], poly, spec["offset"], 2.2 * 10 ** -spec["precision"])
    return result(spec, n > 0, "in" if spec["offset"] < 0 else "out")


def run_offset_size(spec):
    from cq_cam.utils.geometry_op import calculate_offset

    r, o, d = spec["radius"], spec["offset"], spec["default"]
    got = calculate_offset(r, tuple(o) if isinstance(o, list) else o, d)
    if o is None:
        want = r * (d or 0)
    elif isinstance(o, list):
        want = r * o[0] + o[1]
    else:
        want = r * o
    if abs(got - want) > 1e-9:
        raise Violation("size", f"the offset {o} (default {d}) of radius {r} comes out as {got}, it is {want}")
    return result(spec, o is not None)


def run_tree(spec):
    from cq_cam.utils.tree import Tree

    class Loop:
        pass

    root = Loop()
    tree = Tree(root)
    parent, children = {root: None}, {root: []}
    todo = list(spec["branches"])
    while True:
        try:
            node = tree.next_unlocked
        except StopIteration:
            break
        n = todo.pop(0) if todo else 0
        if n == 0:
            node.lock()
            continue
        new = [Loop() for _ in range(n)]
        node.branch(new)
        children[node.obj] += new
        for c in new:
            parent[c], children[c] = node.obj, []
    seqs = tree.sequences
    flat = [x for s in seqs for x in s]
    if sorted(map(id, flat)) != sorted(map(id, parent)):
        raise Violation("tree", f"{len(parent)} loops in branches {spec['branches']}, {len(flat)} in the sequences, {len(set(map(id, flat)))} different ones")
    for s in seqs:
        if not s or children[s[0]] or any(parent[a] is not b for a, b in zip(s, s[1:])):
            raise Violation("tree", f"a sequence of {len(s)} does not lead from an innermost loop outwards (branches {spec['branches']})")
    return result(spec, len(seqs) > 1)


def check_faces(faces, want, depth):
    """The faces are valid, apart and make up the wanted area."""
    total = []
    for f in faces:
        if f.depth != depth:
            raise Violation("depth", f"a face at {f.depth}, {depth} asked for")
        for r in [f.outer, *f.inners]:
            if len(r) < 4 or math.dist(r[0], r[-1]) > 1e-9:
                raise Violation("open", f"a contour of a result does not close: {r}")
        p = shapely.Polygon(f.outer, f.inners)
        total.append(p if p.is_valid else p.buffer(0))
    got = shapely.union_all(total) if total else shapely.Polygon()
    diff = got.symmetric_difference(want)
    if diff.area > 1e-5:
        raise Violation("area", f"{diff.area:.6f} mm2 around {diff.representative_point().wkt} is in the result or the expected area but not in both")
    if abs(sum(p.area for p in total) - got.area) > 1e-5:
        raise Violation("overlap", f"the faces overlap by {sum(p.area for p in total) - got.area:.6f} mm2")
    return got


def union(rings):
    return shapely.union_all([shapely.Polygon(r).buffer(0) for r in rings]) if rings else shapely.Polygon()


def as_paths(rings):
    return [[tuple(p) for p in r] for r in rings]


def run_union(spec):
    from cq_cam.utils.geometry_op import union_poly_tree

    a, b = as_paths(spec["a"]), as_paths(spec["b"])
    got = check_faces(union_poly_tree(a, b, spec["depth"]), union(spec["a"] + spec["b"]), spec["depth"])
    return result(spec, len(a) + len(b) > 1, f"parts:{len(sh.polys(got))}")


def run_difference(spec):
    from cq_cam.utils.geometry_op import difference_poly_tree

    want = union(spec["a"]).difference(union(spec["b"]))
    got = check_faces(difference_poly_tree(as_paths(spec["a"]), as_paths(spec["b"]), spec["depth"]), want, spec["depth"])
    return result(spec, 0 < got.area < union(spec["a"]).area, f"holes:{sum(len(p.interiors) for p in sh.polys(got))}")


def run_faces(spec):
    from cq_cam.utils.geometry_op import PathFace, union_polyfaces

    faces, want = [], []
    for i, (r, hs) in enumerate(zip(spec["a"], spec["holes"])):
        p = shapely.Polygon(r)
        c = p.representative_point()
        holes = []
        for j, (w, h) in enumerate(hs[:1] if p.area < 4 else hs):
            room = p.exterior.distance(c) * 0.7
            x = c.x + (j - 0.5) * room * 0.9 if len(hs) > 1 else c.x
            hole = shapely.box(x - w * room / 2.5, c.y - h * room / 2, x + w * room / 2.5, c.y + h * room / 2)
            if p.contains(hole) and not any(hole.intersects(shapely.Polygon(q)) for q in holes):
                k = list(hole.exterior.coords)
                holes.append(k if (i + j) % 2 else k[::-1])
        faces.append(PathFace([tuple(q) for q in r], [list(h) for h in holes], spec["depth"]))
        want.append(shapely.Polygon(r, holes).buffer(0))
    check_faces(union_polyfaces(faces, spec["depth"]), shapely.union_all(want), spec["depth"])
    return result(spec, len(faces) > 1, f"holes:{sum(len(f.inners) for f in faces)}")
