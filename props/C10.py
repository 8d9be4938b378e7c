"""Tabs leave material standing and never change the path in plan."""
import math

import numpy as np
import shapely
from hypothesis import strategies as st

from vlib import gen, paths, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated contours, offsets, depths, step downs and tabs (counted along the wire or spaced along edges, wide, overlapping, wrapping round the start, only on "
        "straight or round edges) on generated job planes; every pass is compared with the same pass without tabs and the stretches held up with "
        "those the tabs ask for; non-trivial: at least two tabs in a pass")
QUICK = (350, 150)
THOROUGH = (9000, 800)


@st.composite
def _spec(draw):
    kind = draw(st.sampled_from(["wire", "wire", "face"]))
    c = draw(gen.contours())
    depth = draw(grid(0.5, 10, 0.25))
    f = {"z": -depth, "outer": c}
    spec = {"kind": kind, "plane": draw(gen.planes()), "dia": draw(grid(0.5, 5, 0.25)), "offset": draw(st.sampled_from([1, 1, 1, -1, -1, 0, 0.5])),
            "mode": draw(gen.face_modes if kind == "face" else gen.wire_modes), "faces": [f],
            "step": draw(st.sampled_from([None, None, 0.5, 0.75, 1, 2.5])) if depth <= 6 else None}
    if kind == "face" and draw(st.booleans()):
        p = sh.contour_polygon(c).representative_point()
        h = {"circle": [round(p.x, 3), round(p.y, 3), draw(grid(1.5, 5, 0.25))]}
        if sh.contour_polygon(c).buffer(-0.25).contains(sh.contour_polygon(h)):
            f["inners"] = [h]
    if kind == "wire":
        spec["reverse"] = draw(st.booleans())
    height = round(depth * draw(st.sampled_from([0.1, 0.25, 0.5, 0.5, 0.75, 0.9])), 4)
    width = draw(st.one_of(grid(0.5, 6, 0.25), grid(0.5, 6, 0.25), grid(5, 30, 1)))
    if draw(st.booleans()):
        spec["tabs"] = {"kind": "wire", "count": draw(st.integers(1, 9)), "width": width, "height": height}
    else:
        spec["tabs"] = {"kind": "edge", "spacing": round(width + draw(grid(0.25, 20, 0.25)), 4), "width": width, "height": height}
        if draw(st.integers(0, 2)) == 0:
            spec["tabs"]["only"] = draw(st.sampled_from(["LINE", "CIRCLE"]))
    return spec


def strategy():
    return _spec()


def edge_lengths(p):
    """[(kind, length)] of the edges a pass without tabs follows; a full circle is cut as two halves of one edge."""
    out = []
    for m in p.moves:
        if m.start[:2] == m.end[:2] and m.kind == "feed":
            continue
        if m.kind == "feed":
            out.append(("LINE", math.dist(m.start[:2], m.end[:2])))
        else:
            r = math.dist(m.start[:2], m.center)
            out.append(("CIRCLE", abs(m.sweep()) * r))
    if len(out) == 2 and out[0][0] == out[1][0] == "CIRCLE":
        a, b = [m for m in p.moves if m.kind in ("cw", "ccw")]
        if math.dist(a.center, b.center) < 0.002 and abs(abs(a.sweep()) - math.pi) < 0.002 and abs(abs(b.sweep()) - math.pi) < 0.002:
            out = [("CIRCLE", out[0][1] + out[1][1])]
    return out


def wanted(tabs, p, length):
    """Stretches [(from, to)] along the pass that are to be held up (may reach over the ends)."""
    half = tabs["width"] / 2
    if tabs["kind"] == "wire":
        return [(length * i / tabs["count"] - half, length * i / tabs["count"] + half) for i in range(tabs["count"])]
    out, s = [], 0.0
    for kind, ln in edge_lengths(p):
        if not tabs.get("only") or tabs["only"] == kind:
            q = ln / tabs["spacing"]
            if abs(q - round(q)) * tabs["spacing"] < 0.004 and round(q) > 0:
                raise Reject("an edge as long as a whole number of spacings")
            n = int(q)
            out += [(s + ln * i / (n + 1) - half, s + ln * i / (n + 1) + half) for i in range(1, n + 1)]
        s += ln
    return out


def wrap_union(ints, length):
    """Union of stretches on a closed path of a length, as sorted disjoint stretches in [0, length]."""
    parts = []
    for a, b in ints:
        if b - a >= length:
            return [(0.0, length)]
        a0 = a % length
        b0 = a0 + (b - a)
        parts.append((a0, min(b0, length)))
        if b0 > length:
            parts.append((0.0, b0 - length))
    return merge(parts)


def merge(parts, gap=0.0):
    out = []
    for a, b in sorted(parts):
        if out and a <= out[-1][1] + gap:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def minus(xs, ys):
    out = []
    for a, b in xs:
        cur = a
        for c, d in ys:
            if d <= cur or c >= b:
                continue
            if c > cur:
                out.append((cur, c))
            cur = max(cur, d)
        if cur < b:
            out.append((cur, b))
    return out


def run_case(spec):
    from cq_cam import Job
    from vlib import jobs

    f = spec["faces"][0]
    if not sh.contour_polygon(f["outer"]).is_valid:
        raise Reject("self-intersecting outline")
    plane = sh.make_plane(spec["plane"])
    job = Job(plane, 300, tool_diameter=spec["dia"])
    t = spec["tabs"]

    def make(tabs):
        if spec["kind"] == "wire":
            c = sh.reverse_contour(f["outer"]) if spec["reverse"] else f["outer"]
            j = job.wire_profile(sh.make_wire(c, plane, f["z"], spec["mode"]), offset=spec["offset"], stepdown=spec["step"], tabs=tabs)
        else:
            j = job.profile(sh.make_face(f, plane, spec["mode"]), outer_offset=spec["offset"], inner_offset=-1, stepdown=spec["step"], tabs=tabs)
        return paths.passes(paths.op_moves(j.operations[-1]))

    plain = make(None)
    tabbed = make(jobs.make_tabs(t))
    tab_z = f["z"] + t["height"]
    if len(plain) != len(tabbed):
        raise Violation("passes", f"{len(tabbed)} passes with tabs, {len(plain)} without")
    most = held_passes = 0
    for p, q in zip(plain, tabbed):
        z = p.zs[0]
        if z >= tab_z - 0.001:
            if z < tab_z + 0.001:
                continue  # the layer is level with the tabs: either way is right
            if [m.text for m in p.moves] != [m.text for m in q.moves]:
                raise Violation("above", f"the layer at {z} lies above the tabs ({tab_z:.4f}) but is not cut as without them")
            continue
        # the path in plan
        a, b = np.array(p.xy()), np.array(q.xy())
        la = float(np.hypot(*np.diff(a, axis=0).T).sum()) if len(a) > 1 else 0.0
        sb = np.concatenate([[0.0], np.hypot(*np.diff(b, axis=0).T).cumsum()]) if len(b) > 1 else np.zeros(1)
        if la == 0:
            continue
        tol = 0.004 + 0.0004 * len(q.moves) + 2e-5 * la
        if abs(la - sb[-1]) > tol + 0.01:
            raise Violation("plan", f"the path is {sb[-1]:.4f} long with tabs, {la:.4f} without")
        h = max(sh.apart(p.line(), q.line()), math.dist(a[0], b[0]), math.dist(a[-1], b[-1]))
        if h > 0.004:
            raise Violation("plan", f"the path with tabs strays {h:.4f} from the path without")
        # heights along the path
        up = []
        for i in range(len(q.pts) - 1):
            (x0, y0, z0), (x1, y1, z1) = q.pts[i], q.pts[i + 1]
            if (x0, y0) == (x1, y1):
                continue
            if abs(z0 - z1) > 0.0011:
                if math.dist((x0, y0), (x1, y1)) < 0.003:
                    continue
                raise Violation("ramp", f"moves from {q.pts[i]} to {q.pts[i + 1]} at the edge of a tab")
            if min(z0, z1) >= tab_z - 0.0011:
                if max(z0, z1) > tab_z + 0.0011:
                    raise Violation("height", f"at {max(z0, z1)}, the tabs are at {tab_z:.4f}")
                up.append((sb[i], sb[i + 1]))
            elif abs(z0 - z) > 0.0011 or abs(z1 - z) > 0.0011:
                raise Violation("height", f"at {z0} to {z1}, the layer is at {z} and the tabs at {tab_z:.4f}")
        want = wrap_union(wanted(t, p, la), la)
        if len(p.moves) > 60 and t["kind"] == "edge":
            raise Reject("too many edges to tell their lengths")
        held = merge(up, 1e-6)
        missing = [x for x in minus(want, held) if x[1] - x[0] > 2 * tol]
        extra = [x for x in minus(held, want) if x[1] - x[0] > 2 * tol]
        if missing:
            raise Violation("missing", f"no tab from {missing[0][0]:.3f} to {missing[0][1]:.3f} along a path of {la:.3f} at {z}; held {fmt(held)}, wanted {fmt(want)}")
        if extra:
            raise Violation("extra", f"held up from {extra[0][0]:.3f} to {extra[0][1]:.3f} along a path of {la:.3f} at {z}; held {fmt(held)}, wanted {fmt(want)}")
        most = max(most, len(want))
        held_passes += bool(want)
    return {"nontrivial": most > 1, "classes": [t["kind"], "mode:" + spec["mode"], f"tabs:{min(most, 12)}"] + (["step"] if spec["step"] else []),
            "count": {"passes_with_tabs": held_passes}}


def fmt(xs):
    return [(round(a, 3), round(b, 3)) for a, b in xs[:8]]
