"""Step down splits a profile into complete layers no deeper than asked."""
import math

import shapely
from hypothesis import strategies as st

from vlib import gen, jobs, paths, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated contours, depths, step downs (dividing the depth evenly, unevenly, by a hair, or not at all), offsets, lists of wires and faces with holes, tabs, on "
        "generated job planes; the layers of every contour are compared with each other and with the depth; non-trivial: at least two layers")
QUICK = (500, 150)
THOROUGH = (6000, 800)

TOL = 0.0012


@st.composite
def _spec(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    faces = []
    for i in range(n):
        depth = draw(st.one_of(grid(0.25, 12, 0.25), grid(0.001, 4, 0.001), st.just(0.0)))
        c = draw(gen.contours(place=False, kinds=("poly", "round", "slot", "circle")))
        f = {"z": -depth, "outer": sh.transform_contour(c, draw(gen.rotations), 120 * i, draw(grid(-20, 20, 0.5)))}
        faces.append(f)
    kind = draw(st.sampled_from(["wire", "face"]))
    deepest = max(-f["z"] for f in faces)
    most = draw(st.sampled_from([12] * 9 + [98]))
    if most > 12:
        # a great many layers (a profile takes a hundred at the most), for one small contour
        faces = faces[:1]
        faces[0]["outer"] = sh.transform_contour(draw(gen.contours(place=False, kinds=("poly", "circle"))), 0, 0, 0)
        faces[0]["z"] = -draw(grid(4, 12, 0.25))
        deepest = -faces[0]["z"]
    steps = [s for s in (0.1, 0.13, 0.2, 0.3, 0.5, 0.75, 1, 1.5, 2, 3, 7, 20) if 20 * (most > 12) < deepest / s < most] + [None] * (most < 13)
    if deepest > 0 and most < 13:
        steps += [deepest, round(deepest / 3, 4), round(deepest / 2, 6), round(deepest / 7, 3) or None, round(deepest * 1.0003, 4)]
    steps = [s for s in steps if s is None or s >= 0.02]
    spec = {"kind": kind, "plane": draw(gen.planes()), "dia": draw(grid(0.5, 4, 0.25)), "faces": faces, "step": draw(st.sampled_from(steps)),
            "mode": draw(gen.face_modes if kind == "face" else gen.wire_modes), "offset": draw(st.sampled_from([1, 1, -1, 0, -0.5]))}
    if kind == "face" and draw(st.booleans()):
        f = faces[0]
        p = sh.contour_polygon(f["outer"]).representative_point()
        h = {"circle": [round(p.x, 3), round(p.y, 3), 1.25]}
        if sh.contour_polygon(f["outer"]).buffer(-0.25).contains(sh.contour_polygon(h)):
            f["inners"] = [h]
    shallow = min(-f["z"] for f in faces)
    if shallow >= 0.5 and spec["offset"] in (0, 1) and draw(st.booleans()):
        # tabs leave the layers as they are, apart from where they stand
        spec["tabs"] = {"kind": "wire", "count": draw(st.integers(1, 3)), "width": 1.0, "height": round(shallow * draw(st.sampled_from([0.2, 0.5, 0.8])), 3)}
        faces[0].pop("inners", None)
    return spec


def strategy():
    return _spec()


def run_case(spec):
    from cq_cam import Job

    plane = sh.make_plane(spec["plane"])
    if any(not sh.contour_polygon(f["outer"]).is_valid for f in spec["faces"]):
        raise Reject("self-intersecting outline")
    job = Job(plane, 300, tool_diameter=spec["dia"])
    step = spec["step"]
    high = spec["tabs"]["height"] if "tabs" in spec else 0
    if spec["kind"] == "wire":
        wires = [sh.make_wire(f["outer"], plane, f["z"], spec["mode"]) for f in spec["faces"]]
        make = lambda s: job.wire_profile(wires, offset=spec["offset"], stepdown=s, tabs=jobs.make_tabs(spec.get("tabs")))
    else:
        fs = [sh.make_face(f, plane, spec["mode"]) for f in spec["faces"]]
        make = lambda s: job.profile(fs, outer_offset=spec["offset"], inner_offset=-1, stepdown=s, tabs=jobs.make_tabs(spec.get("tabs")))
    full = paths.passes(paths.op_moves(make(step).operations[-1]))
    flat = paths.passes(paths.op_moves(make(None).operations[-1]))
    # without a step down: one pass at the depth of one of the shapes for every loop
    depths = [f["z"] for f in spec["faces"]]
    i = 0
    layers = 0
    for base in flat:
        if uneven(base, high) or min(abs(base.zs[0] - z) for z in depths) > TOL:
            raise Violation("single", f"without a step down a pass is at {base.zs}, the shapes are at {depths}")
        z = min(depths, key=lambda d: abs(d - base.zs[0]))
        j = i
        group = []
        while j < len(full):
            p = full[j]
            if uneven(p, high):
                raise Violation("layer", f"a layer changes depth: {p.zs[:4]}")
            if group and group[-1].zs[0] <= z + TOL:
                break
            if not same_path(p, base):
                raise Violation("layer", f"the layer at {p.zs} does not follow the contour as it is cut without a step down")
            group.append(p)
            j += 1
        i = j
        zs = [p.zs[0] for p in group]
        if not group or abs(zs[-1] - z) > TOL:
            raise Violation("last", f"the last layer is at {zs[-1:]}, the shape at {z}")
        if step is None and len(zs) != 1:
            raise Violation("extra", f"layers {zs} without a step down")
        for a, b in zip([0.0] + zs, zs):
            if step is not None and a - b > step + 2 * TOL:
                raise Violation("deep", f"layers {zs} go down by {a - b:.4f} at once, {step} allowed")
        for a, b in zip(zs, zs[1:]):
            if a - b < 1e-6:
                raise Violation("order", f"layers {zs} do not go down")
        if zs[0] > TOL and z < -TOL:
            raise Violation("above", f"layers {zs} begin above the job plane")
        if step and len(zs) > max(1, math.ceil(-z / step + 1e-3)):
            raise Violation("extra", f"{len(zs)} layers {zs} for a depth of {-z} by {step}")
        layers = max(layers, len(zs))
    if i != len(full):
        raise Violation("extra", f"{len(full) - i} passes more than the loops of the contour need")
    return {"nontrivial": layers > 1, "classes": [spec["kind"], f"layers:{min(layers, 12)}", f"wires:{len(spec['faces'])}"] + ["tabs"] * ("tabs" in spec), "count": {"passes": len(full)}}


def uneven(p, high):
    """Does a layer change depth, other than to the top of the tabs?"""
    return p.zs[-1] - p.zs[0] > high + 0.0011 or any(0.0011 < z - p.zs[0] < p.zs[-1] - p.zs[0] - 0.0011 for z in p.zs)


def same_path(p, q):
    if len(p.pts) == len(q.pts) and max(max(abs(a[0] - b[0]), abs(a[1] - b[1])) for a, b in zip(p.pts, q.pts)) < 0.002:
        return True
    a, b = p.line(), q.line()
    return abs(a.length - b.length) < 0.02 + 1e-3 * a.length and sh.apart(a, b) < 0.004
