"""Whole jobs as JSON specs: strategies, and the interpreter that plays a spec on cq_cam."""
from __future__ import annotations

import math

from hypothesis import strategies as st

from . import gen, shapes as sh
from .gen import grid

UNITS = ["METRIC", "IMPERIAL"]
OFFSETS = ["OFFSET_1", "OFFSET_2", "OFFSET_3", "OFFSET_4", "OFFSET_5", "OFFSET_6"]
WCS = dict(zip(OFFSETS, ["G54", "G55", "G56", "G57", "G58", "G59"]))
MOTIONS = {"EXACT_PATH": "G61", "EXACT_STOP": "G61.1", "CONTINUOUS": "G64"}
UNIT_CODE = {"METRIC": "G21", "IMPERIAL": "G20"}
COOLANT = {"MIST": "M7", "FLOOD": "M8"}

names = st.one_of(
    st.sampled_from(["Job", "Part 1", "Side (left)", "a)b", "(x", "two\nlines", "Ø5 ü", "100%", ""]),
    st.text(alphabet="abcXYZ019 ()-_;%\n", max_size=12),
)
feeds = st.sampled_from([300, 1, 12.5, 1200, 33.333, 850.0, 0.5])
speeds = st.sampled_from([None, 8000, 12000, 500, 24000, 18000.5])


@st.composite
def job_params(draw, named=True, unit=None, heights=True):
    p = {"feed": draw(feeds), "tool_diameter": None}
    if draw(st.booleans()):
        p["plunge_feed"] = draw(feeds)
    if draw(st.booleans()):
        p["speed"] = draw(speeds)
    if draw(st.booleans()):
        p["tool_number"] = draw(st.integers(0, 5))
    if heights and draw(st.booleans()):
        safe = draw(st.one_of(grid(0.25, 5, 0.25), grid(0.25, 5, 0.25), st.just(0)))
        p["op_safe_height"] = safe
        p["rapid_height"] = (safe or 0.5) + draw(grid(0, 15, 0.5))
    elif heights and draw(st.integers(0, 3)) == 0:
        p["rapid_height"] = draw(grid(2, 30, 0.5))
    if named and draw(st.booleans()):
        p["name"] = draw(names)
    if unit or draw(st.booleans()):
        p["unit"] = unit or draw(st.sampled_from(UNITS))
    if draw(st.booleans()):
        p["coordinate"] = draw(st.sampled_from(OFFSETS))
    if draw(st.booleans()):
        p["controller_motion"] = draw(st.sampled_from(list(MOTIONS)))
    if draw(st.booleans()):
        p["coolant"] = draw(st.sampled_from(list(COOLANT)))
    return p


def heights_of(p):
    """The heights a job uses, defaults included (10/1 mm or 0.4/0.04 in)."""
    imperial = p.get("unit") == "IMPERIAL"
    rapid = p.get("rapid_height")
    safe = p.get("op_safe_height")
    return (
        (0.4 if imperial else 10) if rapid is None else rapid,
        (0.04 if imperial else 1) if safe is None else safe,
    )


# ---------------------------------------------------------------- cheap shapes
@st.composite
def small_contour(draw, lo=8, hi=16):
    kind = draw(st.sampled_from(["rect", "circle", "round", "tri", "long"]))
    if kind == "long":
        w, h = draw(st.sampled_from([hi, 60, 230, 640])), draw(grid(lo, hi, 0.5))
        c = sh.polygon_contour([(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)])
    elif kind == "rect":
        w, h = draw(grid(lo, hi, 0.5)), draw(grid(lo, hi, 0.5))
        c = sh.polygon_contour([(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)])
    elif kind == "circle":
        c = {"circle": [0, 0, draw(grid(lo / 2, hi / 2, 0.25))]}
    elif kind == "round":
        w, h = draw(grid(lo, hi, 0.5)), draw(grid(lo, hi, 0.5))
        pts = [(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)]
        c = sh.rounded_contour(pts, [draw(st.sampled_from([0, 1.5, 2.5]))] + [2] * 3)
    else:
        r = draw(grid(lo * 0.7, hi * 0.7, 0.25))
        c = sh.polygon_contour([(round(r * math.cos(a), 4), round(r * math.sin(a), 4)) for a in (0.3, 2.4, 4.5)])
    return c


@st.composite
def small_face(draw, hole=True):
    f = {"z": -draw(grid(0.5, 4, 0.25)), "outer": draw(small_contour())}
    if hole and draw(st.booleans()):
        f["inners"] = [{"circle": [draw(grid(-0.5, 0.5, 0.25)), 0, draw(grid(1, 1.75, 0.25))]}]
    dx, dy = draw(st.one_of(gen.offsets2, gen.offsets2, st.sampled_from([(310, -120.5), (-955.25, 40)])))
    rot = draw(st.sampled_from([0, 0, 90, 37]))
    f["outer"] = sh.transform_contour(f["outer"], rot, dx, dy)
    if "inners" in f:
        f["inners"] = [sh.transform_contour(i, rot, dx, dy) for i in f["inners"]]
    return f


@st.composite
def tools(draw, full=True):
    """A Tool that always says its diameter at first use is the caller's business."""
    t = {}
    if draw(st.booleans()):
        t["tool_number"] = draw(st.sampled_from([1, 2, 3, 4, 0, 17]))
    if draw(st.booleans()):
        t["speed"] = draw(st.sampled_from([8000, 12000, 500, 20000]))
    if draw(st.booleans()):
        t["feed"] = draw(feeds)
    if draw(st.booleans()):
        t["tool_diameter"] = draw(st.sampled_from([1, 1.5, 0.75, 1.25]))
    return t


def tab_heights(faces):
    """A tab stays below the job plane."""
    d = min(-f["z"] for f in faces)
    return st.sampled_from([0.25, 0.5, 0.75]).map(lambda k: round(k * d, 3))


@st.composite
def small_op(draw, kinds=("profile", "wire_profile", "pocket", "drill")):
    k = draw(st.sampled_from(kinds))
    op = {"op": k}
    if draw(st.integers(0, 2)):
        op["tool"] = draw(tools())
    if k == "drill":
        op["points"] = draw(st.lists(st.tuples(grid(-20, 20, 0.5), grid(-20, 20, 0.5)).map(list), min_size=1, max_size=4))
        if draw(st.integers(0, 7)) == 0:
            op["points"] = [[x * 40, y * 25] for x, y in op["points"]]
        op["depth"] = draw(st.sampled_from([0.5, 2, 3.25, -1.5, 0.05, 12, 60, 150]))
        return op
    op["faces"] = draw(st.lists(small_face(), min_size=1, max_size=2))
    if draw(st.booleans()):
        op["stepdown"] = draw(st.sampled_from([0.5, 0.75, 1, 1.5, 5]))
    if k == "profile":
        choices = [(1, -1), (1, -1), (0, 0), (1, None)]
        if all("inners" in f for f in op["faces"]):
            choices.append((None, -1))
        op["outer"], op["inner"] = draw(st.sampled_from(choices))
        if draw(st.integers(0, 3)) == 0:
            op["tabs"] = {"kind": "wire", "count": draw(st.integers(1, 4)), "width": 1.0, "height": draw(tab_heights(op["faces"]))}
    elif k == "wire_profile":
        op["offset"] = draw(st.sampled_from([1, 1, 0, -1]))
        if draw(st.integers(0, 3)) == 0:
            op["tabs"] = {"kind": "edge", "spacing": 4.0, "width": 1.0, "height": draw(tab_heights(op["faces"]))}
    else:
        op["stepover"] = draw(st.sampled_from([None, 0.8, 1, 1.5, [0.5, 0.1]]))
        if draw(st.integers(0, 3)) == 0:
            op["outer_offset"] = draw(st.sampled_from([-1, 0, -1.5, [-1, -0.25]]))
        if draw(st.integers(0, 3)) == 0:
            # an avoid area next to the middle of the first face, at its depth or above it
            f = op["faces"][0]
            x, y = shape_middle(f["outer"])
            c = {"circle": [round(x + draw(grid(-4, 4, 0.5)), 3), round(y + draw(grid(-4, 4, 0.5)), 3), draw(grid(0.75, 2.5, 0.25))]}
            op["avoid"] = [{"z": draw(st.sampled_from([f["z"], 0.0, round(f["z"] / 2, 3)])), "outer": c}]
    if draw(st.integers(0, 11)) == 0:
        # far too large for the contours: nothing is left to cut
        op["nothing"] = True
        op.pop("avoid", None)
        if k == "profile":
            op["outer"], op["inner"] = draw(st.sampled_from([(-50, -50), (-50, None)]))
        elif k == "wire_profile":
            op["offset"] = -50
        else:
            op["outer_offset"] = -50
    return op


def shape_middle(c):
    p = sh.contour_polygon(c, 1e-2).centroid
    return p.x, p.y


# ---------------------------------------------------------------- playing a spec
def enum_params(p):
    from cq_cam.groups import CoolantState, PlannerControlMode, Unit, WorkOffset

    q = dict(p)
    for key, enum in (("unit", Unit), ("coordinate", WorkOffset), ("controller_motion", PlannerControlMode), ("coolant", CoolantState)):
        if key in q:
            q[key] = enum[q[key]]
    return q


def make_job(p, plane):
    from cq_cam import Job

    q = enum_params(p)
    feed = q.pop("feed")
    return Job(plane, feed, **q)


def make_tabs(t):
    from cq_cam.operations.tabs import EdgeTabs, WireTabs

    if not t:
        return None
    if t["kind"] == "wire":
        return WireTabs(count=t["count"], width=t["width"], height=t["height"])
    return EdgeTabs(spacing=t["spacing"], width=t["width"], height=t["height"], only=t.get("only"))


def make_tool(t):
    from cq_cam.tool import Tool

    return None if t is None else Tool(**t)


def apply_op(job, op, plane, mode="direct"):
    import cadquery as cq

    tool = make_tool(op.get("tool"))
    k = op["op"]
    if k == "drill":
        pts = [sh.to_world(plane, x, y, 0) for x, y in op["points"]]
        return job.drill(pts, tool=tool, depth=op["depth"])
    if k == "wire_profile":
        wires = [sh.make_wire(f["outer"], plane, f["z"], mode if mode == "moved" else "direct") for f in op["faces"]]
        return job.wire_profile(wires, offset=op["offset"], stepdown=op.get("stepdown"), tabs=make_tabs(op.get("tabs")), tool=tool)
    faces = [sh.make_face(f, plane, mode) for f in op["faces"]]
    if k == "profile":
        return job.profile(faces, outer_offset=op["outer"], inner_offset=op["inner"], stepdown=op.get("stepdown"),
                           tabs=make_tabs(op.get("tabs")), tool=tool)
    assert k == "pocket"
    kw = {}
    for key in ("outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset", "stepover"):
        if op.get(key) is not None:
            v = op[key]
            kw[key] = tuple(v) if isinstance(v, list) else v
    avoid = [sh.make_face(f, plane, mode) for f in op.get("avoid", [])] or None
    return job.pocket(faces if len(faces) > 1 else faces[0], avoid_areas=avoid, stepdown=op.get("stepdown"), tool=tool, **kw)


class Model:
    """The settings in force, as a user of the fluent interface understands them."""

    def __init__(self, p):
        self.tool_number = p.get("tool_number")
        self.speed = p.get("speed")
        self.feed = p["feed"]
        self.plunge = p["feed"] if p.get("plunge_feed") is None else p["plunge_feed"]
        self.diameter = p.get("tool_diameter")
        self.loaded = None  # what an M6 in the program has loaded

    def apply(self, tool):
        """Returns the section the program needs before the operation."""
        if not tool:
            return None
        section = None
        n, s = tool.get("tool_number"), tool.get("speed")
        if s is not None and s != self.speed:
            self.speed = s
            section = "Speed Change"
        if n is not None and n != self.tool_number:
            self.tool_number = self.loaded = n
            section = "Tool Change"
        if tool.get("feed") is not None:
            self.feed = tool["feed"]
        if tool.get("tool_diameter") is not None:
            self.diameter = tool["tool_diameter"]
        return section


@st.composite
def small_jobs(draw, max_ops=4, min_ops=0, **kw):
    p = draw(job_params(**kw))
    dia = draw(st.sampled_from([1, 1.5, 0.75, 1.25]))
    ops = draw(st.one_of(
        st.lists(small_op(), min_size=2, max_size=max_ops), st.lists(small_op(), min_size=min_ops, max_size=max_ops)
    ))
    if ops and draw(st.integers(0, 5)) == 0:
        # the diameter comes with the tool of the first operation
        ops[0].setdefault("tool", {}).setdefault("tool_diameter", dia)
        dia = None
    p["tool_diameter"] = dia
    return {
        "job": p,
        "plane": draw(gen.planes()),
        "mode": draw(st.sampled_from(["direct", "direct", "moved"])),
        "ops": ops,
    }
