"""Equivalent ways of giving a shape give the same cuts."""
import math

import shapely
from hypothesis import strategies as st

from props.C15 import by_depth, far
from vlib import gen, jobs, paths, shapes as sh
from vlib.core import Reject, Violation
from vlib.gen import grid

LEVEL = "exploration"
RULE = ("generated shapes given in two of the accepted forms (wire, face, list, workplane, face of a solid, moved into place, reversed, started at another vertex, copied "
        "to several places, edges split in two, several shapes at once or one operation each) to profile, wire profile, pocket and drill, and the cuts compared; "
        "non-trivial: the two forms differ and something is cut")
QUICK = (170, 60)
THOROUGH = (9000, 800)


@st.composite
def variant(draw, forms):
    return {"form": draw(st.sampled_from(forms)), "mode": draw(gen.face_modes), "start": draw(st.integers(0, 7)), "split": draw(st.booleans()),
            "reverse": draw(st.booleans()), "each": draw(st.integers(0, 3)) == 0,
            "copy": draw(st.booleans())}


@st.composite
def _spec(draw):
    op = draw(st.sampled_from(["profile", "profile", "wire", "pocket", "drill"]))
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    depth = draw(grid(0.5, 6, 0.25))
    fs = []
    for i in range(n):
        if op == "drill":
            x, y = draw(grid(-20, 20, 0.5)), draw(grid(-20, 20, 0.5))
            fs.append({"z": -depth, "outer": {"circle": [x + 60 * i, y, draw(grid(1, 5, 0.25))]}})
            continue
        c = draw(gen.contours(place=False))
        if op == "pocket":
            c = sh.transform_contour(c, scale=0.6)
        c = sh.transform_contour(c, draw(gen.rotations), 110 * i + draw(grid(-5, 5, 0.5)), draw(grid(-5, 5, 0.5)))
        f = {"z": -depth, "outer": c}
        if op != "wire" and draw(st.booleans()):
            p = sh.contour_polygon(c, 1e-3).representative_point()
            h = {"circle": [round(p.x, 3), round(p.y, 3), draw(grid(0.5, 3, 0.25))]}
            if sh.contour_polygon(c, 1e-3).buffer(-0.25).contains(sh.contour_polygon(h)):
                f["inners"] = [h]
        fs.append(f)
    copies = n > 1 and draw(st.booleans())
    if copies:
        # the same shape in several places
        at = [(0, 0)] + [(110 * i + draw(grid(-5, 5, 0.5)), draw(grid(-5, 5, 0.5))) for i in range(1, n)]
        fs = [{"z": fs[0]["z"], "outer": sh.transform_contour(fs[0]["outer"], 0, x, y), **({"inners": [sh.transform_contour(h, 0, x, y) for h in fs[0]["inners"]]} if "inners" in fs[0] else {})}
              for x, y in at]
    forms = {"profile": ["face", "list", "workplane", "wires"], "wire": ["wire", "list", "profile"], "pocket": ["face", "list", "workplane"],
             "drill": ["points", "wires", "faces", "workplane", "wire-workplane", "plate"]}[op]
    s = {"op": op, "plane": draw(gen.planes()), "dia": draw(st.sampled_from([1, 1.5, 2, 3.25, 0.75])), "faces": fs, "one": draw(variant(forms)), "two": draw(variant(forms))}
    if copies:
        s["at"] = [list(a) for a in at]
    if op in ("profile", "wire"):
        s["outer"] = draw(st.sampled_from([1, 1, 1, -1, 0, 0.5]))
        s["inner"] = draw(st.sampled_from([-1, -1, None, 1, 0]))
        s["stepdown"] = draw(st.sampled_from([None, None, 1, 2.5]))
    elif op == "pocket":
        s["stepover"] = draw(st.sampled_from([None, 0.8, 1]))
        s["stepdown"] = draw(st.sampled_from([None, None, 1, 2.5]))
    return s


def strategy():
    return _spec()


def vary(c, v):
    if v["split"]:
        c = sh.split(c)
    c = sh.restart(c, v["start"])
    return sh.reverse_contour(c) if v["reverse"] else c


def given(spec, v, plane):
    """The shapes of a spec in the form asked for: a list of what each operation gets."""
    import cadquery as cq

    fs = [{**f, "outer": vary(f["outer"], v), **({"inners": [vary(i, v) for i in f["inners"]]} if "inners" in f else {})} for f in spec["faces"]]
    form = v["form"]

    def each(make):
        if not (v.get("copy") and "at" in spec):
            return [make(f, i) for i, f in enumerate(fs)]
        # one shape, moved to each place
        one, there = make(fs[0], 0), cq.Location(plane)
        return [one.moved(there * cq.Location(cq.Vector(x, y, 0)) * there.inverse) for x, y in spec["at"]]

    if spec["op"] == "drill":
        if form == "plate":
            x0, y0, x1, y1 = shapely.union_all([sh.contour_polygon(f["outer"]) for f in spec["faces"]]).bounds
            plate = {"z": fs[0]["z"], "outer": sh.polygon_contour([(x0 - 5, y0 - 5), (x1 + 5, y0 - 5), (x1 + 5, y1 + 5), (x0 - 5, y1 + 5)]), "inners": [f["outer"] for f in fs]}
            return [sh.make_face(plate, plane, v["mode"])]
        moved = "moved" if v["mode"] == "moved" else "direct"
        made = {
            "points": lambda f, g: sh.to_world(plane, *g["outer"]["circle"][:2], f["z"]), "wires": lambda f, g: sh.make_wire(f["outer"], plane, f["z"], moved),
            "faces": lambda f, g: sh.make_face(f, plane, v["mode"]),
        }[{"workplane": "faces", "wire-workplane": "wires"}.get(form, form)]
        objs = each(lambda f, i: made(f, spec["faces"][i])) if form != "points" else [made(f, g) for f, g in zip(fs, spec["faces"])]
        wrap = (lambda o: cq.Workplane(plane).newObject(o)) if "workplane" in form else (lambda o: o if len(o) > 1 else o[0])
    elif form in ("wires", "wire", "profile") or spec["op"] == "wire":
        objs = each(lambda f, i: sh.make_wire(f["outer"], plane, f["z"], "moved" if v["mode"] == "moved" else "direct"))
        wrap = lambda o: o if len(o) > 1 or form == "list" else o[0]
    else:
        objs = each(lambda f, i: sh.make_face(f, plane, v["mode"]))
        wrap = {"face": lambda o: o if len(o) > 1 else o[0], "list": lambda o: o, "workplane": lambda o: cq.Workplane(plane).newObject(o)}[form]
    return [wrap([o]) for o in objs] if v["each"] else [wrap(objs)]


def cuts(spec, v, plane):
    from cq_cam import Job

    job = Job(plane, 300, tool_diameter=spec["dia"])
    for o in given(spec, v, plane):
        if spec["op"] == "drill":
            job = job.drill(o, depth=3)
        elif spec["op"] == "pocket":
            job = job.pocket(o, stepover=spec["stepover"], stepdown=spec["stepdown"])
        elif spec["op"] == "wire":
            if v["form"] == "profile":
                job = job.profile(o, outer_offset=spec["outer"], stepdown=spec["stepdown"])
            else:
                job = job.wire_profile(o, offset=spec["outer"], stepdown=spec["stepdown"])
        else:
            inner = spec["inner"] if any("inners" in f for f in spec["faces"]) else None
            if v["form"] == "wires" and inner is not None:
                raise Reject("wires do not carry holes")
            job = job.profile(o, outer_offset=spec["outer"], inner_offset=inner, stepdown=spec["stepdown"])
    moves = []
    for operation in job.operations:
        moves += paths.op_moves(operation)
    return moves


def run_case(spec):
    for f in spec["faces"]:
        if not sh.contour_polygon(f["outer"]).is_valid:
            raise Reject("self-intersecting outline")
    plane = sh.make_plane(spec["plane"])
    a, b = cuts(spec, spec["one"], plane), cuts(spec, spec["two"], plane)
    names = f"{spec['one']['form']}/{spec['one']['mode']} and {spec['two']['form']}/{spec['two']['mode']}"
    if spec["op"] == "drill":
        holes = lambda ms: sorted((m.end[0], m.end[1], m.end[2]) for m in ms if m.is_cut)
        ha, hb = holes(a), holes(b)
        if len(ha) != len(hb) or any(min(math.dist(p, q) for q in hb) > 0.003 for p in ha):
            raise Violation("differ", f"{names}: holes {ha[:3]} and {hb[:3]}")
    else:
        da, db = by_depth(a), by_depth(b)
        if len(da) != len(db) or any(not any(abs(z - y) < 0.0021 for y in db) for z in da):
            raise Violation("differ", f"{names}: cuts at {sorted(da)} and {sorted(db)}")
        r = spec["dia"] / 2
        for z, la in da.items():
            lb = next(v for y, v in db.items() if abs(z - y) < 0.0021)
            if spec["op"] == "pocket":
                for x, y in ((la, lb), (lb, la)):
                    left = sh.swept(x, r, 16).difference(sh.swept(y, r + 0.008, 16))
                    if left.area > 1e-4:
                        raise Violation("differ", f"{names}: {left.area:.4f} mm2 cleared at {z} in one form only, around {left.representative_point().wkt}")
                continue
            for x, y in ((la, lb), (lb, la)):
                d, p = far(x, y)
                if d > 0.008:
                    raise Violation("differ", f"{names}: {p.wkt} is cut at {z} in one form only ({d:.4f} from the nearest cut of the other)")
            ta, tb = sum(x.length for x in la), sum(x.length for x in lb)
            if abs(ta - tb) > 0.02 + 0.002 * ta:
                raise Violation("differ", f"{names}: {ta:.3f} and {tb:.3f} are cut at {z}")
    return {"nontrivial": spec["one"] != spec["two"] and any(m.is_cut for m in a), "classes": [spec["op"], spec["one"]["form"], spec["two"]["form"], f"shapes:{len(spec['faces'])}"] + ["copies"] * ("at" in spec),
            "count": {}}
