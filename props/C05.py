"""The text of the commands reproduces the geometry to half the output resolution, without drift."""
import math

from hypothesis import strategies as st

from vlib import gcode
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated chains of motion commands (rapids, cuts, plunges, retracts, arcs) with omitted axes and arbitrary float targets; the "
        "rendered text is run on a simulated controller and compared with the exact chain after every block; non-trivial: at least "
        "three blocks, of which one omits an axis or is an arc")
QUICK = (2500, 120)
THOROUGH = (60000, 800)

HALF = 0.0005 + 1e-9


def coord():
    return st.one_of(
        st.integers(-200, 200),
        st.floats(-300, 300, allow_nan=False, width=64),
        st.floats(-0.01, 0.01, allow_nan=False),
        st.integers(-300000, 300000).map(lambda i: i / 1000),
        st.integers(-3000000, 3000000).map(lambda i: i / 10000),
        st.sampled_from([0.0005, -0.0005, 0.0015, -0.0004, 1e-7, -1e-12, 99999.9995, -12345.678, 0.0, -0.0]),
    )


@st.composite
def _spec(draw):
    n = draw(st.integers(1, 12))
    out = []
    for _ in range(n):
        k = draw(st.sampled_from(["rapid", "cut", "cut", "plunge", "retract", "plungerapid", "cw", "ccw"]))
        b = {"k": k}
        if k in ("rapid", "cut"):
            axes = draw(st.sampled_from(["x", "y", "z", "xy", "xz", "yz", "xyz"]))
            for a in axes:
                b[a] = draw(coord())
        elif k in ("plunge", "retract", "plungerapid"):
            b["z"] = draw(coord())
        else:
            b["r"] = draw(st.one_of(st.floats(0.01, 200), st.integers(1, 50)))
            b["a0"] = draw(st.floats(-math.pi, math.pi))
            b["sweep"] = draw(st.one_of(st.floats(0.05, 3.1), st.sampled_from([math.pi / 2, math.pi, math.pi / 4])))
        if k in ("cut", "plunge", "cw", "ccw"):
            b["feed"] = draw(st.one_of(st.integers(1, 5000), st.floats(0.1, 5000)))
        out.append(b)
    return {"start": [draw(coord()), draw(coord()), draw(coord())], "blocks": out, "via": draw(st.sampled_from(["abs", "init"]))}


def strategy():
    return _spec()


def run_case(spec):
    from cq_cam.address import AddressVector
    from cq_cam.command import CircularCCW, CircularCW, Cut, PlungeCut, PlungeRapid, Rapid, Retract

    pos = AddressVector(*spec["start"])
    cmds = [Rapid(AddressVector(*spec["start"]), None)]
    exact = [tuple(map(float, spec["start"]))]
    centers = [None]
    abs_ = spec["via"] == "abs"
    omitted = arcs = 0
    for b in spec["blocks"]:
        k = b["k"]
        here = exact[-1]
        if k in ("rapid", "cut"):
            cls = Rapid if k == "rapid" else Cut
            kw = {"feed": b["feed"]} if k == "cut" else {}
            tgt = {a: b[a] for a in "xyz" if a in b}
            omitted += len(tgt) < 3
            c = cls.abs(**tgt, start=pos, **kw) if abs_ else cls(AddressVector(**tgt), pos, **kw)
            exact.append(tuple(float(tgt.get(a, h)) for a, h in zip("xyz", here)))
            centers.append(None)
        elif k in ("plunge", "retract", "plungerapid"):
            cls = {"plunge": PlungeCut, "retract": Retract, "plungerapid": PlungeRapid}[k]
            kw = {"feed": b["feed"]} if k == "plunge" else {}
            omitted += 1
            c = cls.abs(z=b["z"], start=pos, **kw) if abs_ else cls(AddressVector(z=b["z"]), pos, **kw)
            exact.append((here[0], here[1], float(b["z"])))
            centers.append(None)
        else:
            arcs += 1
            s = b["sweep"] if k == "ccw" else -b["sweep"]
            cx, cy = here[0] - b["r"] * math.cos(b["a0"]), here[1] - b["r"] * math.sin(b["a0"])
            at = lambda t: (cx + b["r"] * math.cos(b["a0"] + s * t), cy + b["r"] * math.sin(b["a0"] + s * t))
            cls = CircularCCW if k == "ccw" else CircularCW
            c = cls(center=AddressVector(cx, cy, here[2]), mid=AddressVector(*at(0.5), here[2]),
                    end=AddressVector(*at(1), here[2]), start=pos, feed=b["feed"])
            exact.append((*at(1), here[2]))
            centers.append((cx, cy))
        cmds.append(c)
        pos = c.end
    lines = [str(c) for c in cmds]
    # the unit under test is the words, so the program is exactly these lines
    for ln in lines:
        if "\n" in ln or not ln:
            raise Violation("line", f"{ln!r} is not one block")
    try:
        mach = gcode.run_program(gcode.PREAMBLE + "\n".join(lines))
    except gcode.GCodeError as e:
        raise Violation("malformed", e) from None
    if len(mach.moves) != len(exact):
        raise Violation("count", f"{len(mach.moves)} moves for {len(exact)} commands")
    kinds = ["rapid"] + [{"rapid": "rapid", "cut": "feed", "plunge": "feed", "retract": "rapid", "plungerapid": "rapid"}.get(b["k"], b["k"])
                         for b in spec["blocks"]]
    for m, e, cen, kind, b in zip(mach.moves, exact, centers, kinds, [{}] + spec["blocks"]):
        if m.kind != kind:
            raise Violation("kind", f"{m.text!r} is a {m.kind}, not a {kind}")
        for a, got, want in zip("XYZ", m.end, e):
            if got is None or abs(got - want) > HALF + 1e-12 * abs(want):
                raise Violation("position", f"after {m.text!r} the controller is at {a}{got}, the command ends at {want!r}")
        if cen:
            for a, got, want in zip("XY", m.center, cen):
                if abs(got - want) > 2 * HALF + 1e-12 * abs(want):
                    raise Violation("centre", f"{m.text!r} from {m.start}: centre {a}={got}, the command's is {want!r}")
            if abs(m.ij[0] - (cen[0] - exact_prev[0])) > HALF or abs(m.ij[1] - (cen[1] - exact_prev[1])) > HALF:
                raise Violation("centre", f"{m.text!r}: IJ {m.ij} for a centre at {(cen[0] - exact_prev[0], cen[1] - exact_prev[1])}")
        if "feed" in b and abs(m.feed - b["feed"]) > 1e-6 * b["feed"]:
            raise Violation("feed", f"{m.text!r} for feed {b['feed']!r}")
        exact_prev = e
    for ln in lines:
        for w in ln.split():
            if w[0] in "XYZIJK" and "." in w and len(w.split(".")[1]) > 3:
                raise Violation("resolution", f"{w} in {ln!r} has more than three decimals")
    return {"nontrivial": len(lines) > 3 and (omitted > 0 or arcs > 0), "classes": [f"blocks:{min(len(lines), 13)}", f"arcs:{arcs > 0}"],
            "count": {"blocks": len(lines)}}
