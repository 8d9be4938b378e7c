"""The preview shows the motion of the program."""
import math
import sys
import types

from hypothesis import strategies as st

from vlib import jobs, oracle, paths
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated jobs of 1-3 operations on generated job planes; the edges of the preview, and the coloured shapes with a stand-in for "
        "the editor's colours, are matched one to one with the moves of the program text; non-trivial: at least five moves matched")
QUICK = (90, 150)
THOROUGH = (5000, 800)

TOL = 0.0016  # half the output resolution on each of three axes, at both ends, and some noise
TINY = 0.004


def strategy():
    return jobs.small_jobs(max_ops=3, min_ops=1)


def stub_editor():
    """The colour helper of cq-editor, which is not installed."""
    if "cq_editor" in sys.modules:
        return
    from OCP.Quantity import Quantity_Color, Quantity_TOC_RGB

    pkg, mod = types.ModuleType("cq_editor"), types.ModuleType("cq_editor.cq_utils")
    mod.to_occ_color = lambda *a: Quantity_Color(0.1, 0.2, 0.3, Quantity_TOC_RGB)
    pkg.cq_utils = mod
    sys.modules["cq_editor"], sys.modules["cq_editor.cq_utils"] = pkg, mod


class Seg:
    def __init__(self, kind, a, b, mid=None, text=""):
        self.kind, self.a, self.b, self.mid, self.text = kind, a, b, mid, text

    @property
    def size(self):
        if self.a is None:
            return math.inf
        return max(math.dist(self.a, self.b), math.dist(self.a, self.mid) if self.mid else 0)

    def __repr__(self):
        f = lambda p: p and tuple(round(v, 4) for v in p)
        return f"{self.kind} {f(self.a)} -> {f(self.b)}" + (f" by {f(self.mid)}" if self.mid else "") + (f" [{self.text}]" if self.text else "")


def program_segs(op):
    """The moves of an operation after its first; a is None while the position is not fully known."""
    out = []
    for m in paths.op_moves(op)[1:]:
        if m.kind == "home":
            continue
        a = None if None in m.start else m.start
        if m.kind in ("cw", "ccw"):
            cx, cy = m.center
            d = m.sweep() / 2
            x, y = m.start[0] - cx, m.start[1] - cy
            r1 = math.dist(m.end[:2], (cx, cy))
            s = (math.hypot(x, y) + r1) / 2 / math.hypot(x, y)
            mid = (cx + s * (x * math.cos(d) - y * math.sin(d)), cy + s * (x * math.sin(d) + y * math.cos(d)),
                   (m.start[2] + m.end[2]) / 2)
            out.append(Seg("arc", a, m.end, mid, m.text))
        else:
            out.append(Seg("line", a, m.end, None, m.text))
    return out


def edge_seg(e, local):
    try:
        a, b = (local(v) for v in (e.startPoint(), e.endPoint()))
    except Exception as x:
        raise Violation("edge", f"the preview has an edge without geometry: {type(x).__name__}") from None
    if e.geomType() == "LINE":
        return Seg("line", a, b)
    if e.geomType() == "CIRCLE":
        return Seg("arc", a, b, local(e.positionAt(0.5)))
    raise Violation("kind", f"the preview has a {e.geomType()} edge")


def agree(s, e):
    if s.a is None:
        return all(v is None or abs(v - w) < TOL for v, w in zip(s.b, e.b))
    if math.dist(s.a, e.a) > TOL or math.dist(s.b, e.b) > TOL:
        return False
    if s.mid and e.mid:
        return math.dist(s.mid, e.mid) < 2 * TOL + 0.002
    if s.mid or e.mid:
        # an arc as flat as the resolution may be drawn straight, and the other way round
        m = s.mid or e.mid
        c = [(p + q) / 2 for p, q in zip(s.a, s.b)]
        return math.dist(m, c) < 2 * TOL
    return True


def match(segs, edges, what):
    i = j = n = 0
    while i < len(segs) or j < len(edges):
        s = segs[i] if i < len(segs) else None
        e = edges[j] if j < len(edges) else None
        if s and e and agree(s, e):
            n += 1
            i, j = i + 1, j + 1
        elif s and s.a is None:
            i += 1  # where the tool comes from is not known
        elif e and e.size < TINY:
            j += 1
        elif s and s.size < TINY:
            i += 1
        else:
            raise Violation("motion", f"{what}: the program has {s}, the preview {e}")
    return n


def coloured(group, rg_inv):
    """Edges of the coloured preview, in the coordinates of the world, from its interactive shapes."""
    import cadquery as cq
    from OCP.AIS import AIS_Line
    from OCP.gp import gp_Pnt

    cmds = list(group.Children())[0]
    t = cmds.LocalTransformation()
    out = []
    for c in cmds.Children():
        o = c.ConnectedTo()
        if isinstance(o, AIS_Line):
            # bindings give no access to the end points of the line object: go by its bounding box
            out.append(("line", None))
        else:
            out.append(("shape", cq.Edge(o.Shape()).moved(cq.Location(t))))
    return out


def run_case(spec):
    stub_editor()
    job, plane = oracle.play(spec)
    text = job.to_gcode()
    edges = job.to_shapes(as_edges=True)
    local = lambda v: plane.toLocalCoords(v).toTuple()
    segs = [edge_seg(e, local) for e in edges]
    # what the editors are given, operation by operation
    shown = []
    job.show(lambda shape, name: shown.append((shape, name)))
    if len(shown) != len(job.operations) or sum(len(x) for x, _ in shown) != len(edges):
        raise Violation("show", f"shows {[len(x) for x, _ in shown]} edges, {len(edges)} edges in {len(job.operations)} operations")
    if len({name for _, name in shown}) != len(shown):
        raise Violation("show", f"names of the shown operations repeat: {[x for _, x in shown]}")
    per_op = [x for x, _ in shown]
    n = k = 0
    for i, (op, part) in enumerate(zip(job.operations, per_op)):
        got = segs[k:k + len(part)]
        if any(math.dist(local(x.startPoint()), s.a) > 1e-6 for x, s in zip(part, got)):
            raise Violation("show", "other edges are shown than to_shapes gives")
        k += len(part)
        per_op[i] = got
        n += match(program_segs(op), got, op.name)
    groups = job.to_shapes()
    if len(groups) != len(job.operations):
        raise Violation("count", f"{len(groups)} coloured groups for {len(job.operations)} operations")
    for g, part in zip(groups, per_op):
        col = coloured(g, plane.rG)
        if len(col) != len(part):
            raise Violation("coloured", f"{len(col)} coloured shapes, {len(part)} edges")
        t = list(g.Children())[0].LocalTransformation()
        want = plane.rG.wrapped.Trsf()
        if any(abs(t.Value(r, c) - want.Value(r, c)) > 1e-9 for r in (1, 2, 3) for c in (1, 2, 3, 4)):
            raise Violation("coloured", "the coloured preview is not placed on the job plane")
        for (kind, e), s in zip(col, part):
            if (kind == "shape") != (s.kind == "arc"):
                raise Violation("coloured", f"a coloured {kind} for {s}")
            if e is not None and not agree(s, edge_seg(e, local)):
                raise Violation("coloured", f"a coloured {edge_seg(e, local)} for {s}")
    if job.to_gcode() != text:
        raise Violation("changed", "previewing changed the program")
    return {"nontrivial": n >= 5, "classes": sorted({"op:" + o["op"] for o in spec["ops"]}) + (["arcs"] if any(s.kind == "arc" for s in segs) else []),
            "count": {"matched": n}}
