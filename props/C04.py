"""Jobs are values: branching, rendering and reuse of inputs never change another job."""
import tempfile
import os

from hypothesis import strategies as st

from vlib import gen, jobs, oracle, shapes as sh
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated histories: a tree of jobs grown by appending operations to any earlier job, and of a second job on another plane with the same shapes, mixed with rendering, saving and "
        "previewing any job; every job is compared with its first rendering and with a job built afresh from its own path; "
        "non-trivial: some job has at least two children, or a job was extended after another branch was")
QUICK = (130, 150)
THOROUGH = (3500, 800)


@st.composite
def _spec(draw):
    p = draw(jobs.job_params())
    p["tool_diameter"] = draw(st.sampled_from([1, 1.5, 0.75, 1.25, None]))
    ops = draw(st.lists(jobs.small_op(), min_size=1, max_size=4))
    n = len(ops)
    step = st.one_of(
        st.tuples(st.just("add"), st.integers(0, 7), st.integers(0, n - 1)),
        st.tuples(st.just("add"), st.integers(0, 7), st.integers(0, n - 1)),
        st.tuples(st.just("tool"), st.integers(0, 7), st.integers(0, 3)),
        st.tuples(st.sampled_from(["render", "save", "save", "preview"]), st.integers(0, 7), st.integers(0, 7)),
    ).map(list)
    return {"job": p, "plane": draw(gen.planes()), "ops": ops,
            "other": draw(st.one_of(st.none(), _other())),
            "tools": draw(st.lists(jobs.tools(), min_size=1, max_size=3)),
            "steps": draw(st.lists(step, min_size=2, max_size=9))}


@st.composite
def _other(draw):
    """Another job with the same shapes: on a plane turned, shifted and raised against the first, with another tool."""
    p = draw(jobs.job_params())
    p["tool_diameter"] = draw(st.sampled_from([1, 1.5, 0.8, 2]))
    return {"job": p, "turn": draw(st.sampled_from([0, 0, 90, 30])), "d": [draw(st.sampled_from([0, 5, -12.5])), draw(st.sampled_from([0, 7.25])), draw(st.sampled_from([0, 0, 1, 2.5]))]}


def other_plane(plane, o):
    q = sh.make_plane(plane)
    q.origin = q.toWorldCoords(tuple(o["d"]))
    return q.rotated((0, 0, o["turn"])) if o["turn"] else q


def strategy():
    return _spec()


class Reuse:
    """Operations whose shapes, tools and tabs are built once and used again and again."""

    def __init__(self, spec, plane):
        self.plane = plane
        self.ops = [self.prepare(op) for op in spec["ops"]]
        self.tools = [jobs.make_tool(t) for t in spec["tools"]]

    def prepare(self, op):
        k = op["op"]
        out = {"k": k, "tool": jobs.make_tool(op.get("tool")), "op": op}
        if k == "drill":
            out["args"] = [[sh.to_world(self.plane, x, y, 0) for x, y in op["points"]]]
            out["kw"] = {"depth": op["depth"]}
        elif k == "wire_profile":
            out["args"] = [[sh.make_wire(f["outer"], self.plane, f["z"]) for f in op["faces"]]]
            out["kw"] = {"offset": op["offset"], "stepdown": op.get("stepdown"), "tabs": jobs.make_tabs(op.get("tabs"))}
        elif k == "profile":
            out["args"] = [[sh.make_face(f, self.plane) for f in op["faces"]]]
            out["kw"] = {"outer_offset": op["outer"], "inner_offset": op["inner"], "stepdown": op.get("stepdown"),
                         "tabs": jobs.make_tabs(op.get("tabs"))}
        else:
            out["args"] = [[sh.make_face(f, self.plane) for f in op["faces"]]]
            out["kw"] = {k: tuple(v) if isinstance(v, list) else v for k, v in op.items() if k in ("stepover", "stepdown", "outer_offset")}
            if op.get("avoid"):
                out["kw"]["avoid_areas"] = [sh.make_face(f, self.plane) for f in op["avoid"]]
        return out

    def needs_diameter(self, i):
        op = self.ops[i]["op"]
        return op["op"] != "drill" and not (op.get("tool") or {}).get("tool_diameter")

    def add(self, job, i):
        o = self.ops[i]
        return getattr(job, o["k"])(*o["args"], tool=o["tool"], **o["kw"])

    def snapshot(self):
        out = []
        for o in self.ops:
            t = o["tool"]
            out.append((None if t is None else dict(vars(t)), len(o["args"][0]),
                        [getattr(s, "hashCode", lambda s=s: s.toTuple())() for s in o["args"][0]],
                        [s.hashCode() for s in o["kw"].get("avoid_areas", [])]))
        return out + [dict(vars(t)) for t in self.tools]


SETTINGS = ("feed", "plunge_feed", "speed", "tool_diameter", "tool_number", "name", "rapid_height", "op_safe_height", "precision", "unit", "coordinate",
            "controller_motion", "coolant", "top")


def settings_of(job):
    return {k: getattr(job, k) for k in SETTINGS if hasattr(job, k)}


def build(p, top, plane, spec, path):
    reuse = Reuse(spec, plane)
    job = jobs.make_job(p, top)
    for kind, i in path:
        job = reuse.add(job, i) if kind == "add" else job.update_tool(reuse.tools[i])
    return job


def run_case(spec):
    p = spec["job"]
    plane = sh.make_plane(spec["plane"])
    reuse = Reuse(spec, plane)
    before = reuse.snapshot()
    root = jobs.make_job(p, plane)
    alive = [root]
    paths = [[]]
    first = [root.to_gcode()]
    settings = [settings_of(root)]
    children = [0]
    roots = [(p, lambda: sh.make_plane(spec["plane"]))]
    root_of = [0]
    if spec.get("other"):
        # a second job that shares all shapes with the first
        o = spec["other"]
        roots.append((o["job"], lambda: other_plane(spec["plane"], o)))
        alive.append(jobs.make_job(o["job"], roots[1][1]()))
        paths.append([])
        first.append(alive[1].to_gcode())
        settings.append(settings_of(alive[1]))
        children.append(0)
        root_of.append(1)
    preview = {}

    def look(i, when):
        t = alive[i].to_gcode()
        if t != first[i]:
            raise Violation("changed", f"job {i} (path {paths[i]}) renders differently {when}:\n{diff(first[i], t)}")
        for k, v in settings_of(alive[i]).items():
            if v is not settings[i][k] and v != settings[i][k]:
                raise Violation("changed", f"job {i} (path {paths[i]}) has the {k} {v} {when}, {settings[i][k]} before")

    for step in spec["steps"]:
        kind, at, arg = step
        at %= len(alive)
        if kind in ("add", "tool"):
            if kind == "add":
                if alive[at].tool_diameter is None and reuse.needs_diameter(arg % len(reuse.ops)):
                    # refused (see C16), here for what it leaves behind
                    try:
                        reuse.add(alive[at], arg % len(reuse.ops))
                    except (ValueError, TypeError):
                        look(at, "after a refusal")
                        continue
                    raise Violation("history", f"job {at} (path {paths[at]}) has no diameter, but does {spec['ops'][arg % len(reuse.ops)]['op']}")
                new = reuse.add(alive[at], arg % len(reuse.ops))
                path = paths[at] + [("add", arg % len(reuse.ops))]
            else:
                new = alive[at].update_tool(reuse.tools[arg % len(reuse.tools)])
                path = paths[at] + [("tool", arg % len(reuse.tools))]
            if new is alive[at]:
                raise Violation("identity", f"{kind} returned the job it was called on")
            look(at, f"after {kind}")
            children[at] += 1
            alive.append(new)
            paths.append(path)
            first.append(new.to_gcode())
            settings.append(settings_of(new))
            children.append(0)
            root_of.append(root_of[at])
        elif kind == "render":
            look(at, "when rendered again")
        elif kind == "save":
            # to a new file, over a longer one, and over the file of another job
            with tempfile.TemporaryDirectory(prefix="verif-save-") as d:
                f = os.path.join(d, "a.nc")
                if arg % 3 == 1:
                    with open(f, "w") as fh:
                        fh.write(first[at] + "\nG0 X1000\n")
                elif arg % 3 == 2:
                    alive[(at + arg) % len(alive)].save_gcode(f)
                alive[at].save_gcode(f)
                with open(f) as fh:
                    saved = fh.read()
            if saved != first[at]:
                raise Violation("saved", f"the file of job {at} differs from its program:\n{diff(first[at], saved)}")
        else:
            n = len(alive[at].to_shapes(as_edges=True))
            if preview.setdefault(at, n) != n:
                raise Violation("changed", f"job {at} previews {n} edges, {preview[at]} before")
    for i in range(len(alive)):
        look(i, "at the end")
        q, top = roots[root_of[i]]
        fresh = build(q, top(), sh.make_plane(spec["plane"]), spec, paths[i]).to_gcode()
        if fresh != first[i]:
            raise Violation("history", f"job {i} (path {paths[i]}) differs from one built alone:\n{diff(fresh, first[i])}")
    after = reuse.snapshot()
    if after != before:
        raise Violation("input", "an argument was modified")
    branched = any(c >= 2 for c in children)
    return {"nontrivial": branched, "classes": [f"jobs:{len(alive)}", f"branched:{branched}"] + sorted({s[0] for s in spec["steps"]}),
            "count": {"jobs": len(alive)}}


def diff(a, b):
    al, bl = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(al, bl)):
        if x != y:
            return f"line {i + 1}: {x!r} / {y!r}"
    return f"{len(al)} / {len(bl)} lines"
