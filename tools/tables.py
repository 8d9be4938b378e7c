#!/usr/bin/env python3
"""The tables behind properties.jsonl, MANIFEST.json and known_findings.json; run it to rewrite the three files."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/cq_cam/"


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": [SRC + f for f in files],
            "mechanism": [{"name": n, "where": SRC + w} for n, w in mechanism],
            "observe_at": observe,
        },
        "_technique": technique, "_note": note,
    }


PROPS = [
    P("C01", "Every job renders to one well-formed, framed program",
      "Any sequence of operations on any job settings renders to a single program that a strict RS-274 reader accepts: a header comment first, one "
      "setup block, one labelled section per tool change, speed change and operation in the order they were requested, a safe retract, program end "
      "last, and nothing after it. Every arc's endpoints agree with its centre, every number is a plain decimal, and user text such as the job name "
      "never escapes its comment. Rendering the same job twice gives the same text.",
      ["inputs", "programs"], "every job setting, job plane and sequence of profile, wire profile, pocket and drill operations with tools",
      "tests compare a handful of fixed programs; no test parses the output or combines operations, names, units and tools freely",
      ["fluent.py", "command.py", "operations/base_operation.py", "groups.py"],
      [("program assembly", "fluent.py Job.to_gcode"), ("operation text and headers", "operations/base_operation.py Operation.to_gcode"),
       ("word formatting", "command.py")],
      ["Job.to_gcode()"],
      "property-based testing: generated jobs, output read back by an independent strict RS-274 reader",
      "Searches generated jobs of up to four operations; trusts the RS-274 reader written for this purpose (vlib/gcode.py)."),
    P("C02", "The declared unit, work offset and path mode govern every move",
      "At every axis move of a program the modal state of the controller is the one the job declares: its unit, its work offset and its path mode, "
      "with absolute coordinates, the XY plane, no cutter compensation and feed per minute. Heights that are left out take the defaults of the "
      "job's unit (10 and 1 mm, or 0.4 and 0.04 inch), and explicit heights, zero included where it is given, are used as given.",
      ["configurations", "programs"], "every combination of unit, work offset, path mode and heights, with any operations following",
      "tests render one default and one explicit preamble; they never run it through a controller model up to the moves it governs",
      ["fluent.py", "operations/base_operation.py", "groups.py", "command.py"],
      [("preamble", "operations/base_operation.py SafetyBlock"), ("default heights", "fluent.py Job.__init__"), ("codes", "groups.py")],
      ["Job.to_gcode()"],
      "property-based testing: generated job settings, simulated controller state compared with the declared one at every move",
      "Enumerates settings by random generation; the simulated controller implements the modal groups this code emits."),
    P("C03", "Tool, spindle, coolant and feeds in force at each cut are those requested",
      "At every cutting move of an operation the tool loaded, the spindle speed, the running spindle, the coolant, the feed and the plunge feed are "
      "those in force for that operation: the settings of the job as changed by the tools of this and all earlier operations. A tool change happens "
      "exactly when the tool number changes, with spindle stopped and coolant off at the change, and both are restored before the next cut; no "
      "redundant tool or speed change is emitted.",
      ["histories", "configurations"], "every sequence of operations with tools that change number, speed, feed or diameter in any combination",
      "tests check the text of single tool changes; which settings survive which earlier change is a question over histories",
      ["fluent.py", "operations/base_operation.py", "tool.py", "command.py"],
      [("settings in force", "fluent.py Job.update_tool"), ("tool change protocol", "operations/base_operation.py ToolChange"),
       ("feed words", "command.py CutCommand"), ("start speed", "fluent.py Job.to_gcode")],
      ["Job.to_gcode()", "Job.operations"],
      "stateful property-based testing: generated operation histories against a reference model of the settings in force",
      "Histories of up to five operations; controller model as in C02."),
    P("C04", "Jobs are values: extending, rendering or reusing one never changes another",
      "Every fluent call returns a new job and leaves the job it was called on, all jobs branched from it, and the shapes, points, tools and tabs "
      "passed in as they were. A job's program depends only on its own settings and own chain of operations, whatever other jobs were built, rendered, "
      "previewed or saved before, in between or after. A saved file holds exactly the rendered program.",
      ["histories"], "every tree of jobs grown by extending any earlier job, interleaved with rendering, saving and previewing, sharing inputs",
      "tests extend one job linearly; aliasing between branches shows only for particular histories",
      ["fluent.py", "operations/tabs.py", "visualize.py"],
      [("copy on extend", "fluent.py Job._add_operation, Job.update_tool"), ("render", "fluent.py Job.to_gcode"), ("save", "fluent.py Job.save_gcode"),
       ("tab state", "operations/tabs.py")],
      ["Job.to_gcode()", "Job.save_gcode()", "Job.to_shapes()"],
      "stateful property-based testing: generated histories, every job compared with a job built afresh from its own path",
      "Histories of up to about a dozen steps over up to four distinct operations."),
    P("C05", "Command text reproduces the tool path to the output resolution without drift",
      "Replaying the text of a chain of motion commands on a controller puts the tool, after each block, within half a thousandth of the exact "
      "target on every axis, with omitted axes unmoved, no matter how long the chain is. Arcs keep their direction, end and centre to the same "
      "resolution, and words are left out only where the modal state already holds them.",
      ["inputs", "programs"], "every chain of rapids, plunges, retracts, cuts and arcs with arbitrary coordinates and omitted axes",
      "tests check a few short chains with round coordinates; rounding drift and modal omission depend on the whole preceding chain",
      ["command.py", "address.py"],
      [("relative or omitted words", "command.py MotionCommand.to_gcode"), ("number formatting", "address.py"), ("arc centres", "command.py CircularCommand")],
      ["Command.to_gcode()"],
      "property-based testing: generated command chains, text replayed on a simulated controller (round trip)",
      "Chains of up to a few dozen commands, coordinates up to a few hundred with arbitrary fractions."),
    P("C06", "The preview shows the same motion as the program",
      "The shapes a job gives for preview trace the motion of its program: one edge for every move an operation makes once its "
      "starting position is known, in the order of the program, straight or circular like the move, with the same "
      "start, end and arc placed on the job plane in space. Previewing and showing agree with each other, never fail for a job "
      "that renders, and leave the job unchanged.",
      ["inputs", "programs"], "every job plane and every job with profile, pocket and drill operations, arcs and tabs included",
      "tests never compare the preview with the program; the two are produced by separate code from the same commands",
      ["visualize.py", "command.py", "fluent.py", "operations/base_operation.py"],
      [("edges of commands", "command.py to_shape methods"), ("assembly and colours", "visualize.py"), ("per job shapes", "fluent.py Job.to_shapes")],
      ["Job.to_shapes()", "visualize_job"],
      "property-based testing: differential check of preview edges against the replayed program text",
      "Compares kernel edges with the replayed program to a few thousandths on generated jobs."),
    P("C07", "Rapids stay clear of the material",
      "Every rapid of a program either moves straight up or down in air or travels with the tool at or above the operation safe height, "
      "and travel between operations and to the first entry happens at the rapid height. The tool enters and goes deeper into the material only by feed moves, "
      "never by a rapid below the operation safe height.",
      ["inputs", "programs"], "every job with any heights, operations, step downs, tabs, positions and tool changes",
      "tests fix a few programs with default heights; a rapid through material needs a particular combination of layers, loops or entry points",
      ["routers.py", "operations/base_operation.py", "operations/drill.py", "operations/pocket.py", "command.py"],
      [("entry and exit of wires", "routers.py rapid_to, route_wires"), ("pocket links", "routers.py route_polyface_outers"), ("drill cycle", "operations/drill.py"),
       ("safe retract", "operations/base_operation.py SafetyBlock")],
      ["Job.to_gcode()"],
      "property-based testing: invariant over every rapid of generated programs on a simulated controller",
      "Stock is taken to lie at or below the job plane. One known finding (homing from depth) is listed."),
    P("C08", "A profile cuts exactly the contour offset by the requested tool radii",
      "For every closed planar contour and every offset multiplier, the tool centre follows the contour at exactly that multiple of the tool radius, "
      "outside for positive and inside for negative values, never closer, on the whole offset contour and nothing else, at the depth of the shape; a "
      "contour the tool does not fit into is not cut. For faces this holds for the outer contour and each hole with its own offset, holes before "
      "outlines, whichever way the face is given (single, list, workplane, part of a solid, relocated).",
      ["inputs"], "every planar closed contour of lines, arcs and circles, tool diameter, offset and job plane",
      "tests check rectangles and one circle with fixed tools; kernel offset errors depend on the shape",
      ["operations/profile.py", "utils/geometry_op.py", "utils/circle_bug_workaround.py", "routers.py", "utils/utils.py", "fluent.py"],
      [("offset", "utils/geometry_op.py offset_wire"), ("face to wires", "fluent.py Job.profile"), ("transform to the job plane", "operations/profile.py profile"),
       ("routing", "routers.py route_wires")],
      ["Operation.to_gcode() of the profile"],
      "property-based testing: generated contours against a level-set oracle computed independently with shapely",
      "Lines, arcs and circles of about 3 to 80 mm, tolerance 0.004 mm; splines are C17. Kernel crashes are listed as a known finding."),
    P("C09", "Step down splits a profile into complete layers no deeper than asked",
      "With a step down, a profile cuts its whole offset contour once per layer, from the top down, the last layer exactly at the depth of the shape. "
      "No layer goes deeper below the previous one (or the job plane) than the step down, no layer is repeated or lies above the job plane, and "
      "no more layers are cut than the depth needs; without a step down there is exactly one layer.",
      ["inputs"], "every contour, depth, step down, job plane, offset and number of wires",
      "tests check one rectangle with one step down; uneven divisions, thin last layers and tilted planes are not sampled",
      ["operations/profile.py", "fluent.py", "routers.py"],
      [("layers", "operations/profile.py profile"), ("layer routing", "routers.py route_wires"), ("job plane face", "fluent.py Job.top_plane_face")],
      ["Operation.to_gcode() of the profile"],
      "property-based testing: layer invariants over generated depths and step downs",
      "Up to about fifteen layers of generated contours."),
    P("C10", "Tabs leave material standing and never change the path in plan",
      "Along every tab the tool stays at or above the tab height over the bottom of the cut, for at least the requested width and at every requested "
      "place, and outside the tabs every layer is cut at its full depth. The path in plan is the same as without tabs, layers above the tabs are "
      "untouched, and the tool enters and leaves a tab without leaving the contour.",
      ["inputs", "configurations"], "every contour, offset, step down, and number, spacing, width and height of wire or edge tabs",
      "tests check transition lists and one rectangle; whether material stands depends on contour, seam, orientation and layer",
      ["operations/tabs.py", "operations/profile.py"],
      [("tab positions", "operations/tabs.py WireTabs, EdgeTabs"), ("tabs applied to a layer", "operations/profile.py apply_tabs")],
      ["Operation.to_gcode() of the profile"],
      "property-based testing: swept tab material compared between tabbed and untabbed runs of generated profiles",
      "Lines, arcs and circles; tolerance a few thousandths."),
    P("C11", "A pocket never cuts outside its area",
      "Whatever the areas, islands, avoid areas and offsets, the tool centre of a pocket stays inside every outline and outside every island and avoid "
      "area by the requested offsets, links between loops included. Nothing is cut below the face.",
      ["inputs"], "every planar face with holes, avoid areas, tool, offsets, stepover and job plane",
      "tests count commands or compare one rectangle; a gouge depends on how loops, islands and links are combined",
      ["operations/pocket.py", "utils/geometry_op.py", "routers.py", "operations/strategy.py", "utils/tree.py", "fluent.py"],
      [("offset areas", "utils/geometry_op.py offset_polyface"), ("loops", "operations/pocket.py fill_pocket_contour_shrink"),
       ("links", "routers.py route_polyface_outers"), ("boolean operations", "utils/geometry_op.py difference_poly_tree")],
      ["Operation.to_gcode() of the pocket"],
      "property-based testing: swept centre path of generated pockets against shapely regions",
      "Tolerance 0.01 to 0.02 mm (pockets work on polylines)."),
    P("C12", "A pocket clears everything the tool can reach",
      "Every point of the pocket that a tool centre allowed by the outlines, islands, avoid areas and offsets can reach is cut: no standing material, "
      "whatever the stepover up to the whole tool radius. Separate areas and parts cut in two by islands are all cleared, and a pocket the tool does not fit into gives "
      "no cuts.",
      ["inputs"], "every planar face with holes, avoid areas, tool, offsets, stepover up to one and job plane",
      "tests never compute the cleared area; uncut slivers depend on shape, tool and stepover",
      ["operations/pocket.py", "utils/geometry_op.py", "routers.py", "utils/tree.py"],
      [("loops", "operations/pocket.py fill_pocket_contour_shrink"), ("routing of all loops", "routers.py route_polyface_outers")],
      ["Operation.to_gcode() of the pocket"],
      "property-based testing: swept area of generated pockets against the opening of the reachable region",
      "Slivers of negligible width are not counted."),
    P("C13", "Step down and stepover of pockets are honoured",
      "Each layer of a pocket is a complete pocket, layers go from the top down in steps no larger than the step down, and the last lies exactly at the "
      "depth of the face, faces at different depths each at their own. Neighbouring loops are no further apart than the stepover times the tool radius.",
      ["inputs"], "every face, depth, step down, stepover, tool and job plane",
      "tests check one pocket with one step down",
      ["operations/pocket.py", "routers.py", "fluent.py"],
      [("depths", "operations/pocket.py pocket"), ("stepover", "operations/pocket.py fill_pocket_contour_shrink")],
      ["Operation.to_gcode() of the pocket"],
      "property-based testing: layer and loop-spacing invariants over generated pockets",
      "Stepovers between 0.2 and 1.5."),
    P("C14", "Drilling visits every hole exactly once, at its centre, to the depth asked for",
      "For any points, wires, faces or workplanes given, the tool plunges exactly once at each requested point or circle centre (the holes of a face that has any, "
      "else its outline), at its position in the job plane, to the requested depth below the job plane, "
      "and nowhere else. Between holes it retracts.",
      ["inputs"], "every set of points, circles, faces and workplanes on every job plane, with every depth",
      "tests drill one pattern and check its text",
      ["operations/drill.py", "fluent.py", "utils/utils.py"],
      [("centres", "fluent.py Job.drill"), ("drill cycle", "operations/drill.py")],
      ["Operation.to_gcode() of the drill"],
      "property-based testing: generated hole patterns against the list of plunges",
      "Positions to half the output resolution."),
    P("C15", "The program depends only on the shapes relative to the job plane",
      "Moving or rotating the job plane and the shapes together leaves the program the same. Turning, mirroring or shifting the shapes within the job plane turns, mirrors or shifts "
      "the cuts with them, and translating the job plane alone translates them the other way.",
      ["inputs"], "every job, rigid motion of space and translation or rotation in the plane",
      "tests nearly all use the XY plane at the origin",
      ["fluent.py", "operations/profile.py", "operations/pocket.py", "operations/drill.py", "routers.py"],
      [("transform to the job plane", "operations/profile.py profile, operations/pocket.py, operations/drill.py")],
      ["Job.to_gcode()"],
      "metamorphic property-based testing: generated jobs replayed under generated rigid motions",
      "Programs are compared as sets of cut paths to a few thousandths, since start points may differ by rounding."),
    P("C16", "Impossible requests are refused before anything is emitted",
      "A request that cannot be carried out (no tool diameter, neither offset, no or unusable shapes, a face that is not parallel to the job plane or lies "
      "above it, drilling without a depth, tabs wider than their spacing, more layers than the limit) raises an error instead of giving a program, and "
      "a possible one is never refused. After a refusal the job renders as before and can still be extended.",
      ["inputs", "histories"], "every kind of impossible request in every operation at every point of a job's history",
      "tests check a few refusals on empty jobs",
      ["fluent.py", "operations/pocket.py", "operations/profile.py", "operations/drill.py", "operations/tabs.py", "utils/utils.py"],
      [("validation", "fluent.py Job.profile, Job.pocket, Job.drill"), ("limits", "operations/profile.py profile"), ("tabs", "operations/tabs.py EdgeTabs")],
      ["exceptions of the Job methods", "Job.to_gcode()"],
      "property-based testing: generated impossible requests mixed into generated jobs, with a refusal oracle",
      "Refusals listed in DESIGN.md."),
    P("C17", "Curves are followed to the working resolution",
      "Profiles of splines, offset splines and other free curves and pockets bounded by arcs or splines follow the exact curve as closely as the working precision promises, "
      "in the right order and direction whatever the orientation of the edges, with the interpolated points on the curve.",
      ["inputs"], "every closed contour containing splines, ellipse-like curves or arcs, at every scale, orientation and offset",
      "tests interpolate a few edges; error depends on curvature, scale and orientation",
      ["utils/interpolation.py", "routers.py", "utils/utils.py", "utils/geometry_op.py"],
      [("interpolation", "utils/interpolation.py"), ("edge routing", "routers.py route_edge"), ("ordered edges", "utils/utils.py wire_to_ordered_edges")],
      ["Operation.to_gcode()", "wire_to_vectors"],
      "property-based testing: generated spline contours against dense kernel samples",
      "Oracle samples the kernel's own curve evaluation."),
    P("C18", "A surface job keeps to its area and follows the drop cutter",
      "A surface operation gives the drop cutter the faces as they lie in the job plane and the tool, and cuts at the heights it answers: no cut lies below that height or, in a layer, "
      "below the layer's bottom, layers go down by at most the step down, and the last one is at the drop cutter's height. Cuts stay inside the outlines of the faces "
      "grown by the outer offset, and cover them with parallel lines no further apart than the stepover. Entries are vertical at the plunge feed, cuts use the cutting feed, "
      "rapids stay at or above the safe heights.",
      ["inputs"], "every area, tool, stepover, step down and drop-cutter height field",
      "tests use two fixed areas; without the optional drop-cutter library most of the operation is never run",
      ["operations/op3d.py", "operations/strategy.py", "utils/linked_polygon.py", "fluent.py"],
      [("fill", "operations/strategy.py ZigZagStrategy"), ("layers", "operations/op3d.py Surface3D"), ("linking", "utils/linked_polygon.py")],
      ["ZigZagStrategy.process()", "Surface3D operation text"],
      "property-based testing: generated areas and height fields, drop cutter replaced by a stand-in",
      "The drop-cutter library is not installed: a stand-in computes the heights."),
    P("C19", "Equivalent ways of giving a shape give the same cuts",
      "A contour or area gives the same cuts whether it comes as a wire or a face, alone, in a list or on a workplane or taken from a solid, in either orientation, starting at any of "
      "its vertices, directly built or moved into place, and with its edges split into collinear pieces. Several shapes in one operation give the same cuts as one "
      "operation for each.",
      ["inputs"], "every shape and every pair of equivalent representations",
      "tests use one representation per operation",
      ["fluent.py", "utils/utils.py", "operations/profile.py", "operations/pocket.py"],
      [("input handling", "fluent.py, utils/utils.py flatten_list, extract_wires"), ("edge order", "utils/utils.py wire_to_ordered_edges")],
      ["Operation.to_gcode()"],
      "metamorphic property-based testing: generated shapes in pairs of representations",
      "Cuts compared as sets of points to a few thousandths."),
    P("C20", "The geometry helpers agree with exact geometry",
      "The distance from a point to a segment or path with the closest point and its position, the offset of a path, the union and difference of contours with holes, "
      "the simplification of a path within a tolerance and the splitting of a tree of loops into sequences agree with their mathematical definitions "
      "for all inputs, degenerate, collinear and touching ones included. None of them moves, loses or invents part of a path, or changes the path given.",
      ["inputs"], "every point, segment, path, set of contours and tree of loops",
      "tests check a few points, squares and trees",
      ["utils/utils.py", "utils/geometry_op.py", "utils/tree.py"],
      [("distances", "utils/utils.py dist_to_segment_squared, utils/geometry_op.py distance_to_path"), ("offsets and booleans", "utils/geometry_op.py offset_path, union_poly_tree, difference_poly_tree, union_polyfaces"),
       ("sequences", "utils/tree.py Tree.sequences")],
      ["the functions themselves"],
      "property-based testing: generated inputs against rational arithmetic, shapely and brute-force definitions",
      "Direct function checks."),
]


def commits():
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout
    return [ln.split(" ", 1) for ln in out.splitlines() if ln.split(" ", 1)[1].startswith("fix:")]


# which property each repair belongs to, and what failed, by the subject of the commit
FIXED = json.load(open(os.path.join(V, "tools", "fixed.json")))
KNOWN = json.load(open(os.path.join(V, "tools", "known.json")))


def main():
    props = [p for p in PROPS if os.path.exists(os.path.join(V, "props", p["id"] + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    assert not [p["title"] for p in PROPS if len(p["title"]) > 80], [p["title"] for p in PROPS if len(p["title"]) > 80]
    checks = []
    for p in props:
        i = p["id"]
        checks.append({
            "property": i, "quick_cmd": f"python3 run.py check {i} --tier quick", "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": p["_technique"], "level": "exploration", "level_note": p["_note"],
        })
    man = {
        "version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
        "notes": "No hooks. 'python3 run.py replay FILE' runs one stored case. known_findings.json lists what is recorded and what was repaired.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    fixed, seen = [], set()
    for h, subject in commits():
        pid, what = FIXED[subject]
        fixed.append(f"fixed: property={pid} {h} {what}")
        seen.add(subject)
    assert seen == set(FIXED), set(FIXED) - seen
    with open(os.path.join(V, "known_findings.json"), "w") as f:
        json.dump({"findings": KNOWN, "fixed": fixed}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
