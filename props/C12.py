"""A pocket clears everything the tool can reach."""
from vlib import paths, pockets, shapes as sh
from vlib.core import Reject, Violation

LEVEL = "exploration"
RULE = ("generated areas (several, overlapping, at several depths, with islands), avoid areas, offsets, stepovers up to the tool radius and job planes; "
        "the area swept at the depth of each face is compared with everything a tool with its centre in the allowed region reaches; non-trivial: "
        "something is cut and there is an island, an avoid area, a second area, an area of many rings or a region in several pieces")
QUICK = (160, 60)
THOROUGH = (9000, 800)


def strategy():
    return pockets.specs(stepdown=False, max_stepover=1)


def uncut(core, lines, r, eps=0.01):
    """What a tool of a radius with its centre in the allowed region reaches but these paths do not."""
    if core.is_empty:
        return core
    if not lines:
        return core
    return sh.grow(core, r, 48).difference(sh.swept(lines, r + eps / 2))


def run_case(spec):
    reg = pockets.Regions(spec)
    if reg.step > reg.r + 1e-9:
        raise Reject("stepover larger than the tool radius")
    job = pockets.build(spec)
    cuts = pockets.cut_lines(paths.op_moves(job.operations[-1]))
    pieces = 0
    for z in reg.depths:
        allowed = reg.at(z, own=True)
        lines = [ln for cz, ln in cuts if abs(cz - z) < 0.0011]
        left = uncut(reg.at(z, -0.01, True), lines, reg.r)
        bad = [p for p in sh.polys(left) if p.area > 1e-5]
        if bad:
            b = max(bad, key=lambda p: p.area)
            raise Violation("standing", f"{b.area:.4f} mm2 left standing at {b.representative_point().wkt}, z {z}, of {allowed.area:.2f} allowed")
        pieces = max(pieces, len(sh.polys(allowed)))
    if not cuts and any(not reg.at(z, -0.01, True).is_empty for z in reg.depths):
        raise Violation("standing", "nothing is cut")
    return {"nontrivial": bool(cuts) and ("large" in spec or len(spec["faces"]) > 1 or "avoid" in spec or pieces > 1 or any("inners" in f for f in spec["faces"])),
            "classes": [f"faces:{len(spec['faces'])}", "avoid" if "avoid" in spec else "no-avoid", "mode:" + spec["mode"], f"pieces:{min(pieces, 4)}",
                        "islands" if any("inners" in f for f in spec["faces"]) else "plain", "cut" if cuts else "nothing-fits"] + ["large"] * ("large" in spec),
            "count": {"cut_paths": len(cuts)}}
