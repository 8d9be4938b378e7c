"""A pocket never cuts outside its area."""
import shapely

from vlib import paths, pockets, shapes as sh
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated areas (several, overlapping, at several depths, with islands), avoid areas, offsets given as multiples or with a distance, "
        "stepovers, step downs and job planes; everything cut at a depth is compared with the region the centre is allowed in there; non-trivial: "
        "something is cut and there is an island, an avoid area or a second area")
QUICK = (160, 60)
THOROUGH = (9000, 700)
TOL = 0.004


def strategy():
    return pockets.specs(stepdown=True)


def run_case(spec):
    reg = pockets.Regions(spec)
    job = pockets.build(spec)
    cuts = pockets.cut_lines(paths.op_moves(job.operations[-1]))
    bottom = min(reg.depths)
    layers = {}
    for z, line in cuts:
        if z < bottom - 0.0011:
            raise Violation("deep", f"cuts at {z}, the deepest face is at {bottom}")
        layers.setdefault(round(z, 3), []).append(line)
    for z, lines in layers.items():
        allowed = reg.at(z, TOL)
        if allowed.is_empty:
            raise Violation("gouge", f"cuts at {z} where nothing is to be cut")
        shapely.prepare(allowed)
        for ln in lines:
            if allowed.contains(ln):
                continue
            out = ln.difference(allowed)
            if not out.is_empty:
                pts = paths.samples(out, 0.05)
                d = shapely.distance(reg.at(z), pts)
                i = int(d.argmax())
                raise Violation("gouge", f"the tool centre leaves the allowed region by {d[i]:.4f} at {pts[i].wkt}, z {z}")
    return {"nontrivial": bool(cuts) and (len(spec["faces"]) > 1 or "avoid" in spec or any("inners" in f for f in spec["faces"])),
            "classes": [f"faces:{len(spec['faces'])}", "avoid" if "avoid" in spec else "no-avoid", "mode:" + spec["mode"],
                        "islands" if any("inners" in f for f in spec["faces"]) else "plain", "cut" if cuts else "nothing-fits"],
            "count": {"cut_paths": len(cuts)}}
