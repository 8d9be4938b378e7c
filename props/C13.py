"""Step down and stepover of pockets are honoured."""
import math

import shapely

from vlib import paths, pockets, shapes as sh
from vlib.core import Violation

LEVEL = "exploration"
RULE = ("generated areas (several, overlapping, at several depths, with islands), avoid areas, offsets, stepovers, step downs and job planes; the cuts are replayed in "
        "order against what was cleared before, compared with the same pocket without step down, and the spacing of the loops measured; "
        "non-trivial: at least two layers or at least two loops in a layer")
QUICK = (160, 60)
THOROUGH = (9000, 800)


def strategy():
    return pockets.specs(stepdown=True)


def same_line(a, b):
    return a.geom_type == b.geom_type and abs(a.length - b.length) < 0.01 and a.equals_exact(b, 0.0021)


def run_case(spec):
    reg = pockets.Regions(spec)
    step = reg.step
    down = spec.get("stepdown")
    cuts = pockets.cut_lines(paths.op_moves(pockets.build(spec).operations[-1]))
    depths = [z for z in reg.depths]
    own = {}
    for z in depths:
        own[z] = [ln for cz, ln in cuts if abs(cz - z) < 0.0011]
    layers = sorted({round(z, 3) for z, _ in cuts}, reverse=True)
    loops = 0

    # stepover
    for z in depths:
        lines = own[z]
        if not lines:
            continue
        core = reg.at(z, -0.01, True)
        if not core.is_empty:
            gap = [p for p in sh.polys(core.difference(sh.swept(lines, step + 0.01))) if p.area > 1e-4]
            if gap:
                raise Violation("stepover", f"the loops at {z} are more than {step:.4f} apart at {gap[0].representative_point().wkt}")
        if len(spec["faces"]) == 1 and not spec.get("avoid") and not spec["faces"][0].get("inners"):
            # loops are the outline shrunk again and again, and the links between them
            want, n, k = 0.0, 0, 0
            outer = reg.faces[0][1]
            while True:
                loop = [p for p in sh.polys(sh.grow(outer, reg.oo - k * step)) if p.area > 0.01]
                if not loop:
                    break
                want += sum(p.length for p in loop)
                n += len(loop)
                k += 1
            got = sum(ln.length for ln in lines)
            loops = n
            slack = 0.02 * want + 0.3 * (n + 1)
            if got > want + n * (step + 0.01) + slack:
                raise Violation("stepover", f"{got:.2f} are cut at {z}, {n} loops {step:.4f} apart are {want:.2f} long")
            if got < want - slack - 0.01 * math.pi:
                raise Violation("stepover", f"only {got:.2f} are cut at {z}, {n} loops {step:.4f} apart are {want:.2f} long")

    if not down:
        extra = [z for z in layers if all(abs(z - d) > 0.0011 for d in depths)]
        if extra:
            raise Violation("layers", f"cuts at {extra[0]} without a step down, faces at {depths}")
        return {"nontrivial": loops > 1, "classes": ["one-layer", f"loops:{min(loops, 6)}"]}

    # the finished pocket is that of no step down
    plain = pockets.cut_lines(paths.op_moves(pockets.build(spec, stepdown=None).operations[-1]))
    for z in depths:
        p, s = [ln for cz, ln in plain if abs(cz - z) < 0.0011], list(own[z])
        for ln in p:
            for i, o in enumerate(s):
                if same_line(ln, o):
                    del s[i]
                    break
            else:
                raise Violation("layers", f"a path of the pocket at {z} is not cut with a step down of {down}")
    # in the order of the program: never deeper than the step down below what was cleared before
    done = []
    counts = []
    for z, ln in cuts:
        if len(depths) == 1 and any(abs(cz - z) < 0.0011 and same_line(ln, c) for cz, c in done):
            raise Violation("repeated", f"a path at {z} is cut twice, step down {down}")
        if z < -down - 0.0011 and not any(cz <= z + down + 0.0011 and same_line(ln, c) for cz, c in done):
            above = [c for cz, c in done if cz <= z + down + 0.0011]
            left = ln.difference(sh.swept(above, reg.r + 0.01)) if above else ln
            if step <= reg.r + 1e-9 and left.length > 0.01 or not above:
                raise Violation("deep", f"cuts {left.length:.3f} at {z} where nothing was cleared to {z + down:.4f} before, step down {down}")
        done.append((z, ln))
        for c in counts:
            if same_line(c[0], ln):
                c[1] += 1
                need = math.ceil(-z / down - 0.002 / down)
                n_own = sum(1 for d in depths if d > z + 0.0011)
                if c[1] > need + n_own and len(depths) == 1:
                    raise Violation("layers", f"{c[1]} layers down to {z}, {need} needed with a step down of {down}")
                break
        else:
            counts.append([ln, 1])
    return {"nontrivial": len(layers) > 1 or loops > 1, "classes": [f"layers:{min(len(layers), 8)}", f"faces:{len(spec['faces'])}", f"loops:{min(loops, 6)}"],
            "count": {"layers": len(layers)}}
