"""Hypothesis strategies for JSON specs: contours, planes, jobs."""
from __future__ import annotations

import math

from hypothesis import strategies as st

from . import shapes as sh


def grid(lo, hi, step):
    """Multiples of step in [lo, hi]; shrinks towards lo (or 0)."""
    a, b = round(lo / step), round(hi / step)
    dec = max(0, -math.floor(math.log10(step)) + 2)
    return st.integers(a, b).map(lambda i: round(i * step, dec))


dims = grid(6, 40, 0.5)


@st.composite
def rects(draw, lo=6, hi=40):
    w, h = draw(grid(lo, hi, 0.5)), draw(grid(lo, hi, 0.5))
    return [(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)]


@st.composite
def regulars(draw, lo=4, hi=25):
    n = draw(st.integers(3, 9))
    r = draw(grid(lo, hi, 0.5))
    return [(round(r * math.cos(2 * math.pi * i / n), 6), round(r * math.sin(2 * math.pi * i / n), 6)) for i in range(n)]


@st.composite
def stars(draw, lo=5, hi=25):
    """Star-shaped around the origin, so simple by construction; convex or not."""
    n = draw(st.integers(4, 9))
    pts = []
    for i in range(n):
        r = draw(grid(lo, hi, 0.5))
        jit = draw(st.integers(-3, 3)) / 10
        a = 2 * math.pi * (i + jit) / n
        pts.append((round(r * math.cos(a), 3), round(r * math.sin(a), 3)))
    return pts


@st.composite
def orthos(draw):
    """L, T, U, plus and Z outlines."""
    kind = draw(st.sampled_from("LTUPZ"))
    a, b, c = (draw(grid(6, 14, 0.5)) for _ in range(3))
    e, f = draw(grid(6, 14, 0.5)), draw(grid(6, 14, 0.5))
    if kind == "L":
        return [(0, 0), (a + b, 0), (a + b, e), (a, e), (a, e + f), (0, e + f)]
    if kind == "T":
        return [(0, 0), (a + b + c, 0), (a + b + c, e), (a + b, e), (a + b, e + f), (a, e + f), (a, e), (0, e)]
    if kind == "U":
        return [(0, 0), (a + b + c, 0), (a + b + c, e + f), (a + b, e + f), (a + b, e), (a, e), (a, e + f), (0, e + f)]
    if kind == "P":
        g = e
        return [(a, 0), (a + b, 0), (a + b, e), (a + b + c, e), (a + b + c, e + f), (a + b, e + f), (a + b, e + f + g),
                (a, e + f + g), (a, e + f), (0, e + f), (0, e), (a, e)]
    return [(0, 0), (a + b, 0), (a + b, e), (a + b + c, e), (a + b + c, e + f), (a, e + f), (a, e), (0, e)]


@st.composite
def polygons(draw):
    return draw(st.one_of(rects(), orthos(), regulars(), stars()))


@st.composite
def contours(draw, kinds=("poly", "round", "slot", "d", "circle"), place=True):
    kind = draw(st.sampled_from(kinds))
    if kind == "poly":
        c = sh.polygon_contour(draw(polygons()))
    elif kind == "round":
        pts = draw(st.one_of(rects(), orthos(), regulars()))
        # largest fillet that leaves every side at least 40 % straight
        lim = 1e9
        n = len(pts)
        for i in range(n):
            a, p, b = pts[i - 1], pts[i], pts[(i + 1) % n]
            va = (a[0] - p[0], a[1] - p[1])
            vb = (b[0] - p[0], b[1] - p[1])
            la, lb = math.hypot(*va), math.hypot(*vb)
            ang = math.acos(max(-1, min(1, (va[0] * vb[0] + va[1] * vb[1]) / la / lb)))
            lim = min(lim, 0.3 * min(la, lb) * math.tan(ang / 2))
        r = round(lim * draw(st.integers(2, 10)) / 10, 3)
        mask = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(mask):
            mask[0] = True
        c = sh.rounded_contour(pts, [r if m else 0 for m in mask])
    elif kind == "slot":
        c = sh.slot_contour(draw(grid(4, 30, 0.5)), draw(grid(3, 10, 0.5)))
    elif kind == "d":
        c = sh.d_contour(draw(grid(4, 15, 0.5)))
    else:
        c = {"circle": [0, 0, draw(grid(3, 20, 0.5))]}
    if place:
        c = sh.transform_contour(c, draw(rotations), *draw(offsets2))
    return c


rotations = st.sampled_from([0, 0, 90, 180, 270, 45, 30, 17, 123, 211])
offsets2 = st.one_of(st.just((0, 0)), st.tuples(grid(-40, 40, 0.5), grid(-40, 40, 0.5)))


def _unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


AXES = [
    ([1, 0, 0], [0, 0, 1]), ([0, 1, 0], [0, 0, 1]), ([-1, 0, 0], [0, 0, 1]),
    ([0, 1, 0], [1, 0, 0]), ([0, 0, 1], [1, 0, 0]), ([0, 0, 1], [0, 1, 0]),
    ([1, 0, 0], [0, -1, 0]), ([1, 0, 0], [0, 0, -1]), ([0, 1, 0], [-1, 0, 0]),
]


@st.composite
def planes(draw, tilt=True):
    origin = draw(st.one_of(
        st.just([0, 0, 0]),
        st.tuples(st.just(0), st.just(0), grid(-20, 20, 0.5)).map(list),
        st.tuples(grid(-50, 50, 0.5), grid(-50, 50, 0.5), grid(-20, 20, 0.5)).map(list),
    ))
    if not tilt:
        return {"origin": origin, "x": [1, 0, 0], "n": [0, 0, 1]}
    if draw(st.integers(0, 3)):
        x, n = draw(st.sampled_from(AXES))
        return {"origin": origin, "x": x, "n": n}
    # arbitrary frame from euler angles in whole degrees
    a, b, g = (math.radians(draw(st.integers(-180, 180))) for _ in range(3))
    ca, sa, cb, sb, cg, sg = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(g), math.sin(g)
    x = [ca * cb, sa * cb, -sb]
    n = [ca * sb * cg + sa * sg, sa * sb * cg - ca * sg, cb * cg]
    return {"origin": origin, "x": x, "n": n}


wire_modes = st.sampled_from(["direct", "moved"])
face_modes = st.sampled_from(["direct", "moved", "top", "bottom"])
