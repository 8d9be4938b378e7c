"""A strict RS-274 reader and a small machine model.

Independent of cq_cam: it knows the language, not the generator.  It reads the
program text, keeps the modal state a controller would keep, and yields the
motions that the text commands.
"""
from __future__ import annotations

import math
import re
from dataclasses import dataclass, field

WORD = re.compile(r"([A-Z])([+-]?(?:\d+(?:\.\d*)?|\.\d+))$")
COMMENT = re.compile(r"\([^()]*\)$")

G_GROUPS = {}
for _name, _codes in {
    "nonmodal": "G4 G10 G28 G30 G52 G53 G92",
    "motion": "G0 G1 G2 G3 G5 G5.1 G5.2 G38.2 G38.3 G38.4 G38.5 G80 G81 G82 G83 G84 G85 G86 G87 G88 G89",
    "plane": "G17 G18 G19",
    "distance": "G90 G91",
    "arc_distance": "G90.1 G91.1",
    "feedmode": "G93 G94 G95",
    "units": "G20 G21",
    "cutcomp": "G40 G41 G42",
    "length": "G43 G49",
    "retract": "G98 G99",
    "wcs": "G54 G55 G56 G57 G58 G59",
    "path": "G61 G61.1 G64",
    "spindlemode": "G50 G96 G97",
}.items():
    for _c in _codes.split():
        G_GROUPS[_c] = _name
M_GROUPS = {}
for _name, _codes in {
    "stop": "M0 M1 M2 M30 M60",
    "toolchange": "M6",
    "spindle": "M3 M4 M5",
    "coolant": "M7 M8 M9",
}.items():
    for _c in _codes.split():
        M_GROUPS[_c] = _name


class GCodeError(Exception):
    """The text is not a legal program."""

    def __init__(self, line_no, line, what):
        super().__init__(f"line {line_no} {line!r}: {what}")
        self.line_no, self.line, self.what = line_no, line, what


@dataclass
class Block:
    no: int
    text: str
    comment: str | None = None
    g: list = field(default_factory=list)
    m: list = field(default_factory=list)
    words: dict = field(default_factory=dict)


def norm_code(letter: str, num: str) -> str:
    v = float(num)
    if v == int(v):
        return f"{letter}{int(v)}"
    return f"{letter}{v:g}"


def parse(text: str) -> list[Block]:
    blocks = []
    for no, line in enumerate(text.split("\n"), 1):
        s = line.strip()
        if not s:
            continue
        b = Block(no, s)
        if s.startswith("("):
            if not COMMENT.match(s):
                raise GCodeError(no, line, "malformed comment")
            b.comment = s[1:-1]
            blocks.append(b)
            continue
        groups = {}
        for token in s.split():
            mm = WORD.match(token)
            if not mm:
                raise GCodeError(no, line, f"malformed word {token!r}")
            letter, num = mm.groups()
            if letter in "GM":
                code = norm_code(letter, num)
                group = (G_GROUPS if letter == "G" else M_GROUPS).get(code)
                if group is None:
                    raise GCodeError(no, line, f"unknown code {code}")
                if group == "motion" and code == "G80":
                    group = "motion"
                if (letter, group) in groups:
                    raise GCodeError(no, line, f"two words of group {group}")
                groups[(letter, group)] = code
                (b.g if letter == "G" else b.m).append(code)
            else:
                if letter in b.words:
                    raise GCodeError(no, line, f"repeated word {letter}")
                b.words[letter] = float(num)
        if len(b.m) > 4:
            raise GCodeError(no, line, "more than four M words")
        blocks.append(b)
    return blocks


@dataclass
class Move:
    no: int
    kind: str  # rapid, feed, cw, ccw, home
    start: tuple
    end: tuple
    ij: tuple | None
    feed: float | None
    state: dict
    text: str = ""
    f_on_line: bool = False

    @property
    def is_cut(self):
        return self.kind in ("feed", "cw", "ccw")

    @property
    def center(self):
        return (self.start[0] + self.ij[0], self.start[1] + self.ij[1])

    def sweep(self):
        """Signed included angle of an arc, as a controller resolves it (G17, end==start is a full turn)."""
        cx, cy = self.center
        a0 = math.atan2(self.start[1] - cy, self.start[0] - cx)
        a1 = math.atan2(self.end[1] - cy, self.end[0] - cx)
        d = a1 - a0
        eps = 1e-9
        if self.kind == "cw":
            while d >= -eps:
                d -= 2 * math.pi
            while d < -2 * math.pi - eps:
                d += 2 * math.pi
        else:
            while d <= eps:
                d += 2 * math.pi
            while d > 2 * math.pi + eps:
                d -= 2 * math.pi
        return d

    def points(self, chord=1e-4, max_step=None):
        """The move as a list of xyz points, start included.

        Arcs blend the radius linearly between the start and the end radius, so the
        half-resolution rounding of the text is not magnified."""
        if self.kind in ("rapid", "feed"):
            return [self.start, self.end]
        cx, cy = self.center
        r0 = math.hypot(self.start[0] - cx, self.start[1] - cy)
        r1 = math.hypot(self.end[0] - cx, self.end[1] - cy)
        d = self.sweep()
        r = max(r0, r1, 1e-9)
        step = 2 * math.acos(max(0.0, 1 - min(chord / r, 1)))
        step = max(min(step, math.pi / 8), 1e-3)
        n = max(2, math.ceil(abs(d) / step))
        a0 = math.atan2(self.start[1] - cy, self.start[0] - cx)
        pts = []
        for i in range(n + 1):
            t = i / n
            a = a0 + d * t
            rr = r0 + (r1 - r0) * t
            pts.append(
                (
                    cx + rr * math.cos(a),
                    cy + rr * math.sin(a),
                    self.start[2] + (self.end[2] - self.start[2]) * t,
                )
            )
        pts[0] = self.start
        pts[-1] = self.end
        return pts


class Machine:
    """Runs a program; collects moves and an event log."""

    def __init__(self):
        self.pos = [None, None, None]
        self.motion = None
        self.state = {
            "units": None, "wcs": None, "plane": None, "distance": None,
            "path": None, "feedmode": None, "cutcomp": None, "length": None,
            "spindle": "M5", "S": None, "coolant": set(), "tool": None, "H": None,
            "arc_distance": "G91.1",
        }
        self.next_tool = None
        self.feed = None
        self.moves: list[Move] = []
        self.events: list[tuple] = []
        self.ended = False

    def snapshot(self):
        s = dict(self.state)
        s["coolant"] = frozenset(self.state["coolant"])
        return s

    def run(self, text: str):
        for b in parse(text):
            self.step(b)
        return self

    def step(self, b: Block):
        if b.comment is not None:
            self.events.append(("comment", b.no, b.comment))
            return
        if self.ended:
            raise GCodeError(b.no, b.text, "block after program end")
        st = self.state
        words = dict(b.words)
        f_on_line = "F" in words
        if f_on_line:
            self.feed = words.pop("F")
            if not self.feed > 0:
                raise GCodeError(b.no, b.text, "feed rate must be positive")
        if "S" in words:
            st["S"] = words.pop("S")
            self.events.append(("S", b.no, st["S"]))
        if "T" in words:
            self.next_tool = words.pop("T")
        if "M6" in b.m:
            if self.next_tool is None:
                raise GCodeError(b.no, b.text, "M6 without a selected tool")
            st["tool"] = self.next_tool
            self.events.append(("M6", b.no, st["tool"], self.snapshot()))
        for m in b.m:
            if m in ("M3", "M4", "M5"):
                st["spindle"] = m
                self.events.append((m, b.no, self.snapshot()))
            elif m in ("M7", "M8"):
                st["coolant"].add(m)
                self.events.append((m, b.no))
            elif m == "M9":
                st["coolant"].clear()
                self.events.append((m, b.no))
        motion = None
        home = False
        for g in b.g:
            grp = G_GROUPS[g]
            if grp == "motion":
                motion = g
            elif grp == "nonmodal":
                if g in ("G28", "G30"):
                    home = True
                else:
                    raise GCodeError(b.no, b.text, f"{g} not expected")
            elif grp == "length":
                st["length"] = g
                if g == "G43":
                    if "H" in words:
                        st["H"] = words.pop("H")
                else:
                    st["H"] = None
            elif grp == "spindlemode":
                st["spindlemode"] = g
            else:
                st[grp] = g
                self.events.append((grp, b.no, g))
        if "H" in words:
            raise GCodeError(b.no, b.text, "H without G43")
        axis = {k: words.pop(k) for k in "XYZ" if k in words}
        ijk = {k: words.pop(k) for k in "IJK" if k in words}
        if words:
            raise GCodeError(b.no, b.text, f"unused words {sorted(words)}")
        if home:
            if axis:
                raise GCodeError(b.no, b.text, "home with axis words")
            self.moves.append(Move(b.no, "home", tuple(self.pos), (None,) * 3, None, None, self.snapshot(), b.text))
            self.events.append(("home", b.no))
            self.pos = [None, None, None]
        if motion == "G80":
            if axis:
                raise GCodeError(b.no, b.text, "axis words with G80")
            self.motion = None
        elif motion is not None:
            if motion not in ("G0", "G1", "G2", "G3"):
                raise GCodeError(b.no, b.text, f"{motion} not expected")
            self.motion = motion
            if not axis:
                raise GCodeError(b.no, b.text, "motion without axis words")
        if axis or ijk:
            if self.motion is None:
                raise GCodeError(b.no, b.text, "axis words without a motion mode")
            if motion is None:
                motion = self.motion
            if st["distance"] != "G90":
                raise GCodeError(b.no, b.text, "motion outside absolute mode")
            start = tuple(self.pos)
            end = tuple(axis.get(k, p) for k, p in zip("XYZ", self.pos))
            ij = None
            if motion in ("G2", "G3"):
                if st["plane"] != "G17":
                    raise GCodeError(b.no, b.text, "arc outside the XY plane")
                if None in start:
                    raise GCodeError(b.no, b.text, "arc from an unknown position")
                if "I" not in ijk and "J" not in ijk:
                    raise GCodeError(b.no, b.text, "arc without a centre")
                if ijk.get("K", 0) != 0:
                    raise GCodeError(b.no, b.text, "arc centre off the start plane")
                ij = (ijk.get("I", 0.0), ijk.get("J", 0.0))
            elif ijk:
                raise GCodeError(b.no, b.text, "I/J/K on a straight move")
            if motion in ("G1", "G2", "G3") and self.feed is None:
                raise GCodeError(b.no, b.text, "feed move with no feed rate in force")
            if motion in ("G1", "G2", "G3") and None in start:
                raise GCodeError(b.no, b.text, "feed move from an unknown position")
            kind = {"G0": "rapid", "G1": "feed", "G2": "cw", "G3": "ccw"}[motion]
            self.moves.append(
                Move(b.no, kind, start, end, ij, self.feed if kind != "rapid" else None, self.snapshot(), b.text, f_on_line)
            )
            self.pos = list(end)
        for m in b.m:
            if m in ("M0", "M1"):
                self.events.append((m, b.no))
            if m in ("M2", "M30"):
                self.ended = True
                self.events.append((m, b.no))


def run_program(text: str) -> Machine:
    return Machine().run(text)


PREAMBLE = "G90 G54 G64 G17 G94\nG40 G49 G80\nG21\n"


def run_body(text: str) -> list[Move]:
    """Motions of one operation's text, from an unknown position."""
    return Machine().run(PREAMBLE + text).moves
