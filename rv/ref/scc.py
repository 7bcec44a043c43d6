"""Reference CEA-608 caption decoder for SCC text (channel 1), independent of pycaption.

Screens are {row: {col: cell}}; a cell is (char, italic) or ("", None) for the blank a mid-row code occupies.
"""
import re
from fractions import Fraction as F

from . import cea608 as c6

LINE = re.compile(r"^(\d\d):(\d\d):(\d\d)([:;])(\d\d)[ \t]+(.*)$")
MID = ""


def parse(doc):
    """[(frames, sep, [words])] of the lines after the header."""
    out = []
    for ln in re.split(r"\r\n|\n|\r", doc)[1:]:
        if not ln.strip():
            continue
        m = LINE.match(ln)
        if not m:
            raise ValueError(f"bad SCC line {ln[:80]!r}")
        h, mi, s, f = (int(m[i]) for i in (1, 2, 3, 5))
        out.append((((h * 60 + mi) * 60 + s) * 30 + f, m[4], m[6].lower().split()))
    return out


def micros(frames, sep, offset=0):
    t = F(frames, 30) * (F(1001, 1000) if sep == ":" else 1) * 1000000 - F(offset) * 1000000
    return max(F(0), t)


class Decoder:
    """Feeds words; `events` logs what happens to the displayed memory in transmission order:
    ("show", at, screen) for EOC, ("erase", at) for EDM."""

    def __init__(self):
        self.disp, self.non = {}, {}
        self.mode = None
        self.row, self.col, self.it = 15, 0, False
        self.last = self.mid = None
        self.events = []
        self.stats = {}

    def mem(self):
        return self.non if self.mode == "pop" else self.disp

    def put(self, cell):
        line = self.mem().setdefault(self.row, {})
        line[min(self.col, 31)] = cell
        self.col += 1

    def feed(self, frames, sep, words):
        self.last = None            # a new line is another moment
        for i, wd in enumerate(words):
            b1, b2 = int(wd[:2], 16) & 0x7f, int(wd[2:], 16) & 0x7f
            if 0x10 <= b1 <= 0x1f:
                if wd == self.last:
                    self.last = None
                    self.hit("doubled")
                    continue
                self.last = wd
                self.mid = None
                self.control(wd, (frames + i, sep))
            else:
                self.last = None
                for b in (b1, b2):
                    if b in c6.BASIC:
                        if self.mid and c6.BASIC[b] in ".!?,":
                            self.mem()[self.mid[0]][self.mid[1]] = (MID, "optional")
                        self.mid = None
                        self.put((c6.BASIC[b], self.it))
                        self.hit("basic")

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def control(self, wd, at):
        if wd == c6.RCL:
            self.mode = "pop"
        elif wd == c6.ENM:
            self.non = {}
        elif wd == c6.EDM:
            self.disp = {}
            self.events.append(("erase", at))
        elif wd == c6.EOC:
            self.mode = "pop"
            self.disp, self.non = self.non, self.disp
            self.events.append(("show", at, {r: dict(c) for r, c in self.disp.items()}))
        elif wd in c6.WORD_PAC:
            self.row, a = c6.WORD_PAC[wd]
            self.col, self.it = c6.pac_col(a), a in (14, 15)
            self.hit("pac")
        elif wd in c6.WORD_TAB:
            self.col = min(31, self.col + c6.WORD_TAB[wd])
            self.hit("tab")
        elif wd in c6.WORD_MID:
            self.it = c6.WORD_MID[wd] in (14, 15)
            self.mid = (self.row, min(self.col, 31))
            self.put((MID, None))
            self.hit("midrow")
        elif wd in c6.WORD_SPECIAL:
            self.put((c6.WORD_SPECIAL[wd], self.it))
            self.hit("special")
        elif wd in c6.WORD_EXT:
            self.back()
            self.put((c6.WORD_EXT[wd], self.it))
            self.hit("extended")
        elif wd == c6.BS:
            self.back()
            self.hit("backspace")

    def back(self):
        if self.col > 0:
            self.col -= 1
            self.mem().get(self.row, {}).pop(self.col, None)


def decode(doc):
    d = Decoder()
    for frames, sep, words in parse(doc):
        d.feed(frames, sep, words)
    return d


def groups(screen, sent=False):
    """Rows of a screen with visible characters, as runs of consecutive rows:
    [[(row, first column used, [cells])]]; `sent`: runs of rows each sent directly after the one above it"""
    out = []
    for r in screen if sent else sorted(screen):
        cells = [screen[r][c] for c in sorted(screen[r])]
        if not any(ch.strip() for ch, _ in cells):
            continue
        item = (r, min(screen[r]), cells)
        if out and out[-1][-1][0] == r - 1:
            out[-1].append(item)
        else:
            out.append([item])
    return out
