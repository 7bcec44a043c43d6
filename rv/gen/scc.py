"""Random and systematic SCC programs as JSON, and their rendering to SCC text.

pop-on program: {"loads": [load...], "sep": ":" | ";", "upper": bool, "kw": reader kwargs}
load: {"t": frames of the line's timecode (30 per timecode second), "dbl": codes doubled,
       "pre": "re" (RCL ENM) | "er" (ENM RCL) | "r" (RCL alone, if nothing is left in memory) ..., "rows": [[row, attr, tab, tokens]...],
       "unit": how a doubled PAC with a tab offset is sent (TABS), "mix": seed; codes single or doubled at random,
       "nul": [null words before the first row, before the EOC], "same": null words sent before the load on the line of the load before it,
       "split": None | frame delta of the line carrying EOC, "edm": "in" | "start" | None, "clear": None | frame delta,
       "erow": index of the row an EDM is sent in front of, "again": RCL is sent again before the rest of a load and before EOC,
       "post": ENM after EOC, "clear2": delta of one more EDM after "clear"}; without rows, the load shows an empty screen
tokens: ["c", text] basic; ["s", n] special 0x11 n; ["e", stand-in, hi, n] extended; ["x", n, hi, n] extended with a
        special character as stand-in; ["b", text, k] text then one
        backspace after each of the last k... ; ["m", n] mid-row code; ["n"] null pad word; ["z", ch] null, then a character
"""
import random

from ..ref import cea608 as c6
from . import text as gt

BASIC_CHARS = "".join(ch for b, ch in c6.BASIC.items() if b != 0x7f)
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
STANDINS = " aAeEiIoOuUcCnN'\"-.!?+/"


def timecode(frames, sep):
    s, f = divmod(frames, 30)
    return f"{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}{sep}{f:02d}"


TABS = {True: "ptpt", False: "pt", "ptt": "ptt"}        # PAC PAC TO (TO) is outside the domain


class Words:
    """`mix`: seed of a choice between single and doubled for every code but the RCL, extended characters and backspaces
    of single-coded loads."""

    def __init__(self, dbl, mix=None):
        self.out, self.half, self.dbl = [], None, dbl
        self.mix = None if mix is None else random.Random(mix)
        self.single = False         # the last code was sent once

    def flush(self):
        if self.half is not None:
            self.out.append(f"{self.half:02x}80")
            self.half = None

    def ctl(self, word, dbl=None):
        self.flush()
        if dbl is None:
            dbl = self.dbl
            if self.mix and word != c6.RCL and (dbl or word != c6.BS and word not in c6.WORD_EXT):
                dbl = self.mix.random() < 0.5
                if self.single and self.out and self.out[-1] == word:
                    self.out.append(word)       # the code before was this one, sent once
                    dbl = True
        self.out += [word, word] if dbl else [word]
        self.single = not dbl

    def ch(self, byte):
        if self.half is None:
            self.half = byte
        else:
            self.out.append(f"{self.half:02x}{byte:02x}")
            self.half = None

    def text(self, s):
        for x in s:
            self.ch(c6.CHAR_BASIC[x])

    def tokens(self, toks):
        for t in toks:
            k = t[0]
            if k == "c":
                self.text(t[1])
            elif k == "s":
                self.ctl(c6.w(0x11, t[1]))
            elif k == "e":
                self.text(t[1])
                self.ctl(c6.w(t[2], t[3]))
            elif k == "x":
                self.ctl(c6.w(0x11, t[1]))
                self.ctl(c6.w(t[2], t[3]))
            elif k == "b":
                self.ctl(c6.BS)
            elif k == "m":
                self.ctl(c6.midrow(t[1]))
            elif k == "n":
                self.flush()
                self.out.append("8080")
            elif k == "z":
                self.flush()
                self.half = 0x80
                self.text(t[1])
        self.flush()

    def row(self, r, unit):
        row, attr, tab, toks = r[:4]
        p = c6.pac(row, attr)
        if not tab:
            self.ctl(p)
        else:
            how = self.mix.choice(sorted(TABS.values())) if self.mix else TABS[unit] if self.dbl else "pt"
            for x in how:
                self.ctl(p if x == "p" else c6.tab(tab), False)
            self.single = False
        self.tokens(toks)


def popon_lines(prog):
    """[(timecode frame number, [words])] in transmission order"""
    out = []
    for ld in prog["loads"]:
        t = ld["t"]
        w = Words(ld["dbl"], ld.get("mix"))
        if ld.get("same") is not None and out:
            t, words = out.pop()
            w.out = words + ["8080"] * ld["same"]
        if ld.get("edm") == "start":
            w.ctl(c6.EDM)
        if ld.get("junk"):          # loaded and erased before it is shown
            w.ctl(c6.ENM)
            w.ctl(c6.RCL)
            for r in ld["junk"]:
                w.row(r, ld.get("unit", True))
        for x in ld.get("pre", "re"):
            w.ctl(c6.RCL if x == "r" else c6.ENM)
        w.out += ["8080"] * ld.get("nul", [0, 0])[0]
        for i, r in enumerate(ld["rows"]):
            if len(r) > 4 and r[4]:        # the row continues on a line of its own
                w.flush()
                out.append((t, w.out))
                t, w = t + len(w.out) + r[4] - 1, Words(ld["dbl"], ld.get("mix"))
                if ld.get("again"):
                    w.ctl(c6.RCL)
            if i and ld.get("erow") == i:
                w.ctl(c6.EDM)
            w.row(r, ld.get("unit", True))
        if ld.get("edm") == "in":
            w.ctl(c6.EDM)
        if ld.get("split") is not None:
            w.flush()
            out.append((t, w.out))
            t, w = t + len(w.out) + ld["split"], Words(ld["dbl"], ld.get("mix"))
        w.flush()
        w.out += ["8080"] * ld.get("nul", [0, 0])[1]
        if ld.get("again") and ld["rows"]:
            w.ctl(c6.RCL)
        w.ctl(c6.EOC)
        if ld.get("post"):
            w.ctl(c6.ENM)
        for _ in range(ld.get("pad", 0)):
            w.out.append("8080")
        out.append((t, w.out))
        t += len(w.out)
        if ld.get("clear") is not None:
            out.append((t + ld["clear"], [c6.EDM, c6.EDM] if ld["dbl"] else [c6.EDM]))
            if ld.get("clear2") is not None:
                t = out[-1][0] + len(out[-1][1])
                out.append((t + ld["clear2"], [c6.EDM, c6.EDM] if ld["dbl"] else [c6.EDM]))
    return out


def memory_clear(loads):
    """Whether every load without an ENM code begins with an empty memory, and no load with one follows its own code."""
    shown = False       # the displayed memory is in use: what EOC exchanges
    memory = False
    before = None
    for ld in loads:
        if ld.get("same") is not None and not ld["same"] and (before is None or before.get("clear") is not None):
            return False
        if ld.get("edm") == "start":
            shown = False
        if "e" not in ld["pre"] and (memory or ld.get("junk")):
            return False
        if ld.get("edm") == "in" or 0 < (ld.get("erow") or 0) < len(ld["rows"]):
            shown = False
        memory, shown = shown and not ld.get("post"), bool(ld["rows"])
        if ld.get("clear") is not None:
            shown = False
        before = ld
    return True


def end_frame(load):
    """Frames the load takes after its timecode."""
    ls = popon_lines({"loads": [load]})
    return max(t + len(w) for t, w in ls) - load["t"]


def render(lines, sep=";", upper=False, nl="\n", blank=True, tabsep="\t"):
    out = ["Scenarist_SCC V1.0", ""]
    for t, words in lines:
        s = " ".join(words)
        out.append(timecode(t, sep) + tabsep + (s.upper() if upper else s))
        if blank:
            out.append("")
    return nl.join(out) + (nl if blank else "")


# ------------------------------------------------------------------ random
def attr(rng, ital=0.2):
    r = rng.random()
    if r < ital:
        return rng.choice([14, 14, 14, 15])
    if r < ital + 0.1:
        return rng.randint(0, 13)
    return rng.randint(16, 31)


def word(rng, maxlen=7):
    if rng.random() < 0.1:
        return "".join(rng.choice(BASIC_CHARS) for _ in range(rng.randint(1, maxlen))).strip() or "x"
    return "".join(rng.choice(LETTERS) for _ in range(rng.randint(1, maxlen)))


def width(toks):
    """Columns used, or 99 when a backspace would leave the row's first column."""
    n = peak = 0
    for t in toks:
        k = t[0]
        if k in "ce":
            n += len(t[1]) or 1
        elif k in "smxz":
            n += 1
        elif k == "b":
            n -= 1
            if n < 0:
                return 99
        peak = max(peak, n)
    return peak


def tokens(rng, room, mid=True, ext=True):
    """Tokens of one row, at most `room` columns wide, at least one visible character at the end."""
    while True:
        out, prev = [], None
        lead = []
        if room == 32 and rng.random() < 0.05:
            # nothing to erase in the first column
            lead = [["b"]] if rng.random() < 0.5 else [["e", "", 0x12, rng.randint(0x20, 0x3f)]]
        for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
            r = rng.random()
            if r < 0.5:
                s = " ".join(word(rng) for _ in range(rng.choice([1, 1, 2, 3])))
                out.append(["c", rng.choice(["", "", " "]) + s + rng.choice(["", "", " "])])
            elif r < 0.62:
                n = rng.choice([x for x in range(0x30, 0x40) if x != 0x39 and ["s", x] != prev])
                out.append(["s", n])
            elif r < 0.76 and ext:
                hi, lo = rng.choice([0x12, 0x13]), rng.randint(0x20, 0x3f)
                n = rng.randint(0x30, 0x3f)
                if rng.random() < 0.85 or ["s", n] == prev:
                    out.append(["e", rng.choice(STANDINS), hi, lo])
                else:
                    out.append(["x", n, hi, lo])
            elif r < 0.84 and prev and prev[0] in "csexz":
                out.append(["b"])
            elif r < 0.97 and mid:
                n = rng.choice([14, 14, 14, 0, 0, rng.randint(0, 15)])
                if ["m", n] != prev:
                    out.append(["m", n])
            else:
                if rng.random() < 0.4:
                    out.append(["z", rng.choice(LETTERS)])
                elif prev != ["n"]:
                    out.append(["n"])
            prev = out[-1] if out else None
        if width(out) + len(lead) <= room and visible(out) and not (lead and out[0] == ["b"]):
            return lead + out


def visible(toks):
    st = []
    for t in toks:
        k = t[0]
        if k == "c":
            st += list(t[1])
        elif k in "sz":
            st.append("*")
        elif k == "e":
            st += list(t[1])[:-1] + ["*"]
        elif k == "x":
            st += ["*"]
        elif k == "m":
            st.append(" ")
        elif k == "b":
            if st:
                st.pop()
    return any(x != " " for x in st)


def rows(rng, maxrows=4, **kw):
    n = rng.choice([1, 1, 2, 2, 3, maxrows])
    if rng.random() < 0.03:
        n = rng.randint(5, 15)
    if rng.random() < 0.6:
        first = rng.randint(1, 16 - n)
        rr = list(range(first, first + n))
    else:
        rr = sorted(rng.sample(range(1, 16), n))
    out = []
    for r in rr:
        a = attr(rng)
        t = rng.choice([0, 0, 0, 1, 2, 3])
        col = c6.pac_col(a) + t
        out.append([r, a, t, tokens(rng, 32 - col, **kw)])
    return out


def load(rng, t, dbl, **kw):
    ld = {"t": t, "dbl": dbl, "pre": rng.choice(["re", "er", "er", "ere"]), "rows": rows(rng, **kw)}
    if rng.random() < 0.1:
        ld["mix"] = rng.randint(0, 999)
    elif dbl:
        ld["unit"] = rng.choice(list(TABS))
    if rng.random() < 0.05:
        ld["junk"] = rows(rng, 2, **kw)
        ld["pre"] = "er"
    if rng.random() < 0.15:
        ld["nul"] = [rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 2, 5])]
    r = rng.random()
    if r < 0.3:
        ld["edm"] = "in"
    elif r < 0.4:
        ld["edm"] = "start"
    if rng.random() < 0.2:
        ld["split"] = rng.choice([0, 1, 10, 60])
    if rng.random() < 0.4:
        ld["clear"] = rng.choice([2, 3, 4, 5, 6, 10, 45, 90, rng.randint(2, 300)])
    if rng.random() < 0.15 and len(ld["rows"]) > 1:
        ld["rows"][rng.randint(1, len(ld["rows"]) - 1)].append(rng.choice([1, 2, 20]))
    return ld


def gap(rng):
    return rng.choice([2, 3, 4, 5, 6, 7, 12, 30, rng.randint(2, 400)])


def retime(loads, t, gap):
    """Sets the timecodes of the loads from the frames between their lines."""
    for i, ld in enumerate(loads):
        if i:
            t += gap() if ld.get("same") is None else ld["same"]
        ld["t"] = t
        t += end_frame(ld)


def extras(rng, loads):
    """Codes which change nothing of what the loads show, and loads which show nothing."""
    for i in range(rng.choice([0, 0, 1, 2])):
        i = rng.randint(1, len(loads))
        loads.insert(i, {"t": 0, "dbl": loads[i - 1]["dbl"], "pre": rng.choice(["re", "er"]), "rows": []})
        if i + 1 < len(loads) and not loads[i + 1].get("same"):
            loads[i + 1].pop("same", None)
        if rng.random() < 0.3:
            loads[i]["clear"] = rng.choice([2, 5, 30])
    for ld in loads:
        if len(ld["rows"]) > 1 and rng.random() < 0.4:
            ld["erow"] = rng.randint(1, len(ld["rows"]) - 1)
        if rng.random() < 0.3:
            ld["again"] = True
        if rng.random() < 0.2:
            ld["post"] = True
        if ld.get("clear") is not None and rng.random() < 0.3:
            ld["clear2"] = rng.choice([0, 1, 5, 60])
    if not memory_clear(loads):
        for ld in loads:
            if ld["pre"] == "r":
                ld["pre"] = "re"
            if ld.get("same") == 0:
                ld.pop("same")


def start(rng):
    return rng.choice([0, 0, 1, 15, 29, 30, 300, 1799, 1800, 107892, rng.randint(0, 20000), rng.randint(0, 2500000)])


def popon(rng, maxloads=4, **kw):
    dbl = rng.random() < 0.6
    mixed = rng.random() < 0.1
    same = rng.choice([0, 0, 0, 0.1, 0.9])
    t = start(rng)
    loads = []
    for _ in range(gt.count(rng, range(1, maxloads + 1), 100)):
        ld = load(rng, t, (rng.random() < 0.5) if mixed else dbl, **kw)
        loads.append(ld)
        if rng.random() < 0.3:
            pre, ld["pre"] = ld["pre"], "r"
            if not memory_clear(loads):
                ld["pre"] = pre
        if len(loads) > 1 and rng.random() < same:
            ld["same"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 30, 60] if ld.get("edm") != "start" else [2, 3, 4, 5, 6, 30, 60])
            if not memory_clear(loads):
                ld["same"] = 1
    if rng.random() < 0.3:
        extras(rng, loads)
    retime(loads, t, lambda: gap(rng))
    return {"loads": loads, "sep": rng.choice(":;"), "upper": rng.random() < 0.1}


def random_doc(rng):
    if rng.random() < 0.75:
        p = popon(rng)
        lines = popon_lines(p)
    else:
        p = live(rng)
        lines = live_lines(p)
    return {"fmt": "scc", "doc": render(lines, p["sep"], p.get("upper")), "kw": {}}


# ------------------------------------------------------------------ roll-up and paint-on
# program: {"mode": "roll", "depth": 2..4, "dbl", "sep", "t", "rows": [item...]}
#   item: {"gap": frames before a new line | None (same line), "ru": depth to send RUn of | 0, "cr": bool, "edm": bool,
#          "pac": bool, "row": [row, attr, tab, tokens], "cont": [gap, tokens] (the rest of the row on another line)}
# program: {"mode": "paint", "dbl", "sep", "t", "blocks": [{"gap", "rdc": bool, "edm": "start"|"line"|None, "rows": [...]}]}
def live_lines(prog):
    if prog["mode"] == "mix":
        out, t = [], 0
        for q in prog["parts"]:
            out += live_lines(dict(q, dbl=prog["dbl"], t=q["t"] + t))
            t = out[-1][0] + len(out[-1][1])
        return out
    out = []
    t = prog["t"]
    w = Words(prog["dbl"])

    def newline(gap):
        nonlocal t, w
        w.flush()
        if w.out:
            out.append((t, w.out))
            t += len(w.out)
        t += gap
        w = Words(prog["dbl"])

    def idle(it, where):
        """ENM, which does not touch what is on the screen, or null words"""
        if it.get("enm") == where:
            w.ctl(c6.ENM)
        if it.get("nul", [0])[0] == where:
            w.flush()
            w.out += ["8080"] * it["nul"][1]
    if prog["mode"] == "roll":
        for it in prog["rows"]:
            if it.get("gap") is not None:
                newline(it["gap"])
            idle(it, "start")
            if it.get("edm"):
                w.ctl(c6.EDM)
            if it.get("ru"):
                w.ctl(c6.RU[it["ru"]])
            if it.get("cr", True):
                w.ctl(c6.CR)
            idle(it, "mid")
            if it.get("pac", True):
                w.row(it["row"], it.get("unit", True))
            else:
                w.tokens(it["row"][3])
            if it.get("cont"):
                newline(it["cont"][0])
                w.tokens(it["cont"][1])
            idle(it, "end")
    else:
        for b in prog["blocks"]:
            if b.get("gap") is not None:
                newline(b["gap"])
            idle(b, "start")
            if b.get("edm") == "line":
                w.ctl(c6.EDM)
                newline(b.get("egap", 0))
            elif b.get("edm") == "start":
                w.ctl(c6.EDM)
            if b.get("rdc", True):
                w.ctl(c6.RDC)
            for i, r in enumerate(b["rows"]):
                if i < 2:
                    idle(b, "mid" if not i else "row")
                if len(r) > 4 and r[4]:
                    newline(r[4])
                w.row(r, b.get("unit", True))
            idle(b, "end")
    newline(0)
    return out


def tok_codes(k):
    """Whether the codes of a token exist"""
    if k[0] == "s":
        return 0x30 <= k[1] <= 0x3f
    if k[0] in "ex":
        return k[2] in (0x12, 0x13) and 0x20 <= k[3] <= 0x3f and (k[0] == "e" or 0x30 <= k[1] <= 0x3f)
    return 0 <= k[1] <= 15 if k[0] == "m" else True


def cells(toks):
    """Characters a token list leaves, None for the blank of a mid-row code."""
    st = []
    for t in toks:
        k = t[0]
        if k in "cz":
            st += list(t[1])
        elif k == "s":
            st.append(c6.SPECIAL[t[1]])
        elif k == "e":
            st += list(t[1])[:-1] + [(c6.EXT12 if t[2] == 0x12 else c6.EXT13)[t[3]]]
        elif k == "x":
            st.append((c6.EXT12 if t[2] == 0x12 else c6.EXT13)[t[3]])
        elif k == "m":
            st.append(None)
        elif k == "b" and st:
            st.pop()
    return st


def one_row(rng, room=32, plain=0.3):
    a = attr(rng)
    t = rng.choice([0, 0, 0, 1, 2, 3])
    room -= c6.pac_col(a) + t
    if rng.random() < plain:
        s = " ".join(word(rng) for _ in range(rng.randint(1, 6)))[:room].strip() or "x"
        toks = [["c", s]]
    else:
        toks = tokens(rng, room)
        while toks[0] in (["b"],) or toks[0][0] == "e" and not toks[0][1]:
            toks = tokens(rng, room)
    return [rng.randint(1, 15), a, t, toks]


def live_gap(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 30, 60, rng.randint(0, 300)])


def idle_words(rng, it):
    if rng.random() < 0.08:
        it["enm"] = rng.choice(["start", "mid", "row", "end"])
    if rng.random() < 0.08:
        it["nul"] = [rng.choice(["start", "mid", "row", "end"]), rng.choice([1, 2, 3, 40])]


def roll(rng, maxrows=8):
    depth = rng.choice([2, 3, 4])
    base = rng.randint(depth, 15)
    style = rng.choice(["ru", "cr", "mixed"])
    fixed = rng.random() < 0.7
    out = []
    for i in range(gt.count(rng, range(1, maxrows + 1), 100)):
        r = one_row(rng)
        if fixed:
            r[0] = base
        ru = depth if not i or style == "ru" or style == "mixed" and rng.random() < 0.3 else 0
        if ru and i and rng.random() < 0.1:
            ru = depth = rng.choice([2, 3, 4])
        it = {"gap": live_gap(rng) if not i or rng.random() < 0.8 else None, "ru": ru, "row": r, "cr": True}
        if not i and rng.random() < 0.15:
            it["cr"] = False
        if rng.random() < 0.05:
            it["edm"] = True
        if i and rng.random() < 0.1:
            it["pac"] = False
            if r[3][0][0] in "me" and width(r[3]) < 32 - c6.pac_col(r[1]) - r[2]:
                r[3].insert(0, ["c", "w"])
        if rng.random() < 0.1:
            n = 32 - width(r[3]) - c6.pac_col(r[1]) - r[2]
            if n > 3:
                it["cont"] = [live_gap(rng), [["c", word(rng, n)[:n]]]]
        idle_words(rng, it)
        out.append(it)
    return {"mode": "roll", "dbl": rng.random() < 0.6, "sep": rng.choice(":;"), "t": start(rng), "rows": out,
            "upper": rng.random() < 0.1}


def paint(rng, maxblocks=5):
    out = []
    for i in range(gt.count(rng, range(1, maxblocks + 1), 60)):
        n = rng.choice([1, 1, 2, 3])
        rr = [one_row(rng) for _ in range(n)]
        if rng.random() < 0.7:
            first = rng.randint(1, 16 - n)
            for k, r in enumerate(rr):
                r[0] = first + k
        else:
            for r, k in zip(rr, sorted(rng.sample(range(1, 16), n))):
                r[0] = k
        for r in rr[1:]:
            if rng.random() < 0.15:
                r.append(rng.choice([1, 5, 40]))
        b = {"gap": live_gap(rng) if not i or rng.random() < 0.85 else None, "rdc": not i or rng.random() < 0.9, "rows": rr}
        if b["rdc"]:
            used = set()
        elif used & {r[0] for r in rr}:
            b["rdc"], used = True, set()
        used |= {r[0] for r in rr}
        if i and rng.random() < 0.2:
            b["edm"], b["egap"] = rng.choice(["start", "line"]), live_gap(rng)
        idle_words(rng, b)
        out.append(b)
    return {"mode": "paint", "dbl": rng.random() < 0.6, "sep": rng.choice(":;"), "t": start(rng), "blocks": out,
            "upper": rng.random() < 0.1}


def mix(rng):
    parts = [(roll if rng.random() < 0.5 else paint)(rng, 3) for _ in range(rng.randint(2, 3))]
    for q in parts[1:]:
        q["t"] = live_gap(rng)
    return {"mode": "mix", "dbl": rng.random() < 0.6, "sep": rng.choice(":;"), "t": 0, "parts": parts}


def live(rng):
    r = rng.random()
    return roll(rng) if r < 0.5 else paint(rng) if r < 0.85 else mix(rng)
