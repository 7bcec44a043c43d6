"""C05 SCC pop-on decoding: text, rows, italics, position, against an independent CEA-608 decoder."""
import itertools

from .. import core
from ..gen import scc as gs
from ..ref import cea608 as c6
from ..ref import scc as ref

core.setup_path()
from pycaption import SCCReader  # noqa: E402
from pycaption.base import CaptionNode  # noqa: E402
from pycaption.geometry import HorizontalAlignmentEnum, UnitEnum, VerticalAlignmentEnum  # noqa: E402

ID = "C05"
PLAN = {"quick": 22500, "thorough": 400000}
RULE = ("(a) every cursor address (15 rows x 32 columns, all 480 preambles), every character code, single and doubled, every "
        "sequence of up to 3 (4) row items, every pair and triple of rows, sequences of loads over a small alphabet; (b) "
        "seeded random pop-on programs; every caption returned is compared with the screen an independent CEA-608 decoder "
        "shows at the EOC: characters, line structure, italics per character, position")
ASSUMPTIONS = [
    "the rows of a load are addressed once each and stay within 32 columns (consecutive rows not sent top to bottom: KF-SCC-ROW-ORDER); every load starts with RCL, and with ENM unless no caption is left in its memory",
    "the blank of a mid-row code may be rendered as a space or (next to a space, line ends, punctuation) left out",
    "0x7f (solid block) is not among the 175 character codes; the transparent space reads as a space; three extended codes "
    "on which the sources disagree (curly/straight quote, broken bar, vertical line) accept either reading",
    "single-coded streams do not repeat a control code back to back; extended characters and backspaces are doubled exactly "
    "when the RCL of the load is doubled",
    "a tab offset is sent as PAC TO, PAC TO PAC TO or PAC TO TO (PAC PAC TO is outside the domain)",
    "a mid-row code is never directly followed by a backspace",
]
FLOORS = {"captions": 20000, "chars": 200000, "italic_chars": 8000, "breaks": 5000, "groups>1": 1500, "positions": 20000,
          "ref:doubled": 20000, "ref:extended": 3000, "ref:special": 3000, "ref:backspace": 500, "ref:midrow": 3000, "rows-out-of-order": 1000, "ref:tab": 20000}


ORDER = "KF-SCC-ROW-ORDER"


# ------------------------------------------------------------ monitor
def lines_of(caption, m):
    """[[(char, italic)]] of a caption; checks the balance of its style nodes."""
    out, on = [[]], False
    for n in caption.nodes:
        if n.type_ == CaptionNode.BREAK:
            out.append([])
        elif n.type_ == CaptionNode.STYLE:
            m.check(bool(n.start) != on, "italics-unbalanced", lambda: f"style nodes of {caption.nodes!r}")
            m.check(bool(n.content.get("italics")), "italics-unbalanced", lambda: f"style {n.content!r}")
            on = bool(n.start)
        else:
            out[-1] += [(c, on) for c in n.content]
    m.check(not on, "italics-unbalanced", lambda: f"style not closed in {caption.nodes!r}")
    return out


def cmp_line(got, cells, where, m):
    """got: [(char, italic)], cells: reference cells with MID blanks."""
    want, runs, t, k, must = [], [], 0, 0, False
    for ch, it in cells:
        if ch == ref.MID:
            k += 1
            must = must or it is None
        elif ch in " \u00a0":
            t += 1
        else:
            runs.append((t, k, must))
            want.append((ch, it))
            t, k, must = 0, 0, False
    tail = (t, k)
    seen, gaps, s = [], [], 0
    for ch, it in got:
        if ch in " \u00a0":
            s += 1
        else:
            gaps.append(s)
            seen.append((ch, it))
            s = 0

    def show():
        return (f"{where}: line {''.join(c for c, _ in got)!r} italics {[i for _, i in seen]} expected "
                f"{''.join(c or '~' for c, _ in cells)!r} italics {[i for _, i in want]}")
    m.check(len(seen) == len(want) and all(a == b or a in c6.ALT.get(b, "") for (a, _), (b, _) in zip(seen, want)),
            "characters", show)
    for i, (n, (t, k, must)) in enumerate(zip(gaps, runs)):
        lo = t or (1 if must and i else 0)
        m.check(lo <= n <= t + k, "spaces", show)
    m.check(s <= sum(tail), "spaces", show)
    m.check(all(a[1] == b[1] for a, b in zip(seen, want)), "italics", show)
    m.hit("chars", len(want))
    m.hit("italic_chars", sum(1 for _, i in want if i))
    if gaps and gaps[0]:
        m.hit("leading_space")


def near(a, b):
    return abs(a - float(b)) < 1e-6


def by_place(caption):
    o = caption.layout_info.origin
    return (o.y.value, o.x.value)


def check_captions(caps, shows, m, sent=False):
    """shows: screens in transmission order."""
    want, caps = [], list(caps)
    for n, screen in enumerate(shows):
        gg = ref.groups(screen, sent)
        part = caps[len(want):len(want) + len(gg)]
        if list(screen) != sorted(screen) and all(c.layout_info and c.layout_info.origin for c in part):
            # rows sent in another order than top to bottom: the order of the captions of the screen is open
            caps[len(want):len(want) + len(gg)] = sorted(part, key=by_place)
            gg = sorted(gg, key=lambda g: c6.safe_area(g[0][0], g[0][1])[::-1])
            m.hit("rows-out-of-order")
        want += [(n, g) for g in gg]
    m.check(len(caps) == len(want), "captions", lambda: f"{len(caps)} captions {[c.get_text() for c in caps]!r} expected "
            f"{[''.join(ch for row in g for ch, _ in row[2]) for _, g in want]!r}")
    times = {}
    for c, (n, g) in zip(caps, want):
        got = lines_of(c, m)
        m.check(len(got) == len(g), "lines", lambda: f"caption {c.get_text()!r} has {len(got)} lines expected rows "
                f"{[r for r, _, _ in g]}")
        for line, (row, _, cells) in zip(got, g):
            cmp_line(line, cells, f"row {row}", m)
        lay = c.layout_info
        x, y = c6.safe_area(g[0][0], g[0][1])
        m.check(lay is not None and lay.origin is not None, "position", lambda: f"no origin for {c.get_text()!r}")
        o, al = lay.origin, lay.alignment
        m.check(o.x.unit == UnitEnum.PERCENT and o.y.unit == UnitEnum.PERCENT and near(o.x.value, x) and near(o.y.value, y),
                "position", lambda: f"{c.get_text()!r} at {o!r} expected ({float(x)}%, {float(y)}%) for row {g[0][0]} "
                f"column {g[0][1]}")
        m.check(al is not None and al.horizontal == HorizontalAlignmentEnum.LEFT and al.vertical == VerticalAlignmentEnum.TOP,
                "alignment", lambda: f"{al!r}")
        m.state("address", g[0][0], g[0][1])
        for node in c.nodes:
            if node.type_ == CaptionNode.TEXT and node.content.strip():
                m.check(node.layout_info is None or (near(node.layout_info.origin.x.value, x)
                                                     and near(node.layout_info.origin.y.value, y)), "position",
                        lambda: f"text node {node.content!r} at {node.layout_info.origin!r} expected {float(x)} {float(y)}")
        times.setdefault(n, set()).add((c.start, c.end))
        m.check(len(times[n]) == 1, "same-times", lambda: f"captions of one screen have times {times[n]}")
        m.hit("positions")
        m.hit("captions")
        m.hit("breaks", len(g) - 1)
        if len(g) > 1:
            m.state("shape", tuple(len(r[2]) for r in g)[:3])
    for n in set(n for n, _ in want):
        if sum(1 for k, _ in want if k == n) > 1:
            m.hit("groups>1")


def run(case, m):
    if case["k"] == "many":
        for p in expand(case):
            run_one(p, m)
        return
    run_one(case["p"], m)


def run_one(p, m):
    doc = gs.render(gs.popon_lines(p), p.get("sep", ";"), p.get("upper"))
    d = ref.decode(doc)
    for k, v in d.stats.items():
        m.hit("ref:" + k, v)
    shows = [e[2] for e in d.events if e[0] == "show"]
    o = m.call("read:scc", SCCReader().read, doc)
    if not any(ref.groups(s) for s in shows):
        return
    m.nontrivial = True
    if not o.ok:
        m.fail("refused", f"reader raised {o.exc!r} for {doc!r}"[:600])
    try:
        check_captions(o.value.get_captions("en-US"), shows, m)
    except core.Violation as v:
        v.detail = {"doc": doc, "program": p}
        if not _finding(doc, shows, o.value.get_captions("en-US"), m):
            raise
    m.state("loads", len(p["loads"]), tuple(len(ld["rows"]) for ld in p["loads"]), p["loads"][0]["dbl"])


def _finding(doc, shows, caps, m):
    """KF-SCC-ROW-ORDER: rows become the lines of one caption only if each is sent directly after the row above it.
    Everything else has to be as the decoder shows it."""
    if all(len(ref.groups(s)) == len(ref.groups(s, True)) for s in shows):
        return False
    try:
        check_captions(caps, shows, m, sent=True)
    except core.Violation:
        return False
    m.known(ORDER, f"consecutive rows not sent top to bottom come back as separate captions in {doc!r}")
    return True


def valid(case):
    if case.get("k") == "many":
        return True
    try:
        ls = case["p"]["loads"]
        if not ls or not gs.memory_clear(ls):
            return False
        t = 0
        for ld, after in zip(ls, ls[1:] + [None]):
            if not isinstance(ld["dbl"], bool) or ld["t"] < t:
                return False
            if "r" not in ld["pre"] or set(ld["pre"]) - set("re"):
                return False
            if ld.get("junk") and (ld["pre"] != "er" or not valid({"p": {"loads": [{"t": 0, "dbl": ld["dbl"], "pre": "er",
                                                                                        "rows": ld["junk"]}]}})):
                return False
            if len({r[0] for r in ld["rows"]}) != len(ld["rows"]) or not ld.get("any") and ld["rows"] != sorted(ld["rows"], key=lambda r: r[0]):
                return False
            for r in ld["rows"]:
                if not 1 <= r[0] <= 15 or not 0 <= r[1] < 32 or not 0 <= r[2] <= 3:
                    return False
                lead = r[3][:1] == [["b"]]
                if not gs.visible(r[3]) or gs.width(r[3][lead:]) + c6.pac_col(r[1]) + r[2] > 32:
                    return False
                last = None
                toks = r[3]
                if toks and toks[0] in (["b"],) or toks[0][0] == "e" and not toks[0][1]:
                    if c6.pac_col(r[1]) or r[2] or len(toks) > 1 and toks[1] == ["b"]:
                        return False
                    toks = toks[1:]
                for k in toks:
                    if not gs.tok_codes(k):
                        return False
                    if k[0] in "sm" and k == last or k[0] == "b" and (not last or last[0] not in "csexz"):
                        return False
                    if k[0] in "ce" and (not k[1] or any(x not in c6.CHAR_BASIC for x in k[1])):
                        return False
                    if k[0] == "z" and k[1] not in c6.CHAR_BASIC:
                        return False
                    if k[0] == "x" and last == ["s", k[1]]:
                        return False
                    last = k
            if not ld["rows"] and (len(ls) < 2 or "e" not in ld["pre"] or ld.get("junk")):
                return False
            t = ld["t"] + gs.end_frame(ld)
            if after is None or after.get("same") is None or after.get("edm") == "start":
                t += 2      # displays are not shorter than 0.05 s
        gs.render(gs.popon_lines(case["p"]))
        return True
    except (KeyError, IndexError, TypeError, ValueError):
        return False


# ------------------------------------------------------------ workload
def one(rows, dbl=True, **kw):
    ld = {"t": 300, "dbl": dbl, "pre": "er", "rows": rows}
    ld.update(kw)
    return ld


def prog(loads, sep=";"):
    t = 60
    for ld in loads:
        ld["t"] = t
        t += gs.end_frame(ld) + 40
    return {"loads": loads, "sep": sep}


LEADS = [["b"], ["e", "", 0x12, 0x21]]
ITEMS = [["c", "ab"], ["c", "x"], ["c", " y"], ["c", "z "], ["c", "."], ["s", 0x37], ["e", "e", 0x12, 0x21], ["e", "u", 0x13, 0x24],
         ["e", " ", 0x12, 0x2a], ["x", 0x37, 0x12, 0x30],
         ["b"], ["m", 14], ["m", 0], ["m", 1], ["m", 15], ["n"], ["z", "q"]]


def expand(case):
    w = case["w"]
    if w == "addr":
        for a in range(16 if case["tab"] else 0, 32):
            for dbl in (True, False):
                yield prog([one([[case["row"], a, case["tab"], [["c", "Hi there"[:32 - c6.pac_col(a) - case["tab"]]]]]], dbl)])
                if case["tab"] and dbl:
                    for unit in gs.TABS:
                        yield prog([one([[case["row"], a, case["tab"], [["c", "y"]]]], True, unit=unit)])
                yield prog([one([[case["row"], a, case["tab"], [["c", "k"]]]], dbl), one([[case["row"], 16, 0, [["c", "next"]]]], dbl)])
    elif w == "chars":
        dbl = case["dbl"]
        yield prog([one([[14, 16, 0, [["c", gs.BASIC_CHARS[i:i + 25]]]]], dbl) for i in range(0, 95, 25)])
        for ch in gs.BASIC_CHARS.strip():
            yield prog([one([[14, 16, 0, [["c", ch]]]], dbl), one([[14, 16, 0, [["c", "a" + ch + "b"]]]], dbl),
                        one([[14, 16, 0, [["c", ch + ch + "c" + ch]]]], dbl)])
            # next to a mid-row code, at the first and at the second byte of a word
            for pre in ("ab", "abc"):
                yield prog([one([[14, 16, 0, [["c", pre], ["m", 14], ["c", ch + "b"], ["m", 0], ["c", ch]]]], dbl),
                            one([[14, 14, 0, [["c", pre + ch], ["m", 0], ["c", "x" + ch], ["m", 14], ["c", "b"]]]], dbl)])
        for n in range(0x30, 0x40):
            yield prog([one([[14, 16, 0, [["c", "a"], ["s", n], ["c", "b"]]]], dbl), one([[15, 16, 0, [["s", n], ["c", "bc"]]]], dbl),
                        one([[15, 16, 0, [["c", "bc"], ["s", n], ["n"], ["s", n], ["c", "q"]]]], dbl)])
            for pre in ("ab", "abc"):
                yield prog([one([[14, 16, 0, [["c", pre], ["m", 14], ["s", n], ["m", 0], ["s", n]]]], dbl),
                            one([[14, 14, 0, [["c", pre], ["s", n], ["m", 0], ["s", n], ["c", "x"]]]], dbl),
                            one([[14, 14, 0, [["c", pre], ["s", n], ["m", 14], ["c", "x"], ["s", n], ["m", 0], ["c", "b"]]]], dbl)])
        for hi in (0x12, 0x13):
            for n in range(0x20, 0x40):
                e = ["e", "e", hi, n]
                yield prog([one([[14, 16, 0, [e]]], dbl), one([[14, 16, 0, [["c", "ab"], e, ["c", "cd"]]]], dbl),
                            one([[3, 16, 0, [["c", "a"], e, e, ["c", "cd"], ["s", 0x30], ["e", "U", hi, n]]]], dbl),
                            one([[3, 16, 0, [["c", "l1"]]], [4, 16, 0, [e, ["c", "z"]]]], dbl)])
    elif w == "seq":
        for tail in itertools.product(ITEMS, repeat=case["n"]):
            toks = [ITEMS[case["i"]]] + list(tail)
            for a in (16, 14):
                p = prog([one([[15, a, 0, toks]], case["dbl"])])
                if valid({"p": p}):
                    yield p
            p = prog([one([[13, 16, 0, [["c", "up"]]], [14, 14 if case["i"] % 2 else 20, 0, toks], [15, 16, 0, [["c", "down"]]]], case["dbl"])])
            if valid({"p": p}):
                yield p
        if case["n"] < 2:
            for ld in LEADS:
                for first in (12, 13):
                    p = prog([one([[first, 16, 0, [["c", "up"]]], [14, 14 if case["i"] % 2 else 16, 0, [ld] + toks]], case["dbl"])])
                    if valid({"p": p}):
                        yield p
    elif w == "rows":
        r1 = case["row"]
        for r2 in range(1, r1):
            yield prog([one([[r1, 16, 0, [["c", "one"]]], [r2, 14, 0, [["c", "two"]]]], case["dbl"], any=True)])
            for r3 in {1, r2 - 1, r2 + 1, r1 - 1, r1 + 1, 15} - {r1, r2, 0, 16}:
                yield prog([one([[r1, 16, 0, [["c", "one"]]], [r2, 14, 0, [["c", "two"]]], [r3, 16, 0, [["c", "three"]]]], case["dbl"],
                                any=True), one([[15, 16, 0, [["c", "next"]]]], case["dbl"])])
        for r2 in range(r1 + 1, 16):
            for a, b in itertools.product((14, 16, 17, 20, 1), repeat=2):
                for ta, tb in ((0, 0), (2, 0), (0, 3), (1, 1)):
                    yield prog([one([[r1, a, ta, [["c", "one"]]], [r2, b, tb, [["c", "two"]]]], case["dbl"])])
            for r3 in range(r2 + 1, min(16, r2 + 3)):
                yield prog([one([[r1, 16, 0, [["c", "one"]]], [r2, 14, 1, [["c", "two"]]], [r3, 22, 0, [["c", "three"]]]], case["dbl"])])
    elif w == "loads":
        # what the reader remembers between loads: position, italics, pending breaks
        shapes = [[[13, 16, 0, [["c", "a"]]]], [[14, 16, 0, [["c", "b"]]]], [[15, 16, 0, [["c", "c"]]]], [[15, 16, 1, [["c", "d"]]]],
                  [[14, 14, 0, [["c", "e"]]]], [[15, 16, 0, [["c", "f "], ["m", 14], ["c", "g"]]]], [[15, 17, 3, [["m", 14], ["c", "h"]]]],
                  [[14, 16, 0, [["c", "i"]]], [15, 16, 0, [["c", "j"]]]], [[14, 18, 2, [["c", "k"]]], [15, 14, 1, [["c", "l"]]]],
                  [[1, 16, 0, [["c", "m"]]], [15, 16, 0, [["c", "n"]]]]]
        for tail in itertools.product(shapes, repeat=case["n"]):
            for sp in (None, 10):
                kw = {"edm": case["edm"]} if case["edm"] != "bare" else {"edm": "in", "pre": "r"}
                yield prog([one([list(r) for r in s], case["dbl"], split=sp, **kw) for s in [shapes[case["i"]]] + list(tail)])


def systematic(tier):
    for row in range(1, 16):
        for tab in range(4):
            yield {"k": "many", "w": "addr", "row": row, "tab": tab}
        for dbl in (True, False):
            yield {"k": "many", "w": "rows", "row": row, "dbl": dbl}
    for dbl in (True, False):
        yield {"k": "many", "w": "chars", "dbl": dbl}
        for i in range(len(ITEMS)):
            for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3)):
                yield {"k": "many", "w": "seq", "i": i, "n": n, "dbl": dbl}
        for i in range(10):
            for n in ((1,) if tier == "quick" else (1, 2)):
                for edm in (None, "in", "start", "bare"):
                    yield {"k": "many", "w": "loads", "i": i, "n": n, "dbl": dbl, "edm": edm}


def random_case(rng, tier):
    p = gs.popon(rng, 4 if tier == "quick" else 6)
    if rng.random() < 0.1:
        for ld in p["loads"]:
            if rng.random() < 0.7:
                ld["any"] = True        # rows in any order
                rng.shuffle(ld["rows"])
                if ld["rows"] and len(ld["rows"][0]) > 4:
                    ld["rows"][0].pop()
    return {"k": "one", "p": p}
