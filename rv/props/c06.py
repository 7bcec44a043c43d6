"""C06 SCC pop-on timing against an exact transmission clock."""
import itertools
from fractions import Fraction as F

from .. import core
from ..gen import scc as gs
from ..ref import cea608 as c6
from ..ref import scc as ref
from . import c05

core.setup_path()
from pycaption import SCCReader  # noqa: E402
from pycaption.exceptions import CaptionReadTimingError  # noqa: E402

ID = "C06"
PLAN = {"quick": 30000, "thorough": 500000}
RULE = ("(a) all combinations of small display durations, gaps and erase styles (inline, at the start of the next load, on a "
        "line of their own, none) x single/doubled x drop/non-drop x offsets around the floor; (b) seeded random pop-on "
        "programs with random offsets. Starts and ends are compared with an exact rational clock (frame of the code word)")
ASSUMPTIONS = [
    "a line's timecode is not before the end of the previous line's transmission; one timecode separator per file",
    "a gap of exactly five frames may be closed or not",
    "a display shorter than 0.05 s that becomes longer by closing the gap after it may be returned or rejected",
    "a caption cleared before time zero (offset) may be returned as (0, 0) or rejected",
    "times within 1 microsecond",
]
FLOORS = {"captions": 20000, "closed_gaps": 1500, "open_gaps": 2000, "last4s": 1500, "rejected": 200, "floored": 800,
          "sep::": 4000, "sep:;": 4000, "offset!=0": 3000, "end:EDM": 5000, "end:EOC": 5000}
FRAME = {";": F(1000000, 30), ":": F(1001000, 30)}


def expected(events, sep, offset):
    """[(frame start, frame end or None, raw end kind, screen)] for each non-empty EOC."""
    out = []
    for e in events:
        at = e[1][0]
        if out and out[-1][1] is None:
            out[-1][1] = at
            out[-1][2] = "EDM" if e[0] == "erase" else "EOC"
        if e[0] == "show" and ref.groups(e[2]):
            out.append([at, None, None, e[2]])
    return out


def run_one(p, m):
    sep, offset = p.get("sep", ";"), p.get("offset", 0)
    doc = gs.render(gs.popon_lines(p), sep, p.get("upper"))
    d = ref.decode(doc)
    want = expected(d.events, sep, offset)
    if not want:
        return
    m.nontrivial = True
    m.hit("sep:" + sep)
    if offset:
        m.hit("offset!=0")
    o = m.call("read:scc", SCCReader().read, doc, **({"offset": offset} if offset else {}))
    us = lambda fr: ref.micros(fr, sep, F(str(offset)))  # noqa: E731
    exp, must_reject, may_reject = [], [], []
    for i, (a, b, kind, screen) in enumerate(want):
        st = us(a)
        nxt = want[i + 1][0] if i + 1 < len(want) else None
        if a and not st:
            m.hit("floored")
        if b is None:
            ends = [st + 4000000]
            m.hit("last4s")
        else:
            m.hit("end:" + kind)
            ends = [us(b)]
            if nxt is not None:
                gap = us(nxt) - us(b)
                # the gap as shown: an erase before time zero leaves a shorter one
                if gap < 5 * FRAME[sep] - 1:
                    ends = [us(nxt)]
                    if nxt > b:
                        m.hit("closed_gaps")
                elif gap <= 5 * FRAME[":"] + 2:
                    ends = [us(b), us(nxt)]
                else:
                    m.hit("open_gaps")
        exp.append((st, ends, screen))
        raw = None if b is None else us(b) - st
        short = lambda x: 0 < x < 49998  # noqa: E731
        if all(short(e - st) for e in ends):
            must_reject.append(i)
        elif raw is not None and raw < 50002 or any(e - st < 50002 for e in ends):
            may_reject.append(i)
    if not o.ok:
        m.check(isinstance(o.exc, CaptionReadTimingError), "refused", lambda: f"reader raised {o.exc!r} for {doc!r}"[:500])
        m.check(must_reject or may_reject, "rejected", lambda: f"{o.exc!r} but every caption lasts at least 0.05 s: "
                f"{[(float(s), [float(e) for e in es]) for s, es, _ in exp]} doc {doc!r}"[:900])
        m.hit("rejected")
        return
    caps = o.value.get_captions("en-US")
    show = lambda: (f"got {[(c.start, c.end) for c in caps]} expected "  # noqa: E731
                    f"{[(float(s), [float(e) for e in es]) for s, es, _ in exp]} (offset {offset}) doc {doc!r}")[:900]
    m.check(not must_reject, "short-display-returned", show)
    flat = [(s, es, g) for s, es, sc in exp for g in ref.groups(sc)]
    m.check(len(flat) == len(caps), "captions", show)
    for c, (s, es, g) in zip(caps, flat):
        m.check(abs(c.start - s) <= 1, "start", show)
        m.check(any(abs(c.end - e) <= 1 for e in es), "end", show)
        m.check(c.start <= c.end, "order", show)
        m.check(not 0 < c.end - c.start < 49998, "short-display-returned", show)
        got = "".join(x.content for x in c.nodes if isinstance(x.content, str))
        ref_text = "".join(ch for _, _, cells in g for ch, _ in cells)
        m.check([x for x in got if not x.isspace() and x not in c6.ALT] == [x for x in ref_text if not x.isspace() and x not in c6.ALT]
                or any(a in ref_text for a in c6.ALT), "transmission-order", show)
        m.hit("captions")
    m.state("timing", sep, p["loads"][0]["dbl"], len(want), tuple(k for _, _, k, _ in want))


def run(case, m):
    if case["k"] == "many":
        for p in expand(case):
            run_one(p, m)
    else:
        run_one(case["p"], m)


def valid(case):
    if case.get("k") == "many":
        return True
    p = case.get("p")
    if not isinstance(p, dict) or not isinstance(p.get("offset", 0), (int, float)) or p.get("sep") not in (":", ";"):
        return False
    # loads may follow each other without a pause here
    q = dict(p, loads=[dict(ld) for ld in p["loads"]])
    t = 0
    for ld in q["loads"]:
        if ld["t"] < t:
            return False
        t = ld["t"] + gs.end_frame(ld)
    last = None
    for t, w in gs.popon_lines(p):
        if last is not None and t < last:
            return False
        last = t + len(w)
    t = 0
    for ld in q["loads"]:
        ld["t"] = t
        t += gs.end_frame(ld) + 2
        ld.pop("same", None)
    if not gs.memory_clear(p["loads"]):
        return False
    return c05.valid({"k": "one", "p": q})


# ------------------------------------------------------------ workload
def expand(case):
    """Two loads with every small duration and gap."""
    dbl, sep, style = case["dbl"], case["sep"], case["style"]
    base = case["base"]
    for d1, gap in itertools.product(range(0, 9), range(0, 9)):
        la = {"t": base, "dbl": dbl, "pre": "er", "rows": [[15, 16, 0, [["c", "a"]]]]}
        lb = {"t": 0, "dbl": dbl, "pre": "re", "rows": [[14, 16, 0, [["c", "b"]]]]}
        loads = [la, lb]
        if style == "clear":
            # the erase d1 frames after the first load, the second EOC alone on its line shortly after:
            # the second load is sent before the erase
            la["clear"] = None
            lb = None
        for off in case["offs"]:
            if style == "clear":
                yield from _preloaded(case, d1, gap, off)
                continue
            if style == "start":
                loads[1]["edm"] = "start"
            elif style == "in":
                loads[1]["edm"] = "in"
                loads[1]["split"] = None
            elif style == "own":
                la["clear"] = d1
            loads[1]["t"] = base + gs.end_frame(la) + gap
            yield {"loads": [dict(x) for x in loads], "sep": sep, "offset": off}


def _preloaded(case, d1, gap, off):
    # third load makes the display of `b` end too
    base = case["base"]
    la = {"t": base, "dbl": case["dbl"], "pre": "er", "rows": [[15, 16, 0, [["c", "a"]]]]}
    n = gs.end_frame(la)
    lb = {"t": base + n, "dbl": case["dbl"], "pre": "re", "rows": [[14, 16, 0, [["c", "b"]]]], "edm": "in", "split": gap,
          "pad": d1}
    lc = {"t": base + n + gs.end_frame(lb) + d1, "dbl": case["dbl"], "pre": "re", "rows": [[14, 16, 0, [["c", "c"]]]], "edm": "start",
          "split": gap}
    lc["clear"] = d1
    yield {"loads": [la, lb, lc], "sep": case["sep"], "offset": off}


def systematic(tier):
    offs = [0, 1, 2.5, -3, 3600, 2, 2.2, 2.35, 2.4]
    for dbl in (True, False):
        for sep in ":;":
            for style in ("start", "in", "own", "clear", "none"):
                for base in (60, 0, 3600 * 30, 1799):
                    yield {"k": "many", "dbl": dbl, "sep": sep, "style": style, "base": base, "offs": offs}


def random_case(rng, tier):
    p = gs.popon(rng, 5)
    r = rng.random()
    if r < 0.4:
        # durations and gaps of a few frames
        for ld in p["loads"]:
            if ld.get("same") is not None:
                ld["same"] = rng.choice([0, 1, 1, 2, 3, 5, 6])
            if rng.random() < 0.6:
                ld["clear"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
            if rng.random() < 0.5:
                ld["rows"] = [[15, 16, 0, [["c", rng.choice("abcdefgh")]]]]
        gs.retime(p["loads"], p["loads"][0]["t"], lambda: rng.choice([0, 0, 1, 2, 3, 4, 5, 6]))
        if not gs.memory_clear(p["loads"]):
            for ld in p["loads"][1:]:
                if ld.get("same") == 0:
                    ld["same"] = 1
                if ld["pre"] == "r":
                    ld["pre"] = "re"
            gs.retime(p["loads"], p["loads"][0]["t"], lambda: rng.choice([0, 0, 1, 2, 3, 4, 5, 6]))
    r = rng.random()
    if r < 0.5:
        first = p["loads"][0]["t"] / 30
        last = p["loads"][-1]["t"] / 30
        p["offset"] = rng.choice([1, 5, -1, -30, 3600, 0.5, int(first), int(first) + 1, round(rng.uniform(first, last + 3), 3),
                                  round(rng.uniform(0, first + 0.01), 2)])
    return {"k": "one", "p": p}
