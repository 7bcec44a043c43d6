"""C16 roll-up and paint-on SCC: conservation of the characters, ordering of the captions."""
import itertools

from .. import core
from ..gen import scc as gs
from ..ref import cea608 as c6

core.setup_path()
from pycaption import SCCReader  # noqa: E402

ID = "C16"
PLAN = {"quick": 35000, "thorough": 600000}
RULE = ("(a) all combinations of depth x single/doubled x drop/non-drop x 1-8 rows x ways to send the roll-up code and the "
        "carriage return x base rows x gaps, and paint-on blocks likewise; (b) seeded random roll-up and paint-on programs; "
        "the transmitted rows are logged by the generator and matched against the text of the returned captions")
ASSUMPTIONS = [
    "simulate_roll_up is off (it repeats rows on purpose)",
    "white space is compared by words only around mid-row codes, line ends and row starts",
    "paint-on captions of one block on non-adjacent rows share their times: each ends when the next later caption begins",
    "single-coded streams do not repeat a control code back to back",
]
FLOORS = {"captions": 30000, "rows": 40000, "chars": 300000, "joints": 20000, "mode:roll": 6000, "mode:paint": 4000, "mode:mix": 1000,
          "depth:2": 1500, "depth:3": 1500, "depth:4": 1500, "sep::": 4000, "sep:;": 4000, "dbl:True": 4000, "dbl:False": 4000}


def sent_rows(p):
    """[cells] of each transmitted row in order."""
    if p["mode"] == "mix":
        return [r for q in p["parts"] for r in sent_rows(q)]
    out = []
    if p["mode"] == "roll":
        for it in p["rows"]:
            c = gs.cells(it["row"][3])
            if it.get("cont"):
                c = c + gs.cells(it["cont"][1])
            out.append(c)
    else:
        for b in p["blocks"]:
            out += [gs.cells(r[3]) for r in b["rows"]]
    return out


def same(a, b):
    return a == b or a in c6.ALT.get(b, "")


def run_one(p, m):
    doc = gs.render(gs.live_lines(p), p["sep"], p.get("upper"))
    rows = sent_rows(p)
    o = m.call("read:scc", SCCReader().read, doc)
    m.nontrivial = True
    show = lambda: f"doc {doc!r} program {p!r}"[:1500]  # noqa: E731
    m.check(o.ok, "refused", lambda: f"{o.exc!r} {show()}")
    caps = o.value.get_captions("en-US")
    m.hit("mode:" + p["mode"])
    m.hit("sep:" + p["sep"])
    m.hit(f"dbl:{p['dbl']}")
    for it in p.get("rows", ()) if p["mode"] == "roll" else ():
        if it.get("ru"):
            m.hit(f"depth:{it['ru']}")
    # conservation and order
    lines = []
    for c in caps:
        text = "".join(c.get_text_nodes())
        lines += text.split("\n")
    got = [(x, i) for i, ln in enumerate(lines) for x in ln if not x.isspace()]
    want = [(x, r) for r, cs in enumerate(rows) for x in cs if x is not None and not x.isspace()]
    m.check(len(got) == len(want) and all(same(a, b) for (a, _), (b, _) in zip(got, want)), "conservation",
            lambda: f"captions show {lines!r} transmitted {[''.join(x or '~' for x in r) for r in rows]!r} {show()}")
    where = {}
    for (_, i), (_, r) in zip(got, want):
        where.setdefault(r, set()).add(i)
    for r, s in where.items():
        m.check(len(s) == 1, "row-split", lambda: f"row {''.join(x or '~' for x in rows[r])!r} spread over lines "
                f"{[lines[i] for i in s]!r} {show()}")
    # words of plain rows that are alone on their line
    alone = {}
    for r, s in where.items():
        alone.setdefault(min(s), []).append(r)
    for i, rs in alone.items():
        if len(rs) == 1 and None not in rows[rs[0]]:
            w = "".join(rows[rs[0]])
            m.check(len(w.split()) == len(lines[i].split()), "words", lambda: f"line {lines[i]!r} for the row {w!r} {show()}")
    m.hit("rows", len(rows))
    m.hit("chars", len(want))
    # times
    for c in caps:
        m.check(c.start < c.end, "duration", lambda: f"caption {c.get_text()!r} {c.start} --> {c.end} {show()}")
    for i, c in enumerate(caps):
        nxt = next((x for x in caps[i + 1:] if x.start != c.start), None)
        if i + 1 < len(caps):
            m.check(c.start <= caps[i + 1].start, "order", lambda: f"{[(x.start, x.end) for x in caps]} {show()}")
            if p["mode"] == "roll":
                m.check(c.start < caps[i + 1].start, "order", lambda: f"{[(x.start, x.end) for x in caps]} {show()}")
        if nxt is not None:
            m.check(abs(c.end - nxt.start) < 1, "joint", lambda: f"caption {c.get_text()!r} ends at {c.end} the next begins at "
                    f"{nxt.start} {show()}")
            m.hit("joints")
        m.hit("captions")
    m.state("program", p["mode"], p["dbl"], p["sep"], len(rows), len(caps))


def run(case, m):
    if case["k"] == "many":
        for p in expand(case):
            run_one(p, m)
    else:
        run_one(case["p"], m)


PLACES = ("start", "mid", "row", "end")


def _toks(toks, room):
    if not gs.visible(toks) or gs.width(toks) > room:
        return False
    last = None
    for k in toks:
        if not gs.tok_codes(k):
            return False
        if k[0] in "sm" and k == last or k[0] == "b" and (not last or last[0] not in "csexz"):
            return False
        if k[0] == "z" and k[1] not in c6.CHAR_BASIC:
            return False
        if k[0] in "ce" and (not k[1] or any(x not in c6.CHAR_BASIC for x in k[1])) or k[0] == "e" and k[1].isspace():
            return False
        last = k
    return True


def valid(case):
    if case.get("k") == "many":
        return True
    try:
        p = case["p"]
        if p["mode"] == "mix":
            return len(p["parts"]) > 0 and all(q["mode"] in ("roll", "paint") and valid({"k": "one", "p": dict(q, dbl=p["dbl"], sep=p["sep"])})
                                               for q in p["parts"])
        if p["mode"] not in ("roll", "paint") or p["sep"] not in (":", ";") or not isinstance(p["dbl"], bool) or p["t"] < 0:
            return False
        for it in p["rows" if p["mode"] == "roll" else "blocks"]:
            if it.get("enm", "mid") not in PLACES or it.get("nul", ["mid"])[0] not in PLACES or it.get("edm") not in (None, True, "start", "line"):
                return False
        if p["mode"] == "roll":
            rows = []
            for i, it in enumerate(p["rows"]):
                if not i and (not it.get("ru") or it.get("pac") is False):
                    return False
                if i and not it.get("cr"):
                    return False
                if it.get("ru") not in (0, 2, 3, 4, None) or it.get("gap") is None and not i or (it.get("gap") or 0) < 0:
                    return False
                n = 0
                if it.get("cont"):
                    if it["cont"][0] < 0 or not _toks(it["cont"][1], 32) or it["cont"][1][0][0] != "c":
                        return False
                    n = gs.width(it["cont"][1])
                rows.append((it["row"], n))
        else:
            rows, used = [], set()
            for i, b in enumerate(p["blocks"]):
                if not i and (not b.get("rdc") or b.get("gap") is None) or not b["rows"] or (b.get("gap") or 0) < 0:
                    return False
                rows += [(r, 0) for r in b["rows"]]
                new = {r[0] for r in b["rows"]}
                if len(new) < len(b["rows"]) or not b.get("rdc") and new & used:
                    return False
                used = new if b.get("rdc") else used | new
        if not rows:
            return False
        for r, n in rows:
            if not 1 <= r[0] <= 15 or not 0 <= r[1] < 32 or not 0 <= r[2] <= 3:
                return False
            if not _toks(r[3], 32 - n - c6.pac_col(r[1]) - r[2]):
                return False
        return gs.live_lines(p)[-1][0] < 30 * 3600 * 90
    except (KeyError, IndexError, TypeError, ValueError):
        return False


# ------------------------------------------------------------ workload
def expand(case):
    n, dbl, sep, depth = case["n"], case["dbl"], case["sep"], case["depth"]
    texts = ["one", "two words", "x", "a longer third row of text here", "5", "six six", "7", "eight."]
    for style, gap, base, cont in itertools.product(("ru", "cr"), (0, 1, 3, 30, None), (depth, 11, 15, "up", "down"), (0, 1)):
        rows = []
        for i in range(n):
            row = {"up": 5 + n - i, "down": 5 + i}.get(base, base)
            it = {"gap": gap if i else 3, "ru": depth if not i or style == "ru" else 0, "cr": True, "row": [row, 16, 0, [["c", texts[i]]]]}
            if cont and i == n - 1:
                it["cont"] = [gap or 0, [["c", "z"]]]
            rows.append(it)
        yield {"mode": "roll", "dbl": dbl, "sep": sep, "t": 100, "rows": rows}
        for per in (1, 2, 3):
            blocks = []
            for i in range(0, n, per):
                rr = [[{"up": 5 + n - i - k, "down": 5 + i + k}.get(base, min(15, (base if isinstance(base, int) else 0) - per + 1 + k) or 1),
                       16, 0, [["c", texts[i + k]]]] for k in range(min(per, n - i))]
                for r in rr:
                    r[0] = max(1, r[0])
                if cont and len(rr) > 1:
                    rr[-1].append(1 + (gap or 0))
                blocks.append({"gap": gap if i else 3, "rdc": True, "rows": rr})
            yield {"mode": "paint", "dbl": dbl, "sep": sep, "t": 100, "blocks": blocks}


def systematic(tier):
    for n in range(1, 9):
        for depth in (2, 3, 4):
            for dbl in (True, False):
                for sep in ":;":
                    yield {"k": "many", "n": n, "depth": depth, "dbl": dbl, "sep": sep}


def random_case(rng, tier):
    while True:
        case = {"k": "one", "p": gs.live(rng)}
        if valid(case):
            return case
