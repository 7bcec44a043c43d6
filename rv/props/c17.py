"""C17 SCC writer: structure of the emitted words, layout, schedule, and reading back."""
import itertools
import re
from fractions import Fraction as F
from math import ceil

from .. import core, model
from ..gen import text as gt
from ..gen import scc as gs
from ..ref import cea608 as c6
from ..ref import scc as ref

core.setup_path()
from pycaption import SCCReader  # noqa: E402
from pycaption.scc import SCCWriter  # noqa: E402

ID = "C17"
PLAN = {"quick": 22500, "thorough": 400000}
RULE = ("(a) every basic character alone and in a pair with every other, every word length 1-40 at every column, every line "
        "length 1-80, every number of rows 1-15, spacings from exactly feasible upwards; (b) seeded random caption sets. The "
        "output is checked byte by byte, decoded by an independent CEA-608 decoder with an exact clock, and read back")
ASSUMPTIONS = [
    "the text of a cue fits in 15 rows of 32 columns; every line has a visible character",
    "feasible: the first cue starts no earlier than its load takes from time zero, each next cue no earlier than the previous "
    "start plus its own load (ENM ENM RCL RCL, doubled preambles, text, EDM EDM EOC EOC)",
    "a word longer than 32 characters may be split at any row end; white space inside a line is compared by words",
    "cues are sorted, 0 <= start, end <= next start, and last 0.2 s or more (the reader rejects displays under 0.05 s)",
]
FLOORS = {"outputs": 9000, "cues": 25000, "words": 300000, "rows": 40000, "split_words": 1500, "wrapped": 8000, "full_rows": 2000,
          "tight": 5000, "sparse": 600, "rows>=4": 2000}
LINE = re.compile(r"(\d\d):(\d\d):(\d\d):(\d\d)\t([0-9a-f]{4}(?: [0-9a-f]{4})*)\Z")
FRAME = F(1001000, 30)
MINDUR = 200000        # the reader rejects displays under 0.05 s, and the writer may be 3 frames off


# ------------------------------------------------------------ reference layout (only for the schedule of the workload)
def wrap(line, width=32):
    out, cur = [], ""
    for word in line.split(" "):
        if cur and len(cur) + 1 + len(word) <= width:
            cur += " " + word
            continue
        if cur:
            room = width - len(cur) - 1
            if len(word) > width and room > 0:
                cur += " " + word[:room]
                word = word[room:]
            out.append(cur)
        while len(word) > width:
            out.append(word[:width])
            word = word[width:]
        cur = word
    out.append(cur)
    return out


def load_words(lines):
    rows = [r for ln in lines for r in wrap(ln)]
    return 8 + sum(2 + (len(r) + 1) // 2 for r in rows), len(rows)


# ------------------------------------------------------------ monitor
def match_words(lines, rows, m, show):
    """rows: text of the decoded rows. The words of each input line in order; a row ends where a space was, or inside a
    word of more than 32 characters."""
    toks = []                  # (word, row)
    for i, r in enumerate(rows):
        toks += [(w, i) for w in r.split()]
    k = 0
    last_row = -1
    for ln in lines:
        first = True
        for w in ln.split():
            m.check(k < len(toks), "words", show)
            if first and k:
                m.check(toks[k][1] != last_row, "line-break-lost", show)
            if toks[k][0] == w:
                last_row = toks[k][1]
                k += 1
            else:
                m.check(len(w) > 32, "words", show)
                acc = ""
                while len(acc) < len(w):
                    m.check(k < len(toks) and w[len(acc):].startswith(toks[k][0]), "words", show)
                    if acc:
                        m.check(toks[k][1] == last_row + 1, "words", show)
                    acc += toks[k][0]
                    last_row = toks[k][1]
                    k += 1
                m.check(acc == w, "words", show)
                m.hit("split_words")
            first = False
    m.check(k == len(toks), "words", show)


def text_lines(cue):
    return "".join(n[1] if n[0] == "t" else "\n" if n[0] == "b" else "" for n in cue["n"]).split("\n")


def run_one(case, m):
    cues = case["cues"]
    cs = model.build({"langs": [["en-US", {"caps": cues}]]})
    out = m.must("write:scc", SCCWriter().write, cs)
    m.nontrivial = True
    m.hit("outputs")
    show = lambda: f"output {out!r} for {cues!r}"[:1800]  # noqa: E731
    lines = out.split("\n")
    m.check(lines[0] == "Scenarist_SCC V1.0", "header", show)
    d = ref.Decoder()
    prev = None
    for ln in lines[1:]:
        if not ln:
            continue
        g = LINE.match(ln)
        m.check(g is not None, "line-syntax", lambda: f"line {ln!r} {show()}")
        h, mi, s, f = (int(g[i]) for i in range(1, 5))
        m.check(mi < 60 and s < 60 and f < 30, "timecode", lambda: f"line {ln!r} {show()}")
        at = ((h * 60 + mi) * 60 + s) * 30 + f
        m.check(prev is None or at >= prev, "timecode-order", show)
        prev = at
        words = g[5].split(" ")
        for w in words:
            a, b = int(w[:2], 16), int(w[2:], 16)
            m.check(c6.odd(a) and c6.odd(b), "parity", lambda: f"word {w} {show()}")
            a7 = a & 0x7f
            if 0x10 <= a7 <= 0x1f:
                ok = w in c6.WORD_PAC or w in c6.WORD_TAB or w in c6.WORD_MID or w in c6.WORD_SPECIAL or w in c6.WORD_EXT or w in (
                    c6.RCL, c6.ENM, c6.EDM, c6.EOC, c6.BS, c6.DER)
                m.check(ok, "unknown-code", lambda: f"word {w} {show()}")
            else:
                m.check(a7 in c6.BASIC and (b == 0x80 or (b & 0x7f) in c6.BASIC), "unknown-code", lambda: f"word {w} {show()}")
        m.hit("words", len(words))
        d.feed(at, ":", words)
    shows = [e for e in d.events if e[0] == "show"]
    m.check(len(shows) == len(cues), "cues", lambda: f"{len(shows)} EOC codes for {len(cues)} cues {show()}")
    for cue, e in zip(cues, shows):
        vis = e[1][0] * FRAME
        m.check(abs(vis - F(cue["s"])) <= 3 * FRAME, "visible-time", lambda: f"cue at {cue['s']} becomes visible at "
                f"{float(vis):.0f} ({float((vis - F(cue['s'])) / FRAME):.2f} frames) {show()}")
        screen = e[2]
        nums = sorted(screen)
        m.check(nums and 1 <= nums[0] and nums[-1] <= 15, "rows", show)
        rows = []
        for r in nums:
            cols = sorted(screen[r])
            m.check(cols[-1] <= 31, "columns", show)
            line = ["\u0020"] * (cols[-1] + 1)
            for c in cols:
                line[c] = screen[r][c][0]
            rows.append("".join(line))
            if len(line) == 32:
                m.hit("full_rows")
        # the decoder clamps at column 31: the text must be complete
        want = text_lines(cue)
        match_words(want, rows, m, lambda: f"decoded rows {rows!r} for {want!r} {show()}")
        m.hit("rows", len(rows))
        if len(rows) > len(want):
            m.hit("wrapped")
        if len(rows) >= 4:
            m.hit("rows>=4")
    # reading back
    back = m.must("read:scc", SCCReader().read, out).get_captions("en-US")
    m.check(len(back) == len(cues), "read-back-count", lambda: f"{len(back)} captions read for {len(cues)} cues {show()}")
    for cue, c in zip(cues, back):
        got = "".join(c.get_text_nodes()).split("\n")
        want = text_lines(cue)
        match_words(want, got, m, lambda: f"read back {got!r} for {want!r} {show()}")
        m.check(abs(F(c.start) - F(cue["s"])) <= 3 * FRAME + 1, "read-back-start", lambda: f"{c.start} for {cue['s']} {show()}")
        m.hit("cues")
    tight = 0
    for a, b in zip(cues, cues[1:]):
        w, _ = load_words(text_lines(b))
        if F(b["s"]) - F(a["s"]) < (w + 3) * FRAME:
            tight += 1
        elif F(b["s"]) - F(a["e"]) > (w + 30) * FRAME:
            m.hit("sparse")
    m.hit("tight", tight)
    m.state("set", len(cues), tuple(len(text_lines(c)) for c in cues)[:4], tight)


def run(case, m):
    if case.get("k") == "many":
        for c in expand(case):
            if valid(c):
                run_one(c, m)
    else:
        run_one(case, m)


def valid(case):
    if case.get("k") == "many":
        return True
    try:
        prev_s, prev_e = None, 0
        if not case["cues"]:
            return False
        for cue in case["cues"]:
            lines = text_lines(cue)
            if not 1 <= len(lines) or any(not ln.strip() or any(x not in c6.CHAR_BASIC or x == "\u2588" for x in ln) for ln in lines):
                return False
            w, rows = load_words(lines)
            if rows > 15:
                return False
            s, e = F(cue["s"]), F(cue["e"])
            if not prev_e <= s or e - s < MINDUR or s - (prev_s or 0) < w * FRAME:
                return False
            prev_s, prev_e = s, e
        return e < 86000000000
    except (KeyError, IndexError, TypeError, ValueError):
        return False


# ------------------------------------------------------------ workload
def schedule(rng, texts, tight=None):
    """Cues with feasible times for a list of line lists."""
    out, s = [], F(0)
    if rng.random() < 0.5:
        s = F(rng.choice([0, 1000000, 3600000000, rng.randint(0, 7200000000), rng.randint(0, 82800000000)]))
    for lines in texts:
        w, _ = load_words(lines)
        extra = tight if tight is not None else rng.choice([0, 0, 0, 1, 2, 3, 4, 5, rng.uniform(0, 6), rng.randint(6, 200), rng.randint(100, 3000)])
        s += (w + F(extra)) * FRAME
        s = F(ceil(s))
        if rng.random() < 0.1:
            s = F(ceil(s / 1000) * 1000)
        if out:
            prev = F(out[-1]["s"])
            r = rng.random()
            if r < 0.35:
                e = s
            elif r < 0.6:
                e = max(prev + MINDUR, s - F(ceil((w + rng.choice([-3, -1, 0, 1, 2, 2.9, 3, 3.1, 4, 5, 10])) * FRAME)))
                e = min(e, s)
            else:
                e = prev + F(ceil((s - prev) * F(rng.random())))
            out[-1]["e"] = int(max(prev + MINDUR, min(e, s)))
        n = []
        for i, ln in enumerate(lines):
            if i:
                n.append(["b"])
            n.append(["t", ln])
        out.append({"s": int(s), "e": 0, "n": n})
    out[-1]["e"] = int(out[-1]["s"] + rng.choice([200000, 240000, 2000000, rng.randint(200000, 9000000)]))
    return {"cues": out}


def seq(texts, extra=0):
    out, s = [], F(0)
    for lines in texts:
        w, _ = load_words(lines)
        s = F(ceil(s + (w + F(extra)) * FRAME))
        if out:
            out[-1]["e"] = int(s) if not extra else int(out[-1]["s"] + 700000) if s - out[-1]["s"] > 700000 else int(s)
        n = []
        for i, ln in enumerate(lines):
            n += [["b"]] * (i > 0) + [["t", ln]]
        out.append({"s": int(s), "e": 0, "n": n})
    out[-1]["e"] = out[-1]["s"] + 1000000
    return {"cues": out}


CH = [c for c in gs.BASIC_CHARS if c != " "]


def expand(case):
    w = case["w"]
    if w == "pairs":
        a = case["a"]
        for x in (0, 10):
            yield seq([[a], [a + a], [a + "b"], ["b" + a + "c"], [a + " " + a]], x)
        yield seq([["".join(a + b + " " for b in CH[i:i + 10]).strip()] for i in range(0, len(CH), 10)], 2)
        yield seq([[a * 33], [a * 32], [a * 31 + " " + a * 2], ["x" * 31 + a + "y" * 6], ["-".join([a] * 20)]], 1)
    elif w == "words":
        n = case["n"]
        yield seq([["y" * k + " " + "w" * n] for k in range(1, 40)], 3)
        yield seq([["y" * k + " " + "w" * n + " z"] for k in range(1, 40)], 0)
        yield seq([[("w" * n + " ") * k + "e"] for k in range(1, max(2, 80 // (n + 1)))], 0)
        yield seq([["hy-phen" * 3 + "y" * k + "-" + "w" * n] for k in range(1, 12)], 0)
    elif w == "rows":
        for k in range(1, 16):
            yield seq([[f"row{i}" for i in range(k)], ["next"], [f"r {i}" for i in range(k)]], case["x"])
        for k in range(1, 5):
            yield seq([["x" * 20 + " " + "y" * 30 + " zz"] * k, ["a b c"] * k], case["x"])
    elif w == "gap":
        # the previous cue ends around the moment the next load starts
        for g in range(0, 13):
            for fr in (F(0), F(1, 2), F(1, 1000000)):
                c = seq([["first"], ["second one"]], 40)
                nw, _ = load_words(["second one"])
                start = F(c["cues"][1]["s"]) - (nw + 6) * FRAME
                c["cues"][0]["e"] = int(start + (g + fr) * FRAME)
                for sh in (0, 1, 17, 33366, 33367, 100100, 3600000000 - 5):
                    yield {"cues": [dict(x, s=x["s"] + sh, e=x["e"] + sh) for x in c["cues"]]}


def systematic(tier):
    for a in CH:
        yield {"k": "many", "w": "pairs", "a": a}
    for n in range(1, 41):
        yield {"k": "many", "w": "words", "n": n}
    for x in (0, 1, 5, 40):
        yield {"k": "many", "w": "rows", "x": x}
    yield {"k": "many", "w": "gap"}
    for n in range(1, 81):
        for sep in (7, 1, 15):
            yield seq([[(("abcdefghijklmnopqrs"[:sep] + " ") * 80)[:n].strip()]] * 2)


def _line(rng):
    n = rng.choice([rng.randint(1, 32), rng.randint(1, 80), rng.choice([31, 32, 33, 64, 65, 80])])
    mx = rng.choice([6, 12, 33, 40])
    out = ""
    while len(out) < n:
        k = rng.randint(1, mx)
        r = rng.random()
        if r < 0.6:
            w = "".join(rng.choice(gs.LETTERS) for _ in range(k))
        elif r < 0.75:
            w = "".join(rng.choice(gs.LETTERS + "---") for _ in range(k))
        else:
            w = "".join(rng.choice(CH) for _ in range(k))
        out += w + rng.choice([" ", " ", " ", "  "])
    if rng.random() < 0.05:
        out = " " + out
    out = out[:n].rstrip()
    return out if out.strip() else "x"


def random_case(rng, tier):
    while True:
        texts = [[_line(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))] for _ in range(gt.count(rng, [1, 2, 3, 4, 5], 120))]
        case = schedule(rng, texts)
        if valid(case):
            return case
