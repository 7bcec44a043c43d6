"""C15 SCC lines longer than 32 characters: an error naming each of them, or none in what is returned."""
import itertools

from .. import core
from ..gen import text as gt
from ..gen import scc as gs
from ..ref import cea608 as c6

core.setup_path()
from pycaption import SCCReader  # noqa: E402
from pycaption.exceptions import CaptionLineLengthError, CaptionReadTimingError  # noqa: E402

ID = "C15"
PLAN = {"quick": 35000, "thorough": 600000}
RULE = ("(a) every tuple of row lengths from {1, 31, 32, 33, 40} for 1-4 rows of one screen (adjacent and not, every order) in "
        "the three modes, and for 1-3 screens forced to one start time by the offset; (b) seeded random programs in the three "
        "modes with rows of 0-40 characters. Expected verdict: raise iff a transmitted row is longer than 32, naming each; "
        "metamorphic: permuting rows or screens does not change the verdict nor the set of named lines")
ASSUMPTIONS = [
    "the blank of a mid-row code may be left out: a row whose length depends on such blanks may be refused or returned",
    "with simulate_roll_up only the disjunction is checked: rows are joined into longer lines on purpose",
    "an offset may make a display too short: a timing error is accepted when no row is too long",
    "rows end in a visible character",
]
FLOORS = {"programs": 14000, "raised": 4000, "returned": 3000, "named": 6000, "max32": 1500, "several_long": 1500,
          "mode:pop": 4000, "mode:paint": 2000, "mode:roll": 2000, "shared_start": 1000, "open_length": 300, "long_indented": 300, "long_with_midrow": 500, "simulate": 500}


class Row(str):
    """A row on screen as a line of text without the blanks of mid-row codes; `most` columns with them."""


def line(toks):
    cells = gs.cells(toks)
    while cells and (cells[-1] is None or cells[-1].isspace()):
        cells.pop()
    t = Row("".join(c or "" for c in cells))
    t.most = len(cells)
    return t


def lines_sent(p):
    """Consecutive rows of one address set are separate lines."""
    return [line(r[3]) for r in rows_of(p)]


def inside(t, text):
    """Whether the row is in the text (up to the blanks of mid-row codes)"""
    if t.most > len(t):
        return norm(t).replace(" ", "") in norm(text).replace(" ", "")
    return norm(t) in norm(text)


def rows_of(p):
    if p["mode"] == "mix":
        return [r for q in p["parts"] for r in rows_of(q)]
    if p["mode"] == "pop":
        return [r for ld in p["loads"] for r in ld["rows"]]
    if p["mode"] == "roll":
        return [it["row"] for it in p["rows"]]
    return [r for b in p["blocks"] for r in b["rows"]]


def doc_of(p):
    return gs.render(lines_of(p), p["sep"])


def lines_of(p):
    if p["mode"] == "mix":      # one mode after the other
        out, t = [], 0
        for q in p["parts"]:
            ls = lines_of(q)
            out += [(u - ls[0][0] + t, w) for u, w in ls]
            t = out[-1][0] + len(out[-1][1]) + 30
        return out
    return gs.popon_lines(p) if p["mode"] == "pop" else gs.live_lines(p)


def norm(s):
    return "".join("'" if c == "\u2019" else "|" if c in "\u00a6\u2502" else c for c in s)


TIMING = []


def observe(p, m):
    """-> ("raised", message) or ("returned", captions)"""
    kw = {k: p[k] for k in ("offset", "simulate_roll_up") if p.get(k)}
    doc = doc_of(p)
    o = m.call("read:scc", SCCReader().read, doc, **kw)
    if o.ok:
        m.hit("returned")
        return doc, None, o.value.get_captions("en-US")
    if isinstance(o.exc, CaptionReadTimingError) and p.get("offset") and not any(len(t) > 32 for t in lines_sent(p)):
        m.hit("timing-error")       # the offset leaves a caption less than 0.05 s (C06)
        return doc, None, TIMING
    m.check(isinstance(o.exc, CaptionLineLengthError), "other-error", lambda: f"{o.exc!r} for {doc!r}"[:700])
    m.hit("raised")
    return doc, str(o.exc.args[0]), None


def run_one(p, m):
    rows = lines_sent(p)
    too_long = [t for t in rows if len(t) > 32]
    maybe = [t for t in rows if len(t) <= 32 < t.most]
    if maybe:
        m.hit("open_length")
    if any(t[0] == " " and len(t) > 32 for t in too_long):
        m.hit("long_indented")
    if any(t.most > len(t) for t in too_long):
        m.hit("long_with_midrow")
    m.hit("programs")
    m.hit("mode:" + p["mode"])
    m.nontrivial = True
    doc, msg, caps = observe(p, m)
    if caps is not None:
        for c in caps:
            for ln in "".join(c.get_text_nodes()).split("\n"):
                m.check(len(ln) <= 32, "long-line-returned", lambda: f"line of {len(ln)} characters {ln!r} returned for {doc!r}"[:900])
                if len(ln) == 32:
                    m.hit("max32")
        if p.get("offset") and len(caps) > 1 and caps[0].start == caps[-1].start or \
                any(a.start == b.start for a, b in zip(caps, caps[1:])):
            m.hit("shared_start")
    if p.get("simulate_roll_up"):
        m.hit("simulate")
        if too_long:
            m.check(caps is None, "long-line-returned", lambda: f"no error for {too_long!r} in {doc!r}"[:900])
        return
    if too_long:
        m.check(caps is None, "long-line-returned", lambda: f"no error for {too_long!r} in {doc!r}"[:900])
        for t in too_long:
            m.check(inside(t, msg), "not-named", lambda: f"line {t!r} is not named in {msg!r} for {doc!r}"[:1200])
            m.hit("named")
        if len(too_long) > 1:
            m.hit("several_long")
        for t in rows:
            if t.most <= 32 and len(t) > 3 and not any(inside(t, x) for x in too_long + maybe):
                m.check(not inside(t, msg), "named-but-short", lambda: f"line {t!r} is named in {msg!r}"[:900])
    elif not maybe:
        m.check(caps is not None, "refused", lambda: f"{msg!r} but no row is longer than 32: {rows!r} {doc!r}"[:1200])
    m.state("lengths", p["mode"], tuple(min(len(t), 41) for t in rows)[:5])


def permuted(p, m):
    """Permutations of the screens / of the rows: the same verdict."""
    base = None
    for q in perms(p):
        run_one(q, m)
        rows = sorted(lines_sent(q))
        doc, msg, caps = observe(q, m)
        if caps is TIMING:
            continue
        got = (caps is None, sorted({t for t in rows if msg and inside(t, msg) and t.most > 32}))
        if base is None:
            base = got
        m.check(got == base, "order-dependent", lambda: f"{got} vs {base} for {doc!r}"[:900])


def perms(p):
    if p["mode"] != "pop":
        yield p
        return
    n = len(p["loads"])
    if n > 1:
        for perm in itertools.permutations(range(n)):
            yield program([p["loads"][i]["rows"] for i in perm], p["loads"][0]["dbl"], p["sep"], p.get("offset"))
    else:
        rows = p["loads"][0]["rows"]
        for perm in itertools.permutations(range(len(rows))):
            # the text moves to another row address
            yield program([[r[:3] + [rows[i][3]] for r, i in zip(rows, perm)]], p["loads"][0]["dbl"], p["sep"], p.get("offset"))
            # the rows are sent in another order (never one right below the row sent before)
            rr = [rows[i] for i in perm]
            if all(b[0] != a[0] + 1 for a, b in zip(rr, rr[1:])):
                yield program([rr], p["loads"][0]["dbl"], p["sep"], p.get("offset"))


def program(screens, dbl=True, sep=";", offset=None):
    loads, t = [], 60
    for rows in screens:
        ld = {"t": t, "dbl": dbl, "pre": "er", "rows": [list(r) for r in rows]}
        t += gs.end_frame(ld) + 30
        loads.append(ld)
    return {"mode": "pop", "loads": loads, "sep": sep, "offset": offset or 0}


def run(case, m):
    if case["k"] == "many":
        for p in expand(case):
            permuted(p, m) if case.get("perm") else run_one(p, m)
    elif case["k"] == "perm":
        permuted(case["p"], m)
    else:
        run_one(case["p"], m)


def valid(case):
    if case.get("k") == "many":
        return True
    try:
        p = case["p"]
        rows = rows_of(p)
        if not rows or p["sep"] not in (":", ";") or not isinstance(p.get("offset", 0), (int, float)):
            return False
        if p["mode"] == "mix":
            dbl = {ld["dbl"] for q in p["parts"] if q["mode"] == "pop" for ld in q["loads"]} | {q["dbl"] for q in p["parts"] if q["mode"] != "pop"}
            return len(dbl) == 1 and all(q["mode"] != "mix" and not q.get("offset") and valid({"p": q}) for q in p["parts"])
        if p["mode"] == "pop":
            t = 0
            for ld in p["loads"]:
                if ld["t"] < t or not isinstance(ld["dbl"], bool) or "r" not in ld["pre"] or "e" not in ld["pre"] or not ld["rows"]:
                    return False
                t = ld["t"] + gs.end_frame(ld) + 2
                nums = [r[0] for r in ld["rows"]]
                if len(set(nums)) < len(nums):
                    return False
        elif p["mode"] == "roll":
            if not p["rows"][0].get("ru") or any(not it.get("cr") or it.get("pac") is False or it.get("cont") for it in p["rows"]) \
                    or p["rows"][0].get("gap") is None:
                return False
        else:
            if p["blocks"][0].get("gap") is None:
                return False
            for b in p["blocks"]:
                nums = [r[0] for r in b["rows"]]
                if len(set(nums)) < len(nums) or not b.get("rdc") or not nums:
                    return False
        for r in rows:
            last = None
            if not 1 <= r[0] <= 15 or not 0 <= r[1] < 32 or not 0 <= r[2] <= 3 or len(r) > 4:
                return False
            for k in r[3]:
                if not gs.tok_codes(k):
                    return False
                if k[0] not in "csem" or k[0] in "sm" and k == last:
                    return False
                if k[0] in "ce" and (not k[1] or any(x not in c6.CHAR_BASIC for x in k[1])) or k[0] == "e" and k[1].isspace():
                    return False
                last = k
            if None in (cells := gs.cells(r[3])) and k[0] == "m" or not "".join(c or "" for c in cells).strip() or cells[-1] in (None, " "):
                return False
        doc_of(p)
        return True
    except (KeyError, IndexError, TypeError, ValueError):
        return False


# ------------------------------------------------------------ workload
LENS = (1, 31, 32, 33, 40)


def text_of(n, tag):
    s = tag + "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQ"
    return [["c", s[:n]]]


def shape(n, tag, k):
    """A row of n characters: plain, indented, in pieces with a mid-row code between, italic"""
    s = text_of(n, tag)[0][1]
    return [[["c", s]], [["c", "  " + s[:n - 2]]] if n > 3 else [["c", s]],
            [["c", s[:n // 2] + " "], ["m", 14], ["c", s[n // 2:-1]]] if n > 3 else [["c", s]],
            [["m", 14], ["c", s[:n - 1]]] if n > 3 else [["c", s]],
            [["c", s[:3]], ["m", 14], ["c", s[3:9]], ["m", 0], ["c", s[9:n - 2]]] if n > 12 else [["c", s]]][k]


def expand(case):
    w = case["w"]
    if w == "rows":
        for lens in itertools.product(LENS, repeat=case["n"]):
            for addr in (list(range(5, 5 + case["n"])), [1, 4, 7, 10][:case["n"]], [3, 4, 8, 9][:case["n"]], [12, 9, 5, 2][:case["n"]],
                         [13, 3, 9, 1][:case["n"]]):
                yield program([[[a, 16, 0, text_of(n, "pqrs"[i])] for i, (a, n) in enumerate(zip(addr, lens))]], case["dbl"])
    elif w == "shapes":
        for lens in itertools.product((31, 32, 33, 34, 35, 36), repeat=case["n"]):
            for addr in ([5, 6], [5, 9]):
                for ks in itertools.product(range(5), repeat=case["n"]):
                    yield program([[[a, 16, 0, shape(n, "pq"[i], k)] for i, (a, n, k) in enumerate(zip(addr, lens, ks))]], case["dbl"])
            for k in range(5):
                yield {"mode": "roll", "dbl": case["dbl"], "sep": ":", "t": 60, "rows": [
                    {"gap": 30, "ru": 3 if not i else 0, "cr": True, "row": [15, 16, 0, shape(n, "pqrs"[i], k)]} for i, n in enumerate(lens)]}
                rr = [[5 + i, 16, 0, shape(n, "pqrs"[i], k)] for i, n in enumerate(lens)]
                yield {"mode": "paint", "dbl": case["dbl"], "sep": ";", "t": 60, "blocks": [{"gap": 30, "rdc": True, "rows": rr}]}
    elif w == "shared":
        for lens in itertools.product(LENS, repeat=case["n"]):
            for off in (0, 1000, 3):
                yield program([[[15, 16, 0, text_of(n, "pqrs"[i])]] for i, n in enumerate(lens)], case["dbl"], ":", off)
    elif w == "split":
        # screens of two non-adjacent rows, all starting at zero
        for lens in itertools.product(LENS, repeat=4):
            yield program([[[3, 16, 0, text_of(lens[0], "p")], [9, 16, 0, text_of(lens[1], "q")]],
                           [[3, 16, 0, text_of(lens[2], "r")], [9, 16, 0, text_of(lens[3], "s")]]], case["dbl"], ":", 1000)
    elif w == "tall":
        # screens of up to 15 rows, one row longer (or as long as allowed) at each place
        for n in range(4, 16):
            for long in range(n):
                for size in (32, 33):
                    addr = list(range(16 - n, 16)) if long % 2 else list(range(1, n + 1))
                    rows = [[a, 16, 0, text_of(size if i == long else 5, "pqrs"[i % 4])] for i, a in enumerate(addr)]
                    yield program([[list(r) for r in rows]], case["dbl"])
                    yield {"mode": "paint", "dbl": case["dbl"], "sep": ":", "t": 60, "blocks": [{"gap": 30, "rdc": True, "rows": [list(r) for r in rows]}]}
                    yield {"mode": "roll", "dbl": case["dbl"], "sep": ":", "t": 60, "rows": [
                        {"gap": 30, "ru": 3 if not i else 0, "cr": True, "row": [15, 16, 0, r[3]]} for i, r in enumerate(rows)]}
    elif w == "live":
        for lens in itertools.product(LENS, repeat=case["n"]):
            for sim in (False, True):
                yield {"mode": "roll", "dbl": case["dbl"], "sep": ":", "t": 60, "simulate_roll_up": sim, "rows": [
                    {"gap": 30, "ru": 3 if not i else 0, "cr": True, "row": [15, 16, 0, text_of(n, "pqrs"[i])]} for i, n in enumerate(lens)]}
            for per in (1, 2):
                for addr in ((5, 6), (5, 9)):
                    rr = [[addr[i % per] if per > 1 else 5, 16, 0, text_of(n, "pqrs"[i])] for i, n in enumerate(lens)]
                    yield {"mode": "paint", "dbl": case["dbl"], "sep": ";", "t": 60,
                           "blocks": [{"gap": 30, "rdc": True, "rows": rr[i:i + per]} for i in range(0, len(rr), per)]}


def systematic(tier):
    for dbl in (True, False):
        for n in (1, 2, 3):
            yield {"k": "many", "w": "rows", "n": n, "dbl": dbl}
            yield {"k": "many", "w": "shared", "n": n, "dbl": dbl}
            yield {"k": "many", "w": "live", "n": n, "dbl": dbl}
        yield {"k": "many", "w": "split", "dbl": dbl}
        yield {"k": "many", "w": "tall", "dbl": dbl}
        for n in (1, 2):
            yield {"k": "many", "w": "shapes", "n": n, "dbl": dbl}
        if tier != "quick":
            yield {"k": "many", "w": "rows", "n": 4, "dbl": dbl}
            yield {"k": "many", "w": "rows", "n": 3, "dbl": dbl, "perm": True}
            yield {"k": "many", "w": "shared", "n": 3, "dbl": dbl, "perm": True}


def _text(rng):
    n = rng.choice([1, 5, 20, 31, 32, 32, 33, 33, 34, 40, rng.randint(1, 40)])
    toks, left = [], n
    while left > 0:
        r = rng.random()
        k = min(left, rng.randint(1, 12))
        if r < 0.7:
            s = "".join(rng.choice(gs.LETTERS + "  -.") for _ in range(k))
            toks.append(["c", s])
        elif r < 0.75:
            t = ["m", rng.choice([14, 0, rng.randint(0, 15)])]
            if toks and toks[-1] == t or left < 2:
                continue
            toks.append(t)
            k = 1
        elif r < 0.87:
            t = ["s", rng.choice([x for x in range(0x30, 0x40) if x != 0x39])]
            if toks and toks[-1] == t:
                continue
            toks.append(t)
            k = 1
        else:
            toks.append(["e", rng.choice("aeiou"), rng.choice([0x12, 0x13]), rng.randint(0x20, 0x3f)])
            k = 1
        left -= k
    if toks[-1][0] == "c" and toks[-1][1].rstrip() != toks[-1][1]:
        toks[-1][1] = "x" * len(toks[-1][1])
    if toks[-1][0] == "m":
        toks[-1] = ["c", "y"]
    return toks


def random_program(rng, r, dbl, sep):
    if r < 0.5:
        n = gt.count(rng, [1, 2, 3, 4], 60)
        screens = []
        for _ in range(n):
            k = rng.choice([1, 1, 2, 3, 4, rng.randint(1, 15)])
            addr = rng.sample(range(1, 16), k)
            if rng.random() < 0.7:
                addr.sort()
            screens.append([[a, rng.choice([16, 16, 17, 14, 0]), rng.choice([0, 0, 1]), _text(rng)] for a in addr])
        p = program(screens, dbl, sep, rng.choice([0, 0, 0, 1000, 3, 4, 5]))
    elif r < 0.75:
        p = {"mode": "roll", "dbl": dbl, "sep": sep, "t": 60, "rows": [
            {"gap": 30, "ru": rng.choice([2, 3, 4]) if not i else 0, "cr": True, "row": [15, 16, 0, _text(rng)]}
            for i in range(gt.count(rng, [1, 2, 3, 4, 5], 60))], "simulate_roll_up": rng.random() < 0.15}
    else:
        p = {"mode": "paint", "dbl": dbl, "sep": sep, "t": 60, "blocks": [
            {"gap": 30, "rdc": True, "rows": [[a, 16, 0, _text(rng)] for a in sorted(rng.sample(range(1, 16), rng.choice([1, 1, 2, 3, rng.randint(1, 15)])))]}
            for _ in range(gt.count(rng, [1, 2, 3, 4], 60))]}
    return p


def random_case(rng, tier):
    while True:
        dbl, sep = rng.random() < 0.6, rng.choice(":;")
        if rng.random() < 0.12:
            parts = [random_program(rng, rng.random(), dbl, sep) for _ in range(rng.choice([2, 2, 3, 4]))]
            for q in parts:
                q.pop("offset", None)
                q.pop("simulate_roll_up", None)
            p = {"mode": "mix", "sep": sep, "parts": parts}
        else:
            p = random_program(rng, rng.random(), dbl, sep)
        k = "perm" if p["mode"] == "pop" and (len(p["loads"]) > 1 or len(p["loads"][0]["rows"]) > 1) and len(p["loads"]) < 4 \
            and len(p["loads"][0]["rows"]) < 4 and rng.random() < 0.3 else "one"
        case = {"k": k, "p": p}
        if valid(case):
            return case
