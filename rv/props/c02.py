"""C02 writing preserves instants: timestamps parsed back from every writer's output by independent parsers."""
import re
from fractions import Fraction
from math import floor

from .. import core, model, writers
from ..gen import sets as gs
from ..ref import parse

ID = "C02"
PLAN = {"quick": 30000, "thorough": 300000}
RULE = ("API-built caption sets whose text nodes carry unique tokens; every writer's output is parsed by an independent "
        "parser of that format and the timeline it denotes is compared with floor(instant/resolution); non-trivial = at "
        "least one caption; distinct = distinct (caption set, writer, options)")
ASSUMPTIONS = [
    "fractional (float) microsecond times: floor of the value and floor of the value rounded to whole microseconds are both accepted",
    "SAMI: for sets that are not sorted and non-overlapping, the syncs of a language are compared as a multiset (a SAMI document is ordered by time)",
    "MicroDVD writes the languages of a set one after the other",
]
FLOORS = {"cues_compared": 5000, **{"w:" + w: 200 for w in writers.TEXT}, "sami_ends": 200, "sami_ends_unordered": 100, "merged_runs": 20, "split_cues": 20}
TOK = re.compile(r"q[0-9]+n[0-9]+")


def accept(t, res):
    """accepted values of floor(t / res) in units of res (Fractions)"""
    t = Fraction(t)
    return {floor(t / res), floor(Fraction(round(t)) / res)}


def run(case, m):
    f = case["w"]
    cs_model = case["cs"]
    opts = case.get("opts") or {}
    if not any(d["caps"] for _, d in cs_model["langs"]):
        m.nontrivial = False
        return
    cs = model.build(cs_model)
    w = writers.make(f, opts)
    langs = [x for x, _ in cs_model["langs"]]
    want_langs = writers.written_langs(f, langs, opts)
    if f == "vtt" and (want_langs[0] not in langs):
        m.nontrivial = False
        return
    m.hit("w:" + f)
    if opts.get("warm"):       # a writer that was used before
        m.call("write(warm)", w.write, model.build(opts["warm"]))
    out = m.must("write:" + f, w.write, cs, **writers.write_kw(f, opts))
    try:
        got = writers.extract(f, out, want_langs)
    except parse.FormatError as e:
        m.fail(f"{f}:format", str(e)[:600], {"output": out[:3000]})
    caps = dict(cs_model["langs"])
    if f == "microdvd":
        flat = [c for x in langs for c in caps[x]["caps"]]
        m.check(len(got) == 1, "microdvd:format")
        compare(f, "*", got[0][1], flat, m, res=40000)
        return
    if f == "sami":
        g = dict(got)
        for x in langs:
            compare_sami(x, g.get(x, []), caps[x]["caps"], m)
        extra = [x for x in g if x not in langs and g[x]]
        m.check(not extra, "sami:language", lambda: f"unknown languages {extra}")
        return
    m.eq([x for x, _ in got], want_langs, f"{f}:languages")
    for x, cues in got:
        compare(f, x, cues, caps[x]["caps"], m, res=1000)


def tokens(lines):
    return TOK.findall("\n".join(lines))


def exp_tokens(c):
    return [t for n in c["n"] if n[0] == "t" for t in TOK.findall(n[1])]


def compare(f, lang, cues, caps, m, res):
    """align cues with captions through the tokens and compare times"""
    owner = {}
    for i, c in enumerate(caps):
        for t in exp_tokens(c):
            owner[t] = i
    want = [t for c in caps for t in exp_tokens(c)]
    have = [t for q in cues for t in tokens(q.lines)]
    m.eq(have, want, f"{f}:cues-lost-or-reordered", {"lang": lang})
    seen = {}
    for k, q in enumerate(cues):
        own = sorted({owner[t] for t in tokens(q.lines)})
        m.check(own, f"{f}:stray-cue", lambda: f"cue {q} belongs to no caption")
        if len(own) > 1:
            spans = {(caps[i]["s"], caps[i]["e"]) for i in own}
            m.check(f in writers.MERGING and len(spans) == 1, f"{f}:merged-cues",
                    lambda: f"captions {own} with spans {spans} became one cue")
            m.hit("merged_runs")
        for i in own:
            seen.setdefault(i, []).append(k)
        c = caps[own[0]]
        if f == "microdvd":
            gs_, ge_ = int(q.start_raw), int(q.end_raw)
        else:
            gs_, ge_ = q.start / res, q.end / res
        m.hit("cues_compared")
        m.check(gs_ in accept(c["s"], res) and ge_ in accept(c["e"], res), f"{f}:instant",
                lambda: f"lang {lang} caption {own[0]} ({c['s']!r},{c['e']!r}) written as {q.start_raw} .. {q.end_raw}")
        m.state("magnitude", f, min(23, int(c["s"] // 3600000000)), int(c["s"]) % 1000 > 0)
    for i, c in enumerate(caps):
        n = len(seen.get(i, []))
        if n != 1:
            lays = {repr(x[2] if len(x) > 2 else None) for x in c["n"] if x[0] == "t"}
            m.check(f == "vtt" and len(lays) > 1, f"{f}:split-cue", lambda: f"caption {i} written as {n} cues")
            m.hit("split_cues")


def compare_sami(lang, paras, caps, m):
    exp = []
    for i, c in enumerate(caps):
        exp.append((accept(c["s"], 1000), exp_tokens(c)))
        if i + 1 < len(caps):
            e, nxt = accept(c["e"], 1000), accept(caps[i + 1]["s"], 1000)
            if e != nxt or len(e) > 1:
                exp.append((e, None if e & nxt else []))
    got = [(int(p.meta["p"] and p.start // 1000), tokens(p.lines)) for p in paras]
    if not in_order(caps):
        return compare_sami_unordered(lang, exp, got, m)
    j = 0
    for ts, toks in exp:
        if toks is None:     # ambiguous fractional equality: optional blank
            if j < len(got) and got[j][1] == []:
                j += 1
            continue
        m.check(j < len(got), "sami:cue-lost", lambda: f"lang {lang}: expected {ts} {toks}, got {got}")
        gt, gtok = got[j]
        m.check(gtok == toks, "sami:cues-lost-or-reordered",
                lambda: f"lang {lang}: expected {toks} at {ts}, got {gtok} at {gt}; all {got}")
        m.check(gt in ts, "sami:instant", lambda: f"lang {lang}: {toks or 'end'} expected at {ts} got {gt}")
        m.hit("cues_compared")
        if toks == []:
            m.hit("sami_ends")
        j += 1
    m.check(j == len(got), "sami:stray-cue", lambda: f"lang {lang}: unexpected {got[j:]}")


def in_order(caps):
    return all(a["s"] < b["s"] and a["e"] <= b["s"] or i == 0 and a["e"] <= b["s"] for i, (a, b) in enumerate(zip(caps, caps[1:])))


def compare_sami_unordered(lang, exp, got, m):
    """overlapping or unsorted captions: the same syncs, in whatever order"""
    rest = list(got)
    for ts, toks in exp:
        if toks:
            hit = [g for g in rest if g[1] == toks]
            m.check(len(hit) == 1, "sami:cues-lost", lambda: f"lang {lang}: {toks} found {len(hit)} times in {got}")
            m.check(hit[0][0] in ts, "sami:instant", lambda: f"lang {lang}: {toks} expected at {ts} got {hit[0][0]}")
            m.hit("cues_compared")
            rest.remove(hit[0])
    m.check(not any(t for _, t in rest), "sami:stray-cue", lambda: f"lang {lang}: unexpected {rest}")
    blanks = [t for t, _ in rest]
    for sure in (True, False):
        for ts, toks in sorted((e for e in exp if not e[1]), key=lambda e: max(e[0])):
            if (toks is None) is sure:
                continue
            hit = sorted(t for t in blanks if t in ts)
            if sure:
                m.check(hit, "sami:end-lost", lambda: f"lang {lang}: no blank sync at {ts}: {got}")
                m.hit("sami_ends_unordered")
            if hit:
                blanks.remove(hit[0])
    m.check(not blanks, "sami:stray-end", lambda: f"lang {lang}: blank syncs at {blanks} end nothing: {got}")


# ------------------------------------------------------------ workload
def _caps(rng, n, mode, f, fr, lay, base=0):
    ts = gs.times(rng, n, mode)
    if fr:
        ts2 = [(gs.frac(rng, a), gs.frac(rng, b)) for a, b in ts]
        ok = all(a <= b for a, b in ts2) and (mode != "sorted" or all(
            ts2[i][1] <= ts2[i + 1][0] and ts2[i][0] < ts2[i + 1][0] for i in range(n - 1)))
        if ok:
            ts = ts2
    caps = []
    for i, (a, b) in enumerate(ts):
        nodes = []
        k = rng.choice([1, 1, 2, 3])
        for j in range(k):
            if j:
                nodes.append(["b"]) if rng.random() < 0.8 else None
            t = ["t", f"q{base + i}n{j} w"]
            if lay and rng.random() < 0.6:
                t.append(gs.layout(rng, p=0.8))
            nodes.append(t)
        if rng.random() < 0.15:
            nodes = gs.add_spans(rng, nodes)
        caps.append({"s": a, "e": b, "n": nodes})
    return caps


def random_case(rng, tier):
    f = rng.choice(writers.TEXT)
    mode = rng.choice(["any", "sorted", "sorted", "runs"] if f == "sami" else ["any", "sorted", "runs"])
    nl = rng.choice([1, 1, 1, 2, 3])
    names = rng.sample(gs.LANGS, nl)
    fr = rng.random() < 0.25
    lay = f == "vtt" and rng.random() < 0.4
    langs = []
    for k, x in enumerate(names):
        n = rng.choice([1, 2, 3, 5, 8]) if rng.random() > 0.1 else 0
        langs.append([x, gs.one_lang(_caps(rng, n, mode, f, fr, lay, 100 * k))])
    opts = {}
    for k in ("relativize", "fit_to_screen"):
        if rng.random() < 0.3:
            opts[k] = rng.random() < 0.5
    if rng.random() < 0.2:
        opts["size"] = [640, 360]
    if f in writers.DFXP and rng.random() < 0.3:
        opts["force"] = rng.choice(names + ["qq"])
    if f == "vtt" and rng.random() < 0.4:
        opts["lang"] = rng.choice(names)
    if f in ("dfxp", "dfxp_single") and rng.random() < 0.2:
        opts["inline"] = True
    if f == "dfxp_single" and rng.random() < 0.4:
        opts["pos"] = gs.layout(rng)
    if rng.random() < 0.15:
        opts["warm"] = {"langs": [["en", gs.one_lang(_caps(rng, 2, "sorted", f, False, False))]]}
    return {"w": f, "opts": opts, "cs": {"langs": langs}}


def systematic(tier):
    """every carry boundary of every unit x every writer"""
    n = 1100 if tier == "quick" else 5000
    for f in writers.TEXT:        # long sets
        k = n // 5 if f not in ("srt", "vtt", "microdvd") else n
        yield {"w": f, "cs": {"langs": [[x, gs.one_lang([{"s": i * 1777777 + d, "e": i * 1777777 + d + 1777777 - (i % 3), "n": [["t", f"q{d + i}n0"]]}
                                                         for i in range(k)])] for x, d in (("en", 0), ("fr", 100000))]}}
    pts = set()
    for unit in (1000, 40000, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6):
        for k in (0, 1, 2, 9, 10, 11, 23, 24, 25, 59, 60, 61, 99, 100, 101, 999, 1000, 1439, 86399):
            for d in (-1000, -1, 0, 1, 999, 1000):
                t = unit * k + d
                if 0 <= t < gs.DAY:
                    pts.add(t)
    step = 977 * 10 ** 6 + 12345 if tier == "quick" else 61 * 10 ** 6 + 12347
    pts |= set(range(0, gs.DAY, step))
    p = sorted(pts)
    for f in writers.TEXT:
        for i in range(0, len(p) - 1, 24):
            ch = p[i:i + 25]
            caps = [{"s": a, "e": b, "n": [["t", f"q{k}n0"]]} for k, (a, b) in enumerate(zip(ch, ch[1:]))]
            yield {"w": f, "cs": {"langs": [["en", gs.one_lang(caps)]]}}
            gap = [{"s": a, "e": b, "n": [["t", f"q{k}n0"]]} for k, (a, b) in enumerate(zip(ch[::2], ch[1::2]))]
            yield {"w": f, "cs": {"langs": [["en", gs.one_lang(gap)]]}}


def valid(case):
    for _, d in case["cs"]["langs"]:
        for i, c in enumerate(d["caps"]):
            if not (0 <= c["s"] <= c["e"] < gs.DAY) or not c["n"]:
                return False
            if not exp_tokens(c) or not any(n[0] == "t" for n in c["n"]):
                return False
            d_ = 0
            for n in c["n"]:
                if n[0] == "S":
                    d_ += 1 if n[1] else -1
                    if d_ not in (0, 1):
                        return False
            if d_:
                return False
        for c in d["caps"]:
            for n in c["n"]:
                if n[0] == "t" and not TOK.fullmatch(n[1].split(" ")[0]):
                    return False
    toks = [t for _, d in case["cs"]["langs"] for c in d["caps"] for t in exp_tokens(c)]
    if len(set(toks)) != len(toks):
        return False
    return len({x for x, _ in case["cs"]["langs"]}) == len(case["cs"]["langs"]) and all(x for x, _ in case["cs"]["langs"])
