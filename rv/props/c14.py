"""C14 languages stay separate, ordered and selectable."""
import json
import os
import re
import subprocess
import sys

from .. import core, model, writers
from ..gen import dress, text as gt
from ..gen import sets as gs
from ..ref import parse

core.setup_path()
from pycaption import (DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader)  # noqa: E402

DEFAULT_LANGUAGE_CODE = os.getenv("PYCAPTION_DEFAULT_LANG", "und")   # as documented

ID = "C14"
PLAN = {"quick": 18000, "thorough": 260000}
RULE = ("caption sets and DFXP/SAMI documents of 1-4 languages (sorted, non-overlapping per language; interleaved, "
        "coinciding, disjoint across languages, some empty) with unique tokens per cue: language list, order and "
        "(start, token) lists observed after writing (independent parser), after reading, and after write+read; language "
        "options; default-language setting in subprocesses; non-trivial = at least one cue; systematic: all interleavings "
        "of two and three short languages on a 5-point grid for SAMI")
ASSUMPTIONS = [
    "language codes are pairwise different ignoring case; SAMI lang= attributes are two-letter codes (classes carry any code)",
    "force=/lang= name a language of the set", "SAMI: a language without cues leaves no trace in the document",
]
FLOORS = {"langs_compared": 10000, "multi": 3000, "w:sami": 1500, "w:dfxp": 300, "rt:sami": 500, "rt:dfxp": 200,
          "doc:dfxp": 800, "doc:sami": 800, "default_lang_runs": 2, "opt": 500}
TOK = re.compile(r"q[0-9]+z")


def caps_of(d):
    return [(c["s"] // 1000, TOK.findall("".join(n[1] for n in c["n"] if n[0] == "t"))) for c in d["caps"]]


def sut_lists(cs):
    return [[x, [(int(c.start) // 1000, TOK.findall(c.get_text())) for c in cs.get_captions(x)]] for x in cs.get_languages()]


def same(got, want, kind, m, ordered=True):
    """[[lang, [(start, tokens)]]]; empty languages are ignored"""
    g = [[x, v] for x, v in got if v]
    w = [[x, v] for x, v in want if v]
    if ordered:
        m.check([x for x, _ in g] == [x for x, _ in w], kind + ":languages",
                lambda: f"languages {[x for x, _ in g]} expected {[x for x, _ in w]}")
    else:
        m.check(sorted((x for x, _ in g), key=str) == sorted((x for x, _ in w), key=str), kind + ":languages",
                lambda: f"languages {[x for x, _ in g]} expected {[x for x, _ in w]}")
    gd = dict(map(tuple, g))
    for x, v in w:
        m.hit("langs_compared")
        m.check(gd[x] == v, kind + ":cues", lambda: f"language {x}: {gd[x]} expected {v}")
    if len(w) > 1:
        m.hit("multi")
        m.state("shape", kind, len(w))


def run(case, m):
    globals()["_" + case["k"]](case, m)


def _write(case, m):
    f, cs_, opts = case["w"], case["cs"], case.get("opts") or {}
    langs = [x for x, _ in cs_["langs"]]
    caps = dict(cs_["langs"])
    if not any(d["caps"] for _, d in cs_["langs"]):
        m.nontrivial = False
        return
    m.hit("w:" + f)
    if opts.get("force") or opts.get("lang"):
        m.hit("opt")
    want_langs = writers.written_langs(f, langs, opts)
    cs = model.build(cs_)
    out = m.must("write:" + f, writers.make(f, opts).write, cs, **writers.write_kw(f, opts))
    want = [[x, caps_of(caps[x])] for x in want_langs]
    try:
        if f == "sami":
            doc = parse.Sami(out)
            ts = [y["t"] for y in doc.syncs]
            m.check(all(a <= b for a, b in zip(ts, ts[1:])), "sami:sync-order", lambda: f"sync times {ts}")
            got = [[x, [(int(q.start // 1000), TOK.findall("".join(q.lines))) for q in v if not q.meta["blank"]]]
                   for x, v in writers.sami_cues(doc, [])]
            same(got, want, "write:sami", m, ordered=False)
            first = [x for x, v in got if v]
        else:
            ext = writers.extract(f, out, want_langs)
            got = [[x, [(int((q.start if f != "microdvd" else q.start) // 1000), TOK.findall("".join(q.lines))) for q in v]]
                   for x, v in ext]
            if f == "microdvd":
                flat = [(s - s % 40, t) for x in langs for s, t in caps_of(caps[x])]
                m.check(got[0][1] == flat, "write:microdvd:cues", lambda: f"{got[0][1]} expected {flat}")
                return
            if f in writers.DFXP:
                m.check([x for x, _ in got] == want_langs, f"write:{f}:divs", lambda: f"{[x for x, _ in got]} vs {want_langs}")
            same(got, want, "write:" + f, m)
            first = None
    except parse.FormatError as e:
        m.fail(f"write:{f}:format", str(e)[:500], {"output": out[:3000]})
    if not case.get("rt") or f == "microdvd" or not any(v for _, v in want):
        return
    if f in writers.DFXP or f == "sami":
        m.hit("rt:" + ("sami" if f == "sami" else "dfxp"))
        r = SAMIReader() if f == "sami" else DFXPReader()
        back = sut_lists(m.must("read:" + f, r.read, out))
        if first is not None:
            want = [[x, dict(map(tuple, want))[x]] for x in _first_appearance(doc)]
        same(back, want, "roundtrip:" + f, m)
    elif f in ("srt", "vtt") and len([1 for _, v in want if v]) == 1 and want[0][1]:
        lang = case.get("rlang")
        r = SRTReader() if f == "srt" else WebVTTReader()
        kw = {"lang": lang} if lang else {}
        m.hit("opt")
        if f == "srt" and len(langs) > 1:
            return
        back = sut_lists(m.must("read:" + f, r.read, out, **kw))
        same(back, [[lang or "en-US", want[0][1]]], "roundtrip:" + f, m)


def _first_appearance(doc):
    seen = []
    for y in doc.syncs:
        for p in y["p"]:
            x = doc.lang_of(p)
            if x not in seen:
                seen.append(x)
    return seen


def _dressed(case, fmt, doc, m):
    if case.get("dress") is None:
        return doc
    m.hit("dressed")
    return dress.dress(doc, fmt, case["dress"])


def _dfxp(case, m):
    m.hit("doc:dfxp")
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml"'
           + (f' xml:lang="{case["lang"]}"' if case.get("lang") else "") + ">\n<head/>\n<body>"]
    want, order = {}, []
    for d in case["divs"]:
        out.append("<div>" if d["lang"] is None else f'<div xml:lang="{d["lang"]}">')
        lang = d["lang"] if d["lang"] is not None else (case.get("lang") or DEFAULT_LANGUAGE_CODE)
        nested = d.get("nest")
        order.append(lang)
        if nested:
            order.append(nested)
            out.append(f'<div xml:lang="{nested}">')
            lang = nested
        for s, k in d["cues"]:
            want.setdefault(lang, []).append((s, [f"q{k}z"]))
            out.append(f'<p begin="{s}ms" end="{s + 500}ms">q{k}z</p>')
        out.append("</div>" + ("</div>" if nested else ""))
    out.append("</body></tt>")
    if not want:
        m.nontrivial = False
        return
    cs = m.must("read:dfxp", DFXPReader().read, _dressed(case, "dfxp", "\n".join(out), m))
    got = sut_lists(cs)
    if [x for x, v in got if v] != list(want):   # else: in order of the first div, even one without cues
        want = {x: want[x] for x in dict.fromkeys(order) if x in want}
    same(got, [[x, v] for x, v in want.items()], "read:dfxp", m)


def _sami(case, m):
    m.hit("doc:sami")
    css, names, want = [], {}, {}
    for i, (lang, how) in enumerate(case["langs"]):
        if how == "class":
            css.append(f".K{i}CC {{Name: N{i}; lang: {lang}; SAMIType: CC;}}")
    out = ["<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\nP {margin-left: 1%;}", *css, "--></STYLE></HEAD><BODY>"]
    order = []
    for t, ps in case["syncs"]:
        out.append(f"<SYNC Start={t}>")
        for li, k in ps:
            if li >= len(case["langs"]):
                continue
            lang, how = case["langs"][li]
            if lang not in order:
                order.append(lang)
            at = {"class": f"Class=K{li}CC", "lang": f'lang="{lang}"', "none": ""}[how]
            out.append(f"<P {at}>" + (f"q{k}z" if k is not None else "&nbsp;"))
            if k is not None:
                want.setdefault(lang, []).append((t, [f"q{k}z"]))
    out.append("</BODY></SAMI>")
    if not want:
        m.nontrivial = False
        return
    cs = m.must("read:sami", SAMIReader().read, _dressed(case, "sami", "\n".join(out), m))
    same(sut_lists(cs), [[x, want.get(x, [])] for x in order], "read:sami", m)


def _readlang(case, m):
    """lang= of the single-language readers"""
    m.hit("opt")
    f, lang = case["f"], case["lang"]
    doc = {"srt": "1\n00:00:01,000 --> 00:00:02,000\nq1z\n", "vtt": "WEBVTT\n\n00:01.000 --> 00:02.000\nq1z\n",
           "microdvd": "{25}{50}q1z\n",
           "scc": "Scenarist_SCC V1.0\n\n00:00:01:00\t9420 9420 9470 9470 c8e5 ecec ef80 942c 942c 942f 942f\n\n"
                  "00:00:03:00\t942c 942c\n"}[f]
    r = {"srt": SRTReader, "vtt": WebVTTReader, "microdvd": MicroDVDReader, "scc": SCCReader}[f]()
    cs = m.must("read:" + f, r.read, doc, **({"lang": lang} if lang else {}))
    want = lang or {"srt": "en-US", "vtt": "en-US", "microdvd": DEFAULT_LANGUAGE_CODE, "scc": "en-US"}[f]
    m.check(cs.get_languages() == [want] and len(cs.get_captions(want)) == 1, f"lang-option:{f}",
            lambda: f"lang={lang}: {cs.get_languages()}")


# ------------------------------------------------------------ default language (fresh interpreter)
CHILD = r"""
import sys, json
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
import pycaption
T = '<tt xmlns="http://www.w3.org/ns/ttml"%s><body>%s</body></tt>'
D = '<div%s><p begin="1s" end="2s">%s</p></div>'
docs = [(pycaption.DFXPReader, T % ('', D % ('', 'q1z'))),
        (pycaption.DFXPReader, T % (' xml:lang="fr"', D % ('', 'q1z'))),
        (pycaption.DFXPReader, T % ('', D % (' xml:lang="es"', 'q1z') + D % ('', 'q2z'))),
        (pycaption.DFXPReader, T % (' xml:lang="fr"', D % (' xml:lang="es"', 'q1z') + D % ('', 'q2z'))),
        (pycaption.SAMIReader, '<SAMI><HEAD></HEAD><BODY><SYNC Start=1><P>q1z<SYNC Start=2><P lang="fr">q2z</BODY></SAMI>'),
        (pycaption.MicroDVDReader, '{1}{2}q1z')]
print(json.dumps([[[x, [c.get_text() for c in cs.get_captions(x)]] for x in cs.get_languages()]
                  for cs in (r().read(d) for r, d in docs)]))
"""


def finish(m, tier, seed):
    for dl in (None, "xx", "pt-BR", "fr"):
        env = {k: v for k, v in os.environ.items() if k != "PYCAPTION_DEFAULT_LANG"}
        if dl:
            env["PYCAPTION_DEFAULT_LANG"] = dl
        r = subprocess.run([sys.executable, "-c", CHILD, core.REPO], env=env, capture_output=True, text=True, timeout=120)
        if r.returncode:
            m.fail("default-language", f"PYCAPTION_DEFAULT_LANG={dl}: {r.stderr[-600:]}")
        d = dl or "und"
        want = [[[d, ["q1z"]]], [["fr", ["q1z"]]], [["es", ["q1z"]], [d, ["q2z"]]],
                [["es", ["q1z"]], ["fr", ["q2z"]]],
                [[d, ["q1z"]], ["fr", ["q2z"]]] if d != "fr" else [["fr", ["q1z", "q2z"]]], [[d, ["q1z"]]]]
        m.hit("default_lang_runs")
        m.counts["events"] += 12
        m.check(json.loads(r.stdout) == want, "default-language",
                lambda: f"PYCAPTION_DEFAULT_LANG={dl}: {r.stdout.strip()} expected {want}")


# ------------------------------------------------------------ workload
# names one of which contains the other at the front, at the end or nowhere
FAMILY = ["en", "en-US", "en-GB", "e", "US", "n-US", "fr", "fr-CA", "zh-Hant"]
ALL = gs.LANGS + ["pt"] + [x for x in FAMILY if x not in gs.LANGS]


def _grid_times(rng, n, pool):
    pts = sorted(rng.sample(pool, 2 * n)) if 2 * n <= len(pool) else None
    if pts is None:
        return gs.times(rng, n, "sorted")
    out = [[pts[2 * i], pts[2 * i + 1]] for i in range(n)]
    for i in range(n - 1):
        if rng.random() < 0.35:
            out[i][1] = out[i + 1][0]
    return out


def random_case(rng, tier):
    case = _random_case(rng, tier)
    if case["k"] in ("dfxp", "sami") and rng.random() < 0.5:
        case["dress"] = rng.randint(0, 10 ** 6)
    return case


def _random_case(rng, tier):
    r = rng.random()
    if r < 0.2:
        divs, k = [], 0
        names = rng.sample(gs.LANGS[:7], rng.choice([1, 2, 3]))
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            cues = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                cues.append([rng.randint(0, 10 ** 6), k])
                k += 1
            d = {"lang": rng.choice(names + [None]), "cues": cues}
            if rng.random() < 0.1:
                d["nest"] = rng.choice(names)
            divs.append(d)
        return {"k": "dfxp", "lang": rng.choice([None, "en", rng.choice(names)]), "divs": divs}
    if r < 0.4:
        pool = [["en-US", "class"], ["fr", "lang"], ["EN", "lang"], ["It", "lang"], ["de-CH", "class"], ["en", "class"], ["es", "lang"],
                [DEFAULT_LANGUAGE_CODE, "none"], ["zh-Hant", "class"], ["pt", "class"]]
        langs = rng.sample(pool, rng.choice([1, 2, 3, 4]))
        t, k, syncs = rng.randint(0, 2000), 0, []
        for _ in range(gt.count(rng, [1, 2, 4, 6, 8], 80)):
            ps = []
            for li in rng.sample(range(len(langs)), rng.randint(1, len(langs))):
                ps.append([li, k if rng.random() < 0.75 else None])
                k += 1
            syncs.append([t, ps])
            t += rng.choice([1, 500, rng.randint(1, 5000)])
        return {"k": "sami", "langs": langs, "syncs": syncs}
    if r < 0.43:
        return {"k": "readlang", "f": rng.choice(["srt", "vtt", "microdvd", "scc"]), "lang": rng.choice([None] + gs.LANGS)}
    f = rng.choice(["sami"] * 5 + ["dfxp", "dfxp_single", "dfxp_legacy", "vtt", "srt", "microdvd"])
    names = rng.sample(gs.LANGS if rng.random() < 0.6 else FAMILY, rng.choice([1, 2, 2, 3, 4]))
    unit = rng.choice([1000, 1000000, 40000, 123456])
    base = rng.choice([0, 0, rng.randint(0, 10 ** 9)])
    pool = [base + unit * i for i in range(gt.count(rng, [6, 10, 20], 150, 0.05))]
    langs, k = [], 0
    styles = {}
    for li, x in enumerate(names):
        n = gt.count(rng, [0, 1, 2, 3, 4], 60)
        p = [t + 200 * 10 ** 6 * li for t in pool] if rng.random() < 0.15 else pool
        cls = None
        if f == "sami" and rng.random() < 0.35:
            cls = f"c{li}cc"
            kind = rng.random()
            if rng.random() < 0.15 and not {y.lower() for y in names} & set(styles):
                cls = rng.choice([rng.choice(names), rng.choice(names).upper()])    # named as a language
                if any(cls.lower() == y.lower() for y in styles):
                    cls = f"c{li}cc"
            if kind < 0.5:
                styles[cls] = {"lang": x}
            elif kind < 0.65:
                styles[cls] = {"lang": rng.choice(names)}
            elif kind < 0.75:
                styles[cls] = {"lang": "xx"}            # not a language of the set
            elif kind < 0.9:
                styles[cls] = {"color": "red", "italics": True}     # no language
            if kind < 0.75 and rng.random() < 0.3:
                styles[cls]["color"] = "red"
        caps = []
        for a, b in _grid_times(rng, n, p):
            c = {"s": a, "e": b, "n": [["t", f"q{k}z"]]}
            if cls and rng.random() < 0.8:
                c["style"] = {"class": cls}
            caps.append(c)
            k += 1
        lay = gs.layout(rng) if rng.random() < 0.1 else None
        langs.append([x, gs.one_lang(caps, lay)])
    opts = {}
    if f in writers.DFXP and rng.random() < 0.4:
        opts["force"] = rng.choice(names)
    if f == "vtt" and rng.random() < 0.7:
        opts["lang"] = rng.choice(names)
    return {"k": "write", "w": f, "opts": opts, "cs": {"langs": langs, "styles": styles}, "rt": rng.random() < 0.6,
            "rlang": rng.choice([None, "fr", "xx"])}


def systematic(tier):
    import itertools
    G = 5
    spans = [(a, b) for a in range(G) for b in range(a + 1, G + 1)]
    lists = [[]] + [[s] for s in spans] + [[s, t] for s in spans for t in spans if s[1] <= t[0]]
    lists = lists if tier == "thorough" else lists[::2] + [[(0, 1), (1, 2)]]
    k = 0
    for la, lb in itertools.product(lists, lists):
        if not la and not lb:
            continue
        three = [[]] if tier == "quick" and k % 5 else [[], [(0, 2), (3, 4)]]
        k += 1
        for lc in three:
            langs, q = [], 0
            for name, ls in (("en-US", la), ("en", lb), ("fr", lc)):
                if name == "fr" and not ls:
                    continue
                caps = []
                for a, b in ls:
                    caps.append({"s": a * 10 ** 6, "e": b * 10 ** 6, "n": [["t", f"q{q}z"]]})
                    q += 1
                langs.append([name, gs.one_lang(caps)])
            yield {"k": "write", "w": "sami", "cs": {"langs": langs}, "rt": True}
    # many languages, many cues
    many = [a + b for a in "abcdefgh" for b in "rst"] + ["ar-AE", "zz-Zz-ZZ"]
    for nl, nc in ((26, 3), (12, 12)):
        langs = [[x, gs.one_lang([{"s": (7 * i + (3 * j) % 7) * 10 ** 6, "e": (7 * i + 7) * 10 ** 6 - 1000 * (j % 2), "n": [["t", f"q{100 * j + i}z"]]}
                                  for i in range(nc)])] for j, x in enumerate(many[::-1][:nl])]
        for f in ["sami", "dfxp", "dfxp_single", "dfxp_legacy", "srt", "microdvd"]:
            yield {"k": "write", "w": f, "cs": {"langs": langs}, "rt": True}
    fams = list(itertools.permutations(FAMILY, 2)) + [q for i, q in enumerate(itertools.permutations(FAMILY, 3)) if i % (7 if tier == "quick" else 1) == 0]
    for names in fams:
        cs = {"langs": [[x, gs.one_lang([{"s": i * 10 ** 6, "e": (i + 2) * 10 ** 6, "n": [["t", f"q{i}z"]]}])] for i, x in enumerate(names)]}
        for f in writers.DFXP + ["vtt"]:
            for x in names:
                yield {"k": "write", "w": f, "cs": cs, "rt": True, "opts": {"lang" if f == "vtt" else "force": x}}
        for f in ["sami", "dfxp", "dfxp_single", "dfxp_legacy"]:
            yield {"k": "write", "w": f, "cs": cs, "rt": True}
        yield {"k": "dfxp", "lang": names[0], "divs": [{"lang": x, "cues": [[i, i]]} for i, x in enumerate(names[1:] + (None,) + names)]}
        yield {"k": "sami", "langs": [[x, "class"] for x in names], "syncs": [[i * 100, [[j, i * 10 + j] for j in range(len(names)) if j != i]] for i in range(4)]}
    for f in ("srt", "vtt", "microdvd", "scc"):
        for x in [None] + ALL:
            yield {"k": "readlang", "f": f, "lang": x}


def valid(case):
    if case["k"] == "write":
        names = [x for x, _ in case["cs"]["langs"]]
        if len({x.lower() for x in names}) != len(names) or not all(n in ALL for n in names):
            return False
        o = case.get("opts") or {}
        if o.get("force", names[0] if names else None) not in names + [None] or o.get("lang", names[0] if names else None) not in names:
            return False
        for _, d in case["cs"]["langs"]:
            prev = 0
            for c in d["caps"]:
                if not (prev <= c["s"] < c["e"] < gs.DAY) or not c["n"] or not TOK.fullmatch(c["n"][0][1]):
                    return False
                if (c.get("style") or {}) and c["style"].get("class") not in (case["cs"].get("styles") or {}):
                    return False
                prev = c["e"]
    if case["k"] == "sami":
        ts = [t for t, _ in case["syncs"]]
        if any(a >= b for a, b in zip(ts, ts[1:])):
            return False
        return all(x in ALL for x, _ in case["langs"])
    if case["k"] == "dfxp":
        return (case.get("lang") is None or case["lang"] in ALL) and all(
            (d["lang"] is None or d["lang"] in ALL) and (d.get("nest") is None or d["nest"] in ALL) for d in case["divs"])
    if case["k"] == "readlang":
        return case["lang"] is None or case["lang"] in ALL
    return True
