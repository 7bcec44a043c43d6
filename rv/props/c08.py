"""C08: chains of conversions keep the cue timeline and the text.

A case is a caption set (API-built or read from a document) and a chain of formats. The chain is run twice. After every
hop an online monitor compares (start, end, text) per language with the original set at the coarsest resolution passed so
far; after the second pass everything must be exactly as after the first.
"""
import itertools
import random
import re
from fractions import Fraction
from math import floor

from .. import core, model, writers
from ..gen import docs
from ..gen import sets as gs
from ..gen import text as gt

core.setup_path()
from pycaption import CaptionConverter, CaptionSet  # noqa: E402
from pycaption.base import CaptionNode  # noqa: E402

ID = "C08"
PLAN = {"quick": 14000, "thorough": 250000}
CAP = {"quick": 150, "thorough": 700}
RULE = ("distinct = (set, chain, options) cases; non-trivial = at least one hop whose result was compared cue by cue with the "
        "original; all 25 ordered pairs and all 125 triples run on fixed sets, longer chains (up to 12 hops) are sampled")
ASSUMPTIONS = [
    "every cue has a positive duration at the coarsest resolution of the chain; sets with shorter cues are only checked for text, in order",
    "text is str.isprintable(); '|' is outside when MicroDVD (where it is the line break) is on the chain",
    "a caption has one layout (nodes of different layouts become several WebVTT cues)",
    "SRT and MicroDVD take sets of one language (their files have no languages); WebVTT takes the language named by lang=",
    "fractional microseconds: floor of the value or of the value rounded to whole microseconds",
    "style spans are flat, and the classes they name set no text-align (which would compete with the layout)",
    "in reader-sourced sets style values are CSS values (the SAMI reader refuses other colours, and an ill-formed value swallows the next rule) and language codes the well-formed ones of the generator",
]
NAMES = ["srt", "vtt", "dfxp", "sami", "microdvd"]
FLOORS = {"hops": 20000, "cues-compared": 60000, "second-pass": 4000, "pairs": 25, "triples": 100, "final-end-skipped": 2000, "multi-language": 300,
          "reader-sourced": 500, "long-chains": 300, **{"w:" + f: 1500 for f in NAMES}}
RES = {"microdvd": 40000}


# ------------------------------------------------------------------ model side
def accept(t, res):
    t = Fraction(t)
    return {floor(t / res), floor(Fraction(round(t)) / res)}


def flat(lines):
    return " ".join(" ".join(lines).split())


def view(cs):
    return {x: [(c.start, c.end, flat(model.lines_of_caption(c))) for c in cs.get_captions(x)] for x in cs.get_languages()}


def raw(cs):
    return {x: [(c.start, c.end, [flat([ln]) for ln in model.lines_of_caption(c) if ln.strip()]) for c in cs.get_captions(x)] for x in cs.get_languages()}


def in_domain(v, chain, res=None):
    """-> 'full' | 'text' (cues too short for the resolution) | None"""
    level = "full"
    r = res or max(RES.get(f, 1000) for f in chain)
    for caps in v.values():
        if not caps:
            return None
        prev = 0
        for s, e, t in caps:
            if not (0 <= s < 86400 * 10 ** 6 and e < 86400 * 10 ** 6) or s < prev or e <= s or not t or not t.isprintable():
                return None
            if "microdvd" in chain and "|" in t:
                return None
            if max(accept(s, r)) >= min(accept(e, r)):
                level = "text"
            prev = e
    return level if v else None


class Chain:
    def __init__(self, case, m):
        self.case, self.m = case, m
        self.readers, self.writers = {}, {}
        self.res, self.sami = 1, False
        self.hop = 0

    def convert(self, cs, fmt, lang):
        m, opts = self.m, self.case.get("opts") or {}
        langs = cs.get_languages()
        if opts.get("reuse") and fmt in self.writers:
            w, r = self.writers[fmt], self.readers[fmt]
        else:
            w, r = writers.make(fmt, opts), docs.READERS[fmt]()
            self.writers[fmt], self.readers[fmt] = w, r
        kw = {}
        if fmt == "vtt" and lang:
            kw["lang"] = lang
            langs = [lang]
        if not kw and opts.get("converter"):
            out = m.must("write:" + fmt, lambda: CaptionConverter(cs).write(w))
        else:
            out = m.must("write:" + fmt, w.write, cs, **kw)
        self.out = out
        m.check(isinstance(out, str), f"{fmt}:output", lambda: f"{type(out)}")
        rk = {"lang": langs[0]} if fmt in ("srt", "vtt", "microdvd") else {}
        if not rk and opts.get("converter"):
            return m.must("read:" + fmt, lambda: CaptionConverter().read(out, r).captions)
        return m.must("read:" + fmt, r.read, out, **rk)

    def compare(self, want, got, where, level):
        """want: view of the original, got: view after a hop"""
        m = self.m
        m.eq(sorted(got), sorted(want), "languages", {"where": where})
        for x in want:
            a, b = want[x], got[x]
            if level == "text":
                m.check(flat([t for _, _, t in b]) == flat([t for _, _, t in a]), "text-of-short-cues",
                        lambda: f"{where}: {[t for _, _, t in b]} instead of {[t for _, _, t in a]}")
                m.hit("short-cue-sets")
                continue
            m.check(len(a) == len(b), "cue-count", lambda: f"{where}: {len(b)} cues instead of {len(a)} in {x}: {b} from {a}", {"output": self.out[:2000]})
            for i, (p, q) in enumerate(zip(a, b)):
                m.hit("cues-compared")
                m.check(p[2] == q[2], "text", lambda: f"{where}: cue {i} of {x}: {q[2]!r} instead of {p[2]!r}", {"output": self.out[:2000]})
                m.check(q[0] // self.res in accept(p[0], self.res), "start",
                        lambda: f"{where}: cue {i} of {x} starts at {q[0]} instead of {p[0]} (resolution {self.res})", {"output": self.out[:2000]})
                if self.sami and i == len(a) - 1:
                    m.hit("final-end-skipped")
                    m.check(q[1] != q[0], "final-end", lambda: f"{where}: the last cue of {x} has no duration: {q}")
                else:
                    m.check(q[1] // self.res in accept(p[1], self.res), "end",
                            lambda: f"{where}: cue {i} of {x} ends at {q[1]} instead of {p[1]} (resolution {self.res})", {"output": self.out[:2000]})

    def run(self, cs, want, level, n):
        for k, fmt in enumerate(self.case["chain"]):
            lang = None
            if fmt == "vtt" and len(want) > 1:
                lang = list(want)[self.case.get("pick", 0) % len(want)]
                want = {lang: want[lang]}
            cs = self.convert(cs, fmt, lang)
            self.res = max(self.res, RES.get(fmt, 1000))
            self.sami = self.sami or fmt == "sami"
            self.hop += 1
            self.m.hit("hops")
            self.m.hit("w:" + fmt)
            self.compare(want, view(cs), f"pass {n} hop {k + 1} {'>'.join(self.case['chain'][:k + 1])}", level)
        return cs, want


def source(case, m):
    if "doc" in case:
        d = case["doc"]
        o = m.call("read:" + d["fmt"], lambda: docs.reader(d).read(d["doc"], **(d.get("kw") or {})))
        return o.value if o.ok else None
    return m.must("build", model.build, case["cs"])


COLOR = re.compile(r"red|white|black|yellow|blue|green|cyan|magenta|lime|transparent|#[0-9a-f]{3}|#[0-9a-f]{6}|#[0-9a-f]{8}|rgba?\([0-9 ,]+\)", re.I)


CSS = re.compile(r"""(?:[\w #%.,()+-]|"[\w -]*"|'[\w -]*')*""")


def bad_css(cs):
    """the SAMI reader refuses sheets whose colours are no CSS colours, whoever wrote them; other values that are no CSS swallow
    the rule that follows"""
    ds = [d for _, d in cs.get_styles()]
    for x in cs.get_languages():
        for c in cs.get_captions(x):
            ds.append(c.style)
            ds += [n.content for n in c.nodes if n.type_ == CaptionNode.STYLE]
    return any(isinstance(d, dict) and ("color" in d and not COLOR.fullmatch(str(d["color"])) or
                                        any(isinstance(v, str) and not CSS.fullmatch(v) for v in d.values())) for d in ds)


def aligned_class(cs):
    """a span that names a class with a text-align has two alignments after a DFXP hop: its region's and its style's"""
    styles = dict(cs.get_styles())
    for x in cs.get_languages():
        for c in cs.get_captions(x):
            for n in c.nodes:
                if n.type_ == CaptionNode.STYLE and isinstance(n.content, dict):
                    d = n.content
                    for k in [d.get("class")] + list(d.get("classes") or []):
                        if "text-align" in (styles.get(k) or {}):
                            return True
    return False


def one_layout(cs):
    for x in cs.get_languages():
        for c in cs.get_captions(x):
            if len({repr(model.d_layout(n.layout_info)) for n in c.nodes if n.type_ == CaptionNode.TEXT}) > 1:
                return False
            depth = 0
            for n in c.nodes:
                if n.type_ == CaptionNode.STYLE:
                    depth += 1 if n.start else -1
                    if depth not in (0, 1):
                        return False
    return True


def run(case, m):
    m.nontrivial = False
    cs = source(case, m)
    if cs is None:
        return
    chain = case["chain"]
    want = view(cs)
    if "doc" in case:
        # documents may hold anything: keep what lies in the domain
        for x in cs.get_languages():
            if not want[x]:
                del want[x]
        if not one_layout(cs) or bad_css(cs) or aligned_class(cs) or len(want) != len(cs.get_languages()):
            return
        if len(want) > 1 or set(want) - set(gs.LANGS):
            x = list(want)[case.get("pick", 0) % len(want)]
            y = x if x in gs.LANGS else "en"
            want[y] = want[x]
            cs = CaptionSet({y: cs.get_captions(x)}, styles=dict(cs.get_styles()), layout_info=cs.layout_info)
            want = {y: want[y]}
    level = in_domain(want, chain)
    if level is None:
        m.hit("outside-domain")
        return
    m.nontrivial = True
    if "doc" in case:
        m.hit("reader-sourced")
    if len(want) > 1:
        m.hit("multi-language")
    if len(chain) >= 5:
        m.hit("long-chains")
    for k in (2, 3):
        for i in range(len(chain) - k + 1):
            m.sets["pairs" if k == 2 else "triples"].add(">".join(chain[i:i + k]))
    m.state("chain", *chain)
    c = Chain(case, m)
    first, w1 = c.run(cs, want, level, 1)
    v1, r1 = view(first), raw(first)
    second, w2 = c.run(first, want if len(w1) == len(want) else w1, level, 2)
    if level == "text":
        return
    m.hit("second-pass")
    v2, r2 = view(second), raw(second)
    m.check(v1 == v2, "second-pass", lambda: f"{'>'.join(chain)}: the second pass changed {first_diff(v1, v2)}", {"output": c.out[:2000]})
    m.check(r1 == r2, "second-pass-lines", lambda: f"{'>'.join(chain)}: the second pass changed {first_diff(r1, r2)}", {"output": c.out[:2000]})


def first_diff(a, b):
    for x in a:
        for i, (p, q) in enumerate(zip(a[x], b.get(x, []))):
            if p != q:
                return f"cue {i} of {x}: {p} -> {q}"
    return f"{ {k: len(v) for k, v in a.items()} } -> { {k: len(v) for k, v in b.items()} } cues"


# ------------------------------------------------------------------ generation
def spans(rng, n, res):
    """sorted, non-overlapping; nearly always with a duration of at least one unit of res"""
    if rng.random() < 0.25:
        ts = gs.times(rng, n, "sorted")
    else:
        t = rng.choice([0, 0, gs.instant(rng, 86400 * 10 ** 6 - 60 * 10 ** 6), rng.randint(0, 10 ** 7), 3600 * 10 ** 6 - 10 ** 6, 36000 * 10 ** 6 - 5 * 10 ** 5])
        ts = []
        for _ in range(n):
            t += rng.choice([0, 0, 1, 999, 1000, 40000, 39999, rng.randint(0, 10 ** 6), rng.randint(0, 5 * 10 ** 6)])
            d = rng.choice([res, res + 1, 2 * res, 2 * res - 1, 10 ** 6, rng.randint(2 * res, 10 ** 7), rng.randint(2 * res, 10 ** 5 + 2 * res)])
            ts.append((t, t + d))
            t += d
    return ts


def a_layout(rng):
    return gs.layout(rng, p=0.5)


def api_set(rng, chain, nlang=None):
    res = max(RES.get(f, 1000) for f in chain)
    excl = ("|",) if "microdvd" in chain else ()
    out = []
    langs = rng.sample(gs.LANGS, nlang or 1)
    hostile = rng.choice([0.1, 0.5, 0.8])
    lay = rng.random() < 0.3
    for x in langs:
        caps = []
        for a, b in spans(rng, rng.choice([1, 2, 3, 5, 8]), res):
            if rng.random() < 0.1:
                f = rng.choice([0.25, 1 / 3, 0.5, 0.999])
                a, b = a + f, b + f
            lines = [gt.line(rng, hostile, excl, maxlen=5) for _ in range(rng.choice([1, 1, 2, 3]))]
            nodes = gs.nodes_of_lines(rng, lines, split=rng.choice([0, 0.3]), empties=rng.choice([0, 0.2]), styles=rng.choice([0, 0.4]),
                                      lead=rng.choice([0, 0.15]))
            c = {"s": a, "e": b, "n": nodes}
            if lay and rng.random() < 0.6:
                L = a_layout(rng)
                c["layout"] = L
                if rng.random() < 0.5:
                    c["n"] = [q + [L] if q[0] in "tb" else q[:3] + [L] for q in nodes]
            if rng.random() < 0.15:
                c["style"] = rng.choice([{"italics": True}, {"color": "red"}, {"class": "s1"}, {"text-align": "right"}])
            caps.append(c)
        out.append([x, {"caps": caps, "layout": a_layout(rng) if lay and rng.random() < 0.4 else None}])
    cs = {"langs": out, "styles": {}}
    if rng.random() < 0.3:
        cs["styles"] = {"s1": {"color": "red", "italics": True}, "p": {"text-align": "left"}}
    if rng.random() < 0.2:
        cs["styles"][langs[0].lower()] = {"lang": langs[0], "color": "white"}
    return cs


def a_chain(rng, multi, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6] + ([8, 12] if tier == "thorough" else [8]))
    if not multi:
        k = rng.choice([5, 5, 3, 2])
        al = rng.sample(NAMES, k)
        return [rng.choice(al) for _ in range(n)]
    out, single = [], False
    for _ in range(n):
        f = rng.choice(NAMES if single else ["dfxp", "sami", "dfxp", "sami", "vtt"])
        single = single or f == "vtt"
        out.append(f)
    return out


def random_case(rng, tier):
    multi = rng.random() < 0.15
    chain = a_chain(rng, multi, tier)
    c = {"chain": chain, "pick": rng.randrange(4)}
    o = {}
    if rng.random() < 0.2:
        o["reuse"] = True
    if rng.random() < 0.1:
        o["converter"] = True
    if rng.random() < 0.2:
        o["size"] = [640, 360]
        o["relativize"] = rng.random() < 0.7
        o["fit_to_screen"] = rng.random() < 0.7
    if o:
        c["opts"] = o
    if not multi and rng.random() < 0.25:
        c["doc"] = docs.random_doc(rng, units=("%",), odd=0)
    else:
        c["cs"] = api_set(rng, chain, rng.choice([2, 3, 4]) if multi else 1)
    return c


def fixed_sets():
    rng = random.Random(8)
    s = 10 ** 6
    out = [
        {"langs": [["en-US", {"caps": [{"s": 0, "e": s, "n": [["t", "a"]]}]}]]},
        {"langs": [["en-US", {"caps": [{"s": 0, "e": s, "n": [["t", "1"], ["b"], ["t", "2"]]}, {"s": s, "e": 2 * s, "n": [["t", "3"]]},
                                       {"s": 3 * s + 333, "e": 4 * s + 999, "n": [["t", "{0}{0}25"]]}]}]]},
        {"langs": [["en-US", {"caps": [{"s": 40000 * i, "e": 40000 * (i + 1), "n": [["t", f"f{i} & <b> -->"]]} for i in range(12)]}]]},
        {"langs": [["fr", {"caps": [{"s": 39999 + 40001 * 2 * i, "e": 40001 * 2 * i + 120002, "n": [["t", f"n{i}"], ["b"], ["t", ". x"]]} for i in range(9)]}]]},
        {"langs": [["de", {"caps": [{"s": 3600 * s * h + 59 * 60 * s + 59 * s + 999999 - 500000, "e": 3600 * s * (h + 1) - 1, "n": [["t", f"h{h}"]]}
                                    for h in range(24)]}]]},
        {"langs": [["en", {"caps": [{"s": 1001000.0 * i / 3, "e": 1001000.0 * (i + 1) / 3, "n": [["S", 1, {"italics": True}], ["t", f"x{i}"], ["S", 0, {"italics": True}]]}
                                    for i in range(8)]}]]},
    ]
    for _ in range(4):
        out.append(api_set(rng, ["microdvd"]))
    return out


def systematic(tier):
    fs = fixed_sets()
    n = 120 if tier == "quick" else 1100
    big = {"langs": [["en", gs.one_lang([{"s": i * 1480000, "e": i * 1480000 + 1480000 - 40000 * (i % 3), "n": [["t", f"line {i}"], ["b"], ["t", "and & more"]]}
                                         for i in range(n)])]]}
    for r in range(5):
        yield {"chain": list(NAMES[r:]) + list(NAMES[:r]), "cs": big, "opts": None}
        yield {"chain": list(NAMES[r:]) + list(NAMES[:r][::-1]), "cs": big, "opts": {"reuse": True}}
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for chain in itertools.product(NAMES, repeat=n):
            for k, cs in enumerate(fs):
                if n < 3 or k % 5 == len([c for c in chain if c == chain[0]]) % 5 or tier == "thorough":
                    yield {"chain": list(chain), "cs": cs, "opts": {"reuse": True} if k % 2 else None}


def valid(case):
    if not case["chain"] or any(f not in NAMES for f in case["chain"]):
        return False
    if "doc" in case:
        return True
    ls = case["cs"]["langs"]
    if len(ls) > 1:
        single = False
        for f in case["chain"]:
            if f in ("srt", "microdvd") and not single:
                return False
            single = single or f == "vtt"
    if len({x for x, _ in ls}) != len(ls) or any(x not in gs.LANGS for x, _ in ls):
        return False
    for _, d in ls:
        for c in d["caps"]:
            dep = 0
            lay = set()
            for n in c["n"]:
                if n[0] == "S":
                    dep += 1 if n[1] else -1
                    if dep not in (0, 1):
                        return False
                if n[0] == "t":
                    lay.add(repr(n[2] if len(n) > 2 else None))
            if dep or len(lay) > 1 or not c["n"]:
                return False
    return True
