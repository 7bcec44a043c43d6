"""C03 written text survives a conformant parser: adversarial printable text through every writer."""
from .. import core, model, writers
from ..gen import sets as gs
from ..gen import text as gt
from ..ref import parse

ID = "C03"
PLAN = {"quick": 35000, "thorough": 400000}
RULE = ("captions of 1-4 adversarial printable lines (metacharacters, entity- and markup-looking text, arrows, timing lines, "
        "split over text nodes, consecutive breaks, flat styles) written by every writer and read by an independent strict "
        "parser; non-trivial = every case; systematic part: every fragment and every ordered pair of fragments of the "
        "metacharacter table x every writer")
ASSUMPTIONS = [
    "printable = str.isprintable() (Unicode Zs other than space, controls, surrogates and unassigned are outside)",
    "every caption has at least one visible character; style spans do not nest",
    "SAMI text is compared up to collapsing whitespace runs (HTML); the other formats exactly, after trimming each line",
    "captions of one language have pairwise different times, so no writer may merge them",
]
FLOORS = {"lines_compared": 20000, **{"w:" + w: 500 for w in writers.TEXT}, "hostile": 5000}
HOSTILE = set("&<>\"'{}|-")


def run(case, m):
    f = case["w"]
    model_ = case["cs"]
    if not any(d["caps"] for _, d in model_["langs"]):
        m.nontrivial = False
        return
    m.hit("w:" + f)
    cs = model.build(model_)
    langs = [x for x, _ in model_["langs"]]
    want = writers.written_langs(f, langs, None)
    w = writers.make(f, case.get("opts"))
    out = m.must("write:" + f, w.write, cs)
    try:
        got = writers.extract(f, out, want)
    except parse.FormatError as e:
        m.fail(f"{f}:format", str(e)[:700], {"output": out[:3000]})
    caps = dict(model_["langs"])
    if f == "microdvd":
        exp = [("*", [c for x in langs for c in caps[x]["caps"]])]
    else:
        exp = [(x, caps[x]["caps"]) for x in want]
    if f == "sami":
        g = {x: [q for q in v if not q.meta["blank"]] for x, v in got}
        got = [(x, g.get(x, [])) for x in want]
    m.eq([x for x, _ in got], [x for x, _ in exp], f"{f}:languages")
    collapse = f == "sami"
    for (x, cues), (_, cc) in zip(got, exp):
        m.check(len(cues) == len(cc), f"{f}:cue-count",
                lambda: f"{len(cc)} captions written as {len(cues)} cues: {[q.lines for q in cues]}")
        for q, c in zip(cues, cc):
            a = model.norm_lines(q.lines, collapse)
            b = model.norm_lines(model.lines_of_nodes(c["n"]), collapse)
            m.hit("lines_compared", len(b))
            if any(ch in HOSTILE for ln in b for ch in ln):
                m.hit("hostile")
            m.check(a == b, f"{f}:text", lambda: f"authored {b!r} parsed {a!r}")
            m.state("chars", f, len(b), "".join(sorted(HOSTILE & set("".join(b)))))


def _caption(rng, t, f, hostile):
    excl = ("|",) if f == "microdvd" else ()
    n = gt.count(rng, [1, 1, 2, 2, 3, 4], 40)
    lines = [gt.line(rng, hostile, excl, gt.count(rng, [6], 300)) for _ in range(n)]
    nodes = gs.nodes_of_lines(rng, lines, split=rng.choice([0, 0.15, 0.4]), empties=rng.choice([0, 0, 0.3]),
                              styles=rng.choice([0, 0, 0.5]), lead=rng.choice([0, 0, 0.2]))
    return {"s": t[0], "e": t[1], "n": nodes}


def random_case(rng, tier):
    f = rng.choice(writers.TEXT)
    hostile = rng.choice([0.2, 0.6, 0.9])
    names = rng.sample(gs.LANGS, rng.choice([1, 1, 1, 2]))
    langs = []
    for x in names:
        n = gt.count(rng, [1, 1, 2, 3], 120, 0.002)
        # whole seconds: distinct times at every resolution
        t0 = rng.randint(0, 1000)
        ts = [((t0 + 2 * i) * 10 ** 6, (t0 + 2 * i + 1) * 10 ** 6) for i in range(n)]
        langs.append([x, gs.one_lang([_caption(rng, t, f, hostile) for t in ts])])
    return {"w": f, "cs": {"langs": langs}}


def systematic(tier):
    fr = gt.FRAGS
    pairs = [(a,) for a in fr] + [(a, b) for a in fr[:48] for b in fr[:48]]
    if tier == "thorough":
        pairs = [(a,) for a in fr] + [(a, b) for a in fr for b in fr]
    singles = [chr(i) * k for i in range(33, 127) for k in (1, 2, 3)]
    for f in writers.TEXT:
        items = [[["t", ln.replace("|", "") if f == "microdvd" else ln]] for ln in gt.all_printable()]
        for t in singles:       # lines that are one character, or one character repeated, in every place of a cue
            if f == "microdvd" and "|" in t:
                continue
            x, k, w, b = ["t", t], ["t", "k"], ["t", "w" + t], ["b"]
            items += [[x], [x, b, k], [k, b, x], [k, b, x, b, k], [x, b, w, b, x], [x, k], [k, x, k, b, k]]
        for k, p in enumerate(pairs):
            if f == "microdvd" and any("|" in x for x in p):
                continue
            shape = k % 4
            if len(p) == 1 or shape == 0:
                nodes = [["t", "".join(p)]]
            elif shape == 1:
                nodes = [["t", p[0]], ["t", p[1]]]
            elif shape == 2:
                nodes = [["t", p[0]], ["b"], ["t", p[1]]]
            else:
                nodes = [["t", p[0]], ["b"], ["b"], ["t", p[1]]]
            items.append(nodes)
        for i in range(0, len(items), 16):
            caps = [{"s": (2 * j + 1) * 10 ** 6, "e": (2 * j + 2) * 10 ** 6, "n": n} for j, n in enumerate(items[i:i + 16])]
            yield {"w": f, "cs": {"langs": [["en", gs.one_lang(caps)]]}}


def valid(case):
    for x, d in case["cs"]["langs"]:
        if not x:
            return False
        prev = -1
        for c in d["caps"]:
            ls = model.lines_of_nodes(c["n"])
            if not any(s.strip() for s in ls) or not all(s.isprintable() for s in ls):
                return False
            if c["s"] % 10 ** 6 or c["e"] % 10 ** 6 or c["s"] <= prev or c["e"] <= c["s"]:
                return False
            prev = c["s"]
            dep = 0
            for n in c["n"]:
                if n[0] == "S":
                    dep += 1 if n[1] else -1
                    if dep not in (0, 1):
                        return False
            if dep:
                return False
    return len({x for x, _ in case["cs"]["langs"]}) == len(case["cs"]["langs"])
