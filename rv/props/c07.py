"""C07 DFXP output is well-formed XML and internally consistent: strict XML parser + reference/region/id monitors."""
from pycaption.exceptions import (CaptionLineLengthError, CaptionReadError, InvalidInputError, RelativizationError)

from .. import model, writers
from ..gen import docs
from ..gen import sets as gs
from ..gen import text as gt
from ..ref import parse
from ..ref.parse import TT, XML, q

ID = "C07"
PLAN = {"quick": 18000, "thorough": 250000}
RULE = ("caption sets built through the API (hostile texts, nested balanced spans, arbitrary style ids, class names, style values, "
        "language codes, layouts of every unit on every level) or returned by a reader for a random styled document, written by "
        "each DFXP writer with random options, the output parsed with lxml (no recovery) and its ids, IDREFs, divs and ps checked; "
        "non-trivial = the writer returned a document; systematic: every printable BMP/ASCII probe character in every position "
        "(text, style id, class, style value, language)")
ASSUMPTIONS = ["style= is read as TTML IDREFS: every whitespace-separated name has to resolve",
               "RelativizationError (absolute layout without video size) is a permitted refusal, as is the ValueError of fitting units that were not relativized; both count as trivial",
               "documents the reader refuses are not part of the domain (no caption set is returned)"]
FLOORS = {"documents": 4000, "ps": 8000, "style_refs": 1500, "region_refs": 8000, "from_reader": 1500,
          **{"w:" + w: 800 for w in writers.DFXP}}
REFUSALS = (CaptionReadError, CaptionLineLengthError, InvalidInputError, NotImplementedError)


def legal(s):
    """without the characters no XML 1.0 document can contain"""
    return "".join(c for c in s if c in "\t\n\r" or "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000")


def inspect(out, m, w, langs, counts):
    """the monitor: raises through m when the output is inconsistent."""
    try:
        t = parse.Ttml(out)
    except parse.FormatError as e:
        m.fail(f"{w}:not-well-formed", str(e)[:600], {"output": out[:2500]})
    d = {"output": out[:2500]}
    root = t.root
    ids, defs = {}, {"style": {}, "region": {}}
    head = root.find(q(TT, "head"))
    for el in root.iter():
        if not isinstance(el.tag, str):
            continue
        if not el.tag.startswith("{" + TT + "}"):
            m.fail(f"{w}:foreign-element", el.tag, d)
        i = el.get(q(XML, "id"))
        if i is not None:
            ids[i] = ids.get(i, 0) + 1
    dup = [i for i, n in ids.items() if n > 1]
    m.check(not dup, f"{w}:duplicate-id", lambda: repr(dup), d)
    if head is not None:
        for el in head.iter(q(TT, "style"), q(TT, "region")):
            i = el.get(q(XML, "id"))
            kind = el.tag.split("}")[1]
            if i is not None:
                defs[kind][i] = defs[kind].get(i, 0) + 1
    used = set()
    for el in root.iter():
        if not isinstance(el.tag, str):
            continue
        st = el.get("style")
        if st is not None:
            names = st.split()
            m.check(bool(names), f"{w}:empty-style-ref", repr(st), d)
            for n in names:
                m.hit("style_refs")
                m.check(defs["style"].get(n) == 1, f"{w}:style-ref", lambda: f"style={n!r} resolves to {defs['style'].get(n, 0)} definitions", d)
        rg = el.get("region")
        if rg is not None:
            used.add(rg)
            m.hit("region_refs")
            m.check(defs["region"].get(rg) == 1, f"{w}:region-ref", lambda: f"region={rg!r} resolves to {defs['region'].get(rg, 0)} definitions", d)
    un = set(defs["region"]) - used
    m.check(not un, f"{w}:unused-region", lambda: f"{sorted(un)} defined but never referenced", d)
    divs = t.divs()
    m.eq([t.div_lang(x) for x in divs], [legal(x) for x in langs], f"{w}:div-languages", d)
    for dv, n in zip(divs, counts):
        ps = t.ps(dv)
        m.check(len(ps) == n, f"{w}:p-count", lambda: f"{len(ps)} p for {n} captions", d)
        m.hit("ps", len(ps))
        for p in ps:
            try:
                t.p_cue(p)
            except parse.FormatError as e:
                m.fail(f"{w}:p", str(e), d)
    m.eq(len(list(root.iter(q(TT, "p")))), sum(counts), f"{w}:p-total", d)
    m.state("shape", w, len(defs["style"]), len(defs["region"]), len(divs), len(used))
    return t


def runs(caps):
    n, prev = 0, None
    for c in caps:
        k = (c.start, c.end)
        if k != prev:
            n += 1
        prev = k
    return n


def run(case, m):
    w, opts = case["w"], case.get("opts")
    if "doc" in case:
        o = m.call("read:" + case["doc"]["fmt"], docs.reader(case["doc"]).read, case["doc"]["doc"], **(case["doc"].get("kw") or {}))
        if not o.ok:
            m.nontrivial = False
            m.hit("refused_documents")
            if not isinstance(o.exc, REFUSALS):
                m.hit("reader_errors:" + o.exc_name)
            return
        cs = o.value
        m.hit("from_reader")
        m.hit("from:" + case["doc"]["fmt"])
    else:
        cs = model.build(case["cs"])
    langs = writers.written_langs(w, cs.get_languages(), opts)
    count = (lambda x: len(x)) if w == "dfxp" else runs
    counts = [count(cs.get_captions(x)) for x in langs]
    wr = writers.make(w, opts)
    o = m.call("write:" + w, wr.write, cs, **writers.write_kw(w, opts))
    if not o.ok:
        if isinstance(o.exc, RelativizationError):
            m.nontrivial = False
            m.hit("relativization_refused")
            return
        if isinstance(o.exc, ValueError) and (opts or {}).get("relativize") is False and (opts or {}).get("fit_to_screen") is not False:
            # fitting absolute units to the screen is refused
            m.nontrivial = False
            m.hit("fit_refused")
            return
        m.fail(f"{w}:exception", repr(o.exc)[:500])
    m.hit("documents")
    m.hit("w:" + w)
    inspect(o.value, m, w, langs, counts)


# ------------------------------------------------------------------ generation
KEYS = ["color", "font-family", "font-size", "text-align", "display-align"]


def style(rng, names, odd):
    d = {}
    for k in ("italics", "bold", "underline"):
        if rng.random() < 0.3:
            d[k] = True
    if names and rng.random() < 0.6:
        n = rng.choice(names + ["missing"])
        if rng.random() < 0.2:
            n = n + rng.choice([" ", "  "]) + rng.choice(names)
        d["class"] = n
        if rng.random() < 0.5:
            d["classes"] = n.split(" ")
    for k in KEYS:
        if rng.random() < 0.2:
            d[k] = docs.value(rng, odd)
    if rng.random() < 0.1:
        d["region"] = rng.choice(["bottom", "r0", "nope", 'a"b'])
    if rng.random() < 0.1:
        d["lang"] = rng.choice(docs.LANGS)
    return d


def layouts(rng):
    pool = [None, None]
    for _ in range(rng.choice([0, 1, 2, 3])):
        u = "%" if rng.random() < 0.75 else rng.choice(["px", "em", "c", "pt"])
        pool.append(gs.layout(rng, unit=u))
    if rng.random() < 0.15:
        pool.append({})
    if rng.random() < 0.15:
        pool.append({"a": ["start", "bottom"]})
    return pool


def nested(rng, nodes, names, odd, pool, depth=0):
    """balanced style nodes, possibly nested"""
    if rng.random() < 0.5 or depth > 2:
        return nodes
    i = rng.randint(0, len(nodes))
    j = rng.randint(i, len(nodes))
    c = style(rng, names, odd)
    L = rng.choice(pool)
    inner = nested(rng, nodes[i:j], names, odd, pool, depth + 1)
    return nested(rng, nodes[:i], names, odd, pool, depth + 1) + [["S", 1, c, L]] + inner + [["S", 0, c, L]] \
        + nested(rng, nodes[j:], names, odd, pool, depth + 1)


def api_set(rng):
    odd = rng.choice([0, 0.2, 0.6])
    names = list(dict.fromkeys(docs.name(rng, odd) for _ in range(rng.choice([0, 1, 2, 3]))))
    pool = layouts(rng)
    langs = rng.sample(docs.LANGS, min(len(docs.LANGS), gt.count(rng, [1, 1, 2, 3], 12, 0.01)))
    if rng.random() < odd:
        langs[0] = rng.choice(docs.ODD_LANGS)
    out = []
    for x in langs:
        n = gt.count(rng, [0, 1, 1, 2, 4], 60)
        caps = []
        for a, b in gs.times(rng, n, rng.choice(["any", "sorted", "runs"])):
            nodes = gs.nodes_of_lines(rng, [gt.line(rng) for _ in range(rng.choice([1, 1, 2, 3]))], split=rng.choice([0, 0.4]),
                                      empties=rng.choice([0, 0.3]), lead=rng.choice([0, 0.2]))
            nodes = [q_ + [rng.choice(pool)] if q_[0] in "tb" else q_ for q_ in nodes]
            nodes = nested(rng, nodes, names, odd, pool)
            c = {"s": a, "e": b, "n": nodes, "layout": rng.choice(pool)}
            if rng.random() < 0.5:
                c["style"] = style(rng, names, odd)
            caps.append(c)
        out.append([x, {"caps": caps, "layout": rng.choice(pool)}])
    styles = {}
    for i, n in enumerate(names):
        if rng.random() < 0.9:
            styles[n] = style(rng, names[:i] + [n], odd) if rng.random() < 0.85 else {}
    return {"langs": out, "styles": styles, "layout": rng.choice(pool)}


def options(rng, w, langs):
    o = {}
    if rng.random() < 0.3:
        o["relativize"] = False
    if rng.random() < 0.3:
        o["fit_to_screen"] = False
    if rng.random() < 0.6:
        o["size"] = rng.choice([[640, 360], [1920, 1080], [640, None], [None, 360]])
    if w != "dfxp_legacy" and rng.random() < 0.35:
        o["inline"] = True
    if langs and rng.random() < 0.25:
        o["force"] = rng.choice(langs)
    elif rng.random() < 0.05:
        o["force"] = "xx"
    if w == "dfxp_single" and rng.random() < 0.5:
        o["pos"] = gs.layout(rng)
    return o


def random_case(rng, tier):
    w = rng.choice(writers.DFXP)
    c = {"w": w}
    if rng.random() < 0.55:
        c["cs"] = api_set(rng)
        langs = [x for x, _ in c["cs"]["langs"]]
    else:
        units = ["%"] if rng.random() < 0.7 else ["%", "px", "em", "c", "pt"]
        c["doc"] = docs.random_doc(rng, units, odd=rng.choice([0, 0.2, 0.5]), control=0.1)
        langs = ["en-US"]
    c["opts"] = options(rng, w, langs)
    return c


PROBES = ([chr(i) for i in range(0x20, 0x7f)] + list("\u00a0\u00ad\u0085\u00b7\u00e9\u0300\u0660\u200b\u2028\u2029\u203f\u3000\ue000\ufdd0\ufffd")
          + ["\U00010000", "\U0001f600", "\U0001fffe"]
          + list("\x00\x01\x08\x09\x0a\x0b\x0c\x0d\x1b\x1f\x7f\x84\x9f\ud800\udfff\ufffe\uffff"))


def many(n, styles, units=("%",)):
    """a set with n different layouts spread over the levels, and styles"""
    lay = lambda i: {"o": [[i % 40, units[i % len(units)]], [i // 40 + 0.5, "%"]]}  # noqa: E731
    langs, k = [], 0
    for x in ("en", "fr", "de"):
        caps = []
        for i in range(n // 9 + 1):
            caps.append({"s": i * 10 ** 6, "e": (i + 1) * 10 ** 6, "layout": lay(k), "style": {"class": f"r{i}"} if i % 2 else {},
                         "n": [["t", "a", lay(k + 1)], ["b"], ["S", 1, {"italics": True, "class": f"c{i % 7}"}, lay(k + 2)], ["t", "b", lay(k + 2)],
                               ["S", 0, {"italics": True, "class": f"c{i % 7}"}, lay(k + 2)]]})
            k += 3
        langs.append([x, {"caps": caps, "layout": lay(k)}])
        k += 1
    return {"langs": langs, "styles": {s: {"color": "red", "italics": True} for s in styles}}


def systematic(tier):
    for w in writers.DFXP:
        for n in (9, 30, 100, 300) + ((1200,) if tier == "thorough" else ()):
            for st in ([], ["r0", "r1", "bottom", "p"], ["bottom", "bottom_", "bottom__"], ["bottom ", "bottom_"],
                       ["a b", "a:b", "a_b", "a_b_"], [f"r{i}" for i in range(12)], [f"c{i}" for i in range(12)], [f"r {i}" for i in range(9)]):
                yield {"w": w, "cs": many(n, st), "opts": {}}
                yield {"w": w, "cs": many(n, st), "opts": {"relativize": False, "fit_to_screen": False, "inline": True} if w == "dfxp" else {"fit_to_screen": False}}
    for w in writers.DFXP:
        for ch in PROBES:
            for s in (ch, "a" + ch, ch + "a", "a" + ch + "b"):
                caps = [{"s": 0, "e": 10 ** 6, "n": [["t", "x" + s + "y"]]}]
                if ch.isprintable() or ord(ch) > 0x1f and ch not in "\ud800\udfff":
                    caps.append({"s": 10 ** 6, "e": 2 * 10 ** 6, "style": {"class": s, "color": s},
                                 "n": [["S", 1, {"class": s, "font-family": s}], ["t", "x"], ["S", 0, {"class": s}]]})
                    yield {"w": w, "cs": {"langs": [["en", {"caps": caps}], ["l" + s, {"caps": []}]],
                                          "styles": {s: {"color": s}, s + "2": {"class": s, "italics": True}}}}
                else:
                    yield {"w": w, "cs": {"langs": [["en", {"caps": caps}]]}}


def valid(case):
    if "cs" not in case:
        return True
    ls = case["cs"]["langs"]
    if len({x for x, _ in ls}) != len(ls):
        return False
    for _, d in ls:
        for c in d["caps"]:
            dep = 0
            for n in c["n"]:
                if n[0] == "S":
                    dep += 1 if n[1] else -1
                    if dep < 0:
                        return False
            if dep or c["s"] > c["e"]:
                return False
    return True
