"""C12 positioning: effective layout of every visible character through DFXP (independent TTML reading and read-back by
DFXPReader), WebVTT cue settings against exact arithmetic, verbatim settings of WebVTT documents."""
import itertools

from pycaption import CaptionNode, DFXPReader, WebVTTReader

from .. import layouts, model, writers
from ..gen import docs, laid
from ..gen import sets as gs
from ..gen import text as gt
from ..ref import geo, parse

ID = "C12"
PLAN = {"quick": 18000, "thorough": 260000}
RULE = ("caption sets with percentage layouts on language, caption and node level (near-duplicate layouts, defaults, partial layouts), built "
        "through the API or read from random DFXP/SAMI documents, x relativize/fit_to_screen/inline positioning: DFXP output read by an "
        "independent TTML reader and by DFXPReader, every visible character's effective layout compared with exact arithmetic; WebVTT output's "
        "cue settings and cue splitting compared likewise; WebVTT documents with settings copied verbatim; systematic: all alignment pairs x "
        "padding arities x level x writer; non-trivial = the writer returned a document whose layouts were compared")
ASSUMPTIONS = ["effective layout = the whole layout of the text node, else of its caption, else of its language; style nodes carry the layout of the text inside them",
               "with fit_to_screen on, 'the same layout' is the one fitted to the safe area (C13); origins outside the safe area leave the extent open",
               "WebVTT: an absent horizontal alignment may be written as start or omitted; settings of layouts without an origin, and widths smaller than the paddings, are open",
               "DFXP documents whose styles carry tts:textAlign are excluded from the read-back (p styles would override regions)"]
FLOORS = {"regions_compared": 8000, "readback_chars": 20000, "settings_compared": 3000, "split_captions": 400, "verbatim_docs": 800, "from_doc:dfxp": 300,
          "from_doc:sami": 300}


def same(L, R, free):
    """read-back JSON layout L (or None) equals reference R (relative; None = default)?"""
    L = L or {}
    W = geo.ttml_expected(R)
    h, v = (L.get("a") or [None, None])
    if geo.HALIGN.get(h, h) != W["textAlign"]:
        return f"horizontal alignment {h!r}, expected {W['textAlign']}"
    if geo.VALIGN.get(v, v) != W["displayAlign"]:
        return f"vertical alignment {v!r}, expected {W['displayAlign']}"
    for k, name in (("o", "origin"), ("x", "extent"), ("p", "padding")):
        if k == "x" and free:
            continue
        w, g = W[name], L.get(k)
        if (g is None) != (w is None):
            return f"{name} {g}, expected {w and [float(z) for z in w]}"
        if g is not None and not all(z[1] == "%" and geo.near(z[0], y) for z, y in zip(g, w)):
            return f"{name} {g}, expected {[float(z) for z in w]}"
    return None


def readback(m, out, cs, langs, opts, kw, set_level):
    got = m.must("read:dfxp", DFXPReader(**kw).read, out)
    d = {"output": out[:3000]}
    want, have = layouts.view(cs, set_level=set_level), layouts.view(got, set_level=False)
    for x in langs:
        if not want[x]:
            continue
        m.check(x in have, "readback:language", lambda: f"{x!r} missing in {list(have)}", d)
        m.check(len(want[x]) == len(have[x]), "readback:captions", lambda: f"{len(have[x])} captions for {len(want[x])}", d)
        for a, b in zip(want[x], have[x]):
            ca = [(ch, eff) for s, _, eff in a["texts"] for ch in layouts.vis(s)]
            cb = [(ch, eff) for s, _, eff in b["texts"] for ch in layouts.vis(s)]
            m.check([c for c, _ in ca] == [c for c, _ in cb], "readback:text", lambda: f"{''.join(c for c, _ in cb)!r} for {''.join(c for c, _ in ca)!r}", d)
            memo = set()
            for (ch, e), (_, g) in zip(ca, cb):
                m.hit("readback_chars")
                key = (repr(e), repr(g))
                if key in memo:
                    continue
                memo.add(key)
                R, free = layouts.expected(e, opts)
                diff = same(g, R, free)
                m.check(diff is None, "readback:layout", lambda: f"{ch!r} with layout {e} read back as {g}: {diff}", d)


def run_verbatim(case, m):
    doc = "WEBVTT\n\n"
    sep, trail = case.get("sep", " "), case.get("trail", "")    # blanks around the settings are not part of them
    for i, (st, lines) in enumerate(case["cues"]):
        doc += f"00:{i:02d}.000 --> 00:{i:02d}.500" + (sep + st if st else "") + trail + "\n" + "\n".join(lines) + "\n\n"
    cs = m.must("read:vtt", WebVTTReader(**case.get("init", {})).read, doc)
    out = m.must("write:vtt", writers.make("vtt", case.get("opts")).write, cs)
    try:
        cues = parse.parse_vtt(out)
    except parse.FormatError as e:
        m.fail("vtt:format", str(e)[:500], {"output": out[:2000]})
    m.nontrivial = True
    m.check(len(cues) == len(case["cues"]), "vtt:cues", lambda: f"{len(cues)} cues for {len(case['cues'])}", {"output": out[:2000]})
    for q, (st, lines) in zip(cues, case["cues"]):
        m.eq(q.meta["settings"], st, "vtt:verbatim", {"output": out[:2000], "document": doc[:2000]})
    m.hit("verbatim_docs")
    out2 = m.must("write:vtt", writers.make("vtt", case.get("opts")).write, m.must("read:vtt", WebVTTReader().read, out))
    m.eq([q.meta["settings"] for q in parse.parse_vtt(out2)], [st for st, _ in case["cues"]], "vtt:verbatim-twice")


def run(case, m):
    if "cues" in case:
        return run_verbatim(case, m)
    w, opts = case["w"], case.get("opts") or {}
    if "doc" in case:
        o = m.call("read", docs.reader(case["doc"]).read, case["doc"]["doc"])
        if not o.ok:
            m.hit("unreadable")
            return
        cs = o.value
        if any(L and not geo.is_relative(model.d_layout(L)) for L in raw_layouts(cs)):
            return
        m.hit("from_doc:" + case["doc"]["fmt"])
    else:
        cs = model.build(case["cs"])
    langs = writers.written_langs(w, cs.get_languages(), opts)
    out = m.must("write:" + w, writers.make(w, opts).write, cs, **writers.write_kw(w, opts))
    m.nontrivial = True
    if w == "vtt":
        layouts.check_vtt(m, out, cs, langs[0], opts)
        return
    if "doc" in case and nested(cs):
        return
    layouts.check_dfxp(m, out, cs, langs, opts)
    if "doc" not in case and (not opts.get("inline") or aligned(cs)):
        readback(m, out, cs, langs, opts, {"read_invalid_positioning": True} if case.get("rip") else {}, True)


def raw_layouts(cs):
    yield cs.layout_info
    for x in cs.get_languages():
        yield cs.get_layout_info(x)
        for c in cs.get_captions(x):
            yield c.layout_info
            for n in c.nodes:
                yield n.layout_info


def aligned(cs):
    """every layout names both alignments (inline attributes, a non-standard option, inherit between elements)"""
    return all(L and L.alignment and L.alignment.horizontal and L.alignment.vertical for L in raw_layouts(cs) if L) \
        and all(cs.get_layout_info(x) for x in cs.get_languages())


def nested(cs):
    """spans inside spans, or style nodes whose layout differs from the text inside: not in the domain"""
    for x in cs.get_languages():
        for c in cs.get_captions(x):
            cur = None
            for n in c.nodes:
                if n.type_ == CaptionNode.STYLE:
                    if n.start and cur:
                        return True
                    cur = n if n.start else None
                elif n.type_ == CaptionNode.TEXT and cur and cur.layout_info and n.layout_info != cur.layout_info:
                    return True
    return False


SETTINGS = ["align:left", "align:end", "align:center", "position:10%", "position:33.33%,line-left", "line:0", "line:-1", "line:85%", "line:5%,start", "size:50%",
            "size:100%", "vertical:rl", "vertical:lr", "region:fred", "align:middle", "D:vertical", "L:90%", "unknown:setting", "A:start"]


def random_case(rng, tier):
    r = rng.random()
    if r < 0.12:
        cues = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            st = rng.choice([" ", "  ", "\t", " "]).join(rng.sample(SETTINGS, rng.choice([0, 1, 1, 2, 3, 5])))
            cues.append([st, [gt.plain(rng, 3) for _ in range(rng.choice([1, 1, 2]))]])
        c = {"cues": cues, "opts": options(rng)}
        if rng.random() < 0.4:
            c["sep"], c["trail"] = rng.choice([" ", "\t", "  ", " \t "]), rng.choice(["", " ", "\t", "  "])
        if rng.random() < 0.3:
            c["init"] = {"ignore_timing_errors": True}
        return c
    o = options(rng)
    if r < 0.3:
        d = rng.choice([docs.sami, docs.dfxp])(rng, ("%",))
        return {"w": rng.choice(["dfxp", "vtt"]), "doc": d, "opts": o}
    w = rng.choice(["dfxp", "dfxp", "vtt"])
    cs = laid.caption_set(rng, "%", safe=rng.random() < 0.5, origin_p=0.8 if w == "vtt" else 0.65, set_level=0.15 if w == "dfxp" else 0)
    if w == "dfxp" and rng.random() < 0.25:
        o["inline"] = True
    c = {"w": w, "cs": cs, "opts": o}
    if w == "dfxp" and rng.random() < 0.15 and not o.get("inline"):
        c["rip"] = True
    return c


def options(rng):
    o = {}
    if rng.random() < 0.4:
        o["relativize"] = False
    if rng.random() < 0.6:
        o["fit_to_screen"] = False
    if rng.random() < 0.3:
        o["size"] = rng.choice([[640, 360], [1920, 1080], [640, None]])
    return o


def systematic(tier):
    pads = [None, [[5, "%"]] * 4, [[5, "%"], [5, "%"], [2.5, "%"], [2.5, "%"]], [[1, "%"], [2, "%"], [3, "%"], [3, "%"]],
            [[1, "%"], [2, "%"], [3, "%"], [4, "%"]], [[0, "%"], [0, "%"], [0, "%"], [4, "%"]], [[0, "%"]] * 4]
    boxes = [{}, {"o": [[10, "%"], [20, "%"]]}, {"x": [[50, "%"], [40, "%"]]}, {"o": [[10, "%"], [20, "%"]], "x": [[50, "%"], [40, "%"]]}]
    for h, v, p, b, level, w in itertools.product(gs.HALS + [None], gs.VALS + [None], pads, boxes, ("node", "cap", "lang"), ("dfxp", "vtt")):
        L = dict(b)
        if p:
            L["p"] = p
        if h or v:
            L["a"] = [h, v]
        if not L:
            continue
        other = {"o": [[10, "%"], [20.5, "%"]], "x": [[50, "%"], [40, "%"]], "p": pads[4], "a": ["right", "top"]}
        at = lambda lv: L if level == lv else None  # noqa: E731
        caps = [{"s": 0, "e": 10 ** 6, "n": [["t", "Ab", at("node")], ["b"], ["t", "c", at("node")]], "layout": at("cap")},
                {"s": 2 * 10 ** 6, "e": 3 * 10 ** 6, "n": [["t", "x", other]], "layout": None},
                {"s": 4 * 10 ** 6, "e": 5 * 10 ** 6, "n": [["t", "y", at("node")], ["b"], ["t", "z", other], ["t", "w"]], "layout": at("cap")}]
        yield {"w": w, "cs": {"langs": [["en", {"caps": caps, "layout": at("lang")}]]},
               "opts": {"fit_to_screen": False} if (h, v) != ("left", "top") else {}}
    for n in (12, 60, 300):        # many different layouts
        lay = lambda i: {"o": [[i % 40, "%"], [i // 40 + 0.5, "%"]], "a": [gs.HALS[i % len(gs.HALS)], gs.VALS[i % len(gs.VALS)]]}  # noqa: E731
        langs = [[x, {"layout": lay(7 * j), "caps": [
            {"s": 2 * i * 10 ** 6, "e": (2 * i + 1) * 10 ** 6, "layout": lay(j * 1000 + 3 * i),
             "n": [["t", "Ab", lay(j * 1000 + 3 * i + 1)], ["b"], ["t", "c", lay(j * 1000 + 3 * i + 2)], ["b"], ["t", "d"]]} for i in range(n // 6)]}]
            for j, x in enumerate(("en", "fr"))]
        for w in ("dfxp", "vtt"):
            yield {"w": w, "cs": {"langs": langs}, "opts": {}}
            yield {"w": w, "cs": {"langs": langs, "styles": {f"r{i}": {"color": "red"} for i in range(20)}}, "opts": {"fit_to_screen": False}}
    for st in SETTINGS:
        for sep, trail in ((" ", ""), ("\t", " "), ("  ", "\t ")):
            yield {"cues": [[st, ["a"]], ["", ["b"]], [st + " size:20%", ["c"]]], "opts": {}, "sep": sep, "trail": trail}


def valid(case):
    return "doc" in case or "cues" in case and all(s == s.strip() and ln and all(x.strip() and x.isprintable() for x in ln) for s, ln in case["cues"]) \
        or "cs" in case and laid.valid(case["cs"])
