"""C11 styles: (italic, bold, underline) flags per visible character through DFXP/SAMI/WebVTT chains; balance monitors."""
from pycaption.base import CaptionNode

from .. import layouts, model, writers
from ..gen import docs, laid
from ..gen import sets as gs
from ..gen import text as gt
from ..gen import scc as gscc
from ..ref import cea608 as c6
from ..ref import parse

ID = "C11"
PLAN = {"quick": 18000, "thorough": 260000}
RULE = ("caption sets with flat balanced spans at arbitrary positions (inline flags, flags by class, classes referring to one another, extra attributes with hostile values, empty and "
        "adjacent spans, spans across breaks, layouts) built through the API or read from DFXP/SAMI documents, sent along chains of DFXP and SAMI "
        "(write, independent parse, read) ending optionally in WebVTT: flags of every visible character compared with the set at each hop; balance of "
        "tags and of style nodes monitored for the documents of all readers incl. SCC; non-trivial = flags compared or reader returned captions; "
        "systematic: every placement of one and of two spans over a 6-node caption x content x first format")
ASSUMPTIONS = ["a character is italic when an open style node, or a class it names, has italics true (likewise bold, underline); caption-level style counts for WebVTT only",
               "DFXP carries italics only; bold and underline are compared where the target is SAMI or WebVTT",
               "class names are lower case (SAMI folds them)"]
FLOORS = {"flag_chars": 60000, "flagged_chars": 10000, "hop:dfxp": 3000, "hop:sami": 3000, "hop:vtt": 1000, "balanced_captions": 3000, "read:scc": 100}
FMTS = ("dfxp", "dfxp", "sami", "sami", "vtt", "srt", "microdvd", "scc", "scc")
FLAGS = (("italics", "i"), ("bold", "b"), ("underline", "u"))
CARRIED = {"dfxp": {"i"}, "dfxp_single": {"i"}, "dfxp_legacy": {"i"}, "sami": {"i", "b", "u"}, "vtt": {"i", "b", "u"}}


OFF = {"italics": ("normal", "normal"), "bold": ("normal", "normal"), "underline": ("none", "overline")}   # values that do not set the flag


def resolve(content, styles, seen=()):
    """style dict with the classes it names resolved (own attributes win)"""
    out = {}
    cl = content.get("classes") or ([content["class"]] if content.get("class") else [])
    for c in cl:
        if c in styles and c not in seen:
            out.update(resolve(styles[c], styles, seen + (c,)))
    out.update(content)
    return out


def flags_of(content, styles):
    r = resolve(content, styles)
    return {f for k, f in FLAGS if r.get(k)}


def char_flags(caption, styles, with_caption):
    """[(char, flags)] of the visible characters of a pycaption caption"""
    base = flags_of(caption.style or {}, styles) if with_caption else set()
    stack, out = [base], []
    for n in caption.nodes:
        if n.type_ == CaptionNode.STYLE:
            if n.start:
                stack.append(stack[-1] | flags_of(n.content, styles))
            elif len(stack) > 1:
                stack.pop()
        elif n.type_ == CaptionNode.TEXT:
            out += [(ch, frozenset(stack[-1])) for ch in n.content if not ch.isspace()]
    return out


def balanced(nodes):
    st = []
    for n in nodes:
        if n.type_ == CaptionNode.STYLE:
            if n.start:
                st.append(n)
            elif not st:
                return "a style ends that was never started"
            else:
                st.pop()
    return f"{len(st)} styles never end" if st else None


def nested(nodes):
    d = 0
    for n in nodes:
        if n.type_ == CaptionNode.STYLE:
            d += 1 if n.start else -1
            if d > 1:
                return True
    return False


def check_balance(m, cs, what):
    for x in cs.get_languages():
        for c in cs.get_captions(x):
            b = balanced(c.nodes)
            m.check(b is None, f"{what}:unbalanced-nodes", lambda: f"{b}: {[model.d_node(n)[:3] for n in c.nodes]}"[:600])
            m.hit("balanced_captions")
            m.state("shape", "".join("tbS"[("t", "b", "S").index(model.KIND[n.type_])] for n in c.nodes)[:12])


def parse_flags(fmt, out, langs):
    """{lang: [[(char, flags)] per cue]} by the independent parsers (raises FormatError)"""
    if fmt == "vtt":
        return {langs[0]: [[y for ln in q.chars for y in ln if not y[0].isspace()] for q in parse.parse_vtt(out)]}
    if fmt == "sami":
        s = parse.Sami(out)
        res = {}
        for y in s.syncs:
            for p in y["p"]:
                if not parse.is_blank_lines(p["lines"]):
                    res.setdefault(s.lang_of(p), []).append([z for ln in s.char_flags(p) for z in ln if not z[0].isspace()])
        return res
    t = parse.Ttml(out)
    return {t.div_lang(d): [[y for ln in t.p_cue(p).chars for y in ln if not y[0].isspace()] for p in t.ps(d)] for d in t.divs()}


def compare(m, kind, want, got, keep, d):
    m.check([c for c, _ in want] == [c for c, _ in got], kind + ":text", lambda: f"{''.join(c for c, _ in got)!r} for {''.join(c for c, _ in want)!r}", d)
    for i, ((ch, a), (_, b)) in enumerate(zip(want, got)):
        m.hit("flag_chars")
        if a & keep:
            m.hit("flagged_chars")
        m.check(a & keep == b & keep, kind + ":flags",
                lambda: f"character {i} {ch!r} of {''.join(c for c, _ in want)!r}: flags {sorted(a & keep)} became {sorted(b & keep)}", d)


def styles_of(cs):
    return dict(cs.get_styles())


def run(case, m):
    if case["k"] == "balance":
        o = m.call("read", docs.reader(case["doc"]).read, case["doc"]["doc"])
        if not o.ok:
            m.nontrivial = False
            return
        m.hit("read:" + case["doc"]["fmt"])
        check_balance(m, o.value, "read:" + case["doc"]["fmt"])
        for w in ("dfxp", "sami", "vtt"):
            r = m.call("write:" + w, writers.make(w, {"relativize": False, "fit_to_screen": False}).write, o.value)
            if r.ok and not any(nested(c.nodes) for x in o.value.get_languages() for c in o.value.get_captions(x)):
                try:
                    parse_flags(w, r.value, o.value.get_languages())
                except parse.FormatError as e:
                    m.fail(f"{w}:unbalanced-output", str(e)[:500], {"output": r.value[:2500]})
                m.hit("balanced_outputs")
        return
    if "doc" in case:
        o = m.call("read", docs.reader(case["doc"]).read, case["doc"]["doc"])
        if not o.ok:
            m.fail("read", f"refused {o.exc!r}"[:300])
        cs = o.value
        check_balance(m, cs, "read:" + case["doc"]["fmt"])
        truth = [[(y[0], frozenset(y[1])) for y in cap] for cap in case.get("truth", ())]
        st = styles_of(cs)
        x = cs.get_languages()[0]
        if "truth" in case:
            m.eq(len(cs.get_captions(x)), len(truth), "read:captions")
        elif any(nested(c.nodes) for c in cs.get_captions(x)):
            m.fail("read:nested", "the SCC reader nests styles")
        for c, t in zip(cs.get_captions(x), truth):
            compare(m, "read:" + case["doc"]["fmt"], [(a, b) for a, b in t], char_flags(c, st, False), {"i", "b", "u"}, {"document": case["doc"]["doc"][:2000]})
    else:
        cs = model.build(case["cs"])
    opts = dict(case.get("opts") or {})
    for w in case["chain"]:
        m.hit("hop:" + w)
        langs = writers.written_langs(w, cs.get_languages(), opts)
        st = styles_of(cs)
        out = m.must("write:" + w, writers.make(w, opts).write, cs)
        d = {"output": out[:3000]}
        try:
            got = parse_flags(w, out, langs)
        except parse.FormatError as e:
            m.fail(f"{w}:unbalanced-output", str(e)[:500], d)
        for x in langs:
            want = [char_flags(c, st, w == "vtt") for c in cs.get_captions(x)]
            g = got.get(x, [])
            if w == "vtt":      # cues split by layout
                want, g = [[y for c in want for y in c]], [[y for c in g for y in c]]
            m.check(len(want) == len(g), f"{w}:cues", lambda: f"{x}: {len(g)} cues for {len(want)} captions", d)
            for a, b in zip(want, g):
                compare(m, w, a, b, CARRIED[w], d)
        if w == "vtt":
            break
        fmt = w.split("_")[0]
        new = m.must("read:" + fmt, docs.READERS[fmt]().read, out)
        check_balance(m, new, "read:" + fmt)
        st2 = styles_of(new)
        for x in langs:
            a, b = list(cs.get_captions(x)), list(new.get_captions(x))
            m.check(len(a) == len(b), f"read:{fmt}:captions", lambda: f"{x}: {len(b)} for {len(a)}", d)
            for p, q in zip(a, b):
                compare(m, f"{w}-roundtrip", char_flags(p, st, False), char_flags(q, st2, False), CARRIED[w], d)
        cs = new
        if any(nested(c.nodes) for x in cs.get_languages() for c in cs.get_captions(x)):
            m.hit("nested_after_hop")
            return


VALUES = ["red", "#ff00aa", "Arial", '"Courier New", monospace', "A & B", "<x>", "it's", 'a"b', "&amp;", "100%", "\u00e9"]


def content(rng):
    d = {}
    r = rng.random()
    items = []
    if r < 0.75:
        for k in rng.sample(gs.STYLE_KEYS, rng.choice([1, 1, 1, 2, 3])):
            items.append((k, True))
    if rng.random() < 0.08:
        items.append((rng.choice(gs.STYLE_KEYS), False))
    if r > 0.6:
        items.append(("class", rng.choice(["s1", "s2", "s3", "none"])))
    if rng.random() < 0.25:
        items.append((rng.choice(["color", "font-family", "font-size"]), rng.choice(VALUES)))
    if rng.random() < 0.05:
        items.append(("text-align", rng.choice(["left", "center", "right"])))
    rng.shuffle(items)
    for k, v in items:
        d.setdefault(k, v)
    if "class" in d and any(d.get(k) is False for k in gs.STYLE_KEYS):
        del d["class"]      # switching a class's style off again is not expressible in SAMI
    return d


def styles(rng):
    out = {}
    for n in ("s1", "s2", "s3"):
        if rng.random() < 0.75:
            s = {}
            for k in rng.sample(gs.STYLE_KEYS, rng.choice([0, 1, 1, 2])):
                s[k] = True
            if rng.random() < 0.3 or not s:
                s["color"] = rng.choice(["red", "white", "#aabbcc"])
            out[n] = s
    return link(rng, out)


def link(rng, st):
    """styles that refer to another one, in any order of names"""
    names = list(st)
    rng.shuffle(names)
    if rng.random() < 0.3:
        for i, k in enumerate(names[1:]):
            if rng.random() < 0.6:
                st[k] = {"class": names[rng.randint(0, i)] if rng.random() < 0.9 else k, **st[k]}
    return st


def api_set(rng, with_layouts, cap_style):
    if with_layouts:
        cs = laid.caption_set(rng, "%", nlang=(1, 1, 2), lang_p=0.2, cap_p=0.3, node_p=0.5)
        for _, d in cs["langs"]:
            for c in d["caps"]:
                prev = None
                for n in c["n"]:
                    if n[0] == "S":
                        if n[1]:
                            prev = content(rng)
                        n[2] = prev
    else:
        langs = []
        for x in rng.sample(gs.LANGS, rng.choice([1, 1, 1, 2])):
            caps = []
            for i in range(gt.count(rng, [1, 1, 2, 3], 60)):
                lines = [gt.line(rng, 0.4) if rng.random() < 0.3 else gt.plain(rng, 3) for _ in range(rng.choice([1, 1, 2, 3]))]
                nodes = gs.nodes_of_lines(rng, lines, split=0.4, empties=rng.choice([0, 0.2]), lead=rng.choice([0, 0.2]))
                if rng.random() < 0.85:
                    nodes = gs.add_spans(rng, nodes, content)
                c = {"s": 2 * i * 10 ** 6, "e": (2 * i + 1) * 10 ** 6, "n": nodes}
                caps.append(c)
            langs.append([x, {"caps": caps}])
        cs = {"langs": langs}
    if cap_style:
        for _, d in cs["langs"]:
            for c in d["caps"]:
                if rng.random() < 0.4:
                    c["style"] = content(rng)
    cs["styles"] = styles(rng)
    return cs


def document(rng):
    """DFXP / SAMI document with flat spans and the flags of its characters"""
    fmt = rng.choice(["dfxp", "sami"])
    st = styles(rng)
    if fmt == "sami":
        st = {k: x for k, v in st.items() if (x := {a: b for a, b in v.items() if a != "class"})}
    for k, v in st.items():
        if v.get("class") == k:     # an error in TTML
            del v["class"]
    full = {k: resolve(v, st) for k, v in st.items()}
    caps, truth = [], []
    xml = {"italics": ("tts:fontStyle", "italic"), "bold": ("tts:fontWeight", "bold"), "underline": ("tts:textDecoration", "underline")}
    css = {"italics": ("font-style", "italic"), "bold": ("font-weight", "bold"), "underline": ("text-decoration", "underline")}
    tag = {"italics": "i", "bold": "b", "underline": "u"}
    for _ in range(gt.count(rng, [1, 2, 3], 60)):
        body, t = "", []
        for j in range(gt.count(rng, [1, 2, 3, 4], 40)):
            w = gt.plain(rng, 2)
            r = rng.random()
            pre = rng.choice(["", "", " ", "<br/>" if fmt == "dfxp" else "<br>"]) if j else ""
            if r < 0.4:
                body += pre + w
                t += [[c, []] for c in w if not c.isspace()]
                continue
            fl = rng.sample(gs.STYLE_KEYS, rng.choice([1, 1, 2]))
            f = {k[0] for k in fl}
            if fmt == "sami" and rng.random() < 0.5:
                k = fl[0]
                up = rng.choice([str.upper, str.lower])
                s = f"<{up(tag[k])}>{w}</{up(tag[k])}>"
                f = {k[0]}
            else:
                attrs = []
                cl = rng.choice(["s1", "s2", "s3"]) if rng.random() < 0.3 else None
                if cl and cl in st:
                    cls = [cl] + ([x for x in st if x != cl][:1] if rng.random() < 0.3 else [])
                    rng.shuffle(cls)
                    attrs.append(("style" if fmt == "dfxp" else "class", " ".join(cls)))
                    f = f | {k[0] for x in cls for k in full[x] if k in xml}
                if fmt == "dfxp":
                    attrs += [xml[k] for k in fl]
                    if rng.random() < 0.2:
                        attrs.append(("tts:color", "red"))
                    off = sorted(set(xml) - set(fl) - {k for k in xml if k[0] in f})
                    if off and rng.random() < 0.3:
                        k = rng.choice(off)
                        attrs.append((xml[k][0], rng.choice(OFF[k])))
                    rng.shuffle(attrs)
                else:
                    decl = [f"{css[k][0]}:{rng.choice(['', ' '])}{css[k][1]}" for k in fl]
                    if rng.random() < 0.3:
                        decl.insert(rng.randint(0, len(decl)), "color: red")
                    off = sorted(set(xml) - set(fl) - {k for k in xml if k[0] in f})
                    if off and rng.random() < 0.3:
                        k = rng.choice(off)
                        decl.insert(rng.randint(0, len(decl)), f"{css[k][0]}:{rng.choice(['', ' '])}{rng.choice(OFF[k])}")
                    attrs.append(("style", rng.choice([";", "; ", ";  "]).join(decl) + rng.choice(["", ";"])))
                s = "<span" + "".join(f' {k}="{v}"' for k, v in attrs) + f">{w}</span>"
            body += pre + s
            t += [[c, sorted(f)] for c in w if not c.isspace()]
        caps.append(body)
        truth.append(t)
    if fmt == "dfxp":
        head = "".join(f'<style xml:id="{n}"' + "".join(f' {xml[k][0]}="{xml[k][1]}"' if k in xml else f' {"style" if k == "class" else "tts:color"}="{v}"' for k, v in s.items()) + "/>"
                       for n, s in st.items())
        doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling>' + head + "</styling></head><body><div>"
               + "".join(f'<p begin="{i}s" end="{i + 1}s">{b}</p>\n' for i, b in enumerate(caps)) + "</div></body></tt>")
    else:
        head = ".encc {name: English; lang: en-US;}\n" + "".join(
            f".{n} {{" + "".join(f"{css[k][0]}: {css[k][1]};" if k in css else f"color: {v};" for k, v in s.items()) + "}\n" for n, s in st.items())
        doc = ('<SAMI><HEAD><STYLE TYPE="text/css"><!--\n' + head + "--></STYLE></HEAD><BODY>\n"
               + "".join(f'<SYNC start="{i * 1000}"><P class="encc">{b}</P></SYNC>\n' for i, b in enumerate(caps)) + "</BODY></SAMI>")
    return {"k": "flags", "doc": {"fmt": fmt, "doc": doc}, "truth": truth}


def scc_chaos(rng):
    """any sequence of SCC words: only the balance of what the reader returns is checked"""
    mode = rng.choice([[c6.RCL], [c6.RCL, c6.ENM], [c6.RDC], [c6.RU[2]], [c6.RU[3], c6.CR], [c6.RU[4]]])
    pool = [lambda: c6.midrow(rng.choice([14, 15, 0, 1, 5, 14, 15])), lambda: c6.pac(rng.randint(1, 15), rng.choice([0, 14, 15, 15, 1, 20, 24])),
            lambda: c6.tab(rng.randint(1, 3)), lambda: c6.BS, lambda: c6.CR, lambda: c6.w(0x11, rng.randint(0x30, 0x3f)),
            lambda: c6.w(0x12, rng.randint(0x20, 0x3f)), lambda: c6.EDM, lambda: c6.EOC, lambda: rng.choice(mode)]
    pool += [lambda: "%02x%02x" % (c6.par(rng.randint(0x20, 0x7e)), rng.choice([0x80, c6.par(rng.randint(0x20, 0x7e))]))] * 8 + pool[:2] * 3
    t, lines = 30, []
    dbl = rng.random() < 0.5
    for i in range(rng.randint(1, 6)):
        ws = list(mode) if rng.random() < 0.8 else []
        for _ in range(rng.randint(1, 14)):
            ws.append(rng.choice(pool)())
        if rng.random() < 0.6:
            ws.append(c6.EOC if mode[0] == c6.RCL else c6.CR)
        if dbl:
            ws = [y for x in ws for y in ([x, x] if 0x10 <= int(x[:2], 16) & 0x7f <= 0x1f else [x])]
        lines.append((t, ws))
        t += len(ws) + rng.randint(10, 90)
    return {"fmt": "scc", "doc": gscc.render(lines, rng.choice(":;")), "kw": {}}


def random_case(rng, tier):
    r = rng.random()
    if r < 0.2:
        return {"k": "balance", "doc": docs.random_doc(rng, ("%",), FMTS, 0.1)}
    chain = [rng.choice(["dfxp", "sami"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.4 or not chain:
        chain.append("vtt")
    elif rng.random() < 0.15:
        chain[0] = rng.choice(["dfxp_single", "dfxp_legacy"])
    if r < 0.26:
        return {"k": "balance", "doc": scc_chaos(rng)}
    if r < 0.32:
        return {"k": "flags", "doc": docs.scc(rng), "chain": [x.split("_")[0] for x in chain]}
    if r < 0.45:
        c = document(rng)
        c["chain"] = chain
        return c
    cs = api_set(rng, rng.random() < 0.3, chain == ["vtt"])
    if "sami" not in chain and rng.random() < 0.5:
        odd_classes(rng, cs)
    return {"k": "flags", "cs": cs, "chain": chain, "opts": rng.choice([{}, {}, {"fit_to_screen": False}])}


ODD = [("a b", "a:b", "a_b"), ("a_b_", "a b", "a/b"), ("1", "_1", "2"), ("bottom", "bottom_", "r0"), ("P", "Default", "r1"), ("\u00e9", "<", "&amp;"),
       ("S1", "s1", "s1 s2"), ("-", "_", "."), ('"', "'", ">")]


def odd_classes(rng, cs):
    """class names that no xml:id can be, and alike ones"""
    new = dict(zip(("s1", "s2", "s3"), rng.sample(o := rng.choice(ODD), 3)))
    conts = [c.get("style") or {} for _, d in cs["langs"] for c in d["caps"]] + [n[2] for _, d in cs["langs"] for c in d["caps"] for n in c["n"] if n[0] == "S"]
    for c in {id(c): c for c in conts}.values():
        if c.get("class") in new:
            c["class"] = new[c["class"]]
    cs["styles"] = {new[k]: {**v, "class": new[v["class"]]} if "class" in v else v for k, v in cs["styles"].items()}


def systematic(tier):
    base = [["t", "ab"], ["b"], ["t", "c"], ["t", "d "], ["b"], ["t", "e"]]
    n = len(base)
    cont = [{"italics": True}, {"bold": True}, {"italics": True, "bold": True, "underline": True}, {"color": "red"}, {"class": "s1"}, {}]
    k = 0
    for a in range(n + 1):
        for b in range(a, n + 1):
            for c in range(b, n + 1):
                for d in range(c, n + 1):
                    k += 1
                    c1, c2 = cont[k % 6], cont[(k // 6) % 6]
                    nodes = []
                    for i in range(n + 1):
                        for pos, nd in ((a, ["S", 1, c1]), (b, ["S", 0, c1]), (c, ["S", 1, c2]), (d, ["S", 0, c2])):
                            if pos == i:
                                nodes.append(nd)
                        if i < n:
                            nodes.append(base[i])
                    for chain in (["dfxp", "sami"], ["sami", "dfxp", "vtt"], ["vtt"], ["sami", "vtt"]):
                        yield {"k": "flags", "chain": chain, "cs": {"styles": {"s1": {"italics": True, "underline": True}},
                               "langs": [["en", {"caps": [{"s": 10 ** 6, "e": 2 * 10 ** 6, "n": nodes}]}]]}}


def valid(case):
    if "cs" not in case:
        return case["k"] == "balance"
    if not laid.valid({"langs": [[x, dict(d, caps=[dict(c, n=[n for n in c["n"] if not (n[0] == "t" and not n[1].strip())]) for c in d["caps"]])]
                                 for x, d in case["cs"]["langs"]]}):
        return False
    return all(c["s"] % 10 ** 6 == 0 and c["e"] % 10 ** 6 == 0 for _, d in case["cs"]["langs"] for c in d["caps"])
