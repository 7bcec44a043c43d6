"""Monitors for the positioning carried by DFXP, WebVTT and SAMI output: expected layout per visible character, computed from
the caption set with rv/ref/geo.py, against the output as read by the independent parsers."""
from . import core

core.setup_path()
from pycaption.base import CaptionNode  # noqa: E402

from . import model, writers  # noqa: E402
from .ref import geo, parse  # noqa: E402
from .ref.parse import TT, TTS, q  # noqa: E402


def vis(s):
    return [c for c in s if not c.isspace()]


def view(cs, set_level=True):
    """{lang: [{"s","e","texts":[(text, own layout JSON|None, effective layout JSON|None)]}]} of a CaptionSet"""
    out = {}
    for lang in cs.get_languages():
        cl = cs.get_captions(lang)
        ll = getattr(cl, "layout_info", None)
        caps = []
        for c in cl:
            texts = []
            for n in c.nodes:
                if n.type_ == CaptionNode.TEXT:
                    own = n.layout_info if n.layout_info else None
                    eff = own or c.layout_info or ll or (cs.layout_info if set_level else None)
                    texts.append((n.content, model.d_layout(own), model.d_layout(eff) if eff else None))
            caps.append({"s": c.start, "e": c.end, "texts": texts})
        out[lang] = caps
    return out


def dims(opts):
    return (opts.get("size") or [None, None])


def missing(L, opts):
    """'must' | 'may' | None: has the layout to be refused for want of a video dimension"""
    if not L:
        return None
    w, h = dims(opts)
    r = None
    for part, axes in (("o", "wh"), ("x", "wh"), ("p", "hhww")):
        for sz, d in zip(L.get(part) or (), axes):
            if sz[1] == "%" or (w if d == "w" else h):
                continue
            if sz[1] == "c" or sz[0] == 0:
                r = r or "may"
            else:
                r = "must"
    return r


def expected(L, opts):
    """relative, fitted layout (or None for none); (R, free) with free axes the property leaves open"""
    if not L:
        return None, False
    w, h = dims(opts)
    R = geo.relative(L, w, h)
    free = False
    if opts.get("fit_to_screen", True):
        free = not geo.inside_safe(R)
        R = geo.fit(R)
    return R, free


def check_dfxp(m, out, cs, langs, opts, tag="dfxp", set_level=True):
    """every visible character lies in a region with the expected attributes; no absolute length is written."""
    try:
        t = parse.Ttml(out)
    except parse.FormatError as e:
        m.fail(f"{tag}:not-well-formed", str(e)[:500], {"output": out[:2500]})
    d = {"output": out[:3000]}
    if opts.get("relativize", True):
        for el in t.root.iter():
            if isinstance(el.tag, str):
                for k in ("origin", "extent", "padding"):
                    v = el.get(q(TTS, k))
                    if v is not None:
                        m.hit("lengths")
                        m.check(all(geo.parse_pct(x) is not None for x in v.split()), f"{tag}:absolute-length",
                                lambda: f"<{el.tag.split('}')[1]}> tts:{k}={v!r} under relativization", d)
    vw = view(cs, set_level)
    attrs = {}
    divs = t.divs()
    m.eq([t.div_lang(x) for x in divs], langs, f"{tag}:languages", d)
    for dv in divs:
        caps = vw[t.div_lang(dv)]
        ps = t.ps(dv)
        m.check(len(ps) == len(caps), f"{tag}:p-count", lambda: f"{len(ps)} p for {len(caps)} captions", d)
        for p, c in zip(ps, caps):
            cue = t.p_cue(p)
            got = [(ch, rg) for ln, rl in zip(cue.lines, cue.meta["regions"]) for ch, rg in zip(ln, rl) if not ch.isspace()]
            want = [(ch, eff) for s, _, eff in c["texts"] for ch in vis(s)]
            m.check([x for x, _ in got] == [x for x, _ in want], f"{tag}:text",
                    lambda: f"{''.join(x for x, _ in got)!r} for {''.join(x for x, _ in want)!r}", d)
            seen = set()
            for (ch, rg), (_, eff) in zip(got, want):
                key = (rg, repr(eff))
                if key in seen:
                    continue
                seen.add(key)
                m.hit("regions_compared")
                defs = t.regions.get(rg, [])
                m.check(len(defs) == 1, f"{tag}:region-ref", lambda: f"character {ch!r} in region {rg!r} defined {len(defs)} times", d)
                if rg not in attrs:
                    attrs[rg] = t.specified(defs[0])
                R, free = expected(eff, opts)
                a = dict(attrs[rg])
                if free:
                    a.pop("extent", None)
                    R = dict(R, x=None)
                diff = geo.ttml_compare(a, R)
                m.check(diff is None, f"{tag}:layout", lambda: f"{ch!r} with layout {eff} lies in region {rg!r}: {diff}", d)
                m.state("layout", kind_of(eff))


def kind_of(L):
    if not L:
        return None
    return [tuple(x[1] for x in (L.get(k) or ())) for k in "oxp"] + [L.get("a")]


def check_vtt(m, out, cs, lang, opts):
    try:
        cues = parse.parse_vtt(out)
    except parse.FormatError as e:
        m.fail("vtt:format", str(e)[:500], {"output": out[:2500]})
    d = {"output": out[:3000]}
    caps = view(cs, set_level=False)[lang]
    i = 0
    for c in caps:
        groups = []
        for s, own, eff in c["texts"]:
            own_ = dict(own, w=None) if own else None
            if groups and groups[-1]["own"] == own_:
                groups[-1]["t"] += vis(s)
            else:
                groups.append({"own": own_, "eff": eff, "t": vis(s)})
        groups = [g for g in groups]
        merged = []     # groups of different own but same effective layout may share a cue
        for g in groups:
            if merged and merged[-1]["eff"] == g["eff"]:
                merged[-1] = dict(merged[-1], t=merged[-1]["t"] + g["t"])
            else:
                merged.append(g)
        part = cues[i:i + len(groups)]
        if [vis("".join(q_.lines)) for q_ in part] != [g["t"] for g in groups]:
            part, groups = cues[i:i + len(merged)], merged
        i += len(part)
        m.check([vis("".join(q_.lines)) for q_ in part] == [g["t"] for g in groups], "vtt:cues",
                lambda: f"layout groups {[''.join(g['t']) for g in groups]} written as cues {[''.join(q_.lines) for q_ in part]}", d)
        m.hit("cue_groups", len(groups))
        if len(groups) > 1:
            m.hit("split_captions")
        m.check(len({(q_.start_raw, q_.end_raw) for q_ in part}) <= 1, "vtt:split-times",
                lambda: f"cues of one caption at {[(q_.start_raw, q_.end_raw) for q_ in part]}", d)
        for q_, g in zip(part, groups):
            raw, L = q_.meta["settings"], g["eff"]
            if L and L.get("w"):
                m.check(raw.strip() == L["w"].strip(), "vtt:verbatim", lambda: f"settings {raw!r} for {L['w']!r}", d)
                m.hit("verbatim")
                continue
            try:
                st = geo.vtt_settings(raw)
            except ValueError as e:
                m.fail("vtt:settings", str(e), d)
            if not opts.get("relativize", True) and L and not geo.is_relative(L):
                for k in ("position", "line", "size"):
                    m.check(k not in st or geo.parse_pct(st[k]) is not None, "vtt:absolute-length", f"{k}:{st.get(k)}", d)
                m.hit("ignored_absolute")
                continue
            R, free = expected(L, opts)
            if free:
                st.pop("size", None)
                R = dict(R, x=None)
            diff = geo.vtt_compare(st, R)
            m.check(diff is None, "vtt:layout", lambda: f"layout {L} written as {raw!r}: {diff}", d)
            m.hit("settings_compared")
            m.state("layout", kind_of(L))
    m.check(i == len(cues), "vtt:extra-cues", lambda: f"{len(cues) - i} cues too many", d)


def check_sami(m, out, cs, opts):
    """margins of the classes of the languages (and of P, for the layout of the set)"""
    try:
        s = parse.Sami(out)
    except parse.FormatError as e:
        m.fail("sami:format", str(e)[:500], {"output": out[:2500]})
    d = {"output": out[:2500]}
    rel = opts.get("relativize", True)
    langs = cs.get_languages()

    def compare(sel, decl, L):
        if not L or not L.get("p"):
            return
        if not rel and not geo.is_relative(L):
            return
        R, _ = expected(L, dict(opts, fit_to_screen=False))
        for k, w in zip(SIDES, R["p"]):
            if w is not None:
                m.check(geo.close(decl.get(k), w), "sami:margin", lambda: f"{sel} {k}: {decl.get(k)}, expected {float(w)}%", d)
        m.hit("margins_compared")

    styles = {k for k, _ in cs.get_styles()}
    done = set()
    for sel, decl in s.by_sel.items():
        lang = decl.get("lang")
        if lang in langs:
            L, P = model.d_layout(cs.get_layout_info(lang)), model.d_layout(cs.layout_info)
            own = any(k in SIDES for sid, st in cs.get_styles() if "." + sid.lower() == sel for k in st)
            if rel:
                for k in SIDES:
                    if k in decl:
                        m.hit("lengths")
                        m.check(geo.parse_pct(decl[k]) is not None, "sami:absolute-length", lambda: f"{sel} {{{k}: {decl[k]}}}", d)
            if not L and not P and not own:
                m.check(not any(k in decl for k in SIDES), "sami:margin", lambda: f"{sel} has margins {decl}, its language has none", d)
            compare(sel, decl, L)
            done.add(lang)
        elif sel == "p" and "p" in styles:
            compare(sel, decl, model.d_layout(cs.layout_info))
            m.hit("p_block")
    m.check(done == set(langs), "sami:language-class", lambda: f"no rule for {set(langs) - done}", d)


SIDES = ["margin-top", "margin-bottom", "margin-left", "margin-right"]     # before, after, start, end
