"""JSON model of caption sets <-> pycaption objects (public API only), canonical dumps."""
import json

from pycaption.base import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point,
                                Size, Stretch, UnitEnum, VerticalAlignmentEnum)

UNITS = {"px": UnitEnum.PIXEL, "em": UnitEnum.EM, "%": UnitEnum.PERCENT, "c": UnitEnum.CELL,
         "pt": UnitEnum.PT}
HAL = {h.value: h for h in HorizontalAlignmentEnum}
VAL = {v.value: v for v in VerticalAlignmentEnum}


def size(s):
    return None if s is None else Size(s[0], UNITS[s[1]])


def layout(L):
    """L = {"o":[sz,sz],"x":[sz,sz],"p":[before,after,start,end],"a":[h,v],"w":str} (all optional)"""
    if L is None:
        return None
    o, x, p, a = L.get("o"), L.get("x"), L.get("p"), L.get("a")
    return Layout(
        origin=Point(size(o[0]), size(o[1])) if o else None,
        extent=Stretch(size(x[0]), size(x[1])) if x else None,
        padding=Padding(*[size(q) for q in p]) if p else None,
        alignment=Alignment(HAL.get(a[0]), VAL.get(a[1])) if a else None,
        webvtt_positioning=L.get("w"),
    )


def _same(key, make):
    return make()


def node(n, share=_same):
    k = n[0]
    lay = lambda i: share(("L", n[i]), lambda: layout(n[i])) if len(n) > i and n[i] else None
    if k == "t":
        return CaptionNode.create_text(n[1], lay(2))
    if k == "b":
        return CaptionNode.create_break(lay(1))
    if k == "S":
        return CaptionNode.create_style(bool(n[1]), share(("D", n[2]), lambda: dict(n[2])), lay(3))
    raise ValueError(n)


def caption(c, share=_same, nodes=False):
    L = c.get("layout")
    st = c.get("style") or {}
    each = (lambda n: share(("N", n), lambda: node(n, share))) if nodes else (lambda n: node(n, share))
    return Caption(c["s"], c["e"], [each(n) for n in c["n"]],
                   style=share(("D", st), lambda: dict(st)),
                   layout_info=share(("L", L), lambda: layout(L)) if L else None)


def build(cs):
    """cs["alias"]: equal parts of the set are one object: 1 layouts and style dicts, 2 also nodes,
    captions and caption lists (a user may put the same list under two languages)"""
    level, memo = cs.get("alias", 0), {}

    def share(key, make, needs=1):
        if level < needs:
            return make()
        key = json.dumps(key)
        if key not in memo:
            memo[key] = make()
        return memo[key]
    lay = lambda L: share(("L", L), lambda: layout(L)) if L else None
    one = lambda c: share(("C", c), lambda: caption(c, share, level > 1), 2)
    many = lambda d: share(("M", d["caps"], d.get("layout")), lambda: CaptionList(
        [one(c) for c in d["caps"]], layout_info=lay(d.get("layout"))), 2)
    return CaptionSet({lang: many(d) for lang, d in cs["langs"]},
                      styles={k: share(("D", v), lambda: dict(v)) for k, v in (cs.get("styles") or {}).items()},
                      layout_info=lay(cs.get("layout")))


# ---- canonical dumps ---------------------------------------------------
def _num(x):
    return [type(x).__name__, x]


def d_size(s):
    return None if s is None else [s.value, s.unit.value]


def d_layout(L):
    if L is None:
        return None
    if not hasattr(L, "origin"):
        return ["?", repr(L)]
    a = L.alignment
    return {
        "o": L.origin and [d_size(L.origin.x), d_size(L.origin.y)],
        "x": L.extent and [d_size(L.extent.horizontal), d_size(L.extent.vertical)],
        "p": L.padding and [d_size(L.padding.before), d_size(L.padding.after),
                            d_size(L.padding.start), d_size(L.padding.end)],
        "a": a and [a.horizontal and a.horizontal.value, a.vertical and a.vertical.value],
        "w": L.webvtt_positioning,
    }


def d_val(v):
    if isinstance(v, dict):
        return {str(k): d_val(x) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if isinstance(v, (list, tuple)):
        return [d_val(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


KIND = {CaptionNode.TEXT: "t", CaptionNode.BREAK: "b", CaptionNode.STYLE: "S"}


def d_node(n):
    return [KIND.get(n.type_, n.type_), d_val(n.content), n.start, d_val(getattr(n, "position", None)),
            d_layout(n.layout_info)]


def d_caption(c):
    return {"s": c.start, "e": c.end, "n": [d_node(n) for n in c.nodes], "style": d_val(c.style),
            "layout": d_layout(c.layout_info)}


def dump(cs):
    return {
        "langs": [[lang, {"layout": d_layout(getattr(cs.get_captions(lang), "layout_info", None)),
                          "caps": [d_caption(c) for c in cs.get_captions(lang)]}]
                  for lang in cs.get_languages()],
        "styles": d_val([[k, v] for k, v in cs.get_styles()]),
        "layout": d_layout(cs.layout_info),
    }


# ---- derived views -----------------------------------------------------
def lines_of_nodes(nodes):
    """Model JSON nodes -> list of display lines (text between breaks)."""
    out = [""]
    for n in nodes:
        if n[0] == "t":
            out[-1] += n[1]
        elif n[0] == "b":
            out.append("")
    return out


def lines_of_caption(c):
    out = [""]
    for n in c.nodes:
        if n.type_ == CaptionNode.TEXT:
            out[-1] += n.content
        elif n.type_ == CaptionNode.BREAK:
            out.append("")
    return out


WS = " \t\r\n\f\v\u00a0"


def norm_lines(lines, collapse=True):
    """Trim each line, drop blank ones (nbsp counts as blank), optionally collapse runs."""
    out = []
    for ln in lines:
        s = ln.strip(WS)
        if collapse:
            s = " ".join(x for x in _split_ws(s))
        if s:
            out.append(s)
    return out


def _split_ws(s):
    cur, res = "", []
    for ch in s:
        if ch in WS:
            if cur:
                res.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        res.append(cur)
    return res


def timeline(cs):
    """{lang: [(start, end, normalised text)]} of a pycaption CaptionSet."""
    return {lang: [(c.start, c.end, norm_lines(lines_of_caption(c))) for c in cs.get_captions(lang)]
            for lang in cs.get_languages()}
