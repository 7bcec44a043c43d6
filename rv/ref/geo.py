"""Exact reference geometry: relativization, fit-to-screen, WebVTT settings, and comparison with printed values.

Layouts are the JSON ones of rv/model.py: {"o":[sz,sz],"x":[sz,sz],"p":[before,after,start,end],"a":[h,v],"w":str}, sz=[value, unit].
Values become Fractions (decimal reading of the float)."""
import re
from fractions import Fraction

TOL = Fraction(5, 1000) + Fraction(1, 10 ** 6)


class Missing(Exception):
    """a needed video dimension was not supplied"""


def frac(v):
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


def pct(sz, dim, cells):
    v, u = frac(sz[0]), sz[1]
    if u == "%":
        return v
    if u == "c":
        return v * 100 / cells
    if not dim:
        raise Missing(u)
    if u == "em":
        v *= 16
    elif u == "pt":
        v = v * 4 / 3
    elif u != "px":
        raise ValueError(u)
    return v * 100 / Fraction(dim)


def relative(L, w, h):
    """JSON layout -> {"o": (x, y), "x": (w, h), "p": (before, after, start, end), "a", "w"} of Fractions in percent."""
    out = {"o": None, "x": None, "p": None, "a": L.get("a"), "w": L.get("w")}
    for k in ("o", "x"):
        if L.get(k):
            out[k] = (pct(L[k][0], w, 32), pct(L[k][1], h, 15))
    if L.get("p"):
        p = L["p"]
        out["p"] = (pct(p[0], h, 15), pct(p[1], h, 15), pct(p[2], w, 32), pct(p[3], w, 32))
    return out


def needs(L, cell=True):
    """dimensions needed: set of 'w','h' (certainly) ; cells are reported separately as 'cw','ch'"""
    s = set()

    def one(sz, d):
        if sz and sz[1] != "%":
            s.add(("c" if sz[1] == "c" else "") + d)
    for k in ("o", "x"):
        if L and L.get(k):
            one(L[k][0], "w")
            one(L[k][1], "h")
    if L and L.get("p"):
        for q, d in zip(L["p"], "hhww"):
            one(q, d)
    return s


def is_relative(L):
    return not needs(L)


def fit(R):
    """fit-to-screen of a relative layout whose origin is inside the safe area. Returns (layout, checked) where
    checked says which axes the statement pins exactly."""
    if not R["o"]:
        return R
    R = dict(R)
    ext = []
    for i, lim in ((0, 90), (1, 95)):
        room = lim - R["o"][i]
        if R["x"] is None or R["x"][i] > room:
            ext.append(room)
        else:
            ext.append(R["x"][i])
    R["x"] = tuple(ext)
    return R


def inside_safe(R):
    return R["o"] is None or (0 <= R["o"][0] <= 90 and 0 <= R["o"][1] <= 95)


NUM = re.compile(r"-?[0-9]+(?:\.[0-9]{1,2})?%\Z")


def parse_pct(s):
    """'12.34%' -> Fraction; anything else -> None"""
    return Fraction(s[:-1]) if isinstance(s, str) and NUM.match(s) else None


def close(printed, want):
    """printed string is `want` percent rounded to two decimals"""
    v = parse_pct(printed)
    return v is not None and abs(v - want) <= TOL


def near(a, b):
    return abs(frac(a) - b) <= TOL


def ttml_padding(s):
    """1-4 lengths -> (before, after, start, end) strings"""
    v = s.split()
    if len(v) == 1:
        return (v[0],) * 4
    if len(v) == 2:
        return (v[0], v[0], v[1], v[1])
    if len(v) == 3:
        return (v[0], v[2], v[1], v[1])
    if len(v) == 4:
        return (v[0], v[2], v[3], v[1])
    raise ValueError(s)


HALIGN = {None: "start", "left": "left", "center": "center", "right": "right", "start": "start", "end": "end"}
VALIGN = {None: "after", "top": "before", "center": "center", "bottom": "after"}


def ttml_expected(R):
    """region attributes (names without namespace) an effective relative layout must have; R None = DFXP default."""
    if R is None:
        R = {"o": None, "x": None, "p": None, "a": None}
    a = R["a"] or [None, None]
    return {"origin": R["o"], "extent": R["x"], "padding": R["p"], "textAlign": HALIGN[a[0]], "displayAlign": VALIGN[a[1]]}


def ttml_compare(attrs, R):
    """attrs: computed region attributes from the output. Returns None or a description of the difference."""
    want = ttml_expected(R)
    for k in ("origin", "extent"):
        s = attrs.get(k)
        if want[k] is None:
            if s is not None and s != "auto":
                return f"tts:{k}={s!r}, expected none"
        else:
            v = (s or "").split()
            if len(v) != 2 or not all(close(x, y) for x, y in zip(v, want[k])):
                return f"tts:{k}={s!r}, expected {[str(float(x)) for x in want[k]]}%"
    s = attrs.get("padding")
    if want["padding"] is None:
        if s is not None:
            return f"tts:padding={s!r}, expected none"
    else:
        try:
            v = ttml_padding(s or "")
        except ValueError:
            v = ()
        if len(v) != 4 or not all(close(x, y) for x, y in zip(v, want["padding"])):
            return f"tts:padding={s!r} (before, after, start, end) = {v}, expected {[str(float(x)) for x in want['padding']]}%"
    for k, d in (("textAlign", "start"), ("displayAlign", "after")):
        # pycaption's defaults: start / after
        if attrs.get(k, d) != want[k]:
            return f"tts:{k}={attrs.get(k)!r}, expected {want[k]}"
    return None


VTT_SETTING = re.compile(r"(align|position|line|size|vertical|region):(\S+)\Z")


def vtt_settings(s):
    """cue settings string -> dict; raises ValueError on anything else"""
    out = {}
    for part in s.split():
        m = VTT_SETTING.match(part)
        if not m or m.group(1) in out:
            raise ValueError(f"cue setting {part!r}")
        out[m.group(1)] = m.group(2)
    return out


def vtt_expected(R):
    """expected settings of a relative (already fitted) layout; values Fractions; None = unconstrained."""
    out = {}
    a = (R["a"] or [None, None])[0] if R else None
    out["align"] = {None: ("start", None), "center": (None,)}.get(a, (a,))
    if not R or not R["o"]:
        return out
    p = R["p"] or (0, 0, 0, 0)
    out["position"] = R["o"][0] + p[2]
    out["line"] = R["o"][1] + p[0]
    out["size"] = R["x"][0] - p[2] - p[3] if R["x"] else None
    return out


def vtt_compare(settings, R):
    want = vtt_expected(R)
    if settings.get("align") not in want["align"]:
        return f"align={settings.get('align')!r}, expected {want['align']}"
    for k in ("position", "line", "size"):
        v = settings.get(k)
        if v is not None and parse_pct(v) is None:
            return f"{k}:{v} is not a percentage"
        if "position" not in want:
            continue
        w = want[k]
        if w is None:
            if v is not None:
                return f"{k}:{v}, expected none"
        elif w < 0:
            continue    # paddings wider than the box: not specified
        elif v is None or not close(v, w):
            return f"{k}:{v}, expected {float(w)}%"
    return None
