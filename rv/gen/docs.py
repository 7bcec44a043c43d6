"""Random documents of the text formats with styling, classes, regions and languages, as JSON cases
{"fmt", "doc", "kw" (reader kwargs), "init" (reader constructor kwargs)}."""
from xml.sax.saxutils import escape, quoteattr

from . import text as gt
from .. import core

core.setup_path()
from pycaption import DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader  # noqa: E402

READERS = {"srt": SRTReader, "vtt": WebVTTReader, "dfxp": DFXPReader, "sami": SAMIReader, "microdvd": MicroDVDReader,
           "scc": SCCReader}
NAMES = ["s1", "s2", "p", "default", "bottom", "r0", "r1", "basic", "span", "encc", "a-b", "a.b", "s_1", "\u00e9t\u00e9"]
ODD_NAMES = ["a b", "1", "x&y", "x<y", "x>y", 'q"q', "q'q", "a\u00a0b", "-x", "x:y", "#id", "a  b", "\u4e2d", "a'b\"c", "&amp;", "]]>"]
LANGS = ["en-US", "en", "fr", "de-CH", "es", "zh-Hant", "und", "x"]
ODD_LANGS = ["x&y", 'e"n', "e'n", "<en>", "e n", "\u4e2d", "&lt;", "a'b\"c"]
VALUES = ["red", "#ff00aa", "Arial", "monospace", "1c", "80%", "10px", "white", "left", "center"]
ODD_VALUES = ['"Arial"', "A & B", "<x>", "'Q'", "&amp;", "]]>", "a\"b'c", "\u00e9", "x;y", ">", "-->"]
LENGTH = {"%": ["0%", "5%", "10%", "12.5%", "33.33%", "50%", "80%", "100%"], "px": ["0px", "16px", "64px", "100.5px"],
          "em": ["1em", "2.5em"], "c": ["1c", "8c", "0.5c"], "pt": ["12pt", "3pt"]}


def reader(case):
    return READERS[case["fmt"]](**(case.get("init") or {}))


def name(rng, odd=0.25):
    return rng.choice(ODD_NAMES if rng.random() < odd else NAMES)


def value(rng, odd=0.2):
    return rng.choice(ODD_VALUES if rng.random() < odd else VALUES)


def words(rng):
    r = rng.random()
    if r < 0.75:
        return gt.plain(rng, 4)
    return gt.line(rng, maxlen=4)


def length(rng, units):
    return rng.choice(LENGTH[rng.choice(units)])


def _inline(rng, fmt, names, depth=0, regions=()):
    out = ""
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.6 or depth > 1:
            out += escape(words(rng)) + rng.choice(["", " "])
        elif r < 0.72:
            out += "<br/>" if fmt == "dfxp" else rng.choice(["<br>", "<br/>"])
        elif fmt == "dfxp":
            out += "<span" + _dfxp_attrs(rng, names, regions) + ">" + _inline(rng, fmt, names, depth + 1, regions) + "</span>"
        else:
            t = rng.choice(["i", "b", "u", "span", "font", "div"])
            a = ""
            if t == "span" or rng.random() < 0.2:
                if rng.random() < 0.6:
                    a += " style=" + quoteattr(";".join(
                        f"{k}:{v}" for k, v in [rng.choice([("font-style", "italic"), ("font-weight", "bold"), ("color", value(rng)),
                                                            ("text-decoration", "underline"), ("text-align", rng.choice(["left", "right", "center"])),
                                                            ("font-family", value(rng)), ("lang", "fr")]) for _ in range(rng.choice([1, 1, 2]))]))
                if rng.random() < 0.5:
                    a += " class=" + quoteattr(rng.choice(names))
            out += f"<{t}{a}>" + _inline(rng, fmt, names, depth + 1) + f"</{t}>"
    return out


def _dfxp_attrs(rng, names, regions, p=False):
    a = {}
    if rng.random() < 0.35:
        a["style"] = " ".join(rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2])))
    if regions and rng.random() < (0.4 if p else 0.15):
        a["region"] = rng.choice(regions)
    for k, vs in (("tts:fontStyle", ["italic", "normal"]), ("tts:fontWeight", ["bold"]), ("tts:textDecoration", ["underline", "none"]),
                  ("tts:color", None), ("tts:fontFamily", None), ("tts:fontSize", None), ("tts:textAlign", ["left", "center", "right", "start", "end"]),
                  ("tts:backgroundColor", ["black"])):
        if rng.random() < 0.13:
            a[k] = rng.choice(vs) if vs else value(rng)
    return "".join(f" {k}={quoteattr(v)}" for k, v in a.items())


def _layout_attrs(rng, units):
    a = {}
    if rng.random() < 0.6:
        a["tts:origin"] = length(rng, units) + " " + length(rng, units)
    if rng.random() < 0.5:
        a["tts:extent"] = length(rng, units) + " " + length(rng, units)
    if rng.random() < 0.3:
        a["tts:padding"] = " ".join(length(rng, units) for _ in range(rng.randint(1, 4)))
    if rng.random() < 0.5:
        a["tts:textAlign"] = rng.choice(["left", "center", "right", "start", "end"])
    if rng.random() < 0.5:
        a["tts:displayAlign"] = rng.choice(["before", "center", "after"])
    return a


def dfxp(rng, units=("%",), odd=0.25):
    names = list(dict.fromkeys(name(rng, odd) for _ in range(rng.choice([0, 1, 2, 4]))))
    head = ""
    for i, n in enumerate(names):
        attrs = _dfxp_attrs(rng, names[:i] or ["none"], ())
        if rng.random() < 0.3:
            attrs += "".join(f" {k}={quoteattr(v)}" for k, v in _layout_attrs(rng, units).items() if k not in attrs)
        head += f"<style xml:id={quoteattr(n)}{attrs}/>\n"
    regions = list(dict.fromkeys(rng.choice(["r0", "r1", "bottom", "top", "x.y", "left"]) for _ in range(rng.choice([0, 1, 2, 3]))))
    lay = ""
    for r in regions:
        la = _layout_attrs(rng, units)
        if rng.random() < 0.3:
            inner = "".join(f"<style {k}={quoteattr(v)}/>" for k, v in la.items())
            lay += f"<region xml:id={quoteattr(r)}>{inner}</region>\n"
        else:
            st = f" style={quoteattr(rng.choice(names))}" if names and rng.random() < 0.2 else ""
            lay += f"<region xml:id={quoteattr(r)}{st}" + "".join(f" {k}={quoteattr(v)}" for k, v in la.items()) + "/>\n"
    nlang = rng.choice([1, 1, 1, 2, 3])
    langs = rng.sample(LANGS, nlang)
    if rng.random() < 0.1:
        langs[0] = rng.choice(ODD_LANGS)
    root = f' xml:lang="{rng.choice(["en", "fr"])}"' if rng.random() < 0.5 else ""
    if "px" in units and rng.random() < 0.2:
        root += ' tts:extent="640px 360px"'
    body = ""
    for x in langs:
        a = "" if nlang == 1 and rng.random() < 0.2 else f" xml:lang={quoteattr(x)}"
        if regions and rng.random() < 0.25:
            a += f' region="{rng.choice(regions)}"'
        body += f"<div{a}>\n"
        for i in range(gt.count(rng, [0, 1, 2, 4] if nlang > 1 else [1, 2, 4], 60)):
            e = i + rng.choice([1, 1, 0.5])
            body += f'  <p begin="{i}s" end="{e}s"' + _dfxp_attrs(rng, names or ["none"], regions, True) + ">" \
                    + escape(words(rng)) + rng.choice(["", "<br/>"]) + _inline(rng, "dfxp", names or ["none"], 0, regions) + "</p>\n"
            if rng.random() < 0.15:
                body += f'  <p begin="{i}s" end="{e}s">' + escape(words(rng)) + "</p>\n"
        body += "</div>\n"
    doc = ('<?xml version="1.0" encoding="utf-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"'
           f'{root}>\n<head><styling>{head}</styling><layout>{lay}</layout></head>\n<body>{body}</body></tt>\n')
    c = {"fmt": "dfxp", "doc": doc}
    if rng.random() < 0.1:
        c["init"] = {"read_invalid_positioning": True}
    return c


def sami(rng, units=("%",)):
    langs = rng.sample(["en-US", "fr-FR", "de", "es", "zh-TW"], rng.choice([1, 1, 2, 3]))
    cls = [x.split("-")[0].upper() + "CC" for x in langs]
    extra = [n for n in dict.fromkeys(rng.choice(["Small", "Big", "x-y", "s1", "Source"]) for _ in range(rng.choice([0, 1, 2])))]

    def decl():
        d = []
        for k, vs in (("color", ["red", "#ffeedd", "white"]), ("font-family", ["Arial", '"Courier New", monospace', "'A & B'"]),
                      ("font-size", ["24pt", "10px"]), ("font-style", ["italic"]), ("font-weight", ["bold"]),
                      ("text-align", ["left", "center", "right"]), ("text-decoration", ["underline"]), ("margin-top", None), ("margin-left", None),
                      ("margin-right", None), ("margin-bottom", None)):
            if rng.random() < 0.2:
                d.append(f"{k}: {rng.choice(vs) if vs else length(rng, units)};")
        return " ".join(d)
    css = f"P {{{decl()}}}\n" if rng.random() < 0.8 else ""
    for x, c in zip(langs, cls):
        css += f".{c} {{Name: {c}; lang: {x}; SAMIType: CC; {decl() if rng.random() < 0.4 else ''}}}\n"
    for n in extra:
        css += rng.choice(["#", "."]) + n + f" {{Name: {n}; {decl()}}}\n"
    if rng.random() < 0.15:
        css += rng.choice(["p.big", "p b", ".a, .b", "b > i", "*"]) + " {color: red;}\n"
    names = cls + extra + ["unknown"]
    body, t = "", 0
    for i in range(gt.count(rng, [1, 2, 3, 5], 60)):
        body += f"<SYNC start={t}>"
        for x, c in zip(langs, cls):
            r = rng.random()
            if r < 0.15:
                continue
            if r < 0.3:
                body += f"<P class={c}>&nbsp;</P>"
                continue
            a = f" class={c}"
            if rng.random() < 0.1:
                a += f" id={rng.choice(extra or ['none'])}"
            if rng.random() < 0.15:
                a += ' style="text-align:right;color:red"'
            body += f"<P{a}>" + escape(words(rng)) + rng.choice(["", "<br>"]) + _inline(rng, "sami", names) + rng.choice(["</P>", ""])
        body += rng.choice(["</SYNC>\n", "\n"])
        t += rng.choice([500, 1000, 1500])
    return {"fmt": "sami", "doc": f"<SAMI><HEAD><TITLE>t</TITLE><STYLE TYPE=\"text/css\"><!--\n{css}--></STYLE></HEAD><BODY>\n{body}</BODY></SAMI>"}


def vtt(rng):
    out = "WEBVTT" + rng.choice(["", " - title"]) + "\n\n"
    for i in range(gt.count(rng, [1, 2, 4], 150)):
        if rng.random() < 0.3:
            out += f"id {i}\n"
        st = rng.choice(["", "", " align:start", " line:10% position:20% align:left size:50%", " vertical:rl", ' x:"<&>"'])
        ln = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = escape(words(rng)).replace("--&gt;", "--")
            r = rng.random()
            if r < 0.3:
                t = rng.choice(["i", "b", "u", "c.red", "lang en"])
                w = f"<{t}>{w}</{t.split('.')[0].split()[0]}>"
            elif r < 0.4:
                w = f"<v Bob>{w}</v>"
            ln.append(w)
        out += f"{i // 60:02d}:{i % 60:02d}.000 --> {i // 60:02d}:{i % 60:02d}.{rng.choice(['900', '500'])}{st}{rng.choice(['', '', ' '])}\n" + "\n".join(ln) + "\n\n"
    c = {"fmt": "vtt", "doc": out}
    if rng.random() < 0.2:
        c["kw"] = {"lang": rng.choice(LANGS + ODD_LANGS)}
    return c


def srt(rng, control=0.0):
    out = ""
    for i in range(gt.count(rng, [1, 2, 4], 150)):
        ln = [words(rng).replace("-->", "->") for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < control:
            ln[0] += rng.choice("\x01\x08\x0b\x0c\x1f\x7f\ufffe\uffff\x00\x1b") + "x"
        t = i if rng.random() < 0.8 else max(0, i - 1)
        out += f"{i + 1}\n00:{t // 60:02d}:{t % 60:02d},000 --> 00:{t // 60:02d}:{t % 60:02d},900\n" + "\n".join(ln) + "\n\n"
    c = {"fmt": "srt", "doc": out}
    if rng.random() < 0.2:
        c["kw"] = {"lang": rng.choice(LANGS + ODD_LANGS)}
    return c


def microdvd(rng):
    out = "{0}{0}" + rng.choice(["25", "23.976", "30"]) + "\n" if rng.random() < 0.4 else ""
    for i in range(gt.count(rng, [1, 2, 4], 150)):
        out += f"{{{10 * i + 1}}}{{{10 * i + 9}}}" + "|".join(words(rng).replace("|", "/") for _ in range(rng.choice([1, 2, 3]))) + "\n"
    c = {"fmt": "microdvd", "doc": out}
    if rng.random() < 0.2:
        c["kw"] = {"lang": rng.choice(LANGS + ODD_LANGS)}
    return c


def scc(rng):
    from . import scc as gscc
    return gscc.random_doc(rng)


def random_doc(rng, units=("%",), fmts=("dfxp", "dfxp", "sami", "sami", "vtt", "srt", "microdvd"), odd=0.25, control=0.0):
    f = rng.choice(list(fmts))
    if f == "dfxp":
        return dfxp(rng, units, odd)
    if f == "sami":
        return sami(rng, units)
    if f == "srt":
        return srt(rng, control)
    return {"vtt": vtt, "microdvd": microdvd, "scc": scc}[f](rng)
