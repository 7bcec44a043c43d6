"""C04 read text equals authored text: documents rendered from an abstract cue (what a viewer shows) into many
spellings of each format; the text returned by the reader is compared with the abstract one."""
import html
import re
from html.entities import html5, name2codepoint

from .. import core
from ..gen import text as gt
from ..model import lines_of_caption

core.setup_path()
from pycaption import DFXPReader, MicroDVDReader, SAMIReader, SRTReader, WebVTTReader  # noqa: E402

ID = "C04"
PLAN = {"quick": 40000, "thorough": 400000}
RULE = ("documents rendered from cues made of text pieces (each character spelled raw, as a named, decimal or hex reference), "
        "line-break markup, inline tags, comments, CDATA and source-line wrapping; non-trivial = every cue shows at least one "
        "visible character; systematic part: every reference spelling x every neighbour, every tag x every position")
ASSUMPTIONS = [
    "SRT and MicroDVD have no escapes and no tags in their grammars: their lines are literal text",
    "SAMI named references are the HTML 4 ones and apos (unknown ones are pinned by the test suite to lose their ';')",
    "pinned by the test suite: a source line end is dropped before closing punctuation and between texts of different regions",
    "comparison per line after trimming and collapsing Unicode whitespace; blank lines are dropped on both sides",
    "TTML elements use the default namespace; xml:space is default; no metadata elements inside p",
]
FLOORS = {"cues_compared": 20000, "fmt:srt": 500, "fmt:vtt": 500, "fmt:dfxp": 500, "fmt:sami": 500, "fmt:microdvd": 500,
          "feat:ref": 1000, "feat:tag": 1000, "feat:wrap": 300, "feat:double": 500}

NAMED = {"&": "amp", "<": "lt", ">": "gt", '"': "quot", "'": "apos", "\u00a0": "nbsp", "\u00e9": "eacute", "\u00a9": "copy",
         "\u2026": "hellip", "\u2014": "mdash", "\u200e": "lrm", "\u200f": "rlm", "\u20ac": "euro", "\u00fc": "uuml"}
XML_NAMED = {"&", "<", ">", '"', "'"}
VTT_OPEN = ["i", "b", "u", "c", "ruby", "rt", "c.red", "c.yellow.bg_blue", "i.foo", "b.first-class", "lang en", "lang en-GB",
            "u.x.y", "c.\u00e9t\u00e9", "i\t", "c.red\tnote", "lang\ten", "rt note"]
VTT_UNKNOWN = ["<foo>", "</foo>", "<center>", "</center>", "<color red>", "<bold>", "<italic>", "<under>", "<img src=x>", "<vx Bob>",
               "<b2>", "</b2>", "<rtx>", "<rubyx>", "<langx>", "<voice Bob>", "<x.y>", "<font color=red>", "<1>", "<cc.red>",
               "<I>", "<br>", "<br/>"]
VTT_STAMP = ["<00:00:01.500>", "<00:01.000>", "<100:00:00.000>"]
VTT_VOICE = [("v Bob", "Bob"), ("v Roger Bingham", "Roger Bingham"), ("v.loud Mary", "Mary"), ("v.first.loud Esme O'Neil", "Esme O'Neil"),
             ("v.first-class Bob", "Bob"), ("v Tom &amp; Jerry", "Tom & Jerry"), ("v \u00c9mile", "\u00c9mile"), ("v a.b", "a.b"),
             ("v\tBob", "Bob"), ("v.loud \t Mary Ann", "Mary Ann")]
DFXP_OPEN = ['span', 'span tts:fontStyle="italic"', 'span tts:color="red"', 'span style="s1"', 'span tts:fontWeight="bold" tts:color="#ff0000"',
             "span tts:textDecoration='underline'", 'span region="r1"', 'span xml:lang="fr"', 'span tts:fontFamily="A &amp; B"']
SAMI_OPEN = ["i", "b", "u", "I", "B", 'span style="font-style:italic"', "span", 'font color="red"', "FONT COLOR=#ff0000",
             'span class="ENCC"', "SPAN Style='color:red;'", "em", 'span title="a &amp; b"', "span title='say \"hi\"'", 'font face="A&gt;B"']
BR = {"dfxp": ["<br/>", "<br />", "<br></br>", "<br/>\n  ", "\n  <br/>\n  ", "<br\n/>", '<br xml:id="b"/>',
               '<br tts:color="red" />'],
      "sami": ["<br>", "<BR>", "<br/>", "<br />", "<BR>\n ", "\n<br>\n  ", "<Br/>", '<br clear="all">', "<BR Clear=left>", '<br class="x"/>']}
CDATA = ["a < b & c", "<i>x</i>", "&amp;", "plain", "a]] >b", "it&apos;s", "&apos;", "&lt;&gt;&#39;&quot;", "<br/>x", "<!-- x -->"]
# named references of HTML 4 (SAMI) and HTML 5 (WebVTT); numeric ones which HTML maps to Windows-1252
ENTS = {"sami": [[k, chr(v)] for k, v in sorted(name2codepoint.items())],
        "vtt": [[k[:-1], v] for k, v in sorted(html5.items()) if k.endswith(";") and not any(c.isspace() or ord(c) < 32 for c in v)]}
for _l in ENTS.values():
    _l += [[f, bytes([n]).decode("cp1252")] for n in range(128, 160) if n not in (129, 141, 143, 144, 157)
           for f in (f"#{n}", f"#x{n:x}", f"#X{n:X}", f"#0{n}")]
COMMENT = ["<!-- note -->", "<!---->", "<!-- a & b < c -->", "<!-- <i>x</i> -->"]


def spell(ch, how, fmt):
    """one character in a chosen spelling (mandatory escapes kept)"""
    if fmt in ("srt", "microdvd"):
        return ch
    if how == "named" and ch in NAMED and (fmt != "dfxp" or ch in XML_NAMED):
        return f"&{NAMED[ch]};"
    if how in ("dec", "named"):
        return f"&#{ord(ch)};"
    if how == "hex":
        return f"&#x{ord(ch):x};"
    if how == "HEX":
        return f"&#{'x' if fmt == 'dfxp' else 'X'}{ord(ch):X};"
    if how == "pad":
        return f"&#0{ord(ch)};"
    return {"&": "&amp;", "<": "&lt;"}.get(ch, ch)


META = ["<metadata><ttm:desc>M1</ttm:desc></metadata>", "<ttm:desc>M2 &amp; x</ttm:desc>", "<metadata ttm:role='dialog'/>",
        "<metadata>\n  <ttm:title>M3</ttm:title>\n</metadata>"]
WRAPS = ["\n\t", "\n\t\t", " \n  ", "\t\n", "\t", "\n\n", " \t ", "\n \n\t"]


def piece(fmt, p):
    """-> (source, shown)"""
    k = p[0]
    if k == "t":
        return "".join(spell(c, p[2], fmt) for c in p[1]), p[1]
    if k == "m":       # mixed: per character spelling
        return "".join(spell(c, p[2][i % len(p[2])], fmt) for i, c in enumerate(p[1])), p[1]
    if k == "ent":     # any named reference
        return f"&{p[1]};", p[2]
    if k == "raw":     # spelled and shown as such
        return p[1], p[1]
    if k == "wrap":
        return p[1] if isinstance(p[1], str) else "\n" + " " * p[1], " "
    if k == "cm":
        return p[1], ""
    if k == "md":
        return p[1], ""
    if k == "cd":
        return f"<![CDATA[{p[1]}]]>", p[1]
    if k == "tag":
        return f"<{p[1]}>", ""
    if k == "end":
        return f"</{p[1]}>", ""
    if k == "st":
        return p[1], ""
    if k == "voice":
        return f"<{p[1]}>", p[2] + ": "
    if k == "selfclose":
        return f"<{p[1]}/>", ""
    raise ValueError(p)


def render_cue(fmt, cue):
    """-> (source text of the cue, shown lines)"""
    src, shown = [], []
    for ln in cue["l"]:
        s, t = "", ""
        for p in ln:
            a, b = piece(fmt, p)
            s += a
            t += b
        src.append(s)
        shown.append(t)
    if fmt in ("srt", "vtt"):
        return "\n".join(src), shown
    if fmt == "microdvd":
        return "|".join(src), shown
    out = src[0]
    for i, s in enumerate(src[1:]):
        out += BR[fmt][cue.get("br", 0) % len(BR[fmt])] + s
    pad = cue.get("pad") or ["", ""]
    return pad[0] + out + pad[1], shown


def wrapped(cue):
    return any(p[0] == "wrap" for ln in cue["l"] for p in ln)


def norm(lines, wrap=False):
    r = [" ".join(x.split()) for x in lines]
    if wrap:   # the test suite pins that a source line end before closing punctuation is dropped
        r = [re.sub(r" (?=[,.;:!?])", "", x) for x in r]
    return [x for x in r if x]


def document(case):
    fmt, nl = case["fmt"], case.get("nl", "\n")
    cues = [render_cue(fmt, c) for c in case["cues"]]
    if fmt == "srt":
        doc = "".join(f"{i + 1}\n00:{i // 60:02d}:{i % 60:02d},000 --> 00:{i // 60:02d}:{i % 60:02d},900\n{s}\n\n" for i, (s, _) in enumerate(cues))
    elif fmt == "vtt":
        doc = case.get("head", "WEBVTT") + "\n\n" + "".join(
            (case["ids"][i % len(case["ids"])] + "\n" if case.get("ids") else "")
            + f"{i // 60:02d}:{i % 60:02d}.000 --> {i // 60:02d}:{i % 60:02d}.900{case.get('set', '')}\n{s}\n\n" for i, (s, _) in enumerate(cues))
    elif fmt == "microdvd":
        doc = "".join(f"{{{25 * i + 1}}}{{{25 * i + 20}}}{s}\n" for i, (s, _) in enumerate(cues))
    elif fmt == "dfxp":
        ind = case.get("indent", "\n   ")
        doc = ('<?xml version="1.0" encoding="utf-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" '
               'xmlns:tts="http://www.w3.org/ns/ttml#styling" xmlns:ttm="http://www.w3.org/ns/ttml#metadata" xml:lang="en">\n<head><styling><style xml:id="s1" tts:color="red"/></styling>'
               '<layout><region xml:id="r1" tts:origin="10% 10%"/></layout></head>\n<body><div>')
        for i, (s, _) in enumerate(cues):
            doc += f'{ind}<p begin="{i}s" end="{i}.9s">{s}</p>'
        doc += f"{ind}</div></body></tt>"
    else:
        doc = ('<SAMI><HEAD><TITLE>a &amp; b</TITLE><STYLE TYPE="text/css"><!--\nP {font-family: Arial;}\n'
               '.ENCC {Name: English; lang: en-US; SAMIType: CC;}\n--></STYLE></HEAD><BODY>')
        close = case.get("close", True)
        for i, (s, _) in enumerate(cues):
            doc += f"\n<SYNC Start={i * 1000}>{case.get('sep', '')}<P Class=ENCC{';' if case.get('awk') else ''}>{s}"
            doc += "</P></SYNC>" if close else ""
        doc += "\n</BODY></SAMI>"
    if nl != "\n":
        doc = doc.replace("\n", nl)
    if case.get("bom"):
        doc = "\ufeff" + doc
    return doc, [norm(t, wrapped(c)) for (_, t), c in zip(cues, case["cues"])]


READERS = {"srt": SRTReader, "vtt": WebVTTReader, "dfxp": DFXPReader, "sami": SAMIReader, "microdvd": MicroDVDReader}


def run(case, m):
    fmt = case["fmt"]
    m.hit("fmt:" + fmt)
    doc, want = document(case)
    if not want or not all(want):
        m.nontrivial = False
        return
    for c in case["cues"]:
        for ln in c["l"]:
            for p in ln:
                if p[0] in ("t", "m") and p[2] != "raw":
                    m.hit("feat:ref")
                if p[0] in ("tag", "voice", "st"):
                    m.hit("feat:tag")
                if p[0] == "wrap":
                    m.hit("feat:wrap")
                if p[0] in ("t", "m") and re.search(r"&#?\w+;", p[1]):
                    m.hit("feat:double")
                m.state("piece", fmt, p[0], p[2] if p[0] == "t" else p[1] if p[0] != "m" else "")
    cs = m.must("read:" + fmt, READERS[fmt]().read, doc)
    langs = cs.get_languages()
    m.check(len(langs) == 1, f"{fmt}:languages", lambda: f"{langs}")
    caps = cs.get_captions(langs[0])
    wr = [wrapped(c) for c in case["cues"]]
    got = [norm(lines_of_caption(c), wr[i] if i < len(wr) else False) for i, c in enumerate(caps)]
    m.check(len(got) == len(want), f"{fmt}:cue-count", lambda: f"{len(got)} captions for {len(want)} cues: {got} / {want}")
    for i, (g, w) in enumerate(zip(got, want)):
        m.hit("cues_compared")
        m.check(g == w, f"{fmt}:text", lambda: f"cue {i}: read {g} shown {w}")
        m.check(norm(caps[i].get_text().split("\n"), wr[i]) == w, f"{fmt}:get_text", lambda: f"cue {i}: {caps[i].get_text()!r} shown {w}")


# ------------------------------------------------------------ workload
CH = ["&", "<", ">", '"', "'", "\u00a0", "\u00e9", "\u00a9", "\u2026", "\u2014", "\u200e", "\u20ac", "a", "Z", "7", ";", "#", "\u4e2d", "\U0001F600"]
HOWS = ["raw", "named", "dec", "hex", "HEX", "pad"]
ENTLIKE = ["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&#60;", "&#x3c;", "&#38;", "&amp;lt;", "&amp;amp;", "&eacute;", "&copy;",
           "<i>", "</i>", "<b>x</b>", "<br/>", "<v Bob>", "<c>", "</p>", "<!-- x -->", "<00:01.000>", "&", "&&", "& ", "<", "< ", ">", "a<b",
           "a&b", ";>", ";", "-->", "{y:i}", "'", '"', "<i/>", "<span>", "]]>", "&lrm;", "%", "\\N"]
ODDWS = ["\u2028", "\u2029", "\u3000", "\u2003"]
ODDWS_TXT = ODDWS + ["\x85", "\x0b", "\x0c", "\x1c", "\x1e"]   # only in formats without references: HTML remaps &#x85;


def _txt(rng, fmt):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.4:
            parts.append(rng.choice(ENTLIKE))
        elif r < 0.5:
            parts.append(rng.choice(CH))
        elif r < 0.55:
            parts.append(gt._printable_char(rng))
        else:
            parts.append(gt.plain(rng, 3))
        if rng.random() < 0.4:
            parts.append(" ")
    if rng.random() < 0.04:
        parts.insert(rng.randint(0, len(parts)), rng.choice(ODDWS_TXT if fmt in ("srt", "microdvd") else ODDWS))
    return "".join(parts)


def _safe(fmt, s):
    """keep literal text inside the grammar of the formats that cannot escape"""
    if fmt == "srt":
        s = s.replace("-->", "->")
    if fmt == "microdvd":
        s = s.replace("|", "/")
    return s


def _piece_text(rng, fmt):
    s = _txt(rng, fmt)
    if fmt in ("srt", "microdvd"):
        return ["t", _safe(fmt, s), "raw"]
    if fmt == "vtt":
        s2 = s.replace("-->", "--") if rng.random() < 0.5 else s
        if "-->" in s2:
            return ["t", s2, rng.choice(["named", "dec", "hex"])]
        s = s2
    if fmt == "dfxp" and "]]>" in s:
        return ["t", s, "named"]
    r = rng.random()
    if r < 0.5:
        return ["t", s, "raw"]
    if r < 0.7:
        return ["t", s, rng.choice(HOWS)]
    hows = [rng.choice(HOWS) for _ in range(5)]
    if "-->" in s or "]]>" in s:
        hows = ["named"]
    return ["m", s, hows]


def _line(rng, fmt, depth=0):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3]) if depth else rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if fmt in ("srt", "microdvd") or r < 0.55 or depth > 2:
            out.append(_piece_text(rng, fmt))
        elif r < 0.8:
            tag = rng.choice({"vtt": VTT_OPEN, "dfxp": DFXP_OPEN, "sami": SAMI_OPEN}[fmt])
            if fmt == "vtt" and rng.random() < 0.15:
                v = rng.choice(VTT_VOICE)
                out.append(["voice", v[0], v[1]])
                out += _line(rng, fmt, depth + 1)
                if rng.random() < 0.6:
                    out.append(["end", "v"])
                continue
            out.append(["tag", tag])
            out += _line(rng, fmt, depth + 1)
            out.append(["end", re.match(r"[A-Za-z]+", tag).group(0)])
        elif r < 0.9:
            if fmt == "vtt":
                out.append(["st", rng.choice(VTT_STAMP)] if rng.random() < 0.5 else ["raw", rng.choice(VTT_UNKNOWN)])
                if rng.random() < 0.3:
                    out.append(["ent", *rng.choice(ENTS[fmt])])
            elif fmt == "dfxp":
                r2 = rng.random()
                if r2 < 0.4:
                    out.append(["cm", rng.choice(COMMENT)])
                elif r2 < 0.5:
                    out.append(["md", rng.choice(META)])
                elif r2 < 0.6:
                    out.append(["selfclose", "span"])
                else:
                    out.append(["cd", rng.choice(CDATA)])
                    if rng.random() < 0.3:
                        out += [["t", rng.choice(["'", "it's", "<>&'"]), rng.choice(["named", "dec", "hex"])], ["cd", rng.choice(CDATA)]]
            else:
                if rng.random() < 0.3:
                    out.append(["ent", *rng.choice(ENTS[fmt])])
                out.append(["cm", rng.choice(COMMENT)] if rng.random() < 0.6 else ["raw", rng.choice([" & ", "a & b", " < ", "AT & T", "1 < 2", "a;>b", ";> "])])
        elif fmt in ("dfxp", "sami"):
            out.append(["wrap", rng.choice([0, 1, 4, 8, *WRAPS])])
            out.append(_piece_text(rng, fmt))
        else:
            out.append(_piece_text(rng, fmt))
    return out


def visible(fmt, ln):
    return bool(norm([render_cue(fmt, {"l": [ln]})[1][0]]))


def _gen_line(rng, fmt):
    while True:
        ln = _line(rng, fmt)
        src, shown = render_cue(fmt, {"l": [ln]})
        if any(p[0] == "wrap" for p in ln) and any(p[0] == "tag" and "region" in p[1] for p in ln):
            continue    # pinned: texts of different regions are different displayed lines
        if visible(fmt, ln) and src.strip() and not (fmt == "vtt" and "-->" in src):
            return ln


def random_case(rng, tier):
    fmt = rng.choice(["dfxp", "dfxp", "sami", "sami", "vtt", "vtt", "srt", "microdvd"])
    cues = []
    for _ in range(gt.count(rng, [1, 1, 2, 3, 5], 100, 0.002)):
        c = {"l": [_gen_line(rng, fmt) for _ in range(gt.count(rng, [1, 1, 2, 3], 30))]}
        if fmt in BR:
            c["br"] = rng.randrange(8)
            if rng.random() < 0.3:
                c["pad"] = [rng.choice(["", "\n   ", "\n", " ", "\n\n ", "\n\t\t"]), rng.choice(["", "\n   ", "\n", " ", "\n\t", "\t"])]
        cues.append(c)
    case = {"fmt": fmt, "cues": cues, "nl": rng.choice(["\n", "\n", "\n", "\r\n", "\r"] if fmt in ("srt", "vtt", "microdvd") else ["\n", "\n", "\r\n"])}
    if fmt == "vtt":
        case["head"] = rng.choice(["WEBVTT", "WEBVTT - a title", "WEBVTT\n\nNOTE hello\nthere", "WEBVTT\n\nSTYLE\n::cue { color: red }"])
        case["ids"] = rng.choice([None, None, ["1", "2"], ["intro & more", "x <i>"]])
        case["set"] = rng.choice(["", "", " align:start line:10%"])
        case["bom"] = rng.random() < 0.1
    if fmt == "dfxp":
        case["indent"] = rng.choice(["\n   ", "", "\n", "\n\t"])
    if fmt == "sami":
        case["close"] = rng.random() < 0.6
        case["sep"] = rng.choice(["", "\n", " "])
        case["awk"] = rng.random() < 0.1
    return case


def systematic(tier):
    # every character in every spelling, next to every entity-looking neighbour
    for fmt in ("dfxp", "sami", "vtt"):
        pool = []
        for ch in CH:
            for how in HOWS:
                pool.append(["t", ch, how])
        nb = ["amp;", "lt;", "#60;", "x", " ", ";", "&", "<", "quot;"]
        cues = []
        for p in pool:
            for n in nb if tier == "thorough" else nb[:6]:
                cues.append({"l": [[["t", "k", "raw"], p, ["t", n, "raw"], ["t", "k", "raw"]]]})
        for e in ENTLIKE:
            for how in HOWS:
                if how == "raw" and (fmt == "vtt" and "-->" in e or fmt == "dfxp" and "]]>" in e):
                    continue
                cues.append({"l": [[["t", "k" + e + "k", how]]]})
                cues.append({"l": [[["t", e, how], ["t", "k", "raw"]], [["t", "k", "raw"], ["t", e, how]]]})
        for i in range(0, len(cues), 40):
            yield {"fmt": fmt, "cues": cues[i:i + 40]}
    # every printable character
    lines = gt.all_printable(30)
    for fmt, how in [(x, y) for x in ("dfxp", "sami", "vtt") for y in HOWS] + [("srt", "raw"), ("microdvd", "raw")]:
        ls = [ln.replace("|", "") if fmt == "microdvd" else ln for ln in (lines if tier == "thorough" or how in ("raw", "dec") else lines[::7])]
        cues = [{"l": [[["t", a, how]], [["t", b, how]]]} for a, b in zip(ls[::2], ls[1::2] + ["k"])]
        for i in range(0, len(cues), 40):
            yield {"fmt": fmt, "cues": cues[i:i + 40]}
    # every named reference
    for fmt, ents in ENTS.items():
        step = 1 if tier == "thorough" or fmt == "sami" else 5
        cues = [{"l": [[["t", "k", "raw"], ["ent", *e], ["t", "k", "raw"]], [["ent", *e], ["t", "amp; k", "raw"]]]} for e in ents[::step] + ents[-108:]]
        for i in range(0, len(cues), 40):
            yield {"fmt": fmt, "cues": cues[i:i + 40]}
    cues = [{"l": [[["t", "k", "raw"], ["cd", c], ["t", "k", "raw"]], [["cd", c]]]} for c in CDATA]
    yield {"fmt": "dfxp", "cues": cues}
    cues = []
    for c in CDATA:     # references between the sections of a document
        cues += [{"l": [[["cd", c], ["t", "it's", how], ["cd", c]]]} for how in ("named", "dec", "raw")]
    yield {"fmt": "dfxp", "cues": cues}
    # source lines that end after or before each punctuation character
    for fmt in ("dfxp", "sami"):
        cues = []
        for ch in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\u00a1\u00ab\u00bb\u00bf\u2014\u2019\u201c\u201d\u2026\u3002\uff0c":
            for how in ("named", "raw") if ch not in "<&" else ("named",):
                S = ["wrap", 2]
                cues += [{"l": [[["t", "a", "raw"], S, ["t", ch, how], ["t", " b", "raw"]], [["t", "c" + ch, how], S, ["t", "d", "raw"]]]},
                         {"l": [[["t", ch, how], S, ["t", ch + "b", how]], [["tag", "span"], ["t", "e", "raw"], S, ["end", "span"], ["t", ch + "f", how]]]}]
        for i in range(0, len(cues), 40):
            yield {"fmt": fmt, "cues": cues[i:i + 40]}
    # every tag at every position of a three-word line, with and without surrounding blanks / wraps
    tags = {"vtt": VTT_OPEN, "dfxp": DFXP_OPEN, "sami": SAMI_OPEN}
    for fmt, tl in tags.items():
        cues = []
        for tag in tl:
            end = ["end", re.match(r"[A-Za-z]+", tag).group(0)]
            T, W = ["tag", tag], lambda s: ["t", s, "raw"]
            cues += [{"l": [[T, W("one two"), end]]}, {"l": [[W("one"), T, W("two"), end, W("three")]]},
                     {"l": [[W("one "), T, W("two"), end, W(" three")]]}, {"l": [[W("one"), T, W(" two "), end, W("three")]]},
                     {"l": [[W("one"), T, W("two")], [W("three"), end, W(" four")]]},
                     {"l": [[T, W("one"), end], [T, W("two"), end]]}]
            if fmt != "vtt" and "region" not in tag:
                for n in (0, 3, "\n\t", " \n", "\t"):
                    S = ["wrap", n]
                    cues += [{"l": [[W("one"), S, T, W("two"), end, S, W("three")]]}, {"l": [[W("one"), T, S, W("two"), S, end, W("three")]]},
                             {"l": [[S, T, S, W("two"), S, end, S]]}, {"l": [[W("one"), T, W("two"), end, S, T, W("three"), end]]},
                             {"l": [[W("one"), S, W("two"), S, W("three")], [W("four"), S, W("five")]], "br": 3},
                             {"l": [[T, W("one"), S, W("two"), end, S], [S, W("three")]], "br": 4}]
        if fmt == "vtt":
            for u in VTT_UNKNOWN:
                cues += [{"l": [[["t", "a", "raw"], ["raw", u], ["t", "b", "raw"]]]}]
            for u in VTT_STAMP:
                cues += [{"l": [[["t", "a", "raw"], ["st", u], ["t", "b", "raw"]]]}]
            for v in VTT_VOICE:
                cues += [{"l": [[["voice", *v], ["t", "b", "raw"]]]}, {"l": [[["voice", *v], ["t", "b", "raw"], ["end", "v"], ["voice", *v], ["t", "c", "raw"]]]}]
        else:
            for c in COMMENT:
                cues += [{"l": [[["t", "a", "raw"], ["cm", c], ["t", "b", "raw"]]]}, {"l": [[["cm", c], ["t", "b", "raw"]], [["t", "b", "raw"], ["cm", c]]]}]
        for i in range(0, len(cues), 30):
            for b in range(len(BR.get(fmt, [0]))):
                yield {"fmt": fmt, "cues": [dict(c, br=c.get("br", b)) for c in cues[i:i + 30]]}
    for fmt in READERS:     # lines that are one character, or one character repeated, in every place of a cue
        cues = []
        for ch in (chr(i) for i in range(33, 127)):
            for t in (ch, ch * 2, ch * 3):
                if _safe(fmt, t) != t:
                    continue
                x, k, w = [["t", t, "raw"]], [["t", "k", "raw"]], [["t", "w" + t, "raw"]]
                cues += [{"l": q} for q in ([x], [x, k], [k, x], [k, x, k], [x, w, x])]
        for i in range(0, len(cues), 60):
            yield {"fmt": fmt, "cues": cues[i:i + 60]}
    for fmt in ("srt", "microdvd"):
        cues = [{"l": [[["t", _safe(fmt, e), "raw"]], [["t", "k", "raw"]]]} for e in ENTLIKE if _safe(fmt, e).strip()]
        cues += [{"l": [[["t", "a" + w + "b", "raw"]]]} for w in ODDWS_TXT + [w * 2 for w in ODDWS_TXT]]
        for i in range(0, len(cues), 20):
            yield {"fmt": fmt, "cues": cues[i:i + 20]}
    yield {"fmt": "vtt", "cues": [{"l": [[["t", "a" + w + "b", "raw"]]]} for w in ODDWS + [w * 2 for w in ODDWS]]}


def valid(case):
    fmt = case["fmt"]
    ok = {"srt": ("t",), "microdvd": ("t",), "vtt": ("t", "m", "raw", "tag", "end", "st", "voice", "ent"),
          "dfxp": ("t", "m", "wrap", "cm", "md", "cd", "tag", "end", "selfclose"),
          "sami": ("t", "m", "wrap", "cm", "raw", "tag", "end", "ent")}[fmt]
    for c in case["cues"]:
        stack = []
        for ln in c["l"]:
            if not visible(fmt, ln):
                return False
            if any(p[0] == "wrap" for p in ln) and any(p[0] == "tag" and "region" in p[1] for p in ln):
                return False
            for p in ln:
                if p[0] not in ok:
                    return False
                if p[0] == "ent" and [p[1], p[2]] not in ENTS[fmt] or p[0] == "cd" and p[1] not in CDATA:
                    return False
                if p[0] == "raw" and p[1] not in VTT_UNKNOWN + [" & ", "a & b", " < ", "AT & T", "1 < 2", "a;>b", ";> "]:
                    return False
                if p[0] == "tag":
                    if p[1] not in VTT_OPEN + DFXP_OPEN + SAMI_OPEN:
                        return False
                    stack.append(re.match(r"[A-Za-z]+", p[1]).group(0))
                if p[0] == "voice":
                    if [p[1], p[2]] not in [list(v) for v in VTT_VOICE]:
                        return False
                if p[0] == "wrap" and isinstance(p[1], str) and p[1] not in WRAPS:
                    return False
                if p[0] == "end" and p[1] != "v":
                    if not stack or stack.pop() != p[1]:
                        return False
                if p[0] == "st" and p[1] not in VTT_STAMP or p[0] == "cm" and p[1] not in COMMENT or p[0] == "md" and p[1] not in META:
                    return False
                if p[0] in ("t", "m"):
                    if "\n" in p[1] or p[0] == "t" and p[2] not in HOWS or p[0] == "m" and not p[2]:
                        return False
                    if p[0] == "m" and any(h not in HOWS for h in p[2]):
                        return False
        if stack:
            return False
        src, _ = render_cue(fmt, c)
        if fmt == "vtt" and "-->" in src or fmt == "dfxp" and "]]>" in src.replace("]]>", "", src.count("<![CDATA[")):
            return False
    if case.get("nl", "\n") not in ("\n", "\r\n", "\r"):
        return False
    return case.get("head", "WEBVTT").startswith("WEBVTT") and case.get("indent", "") .strip() == "" and case.get("sep", "").strip() == "" \
        and case.get("set", "") in ("", " align:start line:10%") and not any("-->" in x or not x for x in case.get("ids") or [])
