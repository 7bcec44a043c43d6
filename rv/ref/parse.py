"""Independent strict parsers of the five text formats. They raise FormatError on anything a conformant
consumer would reject or mis-structure. No pycaption code is used."""
import html
import re
from html.parser import HTMLParser

from lxml import etree

from . import times


class FormatError(Exception):
    pass


class Cue:
    __slots__ = ("start_raw", "end_raw", "start", "end", "lines", "chars", "meta")

    def __init__(self, start_raw=None, end_raw=None, start=None, end=None, lines=None, chars=None, meta=None):
        self.start_raw, self.end_raw, self.start, self.end = start_raw, end_raw, start, end
        self.lines = lines if lines is not None else []
        self.chars = chars
        self.meta = meta or {}

    def __repr__(self):
        return f"Cue({self.start_raw!r}->{self.end_raw!r} {self.lines!r} {self.meta!r})"


def split_lines(text):
    return text.replace("\r\n", "\n").replace("\r", "\n").split("\n")


# ---------------------------------------------------------------- SRT
SRT_TIMING = re.compile(r"([0-9]{2,}:[0-5][0-9]:[0-5][0-9],[0-9]{3}) --> ([0-9]{2,}:[0-5][0-9]:[0-5][0-9],[0-9]{3})")


def parse_srt(text):
    lines = split_lines(text)
    cues = []
    i, n = 0, len(lines)
    while i < n:
        if lines[i].strip() == "":
            i += 1
            continue
        if not re.fullmatch(r"[0-9]+", lines[i]):
            raise FormatError(f"SRT: stray text outside a cue: {lines[i]!r}")
        if i + 1 >= n:
            raise FormatError("SRT: truncated cue")
        m = SRT_TIMING.fullmatch(lines[i + 1])
        if not m:
            raise FormatError(f"SRT: bad timing line {lines[i + 1]!r}")
        num = int(lines[i])
        i += 2
        body = []
        while i < n and lines[i].strip() != "":
            body.append(lines[i])
            i += 1
        cues.append(Cue(m.group(1), m.group(2), times.srt(m.group(1)), times.srt(m.group(2)), body,
                        meta={"num": num}))
    return cues


def parse_srt_multi(text):
    """pycaption joins languages with a separator line directly followed by cue 1."""
    parts = re.split(r"(?m)^MULTI-LANGUAGE SRT\n(?=1\n[0-9]{2,}:|\Z|MULTI-LANGUAGE SRT\n)", text)
    return [parse_srt(p) for p in parts]


# ---------------------------------------------------------------- WebVTT
VTT_TS = r"(?:[0-9]{2,}:)?[0-5][0-9]:[0-5][0-9]\.[0-9]{3}"
VTT_TIMING = re.compile(rf"({VTT_TS})[ \t]+-->[ \t]+({VTT_TS})(?:[ \t]+(.*?))?[ \t]*")
VTT_TAGS = {"i", "b", "u", "c", "v", "ruby", "rt", "lang"}


def vtt_cue_text(lines, strict=True):
    """-> (list of lines, list of lists of (char, frozenset(flags)), max_depth)"""
    text = "\n".join(lines)
    out, chars = [""], [[]]
    stack, depth = [], 0
    pos = 0

    def emit(s):
        fl = frozenset(x for x in stack if x in ("i", "b", "u"))
        for ch in s:
            if ch == "\n":
                out.append("")
                chars.append([])
            else:
                out[-1] += ch
                chars[-1].append((ch, fl))
    while pos < len(text):
        if text[pos] == "<":
            end = text.find(">", pos)
            if end < 0:
                raise FormatError(f"WebVTT: unescaped '<' in cue text {text!r}")
            body = text[pos + 1:end]
            pos = end + 1
            if re.fullmatch(VTT_TS, body):
                continue
            m = re.fullmatch(r"(/?)([a-z]+)((?:\.[^\s.>]+)*)(?:[ \t\n]+(.*))?", body, re.S)
            if not m or m.group(2) not in VTT_TAGS:
                raise FormatError(f"WebVTT: unknown tag <{body}> in cue text {text!r}")
            if m.group(1):
                if not stack or stack[-1] != m.group(2):
                    raise FormatError(f"WebVTT: unbalanced </{m.group(2)}> (open: {stack}) in {text!r}")
                stack.pop()
            else:
                stack.append(m.group(2))
                depth = max(depth, len(stack))
        else:
            end = text.find("<", pos)
            if end < 0:
                end = len(text)
            emit(html.unescape(text[pos:end]))
            pos = end
    if stack:
        raise FormatError(f"WebVTT: unclosed tags {stack} in {text!r}")
    return out, chars, depth


def parse_vtt(text, decode=True):
    lines = split_lines(text)
    if not lines or not re.fullmatch("\ufeff?WEBVTT(?:[ \t].*)?", lines[0]):
        raise FormatError(f"WebVTT: bad signature {lines[:1]!r}")
    i, n = 1, len(lines)
    while i < n and lines[i] != "":
        if "-->" in lines[i]:
            raise FormatError("WebVTT: cue in header")
        i += 1
    cues = []
    while i < n:
        if lines[i] == "":
            i += 1
            continue
        block = []
        while i < n and lines[i] != "":
            block.append(lines[i])
            i += 1
        if "-->" in block[0]:
            ident, rest = None, block
        elif len(block) > 1 and "-->" in block[1]:
            ident, rest = block[0], block[1:]
        elif re.match(r"(NOTE|STYLE|REGION)([ \t]|$)", block[0]):
            if any("-->" in x for x in block):
                raise FormatError(f"WebVTT: arrow in comment block {block!r}")
            continue
        else:
            raise FormatError(f"WebVTT: stray block {block!r}")
        m = VTT_TIMING.fullmatch(rest[0])
        if not m:
            raise FormatError(f"WebVTT: bad timing line {rest[0]!r}")
        for x in rest[1:]:
            if "-->" in x:
                raise FormatError(f"WebVTT: '-->' inside cue payload {rest!r}")
        if decode:
            ls, ch, depth = vtt_cue_text(rest[1:])
        else:
            ls, ch, depth = rest[1:], None, 0
        cues.append(Cue(m.group(1), m.group(2), times.vtt(m.group(1)), times.vtt(m.group(2)), ls, ch,
                        {"settings": m.group(3) or "", "id": ident, "raw": rest[1:]}))
    return cues


# ---------------------------------------------------------------- TTML
TT = "http://www.w3.org/ns/ttml"
TTS = "http://www.w3.org/ns/ttml#styling"
XML = "http://www.w3.org/XML/1998/namespace"


def q(ns, name):
    return "{%s}%s" % (ns, name)


class Ttml:
    def __init__(self, text, strict_refs=False):
        parser = etree.XMLParser(resolve_entities=False, no_network=True, recover=False, huge_tree=True)
        data = text.lstrip("\n") if isinstance(text, str) else text
        try:
            self.root = etree.fromstring(data.encode("utf-8"), parser)
        except etree.XMLSyntaxError as e:
            raise FormatError(f"TTML: not well-formed XML: {e}")
        if self.root.tag != q(TT, "tt"):
            raise FormatError(f"TTML: root is {self.root.tag}")
        self.styles = {}
        self.regions = {}
        head = self.root.find(q(TT, "head"))
        if head is not None:
            for st in head.iter(q(TT, "style")):
                i = st.get(q(XML, "id"))
                if i is not None and st.getparent().tag == q(TT, "styling"):
                    self.styles.setdefault(i, []).append(st)
            for rg in head.iter(q(TT, "region")):
                self.regions.setdefault(rg.get(q(XML, "id")), []).append(rg)
        self.body = self.root.find(q(TT, "body"))
        if self.body is None:
            raise FormatError("TTML: no body")

    # computed style attributes -----------------------------------------
    def style_chain(self, ids, seen=()):
        """attributes contributed by style references (later references win)."""
        out = {}
        for i in (ids or "").split():
            if i in seen or i not in self.styles:
                continue
            st = self.styles[i][0]
            out.update(self.style_chain(st.get("style"), seen + (i,)))
            out.update({k[len(TTS) + 2:]: v for k, v in st.attrib.items() if k.startswith("{" + TTS + "}")})
        return out

    def specified(self, el):
        out = self.style_chain(el.get("style"))
        out.update({k[len(TTS) + 2:]: v for k, v in el.attrib.items() if k.startswith("{" + TTS + "}")})
        return out

    def flags(self, el):
        """italic/bold/underline flags in force on `el` (properties inherit)."""
        chain = []
        e = el
        while e is not None and isinstance(e.tag, str):
            chain.append(e)
            e = e.getparent()
        cur = {"fontStyle": "normal", "fontWeight": "normal", "textDecoration": "none"}
        for e in reversed(chain):
            sp = self.specified(e)
            for k in cur:
                if k in sp:
                    cur[k] = sp[k]
        f = set()
        if cur["fontStyle"] in ("italic", "oblique"):
            f.add("i")
        if cur["fontWeight"] == "bold":
            f.add("b")
        if "underline" in cur["textDecoration"].split():
            f.add("u")
        return frozenset(f)

    def divs(self):
        return [d for d in self.body.iter(q(TT, "div"))]

    def div_lang(self, d):
        return d.get(q(XML, "lang"))

    def ps(self, d):
        return [p for p in d.iter(q(TT, "p"))]

    def p_cue(self, p):
        out, chars, regions = [""], [[]], [[]]

        def emit(s, el):
            fl, rg = self.flags(el), self.region_of(el)
            for ch in s:
                if ch in "\r\n":
                    ch = " "
                out[-1] += ch
                chars[-1].append((ch, fl))
                regions[-1].append(rg)

        def walk(el):
            if el.text:
                emit(el.text, el)
            for ch in el:
                if ch.tag == q(TT, "br"):
                    out.append("")
                    chars.append([])
                    regions.append([])
                elif isinstance(ch.tag, str):
                    if ch.tag not in (q(TT, "span"),):
                        raise FormatError(f"TTML: unexpected <{ch.tag}> in p")
                    walk(ch)
                if ch.tail:
                    emit(ch.tail, el)
        walk(p)
        b, e = p.get("begin"), p.get("end")
        if b is None or e is None:
            raise FormatError("TTML: p without begin/end")
        try:
            bs, es = times.ttml(b), times.ttml(e)
        except ValueError as x:
            raise FormatError(f"TTML: {x}")
        return Cue(b, e, bs, es, out, chars, {"regions": regions, "p": p})

    def region_of(self, el):
        e = el
        while e is not None and isinstance(e.tag, str):
            if e.get("region") is not None:
                return e.get("region")
            e = e.getparent()
        return None


# ---------------------------------------------------------------- SAMI
class _SamiHTML(HTMLParser):
    VOID = {"br"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.syncs = []
        self.css = ""
        self.stack = []
        self.in_style = False
        self.problems = []
        self.p = None
        self.body = 0
        self.attrs_seen = []

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == "style":
            self.in_style = True
            return
        if tag == "br":
            if self.p is not None:
                self.p["lines"].append("")
                self.p["chars"].append([])
            else:
                self.problems.append("br outside p")
            return
        self.stack.append((tag, d))
        if tag == "sync":
            if any(t == "sync" for t, _ in self.stack[:-1]):
                self.problems.append("nested sync")
            self.syncs.append({"start": d.get("start"), "p": []})
        elif tag == "p":
            if not self.syncs or self.stack[-2:-1] and self.stack[-2][0] != "sync":
                self.problems.append("p outside sync")
            self.p = {"class": d.get("class"), "lang": d.get("lang"), "attrs": d, "lines": [""], "chars": [[]]}
            if self.syncs:
                self.syncs[-1]["p"].append(self.p)
        elif tag in ("span", "i", "b", "u", "sami", "head", "body", "div", "font"):
            pass
        else:
            self.problems.append(f"unknown tag <{tag}>")

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in self.VOID and tag != "style":
            self.handle_endtag(tag)
        if tag == "style":
            self.in_style = False

    def handle_endtag(self, tag):
        if tag == "style":
            self.in_style = False
            return
        if tag == "br":
            return
        if not self.stack or self.stack[-1][0] != tag:
            self.problems.append(f"unbalanced </{tag}> (open {[t for t, _ in self.stack]})")
            while self.stack and self.stack[-1][0] != tag:
                self.stack.pop()
        if self.stack:
            self.stack.pop()
        if tag == "p":
            self.p = None

    def handle_data(self, data):
        if self.in_style:
            self.css += data
            return
        if self.p is None:
            if data.strip():
                self.problems.append(f"text outside p: {data!r}")
            return
        fl = [(t, d) for t, d in self.stack]
        for ch in data:
            if ch in "\r\n":
                ch = " "
            self.p["lines"][-1] += ch
            self.p["chars"][-1].append((ch, fl))

    def handle_comment(self, data):
        if self.in_style:
            self.css += "<!--" + data + "-->"
        elif self.p is not None:
            self.problems.append("comment inside p")


def css_rules(css):
    css = css.replace("<!--", "").replace("-->", "")
    css = re.sub(r"/\*.*?\*/", "", css, flags=re.S)
    out = []
    for m in re.finditer(r"([^{}]+)\{([^{}]*)\}", css):
        decl = {}
        for d in m.group(2).split(";"):
            if ":" in d:
                k, v = d.split(":", 1)
                decl[k.strip().lower()] = v.strip()
        out.append((m.group(1).strip(), decl))
    return out


class Sami:
    def __init__(self, text):
        h = _SamiHTML()
        h.feed(text)
        h.close()
        if h.stack:
            h.problems.append(f"unclosed {[t for t, _ in h.stack]}")
        if h.problems:
            raise FormatError("SAMI: " + "; ".join(h.problems[:4]))
        self.syncs = h.syncs
        self.rules = css_rules(h.css)
        self.by_sel = {}
        for sel, d in self.rules:
            self.by_sel.setdefault(sel.lower(), {}).update(d)
        for s in self.syncs:
            if s["start"] is None or not re.fullmatch(r"[0-9]+", s["start"]):
                raise FormatError(f"SAMI: sync start {s['start']!r} is not an integer")
            s["t"] = int(s["start"])

    def lang_of(self, p):
        c = p["class"]
        if c is not None:
            d = self.by_sel.get("." + c.lower())
            if d and "lang" in d:
                return d["lang"]
        return p["lang"]

    def flags(self, stack):
        cur = {"font-style": "normal", "font-weight": "normal", "text-decoration": "none"}
        for tag, d in stack:
            decl = {}
            decl.update(self.by_sel.get(tag, {}))
            for c in (d.get("class") or "").split():
                decl.update(self.by_sel.get("." + c.lower(), {}))
            if d.get("id"):
                decl.update(self.by_sel.get("#" + d["id"].lower(), {}))
            for x in (d.get("style") or "").split(";"):
                if ":" in x:
                    k, v = x.split(":", 1)
                    decl[k.strip().lower()] = v.strip()
            for k in cur:
                if k in decl:
                    cur[k] = decl[k]
            if tag == "i":
                cur["font-style"] = "italic"
            if tag == "b":
                cur["font-weight"] = "bold"
            if tag == "u":
                cur["text-decoration"] = "underline"
        f = set()
        if cur["font-style"] in ("italic", "oblique"):
            f.add("i")
        if cur["font-weight"] == "bold":
            f.add("b")
        if "underline" in cur["text-decoration"].split():
            f.add("u")
        return frozenset(f)

    def char_flags(self, p):
        cache = {}
        res = []
        for line in p["chars"]:
            row = []
            for ch, st in line:
                k = repr(st)
                if k not in cache:
                    cache[k] = self.flags(st)
                row.append((ch, cache[k]))
            res.append(row)
        return res


def is_blank_lines(lines):
    return not any(x.strip(" \t\r\n\u00a0") for x in lines)


# ---------------------------------------------------------------- MicroDVD
def parse_microdvd(text, fps="25"):
    """The first {0}{0} line declares the frame rate; the writer emits one only when a cue lies in frame 0."""
    cues, header = [], False
    for line in split_lines(text):
        if line == "":
            continue
        if not header and not cues and re.fullmatch(r"\{0\}\{0\}[0-9]+(\.[0-9]+)?", line) \
                and "\n{0}{0}" in text:
            header, fps = True, line[6:]
            continue
        m = re.match(r"\{([0-9]+)\}\{([0-9]+)\}", line)
        if not m:
            raise FormatError(f"MicroDVD: bad line {line!r}")
        cues.append(Cue(m.group(1), m.group(2), times.microdvd(int(m.group(1)), fps),
                        times.microdvd(int(m.group(2)), fps), line[m.end():].split("|")))
    return cues
