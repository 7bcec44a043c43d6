"""C01 reading preserves instants: documents rendered from exact lexical times."""
import itertools

from .. import core
from ..gen import dress, text as gt
from ..ref import times

core.setup_path()
from pycaption import (DFXPReader, MicroDVDReader, SAMIReader, SRTReader, WebVTTReader)  # noqa: E402

ID = "C01"
PLAN = {"quick": 50000, "thorough": 800000}
CAP = {"quick": 150, "thorough": 700}
RULE = ("documents rendered from cue lists whose timestamps are lexical strings in the format's grammar; "
        "non-trivial = at least one non-empty cue whose expected instants come from an exact rational reading; "
        "systematic part enumerates hours x minutes x seconds x fraction spellings per format")
ASSUMPTIONS = [
    "SRT fractions are exactly 3 digits or absent; WebVTT fractions exactly 3 digits (their grammars)",
    "TTML frame rate is the default 30 (no ttp:frameRate); end given by end or dur, not both; no timing on div/body/span",
    "begin+dur with sub-microsecond parts: floor(begin+dur) or floor(begin)+floor(dur) both accepted",
    "WebVTT time shift keeps instants non-negative", "SAMI lang= attributes are two-letter codes; CSS classes carry any code",
    "the first MicroDVD {0}{0} line is the fps declaration, later ones are cues",
]
FLOORS = {"cues_compared": 2000, "fmt:srt": 50, "fmt:vtt": 50, "fmt:dfxp": 50, "fmt:sami": 50, "fmt:microdvd": 50}

EMPTY = ""


# ------------------------------------------------------------ rendering
def _vtt_doc(case):
    o = case["opts"]
    nl = case.get("nl", "\n")
    out = [case.get("head", "WEBVTT"), ""]
    for c in case["cues"]:
        if c.get("pre"):
            out += [c["pre"], ""]
        if c.get("id"):
            out.append(c["id"])
        out.append(c["s"] + c.get("sep", " --> ") + c["e"] + c.get("set", ""))
        out += [x for x in c["t"]]
        out += [""] * c.get("gap", 1)
    if case.get("chop"):
        while out and out[-1] == "":
            out.pop()
    return nl.join(out), o


def _srt_doc(case):
    nl = case.get("nl", "\n")
    out = []
    for i, c in enumerate(case["cues"]):
        out.append(str(c.get("id") or i + 1))
        out.append(c["s"] + " --> " + c["e"])
        out += [x for x in c["t"]]
        out += [""] * max(1, c.get("gap", 1))
    if case.get("chop"):
        while out and out[-1] == "":
            out.pop()
    return nl.join(out)


# paragraphs without visible text: the form of the i-th blank one is BLANKS[...][(case["blank"] + i) % len]
BLANKS = {"sami": ["&nbsp;", "<br>", "&nbsp;<br>&nbsp;", "", " ", "<i></i>", "<br/><br/>", "<span style=\"color:red;\">&nbsp;</span>",
                   "\n&#160;\n", "<!-- x -->&nbsp;"],
          "dfxp": ["", "<br/>", " ", "<span></span>", "\n  <br/>\n", "<span tts:color=\"red\"><br/></span>", "&#160;", "<!-- x -->",
                   "<metadata/>"]}


class _Blank:
    def __init__(self, case):
        self.forms, self.i = BLANKS[case["fmt"]], case.get("blank", 0)

    def __call__(self):
        self.i += 1
        return self.forms[(self.i - 1) % len(self.forms)]


def _esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def _dfxp_doc(case):
    a = f' xml:lang="{case["lang"]}"' if case.get("lang") else ""
    out = [f'<?xml version="1.0" encoding="utf-8"?>\n<tt{a} xmlns="http://www.w3.org/ns/ttml" '
           'xmlns:tts="http://www.w3.org/ns/ttml#styling">\n<head/>\n<body>']
    blank = _Blank(case)
    for d in case["divs"]:
        dl = f' xml:lang="{d["lang"]}"' if d.get("lang") else ""
        out.append(f"<div{dl}>")
        for c in d["cues"]:
            end = f' end="{c["e"]}"' if "e" in c else f' dur="{c["d"]}"'
            attrs = f' begin="{c["s"]}"{end}'
            if c.get("swap"):
                attrs = f'{end} begin="{c["s"]}"'
            body = "<br/>".join(_esc(x) for x in c["t"]) if c["t"] else blank()
            out.append(f"<p{attrs}>{body}</p>")
        out.append("</div>")
    out.append("</body>\n</tt>")
    return "\n".join(out)


def _sami_doc(case):
    cls = {}
    css = ["P {font-family: Arial;}"]
    for i, (lang, how) in enumerate(case["langs"]):
        if how == "class":
            cls[lang] = f"L{i}CC"
            css.append(f".L{i}CC {{Name: Lang{i}; lang: {lang}; SAMIType: CC;}}")
    st = case.get("style", 0)
    out = ["<SAMI><HEAD><TITLE>t</TITLE><STYLE TYPE=\"text/css\"><!--", *css, "--></STYLE></HEAD><BODY>"]
    blank = _Blank(case)
    for y in case["syncs"]:
        t = y["t"]
        out.append([f"<SYNC Start={t}>", f'<sync start="{t}">', f"<Sync START='{t}'>"][st % 3])
        for li, lines in y["p"]:
            if li >= len(case["langs"]):
                continue
            lang, how = case["langs"][li]
            a = f"Class={cls[lang]}" if how == "class" else f'lang="{lang}"'
            body = "<br>".join(_esc(x) for x in lines) if lines else blank()
            out.append(f"<P {a}>{body}" + ("</P>" if st < 3 else ""))
        out.append("</SYNC>" if st < 3 else "")
    out.append("</BODY></SAMI>")
    return "\n".join(out)


def _microdvd_doc(case):
    nl = case.get("nl", "\n")
    out = []
    if case.get("fps"):
        out.append("{0}{0}" + case["fps"])
    for c in case["cues"]:
        out.append("{%s}{%s}%s" % (c["s"], c["e"], "|".join(c["t"])))
    return nl.join(out) + (nl if not case.get("chop") else "")


def _dressed(case, doc, m):
    if case.get("dress") is None:
        return doc
    m.hit("dressed")
    return dress.dress(doc, case["fmt"], case["dress"])


def _nonempty(t):
    return any(x.strip() for x in t)


# ------------------------------------------------------------ monitor
def run(case, m):
    f = case["fmt"]
    m.hit("fmt:" + f)
    exp = {}
    if f == "srt":
        content = _srt_doc(case)
        lang = case["opts"].get("lang") or "en-US"
        kw = {"lang": case["opts"]["lang"]} if case["opts"].get("lang") else {}
        r = SRTReader()
        exp[lang] = [((times.fl(times.srt(c["s"])),), (times.fl(times.srt(c["e"])),))
                     for c in case["cues"] if _nonempty(c["t"])]
    elif f == "vtt":
        content, o = _vtt_doc(case)
        lang = o.get("lang") or "en-US"
        kw = {"lang": o["lang"]} if o.get("lang") else {}
        ctor = {k: o[k] for k in ("time_shift_milliseconds", "ignore_timing_errors") if k in o}
        sh = o.get("time_shift_milliseconds", 0) * 1000
        r = WebVTTReader(**ctor)
        exp[lang] = [((times.fl(times.vtt(c["s"])) + sh,), (times.fl(times.vtt(c["e"])) + sh,))
                     for c in case["cues"] if _nonempty(c["t"])]
    elif f == "dfxp":
        content, kw, r = _dressed(case, _dfxp_doc(case), m), {}, DFXPReader()
        for d in case["divs"]:
            lang = d.get("lang") or case.get("lang") or "und"
            lst = exp.setdefault(lang, [])
            for c in d["cues"]:
                if not _nonempty(c["t"]):
                    continue
                s = times.ttml(c["s"])
                if "e" in c:
                    e = (times.fl(times.ttml(c["e"])),)
                else:
                    dd = times.ttml(c["d"])
                    e = (times.fl(s + dd), times.fl(s) + times.fl(dd))
                lst.append(((times.fl(s),), e))
    elif f == "sami":
        content, kw, r = _dressed(case, _sami_doc(case), m), {}, SAMIReader()
        for li, (lang, _how) in enumerate(case["langs"]):
            ev = [(int(y["t"]), _nonempty(lines)) for y in case["syncs"] for l2, lines in y["p"] if l2 == li]
            if not ev:
                continue
            lst = exp.setdefault(lang, [])
            for k, (t, full) in enumerate(ev):
                if full:
                    later = [u for u, _ in ev[k + 1:] if u != t]
                    e = later[0] if later else t + 4000
                    lst.append(((t * 1000,), (e * 1000,)))
    else:
        content, r = _microdvd_doc(case), MicroDVDReader()
        lang = case["opts"].get("lang") or "und"
        kw = {"lang": case["opts"]["lang"]} if case["opts"].get("lang") else {}
        fps = (case.get("fps") or "25").strip()
        exp[lang] = [((times.fl(times.microdvd(int(c["s"]), fps)),), (times.fl(times.microdvd(int(c["e"]), fps)),))
                     for c in case["cues"] if _nonempty(c["t"])]
    n = sum(len(v) for v in exp.values())
    if n == 0:
        m.nontrivial = False
        return
    cs = m.must(f"read:{f}", r.read, content, **kw)
    got_langs = [x for x in cs.get_languages() if cs.get_captions(x)]
    m.eq(sorted(got_langs), sorted(k for k, v in exp.items() if v), f"{f}:languages")
    for lang, want in exp.items():
        caps = list(cs.get_captions(lang))
        if f == "srt" and len(caps) > len(want):
            caps = _srt_empty_cue_finding(case, caps, m)
        got = [(c.start, c.end) for c in caps]
        m.check(len(got) == len(want), f"{f}:cue-count",
                lambda: f"lang {lang}: {len(got)} captions for {len(want)} non-empty cues")
        for k, ((gs, ge), (ws, we)) in enumerate(zip(got, want)):
            m.hit("cues_compared")
            m.check(gs in ws and ge in we, f"{f}:instant",
                    lambda: f"lang {lang} cue {k}: got ({gs},{ge}) expected {ws},{we}")
            m.check(_integral(gs) and _integral(ge), f"{f}:non-integer", lambda: f"({gs!r},{ge!r})")
            m.state("h_bucket", f, min(gs // 3600000000, 30) if gs >= 0 else -1)


def _srt_empty_cue_finding(case, caps, m):
    """KF-SRT-EMPTY: a cue without text followed by >= 2 blank lines comes back as a caption whose
    text is empty (pinned by tests/test_srt.py::test_extra_empty_line). Remove exactly those."""
    out, i = [], 0
    for c in case["cues"]:
        if i >= len(caps):
            break
        if _nonempty(c["t"]):
            out.append(caps[i])
            i += 1
        elif (c.get("gap", 1) >= 2 and caps[i].get_text().strip() == ""
              and (caps[i].start, caps[i].end) == (times.fl(times.srt(c["s"])), times.fl(times.srt(c["e"])))):
            m.known("KF-SRT-EMPTY", f"SRT cue {c} without text returned as a caption with empty text")
            i += 1
    return out + caps[i:]


def _integral(x):
    return isinstance(x, int) or float(x).is_integer()


# ------------------------------------------------------------ workload
HOURS = [0, 1, 2, 9, 10, 11, 12, 23, 24, 25, 47, 48, 99, 100, 101, 255, 999]
MS = ["000", "001", "009", "010", "011", "099", "100", "101", "123", "499", "500", "900", "990", "999"]
MIN = [0, 1, 9, 10, 29, 30, 31, 59]
FRACS = ["0", "1", "5", "9", "00", "01", "10", "25", "99", "000", "001", "010", "050", "100", "123", "500", "999",
         "0001", "0010", "1234", "5000", "9999", "00001", "12345", "99999", "000001", "123456", "999999",
         "0000001", "1234567", "9999999", "00000001", "12345678", "123456789", "999999999", "000000000001",
         "333333333333", "999999999999"]
FPS = ["25", "25.0", "23.976", "24", "24.0", "29.97", "30", "30.000", "50", "59.94", "60", "23.98", "12.5", "15", "120", "1"]


def _chunks(lst, n):
    for i in range(0, len(lst), n):
        yield lst[i:i + n]


def large(tier):
    """long documents: many cues, many divs, many syncs"""
    n = 1100 if tier == "quick" else 11000

    def st(i, c):
        s, ms = divmod(i * 1777, 1000)
        return f"{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}{c}{ms:03d}"
    for fmt, c in (("srt", ","), ("vtt", ".")):
        yield {"fmt": fmt, "opts": {}, "cues": [{"s": st(i, c), "e": st(i + 1, c), "t": [f"w{i}"]} for i in range(n)]}
    yield {"fmt": "microdvd", "opts": {}, "fps": "23.976", "cues": [{"s": str(40 * i + 1), "e": str(40 * i + 31), "t": [f"w{i}"]} for i in range(n)]}
    yield {"fmt": "dfxp", "lang": "en", "divs": [{"lang": ["en", "fr", ""][d % 3], "cues": [{"s": st(i, "."), "e": st(i + 1, "."), "t": [f"w{i}"]}
                                                                                          for i in range(d * n // 60, (d + 1) * n // 60)]} for d in range(30)]}
    yield {"fmt": "sami", "style": 0, "langs": [["en-US", "class"], ["fr", "lang"]],
           "syncs": [{"t": i * 1777, "p": [[0, [f"a{i}"] if i % 3 else []], [1, ["b"]]][: 1 + i % 2]} for i in range(n // 3)]}


def systematic(tier):
    yield from large(tier)
    for g in (2, 3):   # KF-SRT-EMPTY
        yield {"fmt": "srt", "opts": {}, "cues": [{"s": "00:00:01,000", "e": "00:00:02,000", "t": [], "gap": g},
                                                  {"s": "00:00:03,000", "e": "00:00:04,000", "t": ["x"]}]}
    pairs = []
    for h in HOURS:
        for mi in MIN:
            for s in MIN:
                pairs.append((h, mi, s))
    step = 1 if tier == "thorough" else 3
    k = 0
    for hw in (2, 1, 3):
        stamps = []
        for h, mi, s in pairs[::step]:
            k += 1
            stamps.append(f"{h:0{hw}d}:{mi:02d}:{s:02d}" + ("," + MS[k % len(MS)] if k % 5 else ""))
        for ch in _chunks(stamps, 40):
            yield {"fmt": "srt", "opts": {}, "cues": [{"s": a, "e": b, "t": [f"w{i}"]}
                                                     for i, (a, b) in enumerate(zip(ch, ch[1:] + ch[:1]))]}
    for variant in range(3):
        stamps = []
        for h, mi, s in pairs[::step]:
            k += 1
            hh = "" if variant == 0 else (f"{h:02d}:" if variant == 1 else f"{h:04d}:")
            stamps.append(f"{hh}{mi:02d}:{s:02d}.{MS[k % len(MS)]}")
        for ch in _chunks(stamps, 40):
            yield {"fmt": "vtt", "opts": {"time_shift_milliseconds": [0, 0, 1, 3600000][k % 4]},
                   "cues": [{"s": a, "e": b, "t": [f"w{i}"]} for i, (a, b) in enumerate(zip(ch, ch[1:] + ch[:1]))]}
    st = []
    for h, mi, s in pairs[::step]:
        k += 1
        tail = ["", "." + FRACS[k % len(FRACS)], f":{k % 30:02d}"][k % 3]
        st.append(f"{h:02d}:{mi:02d}:{s:02d}{tail}")
    for v in [0, 1, 2, 7, 10, 59, 60, 61, 99, 100, 999, 1000, 3599, 3600, 86400, 123456]:
        for fr in [""] + ["." + x for x in FRACS]:
            for unit in ("h", "m", "s", "ms", "f"):
                if unit == "h" and v > 999:
                    continue
                st.append(f"{v}{fr}{unit}")
    for ch in _chunks(st, 40):
        yield {"fmt": "dfxp", "lang": "en", "divs": [{"lang": "", "cues": [
            ({"s": a, "e": b, "t": [f"w{i}"]} if i % 2 else {"s": a, "d": b, "t": [f"w{i}"]})
            for i, (a, b) in enumerate(zip(ch, ch[1:] + ch[:1]))]}]}
    for fps in [None] + FPS:
        frames = list(range(1, 130)) + [249, 250, 251, 999, 1000, 1499, 1500, 1501, 2997, 3000, 89999, 90000, 90001,
                                        107892, 2160000, 2589408, 86399999] + [(i * 7919) % 2200000 + 1 for i in range(120)]
        for ch in _chunks(frames, 60):
            yield {"fmt": "microdvd", "opts": {}, "fps": fps, "cues": [
                {"s": str(a), "e": str(b), "t": [f"w{i}"]} for i, (a, b) in enumerate(zip(ch, ch[1:] + ch[:1]))]}
    for style in range(6):
        ts = [0, 1, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 3600001, 86399999, 86400000, 360000000, 3599999999]
        for ch in (ts, ts[::2], ts[1::3]):
            yield {"fmt": "sami", "style": style, "langs": [["en-US", "class"], ["fr", "lang"]],
                   "syncs": [{"t": t, "p": [[0, ["a%d" % i] if i % 3 else []], [1, ["b"]]][: 1 + i % 2]}
                             for i, t in enumerate(ch)]}


    # which paragraphs (T text, B blank) of one language each of three or four syncs holds, at equal or distinct starts
    pats = ["", "T", "B", "TT", "TB", "BT", "BB"]
    for k, ps in enumerate(itertools.product(pats, repeat=3 if tier == "quick" else 4)):
        for ts in ([5, 6, 7, 8], [0, 0, 900, 900], [0, 1000, 1000, 5000])[: 1 if tier == "quick" and k % 3 else 3]:
            syncs = [{"t": t, "p": [[0, [f"w{j}"] if c == "T" else []] for j, c in enumerate(p)] + ([[1, ["f"]]] if k % 2 else [])}
                     for t, p in zip(ts, ps) if p or k % 2]
            yield {"fmt": "sami", "style": k % 6, "blank": k % len(BLANKS["sami"]),
                   "langs": [["en-US", "class"], ["fr", "lang"]], "syncs": syncs}


def _text(rng, pipe_ok=True):
    return [gt.plain(rng, 3) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def _hms(rng):
    h = rng.choice([0, 0, 0, rng.choice(HOURS), rng.randint(0, 999)])
    return h, rng.randint(0, 59), rng.randint(0, 59)


def _nl(rng):
    return rng.choice(["\n", "\n", "\n", "\r\n", "\r"])


def random_case(rng, tier):
    case = _random_case(rng, tier)
    if case["fmt"] in ("dfxp", "sami") and rng.random() < 0.5:
        case["dress"] = rng.randint(0, 10 ** 6)
    return case


def _random_case(rng, tier):
    f = rng.choice(["srt", "vtt", "dfxp", "sami", "microdvd"])
    n = rng.choice([1, 2, 3, 4, 6, 9])
    if f == "srt":
        def st():
            h, mi, s = _hms(rng)
            return f"{h:0{rng.choice([1, 2, 2, 2, 3])}d}:{mi:02d}:{s:02d}" + (
                "" if rng.random() < 0.15 else f",{rng.randint(0, 999):03d}")
        cues = []
        for i in range(n):
            t = _text(rng) if rng.random() > 0.12 else []
            if t and rng.random() < 0.2:
                t.append(str(rng.randint(0, 99)))
            cues.append({"s": st(), "e": st(), "t": t, "gap": rng.choice([1, 1, 1, 2, 3])})
        return {"fmt": f, "opts": {"lang": rng.choice([None, "fr", "en-GB"])}, "nl": _nl(rng),
                "chop": rng.random() < 0.3, "cues": cues}
    if f == "vtt":
        shift = rng.choice([0, 0, 1, 999, 1000, -500, 3600000, rng.randint(-10 ** 6, 10 ** 7)])
        strict = rng.random() < 0.3
        base = max(0, -shift)
        ts = []
        for _ in range(n):
            a = rng.choice([rng.randint(0, 10 ** 7), rng.randint(0, 3600 * 1000 * 999), rng.randint(0, 3600000)]) + base
            b = rng.choice([rng.randint(0, 10 ** 7), rng.randint(0, 3600 * 1000 * 999), a + rng.randint(0, 9999)]) + base
            if ts and rng.random() < 0.15:
                a = ts[-1][0]       # cues may start together
            if rng.random() < 0.05:
                b = a
            ts.append((min(a, b), max(a, b)) if strict else (a, b))
        if strict:
            ts.sort()

        def st(ms):
            s, q = divmod(ms, 1000)
            mi, s = divmod(s, 60)
            h, mi = divmod(mi, 60)
            if h == 0 and rng.random() < 0.6:
                return f"{mi:02d}:{s:02d}.{q:03d}"
            return f"{h:0{rng.choice([2, 2, 3])}d}:{mi:02d}:{s:02d}.{q:03d}"
        cues = []
        for a, b in ts:
            cues.append({"s": st(a), "e": st(b), "t": _text(rng) if rng.random() > 0.15 else [],
                         "id": rng.choice([None, None, "1", "intro", "cue 7 x"]),
                         "sep": rng.choice([" --> ", " --> ", "  -->  ", "\t-->\t", " -->\t"]),
                         "set": rng.choice(["", "", " align:left", " position:10% line:5%", "\tsize:40%", "  "]),
                         "pre": rng.choice([None, None, None, "NOTE a comment", "NOTE\nmulti\nline", "NOTE"]),
                         "gap": rng.choice([1, 1, 2, 4])})
        o = {"lang": rng.choice([None, "fr", "en"])}
        if shift or rng.random() < 0.3:
            o["time_shift_milliseconds"] = shift
        if strict:
            o["ignore_timing_errors"] = False
        elif rng.random() < 0.3:
            o["ignore_timing_errors"] = True
        return {"fmt": f, "opts": o, "nl": _nl(rng), "chop": rng.random() < 0.3, "cues": cues,
                "head": rng.choice(["WEBVTT", "WEBVTT", "WEBVTT - title", "WEBVTT\nKind: captions",
                                    "WEBVTT\n\nSTYLE\n::cue {color: red}", "\ufeffWEBVTT"])}
    if f == "dfxp":
        def st():
            r = rng.random()
            h, mi, s = _hms(rng)
            if r < 0.25:
                return f"{h:02d}:{mi:02d}:{s:02d}"
            if r < 0.5:
                return f"{h:02d}:{mi:02d}:{s:02d}." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 3, 3, 4, 6, 7, 9, 15, 25])))
            if r < 0.65:
                return f"{h:02d}:{mi:02d}:{s:02d}:{rng.randint(0, 29):02d}"
            v = str(rng.choice([rng.randint(0, 9), rng.randint(0, 999), rng.randint(0, 999999)]))
            if rng.random() < 0.5:
                v += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 3, 4, 6, 7, 10, 18, 30])))
            u = rng.choice(["h", "m", "s", "s", "ms", "f"])
            if u == "h":
                v = v[-3:].lstrip(".") if "." not in v else str(int(float(v)) % 1000) + "." + v.split(".")[1]
            return v + u
        divs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            cues = []
            for _ in range(n):
                c = {"s": st(), "t": _text(rng) if rng.random() > 0.1 else rng.choice([[], [" "], ["", ""]])}
                c["e" if rng.random() < 0.65 else "d"] = st()
                if rng.random() < 0.2:
                    c["swap"] = 1
                cues.append(c)
            divs.append({"lang": rng.choice(["", "en", "fr", "de-CH"]), "cues": cues})
        return {"fmt": f, "lang": rng.choice(["", "en", "es"]), "divs": divs,
                "blank": rng.randint(0, len(BLANKS["dfxp"]) - 1)}
    if f == "sami":
        langs = rng.choice([[["en-US", "class"]], [["fr", "lang"]], [["en-US", "class"], ["fr", "lang"]],
                            [["en", "class"], ["fr-FR", "class"], ["de", "class"]], [["en", "class"], ["en-US", "class"]]])
        t = rng.choice([0, 0, rng.randint(0, 10 ** 4), rng.randint(0, 3600 * 1000 * 990)])
        syncs = []
        for _ in range(n + 1):
            ps = []
            for li in range(len(langs)):
                if rng.random() < 0.8:
                    ps.append([li, _text(rng) if rng.random() < 0.72 else []])
            if ps:
                rng.shuffle(ps)
                if rng.random() < 0.15:      # several paragraphs of one language in one sync
                    ps += [[rng.randrange(len(langs)), _text(rng) if rng.random() < 0.7 else []] for _ in range(rng.choice([1, 1, 2, 3]))]
                    rng.shuffle(ps)
                syncs.append({"t": t, "p": ps})
            t += 0 if rng.random() < 0.06 else rng.choice([1, 10, rng.randint(1, 5000), rng.randint(1, 10 ** 6)])
        return {"fmt": f, "style": rng.randint(0, 5), "langs": langs, "syncs": syncs,
                "blank": rng.randint(0, len(BLANKS["sami"]) - 1)}
    fps = rng.choice([None, None] + FPS)
    cues = []
    if rng.random() < 0.2:      # a cue that begins with frame 0
        fps = fps or "25"
        cues = [{"s": "0", "e": rng.choice(["0", "0", "1", str(rng.randint(1, 99))]), "t": _text(rng)} for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(n):
        a = rng.choice([rng.randint(1, 100), rng.randint(1, 10 ** 5), rng.randint(1, 9 * 10 ** 7)])
        cues.append({"s": str(a), "e": str(a + rng.randint(0, 500)), "t": _text(rng) if rng.random() > 0.12 else []})
    return {"fmt": "microdvd", "opts": {"lang": rng.choice([None, "fr"])}, "fps": fps, "nl": _nl(rng),
            "chop": rng.random() < 0.3, "cues": cues}
