"""C20 format detection: totality, order, own output."""
import itertools

from .. import core, model, writers
from ..gen import sets as gs
from ..gen import text as gt

core.setup_path()
import pycaption  # noqa: E402
from pycaption import (DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader)  # noqa: E402
from pycaption.exceptions import CaptionReadNoCaptions  # noqa: E402

ID = "C20"
PLAN = {"quick": 22500, "thorough": 260000}
RULE = ("(a) every concatenation of up to 4 (5 thorough) tokens of a marker alphabet, random strings, every prefix and "
        "suffix of writer outputs: detect_format observed against each reader class's own detect in the documented order; "
        "(b) outputs of all eight writers on marker-free text: detected format, and the detected reader reads them")
ASSUMPTIONS = [
    "markers excluded from the text in (b): '</tt', 'WEBVTT', '<sami', a leading '{d}{d}' and the SCC header (any letter case)",
    "SCC outputs use the CEA-608 basic characters and cues far enough apart",
]
ORDER = [DFXPReader, MicroDVDReader, WebVTTReader, SAMIReader, SRTReader, SCCReader]
FMT = {"srt": SRTReader, "vtt": WebVTTReader, "dfxp": DFXPReader, "dfxp_single": DFXPReader, "dfxp_legacy": DFXPReader,
       "sami": SAMIReader, "microdvd": MicroDVDReader, "scc": SCCReader}
FLOORS = {"strings": 20000, "mixed": 300, **{"w:" + w: 100 for w in FMT}, **{"detected:" + c.__name__: 500 for c in ORDER},
          "detected:None": 1000}
TOKENS = ["1", "0", "\n", "\r", "{", "}", "{1}{2}", "-->", "</tt>", "</TT>", "<SAMI", "<sami>", "WEBVTT", " ", "a",
          "Scenarist_SCC V1.0", "webvtt", "\u0661", "\u00b2", "\x0b", "\u2028", "\ufeff"]


def check_string(s, m):
    m.hit("strings")
    o = m.call("detect_format", pycaption.detect_format, s)
    if s == "":
        m.check(not o.ok and isinstance(o.exc, CaptionReadNoCaptions), "empty", lambda: f"'' gave {o.value!r} {o.exc!r}")
        return None
    m.check(o.ok, "raises", lambda: f"detect_format({s[:200]!r}) raised {o.exc!r}")
    want = None
    for c in ORDER:
        d = m.call("detect", c().detect, s)
        m.check(d.ok, "detect-raises", lambda: f"{c.__name__}.detect({s[:200]!r}) raised {d.exc!r}")
        if d.value:
            want = c
            break
    m.check(o.value is want, "order", lambda: f"detect_format({s[:300]!r}) = {o.value} expected {want}")
    m.hit(f"detected:{want.__name__ if want else None}")
    return want


def run(case, m):
    k = case["k"]
    if k == "toks":
        for n in range(case["n"] + 1):
            for t in itertools.product(TOKENS, repeat=n):
                check_string(case["prefix"] + "".join(t), m)
        return
    if k == "str":
        check_string(case["s"], m)
        return
    f = case["w"]
    cs = model.build(case["cs"])
    out = m.must("write:" + f, writers.make(f).write, cs)
    m.hit("w:" + f)
    if k == "mixed":
        for at, tok in case["ins"]:
            i = int(at * (len(out) + 1))
            out = out[:i] + tok + out[i:]
        check_string(out, m)
        m.hit("mixed")
        return
    if k == "cut":
        step = 1 if len(out) < 3000 else 3
        for i in range(0, len(out) + 1, step):
            check_string(out[:i], m)
            check_string(out[i:], m)
        return
    got = check_string(out, m)
    m.check(got is FMT[f], "own-output", lambda: f"{f} output detected as {got}: {out[:300]!r}")
    cs2 = m.must("read:" + f, got().read, out)
    m.check(not cs2.is_empty(), "read-empty", lambda: f"{f}: reader returned no captions")


# ------------------------------------------------------------ workload
BAD = ["</tt", "webvtt", "<sami", "scenarist", "{1}{2}"]


def _line(rng, scc):
    while True:
        if scc:
            s = gt.plain(rng, 6)
        else:
            s = gt.line(rng, rng.choice([0, 0.3, 0.8]), ("|",))
        if not any(b in s.lower() for b in BAD):
            return s


def _cs(rng, f):
    names = rng.sample(gs.LANGS, 1 if f == "scc" else rng.choice([1, 1, 2, 3]))
    langs = []
    for x in names:
        n = rng.choice([1, 1, 2, 4])
        if f == "scc":
            t0 = rng.randint(5, 80000)
            ts = [((t0 + 8 * i) * 10 ** 6, (t0 + 8 * i + 4) * 10 ** 6) for i in range(n)]
        else:
            ts = gs.times(rng, n, rng.choice(["sorted", "sorted", "any"]) if f != "sami" else "sorted")
        caps = []
        for a, b in ts:
            lines = [_line(rng, f == "scc") for _ in range(rng.choice([1, 2, 3]) if f != "scc" else 1)]
            if any(b_ in "".join(lines).lower() or b_ in "\n".join(lines).lower() for b_ in BAD):
                lines = ["plain"]
            nodes = gs.nodes_of_lines(rng, lines, split=0.1, styles=0 if f == "scc" else 0.2)
            caps.append({"s": a, "e": b, "n": nodes})
        langs.append([x, gs.one_lang(caps, gs.layout(rng, unit="%") if rng.random() < 0.2 else None)])
    cs = {"langs": langs}
    if rng.random() < 0.3:
        cs["styles"] = {rng.choice(["a", "b1", "p", "ENCC"]): rng.choice([{"color": "red"}, {"italics": True, "text-align": "left"}])}
    return cs


def random_case(rng, tier):
    r = rng.random()
    if r < 0.05:
        # markers far into, or far apart in, a long document
        out = ""
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.7:
                fill = rng.choice(["x", "a b ", "line\n", "\n", " ", "1\n", "00:00:01,000 --> 00:00:02,000\n", "\u00e9", "{1}", "<p>a</p>"])
                out += (fill * 5000)[:rng.choice([rng.randint(0, 20), rng.randint(0, 300), rng.randint(200, 5000)])]
                if rng.random() < 0.1:
                    out += (fill * 300000)[:rng.randint(5000, 300000)]
            out += rng.choice(TOKENS)
        return {"k": "str", "s": out}
    if r < 0.1:
        # a document of one format with the markers of others in it
        return {"k": "mixed", "w": (f := rng.choice(list(FMT))), "cs": _cs(rng, f),
                "ins": [[rng.random(), rng.choice(TOKENS)] for _ in range(rng.randint(1, 3))]}
    if r < 0.25:
        n = rng.randint(1, 12)
        return {"k": "str", "s": "".join(rng.choice(TOKENS) if rng.random() < 0.7 else gt.line(rng, 0.5) for _ in range(n))}
    if r < 0.35:
        n = rng.randint(1, 30)
        return {"k": "str", "s": "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2fff), 10, 13, 48, 49]))
                                         for _ in range(n))}
    f = rng.choice(list(FMT))
    return {"k": "cut" if r < 0.37 else "own", "w": f, "cs": _cs(rng, f)}


def systematic(tier):
    n = 2 if tier == "quick" else 3
    yield {"k": "str", "s": ""}
    for a in TOKENS:
        yield {"k": "str", "s": a}
        for b in TOKENS:
            yield {"k": "toks", "prefix": a + b, "n": n}
    import random
    rng = random.Random("c20")
    for f in FMT:
        for _ in range(3):
            yield {"k": "cut", "w": f, "cs": _cs(rng, f)}
    # long documents
    for f in FMT:
        for n in (30, 400):
            words = "word " * (30 if f != "scc" else 5) + "end"
            caps = [{"s": (10 + 8 * i) * 10 ** 6, "e": (14 + 8 * i) * 10 ** 6, "n": [["t", f"{i} {words}"]]} for i in range(n)]
            yield {"k": "own", "w": f, "cs": {"langs": [["en", gs.one_lang(caps)]]}}
    # cues inside the first frame / first millisecond
    for f in FMT:
        for a, b in ((0, 0), (0, 1), (0, 39999), (39999, 39999), (0, 40000), (999, 1000)):
            if f == "scc":
                continue
            yield {"k": "own", "w": f, "cs": {"langs": [["en", gs.one_lang([{"s": a, "e": b, "n": [["t", "hi"]]}])]]}}


def valid(case):
    if case["k"] in ("own", "cut", "mixed"):
        for x, d in case["cs"]["langs"]:
            if not x or not d["caps"]:
                return False
            for c in d["caps"]:
                ls = model.lines_of_nodes(c["n"])
                if not all(s.strip() and s.isprintable() for s in ls):
                    return False
                if any(b in "\n".join(ls).lower() or b in "".join(ls).lower() for b in BAD):
                    return False
                if not 0 <= c["s"] <= c["e"] < gs.DAY:
                    return False
                if case["w"] == "scc" and (c["s"] < 5 * 10 ** 6 or c["e"] - c["s"] < 4 * 10 ** 6):
                    return False
                dep = 0
                for n in c["n"]:
                    if n[0] == "S":
                        dep += 1 if n[1] else -1
                        if dep not in (0, 1):
                            return False
                if dep:
                    return False
        return bool(case["cs"]["langs"])
    return True
