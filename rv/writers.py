"""The eight writers and an independent reading of what they emit."""
from . import core

core.setup_path()
from pycaption import (DFXPWriter, MicroDVDWriter, SAMIWriter, SCCWriter, SRTWriter, WebVTTWriter)  # noqa: E402
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter  # noqa: E402

from . import model  # noqa: E402
from .ref import parse  # noqa: E402

CLASSES = {"srt": SRTWriter, "vtt": WebVTTWriter, "dfxp": DFXPWriter, "dfxp_single": SinglePositioningDFXPWriter,
           "dfxp_legacy": LegacyDFXPWriter, "sami": SAMIWriter, "microdvd": MicroDVDWriter, "scc": SCCWriter}
TEXT = ["srt", "vtt", "dfxp", "dfxp_single", "dfxp_legacy", "sami", "microdvd"]
DFXP = ["dfxp", "dfxp_single", "dfxp_legacy"]
MERGING = {"srt", "dfxp_single", "dfxp_legacy"}


def make(fmt, opts=None):
    """opts: JSON writer options"""
    o = dict(opts or {})
    kw = {}
    for k in ("relativize", "fit_to_screen"):
        if k in o:
            kw[k] = o[k]
    if o.get("size"):
        kw["video_width"], kw["video_height"] = o["size"]
    if fmt in ("dfxp", "dfxp_single") and "inline" in o:
        kw["write_inline_positioning"] = o["inline"]
    if fmt == "dfxp_single" and o.get("pos"):
        kw["default_positioning"] = model.layout(o["pos"])
    return CLASSES[fmt](**kw)


def write_kw(fmt, opts):
    o = opts or {}
    if fmt in DFXP and o.get("force"):
        return {"force": o["force"]}
    if fmt == "vtt" and o.get("lang"):
        return {"lang": o["lang"]}
    return {}


def written_langs(fmt, langs, opts):
    """languages the output must hold, in order"""
    o = opts or {}
    if fmt in DFXP and o.get("force"):
        if o["force"] in langs:
            return [o["force"]]
        return langs if fmt != "dfxp_legacy" else [langs[-1]]
    if fmt == "vtt":
        return [o["lang"]] if o.get("lang") else langs[:1]
    return langs


def extract(fmt, out, langs):
    """-> list of (lang, [Cue]) as an independent conformant consumer sees the output. Raises FormatError."""
    if fmt == "srt":
        parts = parse.parse_srt_multi(out)
        if len(parts) != len(langs):
            raise parse.FormatError(f"SRT: {len(parts)} language parts for {len(langs)} languages")
        for cues in parts:
            for i, c in enumerate(cues):
                if c.meta["num"] != i + 1:
                    raise parse.FormatError(f"SRT: cue number {c.meta['num']} at position {i + 1}")
        return list(zip(langs, parts))
    if fmt == "vtt":
        return [(langs[0], parse.parse_vtt(out))]
    if fmt in DFXP:
        t = parse.Ttml(out)
        return [(t.div_lang(d), [t.p_cue(p) for p in t.ps(d)]) for d in t.divs()]
    if fmt == "microdvd":
        cues = parse.parse_microdvd(out)
        return [("*", cues)]
    if fmt == "sami":
        return sami_cues(parse.Sami(out), langs)
    raise ValueError(fmt)


def sami_cues(s, langs):
    """Per language list of Cue(start ms, lines); blank paragraphs have meta blank=True."""
    res = {lang: [] for lang in langs}
    order = list(langs)
    for y in s.syncs:
        for p in y["p"]:
            lang = s.lang_of(p)
            if lang not in res:
                res[lang] = []
                order.append(lang)
            c = parse.Cue(y["start"], None, y["t"] * 1000, None, p["lines"], None,
                          {"blank": parse.is_blank_lines(p["lines"]), "p": p, "sami": s})
            res[lang].append(c)
    return [(lang, res[lang]) for lang in order]
