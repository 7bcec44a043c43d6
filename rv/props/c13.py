"""C13 relativization and fit-to-screen: written lengths against exact rational arithmetic; refusal monitor."""
from pycaption.exceptions import RelativizationError

from .. import layouts, model, writers
from ..gen import docs, laid
from ..ref import geo

ID = "C13"
PLAN = {"quick": 24000, "thorough": 350000}
RULE = ("caption sets with layouts in every unit on language, caption and node level written by the DFXP, SAMI and WebVTT writers with "
        "video sizes present, absent or one of two, relativize and fit_to_screen on and off; every written length compared with exact "
        "rational arithmetic (tolerance: rounding to two decimals); systematic: unit x value grid x axis x size x writer, and extents and origins "
        "around the 90/95% edges; non-trivial = the writer returned a document or refused for a missing dimension")
ASSUMPTIONS = ["cells and zero lengths need no video dimension mathematically: refusing or converting them without one are both accepted",
               "with relativize off and fit_to_screen on, absolute units are refused with ValueError (not covered by the statement)",
               "an origin outside the safe area leaves the extent open", "a WebVTT width smaller than its paddings is left open"]
FLOORS = {"lengths": 5000, "regions_compared": 2000, "settings_compared": 2000, "margins_compared": 500, "refused": 800, "w:dfxp": 1500,
          "w:vtt": 1500, "w:sami": 1000}


def used_layouts(cs, w, langs):
    """layouts in force for some text of the written languages"""
    vw = layouts.view(cs, set_level=w.startswith("dfxp"))
    return [eff for x in langs for c in vw[x] for _, _, eff in c["texts"] if eff]


def all_layouts(cs):
    out = [cs.layout_info]
    for x in cs.get_languages():
        out.append(cs.get_layout_info(x))
        for c in cs.get_captions(x):
            out.append(c.layout_info)
            out += [n.layout_info for n in c.nodes]
    return [model.d_layout(L) for L in out if L]


def source(case, m):
    if "doc" not in case:
        return model.build(case["cs"])
    o = m.call("read", docs.reader(case["doc"]).read, case["doc"]["doc"])
    if not o.ok:
        m.hit("unreadable")
        m.nontrivial = False
        return None
    m.hit("from_doc:" + case["doc"]["fmt"])
    return o.value


def run(case, m):
    w, opts = case["w"], case.get("opts") or {}
    cs = source(case, m)
    if cs is None:
        return
    m.hit("w:" + w)
    langs = writers.written_langs(w, cs.get_languages(), opts)
    o = m.call("write:" + w, writers.make(w, opts).write, cs, **writers.write_kw(w, opts))
    rel = opts.get("relativize", True)
    used = [L for L in used_layouts(cs, w, langs) if not L.get("w")]
    if w == "dfxp_single":
        used = [opts["pos"]] if opts.get("pos") else []
    every = all_layouts(cs) + used
    must = rel and w != "sami" and any(layouts.missing(L, opts) == "must" for L in used)
    may = rel and any(layouts.missing(L, opts) for L in every)
    if not o.ok:
        if isinstance(o.exc, RelativizationError):
            m.check(may, f"{w}:refused", lambda: f"{o.exc!r} although every needed dimension was supplied ({opts})")
            m.hit("refused")
            return
        if isinstance(o.exc, ValueError) and not rel and opts.get("fit_to_screen", True) and any(not geo.is_relative(L) for L in every):
            m.nontrivial = False
            m.hit("fit_refused")
            return
        m.fail(f"{w}:exception", repr(o.exc)[:400])
    m.check(not must, f"{w}:not-refused", lambda: f"a dimension needed by {[L for L in used if layouts.missing(L, opts) == 'must'][:1]} was not "
            f"supplied ({opts}), yet the writer returned", {"output": o.value[:2000]})
    if w == "sami":
        if not (rel and any(layouts.missing(L, opts) for L in every)):
            layouts.check_sami(m, o.value, cs, opts)
        else:
            try:
                layouts.check_sami(m, o.value, cs, opts)
            except geo.Missing:
                m.fail("sami:not-refused", f"margins written without the dimension they need ({opts})", {"output": o.value[:2000]})
        return
    if not rel and any(not geo.is_relative(L) for L in every) and w != "vtt":
        m.nontrivial = False
        return
    if w == "vtt":
        layouts.check_vtt(m, o.value, cs, langs[0], opts)
    elif w == "dfxp_single":
        for x in cs.get_languages():
            cs.set_layout_info(x, None)
            for c in cs.get_captions(x):
                c.layout_info = None
                for n in c.nodes:
                    n.layout_info = None
        cs.layout_info = model.layout(opts.get("pos") or {"a": ["start", "bottom"]})
        layouts.check_dfxp(m, o.value, cs, langs, opts, "dfxp_single")
    else:
        layouts.check_dfxp(m, o.value, cs, langs, opts)


SIZES = [[640, 360], [1920, 1080], [100, 100], [1, 1], [720, 480], [333, 777], [640, None], [None, 360], None, None]


def options(rng):
    o = {"size": rng.choice(SIZES)}
    if rng.random() < 0.2:
        o["relativize"] = False
    if rng.random() < 0.4:
        o["fit_to_screen"] = False
    return o


def doc_case(rng):
    d = rng.choice([docs.sami, docs.sami, docs.dfxp])(rng, rng.choice([("%",), ("px",), ("px", "%"), tuple(laid.UNITS)]))
    o = options(rng)
    if o["size"] is None and rng.random() < 0.7:
        o["size"] = [640, 360]
    return {"w": rng.choice(["sami", "sami", "dfxp", "vtt"]) if d["fmt"] == "sami" else rng.choice(["dfxp", "vtt"]), "doc": d, "opts": o}


def random_case(rng, tier):
    if rng.random() < 0.3:
        return doc_case(rng)
    w = rng.choice(["dfxp", "dfxp", "vtt", "vtt", "sami", "dfxp_single"])
    kind = rng.random()
    unit = (lambda r: r.choice(laid.UNITS)) if kind < 0.35 else ("%" if kind < 0.5 else rng.choice(laid.UNITS))
    cs = laid.caption_set(rng, unit, nlang=(1, 1, 1, 2), set_level=0.3 if w in ("dfxp", "sami") else 0.0, origin_p=0.8,
                          lang_p=0.9 if w == "sami" else 0.4)
    if w == "sami" and rng.random() < 0.4:
        cs["styles"] = {"p": {"color": "red"}}
        if rng.random() < 0.5:
            cs["styles"]["encc"] = {"lang": cs["langs"][0][0], "font-family": "Arial"}
    o = options(rng)
    if not callable(unit) and unit != "%" and rng.random() < 0.7 and o["size"] is None:
        o["size"] = [640, 360]
    if w == "dfxp" and rng.random() < 0.3:
        o["inline"] = True
    if w == "dfxp_single" and rng.random() < 0.85:
        o["pos"] = laid.layout(rng, unit, 0.8)
    if w == "vtt" and rng.random() < 0.3:
        o["lang"] = cs["langs"][-1][0]
    return {"w": w, "cs": cs, "opts": o}


def one(w, L, opts, level="cap"):
    c = {"s": 0, "e": 10 ** 6, "n": [["t", "Ab", L if level == "node" else None]], "layout": L if level == "cap" else None}
    return {"w": w, "cs": {"langs": [["en", {"caps": [c], "layout": L if level == "lang" or w == "sami" else None}]]}, "opts": opts}


def systematic(tier):
    for w in ("dfxp", "vtt", "sami"):
        for u in laid.UNITS:
            for v in laid.GRID[u]:
                for size in ([640, 360], [333, 777], [640, None], [None, 360], None):
                    s, z = [v, u], [10, "%"]
                    for L in ({"o": [s, z]}, {"o": [z, s]}, {"o": [z, z], "x": [s, z]}, {"o": [z, z], "x": [z, s]},
                              {"p": [s, z, z, z]}, {"p": [z, s, z, z]}, {"p": [z, z, s, z]}, {"p": [z, z, z, s]},
                              {"o": [z, z], "x": [[80, "%"], z], "p": [s, s, s, s]}):
                        yield one(w, L, {"size": size, "fit_to_screen": False})
                        yield one(w, L, {"size": size})
    edge = [0, 5, 9.99, 10, 10.01, 45, 89.99, 90]
    ext = [0, 0.01, 45, 50, 79.99, 80, 80.01, 85, 85.01, 90, 95, 99, 100]
    for w in ("dfxp", "vtt"):
        for x in edge:
            for y in edge + [94.99, 95]:
                yield one(w, {"o": [[x, "%"], [y, "%"]]}, {}, "node")
                for e in ext:
                    yield one(w, {"o": [[x, "%"], [y, "%"]], "x": [[e, "%"], [e, "%"]]}, {}, "cap")
                    yield one(w, {"o": [[x, "%"], [y, "%"]], "x": [[e, "%"], [ext[-1 - ext.index(e)], "%"]]}, {}, "lang")


def valid(case):
    return "doc" in case or laid.valid(case["cs"])
