"""C18 geometry values: observed ==, hash(), str(), parse results against component-wise models."""
import itertools
import math
import re
import unicodedata
from decimal import Decimal
from fractions import Fraction

from .. import core, model
from ..gen import sets as gs

core.setup_path()
from pycaption.exceptions import CaptionReadSyntaxError, RelativizationError  # noqa: E402
from pycaption.geometry import (Alignment, Layout, Padding, Point, Size, Stretch, UnitEnum)  # noqa: E402

ID = "C18"
PLAN = {"quick": 50000, "thorough": 500000}
RULE = ("(a) every ordered pair of a grid of sizes/points/stretches/paddings/alignments/layouts (plus None and foreign "
        "objects): ==, != and hash against component equality; (b) every string over the size alphabet up to length 4 "
        "(5 thorough) plus mutated near-misses against an independent grammar; (c) printing against exact decimals and "
        "re-parsing; (d) padding shorthands; (e) receiver snapshots around relativize/fit operations")
ASSUMPTIONS = [
    "the size grammar is digits ['.' digits] unit, case-sensitive, ASCII, no surrounding space; magnitudes are finite and non-negative",
    "a Padding component given as None means 0% (documented in Padding)",
    "Layout.webvtt_positioning is not a geometric component",
]
FLOORS = {"pairs": 20000, "equal_pairs": 1000, "strings": 20000, "accepted": 1000, "printed": 5000, "transforms": 5000, "shorthand": 500}
SIZE_RE = re.compile(r"([0-9]+(?:\.[0-9]+)?)(px|em|%|c|pt)")
ALPHA = "019.+-epxm%ct "


# ------------------------------------------------------------ models
def mk(v):
    """[type, ...] -> object; and canonical component key"""
    k = v[0]
    if k == "size":
        return Size(v[1], model.UNITS[v[2]])
    if k == "point":
        return Point(model.size(v[1]), model.size(v[2]))
    if k == "stretch":
        return Stretch(model.size(v[1]), model.size(v[2]))
    if k == "padding":
        return Padding(*[model.size(x) for x in v[1]])
    if k == "align":
        return Alignment(model.HAL.get(v[1]), model.VAL.get(v[2]))
    if k == "layout":
        return model.layout(v[1])
    if k == "other":
        return {"none": None, "zero": 0, "str": "5px", "empty": "", "obj": object, "tuple": (5.0, UnitEnum.PIXEL), "false": False}[v[1]]
    raise ValueError(v)


def ksz(s):
    return None if s is None else (Fraction(s[0]), s[1])


def key(v):
    k = v[0]
    if k == "size":
        return ("size", ksz(v[1:]))
    if k in ("point", "stretch"):
        return (k, ksz(v[1]), ksz(v[2]))
    if k == "padding":
        return ("padding",) + tuple(ksz(x) or (Fraction(0), "%") for x in v[1])
    if k == "align":
        return ("align", v[1], v[2])
    if k == "layout":
        L = v[1]
        return ("layout",
                L.get("o") and key(["point"] + L["o"]), L.get("x") and key(["stretch"] + L["x"]),
                L.get("p") and key(["padding", L["p"]]), L.get("a") and key(["align"] + L["a"]))
    return ("other", v[1])


def run(case, m):
    k = case["k"]
    if k == "pairs":
        _pairs(case, m)
    elif k == "strings":
        _strings(case, m)
    elif k == "print":
        _print(case, m)
    elif k == "short":
        _short(case, m)
    elif k == "transform":
        _transform(case, m)


def _pairs(case, m):
    a_ = [(mk(v), key(v), v) for v in case["a"]]
    b_ = [(mk(v), key(v), v) for v in case["b"]]
    for x, kx, vx in a_:
        if vx[0] == "other":
            continue
        hx = m.must("hash", hash, x)
        for y, ky, vy in b_:
            m.hit("pairs")
            want = kx == ky
            got = m.must("eq", lambda: bool(x == y))
            back = m.must("eq", lambda: bool(y == x))
            ne = m.must("ne", lambda: bool(x != y))
            m.check(got == want, "eq", lambda: f"{vx} == {vy} gave {got}, components say {want}")
            m.check(back == want, "eq-asymmetric", lambda: f"{vy} == {vx} gave {back}, expected {want}")
            m.check(ne != want, "ne", lambda: f"{vx} != {vy} gave {ne}")
            if want:
                m.hit("equal_pairs")
                m.check(hash(y) == hx, "hash", lambda: f"{vx} and {vy} are equal but hash differently")
                m.check(y in {x: 1} and len({x, y}) == 1, "hash-container", lambda: f"{vx} {vy}")
            elif vy[0] != "other":
                m.check(len({x, y}) == 2, "hash-container", lambda: f"{vx} {vy} collapse in a set")
        m.state("types", vx[0])


def expected_size(s):
    mt = SIZE_RE.fullmatch(s)
    if mt:
        return float(mt.group(1)), mt.group(2)
    if s == "0":
        return 0.0, None
    return None


def _strings(case, m):
    if "prefix" in case:
        pool = (case["prefix"] + "".join(t) for n in range(case["n"] + 1) for t in itertools.product(ALPHA, repeat=n))
    else:
        pool = case["s"]
    for s in pool:
        m.hit("strings")
        want = expected_size(s)
        o = m.call("from_string", Size.from_string, s)
        if want is None:
            m.check(not o.ok, "parse-accepts", lambda: f"{s!r} accepted as {o.value!r}")
            m.check(isinstance(o.exc, CaptionReadSyntaxError), "parse-wrong-error", lambda: f"{s!r} raised {o.exc!r}")
        else:
            m.hit("accepted")
            m.check(o.ok, "parse-rejects", lambda: f"{s!r} rejected: {o.exc!r}")
            v = o.value
            m.check(v.value == want[0] and (want[1] is None or v.unit.value == want[1]), "parse-value",
                    lambda: f"{s!r} parsed as {v!r}")
            _check_print(v, m)


def _check_print(v, m):
    m.hit("printed")
    s = m.must("str", str, v)
    x = m.must("to_xml_attribute", v.to_xml_attribute)
    m.check(x == s, "print-xml", lambda: f"{s!r} vs {x!r}")
    mt = SIZE_RE.fullmatch(s)
    m.check(mt, "print-grammar", lambda: f"{v.value!r}{v.unit.value} printed as {s!r}")
    num = mt.group(1)
    m.check(mt.group(2) == v.unit.value and ("." not in num or len(num.split(".")[1]) <= 2), "print-form",
            lambda: f"{v.value!r} printed as {s!r}")
    d = abs(Fraction(num) - Fraction(v.value))
    m.check(d <= Fraction(1, 200) + Fraction(v.value) / 2 ** 51, "print-rounding", lambda: f"{v.value!r} printed as {s!r}")
    o = m.must("from_string", Size.from_string, s)
    m.check(o.value == float(num) and o.unit == v.unit and str(o) == s, "print-reparse",
            lambda: f"{s!r} re-parsed as {o!r}")
    if round(v.value, 2) == v.value:
        m.check(o == v, "print-roundtrip", lambda: f"{v!r} -> {s!r} -> {o!r}")


def _print(case, m):
    for val, unit in case["v"]:
        _check_print(Size(val, model.UNITS[unit]), m)


def _short(case, m):
    parts = case["v"]
    s = " ".join(parts)
    m.hit("shorthand")
    o = m.call("Padding.from_xml_attribute", Padding.from_xml_attribute, s)
    exp = [expected_size(p) for p in parts]
    if not 1 <= len(parts) <= 4 or any(e is None for e in exp):
        m.check(not o.ok, "shorthand-accepts", lambda: f"{s!r} -> {o.value!r}")
        return
    m.check(o.ok, "shorthand-rejects", lambda: f"{s!r}: {o.exc!r}")
    n = len(parts)
    before, end, after, start = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[n]
    p = o.value
    for name, i in (("before", before), ("end", end), ("after", after), ("start", start)):
        g = getattr(p, name)
        m.check(g.value == exp[i][0] and (exp[i][1] is None or g.unit.value == exp[i][1]), "shorthand-order",
                lambda: f"{s!r}: {name} is {g!r}, expected {parts[i]}")
    x = m.must("to_xml_attribute", p.to_xml_attribute)
    w = " ".join(str(getattr(p, q)) for q in ("before", "end", "after", "start"))
    m.eq(x, w, "padding-print")
    q = m.must("Padding.from_xml_attribute", Padding.from_xml_attribute, x)
    m.eq(q.to_xml_attribute(), x, "padding-reparse")
    if n == 2:
        for cls, names in ((Point, ("x", "y")), (Stretch, ("horizontal", "vertical"))):
            pt = m.must(cls.__name__, cls.from_xml_attribute, s)
            for nm, e in zip(names, exp):
                g = getattr(pt, nm)
                m.check(g.value == e[0] and (e[1] is None or g.unit.value == e[1]), "pair-parse", lambda: f"{s!r} -> {pt!r}")
            x = pt.to_xml_attribute()
            m.eq(cls.from_xml_attribute(x).to_xml_attribute(), x, "pair-reparse")


def comp(o):
    """component dump of any geometry value"""
    if isinstance(o, Layout):
        return model.d_layout(o)
    if isinstance(o, Size):
        return [o.value, o.unit.value]
    # the public components only: how a value stores or caches them is its own business
    names = {Point: ("x", "y"), Stretch: ("horizontal", "vertical"), Alignment: ("horizontal", "vertical"),
             Padding: ("before", "after", "start", "end")}[type(o)]
    return {k: (comp(v) if isinstance(v, Size) else repr(v)) for k, v in ((k, getattr(o, k)) for k in names)}


def _transform(case, m):
    L = mk(["layout", case["L"]])
    twin = mk(["layout", case["L"]])
    w, h = case["size"]
    objs = [L] + [x for x in (L.origin, L.extent, L.padding) if x is not None]
    snaps = [comp(o) for o in objs]
    hashes = [hash(o) for o in objs]
    m.hit("transforms")

    def same(opname):
        for o, s, hh in zip(objs, snaps, hashes):
            m.check(comp(o) == s and hash(o) == hh, "mutated", lambda: f"{opname} changed its receiver {s} -> {comp(o)}")
        m.check(bool(L == twin), "mutated", lambda: f"{opname} changed its receiver")
    for o in objs:
        r = m.call("as_percentage_of", o.as_percentage_of, w, h)
        same("as_percentage_of")
        if r.ok:
            m.check(type(r.value) is type(o), "type", lambda: f"{type(o)} relativized to {type(r.value)}")
        else:
            m.check(isinstance(r.exc, RelativizationError), "relativize-error", lambda: repr(r.exc))
    rel = m.call("as_percentage_of", L.as_percentage_of, w, h)
    if rel.ok:
        R = rel.value
        rs = comp(R)
        f = m.must("fit_to_screen", R.fit_to_screen)
        same("fit_to_screen")
        m.check(comp(R) == rs, "mutated", lambda: f"fit_to_screen changed its receiver {rs} -> {comp(R)}")
        fs = comp(f)
        f2 = m.must("fit_to_screen", f.fit_to_screen)
        m.check(comp(f) == fs, "mutated", "fit_to_screen changed its receiver")
        m.check(isinstance(f2, Layout), "type", "fit_to_screen")
        same("chain")
    for o in objs:
        m.must("is_relative", o.is_relative)
        m.must("serialized", o.serialized)
        m.must("repr", repr, o)
        m.must("bool", bool, o)
    for o in objs[1:]:
        m.must("to_xml_attribute", o.to_xml_attribute)
    same("observers")


# ------------------------------------------------------------ workload
VALS = [0, 0.0, 1, 1.0, 5, 5.005, 5.01, 10, 12.34, 33.33, 50, 90, 95, 100, 100.0, 640, 1e6]
UN = ["px", "em", "%", "c", "pt"]


def grid():
    sizes = [["size", v, u] for v in VALS for u in UN]
    sm = [[v, u] for v in (0, 1, 5, 5.0, 50) for u in ("%", "px", "c")]
    pts = [[t, a, b] for t in ("point", "stretch") for a in sm[::2] for b in sm[::3]]
    pads = [["padding", p] for p in ([[0, "%"]] * 4, [None] * 4, [[1, "%"], [2, "%"], [3, "%"], [4, "%"]],
                                     [[2, "%"], [1, "%"], [3, "%"], [4, "%"]], [[1, "%"], [2, "%"], [4, "%"], [3, "%"]],
                                     [[1, "%"], None, None, None], [None, [1, "%"], None, None], [None, None, [1, "%"], None],
                                     [None, None, None, [1, "%"]], [[1, "px"], [2, "px"], [3, "px"], [4, "px"]],
                                     [[1.0, "%"], [2.0, "%"], [3.0, "%"], [4.0, "%"]])]
    al = [["align", h, v] for h in gs.HALS + [None] for v in gs.VALS + [None]]
    lay = []
    for o in (None, [[0, "%"], [0, "%"]], [[5, "%"], [10, "%"]], [[10, "%"], [5, "%"]], [[5, "px"], [10, "px"]]):
        for x in (None, [[5, "%"], [10, "%"]], [[80, "%"], [10, "%"]]):
            for p in (None, [None] * 4, [[1, "%"], [2, "%"], [3, "%"], [4, "%"]]):
                for a in (None, ["left", "top"], ["left", None], [None, "top"], [None, None]):
                    d = {}
                    for k, v in (("o", o), ("x", x), ("p", p), ("a", a)):
                        if v is not None:
                            d[k] = v
                    lay.append(["layout", d])
    lay += [["layout", {"w": "line:1%"}], ["layout", {"w": "line:2%"}], ["layout", {"o": [[5, "%"], [10, "%"]], "w": "x"}]]
    other = [["other", x] for x in ("none", "zero", "str", "empty", "obj", "tuple", "false")]
    return [sizes, pts, pads, al, lay, other]


def systematic(tier):
    g = grid()
    for grp in g[:5]:
        for i in range(0, len(grp), 20):
            for j in range(0, len(grp), 60):
                yield {"k": "pairs", "a": grp[i:i + 20], "b": grp[j:j + 60]}
    reps = [x for grp in g for x in grp[::7]]
    for i in range(0, len(reps), 20):
        yield {"k": "pairs", "a": reps[i:i + 20], "b": reps + g[5]}
    n = 2 if tier == "quick" else 3
    for a in ALPHA:
        for b in ALPHA:
            yield {"k": "strings", "prefix": a + b, "n": n}
    yield {"k": "strings", "s": [""] + list(ALPHA)}
    for i in range(0, 3000, 50):
        yield {"k": "print", "v": [[x / 1000, "%"] for x in range(i, i + 50)]}
    # one foreign character at each place of an accepted string
    odd = [chr(c) for c in range(0x250)] + [chr(c) for c in range(0x250, 0x11000) if 0xd800 > c or c > 0xdfff
                                            if chr(c).isspace() or chr(c).isnumeric() or unicodedata.category(chr(c)) in ("Cf", "Pd", "Po", "Sm", "Zs")]
    for base in ("0", "5px", "2.5%", "10c", "3em", "4.25pt"):
        for i in range(0, len(odd), 100):
            yield {"k": "strings", "s": [base[:j] + ch + base[j:] for ch in odd[i:i + 100] for j in range(len(base) + 1)]}
    yield {"k": "strings", "s": [n + f(u) for n in ("0", "5", "2.5", "00.0", "0.", ".5", "1.2.3", "") for u in UN
                                 for f in (str.upper, str.title, str.swapcase, lambda u: u * 2, lambda u: u + "s", lambda u: " " + u)]}
    # values that differ by very little
    for v in (0, 0.25, 1, 5, 10, 33.33, 50, 99.99, 100, 640, 1e6):
        near = sorted({v, float(v), math.nextafter(v, math.inf), math.nextafter(v, -math.inf) if v else 0, v + 1e-12, v + 1e-9, v + 1e-7,
                       v + 1e-6, v + 1e-4, v + 0.001, v + 0.004, v + 0.005, v + 0.01, v + 0.1})
        a = [["size", x, u] for x in near for u in ("%", "px")]
        yield {"k": "pairs", "a": a, "b": a}
        for t in ("point", "stretch"):
            a = [[t, [x, "%"], [v, "%"]] for x in near] + [[t, [v, "%"], [x, "%"]] for x in near]
            yield {"k": "pairs", "a": a, "b": a}
        a = [["padding", [[x if i == j else v, "%"] for j in range(4)]] for x in near[::3] for i in range(4)]
        yield {"k": "pairs", "a": a, "b": a}
        a = [["layout", {"o": [[x, "%"], [v, "%"]], "x": [[y, "%"], [v, "%"]]}] for x in near[::3] for y in near[::3]]
        yield {"k": "pairs", "a": a, "b": a}
    pool = ["0", "1px", "2%", "3.5em", "4c", "10pt", "x", "5"]
    for n in range(0, 6):
        for t in itertools.islice(itertools.product(pool, repeat=n), 0, None, 1 if n < 4 else 7 if n == 4 else 61):
            if n:
                yield {"k": "short", "v": list(t)}


def rand_val(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(VALS)
    if r < 0.6:
        return round(rng.uniform(0, 1000), rng.choice([0, 1, 2, 3]))
    if r < 0.9:
        return rng.uniform(0, 10 ** rng.randint(-3, 7))
    return rng.choice([rng.randint(0, 10 ** 12), rng.randint(0, 200) + 0.005, rng.randint(0, 200) / 8, 1e15, 0.1 + 0.2])


def rand_sz(rng):
    return [rand_val(rng), rng.choice(UN)]


def rand_layout(rng):
    d = {}
    if rng.random() < 0.7:
        d["o"] = [rand_sz(rng), rand_sz(rng)]
    if rng.random() < 0.6:
        d["x"] = [rand_sz(rng), rand_sz(rng)]
    if rng.random() < 0.5:
        d["p"] = [rand_sz(rng) if rng.random() < 0.8 else None for _ in range(4)]
    if rng.random() < 0.5:
        d["a"] = [rng.choice(gs.HALS + [None]), rng.choice(gs.VALS + [None])]
    if rng.random() < 0.1:
        d["w"] = "line:5%"
    return d


def mutate(rng, v):
    """a copy that differs in one component, or not at all"""
    import copy
    v = copy.deepcopy(v)
    if rng.random() < 0.4 or v[0] == "layout" and not v[1] or v[0] not in ("layout", "size", "point", "stretch"):
        return v
    if v[0] == "size":
        return ["size"] + nudge(rng, v[1:])
    if v[0] != "layout":
        i = rng.choice([1, 2])
        v[i] = nudge(rng, v[i])
        return v
    k = rng.choice(list(v[1]))
    if k == "w":
        v[1]["w"] = "other"
    elif k == "a":
        i = rng.randint(0, 1)
        v[1]["a"][i] = rng.choice([gs.HALS, gs.VALS][i] + [None])
    else:
        i = rng.randrange(len(v[1][k]))
        s = v[1][k][i] or [0, "%"]
        v[1][k][i] = nudge(rng, s)
    return v


def nudge(rng, s):
    v, u = s
    return rng.choice([[v, rng.choice(UN)], [rand_val(rng), u], [v, u], [float(v), u], [math.nextafter(v, math.inf), u],
                       [v + rng.choice([1e-9, 1e-7, 1e-5, 0.001, 0.004, 0.01]), u], [round(v, 2), u]])


def random_case(rng, tier):
    k = rng.choice(["pairs", "strings", "print", "short", "transform", "transform"])
    if k == "pairs":
        a = [["layout", rand_layout(rng)] for _ in range(3)] + [["size"] + rand_sz(rng), ["point", rand_sz(rng), rand_sz(rng)]]
        return {"k": k, "a": a, "b": [mutate(rng, x) for x in a] + [["other", "none"]]}
    if k == "strings":
        out = []
        for _ in range(12):
            num = rng.choice([str(rng.randint(0, 10 ** rng.randint(1, 6))), f"{rng.uniform(0, 999):.{rng.randint(1, 6)}f}",
                              "0" * rng.randint(1, 3) + str(rng.randint(0, 99)),
                              str(rng.randint(0, 10 ** rng.randint(7, 40))), f"{rng.randint(0, 99)}.{rng.randint(0, 10 ** 40):0{rng.randint(8, 40)}d}"])
            s = num + rng.choice(UN)
            r = rng.random()
            if r < 0.5:
                i = rng.randint(0, len(s))
                s = s[:i] + rng.choice(ALPHA + "\n\tX,\u0663\u00b2\uff15\u00a0%") + s[i:]
            elif r < 0.65 and len(s) > 1:
                i = rng.randrange(len(s))
                s = s[:i] + s[i + 1:]
            elif r < 0.75:
                s = rng.choice(["-", "+", " ", ""]) + s + rng.choice(["\n", " ", "\r\n", "px", "", "%"])
            out.append(s)
        return {"k": k, "s": out}
    if k == "print":
        return {"k": k, "v": [rand_sz(rng) for _ in range(10)]}
    if k == "short":
        return {"k": k, "v": [rng.choice(["0", f"{round(rng.uniform(0, 100), 2)}{rng.choice(UN)}", f"{rng.randint(0, 99)}%"])
                              for _ in range(rng.choice([1, 2, 2, 3, 4, 4, 5]))]}
    return {"k": k, "L": rand_layout(rng), "size": rng.choice([[640, 360], [1920, 1080], [None, None], [640, None], [None, 480]])}
