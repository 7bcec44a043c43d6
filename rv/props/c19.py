"""C19 retiming and merging: sequences of operations on live caption sets, checked step by step against a model
that is re-synchronised from observed values after each step."""
import math
from fractions import Fraction

from .. import core, model
from ..gen import sets as gs
from ..gen import text as gt

core.setup_path()
from pycaption.base import CaptionList, merge_concurrent_captions  # noqa: E402

ID = "C19"
PLAN = {"quick": 40000, "thorough": 500000}
RULE = ("caption sets of 1-4 languages with runs of equal timespans of every length and position, driven through "
        "sequences of 1-4 operations (adjust_caption_timing / merge_concurrent_captions / merge twice); observed "
        "(start, end, nodes) of every language before and after each step; systematic: all run-length compositions of "
        "up to 7 captions, all skew x offset pairs of a grid")
ASSUMPTIONS = ["new times equal t*skew+offset up to 16 units in the last place (float rounding); a caption whose exact new start is "
               "within that distance of 0 may be kept or dropped",
               "languages with an empty caption list stay empty"]
FLOORS = {"op:adjust_caption_timing": 3000, "op:merge_concurrent_captions": 3000, "dropped": 500, "merged_runs": 1000,
          "kept_single": 1000, "set_fully_dropped": 20}

def near(got, t, skew, off):
    """the float `got` is t*skew+off up to the rounding of a few float operations"""
    exact = Fraction(t) * skew + off
    return abs(Fraction(got) - exact) <= slack(t, skew, off)


def slack(t, skew, off):
    return 16 * Fraction(math.ulp(float(max(abs(Fraction(t) * skew), abs(off), 1e-6))))



def snap(cs):
    return [[x, [[c.start, c.end, [model.d_node(n) for n in c.nodes]] for c in cs.get_captions(x)]]
            for x in cs.get_languages()]


def run(case, m):
    cs = model.build(case["cs"])
    if case.get("plain"):      # plain lists are legal too
        for x in cs.get_languages():
            cs.set_captions(x, list(cs.get_captions(x)))
    before = snap(cs)
    for op in case["ops"]:
        if op[0] == "adj":
            skew, off = op[1], op[2]
            kw = {}
            if off is not None:
                kw["offset"] = off
            if skew is not None:
                kw["rate_skew"] = skew
            m.must("adjust_caption_timing", cs.adjust_caption_timing, **kw)
            after = snap(cs)
            _check_adjust(before, after, Fraction(1 if skew is None else skew), Fraction(0 if off is None else off), m)
        else:
            r = m.must("merge_concurrent_captions", merge_concurrent_captions, cs)
            m.check(r is not None and hasattr(r, "get_languages"), "merge:no-result", "no caption set returned")
            after = snap(r)
            _check_merge(before, after, m)
            r2 = m.must("merge_concurrent_captions", merge_concurrent_captions, r)
            again = snap(r2)
            m.check(again == after, "merge:not-idempotent", lambda: f"{after} -> {again}")
            cs = r2
        before = after


def _check_adjust(before, after, skew, off, m):
    m.eq([x for x, _ in after], [x for x, _ in before], "adjust:languages")
    for (x, b), (_, a) in zip(before, after):
        i = 0
        for s, e, nodes in b:
            ns, ne = Fraction(s) * skew + off, Fraction(e) * skew + off
            tol = slack(s, skew, off)
            present = i < len(a) and near(a[i][0], s, skew, off) and near(a[i][1], e, skew, off) and a[i][2] == nodes
            if ns < -tol:
                m.hit("dropped")
                continue
            if abs(ns) <= tol and ns != 0 and not present:
                continue
            m.check(i < len(a), "adjust:lost", lambda: f"lang {x}: caption with new start {float(ns)} missing: {a}")
            m.check(near(a[i][0], s, skew, off) and near(a[i][1], e, skew, off), "adjust:time",
                    lambda: f"lang {x}: ({s},{e})*{float(skew)}+{float(off)} should be ({float(ns)},{float(ne)}) got "
                            f"({a[i][0]},{a[i][1]})")
            m.check(a[i][2] == nodes, "adjust:nodes", lambda: f"lang {x}: {nodes} -> {a[i][2]}")
            i += 1
        m.check(i == len(a), "adjust:extra", lambda: f"lang {x}: unexpected {a[i:]}")
        if b and not a:
            m.hit("set_fully_dropped")


def _check_merge(before, after, m):
    m.eq([x for x, _ in after], [x for x, _ in before], "merge:languages")
    for (x, b), (_, a) in zip(before, after):
        exp, i = [], 0
        while i < len(b):
            j = i
            while j + 1 < len(b) and b[j + 1][0] == b[i][0] and b[j + 1][1] == b[i][1]:
                j += 1
            exp.append(b[i:j + 1])
            i = j + 1
        m.check(len(a) == len(exp), "merge:count",
                lambda: f"lang {x}: {[(c[0], c[1]) for c in b]} -> {[(c[0], c[1]) for c in a]}")
        for run_, got in zip(exp, a):
            m.check((got[0], got[1]) == (run_[0][0], run_[0][1]), "merge:time",
                    lambda: f"lang {x}: {run_[0][:2]} -> {got[:2]}")
            want = []
            for k, c in enumerate(run_):
                if k:
                    want.append("SEP")
                want += c[2]
            nodes = got[2]
            ok = len(nodes) == len(want) and all(
                (n[0] == "b" if w == "SEP" else n == w) for n, w in zip(nodes, want))
            m.check(ok, "merge:nodes", lambda: f"lang {x}: expected {want} got {nodes}")
            m.hit("merged_runs" if len(run_) > 1 else "kept_single")
            m.state("run", len(run_), len(exp))


# ------------------------------------------------------------ workload
def _nodes(rng):
    lines = [gt.plain(rng, 2) for _ in range(rng.choice([1, 1, 2]))]
    return gs.nodes_of_lines(rng, lines, split=0.2, styles=0.3, lead=0.1)


def _cap(rng, t):
    c = {"s": t[0], "e": t[1], "n": _nodes(rng)}
    if rng.random() < 0.2:
        c["layout"] = gs.layout(rng)
    if rng.random() < 0.2:
        c["style"] = gs.style_content(rng)
    return c


SKEWS = [None, 1, 1.0, 0.5, 2, 4, 0.25, 1.1, 0.9, 1.001, 0.999, 25 / 23.976, 1001 / 1000, 1e-3, 3.999]


def _ops(rng):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        if rng.random() < 0.5:
            ops.append(["merge"])
        else:
            sk = rng.choice(SKEWS) if rng.random() < 0.7 else rng.uniform(0.001, 4)
            off = rng.choice([None, 0, 1, -1, 1000, -1000, 10 ** 6, -10 ** 6, 0.5, -0.5]) if rng.random() < 0.5 else \
                rng.randint(-2 * 10 ** 8, 2 * 10 ** 8)
            ops.append(["adj", sk, off])
    return ops


def random_case(rng, tier):
    langs = []
    for x in rng.sample(gs.LANGS, rng.choice([1, 1, 2, 3, 4])):
        n = gt.count(rng, [0, 1, 2, 3, 4, 6, 9], 200)
        mode = rng.choice(["runs", "runs", "sorted", "any"])
        ts = gs.times(rng, n, mode)
        if rng.random() < 0.5:      # small numbers: boundaries at zero, partial coincidences
            pool = [rng.randint(0, 5) * 10 ** 6 for _ in range(3)]
            ts = []
            for _ in range(n):
                if ts and rng.random() < 0.45:
                    ts.append(ts[-1])
                else:
                    a, b = rng.choice(pool), rng.choice(pool)
                    ts.append((min(a, b), max(a, b)))
        if rng.random() < 0.15:
            ts = [(gs.frac(rng, a), gs.frac(rng, b)) for a, b in ts]
        langs.append([x, gs.one_lang([_cap(rng, t) for t in ts], gs.layout(rng) if rng.random() < 0.2 else None)])
    return {"cs": {"langs": langs}, "ops": _ops(rng), "plain": rng.random() < 0.2}


def compositions(n):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield [k] + r


def systematic(tier):
    for n in range(0, 8 if tier == "quick" else 10):
        for comp in compositions(n):
            # distinct spans / spans sharing only the start / sharing only the end / A B A recurrence
            for kind in range(4):
                caps, k = [], 0
                for r, ln in enumerate(comp):
                    s, e = [(2 * r, 2 * r + 1), (5, 6 + r), (r, 50), ((r % 2) * 10, (r % 2) * 10 + 5)][kind]
                    for _ in range(ln):
                        caps.append({"s": s * 10 ** 6, "e": e * 10 ** 6, "n": [["t", f"c{k}"]]})
                        k += 1
                yield {"cs": {"langs": [["en", gs.one_lang(caps)]]}, "ops": [["merge"]]}
    for sk in SKEWS + [0.001 * k for k in range(1, 4000, 401)]:
        for off in (None, 0, 1, -1, 999999, -999999, 10 ** 6, -10 ** 6, -1000001, -5 * 10 ** 6, -10 ** 12, 10 ** 12, 0.5, -0.5):
            caps = [{"s": k * 500000, "e": k * 500000 + 500000, "n": [["t", f"c{k}"]]} for k in range(14)]
            yield {"cs": {"langs": [["en", gs.one_lang(caps)], ["fr", gs.one_lang(caps[::-1])]]}, "ops": [["adj", sk, off]]}


def valid(case):
    for _, d in case["cs"]["langs"]:
        if not all(0 <= c["s"] <= c["e"] and c["n"] for c in d["caps"]):
            return False
    for o in case["ops"]:
        if o[0] == "adj" and (len(o) != 3 or (o[1] is not None and o[1] <= 0)):
            return False
    return len({x for x, _ in case["cs"]["langs"]}) == len(case["cs"]["langs"])
