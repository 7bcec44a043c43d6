"""C09: writing never alters its input and is deterministic.

A case is a history of writes over a few caption sets: shared writer objects, fresh ones, all option combinations, sets
edited or rebuilt in between, writes that raise. Monitors:
 * a structural snapshot of every set of the history, taken before the call, must equal the one after it, raise or not;
 * the outcome (exact output, or exception) must equal the outcome of the same write as the *first* operation of pristine
   processes with other hash seeds (rv/zygote.py; the set travels as a pickle), hence the same for every repetition.
"""
import base64
import copy
import json
import pickle
import random

from .. import core, model, writers, zygote
from ..gen import docs, laid
from ..gen import sets as gs
from ..gen import text as gt
from . import c07
from .c10 import diff, edit, norm

core.setup_path()
from pycaption import CaptionConverter  # noqa: E402
from pycaption.base import CaptionList  # noqa: E402

ID = "C09"
PLAN = {"quick": 2750, "thorough": 90000}
CAP = {"quick": 150, "thorough": 700}
RULE = ("distinct = histories that differ in sets, operations, options or hash seeds; non-trivial = at least one write was "
        "compared with a pristine process and the sets with their snapshots")
ASSUMPTIONS = ["snapshot = languages in order, CaptionList layouts, captions, times, nodes, style contents, layouts, set styles and layout; "
               "private attributes are not part of it",
               "a write that raises must raise the same exception type and message in every repetition (type only for RecursionError)",
               "pristine process = interpreter that only imported pycaption, forked for that one write"]
FLOORS = {"writes-compared": 8000, "repeats": 3000, "writer-reused": 2500, "reused-after-raise": 60, "raised": 300, "snapshots": 15000,
          "hash-seeds": 4, "option-combinations": 60, "unbalanced-sets": 200, "after-edit": 200}
HASH_SEEDS = [1, 2, 3, 7, 42, 1234]
FMTS = list(writers.CLASSES)


# ------------------------------------------------------------------ generation
def tangle(rng, cs):
    """style nodes without partners, stray ends, text outside"""
    for _, d in cs["langs"]:
        for c in d["caps"]:
            if rng.random() < 0.6:
                i = rng.randint(0, len(c["n"]))
                c["n"].insert(i, ["S", rng.choice([0, 1, 1]), rng.choice([{"italics": True}, {"bold": True}, {"color": "red"}, {"class": "c1"},
                                                                         {"text-align": "left"}, {}]), None])
    return cs


def breakage(rng, cs):
    """something a writer stumbles over, in the middle of its work"""
    caps = [c for _, d in cs["langs"] for c in d["caps"]]
    if caps:
        c = rng.choice(caps)
        k = rng.random()
        if k < 0.6:
            L = {"o": [[10, "px"], [10, "px"]], "x": [[20, "px"], [20, "px"]], "a": ["left", "top"]}
            rng.choice([lambda: c.__setitem__("layout", L), lambda: c["n"].append(["t", "px", L])])()
        elif k < 0.8:
            c["n"].append(["t", 5 if rng.random() < 0.5 else None])
        else:
            c["n"].append(["S", 1, {"class": 7, "italics": True}, None])
    return cs


def a_set(rng):
    r = rng.random()
    if r < 0.3:
        cs = c07.api_set(rng)
    elif r < 0.55:
        cs = laid.caption_set(rng, rng.choice(["%", "%", "px", "em", "c"]), nlang=(1, 2, 3), set_level=0.3)
    elif r < 0.7:
        langs = rng.sample(gs.LANGS, rng.choice([1, 2, 3, 4]))
        out = []
        for x in langs:
            caps = [{"s": a, "e": b, "n": gs.nodes_of_lines(rng, [gt.line(rng) for _ in range(rng.choice([1, 2, 3]))], styles=0.4, split=0.2)}
                    for a, b in gs.times(rng, gt.count(rng, [0, 1, 3, 5], 60), rng.choice(["any", "sorted", "runs"]))]
            out.append([x, {"caps": caps}])
        cs = {"langs": out, "styles": {"s1": {"color": "red"}, "s2": {"italics": True, "class": "s1"}} if rng.random() < 0.5 else {}}
    else:
        d = docs.random_doc(rng, units=rng.choice([("%",), ("%", "px", "em", "c")]),
                            fmts=("dfxp", "dfxp", "sami", "sami", "vtt", "srt", "microdvd", "scc"), odd=rng.choice([0, 0.25]))
        return {"doc": d}
    src = {"set": cs}
    if rng.random() < 0.35:
        tangle(rng, cs)
        src["tangled"] = True
    if rng.random() < 0.2:
        breakage(rng, cs)
    if rng.random() < 0.25:
        src["alias"] = True
    if rng.random() < 0.04:
        src["plain-lists"] = True
    return src


def options(rng, fmt, langs):
    o = {}
    for k in ("relativize", "fit_to_screen"):
        if rng.random() < 0.5:
            o[k] = rng.random() < 0.5
    r = rng.random()
    if r < 0.6:
        o["size"] = rng.choice([[640, 360], [640, 360], [1920, 1080], [640, None]])
    if fmt in ("dfxp", "dfxp_single") and rng.random() < 0.35:
        o["inline"] = True
    if fmt in writers.DFXP + ["vtt"] and langs and rng.random() < 0.3:
        o["force" if fmt != "vtt" else "lang"] = rng.choice(langs)
    elif fmt in writers.DFXP and rng.random() < 0.05:
        o["force"] = "xx"
    if fmt == "dfxp_single" and rng.random() < 0.5:
        o["pos"] = gs.layout(rng, unit=rng.choice(["%", "%", "px"]))
    return o


def random_case(rng, tier):
    pool = [a_set(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    langs = [x for s in pool if "set" in s for x, _ in s["set"]["langs"]] or ["en-US", "en"]
    combos = []
    focus = rng.choice(FMTS) if rng.random() < 0.6 else None
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = focus or rng.choice(FMTS)
        combos.append([f, options(rng, f, langs)])
    ops = []
    for _ in range(rng.choice([2, 4, 6, 9, 14])):
        r = rng.random()
        if r < 0.88:
            ops.append(["write", rng.randrange(len(pool)), rng.randrange(len(combos)), None if rng.random() < 0.3 else rng.randrange(2),
                        rng.random() < 0.1])
        elif r < 0.95:
            ops.append(["edit", rng.randrange(len(pool)), rng.randrange(1 << 30)])
        else:
            ops.append(["rebuild", rng.randrange(len(pool))])
    return {"sets": pool, "combos": combos, "ops": ops, "hs": rng.sample(HASH_SEEDS, 2)}


def systematic(tier):
    """Every writer x every combination of its options, two sets on one writer object, each twice."""
    rng = random.Random(9)
    n = 0
    for f in FMTS:
        for rel in (True, False):
            for fit in (True, False):
                for size in ([640, 360], None):
                    for inline in ((True, False) if f in ("dfxp", "dfxp_single") else (None,)):
                        for force in ((None, "fr") if f in writers.DFXP + ["vtt"] else (None,)):
                            for pos in ((None, {"o": [[10, "px"], [20, "px"]], "a": ["left", "top"]}, {"o": [[10, "%"], [90, "%"]]})
                                        if f == "dfxp_single" else (None,)):
                                o = {"relativize": rel, "fit_to_screen": fit}
                                if size:
                                    o["size"] = size
                                if inline is not None:
                                    o["inline"] = inline
                                if force:
                                    o["lang" if f == "vtt" else "force"] = force
                                if pos:
                                    o["pos"] = pos
                                two = []
                                for unit in ("%", "px"):
                                    cs = laid.caption_set(rng, unit, nlang=(2,), set_level=0.3)
                                    cs["langs"][0][0], cs["langs"][1][0] = "en", "fr"
                                    cs["styles"] = {"en": {"color": "red", "lang": "en", "text-align": "left"}}
                                    two.append({"set": cs})
                                if n % 2:
                                    tangle(rng, two[n // 2 % 2]["set"])
                                    two[n // 2 % 2]["tangled"] = True
                                n += 1
                                yield {"sets": two, "combos": [[f, o]], "hs": [HASH_SEEDS[n % 6], HASH_SEEDS[(n + 1) % 6]],
                                       "ops": [["write", 0, 0, 0, False], ["write", 1, 0, 0, False], ["write", 0, 0, 0, False], ["write", 1, 0, 1, False],
                                               ["write", 0, 0, None, False]]}


def valid(case):
    n, k = len(case["sets"]), len(case["combos"])
    return (n > 0 and k > 0 and len(case["hs"]) == 2 and all(("set" in s) or ("doc" in s) for s in case["sets"])
            and all(o[1] < n and (o[0] != "write" or len(o) == 5 and o[2] < k) for o in case["ops"])
            and all(f in FMTS and isinstance(o, dict) for f, o in case["combos"]))


# ------------------------------------------------------------------ the monitor
def build(src):
    cs = zygote.source(src)
    if src.get("plain-lists"):
        for lang in cs.get_languages():
            cs.set_captions(lang, list(cs.get_captions(lang)))
    if src.get("alias"):
        # equal style dictionaries and layouts become one object, as a program building sets would have it
        seen = {}

        def one(x):
            if x is None:
                return x
            k = repr(model.d_val(x)) if isinstance(x, dict) else "L" + repr(model.d_layout(x))
            return seen.setdefault(k, x)
        for lang in cs.get_languages():
            caps = cs.get_captions(lang)
            caps.layout_info = one(caps.layout_info) if isinstance(caps, CaptionList) else None
            for c in caps:
                c.style, c.layout_info = one(c.style), one(c.layout_info)
                for n in c.nodes:
                    n.layout_info = one(n.layout_info)
                    if isinstance(n.content, dict):
                        n.content = one(n.content)
        cs.set_styles({k: one(v) for k, v in cs.get_styles()})
        cs.layout_info = one(cs.layout_info)
    return cs


class History:
    def __init__(self, case, m):
        self.case, self.m = case, m
        self.sets = [self.make(s) for s in case["sets"]]
        self.dumps = [norm(model.dump(x)) for x in self.sets]
        self.slots, self.raised, self.ref, self.seen = {}, set(), {}, set()
        self.edited = set()

    def make(self, src):
        o = self.m.call("build", build, src)
        if not o.ok:
            # a document the reader refuses: nothing to write
            o = self.m.call("build", model.build, {"langs": [["en", {"caps": [{"s": 0, "e": 10 ** 6, "n": [["t", "x"]]}]}]]})
        return o.value

    def reference(self, i, fmt, opts):
        key = json.dumps([self.dumps[i], fmt, opts], sort_keys=True) + str(i)
        if key not in self.ref:
            blob = base64.b64encode(pickle.dumps(self.sets[i])).decode()
            a, b = [zygote.get(h).ask({"op": "write", "src": {"pickle": blob}, "fmt": fmt, "opts": opts}) for h in self.case["hs"]]
            self.m.counts["pristine-writes"] += 2
            self.m.check(a == b, f"hash-seed-{fmt}", lambda: "two pristine processes differ: " + text_diff(a, b))
            self.ref[key] = a
            for h in self.case["hs"]:
                self.m.sets["hash-seeds"].add(str(h))
        else:
            self.m.hit("repeats")
        return self.ref[key]

    def write(self, i, k, slot, via):
        m = self.m
        fmt, opts = self.case["combos"][k]
        want = self.reference(i, fmt, opts)
        wr, reuse, key = None, False, (k, slot)
        if slot is not None:
            reuse = key in self.slots
            wr = self.slots.get(key)
        if wr is None:
            wr = writers.make(fmt, opts)
            if slot is not None:
                self.slots[key] = wr
        kw = writers.write_kw(fmt, opts)
        if via and not kw:
            o = m.call("convert:" + fmt, lambda: CaptionConverter(self.sets[i]).write(wr))
            if not o.ok and want[0] == "exc" and want[1] == "AttributeError":
                o.exc = AttributeError(str(o.exc))
        else:
            o = m.call("write:" + fmt, wr.write, self.sets[i], **kw)
        # the input, and every other set, as before
        for j, cs in enumerate(self.sets):
            m.hit("snapshots")
            now = norm(model.dump(cs))
            if now != self.dumps[j]:
                m.fail(f"input-changed-{fmt}", f"writing set {i} as {fmt} {opts}{' (raised)' if not o.ok else ''} changed set {j}: "
                       + diff(now, self.dumps[j]))
        got = ["ok", o.value] if o.ok else ["exc"] + zygote.exc_repr(o.exc)
        m.hit("writes-compared")
        m.hit("written:" + fmt)
        m.sets["option-combinations"].add(json.dumps([fmt, sorted((a, str(b)) for a, b in (opts or {}).items() if a not in ("pos", "force", "lang", "size")),
                                                      "size" in opts, "pos" in opts, "force" in opts or "lang" in opts]))
        m.state("outcomes", fmt, o.ok, o.exc_name)
        if reuse:
            m.hit("writer-reused")
            if key in self.raised:
                m.hit("reused-after-raise")
        if i in self.edited:
            m.hit("after-edit")
        if self.case["sets"][i].get("tangled"):
            m.hit("unbalanced-sets")
        if got[0] == "exc":
            m.hit("raised")
            if got[1] == "RecursionError":
                got, want = got[:2], want[:2]
        m.counts["checks"] += 1
        if got != want:
            m.fail(f"{'writer-reuse' if reuse else 'history'}-{fmt}", f"set {i} as {fmt} {opts} differs from a pristine process: " + text_diff(got, want))
        if not o.ok and slot is not None:
            self.raised.add(key)

    def step(self, op):
        m = self.m
        if op[0] == "write":
            self.write(*op[1:])
        elif op[0] == "rebuild":
            if op[1] not in self.edited:
                self.sets[op[1]] = self.make(self.case["sets"][op[1]])
                now = norm(model.dump(self.sets[op[1]]))
                if now != self.dumps[op[1]]:
                    raise AssertionError("rebuilding a set gave another set")
        else:
            i = op[1]
            keep = copy.deepcopy(self.sets[i])
            m.call("edit", edit, self.sets[i], op[2])
            try:
                self.dumps[i] = norm(model.dump(self.sets[i]))
                m.hit("edits")
                self.edited.add(i)
            except Exception:
                self.sets[i] = keep
            for j in range(len(self.sets)):
                self.dumps[j] = norm(model.dump(self.sets[j]))


def text_diff(a, b):
    if a[0] != b[0] or a[0] != "ok":
        return f"{str(a)[:300]} instead of {str(b)[:300]}"
    x, y = a[1], b[1]
    n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return f"at offset {n}: {x[max(0, n - 60):n + 80]!r} instead of {y[max(0, n - 60):n + 80]!r}"


def run(case, m):
    h = History(case, m)
    m.nontrivial = False
    for op in case["ops"]:
        h.step(op)
        if op[0] == "write":
            m.nontrivial = True
