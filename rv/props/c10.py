"""C10: reading is a deterministic, isolated function of document and options.

A case is a history of operations in one process: reads (fresh and shared reader objects, all option sets), writes,
edits and detections. Monitors:
 * every read - also one that raises - is compared with the same read done as the *first* operation of pristine
   processes started with other hash seeds (rv/zygote.py);
 * after every operation every set returned so far, except the one just edited or written, must dump as before;
 * at the end every document is read again with a fresh and with a shared reader, and every mutable object two sets
   share is mutated to see whether both sets change.
"""
import json
import random

from .. import core, model, writers, zygote
from ..gen import docs, laid
from ..gen import scc as gscc

core.setup_path()
from pycaption import (Caption, CaptionConverter, CaptionList, CaptionNode, CaptionSet, detect_format)  # noqa: E402
from pycaption.base import merge_concurrent_captions  # noqa: E402
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Size,  # noqa: E402
                                UnitEnum, VerticalAlignmentEnum)

ID = "C10"
PLAN = {"quick": 2000, "thorough": 60000}
CAP = {"quick": 150, "thorough": 700}
RULE = ("distinct = histories that differ in documents, options, operations or hash seeds; non-trivial = at least one read "
        "follows an earlier operation of the same process and is compared with a pristine process")
ASSUMPTIONS = ["a raised exception is part of the result: type and message must equal those of the pristine process",
               "the order of keys inside a style dictionary is not part of equivalence",
               "pristine process = interpreter that only imported pycaption, forked for that one read"]
FLOORS = {"reads-compared": 4000, "isolation-checks": 10000, "reader-reused": 1500, "reused-after-raise": 100, "edits": 800,
          "hash-seeds": 4, "docs": 1500, "final-rereads": 2000}
HASH_SEEDS = [1, 2, 3, 7, 42, 1234]


# ------------------------------------------------------------------ generation
def damage(rng, doc, fmt):
    n = len(doc)
    if not n:
        return doc
    r = rng.random()
    if fmt == "scc" and r < 0.7:
        lines = doc.split("\n")
        ii = [i for i, x in enumerate(lines) if "\t" in x or " " in x[8:]]
        if ii:
            i = rng.choice(ii)
            w = lines[i].replace("\t", "\t ").split(" ")
            q = rng.random()
            if q < 0.35:
                lines = lines[:i] + [" ".join(w[: max(2, rng.randint(1, len(w)))]).replace("\t ", "\t")]
            elif q < 0.6:
                j = rng.randrange(len(w))
                lines[i] = " ".join(w[:j] + w[j + 1:]).replace("\t ", "\t")
            elif q < 0.75:
                lines[i] = " ".join(w + [rng.choice(["942f", "942c", "9420", "9429", "9425", "94ad", "91ae", "9421"])] * 2).replace("\t ", "\t")
            elif q < 0.85:
                lines[i] = lines[i].replace(":", ".", 1)
            else:
                lines[i] += " " + " ".join("c1c1" for _ in range(20))
            return "\n".join(lines)
    if r < 0.3:
        return doc[: rng.randint(0, n)]
    if r < 0.6:
        a = rng.randrange(n)
        return doc[:a] + doc[a + rng.randint(1, 30):]
    if r < 0.8:
        a = rng.randrange(n)
        return doc[:a] + rng.choice(["&", "<", "-->", "\n", "\n\n", '"', "}", "{0}{0}", "x", "00:00:00.000", "</p>", "<br/>", "<span>"]) + doc[a:]
    lines = doc.split("\n")
    i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
    lines[i], lines[j] = lines[j], lines[i]
    return "\n".join(lines)


def a_doc(rng):
    c = docs.random_doc(rng, units=rng.choice([("%",), ("%", "px", "em", "c")]),
                        fmts=("dfxp", "dfxp", "sami", "sami", "vtt", "srt", "microdvd", "scc", "scc", "scc"),
                        odd=rng.choice([0, 0.25]))
    c = dict(c)
    if rng.random() < 0.2:
        c["doc"] = damage(rng, c["doc"], c["fmt"])
    return options(rng, c)


def options(rng, c):
    c = dict(c)
    kw = dict(c.get("kw") or {})
    if c["fmt"] in ("srt", "vtt", "microdvd", "scc") and rng.random() < 0.3:
        kw["lang"] = rng.choice(docs.LANGS)
    if c["fmt"] == "scc":
        if rng.random() < 0.3:
            kw["simulate_roll_up"] = True
        if rng.random() < 0.2:
            kw["offset"] = rng.choice([1, 5, -1, 0.5])
    if c["fmt"] == "vtt" and rng.random() < 0.3:
        c["init"] = {"ignore_timing_errors": rng.random() < 0.5, "time_shift_milliseconds": rng.choice([0, 0, 250, -100])}
    c["kw"] = kw
    return c


def random_case(rng, tier):
    pool = [a_doc(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    if rng.random() < 0.5:
        # one reader family dominates: several documents of one format, so reader objects really are reused
        f = rng.choice(["scc", "scc", "scc", "dfxp", "sami", "vtt", "srt", "microdvd"])
        for _ in range(rng.choice([1, 2, 3])):
            c = options(rng, docs.random_doc(rng, fmts=(f,)))
            if rng.random() < 0.3:
                c = dict(c, doc=damage(rng, c["doc"], f))
            pool.append(c)
    for c in list(pool):
        if rng.random() < 0.2:
            pool.append(options(rng, c))
        if rng.random() < 0.15:
            pool.append(dict(c, doc=damage(rng, c["doc"], c["fmt"])))
    ops = []
    nslots = rng.choice([1, 1, 2])
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        r = rng.random()
        if r < 0.55:
            ops.append(["read", rng.randrange(len(pool)), None if rng.random() < 0.3 else rng.randrange(nslots),
                        rng.random() < 0.15])
        elif r < 0.68:
            fmt = rng.choice(list(writers.CLASSES))
            o = {"size": [640, 360]}
            if rng.random() < 0.4:
                o["relativize"] = rng.random() < 0.5
                o["fit_to_screen"] = rng.random() < 0.5
            if fmt in ("dfxp", "dfxp_single") and rng.random() < 0.3:
                o["inline"] = True
            ops.append(["write", rng.randrange(8), fmt, o])
        elif r < 0.92:
            ops.append(["edit", rng.randrange(8), rng.randrange(1 << 30)])
        elif r < 0.96:
            ops.append(["detect", rng.randrange(len(pool))])
        else:
            ops.append(["new", rng.randrange(1 << 30)])
    return {"docs": pool, "ops": ops, "hs": rng.sample(HASH_SEEDS, 2)}


def systematic(tier):
    """Every format x every kind of first operation x reader reuse, with a document that leaves state behind."""
    rng = random.Random(10)
    for fmt in ["scc"] * 6 + ["dfxp", "sami", "vtt", "srt", "microdvd"]:
        for rep in range(6 if fmt == "scc" else 3):
            a, b = [dict(docs.random_doc(rng, fmts=(fmt,)), kw={}) for _ in range(2)]
            cut = dict(a, doc=a["doc"][: len(a["doc"]) * (rep + 1) // 7])
            for first in ([["read", 0, 0, False]], [["read", 2, 0, False]], [["read", 0, 0, False], ["edit", 0, rep]],
                          [["new", rep], ["edit", 0, rep]], [["read", 0, 0, False], ["write", 0, rng.choice(list(writers.CLASSES)), {}]]):
                yield {"docs": [a, b, cut], "ops": first + [["read", 1, 0, False], ["read", 0, 0, False]],
                       "hs": [HASH_SEEDS[rep % 3], HASH_SEEDS[3 + rep % 3]]}
    if True:
        # languages and classes that a hash-ordered container would permute
        for k in range(6):
            langs = ["en-US", "fr-FR", "de-DE", "es-ES", "it-IT", "pt-BR", "zh-TW", "ja-JP"]
            random.Random(k).shuffle(langs)
            css = "".join(f".{x[:2].upper()}CC {{Name: n; lang: {x}; SAMIType: CC;}}\n" for x in langs)
            ps = "".join(f"<P class={x[:2].upper()}CC>{x}</P>" for x in langs)
            sami = f"<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\n{css}--></STYLE></HEAD><BODY><SYNC start=0>{ps}</SYNC></BODY></SAMI>"
            names = [f"c{i}" for i in range(8)]
            random.Random(k).shuffle(names)
            st = "".join(f'<style xml:id="{n}" tts:color="{n}" tts:fontStyle="italic"/>' for n in names)
            rg = "".join(f'<region xml:id="{n}r" tts:origin="{i}% {i}%"/>' for i, n in enumerate(names))
            divs = "".join(f'<div xml:lang="{x}"><p begin="0s" end="1s" style="{" ".join(names)}"><span region="{names[0]}r" style="{names[1]} {names[2]}">a</span>'
                           f'<span region="{names[3]}r">b</span></p></div>' for x in langs)
            dfxp = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling>' + st + "</styling><layout>"
                    + rg + f"</layout></head><body>{divs}</body></tt>")
            yield {"docs": [{"fmt": "sami", "doc": sami}, {"fmt": "dfxp", "doc": dfxp}],
                   "ops": [["read", 0, 0, False], ["read", 1, 0, False]], "hs": [HASH_SEEDS[k], HASH_SEEDS[(k + 1) % 6]]}


def valid(case):
    return (bool(case["docs"]) and len(case["hs"]) == 2 and all(isinstance(d["doc"], str) and d["fmt"] in docs.READERS for d in case["docs"])
            and all(o[0] in ("write", "edit", "new") or o[1] < len(case["docs"]) for o in case["ops"])
            and all(len(o) == {"read": 4, "write": 4, "edit": 3, "detect": 2, "new": 2}[o[0]] for o in case["ops"]))


# ------------------------------------------------------------------ edits
# Sizes, points and stretches are documented as value objects ("don't change after creation", "should return flyweights"),
# so two sets may share one; the rest may be edited in place
GEO = (Layout, Alignment, Padding)
MUT = (CaptionSet, Caption, CaptionNode, CaptionList) + GEO


def attrs(x):
    """Values of the attributes of an object, in its dictionary or in slots."""
    slots = [n for c in type(x).__mro__ for n in ([c.__slots__] if isinstance(vars(c).get("__slots__"), str) else vars(c).get("__slots__", ()))]
    return list(getattr(x, "__dict__", {}).values()) + [getattr(x, n) for n in slots if n not in ("__dict__", "__weakref__") and hasattr(x, n)]


def walk(root):
    """Mutable objects reachable from a caption set, in a deterministic order."""
    out, seen, todo = [], set(), [root]
    while todo:
        x = todo.pop(0)
        if id(x) in seen:
            continue
        if isinstance(x, dict):
            kids = list(x.values())
        elif isinstance(x, (list, tuple)):
            kids = list(x) + attrs(x)
        elif isinstance(x, MUT):
            kids = attrs(x)
        else:
            continue
        seen.add(id(x))
        if not isinstance(x, tuple):
            out.append(x)
        todo += kids
    return out


def poke(x, rng=None):
    """Change one mutable object in place, the way a client editing a caption may."""
    try:
        _poke(x, rng)
    except AttributeError:
        if not isinstance(x, GEO):  # a layout that cannot be changed in place may be shared
            raise


def _poke(x, rng=None):
    n = rng.randrange(100) if rng else 7
    if isinstance(x, CaptionSet):
        x.add_style(f"rv{n}", {"color": f"rv{n}"})
    elif isinstance(x, Caption):
        [lambda: setattr(x, "start", x.start + 1), lambda: setattr(x, "layout_info", Layout(webvtt_positioning=f"rv{n}")),
         lambda: x.style.__setitem__("rv", n), lambda: x.nodes.append(CaptionNode.create_text(f"rv{n}")),
         lambda: setattr(x, "style", {"rv": n})][n % 5 if rng else 0]()
    elif isinstance(x, CaptionNode):
        if isinstance(x.content, dict) and n % 2:
            x.content["rv"] = n
        elif n % 3 == 0:
            x.layout_info = Layout(webvtt_positioning=f"rv{n}")
        else:
            x.content = f"rv{n}" if not isinstance(x.content, dict) else {"rv": n}
    elif isinstance(x, dict):
        x[f"rv{n}"] = n if all(not isinstance(v, list) or not isinstance(v, CaptionList) for v in x.values()) else CaptionList()
    elif isinstance(x, CaptionList):
        if n % 3 == 0 or not x:
            x.layout_info = Layout(webvtt_positioning=f"rv{n}")
        elif n % 3 == 1:
            x.append(Caption(1, 2, [CaptionNode.create_text(f"rv{n}")]))
        else:
            x.pop()
    elif isinstance(x, list):
        x.append(x[0] if x else f"rv{n}")
    elif isinstance(x, Layout):
        x.webvtt_positioning = f"rv{n}"
    elif isinstance(x, Alignment):
        x.horizontal, x.vertical = HorizontalAlignmentEnum.END, VerticalAlignmentEnum.CENTER if x.vertical is not VerticalAlignmentEnum.CENTER \
            else VerticalAlignmentEnum.TOP
    elif isinstance(x, Padding):
        x.before = Size(n, UnitEnum.PIXEL)


def edit(cs, seed):
    rng = random.Random(seed)
    r = rng.random()
    langs = cs.get_languages()
    lang = rng.choice(langs) if langs else None
    if r < 0.2:
        cs.add_style(f"rv{rng.randrange(9)}", {"color": "rv", "italics": True})
    elif r < 0.25:
        for _, rules in cs.get_styles():
            rules["rv"] = "rv"
    elif r < 0.3:
        cs.set_styles({"rv": {"bold": True}})
    elif r < 0.35:
        cs.adjust_caption_timing(offset=rng.choice([1000000, -1000000]), rate_skew=rng.choice([1.0, 1.1]))
    elif r < 0.4:
        cs.set_captions("rv", CaptionList([Caption(0, 1000000, [CaptionNode.create_text("rv")])]))
    elif r < 0.45:
        merge_concurrent_captions(cs)
    elif r < 0.5 and lang:
        cs.set_layout_info(lang, Layout(webvtt_positioning="rv"))
    elif r < 0.65 and lang and cs.get_captions(lang):
        c = rng.choice(list(cs.get_captions(lang)))
        c.style["rv"] = "rv"
    elif r < 0.7 and lang and cs.get_captions(lang):
        c = rng.choice(list(cs.get_captions(lang)))
        for n in c.nodes:
            n.layout_info = None
            n.content = "rv" if n.type_ == CaptionNode.TEXT else n.content
    else:
        poke(rng.choice(walk(cs)), rng)


# ------------------------------------------------------------------ the monitor
def norm(x):
    return json.loads(json.dumps(x))


class History:
    def __init__(self, case, m):
        self.case, self.m = case, m
        self.slots, self.raised = {}, set()
        self.sets, self.dumps = [], []
        self.ref = {}
        self.ops = 0

    def reference(self, d):
        doc = self.case["docs"][d]
        key = json.dumps([doc["fmt"], doc["doc"], doc.get("init"), doc.get("kw")])
        if key not in self.ref:
            a, b = [zygote.get(h).ask({"op": "read", "doc": doc}) for h in self.case["hs"]]
            self.m.counts["pristine-reads"] += 2
            self.m.eq(a, b, "hash-seed-dependent-read", {"doc": d})
            self.ref[key] = a
            for h in self.case["hs"]:
                self.m.sets["hash-seeds"].add(str(h))
            self.m.sets["docs"].add(core.stable_hash(key))
        return self.ref[key]

    def read(self, d, slot, via=False, final=False):
        m, doc = self.m, self.case["docs"][d]
        want = self.reference(d)
        reuse = False
        if slot is None:
            reader = docs.reader(doc)
        else:
            key = (doc["fmt"], json.dumps(doc.get("init") or {}, sort_keys=True), slot)
            reuse = key in self.slots
            reader = self.slots.setdefault(key, None) or docs.reader(doc)
            self.slots[key] = reader
        kw = doc.get("kw") or {}
        if via and not kw:
            o = m.call("read:" + doc["fmt"], lambda: CaptionConverter().read(doc["doc"], reader).captions)
            if not o.ok and want[0] == "exc" and want[1] == "AttributeError":
                return      # CaptionConverter wraps it
        else:
            o = m.call("read:" + doc["fmt"], reader.read, doc["doc"], **kw)
        if o.ok:
            got = ["ok", norm(model.dump(o.value))]
        else:
            got = ["exc"] + zygote.exc_repr(o.exc)
        m.hit("reads-compared")
        m.hit("reads:" + doc["fmt"])
        if reuse:
            m.hit("reader-reused")
            m.hit("reused:" + doc["fmt"])
            if key in self.raised:
                m.hit("reused-after-raise")
        kind = ("reader-reuse" if reuse else "history") + ("-" + doc["fmt"])
        if got != want:
            m.fail(kind, f"read #{self.ops} of document {d} differs from a pristine process: " + diff(got, want))
        m.counts["checks"] += 1
        if slot is not None and not o.ok:
            self.raised.add(key)
        if o.ok and not final:
            self.sets.append(o.value)
            self.dumps.append(got[1])
        return o.value if o.ok else None

    def untouched(self, op, but=None):
        for i, cs in enumerate(self.sets):
            if i == but:
                continue
            self.m.hit("isolation-checks")
            now = norm(model.dump(cs))
            if now != self.dumps[i]:
                self.m.fail("isolation-" + op[0], f"operation {op!r} changed set {i}, which it did not touch: " + diff(now, self.dumps[i]))

    def step(self, op):
        m = self.m
        if op[0] == "read":
            self.read(op[1], op[2], op[3])
            but = None
        elif op[0] == "detect":
            d = self.case["docs"][op[1]]["doc"]
            m.call("detect", detect_format, d)
            but = None
        elif op[0] == "new":
            cs = CaptionSet({"en": CaptionList([Caption(op[1] % 1000, 2000000, [CaptionNode.create_text("new")])])})
            self.sets.append(cs)
            self.dumps.append(norm(model.dump(cs)))
            m.hit("built-by-hand")
            but = None
        else:
            if not self.sets:
                return
            but = op[1] % len(self.sets)
            cs = self.sets[but]
            if op[0] == "edit":
                m.counts["edits"] += 1
                m.call("edit", edit, cs, op[2])
            else:
                m.call("write:" + op[2], lambda: writers.make(op[2], op[3]).write(cs, **writers.write_kw(op[2], op[3])))
        self.ops += 1
        self.untouched(op, but)
        if but is not None:
            try:
                self.dumps[but] = norm(model.dump(self.sets[but]))
            except Exception:
                # an edit may leave something the dump cannot describe; that set is out of the game
                del self.sets[but], self.dumps[but]
        m.state("op-pairs", op[0], self.prev)
        self.prev = op[0] if op[0] != "write" else "write:" + op[2]

    prev = None

    def shared(self):
        """A mutable object two sets share: changing it through one must not show in the other."""
        m = self.m
        owner = {}
        for i, cs in enumerate(self.sets):
            for x in walk(cs):
                m.hit("objects-walked")
                if id(x) in owner and owner[id(x)] != i:
                    j = owner[id(x)]
                    poke(x)
                    now = norm(model.dump(self.sets[j]))
                    if now != self.dumps[j]:
                        m.fail("isolation-shared", f"sets {j} and {i} share a {type(x).__name__}; editing it through set {i} changes set {j}: "
                               + diff(now, self.dumps[j]))
                    self.dumps[i] = norm(model.dump(cs))
                owner[id(x)] = i


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"at {path or '/'}: {str(a)[:200]} instead of {str(b)[:200]}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k, "<absent>") != b.get(k, "<absent>"):
                return diff(a.get(k, "<absent>"), b.get(k, "<absent>"), f"{path}/{k}")
    if isinstance(a, list):
        for i in range(min(len(a), len(b))):
            if a[i] != b[i]:
                return diff(a[i], b[i], f"{path}/{i}")
        if len(a) != len(b):
            return f"at {path or '/'}: {len(a)} items instead of {len(b)}: {str(a)[:200]} instead of {str(b)[:200]}"
    return f"at {path or '/'}: {str(a)[:200]} instead of {str(b)[:200]}"


def run(case, m):
    h = History(case, m)
    for op in case["ops"]:
        h.step(op)
    m.nontrivial = h.ops > 0
    # later reads, after everything above
    for d in range(len(case["docs"])):
        for slot in (None, 0):
            h.read(d, slot, final=True)
            m.hit("final-rereads")
    h.untouched(["final-rereads"])
    h.shared()
