"""Caption-set models (JSON) for the writers."""
from . import text as gt

DAY = 86400 * 10 ** 6
LANGS = ["en-US", "en", "fr", "de-CH", "es", "zh-Hant", "pt-BR", "und", "x"]


def instant(rng, hi=DAY - 1):
    r = rng.random()
    if r < 0.35:
        t = rng.randint(0, min(hi, 60 * 10 ** 6))
    elif r < 0.5:
        t = rng.randint(0, min(hi, 7200 * 10 ** 6))
    elif r < 0.75:
        t = rng.randint(0, hi)
    else:   # near carries
        unit = rng.choice([1000, 40000, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6])
        k = rng.randint(0, min(hi // unit, rng.choice([3, 61, 10 ** 9])))
        t = k * unit + rng.choice([-1, 0, 0, 1, -1000, 1000, 999, -999, 500])
    return max(0, min(hi, t))


def frac(rng, t):
    """fractional microseconds as the SCC reader produces (multiples of 1001/30 ms) or thirds"""
    r = rng.random()
    if r < 0.5:
        return (t // 33367) * (1001.0 / 30) * 1000
    if r < 0.8:
        return float(t) + rng.choice([0.25, 0.5, 0.75, 1 / 3, 2 / 3, 0.999])
    return float(t)


def times(rng, n, mode):
    """mode: 'any' | 'sorted' (non-overlapping, start<end) | 'runs' (runs of equal spans)"""
    if mode == "any":
        out = []
        for _ in range(n):
            a, b = instant(rng), instant(rng)
            if rng.random() < 0.5:
                b = min(DAY - 1, a + rng.choice([0, 1, 999, 1000, 1001, 40000, rng.randint(0, 10 ** 7)]))
            out.append((min(a, b), max(a, b)))
        return out
    if mode == "runs":
        out = []
        while len(out) < n:
            a, b = instant(rng), instant(rng)
            out += [(min(a, b), max(a, b))] * rng.choice([1, 1, 2, 2, 3, 4])
        return out[:n]
    # sorted, non-overlapping
    pts = set()
    if rng.random() < 0.5:
        base, span = rng.choice([0, instant(rng, DAY // 2)]), rng.choice([10 ** 6, 6 * 10 ** 7, 3600 * 10 ** 6])
        while len(pts) < 2 * n:
            pts.add(min(DAY - 1, base + rng.randint(0, span)))
    else:
        while len(pts) < 2 * n:
            pts.add(instant(rng))
    p = sorted(pts)
    out = [[p[2 * i], p[2 * i + 1]] for i in range(n)]
    for i in range(n - 1):
        r = rng.random()
        if r < 0.3:
            out[i][1] = out[i + 1][0]      # touching
        elif r < 0.4:
            out[i][1] = max(out[i][0], out[i + 1][0] - rng.choice([1, 500, 999, 1000]))  # tiny gap
    return [tuple(x) for x in out]


# ------------------------------------------------------------------ layouts
PCT = [0, 1, 5, 10, 12.5, 20, 25, 33.33, 50, 66.67, 80, 89.99, 90, 95, 99.5, 100]
HALS = ["left", "center", "right", "start", "end"]
VALS = ["top", "center", "bottom"]


def sz(rng, vals=PCT, unit="%"):
    return [rng.choice(vals) if rng.random() < 0.8 else round(rng.uniform(0, 100), rng.choice([0, 1, 2])), unit]


def layout(rng, parts=("o", "x", "p", "a"), p=0.6, unit="%"):
    """random percentage layout; may be empty of some parts, never all"""
    while True:
        L = {}
        if "o" in parts and rng.random() < p:
            L["o"] = [sz(rng, unit=unit), sz(rng, unit=unit)]
        if "x" in parts and rng.random() < p:
            L["x"] = [sz(rng, unit=unit), sz(rng, unit=unit)]
        if "p" in parts and rng.random() < p * 0.7:
            L["p"] = [sz(rng, [0, 1, 2, 5, 10], unit) for _ in range(4)]
        if "a" in parts and rng.random() < p:
            L["a"] = [rng.choice(HALS + [None]), rng.choice(VALS + [None])]
            if L["a"] == [None, None]:
                del L["a"]
        if L:
            return L


# ------------------------------------------------------------------ nodes
STYLE_KEYS = ["italics", "bold", "underline"]


def style_content(rng, extra=True):
    d = {}
    for k in rng.sample(STYLE_KEYS, rng.choice([1, 1, 1, 2, 3])):
        d[k] = True
    if extra and rng.random() < 0.2:
        d["color"] = rng.choice(["red", "#ff00aa", "white"])
    if extra and rng.random() < 0.1:
        d["font-family"] = rng.choice(["Arial", "monospace"])
    return d


def text_nodes(rng, line, split=0.25):
    """one display line as 1..3 text nodes"""
    if len(line) > 1 and rng.random() < split:
        k = rng.randint(1, len(line) - 1)
        return [["t", line[:k]]] + text_nodes(rng, line[k:], split)
    return [["t", line]]


def nodes_of_lines(rng, lines, split=0.2, empties=0.0, styles=0.0, lead=0.0, contents=None):
    """Flat balanced style spans over arbitrary positions. Empty lines appear as consecutive breaks."""
    out = []
    if rng.random() < lead:
        out.append(["b"])
    for i, ln in enumerate(lines):
        if i:
            out.append(["b"])
            while rng.random() < empties:
                if rng.random() < 0.3:
                    out.append(["t", rng.choice(["", " "])])
                out.append(["b"])
        out += text_nodes(rng, ln, split)
    if rng.random() < lead:
        out.append(["b"])
    if styles and rng.random() < styles:
        out = add_spans(rng, out, contents)
    return out


def add_spans(rng, nodes, contents=None):
    """insert 1..3 non-nested spans at random cut points"""
    k = rng.choice([1, 1, 2, 3])
    cuts = sorted(rng.randint(0, len(nodes)) for _ in range(2 * k))
    res, depth, cur = [], 0, None
    for i in range(len(nodes) + 1):
        while cuts and cuts[0] == i:
            cuts.pop(0)
            if cur is None:
                cur = contents(rng) if contents else style_content(rng)
                res.append(["S", 1, cur])
            else:
                res.append(["S", 0, cur])
                cur = None
        if i < len(nodes):
            res.append(nodes[i])
    return res


def one_lang(caps, layout=None):
    return {"caps": caps, "layout": layout}
