"""Caption sets with layouts on every level (JSON)."""
from . import sets as gs
from . import text as gt

UNITS = ["px", "em", "pt", "c", "%"]
GRID = {"%": gs.PCT + [0.01, 33.333, 66.666, 89.995, 12.345, 7.5], "px": [0, 1, 16, 64, 100, 100.5, 320, 576, 640, 1728, 33.3], "em": [0, 1, 2.5, 10, 36],
        "pt": [0, 1, 12, 10.5, 240], "c": [0, 1, 0.5, 8, 28.8, 14.25, 15, 32]}


def sz(rng, unit):
    u = unit(rng) if callable(unit) else unit
    if rng.random() < 0.8:
        return [rng.choice(GRID[u]), u]
    hi = {"%": 100, "px": 1000, "em": 40, "pt": 500, "c": 32}[u]
    return [round(rng.uniform(0, hi), rng.choice([0, 1, 2, 4])), u]


def layout(rng, unit="%", origin_p=0.65, safe=False):
    while True:
        L = {}
        if rng.random() < origin_p:
            L["o"] = [sz(rng, unit), sz(rng, unit)]
            if safe:
                L["o"] = [[rng.choice([0, 5, 10, 12.5, 33.33, 50, 80, 89.99, 90]), "%"], [rng.choice([0, 5, 20, 66.67, 84.5, 90, 94.99, 95]), "%"]]
        if rng.random() < 0.55:
            L["x"] = [sz(rng, unit), sz(rng, unit)]
        if rng.random() < 0.4:
            pu = unit
            small = lambda: [rng.choice([0, 1, 2, 5, 2.5, 3.33]), pu(rng) if callable(pu) else pu]  # noqa: E731
            a = small()
            L["p"] = rng.choice([[a, a, a, a], [a, a, small(), small()], [small(), small(), small(), small()]])
        if rng.random() < 0.6:
            a = [rng.choice(gs.HALS + [None]), rng.choice(gs.VALS + [None])]
            if a != [None, None]:
                L["a"] = a
        if L:
            return L


def segment(rng, L, hostile, styled=True):
    """text in one layout, possibly a styled span, possibly with breaks inside"""
    mk = (lambda: gt.line(rng, maxlen=3)) if rng.random() < hostile else (lambda: gt.plain(rng, 2))
    nodes = [["t", mk(), L]]
    while rng.random() < 0.35:
        if rng.random() < 0.7:
            nodes.append(["b", rng.choice([L, None])])
        nodes.append(["t", mk(), L])
    if styled and rng.random() < 0.35:
        c = gs.style_content(rng)
        nodes = [["S", 1, c, L]] + nodes + [["S", 0, c, L]]
    return nodes


def caption_nodes(rng, pool, node_p, hostile=0.3):
    if rng.random() >= node_p:
        nodes = segment(rng, None, hostile)
        if rng.random() < 0.3:
            nodes += [["b"]] + segment(rng, None, hostile)
        return nodes
    out = []
    for i in range(rng.choice([1, 1, 2, 3])):
        if i and rng.random() < 0.7:
            out.append(["b"])
        out += segment(rng, rng.choice(pool + [None]), hostile)
    return out


def caption_set(rng, unit="%", safe=False, nlang=(1, 1, 2), set_level=0.0, origin_p=0.65, lang_p=0.4, cap_p=0.5, node_p=0.4):
    pool = [layout(rng, unit, origin_p, safe) for _ in range(rng.choice([1, 2, 3]))]
    # near duplicates: layouts differing in one component only
    for L in list(pool):
        if rng.random() < 0.5:
            K = dict(L)
            part = rng.choice(["o", "x", "p", "a"])
            N = layout(rng, unit, 0.9, safe)
            if part in N:
                K[part] = N[part]
            else:
                K.pop(part, None)
            if K:
                pool.append(K)
    if rng.random() < 0.15:
        pool.append({"a": ["start", "bottom"]})
    if rng.random() < 0.1:
        pool.append({"a": [rng.choice(["left", None]), "bottom"]})
    langs = []
    for x in rng.sample(gs.LANGS, rng.choice(nlang)):
        caps = []
        for i in range(gt.count(rng, [1, 1, 2, 3], 60)):
            caps.append({"s": (2 * i) * 10 ** 6, "e": (2 * i + 1) * 10 ** 6, "layout": rng.choice(pool) if rng.random() < cap_p else None,
                         "n": caption_nodes(rng, pool, node_p)})
        langs.append([x, {"caps": caps, "layout": rng.choice(pool) if rng.random() < lang_p else None}])
    return {"langs": langs, "layout": rng.choice(pool) if rng.random() < set_level else None}


def valid(cs):
    for x, d in cs["langs"]:
        prev = -1
        for c in d["caps"]:
            if c["s"] <= prev or c["e"] <= c["s"] or not c["n"]:
                return False
            prev = c["s"]
            cur = False
            vis = False
            for n in c["n"]:
                L = n[2] if n[0] == "t" and len(n) > 2 else None
                if n[0] == "S":
                    if bool(n[1]) == (cur is not False):
                        return False
                    cur = n[3] if n[1] else False
                elif n[0] == "t":
                    if not n[1].strip() or not n[1].isprintable() or cur is not False and L != cur:
                        return False
                    vis = True
            if cur is not False or not vis:
                return False
    return len({x for x, _ in cs["langs"]}) == len(cs["langs"]) and all(x for x, _ in cs["langs"])
