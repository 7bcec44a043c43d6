"""Other spellings of the same DFXP or SAMI document: line ends, white space inside tags, attribute quotes and order,
comments and unknown elements between elements, letter case of SAMI tags, white space and comments in its style sheet."""
import random
import re

TAG = re.compile(r"<!--.*?-->|<[^>]*>", re.S)
ATTR = re.compile(r"""([\w:.-]+)\s*=\s*("[^"]*"|'[^']*'|[^\s"'>/]+)""")
BLOCK = {"dfxp": {"tt", "head", "body", "div", "p", "/p", "/div", "/body", "/head"}, "sami": {"sami", "head", "body", "sync", "/sync", "/p", "/head"}}


def _attrs(rng, fmt, text):
    at = ATTR.findall(text)
    if rng.random() < 0.3:
        rng.shuffle(at)
    out = ""
    for k, v in at:
        q = v[0] if v[:1] in "\"'" else ""
        v = v[1:-1] if q else v
        if q:
            q = rng.choice([x for x in "\"'" if x not in v] or [q])
        elif rng.random() < 0.5:
            q = rng.choice("\"'")
        if fmt == "sami":
            k = rng.choice([k, k, k.upper(), k.lower()])
        out += rng.choice([" ", " ", "  ", "\n  ", "\t"]) + k + rng.choice(["=", "=", "=", " = ", "= "]) + q + v + q
    return out


def _css(rng, css):
    nl = rng.choice(["\n", "\n", "\n\t", "\n\n  ", " "])
    css = css.replace("\n", nl)
    if rng.random() < 0.3:
        css = css.replace(" {", rng.choice(["{", "\n{", "\t{ "]))
    if rng.random() < 0.3:
        css = css.replace(": ", rng.choice([":", " : ", ":\t"]))
    if rng.random() < 0.3:
        css = css.replace("; ", rng.choice([";", ";\n  "]))
    if rng.random() < 0.2:
        css = css.replace("P {", "/* a comment */ P {").replace("P{", "/* P { } */\nP{")
    if rng.random() < 0.2:
        css = css.replace("{", "{/* x: y; */ ")
    if rng.random() < 0.1:
        css = "@media print { p {color: red;} }\n" + css
    return css


def dress(doc, fmt, seed):
    rng = random.Random(seed)
    out, pos, style = "", 0, False
    every = rng.choice([0.1, 0.5])
    case = rng.choice([None, None, str.upper, str.lower, str.title])
    for m in TAG.finditer(doc):
        out += doc[pos:m.start()]
        pos, t = m.end(), m.group(0)
        if t.startswith("<!--"):
            out += "<!--" + (_css(rng, t[4:-3]) if style else t[4:-3]) + "-->"
            continue
        if t[1] in "?!":
            out += t
            continue
        name = re.match(r"</?\s*([\w:.-]+)", t)
        end = t.startswith("</")
        n = name[1]
        style = n.lower() == "style" and not end and fmt == "sami"
        empty = t.endswith("/>")
        if fmt == "sami" and case:
            shown = case(n)
        else:
            shown = n
        if end:
            t = f"</{shown}" + (rng.choice([" ", "\n"]) if rng.random() < 0.05 else "") + ">"
        else:
            body = _attrs(rng, fmt, t[name.end():]) if rng.random() < every else t[name.end():].rstrip("/>").rstrip()
            t = f"<{shown}{body}" + rng.choice(["", "", "", " "]) + ("/>" if empty else ">")
            if empty and n == "br" and fmt == "dfxp" and rng.random() < 0.2:
                t = "<br></br>"
        out += t
        if ("/" if end else "") + n.lower() in BLOCK[fmt] - {"p"} and rng.random() < 0.15:
            out += rng.choice(["\n", "\n\t", "  ", "<!-- a comment -->", "<!-- <p>x</p> -->"])
    out += doc[pos:]
    if fmt == "dfxp":
        r = rng.random()
        if r < 0.1:
            out = re.sub(r"^<\?xml.*?\?>\s*", rng.choice(["", "\n", "<!-- c -->\n"]), out)
        elif r < 0.2:
            out = out.replace("?>", "?>\n<!-- made by hand -->", 1)
    elif rng.random() < 0.2:
        out = rng.choice(["\n", "  ", "<!-- c -->\n"]) + out
    nl = rng.choice(["\n", "\n", "\r\n"])
    return out.replace("\n", nl)
