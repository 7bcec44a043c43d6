"""Hostile printable text."""
FRAGS = [
    "&", "<", ">", '"', "'", "-->", "--", "->", "--&gt;", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;",
    "&nbsp;", "&copy", "&copy;", "&#60;", "&#38;", "&#x3c;", "&#X3C;", "&amp;lt;", "&amp;amp;", "&lrm;",
    "&;", "&&", "<<", ">>", "</", "/>", "<i>", "</i>", "<b>", "<u>", "<br/>", "<br>", "</p>", "<p>", "</span>",
    "<span>", "<c.red>", "<v Bob>", "</v>", "<00:00:01.000>", "<font color=\"red\">", "<!--", "<![CDATA[",
    "]]>", "<?xml?>", "</tt>", "<sami>", "WEBVTT", "NOTE", "STYLE", "REGION", "{1}{2}", "{y:i}", "{", "}",
    "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000", "1", "42", "0", "\\", "\\n", "%", "#", ";",
    ":", "=", "[", "]", "(", ")", "*", "~", "^", "`", "@", "$", "!", "?", ".", ",", "...", "- ", "\u2014", "\u2026",
    "\u00e9", "\u00fc", "\u00f1", "\u4e2d\u6587", "\u65e5\u672c", "\u0627\u0644", "\u05d0\u05d1", "\u0e01", "\U0001F600", "\U0001D11E", "\u266a", "\u2122",
    "\u00ab", "\u00bb", "\u201c", "\u201d", "\u00bf", "e\u0301", "\u0130", "\u00df", "\u1e9e", "\ufb01", "\u00bd", "\u00b2", "\u0660", "\u216b",
]
WORDS = ["Hello", "world", "the", "quick", "brown", "fox", "a", "I", "caption", "Line", "foo", "bar", "x", "yes",
         "No", "123", "ok", "time", "over", "lazy"]


def _printable_char(rng):
    r = rng.random()
    while True:
        if r < 0.5:
            c = chr(rng.randint(0x20, 0x7e))
        elif r < 0.7:
            c = chr(rng.randint(0xa1, 0x24f))
        elif r < 0.9:
            c = chr(rng.randint(0x370, 0xfffd))
        else:
            c = chr(rng.randint(0x10000, rng.choice([0x1ffff, 0x3134f]))) if rng.random() < 0.9 else chr(rng.randint(0xe0100, 0xe01ef))
        if c.isprintable() and not 0xd800 <= ord(c) <= 0xdfff:
            return c
        r = rng.random()


def line(rng, hostile=0.6, exclude=(), maxlen=6):
    """One non-blank printable line, no newline."""
    while True:
        parts = []
        for _ in range(rng.randint(1, maxlen)):
            r = rng.random()
            if r < hostile:
                parts.append(rng.choice(FRAGS))
            elif r < hostile + 0.08:
                parts.append(_printable_char(rng))
            else:
                parts.append(rng.choice(WORDS))
            if rng.random() < 0.45:
                parts.append(" ")
        s = "".join(parts)
        for e in exclude:
            s = s.replace(e, "")
        if s.strip() and s.isprintable():
            return s


def count(rng, choices, big=80, p=0.004):
    """how many of something: usually few, now and then many"""
    return rng.randint(big // 2, big) if rng.random() < p else rng.choice(choices)


def plain(rng, maxlen=5):
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, maxlen)))


def all_printable(n=60):
    """every printable character of Unicode, in lines of n between two letters"""
    cs = [c for c in map(chr, range(0x21, 0x110000)) if c.isprintable()]
    return ["k" + "".join(cs[i:i + n]) + "k" for i in range(0, len(cs), n)]
