"""CEA-608 code tables and encoders, written from the standard (channel 1, field 1), not from pycaption.

Codes are given as (b1, b2) 7-bit pairs; `w` turns a pair into the 4-digit hex word with odd parity.
"""


def par(b):
    b &= 0x7f
    return b if bin(b).count("1") % 2 else b | 0x80


def w(b1, b2):
    return f"{par(b1):02x}{par(b2):02x}"


def odd(byte):
    return bin(byte).count("1") % 2 == 1


# G0: ASCII with replacements
BASIC = {c: chr(c) for c in range(0x20, 0x7f)}
BASIC.update({0x2a: "\u00e1", 0x5c: "\u00e9", 0x5e: "\u00ed", 0x5f: "\u00f3", 0x60: "\u00fa", 0x7b: "\u00e7",
              0x7c: "\u00f7", 0x7d: "\u00d1", 0x7e: "\u00f1", 0x7f: "\u2588"})
# 0x11 0x30..0x3f ; 0x39 is the transparent space
SPECIAL = dict(zip(range(0x30, 0x40), "\u00ae\u00b0\u00bd\u00bf\u2122\u00a2\u00a3\u266a\u00e0\u00a0\u00e8\u00e2\u00ea\u00ee\u00f4\u00fb"))
EXT12 = dict(zip(range(0x20, 0x40),
                 "\u00c1\u00c9\u00d3\u00da\u00dc\u00fc\u2018\u00a1*\u2019\u2014\u00a9\u2120\u2022\u201c\u201d"
                 "\u00c0\u00c2\u00c7\u00c8\u00ca\u00cb\u00eb\u00ce\u00cf\u00ef\u00d4\u00d9\u00f9\u00db\u00ab\u00bb"))
EXT13 = dict(zip(range(0x20, 0x40),
                 "\u00c3\u00e3\u00cd\u00cc\u00ec\u00d2\u00f2\u00d5\u00f5{}\\^_|~"
                 "\u00c4\u00e4\u00d6\u00f6\u00df\u00a5\u00a4\u2502\u00c5\u00e5\u00d8\u00f8\u250c\u2510\u2514\u2518"))

# readings of a code the sources disagree about (curly or straight, broken or solid, line or bar)
ALT = {"\u2019": "\u2019'", "|": "|\u00a6", "\u2502": "\u2502|", "'": "'\u2019"}

ROW_CODE = {1: (0x11, 0x40), 2: (0x11, 0x60), 3: (0x12, 0x40), 4: (0x12, 0x60), 5: (0x15, 0x40), 6: (0x15, 0x60),
            7: (0x16, 0x40), 8: (0x16, 0x60), 9: (0x17, 0x40), 10: (0x17, 0x60), 11: (0x10, 0x40), 12: (0x13, 0x40),
            13: (0x13, 0x60), 14: (0x14, 0x40), 15: (0x14, 0x60)}


def pac(row, attr):
    """attr: 0..13 colours (even plain, odd underlined), 14 italics, 15 italics underlined,
    16..31 indent 0,4,..,28 (even plain, odd underlined)."""
    b1, base = ROW_CODE[row]
    return w(b1, base + attr)


def pac_col(attr):
    return (attr - 16) // 2 * 4 if attr >= 16 else 0


def tab(n):
    return w(0x17, 0x20 + n)


def midrow(i):
    """0..13 colours plain/underlined, 14 italics, 15 italics underlined"""
    return w(0x11, 0x20 + i)


RCL, BS, DER, RU2, RU3, RU4 = w(0x14, 0x20), w(0x14, 0x21), w(0x14, 0x24), w(0x14, 0x25), w(0x14, 0x26), w(0x14, 0x27)
RDC, EDM, CR, ENM, EOC = w(0x14, 0x29), w(0x14, 0x2c), w(0x14, 0x2d), w(0x14, 0x2e), w(0x14, 0x2f)
RU = {2: RU2, 3: RU3, 4: RU4}

WORD_PAC = {pac(r, a): (r, a) for r in range(1, 16) for a in range(32)}
WORD_TAB = {tab(n): n for n in (1, 2, 3)}
WORD_MID = {midrow(i): i for i in range(16)}
WORD_SPECIAL = {w(0x11, c): ch for c, ch in SPECIAL.items()}
WORD_EXT = {**{w(0x12, c): ch for c, ch in EXT12.items()}, **{w(0x13, c): ch for c, ch in EXT13.items()}}
BYTE_BASIC = {par(c): ch for c, ch in BASIC.items()}
CHAR_BASIC = {}
for _c, _ch in BASIC.items():
    CHAR_BASIC.setdefault(_ch, par(_c))
CHAR_SPECIAL = {ch: wd for wd, ch in WORD_SPECIAL.items() if ch != "\u00a0"}
CHAR_EXT = {ch: wd for wd, ch in WORD_EXT.items()}


def safe_area(row, col):
    """(x %, y %) of a cursor address as exact fractions."""
    from fractions import Fraction as F
    return F(10) + F(80 * col, 32), F(5) + F(90 * (row - 1), 15)
