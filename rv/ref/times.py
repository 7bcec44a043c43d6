"""Exact-arithmetic readings of the timestamp grammars (independent of pycaption)."""
import re
from fractions import Fraction
from math import floor

US = 1000000


def _clock(h, m, s, frac):
    t = Fraction(int(h) * 3600 + int(m) * 60 + int(s))
    if frac:
        t += Fraction(int(frac), 10 ** len(frac))
    return t * US


def srt(stamp):
    m = re.fullmatch(r"([0-9]+):([0-9]{2}):([0-9]{2})(?:,([0-9]{3}))?", stamp)
    if not m:
        raise ValueError(f"bad SRT stamp {stamp!r}")
    return _clock(*m.groups())


def vtt(stamp):
    m = re.fullmatch(r"(?:([0-9]{2,}):)?([0-5][0-9]):([0-5][0-9])\.([0-9]{3})", stamp)
    if not m:
        raise ValueError(f"bad WebVTT stamp {stamp!r}")
    return _clock(m.group(1) or 0, *m.groups()[1:])


def ttml(expr, fps=30):
    m = re.fullmatch(r"([0-9]{2,}):([0-9]{2}):([0-9]{2})(?:\.([0-9]+)|:([0-9]{2,}))?", expr)
    if m:
        h, mi, s, frac, fr = m.groups()
        t = _clock(h, mi, s, frac)
        if fr:
            t += Fraction(int(fr), fps) * US
        return t
    m = re.fullmatch(r"([0-9]+)(?:\.([0-9]+))?(h|ms|m|s|f)", expr)
    if not m:
        raise ValueError(f"bad TTML time {expr!r}")
    v = Fraction(int(m.group(1)))
    if m.group(2):
        v += Fraction(int(m.group(2)), 10 ** len(m.group(2)))
    unit = {"h": 3600 * US, "m": 60 * US, "s": US, "ms": 1000, "f": Fraction(US, fps)}[m.group(3)]
    return v * unit


def microdvd(frame, fps="25"):
    return Fraction(frame) * US / Fraction(fps)


def fl(x):
    return floor(x)
