"""Symbolic texts: bytes with an end marker, UTF-8 well-formedness as an automaton."""
import dd
from ai import *
from plib import *

END = -1
HUGE = (1 << 63) - 1
CONT, L2, L3, L4 = Iv(0x80, 0xBF), Iv(0xC2, 0xDF), Iv(0xE0, 0xEF), Iv(0xF0, 0xF4)


def ascii_classes(chars):
    out, lo = [], 0
    for c in sorted(set(chars)) + [128]:
        if lo < c:
            out.append(Iv(lo, c - 1) if lo < c - 1 else lo)
        if c < 128:
            out.append(c)
        lo = c + 1
    return out


def byte_domain(chars):
    return ascii_classes(chars) + [CONT, L2, L3, L4]


def u8class(x):
    if x.__class__ is int and x == END:
        return 9
    if lohi(x)[1] < 0x80:
        return 1
    return {0x80: 0, 0xC2: 2, 0xE0: 3, 0xF0: 4}[x.lo]


def wellformed(raw):
    """boolean table: the text (ending at the first END) is well-formed UTF-8; nothing follows the end"""
    ok = [1, 1, 1, 1, 1]     # acceptance from state r (bytes still owed; 4: text has ended) at the end of the window
    for r in reversed(raw):
        k = dd.map1("u8cls", u8class, r)
        new = []
        for q in range(5):
            if q == 0:
                new.append(sel(k, {0: 0, 1: ok[0], 2: ok[1], 3: ok[2], 4: ok[3], 9: ok[4]}))
            elif q < 4:
                new.append(dd.ite(eqc(k, 0), ok[q - 1], 0))
            else:
                new.append(dd.ite(eqc(k, 9), ok[4], 0))
        ok = new
    return ok[0]


class Text:
    """raw: byte symbols with END; b: bytes; n: length table; inside[i]: i < n; ok: well-formed"""

    def __init__(self, name, width, dom):
        N = width
        self.raw = raw = [sym("%s%d" % (name, i), dom + [END]) for i in range(N)]
        self.b = tuple(dd.map1("unend", lambda x: 0 if x.__class__ is int and x == END else x, r) for r in raw)
        self.inside = []
        here = 1
        n = Iv(N, HUGE)
        for r in raw:
            here = dd.b_and(here, dd.b_not(eqc(r, END)))
            self.inside.append(here)
        for i in range(N - 1, -1, -1):
            n = dd.ite(eqc(raw[i], END), i, n)
        self.n = n
        self.ok = wellformed(raw)


def ch_at(b, off):
    """the character starting at a byte known to start one"""
    return tab(b, lambda x: x if lohi(x)[1] < 0x80 else Iv(0x80, 0x10FFFF + off))
