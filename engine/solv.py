"""The state of the backtracking solver as the checks see it: words of 27 candidate bits per digit and band."""
import dd
from ai import *
from plib import *

S = "sudoku::solver::SudokuSolver::"
ALL = (1 << 27) - 1


class Layout:
    """where the fields of the solver state are"""

    def __init__(self, P):
        ty = "sudoku::solver::SudokuSolver"
        o = [o for o in P.T.values() if o["n"] == ty]
        if not o:
            raise Inconclusive("anchor not found: type " + ty)
        self.names = [f[0] for f in o[0]["v"][0][2]]
        self.poss = vfield(P, ty, None, "poss_cells")
        self.prev = vfield(P, ty, None, "prev_poss_cells")
        self.unsolved = vfield(P, ty, None, "unsolved_cells")
        self.pairs = vfield(P, ty, None, "pairs")
        self.rest = [i for i in range(len(self.names)) if i not in (self.poss, self.prev, self.unsolved, self.pairs)]
        self.n = len(self.names)

    def make(self, poss, prev, unsolved, pairs):
        out = [None] * self.n
        out[self.poss], out[self.prev], out[self.unsolved], out[self.pairs] = tuple(poss), tuple(prev), tuple(unsolved), tuple(pairs)
        for i in self.rest:
            out[i] = (ALL, ALL, ALL)
        return tuple(out)


def word(bits27):
    return mkbits(list(bits27) + [0] * 5)


def symword(nm, order=range(27)):
    w = [None] * 27
    for i in order:
        w[i] = sym("%s_%d" % (nm, i), (0, 1))
    return word(w)


def wbits(v):
    b = to_bits(v, 32)
    return b[:27]


def wfit(v):
    """the five unused bits are zero"""
    return all(x.__class__ is int and x == 0 for x in to_bits(v, 32)[27:])


def bandcell(i):
    """(row, column, block) of cell i of a band"""
    return i // 9, i % 9, i % 9 // 3


def placements():
    """the 162 ways to place one digit in a band"""
    out = []
    for a in range(9):
        for b in range(9):
            for c in range(9):
                if len({a // 3, b // 3, c // 3}) == 3:
                    out.append((a, 9 + b, 18 + c))
    return out


def peers_same_band(i):
    r, c, k = bandcell(i)
    return {j for j in range(27) if j != i and (bandcell(j)[0] == r or bandcell(j)[2] == k)}


def implies(a, b):
    return dd.b_or(dd.b_not(a), b)


def bconst(x):
    return x.__class__ is int


def neq(a, b):
    return dd.b_xor(a, b)


def vneq0(a, b, cond):
    """a and b agree wherever cond holds"""
    x = interpneq(a, b)
    r = dd.b_and(cond, x)
    return not (r.__class__ is Node or r)


def interpneq(a, b):
    import frame
    return frame.vneq(a, b)


def conflicts(cell, d):
    """(word, bit) pairs a digit at a cell excludes"""
    out = set()
    r, c = divmod(cell, 9)
    for k in range(9):
        if k != d:
            out.add((k * 3 + cell // 27, cell % 27))
    for x in range(81):
        y, z = divmod(x, 9)
        if x != cell and (y == r or z == c or (y // 3, z // 3) == (r // 3, c // 3)):
            out.add((d * 3 + x // 27, x % 27))
    return out
