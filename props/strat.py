"""The strategy solver's state, and windows of candidates to analyse its steps on."""
import dd
from ai import *
from plib import *
from p01 import house_cell

SS = "sudoku::strategy::StrategySolver"
ST = "sudoku::strategy::Strategy"
DE = "sudoku::strategy::Deduction<std::ops::Range<usize>>"
HOUSES = [[house_cell(h, p) for p in range(9)] for h in range(27)]
NB = [{x for h in HOUSES if c in h for x in h} - {c} for c in range(81)]
OF = [[h for h in range(27) if c in HOUSES[h]] for c in range(81)]
Interp.MAXSTEPS = 6000000
BE, BL, BD = ("H", 90001), ("H", 90002), ("H", 90003)     # storage of entries, eliminations, deductions


def nand(a):
    return dd.b_not(a) if a.__class__ is Node else 1 - a


def implies(a, b):
    return dd.b_or(nand(a), b)


def neq_t(a, b):
    return tab2(lambda x, y: 1 if x != y else 0, a, b)


def dset(bs):
    return mkbits(list(bs) + [0] * 7)


def dbits(v):
    return to_bits(v, 16)[:9]


class SL:
    FIELDS = ("deductions", "deduced_entries", "eliminated_entries", "n_solved", "hidden_singles_last_house", "clues", "grid",
              "cell_poss_digits", "house_solved_digits", "house_poss_positions")

    def __init__(self, P):
        o = [o for o in P.T.values() if o["n"] == SS]
        if not o:
            raise Inconclusive("anchor not found: type " + SS)
        self.n = len(o[0]["v"][0][2])
        for f in self.FIELDS:
            setattr(self, f, vfield(P, SS, None, f))
        st = [o["n"] for o in P.T.values() if o["n"].startswith("sudoku::strategy::solver::State<")]
        if not st:
            raise Inconclusive("anchor not found: type State")
        self.nd, self.le, self.state = [vfield(P, st[0], None, f) for f in ("next_deduced", "last_eliminated", "state")]
        D = "sudoku::strategy::deduction::Deductions"
        self.d_ded, self.d_ent, self.d_eli = [vfield(P, D, None, f) for f in ("deductions", "deduced_entries", "eliminated_entries")]
        C = "sudoku::board::Candidate"
        self.cc, self.cd = vfield(P, C, None, "cell"), vfield(P, C, None, "digit")

    def cand(self, c, d):
        out = [0, 0]
        out[self.cc], out[self.cd] = c, d
        return tuple(out)

    def wrap(self, nd, le, s):
        out = [0, 0, 0]
        out[self.nd], out[self.le], out[self.state] = nd, le, s
        return tuple(out)

    def vec(self, base, items, cap=200):
        return ((Ptr(base, (("i", 0),)), cap, ()), len(items)), tuple(items) + (UNINIT,) * (cap - len(items))

    def make(self, entries=(), elim=(), deds=(), grid=(0,) * 81, ns=0, poss=None, house=None, pos=None, cur=(0, 0), gcur=(0, 0), hcur=None, last=0, cap=200):
        """(state, memory)"""
        out = [0] * self.n
        mem = {}
        out[self.deductions], mem[BD] = self.vec(BD, deds, cap)
        out[self.deduced_entries], mem[BE] = self.vec(BE, entries, cap)
        out[self.eliminated_entries], mem[BL] = self.vec(BL, elim, cap)
        out[self.n_solved], out[self.hidden_singles_last_house] = ns, last
        out[self.clues] = En(0, {0: ()})
        out[self.grid] = self.wrap(gcur[0], gcur[1], tuple(grid))
        full = dset([1] * 9)
        out[self.cell_poss_digits] = self.wrap(cur[0], cur[1], tuple(poss or [full] * 81))
        out[self.house_solved_digits] = self.wrap(cur[0], 0, tuple(house or [0] * 27))
        h = hcur or cur
        out[self.house_poss_positions] = self.wrap(h[0], h[1], tuple(pos or [(full,) * 9] * 27))
        return tuple(out), mem


class Window:
    """unsolved cells; bit(c, k): is digit k a candidate of cell c"""

    def __init__(self, bit, grid=(0,) * 81):
        self.grid = list(grid)
        self.bit = [[bit(c, k) if not self.grid[c] else 0 for k in range(9)] for c in range(81)]
        for c in range(81):
            if self.grid[c]:
                for x in NB[c]:
                    self.bit[x][self.grid[c] - 1] = 0
        self.poss = [dset(r) for r in self.bit]
        self.solved = [[1 if any(self.grid[c] == k + 1 for c in h) else 0 for k in range(9)] for h in HOUSES]
        self.house = [dset(r) for r in self.solved]
        self.pos = [tuple(dset([self.bit[c][k] for c in h]) for k in range(9)) for h in HOUSES]

    def state(self, L, pend=(), pelim=(), worked=1, **k):
        """consistent caches, then entries and eliminations not yet worked in"""
        self.n = n = sum(1 for g in self.grid if g)
        es = [L.cand(c, g) for c, g in enumerate(self.grid) if g] + [L.cand(c, g) for c, g in pend]
        ls = [L.cand(c, g) for c, g in pelim]
        return L.make(entries=es, elim=ls, grid=self.grid, ns=n, poss=self.poss, house=self.house, pos=self.pos, cur=(n, 0), gcur=(n, 0), **k)


def added(it, st, L, field, n0):
    """[(condition, element)] appended to a vector since it had n0 elements"""
    S = st.m[("S", 0)]
    v = S[field]
    n = pc_simpl(st.pc, v[1])
    top = max(dd.terminals(n)) if n.__class__ is Node else n
    out = []
    for i in range(n0, top):
        cond = tab(n, lambda t, i=i: 1 if t > i else 0) if n.__class__ is Node else 1
        out.append((cond, it.load(st, it.ptr_offset(v[0][0], i, 1))))
    return out, n
