"""P10: shuffling relabels digits and permutes cells so that houses stay houses."""
import dd
from ai import *
from plib import *
from rngmodel import Rng

ALSO = ["rel"]
FLOOR = 2500
RULE = ("value-set dataflow over the MIR of shuffle with symbolic random draws: cells of one house come from cells of one house, no two cells come "
        "from the same cell, digits are relabelled by one bijection fixing 0")
EXPLANATION = ("Position part: the shuffle is interpreted on grids that hold the row (column) number of every cell, with every draw that can move "
               "lines, chutes or the diagonal symbolic. Digit part: uniform grids of every digit, all draws symbolic.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "random draws are within the requested range"]


def run(ctx):
    P = ctx.prog()

    def shuffled(ctx, key, fn, grid, policy, syms):
        box = {}

        def setup(it):
            box["rng"] = Rng(it, policy, syms)
        if fn == "shuffle":
            rs, it = ctx.analyse(key, "probe::sud::shuffle", [Ptr(("G",), ())], mem={("G",): grid}, setup=setup)
            if rs is None:
                return None, None
            rs = [(s, s.m[("G",)]) for s, _ in rs]
        else:
            rs, it = ctx.analyse(key, "probe::sud::" + fn, [grid], setup=setup)
            if rs is None:
                return None, None
        pc, v = combine(rs)
        return v, box["rng"]

    # draws of these sizes are left open in the position part; every other draw takes its lowest value
    small = lambda k, lo, hi: None if hi.__class__ is int and lo.__class__ is int and hi - lo in (2, 3, 6) else lo

    def position(fn):
        def go(ctx):
            ctx.reset()
            anc = ctx.anchor(P, "probe::sud::" + fn)
            syms = {}
            L, rng = shuffled(ctx, fn + "/rows", fn, tuple(i // 9 + 1 for i in range(81)), small, syms)
            M, _ = shuffled(ctx, fn + "/columns", fn, tuple(i % 9 + 1 for i in range(81)), small, syms)
            if L is None or M is None:
                return
            for d in rng.draws:
                ctx.ob(fn + "/draws", d[0][0] == "thread", "drawn from %s" % (d[0],), anc)
            same = lambda t, a, b: dd.map2("samelabel", lambda x, y: 1 if x == y else 0, t[a], t[b])
            # chutes: which labels belong to one chute is read off the constant-draw run
            L0, _ = shuffled(ctx, fn + "/rows0", fn, tuple(i // 9 + 1 for i in range(81)), lambda k, lo, hi: lo, syms)
            B, _ = shuffled(ctx, fn + "/bands", fn, tuple(i // 27 + 1 for i in range(81)), small, syms)
            S, _ = shuffled(ctx, fn + "/stacks", fn, tuple(i % 9 // 3 + 1 for i in range(81)), small, syms)
            if B is None or S is None:
                return
            for kind in range(2):
                for i in range(9):
                    cells = [i * 9 + j if kind == 0 else j * 9 + i for j in range(9)]
                    A = same(L, cells[0], cells[1])
                    for c in cells[1:]:
                        ctx.holds(fn + "/line", dd.ite(A, same(L, cells[0], c), same(M, cells[0], c)), (), anc,
                                  what="%s %d comes from one line" % (("row", "column")[kind], i))
            for i in range(9):
                cells = [(i // 3 * 3 + a) * 9 + i % 3 * 3 + b for a in range(3) for b in range(3)]
                for c in cells[1:]:
                    ctx.holds(fn + "/block", dd.b_and(same(B, cells[0], c), same(S, cells[0], c)), (), anc, what="block %d comes from one block" % i)
            for a in range(81):
                for b in range(a):
                    ctx.holds(fn + "/distinct", dd.b_not(dd.b_and(same(L, a, b), same(M, a, b))), (), anc,
                              what="cells %d and %d come from different cells" % (a, b))
            # every cell can end up everywhere, transposed or not
            for c in range(81):
                pair = dd.map2("pairlab", lambda x, y: x * 16 + y, L[c], M[c])
                n = len(dd.terminals(pair)) if pair.__class__ is Node else 1
                ctx.ob(fn + "/reach", n == 81, "cell %d can only come from %d cells" % (c, n), anc)
            A = same(L, 0, 1)
            ctx.ob(fn + "/transposes", A.__class__ is Node, "the board is always or never transposed", anc)
        return go

    def digits(fn):
        def go(ctx):
            ctx.reset()
            anc = ctx.anchor(P, "probe::sud::" + fn)
            m, syms = [], {}
            for d in range(10):
                v, _ = shuffled(ctx, fn + "/digit%d" % d, fn, (d,) * 81, None, syms)
                if v is None:
                    return
                for c in range(1, 81):
                    ctx.same(fn + "/uniform", v[c], v[0], (), anc, what="label of digit %d in cell %d" % (d, c))
                m.append(v[0])
            ctx.same(fn + "/empty", m[0], 0, (), anc)
            for d in range(1, 10):
                ctx.holds(fn + "/label", tab(m[d], lambda x: 1 if 1 <= x <= 9 else 0), (), anc, what="digit %d becomes a digit" % d)
                n = len(dd.terminals(m[d])) if m[d].__class__ is Node else 1
                ctx.ob(fn + "/label-reach", n == 9, "digit %d can only become %d digits" % (d, n), anc)
                for e in range(1, d):
                    ctx.holds(fn + "/label-distinct", tab2(lambda x, y: 0 if x == y else 1, m[d], m[e]), (), anc,
                              what="digits %d and %d stay different" % (d, e))
        return go
    ctx.parallel([position("shuffle"), position("shuffled"), digits("shuffle"), digits("shuffled")])
