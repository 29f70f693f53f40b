"""P08: is_solved is exactly the definition of a solved grid."""
import dd, interp
from ai import *
from plib import *

ALSO = ["rel"]
FLOOR = 50
RULE = ("value-set dataflow over the MIR of Sudoku::is_solved: true whenever every house holds all nine digits; false whenever some house misses a "
        "digit or some cell is empty; no panic")
EXPLANATION = ("Three families of abstract runs cover all 10^81 grids: (a) all cells symbolic 1..=9 under the assumption that every row, column and "
               "block contains every digit: the result must be true; (b) for each row, some cell of it empty, all others symbolic: false; (c) for each house, a "
               "symbolic digit that none of its cells holds, everything else symbolic: false.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source"]


def houses():
    rows = [[r * 9 + c for c in range(9)] for r in range(9)]
    cols = [[r * 9 + c for r in range(9)] for c in range(9)]
    blks = [[(b // 3 * 3 + i // 3) * 9 + b % 3 * 3 + i % 3 for i in range(9)] for b in range(9)]
    return rows + cols + blks


def run(ctx):
    P = ctx.prog()
    interp.PC_LIMIT[0] = 1000        # keep the houses' conditions apart
    FN = "probe::sud::is_solved"
    H = houses()
    p = Ptr(("T", 0), ())
    anc = ctx.anchor(P, FN)

    def complete(ctx):
        ctx.reset()
        g = symgrid(1, 10)
        pc = tuple(conj([disj([eqc(g[c], d) for c in h]) for d in range(1, 10)]) for h in H)
        rs, it = ctx.analyse("complete", FN, [p], pc=pc, setup=weak, mem={("T", 0): g})
        ctx.ob("complete/total", rs is not None and len(rs) >= 1, "never returns", anc)
        for st, v in rs or ():
            v = pc_simpl(pc, v)
            ctx.ob("complete", v == 1, "a grid whose rows, columns and blocks all hold the nine digits is not reported solved (result %s)" % show(v), anc)

    def empty(r):
        def go(ctx):
            ctx.reset()
            g = symgrid(0, 10)
            zero = tuple([disj([eqc(x, 0) for x in g[9 * r:9 * r + 9]])])
            key = "empty-cell/row%d" % r
            rs, it = ctx.analyse(key, FN, [p], pc=zero, setup=weak, mem={("T", 0): g})
            ctx.ob(key + "/total", rs is not None and len(rs) >= 1, "never returns", anc)
            for st, v in rs or ():
                ctx.same(key, v, 0, st.pc, anc)
        return go

    def missing(i, h):
        def go(ctx):
            ctx.reset()
            name = "%s%d" % (("row", "col", "block")[i // 9], i % 9)
            m = sym("missing", range(1, 10))
            g = []
            for c in range(81):
                if c in h:
                    raw = sym("c%d" % c, range(1, 9))
                    g.append(tab2(lambda m, x: x if x < m else x + 1, m, raw))
                else:
                    g.append(sym("c%d" % c, range(1, 10)))
            rs, it = ctx.analyse("missing/" + name, FN, [p], setup=weak, mem={("T", 0): tuple(g)})
            ctx.ob("missing/%s/total" % name, rs is not None and len(rs) >= 1, "never returns", anc)
            for st, v in rs or ():
                ctx.same("missing/" + name, v, 0, st.pc, anc)
        return go
    ctx.parallel([complete] + [empty(r) for r in range(9)] + [missing(i, h) for i, h in reversed(list(enumerate(H)))])


def weak(it):
    it.weaken = True


def show(v):
    return repr(v) if v.__class__ is not Node else "undetermined"
