"""P05: text output shows exactly the grid."""
import dd
from ai import *
from plib import *

ALSO = ["rel"]
FLOOR = 60
RULE = ("value-set dataflow over the MIR of the text output functions with all 81 cells symbolic: length and every character of the "
        "produced text must equal the documented rendering of the grid, no panic")
EXPLANATION = ("The text written by the formatting code is collected byte by byte as tables over the 81 cell symbols and compared with the "
               "documented line and block layouts; the line text is also fed back through the line parser's analysis.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "core::fmt's template interpreter and the integer/str/char Display impls are "
               "modelled (engine/models.py)"]


def line_char(x):
    return 46 if x == 0 else 48 + x


def run(ctx):
    P = ctx.prog()
    ctx.reset()
    n = sym("n", range(81))
    g = symgrid()
    p = Ptr(("T", 0), ())
    mem = {("T", 0): g}
    chars = [tab(x, line_char) for x in g]

    def text(key, fn, want):
        rs, it = ctx.analyse(key, "probe::sud::" + fn, [p], mem=mem)
        if rs is None:
            return
        anc = ctx.anchor(P, "probe::sud::" + fn)
        ctx.ob(key + "/total", len(rs) == 1, "%d results" % len(rs), anc)
        for st, v in rs:
            s = vec(it, st, v)
            if not ctx.ob(key + "/length", s.__class__ is list and len(s) == len(want),
                          "text length %s, specified %d" % (s if s.__class__ is not list else len(s), len(want)), anc):
                continue
            for a, b in zip(s, want):
                ctx.same(key, a, b, st.pc, anc)
    rs, it = ctx.analyse("line_len", "probe::sud::line_len", [p], mem=mem)
    for st, v in rs or ():
        ctx.same("line_len", v, 81, st.pc, ctx.anchor(P, "probe::sud::line_len"))
    rs, it = ctx.analyse("line_char", "probe::sud::to_str_line_str", [p, n], mem=mem)
    want = 0
    for i in range(81):
        want = dd.ite(eqc(n, i), chars[i], want)
    for st, v in rs or ():
        ctx.same("line_char", v, want, st.pc, ctx.anchor(P, "probe::sud::to_str_line_str"))
    text("line_display", "line_display", chars)
    text("display", "display", chars)
    blk = []
    for c in range(81):
        r, k = divmod(c, 9)
        if k in (3, 6):
            blk.append(32)
        elif k == 0:
            blk += [10, 10] if r in (3, 6) else [10]
        blk.append(tab(g[c], lambda x: 95 if x == 0 else 48 + x))
    text("display_block", "display_block", blk)
    # what is written reads back as the same grid
    key = "round-trip"
    line = tuple(chars)
    rs, it = ctx.analyse(key, "probe::sud::from_str_line", [Ptr(("T", 1), (("i", 0),), 81)], mem={("T", 1): line})
    for st, v in rs or ():
        anc = ctx.anchor(P, "probe::sud::from_str_line")
        ctx.same(key + "/accepted", v.d, 0, st.pc, anc)
        q = pc_and(st.pc, eqc(v.d, 0))
        if q is not None:
            ctx.same(key, v.v[0][0], g, q, anc)
    # one cell's state
    key = "cellstate"
    ctx.reset()
    w = None
    CS = "sudoku::board::CellState"
    try:
        vd, vc = variant_index(P, CS, "Digit"), variant_index(P, CS, "Candidates")
    except Inconclusive:
        CS = "sudoku::board::cell_state::CellState"
        vd, vc = variant_index(P, CS, "Digit"), variant_index(P, CS, "Candidates")
    WIDTHS = [None] + list(range(0, 13))
    for w in WIDTHS:
        fn = "probe::misc::cellstate_display" + ("" if w is None else "_width")
        key = "cellstate" if w is None else "cellstate/width"
        args = [p] if w is None else [p, w]
        w = w or 0
        ctx.reset()
        d = sym("d", range(1, 10))
        rs, it = ctx.analyse(key + "/digit", fn, args, mem={("T", 0): En(vd, {vd: (d,)})})
        for st, v in rs or ():
            s = vec(it, st, v)
            want = [tab(d, lambda x: 48 + x)] + [32] * (w - 1)
            if ctx.ob(key + "/digit/length", s.__class__ is list and len(s) == len(want), "width %d: text %r" % (w, s), fn):
                for a, b in zip(s, want):
                    ctx.same(key + "/digit", a, b, st.pc, fn)
        ctx.reset()
        S = symset(9, 16, "k")
        bs = bits(S, 16)[:9]
        rs, it = ctx.analyse(key + "/candidates", fn, args, mem={("T", 0): En(vc, {vc: (S,)})})
        cnt = count_true(bs)
        ln = tab(cnt, lambda c: max(c, 1, w))
        for st, v in rs or ():
            buf, n = v[0][0], v[1]
            ctx.same(key + "/candidates/length", n, ln, st.pc, fn, what="width %d" % w)
            for k in range(max(9, w)):
                # k-th smallest candidate, then padding
                want = 95 if k == 0 else 32
                for i in range(8, -1, -1):
                    want = dd.ite(dd.b_and(bs[i], eqc(count_true(bs[:i]), k)), 49 + i, want)
                pc = pc_and(st.pc, tab(ln, lambda c, k=k: 1 if c > k else 0))
                if pc is not None:
                    ctx.same(key + "/candidates", it.load(st, it.ptr_offset(buf, k, 1)), want, pc, fn, what="width %d" % w)
