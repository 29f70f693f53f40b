"""P01: board geometry is exact."""
import dd
from ai import *
from frame import SIZES

ALSO = ["rel"]
FLOOR = 95
RULE = ("value-set dataflow over the MIR of every conversion: the inferred input->output table of each function "
        "must equal the geometric definition for every in-range input, and no panic may be reachable")
EXPLANATION = ("For each position type the abstract interpreter computes the complete finite table of outputs of the public "
               "conversion/enumeration functions over all in-range inputs (and all position subsets for cells_at) and compares "
               "it with the table derived from the definition of a 9x9 board.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source; core/std bodies are analysed from their own MIR"]

row = lambda c: c // 9
col = lambda c: c % 9
blk = lambda c: 3 * (c // 27) + (c % 9) // 3
band = lambda c: c // 27
stack = lambda c: (c % 9) // 3
bpos = lambda c: (c // 9 % 3) * 3 + c % 3


def house_cell(h, p):
    if h < 9:
        return h * 9 + p
    if h < 18:
        return p * 9 + (h - 9)
    b = h - 18
    return (b // 3 * 3 + p // 3) * 9 + b % 3 * 3 + p % 3


def members(kind, n):
    f = {"cell": lambda c: c == n, "row": lambda c: row(c) == n, "col": lambda c: col(c) == n, "block": lambda c: blk(c) == n,
         "band": lambda c: band(c) == n, "stack": lambda c: stack(c) == n,
         "line": lambda c: (row(c) if n < 9 else col(c) + 9) == n,
         "house": lambda c: n in (row(c), col(c) + 9, blk(c) + 18),
         "chute": lambda c: (band(c) if n < 3 else stack(c) + 3) == n,
         "minirow": lambda c: c // 3 == n,
         "minicol": lambda c: col(c) * 3 + band(c) == n,
         "miniline": lambda c: (c // 3 if n < 27 else 27 + col(c) * 3 + band(c)) == n}[kind]
    return sum(1 << c for c in range(81) if f(c))


def tab(v, f):
    return dd.map1(object(), f, v)


def run(ctx):
    P = ctx.prog()

    def unary(key, fn, dom, spec, pc=()):
        ctx.reset()
        x = dd.var(dd.Sym("x", dom))
        rs, it = ctx.analyse(key, "probe::" + fn, [x])
        if rs is None:
            return
        ctx.ob(key + "/total", len(rs) == 1, "no or several results: %d" % len(rs), ctx.anchor(P, "probe::" + fn))
        for st, v in rs:
            ctx.same(key, v, spec(x), st.pc, ctx.anchor(P, "probe::" + fn))

    m = lambda f: (lambda x: tab(x, f))
    C, R9 = range(81), range(9)
    for fn, f in (("conv::cell_row", row), ("conv::cell_col", col), ("conv::cell_block", blk), ("conv::cell_row2", row),
                  ("conv::cell_col2", col), ("conv::cell_block2", blk), ("conv::cell_band", band), ("conv::cell_stack", stack),
                  ("conv::cell_pos_row", col), ("conv::cell_pos_col", row), ("conv::cell_pos_block", bpos),
                  ("conv::cell_pos_band", lambda c: row(c) % 3 * 9 + col(c))):
        unary(fn, fn, C, m(f))
    ident = lambda n: n
    for fn, n, f in (("row_line", 9, ident), ("col_line", 9, lambda n: n + 9), ("row_house", 9, ident), ("col_house", 9, lambda n: n + 9),
                     ("line_house", 18, ident), ("block_house", 9, lambda n: n + 18), ("band_chute", 3, ident),
                     ("stack_chute", 3, lambda n: n + 3), ("posrow_line", 9, ident), ("poscol_line", 9, ident),
                     ("posrow_house", 9, ident), ("poscol_house", 9, ident), ("posline_house", 9, ident),
                     ("posblock_house", 9, ident), ("poschute_band", 27, ident), ("pos_get", 9, ident), ("pos_as_index", 9, ident)):
        unary("conv::" + fn, "conv::" + fn, range(n), m(f))

    def cat(bounds):
        def spec(x):
            d = tab(x, lambda n: next(i for i, b in enumerate(bounds) if n < b))
            v = {i: (tab(x, lambda n, lo=lo: n - lo),) for i, lo in enumerate([0] + bounds[:-1])}
            return En(d, v)
        return spec
    for fn, n, b in (("line_cat", 18, [9, 18]), ("house_cat", 27, [9, 18, 27]), ("chute_cat", 6, [3, 6]), ("miniline_cat", 54, [27, 54])):
        unary("conv::" + fn, "conv::" + fn, range(n), cat(b))

    for k, n in SIZES.items():
        unary("cells::" + k, "cells::" + k, range(n), m(lambda i, k=k: members(k, i)))
        unary(k + "::get", k + "::get", range(n), m(ident))
        unary(k + "::as_index", k + "::as_index", range(n), m(ident))
        unary(k + "::new", k + "::new", range(n), m(ident))
        unary(k + "::new_checked", k + "::new_checked", range(256),
              lambda x, n=n: En(tab(x, lambda i: 1 if i < n else 0), {1: (tab(x, ident),)}))
        ctx.reset()
        rs, it = ctx.analyse(k + "::all", "probe::%s::all" % k, [])
        if rs is not None:
            w = ctx.anchor(P, "probe::%s::all" % k)
            for st, v in rs:
                ctx.ob(k + "::all", vec(it, st, v) == list(range(n)), "enumerates %r" % (vec(it, st, v),), w)
    # digits
    unary("digit::get", "digit::get", range(1, 10), m(ident))
    unary("digit::as_index", "digit::as_index", range(1, 10), m(lambda d: d - 1))
    unary("digit::new_checked", "digit::new_checked", range(256), lambda x: En(tab(x, lambda i: 1 if 1 <= i <= 9 else 0), {1: (tab(x, ident),)}))
    ctx.reset()
    rs, it = ctx.analyse("digit::all", "probe::digit::all", [])
    for st, v in rs or ():
        ctx.ob("digit::all", vec(it, st, v) == list(range(1, 10)), "enumerates %r" % (vec(it, st, v),), ctx.anchor(P, "probe::digit::all"))

    # a cell addressed inside its house, and whole subsets
    for fn, n, off in (("row_at", 9, 0), ("col_at", 9, 9), ("block_at", 9, 18), ("line_at", 18, 0), ("house_at", 27, 0)):
        ctx.reset()
        h = dd.var(dd.Sym("house", range(n)))
        p = dd.var(dd.Sym("pos", range(9)))
        rs, it = ctx.analyse("conv::" + fn, "probe::conv::" + fn, [h, p])
        for st, v in rs or ():
            ctx.same("conv::" + fn, v, dd.map2(object(), lambda a, b: house_cell(a + off, b), h, p), st.pc, ctx.anchor(P, "probe::conv::" + fn))
    for fn, n, w in (("line_cells_at", 18, 16), ("house_cells_at", 27, 16)):
        ctx.reset()
        h = dd.var(dd.Sym("house", range(n)))
        bs = [dd.var(dd.Sym("p%d" % i, (0, 1))) for i in range(9)]
        rs, it = ctx.analyse("conv::" + fn, "probe::conv::" + fn, [h, mkbits(bs + [0] * (w - 9))])
        want = [0] * 81
        for i in range(9):
            c = tab(h, lambda a, i=i: house_cell(a, i))
            for cell in range(81):
                want[cell] = dd.b_or(want[cell], dd.b_and(tab(c, lambda y, cell=cell: 1 if y == cell else 0), bs[i]))
        for st, v in rs or ():
            ctx.same("conv::" + fn, v, mkbits(want + [0] * 47), st.pc, ctx.anchor(P, "probe::conv::" + fn))
    # error positions and candidates
    for fn, f in (("ie_row", row), ("ie_col", col), ("ie_block", blk)):
        ctx.reset()
        x = dd.var(dd.Sym("cell", C))
        rs, it = ctx.analyse("conv::" + fn, "probe::conv::" + fn, [(x, 65)] if field_order(P) == (0, 1) else [(65, x)])
        for st, v in rs or ():
            ctx.same("conv::" + fn, v, tab(x, f), st.pc, ctx.anchor(P, "probe::conv::" + fn))
    ctx.reset()
    c = dd.var(dd.Sym("cell", C))
    d = dd.var(dd.Sym("digit", range(1, 10)))
    rs, it = ctx.analyse("candidate::new", "probe::candidate::new", [c, d])
    for st, v in rs or ():
        for fn, f in (("row", row), ("col", col), ("block", blk)):
            r2, it2 = ctx.analyse("candidate::" + fn, "probe::candidate::" + fn, [v])
            for s2, x in r2 or ():
                ctx.same("candidate::" + fn, x, tab(c, f), s2.pc, ctx.anchor(P, "probe::candidate::" + fn))


def field_order(P):
    for o in P.T.values():
        if o["n"] == "sudoku::errors::InvalidEntry":
            names = [f[0] for f in o["v"][0][2]]
            return names.index("cell"), names.index("ch")
    raise Inconclusive("InvalidEntry not found")


def vec(it, st, v):
    """elements of a Vec value"""
    buf, n = v[0][0], v[1]
    if n.__class__ is not int:
        return n
    return [it.load(st, it.ptr_offset(buf, i, 1)) for i in range(n)]
