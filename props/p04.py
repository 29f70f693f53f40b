"""P04: the line format parser accepts exactly the documented texts and returns exactly what they say."""
import dd
from ai import *
from plib import *
from textmodel import *

ALSO = ["rel"]
FLOOR = 8
RULE = ("value-set dataflow over the MIR of the line parser on a text of arbitrary length whose first 85 bytes are symbols (a UTF-8 "
        "automaton constrains them): acceptance, grid, error variant and every error payload must equal the documented grammar's, no panic")
EXPLANATION = ("The text is modelled as an arbitrary well-formed byte sequence of arbitrary length; bytes past index 84 are unknown.  The "
               "inferred outcome tables of the whole parser are compared with the tables of the documented grammar.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "core's UTF-8 decoder is modelled at next_code_point: ASCII exactly, "
               "a non-ASCII character as an unknown character identified by its byte offset"]
BYTE = byte_domain(b"\t\n\r ,-+|.0123456789;_#aA/")
VALID = set(b"0123456789._")


def digit(x):
    return x - 48 if x.__class__ is int and 48 <= x <= 57 else 0


def run(ctx):
    P = ctx.prog()
    LE = "sudoku::errors::LineParseError"
    IE = "sudoku::errors::InvalidEntry"
    V = {k: variant_index(P, LE, k) for k in ("InvalidEntry", "NotEnoughCells", "TooManyCells", "MissingCommentDelimiter")}
    fc, fh = vfield(P, IE, None, "cell"), vfield(P, IE, None, "ch")
    ctx.reset()
    T = Text("t", 85, BYTE)
    bs, inside = T.b, T.inside
    key = "from_str_line"
    rs, it = ctx.analyse(key, "probe::sud::from_str_line", [Ptr(("T", 0), (("i", 0),), T.n)], pc=(T.ok,), mem={("T", 0): bs}, budget=8000000)
    if rs is None:
        return
    anc = ctx.anchor(P, "probe::sud::from_str_line")
    # outcome by scanning from the end: -1 accepted, otherwise the error variant
    kind = sel(tab(bs[81], lambda x: 0 if x.__class__ is int and x in b"\t \r\n;," else 1 if x.__class__ is int and x in VALID else 2),
               {0: -1, 1: V["TooManyCells"], 2: V["MissingCommentDelimiter"]})
    kind = dd.ite(inside[81], kind, -1)
    cnt, cell, ch = 81, 0, 0
    for i in range(80, -1, -1):
        c = tab(bs[i], lambda x: 0 if x.__class__ is int and x in VALID else 1 if x.__class__ is int and x in b" \t" else 2)
        c = dd.ite(inside[i], c, 1)
        kind = sel(c, {0: kind, 1: V["NotEnoughCells"], 2: V["InvalidEntry"]})
        cnt = sel(c, {0: cnt, 1: i, 2: 0})
        cell = sel(c, {0: cell, 1: 0, 2: i})
        ch = sel(c, {0: ch, 1: 0, 2: ch_at(bs[i], i)})
    grid = tuple(tab(b, digit) for b in bs[:81])
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    for st, v in rs:
        if not ctx.ob(key + "/shape", v.__class__ is En, repr(v), anc):
            continue
        ctx.same(key + "/accepts", eqc(v.d, 0), eqc(kind, -1), st.pc, anc)
        p = pc_and(st.pc, eqc(v.d, 0))
        if p is not None:
            ctx.same(key + "/grid", v.v[0][0], grid, p, anc)
        p = pc_and(st.pc, eqc(v.d, 1))
        if p is None:
            continue
        e = v.v[1][0]
        ctx.same(key + "/error-kind", e.d, kind, p, anc)
        q = pc_and(p, eqc(e.d, V["NotEnoughCells"]))
        if q is not None:
            ctx.same(key + "/cells-supplied", e.v[V["NotEnoughCells"]][0], cnt, q, anc)
        q = pc_and(p, eqc(e.d, V["InvalidEntry"]))
        if q is not None:
            x = e.v[V["InvalidEntry"]][0]
            ctx.same(key + "/invalid-cell", x[fc], cell, q, anc)
            ctx.same(key + "/invalid-char", x[fh], ch, q, anc)
