"""P06: the block format parser accepts exactly the documented texts and returns exactly what they say."""
import dd
from ai import *
from plib import *
from textmodel import *

ALSO = ["rel"]
FLOOR = 10
RULE = ("value-set dataflow over the MIR of the block parser on a text of arbitrarily many lines of arbitrary length (first 12 lines, first "
        "14 bytes of each symbolic): acceptance, grid, error variant and payload must equal the documented format's, no panic")
EXPLANATION = ("The text is an arbitrary list of lines, each an arbitrary well-formed byte sequence; what lies past byte 13 of a line or past "
               "line 11 is unknown.  The inferred outcome tables are compared with tables built from the documented format.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "str::lines, str::trim and core's UTF-8 decoder are modelled "
               "(engine/models.py): a non-ASCII character is identified by its byte offset, a line's blankness is one boolean"]
BYTE = byte_domain(b"\t\x0b\x0c\r +-.0123456789_|#aA/")
WS = b"\t\x0b\x0c\r "
VALID = set(b"0123456789._")
W, K = 14, 12


def digit(x):
    return x - 48 if x.__class__ is int and 48 <= x <= 57 else 0


def isin(b, chars):
    return tab(b, lambda x: 1 if x.__class__ is int and x in chars else 0)


def run(ctx):
    P = ctx.prog()
    BE = "sudoku::errors::BlockParseError"
    IE = "sudoku::errors::InvalidEntry"
    V = {k: variant_index(P, BE, k) for k in ("InvalidEntry", "InvalidLineLength", "NotEnoughRows", "IncorrectFieldDelimiter", "TooManyRows",
                                              "MissingCommentDelimiter")}
    fc, fh = vfield(P, IE, None, "cell"), vfield(P, IE, None, "ch")
    ctx.reset()
    T, present, blank, pcs = [], [], [], []
    here = 1
    n = Iv(K, HUGE)
    mem = {}
    ends = []
    for k in range(K):
        e = sym("more%d" % k, (0, 1))
        here = dd.b_and(here, e)
        present.append(here)
        ends.append(e)
        t = Text("l%d_" % k, W, BYTE)
        T.append(t)
        pcs.append(t.ok)
        un = sym("blank%d" % k, (0, 1))
        b = un
        for i in range(W - 1, -1, -1):
            b = sel(tab(t.raw[i], lambda x: 0 if x.__class__ is int and x == END else 1 if x.__class__ is int and x in WS else 2 if lohi(x)[0] >= 128 else 3),
                    {0: 1, 1: b, 2: un, 3: 0})
        blank.append(b)
        mem[("L", k)] = t.b
    for k in range(K - 1, -1, -1):
        n = dd.ite(ends[k], n, k)
    key = "from_str_block"

    def setup(it):
        it.text = {"base": ("T", 0), "lines": [(("L", k), T[k].n, blank[k]) for k in range(K)], "n": n}
    rs, it = ctx.analyse(key, "probe::sud::from_str_block", [Ptr(("T", 0), (("i", 0),), sym("bytes", [0, Iv(1, HUGE)]))], pc=tuple(pcs), mem=mem, setup=setup,
                         budget=8000000)
    if rs is None:
        return
    anc = ctx.anchor(P, "probe::sud::from_str_block")

    # ---- specification
    def row(t, r, delim, nxt):
        """outcome tables (kind, a, cell, ch) of a row line, nxt: outcome of the rest of the text"""
        pos = [("cell", c) for c in range(9)]
        if delim:
            pos = pos[:3] + ["|"] + pos[3:6] + ["|"] + pos[6:]
        b, i = t.b[len(pos)], len(pos)
        c = dd.ite(t.inside[i], sel(isin(b, b" \t"), {1: 0, 0: dd.ite(isin(b, VALID), 1, 2)}), 0)
        out = pick(c, {0: nxt, 1: (V["InvalidLineLength"], r, 0, 0), 2: (V["MissingCommentDelimiter"], r, 0, 0)})
        for i in range(len(pos) - 1, -1, -1):
            b = t.b[i]
            if pos[i] == "|":
                c = dd.ite(t.inside[i], dd.ite(eqc(b, 124), 0, 1), 2)
                out = pick(c, {0: out, 1: (V["IncorrectFieldDelimiter"], 0, 0, 0), 2: (V["InvalidLineLength"], r, 0, 0)})
            else:
                c = dd.ite(t.inside[i], dd.ite(isin(b, VALID), 0, 1), 2)
                out = pick(c, {0: out, 1: (V["InvalidEntry"], 0, r * 9 + pos[i][1], ch_at(b, i)), 2: (V["InvalidLineLength"], r, 0, 0)})
        return out

    def pick(c, m):
        return tuple(sel(c, {k: v[j] for k, v in m.items()}) for j in range(4))

    def starts(t, s):
        return conj([dd.b_and(t.inside[i], eqc(t.b[i], x)) for i, x in enumerate(s)])

    def last(k):
        c = dd.ite(present[k], dd.ite(blank[k], 0, 1), 0)
        return pick(c, {0: (-1, 0, 0, 0), 1: (V["TooManyRows"], 0, 0, 0)})

    def more(k, r, out):
        return pick(present[k], {1: out, 0: (V["NotEnoughRows"], r, 0, 0)})
    # without field delimiters
    out = last(9)
    for k in range(8, -1, -1):
        out = more(k, k, row(T[k], k, False, out))
    bare = out
    plus3 = starts(T[3], b"---+---+---")
    ok3 = dd.b_or(plus3, starts(T[3], b"-----------"))
    ok7 = dd.ite(plus3, starts(T[7], b"---+---+---"), starts(T[7], b"-----------"))
    out = last(11)
    r = 9
    for k in range(10, -1, -1):
        if k in (3, 7):
            out = more(k, r, pick({3: ok3, 7: ok7}[k], {1: out, 0: (V["IncorrectFieldDelimiter"], 0, 0, 0)}))
        else:
            r -= 1
            out = more(k, r, row(T[k], r, True, out))
    deli = out
    isd = dd.b_and(T[0].inside[3], eqc(T[0].b[3], 124))
    kind, num, cell, ch = pick(isd, {1: deli, 0: bare})
    grid = []
    for c in range(81):
        r, j = divmod(c, 9)
        grid.append(dd.ite(isd, tab(T[r + r // 3].b[j + j // 3], digit), tab(T[r].b[j], digit)))

    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    for st, v in rs:
        if not ctx.ob(key + "/shape", v.__class__ is En, repr(v), anc):
            continue
        ctx.same(key + "/accepts", eqc(v.d, 0), eqc(kind, -1), st.pc, anc)
        p = pc_and(st.pc, eqc(v.d, 0))
        if p is not None:
            for c in range(81):
                ctx.same(key + "/grid", v.v[0][0][c], grid[c], p, anc)
        p = pc_and(st.pc, eqc(v.d, 1))
        if p is None:
            continue
        e = v.v[1][0]
        ctx.same(key + "/error-kind", e.d, kind, p, anc)
        for k in ("InvalidLineLength", "NotEnoughRows", "MissingCommentDelimiter"):
            q = pc_and(p, eqc(e.d, V[k]))
            if q is not None:
                ctx.same(key + "/" + k, e.v[V[k]][0], num, q, anc)
        q = pc_and(p, eqc(e.d, V["InvalidEntry"]))
        if q is not None:
            x = e.v[V["InvalidEntry"]][0]
            ctx.same(key + "/invalid-cell", x[fc], cell, q, anc)
            ctx.same(key + "/invalid-char", x[fh], ch, q, anc)
