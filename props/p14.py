"""P14: serde round-trips and rejects everything that is not a sudoku."""
import dd
from ai import *
from plib import *
from textmodel import *
import importlib

FLOOR = 14
RULE = ("value-set dataflow over the MIR of the Serialize and Deserialize implementations (feature serde) against a recording serializer and "
        "deserializers that offer exactly one text or byte string: output equals the line text or the 81 bytes of the symbolic grid; input is accepted "
        "exactly when it is a line sudoku, or 81 bytes of at most 9, with that value; no panic")
EXPLANATION = ("The client crate's formats hand the data to the visitor as borrowed, transient or owned; the text is an arbitrary UTF-8 text of arbitrary "
               "length, the byte string has 81 symbolic bytes and a symbolic length.")
ASSUMPTIONS = ["serde's provided Visitor methods are analysed from their own MIR", "as for P04: core's UTF-8 decoder at next_code_point"]
BYTE = list(range(11)) + [Iv(11, 254), 255]


def run(ctx):
    P = ctx.prog("serde")
    V = importlib.import_module("p04")
    ctx.reset()
    g = symgrid()
    chars = [tab(x, lambda x: 46 if x == 0 else 48 + x) for x in g]
    OUT = "ser::Out"
    vs, vb = variant_index(P, OUT, "Str"), variant_index(P, OUT, "Bytes")
    for fn, k, want in (("write_human", vs, chars), ("write_compact", vb, list(g))):
        rs, it = ctx.analyse(fn, "probe::ser::" + fn, [Ptr(("T", 0), ())], mem={("T", 0): g}, cfg="serde")
        if rs is None:
            continue
        anc = ctx.anchor(P, "probe::ser::" + fn)
        ctx.ob(fn + "/total", len(rs) == 1, "%d results" % len(rs), anc)
        for st, v in rs:
            if not ctx.ob(fn + "/succeeds", v.__class__ is En and v.d.__class__ is int and v.d == 0, "result is %r" % (v,), anc):
                continue
            o = v.v[0][0]
            if not ctx.ob(fn + "/form", o.__class__ is En and o.d == k, "written as %r" % (o.d if o.__class__ is En else o,), anc):
                continue
            s = vec(it, st, o.v[k][0])
            if not ctx.ob(fn + "/length", s.__class__ is list and len(s) == 81, "length %s" % (s if s.__class__ is not list else len(s)), anc):
                continue
            for a, b in zip(s, want):
                ctx.same(fn, a, b, st.pc, anc)
    # ---- reading the compact form
    for fn in ("read_compact", "read_compact_borrowed", "read_compact_owned"):
        for n in ([0, 1, 80, 81, 82, 83] if fn.endswith("owned") else [None]):
            ctx.reset()
            if n is None:
                n = sym("len", [Iv(0, 80), 81, Iv(82, (1 << 63) - 1)])
            b = tuple(sym("b%d" % i, BYTE) for i in range(81))
            if n.__class__ is int and n != 81:
                b = b + (0, 0)
            ok = dd.b_and(eqc(n, 81), conj([tab(x, lambda v: 1 if v.__class__ is int and v <= 9 else 0) for x in b[:81]]))
            rs, it = ctx.analyse(fn, "probe::ser::" + fn, [Ptr(("T", 0), (("i", 0),), n)], mem={("T", 0): b}, cfg="serde")
            read_spec(ctx, P, fn, rs, ok, b[:81])
    # ---- reading text
    # (the format that copies the text first: bounded lengths)
    jobs = [lambda c, fn=fn: human(c, P, V, fn, 85, None) for fn in ("read_human", "read_human_borrowed")]
    jobs += [lambda c, n=n: human(c, P, V, "read_human_owned", n, n) for n in (80, 81, 82, 83, 0, 1)]
    ctx.parallel(jobs)
    ctx.reset()
    rs, it = ctx.analyse("read_number", "probe::ser::read_number", [Iv(0, (1 << 64) - 1)], cfg="serde")
    for st, v in rs or ():
        ctx.ob("read_number", v.__class__ is En and v.d.__class__ is int and v.d == 0, "a number was read as a sudoku", ctx.anchor(P, "probe::ser::read_number"))


def human(ctx, P, V, fn, width, n):
    ctx.reset()
    T = Text("t", width, V.BYTE)
    if n:
        T.ok = dd.b_and(T.ok, T.inside[n - 1])
    bs, inside = T.b, T.inside
    at = lambda l, i, d: l[i] if i < len(l) else d
    ok = dd.b_or(dd.b_not(at(inside, 81, 0)), tab(at(bs, 81, 0), lambda x: 1 if x.__class__ is int and x in b"\t \r\n;," else 0))
    for i in range(81):
        ok = conj([at(inside, i, 0), tab(at(bs, i, 0), lambda x: 1 if x.__class__ is int and x in V.VALID else 0), ok])
    grid = tuple(tab(at(bs, i, 0), V.digit) for i in range(81))
    rs, it = ctx.analyse(fn, "probe::ser::" + fn, [Ptr(("T", 0), (("i", 0),), T.n if n is None else n)], pc=(T.ok,), mem={("T", 0): bs}, budget=8000000, cfg="serde")
    read_spec(ctx, P, fn, rs, ok, grid)


def read_spec(ctx, P, fn, rs, ok, grid):
    if rs is None:
        return
    anc = ctx.anchor(P, "probe::ser::" + fn)
    ctx.ob(fn + "/total", len(rs) >= 1, "never returns", anc)
    for st, v in rs:
        if not ctx.ob(fn + "/shape", v.__class__ is En, repr(v), anc):
            continue
        ctx.same(fn + "/accepts", eqc(v.d, 1), ok, st.pc, anc)
        p = pc_and(st.pc, eqc(v.d, 1))
        if p is not None:
            ctx.same(fn + "/value", v.v[1][0], grid, p, anc)
