"""P03: byte construction accepts exactly the grids of entries 0..=9 and is lossless."""
import dd
from ai import *
from plib import *

ALSO = ["rel"]
FLOOR = 30
RULE = ("value-set dataflow over the MIR of the byte constructors and accessors with 81 fully symbolic bytes (and symbolic slice "
        "length): accepted exactly when every byte is <= 9 and the length is 81, value kept unchanged, error variant exact, no panic")
EXPLANATION = ("All 81 bytes are symbols over 0..=255, the slice length is a symbol over all of usize; the inferred result tables of "
               "from_bytes, from_bytes_slice, both TryFrom impls, to_bytes, From<Sudoku>, iter, n_clues, ==, cmp are compared with "
               "their definitions.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source; core/std bodies are analysed from their own MIR"]
BYTE = list(range(11)) + [Iv(11, 254), 255]


def run(ctx):
    P = ctx.prog()
    ER = "sudoku::errors::FromBytesSliceError"

    def go(fn, args, spec, mem=None, panics=None):
        rs, it = ctx.analyse("sud::" + fn, "probe::sud::" + fn, args, mem=mem, panics=panics)
        anc = ctx.anchor(P, "probe::sud::" + fn) if rs is not None else None
        if rs is not None:
            ctx.ob("sud::%s/total" % fn, len(rs) >= 1, "never returns", anc)
        for st, v in rs or ():
            spec(it, st, v, anc)
        return rs, it

    # ---- from_bytes and TryFrom<[u8; 81]>
    for fn in ("from_bytes", "try_from_array"):
        ctx.reset()
        b = tuple(sym("b%d" % i, BYTE) for i in range(81))
        ok = conj([tab(x, lambda v: 1 if v.__class__ is int and v <= 9 else 0) for x in b])

        def spec(it, st, v, anc, fn=fn):
            if not ctx.ob("sud::%s/shape" % fn, v.__class__ is En, "result is %r" % (v,), anc):
                return
            ctx.same("sud::%s/accepts" % fn, eqc(v.d, 0), ok, st.pc, anc)
            pc = pc_and(st.pc, eqc(v.d, 0))
            if pc is not None:
                ctx.same("sud::%s/value" % fn, v.v[0][0], b, pc, anc)
        go(fn, [b], spec)
    # ---- slices: 81 cells, symbolic length
    for fn in ("from_bytes_slice", "try_from_slice"):
        wl = variant_index(P, ER, "WrongLength")
        fe = variant_index(P, ER, "FromBytesError")
        ctx.reset()
        n = sym("len", [Iv(0, 80), 81, Iv(82, (1 << 63) - 1)])
        b = tuple(sym("b%d" % i, BYTE) for i in range(81))
        good = conj([tab(x, lambda v: 1 if v.__class__ is int and v <= 9 else 0) for x in b])
        l81 = eqc(n, 81)
        ok = dd.b_and(l81, good)

        def spec(it, st, v, anc, fn=fn):
            if not ctx.ob("sud::%s/shape" % fn, v.__class__ is En, "result is %r" % (v,), anc):
                return
            ctx.same("sud::%s/accepts" % fn, eqc(v.d, 0), ok, st.pc, anc)
            pc = pc_and(st.pc, eqc(v.d, 0))
            if pc is not None:
                ctx.same("sud::%s/value" % fn, v.v[0][0], b, pc, anc)
            pc = pc_and(st.pc, eqc(v.d, 1))
            if pc is not None:
                e = v.v[1][0]
                ctx.same("sud::%s/error" % fn, e.d, dd.ite(l81, fe, wl), pc, anc)
                pc = pc_and(pc, eqc(e.d, wl))
                if pc is not None:
                    ctx.same("sud::%s/error-length" % fn, e.v[wl][0], n, pc, anc)
        go(fn, [Ptr(("T", 0), (("i", 0),), n)], spec, {("T", 0): b})
    # ---- lossless access
    ctx.reset()
    g = symgrid()
    for fn in ("to_bytes", "into_array"):
        go(fn, [g], lambda it, st, v, anc, fn=fn: ctx.same("sud::" + fn, v, g, st.pc, anc))
    p = Ptr(("T", 0), ())
    go("clone", [p], lambda it, st, v, anc: ctx.same("sud::clone", v, g, st.pc, anc), {("T", 0): g})

    def want_iter(it, st, v, anc):
        l = vec(it, st, v)
        if ctx.ob("sud::iter/len", l.__class__ is list and len(l) == 81, "iterates %r" % (l if l.__class__ is not list else len(l),), anc):
            for i in range(81):
                ctx.same("sud::iter", l[i], En(tab(g[i], lambda x: 0 if x == 0 else 1), {0: (), 1: (g[i],)}), st.pc, anc)
    go("iter_all", [p], want_iter, {("T", 0): g})
    cnt = count_true([tab(x, lambda v: 1 if v else 0) for x in g])
    go("n_clues", [p], lambda it, st, v, anc: ctx.same("sud::n_clues", v, cnt, st.pc, anc), {("T", 0): g})
    # ---- equality and ordering are those of the byte arrays
    ctx.reset()
    A, B = [], []
    for i in range(81):
        A.append(sym("a%d" % i, range(10)))
        B.append(sym("b%d" % i, range(10)))
    A, B = tuple(A), tuple(B)
    mem = {("T", 0): A, ("T", 1): B}
    q = Ptr(("T", 1), ())
    same = conj([tab2(lambda x, y: 1 if x == y else 0, x, y) for x, y in zip(A, B)])
    go("eq", [p, q], lambda it, st, v, anc: ctx.same("sud::eq", v, same, st.pc, anc), mem)
    go("line_eq", [p, q], lambda it, st, v, anc: ctx.same("sud::line_eq", v, same, st.pc, anc), mem)
    order = 0
    for x, y in reversed(list(zip(A, B))):
        c = tab2(lambda u, v: (u > v) - (u < v), x, y)
        order = dd.map2("lexi", lambda a, b: a if a else b, c, order)

    def want_cmp(it, st, v, anc):
        ctx.ob("sud::cmp/shape", v.__class__ is En, repr(v), anc)
        got = v.d if v.__class__ is En else v
        sg = tab(got, lambda x: x)
        ctx.same("sud::cmp", sg, tab(order, lambda x: cmp_variant(P, x)), st.pc, anc)
    go("cmp", [p, q], want_cmp, mem)


def cmp_variant(P, x):
    return variant_index(P, "std::cmp::Ordering", {-1: "Less", 0: "Equal", 1: "Greater"}[x])
