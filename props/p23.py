"""P23: comparison, order and hashing of values agree with the values."""
import dd
from ai import *
from models import veq
from plib import *

FLOOR = 200
RULE = ("value-set dataflow over the MIR of PartialEq, Ord, PartialOrd, Hash and Clone of every public value type with two arbitrary symbolic values: == is "
        "sameness, != its negation, clones are the same value, cmp is the numeric/lexicographic order, partial_cmp and the comparison operators follow cmp, "
        "and what is fed to a hasher is the same for equal values")
EXPLANATION = ("Both operands are built from independent symbols ranging over the whole type (all positions, digits, candidates, sets, errors with any payload, "
               "all 81 cells of both grids); results are compared with tables written from the definition. For candidates, whose order is not documented, "
               "the laws of a total order are checked on three arbitrary values.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source; core bodies are analysed from their own MIR", "invalid characters in errors: every ASCII "
               "character, other characters in 3 classes of representatives"]
POS = {"cell": 81, "row": 9, "col": 9, "block": 9, "line": 18, "house": 27, "minirow": 27, "minicol": 27, "miniline": 54, "band": 3, "stack": 3,
       "chute": 6, "position": 9}
CHARS = list(range(0, 128)) + [0xE9, 0x20AC, 0x1F600]


def run(ctx):
    P = ctx.prog()
    B, E = "sudoku::board::", "sudoku::errors::"

    def tyname(last):
        for o in P.T.values():
            n = o["n"]
            if o.get("v") and n.split("<")[0].split("::")[-1] == last and n.startswith("sudoku::"):
                return o
        raise Inconclusive("type %s not found" % last)

    def enum(last, payload):
        """arbitrary value of an enum; payload: variant -> function(name) giving the fields"""
        o = tyname(last)

        def make(nm):
            d = sym(nm + ".variant", range(len(o["v"])))
            vs = {}
            for i, v in enumerate(o["v"]):
                if v[2]:
                    if v[0] not in payload:
                        raise Inconclusive("payload of %s::%s" % (last, v[0]))
                    vs[i] = payload[v[0]](nm + "." + v[0])
                else:
                    vs[i] = ()
            return En(d, vs)
        return make

    def fields(last, d):
        o = tyname(last)
        names = [f[0] for f in o["v"][0][2]]
        if set(names) != set(d):
            raise Inconclusive("fields of %s are %s" % (last, names))

        def make(nm):
            return tuple([d[n](nm + "." + n) for n in names])
        return make

    def num(n, lo=0):
        return lambda nm: sym(nm, range(lo, lo + n))

    def pay(f):
        return lambda nm: (f(nm),)
    u8 = num(256)
    entry = fields("InvalidEntry", {"cell": u8, "ch": lambda nm: sym(nm, CHARS)})
    kinds = {k: num(n) for k, n in POS.items()}
    kinds["digit"] = num(9, 1)
    kinds["candidate"] = fields("Candidate", {"cell": num(81), "digit": num(9, 1)})
    kinds["linetype"] = enum("LineType", {"Row": pay(num(9)), "Col": pay(num(9))})
    kinds["housetype"] = enum("HouseType", {"Row": pay(num(9)), "Col": pay(num(9)), "Block": pay(num(9))})
    kinds["chutetype"] = enum("ChuteType", {"Band": pay(num(3)), "Stack": pay(num(3))})
    kinds["minilinetype"] = enum("MiniLineType", {"MiniRow": pay(num(27)), "MiniCol": pay(num(27))})
    kinds["cellstate"] = enum("CellState", {"Digit": pay(num(9, 1)), "Candidates": pay(lambda nm: symset(9, 16, nm))})
    kinds["symmetry"] = enum("Symmetry", {})
    kinds["entry"] = entry
    kinds["lineerr"] = enum("LineParseError", {"InvalidEntry": pay(entry), "NotEnoughCells": pay(u8)})
    kinds["blockerr"] = enum("BlockParseError", {"InvalidEntry": pay(entry), "InvalidLineLength": pay(u8), "NotEnoughRows": pay(u8),
                                                 "MissingCommentDelimiter": pay(u8)})
    kinds["rows"] = u8
    kinds["set_cell"] = lambda nm: symset(81, 128, nm)
    kinds["set_digit"] = lambda nm: symset(9, 16, nm)
    kinds["set_house"] = lambda nm: symset(27, 32, nm)
    kinds["grid"] = None
    p, q, r = Ptr(("T", 0), ()), Ptr(("T", 1), ()), Ptr(("T", 2), ())
    V = "probe::vals::"

    def each(key, fn, args, mem, f):
        rs, it = ctx.analyse(key, fn, args, mem=mem)
        if rs is None:
            return
        anc = ctx.anchor(P, fn)
        ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
        for st, v in rs:
            f(it, st, v, anc)

    def is_table(key, fn, args, mem, want):
        each(key, fn, args, mem, lambda it, st, v, anc: ctx.same(key, bits_to_dd(v.b) if v.__class__ is Bits else v, want, st.pc, anc))

    def ordering(v):
        return v.d if v.__class__ is En else v

    def two(kind):
        ctx.reset()
        if kind == "grid":
            A, Bg = [], []
            for i in range(81):
                A.append(sym("a%d" % i, range(10)))
                Bg.append(sym("b%d" % i, range(10)))
            a, b = tuple(A), tuple(Bg)
        elif kind.startswith("set_"):
            n, w = {"set_cell": (81, 128), "set_digit": (9, 16), "set_house": (27, 32)}[kind]
            a, b = symset2(n, w)
        else:
            a, b = kinds[kind]("a"), kinds[kind]("b")
        return a, b, {("T", 0): a, ("T", 1): b}

    def fed(key, fn, mem, a):
        """what is fed to the hasher is determined by the value alone: every table is over the value's own symbols (and decided)"""
        own = [0]

        def walk(x):
            if x.__class__ is tuple:
                for y in x:
                    walk(y)
            elif x.__class__ is En:
                walk(x.d)
                for y in x.v.values():
                    walk(y)
            elif x.__class__ is Bits:
                for y in x.b:
                    walk(y)
            elif x.__class__ is Node:
                own[0] |= dd.support(x)
        walk(a)

        def ok(x):
            if x.__class__ is Bits:
                return all(ok(y) for y in x.b)
            if x.__class__ is Node:
                return not dd.support(x) & ~own[0] and all(t.__class__ is int for t in dd.terminals(x))
            return x.__class__ is int

        def see(it, st, v, anc):
            names = [f[0] for f in rec["v"][0][2]]
            n, w = v[names.index("n")], v[names.index("w")]
            for t in (n,) + tuple(w):
                ctx.ob(key + "/determined", ok(t), "hash input %r depends on more than the value" % (t,), anc)
            ctx.ob(key + "/fed", n.__class__ is not int or n > 0, "nothing is hashed", anc)
        each(key, fn, [p], mem, see)
    rec = [o for o in P.T.values() if o.get("v") and o["n"].endswith("vals::Rec")][0]

    def equality(kind):
        a, b, mem = two(kind)
        same = veq(a, b)
        is_table(kind + "::eq", V + kind + "::eq", [p, q], mem, same)
        is_table(kind + "::ne", V + kind + "::ne", [p, q], mem, dd.b_not(same))
        each(kind + "::clone", V + kind + "::clone", [p], mem, lambda it, st, v, anc: ctx.same(kind + "::clone", veq(v, a), 1, st.pc, anc))
        fed(kind + "::hash", V + kind + "::hash", mem, a)

    def follows(kind, want, names, mem):
        """names: operation -> function; want: table of -1/0/1"""
        def c(it, st, v, anc):
            ctx.same(kind + "::cmp", ordering(v), tab(want, lambda x: cmp_variant(P, x)), st.pc, anc)
        each(kind + "::cmp", names["cmp"], [p, q], mem, c)

        def pcm(it, st, v, anc):
            ctx.same(kind + "::partial_cmp/some", v.d, 1, st.pc, anc)
            ctx.same(kind + "::partial_cmp", ordering(v.v[1][0]), tab(want, lambda x: cmp_variant(P, x)), st.pc, anc)
        each(kind + "::partial_cmp", names["partial_cmp"], [p, q], mem, pcm)
        for op, f in (("lt", lambda x: x < 0), ("le", lambda x: x <= 0), ("gt", lambda x: x > 0), ("ge", lambda x: x >= 0)):
            if op in names:
                is_table(kind + "::" + op, names[op], [p, q], mem, tab(want, lambda x, f=f: 1 if f(x) else 0))

    OPS = ("cmp", "partial_cmp", "lt", "le", "gt", "ge")

    def lexi(A, Bs):
        order = 0
        for x, y in reversed(list(zip(A, Bs))):
            order = dd.map2("lexi23", lambda a, b: a if a else b, tab2(lambda u, v: (u > v) - (u < v), x, y), order)
        return order

    def order(kind):
        a, b, mem = two(kind)
        if kind == "grid":
            want = lexi(a, b)
        elif kind == "set_digit":
            want = lexi(list(reversed(bits(a, 16))), list(reversed(bits(b, 16))))
            # the order of sets is not documented: any total order that agrees with == will do; masks are what is compared today
            return total(kind)
        elif kind == "candidate":
            return total(kind)
        else:
            want = tab2(lambda u, v: (u > v) - (u < v), a, b)
        follows(kind, want, {op: V + "ord::%s::%s" % (kind, op) for op in OPS}, mem)

    def total(kind):
        """laws of a total order that agrees with =="""
        ctx.reset()
        mk = kinds[kind]
        if kind == "candidate":
            o = tyname("Candidate")
            nm = [f[0] for f in o["v"][0][2]]
            ss = {}
            for n in nm:
                for k in "abc":
                    ss[k, n] = sym(k + "." + n, range(81) if n == "cell" else range(1, 10))
            a, b, c = [tuple([ss[k, n] for n in nm]) for k in "abc"]
        else:
            x = [[], [], []]
            for i in range(9):
                for j in range(3):
                    x[j].append(sym("abc"[j] + str(i), (0, 1)))
            a, b, c = [mkbits(y + [0] * 7) for y in x]
        mem = {("T", 0): a, ("T", 1): b, ("T", 2): c}
        cmps = {}
        fn = V + "ord::%s::cmp" % kind
        anc = fn
        sign = {cmp_variant(P, k): k for k in (-1, 0, 1)}
        for nm2, args in (("ab", [p, q]), ("ba", [q, p]), ("bc", [q, r]), ("ac", [p, r])):
            def see(it, st, v, anc, nm2=nm2):
                t = tab(ordering(v), lambda x: sign.get(x, x))
                old = cmps.get(nm2)
                cmps[nm2] = t if old is None else dd.ite(conj(st.pc), t, old)
            each(kind + "::cmp", fn, args, mem, see)
        if len(cmps) < 4:
            return
        ctx.same(kind + "::cmp/equal", eqc(cmps["ab"], 0), veq(a, b), (), anc)
        ctx.same(kind + "::cmp/antisymmetric", cmps["ab"], tab(cmps["ba"], lambda x: -x), (), anc)
        lt = {k: eqc(v, -1) for k, v in cmps.items()}
        both = dd.b_and(lt["ab"], lt["bc"])
        ctx.same(kind + "::cmp/transitive", dd.b_and(both, lt["ac"]), both, (), anc)
        want = cmps["ab"]
        follows(kind, want, {op: V + "ord::%s::%s" % (kind, op) for op in OPS}, mem)

    for kind in kinds:
        equality(kind)
    for kind in list(POS)[:-1] + ["digit", "candidate", "set_digit", "grid"]:
        order(kind)
    # ---- the line and block texts of grids compare like the grids
    a, b, mem = two("grid")
    want = lexi(a, b)
    same = veq(a, b)
    follows("line", want, {"cmp": V + "line_cmp", "partial_cmp": V + "line_partial_cmp"}, mem)
    is_table("line::ne", V + "line_ne", [p, q], mem, dd.b_not(same))
    is_table("block::eq", V + "block_eq", [p, q], mem, same)
    each("block::cmp", V + "block_cmp", [p, q], mem,
         lambda it, st, v, anc: ctx.same("block::cmp/equal", eqc(ordering(v), cmp_variant(P, 0)), same, st.pc, anc))
    fed("line::hash", V + "line_hash", mem, a)
    fed("block::hash", V + "block_hash", mem, a)


def cmp_variant(P, x):
    return variant_index(P, "std::cmp::Ordering", {-1: "Less", 0: "Equal", 1: "Greater"}[x])
