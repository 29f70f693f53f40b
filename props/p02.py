"""P02: sets behave as mathematical sets."""
import dd
from ai import *
from plib import *

ALSO = ["rel"]
FLOOR = 230
RULE = ("value-set dataflow over the MIR of every set operation, all elements of both operands symbolic: the inferred result "
        "must equal the mathematical set operation for every pair of sets, and panics must be exactly the documented ones")
EXPLANATION = ("Every element of the operand sets is one boolean symbol; the abstract interpreter computes the result of each public set "
               "operation as decision diagrams over those symbols, which are compared with the diagrams of union, intersection, "
               "difference, cardinality etc.  Iteration is decided by its step on an arbitrary remaining set.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source; core/std bodies are analysed from their own MIR"]
TYPES = [("digit", 9, 16, 1), ("cell", 81, 128, 0), ("line", 18, 32, 0), ("house", 27, 32, 0), ("posline", 9, 16, 0), ("poshouse", 9, 16, 0)]


def run(ctx):
    P = ctx.prog()
    for nm, n, w, off in TYPES:
        m = "set_%s::" % nm
        full = (1 << n) - 1

        def case(fn, args, want, mod=m, post=None):
            rs, it = ctx.analyse(mod + fn, "probe::" + mod + fn, args)
            if rs is None:
                return
            anc = ctx.anchor(P, "probe::" + mod + fn)
            ctx.ob(mod + fn + "/total", len(rs) == 1, "%d results" % len(rs), anc)
            for st, v in rs:
                ctx.same(mod + fn, v, want, st.pc, anc)

        ctx.reset()
        case("all", [], full)
        case("none", [], 0)
        ctx.reset()
        x = sym("x", range(off, n + off))
        one = mkbits([eqc(x, i + off) for i in range(n)] + [0] * (w - n))
        case("single", [x], one)
        case("from_elem", [x], one)
        for two in (False, True):
            ctx.reset()
            if two:
                x = sym("x", range(off, n + off))
                A = symset(n, w, "a")
                B = mkbits([eqc(x, i + off) for i in range(n)] + [0] * (w - n))
                arg = x
            else:
                A, B = symset2(n, w)
                arg = B
            a, b = bits(A, w), bits(B, w)
            bw = lambda f: mkbits([f(p, q) for p, q in zip(a, b)])
            sfx = "_elem" if two else ""
            for op, f in (("and", dd.b_and), ("or", dd.b_or), ("xor", dd.b_xor)):
                case(op + sfx, [A, arg], bw(f))
                case(op + "_assign" + sfx, [A, arg], bw(f))
            sub = conj([dd.b_or(p, dd.b_not(q)) for p, q in zip(a, b)])
            case("contains" + sfx, [A, arg], sub)
            if not two:
                diff = bw(lambda p, q: dd.b_and(p, dd.b_not(q)))
                case("without", [A, B], diff)
                case("remove", [A, B], diff)
                case("overlaps", [A, B], disj([dd.b_and(p, q) for p, q in zip(a, b)]))
                case("eq", [A, B], conj([dd.b_not(dd.b_xor(p, q)) for p, q in zip(a, b)]))
        ctx.reset()
        A = symset(n, w, "a")
        a = bits(A, w)
        case("not", [A], mkbits([dd.b_not(p) for p in a[:n]] + [0] * (w - n)))
        case("bits", [A], A)
        cnt = count_true(a[:n])
        case("len", [A], cnt)
        case("is_empty", [A], eqc(cnt, 0))
        case("is_full", [A], eqc(cnt, n))
        # smallest element
        low, rest, seen = 0, [], 0
        for i in range(n):
            low = dd.ite(dd.b_and(a[i], dd.b_not(seen)), i + off, low) if True else 0
            rest.append(dd.b_and(a[i], seen))
            seen = dd.b_or(seen, a[i])
        rest = mkbits(rest + [0] * (w - n))
        some = En(seen, {0: (), 1: (low,)})
        one_ = eqc(cnt, 1)
        # Result<Option<T>, Empty>: Ok(Some(x)) / Ok(None) / Err
        mod = "it_%s::" % nm
        want_u = En(eqc(cnt, 0), {0: (En(one_, {0: (), 1: (low,)}),), 1: ((),)})
        case("unique", [A], want_u, mod)
        case("into_iter", [A], A, mod)
        key = mod + "next"
        rs, it = ctx.analyse(key, "probe::" + key, [Ptr(("T", 0), ())], mem={("T", 0): A})
        anc = ctx.anchor(P, "probe::" + key)
        for st, v in rs or ():
            ctx.same(key, v, some, st.pc, anc)
            ctx.same(key + "/rest", st.m[("T", 0)], rest, st.pc, anc)
        # from_bits accepts exactly the masks inside the set
        ctx.reset()
        F = mkbits([sym("f%d" % i, (0, 1)) for i in range(w)])
        f = bits(F, w)
        key = m + "from_bits"
        rs, it = ctx.analyse(key, "probe::" + key, [F], panics=False)
        anc = ctx.anchor(P, "probe::" + key)
        if rs is not None:
            bad = disj(f[n:])
            ctx.same(key + "/rejects", event_cond(it.events), bad, (), anc)
            ctx.ob(key + "/total", len(rs) == 1, "%d results" % len(rs), anc)
            for st, v in rs:
                ctx.same(key, v, F, st.pc, anc)
