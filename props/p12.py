"""P12: the search finds exactly the completions of the grid, each once."""
import dd, ai, interp
from ai import *
from plib import *
from solv import *
import search

ALSO = ["unchecked"]
FLOOR = 200000
RULE = ("value-set dataflow over the MIR of every step of the solver on arbitrary candidate words (27 symbolic bits per digit and band): every way "
        "of placing a digit in a band that the state still allows survives each deduction, a contradiction is reported only when there is one, a "
        "fixpoint with all cells solved is a valid grid, clue insertion is exact, each branching step splits the candidates of one cell into disjoint "
        "exhaustive branches, a solved state records exactly its grid once; no panic")
EXPLANATION = ("locked-candidate step: for each of the 27 digit/band words, its 27 bits, all other words and the unsolved cells are arbitrary; the result is "
               "compared for each of the 162 placements. naked singles: two cells with arbitrary candidate sets and solved marks, all other cells with at "
               "least three candidates and otherwise arbitrary. Clue insertion: every cell and digit on arbitrary states; from_sudoku inserts exactly the "
               "clues into a state that excludes nothing. Branching: candidate sets of the cells that can be branched on enumerated, everything else "
               "arbitrary; the recursive calls are oracles that record the states they get. By induction over the steps (DESIGN.md) these lemmas give: "
               "min(N, limit) different solutions are recorded, all of them completions of the grid.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "the induction that combines the lemmas (DESIGN.md)",
               "naked singles are checked with up to two singles per band at a time (the steps for different singles are independent)",
               "candidate sets of the cells that can be branched on are enumerated from a fixed family; all other candidates are arbitrary"]


def run(ctx):
    P = ctx.prog()
    L = Layout(P)
    jobs = [locked(P, L, sb) for sb in range(27)]
    jobs += [fixpoint(P, L, j) for j in range(27)]
    jobs += [insert(P, L, c) for c in range(81)]
    jobs += [first_state(P, L)]
    pairs = []
    for i in range(27):
        for j in range(i + 1, 27):
            ri, ci, ki = bandcell(i)
            rj, cj, kj = bandcell(j)
            if ctx.tier == "thorough" or j == i + 1 or (i * 5 + j) % 13 == 0:
                pairs.append((i, j))
    for b in range(3):
        for k in range(0, len(pairs), 4):
            jobs.append(singles(P, L, b, pairs[k:k + 4]))
    ctx.parallel(jobs + search.jobs(ctx, P))


# ---------------------------------------------------------------- locked candidates

STACK_MAJOR = [r * 9 + s * 3 + c for s in range(3) for r in range(3) for c in range(3)]


def locked(P, L, sb):
    FN = S + "_find_locked_candidates_and_update"

    def go(ctx):
        ctx.reset()
        ai.BITS_LIMIT[0] = 10000000
        d, band = divmod(sb, 3)
        w = symword("w", STACK_MAJOR)
        T = [w if k == sb else symword("t%d" % k) for k in range(27)]
        U = [symword("u%d" % k) for k in range(3)]
        PV = [sym("pv%d" % k, (0, 1)) for k in range(27)]
        state = L.make(T, PV, U, (0, 0, 0))
        p = Ptr(("S", 0), ())
        key = "locked/%d" % sb
        rs, it = ctx.analyse(key, FN, [p, sb], mem={("S", 0): state}, budget=12000000)
        anc = ctx.anchor(P, FN)
        if rs is None:
            return
        ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
        old = wbits(w)
        PL = placements()
        for st, v in rs:
            ok = eqc(v.d, 0) if v.d.__class__ is Node else (1 if v.d == 0 else 0)
            ok = dd.b_and(conj(st.pc), ok)
            bad = dd.b_and(conj(st.pc), dd.b_not(ok) if ok.__class__ is Node else 1 - ok)
            s2 = st.m[("S", 0)]
            new = wbits(s2[L.poss][sb])
            # frame
            for i in L.rest:
                ctx.ob(key + "/frame", s2[i] == state[i], "field %s is changed" % L.names[i], anc)
            nb = [k for k in (d * 3, d * 3 + 1, d * 3 + 2) if k != sb]
            same = [k for k in range(band, 27, 3) if k != sb]
            for k in range(27):
                if k not in nb and k not in same and k != sb:
                    ctx.ob(key + "/frame", s2[L.poss][k] is T[k] or vneq0(s2[L.poss][k], T[k], ok), "candidates of an unrelated digit and band change", anc)
                if k != sb:
                    ctx.ob(key + "/frame", s2[L.prev][k] is PV[k] or vneq0(s2[L.prev][k], PV[k], ok), "the record of another word changes", anc)
            ctx.ob(key + "/recorded", vneq0(s2[L.prev][sb], s2[L.poss][sb], ok), "the processed word is not recorded as processed", anc)
            tb = {k: (wbits(T[k]), wbits(s2[L.poss][k])) for k in nb + same}
            ub = [(wbits(U[k]), wbits(s2[L.unsolved][k])) for k in range(3)]
            ctx.ob(key + "/frame", all(wfit(x) for x in s2[L.poss]) and all(wfit(x) for x in s2[L.unsolved]), "bits beyond the band are set", anc)
            # nothing is ever added
            for i in range(27):
                ctx.holds(key + "/shrinks", implies(new[i], old[i]), (ok,), anc)
                for k in nb + same:
                    ctx.holds(key + "/shrinks", implies(tb[k][1][i], tb[k][0][i]), (ok,), anc)
                for k in range(3):
                    ctx.holds(key + "/shrinks", implies(ub[k][1][i], ub[k][0][i]) if k == band else 1 - neq(ub[k][1][i], ub[k][0][i]), (ok,), anc)
            # every placement of the digit in this band survives, with everything compatible with it
            for pi in PL:
                have = conj([old[i] for i in pi])
                ctx.holds(key + "/placement-possible", dd.b_not(dd.b_and(have, bad)), (), anc, what="contradiction reported although digit %d fits at %s:" % (d + 1, pi))
                good = dd.b_and(have, ok)
                for i in pi:
                    ctx.holds(key + "/placement-kept", implies(good, new[i]), (), anc, what="digit %d at %s kept:" % (d + 1, pi))
            # removals are forced: for each bit that may vanish elsewhere, no placement allows it
            for i in range(27):
                for k in nb:
                    gone = dd.b_and(ok, dd.b_and(tb[k][0][i], dd.b_not(tb[k][1][i])))
                    if gone.__class__ is Node or gone:
                        for pi in PL:
                            if i % 9 not in [x % 9 for x in pi]:
                                ctx.holds(key + "/other-bands", dd.b_not(dd.b_and(conj([old[x] for x in pi]), gone)), (), anc,
                                          what="digit %d keeps band cell %d of another band when placed at %s:" % (d + 1, i, pi))
                goneany = ub[band][0][i]
                lost = dd.b_and(ok, dd.b_and(ub[band][0][i], dd.b_not(ub[band][1][i])))
                for k in same:
                    lost = dd.b_or(lost, dd.b_and(ok, dd.b_and(tb[k][0][i], dd.b_not(tb[k][1][i]))))
                if lost.__class__ is Node or lost:
                    for pi in PL:
                        if i not in pi:
                            ctx.holds(key + "/same-cells", dd.b_not(dd.b_and(conj([old[x] for x in pi]), lost)), (), anc,
                                      what="cell %d keeps its other digits when digit %d is placed at %s:" % (i, d + 1, pi))
                # a cell marked solved holds no other digit
                solved = dd.b_and(ok, dd.b_and(ub[band][0][i], dd.b_not(ub[band][1][i])))
                for k in same:
                    ctx.holds(key + "/solved-cell", dd.b_not(dd.b_and(solved, tb[k][1][i])), (), anc, what="a solved cell holds no other digit:")
                # a cell that is alone in its row and block gets marked solved
                alone = dd.b_and(new[i], dd.b_not(disj([new[j] for j in peers_same_band(i)])))
                ctx.holds(key + "/single-solved", dd.b_not(dd.b_and(dd.b_and(ok, alone), ub[band][1][i])), (), anc,
                          what="the only place of digit %d in row and block is marked solved:" % (d + 1))
            for h in range(3):
                ctx.holds(key + "/rows", implies(ok, disj([new[i] for i in range(27) if bandcell(i)[0] == h])), (), anc, what="each row keeps a candidate:")
                ctx.holds(key + "/blocks", implies(ok, disj([new[i] for i in range(27) if bandcell(i)[2] == h])), (), anc, what="each block keeps a candidate:")
            # a finished placement excludes its columns elsewhere
            for pi in PL:
                exact = conj([new[i] if i in pi else dd.b_not(new[i]) for i in range(27)])
                exact = dd.b_and(ok, exact)
                if exact.__class__ is not Node and not exact:
                    ctx.ob(key + "/columns", False, "the placement %s is never reached" % (pi,), anc)
                    continue
                for k in nb:
                    for i in range(27):
                        if i % 9 in [x % 9 for x in pi]:
                            ctx.holds(key + "/columns", dd.b_not(dd.b_and(exact, tb[k][1][i])), (), anc, what="a placed digit's columns are excluded in the other bands:")
    return go


# ---------------------------------------------------------------- the loop around it

def fixpoint(P, L, j):
    """find_locked_candidates_and_update returns Ok only when every word has been processed since its last change"""
    FN = S + "find_locked_candidates_and_update"
    INNER = S + "_find_locked_candidates_and_update"

    def go(ctx):
        ctx.reset()
        key = "fixpoint/%d" % j
        dirty = [sym("dirty%d" % k, (0, 1)) for k in range(27)]
        again = sym("again", range(27))
        err = sym("err", (0, 1))
        state = L.make([dd.map1("w01", lambda x: 5 + x, x) for x in dirty], [5] * 27, [ALL] * 3, [0] * 3)
        box = {"n": [], "err": []}

        def inner(it, st, o, a, at, dt):
            k = a[1]
            s = it.load(st, a[0])
            if k.__class__ is not int:
                raise Inconclusive("word %r" % (k,))
            po, pr = list(s[L.poss]), list(s[L.prev])
            first = not any(x == k for x in box["n"])
            box["n"].append(k)
            if first and k == j:
                for t in range(27):
                    po[t] = dd.ite(eqc(again, t), 9, po[t])
                e = err
                box["err"].append(dd.b_and(conj(st.pc), err))
            else:
                e = 0
            pr[k] = s[L.poss][k]
            if first and k == j:
                pr[k] = s[L.poss][k]
            s = list(s)
            s[L.poss], s[L.prev] = tuple(po), tuple(pr)
            it.store(st, a[0], tuple(s))
            return [(st, En(e, {0: ((),), 1: ((),)}))]

        def setup(it):
            it.models[INNER] = inner
        rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ())], mem={("S", 0): state}, setup=setup)
        anc = ctx.anchor(P, FN)
        if rs is None:
            return
        ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
        failed = disj(box["err"])
        for st, v in rs:
            pc = conj(st.pc)
            iserr = dd.b_and(pc, v.d)
            ok = dd.b_and(pc, dd.b_not(v.d) if v.d.__class__ is Node else 1 - v.d)
            ctx.holds(key + "/err", implies(iserr, failed), (), anc, what="contradiction only when a step reports one:")
            ctx.holds(key + "/ok", dd.b_not(dd.b_and(ok, failed)), (), anc, what="a contradiction found by a step is passed on:")
            s = st.m[("S", 0)]
            for k in range(27):
                ctx.holds(key + "/processed", dd.b_not(dd.b_and(ok, interpneq(s[L.poss][k], s[L.prev][k]))), (), anc,
                          what="word %d processed after its last change:" % k)
    return go


# ---------------------------------------------------------------- insertion

def insert(P, L, cell):
    FN = S + "insert_candidate"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for d in range(9):
            ctx.reset()
            T = [symword("t%d" % k) for k in range(27)]
            U = [symword("u%d" % k) for k in range(3)]
            PV = [sym("pv%d" % k, (0, 1)) for k in range(27)]
            state = L.make(T, PV, U, (0, 0, 0))
            key = "insert/%d" % cell
            rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), cell, d + 1], mem={("S", 0): state})
            if rs is None:
                continue
            ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
            me = wbits(T[d * 3 + cell // 27])[cell % 27]
            for st, v in rs:
                pc = conj(st.pc)
                okv = dd.b_and(pc, dd.b_not(v.d) if v.d.__class__ is Node else 1 - v.d)
                # contradiction iff the digit is no candidate of the cell
                ctx.holds(key + "/err", implies(okv, me), (), anc, what="accepted only if possible:")
                ctx.holds(key + "/ok", implies(dd.b_and(pc, me), okv), (), anc, what="accepted if possible:")
                forced_insert(ctx, key, L, state, st.m[("S", 0)], cell, d, okv, anc)
    return go


def forced_insert(ctx, key, L, s, s2, cell, d, cond, anc):
    """s2 is s with digit d forced at cell: nothing added, only conflicts removed, the digit is the only choice left"""
    bad = conflicts(cell, d)
    band = cell // 27
    for k in range(27):
        a, b = s[L.poss][k], s2[L.poss][k]
        if a is b:
            continue
        for i, (x, y) in enumerate(zip(wbits(a), wbits(b))):
            if (k, i) in bad:
                ctx.holds(key + "/shrinks", implies(dd.b_and(cond, y), x), (), anc, what="nothing added:")
            else:
                ctx.holds(key + "/kept", dd.b_not(dd.b_and(cond, neq(x, y))), (), anc,
                          what="digit %d at band cell %d of band %d unaffected by digit %d at cell %d:" % (k // 3 + 1, i, k % 3, d + 1, cell))
        ctx.ob(key + "/frame", wfit(b), "bits beyond the band are set", anc)
    row = [x for x in range(27) if x // 9 == cell % 27 // 9 and x != cell % 27]
    w = wbits(s2[L.poss][d * 3 + band])
    alone_row = dd.b_not(disj([w[x] for x in row]))
    others = dd.b_not(disj([wbits(s2[L.poss][k * 3 + band])[cell % 27] for k in range(9) if k != d]))
    ctx.holds(key + "/forced", implies(cond, dd.b_or(alone_row, others)), (), anc, what="digit %d at cell %d is the only choice left:" % (d + 1, cell))
    for k in range(27):
        ctx.ob(key + "/frame", s2[L.prev][k] is s[L.prev][k] or vneq0(s2[L.prev][k], s[L.prev][k], cond), "the record of processed words changes", anc)
    for b in range(3):
        x, y = s[L.unsolved][b], s2[L.unsolved][b]
        if x is not y:
            for i, (p, q) in enumerate(zip(wbits(x), wbits(y))):
                if b == band and i == cell % 27:
                    ctx.holds(key + "/unsolved", implies(dd.b_and(cond, dd.b_and(p, dd.b_not(q))), others), (), anc, what="solved only when no other digit is left:")
                    ctx.holds(key + "/unsolved", implies(dd.b_and(cond, q), p), (), anc, what="no cell becomes unsolved:")
                else:
                    ctx.holds(key + "/unsolved", dd.b_not(dd.b_and(cond, neq(p, q))), (), anc, what="other cells' solved marks unchanged:")
    for i in L.rest:
        ctx.ob(key + "/frame", s2[i] == s[i], "field %s is changed" % L.names[i], anc)


# ---------------------------------------------------------------- first state

def first_state(P, L):
    FN = S + "from_sudoku"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for rnd in range(3):
            # every cell empty or one of the nine digits
            ctx.reset()
            stop = sym("stop", range(82))
            g = list(symgrid(0, 10))
            box = {"calls": []}

            def ins(it, st, o, a, at, dt):
                s = it.load(st, a[0])
                k = len(box["calls"])
                box["calls"].append((st.pc, s, a[1], a[2]))
                e = eqc(stop, k) if rnd == 1 else 0
                return [(st, En(e, {0: ((),), 1: ((),)}))]

            def setup(it):
                it.models[S + "insert_candidate"] = ins
            if rnd == 2:
                g = [0 if i % 3 else x for i, x in enumerate(g)]
            rs, it = ctx.analyse("first/%d" % rnd, FN, [tuple(g)], setup=setup)
            if rs is None:
                continue
            failed = 0
            seen = {}
            for k, (pc, s, c, d) in enumerate(box["calls"]):
                ctx.ob("first/cell", c.__class__ is int, "cell %r" % (c,), anc)
                seen.setdefault(c, []).append((pc, d))
                if rnd == 1:
                    failed = dd.b_or(failed, dd.b_and(conj(pc), eqc(stop, k)))
                # the state is the one that excludes nothing
                init(ctx, "first/initial", L, s, anc)
            for c in range(81):
                calls = seen.get(c, [])
                filled = dd.map1("filled", lambda v: 1 if v else 0, g[c])
                ok = 0
                for pc, d in calls:
                    ctx.same("first/digit", d, g[c], pc, anc, what="digit inserted at cell %d" % c)
                    ok = dd.b_or(ok, conj(pc))
                    ctx.holds("first/only-clues", implies(conj(pc), filled), (), anc, what="no clue invented at cell %d:" % c)
                for st, v in rs:
                    okr = dd.b_and(conj(st.pc), dd.b_not(v.d) if v.d.__class__ is Node else 1 - v.d)
                    ctx.holds("first/all-clues", implies(dd.b_and(okr, filled), ok), (), anc, what="clue at cell %d inserted:" % c)
            for st, v in rs:
                iserr = dd.b_and(conj(st.pc), v.d)
                ctx.holds("first/err", implies(iserr, failed), (), anc, what="contradiction only when an insertion reports one:")
                okr = dd.b_and(conj(st.pc), dd.b_not(v.d) if v.d.__class__ is Node else 1 - v.d)
                ctx.holds("first/ok", dd.b_not(dd.b_and(okr, failed)), (), anc, what="a contradiction is passed on:")
                if 0 in v.v and v.v[0] is not UNINIT:
                    init(ctx, "first/result", L, v.v[0][0], anc)
    return go


def init(ctx, key, L, s, anc):
    ctx.ob(key, all(x == ALL for x in s[L.poss]), "the first state excludes candidates", anc)
    ctx.ob(key, all(x == 0 for x in s[L.prev]), "words count as processed at the start", anc)
    ctx.ob(key, all(x == ALL for x in s[L.unsolved]), "cells count as solved at the start", anc)
    for i in L.rest:
        ctx.ob(key, s[i] == (ALL,) * 3, "field %s does not start as the steps assume" % L.names[i], anc)


# ---------------------------------------------------------------- naked singles

def singles(P, L, band, prs):
    FN = S + "find_naked_singles"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for i, j in prs:
            ctx.reset()
            key = "singles/band%d" % band
            a = [sym("a%d" % d, (0, 1)) for d in range(9)]
            b = [sym("b%d" % d, (0, 1)) for d in range(9)]
            ua, ub = sym("ua", (0, 1)), sym("ub", (0, 1))
            T = []
            for d in range(9):
                for q in range(3):
                    if q != band:
                        T.append(word([1] * 27) if d < 3 else symword("t%d_%d" % (d, q)))
                    else:
                        T.append(word([a[d] if x == i else b[d] if x == j else 1 if d < 3 else sym("t%d_%d" % (d, x), (0, 1)) for x in range(27)]))
            U = [word([1] * 27) if q != band else word([ua if x == i else ub if x == j else 1 for x in range(27)]) for q in range(3)]
            PV = [sym("pv%d" % k, (0, 1)) for k in range(27)]
            state = L.make(T, PV, U, [0] * 3)
            rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ())], mem={("S", 0): state})
            if rs is None:
                continue
            ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)

            def count(xs):
                return count_true(xs)
            na, nb = count(a), count(b)
            sa, sb_ = dd.b_and(eqc(na, 1), ua), dd.b_and(eqc(nb, 1), ub)
            both = dd.b_and(sa, sb_)
            clash = 0
            if j in peers_same_band(i):
                clash = dd.b_and(both, conj([dd.b_not(neq(x, y)) for x, y in zip(a, b)]))
            empty = dd.b_or(eqc(na, 0), eqc(nb, 0))
            anysingle = dd.b_or(sa, sb_)
            pi_, pj_ = peers_same_band(i), peers_same_band(j)
            for st, v in rs:
                pc = conj(st.pc)
                err = dd.b_and(pc, v.d)
                ok = dd.b_and(pc, dd.b_not(v.d) if v.d.__class__ is Node else 1 - v.d)
                ctx.holds(key + "/err", implies(err, dd.b_or(empty, clash)), (), anc, what="contradiction only if a cell has no digit left (cells %d, %d):" % (i, j))
                # a contradiction of two singles may be left to later steps, an empty cell too
                flag = 0
                if 0 in v.v and v.v[0] is not UNINIT:
                    flag = v.v[0][0]
                good = dd.b_and(ok, dd.b_not(dd.b_or(empty, clash)))
                ctx.holds(key + "/empty", dd.b_not(dd.b_and(ok, empty)), (), anc, what="an empty cell is reported:")
                ctx.holds(key + "/flag", dd.b_not(dd.b_and(good, neq(flag, anysingle))), (), anc, what="reports whether singles were found (cells %d, %d):" % (i, j))
                s = st.m[("S", 0)]
                for k in range(27):
                    d, q = divmod(k, 3)
                    got = wbits(s[L.poss][k])
                    w0 = wbits(T[k])
                    if q != band:
                        ctx.ob(key + "/other-bands", s[L.poss][k] is T[k] or vneq0(s[L.poss][k], T[k], good), "candidates of another band change", anc)
                        continue
                    for x in range(27):
                        rem = 0
                        if x in pi_:
                            rem = dd.b_or(rem, dd.b_and(sa, a[d]))
                        if x in pj_:
                            rem = dd.b_or(rem, dd.b_and(sb_, b[d]))
                        want = dd.b_and(w0[x], dd.b_not(rem))
                        ctx.holds(key + "/candidates", dd.b_not(dd.b_and(good, neq(got[x], want))), (), anc,
                                  what="candidate %d of band cell %d after singles at %d, %d:" % (d + 1, x, i, j))
                quiet = dd.b_and(good, dd.b_not(anysingle))
                for q in range(3):
                    got = wbits(s[L.pairs][q])
                    for x in range(27):
                        want = 0 if q != band or x not in (i, j) else eqc(na if x == i else nb, 2)
                        ctx.holds(key + "/pairs", dd.b_not(dd.b_and(quiet, neq(got[x], want))), (), anc, what="band cell %d in the list of cells with two candidates:" % x)
                for k in range(27):
                    ctx.ob(key + "/frame", s[L.prev][k] is PV[k] or vneq0(s[L.prev][k], PV[k], good), "the record of processed words changes", anc)
                for q in range(3):
                    ctx.ob(key + "/frame", vneq0(s[L.unsolved][q], U[q], good), "solved marks change", anc)
                for x in L.rest:
                    ctx.ob(key + "/frame", s[x] == state[x], "field %s is changed" % L.names[x], anc)
    return go
