"""Lemmas about the search: every completion is visited exactly once, up to the limit (part of P11 and P12)."""
import random
import dd, ai, interp
from ai import *
from plib import *
from solv import *

def jobs(ctx, P):
    L = Layout(P)
    vi = {v: variant_index(P, "sudoku::solver::Solutions", v) for v in ("Vector", "Count", "Buffer")}
    out = []
    pairs = [(a, b) for a in range(9) for b in range(a + 1, 9)]
    per = 36 if ctx.tier == "thorough" else 9
    for c in range(81):
        ds = [pairs[(c * per + k) % 36] for k in range(per)]
        out.append(bivalue(P, L, vi, c, ds))
    out.append(bivalue_two(P, L, vi))
    rnd = random.Random(5)
    for k in range(400 if ctx.tier == "thorough" else 160):
        out.append(some_cell(P, L, vi, k, rnd.randrange(1 << 30)))
    for c in range(0, 81, 3):
        out.append(record(P, L, vi, [c, c + 1, c + 2]))
    out.append(record_kinds(P, L, vi))
    out.append(dispatch(P, L, vi))
    for lim in (0, 1, 2, 3):
        out.append(solve(P, L, vi, lim))
    out.append(top(P, L, vi))
    return out


class Oracle:
    """_solve and guess as recorders"""

    def __init__(self, it, L, vi, limit):
        self.L, self.vi, self.limit = L, vi, limit
        self.calls = []     # [pc, state, outcome symbol, guess pc or None, added]
        self.problems = []
        it.models[S + "_solve"] = self.solve
        it.models[S + "guess"] = self.guess

    def length(self, it, st, p):
        s = it.load(st, p)
        return s.v[s.d][0], s

    def solve(self, it, st, o, a, at, dt):
        s = it.load(st, a[0])
        k = len(self.calls)
        if a[1].__class__ is not int or a[1] != self.limit:
            self.problems.append("_solve gets limit %r" % (a[1],))
        n, sol = self.length(it, st, a[2])
        # reaching the limit stops the recursion
        full = eqc(n, self.limit)
        e = dd.b_or(sym("contradiction%d" % k, (0, 1)), full)
        self.calls.append([st.pc, s, e, None, 0])
        s = list(s)
        s[self.L.pairs] = (1000 + k,) * 3
        it.store(st, a[0], tuple(s))
        return [(st, En(e, {0: ((),), 1: ((),)}))]

    def guess(self, it, st, o, a, at, dt):
        s = it.load(st, a[0])
        t = s[self.L.pairs][0]
        if a[1].__class__ is not int or a[1] != self.limit:
            self.problems.append("guess gets limit %r" % (a[1],))
        t = pc_simpl(st.pc, t)
        if t.__class__ is not int or not 1000 <= t < 1000 + len(self.calls):
            self.problems.append("a state is searched that was not deduced first")
            return [(st, ())]
        c = self.calls[t - 1000]
        if c[3] is not None:
            self.problems.append("a branch is searched twice")
        c[3] = st.pc
        n, sol = self.length(it, st, a[2])
        add = sym("found%d" % (t - 1000), range(self.limit + 1))
        add = dd.map2("addcap", lambda x, y: min(x, self.limit - y), add, n)
        c[4] = add
        d = sol.d
        it.store(st, a[2], En(d, {d: (dd.map2("addn", lambda x, y: x + y, n, add),) + tuple(sol.v[d][1:])}))
        return [(st, ())]


LIMIT = 3


def judge(ctx, key, L, vi, state, cells, cand, orc, n0, rs, anc, ret=None):
    """cells: the cells that may be branched on; cand[cell]: their candidate digits"""
    for p in orc.problems:
        ctx.ob(key + "/protocol", False, p, anc)
    final = None
    for st, v in rs:
        s = st.m[("SOL", 0)]
        final = s.v[s.d][0] if final is None else dd.ite(conj(st.pc), s.v[s.d][0], final)
        if ret is not None:
            ctx.same(key + "/handled", v.d, ret, st.pc, anc)
    # which cell was branched on
    found = None
    for c in cells:
        m = [match(L, state, s, c, cand[c]) for _, s, _, _, _ in orc.calls]
        if all(x is not None for x in m) and m:
            found = c
            break
    if not ctx.ob(key + "/branches", found is not None, "the branches do not put a candidate at one cell each, keeping everything compatible with it (%s)" % (
            why(L, state, orc, cells, cand),), anc):
        return
    ctx.ob(key + "/distinct", len(set(m)) == len(m), "a candidate is tried twice", anc)
    # every candidate is tried unless the limit has been reached
    more = dd.map1(("lt", LIMIT), lambda x: 1 if x < LIMIT else 0, final)
    for d in cand[found]:
        tried = disj([conj(c[0]) for c, x in zip(orc.calls, m) if x == d])
        ctx.holds(key + "/exhaustive", implies(more, tried), (), anc, what="candidate %d of cell %d tried:" % (d + 1, found))
    total = n0
    for c in orc.calls:
        went = conj(c[3]) if c[3] is not None else 0
        here = dd.b_and(conj(c[0]), dd.b_not(c[2]) if c[2].__class__ is Node else 1 - c[2])
        ctx.holds(key + "/searched", 1 - neq(went, here) if bconst(neq(went, here)) else dd.b_not(neq(went, here)), (), anc,
                  what="a branch is searched iff its deduction found no contradiction:")
        total = dd.map2("addn", lambda x, y: x + y, total, dd.ite(went, c[4], 0) if went.__class__ is Node else (c[4] if went else 0))
    ctx.same(key + "/count", final, total, (), anc, what="number of solutions")


def match(L, s, s2, c, digits):
    for d in digits:
        if forced(L, s, s2, c, d) is None:
            return d
    return None


def why(L, s, orc, cells, cand):
    out = []
    for _, s2, _, _, _ in orc.calls:
        for c in cells:
            for d in cand[c]:
                out.append("%d at %d: %s" % (d + 1, c, forced(L, s, s2, c, d)))
    return "; ".join(out)[:400] or "no branch"


def forced(L, s, s2, cell, d):
    """None if s2 is s with digit d forced at the cell, for all values of the symbols; else what is wrong"""
    bad = conflicts(cell, d)
    band = cell // 27
    for k in range(27):
        a, b = s[L.poss][k], s2[L.poss][k]
        if a is b or (a.__class__ is int and a == b):
            continue
        for i, (x, y) in enumerate(zip(wbits(a), wbits(b))):
            if (k, i) in bad:
                z = dd.b_and(y, dd.b_not(x) if x.__class__ is Node else 1 - x)
                if z.__class__ is Node or z:
                    return "a candidate is added"
            elif not (x is y or (bconst(x) and bconst(y) and x == y)):
                return "digit %d at band %d cell %d changes" % (k // 3 + 1, k % 3, i)
        if not wfit(b):
            return "bits beyond the band"
    w = wbits(s2[L.poss][d * 3 + band])
    if w[cell % 27] != 1:
        return "the digit itself is lost"
    row = [w[x] for x in range(27) if x // 9 == cell % 27 // 9 and x != cell % 27]
    oth = [wbits(s2[L.poss][k * 3 + band])[cell % 27] for k in range(9) if k != d]
    zero = lambda xs: all(bconst(x) and x == 0 for x in xs)
    if not zero(row) and not zero(oth):
        return "other choices are left"
    for k in range(27):
        x, y = s[L.prev][k], s2[L.prev][k]
        if not (x is y or x == y):
            return "the record of processed words changes"
    for b in range(3):
        if not (s[L.unsolved][b] is s2[L.unsolved][b] or s[L.unsolved][b] == s2[L.unsolved][b]):
            for i, (x, y) in enumerate(zip(wbits(s[L.unsolved][b]), wbits(s2[L.unsolved][b]))):
                if not (x is y or (bconst(x) and bconst(y) and x == y)) and not (b == band and i == cell % 27 and zero(oth)):
                    return "solved marks change"
    for i in L.rest:
        if s[i] != s2[i]:
            return "field %s changes" % L.names[i]
    return None


def start(L, cand, pairs, unsolved=None):
    """arbitrary state with the given candidate sets"""
    T = [list(wbits(symword("t%d" % k))) for k in range(27)]
    for c, ds in cand.items():
        for d in range(9):
            T[d * 3 + c // 27][c % 27] = 1 if d in ds else 0
    U = unsolved or [list(wbits(symword("u%d" % k))) for k in range(3)]
    for c in cand:
        U[c // 27][c % 27] = 1
    PV = [sym("pv%d" % k, (0, 1)) for k in range(27)]
    return L.make([word(x) for x in T], PV, [word(x) for x in U], pairs)


def go_state(ctx, P, L, vi, key, fn, state, ret, cells, cand):
    n0 = sym("n0", range(LIMIT))
    box = {}

    def setup(it):
        box["o"] = Oracle(it, L, vi, LIMIT)
    sol = En(vi["Count"], {vi["Count"]: (n0,)})
    rs, it = ctx.analyse(key, fn, [Ptr(("S", 0), ()), LIMIT, Ptr(("SOL", 0), ())], mem={("S", 0): state, ("SOL", 0): sol}, setup=setup)
    anc = ctx.anchor(P, fn)
    if rs is None:
        return
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    if cells:
        judge(ctx, key, L, vi, state, cells, cand, box["o"], n0, rs, anc, ret)
    else:
        ctx.ob(key + "/none", not box["o"].calls, "branches without a cell to branch on", anc)
        for st, v in rs:
            if ret is not None:
                ctx.same(key + "/handled", v.d, ret, st.pc, anc)
            s = st.m[("SOL", 0)]
            ctx.same(key + "/count", s.v[s.d][0], n0, st.pc, anc)


def bivalue(P, L, vi, c, ds):
    FN = S + "guess_bivalue_in_cell"

    def go(ctx):
        for a, b in ds:
            ctx.reset()
            cand = {c: (a, b)}
            pr = [1 << (c % 27) if k == c // 27 else 0 for k in range(3)]
            go_state(ctx, P, L, vi, "pair/%d" % c, FN, start(L, cand, pr), 1, [c], cand)
    return go


def bivalue_two(P, L, vi):
    """several cells with two candidates, and none"""
    FN = S + "guess_bivalue_in_cell"

    def go(ctx):
        rnd = random.Random(3)
        for k in range(40):
            ctx.reset()
            cells = rnd.sample(range(81), rnd.choice((2, 2, 3, 5)))
            cand = {c: tuple(sorted(rnd.sample(range(9), 2))) for c in cells}
            pr = [sum(1 << (c % 27) for c in cells if c // 27 == q) for q in range(3)]
            go_state(ctx, P, L, vi, "pairs", FN, start(L, cand, pr), 1, cells, cand)
        ctx.reset()
        go_state(ctx, P, L, vi, "no-pairs", FN, start(L, {}, [0, 0, 0]), 0, [], {})
    return go


def some_cell(P, L, vi, k, seed):
    FN = S + "guess_some_cell"

    def go(ctx):
        rnd = random.Random(seed)
        for r in range(3):
            ctx.reset()
            # unsolved cells: a few, at arbitrary places; everything else solved
            cells = set()
            for b in range(3):
                m = rnd.choice((0, 1, 1, 2, 3)) if k % 4 else rnd.choice((0, 1))
                cells |= {b * 27 + x for x in rnd.sample(range(27), m)}
            if not cells:
                cells = {rnd.randrange(81)}
            cand = {c: tuple(sorted(rnd.sample(range(9), rnd.choice((2, 3, 3, 4, 5, 6, 7, 8, 9))))) for c in cells}
            U = [[1 if q * 27 + i in cells else 0 for i in range(27)] for q in range(3)]
            go_state(ctx, P, L, vi, "cell", FN, start(L, cand, [0, 0, 0], U), None, sorted(cells), cand)
    return go


# ---------------------------------------------------------------- recording

GRID = [(r * 3 + r // 3 + c) % 9 + 1 for r in range(9) for c in range(9)]


def solved_state(L, g):
    T = [word([eqc(g[k % 3 * 27 + i], k // 3 + 1) for i in range(27)]) for k in range(27)]
    return L.make(T, T, [0, 0, 0], [0, 0, 0])


def veccap(old, cap):
    return ((Ptr(("H", 90001), (("i", 0),)), cap, ()), len(old)), {("H", 90001): tuple(old) + (UNINIT,) * (cap - len(old))}


def record(P, L, vi, cells):
    FN = S + "guess"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for c in cells:
            ctx.reset()
            g = list(GRID)
            g[c] = sym("digit", range(1, 10))
            v, mem = veccap([], 4)
            mem.update({("S", 0): solved_state(L, g), ("VEC", 0): v, ("SOL", 0): En(vi["Vector"], {vi["Vector"]: (Ptr(("VEC", 0), ()),)})})
            key = "record/%d" % c
            rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), LIMIT, Ptr(("SOL", 0), ())], mem=mem)
            ctx.ob(key + "/total", rs is not None and len(rs) >= 1, "never returns", anc)
            for st, r in rs or ():
                v2 = st.m[("VEC", 0)]
                if not ctx.ob(key + "/once", v2[1] == 1, "%r solutions recorded for a solved state" % (v2[1],), anc):
                    continue
                x = it.load(st, v2[0][0])
                ctx.ob(key + "/shape", x.__class__ is tuple and len(x) == 81, repr(x)[:100], anc)
                for i in range(81):
                    ctx.same(key, x[i], g[i], st.pc, anc, what="digit of cell %d" % i)
    return go


def record_kinds(P, L, vi):
    FN = S + "guess"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        arg = [Ptr(("S", 0), ()), LIMIT, Ptr(("SOL", 0), ())]
        for shift in range(3):
            g = [(x + shift - 1) % 9 + 1 for x in GRID]
            # counting
            ctx.reset()
            n0 = sym("n0", range(LIMIT))
            mem = {("S", 0): solved_state(L, g), ("SOL", 0): En(vi["Count"], {vi["Count"]: (n0,)})}
            rs, it = ctx.analyse("record/count", FN, arg, mem=mem)
            ctx.ob("record/count/total", rs is not None and len(rs) >= 1, "never returns", anc)
            for st, r in rs or ():
                s = st.m[("SOL", 0)]
                ctx.same("record/count", s.v[s.d][0], dd.map1("inc", lambda x: x + 1, n0), st.pc, anc)
            # vectors that hold solutions already, with and without spare room
            for have in (1, 2):
                ctx.reset()
                old = [tuple(symgrid(1, 10, nm="o%d_" % k)) for k in range(have)]
                v, mem = veccap(old, 4)
                mem.update({("S", 0): solved_state(L, g), ("VEC", 0): v, ("SOL", 0): En(vi["Vector"], {vi["Vector"]: (Ptr(("VEC", 0), ()),)})})
                rs, it = ctx.analyse("record/vector", FN, arg, mem=mem)
                ctx.ob("record/vector/total", rs is not None and len(rs) >= 1, "never returns", anc)
                for st, r in rs or ():
                    v2 = st.m[("VEC", 0)]
                    if ctx.ob("record/vector/once", v2[1] == have + 1, "length %r" % (v2[1],), anc):
                        xs = vec(it, st, v2)
                        for k in range(have):
                            ctx.same("record/vector/old", xs[k], old[k], st.pc, anc)
                        ctx.same("record/vector", xs[have], tuple(g), st.pc, anc)
            # buffers with and without free slots
            for cap in (0, 1, 2):
                for have in range(LIMIT):
                    ctx.reset()
                    old = tuple(tuple(symgrid(0, 10, nm="o%d_" % k)) for k in range(cap))
                    mem = {("S", 0): solved_state(L, g), ("BUF", 0): old,
                           ("SOL", 0): En(vi["Buffer"], {vi["Buffer"]: (Ptr(("BUF", 0), (("i", 0),), cap), have)})}
                    rs, it = ctx.analyse("record/buffer", FN, arg, mem=mem)
                    ctx.ob("record/buffer/total", rs is not None and len(rs) >= 1, "never returns", anc)
                    for st, r in rs or ():
                        s = st.m[("SOL", 0)]
                        ctx.same("record/buffer/length", s.v[s.d][1], have + 1, st.pc, anc)
                        now = st.m[("BUF", 0)]
                        for k in range(cap):
                            ctx.same("record/buffer/slot", now[k], tuple(g) if k == have else old[k], st.pc, anc)
    return go


# ---------------------------------------------------------------- protocol

def dispatch(P, L, vi):
    """guess: a state that is not solved is branched on, by pairs first or not"""
    FN = S + "guess"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for n in range(81):
            ctx.reset()
            log = {"pair": [], "cell": []}
            handled = sym("handled", (0, 1))
            U = [word([1 if q * 27 + i == n else 0 if q * 27 + i < n else sym("u%d_%d" % (q, i), (0, 1)) for i in range(27)]) for q in range(3)]
            T = [symword("t%d" % k) for k in range(27)]
            state = L.make(T, T, U, [symword("p%d" % k) for k in range(3)])
            n0 = sym("n0", range(LIMIT))

            def pair(it, st, o, a, at, dt):
                log["pair"].append((st.pc, it.load(st, a[0]), a[1]))
                return [(st, En(handled, {0: ((),), 1: ((),)}))]

            def cell(it, st, o, a, at, dt):
                log["cell"].append((st.pc, it.load(st, a[0]), a[1]))
                return [(st, ())]

            def setup(it):
                it.models[S + "guess_bivalue_in_cell"] = pair
                it.models[S + "guess_some_cell"] = cell
            key = "dispatch"
            rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), LIMIT, Ptr(("SOL", 0), ())],
                                 mem={("S", 0): state, ("SOL", 0): En(vi["Count"], {vi["Count"]: (n0,)})}, setup=setup)
            if rs is None:
                continue
            ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
            for k in ("pair", "cell"):
                for pc, s, lim in log[k]:
                    ctx.ob(key + "/state", all(x is y or x == y for x, y in zip(s, state)), "the state is changed before branching", anc)
                    ctx.ob(key + "/limit", lim == LIMIT, "limit %r" % (lim,), anc)
            p = disj([conj(x[0]) for x in log["pair"]])
            q = disj([conj(x[0]) for x in log["cell"]])
            h = dd.b_and(p, handled)
            ctx.holds(key + "/branches", dd.b_or(h, q), (), anc, what="an unsolved state is branched on:")
            ctx.holds(key + "/once", dd.b_not(dd.b_and(h, q)), (), anc, what="branched on once:")
            ctx.ob(key + "/once", len(log["pair"]) <= 1 and len(log["cell"]) <= 1, "branches more than once", anc)
            for st, v in rs:
                s = st.m[("SOL", 0)]
                ctx.same(key + "/count", s.v[s.d][0], n0, st.pc, anc, what="an unsolved state records nothing:")
    return go


def solve(P, L, vi, lim):
    FN = S + "_solve"
    ROUNDS = 3

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for n0 in range(lim + 1):
            ctx.reset()
            log = []        # (kind, pc, state, error symbol, again symbol)
            U0 = word([0] * 27)
            state = L.make([symword("t%d" % k) for k in range(27)], [sym("pv%d" % k, (0, 1)) for k in range(27)],
                           [word([sym("u", (0, 1))] + [0] * 26), 0, 0], [0] * 3)
            sol = En(vi["Count"], {vi["Count"]: (n0,)})

            def lock(it, st, o, a, at, dt):
                k = sum(1 for x in log if x[0] == "lock")
                s = list(it.load(st, a[0]))
                e = sym("lockerr%d" % k, (0, 1))
                solved = sym("solved%d" % k, (0, 1))
                log.append(("lock", st.pc, tuple(s), e, solved))
                s[L.unsolved] = (dd.ite(solved, 0, 1), 0, 0)
                s[L.pairs] = (2000 + k,) * 3
                it.store(st, a[0], tuple(s))
                return [(st, En(e, {0: ((),), 1: ((),)}))]

            def single(it, st, o, a, at, dt):
                k = sum(1 for x in log if x[0] == "single")
                s = list(it.load(st, a[0]))
                e = sym("singleerr%d" % k, (0, 1))
                more = sym("more%d" % k, (0, 1)) if k < ROUNDS else 0
                log.append(("single", st.pc, tuple(s), e, more))
                s[L.pairs] = (3000 + k,) * 3
                it.store(st, a[0], tuple(s))
                return [(st, En(e, {0: (more,), 1: ((),)}))]

            def setup(it):
                it.models[S + "find_locked_candidates_and_update"] = lock
                it.models[S + "find_naked_singles"] = single
            key = "solve/limit%d/found%d" % (lim, n0)
            rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), lim, Ptr(("SOL", 0), ())], mem={("S", 0): state, ("SOL", 0): sol}, setup=setup)
            if rs is None:
                continue
            ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
            failed = disj([dd.b_and(conj(pc), e) for _, pc, _, e, _ in log])
            for st, v in rs:
                pc = conj(st.pc)
                err = dd.b_and(pc, v.d)
                ok = dd.b_and(pc, dd.b_not(v.d) if v.d.__class__ is Node else 1 - v.d)
                if n0 == lim:
                    ctx.same(key + "/limit", v.d, 1, st.pc, anc, what="stops at the limit:")
                    continue
                ctx.holds(key + "/err", implies(err, failed), (), anc, what="contradiction only when a deduction reports one:")
                ctx.holds(key + "/ok", dd.b_not(dd.b_and(ok, failed)), (), anc, what="a contradiction is passed on:")
                s = st.m[("SOL", 0)]
                ctx.same(key + "/count", s.v[s.d][0], n0, st.pc, anc)
                # the final state is one both deductions are done with: solved after locked candidates, or no single left
                s = st.m[("S", 0)]
                done = 0
                for kind, qpc, qs, e, x in log:
                    k = sum(1 for y in log[:log.index((kind, qpc, qs, e, x))] if y[0] == kind)
                    last = eqc(s[L.pairs][0], (2000 if kind == "lock" else 3000) + k)
                    here = dd.b_and(conj(qpc), last)
                    done = dd.b_or(done, dd.b_and(here, x if kind == "lock" else dd.b_not(x) if x.__class__ is Node else 1 - x))
                ctx.holds(key + "/finished", implies(ok, done), (), anc, what="stops only at a solved state or when no single is left:")
                for k in range(27):
                    ctx.ob(key + "/frame", s[L.poss][k] is state[L.poss][k] and s[L.prev][k] is state[L.prev][k], "candidates change outside the deductions", anc)
    return go


def top(P, L, vi):
    FN = S + "_solutions_up_to"

    def go(ctx):
        anc = ctx.anchor(P, FN)
        for lim in range(4):
            ctx.reset()
            log = []
            es = sym("singleerr", (0, 1))
            more = sym("more", (0, 1))
            state = L.make([symword("t%d" % k) for k in range(27)], [sym("pv%d" % k, (0, 1)) for k in range(27)],
                           [symword("u%d" % k) for k in range(3)], [0] * 3)

            def single(it, st, o, a, at, dt):
                s = list(it.load(st, a[0]))
                log.append(("single", st.pc, tuple(s), es, None))
                s[L.pairs] = (3000,) * 3
                it.store(st, a[0], tuple(s))
                return [(st, En(es, {0: (more,), 1: ((),)}))]
            box = {}

            def setup(it):
                box["o"] = Oracle(it, L, vi, lim)
                it.models[S + "find_naked_singles"] = single
            key = "top/limit%d" % lim
            sol = En(vi["Count"], {vi["Count"]: (0,)})
            rs, it = ctx.analyse(key, FN, [state, lim, Ptr(("SOL", 0), ())], mem={("SOL", 0): sol}, setup=setup)
            if rs is None:
                continue
            ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
            orc = box["o"]
            for p in orc.problems:
                ctx.ob(key + "/protocol", False, p, anc)
            if lim == 0:
                for st, v in rs:
                    s = st.m[("SOL", 0)]
                    ctx.same(key + "/count", s.v[s.d][0], 0, st.pc, anc)
                continue
            ctx.ob(key + "/once", len(orc.calls) == 1, "%d deductions of the first state" % len(orc.calls), anc)
            bad = disj([dd.b_and(conj(pc), e) for _, pc, _, e, _ in log])
            for pc, s, e, gpc, add in orc.calls:
                same = all(x is y or x == y for i in range(L.n) if i != L.pairs for x, y in zip(s[i], state[i]))
                ctx.ob(key + "/state", same, "the state is changed outside the deductions", anc)
                ctx.holds(key + "/deduced", dd.b_or(conj(pc), bad), (), anc, what="deduced unless contradictory:")
                went = conj(gpc) if gpc is not None else 0
                ctx.holds(key + "/searched", dd.b_not(neq(went, dd.b_and(conj(pc), dd.b_not(e)))), (), anc, what="searched iff no contradiction:")
                for st, v in rs:
                    f = st.m[("SOL", 0)]
                    ctx.same(key + "/count", f.v[f.d][0], dd.ite(went, add, 0), st.pc, anc)
                for kind, qpc, qs, _, _ in log:
                    same = all(x is y or x == y for i in range(L.n) for x, y in zip(qs[i], state[i]))
                    ctx.ob(key + "/state", same, "the state is changed outside the deductions", anc)
    return go
