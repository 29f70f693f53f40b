"""P11: the solution queries of a grid agree with each other and with the number of its solutions."""
import dd
from ai import *
from plib import *
import search

ALSO = ["rel"]
FLOOR = 400
RULE = ("the lemmas about recording and counting solutions (see P12); and value-set dataflow over the MIR of the six solution queries, the search itself replaced by an oracle with N solutions s0, s1, ... "
        "(up to the limit it is given): count = min(N, limit), is_uniquely_solvable = (N == 1), some_solution = Some(s0) iff N >= 1, "
        "solution = Some(s0) iff N == 1, solutions_up_to / solutions_up_to_buffer return exactly the first min(N, limit); no panic")
EXPLANATION = ("Every query is interpreted for N = 0 (found contradictory at once, or only by search), 1, 2, 3, 5 and limits 0..4; solutions are "
               "81 symbols each. `solution` is interpreted over all 2^81 clue patterns of several digit layouts and windows of arbitrary cells: it may "
               "answer None early only below 17 clues or 8 different digits (where no grid has exactly one solution). The search is asked "
               "about the grid itself, unchanged.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source",
               "no sudoku with fewer than 17 clues or fewer than 8 different digits has exactly one solution (published theorem)",
               "the search delivers min(N, limit) different solutions (subject of P12 and P13)"]
SOLVER = "sudoku::solver::SudokuSolver::"


class Search:
    """oracle for from_sudoku + _solutions_up_to"""

    def __init__(self, it, n, early):
        self.it, self.n, self.early = it, n, early
        self.asked = []
        self.limits = []
        self.sols = [tuple(sym("s%d_%d" % (k, i), range(1, 10)) for i in range(81)) for k in range(min(n, 5))]
        it.models[SOLVER + "from_sudoku"] = self.new
        it.models[SOLVER + "_solutions_up_to"] = self.search
        P = it.P
        self.vi = {v: variant_index(P, "sudoku::solver::Solutions", v) for v in ("Vector", "Count", "Buffer")}

    def new(self, it, st, o, a, at, dt):
        g = a[0]
        self.asked.append((st.pc, g))
        if self.early:
            return [(st, En(1, {1: ((),)}))]
        z = lambda n: ((0,) * n,)
        return [(st, En(0, {0: ((z(27), z(27), z(3), z(3), z(3)),)}))]

    def search(self, it, st, o, a, at, dt):
        lim = a[1]
        self.limits.append(lim)
        if lim.__class__ is not int:
            raise Inconclusive("limit %r" % (lim,))
        k = min(self.n, lim)
        s = it.load(st, a[2])
        d = s.d
        f = s.v[d]
        if d == self.vi["Count"]:
            v = En(d, {d: (f[0] + k,)})
            return [(it.store(st, a[2], v) or st, ())]
        if d == self.vi["Vector"]:
            push = it.P.fn("std::vec::Vec::<sudoku::Sudoku>::push")
            for i in range(k):
                rs = it.call(st, push, [f[0], self.sols[i]])
                assert len(rs) == 1
                st = rs[0][0]
            return [(st, ())]
        buf, n = f
        for i in range(k):
            m = buf.meta
            if n + i < m:
                p = it.elem(buf, n + i, True)
                st = it.store(st, p, self.sols[i]) or st
        return [(it.store(st, a[2], En(d, {d: (buf, n + k)})) or st, ())]


def run(ctx):
    P = ctx.prog()
    Q = "probe::sud::"
    cases = [(0, True), (0, False), (1, False), (2, False), (3, False), (5, False)]
    F = "sudoku::Sudoku::"

    def go(ctx, key, fn, args, n, early, mem=None, pc=(), g=None, budget=3000000):
        box = {}

        def setup(it):
            box["s"] = Search(it, n, early)
        rs, it = ctx.analyse(key, Q + fn, args, mem=mem, setup=setup, pc=pc, budget=budget)
        anc = ctx.anchor(P, Q + fn)
        if rs is None:
            return None
        ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
        for qpc, h in box["s"].asked:
            for x, y in zip(h, g):
                ctx.same(key + "/same-grid", x, y, qpc, anc, what="the grid searched")
        return rs, it, box["s"], anc

    def queries(ctx, n, early):
        nm = "N=%d%s" % (n, "-contradictory" if early else "")
        ctx.reset()
        g = symgrid(0, 10)
        r = go(ctx, "is_uniquely_solvable/" + nm, "is_unique", [g], n, early, g=g)
        for st, v in r[0] if r else ():
            ctx.same("is_uniquely_solvable/" + nm, v, 1 if n == 1 else 0, st.pc, r[3])
        ctx.reset()
        g = symgrid(0, 10)
        r = go(ctx, "some_solution/" + nm, "some_solution", [g], n, early, g=g)
        for st, v in r[0] if r else ():
            want = En(1, {1: (r[2].sols[0],)}) if n else En(0, {0: ()})
            ctx.same("some_solution/" + nm, v, want, st.pc, r[3])
        for lim in range(5):
            k = min(n, lim)
            ctx.reset()
            g = symgrid(0, 10)
            r = go(ctx, "count/%s/limit=%d" % (nm, lim), "count", [g, lim], n, early, g=g)
            for st, v in r[0] if r else ():
                ctx.same("count/%s/limit=%d" % (nm, lim), v, k, st.pc, r[3])
            ctx.reset()
            g = symgrid(0, 10)
            r = go(ctx, "solutions_up_to/%s/limit=%d" % (nm, lim), "solutions", [g, lim], n, early, g=g)
            for st, v in r[0] if r else ():
                xs = vec(r[1], st, v)
                if ctx.ob("solutions_up_to/%s/limit=%d" % (nm, lim), xs.__class__ is list and len(xs) == k, "%r entries instead of %d" % (
                        len(xs) if xs.__class__ is list else xs, k), r[3]):
                    for i in range(k):
                        ctx.same("solutions_up_to/%s/limit=%d/%d" % (nm, lim, i), xs[i], r[2].sols[i], st.pc, r[3])
            for cap in (0, 1, 2, 4):
                ctx.reset()
                g = symgrid(0, 10)
                old = tuple(symgrid(0, 10, nm="old%d_" % j) for j in range(cap))
                key = "solutions_up_to_buffer/%s/limit=%d/capacity=%d" % (nm, lim, cap)
                r = go(ctx, key, "buffer", [g, Ptr(("T", 0), (("i", 0),), cap), lim], n, early, mem={("T", 0): old}, g=g)
                for st, v in r[0] if r else ():
                    ctx.same(key, v, k, st.pc, r[3])
                    now = st.m[("T", 0)]
                    for j in range(cap):
                        ctx.same(key + "/slot%d" % j, now[j], r[2].sols[j] if j < k else old[j], st.pc, r[3])

    # solution(): all clue patterns of digit layouts, and windows of arbitrary cells on a base pattern
    def solution_case(ctx, name, mk, n, early):
        ctx.reset()
        g = mk()
        key = "solution/%s/N=%d%s" % (name, n, "-contradictory" if early else "")
        r = go(ctx, key, "solution", [g], n, early, g=g, budget=12000000)
        if not r:
            return
        cl = 0
        for x in g:
            cl = dd.map2("addsat", lambda a, b: min(a + (1 if b else 0), 17), cl, x)
        dg = 0
        for d in range(1, 10):
            dg = dd.map2("addb", lambda a, b: a + b, dg, disj([eqc(x, d) for x in g]))
        sure = dd.b_and(dd.map1("ge17", lambda x: 1 if x >= 17 else 0, cl), dd.map1("ge8", lambda x: 1 if x >= 8 else 0, dg))
        for st, v in r[0]:
            v = force_opt(v)
            if v is None:
                ctx.ob(key, False, "not an Option", r[3])
                continue
            some = v.d if v.d.__class__ is Node else v.d
            if n != 1:
                ctx.same(key, some, 0, st.pc, r[3])
            else:
                ctx.same(key, dd.ite(sure, some, 1), 1, st.pc, r[3], what="a unique solution is returned:")
                if 1 in v.v:
                    for i in range(81):
                        ctx.same(key + "/value", dd.ite(some, v.v[1][0][i], r[2].sols[0][i]), r[2].sols[0][i], st.pc, r[3])

    def layout(order):
        return lambda: tuple(dd.map1(("pres", order[i]), lambda p, i=i: order[i] if p else 0, sym("p%d" % i, (0, 1))) for i in range(81))
    lay = {"sorted": [i // 9 + 1 for i in range(81)], "reversed": [9 - i // 9 for i in range(81)]}
    # eight digits only / one rare digit
    lay["eight"] = [min(i // 9 + 1, 8) for i in range(81)]
    lay["rare"] = [1] * 72 + [2, 3, 4, 5, 6, 7, 8, 9, 9]

    def window(at, w, base):
        def mk():
            g = [0] * 81
            for c, d in base.items():
                g[c] = d
            for c in range(at, at + w):
                g[c] = sym("c%d" % c, range(10))
            return tuple(g)
        return mk

    def base(at, w, k):
        """k clues outside the window using only digits 1..5"""
        out = {}
        for c in range(80, -1, -1):
            if at <= c < at + w:
                continue
            if len(out) == k:
                break
            out[c] = len(out) % 5 + 1
        return out
    jobs = [lambda c, a=a: queries(c, *a) for a in cases]
    for nm, order in lay.items():
        for n, early in ((1, False), (0, False), (0, True), (2, False)):
            jobs.append(lambda c, a=(nm, layout(order), n, early): solution_case(c, *a))
    W = 5
    for at in range(0, 77, 4 if ctx.tier == "thorough" else 19):
        for k in (12, 14, 20):
            for n in (1, 2):
                jobs.append(lambda c, a=("window%d-%d" % (at, k), window(at, W, base(at, W, k)), n, False): solution_case(c, *a))
    ctx.parallel(jobs + search.jobs(ctx, P))


def force_opt(v):
    return v if v.__class__ is En else None
