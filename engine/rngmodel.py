"""Random number generators as sources of fresh symbols; solution queries as an oracle."""
import dd
from ai import *
from plib import *


class Rng:
    """draw(lo, hi): value of the next bounded draw; default: a fresh symbol over the whole range"""

    def __init__(self, it, draw=None, syms=None):
        """syms: dictionary of draw symbols, shared by runs that are to see the same draws"""
        self.it = it
        self.syms = {} if syms is None else syms
        self.draws = []         # (rng argument, lo, hi)
        self.threads = 0
        self.policy = draw
        M = it.models
        M["rand::thread_rng"] = self.thread_rng
        M["rand::Rng::gen_range"] = self.gen_range
        M["rand::Rng::gen"] = self.gen
        M["rand::Rng::gen_bool"] = self.gen_bool
        M["rand::Rng::gen_ratio"] = self.gen_bool
        for o in it.P.I.values():
            n = o["n"]
            if n.startswith("std::ptr::drop_glue::<rand::") or n.startswith("std::ptr::drop_in_place::<rand::") or \
                    n.startswith("core::ptr::drop_in_place::<rand::"):
                M[n] = lambda it, st, o, a, at, dt: [(st, ())]
            if n.startswith("<rand::distributions::Uniform<") and "::sample::<" in n:
                M[n] = self.uniform
            if n.startswith("<rand::prelude::ThreadRng as ") and n.rsplit("::", 1)[-1] in ("next_u32", "next_u64", "fill_bytes"):
                M[n] = self.raw
        M["probe::gen::opaque_u32"] = self.raw
        M["probe::gen::opaque_u64"] = self.raw

    def sym(self, name, dom):
        dom = tuple(dom)
        if (name, dom) not in self.syms:
            self.syms[name, dom] = sym(name, dom)
        return self.syms[name, dom]

    def thread_rng(self, it, st, o, a, at, dt):
        self.threads += 1
        return [(st, Ptr(("RNG", self.threads), ()))]

    def source(self, st, p):
        """the generator a draw is taken from: ('thread', k), or the base of the generator argument"""
        for _ in range(8):
            if p.__class__ is not Ptr:
                return p
            if p.base[0] == "RNG":
                return ("thread", p.base[1])
            try:
                v = self.it.load(st, p)
            except Exception:
                return p.base
            if v.__class__ is Ptr:
                p = v
                continue
            return p.base
        return p

    def value(self, it, st, rng, lo, hi):
        self.draws.append((self.source(st, rng), lo, hi, st.pc))
        k = len(self.draws) - 1
        if self.policy:
            v = self.policy(k, lo, hi)
            if v is not None:
                return v
        if lo.__class__ is Node or hi.__class__ is Node:
            lo, hi = pc_simpl(st.pc, lo), pc_simpl(st.pc, hi)
            if lo.__class__ is Node:
                raise Inconclusive("draw from a range with unknown start")
            out = 0
            m = max(dd.terminals(hi)) if hi.__class__ is Node else hi
            s = self.sym("draw%d" % k, range(max(m - lo, 1)))
            # any value below the (varying) bound; values outside are folded into the range
            return dd.map2("drawfold", lambda h, x: lo + (x if x < h - lo else 0), hi, s)
        n = hi - lo
        if n <= 128:
            return self.sym("draw%d" % k, range(lo, hi)) if n > 1 else lo
        # factorial ranges are drawn digit by digit so that later divisions stay small
        f, b = [], 2
        x = n
        while x > 1 and b <= 64:
            if x % b:
                break
            x //= b
            f.append(b)
            b += 1
        if x == 1 and lo == 0:
            f.reverse()
            ds = [self.sym("draw%d_%d" % (k, b), range(b)) for b in f]
            return Mix(ds, f)
        return Iv(lo, hi - 1)

    def gen_range(self, it, st, o, a, at, dt):
        r = a[1]
        if r.__class__ is not tuple or len(r) < 2:
            raise Inconclusive("gen_range over %r" % (r,))
        lo, hi = r[0], r[1]
        if "RangeInclusive" in o["n"]:
            hi = dd.map1("incl", lambda x: x + 1, hi)
        return [(st, self.value(it, st, a[0], lo, hi))]

    def gen(self, it, st, o, a, at, dt):
        k = it.P.T[dt]["k"]
        if k == "bool":
            return [(st, self.value(it, st, a[0], 0, 2))]
        w, sg = it.P.intinfo(dt)
        lo, hi = rng(w, sg)
        self.draws.append((self.source(st, a[0]), lo, hi + 1, st.pc))
        return [(st, Iv(lo, hi))]

    def gen_bool(self, it, st, o, a, at, dt):
        return [(st, self.value(it, st, a[0], 0, 2))]

    def uniform(self, it, st, o, a, at, dt):
        u = it.load(st, a[0])
        lo, hi = vfield(it.P, "rand::distributions::uniform::UniformInt", None, "low"), vfield(it.P, "rand::distributions::uniform::UniformInt", None, "range")
        while u.__class__ is tuple and len(u) == 1:
            u = u[0]
        l, n = u[lo], u[hi]
        if n == 0:
            raise Inconclusive("uniform over the whole type")
        return [(st, self.value(it, st, a[1], l, l + n))]

    def raw(self, it, st, o, a, at, dt):
        self.draws.append((self.source(st, a[0]), None, None, st.pc))
        if it.P.T[dt]["k"] not in ("int", "uint"):
            raise Inconclusive("raw random bytes")
        w, sg = it.P.intinfo(dt)
        return [(st, Iv(0, (1 << w) - 1))]


class Oracle:
    """answers the questions 'how many solutions has this grid?' with fresh symbols and records them"""

    def __init__(self, it, tag="q"):
        self.it = it
        self.q = []             # (pc, grid, answer table: 1 iff exactly one solution)
        self.tag = tag
        M = it.models
        S = "sudoku::Sudoku::"
        M[S + "is_uniquely_solvable"] = self.unique
        M[S + "solutions_count_up_to"] = self.count
        M[S + "solution"] = self.solution

    def ask(self, st, grid, dom):
        a = sym("%s%d" % (self.tag, len(self.q)), dom)
        self.q.append((st.pc, grid, a))
        return a

    def unique(self, it, st, o, a, at, dt):
        g = a[0]
        if g.__class__ is Ptr:
            g = it.load(st, g)
        return [(st, self.ask(st, g, (0, 1)))]

    def count(self, it, st, o, a, at, dt):
        lim = a[1]
        if lim.__class__ is not int or lim < 1:
            raise Inconclusive("solution count with limit %r" % (lim,))
        n = self.ask(st, a[0], range(min(lim, 3) + 1))
        if lim < 2:
            pc, g, x = self.q[-1]
            self.q[-1] = (pc, g, 0)     # a count bounded by 1 tells nothing about uniqueness
        else:
            pc, g, x = self.q[-1]
            self.q[-1] = (pc, g, eqc(x, 1))
        return [(st, n)]

    def solution(self, it, st, o, a, at, dt):
        s = self.ask(st, a[0], (0, 1))
        k = len(self.q)
        sol = tuple(sym("sol%d_%d" % (k, i), range(1, 10)) for i in range(81))
        return [(st, En(s, {0: (), 1: (sol,)}))]
