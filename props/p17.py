"""P17: the generator of solved grids."""
import random
import dd
from ai import *
from plib import *
from p01 import house_cell
from rngmodel import Rng

ALSO = ["rel"]
FLOOR = 20000
RULE = ("value-set dataflow over the MIR of the grid generator, step by step: placing entries fills exactly cells whose digit is a candidate, keeps "
        "the grid valid and the bookkeeping exact and fails only when no completion exists; hidden singles are the only places left; guesses are "
        "candidates; the search returns a grid only once all 81 cells are filled, refutes exactly the guess that failed, and starts from a "
        "completable row")
EXPLANATION = ("Invariant of the search state: cells are solved iff they have no candidate, the number of solved cells and the digits of every house "
               "are exact, candidates exclude the digits of solved neighbours. Each step is interpreted on abstract states satisfying it (arbitrary "
               "candidates in windows around every cell, arbitrary digits) and must re-establish it and keep every completion; the driver is "
               "interpreted with its steps as oracles for every short sequence of their outcomes.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "windows: up to three cells with arbitrary candidates (4 to 9 digits), one solved "
               "cell, up to six entries; the rest of the grid open", "driver: sequences of up to 12 step outcomes (16 thorough)",
               "an empty grid with one house filled can be completed"]
G = "sudoku::generator::SudokuGenerator"
HOUSES = [[house_cell(h, p) for p in range(9)] for h in range(27)]
NB = [{x for h in HOUSES if c in h for x in h} - {c} for c in range(81)]


class GL:
    def __init__(self, P):
        o = [o for o in P.T.values() if o["n"] == G]
        if not o:
            raise Inconclusive("anchor not found: type " + G)
        self.n = len(o[0]["v"][0][2])
        for k, nm in (("grid", "grid"), ("ns", "n_solved_cells"), ("poss", "cell_poss_digits"), ("house", "house_solved_digits"), ("last", "last_cell")):
            setattr(self, k, vfield(P, G, None, nm))
        C = "sudoku::board::Candidate"
        self.cc, self.cd = vfield(P, C, None, "cell"), vfield(P, C, None, "digit")

    def make(self, grid, ns, poss, house, last=0):
        out = [0] * self.n
        out[self.grid], out[self.ns], out[self.poss], out[self.house], out[self.last] = tuple(grid), ns, tuple(poss), tuple(house), last
        return tuple(out)

    def cand(self, c, d):
        out = [0, 0]
        out[self.cc], out[self.cd] = c, d
        return tuple(out)


def dset(bs):
    return mkbits(list(bs) + [0] * 7)


def dbits(v):
    return to_bits(v, 16)[:9]


FULL = dset([1] * 9)


def stack(cands, cap=12):
    return ((Ptr(("H", 90001), (("i", 0),)), cap, ()), len(cands)), {("H", 90001): tuple(cands) + (UNINIT,) * (cap - len(cands))}


class Scene:
    """unsolved cells with arbitrary candidates, solved cells with arbitrary digits; every other cell is open and has all candidates left by the solved ones"""

    def __init__(self, window, solved=(), digits=range(9)):
        self.window, self.solved = list(window), list(solved)
        self.sd = {c: sym("s%d" % c, range(1, 10)) for c in self.solved}
        bit = {}
        for k in range(9):
            for c in self.window:
                bit[c, k] = 0 if k not in digits else sym("p%d_%d" % (c, k), (0, 1))
        self.pc = []
        poss = []
        for c in range(81):
            if c in self.sd:
                poss.append([0] * 9)
                continue
            row = [bit[c, k] if c in self.window else 1 for k in range(9)]
            for s, d in self.sd.items():
                if s in NB[c]:
                    if c in self.window:
                        self.pc += [dd.b_not(dd.b_and(row[k], eqc(d, k + 1))) for k in range(9)]
                    else:
                        row = [dd.b_and(row[k], dd.b_not(eqc(d, k + 1))) for k in range(9)]
            poss.append(row)
        for c in self.window:
            self.pc.append(disj(poss[c]))       # open cells have a candidate
        for a in self.sd:
            for b in self.sd:
                if a < b and b in NB[a]:
                    self.pc.append(tab2(lambda x, y: 1 if x != y else 0, self.sd[a], self.sd[b]))
        self.poss = poss
        self.grid = [self.sd.get(c, 0) for c in range(81)]
        self.house = [[disj([eqc(self.grid[c], k + 1) for c in h]) for k in range(9)] for h in HOUSES]

    def state(self, L, last=0):
        return L.make(self.grid, len(self.sd), [dset(r) for r in self.poss], [dset(r) for r in self.house], last)


def run(ctx):
    P = ctx.prog()
    L = GL(P)
    ctx.parallel(jobs(ctx, P, L))


def jobs(ctx, P, L):
    out = []
    for c in range(81):
        nb = sorted(NB[c])
        a, b = nb[c * 7 % 20], nb[(c * 7 + 3 + c % 11) % 20]
        x = next(y for y in sorted(NB[a], key=lambda y: (y * 37 + c) % 81) if y not in NB[c] and y not in (a, b, c))
        s = next(y for y in sorted(NB[c], key=lambda y: (y * 29 + c) % 81) if y not in (a, b, c, x))
        far = [y for y in sorted(range(81), key=lambda y: (y * 41 + c) % 81) if y not in NB[c] and y not in (a, b, c, x, s)]
        # five entries that do not touch each other: one batch
        other = []
        for y in far:
            if len(other) < 4 and all(y not in NB[z] for z in other):
                other.append(y)
        cases = [([c, a, b], [], [c], {}), ([a, b, x], [s], [c], {}), ([c, a], [s], [a, c], {}), ([a, b], [], [c, a], {}),
                 ([c, a], [b], [c, b, c], {}),
                 ([c, a, b], [], [c] + other, dict(zip(other, (1, 2, 3, 9)))), ([a, x], [s], other + [c], dict(zip(other, (4, 4, 5, 6)))),
                 ([c, a], [], [a, c] + other[:3], dict(zip(other, (7, 8, 1)))), ([a], [c], [c, a, c] + other[:2], dict(zip(other, (7, 7))))]
        out.append(lambda k, c=c, cases=cases: [insert(k, P, L, *x, digits=[(c * 2 + i * i) % 9 for i in range(4)]) for x in cases])
    out += [lambda k, h=h: [hidden(k, P, L, h, pair) for pair in pairs(h, k.tier)] for h in range(27)]
    out += [lambda k, c=c: guess(k, P, L, c) for c in range(81)]
    out += [lambda k: driver(k, P, L), lambda k: first(k, P, L)]
    return out


def pairs(h, tier):
    ps = [(a, b) for a in range(9) for b in range(9) if a < b]
    return ps if tier == "thorough" else [ps[(h * 5 + 7 * i) % 36] for i in range(4)]


def hidden(ctx, P, L, h, pair):
    """house h: two digits with arbitrary places, all other digits everywhere"""
    FN = G + "::find_hidden_singles"
    ctx.reset()
    cells = HOUSES[h]
    b = {}
    for x in cells:
        for k in pair:
            b[x, k] = sym("p%d_%d" % (x, k), (0, 1))
    solved = {k: sym("in%d" % k, (0, 1)) for k in pair}
    # one cell may be filled already: with which of the two digits
    s = cells[(h + pair[0]) % 9]
    filled = dd.b_or(solved[pair[0]], solved[pair[1]])
    pc = [dd.b_not(dd.b_and(solved[pair[0]], solved[pair[1]]))]
    for k in pair:
        pc += [dd.b_not(dd.b_and(solved[k], b[x, k])) for x in cells]      # a placed digit is no candidate in its house
    pc += [dd.b_not(dd.b_and(filled, b[s, k])) for k in pair]
    poss = []
    for x in range(81):
        row = [b.get((x, k), 1) for k in range(9)]
        if x == s:
            row = [dd.b_and(r, dd.b_not(filled)) for r in row]
        poss.append(row)
    grid = [0] * 81
    grid[s] = dd.ite(solved[pair[0]], pair[0] + 1, dd.ite(solved[pair[1]], pair[1] + 1, 0))
    house = [[eqc(grid[s], k + 1) if s in HOUSES[g] else 0 for k in range(9)] for g in range(27)]
    v, mem = stack([], 81)
    st0 = L.make(grid, dd.ite(filled, 1, 0), [dset(r) for r in poss], [dset(r) for r in house], 5)
    mem.update({("S", 0): st0, ("V", 0): v})
    anc = ctx.anchor(P, FN)
    pc0 = pc_and((), conj(pc))
    key = "hidden"
    rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), Ptr(("V", 0), ())], mem=mem, pc=pc0)
    if rs is None:
        return
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    name = "house %d, digits %d and %d" % (h, pair[0] + 1, pair[1] + 1)
    # houses that share cells with h have the digits elsewhere; h itself may lack one
    nowhere = disj([conj([dd.b_not(solved[k])] + [dd.b_not(b[x, k]) for x in cells]) for k in pair])
    only = {(x, k): conj([b[x, k]] + [dd.b_not(b[y, k]) for y in cells if y != x]) for x in cells for k in pair}
    clash = disj([dd.b_and(only[x, pair[0]], only[x, pair[1]]) for x in cells])
    for st, r in rs:
        if not ctx.ob(key + "/shape", r.__class__ is En, repr(r), anc):
            continue
        ctx.holds(key + "/error-justified", implies(eqc(r.d, 1), dd.b_or(nowhere, clash)), st.pc, anc, what=name)
        p = pc_and(st.pc, eqc(r.d, 0))
        if p is None:
            continue
        ctx.same(key + "/state", st.m[("S", 0)], st0, p, anc, what=name)
        n = pc_simpl(p, st.m[("V", 0)][1])
        top = max(dd.terminals(n)) if n.__class__ is Node else n
        if not ctx.ob(key + "/number", top <= 2, "%d singles found" % top, anc):
            continue
        for i in range(top):
            q = pc_and(p, tab(n, lambda t, i=i: 1 if t > i else 0))
            if q is None:
                continue
            e = it.load(st, it.ptr_offset(st.m[("V", 0)][0][0], i, 1))
            c, d = e[L.cc], e[L.cd]
            good = disj([conj([eqc(c, x), eqc(d, k + 1), only[x, k]]) for x in cells for k in pair])
            ctx.holds(key + "/single", good, q, anc, what=name)


def guess(ctx, P, L, c):
    """from any position of the search cursor: a candidate of an unsolved cell"""
    ctx.reset()
    FN = [n for n in (o["n"] for o in P.I.values()) if n.startswith(G + "::find_good_random_guess::<") and "OpaqueRng" in n]
    if not FN:
        raise Inconclusive("anchor not found: " + G + "::find_good_random_guess")
    FN = FN[0]
    a, b = (c * 17 + 5) % 81, (c * 31 + 40) % 81
    last = sym("last", range(81))
    win = list(dict.fromkeys([c, a, b]))
    bit = {(x, k): sym("p%d_%d" % (x, k), (0, 1)) for x in win for k in (c % 9, (c + 4) % 9, (c + 5) % 9)}
    poss = [[bit.get((x, k), 0) for k in range(9)] for x in range(81)]
    some = disj([disj(poss[x]) for x in win])
    box = {}
    mem = {("S", 0): L.make([0] * 81, 0, [dset(r) for r in poss], [dset([0] * 9)] * 27, last), ("R", 0): (0,)}
    anc = ctx.anchor(P, FN)
    key = "guess"
    rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), Ptr(("R", 0), ())], mem=mem, pc=pc_and((), some), setup=lambda it: box.update(r=Rng(it)))
    if rs is None:
        return
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    for st, e in rs:
        x, d = e[L.cc], e[L.cd]
        good = disj([conj([eqc(x, y), eqc(d, k + 1), bit[y, k]]) for y, k in bit])
        ctx.holds(key + "/candidate", good, st.pc, anc, what="cells %s" % win)
        S = st.m[("S", 0)]
        ctx.same(key + "/state", tuple(S[i] for i in range(L.n) if i != L.last), tuple(mem["S", 0][i] for i in range(L.n) if i != L.last), st.pc, anc)
        ctx.holds(key + "/cursor", tab(S[L.last], lambda v: 1 if v.__class__ is int and 0 <= v < 81 else 0), st.pc, anc)
        ctx.ob(key + "/rng", box["r"].threads == 0, "the guess does not come from the given generator", anc)


X = [40, 3, 77, 28]         # cells guessed at, by round


def opaque(P, name):
    n = [o["n"] for o in P.I.values() if o["n"].startswith(G + "::" + name + "::<") and "OpaqueRng" in o["n"]]
    if not n:
        raise Inconclusive("anchor not found: %s::%s" % (G, name))
    return n[0]


class Script:
    """the steps of the search as scripted oracles; every step is recorded with the state it was given"""

    def __init__(self, it, L, script, names, syms):
        self.L, self.script, self.syms = L, script, syms
        self.ev = []            # [number, pc, kind, state, stack, outcome, result data]
        self.problems = []
        self.more = None        # options for the step after the script
        ins, hid, gue, sol = names
        it.models[ins] = self.split(self.insert, 1)
        it.models[hid] = self.split(self.hidden, 1)
        it.models[gue] = self.guess
        it.models[sol] = self.split(self.solve, 2)

    def split(self, f, arg):
        """one case per number of entries on the stack"""
        def g(it, st, o, a, at, dt):
            if dt is None:          # the search under analysis itself
                return NotImplemented
            n = pc_simpl(st.pc, it.load(st, a[arg])[1])
            if n.__class__ is int:
                return f(it, st, o, a, at, dt)
            out = []
            for k in sorted(dd.terminals(n)):
                pc = pc_and(st.pc, eqc(n, k))
                if pc is not None:
                    out += f(it, State(dict(st.m), pc, st.g), o, a, at, dt)
            return out
        return g

    def sym(self, n, dom):
        if n not in self.syms:
            self.syms[n] = sym(n, dom)
        return self.syms[n]

    def stack(self, it, st, p):
        v = it.load(st, p)
        n = pc_simpl(st.pc, v[1])
        if n.__class__ is not int:
            raise Inconclusive("number of entries not known")
        return [tuple(pc_simpl(st.pc, x) for x in it.load(st, it.ptr_offset(v[0][0], i, 1))) for i in range(n)]

    def outcome(self, st, opts):
        k = st.m[("TR", 0)]
        if k.__class__ is not int:
            raise Inconclusive("paths of different length meet")
        st.m = dict(st.m)
        st.m[("TR", 0)] = k + 1
        if k < len(self.script):
            return k, self.script[k]
        if k == len(self.script):
            self.more = opts
        return k, opts[0]

    def clear(self, it, st, p, add=()):
        v = it.load(st, p)
        for i, e in enumerate(add):
            it.store(st, it.ptr_offset(v[0][0], i, 1), e)
        it.store(st, p, (v[0], len(add)))

    def insert(self, it, st, o, a, at, dt):
        L = self.L
        s = it.load(st, a[0])
        k, w = self.outcome(st, "ESU")
        new = list(s)
        new[L.grid] = (100 + k,) * 81
        given = self.stack(it, st, a[1])
        pc = st.pc
        if w == "S":
            new[L.ns] = 81
            new[L.poss] = (dset([0] * 9),) * 81
        else:
            new[L.ns] = self.sym("ns%d" % k, range(81))
            x = X[k % 4]
            bits = [self.sym("p%d_%d" % (k, j), (0, 1)) if j in ((k + 1) % 9, (k * 3 + 5) % 9, 8) else 0 for j in range(9)]
            st.pc = pc_and(st.pc, disj(bits))
            new[L.poss] = tuple(dset(bits) if c == x else dset([1] * 9) for c in range(81))
        self.ev.append([k, pc, "insert", s, given, w, tuple(new)])
        it.store(st, a[0], tuple(new))
        if w != "E":
            self.clear(it, st, a[1])
        return [(st, En(1 if w == "E" else 0, {0: ((),), 1: ((),)}))]

    def hidden(self, it, st, o, a, at, dt):
        s = it.load(st, a[0])
        given = self.stack(it, st, a[1])
        k, w = self.outcome(st, "E01")
        e = self.L.cand(k, self.sym("h%d" % k, range(1, 10)))
        self.ev.append([k, st.pc, "hidden", s, given, w, e])
        if w == "1":
            self.clear(it, st, a[1], given + [e])
        return [(st, En(1 if w == "E" else 0, {0: ((),), 1: ((),)}))]

    def guess(self, it, st, o, a, at, dt):
        L = self.L
        s = it.load(st, a[0])
        k, _ = self.outcome(st, "-")
        t = s[L.grid][0] - 100
        x = X[t % 4]
        d = self.sym("g%d" % k, range(1, 10))
        bits = dbits(s[L.poss][x])
        self.ev.append([k, st.pc, "guess", s, None, x, d])
        st.pc = pc_and(st.pc, disj([dd.b_and(eqc(d, j + 1), bits[j]) for j in range(9)]))
        if st.pc is None:
            self.problems.append("a guess without a candidate")
            return []
        new = list(s)
        new[L.last] = x
        it.store(st, a[0], tuple(new))
        return [(st, L.cand(x, d))]

    def solve(self, it, st, o, a, at, dt):
        s = it.load(st, a[0]) if a[0].__class__ is Ptr else a[0]
        given = self.stack(it, st, a[2])
        k, w = self.outcome(st, "OF")
        self.ev.append([k, st.pc, "solve", s, given, w, a[1]])
        # the recursive search leaves something behind
        self.clear(it, st, a[2], [self.L.cand(80, 9)] if k % 2 else [])
        return [(st, En(0 if w == "O" else 1, {0: ((200 + k,) * 81,), 1: ((),)}))]


def driver(ctx, P, L):
    FN = opaque(P, "randomized_solve_one")
    names = (G + "::insert_entries", G + "::find_hidden_singles", opaque(P, "find_good_random_guess"), FN)
    anc = ctx.anchor(P, FN)
    depth = 16 if ctx.tier == "thorough" else 12
    todo = [""]
    seen = 0
    while todo:
        script = todo.pop()
        ctx.reset()
        box = {}
        first = [L.cand(c, sym("f%d" % c, range(1, 10))) for c in (0, 1)]
        v, mem = stack(first)
        st0 = L.make([0] * 81, 0, [FULL] * 81, [dset([0] * 9)] * 27, 0)
        mem.update({("V", 0): v, ("R", 0): (0,), ("TR", 0): 0, ("S", 0): st0})
        key = "search"
        rs, it = ctx.analyse(key, FN, [st0, Ptr(("R", 0), ()), Ptr(("V", 0), ())], mem=mem,
                             setup=lambda it: box.update(s=Script(it, L, script, names, {})))
        if rs is None:
            return
        S = box["s"]
        seen += 1
        for p in S.problems:
            ctx.ob(key + "/protocol", False, p, anc)
        ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
        paths(ctx, L, key, S, st0, first, rs, it, anc, script)
        if S.more and len(script) < depth:
            todo += [script + w for w in S.more]
    ctx.ob(key + "/runs", seen > 30, "only %d runs of the search" % seen, anc)


def paths(ctx, L, key, S, st0, first, rs, it, anc, script):
    what = "steps " + (script or "-")
    poss = lambda s: s[L.poss]
    for st, r, ev in [(State(st.m, pc, st.g), r, ev) for st, r in rs for ev, pc in traces(S.ev, st.pc)]:
        cur, must, guessed = st0, first, None      # state, entries still to insert, refuted guess
        fin = None
        single = None
        for i, (_, _, kind, s, given, w, data) in enumerate(ev):
            if not ctx.ob(key + "/after-end", fin is None, "%s: %s after the search was over" % (what, kind), anc):
                break
            if kind in ("insert", "hidden", "guess", "solve"):
                same = [k for k in range(L.n) if k != L.last]
                ctx.same(key + "/state", tuple(s[k] for k in same), tuple(cur[k] for k in same), st.pc, anc,
                         what="%s: state at step %d (%s)" % (what, i, kind))
            if kind == "insert":
                entries(ctx, L, key, what, i, given, must, single, st, anc)
                single = None
                must = []
                cur = data
                if w == "E":
                    fin = ("E",)
                elif w == "S":
                    fin = ("O", data[L.grid])
            elif kind == "hidden":
                ctx.ob(key + "/entries", not given or not must, "%s: entries of step %d not inserted yet" % (what, i), anc)
                if w == "E":
                    fin = ("E",)
                elif w == "1":
                    must = must + [data]
            elif kind == "guess":
                guessed = (w, data)
            elif kind == "solve":
                if not ctx.ob(key + "/guess", guessed is not None, "%s: branch without a guess" % what, anc):
                    break
                entries(ctx, L, key, what, i, given, must + [L.cand(*guessed)], None, st, anc)
                must = []
                if w == "O":
                    fin = ("O", (200 + i,) * 81)
                else:
                    x, d = guessed
                    old = dbits(cur[L.poss][x])
                    new = [dd.b_and(b, dd.b_not(eqc(d, j + 1))) for j, b in enumerate(old)]
                    cur = list(cur)
                    cur[L.poss] = tuple(dset(new) if c == x else p for c, p in enumerate(cur[L.poss]))
                    cur = tuple(cur)
                    single = (x, new)
                    guessed = None
        if not ctx.ob(key + "/shape", r.__class__ is En, repr(r)[:100], anc):
            continue
        if fin is None:
            # only an emptied cell can end the search here
            ctx.holds(key + "/end", conj([eqc(r.d, 1)] + ([dd.b_not(disj(single[1]))] if single else [0])), st.pc, anc, what=what + ": failure without a contradiction;")
        elif fin[0] == "E":
            ctx.holds(key + "/end", eqc(r.d, 1), st.pc, anc, what=what + ": result after a contradiction;")
        else:
            if ctx.holds(key + "/end", eqc(r.d, 0), st.pc, anc, what=what + ": result after a solution;"):
                ctx.same(key + "/grid", r.v[0][0], tuple(fin[1]), st.pc, anc, what=what)


def traces(ev, pc, k=0):
    """the sequences of steps possible under pc, each with its condition"""
    here = [e for e in ev if e[0] == k]
    out = []
    rest = pc
    for e in here:
        p = pc
        for c in e[1]:
            p = pc_and(p, c) if p is not None else None
        if p is not None:
            out += [([e] + t, q) for t, q in traces(ev, p, k + 1)]
        if rest is not None:
            rest = pc_and(rest, dd.b_not(conj(e[1])))
    if rest is not None:
        out.append(([], rest))
    return out


def is_entry(L, pc, x, e):
    a, b = x
    if a.__class__ is not int or a != e[L.cc]:
        return False
    n = neq_t(b, e[L.cd])
    return n == 0 if n.__class__ is int else pc_and(pc, n) is None


def entries(ctx, L, key, what, i, given, must, single, st, anc):
    """the entries given to a step: all that are due, and the last candidate left after a refuted guess"""
    g = [(e[L.cc], e[L.cd]) for e in given]
    for e in must:
        ctx.ob(key + "/entries", any(is_entry(L, st.pc, x, e) for x in g),
               "%s: an entry due is missing at step %d" % (what, i), anc)
    for a, b in g:
        if any(is_entry(L, st.pc, (a, b), e) for e in must):
            continue
        if not ctx.ob(key + "/entries", single is not None and a == single[0], "%s: an entry without reason at step %d" % (what, i), anc):
            continue
        x, bits = single
        only = disj([conj([eqc(b, j + 1), bits[j]] + [dd.b_not(bits[q]) for q in range(9) if q != j]) for j in range(9)])
        ctx.holds(key + "/single", only, st.pc, anc, what="%s: entry of step %d" % (what, i))


def first(ctx, P, L):
    """the search starts from the empty grid with one row filled by a permutation; its result is returned"""
    SOLVE = [o["n"] for o in P.I.values() if o["n"].startswith(G + "::randomized_solve_one::<")]
    for FN, thread in (("probe::gen::solved_with", 0), ("probe::gen::generate_solved", 1)):
        start(ctx, P, L, FN, SOLVE, thread)


def start(ctx, P, L, FN, SOLVE, thread):
    key = "start"
    anc = ctx.anchor(P, opaque(P, "generate_solved"))
    for k in range(12):
        ctx.reset()
        rnd = random.Random(k)
        box = {"calls": []}
        out = tuple(sym("out%d" % c, range(1, 10)) for c in range(81))

        def policy(i, lo, hi):
            if k == 0:
                return hi - 1
            if k == 1:
                return lo
            return None if i == k - 2 and i < 9 else rnd.randrange(lo, hi)

        def solve(it, st, o, a, at, dt):
            s = it.load(st, a[0]) if a[0].__class__ is Ptr else a[0]
            v = it.load(st, a[2])
            es = [it.load(st, it.ptr_offset(v[0][0], i, 1)) for i in range(v[1])]
            box["calls"].append((st.pc, s, es, box["r"].source(st, a[1])))
            return [(st, En(0, {0: (out,), 1: ((),)}))]

        def setup(it):
            box["r"] = Rng(it, draw=policy)
            for n in SOLVE:
                it.models[n] = solve
        rs, it = ctx.analyse(key, FN, [] if thread else [Ptr(("R", 0), ())], mem={("R", 0): (0,)}, setup=setup)
        if rs is None:
            return
        ctx.ob(key + "/total", len(rs) == 1, "%d results" % len(rs), anc)
        ctx.ob(key + "/once", len(box["calls"]) == 1, "%d searches" % len(box["calls"]), anc)
        ctx.ob(key + "/rng", thread or box["r"].threads == 0 and all(c[3] == ("R", 0) for c in box["calls"]), "random numbers from elsewhere", anc)
        for pc, s, es, _ in box["calls"]:
            same = [i for i in range(L.n) if i != L.last]
            want = L.make([0] * 81, 0, [FULL] * 81, [dset([0] * 9)] * 27)
            ctx.same(key + "/empty", tuple(s[i] for i in same), tuple(want[i] for i in same), pc, anc)
            ctx.holds(key + "/cursor", tab(s[L.last], lambda v: 1 if 0 <= v < 81 else 0), pc, anc)
            cells = [e[L.cc] for e in es]
            if not ctx.ob(key + "/house", all(c.__class__ is int for c in cells) and len(set(cells)) == len(cells) and
                          (not cells or any(set(cells) <= set(h) for h in HOUSES)), "initial entries in cells %r" % (cells,), anc):
                continue
            for i in range(len(es)):
                d = es[i][L.cd]
                ctx.holds(key + "/digit", tab(d, lambda v: 1 if 1 <= v <= 9 else 0), pc, anc)
                for j in range(i):
                    ctx.holds(key + "/distinct", neq_t(d, es[j][L.cd]), pc, anc, what="initial entries %d and %d differ:" % (j, i))
        for st, r in rs:
            for c in range(81):
                ctx.same(key + "/result", r[c], out[c], st.pc, anc, what="cell %d" % c)


def neq_t(a, b):
    return tab2(lambda x, y: 1 if x != y else 0, a, b)


def insert(ctx, P, L, window, solved, entries, fixed, digits):
    FN = G + "::insert_entries"
    ctx.reset()
    ds = []
    for i, c in enumerate(entries):
        ds.append(fixed[c] if c in fixed else sym("d%d" % i, range(1, 10)))
    sc = Scene(window, solved, digits)
    # entries come from the candidates of their cells
    sc.pc += [disj([dd.b_and(eqc(d, k + 1), sc.poss[e][k]) for k in range(9)])
              for d, e in zip(ds, entries) if e not in sc.sd]
    v, mem = stack([L.cand(c, d) for c, d in zip(entries, ds)])
    mem.update({("S", 0): sc.state(L), ("V", 0): v})
    key = "insert"
    name = "window %s, solved %s, entries %s" % (window, solved, entries)
    anc = ctx.anchor(P, FN)
    pc0 = pc_and((), conj(sc.pc))
    if pc0 is None:
        return
    rs, it = ctx.analyse(key, FN, [Ptr(("S", 0), ()), Ptr(("V", 0), ())], mem=mem, pc=pc0)
    if rs is None:
        return
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    # consistent assignments
    vs = [c for c in dict.fromkeys(window + entries) if c not in sc.sd]
    dom = {}
    for c in vs:
        forced = [ds[i] for i, e in enumerate(entries) if e == c]
        dom[c] = [conj([sc.poss[c][k]] + [eqc(d, k + 1) for d in forced]) for k in range(9)]
    impossible = [neq_t(d, sc.sd[e]) for d, e in zip(ds, entries) if e in sc.sd]

    def sat(fix):
        """some assignment with the cells of fix given"""
        def rec(i, given):
            if i == len(vs):
                return 1
            c = vs[i]
            r = 0
            for k in range(9):
                if any(given.get(x) == k for x in vs[:i] if x in NB[c]) or fix.get(c, k) != k:
                    continue
                d = dom[c][k]
                if d.__class__ is int and not d:
                    continue
                given[c] = k
                r = dd.b_or(r, dd.b_and(d, rec(i + 1, given)))
                del given[c]
            return r
        return rec(0, {})
    anysat = dd.b_and(sat({}), dd.b_not(disj(impossible)))
    for st, r in rs:
        if not ctx.ob(key + "/shape", r.__class__ is En, repr(r), anc):
            continue
        # a contradiction is only reported when there is one
        ctx.holds(key + "/error-justified", dd.b_or(dd.b_not(eqc(r.d, 1)), dd.b_not(anysat)), st.pc, anc, what=name)
        pc = pc_and(st.pc, eqc(r.d, 0))
        if pc is None:
            continue
        S = st.m[("S", 0)]
        ctx.same(key + "/stack-empty", st.m[("V", 0)][1], 0, pc, anc, what=name)
        new = {}
        grid = S[L.grid]
        for c in range(81):
            g0, g1 = sc.grid[c], grid[c]
            if c in sc.sd:
                ctx.same(key + "/kept", g1, g0, pc, anc, what="%s: cell %d" % (name, c))
            elif g1.__class__ is int and g1 == 0:
                pass
            else:
                new[c] = g1
        fill = {c: tab(g, lambda x: 1 if x else 0) for c, g in new.items()}
        for c, g in new.items():
            for k in range(9):
                put = eqc(g, k + 1)
                ctx.holds(key + "/candidate", implies(put, sc.poss[c][k]), pc, anc, what="%s: digit %d put in cell %d" % (name, k + 1, c))
                if c in vs:
                    other = conj([dd.b_not(sat({c: j})) for j in range(9) if j != k] + []) if c not in entries else 1
                    ctx.holds(key + "/forced", implies(put, dd.b_or(other, dd.b_not(anysat))), pc, anc, what="%s: digit %d put in cell %d" % (name, k + 1, c))
                else:
                    ctx.holds(key + "/forced", dd.b_not(put), pc, anc, what="%s: digit %d put in cell %d" % (name, k + 1, c))
            for x in range(81):
                if x in NB[c] and (x in sc.sd or x in new and x > c):
                    o = sc.sd.get(x, new.get(x))
                    ctx.holds(key + "/valid", dd.b_or(dd.b_not(fill[c]), neq_t(g, o)), pc, anc, what="%s: cells %d and %d" % (name, c, x))
        for d, e in zip(ds, entries):
            if e not in sc.sd:
                ctx.holds(key + "/entered", fill.get(e, 0), pc, anc, what="%s: cell %d" % (name, e))
                if entries.count(e) == 1:
                    ctx.holds(key + "/entered", implies(anysat, dd.b_not(neq_t(new.get(e, 0), d))), pc, anc, what="%s: cell %d" % (name, e))
        put = {c: [eqc(g, k + 1) for k in range(9)] for c, g in new.items()}
        for c in range(81):
            f = fill.get(c, 1 if c in sc.sd else 0)
            nbs = [x for x in new if x in NB[c]]
            want = []
            for k in range(9):
                gone = disj([put[x][k] for x in nbs] + [f])
                want.append(dd.b_and(sc.poss[c][k], dd.b_not(gone)))
            ctx.same(key + "/candidates", S[L.poss][c], dset(want), pc, anc, what="%s: cell %d" % (name, c))
        for h in range(27):
            want = [disj([sc.house[h][k]] + [put[x][k] for x in new if x in HOUSES[h]]) for k in range(9)]
            ctx.same(key + "/house", S[L.house][h], dset(want), pc, anc, what="%s: house %d" % (name, h))
        ctx.same(key + "/count", S[L.ns], tab(count_true(list(fill.values())), lambda n: n + len(sc.sd)), pc, anc, what=name)


def implies(a, b):
    return dd.b_or(dd.b_not(a), b)
