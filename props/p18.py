"""P18: the human strategies never rule out a solution."""
from strat import *

ALSO = []
DEEP = ["rel"]
FLOOR = 100000
RULE = ("value-set dataflow over the MIR of every strategy, of the cache updates between them and of solve(): a candidate is ruled out only if no way to fill "
        "the window contains it, a digit is entered only if no other fits, a contradiction is reported only if there is no way at all; caches change only "
        "accordingly; cells are counted as solved once; solve() returns Ok only with a full grid without a clash, and the grid it returns is its entries")
EXPLANATION = ("Invariant of the solver state: candidates, positions per house, digits entered per house and number of solved cells agree with the lists of entries "
               "and eliminations. Each strategy method is interpreted on states satisfying it whose window (up to five cells or lines) has arbitrary candidates, the rest "
               "being open; its effects are compared with the set of all fillings of the window, tabulated from the rules of sudoku alone.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "windows of up to 25 arbitrary candidate bits per analysis; the other cells open, or solved in the end games",
               "Strategy::AvoidableRectangles is not implemented (solve() panics with a message saying so)"]


def run(ctx):
    P = ctx.prog()
    L = SL(P)
    ctx.parallel(jobs(ctx, P, L))


ENDS = [["NakedSingles"], ["HiddenSingles"], ["NakedSingles", "HiddenSingles"], ["HiddenSingles", "NakedSingles"], ["LockedCandidates", "NakedSingles"],
        ["NakedPairs", "HiddenSingles"], ["HiddenPairs", "NakedSingles"], ["XWing", "NakedSingles"], ["XyWing", "HiddenSingles"], ["HiddenSingles", "LockedCandidates"]]


def jobs(ctx, P, L):
    deep = ctx.tier != "quick"
    out = []
    for h in range(27):
        out.append(lambda k, h=h: [subsets(k, P, L, h, 3, hid, (h + 1 + hid) % 2) for hid in ((0, 1) if deep else (h % 2,))])
        if deep or h % 10 == 4:
            out.append(lambda k, h=h: [subsets(k, P, L, h, 4, hid, (h + hid) % 2) for hid in (0, 1)])
    for h in range(27):
        out.append(lambda k, h=h: [subsets(k, P, L, h, 2, hid, (h + hid) % 2) for hid in (0, 1)])
    for d in range(9):
        out.append(lambda k, d=d: [fish(k, P, L, d, n, t, v) for n in (2, 3, 4) for t in (0, 1) for v in range(4 if deep else 2)])
    for d in range(9):
        out.append(lambda k, d=d: [mutant(k, P, L, d, n) for n in (3, 4)])
    for ch in range(6):
        for v in range(9 if deep else 4):
            out.append(lambda k, ch=ch, v=v: locked(k, P, L, ch, v))
    for c in range(81):
        out.append(lambda k, c=c: wings(k, P, L, c))
    for c in range(81):
        out.append(lambda k, c=c: [naked_singles(k, P, L, c, v) for v in ((0, 1, 2, 3) if deep else (c % 2, 2 + c % 2))])
    for h in range(27):
        out.append(lambda k, h=h: [hidden_singles(k, P, L, h, v) for v in range(8 if deep else 3)])
    for c in range(81):
        out.append(lambda k, c=c: [update(k, P, L, c, v) for v in (range(24) if deep else (c % 12, (c + c // 12 + 5) % 12))])
    for v in range(60 if deep else 20):
        out.append(lambda k, v=v: ending(k, P, L, v, ENDS[(v + v // 10 * 3) % len(ENDS)]))
    for n in ROUNDS:
        for v in range(6 if deep else 2):
            out.append(lambda k, n=n, v=v: rounds(k, P, L, n, v))
    return out


def product(cells, digs, bit, compat):
    """table: every cell of the list gets one of its digits, compatible pairwise; returns f(fix) for fix = {cell: digit}"""
    memo = {}

    def sat(fix=()):
        fix = tuple(sorted(dict(fix).items()))
        if fix in memo:
            return memo[fix]
        given = dict(fix)

        def rec(i):
            if i == len(cells):
                return 1
            c = cells[i]
            r = 0
            for k in digs if c not in given else [given[c]]:
                if any(c2 != c and not compat(c, k, c2, k2) for c2, k2 in cur.items()):
                    continue
                b = bit(c, k)
                if b.__class__ is int and not b:
                    continue
                old = cur.get(c)
                cur[c] = k
                r = dd.b_or(r, dd.b_and(b, rec(i + 1)))
                if old is None:
                    del cur[c]
            return r
        cur = {c: k for c, k in given.items()}
        if any(not compat(a, x, b, y) for a, x in cur.items() for b, y in cur.items() if a < b):
            memo[fix] = 0
        else:
            memo[fix] = rec(0)
        return memo[fix]
    return sat


def step(ctx, P, L, key, fn, args, w, pc, sat, name, pend=(), pelim=(), **kw):
    """run a method on the window's state (with entries and eliminations not yet worked in): what it rules out must be
    unsatisfiable, what it enters forced, and the caches may change only accordingly. sat(fix): some way to fill the window exists"""
    S, mem = w.state(L, pend=pend, pelim=pelim, **kw)
    L.mem0 = dict(mem)
    mem["S", 0] = S
    n0, l0 = S[L.deduced_entries][1], S[L.eliminated_entries][1]
    anc = ctx.anchor(P, fn)
    rs, it = ctx.analyse(key, fn, [Ptr(("S", 0), ())] + args, mem=mem, pc=pc)
    if rs is None:
        return None
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    given = {}
    for c, d in pend:
        pairs(given, 1, c, d)
    for st, r in rs:
        unit = r.__class__ is tuple and not r
        if not ctx.ob(key + "/shape", unit or r.__class__ is En, repr(r)[:80], anc):
            continue
        err = 0 if unit else eqc(r.d, 1)
        okc = nand(err)

        def holds(k2, cond, what):
            ctx.holds(key + "/" + k2, cond, st.pc, anc, what=name + ": " + what)
        holds("error", implies(err, nand(sat())), "contradiction reported although there is none;")
        S2 = st.m[("S", 0)]
        gone = {}
        add, nl = added(it, st, L, L.eliminated_entries, l0)
        for cond, e in add:
            pairs(gone, cond, e[L.cc], e[L.cd])
        for (c, d), cond in sorted(gone.items()):
            holds("eliminated", implies(cond, nand(sat({(c, d - 1)}))), "digit %d ruled out in cell %d;" % (d, c))
        ent = {}
        add, ne = added(it, st, L, L.deduced_entries, n0)
        for cond, e in add:
            pairs(ent, cond, e[L.cc], e[L.cd])
        for (c, d), cond in sorted(ent.items()):
            for k in range(9):
                if k != d - 1:
                    holds("entered", implies(cond, nand(sat({(c, k)}))), "digit %d entered in cell %d, %d is possible;" % (d, c, k + 1))
        # the lists keep what they had
        ctx.ob(key + "/history", added_intact(it, st, L, S, n0, l0), "earlier entries or eliminations changed", anc)
        allent = dict(ent)
        for x, cond in given.items():
            allent[x] = dd.b_or(allent.get(x, 0), cond)
        # the caches lose nothing else
        ns, nd, cur = S2[L.n_solved], S2[L.cell_poss_digits][L.nd], S2[L.house_solved_digits][L.nd]
        poss = S2[L.cell_poss_digits][L.state]
        for c in range(81):
            if poss[c] is w.poss[c] or poss[c].__class__ is int and poss[c] == w.poss[c]:
                continue
            pb = dbits(poss[c])
            for k, (a, b) in enumerate(zip(w.bit[c], pb)):
                lost = dd.b_and(a, nand(dd.b_or(b, allent.get((c, k + 1), 0))))
                if lost.__class__ is not int or lost:
                    holds("candidates", implies(lost, nand(sat({(c, k)}))), "digit %d lost in cell %d;" % (k + 1, c))
                new = dd.b_and(b, nand(a))
                if new.__class__ is not int or new:
                    holds("candidates-back", nand(new), "digit %d comes back in cell %d;" % (k + 1, c))
        pos = S2[L.house_poss_positions][L.state]
        for h in range(27):
            for k in range(9):
                p = pos[h][k]
                if p is w.pos[h][k] or p.__class__ is int and p == w.pos[h][k]:
                    continue
                for c, b in zip(HOUSES[h], dbits(p)):
                    lost = dd.b_and(w.bit[c][k], nand(dd.b_or(b, allent.get((c, k + 1), 0))))
                    if lost.__class__ is not int or lost:
                        holds("positions", implies(lost, nand(sat({(c, k)}))), "place %d of digit %d lost in house %d;" % (c, k + 1, h))
        solved = S2[L.house_solved_digits][L.state]
        for h in range(27):
            p = solved[h]
            same = p is w.house[h] or p.__class__ is int and p == w.house[h]
            for k, (a, b) in enumerate(zip(w.solved[h], dbits(p))):
                here = disj([allent[c, k + 1] for c in HOUSES[h] if (c, k + 1) in allent])
                if not same:
                    holds("solved", implies(b, dd.b_or(a, here)), "digit %d counted as entered in house %d;" % (k + 1, h))
                if here.__class__ is not int or here:
                    caught = kw.get("worked", 1)
                    if caught:
                        holds("solved", implies(dd.b_and(okc, here), b), "digit %d entered but not counted in house %d;" % (k + 1, h))
        if kw.get("worked", 1):
            # everything entered was worked in: the cell is out, counted once
            cells = sorted({c for c, _ in allent})
            hit = [disj([cond for (x, _), cond in allent.items() if x == c]) for c in cells]
            for c, on in zip(cells, hit):
                holds("worked-in", implies(dd.b_and(okc, on), nand(disj(dbits(poss[c])))), "cell %d is entered and still has candidates;" % c)
            n = count_true([nand(nand(x)) if x.__class__ is Node else x for x in hit])
            want = tab(n, lambda v: v + w.n) if n.__class__ is Node else n + w.n
            holds("count", implies(okc, dd_eq(ns, want)), "number of solved cells;")
            holds("count", tab2(lambda a, b: 1 if a <= b else 0, ns, want), "more cells counted as solved than entered;")
            every = dict(allent)
            for c, g in enumerate(w.grid):
                if g:
                    every[c, g] = 1
            clash = disj([dd.b_and(p, every[y, d]) for (c, d), p in every.items() for y in NB[c] if y > c and (y, d) in every]
                         + [dd.b_and(p, every[c, d2]) for (c, d), p in every.items() for d2 in range(d + 1, 10) if (c, d2) in every])
            holds("clash", implies(okc, nand(clash)), "clashing entries are accepted;")
            holds("clash", implies(clash, tab2(lambda a, b: 1 if a < b else 0, ns, want)), "clashing entries are all counted as solved;")
            holds("cursor", dd_eq(nd, cur), "cursors differ;")
        grid = S2[L.grid][L.state]
        for c in range(81):
            g = grid[c]
            if g is w.grid[c] or g.__class__ is int and g == w.grid[c]:
                continue
            for k in range(9):
                ok = dd.b_or(allent.get((c, k + 1), 0), 1 if w.grid[c] == k + 1 else 0)
                holds("grid", implies(eqc(g, k + 1), ok), "digit %d appears in cell %d;" % (k + 1, c))
    return rs, it


def dd_eq(a, b):
    return tab2(lambda x, y: 1 if x == y else 0, a, b)


def added_intact(it, st, L, S, n0, l0):
    S2 = st.m[("S", 0)]
    for f, base, n in ((L.deduced_entries, BE, n0), (L.eliminated_entries, BL, l0)):
        p = S2[f][0][0]
        for i in range(n):
            if it.load(st, it.ptr_offset(p, i, 1)) != L.mem0[base][i]:
                return False
    return True


def pairs(acc, cond, c, d):
    cs = sorted(dd.terminals(c)) if c.__class__ is Node else [c]
    for x in cs:
        p = dd.b_and(cond, eqc(c, x))
        if p.__class__ is int and not p:
            continue
        if d.__class__ is not Node:
            ys = [d]
        else:
            ys = sorted(dd.terminals(d))
        for y in ys:
            q = dd.b_and(p, eqc(d, y))
            if q.__class__ is int and not q:
                continue
            acc[x, y] = dd.b_or(acc.get((x, y), 0), q)


def subsets(ctx, P, L, h, size, hid, stop):
    """one house: some cells with arbitrary candidates among some digits (hidden: some digits with arbitrary places)"""
    FN = SS + ("::find_hidden_subsets" if hid else "::find_naked_subsets")
    ctx.reset()
    n = size + 1 if size < 4 else 5
    cells = [HOUSES[h][(h + i * 2) % 9] for i in range(n)]
    digs = sorted((h * 4 + i * 5) % 9 for i in range(n))
    b = {}
    for i, c in enumerate(cells):
        for j, k in enumerate(digs):
            # the larger windows have a fixed border
            if n == 5 and (i + j) % 5 in (1, 3) or n == 4 and i == j == 3:
                b[c, k] = 0
            else:
                b[c, k] = sym("p%d_%d" % (c, k), (0, 1))
    H = set(HOUSES[h])
    if hid:
        w = Window(lambda c, k: (b[c, k] if k in digs else 1) if c in cells else 0 if c in H and k in digs else 1)
        pc = pc_and((), conj([disj([b[c, k] for c in cells]) for k in digs]))
        # digits are placed in cells; a cell taken by another digit is blocked
        place = product(digs, cells, lambda k, c: b[c, k] if (c, k) in b else 1, lambda k, c, k2, c2: c != c2)

        def sat(fix=()):
            f = {}
            for c, k in fix:
                if c not in H:
                    return 1
                if k in digs and c not in cells:
                    return 0
                f[k] = c
            return place(f)
    else:
        w = Window(lambda c, k: (b[c, k] if k in digs else 0) if c in cells else 1)
        pc = pc_and((), conj([disj([b[c, k] for k in digs]) for c in cells]))
        place = product(cells, digs, lambda c, k: b.get((c, k), 0) if c in cells else 1, lambda c, k, c2, k2: k != k2 or c2 not in NB[c])

        def sat(fix=()):
            return place(dict(fix))
    step(ctx, P, L, "hidden-subset" if hid else "naked-subset", FN, [size, stop], w, pc, sat, "house %d, cells %s, digits %s" % (h, cells, [k + 1 for k in digs]))


def placing(ctx, P, L, key, fn, args, d, lines, b, name):
    """digit d has the places b[cell] (0 elsewhere) in the given lines; every line takes one of them"""
    inl = {c for l in lines for c in HOUSES[l]}
    w = Window(lambda c, k: b.get(c, 0) if k == d and c in inl else 1)
    pc = pc_and((), conj([disj([b[c] for c in HOUSES[l] if c in b]) for l in lines]))
    place = product(lines, sorted(b), lambda l, c: (b[c] if c in HOUSES[l] else 0) if l in lines else 1,
                    lambda l, c, l2, c2: c != c2 and c2 not in NB[c])

    def sat(fix=()):
        f = {}
        for c, k in fix:
            if k != d:
                return 1
            own = [l for l in lines if c in HOUSES[l]]
            if own and c not in b:
                return 0
            f[own[0] if own else -1] = c
        return place(f)
    return step(ctx, P, L, key, fn, args, w, pc, sat, name)


def fish(ctx, P, L, d, size, t, v):
    """a digit in a few parallel lines, at arbitrary places among a few crossing lines"""
    ctx.reset()
    n = size + 1 if size < 4 else 5
    lines = sorted((9 * t) + (d * 2 + i * 2 + (i > 2)) % 9 for i in range(n))
    cross = sorted((d + v + i * (4 if v % 2 else 2)) % 9 for i in range(n))
    b = {}
    for i, l in enumerate(lines):
        for j, x in enumerate(cross):
            if n == 5 and (i + j) % 5 in (1, 3) or n == 4 and (i, j) in ((3, 3), (0, 2)):
                continue
            b[HOUSES[l][x]] = sym("f%d" % HOUSES[l][x], (0, 1))
    placing(ctx, P, L, "fish", SS + "::find_fish", [size, (d + v + t) % 2], d, lines, b, "digit %d, lines %s, positions %s" % (d + 1, lines, cross))


def locked(ctx, P, L, ch, v):
    """a digit in the three lines of a chute, at arbitrary places among some cells of its nine minilines"""
    ctx.reset()
    d = (ch * 5 + v * 2) % 9
    lines = [(ch // 3) * 9 + (ch % 3) * 3 + i for i in range(3)]
    b = {}
    for i, l in enumerate(lines):
        for j in range(3):
            b[HOUSES[l][j * 3 + (i + j + v) % 3]] = 1
            if (i + j + v) % 3 == 1:
                b[HOUSES[l][j * 3 + (i + v) % 3]] = 1
    b = {c: sym("l%d" % c, (0, 1)) for c in b}
    placing(ctx, P, L, "locked", SS + "::find_locked_candidates", [v % 2], d, lines, b, "digit %d in chute %d" % (d + 1, ch))


def mutant(ctx, P, L, d, size):
    ctx.reset()
    lines = [d % 9, (d + 2) % 9, (d + 4) % 9]
    b = {HOUSES[l][x]: sym("m%d_%d" % (l, x), (0, 1)) for l in lines for x in (d % 9, (d + 4) % 9, (d + 7) % 9)}
    placing(ctx, P, L, "mutant-fish", SS + "::find_mutant_fish", [size, d % 2], d, sorted(lines), b, "digit %d, rows %s" % (d + 1, lines))


ROUNDS = ["NakedPairs", "HiddenPairs", "XWing", "LockedCandidates", "XyWing", "XyzWing", "NakedTriples", "Swordfish"]


def rounds(ctx, P, L, n, v):
    """solve() with elimination strategies only, several rounds, on a band of open cells"""
    ctx.reset()
    c = (v * 29 + len(n) * 7) % 81
    nb = sorted(NB[c])
    x = [c, nb[(v * 5 + 1) % 20], nb[(v * 5 + 8) % 20]]
    ks = sorted((v + j * 2) % 9 for j in range(4))
    b = {(y, k): sym("r%d_%d" % (y, k), (0, 1)) for y in x for k in ks}
    w = Window(lambda y, k: b.get((y, k), 0) if y in x else 1)
    pc = pc_and((), conj([disj([b[y, k] for k in ks]) for y in x]))
    place = product(x, ks, lambda y, k: b.get((y, k), 0) if y in x else 1, lambda y, k, c2, k2: k != k2 or c2 not in NB[y])
    solve(ctx, P, L, "rounds", [n] + ([ROUNDS[(v + 3) % len(ROUNDS)]] if v % 2 else []), w, pc, place, "%s, cells %s" % (n, x))


def wings(ctx, P, L, hinge):
    """three cells with arbitrary candidates among four digits, all combinations of their relative position"""
    r, c = divmod(hinge, 9)
    row = [x for x in HOUSES[r] if x != hinge]
    col = [x for x in HOUSES[9 + c] if x != hinge]
    blk = [x for x in HOUSES[18 + r // 3 * 3 + c // 3] if x != hinge]
    out = [x for x in range(81) if x not in NB[hinge] and x != hinge]
    rd, cd = [x for x in row if x not in blk], [x for x in col if x not in blk]
    bd = [x for x in blk if x not in row and x not in col]
    rb, cb = [x for x in row if x in blk], [x for x in col if x in blk]

    def at(xs, k):
        return xs[(hinge * 7 + k) % len(xs)]
    for i, (A, B) in enumerate(((bd, rd), (bd, cd), (rd, cd), (cb, rd), (rb, cd), (bd, bd), (bd, out), (rd, out))):
        if i >= 3 and ctx.tier == 'quick' and (hinge + i) % 5:
            continue
        p, q = at(A, i), at(B, i + 1)
        if p == q:
            continue
        cells = [hinge, p, q]
        digs = sorted((hinge * 4 + i + j * 2) % 9 for j in range(4))
        for kind, fn in (("xy-wing", "::find_xy_wing"), ("xyz-wing", "::find_xyz_wing")):
            ctx.reset()
            b = {(c, k): sym("w%d_%d" % (c, k), (0, 1)) for c in cells for k in digs}
            w = Window(lambda c, k: b.get((c, k), 0) if c in cells else 1)
            pc = pc_and((), conj([disj([b[c, k] for k in digs]) for c in cells]))
            place = product(cells, digs, lambda c, k: b.get((c, k), 0) if c in cells else 1, lambda c, k, c2, k2: k != k2 or c2 not in NB[c])
            step(ctx, P, L, kind, SS + fn, [i % 2], w, pc, lambda fix=(): place(dict(fix)), "hinge %d, pincers %d and %d" % (hinge, p, q))


def naked_singles(ctx, P, L, c, v):
    """two cells with arbitrary candidates among three digits"""
    ctx.reset()
    others = [sorted(NB[c])[(c + v * 5) % 20], (c * 2 + v + 40) % 81]
    x = others[v % 2] if others[v % 2] != c else (c + 1) % 81
    digs = sorted((c + v + j * 4) % 9 for j in range(3))
    cells = [c, x]
    b = {(y, k): sym("n%d_%d" % (y, k), (0, 1)) for y in cells for k in digs}
    w = Window(lambda y, k: b.get((y, k), 0) if y in cells else 1)
    pc = pc_and((), conj([disj([b[y, k] for k in digs]) for y in cells]))
    place = product(cells, digs, lambda y, k: b.get((y, k), 0) if y in cells else 1, lambda y, k, c2, k2: k != k2 or c2 not in NB[y])
    step(ctx, P, L, "naked-single", SS + "::find_naked_singles", [v % 2], w, pc, place, "cells %s, digits %s" % (cells, [k + 1 for k in digs]))


def hidden_singles(ctx, P, L, h, v):
    """two digits with arbitrary places among three cells of a house"""
    ctx.reset()
    cells = [HOUSES[h][(h + v + i * 4) % 9] for i in range(3)]
    digs = sorted({(h + v) % 9, (h + v * 2 + 4) % 9})
    H = set(HOUSES[h])
    b = {(y, k): sym("h%d_%d" % (y, k), (0, 1)) for y in cells for k in digs}
    w = Window(lambda y, k: (b.get((y, k), 0) if k in digs else 1) if y in H else 1)
    place0 = product(digs, cells, lambda k, y: b[y, k] if (y, k) in b else 1, lambda k, y, k2, c2: y != c2)

    def place(fix=()):
        f = {}
        for y, k in fix:
            if y in H and k in digs:
                if y not in cells:
                    return 0
                f[k] = y
            elif y in H:
                f[k] = y
            elif k in digs:
                # a place elsewhere blocks the cells it sees
                f[k + 20] = y
        return place1(f)

    def compat(k, y, k2, c2):
        if k % 20 == k2 % 20 and (k >= 20 or k2 >= 20):
            return c2 != y and c2 not in NB[y]
        return y != c2
    place1 = product(digs, cells, lambda k, y: b[y, k] if (y, k) in b else 1, compat)
    step(ctx, P, L, "hidden-single", SS + "::find_hidden_singles", [v % 2], w, (), place, "house %d, cells %s, digits %s" % (h, cells, [k + 1 for k in digs]))


def update(ctx, P, L, c, v):
    """entries and eliminations not yet worked in, next to cells with arbitrary candidates"""
    ctx.reset()
    near = sorted(NB[c])
    x = [near[(c + v * 3 + i * 7) % 20] for i in range(2)]
    far = [y for y in range(81) if y not in NB[c] and y != c]
    f = far[(c + v) % len(far)]
    ks = sorted((c + v + j * 4) % 9 for j in range(3))
    kinds = v % 12
    b = {(y, k): sym("u%d_%d" % (y, k), (0, 1)) for y in x for k in ks}
    w = Window(lambda y, k: b.get((y, k), 0) if y in x else 1)
    pc = pc_and((), conj([disj([b[y, k] for k in ks]) for y in x]))
    g, g2 = sym("g", tuple(k + 1 for k in ks)), sym("g2", tuple(k + 1 for k in ks))
    pend, pelim = [(c, g)], []
    if kinds in (1, 2):
        pend.append((f, g2))
    if kinds == 2:
        pend += [(y, k) for y, k in zip([y for y in far if y != f][:40:9], (1, 5, 8, 3, 7))]
    if kinds == 3:
        pelim = [(x[0], g2)]
        pend = []
    if kinds == 4:
        pelim = [(f, g2), (x[1], ks[0] + 1)]
    if kinds == 5:
        pend.append((c, g))
        pend.append((x[0], g2))
    if kinds >= 6:
        # entries at once that see each other in one house only
        r, q = divmod(c, 9)
        rows = [y for y in near if y // 9 == r and y % 9 // 3 != q // 3]
        cols = [y for y in near if y % 9 == q and y // 27 != r // 3]
        blk = [y for y in near if y // 9 != r and y % 9 != q]
        pend = [(c, g), ([rows, cols, blk][kinds % 3][(c + v) % 4], g2)]
        if kinds >= 9:
            pend += [(y, k + 1) for y, k in zip([y for y in far if y not in x][v % 7::11], ks)]
    # the pending entries are part of any solution, the pending eliminations of none
    cells = sorted(set(x) | {y for y, _ in pend})
    place0 = product(cells, ks, lambda y, k: 1, lambda y, k, c2, k2: k != k2 or c2 not in NB[y])

    def bit(y, k):
        r = b.get((y, k), 0) if y in x else 1
        for p, d in pend:
            if p == y:
                r = dd.b_and(r, eqc(d, k + 1))
        for p, d in pelim:
            if p == y:
                r = dd.b_and(r, nand(eqc(d, k + 1)))
        return r
    place = product(cells, range(9), bit, lambda y, k, c2, k2: k != k2 or c2 not in NB[y])

    def sat(fix=()):
        r = place(fix)
        for y, k in dict(fix).items():
            if y not in cells:
                r = dd.b_and(r, bit(y, k))
        return r
    name = "pending entries %s, eliminations %s" % ([y for y, _ in pend], [y for y, _ in pelim])
    for m in ((0, 1), (1, 1), (1, 0)):
        step(ctx, P, L, "update", SS + "::_update_cell_poss_house_solved", list(m), w, pc, sat, name, pend=pend, pelim=pelim)
    step(ctx, P, L, "update-positions", SS + "::update_house_poss_positions", [], w, pc, sat, name, pend=pend, pelim=pelim, worked=0)


def strategies(P, names):
    xs = []
    for n in names:
        v = variant_index(P, ST, n)
        xs.append(En(v, {v: ()}))
    return Ptr(("T", 0), (("i", 0),), len(xs)), {("T", 0): tuple(xs)}


def solve(ctx, P, L, key, names, w, pc, sat, name, pend=(), pelim=(), want=None, **kw):
    """StrategySolver::solve from the window's state"""
    FN = SS + "::solve"
    S, mem = w.state(L, pend=pend, pelim=pelim, **kw)
    arg, more = strategies(P, names)
    mem.update(more)
    n0, l0 = S[L.deduced_entries][1], S[L.eliminated_entries][1]
    anc = ctx.anchor(P, FN)
    rs, it = ctx.analyse(key, FN, [S, arg], mem=mem, pc=pc)
    if rs is None:
        return None
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    given = {}
    for c, d in list(pend) + [(c, g) for c, g in enumerate(w.grid) if g]:
        pairs(given, 1, c, d)
    for st, r in rs:
        if sat is None:
            break
        def holds(k2, cond, what):
            ctx.holds(key + "/" + k2, cond, st.pc, anc, what=name + ": " + what)
        try:
            outs = [(eqc(r.d, i), r.v[i]) for i in (0, 1) if i in r.v]
        except AttributeError:
            outs = []
        if not ctx.ob(key + "/shape", outs, repr(r)[:80], anc):
            continue
        for cond, p in outs:
            p = p[0]
            grid, dd3 = p[0], p[1]
            if grid.__class__ is tuple and len(grid) == 1:
                grid = grid[0]
            ent = dict(given)
            for cd, e in elems(it, st, dd3[L.d_ent], n0):
                pairs(ent, dd.b_and(cond, cd), e[L.cc], e[L.cd])
            for (c, d), cd in sorted(ent.items()):
                if (c, d) in given and given[c, d].__class__ is int:
                    continue
                for k in range(9):
                    if k != d - 1:
                        holds("entered", implies(dd.b_and(cd, nand(given.get((c, d), 0))), nand(sat({(c, k)}))), "digit %d entered in cell %d, %d is possible;" % (d, c, k + 1))
            gone = {}
            for cd, e in elems(it, st, dd3[L.d_eli], l0):
                pairs(gone, dd.b_and(cond, cd), e[L.cc], e[L.cd])
            for (c, d), cd in sorted(gone.items()):
                holds("eliminated", implies(cd, nand(sat({(c, d - 1)}))), "digit %d ruled out in cell %d;" % (d, c))
            for c in range(81):
                g = grid[c]
                if g.__class__ is int and g == w.grid[c]:
                    continue
                for k in range(9):
                    holds("grid", implies(dd.b_and(cond, eqc(g, k + 1)), ent.get((c, k + 1), 0)), "digit %d appears in cell %d;" % (k + 1, c))
                holds("grid", implies(dd.b_and(cond, disj([ent.get((c, k + 1), 0) for k in range(9)])), nand(eqc(g, 0))), "cell %d stays empty;" % c)
        if 0 in r.v:
            ok = eqc(r.d, 0)
            g = r.v[0][0][0]
            if g.__class__ is tuple and len(g) == 1:
                g = g[0]
            for c in range(81):
                if g[c].__class__ is int and g[c] and g[c] == w.grid[c]:
                    continue
                holds("solved", implies(ok, nand(eqc(g[c], 0))), "reported as solved with cell %d empty;" % c)
                for x in sorted(NB[c]):
                    holds("solved", implies(ok, neq_t(g[c], g[x])), "reported as solved with cells %d and %d equal;" % (c, x))
        if want is not None:
            holds("complete", implies(want, eqc(r.d, 0)), "not solved;")
    return rs, it


def elems(it, st, v, n0):
    """[(condition, element)] of a vector from element n0 on"""
    n = pc_simpl(st.pc, v[1])
    top = max(dd.terminals(n)) if n.__class__ is Node else n
    return [(tab(n, lambda t, i=i: 1 if t > i else 0) if n.__class__ is Node else 1, it.load(st, it.ptr_offset(v[0][0], i, 1))) for i in range(n0, top)]


def solution(v):
    """a solved grid, differently arranged for each v"""
    g = [[(r * 3 + r // 3 + c) % 9 for c in range(9)] for r in range(9)]
    rot = lambda xs, n: xs[n % len(xs):] + xs[:n % len(xs)]
    rows = [r for b in rot([[0, 1, 2], [3, 4, 5], [6, 7, 8]], v) for r in rot(b, v // 3)]
    cols = [c for b in rot([[0, 1, 2], [3, 4, 5], [6, 7, 8]], v // 2) for c in rot(b, v // 5 + 1)]
    dig = rot(list(range(1, 10)), v * 2)
    g = [[dig[g[r][c]] for c in cols] for r in rows]
    if v % 2:
        g = [[g[c][r] for c in range(9)] for r in range(9)]
    return [x for r in g for x in r]


def ending(ctx, P, L, v, names):
    """a nearly solved grid with arbitrary candidates in the open cells"""
    ctx.reset()
    g = solution(v)
    # cells of two digits in two chutes, so that several candidates remain
    c0 = (v * 31) % 81
    a = g[c0]
    X = [c0]
    r0, q0 = divmod(c0, 9)
    for step_ in range(2 + v % 2):
        # same digit elsewhere / another digit of the row
        same = [c for c in range(81) if g[c] == a and c not in X and c not in NB[X[0]]]
        X.append(same[(v + step_) % len(same)])
        other = [c for c in NB[X[-1]] if c not in X and any(x in NB[c] for x in X[:-1])]
        X.append(sorted(other)[(v * 3 + step_) % len(other)])
    X = sorted(set(X))
    # some more entries are not worked in yet
    Z = [c for c in sorted(NB[X[0]]) if c not in X][v % 3::4][:1 if v % 2 else 5]
    grid = [0 if c in X or c in Z else g[c] for c in range(81)]
    free = {(c, k) for c in X for k in range(9) if all(grid[x] != k + 1 for x in NB[c])}
    b = {x: sym("e%d_%d" % x, (0, 1)) for x in free}
    def bit(c, k):
        return b.get((c, k), 0) if c in X else int(g[c] == k + 1)
    w = Window(bit, grid)
    place0 = product(X + Z, range(9), bit, lambda c, k, c2, k2: k != k2 or c2 not in NB[c])

    def sat(fix=()):
        f = dict(fix)
        if any(grid[c] not in (0, k + 1) for c, k in f.items()):
            return 0
        return place0({c: k for c, k in f.items() if not grid[c]})
    return solve(ctx, P, L, "ending", names, w, (), sat, "grid %d, open cells %s" % (v, X), pend=[(z, g[z]) for z in Z])
