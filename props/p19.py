"""P19: the strategy solver's view of the grid."""
from strat import *
from p18 import solution, pairs

ALSO = []
FLOOR = 3000
RULE = ("value-set dataflow over the MIR of the solver's public constructors and views: entries and candidates that go in come out; an open cell "
        "keeps every candidate no entry excludes, and loses the others unless the grid is contradictory; insertion fills the cell or reports a clash")
EXPLANATION = ("from_sudoku / from_grid_state / insert_candidate followed by to_sudoku / grid_state / cell_state are interpreted as one program on "
               "grids with several arbitrary cells (digit, empty, arbitrary candidates) in an otherwise empty, half filled or nearly solved grid; "
               "the resulting cell states are compared with the rules of sudoku.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "arbitrary content in up to four cells per analysis (positions and surroundings vary), the rest fixed"]
CS = "sudoku::board::CellState"


def run(ctx):
    P = ctx.prog()
    vd, vc = [variant_index(P, CS, v) for v in ("Digit", "Candidates")]
    C = "sudoku::board::Candidate"
    F = (vd, vc, vfield(P, C, None, "cell"), vfield(P, C, None, "digit"))
    deep = ctx.tier != "quick"
    ctx.parallel([lambda k, f=f, v=v: f(k, P, F, v) for f in (keep, state, restate, insert) for v in range(54 if deep else 18)])


def base(v):
    g = solution(v)
    m = v % 3
    if m == 0:
        return [0] * 81
    keep = [(c * 7 + v * 5 + c // 9) % 9 for c in range(81)]
    return [d if x < (4 if m == 1 else 8) else 0 for d, x in zip(g, keep)]


def sites(v, n):
    c = (v * 37) % 81
    nb = sorted(NB[c])
    out = [c, nb[(v * 3) % 20], nb[(v * 11 + 9) % 20], (c * 2 + 41 + v) % 81]
    out = list(dict.fromkeys(out))
    return out[:n]


def grid_with(v, n, doms=None):
    g = base(v)
    xs = sites(v, n)
    for i, c in enumerate(xs):
        g[c] = sym("c%d" % c, doms[i] if doms else range(10))
    return g, xs


def en(d, v):
    return En(d, v)


def keep(ctx, P, F, v):
    ctx.reset()
    n = 4
    g, xs = grid_with(v, n)
    other, _ = grid_with(v + 1, 1)
    for fn, args in (("keep", [tuple(g)]), ("keep_clues", [tuple(g), tuple(other)])):
        FN = "probe::strat::" + fn
        anc = ctx.anchor(P, FN)
        rs, it = ctx.analyse("grid", FN, args)
        if rs is None:
            continue
        ctx.ob("grid/total", len(rs) >= 1, "never returns", anc)
        for st, r in rs:
            ctx.same("grid/kept", r, tuple(g), st.pc, anc, what="cells %s of grid %d: " % (xs, v))


def rules(g, allowed):
    """(open, cand[c][k], fine) of a grid"""
    eq = [[eqc(x, k + 1) for k in range(9)] for x in g]
    opened = [eqc(x, 0) for x in g]
    cand = [[None] * 9 for _ in range(81)]
    clash = []
    for c in range(81):
        nb = sorted(NB[c])
        for k in range(9):
            seen = disj([eq[x][k] for x in nb])
            cand[c][k] = dd.b_and(allowed(c, k), nand(seen))
            clash.append(dd.b_and(eq[c][k], seen))
    fine = nand(disj(clash))
    for c in range(81):
        fine = dd.b_and(fine, implies(opened[c], disj(cand[c])))
    return opened, cand, fine


def compare(ctx, key, F, states, g, allowed, st, anc, name, fine=1, pre=1):
    vd, vc = F[:2]
    opened, cand, ok = rules(g, allowed)
    ok = dd.b_and(ok, fine)

    def holds(k2, cond, what):
        if cond.__class__ is int and cond:
            return ctx.ob(key + "/" + k2, True)
        ctx.holds(key + "/" + k2, implies(pre, cond), st.pc, anc, what=name + ": " + what)
    for c, s in enumerate(states):
        isd, isc = eqc(s.d, vd), eqc(s.d, vc)
        holds("kind", implies(nand(opened[c]), isd), "entry of cell %d shown as open;" % c)
        holds("kind", implies(opened[c], isc), "open cell %d shown as entered;" % c)
        if vd in s.v and not (isd.__class__ is int and not isd):
            holds("digit", implies(dd.b_and(isd, nand(opened[c])), nand(neq_t(s.v[vd][0], g[c]))), "wrong digit in cell %d;" % c)
        if vc in s.v and not (isc.__class__ is int and not isc):
            bs = dbits(s.v[vc][0])
            for k in range(9):
                on = dd.b_and(isc, opened[c])
                holds("candidate-kept", implies(dd.b_and(on, cand[c][k]), bs[k]), "candidate %d of cell %d is lost;" % (k + 1, c))
                holds("candidate-gone", implies(dd.b_and(dd.b_and(on, ok), nand(cand[c][k])), nand(bs[k])), "candidate %d of cell %d is still there;" % (k + 1, c))


def state(ctx, P, F, v):
    ctx.reset()
    g, xs = grid_with(v, 3)
    FN = "probe::strat::state_of"
    anc = ctx.anchor(P, FN)
    rs, it = ctx.analyse("state", FN, [tuple(g)])
    for st, r in rs or []:
        compare(ctx, "state", F, r, g, lambda c, k: 1, st, anc, "cells %s of grid %d" % (xs, v))


def restate(ctx, P, F, v):
    """cells with arbitrary candidates next to arbitrary entries"""
    ctx.reset()
    vd, vc = F[:2]
    g, xs = grid_with(v, 2, [range(10), (0, v % 9 + 1)])
    ys = [c for c in sites(v + 40, 4) if c not in xs][:2]
    bits_ = {}
    for i, y in enumerate(ys):
        g[y] = 0
        for k in range(9):
            bits_[y, k] = sym("a%d_%d" % (y, k), (0, 1)) if (k + i + v) % 9 < 4 else (k + v) % 2
    allowed = lambda c, k: bits_.get((c, k), 1)
    full = dset([1] * 9)
    cells = []
    for c in range(81):
        cs = dset([bits_.get((c, k), 1) for k in range(9)]) if c in ys else full
        z = g[c]
        if z.__class__ is Node:
            d = tab(z, lambda t: vc if t == 0 else vd)
            cells.append(En(d, {vd: (tab(z, lambda t: t or 1),), vc: (cs,)}))
        elif z:
            cells.append(En(vd, {vd: (z,)}))
        else:
            cells.append(En(vc, {vc: (cs,)}))
    pc = pc_and((), conj([disj([bits_[y, k] for k in range(9)]) for y in ys]))
    cell = ys[0] if v % 2 else xs[0]
    for fn, args in (("keep_state", []), ("restate", []), ("cell_of", [cell])):
        FN = "probe::strat::" + fn
        anc = ctx.anchor(P, FN)
        rs, it = ctx.analyse("restate", FN, [tuple(cells)] + args, pc=pc)
        name = "entries %s, candidates %s of grid %d" % (xs, ys, v)
        for st, r in rs or []:
            if fn == "keep_state":
                ctx.same("restate/grid", r, tuple(g), st.pc, anc, what=name)
                continue
            if fn == "cell_of":
                one, r = r
                r = tuple(one if c == cell else x for c, x in enumerate(r))
                name += ", cell_state(%d)" % cell
            compare(ctx, "restate", F, r, g, allowed, st, anc, name)


def insert(ctx, P, F, v):
    ctx.reset()
    g, xs = grid_with(v, 2)
    c = xs[v % 2]
    d = sym("d", range(1, 10))
    cd = [0, 0]
    cd[F[2]], cd[F[3]] = c, d
    cd = tuple(cd)
    x = sites(v + 9, 3)[1]
    free = dd.b_or(eqc(g[c], 0), nand(neq_t(g[c], d)))
    after = list(g)
    after[c] = tab2(lambda a, b: b if a == 0 else a, g[c], d)
    name = "digit d into cell %d; cells %s of grid %d" % (c, xs, v)
    for fn, args in (("insert", [cd]), ("insert_state", [cd]), ("insert_late", [x, cd])):
        FN = "probe::strat::" + fn
        anc = ctx.anchor(P, FN)
        rs, it = ctx.analyse("insert", FN, [tuple(g)] + args)
        for st, r in rs or []:
            if fn != "insert_state":
                ok, r = r
                ctx.holds("insert/result", nand(neq_t(ok, free)), st.pc, anc, what=name + ": reports the wrong outcome;")
            if fn == "insert":
                ctx.same("insert/grid", r, tuple(after), st.pc, anc, what=name + ": ")
            else:
                compare(ctx, "insert", F, r, after, lambda c, k: 1, st, anc, name)
