"""P09: puzzles derived from a grid only lose clues, in whole symmetry orbits, and stay uniquely solvable."""
import os, random
import dd
from ai import *
from plib import *
from rngmodel import Rng, Oracle

ALSO = ["rel"]
FLOOR = 300
RULE = ("value-set dataflow over the MIR of the puzzle generator with a symbolic grid, the uniqueness question answered by a fresh symbol each "
        "time: result = input if the input is not unique, otherwise the last grid answered unique; only clues lost, whole orbits, every "
        "remaining orbit was refused; random numbers only from the given generator")
EXPLANATION = ("For each of the ten symmetries the generator is interpreted on an arbitrary grid (81 symbols) and arbitrary answers to its "
               "uniqueness questions, for several visiting orders (identity, reversed, arbitrary transposition as a symbol, seeded orders).")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "the answers of the uniqueness query are exact (property of the solver)",
               "the visiting order is a permutation produced by rand's shuffle; orders are covered by the listed families, not all 81!"]


def orbits():
    def gen(fs):
        out = []
        for c in range(81):
            seen, todo = {c}, [c]
            while todo:
                x = todo.pop()
                for f in fs:
                    r, k = f(*divmod(x, 9))
                    y = r * 9 + k
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            out.append(frozenset(seen))
        return out
    V = lambda r, c: (r, 8 - c)
    H = lambda r, c: (8 - r, c)
    D = lambda r, c: (c, r)
    A = lambda r, c: (8 - c, 8 - r)
    Q = lambda r, c: (c, 8 - r)
    R = lambda r, c: (8 - r, 8 - c)
    return {"None": gen([]), "VerticalMirror": gen([V]), "HorizontalMirror": gen([H]), "VerticalAndHorizontalMirror": gen([V, H]),
            "DiagonalMirror": gen([D]), "AntidiagonalMirror": gen([A]), "BidiagonalMirror": gen([D, A]), "QuarterRotation": gen([Q]),
            "HalfRotation": gen([R]), "Dihedral": gen([V, H, D])}


def order_policy(name, seed):
    """draws of a Fisher-Yates shuffle; only the values matter to the checks, any permutation is legal"""
    if name == "identity":
        return lambda k, lo, hi: hi - 1
    if name == "rotated":
        return lambda k, lo, hi: lo
    if name == "transposed":
        return lambda k, lo, hi: None if k == 0 else hi - 1
    r = random.Random("%s/%s" % (name, seed))
    return lambda k, lo, hi: r.randrange(lo, hi)


def run(ctx):
    P = ctx.prog()
    ORB = orbits()
    names = sorted(ORB)
    idx = {n: variant_index(P, "sudoku::Symmetry", n) for n in names}
    seed = int(os.environ.get("VERIF_SEED", "1"))
    orders = ["identity", "transposed"] if ctx.tier == "quick" else ["identity", "rotated", "transposed"] + ["seeded%d" % i for i in range(6)]

    def case(fn, args, symm, order, solved=False, own=True):
        """own: random numbers must come from the generator argument"""
        def go(ctx):
            ctx.reset()
            box = {}
            g = symgrid(1 if solved else 0, 10)

            def setup(it):
                box["rng"] = Rng(it, order_policy(order, seed))
                box["or"] = Oracle(it)
                if solved:
                    def full(it, st, o, a, at, dt):
                        box["src"] = box.get("src", []) + [box["rng"].source(st, a[0]) if a else None]
                        return [(st, g)]
                    for d in ("sudoku::Sudoku::generate_solved", "sudoku::Sudoku::generate_solved_with_rng",
                              "sudoku::generator::SudokuGenerator::generate_solved"):
                        it.models[d] = full
            key = "%s/%s/%s" % (fn, symm, order)
            n = len(ctx.obs)
            rs, it = ctx.analyse(key, "probe::gen::" + fn, args(g, idx[symm]), mem={("R", 0): (0,)}, setup=setup,
                                 budget=400000 if order == "transposed" else 3000000)
            anc = ctx.anchor(P, "probe::gen::" + fn)
            if rs is None:
                if order == "transposed":
                    del ctx.obs[n:]
                return
            try:
                with dd.budget(400000 if order == "transposed" else 3000000):
                    check(ctx, key, rs, it, g, box, ORB[symm], anc, own, solved)
            except dd.TooBig:
                if order == "transposed":
                    del ctx.obs[n:]     # the symbolic order is an extra over the fixed orders; they decide
                else:
                    ctx.ob(key + "/decided", False, "the obligations are too large to decide", anc)
        return go
    R = Ptr(("R", 0), ())
    jobs = []
    for s in names:
        for o in orders:
            jobs.append(case("from_with", lambda g, y: [g, En(y, {}), R], s, o))
    for s in names:
        jobs.append(case("generate_with_symmetry_from", lambda g, y: [g, En(y, {})], s, "rotated", own=False))
        jobs.append(case("generate_with_symmetry", lambda g, y: [En(y, {})], s, "identity", solved=True, own=False))
    jobs.append(case("generate_from", lambda g, y: [g], "None", "identity", own=False))
    jobs.append(case("generate", lambda g, y: [], "HalfRotation", "identity", solved=True, own=False))
    ctx.parallel(jobs)


def filled(x):
    return dd.map1("filled", lambda v: 1 if v else 0, x)


def same_t(a, b):
    return dd.map2("same_t", lambda x, y: 1 if x == y else 0, a, b)


def check(ctx, key, rs, it, g, box, orb, anc, own, solved):
    pc, F = combine(rs)
    if not ctx.ob(key + "/shape", F.__class__ is tuple and len(F) == 81, repr(F)[:200], anc):
        return
    q = box["or"].q
    rng = box["rng"]
    # random numbers
    if own:
        ctx.ob(key + "/rng", rng.threads == 0 and all(d[0] == ("R", 0) for d in rng.draws) and rng.draws,
               "random numbers are not all drawn from the given generator: %s" % sorted({str(d[0]) for d in rng.draws}), anc)
    # the input itself was asked about, unconditionally
    u0 = [a for qc, G, a in q if not qc and all(x is y for x, y in zip(G, g))]
    if not ctx.ob(key + "/asks-input", bool(u0), "the input grid's uniqueness is not established", anc):
        return
    u0 = u0[0]
    # the result is the input, or the last grid answered unique
    L = list(g)
    for qc, G, a in q:
        c = conj(qc)
        c = dd.b_and(c, a) if c.__class__ is Node or c else 0
        for i in range(81):
            if G[i] is not L[i]:
                L[i] = dd.ite(c, G[i], L[i])
    for i in range(81):
        ctx.same(key + "/certified", F[i], L[i], pc, anc)
        ctx.same(key + "/untouched", dd.ite(u0, 0, F[i]), dd.ite(u0, 0, g[i]), pc, anc)
        ctx.holds(key + "/only-clues-lost", dd.b_or(dd.b_not(filled(F[i])), same_t(F[i], g[i])), pc, anc)
    done = set()
    for c in range(81):
        if orb[c] in done:
            continue
        done.add(orb[c])
        o = sorted(orb[c])
        # whole orbits
        for d in o[1:]:
            both = dd.b_and(filled(g[c]), filled(g[d]))
            ctx.holds(key + "/orbit", dd.b_or(dd.b_not(both), dd.b_not(dd.b_xor(filled(F[c]), filled(F[d])))), pc, anc,
                      what="cells %d and %d of one orbit treated alike" % (c, d))
        # what remains was refused: one question, asked without this orbit and with at least the other remaining clues
        if "transposed" in key:
            continue
        want = dd.b_and(u0, disj([filled(F[x]) for x in o]))

        def implies(w, c):
            if c.__class__ is not Node:
                return bool(c) or w == 0
            n = dd.b_and(w, dd.b_not(c))
            return n.__class__ is not Node and not n

        def shown(w, qc, G, a):
            return implies(w, dd.b_not(a)) and all(implies(w, dd.b_not(filled(G[x]))) for x in o) and all(implies(w, p) for p in qc) and \
                all(G[x] is F[x] or implies(w, dd.b_or(dd.b_not(filled(F[x])), same_t(G[x], F[x]))) for x in range(81) if x not in orb[c])
        ok = (want.__class__ is not Node and not want) or any(shown(want, qc, G, a) for qc, G, a in q)
        ctx.ob(key + "/minimal", ok, "no refused question shows that the kept orbit {%s} is indispensable" % ",".join(map(str, o)), anc)
