"""P20: the deductions the strategy solver reports."""
from strat import *
import p18

ALSO = []
DEEP = ["rel"]
FLOOR = 2000
RULE = ("value-set dataflow over the MIR of solve() and of the accessors of its result: every deduction reported belongs to a strategy that was asked for, its pattern "
        "is present among the candidates, it rules out at least one candidate, the candidates it lists are those the pattern rules out, and all deductions "
        "together account for every candidate ruled out, each once; the accessors return exactly what was recorded")
EXPLANATION = ("solve() is interpreted with one elimination strategy (and combinations) on states whose window has arbitrary candidates; each record in the result is "
               "compared with the candidates as they were before it. Deductions::get, iter, len, is_empty and Deduction::strategy are interpreted on records of every kind.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "windows of up to 16 arbitrary candidate bits; the other cells open"]
SIZES = {"NakedPairs": 2, "NakedTriples": 3, "NakedQuads": 4, "HiddenPairs": 2, "HiddenTriples": 3, "HiddenQuads": 4, "XWing": 2, "Swordfish": 3, "Jellyfish": 4}
MINI = [list(range(3 * m, 3 * m + 3)) for m in range(27)] + [[m % 3 * 27 + m // 3 + 9 * i for i in range(3)] for m in range(27)]


class VL:
    """field numbers of the records"""

    def __init__(self, P):
        self.P = P
        self.v = {}
        self.f = {}
        for n, fs in (("NakedSingles", ()), ("HiddenSingles", ()), ("LockedCandidates", ("digit", "miniline", "is_pointing", "conflicts")),
                      ("Subsets", ("house", "positions", "digits", "conflicts")), ("BasicFish", ("digit", "lines", "positions", "conflicts")),
                      ("Fish", ("digit", "base", "cover", "conflicts")), ("Wing", ("hinge", "hinge_digits", "pincers", "conflicts")),
                      ("AvoidableRectangle", ("lines", "conflicts"))):
            self.v[n] = variant_index(P, DE, n)
            self.f[n] = {f: vfield(P, DE, n, f) for f in fs}
        self.name = {v: k for k, v in self.v.items()}


def run(ctx):
    P = ctx.prog()
    L = SL(P)
    V = VL(P)
    deep = ctx.tier != "quick"
    jobs = []
    for n in SIZES:
        for v in range(8 if deep else 3):
            jobs.append(lambda k, n=n, v=v: pattern(k, P, L, V, n, v))
    for n in ("LockedCandidates", "XyWing", "XyzWing"):
        for v in range(24 if deep else 10):
            jobs.append(lambda k, n=n, v=v: pattern(k, P, L, V, n, v))
    for v in range(6 if deep else 3):
        jobs.append(lambda k, v=v: singles(k, P, L, V, v))
    jobs.append(lambda k: access(k, P, L, V))
    jobs.append(lambda k: names(k, P, L, V))
    ctx.parallel(jobs)


def pattern(ctx, P, L, V, n, v):
    """a window in which the strategy may apply, perhaps more than once"""
    ctx.reset()
    size = SIZES.get(n)
    if n.startswith("Naked") or n.startswith("Hidden"):
        hid = n.startswith("Hidden")
        h = (v * 10 + size * 3 + hid) % 27
        m = size + 1 if size < 4 else 5
        cells = [HOUSES[h][(h + v + i * 2) % 9] for i in range(m)]
        digs = sorted((h * 4 + i * 5) % 9 for i in range(m))
        b = {}
        for i, c in enumerate(cells):
            for j, k in enumerate(digs):
                skip = size == 4 and (i + j) % 5 in (1, 2, 3) or size == 3 and (i - j) % 4 == 2
                b[c, k] = 0 if skip else sym("p%d_%d" % (c, k), (0, 1))
        H = set(HOUSES[h])
        if hid:
            bit = lambda c, k: (b[c, k] if k in digs else 1) if c in cells else 0 if c in H and k in digs else 1
            pc = pc_and((), conj([disj([b[c, k] for c in cells]) for k in digs]))
        else:
            bit = lambda c, k: (b[c, k] if k in digs else 0) if c in cells else 1
            pc = pc_and((), conj([disj([b[c, k] for k in digs]) for c in cells]))
    elif size:
        d = (v * 4 + size) % 9
        t = v % 2
        m = size + 1 if size < 4 else 5
        lines = sorted(9 * t + (d + i * 2) % 9 for i in range(m))
        cross = sorted((d + v + i * 4) % 9 for i in range(m))
        b = {}
        for i, l in enumerate(lines):
            for j, x in enumerate(cross):
                if not (size == 4 and (i + j) % 5 in (1, 2, 3) or size == 3 and (i - j) % 4 == 2):
                    b[HOUSES[l][x]] = sym("f%d" % HOUSES[l][x], (0, 1))
        inl = {c for l in lines for c in HOUSES[l]}
        bit = lambda c, k: b.get(c, 0) if k == d and c in inl else 1
        pc = pc_and((), conj([disj([b[c] for c in HOUSES[l] if c in b]) for l in lines]))
    elif n == "LockedCandidates":
        d = (v * 2) % 9
        lines = [(v % 6 // 3) * 9 + (v % 3) * 3 + i for i in range(3)]
        b = {}
        for i, l in enumerate(lines):
            for j in range(3):
                b[HOUSES[l][j * 3 + (i + j + v) % 3]] = sym("l%d_%d" % (l, j), (0, 1))
        inl = {c for l in lines for c in HOUSES[l]}
        bit = lambda c, k: b.get(c, 0) if k == d and c in inl else 1
        pc = ()
    else:
        hinge = (v * 23 + 10) % 81
        nb = sorted(NB[hinge])
        row = [c for c in nb if c // 9 == hinge // 9]
        col = [c for c in nb if c % 9 == hinge % 9]
        blk = [c for c in nb if c not in row and c not in col]
        rf, cf = [c for c in row if not any(c in HOUSES[o] and hinge in HOUSES[o] for o in range(18, 27))], [c for c in col if not any(c in HOUSES[o] and hinge in HOUSES[o] for o in range(18, 27))]
        A, B = [(blk, rf), (blk, cf), (rf, cf)][v % (3 if n == "XyWing" else 2)]
        cells = [hinge, A[v % len(A)], B[(v * 3) % len(B)]]
        digs = sorted((hinge + v + j * 2) % 9 for j in range(4))
        b = {(c, k): sym("w%d_%d" % (c, k), (0, 1)) for c in cells for k in digs}
        bit = lambda c, k: b.get((c, k), 0) if c in cells else 1
        pc = pc_and((), conj([disj([b[c, k] for k in digs]) for c in cells]))
    w = Window(bit)
    report(ctx, P, L, V, n, [n], w, pc, "%s, window %d" % (n, v))


def report(ctx, P, L, V, key, names, w, pc, name):
    r = p18.solve(ctx, P, L, key, names, w, pc, None, name)
    if r is None:
        return
    rs, it = r
    anc = ctx.anchor(P, SS + "::solve")
    for st, r in rs:
        for i in r.v:
            out = eqc(r.d, i)
            if out.__class__ is int and not out:
                continue
            records(ctx, P, L, V, it, st, key, out, r.v[i][0][1], w, names, anc, name)


def records(ctx, P, L, V, it, st, key, out, ded, w, names, anc, name):
    def holds(k2, cond, what):
        if cond.__class__ is int and cond:
            return ctx.ob(key + "/" + k2, True)
        ctx.holds(key + "/" + k2, cond, st.pc, anc, what=name + ": " + what)
    els = p18.elems(it, st, ded[L.d_eli], 0)
    ents = {}
    for cd, e in p18.elems(it, st, ded[L.d_ent], 0):
        p18.pairs(ents, dd.b_and(out, cd), e[L.cc], e[L.cd])
    now = {(c, k): w.bit[c][k] for c in range(81) for k in range(9)}
    end = 0
    used = set()
    recs = p18.elems(it, st, ded[L.d_ded], 0)
    for i, (cd, e) in enumerate(recs):
        after = {}
        if not ctx.ob(key + "/shape", e.__class__ is En, repr(e)[:80], anc):
            return
        nend = end
        for vi, f in sorted(e.v.items()):
            on = conj([out, cd, eqc(e.d, vi)])
            if on.__class__ is int and not on:
                continue
            n = V.name.get(vi, "?")
            used.add(n)
            F = {k: f[j] for k, j in V.f.get(n, {}).items()}
            imp = lambda k2, cond, what: holds(k2, implies(on, cond), "deduction %d (%s): %s" % (i, n, what))
            if n in ("NakedSingles", "HiddenSingles"):
                imp("asked", int(n in names), "was not asked for;")
                one = {}
                p18.pairs(one, on, f[0][L.cc], f[0][L.cd])
                for x, c1 in one.items():
                    holds("single", implies(c1, ents.get(x, 0)), "deduction %d reports %s, which was not entered;" % (i, x))
                continue
            if not imp_known(ctx, key, n, names, anc, name):
                imp("asked", 0, "was not asked for;")
                continue
            a, z = F["conflicts"]
            imp("range", dd_eq(a, end), "does not follow the candidates listed before;")
            imp("range", tab2(lambda x, y: 1 if x < y else 0, a, z), "lists no candidate;")
            nend = z if on.__class__ is int else s_ite(on, z, nend)
            mine = {}
            for j, (cj, ej) in enumerate(els):
                inr = conj([on, cj, tab2(lambda x, y: 1 if x <= j < y else 0, a, z)])
                if inr.__class__ is int and not inr:
                    continue
                p18.pairs(mine, inr, ej[L.cc], ej[L.cd])
            for (c, d), cj in mine.items():
                holds("possible", implies(cj, w.bit[c][d - 1]), "deduction %d lists candidate %d of cell %d, which was no candidate;" % (i, d, c))
                after[c, d - 1] = dd.b_or(after.get((c, d - 1), 0), cj)
            CHECK[n](imp, L, F, on, now, mine, names)
        end = nend
        for x, cj in after.items():
            now[x] = dd.b_and(now[x], nand(cj))
    n = pc_simpl(st.pc, ded[L.d_eli][1])
    holds("all-listed", implies(out, dd_eq(n, end)), "candidates ruled out that no deduction lists;")


dd_eq = p18.dd_eq
KIND = {"LockedCandidates": ("LockedCandidates",), "Subsets": tuple(n for n in SIZES if n[0] in "NH"), "BasicFish": ("XWing", "Swordfish", "Jellyfish"),
        "Wing": ("XyWing", "XyzWing")}


def imp_known(ctx, key, n, names, anc, name):
    return any(x in names for x in KIND.get(n, ()))


def values(x):
    return sorted(dd.terminals(x)) if x.__class__ is Node else [x]


def sizeof(bs):
    return count_true(bs)


def subsets(imp, L, F, on, now, mine, names):
    pb, db = to_bits(F["positions"], 16)[:9], dbits(F["digits"])
    np_, nd_ = sizeof(pb), sizeof(db)
    imp("size", dd_eq(np_, nd_), "not as many digits as positions;")
    for h in values(F["house"]):
        ch = eqc(F["house"], h)
        H = HOUSES[h]
        nk, hd = [], []
        for p, c in enumerate(H):
            for k in range(9):
                nk.append(implies(dd.b_and(pb[p], now[c, k]), db[k]))
                hd.append(implies(dd.b_and(db[k], now[c, k]), pb[p]))
        cn, chd = [], []
        for (c, d), cj in mine.items():
            if c not in H:
                imp("house", implies(dd.b_and(ch, cj), 0), "rules out a candidate outside its house;")
                continue
            p = H.index(c)
            cn.append(implies(cj, dd.b_and(nand(pb[p]), db[d - 1])))
            chd.append(implies(cj, dd.b_and(pb[p], nand(db[d - 1]))))
        okn = disj([tab(np_, lambda t, s=SIZES[x]: 1 if t == s else 0) for x in names if x.startswith("Naked") and x in SIZES])
        okh = disj([tab(np_, lambda t, s=SIZES[x]: 1 if t == s else 0) for x in names if x.startswith("Hidden") and x in SIZES])
        A, B = conj(nk + cn + [okn]), conj(hd + chd + [okh])
        imp("pattern", implies(ch, dd.b_or(A, B)), "the subset in house %d is not there, or lists other candidates;" % h)


def fish(imp, L, F, on, now, mine, names):
    lb, pb = to_bits(F["lines"], 32)[:18], to_bits(F["positions"], 16)[:9]
    n = sizeof(lb)
    imp("size", dd_eq(n, sizeof(pb)), "not as many lines as positions;")
    imp("size", disj([tab(n, lambda t, s=SIZES[x]: 1 if t == s else 0) for x in names if x in KIND["BasicFish"]]), "wrong number of lines;")
    rows, cols = disj(lb[:9]), disj(lb[9:])
    imp("lines", nand(dd.b_and(rows, cols)), "rows and columns mixed;")
    for d in values(F["digit"]):
        c1 = eqc(F["digit"], d)
        ok = [implies(conj([lb[l], now[c, d - 1]]), pb[p]) for l in range(18) for p, c in enumerate(HOUSES[l])]
        imp("pattern", implies(c1, conj(ok)), "a base line has another place for digit %d;" % d)
        for (c, x), cj in mine.items():
            r, q = divmod(c, 9)
            good = disj([conj([rows, nand(lb[r]), pb[q]]), conj([cols, nand(lb[9 + q]), pb[r]])]) if x == d else 0
            imp("conflict", implies(dd.b_and(c1, cj), good), "lists digit %d of cell %d, which the fish does not rule out;" % (x, c))


def locked(imp, L, F, on, now, mine, names):
    for m in values(F["miniline"]):
        for d in values(F["digit"]):
            cm = dd.b_and(eqc(F["miniline"], m), eqc(F["digit"], d))
            M = MINI[m]
            line = [c for c in HOUSES[[o for o in range(18) if all(c in HOUSES[o] for c in M)][0]] if c not in M]
            blk = [c for c in HOUSES[[o for o in range(18, 27) if M[0] in HOUSES[o]][0]] if c not in M]
            for point, clear, hit in ((1, blk, line), (0, line, blk)):
                c2 = dd.b_and(cm, eqc(F["is_pointing"], point))
                if c2.__class__ is int and not c2:
                    continue
                imp("pattern", implies(c2, conj([nand(now[c, d - 1]) for c in clear])), "digit %d is not locked in miniline %d;" % (d, m))
                for (c, x), cj in mine.items():
                    imp("conflict", implies(dd.b_and(c2, cj), int(x == d and c in hit)), "lists digit %d of cell %d, which the pair does not rule out;" % (x, c))


def wing(imp, L, F, on, now, mine, names):
    hb = dbits(F["hinge_digits"])
    p = F["pincers"]
    pb = to_bits(p, 128)[:81]
    n = sizeof(hb)
    imp("size", disj([tab(n, lambda t, s=s: 1 if t == s else 0) for x, s in (("XyWing", 2), ("XyzWing", 3)) if x in names]), "wrong number of digits in the hinge;")
    imp("size", dd_eq(sizeof(pb), 2), "not two pincers;")
    xyz = tab(n, lambda t: 1 if t == 3 else 0)
    for h in values(F["hinge"]):
        ch = eqc(F["hinge"], h)
        imp("pattern", implies(ch, conj([implies(now[h, k], hb[k]) for k in range(9)])), "the hinge has other candidates;")
        for c in range(81):
            if pb[c].__class__ is int and not pb[c]:
                continue
            imp("pattern", implies(dd.b_and(ch, pb[c]), int(c in NB[h])), "pincer %d does not see hinge %d;" % (c, h))
        for (c, x), cj in mine.items():
            sees = conj([nand(pb[y]) for y in range(81) if y not in NB[c]] + ([] if c in NB[h] else [nand(xyz)]))
            imp("conflict", implies(dd.b_and(ch, cj), sees), "lists cell %d, which does not see the wing;" % c)
            common = conj([implies(pb[y], now[y, x - 1]) for y in range(81)])
            imp("conflict", implies(dd.b_and(ch, cj), common), "lists digit %d, which is not common to the pincers;" % x)


CHECK = {"Subsets": subsets, "BasicFish": fish, "LockedCandidates": locked, "Wing": wing}


def singles(ctx, P, L, V, v):
    """singles are reported once each, in the order entered"""
    for names in (["HiddenSingles"], ["HiddenSingles", "NakedSingles"], ["NakedSingles"])[v % 3:v % 3 + 1]:
        ctx.reset()
        r = p18.ending(ctx, P, L, v, names)
        if r is None:
            continue
        rs, it = r
        anc = ctx.anchor(P, SS + "::solve")
        for st, r in rs:
            for i in r.v:
                out = eqc(r.d, i)
                if out.__class__ is int and not out:
                    continue
                w = Window(lambda c, k: 1)
                records(ctx, P, L, V, it, st, "singles", out, r.v[i][0][1], w, names, anc, "end game %d" % v)


def rec(V, n, **f):
    v = V.v[n]
    out = [0] * len(V.f[n])
    for k, x in f.items():
        out[V.f[n][k]] = x
    return En(v, {v: tuple(out)})


def boxed(base, items, cap=16):
    return ((Ptr(base, (("i", 0),)), cap, ()), len(items)), tuple(items) + (UNINIT,) * (cap - len(items))


def access(ctx, P, L, V):
    """get, iter, len, is_empty on records with arbitrary content"""
    for turn in range(2):
        ctx.reset()
        a, b, c = ((0, 3, 5), (2, 4, 7))[turn]
        s9 = dset([sym("s%d" % i, (0, 1)) for i in range(3)] + [0] * 6)
        cand = L.cand(sym("cell", (0, 40, 80)), sym("digit", (1, 9)))
        if turn == 0:
            rs_ = [rec(V, "LockedCandidates", digit=sym("ld", (1, 5)), miniline=sym("lm", (0, 53)), is_pointing=sym("lp", (0, 1)), conflicts=(a, b)),
                   rec(V, "Subsets", house=sym("h", (0, 26)), positions=s9, digits=dset([0, 0, 0, 1, 0, 0, 0, 0, sym("t", (0, 1))]), conflicts=(b, c)),
                   En(V.v["NakedSingles"], {V.v["NakedSingles"]: (cand,)})]
        else:
            rs_ = [rec(V, "BasicFish", digit=sym("ld", (1, 5)), lines=3, positions=s9, conflicts=(a, b)),
                   rec(V, "Wing", hinge=sym("h", (0, 26)), hinge_digits=s9, pincers=5, conflicts=(b, c)),
                   rec(V, "Fish", digit=3, base=7, cover=56, conflicts=(a, c))]
        elim = [L.cand(10 + i, i % 9 + 1) for i in range(7)]
        mem = {}
        D = [None] * 3
        D[L.d_ded], mem[BD] = boxed(BD, rs_)
        D[L.d_ent], mem[BE] = boxed(BE, [])
        D[L.d_eli], mem[BL] = boxed(BL, elim)
        mem["D", 0] = tuple(D)
        d = Ptr(("D", 0), ())

        def compare(key, st, got, i, it, anc):
            want = rs_[i]
            vi = want.d
            if not ctx.ob(key + "/variant", got.__class__ is En and (vi in got.v), "record %d: %r" % (i, got)[:90], anc):
                return
            ctx.same(key + "/variant", got.d, vi, st.pc, anc)
            n = V.name[vi]
            k = V.f[n].get("conflicts")
            for j, (x, y) in enumerate(zip(got.v[vi], want.v[vi])):
                if j != k:
                    ctx.same(key + "/field", x, y, st.pc, anc, what="record %d, field %d: " % (i, j))
                    continue
                ctx.same(key + "/slice", x.meta, y[1] - y[0], st.pc, anc, what="record %d, number of candidates: " % i)
                for t in range(y[1] - y[0]):
                    ctx.same(key + "/slice", it.load(st, it.ptr_offset(x, t, 1)), elim[y[0] + t], st.pc, anc, what="record %d, candidate %d: " % (i, t))
        for FN, args, want in (("ded_len", [d], 3), ("ded_is_empty", [d], 0)):
            rs, it = ctx.analyse("access", "probe::strat::" + FN, args, mem=mem)
            for st, r in rs or []:
                ctx.same("access/" + FN, r, want, st.pc, ctx.anchor(P, "probe::strat::" + FN))
        FN = "probe::strat::ded_get"
        anc = ctx.anchor(P, FN)
        for i in list(range(5)) + [(1 << 64) - 1, 1 << 32]:
            rs, it = ctx.analyse("get", FN, [d, i], mem=mem)
            for st, r in rs or []:
                if i >= 3:
                    ctx.same("get/none", r.d, 0, st.pc, anc, what="index %d: " % i)
                elif ctx.ob("get/some", 1 in r.v, repr(r)[:60], anc):
                    ctx.same("get/some", r.d, 1, st.pc, anc, what="index %d: " % i)
                    compare("get", st, r.v[1][0], i, it, anc)
        # an iterator yields all of them in order, then nothing
        anc = ctx.anchor(P, "probe::strat::ded_iter")
        rs, it = ctx.analyse("iter", "probe::strat::ded_iter", [d], mem=mem)
        for st, r in rs or []:
            states = [(st, r)]
            for i in range(4):
                nxt = []
                for st1, itv in states:
                    m = dict(st1.m)
                    m["I", 0] = itv
                    rs2, it2 = ctx.analyse("iter", "probe::strat::ded_next", [Ptr(("I", 0), ())], mem=m, pc=st1.pc)
                    for st2, r2 in rs2 or []:
                        if i == 3:
                            ctx.same("iter/end", r2.d, 0, st2.pc, anc)
                        elif ctx.ob("iter/some", 1 in r2.v, repr(r2)[:60], anc):
                            ctx.same("iter/some", r2.d, 1, st2.pc, anc, what="element %d: " % i)
                            compare("iter", st2, r2.v[1][0], i, it2, anc)
                        nxt.append((st2, st2.m["I", 0]))
                states = nxt


def names(ctx, P, L, V):
    """Deduction::strategy names the strategy that makes such a deduction"""
    FN = "probe::strat::ded_strategy"
    anc = ctx.anchor(P, FN)
    sv = lambda n: variant_index(P, ST, n)

    def ask(key, value, want, what, pc=(), cells=None):
        mem = {("D", 0): value, ("T", 0): tuple(cells or [L.cand(0, 1)])}
        rs, it = ctx.analyse(key, FN, [Ptr(("D", 0), ())], mem=mem, pc=pc)
        for st, r in rs or []:
            ctx.same("names/" + key, r.d if r.__class__ is En else r, want, st.pc, anc, what=what)
    sl = Ptr(("T", 0), (("i", 0),), 1)
    for n in ("NakedSingles", "HiddenSingles"):
        ctx.reset()
        v = V.v[n]
        ask("single", En(v, {v: (L.cand(3, 4),) + (() if n[0] == "N" else (En(0, {0: (2,)}),))}), sv(n), n)
    ctx.reset()
    ask("locked", rec(V, "LockedCandidates", digit=2, miniline=5, is_pointing=sym("p", (0, 1)), conflicts=sl), sv("LockedCandidates"), "LockedCandidates")
    for k in (2, 3, 4):
        ctx.reset()
        ps = [sym("p%d" % i, (0, 1)) for i in range(9)]
        pc = pc_and((), dd_eq(count_true(ps), k))
        ask("fish", rec(V, "BasicFish", digit=2, lines=(1 << k) - 1, positions=dset(ps), conflicts=sl), sv({2: "XWing", 3: "Swordfish", 4: "Jellyfish"}[k]), "fish of size %d: " % k, pc)
        for h in range(k - 2, 27, 3):
            ctx.reset()
            ps = [sym("p%d" % i, (0, 1)) for i in range(9)]
            pc = pc_and((), dd_eq(count_true(ps), k))
            q = sym("q", range(9))
            cell = tab(q, lambda t: HOUSES[h][t])
            inside = disj([dd.b_and(eqc(q, i), ps[i]) for i in range(9)])
            nm = {2: "Pairs", 3: "Triples", 4: "Quads"}[k]
            want = tab(inside, lambda t: sv("Hidden" + nm) if t else sv("Naked" + nm))
            ask("subset", rec(V, "Subsets", house=h, positions=dset(ps), digits=dset([1] * k + [0] * (9 - k)), conflicts=sl), want,
                "subset of size %d in house %d: " % (k, h), pc, [L.cand(cell, 5)])
    for k in (2, 3):
        ctx.reset()
        ps = [sym("p%d" % i, (0, 1)) for i in range(9)]
        pc = pc_and((), dd_eq(count_true(ps), k))
        ask("wing", rec(V, "Wing", hinge=40, hinge_digits=dset(ps), pincers=3, conflicts=sl), sv("XyWing" if k == 2 else "XyzWing"), "wing with %d digits: " % k, pc)
