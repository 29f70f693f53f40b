"""P21: canonicalization finds the smallest equivalent grid and counts the ways to reach it."""
import itertools
import random
import dd
from ai import *
from plib import *
import interp
from p11 import Search

ALSO = ["rel"]
FLOOR = 5000
RULE = ("value-set dataflow over the MIR of the canonicalization, function by function: the band search yields the smallest band and exactly the "
        "transformations that give it, completing a transformation sorts the other rows and describes itself correctly, the driver keeps the smallest "
        "grid and counts its occurrences, canonicalized applies that transformation to the grid it was given; no panic")
EXPLANATION = ("Band search: for each of the 56 ways to fill a band's blocks (up to renaming digits), the orders inside three (thorough: all six) of "
               "the lower minirows are symbols, and the collected transformations are compared with a search over all row, stack and column "
               "permutations written from the definition. Completion: lower rows and bands in symbolic order, for many band transformations. "
               "Driver: completion and band search are oracles with symbolic results.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source",
               "the band search compares digits only for equality (it is analysed for one naming of the first row)",
               "each band job takes some minirows' orders as arbitrary and fixes the others; the bands' reading depends on one minirow order at a time beyond the ones compared"]
CAN = "sudoku::board::canonicalization::"
MIN = CAN + "find_minlex_band_transformation"
FIN = CAN + "find_minimal_transformation_for_band"
DRV = CAN + "find_canonical_sudoku_and_transformation"
ORD = list(itertools.permutations(range(3)))
GRIDS = ["123456789456789123789123456231564897564897231897231564312645978645978312978312645",
         "534678912672195348198342567859761423426853791713924856961537284287419635345286179",
         "417369825632158947958724316825437169791586432346912758289643571573291684164875293"]
GRIDS = [tuple(int(x) for x in g) for g in GRIDS]


# ---------------------------------------------------------------- what the data means
def perm3(p):
    """order of three things after swap(0, a), swap(1, 1 + b)"""
    o = [0, 1, 2]
    a, b = p
    o[0], o[a] = o[a], o[0]
    o[1], o[1 + b] = o[1 + b], o[1]
    return o


def transpose(g):
    return [g[i % 9 * 9 + i // 9] for i in range(81)]


def place(g, tr, bands, stacks, rows, cols, dig):
    """the grid after the transformation; orders are lists of old indices; dig: function of a digit"""
    if tr:
        g = transpose(g)
    out = []
    for r in range(9):
        b = bands[r // 3]
        rr = b * 3 + rows[r // 3][r % 3]
        for c in range(9):
            s = stacks[c // 3]
            cc = s * 3 + cols[c // 3][c % 3]
            out.append(dig(g[rr * 9 + cc]))
    return out


class Rep:
    def __init__(self, P):
        B, T = CAN + "MinBandTransformation", CAN + "Transformation"
        self.b = [vfield(P, B, None, f) for f in ("band", "transposed", "row_permutation", "stack_permutation", "col_permutations", "digit_remapping")]
        self.t = [vfield(P, T, None, f) for f in ("transpose", "band_permutation", "stack_permutation", "row_permutations", "col_permutations",
                                                  "digit_remapping")]

    def bt(self, *v):
        out = [0] * 6
        for i, x in zip(self.b, v):
            out[i] = x
        return tuple(out)

    def tr(self, *v):
        out = [0] * 6
        for i, x in zip(self.t, v):
            out[i] = x
        return tuple(out)


# ---------------------------------------------------------------- the band search
def types():
    """the 56 fillings of a band's blocks when the first row is 1..9: (row 2, row 3) as triples of sets"""
    A, B, C = {1, 2, 3}, {4, 5, 6}, {7, 8, 9}
    out = []
    for s1 in itertools.combinations(range(4, 10), 3):
        for s2 in itertools.combinations(sorted((A | C) - set(s1)), 3):
            s3 = set(range(1, 10)) - set(s1) - set(s2)
            if not s3 <= A | B:
                continue
            low = [sorted(X) for X in (set(range(1, 10)) - A - set(s1), set(range(1, 10)) - B - set(s2), set(range(1, 10)) - C - s3)]
            out.append([sorted(s1), sorted(s2), sorted(s3)] + low)
    return out


def smallest(rows):
    """(digits 12..27 of the smallest equivalent band, number of row/stack/column permutations that give it)"""
    best, count = None, 0
    for stacks in ORD:
        for ro in ORD:
            blocks = [[rows[r][3 * s:3 * s + 3] for r in ro] for s in stacks]
            for c1 in ORD:
                b1 = [[r[i] for i in c1] for r in blocks[0]]
                # second row 4, 5: these digits are first and second in the first row of the second block
                x, y = b1[1][0], b1[1][1]
                top = blocks[1][0]
                if x not in top or y not in top:
                    continue
                i, j = top.index(x), top.index(y)
                c2 = (i, j, 3 - i - j)
                b2 = [[r[i] for i in c2] for r in blocks[1]]
                for c3 in ORD:
                    b3 = [[r[i] for i in c3] for r in blocks[2]]
                    m = {}
                    for k, v in enumerate(b1[0] + b2[0] + b3[0]):
                        m[v] = k + 1
                    q = tuple([m[v] for v in b1[1][2:] + b2[1] + b3[1] + b1[2] + b2[2] + b3[2]])
                    if best is None or q < best:
                        best, count = q, 0
                    if q == best:
                        count += 1
    return best, count


def search(ctx, P, R, ty, n, v):
    """all orders inside the minirows in `free`, the others fixed"""
    ctx.reset()
    rnd = random.Random("%d/%d/%d" % (ty, n, v))
    sets = types()[ty]
    free = sorted(rnd.sample(range(6), n))
    name = rnd.sample(range(1, 10), 9)      # digits of the first row
    fixed = [rnd.sample(s, 3) for s in sets]
    syms = [sym("o%d" % i, range(6)) for i in free]

    def rows(val):
        mr = [[sets[i][k] for k in ORD[val[free.index(i)]]] if i in free else fixed[i] for i in range(6)]
        return [list(range(1, 10)), mr[0] + mr[1] + mr[2], mr[3] + mr[4] + mr[5]]
    vals = list(itertools.product(range(6), repeat=n))
    sol = {x: smallest(rows(x)) for x in vals}
    idx = 0
    for s in syms:
        idx = dd.map2("idx6", lambda a, b: a * 6 + b, idx, s)
    table = lambda f: tab(idx, lambda k: f(vals[k]))
    band_nr, flip = ty % 3, (ty // 3 + v) % 2
    g = list(GRIDS[ty % 3])
    for r in range(3):
        for c in range(9):
            g[(band_nr * 3 + r) * 9 + c] = table(lambda x: name[rows(x)[r][c] - 1])
    # what an earlier search left: nothing, or a minimum that these bands miss, reach or beat
    start = [(9,) * 16, sol[rnd.choice(vals)][0]][v % 2]
    n0 = v % 2
    dummy = R.bt(7, 0, (0, 0), (0, 0), ((0, 0),) * 3, (0,) * 9)
    cap = 700
    mem = {("M",): start, ("VB",): (dummy,) * n0 + (UNINIT,) * (cap - n0), ("V",): ((Ptr(("VB",), (("i", 0),)), cap, ()), n0)}
    key = "band-search"
    rs, it = ctx.analyse(key, MIN, [tuple(g), band_nr, flip, Ptr(("M",), ()), Ptr(("V",), ())], mem=mem, budget=40000000)
    if rs is None:
        return
    anc = ctx.anchor(P, MIN)
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    what = "blocks %s, free %s, start %s: " % (sets, free, start[:3])
    want = table(lambda x: 0 if sol[x][0] < start else 1 if sol[x][0] == start else 2)
    for st, _ in rs:
        m = st.m[("M",)]
        for i in range(16):
            ctx.same(key + "/minimum", m[i], table(lambda x: min(sol[x][0], start)[i]), st.pc, anc, what)
        buf, ln = st.m[("V",)]
        ctx.same(key + "/count", ln, table(lambda x: sol[x][1] + (n0 if sol[x][0] == start else 0) if sol[x][0] <= start else n0), st.pc, anc, what)
        top = max(dd.terminals(ln)) if ln.__class__ is Node else ln
        els = [it.load(st, it.ptr_offset(buf[0], i, 1)) for i in range(top)]
        bad = None
        live = None
        if st.pc:
            live = conj(list(st.pc))
        for x in vals:
            env = {s.s: y for s, y in zip(syms, x)}
            ev = lambda t: deep(t, env)
            if live is not None and not ev(live):
                continue
            best = min(sol[x][0], start)
            got = set()
            k = ev(ln)
            for i in range(k):
                e = ev(els[i])
                if i < n0 and sol[x][0] >= start:
                    if e != dummy:
                        bad = bad or (x, i, "an earlier transformation was changed to %s" % (e,))
                    continue
                b, t, rp, sp, cps, dm = [e[f] for f in R.b]
                rr = [[name[q - 1] for q in r] for r in rows(x)]
                o, so, co = perm3(rp), perm3(sp), [perm3(c) for c in cps]
                out = [dm[rr[o[r]][so[c // 3] * 3 + co[c // 3][c % 3]] - 1] for r in range(3) for c in range(9)]
                if b != band_nr or t != flip or sorted(dm) != list(range(1, 10)):
                    bad = bad or (x, i, "wrong band, orientation or digit map: %s" % (e,))
                elif out[:11] != [1, 2, 3, 4, 5, 6, 7, 8, 9, 4, 5] or tuple(out[11:]) != best:
                    bad = bad or (x, i, "transformation %s gives %s, smallest is %s" % (e, out, best))
                elif e in got:
                    bad = bad or (x, i, "transformation %s listed twice" % (e,))
                got.add(e)
        ctx.ob(key + "/transformations", bad is None, what + "orders %s, entry %s: %s" % (bad or ("", "", "")), anc)


def deep(t, env):
    c = t.__class__
    if c is tuple:
        return tuple([deep(y, env) for y in t])
    if c is Bits:
        t = bits_to_dd(t.b)
    if t.__class__ is Node:
        return dd.evaluate(t, env)
    return t


# ---------------------------------------------------------------- completing a transformation
def inverse(o):
    out = [0] * len(o)
    for i, x in enumerate(o):
        out[x] = i
    return out


def finish(ctx, P, R, v):
    ctx.reset()
    rnd = random.Random("finish/%d" % v)
    base = GRIDS[v % 3]
    # the grid after the band transformation: first band fixed, the other rows in any order
    p1, p2, sw = sym("rows1", range(6)), sym("rows2", range(6)), sym("bands", (0, 1))
    row = lambda b, i, c: base[(b * 3 + i) * 9 + c]
    moved = list(base[:27])
    for b in (1, 2):
        for i in range(3):
            for c in range(9):
                a = tab(p1, lambda x: row(1, ORD[x][i], c))
                z = tab(p2, lambda x: row(2, ORD[x][i], c))
                moved.append(dd.ite(sw, z, a) if b == 1 else dd.ite(sw, a, z))
    want = list(base[:27])
    low = sorted([sorted(tuple(base[(b * 3 + i) * 9:(b * 3 + i) * 9 + 9]) for i in range(3)) for b in (1, 2)])
    for b in low:
        for r in b:
            want += r
    # undo a band transformation
    band, flip = v % 3, v // 3 % 2
    pr = lambda: (rnd.randrange(3), rnd.randrange(2))
    rp, sp, cps = pr(), pr(), tuple(pr() for _ in range(3))
    dm = tuple(rnd.sample(range(1, 10), 9))
    bt = R.bt(band, flip, rp, sp, cps, dm)
    bands = [0, 1, 2]
    bands[0], bands[band] = bands[band], bands[0]
    un = {d: i + 1 for i, d in enumerate(dm)}
    src = place(list(range(81)), 0, bands, perm3(sp), [perm3(rp), [0, 1, 2], [0, 1, 2]], [perm3(c) for c in cps], lambda x: x)
    g = [0] * 81
    for i, c in enumerate(src):
        g[c] = tab(moved[i], lambda x: un[x])
    if flip:
        g = transpose(g)
    key = "completion"
    rs, it = ctx.analyse(key, FIN, [tuple(g), bt], budget=20000000)
    if rs is None:
        return
    anc = ctx.anchor(P, FIN)
    what = "band transformation %s: " % (bt,)
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    for st, (m, T) in rs:
        for c in range(81):
            ctx.same(key + "/sorted", m[c], want[c], st.pc, anc, "%s cell %d: " % (what, c))
        # the description must say what was done
        bad = None
        live = conj(list(st.pc)) if st.pc else None
        for x in itertools.product(range(6), range(6), (0, 1)):
            env = {s.s: y for s, y in zip((p1, p2, sw), x)}
            ev = lambda t: deep(t, env)
            if live is not None and not ev(live):
                continue
            e = ev(T)
            tr, bp, sp2, rps, cps2, dm2 = [e[f] for f in R.t]
            out = place([ev(c) for c in g], tr, perm3(bp), perm3(sp2), [perm3(q) for q in rps], [perm3(q) for q in cps2], lambda d: dm2[d - 1])
            if out != want:
                bad = bad or (x, e)
        ctx.ob(key + "/description", bad is None, what + "lower rows %s: described as %s" % (bad or ("", "")), anc)


# ---------------------------------------------------------------- the driver
def driver(ctx, P, R, v):
    ctx.reset()
    key = "driver"
    rnd = random.Random("driver/%d" % v)
    g = GRIDS[v % 3]
    flat = transpose(g)
    calls = []
    nt = [2, 3, 1, 4, 0, 5, 3, 6][v % 8]      # transformations left at the end
    tags = [R.bt(i % 3, i // 3 % 2, (i % 3, i % 2), (0, 0), ((0, 0),) * 3, (i + 1,) * 9) for i in range(12)]
    rank = [sym("rank%d" % i, range(3)) for i in range(nt)]
    results = {}
    done = []

    def least(it, st, o, a, at, dt):
        s, nr, fl, mp, vp = a
        mn = it.load(st, mp)
        calls.append((st.pc, s, nr, fl, mp, vp, tuple(mn)))
        k = len(calls)
        it.store(st, mp, tuple(mn[:15]) + (100 + k,))
        vec = it.load(st, vp)
        push = it.P.fn("std::vec::Vec::<%sMinBandTransformation>::push" % CAN)
        # the searches leave different numbers; the last ones clear what was there
        todo = [tags[0]] if k < 6 else tags[:nt]
        if k == 6 or k < 6 and v % 2:
            clear = [i for i, q in enumerate(it.P.I) if 0]
            b, _ = it.load(st, vp)
            it.store(st, vp, (b, 0))
        for t in todo:
            rs = it.call(st, push, [vp, t])
            st = rs[0][0]
        return [(st, ())]

    def fin(it, st, o, a, at, dt):
        s, t = a
        i = tags.index(t) if t in tags else -1
        done.append((st.pc, s, i))
        if not 0 <= i < nt:
            raise Inconclusive("an unknown transformation is completed")
        grid = tuple(GRIDS[0][:40]) + (dd.map2("addr", lambda x, y: x + y, rank[i], 3),) + tuple(GRIDS[0][41:])
        return [(st, (grid, R.tr(0, (i % 3, 0), (0, 0), ((0, 0),) * 3, ((0, 0),) * 3, (i + 1,) * 9)))]

    def setup(it):
        it.models[MIN] = least
        it.models[FIN] = fin
    rs, it = ctx.analyse(key, DRV, [g], setup=setup, panics=(lambda e: True) if nt == 0 else None)
    if rs is None:
        return
    anc = ctx.anchor(P, DRV)
    if nt == 0:
        return
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    seen = set()
    for i, (pc, s, nr, fl, mp, vp, mn) in enumerate(calls):
        if nr.__class__ is int and fl.__class__ is int:
            seen.add((nr, fl))
            ctx.ob(key + "/search-grid", list(s) == (list(flat) if fl else list(g)), "band %s, flipped %s: searched in another grid" % (nr, fl), anc)
        ctx.ob(key + "/minimum-kept", mp == calls[0][4] and vp == calls[0][5] and (i == 0 or mn[15] == 100 + i), "the minimum is not passed on", anc)
    ctx.ob(key + "/starts-high", all(x.__class__ is int and x >= 9 for x in calls[0][6]), "first minimum is %s" % (calls[0][6],), anc)
    ctx.ob(key + "/all-bands", len(calls) == 6 and seen == {(b, f) for b in range(3) for f in (0, 1)}, "searched %s" % sorted(seen), anc)
    ctx.ob(key + "/completes-all", sorted({i for _, _, i in done}) == list(range(nt)), "completed %s" % [i for _, _, i in done], anc)
    for pc, s, i in done:
        ctx.ob(key + "/completes-grid", tuple(s) == g, "completed on another grid", anc)
    best = rank[0]
    for r in rank[1:]:
        best = dd.map2("min", min, best, r)
    n = 0
    for r in rank:
        n = dd.map2("addb", lambda x, y: x + y, n, tab2(lambda x, y: 1 if x == y else 0, r, best))
    for st, (s, T, cnt) in rs:
        ctx.same(key + "/smallest", s[40], dd.map2("addr", lambda x, y: x + y, best, 3), st.pc, anc)
        for c in range(81):
            if c != 40:
                ctx.same(key + "/smallest", s[c], GRIDS[0][c], st.pc, anc)
        ctx.same(key + "/automorphisms", cnt, n, st.pc, anc)
        mine = T[R.t[5]][0]
        for i in range(nt):
            q = pc_and(st.pc, eqc(mine, i + 1))
            if q is not None:
                ctx.same(key + "/its-transformation", rank[i], best, q, anc)


# ---------------------------------------------------------------- canonicalized
def outer(ctx, P, R, v):
    """N solutions (None: the grid is full and solved)"""
    ctx.reset()
    rnd = random.Random("outer/%d" % v)
    N, early = [(None, 0), (0, 1), (0, 0), (1, 0), (2, 0), (1, 0), (None, 0), (3, 0)][v % 8]
    key = "canonicalized"
    if N is None:
        grid = GRIDS[v % 3]
    else:
        base = GRIDS[v % 3]
        grid = [0 if i % 4 == 1 or rnd.random() < .3 else sym("g%d" % i, range(10)) if i % 9 in (2, 5) and i % 2 else base[i] for i in range(81)]
    pr = lambda: (rnd.randrange(3), rnd.randrange(2))
    # the transformation: two of its permutations and the diagonal flip are symbols
    perms = [pr() for _ in range(8)]
    ab = rnd.sample(range(8), 2)
    fl, da, db = sym("flip", (0, 1)), sym("p", range(6)), sym("q", range(6))
    dm = tuple(rnd.sample(range(1, 10), 9))
    T = [fl] + perms[:2] + [perms[2:5], perms[5:]] + [dm]

    def transformation(x, y):
        q = list(perms)
        q[ab[0]], q[ab[1]] = x, y
        return q
    half = lambda s: (tab(s, lambda x: x % 3), tab(s, lambda x: x // 3))
    q = transformation(half(da), half(db))
    T = (fl, q[0], q[1], tuple(q[2:5]), tuple(q[5:]), dm)
    cnt = sym("count", (1, 2, 648))
    asked = []
    box = {}

    def find(it, st, o, a, at, dt):
        asked.append((st.pc, a[0]))
        return [(st, (tuple(range(81)), R.tr(*T), cnt))]

    def setup(it):
        if N is not None:
            box["s"] = Search(it, N, bool(early))
        it.models[DRV] = find
    rs, it = ctx.analyse(key, "probe::sud::canonicalized", [Ptr(("G",), ())], mem={("G",): tuple(grid)}, setup=setup, budget=8000000)
    if rs is None:
        return
    anc = ctx.anchor(P, "probe::sud::canonicalized")
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    some = N in (None, 1)
    dig = lambda x: tab(x, lambda d: dm[d - 1] if d else 0)
    vals = list(itertools.product((0, 1), range(6), range(6)))
    src = []
    for f, x, y in vals:
        q = transformation((x % 3, x // 3), (y % 3, y // 3))
        src.append(place(list(range(81)), f, perm3(q[0]), perm3(q[1]), [perm3(z) for z in q[2:5]], [perm3(z) for z in q[5:]], lambda c: c))
    idx = dd.map2("idx6", lambda a, b: a * 6 + b, dd.map2("idx6", lambda a, b: a * 6 + b, fl, da), db)
    want = [dig(sel(tab(idx, lambda k: src[k][c]), grid)) for c in range(81)]
    for st, r in rs:
        if not ctx.ob(key + "/shape", r.__class__ is En, repr(r)[:80], anc):
            continue
        ctx.same(key + "/defined", r.d, 1 if some else 0, st.pc, anc, "%s solutions: " % N)
        if not some:
            continue
        g2, n2 = r.v[1][0]
        for c in range(81):
            ctx.same(key + "/applies", g2[c], want[c], st.pc, anc, "transformation %s, cell %d: " % (perms, c))
        ctx.same(key + "/count", n2, cnt, st.pc, anc)
    sol = tuple(grid) if N is None else box["s"].sols[0] if N else None
    if some:
        ctx.ob(key + "/asked", len(asked) >= 1, "the transformation is not looked for", anc)
    for pc, s in asked:
        if sol is None:
            ctx.ob(key + "/asked", False, "looked for without a solution", anc)
            continue
        for c in range(81):
            ctx.same(key + "/of-solution", s[c], sol[c], pc, anc)
    if N is not None:
        for pc, h in box["s"].asked:
            for x, y in zip(h, grid):
                ctx.same(key + "/solves-itself", x, y, pc, anc)


def run(ctx):
    interp.Interp.MAXSTEPS = 60000000
    P = ctx.prog()
    R = Rep(P)
    deep_ = ctx.tier != "quick"
    jobs = []
    for t in range(56):
        jobs.append(lambda k, t=t: search(k, P, R, t, 6 if deep_ else 3, 0))
        jobs.append(lambda k, t=t: search(k, P, R, t, 4 if deep_ else 2, 1))
    for v in range(72 if deep_ else 24):
        jobs.append(lambda k, v=v: finish(k, P, R, v))
    for v in range(8):
        jobs.append(lambda k, v=v: driver(k, P, R, v))
    for v in range(24 if deep_ else 8):
        jobs.append(lambda k, v=v: outer(k, P, R, v))
    ctx.parallel(jobs)
