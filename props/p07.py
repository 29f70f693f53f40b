"""P07: the permissive block parser accepts every text with nine rows and returns their entries."""
import dd
from ai import *
from plib import *
from textmodel import *

ALSO = ["rel"]
FLOOR = 6
RULE = ("value-set dataflow over the MIR of the permissive parser on texts with symbolic lines: the grid must hold the first nine entries of the "
        "first nine lines that have nine, the error the number of such lines, and no text may panic")
EXPLANATION = ("Three families of texts cover the parser's state: one line of up to 11 arbitrary bytes at every row, with any number of lines "
               "after it; a window of 7 arbitrary bytes behind every number of entries of a line, with other characters around it; and 11 lines "
               "of which each may or may not have its ninth entry, the number of lines being arbitrary.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "str::lines and core's UTF-8 decoder are modelled (engine/models.py)",
               "lines with more than one window of arbitrary characters follow by induction over the characters, whose step is the window"]
BYTE = byte_domain(b"\t -+.0123456789_|a/:")
VALID = set(b"0123456789._")
FILL = ["", "---+---+---", "12345678", "......xx..", " 1 2 3 | 4 5 6 | 7 8 ", "\u2502 1_ \u250c\u2500\u2510", "no digits here", "\t"]
W, K = 11, 11


def isent(b):
    return tab(b, lambda x: 1 if x.__class__ is int and x in VALID else 0)


def val(x):
    return x - 48 if x.__class__ is int and 48 <= x <= 57 else 0


def full(i):
    """a line with nine entries (and some other characters), different for each i"""
    e = [".123456789_0"[(i * 5 + j * 7) % 12] for j in range(9)]
    sep = ["", " ", "|", " \u2502"][i % 4]
    return ("x"[:i % 2] + sep.join(e) + ["", " 12", "\u250399"][i % 3]).encode(), [ord(x) - 48 if x.isdigit() else 0 for x in e]


def entries(bs, inside):
    """(is complete, the nine entries) of a line given by byte tables"""
    cnt, vals = 0, [0] * 9
    for b, ins in zip(bs, inside):
        e = dd.b_and(ins, isent(b))
        v = tab(b, val)
        for j in range(9):
            vals[j] = dd.ite(dd.b_and(e, eqc(cnt, j)), v, vals[j])
        cnt = dd.ite(e, tab(cnt, lambda x: min(x + 1, 9)), cnt)
    return eqc(cnt, 9), vals


def run(ctx):
    P = ctx.prog()
    anc = ctx.anchor(P, "probe::sud::from_str_block_permissive")
    jobs = [lambda k, r=r: single(k, P, anc, r) for r in range(10)]
    jobs += [lambda k, n=n: window(k, P, anc, n) for n in range(9)]
    jobs += [lambda k, v=v: rows(k, P, anc, v) for v in range(2)]
    ctx.parallel(jobs)


def check(ctx, P, anc, key, lines, n, pcs, spec, what):
    """lines: (byte tables, length) per line; spec: (complete, entries) per line"""
    key = "from_str_block_permissive/" + key
    mem = {("L", k): tuple(b) for k, (b, _) in enumerate(lines)}

    def setup(it):
        it.text = {"base": ("T", 0), "lines": [(("L", k), l, 0) for k, (_, l) in enumerate(lines)], "n": n}
    rs, it = ctx.analyse(key, "probe::sud::from_str_block_permissive", [Ptr(("T", 0), (("i", 0),), sym("bytes", [0, Iv(1, HUGE)]))], pc=tuple(pcs), mem=mem,
                         setup=setup, budget=8000000)
    if rs is None:
        return
    cnt, grid = 0, [0] * 81
    for k, (ok, vals) in enumerate(spec):
        here = dd.map1(("gt", k), lambda x, k=k: 1 if lohi(x)[0] > k else 0, n)
        ok = dd.b_and(ok, here)
        for i in range(9):
            c = dd.b_and(ok, eqc(cnt, i))
            if c.__class__ is int and not c:
                continue
            for j in range(9):
                grid[i * 9 + j] = dd.ite(c, vals[j], grid[i * 9 + j])
        cnt = dd.ite(ok, tab(cnt, lambda x: min(x + 1, 9)), cnt)
    ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
    for st, v in rs:
        if not ctx.ob(key + "/shape", v.__class__ is En, repr(v), anc):
            continue
        ctx.same(key + "/accepts", eqc(v.d, 0), eqc(cnt, 9), st.pc, anc, what + ": ")
        p = pc_and(st.pc, eqc(v.d, 0))
        if p is not None:
            for c in range(81):
                ctx.same(key + "/grid", v.v[0][0][c], grid[c], p, anc, "%s, cell %d: " % (what, c))
        p = pc_and(st.pc, eqc(v.d, 1))
        if p is not None:
            ctx.same(key + "/rows-found", leaf(v.v[1][0]), cnt, p, anc, what + ": ")


def leaf(x):
    while x.__class__ is tuple:
        x = x[0]
    return x


def lit(s):
    b = s.encode() if s.__class__ is str else s
    return b, len(b)


def single(ctx, P, anc, r):
    ctx.reset()
    lines = []
    for i in range(r):
        lines.append(lit(full(i)[0]))
        if i % 3 == r % 3:
            lines.append(lit(FILL[(i + r) % len(FILL)]))
    at = len(lines)
    raw = [sym("l%d" % i, BYTE + [END]) for i in range(W)]
    b = tuple(tab(x, lambda x: 0 if x.__class__ is int and x == END else x) for x in raw)
    inside, here, n = [], 1, W
    for x in raw:
        here = dd.b_and(here, dd.b_not(eqc(x, END)))
        inside.append(here)
    for i in range(W - 1, -1, -1):
        n = dd.ite(eqc(raw[i], END), i, n)
    ok = wellformed(raw + [END])
    lines.append((b, n))
    for i in range(r, 10):
        if i % 2:
            lines.append(lit(FILL[(i * 3 + r) % len(FILL)]))
        lines.append(lit(full(i + 1)[0]))
    spec = []
    for k, (l, m) in enumerate(lines):
        spec.append(entries(b, inside) if k == at else entries(l, [1] * len(l)))
    num = sym("lines", range(len(lines) + 1))
    check(ctx, P, anc, "line", lines, num, [ok], spec, "arbitrary line behind %d rows" % r)


def window(ctx, P, anc, k):
    """k entries, then 7 arbitrary bytes, then the remaining entries but one or two"""
    ctx.reset()
    pre = (" |x\u2502"[k % 4] + "-".join("123456789"[:k]) + [" ", "", "\u2551"][k % 3]).encode()
    raw = [sym("w%d" % i, BYTE) for i in range(7)]
    post = ([" ", "", "abc"][k % 3] + ".5"[k % 2] * max(0, 8 - k - k % 2) + " ").encode()
    bs = tuple(pre) + tuple(raw) + tuple(post)
    lines, spec = [], []
    for i in range(9):
        lines.append((bs, len(bs)) if i == (k * 2 + 1) % 9 else lit(full(i)[0]))
        spec.append(entries(lines[-1][0], [1] * lines[-1][1]))
    check(ctx, P, anc, "window", lines, 9, [wellformed(raw + [END])], spec, "window behind %d entries" % k)


def rows(ctx, P, anc, v):
    ctx.reset()
    lines, spec = [], []
    for i in range(K):
        s = bytearray(full(i + 3 * v)[0][:0] + b"123456789"[i % 9:] + b"123456789"[:i % 9])
        if v:
            s[i % 9:i % 9] = b" | "
        at = [j for j, x in enumerate(s) if x in VALID][(i * 4 + 8 * (1 - v)) % 9]
        bs = tuple(s[:at]) + (sym("e%d" % i, [53, 46, 32]),) + tuple(s[at + 1:])
        lines.append((bs, len(bs)))
        spec.append(entries(bs, [1] * len(bs)))
    check(ctx, P, anc, "rows", lines, sym("lines", range(K + 1)), [], spec, "lines with or without a ninth entry")
