"""P22: error messages say what the errors carry."""
import dd
from ai import *
from plib import *

FLOOR = 120
RULE = ("value-set dataflow over the MIR of the Display impls of all error types with symbolic payload: the text is determined, shows the payload in "
        "decimal / the offending character, names it as what it is documented to be, differs between different errors, and an entry error reads the same "
        "inside a parse error")
EXPLANATION = ("Every variant of every error type is formatted with its payload symbolic (one run per number of decimal digits, so that the text has "
               "a fixed length); the byte tables of the text are compared with the digits of the payload and read off for every payload to see "
               "that no two errors of a type read the same.")
ASSUMPTIONS = ["rustc's MIR is a faithful rendering of the source", "core::fmt's template interpreter and the integer/str/char Display impls are "
               "modelled (engine/models.py)", "slice lengths in FromBytesSliceError::WrongLength: 0..=9999"]
CHARS = [Iv(0, 9), 10, Iv(11, 31)] + list(range(32, 127)) + [127, Iv(0x80, 0x10FFFF)]
NUMS = [range(0, 10), range(10, 100), range(100, 256)]
LENS = [range(0, 10), range(10, 100), range(100, 1000), range(1000, 10000)]


def words(txt):
    return "".join(chr(x) if x.__class__ is int and 0 < x < 0x110000 else "?" for x in txt).lower()


def before_number(s, at):
    """last word before position at"""
    w = ""
    for ch in reversed(s[:at]):
        if ch.isalpha():
            w = ch + w
        elif w:
            break
    return w


def run(ctx):
    P = ctx.prog()
    E = "sudoku::errors::"
    IE = E + "InvalidEntry"
    ic, ih = [vfield(P, IE, None, f) for f in ("cell", "ch")]

    def entry(cell, ch):
        x = [None, None]
        x[ic], x[ih] = cell, ch
        return tuple(x)

    def text(key, fn, value):
        """[(path condition, elements)] of the message"""
        name = "probe::misc::" + fn
        rs, it = ctx.analyse(key, name, [Ptr(("T", 0), ())], mem={("T", 0): value})
        if rs is None:
            return [], name
        anc = ctx.anchor(P, name)
        ctx.ob(key + "/total", len(rs) >= 1, "never returns", anc)
        out = []
        for st, v in rs:
            l = vec(it, st, v)
            if ctx.ob(key + "/determined", l.__class__ is list, "length of the text is %r" % (l if l.__class__ is not list else len(l),), anc):
                ctx.ob(key + "/non-empty", len(l) > 0, "empty message", anc)
                out.append((st.pc, l))
        return out, anc

    def readings(key, texts, syms, anc):
        """{assignment of the number: text} ; the character symbol shows as '*'"""
        out = {}
        num, chs = syms
        for pc, l in texts:
            for k, x in enumerate(num.dom if num is not None else [None]):
                c = eqc(dd.var(num), x) if num is not None else 1
                here = dd.b_and(pc_conj(pc), c)
                if here.__class__ is int and not here:
                    continue
                row = []
                bad = None
                for t in l:
                    if num is not None and t.__class__ is Node and t.s == num.idx:
                        t = t.k[k]
                    if t.__class__ is Node:
                        if chs is not None and t is dd.var(chs):
                            t = "*"
                        else:
                            bad = t
                    elif t.__class__ is not int:
                        bad = t
                    row.append(t)
                if ctx.ob(key + "/text", bad is None, "character %r is neither fixed, a digit of the number, nor the offending character" % (bad,), anc):
                    if x in out:
                        ctx.ob(key + "/one-text", out[x] == tuple(row), "text for %r depends on more than the error" % (x,), anc)
                    out[x] = tuple(row)
        return out

    def shows(key, x, row, names, after, anc):
        """the number stands in the text as a number of its own, introduced by one of the names (or with one of `after` in the text)"""
        s = words([63 if t == "*" else t for t in row])
        d = str(x)
        ats = [i for i in range(len(s)) if s.startswith(d, i) and not s[i - 1:i].isdigit() and not s[i + len(d):i + len(d) + 1].isdigit()]
        ctx.ob(key + "/shows-number", bool(ats), "the text %r does not show %s" % (s, d), anc)
        if names:
            ctx.ob(key + "/names-number", any(before_number(s, i) in names for i in ats),
                   "the text %r does not present %s as a %s" % (s, d, " or ".join(sorted(names))), anc)
        if after:
            ctx.ob(key + "/names-count", any(w in s for w in after), "the text %r does not say what is counted (%s)" % (s, "/".join(after)), anc)

    def meet(a, b):
        return len(a) == len(b) and all(x == y or x == "*" or y == "*" for x, y in zip(a, b))

    def distinct(key, all_, anc):
        """no two different errors read the same; all_: {(variant, payload): text}"""
        by = {}
        for k, t in all_.items():
            by.setdefault(len(t), []).append((k, t))
        clash = None
        for l in by.values():
            plain = {}
            for k, t in l:
                if "*" not in t:
                    if t in plain:
                        clash = (plain[t], k)
                    plain[t] = k
            wild = [x for x in l if "*" in x[1]]
            for i, (k, t) in enumerate(wild):
                for k2, t2 in wild[i + 1:]:
                    if meet(t, t2):
                        clash = (k, k2)
                for t2, k2 in plain.items():
                    if meet(t, t2):
                        clash = (k, k2)
        ctx.ob(key + "/different", clash is None, "%s and %s read the same" % (clash or (0, 0)), anc)

    def with_number(key, fn, doms, make, names=(), after=(), ch=False, needchar=False):
        out, anc = {}, None
        for dom in doms:
            ctx.reset()
            num = dd.Sym("number", dom)
            chs = dd.Sym("ch", CHARS) if ch else None
            tx, anc = text(key, fn, make(dd.var(num), dd.var(chs) if ch else None))
            rd = readings(key, tx, (num, chs), anc)
            ctx.ob(key + "/every", set(rd) == set(dom), "no text for %s" % sorted(set(dom) - set(rd))[:3], anc)
            out.update(rd)
        miss = None
        for x, row in out.items():
            shows(key, x, row, names, after, anc)
            if ch:
                ctx.ob(key + "/shows-character", "*" in row, "the text %r does not show the offending character" % words(row), anc)
        return out, anc

    def fixed(key, fn, value):
        ctx.reset()
        tx, anc = text(key, fn, value)
        rd = readings(key, tx, (None, None), anc)
        return {None: rd.get(None, ())}, anc

    # ---- an invalid entry, alone and inside the parse errors
    CELLS = [range(0, 10), range(10, 81)]
    alone, anc = with_number("InvalidEntry", "err_entry", CELLS, entry, {"cell"}, ch=True)
    distinct("InvalidEntry", alone, anc)

    def enum(name, fn, variants):
        ty = E + name
        seen, anc = {}, None
        listed = [v[0] for o in P.T.values() if o["n"] == ty for v in o["v"]]
        ctx.ob(name + "/variants", set(listed) == set(variants), "variants are %s" % listed, "probe::misc::" + fn)
        for var, how in variants.items():
            if var not in listed:
                continue
            i = variant_index(P, ty, var)
            key = "%s::%s" % (name, var)
            if how == "entry":
                rd, anc = with_number(key, fn, CELLS, lambda n, c: En(i, {i: (entry(n, c),)}), {"cell"}, ch=True)
                ctx.ob(key + "/same-text", rd == alone, "reads differently inside %s" % name, anc)
            elif how is None:
                rd, anc = fixed(key, fn, En(i, {i: ()}))
            elif how == "inner":
                rd, anc = fixed(key, fn, En(i, {i: (UNIT_FB,)}))
                ctx.ob(key + "/same-text", rd == bytes_alone, "reads differently inside %s" % name, anc)
            else:
                doms, names, after = how
                rd, anc = with_number(key, fn, doms, lambda n, c: En(i, {i: (n,)}), names, after)
            for k, t in rd.items():
                seen[(var, k)] = t
        distinct(name, seen, anc)

    LINE, ROWS = {"line", "row"}, ("row", "line")
    enum("LineParseError", "err_line", {
        "InvalidEntry": "entry", "NotEnoughCells": (NUMS, (), ("cell", "entr")), "TooManyCells": None, "MissingCommentDelimiter": None})
    enum("BlockParseError", "err_block", {
        "InvalidEntry": "entry", "InvalidLineLength": (NUMS, LINE, ()), "NotEnoughRows": (NUMS, (), ROWS), "IncorrectFieldDelimiter": None,
        "TooManyRows": None, "MissingCommentDelimiter": (NUMS, LINE, ())})
    UNIT_FB = ()
    bytes_alone, anc = fixed("FromBytesError", "err_bytes", UNIT_FB)
    enum("FromBytesSliceError", "err_slice", {"WrongLength": (LENS, (), ("length", "byte", "entr")), "FromBytesError": "inner"})
    rd, anc = with_number("NotEnoughRows", "err_rows", NUMS, lambda n, c: n, (), ROWS)
    distinct("NotEnoughRows", rd, anc)
    # ---- where an invalid entry stands
    for fn, f in (("row", lambda c: c // 9), ("col", lambda c: c % 9), ("block", lambda c: c // 27 * 3 + c % 9 // 3)):
        ctx.reset()
        x = sym("cell", range(81))
        rs, it = ctx.analyse("InvalidEntry::" + fn, "probe::conv::ie_" + fn, [entry(x, 65)])
        for st, v in rs or ():
            ctx.same("InvalidEntry::" + fn, v, tab(x, f), st.pc, ctx.anchor(P, "probe::conv::ie_" + fn))
