"""P16: memory safety in every configuration: all unsafe operations of the crate are found and shown to be in range."""
import importlib
from ai import *

FLOOR = 60
RULE = ("query over the MIR of every function of the crate reachable from the public operations, in the checked and the unchecked_indexing build: unsafe calls, "
        "dereferences of raw pointers, transmutes and unions occur only inside the solver's indexing helpers; and every call site of those helpers lies in a basic block the "
        "abstract interpretation of the solver (step lemmas of the search on arbitrary candidate states, compiled with unchecked_indexing) has visited, with every access decided in range")
EXPLANATION = ("An access that is not provably in range leaves the interpretation of its function undecided, which is reported. The index helpers are found by the unsafe calls in them, "
               "not by name.")
ASSUMPTIONS = ["the standard library's safe functions are sound", "the step lemmas start from arbitrary candidate words of 27 bits per digit and band, which the steps preserve",
               "rustc's MIR is a faithful rendering of the source"]
# generated by format_args!
MACRO = ("std::fmt::Arguments::<", "core::fmt::Arguments::<", "std::fmt::Argument", "core::fmt::rt::")


def unsafe_ops(P, o):
    """[(what, block)] of a function of the crate"""
    out = []
    locs = o.get("lt")
    live = live_blocks(o)
    for n, b in enumerate(o.get("bb") or ()):
        if n not in live:
            continue
        for s in b["s"]:
            for pl in places(s):
                if derefs_raw(P, locs, pl) and not vtable_or_box(P, locs, pl):
                    out.append(("dereference of a raw pointer", n))
            if s[0] == "=" and s[2][0] == "cast" and "Transmute" in s[2][1] and P.T[s[2][4]]["k"] != "int" and "MaybeUninit<[" not in P.T[s[2][3]]["n"] + P.T[s[2][4]]["n"]:
                out.append(("transmute", n))
        t = b["t"]
        for pl in places(t):
            if derefs_raw(P, locs, pl) and not vtable_or_box(P, locs, pl):
                out.append(("dereference of a raw pointer", n))
        if t[0] == "asm":
            out.append(("inline assembly", n))
        if t[0] == "call" and t[1].__class__ is int:
            c = P.I[t[1]]
            if c.get("us") and not c["n"].startswith(MACRO):
                out.append((c["n"], n))
    return out


def places(x):
    if x.__class__ is list:
        if len(x) == 2 and x[0].__class__ is int and x[1].__class__ is list:
            yield x
        for y in x:
            yield from places(y)


def derefs_raw(P, locs, pl):
    if not pl[1] or pl[1][0] != ["*"] or pl[0] >= len(locs):
        return False
    t = locs[pl[0]]
    return t.__class__ is int and t in P.T and P.T[t]["k"] == "ptr"


def vtable_or_box(P, locs, pl):
    """dereferencing a Box<MaybeUninit<..>>: the expansion of vec!"""
    return "MaybeUninit<[" in P.T[P.T[locs[pl[0]]]["e"]]["n"]


def live_blocks(o):
    """blocks reachable from the entry, following only the taken side of switches on constants (cfg!, debug_assert!)"""
    bb = o["bb"]
    seen, todo = {0}, [0]
    while todo:
        b = bb[todo.pop()]
        t = b["t"]
        nxt = None
        if t[0] == "sw":
            k = t[1]
            if k[0] in ("m", "p") and not k[1][1]:
                for s in b["s"]:
                    if s[0] == "=" and s[1] == k[1]:
                        k = s[2][1] if s[2][0] == "use" else k
            if k[0] == "k" and k[2].__class__ is dict and "p" not in k[2]:
                v = int.from_bytes(bytes.fromhex(k[2]["b"]), "little")
                nxt = [x[1] for x in t[2] if x[0] == v] or [t[3]]
        for n in nxt if nxt is not None else succs(t):
            if n.__class__ is int and 0 <= n < len(bb) and n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def succs(t):
    if t[0] == "sw":
        return [x[1] for x in t[2]] + [t[3]]
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "call":
        return [t[4]]
    if t[0] == "assert":
        return [t[4]]
    return [x for x in t[1:] if x.__class__ is int]


def run(ctx):
    helpers = {}
    for cfg in ("dev", "unchecked"):
        P = ctx.prog(cfg)
        seen = 0
        for i, o in sorted(P.I.items()):
            if o["cr"] != "sudoku" or not o.get("bb"):
                continue
            seen += 1
            ctx.fns[o["n"]] = (o["cr"], o.get("f"), o.get("l"))
            ops = unsafe_ops(P, o)
            sub = in_bounds_helper(P, o) if ops else True
            ctx.ob("unsafe/%s/%s" % (cfg, o["n"]), sub, "unsafe operation %s outside an indexing helper" % (ops[:1],), "%s (%s)" % (o["n"], o.get("f")))
            if ops and sub:
                helpers.setdefault(cfg, set()).add(i)
        ctx.ob("unsafe/%s/functions" % cfg, seen >= 100, "only %d functions of the crate were found" % seen)
    # every use of a helper is in code the step lemmas have decided
    P = ctx.prog("unchecked")
    sub = ctx.__class__(ctx.pid, ctx.tier)
    sub.progs = {"dev": P}
    m = importlib.import_module("p12")
    m.run(sub)
    keys = {}
    for key, ok, detail, where in sub.obs:
        if key.endswith(("/decided", "/no-panic", "/total")) or key == "analysis":
            keys.setdefault((key, where, detail if not ok else ""), []).append(ok)
    for (key, where, detail), oks in keys.items():
        ctx.ob("in-range/" + key, all(oks), detail, where)
    ctx.fns.update(sub.fns)
    ctx.nblocks |= sub.nblocks
    ctx.steps += sub.steps
    ctx.cases += sub.cases
    hs = helpers.get("unchecked", set())
    for i, o in sorted(P.I.items()):
        live = live_blocks(o) if o.get("bb") else ()
        for n in live:
            t = o["bb"][n]["t"]
            if t[0] == "call" and t[1].__class__ is int and t[1] in hs and o["cr"] == "sudoku":
                ctx.ob("use/%s" % o["n"], (o["n"], n) in sub.nblocks, "the access in line %s of %s was not reached by the analysis" % (t[5], o["n"]), "%s (%s:%s)" % (o["n"], o.get("f"), t[5]))
            for a in (t[2] if t[0] == "call" else ()):
                if a[0] == "k" and P.T[a[1]]["k"] == "fndef" and P.T[a[1]].get("i") in hs:
                    ctx.ob("use/%s" % o["n"], False, "the indexing helper is passed as a value", "%s (%s)" % (o["n"], o.get("f")))


def in_bounds_helper(P, o):
    """only unchecked slice or array accesses whose pointer goes nowhere else: the interpretation checks each of them"""
    for what, _ in unsafe_ops(P, o):
        if not (what.startswith("core::slice::<impl [") and what.endswith((">::get_unchecked::<usize>", ">::get_unchecked_mut::<usize>"))
                or what.startswith("core::slice::<impl [") and "get_unchecked" in what):
            return False
    return True
