"""Helpers shared by the property modules."""
import dd
from ai import *
from interp import Interp, pc_and, pc_simpl


def sym(name, dom):
    return dd.var(dd.Sym(name, dom))


def tab(v, f):
    return dd.map1(object(), f, v)


def tab2(f, a, b):
    return dd.map2(object(), f, a, b)


def symset(n, w, nm="b"):
    return mkbits([sym("%s%d" % (nm, i), (0, 1)) for i in range(n)] + [0] * (w - n))


def symset2(n, w, na="a", nb="b"):
    A, B = [], []
    for i in range(n):
        A.append(sym("%s%d" % (na, i), (0, 1)))
        B.append(sym("%s%d" % (nb, i), (0, 1)))
    return mkbits(A + [0] * (w - n)), mkbits(B + [0] * (w - n))


def symgrid(lo=0, hi=10, nm="c", n=81):
    return tuple(sym("%s%d" % (nm, i), range(lo, hi)) for i in range(n))


def bits(v, w):
    return to_bits(v, w)


def conj(xs):
    r = 1
    for x in xs:
        r = dd.b_and(r, x)
    return r


def disj(xs):
    r = 0
    for x in xs:
        r = dd.b_or(r, x)
    return r


def eqc(v, k):
    """boolean table: v == constant k"""
    if v.__class__ is not Node:
        return 1 if v == k else 0
    return dd.map1(("eqc", k), lambda x: 1 if x == k else 0, v)


def pc_conj(pc):
    return conj([c for c in pc])


def event_cond(events):
    """boolean table: some panic event happens"""
    return disj([pc_conj(e.pc) for e in events])


def vec(it, st, v):
    """elements of a Vec value"""
    buf, n = v[0][0], v[1]
    if n.__class__ is not int:
        return n
    return [it.load(st, it.ptr_offset(buf, i, 1)) for i in range(n)]


def count_true(bs, lim=None):
    """table: number of true tables in bs"""
    r = 0
    for b in bs:
        r = dd.map2("addb", lambda x, y: x + y, r, b)
    return r


def vfield(P, tyname, variant, field):
    """index of a named field of a struct/enum variant"""
    for o in P.T.values():
        if o["n"] == tyname or o["n"].startswith(tyname + "<"):
            for v in o["v"]:
                if variant is None or v[0] == variant:
                    for i, f in enumerate(v[2]):
                        if f[0] == field:
                            return i
    raise Inconclusive("field %s of %s not found" % (field, tyname))


def variant_index(P, tyname, variant):
    for o in P.T.values():
        if (o["n"] == tyname or o["n"].startswith(tyname + "<")) and o.get("v"):
            for i, v in enumerate(o["v"]):
                if v[0] == variant:
                    return i
    raise Inconclusive("variant %s of %s not found" % (variant, tyname))


def sel(t, m):
    """m[value of t]"""
    if t.__class__ is not Node:
        return m[t]
    ts = dd.terminals(t)
    r = m[ts[0]]
    for k in ts[1:]:
        r = dd.ite(eqc(t, k), m[k], r)
    return r


def combine(rs):
    """one value from several outcomes of an analysis, chosen by their path conditions (which cover all inputs)"""
    if len(rs) == 1:
        return rs[0][0].pc, rs[0][1]

    def ite(c, a, b):
        if a is b or a == b:
            return a
        if a.__class__ is tuple and b.__class__ is tuple and len(a) == len(b):
            return tuple([ite(c, x, y) for x, y in zip(a, b)])
        return dd.ite(c, a, b)
    out = rs[-1][1]
    for st, v in reversed(rs[:-1]):
        out = ite(conj(st.pc), v, out)
    return (), out
