"""Abstract interpreter over the dumped MIR.

Domain: every scalar is a finite value table over the symbolic inputs (dd.py), a
vector of per-bit tables (`Bits`) or an interval; aggregates are tuples, enums
`En`, pointers `Ptr` into a store of abstract locations.  Abstract states are
joined at every control-flow merge point and at function returns; calls are
analysed in the calling context."""
import json, sys, heapq, os
import dd
from dd import Iv, Node, Sym, TooBig

sys.setrecursionlimit(60000)


class Inconclusive(Exception):
    pass


class _U:
    __slots__ = ()

    def __repr__(self):
        return "UNINIT"


UNINIT = _U()


class Ptr:
    __slots__ = ("base", "path", "meta", "h")

    def __init__(self, base, path, meta=None):
        self.base, self.path, self.meta = base, path, meta
        self.h = hash((base, path, meta))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return o.__class__ is Ptr and self.h == o.h and self.base == o.base and self.path == o.path and self.meta == o.meta

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "Ptr(%s,%s%s)" % (self.base, self.path, "" if self.meta is None else ",meta=%s" % (self.meta,))


class Mix:
    """d[0] + r[0]*(d[1] + r[1]*(...)): a number kept as mixed-radix digits (tables below their radix)"""
    __slots__ = ("d", "r")

    def __init__(self, d, r):
        self.d, self.r = d, r

    def table(self):
        v, base = 0, 1
        for d, r in zip(self.d, self.r):
            v = dd.map2(("mix", base), lambda a, y, base=base: a + base * y, v, d)
            base *= r
        return v

    def op(self, op, b):
        if b.__class__ is int and b == self.r[0] and op in ("Rem", "Div"):
            if op == "Rem":
                return self.d[0]
            if len(self.d) == 2:
                return self.d[1]
            return Mix(self.d[1:], self.r[1:])
        return None


class Fn:
    """function pointer / reified fn"""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return hash(("fn", self.i))

    def __eq__(self, o):
        return o.__class__ is Fn and o.i == self.i

    def __repr__(self):
        return "Fn(%d)" % self.i


class Opq:
    """opaque value identified by a tag"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __hash__(self):
        return hash(("opq", self.tag))

    def __eq__(self, o):
        return o.__class__ is Opq and o.tag == self.tag

    def __repr__(self):
        return "Opq(%s)" % (self.tag,)


class En:
    """enum value: d = variant index (scalar), v = {variant: tuple of fields}"""
    __slots__ = ("d", "v")

    def __init__(self, d, v):
        self.d, self.v = d, v

    def __eq__(self, o):
        return o.__class__ is En and self.d == o.d and self.v == o.v

    def __hash__(self):
        return hash((self.d, tuple(sorted(self.v.items()))))

    def __repr__(self):
        return "En(%s,%s)" % (self.d, self.v)


class Bits:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return o.__class__ is Bits and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return "Bits(%s)" % "".join(str(x) if x.__class__ is int else "?" for x in reversed(self.b))


# ---------------------------------------------------------------- program

class Prog:
    def __init__(self, path):
        self.T, self.I, self.A, self.R = {}, {}, {}, []
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                if "T" in o:
                    if o.get("len") == -1 and "cnt" in o:
                        o["len"] = o["cnt"]
                    self.T[o["T"]] = o
                elif "I" in o:
                    self.I[o["I"]] = o
                elif "A" in o:
                    self.A[o["A"]] = o
                elif "R" in o:
                    self.R = o["R"]
        self.by_name = {}
        for i, o in self.I.items():
            self.by_name.setdefault(o["n"], []).append(i)
            o["kind2"] = None
        self.rep = {}
        self.ti = {}
        self.alloc_vals = {}
        self.tname = {}
        for t, o in self.T.items():
            self.tname.setdefault(o["n"], t)

    def fn(self, name):
        l = self.by_name.get(name)
        if not l:
            raise Inconclusive("anchor not found: function %s" % name)
        return l[0]

    def find(self, pred):
        return [i for i, o in self.I.items() if pred(o)]

    def sz(self, t):
        return self.T[t].get("sz", 0)

    def transparent(self, t):
        """index of the only non-ZST field of struct/union t, or None"""
        r = self.rep.get(t, 0)
        if r != 0:
            return r
        o = self.T[t]
        r = None
        if o["k"] in ("struct", "union"):
            nz = [i for i, f in enumerate(o["v"][0][2]) if self.T[f[1]].get("sz", 1) != 0 or self.T[f[1]]["k"] in ("slice", "str", "dyn")]
            if len(nz) == 1:
                r = nz[0]
        self.rep[t] = r
        return r

    def is_zst(self, t):
        o = self.T[t]
        return o.get("sz") == 0 and o["k"] not in ("slice", "str", "dyn", "enum") and not (o["k"] == "struct" and self.unsized_tail(t))

    def unsized_tail(self, t):
        o = self.T[t]
        while o["k"] == "struct" and o["v"][0][2]:
            o = self.T[o["v"][0][2][-1][1]]
        return o if o["k"] in ("slice", "str", "dyn") else None

    def strip(self, t):
        """follow transparent wrappers"""
        while True:
            o = self.T[t]
            if o["k"] in ("struct", "union"):
                f = self.transparent(t)
                if f is None:
                    return t
                t = o["v"][0][2][f][1]
            elif o["k"] == "pat":
                t = o["e"]
            else:
                return t

    def intinfo(self, t):
        """(width, signed) of scalar type t"""
        r = self.ti.get(t)
        if r is None:
            o = self.T[self.strip(t)]
            k = o["k"]
            if k == "int":
                r = (o["w"], o["sg"])
            elif k == "bool":
                r = (1, 0)
            elif k == "char":
                r = (32, 0)
            else:
                r = (64, 0)
            self.ti[t] = r
        return r


def wrap(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return v


def rng(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}


def lohi(x):
    return (x.lo, x.hi) if x.__class__ is Iv else (x, x)


def ivwrap(lo, hi, w, sg):
    a, b = rng(w, sg)
    if lo < a or hi > b:
        m = 1 << w
        if lo.__class__ is int and hi.__class__ is int and hi - lo < m and (lo - a) // m == (hi - a) // m:
            k = (lo - a) // m * m
            return ivwrap(lo - k, hi - k, w, sg)
        return Iv(a, b)
    return lo if lo == hi else Iv(lo, hi)


def t_bin(op, w, sg, a, b):
    """terminal x terminal"""
    ca, cb = a.__class__, b.__class__
    if ca is bool:
        a = int(a); ca = int
    if cb is bool:
        b = int(b); cb = int
    if ca is int and cb is int:
        if op == "Add":
            return wrap(a + b, w, sg)
        if op == "Sub":
            return wrap(a - b, w, sg)
        if op == "Mul":
            return wrap(a * b, w, sg)
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "Shl":
            return wrap(a << (b % w), w, sg)
        if op == "Shr":
            return wrap(a >> (b % w), w, sg)
        if op == "Eq":
            return 1 if a == b else 0
        if op == "Ne":
            return 1 if a != b else 0
        if op == "Lt":
            return 1 if a < b else 0
        if op == "Le":
            return 1 if a <= b else 0
        if op == "Gt":
            return 1 if a > b else 0
        if op == "Ge":
            return 1 if a >= b else 0
        if op == "Cmp":
            return 0 if a < b else (1 if a == b else 2)   # variant index of Ordering
        if op in ("Div", "Rem"):
            if b == 0:
                return 0
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return wrap(q, w, sg) if op == "Div" else a - q * b
        if op == "OvfAdd":
            return 1 if wrap(a + b, w, sg) != a + b else 0
        if op == "OvfSub":
            return 1 if wrap(a - b, w, sg) != a - b else 0
        if op == "OvfMul":
            return 1 if wrap(a * b, w, sg) != a * b else 0
        if op in ("OvfShl", "OvfShr"):
            return 0 if 0 <= b < w else 1
    if ca is Ptr or cb is Ptr:
        return p_bin(op, a, b)
    if (ca is Fn or ca is Opq or cb is Fn or cb is Opq) and op in ("Eq", "Ne"):
        if a == b:
            return 1 if op == "Eq" else 0
        if ca is Fn and cb is Fn:
            return 0 if op == "Eq" else 1
        return Iv(0, 1)
    if ca is Iv or cb is Iv:
        if not (ca in (Iv, int) and cb in (Iv, int)):
            return Iv(*((0, 1) if op in CMP else rng(w, sg)))
        al, ah = lohi(a)
        bl, bh = lohi(b)
        if op == "Add":
            return ivwrap(al + bl, ah + bh, w, sg)
        if op == "Sub":
            return ivwrap(al - bh, ah - bl, w, sg)
        if op == "Mul":
            c = [al * bl, al * bh, ah * bl, ah * bh]
            return ivwrap(min(c), max(c), w, sg)
        if op == "BitAnd" and al >= 0 and bl >= 0:
            return ivwrap(0, min(ah, bh), w, sg)
        if op in ("BitOr", "BitXor") and al >= 0 and bl >= 0:
            return ivwrap(0, (1 << max(ah.bit_length(), bh.bit_length())) - 1, w, sg)
        if op == "Shr" and cb is int and al >= 0:
            return ivwrap(al >> (b % w), ah >> (b % w), w, sg)
        if op == "Shl" and cb is int and al >= 0:
            return ivwrap(al << (b % w), ah << (b % w), w, sg)
        if op == "Div" and cb is int and b > 0 and al >= 0:
            return ivwrap(al // b, ah // b, w, sg)
        if op == "Rem" and cb is int and b > 0 and al >= 0:
            if al // b == ah // b:
                return ivwrap(al % b, ah % b, w, sg)
            return ivwrap(0, min(ah, b - 1), w, sg)
        if op == "Rem" and al >= 0 and bl > 0:
            return ivwrap(0, min(ah, bh - 1), w, sg)
        if op == "Eq" or op == "Ne":
            if ah < bl or bh < al:
                return 0 if op == "Eq" else 1
            return Iv(0, 1)
        if op == "Lt":
            return 1 if ah < bl else (0 if al >= bh else Iv(0, 1))
        if op == "Le":
            return 1 if ah <= bl else (0 if al > bh else Iv(0, 1))
        if op == "Gt":
            return 1 if al > bh else (0 if ah <= bl else Iv(0, 1))
        if op == "Ge":
            return 1 if al >= bh else (0 if ah < bl else Iv(0, 1))
        if op == "Cmp":
            return 0 if ah < bl else (2 if al > bh else Iv(0, 2))
        if op.startswith("Ovf"):
            lo, hi = rng(w, sg)
            if op == "OvfAdd":
                x, y = al + bl, ah + bh
            elif op == "OvfSub":
                x, y = al - bh, ah - bl
            elif op == "OvfMul":
                c = [al * bl, al * bh, ah * bl, ah * bh]
                x, y = min(c), max(c)
            else:
                return 0 if 0 <= bl and bh < w else Iv(0, 1)
            if lo <= x and y <= hi:
                return 0
            if y < lo or x > hi:
                return 1
            return Iv(0, 1)
        return Iv(*rng(w, sg))
    raise Inconclusive("operation %s on %r, %r" % (op, a, b))


def p_last(p):
    if p.path and p.path[-1].__class__ is tuple and p.path[-1][0] == "i":
        return p.path[:-1], p.path[-1][1]
    return p.path, None


def p_bin(op, a, b):
    if a.__class__ is Ptr and b.__class__ is Ptr:
        pa, ia = p_last(a)
        pb, ib = p_last(b)
        if a.base == b.base and (pa == pb or a.path == b.path):
            if a.path == b.path:
                ia = ib = 0
            elif ia is None:
                ia = 0
            elif ib is None:
                ib = 0
            if op in CMP:
                return t_bin(op, 64, 1, ia, ib)
            if op == "PtrDiff":
                return t_bin("Sub", 64, 1, ia, ib)
        elif op == "Eq":
            return 0
        elif op == "Ne":
            return 1
    elif op == "Eq":
        return 0
    elif op == "Ne":
        return 1
    elif op == "BitAnd" and b.__class__ is int and b in (1, 3, 7):
        return 0        # allocations are aligned
    elif op == "Sub" and a.__class__ is Ptr and b.__class__ is int:
        return p_add(a, -b)
    raise Inconclusive("pointer operation %s %r %r" % (op, a, b))


def p_add(p, n, esz=1):
    if p.__class__ is int:
        return p + n * esz
    if n == 0:
        return p
    path, i = p_last(p)
    if n.__class__ is Iv:
        return Ptr(p.base, path + (("i", t_bin("Add", 64, 0, i or 0, n)),), p.meta)
    if i.__class__ is Iv:
        return Ptr(p.base, path + (("i", t_bin("Add", 64, 0, i, n)),), p.meta)
    if i is None:
        return Ptr(p.base, p.path + (("i", n),), p.meta) if not (p.path and p.path[-1].__class__ is tuple and p.path[-1][0] == "s") else Ptr(p.base, p.path[:-1] + (("i", p.path[-1][1] + n),), p.meta)
    return Ptr(p.base, path + (("i", i + n),), p.meta)


def mapt(key, f, v):
    """map over terminals of a scalar table"""
    if v.__class__ is Node:
        return dd.map1(key, f, v)
    return f(v)


def to_bits(v, w):
    if v.__class__ is Bits:
        b = v.b
        if len(b) < w:
            return b + (0,) * (w - len(b))
        return b[:w]
    if v.__class__ is int:
        return tuple([(v >> i) & 1 for i in range(w)])
    if v.__class__ is Node:
        for t in dd.terminals(v):
            if t.__class__ is not int:
                raise Inconclusive("bit vector of non-integer table")
        return tuple([dd.map1(("bit", i), lambda x, i=i: (x >> i) & 1, v) for i in range(w)])
    raise Inconclusive("bit vector of %r" % (v,))


BITS_LIMIT = [100000]


def bits_to_dd(b, limit=None):
    """table of the integer value of a bit vector"""
    if all(x.__class__ is int for x in b):
        return sum(x << i for i, x in enumerate(b))
    r = 0
    with dd.budget(limit or BITS_LIMIT[0]):
        for i in range(len(b) - 1, -1, -1):
            x = b[i]
            if x == 0 and x.__class__ is int:
                continue
            r = dd.map2(("orbit", i), lambda p, q, i=i: p | (q << i), r, x)
    return r


def mkbits(b):
    b = tuple(b)
    for x in b:
        if x.__class__ is Node:
            return Bits(b)
    return sum(x << i for i, x in enumerate(b))


def bits_add(a, b, c):
    out = []
    for x, y in zip(a, b):
        xy = dd.b_xor(x, y)
        out.append(dd.b_xor(xy, c))
        c = dd.b_or(dd.b_and(x, y), dd.b_and(c, xy))
    return out, c


def bits_lt(a, b):
    r = 0
    for x, y in zip(a, b):
        r = dd.ite(dd.b_xor(x, y), y, r)
    return r


def bits_eq(a, b):
    r = 1
    for x, y in zip(reversed(a), reversed(b)):
        r = dd.b_and(r, dd.b_not(dd.b_xor(x, y)))
        if r.__class__ is int and not r:
            return 0
    return r


SYMLIM = 3000


def s_bin(op, w, sg, a, b):
    """scalar x scalar -> scalar"""
    if op.endswith("Unchecked"):
        op = op[:-9]
    if a is UNINIT or b is UNINIT:
        raise Inconclusive("use of an uninitialised or out-of-bounds value")
    ca, cb = a.__class__, b.__class__
    if ca is not Node and cb is not Node and ca is not Bits and cb is not Bits:
        return t_bin(op, w, sg, a, b)
    if ca is not Bits and cb is not Bits:
        if op in ("BitOr", "BitAnd", "BitXor") and w > 1:
            try:
                with dd.budget(SYMLIM):
                    return dd.map2((op, w, sg), lambda x, y: t_bin(op, w, sg, x, y), a, b)
            except TooBig:
                pass
        else:
            return dd.map2((op, w, sg), lambda x, y: t_bin(op, w, sg, x, y), a, b)
    # bit vectors
    if op in ("Shl", "Shr"):
        if cb is Bits:
            b = bits_to_dd(b.b)
        A = to_bits(a, w)

        def sh(n):
            n %= w
            if op == "Shl":
                return (0,) * n + A[:w - n]
            return A[n:] + ((A[-1] if sg else 0),) * n
        if b.__class__ is int:
            return mkbits(sh(b))
        # symbolic shift: choose
        vals = {t: sh(t) for t in dd.terminals(b)}
        return mkbits([case_t(b, {t: vals[t][i] for t in vals}) for i in range(w)])
    A, B = to_bits(a, w), to_bits(b, w)
    if op == "BitAnd":
        return mkbits([dd.b_and(x, y) for x, y in zip(A, B)])
    if op == "BitOr":
        return mkbits([dd.b_or(x, y) for x, y in zip(A, B)])
    if op == "BitXor":
        return mkbits([dd.b_xor(x, y) for x, y in zip(A, B)])
    if op == "Eq":
        return bits_eq(A, B)
    if op == "Ne":
        return dd.b_not(bits_eq(A, B))
    if sg and op not in ("Add", "Sub"):
        raise Inconclusive("signed bit vector %s" % op)
    if op == "Add":
        return mkbits(bits_add(A, B, 0)[0])
    if op == "Sub":
        return mkbits(bits_add(A, [dd.b_not(x) for x in B], 1)[0])
    if op == "OvfAdd":
        return bits_add(A, B, 0)[1]
    if op == "OvfSub":
        return dd.b_not(bits_add(A, [dd.b_not(x) for x in B], 1)[1])
    if op == "Lt":
        return bits_lt(A, B)
    if op == "Gt":
        return bits_lt(B, A)
    if op == "Ge":
        return dd.b_not(bits_lt(A, B))
    if op == "Le":
        return dd.b_not(bits_lt(B, A))
    if op == "Cmp":
        return dd.ite(bits_lt(A, B), 0, dd.ite(bits_eq(A, B), 1, 2))
    if op in ("Div", "Rem") and b.__class__ is int and b & (b - 1) == 0 and b:
        n = b.bit_length() - 1
        return mkbits(A[n:] + (0,) * n) if op == "Div" else mkbits(A[:n] + (0,) * (w - n))
    x = bits_to_dd(A)
    y = bits_to_dd(B)
    return dd.map2((op, w, sg), lambda p, q: t_bin(op, w, sg, p, q), x, y)


def case_t(v, m):
    """table: m[t] where v == t (m: terminal -> scalar)"""
    if v.__class__ is not Node:
        return m[v]
    memo = {}

    def go(n):
        if n.__class__ is not Node:
            return m[n]
        r = memo.get(n)
        if r is None:
            r = dd.case(n.s, [go(k) for k in n.k])
            memo[n] = r
        return r
    return go(v)


def s_scalar(v):
    c = v.__class__
    return c is int or c is Node or c is Bits or c is Iv or c is Ptr or c is Fn or c is Opq


def s_ite(c, a, b):
    if a is b:
        return a
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if a.__class__ is Bits or b.__class__ is Bits:
        w = max(len(x.b) for x in (a, b) if x.__class__ is Bits)
        A, B = to_bits(a, w), to_bits(b, w)
        return mkbits([dd.ite(c, x, y) for x, y in zip(A, B)])
    return dd.ite(c, a, b)


def vmerge(c, a, b):
    """value that is a where c holds, b elsewhere"""
    if a is b or a is UNINIT:
        return b
    if b is UNINIT:
        return a
    ca, cb = a.__class__, b.__class__
    if ca is tuple and cb is tuple:
        la, lb = len(a), len(b)
        if la != lb:
            if la < lb:
                a = a + (UNINIT,) * (lb - la)
            else:
                b = b + (UNINIT,) * (la - lb)
        out = [x if x is y else vmerge(c, x, y) for x, y in zip(a, b)]
        return tuple(out)
    if ca is En and cb is En:
        d = s_ite(c, a.d, b.d)
        v = dict(a.v)
        for k, f in b.v.items():
            if k in v:
                v[k] = vmerge(c, v[k], f)
            else:
                v[k] = f
        return En(d, v)
    if ca is tuple or cb is tuple or ca is En or cb is En:
        raise TooBig()
    return s_ite(c, a, b)


def vcase(n, f):
    """n: table of terminals, f: terminal -> value; the value selected by n"""
    if n.__class__ is not Node:
        return f(n)
    memo = {}

    def go(x):
        if x.__class__ is not Node:
            r = memo.get(("t", x))
            if r is None:
                r = memo[("t", x)] = f(x)
            return r
        r = memo.get(x)
        if r is None:
            r = memo[x] = vjoin(x.s, [go(k) for k in x.k])
        return r
    return go(n)


def vjoin(s, vals):
    v0 = vals[0]
    for v in vals:
        if v is not v0 and not (v.__class__ is int and v0.__class__ is int and v == v0):
            break
    else:
        return v0
    known = [v for v in vals if v is not UNINIT]
    if not known:
        return UNINIT
    if len(known) < len(vals):
        vals = [known[0] if v is UNINIT else v for v in vals]
        return vjoin(s, vals)
    if any(v.__class__ is tuple for v in vals):
        n = max(len(v) for v in vals)
        vals = [v + (UNINIT,) * (n - len(v)) for v in vals]
        return tuple([vjoin(s, [v[i] for v in vals]) for i in range(n)])
    if any(v.__class__ is En for v in vals):
        d = vjoin(s, [v.d for v in vals])
        keys = []
        for v in vals:
            for k in v.v:
                if k not in keys:
                    keys.append(k)
        return En(d, {k: vjoin(s, [v.v.get(k, UNINIT) for v in vals]) for k in keys})
    if any(v.__class__ is Bits for v in vals):
        w = max(len(v.b) for v in vals if v.__class__ is Bits)
        bs = [to_bits(v, w) for v in vals]
        return mkbits([dd.case(s, [b[i] for b in bs]) for i in range(w)])
    return dd.case(s, vals)


def rd_path(v, path):
    for e in path:
        if v is UNINIT:
            return UNINIT
        if e.__class__ is int:
            if v.__class__ is not tuple:
                raise Inconclusive("field %d of %r" % (e, v))
            v = v[e] if e < len(v) else UNINIT
        else:
            k = e[0]
            if k == "i":
                if v.__class__ is not tuple:
                    if e[1] == 0:
                        continue    # pointer to a single object seen as a one-element array
                    raise Inconclusive("element %d of %r" % (e[1], v))
                v = v[e[1]] if 0 <= e[1] < len(v) else UNINIT
            elif k == "d":
                if v.__class__ is not En:
                    raise Inconclusive("variant of %r" % (v,))
                v = v.v.get(e[1], UNINIT)
            elif k == "s":
                v = v[e[1]:e[1] + e[2]]
            elif k == "z":
                return ()
            else:
                raise Inconclusive("path %r" % (e,))
    return v


def wr_path(v, path, i, new):
    if i == len(path):
        return new
    e = path[i]
    if e.__class__ is int or e[0] == "i":
        k = e if e.__class__ is int else e[1]
        if v is UNINIT:
            v = ()
        if v.__class__ is not tuple:
            if k == 0 and e.__class__ is tuple:
                return wr_path(v, path, i + 1, new)
            raise Inconclusive("write to part %r of %r" % (e, v))
        if k < 0:
            raise Inconclusive("write before the start of an object")
        if k >= len(v):
            v = v + (UNINIT,) * (k + 1 - len(v))
        x = wr_path(v[k], path, i + 1, new)
        return v[:k] + (x,) + v[k + 1:]
    if e[0] == "d":
        if v is UNINIT:
            v = En(UNINIT, {})
        d = dict(v.v)
        d[e[1]] = wr_path(d.get(e[1], UNINIT), path, i + 1, new)
        return En(v.d, d)
    if e[0] == "s":
        if v is UNINIT:
            v = ()
        if len(v) < e[1] + e[2]:
            v = v + (UNINIT,) * (e[1] + e[2] - len(v))
        sub = wr_path(v[e[1]:e[1] + e[2]], path, i + 1, new)
        return v[:e[1]] + sub + v[e[1] + e[2]:]
    if e[0] == "z":
        return v
    raise Inconclusive("write path %r" % (e,))


class State:
    __slots__ = ("m", "pc", "g")

    def __init__(self, m, pc, g):
        self.m, self.pc, self.g = m, pc, g

    def fork(self):
        return State(dict(self.m), self.pc, dict(self.g) if self.g else {})


# instruction index / WTO -------------------------------------------------

def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


def wto(bbs):
    """returns idx[block] (position) and last[head] for component heads"""
    n = len(bbs)
    suc = [succs(b["t"]) for b in bbs]
    order = []
    last = {}

    # iterative Bourdoncle via repeated SCC
    def sccs(nodes, removed):
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]
        for root in nodes:
            if root in index:
                continue
            work = [(root, iter([s for s in suc[root] if s in nodeset and (s not in removed)]))]
            index[root] = low[root] = cnt[0]; cnt[0] += 1
            st.append(root); onst.add(root)
            while work:
                u, it = work[-1]
                adv = False
                for v in it:
                    if v not in index:
                        index[v] = low[v] = cnt[0]; cnt[0] += 1
                        st.append(v); onst.add(v)
                        work.append((v, iter([s for s in suc[v] if s in nodeset and (s not in removed)])))
                        adv = True
                        break
                    elif v in onst:
                        low[u] = min(low[u], index[v])
                if adv:
                    continue
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        x = st.pop(); onst.discard(x)
                        comp.append(x)
                        if x == u:
                            break
                    out.append((u, comp))
        out.reverse()
        return out

    def go(nodes, entry):
        nonlocal nodeset
        nodeset = set(nodes)
        comps = sccs([entry] + [x for x in nodes if x != entry], ())
        # the SCCs come in topological order; the first visited node of each is its head
        for head, comp in comps:
            if len(comp) == 1 and head not in suc[head]:
                order.append(head)
                continue
            order.append(head)
            rest = [x for x in comp if x != head]
            if rest:
                save = nodeset
                # successors of head inside the component, in reach order
                inner_go(rest, head)
                nodeset = save
            last[head] = len(order) - 1

    def inner_go(rest, head):
        nonlocal nodeset
        nodeset = set(rest)
        entries = [s for s in suc[head] if s in nodeset]
        comps = sccs(list(dict.fromkeys(entries + rest)), ())
        for h, comp in comps:
            if len(comp) == 1 and h not in suc[h]:
                order.append(h)
                continue
            order.append(h)
            r2 = [x for x in comp if x != h]
            if r2:
                save = nodeset
                inner_go(r2, h)
                nodeset = save
            last[h] = len(order) - 1

    nodeset = set()
    reach = [0]
    seen = {0}
    for x in reach:
        for s in suc[x]:
            if s not in seen:
                seen.add(s)
                reach.append(s)
    go(reach, 0)
    idx = {b: i for i, b in enumerate(order)}
    return idx, last


