"""Finite value tables, stored as shared decision diagrams.

A *symbol* stands for one unknown input with a finite set of possible values.
An abstract scalar is either a plain int, an interval `Iv` (nothing else known),
or a table mapping the values of some symbols to ints/intervals.  Tables are
canonical (hash-consed, reduced), so equality of two tables is identity."""


class TooBig(Exception):
    pass


class Iv:
    """an integer known only to lie in [lo, hi]"""
    __slots__ = ("lo", "hi")
    _cache = {}

    def __new__(cls, lo, hi):
        k = (lo, hi)
        r = cls._cache.get(k)
        if r is None:
            r = object.__new__(cls)
            r.lo, r.hi = lo, hi
            cls._cache[k] = r
        return r

    def __repr__(self):
        return "[%s..%s]" % (self.lo, self.hi)

    def __reduce__(self):
        return (Iv, (self.lo, self.hi))


class Sym:
    __slots__ = ("idx", "name", "dom", "tag")
    all = []

    def __init__(self, name, dom, tag=None):
        self.idx = len(Sym.all)
        self.name = name
        self.dom = list(dom)
        self.tag = tag
        Sym.all.append(self)

    def __repr__(self):
        return self.name


class Node:
    __slots__ = ("s", "k", "u")

    def __repr__(self):
        return show(self)


_unique = {}
LIMIT = [12000000]
_budget = [0, 1 << 60, 0, 1 << 60]     # nodes made, limit, operations, limit
WORK = 4      # nodes created so far, bound for the running operation


def mk(s, kids):
    """s: symbol index; kids: tuple"""
    k0 = kids[0]
    for k in kids:
        if k is not k0 and (k.__class__ is Node or k0.__class__ is Node or k != k0):
            break
    else:
        return k0
    key = (s, kids)
    n = _unique.get(key)
    if n is None:
        n = object.__new__(Node)
        n.s, n.k = s, kids
        u = 1 << s
        for k in kids:
            if k.__class__ is Node:
                u |= k.u
        n.u = u
        _unique[key] = n
        _budget[0] += 1
        if _budget[0] > _budget[1]:
            raise TooBig()
    return n


class budget:
    """bound the number of table nodes an operation may create"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = _budget[1], _budget[3]
        _budget[1] = min(_budget[1], _budget[0] + self.n)
        _budget[3] = min(_budget[3], _budget[2] + WORK * self.n)

    def __exit__(self, *a):
        _budget[1], _budget[3] = self.old


def work(n=1):
    _budget[2] += n
    if _budget[2] > _budget[3]:
        raise TooBig()


def var(sym):
    return mk(sym.idx, tuple(sym.dom))


def reset():
    _unique.clear()
    _memo.clear()
    Sym.all.clear()


_memo = {}


def map1(key, f, v):
    """apply f to every terminal; key identifies f"""
    if v.__class__ is not Node:
        return f(v)
    kk = (key, v)
    r = _memo.get(kk)
    if r is None:
        work()
        r = mk(v.s, tuple([map1(key, f, k) for k in v.k]))
        _memo[kk] = r
    return r


def map2(key, f, a, b):
    an = a.__class__ is Node
    bn = b.__class__ is Node
    if not an and not bn:
        return f(a, b)
    kk = (key, a, b)
    r = _memo.get(kk)
    if r is None:
        work()
        if an and (not bn or a.s < b.s):
            r = mk(a.s, tuple([map2(key, f, k, b) for k in a.k]))
        elif bn and (not an or b.s < a.s):
            r = mk(b.s, tuple([map2(key, f, a, k) for k in b.k]))
        else:
            r = mk(a.s, tuple([map2(key, f, x, y) for x, y in zip(a.k, b.k)]))
        _memo[kk] = r
    return r


def _and(a, b):
    return 1 if a and b else 0


def b_and(a, b):
    # shortcuts keep diagrams of long conjunctions small and fast
    if a.__class__ is not Node:
        return b if a else 0
    if b.__class__ is not Node:
        return a if b else 0
    if a is b:
        return a
    kk = ("&", a, b)
    r = _memo.get(kk)
    if r is None:
        work()
        if a.s < b.s:
            r = mk(a.s, tuple([b_and(k, b) for k in a.k]))
        elif b.s < a.s:
            r = mk(b.s, tuple([b_and(a, k) for k in b.k]))
        else:
            r = mk(a.s, tuple([b_and(x, y) for x, y in zip(a.k, b.k)]))
        _memo[kk] = r
    return r


def _not(a):
    return 0 if a else 1


def b_not(a):
    return map1("!", _not, a)


def b_or(a, b):
    if a.__class__ is not Node:
        return 1 if a else b
    if b.__class__ is not Node:
        return 1 if b else a
    if a is b:
        return a
    kk = ("|", a, b)
    r = _memo.get(kk)
    if r is None:
        work()
        if a.s < b.s:
            r = mk(a.s, tuple([b_or(k, b) for k in a.k]))
        elif b.s < a.s:
            r = mk(b.s, tuple([b_or(a, k) for k in b.k]))
        else:
            r = mk(a.s, tuple([b_or(x, y) for x, y in zip(a.k, b.k)]))
        _memo[kk] = r
    return r


def b_xor(a, b):
    return map2("^b", lambda x, y: 1 if bool(x) != bool(y) else 0, a, b)


def cof(v, s, i):
    """cofactor of v for symbol s at value index i (s must be <= v's top)"""
    if v.__class__ is Node and v.s == s:
        return v.k[i]
    return v


def ite(c, a, b):
    if c.__class__ is not Node:
        return a if c else b
    if a is b:
        return a
    if a.__class__ is not Node and b.__class__ is not Node and a == b:
        return a
    kk = ("?", c, a, b)
    r = _memo.get(kk)
    if r is None:
        work()
        t = c.s
        if a.__class__ is Node and a.s < t:
            t = a.s
        if b.__class__ is Node and b.s < t:
            t = b.s
        n = len(Sym.all[t].dom)
        r = mk(t, tuple([ite(cof(c, t, i), cof(a, t, i), cof(b, t, i)) for i in range(n)]))
        _memo[kk] = r
    return r


def case(s, kids):
    """table that is kids[i] when symbol s has its i-th value"""
    t = s
    for k in kids:
        if k.__class__ is Node and k.s < t:
            t = k.s
    if t == s:
        return mk(s, tuple([cof(k, s, i) for i, k in enumerate(kids)]))
    kk = ("case", s, tuple(kids))
    r = _memo.get(kk)
    if r is None:
        work(len(kids))
        n = len(Sym.all[t].dom)
        r = mk(t, tuple([case(s, tuple([cof(k, t, i) for k in kids])) for i in range(n)]))
        _memo[kk] = r
    return r


def terminals(v):
    out = {}
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.__class__ is Node:
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.k)
        else:
            out[x] = 1
    return list(out)


def support(v):
    """bit mask of the symbols v depends on"""
    return v.u if v.__class__ is Node else 0


def size(v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.__class__ is Node and x not in seen:
            seen.add(x)
            st.extend(x.k)
    return len(seen)


def restrict(v, c):
    """simplify v under the assumption that the boolean table c holds"""
    if v.__class__ is not Node or c.__class__ is not Node:
        return v
    kk = ("r", v, c)
    r = _memo.get(kk)
    if r is None:
        work()
        if c.s < v.s:
            # c does not mention v's top in this node: any satisfiable branch; join c's branches
            d = 0
            for k in c.k:
                d = b_or(d, k)
            r = restrict(v, d)
        else:
            ck = c.k if c.s == v.s else None
            out = []
            last = None
            for i, k in enumerate(v.k):
                ci = ck[i] if ck is not None else c
                if ci.__class__ is not Node and not ci:
                    out.append(None)
                else:
                    x = restrict(k, ci)
                    out.append(x)
                    last = x
            if last is None:
                r = v
            else:
                first = next(x for x in out if x is not None)
                r = mk(v.s, tuple([first if x is None else x for x in out]))
        _memo[kk] = r
    return r


def evaluate(v, env):
    """env: symbol index -> value index"""
    while v.__class__ is Node:
        v = v.k[env[v.s]]
    return v


def a_model(c):
    """one assignment {symbol index: value} making boolean table c true, or None"""
    out = {}
    dead = set()

    def go(x):
        if x.__class__ is not Node:
            return bool(x) if x.__class__ is not Iv else x.hi > 0
        if x in dead:
            return False
        for i, k in enumerate(x.k):
            if go(k):
                out[x.s] = i
                return True
        dead.add(x)
        return False
    if not go(c):
        return None
    return {Sym.all[s].name: Sym.all[s].dom[i] for s, i in out.items()}


def show(v, depth=3):
    if v.__class__ is not Node:
        return repr(v)
    if depth == 0:
        return "<..>"
    s = Sym.all[v.s]
    groups = {}
    for d, k in zip(s.dom, v.k):
        groups.setdefault(k, []).append(d)
    parts = []
    for k, ds in list(groups.items())[:6]:
        parts.append("%s->%s" % (ds if len(ds) < 6 else "%s..(%d)" % (ds[:3], len(ds)), show(k, depth - 1)))
    return "{%s: %s}" % (s.name, "; ".join(parts))
