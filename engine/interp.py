"""The interpreter proper: abstract execution of one function body with joins."""
import heapq
import ai, dd
from ai import *
from dd import Iv, Node, Sym, TooBig


class Event:
    __slots__ = ("kind", "fn", "line", "pc", "detail", "stack")

    def __init__(self, kind, fn, line, pc, detail, stack):
        self.kind, self.fn, self.line, self.pc, self.detail, self.stack = kind, fn, line, pc, detail, stack

    def __repr__(self):
        return "%s in %s:%s %s" % (self.kind, self.fn, self.line, self.detail)

    def where(self, crate_prefix=("sudoku", "<sudoku", "probe")):
        """innermost frame that belongs to the analysed crate"""
        for fn, line in reversed(self.stack):
            if fn.startswith("sudoku::") or fn.startswith("<sudoku::") or "sudoku::" in fn.split(" as ")[0]:
                return fn, line
        return self.stack[-1]


PC_LIMIT = [20000]


def pc_and(pc, c, limit=None):
    """pc plus conjunct c; None if infeasible"""
    limit = limit or PC_LIMIT[0]
    if c.__class__ is not Node:
        if c.__class__ is Iv:
            c = 1 if c.hi else 0
        return pc if c else None
    sup = dd.support(c)
    keep = []
    for k in pc:
        if sup & dd.support(k):
            try:
                with dd.budget(limit):
                    c2 = dd.b_and(c, k)
                c = c2
                if c.__class__ is not Node:
                    if not c:
                        return None
                    return None if not c else tuple(keep)
                sup = dd.support(c)
            except TooBig:
                keep.append(k)
        else:
            keep.append(k)
    keep.append(c)
    return tuple(keep)


def pc_simpl(pc, v):
    """simplify table v under pc"""
    if v.__class__ is not Node:
        return v
    for k in pc:
        if v.__class__ is not Node:
            break
        sv = dd.support(v)
        if sv & dd.support(k):
            try:
                with dd.budget(PC_LIMIT[0]):
                    v = dd.restrict(v, k)
            except TooBig:
                pass
    return v


def pc_feasible(pc, c):
    """may c hold under pc (pairwise check against overlapping conjuncts)"""
    c = pc_simpl(pc, c)
    if c.__class__ is Node:
        return True
    return bool(c) if c.__class__ is not Iv else c.hi > 0


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog):
        self.P = prog
        self.events = []
        self.models = {}
        self.hooks = {}         # def path -> hook(interp, st, inst, args, call) run before the body
        self.stack = []
        self.heapn = 0
        self.steps = 0
        self.wtoc = {}
        self.gcache = {}
        self.visited = {}       # instance id -> number of times analysed
        self.blocks = set()     # (inst, block) analysed
        self.calls = set()
        self.maxstates = 3000
        self.merge_limit = 60000
        self.line = 0
        self.opq = 0
        self.nosplit = None
        self.statics = {}
        import models
        models.install(self)

    # ------------------------------------------------------------ constants
    def const(self, k):
        key = id(k)
        r = self.gcache.get(key)
        if r is not None:
            return r[0]
        ty, a = k[1], k[2]
        if a == 0:
            v = self.zst(ty)
        elif a is None:
            raise Inconclusive("unevaluated constant of type %s" % self.P.T[ty]["n"])
        else:
            v = self.decode_alloc(ty, a, 0)
        self.gcache[key] = (v, k)
        return v

    def zst(self, ty):
        o = self.P.T[ty]
        if o["k"] == "enum":
            return En(o.get("vs", 0) if o.get("vs") != "empty" else 0, {})
        if o["k"] == "array":
            return (self.zst(o["e"]),) * min(o["len"], 1)
        return ()

    def decode_alloc(self, ty, a, off):
        b = a.get("_b")
        if b is None:
            s = a["b"]
            b = a["_b"] = [None if s[i] == "_" else int(s[i:i + 2], 16) for i in range(0, len(s), 2)]
            a["_p"] = {o: i for o, i in a.get("p", [])}
        return self.decode(ty, b, a["_p"], off)

    def raw(self, b, off, n):
        x = 0
        for i in range(n - 1, -1, -1):
            v = b[off + i]
            if v is None:
                return None
            x = x << 8 | v
        return x

    def decode(self, ty, b, p, off):
        o = self.P.T[ty]
        k = o["k"]
        if k == "int":
            x = self.raw(b, off, o["w"] // 8)
            return UNINIT if x is None else wrap(x, o["w"], o["sg"])
        if k == "bool" or k == "char":
            x = self.raw(b, off, o["sz"])
            return UNINIT if x is None else x
        if k == "pat":
            return self.decode(o["e"], b, p, off)
        if k in ("ref", "ptr"):
            return self.mkptr(o["e"], b, p, off)
        if k == "fnptr":
            if off in p:
                return self.allocptr(p[off], None, 0)
            return self.raw(b, off, 8)
        if k in ("fndef", "never"):
            return ()
        if k == "array":
            e = o["e"]
            st = o.get("stride", self.P.sz(e))
            return tuple([self.decode(e, b, p, off + i * st) for i in range(o["len"])])
        if k in ("tuple", "closure"):
            es = o["e"] if k == "tuple" else o["up"]
            return tuple([self.decode(e, b, p, off + f) for e, f in zip(es, o.get("off", []))])
        if k == "struct":
            fs = o["v"][0][2]
            t = self.P.transparent(ty)
            offs = o.get("off", [])
            if t is not None:
                return self.decode(fs[t][1], b, p, off + offs[t])
            if o["sz"] == 0:
                return ()
            return tuple([self.decode(f[1], b, p, off + q) for f, q in zip(fs, offs)])
        if k == "union":
            t = self.P.transparent(ty)
            if t is not None:
                return self.decode(o["v"][0][2][t][1], b, p, off)
            raise Inconclusive("constant of union type " + o["n"])
        if k == "enum":
            vi, offs = self.enum_variant(o, b, p, off)
            if vi is None:
                return UNINIT
            fs = o["v"][vi][2]
            if not fs:
                return En(vi, {})
            return En(vi, {vi: tuple([self.decode(f[1], b, p, off + q) for f, q in zip(fs, offs)])})
        raise Inconclusive("constant of type " + o["n"])

    def enum_variant(self, o, b, p, off):
        vs = o.get("vs")
        if vs is not None:
            return (vs if vs != "empty" else 0), o.get("off", [])
        vm = o["vm"]
        to = o["off"][vm["tf"]]
        w = vm["tsz"] * 8
        if off + to in p:
            tag = None
        else:
            tag = self.raw(b, off + to, vm["tsz"])
            if tag is None:
                return None, []
        enc = vm["enc"]
        if enc == 0:
            for i, v in enumerate(o["v"]):
                if v[1] & ((1 << w) - 1) == tag:
                    return i, vm["vo"][i]
            raise Inconclusive("bad discriminant in constant of " + o["n"])
        un, s, e, ns = enc
        if tag is not None:
            rel = (tag - ns) & ((1 << w) - 1)
            if rel <= e - s:
                return s + rel, vm["vo"][s + rel]
        return un, vm["vo"][un]

    def mkptr(self, pointee, b, p, off):
        tail = self.P.T[pointee]
        un = tail if tail["k"] in ("slice", "str", "dyn") else self.P.unsized_tail(pointee)
        meta = None
        if un is not None:
            if un["k"] == "dyn":
                meta = ("vt", p[off + 8]) if off + 8 in p else None
            else:
                meta = self.raw(b, off + 8, 8)
        addr = self.raw(b, off, 8)
        if off not in p:
            if addr is None:
                return UNINIT
            if meta is not None:
                return Ptr(("addr", addr), (("i", 0),), meta)
            return addr
        return self.allocptr(p[off], pointee, addr or 0, meta)

    def allocptr(self, aid, pointee, off, meta=None):
        a = self.P.A[aid]
        if a["k"] == "fn":
            return Fn(a["i"])
        if a["k"] == "vt":
            return Ptr(("VT", aid), ())
        if a["k"] == "static":
            return Ptr(("S", aid), ()) if meta is None else Ptr(("S", aid), (("i", 0),), meta)
        t = self.P.T[pointee] if pointee is not None else None
        if t is not None and t["k"] == "slice":
            return Ptr(("A", aid, ("sl", t["e"]), off), (("i", 0),), meta)
        if t is not None and t["k"] == "str":
            return Ptr(("A", aid, ("sl", None), off), (("i", 0),), meta)
        return Ptr(("A", aid, pointee, off), (), meta)

    def global_val(self, base):
        r = self.gcache.get(base)
        if r is not None:
            return r[0]
        if base[0] == "A":
            a = self.P.A[base[1]]["m"]
            ty, off = base[2], base[3]
            if ty.__class__ is tuple:
                self.decode_alloc_prep(a)
                e = ty[1]
                if e is None:
                    v = tuple(a["_b"][off:])
                else:
                    es = self.P.sz(e)
                    if es == 0:
                        v = ((),) * 64
                    else:
                        v = tuple([self.decode(e, a["_b"], a["_p"], off + i * es) for i in range((len(a["_b"]) - off) // es)])
            else:
                v = self.decode_alloc(ty, a, off)
            self.gcache[base] = (v, base)
            return v
        if base[0] == "S":
            a = self.P.A[base[1]]
            if a.get("m"):
                v = self.decode_alloc(a["ty"], a["m"], 0)
                self.gcache[base] = (v, base)
                return v
            return UNINIT
        if base[0] == "addr":
            return UNINIT
        return UNINIT

    def decode_alloc_prep(self, a):
        if "_b" not in a:
            s = a["b"]
            a["_b"] = [None if s[i] == "_" else int(s[i:i + 2], 16) for i in range(0, len(s), 2)]
            a["_p"] = {o: i for o, i in a.get("p", [])}

    # ------------------------------------------------------------ memory
    def load_t(self, st, p):
        if p.__class__ is not Ptr:
            if p.__class__ is int:
                return UNINIT
            raise Inconclusive("load through %r" % (p,))
        v = st.m.get(p.base, None)
        if v is None:
            v = self.global_val(p.base)
        return rd_path(v, p.path)

    def load(self, st, p):
        if p.__class__ is Node:
            p = pc_simpl(st.pc, p)
        if p.__class__ is Node:
            return vcase(p, lambda t: self.load_t(st, t))
        return self.load_t(st, p)

    def store_t(self, st, p, v):
        if p.__class__ is not Ptr:
            if v == ():
                return
            raise Inconclusive("store through %r" % (p,))
        if p.path:
            old = st.m.get(p.base, None)
            if old is None:
                old = self.global_val(p.base)
            st.m[p.base] = wr_path(old, p.path, 0, v)
        else:
            st.m[p.base] = v

    def store_if(self, st, p, v, cond):
        """store where cond holds"""
        if p.__class__ is Node:
            p = pc_simpl(st.pc, p)
        for t in dd.terminals(p) if p.__class__ is Node else [p]:
            c = cond
            if p.__class__ is Node:
                c = dd.b_and(c, dd.map1(("is", t), lambda x, t=t: 1 if x == t else 0, p))
            if c.__class__ is int and not c or not pc_feasible(st.pc, c):
                continue
            self.store_t(st, t, vmerge(c, v, self.load_t(st, t)))

    def store(self, st, p, v):
        if p.__class__ is Node:
            p = pc_simpl(st.pc, p)
        if p.__class__ is Node:
            for t in dd.terminals(p):
                c = dd.map1(("is", t), lambda x, t=t: 1 if x == t else 0, p)
                old = self.load_t(st, t)
                self.store_t(st, t, vmerge(c, v, old))
            return
        self.store_t(st, p, v)

    # ------------------------------------------------------------ places
    def place_ptr(self, st, pl, lt):
        """(pointer, type) of a place with projections"""
        d = self.depth
        p = Ptr((d, pl[0]), ())
        ty = lt[pl[0]]
        T = self.P.T
        variant = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                p = self.load(st, p)
                o = T[ty]
                if o["k"] in ("ref", "ptr"):
                    ty = o["e"]
                elif o.get("box"):
                    ty = o["ga"][0]
                else:
                    # Box seen through its fields
                    ty = o.get("e", o.get("ga", [None])[0])
                if p is UNINIT:
                    raise Inconclusive("dereference of an uninitialised pointer")
            elif k == "f":
                p, ty = self.field(p, ty, e[1], e[2], variant), e[2]
                variant = None
            elif k == "d":
                if T[ty]["k"] == "enum":
                    p = self.ext(p, ("d", e[1]))
                    variant = e[1]
            elif k == "i":
                iv = st.m.get((d, e[1]))
                if iv.__class__ is Bits:
                    iv = bits_to_dd(iv.b)
                iv = pc_simpl(st.pc, iv)
                p = self.index(st, p, T[ty], iv)
                ty = T[ty]["e"]
            elif k == "c":
                o = T[ty]
                if e[3]:
                    n = o["len"] if o["k"] == "array" else self.slice_len(p)
                    i = s_bin("Sub", 64, 0, n, e[1])
                else:
                    i = e[1]
                p = self.index(st, p, o, i)
                ty = o["e"]
            elif k == "s":
                o = T[ty]
                if o["k"] == "array":
                    frm, to = e[1], (o["len"] - e[2] if e[3] else e[2])
                    p = mapt(("sub", frm, to), lambda x: Ptr(x.base, x.path + (("s", frm, to - frm),)) if not (x.path and x.path[-1].__class__ is tuple and x.path[-1][0] == "s") else Ptr(x.base, x.path[:-1] + (("s", x.path[-1][1] + frm, to - frm),)), p)
                else:
                    n = self.slice_len(p)
                    to = s_bin("Sub", 64, 0, n, e[2]) if e[3] else e[2]
                    if n.__class__ is not int or p.__class__ is not Ptr:
                        raise Inconclusive("subslice pattern of unknown length")
                    q = p_add(p, e[1])
                    p = Ptr(q.base, q.path, to - e[1])
            elif k == "o":
                ty = e[1]
        return p, ty

    def ext(self, p, e):
        if p.__class__ is Ptr:
            return Ptr(p.base, p.path + (e,), p.meta)
        if p.__class__ is Node:
            return dd.map1(("ext", e), lambda x: Ptr(x.base, x.path + (e,), x.meta) if x.__class__ is Ptr else x, p)
        if p.__class__ is int:
            return p
        raise Inconclusive("projection of %r" % (p,))

    def field(self, p, ty, f, fty, variant):
        o = self.P.T[ty]
        k = o["k"]
        if k in ("struct", "union"):
            t = self.P.transparent(ty)
            if t is not None:
                if t == f:
                    return p
                return self.ext(p, ("z",))
            if k == "union":
                return p
            if o.get("sz") == 0 and not self.P.unsized_tail(ty):
                return self.ext(p, ("z",))
        if self.P.is_zst(fty) and k != "enum":
            return self.ext(p, ("z",))
        p = self.ext(p, f)
        if self.P.T[fty]["k"] in ("slice", "str"):
            # unsized last field
            def first(x):
                q = self.elem(Ptr(x.base, x.path), 0, False)
                return Ptr(q.base, q.path, x.meta)
            p = mapt(("tail",), first, p)
        return p

    def slice_len(self, p):
        if p.__class__ is Ptr:
            return p.meta
        if p.__class__ is Node:
            return dd.map1("meta", lambda x: x.meta, p)
        raise Inconclusive("length of %r" % (p,))

    def elem(self, p, i, isslice):
        if p.__class__ is int:
            return p
        if isslice:
            q = p_add(p, i)
            return Ptr(q.base, q.path)
        if p.path and p.path[-1].__class__ is tuple and p.path[-1][0] == "s":
            s = p.path[-1]
            return Ptr(p.base, p.path[:-1] + (("i", s[1] + i),))
        return Ptr(p.base, p.path + (("i", i),))

    def index(self, st, p, o, i):
        sl = o["k"] == "slice" or o["k"] == "str"
        if p.__class__ is Node:
            p = pc_simpl(st.pc, p)
        if i.__class__ is int and p.__class__ is not Node:
            n = p.meta if sl and p.__class__ is Ptr else o.get("len")
            if n.__class__ is int and not 0 <= i < n:
                self.event("index out of bounds", st, "index %d of %d" % (i, n))
                raise Dead()
            return self.elem(p, i, sl)
        if i.__class__ is Iv or i is UNINIT:
            raise Inconclusive("index %r not tracked" % (i,))
        return dd.map2(("elem", sl), lambda a, b: self.elem(a, b, sl), p, i)

    def read_place(self, st, pl, lt):
        pr = pl[1]
        if not pr:
            v = st.m.get((self.depth, pl[0]))
            if v is None:
                if self.P.is_zst(lt[pl[0]]):
                    return ()
                return UNINIT
            return v
        p, ty = self.place_ptr(st, pl, lt)
        if self.P.is_zst(ty):
            return self.zst(ty)
        return self.load(st, p)

    def write_place(self, st, pl, lt, v):
        if not pl[1]:
            st.m[(self.depth, pl[0])] = v
            return
        p, ty = self.place_ptr(st, pl, lt)
        if self.P.is_zst(ty):
            return
        self.store(st, p, v)

    def operand(self, st, o, lt):
        k = o[0]
        if k == "p" or k == "m":
            return self.read_place(st, o[1], lt)
        if k == "k":
            return self.const(o)
        return 0        # runtime checks disabled

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, lt):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1], lt)
        if k == "ref":
            pl = r[1]
            if not pl[1]:
                return Ptr((self.depth, pl[0]), ())
            return self.place_ptr(st, pl, lt)[0]
        if k == "rebor":
            return self.place_ptr(st, r[1], lt)[0]
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2], lt), self.operand(st, r[3], lt), r[4], r[5])
        if k == "chk":
            a, b = self.operand(st, r[2], lt), self.operand(st, r[3], lt)
            w, sg = self.P.intinfo(r[4])
            op = r[1]
            if op.endswith("WithOverflow"):
                op = op[:-12]
            return (self.simp(st, s_bin(op, w, sg, a, b)), self.simp(st, s_bin("Ovf" + op, w, sg, a, b)))
        if k == "agg":
            return self.aggregate(st, r[1], r[2], r[3], [self.operand(st, x, lt) for x in r[4]])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2], lt), r[3], r[4])
        if k == "discr":
            return self.discr(self.read_place(st, r[1], lt), r[2])
        if k == "len":
            p, ty = self.place_ptr(st, r[1], lt)
            o = self.P.T[ty]
            return o["len"] if o["k"] == "array" else self.slice_len(p)
        if k == "rep":
            return (self.operand(st, r[1], lt),) * r[2]
        if k == "un":
            v = self.operand(st, r[2], lt)
            if r[1] == "PtrMetadata":
                if v.__class__ is int:
                    return ()
                m = self.slice_len(v)
                return () if m is None else m
            w, sg = self.P.intinfo(r[3])
            if r[1] == "Not":
                if self.P.T[self.P.strip(r[3])]["k"] == "bool":
                    if v.__class__ is int:
                        return 0 if v else 1
                    if v.__class__ is Iv:
                        return v
                    return mapt("lnot", lambda x: (0 if x else 1) if x.__class__ is int else x, v)
                if v.__class__ is Bits:
                    return mkbits([dd.b_not(x) for x in to_bits(v, w)])
                return mapt(("not", w, sg), lambda x: wrap(~x, w, sg) if x.__class__ is int else Iv(*rng(w, sg)), v)
            if r[1] == "Neg":
                return s_bin("Sub", w, sg, 0, v)
            raise Inconclusive("unary " + r[1])
        if k == "rawptr":
            a, m = [self.operand(st, x, lt) for x in r[2]]
            return self.with_meta(a, m, r[1])
        if k == "tls":
            raise Inconclusive("thread local " + r[1])
        raise Inconclusive("rvalue " + k)

    def with_meta(self, a, m, ty):
        if m == ():
            m = None
        if m.__class__ is Bits:
            m = bits_to_dd(m.b)

        def f(x, y):
            if x.__class__ is int:
                if y is None:
                    return x
                return Ptr(("addr", x), (("i", 0),), y)
            path = x.path
            if y.__class__ is int and not (path and path[-1].__class__ is tuple and path[-1][0] == "i"):
                path = path + (("i", 0),)
            return Ptr(x.base, path, y)
        if a.__class__ is Node or m.__class__ is Node:
            return dd.map2("withmeta", f, a, m)
        return f(a, m)

    def simp(self, st, v):
        if v.__class__ is Node and st.pc:
            return pc_simpl(st.pc, v)
        return v

    def binop(self, st, op, a, b, ty, tres):
        if op == "Offset":
            es = self.P.sz(self.P.T[self.P.strip(ty)]["e"])
            return self.ptr_offset(self.simp(st, a), self.simp(st, b), es)
        w, sg = self.P.intinfo(ty)
        if st.pc:
            if a.__class__ is Node:
                a = pc_simpl(st.pc, a)
            if b.__class__ is Node:
                b = pc_simpl(st.pc, b)
        if a == () and b == ():
            return 1
        if a.__class__ is Mix:
            r = a.op(op, b)
            if r is not None:
                return r
            a = a.table()
        if b.__class__ is Mix:
            b = b.table()
        r = s_bin(op, w, sg, a, b)
        if op == "Cmp":
            return En(r, {})
        if r.__class__ is Node and st.pc:
            r = pc_simpl(st.pc, r)
        return r

    def ptr_offset(self, a, b, es):
        if es == 0:
            return a
        if b.__class__ is Bits:
            b = bits_to_dd(b.b)

        def f(x, n):
            if n.__class__ is not int and n.__class__ is not Iv:
                raise Inconclusive("pointer offset %r" % (n,))
            return p_add(x, n, es)
        if a.__class__ is Node or b.__class__ is Node:
            return dd.map2(("off", es), f, a, b)
        return f(a, b)

    def aggregate(self, st, ty, variant, active, ops):
        o = self.P.T[ty]
        k = o["k"]
        if k == "enum":
            return En(variant, {variant: tuple(ops)} if ops else {})
        if k in ("struct", "union"):
            t = self.P.transparent(ty)
            if k == "union":
                if t is not None:
                    return ops[0] if active == t else UNINIT
                return ops[0]
            if t is not None:
                return ops[t]
            if o.get("sz") == 0:
                return ()
        return tuple(ops)

    def discr(self, v, ty):
        o = self.P.T[ty]
        if o["k"] != "enum":
            return 0
        if (v is UNINIT or v == ()) and o.get("sz") == 0 and o.get("vs") is not None:
            return o["v"][o["vs"]][1]
        if v is UNINIT:
            raise Inconclusive("discriminant of an uninitialised value of " + o["n"])
        if v.__class__ is not En:
            v = self.from_scalar(v, ty)
        vs = o["v"]
        dt = self.P.T[o["dt"]] if "dt" in o else None
        w, sg = (dt["w"], dt["sg"]) if dt and dt["k"] == "int" else (64, 0)
        f = lambda i: wrap(vs[i][1], w, sg) if i.__class__ is int else i
        if v.d is UNINIT:
            raise Inconclusive("discriminant of an uninitialised value of " + o["n"])
        return mapt(("discr", ty), f, v.d)

    # ---------------------------------------------------------------- casts
    def cast(self, st, kind, v, src, dst):
        if v is UNINIT:
            return v
        T = self.P.T
        if kind == "IntToInt":
            w0, s0 = self.P.intinfo(src)
            w, sg = self.P.intinfo(dst)
            if v.__class__ is En:
                v = self.discr(v, src)
                s0 = 1
            if v.__class__ is Bits:
                b = v.b
                if len(b) >= w:
                    return mkbits(b[:w])
                return mkbits(b + ((b[-1] if s0 else 0),) * (w - len(b)))

            def f(x):
                if x.__class__ is int:
                    return wrap(x, w, sg)
                if x.__class__ is Iv:
                    return ivwrap(x.lo, x.hi, w, sg)
                return x
            return mapt(("itoi", w, sg), f, v)
        if kind == "PtrToPtr" or kind in ("PC(MutToConstPointer)", "PC(ArrayToPointer)"):
            a, b = T[self.P.strip(src)], T[self.P.strip(dst)]
            if a["k"] not in ("ref", "ptr") or b["k"] not in ("ref", "ptr"):
                return v
            return self.retype(v, a["e"], b["e"])
        if kind.startswith("PC(Unsize"):
            return self.unsize(v, src, dst)
        if kind in ("PC(ReifyFnPointer)",) or kind.startswith("PC(Reify"):
            return Fn(T[src]["i"])
        if kind.startswith("PC(ClosureFnPointer"):
            return Fn(T[src]["i"])
        if kind.startswith("PC("):
            return v
        if kind == "Transmute" or kind == "Subtype":
            return self.transmute(st, v, src, dst)
        if kind == "BoxDerefTransmute":
            while v.__class__ is tuple and v:
                v = v[0]
            return v
        if kind in ("PointerExposeAddress", "PointerWithExposedProvenance", "FnPtrToPtr", "PointerExposeProvenance"):
            return v
        raise Inconclusive("cast " + kind)

    def retype(self, v, a, b):
        """pointer to a becomes pointer to b"""
        P = self.P
        if a == b:
            return v
        A, B = P.T[P.strip(a)] if P.T[a]["k"] in ("struct", "union", "pat") else P.T[a], P.T[P.strip(b)] if P.T[b]["k"] in ("struct", "union", "pat") else P.T[b]
        au = A["k"] in ("slice", "str", "dyn") or (A["k"] == "struct" and P.unsized_tail(a))
        bu = B["k"] in ("slice", "str", "dyn") or (B["k"] == "struct" and P.unsized_tail(b))

        def strip_arr(o):
            n = []
            while o["k"] == "array":
                n.append(o["len"])
                o = P.T[P.strip(o["e"])]
            return o, n

        def f(x):
            if x.__class__ is not Ptr:
                return x
            path, meta = x.path, x.meta
            if not bu:
                meta = None
            if au and bu:
                return Ptr(x.base, path, meta)
            if A["k"] == "array" and B["k"] != "array" and not bu:
                # to the first element (possibly of a nested array) when the sizes agree
                e = P.T[P.strip(A["e"])]
                q = self.elem(Ptr(x.base, path), 0, False)
                while e["k"] == "array" and e.get("sz") != B.get("sz"):
                    q = self.elem(q, 0, False)
                    e = P.T[P.strip(e["e"])]
                return q if e.get("sz") == B.get("sz") else Ptr(x.base, path, meta)
            if B["k"] == "array" and A["k"] != "array":
                if path and path[-1].__class__ is tuple and path[-1][0] == "i":
                    if x.base[0] == "H" and A["k"] in ("int", "uint") and (P.T[b]["k"] == "struct" or "<u8>::cast::<" in str(self.cur())):
                        return Ptr(x.base, path, meta)      # an allocation gets its element type
                    e = P.T[P.strip(B["e"])]
                    if e.get("sz") == (A.get("sz") if not au else e.get("sz")):
                        return Ptr(x.base, path[:-1] + (("s", path[-1][1], B["len"]),), meta)
            return Ptr(x.base, path, meta)
        return mapt(("retype", a, b), f, v)

    def unsize(self, v, src, dst):
        P = self.P
        a, b = P.T[P.strip(src)], P.T[P.strip(dst)]
        if a["k"] not in ("ref", "ptr") or b["k"] not in ("ref", "ptr"):
            raise Inconclusive("unsize %s to %s" % (P.T[src]["n"], P.T[dst]["n"]))
        ae, be = P.T[a["e"]], P.T[b["e"]]
        if be["k"] == "slice" and ae["k"] == "array":
            def f(x):
                if x.__class__ is int:
                    return Ptr(("addr", x), (("i", 0),), ae["len"])
                q = self.elem(Ptr(x.base, x.path), 0, False)
                return Ptr(q.base, q.path, ae["len"])
            return mapt(("unsize", src, dst), f, v)
        if be["k"] == "dyn":
            if ae["k"] == "dyn":
                return v
            return mapt(("unsized", src, dst), lambda x: Ptr(x.base, x.path, ("ty", a["e"])) if x.__class__ is Ptr else Ptr(("addr", x), (), ("ty", a["e"])), v)
        at, bt = ae, be
        while at["k"] == "struct" and bt["k"] == "struct" and at["v"][0][2] and bt["v"][0][2]:
            at, bt = P.T[at["v"][0][2][-1][1]], P.T[bt["v"][0][2][-1][1]]
        if at["k"] == "array" and bt["k"] == "slice" and P.transparent(a["e"]) is None:
            return mapt(("unsizes", src, dst), lambda x: Ptr(x.base, x.path, at["len"]) if x.__class__ is Ptr else x, v)
        raise Inconclusive("unsize %s to %s" % (P.T[src]["n"], P.T[dst]["n"]))

    def transmute(self, st, v, src, dst):
        P = self.P
        if src == dst:
            return v
        s, d = P.strip(src), P.strip(dst)
        if s == d:
            return v
        S, D = P.T[s], P.T[d]
        ks, kd = S["k"], D["k"]
        sc = ("int", "bool", "char")
        if ks in sc and kd in sc:
            w, sg = P.intinfo(d)
            if v.__class__ is Bits:
                return v
            return mapt(("itoi", w, sg), lambda x: wrap(x, w, sg) if x.__class__ is int else (ivwrap(x.lo, x.hi, w, sg) if x.__class__ is Iv else x), v)
        ptrs = ("ref", "ptr", "fnptr")
        if ks in ptrs and kd in ptrs:
            if ks != "fnptr" and kd != "fnptr":
                return self.retype(v, S["e"], D["e"])
            return v
        if (ks in ptrs and kd in sc) or (ks in sc and kd in ptrs):
            return v
        if kd == "array" and ks == "array":
            if P.sz(P.strip(S["e"])) == P.sz(P.strip(D["e"])) and len(v) == D["len"]:
                return tuple([self.transmute(st, x, S["e"], D["e"]) for x in v])
        if kd == "array" and ks == "int" and P.sz(D["e"]) == 1:
            out = []
            for i in range(D["len"]):
                out.append(self.byte_of(v, i))
            return tuple(out)
        if kd == "array" and ks in ("tuple", "struct") and v.__class__ is tuple and len(v) == D["len"]:
            return v
        if kd == "int" and ks == "array" and P.sz(S["e"]) == 1:
            bits = []
            allint = all(x.__class__ is int for x in v)
            if allint:
                return wrap(sum((x & 255) << (8 * i) for i, x in enumerate(v)), D["w"], D["sg"])
            for x in v:
                bits.extend(to_bits(x, 8))
            return mkbits(bits)
        if kd == "enum" and ks in sc:
            return self.from_scalar(v, d)
        if ks == "enum" and kd in sc:
            return self.to_scalar(v, s)
        if ks == "enum" and kd == "enum":
            # same shape (differ in lifetimes / transparent payload)
            return v
        if ks == kd and ks in ("tuple", "struct", "closure"):
            return v
        if v == () or kd in ("fndef",):
            return ()
        if ks == "enum" and kd in ptrs:
            return self.to_scalar(v, s)
        # identical shapes up to newtypes
        if ks in ("struct", "tuple", "array") and kd in ("struct", "tuple", "array"):
            return v
        if ks == "struct" and kd in ptrs or ks in ptrs and kd == "struct":
            return v
        raise Inconclusive("transmute %s to %s" % (P.T[src]["n"], P.T[dst]["n"]))

    def byte_of(self, v, i):
        if v.__class__ is Bits:
            b = v.b[8 * i:8 * i + 8]
            return mkbits(b)
        return mapt(("byte", i), lambda x: (x >> (8 * i)) & 255 if x.__class__ is int else Iv(0, 255), v)

    def from_scalar(self, v, ty):
        """scalar bits -> enum without payload"""
        o = self.P.T[ty]
        if v.__class__ is En:
            return v
        if v.__class__ is Bits:
            v = bits_to_dd(v.b)
        vm = o.get("vm")
        if vm is None:
            return En(0, {})
        w = vm["tsz"] * 8
        mask = (1 << w) - 1
        enc = vm["enc"]
        if enc == 0:
            tab = {x[1] & mask: i for i, x in enumerate(o["v"])}

            def f(x):
                if x.__class__ is int:
                    if x & mask not in tab:
                        raise Inconclusive("invalid value %d for %s" % (x, o["n"]))
                    return tab[x & mask]
                raise Inconclusive("enum from %r" % (x,))
            return En(mapt(("fs", ty), f, v), {})
        un, s, e, ns = enc
        pf = [i for i, f in enumerate(o["v"][un][2]) if not self.P.is_zst(f[1])]
        fl = o["v"][un][2]

        def g(x):
            if x.__class__ is int and ((x - ns) & mask) <= e - s:
                return s + ((x - ns) & mask)
            return un
        d = mapt(("fs", ty), g, v)
        if not pf:
            return En(d, {})
        inner = v
        it = self.P.T[self.P.strip(fl[pf[0]][1])]
        if it["k"] == "enum":
            inner = mapt(("keep", ty), lambda x: x if g(x) == un else (un if False else x), v)
            inner = self.from_scalar_lax(inner, self.P.strip(fl[pf[0]][1]))
        return En(d, {un: tuple([inner if i == pf[0] else () for i in range(len(fl))])})

    def from_scalar_lax(self, v, ty):
        o = self.P.T[ty]
        vm = o.get("vm")
        w = vm["tsz"] * 8
        mask = (1 << w) - 1
        if vm["enc"] == 0:
            tab = {x[1] & mask: i for i, x in enumerate(o["v"])}
            return En(mapt(("fsl", ty), lambda x: tab.get(x & mask, 0) if x.__class__ is int else 0, v), {})
        return self.from_scalar(v, ty)

    def to_scalar(self, v, ty):
        o = self.P.T[ty]
        vm = o.get("vm")
        if vm is None:
            return 0
        w = vm["tsz"] * 8
        mask = (1 << w) - 1
        if vm["enc"] == 0:
            return mapt(("ts", ty), lambda i: o["v"][i][1] & mask, v.d)
        un, s, e, ns = vm["enc"]
        fl = o["v"][un][2]
        pf = [i for i, f in enumerate(fl) if not self.P.is_zst(f[1])]
        inner = v.v.get(un, UNINIT)
        if inner is not UNINIT:
            inner = inner[pf[0]]
            if inner.__class__ is En:
                inner = self.to_scalar(inner, self.P.strip(fl[pf[0]][1]))

        def pick(i):
            if i == un:
                return inner
            return (ns + i - s) & mask
        return vcase(v.d, pick)

    # ------------------------------------------------------------ events
    def cur(self):
        return self.P.I[self.stack[-1][0]]["n"] if self.stack else "?"

    def event(self, kind, st, detail="", pc=None):
        stack = [(self.P.I[i]["n"], l) for i, l in self.stack]
        if stack:
            stack[-1] = (stack[-1][0], self.line)
        self.events.append(Event(kind, self.cur(), self.line, pc if pc is not None else st.pc, detail, stack))

    def fresh(self, name, dom, tag=None):
        return dd.var(Sym(name, dom, tag))

    # ------------------------------------------------------------ control
    def split(self, st, v, cases, otherwise):
        """[(target, state)] for a switch on scalar v; cases: [(value, target)]"""
        if v.__class__ is Bits:
            v = bits_to_dd(v.b)
        v = pc_simpl(st.pc, v)
        tab = {}
        for val, t in cases:
            tab[val] = t
        if v.__class__ is int:
            return [(tab.get(v, otherwise), st)]
        if v is UNINIT:
            raise Inconclusive("branch on an uninitialised value")
        nd = {}

        def f(x):
            if x.__class__ is int:
                return tab.get(x, otherwise)
            if x.__class__ is Iv:
                ts = []
                n = 0
                for val, t in cases:
                    if x.lo <= val <= x.hi:
                        n += 1
                        if t not in ts:
                            ts.append(t)
                if n < x.hi - x.lo + 1 and otherwise not in ts:
                    ts.append(otherwise)
                if len(ts) == 1:
                    return ts[0]
                r = nd.get(x)
                if r is None:
                    r = nd[x] = self.fresh("choice@%s:%d" % (self.cur(), self.line), ts)
                return r
            raise Inconclusive("branch on %r" % (x,))
        tv = self.graft(v, f)
        if tv.__class__ is not Node:
            return [(tv, st)]
        out = []
        ts = dd.terminals(tv)
        for i, t in enumerate(ts):
            c = dd.map1(("is", t), lambda x, t=t: 1 if x == t else 0, tv)
            pc = pc_and(st.pc, c)
            if pc is None:
                continue
            s2 = st if i == len(ts) - 1 else st.fork()
            s2.pc = pc
            out.append((t, s2))
        return out

    def graft(self, v, f):
        """map terminals to tables over later symbols"""
        if v.__class__ is not Node:
            return f(v)
        memo = {}

        def go(n):
            if n.__class__ is not Node:
                return f(n)
            r = memo.get(n)
            if r is None:
                r = memo[n] = dd.case(n.s, [go(k) for k in n.k])
            return r
        return go(v)

    def assume(self, st, c):
        """restrict st to c; False if infeasible"""
        pc = pc_and(st.pc, pc_simpl(st.pc, c))
        if pc is None:
            return False
        st.pc = pc
        return True

    def merge(self, a, b):
        """join two states at a program point, or None if they cannot be joined exactly"""
        if a.g != b.g:
            return None
        sa, sb = set(a.pc), set(b.pc)
        common = tuple([c for c in a.pc if c in sb])
        ra = [c for c in a.pc if c not in sb]
        rb = [c for c in b.pc if c not in sa]
        if self.weaken and a.m.keys() == b.m.keys() and all(v is b.m[k] or v.__class__ is int and v == b.m[k] for k, v in a.m.items()):
            return State(a.m, common, a.g)
        try:
            with dd.budget(self.merge_limit):
                ca = 1
                for c in ra:
                    ca = dd.b_and(ca, c)
                cb = 1
                for c in rb:
                    cb = dd.b_and(cb, c)
                u = dd.b_or(ca, cb)
                g = dd.restrict(ca, u) if u.__class__ is Node else ca
                if u.__class__ is not Node and ca.__class__ is not Node and ra and not rb:
                    return None
                m = {}
                am, bm = a.m, b.m
                for k, v in am.items():
                    w = bm.get(k, UNINIT)
                    if v is w:
                        m[k] = v
                    else:
                        m[k] = vmerge(g, v, w)
                for k, w in bm.items():
                    if k not in am:
                        m[k] = w
        except TooBig:
            return None
        if u.__class__ is Node:
            pc = common + (u,)
        else:
            pc = common
        return State(m, pc, a.g)

    def run(self, inst, args, pc=(), m=None, g=None):
        """analyse a call of instance `inst` from an initial state; [(state, value)]"""
        st = State(m if m is not None else {}, pc, g or {})
        self.depth = 0
        return self.call(st, inst, args)

    depth = 0
    weaken = False              # forget the path condition (sound) rather than build the union of two when memories agree
    fail_stack = None
    text = None

    def call(self, st, inst, args, argtys=None, destty=None, line=0):
        o = self.P.I[inst]
        mdl = self.models.get(o["n"]) or self.models.get(o["dp"]) or self.models.get(("in", o.get("in")))
        if mdl is not None:
            r = mdl(self, st, o, args, argtys, destty)
            if r is not NotImplemented:
                return r
        if o.get("empty"):
            return [(st, ())]
        if o["cr"] in ("core", "std", "alloc") and self.never(o):
            self.event("panic", st, self.panic_detail(o, args))
            return []
        if "bb" not in o:
            if destty is not None:
                T = self.P.T[destty]
                an = T.get("an", "")
                if T["k"] == "struct" and o["dp"] == an:
                    return [(st, self.aggregate(st, destty, 0, -1, args))]
                if T["k"] == "enum" and o["dp"].startswith(an + "::"):
                    for i, v in enumerate(T["v"]):
                        if v[0] == o["dp"][len(an) + 2:]:
                            return [(st, self.aggregate(st, destty, i, -1, args))]
            raise Inconclusive("no model for %s (%s)" % (o["n"], o.get("in") or o["k"]))
        return self.body(st, inst, o, args)

    def never(self, o):
        r = o.get("_nv")
        if r is None:
            if "lt" in o:
                r = self.P.T[o["lt"][0]]["k"] == "never"
            else:
                n = o["dp"]
                r = "panicking::" in n or "unwrap_failed" in n or "expect_failed" in n or n.endswith("_fail") or "handle_error" in n or "handle_alloc_error" in n or n.endswith("_failed")
            o["_nv"] = r
        return r

    def panic_detail(self, o, args):
        for a in args:
            if a.__class__ is Ptr and a.base[0] == "A" and a.meta.__class__ is int:
                try:
                    return o["dp"].rsplit("::", 1)[-1] + ": " + bytes(self.global_val(a.base)[:a.meta]).decode()
                except Exception:
                    pass
        return o["dp"].rsplit("::", 1)[-1]

    def body(self, st, inst, o, args):
        if len(self.stack) > 150:
            raise Inconclusive("call depth in " + o["n"])
        self.visited[inst] = self.visited.get(inst, 0) + 1
        saved_line = self.line
        self.stack.append((inst, self.line))
        if len(self.stack) > 1:
            self.stack[-2] = (self.stack[-2][0], saved_line)
        self.depth += 1
        d = self.depth
        try:
            w = self.wtoc.get(inst)
            if w is None:
                w = self.wtoc[inst] = wto(o["bb"])
            idx, last = w
            ac = o["ac"]
            if o.get("sa") is not None and len(args) != ac:
                sa = o["sa"]
                args = list(args[:sa - 1]) + [tuple(args[sa - 1:])]
            if len(args) != ac:
                raise Inconclusive("arity of %s: %d/%d" % (o["n"], len(args), ac))
            for i, a in enumerate(args):
                st.m[(d, i + 1)] = a
            out = self.loop(st, o, inst, idx, last, d)
            for s, v in out:
                for i in range(len(o["lt"])):
                    s.m.pop((d, i), None)
            return out
        except (Inconclusive, TooBig) as e:
            if self.fail_stack is None:
                self.fail_stack = [(self.P.I[i]["n"], l) for i, l in self.stack[:-1]] + [(o["n"], self.line)]
            raise
        finally:
            self.depth -= 1
            self.stack.pop()
            self.line = saved_line

    def loop(self, st, o, inst, idx, last, d):
        bbs = o["bb"]
        lt = o["lt"]
        heap = []
        pend = {}

        def push(frm, to, s):
            i = idx[to]
            if frm is not None and i <= idx[frm] and to in last:
                key = (last[to] + 0.5, -i)
            else:
                key = (i, 0)
            l = pend.get(key)
            if l is None:
                pend[key] = [to, [s]]
                heapq.heappush(heap, key)
            else:
                l[1].append(s)
        push(None, 0, st)
        rets = []
        while heap:
            key = heapq.heappop(heap)
            to, states = pend.pop(key)
            if len(states) > 1:
                if to in self.tail(o):
                    for s in states:
                        for i in range(1, len(lt)):
                            s.m.pop((d, i), None)
                states = self.join(states)
            self.blocks.add((inst, to))
            for s in states:
                b = to
                # straight-line run while the successor is unique and is not a join candidate
                while True:
                    self.steps += 1
                    if self.steps > self.MAXSTEPS:
                        raise Inconclusive("step bound reached in " + o["n"])
                    try:
                        nxt = self.block(s, bbs[b], lt, o, d)
                    except Dead:
                        nxt = []
                    if nxt is None:
                        rets.append(s)
                        break
                    if len(nxt) == 1 and not heap and len(states) == 1 and idx[nxt[0][0]] > idx[b]:
                        b, s = nxt[0]
                        self.blocks.add((inst, b))
                        continue
                    for t, s2 in nxt:
                        push(b, t, s2)
                    break
        if len(rets) > 1:
            for s in rets:
                for i in range(1, len(lt)):
                    s.m.pop((d, i), None)
            rets = self.join(rets)
        zr = self.P.is_zst(lt[0])
        return [(s, () if zr else s.m.get((d, 0), UNINIT)) for s in rets]

    def tail(self, o):
        """blocks from which nothing but storage ends happens before the return: all locals but the result are dead"""
        t = o.get("_tail")
        if t is None:
            t = set()
            while True:
                n = len(t)
                for i, bb in enumerate(o["bb"]):
                    if i not in t and all(
                            s[0] in ("x", "v") or s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "k" for s in bb["s"]):
                        k = bb["t"]
                        if k[0] == "ret" or k[0] == "goto" and k[1] in t:
                            t.add(i)
                if len(t) == n:
                    break
            o["_tail"] = t
        return t

    def join(self, states):
        out = []
        for s in states:
            for i, t in enumerate(out):
                m = self.merge(t, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        if len(out) > self.maxstates:
            raise Inconclusive("too many unjoinable states in " + self.cur())
        return out

    def block(self, st, bb, lt, o, d):
        m = st.m
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                self.line = s[3]
                v = self.rvalue(st, s[2], lt)
                pl = s[1]
                if not pl[1]:
                    m[(d, pl[0])] = v
                else:
                    self.write_place(st, pl, lt, v)
            elif k == "x" or k == "v":
                m.pop((d, s[1]), None)
            elif k == "sd":
                old = self.read_place(st, s[1], lt)
                self.write_place(st, s[1], lt, En(s[2], old.v if old.__class__ is En else {}))
            elif k == "cno":
                src, dst, n = [self.operand(st, x, lt) for x in s[1:4]]
                self.memcpy(st, src, dst, n, self.P.T[self.P.strip(s[4])]["e"])
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "sw":
            v = self.operand(st, t[1], lt)
            if v.__class__ is int:
                for val, tg in t[2]:
                    if val == v or (v < 0 and self.unsig(v, t[4]) == val):
                        return [(tg, st)]
                return [(t[3], st)]
            cases = [(self.sig(val, t[4]), tg) for val, tg in t[2]]
            return self.split(st, v, cases, t[3])
        if k == "ret":
            return None
        if k == "call":
            self.line = t[5]
            return self.do_call(st, t, lt, d)
        if k == "assert":
            v = self.operand(st, t[1], lt)
            if v.__class__ is int:
                if v == t[2]:
                    return [(t[4], st)]
                self.line = t[5]
                self.event("panic", st, t[3])
                return []
            out = []
            self.line = t[5]
            for ok, s2 in self.split(st, v, [(t[2], 1)], 0):
                if ok:
                    out.append((t[4], s2))
                else:
                    self.event("panic", s2, t[3])
            return out
        if k == "drop":
            if t[3] is None:
                return [(t[2], st)]
            p, ty = self.place_ptr(st, t[1], lt)
            return [(t[2], s2) for s2, _ in self.call(st, t[3], [p])]
        if k == "unreach":
            self.event("unreachable", st, "unreachable code reached")
            return []
        if k in ("resume", "abort"):
            return []
        raise Inconclusive("terminator " + k)

    def unsig(self, v, ty):
        w, sg = self.P.intinfo(ty)
        return v & ((1 << w) - 1)

    def sig(self, v, ty):
        w, sg = self.P.intinfo(ty)
        return wrap(v, w, sg)

    def do_call(self, st, t, lt, d):
        callee, ops, dest, target, line, at, dt = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        args = [self.operand(st, x, lt) for x in ops]
        if callee.__class__ is dict:
            if "ptr" in callee:
                f = self.operand(st, callee["ptr"], lt)
                f = pc_simpl(st.pc, f)
                if f.__class__ is Fn:
                    rs = self.call(st, f.i, args, at, dt, line)
                elif f.__class__ is Node:
                    rs = []
                    for fn, s2 in self.split_any(st, f):
                        rs += self.call(s2, fn.i, args, at, dt, line)
                else:
                    raise Inconclusive("call through %r" % (f,))
            elif "virt" in callee:
                rs = self.virt(st, callee, args, at, dt, line)
            else:
                raise Inconclusive("unresolved call " + str(callee))
        else:
            o = self.P.I[callee]
            if (o["dp"].startswith("core::ops::function::Fn") or o["dp"].startswith("std::ops::Fn")) is False and False:
                pass
            args = self.fnabi(o, args, at)
            rs = self.call(st, callee, args, at, dt, line)
        self.depth = d
        out = []
        if target < 0:
            return []
        for s2, v in rs:
            if not dest[1]:
                s2.m[(d, dest[0])] = v
            else:
                self.write_place(s2, dest, lt, v)
            out.append((target, s2))
        return out

    def fnabi(self, o, args, at):
        """calls of closures through the Fn traits pass the arguments as one tuple"""
        if "bb" in o and o.get("sa") is None and len(args) != o["ac"] and at and self.P.T[at[-1]]["k"] == "tuple":
            last = args[-1]
            if last == () or last.__class__ is tuple:
                n = len(self.P.T[at[-1]]["e"])
                if len(args) - 1 + n == o["ac"]:
                    return list(args[:-1]) + list(last if n else ())
        elif "bb" in o and o.get("sa") is None and at and len(args) == o["ac"] and self.P.T[at[-1]]["k"] == "tuple" and o["k"] == "item" and self.is_closure_body(o):
            n = len(self.P.T[at[-1]]["e"])
            if n == 1 and len(args) == 2:
                return [args[0], args[1][0]]
        return args

    def is_closure_body(self, o):
        return "{closure#" in o["dp"].rsplit("::", 1)[-1]

    def split_any(self, st, v):
        ts = dd.terminals(v)
        out = []
        for i, t in enumerate(ts):
            c = dd.map1(("is", t), lambda x, t=t: 1 if x == t else 0, v)
            pc = pc_and(st.pc, c)
            if pc is None:
                continue
            s2 = st.fork()
            s2.pc = pc
            out.append((t, s2))
        return out

    def virt(self, st, callee, args, at, dt, line):
        p = pc_simpl(st.pc, args[0])
        if p.__class__ is Node:
            out = []
            for q, s2 in self.split_any(st, p):
                out += self.virt(s2, callee, [q] + args[1:], at, dt, line)
            return out
        m = p.meta
        if m.__class__ is tuple and m[0] == "vt":
            a = self.P.A[m[1]]
            i = a["ms"][callee["virt"]]
            if i is None:
                raise Inconclusive("virtual call " + callee["n"])
            return self.call(st, i, [Ptr(p.base, p.path)] + args[1:], at, dt, line)
        h = self.models.get(("virt", callee["n"]))
        if h is not None:
            return h(self, st, p, args, callee)
        raise Inconclusive("virtual call %s on %r" % (callee["n"], p))

    def memcpy(self, st, src, dst, n, ety):
        if self.P.sz(ety) == 0:
            return
        if n.__class__ is Bits:
            n = bits_to_dd(n.b)
        n = pc_simpl(st.pc, n)
        if n.__class__ is Node:
            # copy element-wise under the condition i < n
            todo = []
            for i in range(max(dd.terminals(n))):
                c = dd.map1(("gt", i), lambda x, i=i: 1 if x > i else 0, n)
                if pc_feasible(st.pc, c):
                    todo.append((i, c, self.load(st, self.ptr_offset(src, i, self.P.sz(ety)))))
            for i, c, v in todo:
                self.store_if(st, self.ptr_offset(dst, i, self.P.sz(ety)), v, c)
            return
        if n.__class__ is not int:
            raise Inconclusive("copy of %r elements" % (n,))
        if n == 0:
            return
        if n == 1:
            self.store(st, dst, self.load(st, src))
            return
        vals = [self.load(st, self.ptr_offset(src, i, self.P.sz(ety))) for i in range(n)]
        for i, v in enumerate(vals):
            self.store(st, self.ptr_offset(dst, i, self.P.sz(ety)), v)


class Dead(Exception):
    """the current abstract state has no successors"""
