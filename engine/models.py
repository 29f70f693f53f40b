"""Models of compiler intrinsics and of the few library leaves without MIR."""
import dd
from ai import *
from dd import Iv, Node


def ret(st, v):
    return [(st, v)]


def install(it):
    M = it.models
    P = it.P

    def intr(*names):
        def deco(f):
            for n in names:
                M[("in", n)] = f
            return f
        return deco

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    def w_of(o):
        return P.intinfo(o["ga"][0])

    @intr("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume", "assert_unsafe_precondition", "forget", "cold_path")
    def _nop(it, st, o, a, at, dt):
        return ret(st, ())

    @intr("black_box", "likely", "unlikely", "transmute_unchecked_id")
    def _id(it, st, o, a, at, dt):
        return ret(st, a[0])

    @intr("size_of", "min_align_of", "align_of", "size_of_val", "align_of_val", "min_align_of_val")
    def _size(it, st, o, a, at, dt):
        t = P.T[o["ga"][0]]
        if o["in"] == "size_of_val" and t["k"] in ("slice", "str"):
            n = it.slice_len(a[0])
            es = 1 if t["k"] == "str" else P.sz(t["e"])
            return ret(st, s_bin("Mul", 64, 0, n, es))
        if t["k"] == "dyn":
            raise Inconclusive("size of dyn")
        return ret(st, t.get("sz", 0) if o["in"].startswith("size") else t.get("al", 1))

    @intr("needs_drop")
    def _nd(it, st, o, a, at, dt):
        return ret(st, 1)

    @intr("ub_checks", "contract_checks", "overflow_checks")
    def _zero(it, st, o, a, at, dt):
        return ret(st, 0)

    @intr("unreachable")
    def _unr(it, st, o, a, at, dt):
        it.event("unreachable", st, "unreachable_unchecked reached")
        return []

    @intr("abort")
    def _ab(it, st, o, a, at, dt):
        it.event("panic", st, "abort")
        return []

    @intr("caller_location")
    def _cl(it, st, o, a, at, dt):
        return ret(st, Opq("location"))

    @intr("type_id", "type_id_eq")
    def _ti(it, st, o, a, at, dt):
        return ret(st, Opq("typeid%s" % o["ga"]))

    @intr("ctpop")
    def _ctpop(it, st, o, a, at, dt):
        w, sg = w_of(o)
        v = a[0]
        if v.__class__ is Bits:
            r = 0
            for b in to_bits(v, w):
                if b.__class__ is int and b == 0:
                    continue
                r = dd.map2(("Add", 32, 0), lambda x, y: x + y, r, b)
            return ret(st, r)
        return ret(st, mapt(("ctpop", w), lambda x: bin(x & ((1 << w) - 1)).count("1") if x.__class__ is int else Iv(0, w), v))

    def tz(x, w):
        x &= (1 << w) - 1
        return (x & -x).bit_length() - 1 if x else w

    @intr("cttz", "cttz_nonzero")
    def _cttz(it, st, o, a, at, dt):
        w, sg = w_of(o)
        v = a[0]
        if v.__class__ is Bits:
            r = w
            bs = to_bits(v, w)
            for i in range(w - 1, -1, -1):
                r = dd.ite(bs[i], i, r)
            return ret(st, it.simp(st, r))
        return ret(st, mapt(("cttz", w), lambda x: tz(x, w) if x.__class__ is int else Iv(0, w), v))

    @intr("ctlz", "ctlz_nonzero")
    def _ctlz(it, st, o, a, at, dt):
        w, sg = w_of(o)
        v = a[0]
        if v.__class__ is Bits:
            r = w
            bs = to_bits(v, w)
            for i in range(w):
                r = dd.ite(bs[i], w - 1 - i, r)
            return ret(st, it.simp(st, r))
        return ret(st, mapt(("ctlz", w), lambda x: w - (x & ((1 << w) - 1)).bit_length() if x.__class__ is int else Iv(0, w), v))

    for nm, op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"),
                   ("unchecked_sub", "Sub"), ("unchecked_mul", "Mul"), ("unchecked_shl", "Shl"), ("unchecked_shr", "Shr"),
                   ("unchecked_div", "Div"), ("unchecked_rem", "Rem"), ("exact_div", "Div"), ("disjoint_bitor", "BitOr")):
        def f(it, st, o, a, at, dt, op=op):
            w, sg = w_of(o)
            return ret(st, it.simp(st, s_bin(op, w, sg, a[0], a[1])))
        M[("in", nm)] = f
    for nm, op in (("add_with_overflow", "Add"), ("sub_with_overflow", "Sub"), ("mul_with_overflow", "Mul")):
        def f(it, st, o, a, at, dt, op=op):
            w, sg = w_of(o)
            return ret(st, (it.simp(st, s_bin(op, w, sg, a[0], a[1])), it.simp(st, s_bin("Ovf" + op, w, sg, a[0], a[1]))))
        M[("in", nm)] = f

    @intr("saturating_add", "saturating_sub")
    def _sat(it, st, o, a, at, dt):
        w, sg = w_of(o)
        lo, hi = rng(w, sg)
        s = 1 if o["in"].endswith("add") else -1

        def f(x, y):
            if x.__class__ is int and y.__class__ is int:
                return max(lo, min(hi, x + s * y))
            xl, xh = lohi(x)
            yl, yh = lohi(y)
            if s < 0:
                yl, yh = -yh, -yl
            l, h = max(lo, min(hi, xl + yl)), max(lo, min(hi, xh + yh))
            return l if l == h else Iv(l, h)
        x, y = a
        if x.__class__ is Bits:
            x = bits_to_dd(x.b)
        if y.__class__ is Bits:
            y = bits_to_dd(y.b)
        return ret(st, it.simp(st, dd.map2((o["in"], w, sg), f, x, y)))

    @intr("rotate_left", "rotate_right")
    def _rot(it, st, o, a, at, dt):
        w, sg = w_of(o)
        m = (1 << w) - 1
        left = o["in"] == "rotate_left"

        def f(x, n):
            n %= w
            if not left:
                n = (w - n) % w
            x &= m
            return wrap((x << n | x >> (w - n)) & m, w, sg)
        if a[0].__class__ is Bits and a[1].__class__ is int:
            n = a[1] % w
            if not left:
                n = (w - n) % w
            b = to_bits(a[0], w)
            return ret(st, mkbits(b[w - n:] + b[:w - n]))
        x, y = [bits_to_dd(v.b) if v.__class__ is Bits else v for v in a]
        return ret(st, dd.map2((o["in"], w, sg), f, x, y))

    @intr("bswap", "bitreverse")
    def _bswap(it, st, o, a, at, dt):
        w, sg = w_of(o)
        b = to_bits(a[0], w)
        if o["in"] == "bitreverse":
            return ret(st, mkbits(b[::-1]))
        out = []
        for i in range(w // 8 - 1, -1, -1):
            out += b[8 * i:8 * i + 8]
        return ret(st, mkbits(out))

    @intr("arith_offset", "offset")
    def _off(it, st, o, a, at, dt):
        e = P.T[P.strip(o["ga"][0])]
        if o["in"] == "offset":
            es = P.sz(e["e"])
        else:
            es = P.sz(o["ga"][0])
        return ret(st, it.ptr_offset(a[0], a[1], es))

    @intr("ptr_offset_from_unsigned", "ptr_offset_from")
    def _pof(it, st, o, a, at, dt):
        es = P.sz(o["ga"][0]) or 1

        def f(x, y):
            if x.__class__ is int and y.__class__ is int:
                return (x - y) // es
            return p_bin("PtrDiff", x, y)
        x, y = a
        if x.__class__ is Node or y.__class__ is Node:
            r = dd.map2(("pdiff", es), f, x, y)
        else:
            r = f(x, y)
        return ret(st, it.simp(st, r))

    @intr("ptr_guaranteed_cmp")
    def _pgc(it, st, o, a, at, dt):
        return ret(st, s_bin("Eq", 64, 0, a[0], a[1]))

    @intr("raw_eq")
    def _raweq(it, st, o, a, at, dt):
        x, y = it.load(st, a[0]), it.load(st, a[1])
        return ret(st, it.simp(st, veq(x, y)))

    @intr("compare_bytes")
    def _cmpb(it, st, o, a, at, dt):
        n = a[2]
        n = it.simp(st, bits_to_dd(n.b) if n.__class__ is Bits else n)
        if n.__class__ is not int:
            raise Inconclusive("compare_bytes of unknown length")
        r = 0
        for i in range(n - 1, -1, -1):
            x = it.load(st, it.ptr_offset(a[0], i, 1))
            y = it.load(st, it.ptr_offset(a[1], i, 1))
            r = s_ite(s_bin("Lt", 8, 0, x, y), -1, s_ite(s_bin("Gt", 8, 0, x, y), 1, r))
        return ret(st, r)

    @intr("copy", "copy_nonoverlapping", "volatile_copy_memory")
    def _copy(it, st, o, a, at, dt):
        it.memcpy(st, a[0], a[1], a[2], o["ga"][0])
        return ret(st, ())

    @intr("typed_swap_nonoverlapping")
    def _swap(it, st, o, a, at, dt):
        x, y = it.load(st, a[0]), it.load(st, a[1])
        it.store(st, a[0], y)
        it.store(st, a[1], x)
        return ret(st, ())

    @intr("write_bytes")
    def _wb(it, st, o, a, at, dt):
        ty = o["ga"][0]
        n, byte = a[2], a[1]
        if n.__class__ is not int or byte.__class__ is not int:
            raise Inconclusive("write_bytes with unknown arguments")
        es = P.sz(ty)
        v = it.decode(ty, [byte] * es, {}, 0)
        for i in range(n):
            it.store(st, it.ptr_offset(a[0], i, es), v)
        return ret(st, ())

    @intr("read_via_copy", "volatile_load", "unaligned_volatile_load")
    def _rvc(it, st, o, a, at, dt):
        return ret(st, it.load(st, a[0]))

    @intr("write_via_move", "volatile_store")
    def _wvm(it, st, o, a, at, dt):
        it.store(st, a[0], a[1])
        return ret(st, ())

    @intr("discriminant_value")
    def _dv(it, st, o, a, at, dt):
        return ret(st, it.discr(it.load(st, a[0]), o["ga"][0]))

    @intr("transmute", "transmute_unchecked")
    def _tm(it, st, o, a, at, dt):
        return ret(st, it.transmute(st, a[0], at[0], dt))

    @intr("aggregate_raw_ptr")
    def _arp(it, st, o, a, at, dt):
        return ret(st, it.with_meta(a[0], a[1], dt))

    @intr("ptr_metadata")
    def _pm(it, st, o, a, at, dt):
        m = it.slice_len(a[0])
        return ret(st, () if m is None else m)

    @intr("ptr_mask")
    def _pmask(it, st, o, a, at, dt):
        return ret(st, a[0])

    @intr("three_way_compare")
    def _twc(it, st, o, a, at, dt):
        w, sg = w_of(o)
        return ret(st, En(s_bin("Cmp", w, sg, a[0], a[1]), {}))

    @intr("select_unpredictable")
    def _sel(it, st, o, a, at, dt):
        return ret(st, vmerge(a[0], a[1], a[2]) if a[0].__class__ is Node else (a[1] if a[0] else a[2]))

    @intr("is_val_statically_known", "const_eval_select_ct")
    def _isk(it, st, o, a, at, dt):
        return ret(st, 0)

    # --- allocation
    def alloc(it, st, o, a, at, dt):
        n = ("H", it.heapn)
        it.heapn += 1
        st.m[n] = UNINIT
        st.g.setdefault("heap", 0)
        return ret(st, Ptr(n, (("i", 0),)))

    def alloc_zeroed(it, st, o, a, at, dt):
        n = ("H", it.heapn)
        it.heapn += 1
        sz = a[0]
        if sz.__class__ is not int:
            raise Inconclusive("zeroed allocation of unknown size")
        st.m[n] = Zeroed
        return ret(st, Ptr(n, (("i", 0),)))
    for nm in ("__rust_alloc", "alloc::alloc::__rust_alloc", "std::alloc::__rust_alloc", "std::alloc::alloc", "alloc::alloc::alloc"):
        M[nm] = alloc

    def dealloc(it, st, o, a, at, dt):
        p = a[0]
        if p.__class__ is Ptr:
            st.m.pop(p.base, None)
        return ret(st, ())
    for nm in ("__rust_dealloc", "alloc::alloc::__rust_dealloc", "std::alloc::__rust_dealloc", "std::alloc::dealloc", "alloc::alloc::dealloc"):
        M[nm] = dealloc

    def realloc(it, st, o, a, at, dt):
        return ret(st, a[0])
    for nm in ("__rust_realloc", "alloc::alloc::__rust_realloc", "std::alloc::__rust_realloc", "std::alloc::realloc", "alloc::alloc::realloc"):
        M[nm] = realloc
    for nm in ("__rust_no_alloc_shim_is_unstable_v2", "std::alloc::__rust_no_alloc_shim_is_unstable_v2", "alloc::alloc::__rust_no_alloc_shim_is_unstable_v2"):
        M[nm] = _nop

    @model("std::slice::from_mut", "std::slice::from_ref", "core::slice::from_mut", "core::slice::from_ref", "core::slice::raw::from_mut",
           "core::slice::raw::from_ref")
    def _slice_of_one(it, st, o, a, at, dt):
        one = lambda p: Ptr(p.base, p.path, 1) if p.__class__ is Ptr else p
        return ret(st, mapt("slice1", one, a[0]))

    # --- text
    @model("std::str::from_utf8", "core::str::from_utf8", "std::str::converts::from_utf8", "core::str::converts::from_utf8")
    def _from_utf8(it, st, o, a, at, dt):
        p = a[0]
        n = it.slice_len(p)
        n = it.simp(st, n)
        if n.__class__ is not int:
            raise Inconclusive("from_utf8 of unknown length")
        for i in range(n):
            x = it.simp(st, it.load(st, it.ptr_offset(p, i, 1)))
            ts = dd.terminals(x) if x.__class__ is Node else [x]
            for t in ts:
                if t is UNINIT or t.__class__ is Bits or lohi(t)[1] > 127:
                    it.event("non-ascii text", st, "byte %d may be %r" % (i, t))
                    raise Inconclusive("text with a byte outside ASCII")
        return ret(st, En(0, {0: (p,)}))

    def dyn_write_str(it, st, w, s):
        """call write_str on a &mut dyn Write"""
        m = w.meta
        if m.__class__ is tuple and m[0] == "ty":
            n = "<%s as std::fmt::Write>::write_str" % P.T[m[1]]["n"]
            if n not in P.by_name:
                raise Inconclusive("no " + n)
            return it.call(st, P.by_name[n][0], [Ptr(w.base, w.path), s])
        if m.__class__ is tuple and m[0] == "vt":
            return it.call(st, P.A[m[1]]["ms"][3], [Ptr(w.base, w.path), s])
        raise Inconclusive("write to %r" % (w,))

    def fmt_fields(f_ty):
        fs = [x[0] for x in P.T[f_ty]["v"][0][2]]
        return fs.index("options"), fs.index("buf")

    def fmt_struct():
        for t, o in P.T.items():
            if o["k"] == "struct" and o["n"].startswith("std::fmt::Formatter<"):
                return t, fmt_fields(t)
        raise Inconclusive("fmt::Formatter not found")

    def opt_fields():
        for t, o in P.T.items():
            if o["k"] == "struct" and o["n"] == "std::fmt::FormattingOptions":
                return [x[0] for x in o["v"][0][2]]
        raise Inconclusive("FormattingOptions not found")

    @model("std::fmt::Formatter::<'a>::write_str")
    def _fws(it, st, o, a, at, dt):
        t, (oi, bi) = fmt_struct()
        f = it.load(st, a[0])
        return dyn_write_str(it, st, f[bi], a[1])

    # text is modelled as bytes; non-ASCII characters as intervals labelled by their byte offset
    @model("core::str::validations::next_code_point")
    def _ncp(it, st, o, a, at, dt):
        itv = it.load(st, a[0])
        if itv.__class__ is not tuple or len(itv) < 2:
            return NotImplemented
        p, end, rest = it.simp(st, itv[0]), itv[1], tuple(itv[2:])
        out = []
        if p.__class__ is Node:
            for q, s in it.split_any(st, p):
                s2 = s
                it.store(s2, a[0], (q, end) + rest)
                out += _ncp(it, s2, o, a, at, dt)
            return out
        if p.__class__ is not Ptr or not p.path or p.path[-1][0] != "i":
            return NotImplemented
        for e, s in it.split(st, it.simp(st, s_bin("Eq", 64, 0, p, end)), [(0, 0)], 1):
            if e:
                out.append((s, En(0, {0: ()})))
                continue
            b = it.simp(s, it.load(s, p))
            cls = mapt("utf8len", lambda x: utf8len(x), b)
            off = p.path[-1][1]
            for w, s2 in ([(cls, s)] if cls.__class__ is int else it.split_any(s, cls)):
                if w == 0:
                    it.event("unreachable", s2, "decoding from the middle of a character")
                    continue
                if w == 1:
                    ch = it.simp(s2, b)
                else:
                    ch = Iv(0x80, 0x10FFFF + (off if off.__class__ is int else 0))
                it.store(s2, a[0], (it.ptr_offset(p, w, 1), end) + rest)
                out.append((s2, En(1, {1: (ch,)})))
        return out

    # a text given line by line (it.text = {"base": b, "lines": [(base, length, blank)], "n": number of lines})
    @model("core::str::<impl str>::lines")
    def _lines(it, st, o, a, at, dt):
        p = it.simp(st, a[0])
        if it.text is None or p.__class__ is not Ptr or p.base != it.text["base"]:
            return NotImplemented
        return ret(st, Ptr(("LINES",), (("i", 0),)))

    @model("<std::str::Lines<'a> as std::iter::Iterator>::next")
    def _linesnext(it, st, o, a, at, dt):
        cur = it.simp(st, it.load(st, a[0]))
        if it.text is None:
            return NotImplemented
        out = []
        for c, s in ([(cur, st)] if cur.__class__ is Ptr else it.split_any(st, cur)):
            if c.__class__ is not Ptr or c.base != ("LINES",):
                raise Inconclusive("line iterator %r" % (c,))
            k = c.path[-1][1]
            for e, s2 in it.split(s, it.simp(s, s_bin("Lt", 64, 0, k, it.text["n"])), [(0, 0)], 1):
                if not e:
                    out.append((s2, En(0, {0: ()})))
                    continue
                if k >= len(it.text["lines"]):
                    raise Inconclusive("reads more than %d lines" % len(it.text["lines"]))
                b, n, _ = it.text["lines"][k]
                it.store(s2, a[0], Ptr(("LINES",), (("i", k + 1),)))
                out.append((s2, En(1, {1: (Ptr(b, (("i", 0),), n),)})))
        return out

    @model("<std::str::Lines<'a> as std::iter::Iterator>::size_hint")
    def _lineshint(it, st, o, a, at, dt):
        return ret(st, (0, En(0, {0: ()})))

    @model("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end")
    def _trim(it, st, o, a, at, dt):
        p = it.simp(st, a[0])
        if it.text is None:
            return NotImplemented
        if p.__class__ is Node:
            out = []
            for q, s in it.split_any(st, p):
                out += _trim(it, s, o, [q], at, dt)
            return out
        if p.__class__ is not Ptr or p.path != (("i", 0),):
            return NotImplemented
        for b, n, blank in it.text["lines"]:
            if p.base == b:
                return ret(st, Ptr(("TRIM", b), (("i", 0),), dd.ite(blank, 0, Iv(1, (1 << 63) - 1))))
        return NotImplemented

    def first_ptr(v):
        if v.__class__ is Ptr or v.__class__ is Node:
            return v
        if v.__class__ is tuple:
            for x in v:
                q = first_ptr(x)
                if q is not None:
                    return q
        return None

    @model("<std::str::Chars<'_> as std::iter::Iterator>::all::<fn(char) -> bool {std::char::methods::<impl char>::is_whitespace}>")
    def _allblank(it, st, o, a, at, dt):
        if it.text is None:
            return NotImplemented
        p = it.simp(st, it.load(st, a[0]))
        if p.__class__ is not tuple:
            return NotImplemented
        p = it.simp(st, first_ptr(p))
        out = []
        for q, s in it.split_any(st, p) if p.__class__ is Node else [(p, st)]:
            if q.__class__ is not Ptr or q.path != (("i", 0),):
                return NotImplemented
            hit = [blank for b, n, blank in it.text["lines"] if q.base == b]
            if not hit:
                return NotImplemented
            out.append((s, hit[0]))
        return out

    ok = En(0, {0: ((),)})

    @model("std::fmt::write", "core::fmt::write")
    def _write(it, st, o, a, at, dt):
        out, args = a
        tmpl, argp = args
        if argp.__class__ is int:
            return dyn_write_str(it, st, out, Ptr(tmpl.base, tmpl.path, argp >> 1))
        t, (oi, bi) = fmt_struct()
        of = opt_fields()

        def byte(i):
            return it.load(st, p_add(tmpl, i))
        pos = 0
        nxt = 0
        states = [st]
        while True:
            n = byte(pos)
            pos += 1
            if n == 0:
                break
            if n <= 0x80:
                ln = n
                if n == 0x80:
                    ln = byte(pos) | byte(pos + 1) << 8
                    pos += 2
                q = p_add(tmpl, pos)
                pos += ln
                ns = []
                for s in states:
                    ns += [x for x, _ in dyn_write_str(it, s, out, Ptr(q.base, q.path, ln))]
                states = ns
                continue
            opt = {"flags": 0xE0000020, "width": 0, "precision": 0}
            custom = n != 0xC0
            for bit, f, w in ((1, "flags", 4), (2, "width", 2), (4, "precision", 2)):
                if n & bit:
                    opt[f] = sum(byte(pos + k) << 8 * k for k in range(w))
                    pos += w
            if n & 8:
                nxt = byte(pos) | byte(pos + 1) << 8
                pos += 2
            idx = nxt
            nxt += 1
            ns = []
            for s in states:
                o2 = dict(opt)
                for bit, f in ((16, "width"), (32, "precision")):
                    if n & bit:
                        av = it.load(s, p_add(argp, opt[f], 16))
                        if av.d != 1:
                            raise Inconclusive("format width argument")
                        o2[f] = av.v[1][0]
                arg = it.load(s, p_add(argp, idx, 16))
                pl = arg.v[0]
                val = [x for x in pl if x.__class__ is Ptr or x.__class__ is int or x.__class__ is Node][0]
                fn = [x for x in pl if x.__class__ is Fn][0]
                fm = [None, None]
                fm[oi] = tuple([o2[x] for x in of])
                fm[bi] = out
                key = ("FMT", it.heapn)
                it.heapn += 1
                s.m[key] = tuple(fm)
                for s2, r in it.call(s, fn.i, [val, Ptr(key, ())]):
                    s2.m.pop(key, None)
                    ns.append(s2)
            states = it.join(ns) if len(ns) > 1 else ns
        return [(s, ok) for s in states]

    @model("std::fmt::format::format_inner", "alloc::fmt::format::format_inner", "std::fmt::format", "alloc::fmt::format")
    def _format(it, st, o, a, at, dt):
        new = P.by_name.get("std::string::String::new")
        ty = [t for t, o in P.T.items() if o["n"] == "std::string::String"]
        if not new or not ty:
            raise Inconclusive("no String::new for format!")
        out = []
        for s, v in it.call(st, new[0], []):
            key = ("FMTS", it.heapn)
            it.heapn += 1
            s.m[key] = v
            for s2, _ in _write(it, s, o, [Ptr(key, (), ("ty", ty[0])), a[0]], at, dt):
                out.append((s2, s2.m.pop(key)))
        return out

    def pad(it, st, fptr, chars, default_left, numeric=False):
        """write the given list of byte tables honouring width/alignment; returns states"""
        t, (oi, bi) = fmt_struct()
        f = it.load(st, fptr)
        of = opt_fields()
        opt = dict(zip(of, f[oi]))
        fl = opt["flags"]
        width = 0
        if fl & 0x08000000:
            width = it.simp(st, opt["width"])
        if fl & 0x10000000 and not numeric:
            raise Inconclusive("precision in format string")
        al = (fl >> 29) & 3
        out = []
        ws = [(width, st)]
        if width.__class__ is Node:
            ws = it.split_any(st, width)
        for w, s in ws:
            n = max(0, w - len(chars))
            fill = fl & 0x1FFFFF
            left = {0: 0, 1: n, 2: n // 2, 3: (0 if default_left else n)}[al]
            bs = tuple([fill] * left + list(chars) + [fill] * (n - left))
            key = ("TXT", it.heapn)
            it.heapn += 1
            s.m[key] = bs
            for s2, _ in dyn_write_str(it, s, f[bi], Ptr(key, (("i", 0),), len(bs))):
                s2.m.pop(key, None)
                out.append((s2, ok))
        return out

    @model("<str as std::fmt::Display>::fmt")
    def _strfmt(it, st, o, a, at, dt):
        p = a[0]
        n = it.simp(st, it.slice_len(p))
        if n.__class__ is not int:
            raise Inconclusive("display of text of unknown length")
        return pad(it, st, a[1], [it.load(st, it.ptr_offset(p, i, 1)) for i in range(n)], True)

    @model("<char as std::fmt::Display>::fmt")
    def _charfmt(it, st, o, a, at, dt):
        return pad(it, st, a[1], [it.load(st, a[0])], True)

    def intfmt(it, st, o, a, at, dt):
        v = it.load(st, a[0])
        if v.__class__ is Bits:
            v = bits_to_dd(v.b)
        v = it.simp(st, v)
        if v.__class__ is Iv or (v.__class__ is Node and any(x.__class__ is Iv for x in dd.terminals(v))):
            return pad(it, st, a[1], [Opq("number")], False, True)
        ln = mapt("declen", lambda x: len(str(x)), v)
        out = []
        for n, s in ([(ln, st)] if ln.__class__ is int else it.split_any(st, ln)):
            x = it.simp(s, v)
            out += pad(it, s, a[1], [mapt(("dec", n, i), lambda y, i=i: ord(str(y)[i]) if i < len(str(y)) else 48, x) for i in range(n)], False, True)
        return out
    for ty in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
        M["core::fmt::num::imp::<impl std::fmt::Display for %s>::fmt" % ty] = intfmt


def utf8len(x):
    lo, hi = lohi(x)
    if hi < 0x80:
        return 1
    for a, b, n in ((0x80, 0xC1, 0), (0xC2, 0xDF, 2), (0xE0, 0xEF, 3), (0xF0, 0xFF, 4)):
        if a <= lo and hi <= b:
            return n
    raise Inconclusive("class of byte %r" % (x,))


class _Z:
    pass


Zeroed = UNINIT


def veq(x, y):
    """boolean table: x == y structurally"""
    if x is y and x is not UNINIT:
        return 1
    if x.__class__ is tuple:
        r = 1
        for a, b in zip(x, y):
            r = dd.b_and(r, veq(a, b))
            if r.__class__ is int and not r:
                return 0
        return r
    if x.__class__ is En:
        r = s_bin("Eq", 64, 0, x.d, y.d)
        for k in x.v:
            if k in y.v:
                here = mapt(("isv", k), lambda d, k=k: 1 if d == k else 0, x.d)
                r = dd.b_and(r, dd.b_or(dd.b_not(here), veq(x.v[k], y.v[k])))
        return r
    return s_bin("Eq", 128, 0, x, y)
