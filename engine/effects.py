"""Which ambient state can a function reach?  A closed walk over the monomorphic call graph: direct calls, drop glue,
function values (fndef types and reified function pointers), closures, vtables."""
import re

PANIC = re.compile(r"(core|std)::panicking|::unwrap_failed|::expect_failed|handle_alloc_error|slice_error_fail|len_mismatch_fail|slice_index_fail|RangeError|capacity_overflow|handle_error|"
                   r"panic_display|panic_fmt|begin_panic|panic_access_error|_fail$|_panic$")
# functions without MIR that only work on their arguments
PURE = re.compile(r"^(core|alloc)$")
ALLOC = ("alloc::alloc::__rust", "alloc::alloc::__rg")
# a few std items that only compute; everything else in std, libc, getrandom, ... is ambient state
STD_OK = re.compile(r"^(std::collections::hash|<?std::collections::hash_map::DefaultHasher|<std::hash::random::DefaultHasher|<?std::hash::random::DefaultHasher|"
                    r"std::hash::RandomState::new$)?x^|DefaultHasher")
CR_OK = {"core", "alloc", "sudoku", "probe", "rand", "rand_core", "crunchy", "hashbrown", "thiserror", "serde", "serde_core", "serde_big_array",
         "ppv_lite86", "rand_chacha"}


class Effects:
    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.impls = None

    # -- direct facts of one function: callees, ambient accesses
    def facts(self, i):
        f = self.sum.get(i)
        if f is not None:
            return f
        P, o = self.P, self.P.I[i]
        calls, amb, virt = [], [], []
        self.sum[i] = f = (calls, amb, virt)
        n, cr = o["n"], o["cr"]
        lt = o.get("lt")
        if o["k"] == "intr" or o["k"] == "llvm":
            nm = o.get("in") or n
            if "atomic" in nm or "volatile" in nm:
                amb.append("atomic or volatile access %s" % nm)
            return f
        if PANIC.search(n) or (lt and P.T[lt[0]]["k"] == "never"):
            return f                      # panicking is reported by other checks, it is not an effect on later results
        if cr not in CR_OK and not (cr == "std" and STD_OK.search(n)):
            amb.append("%s (crate %s)" % (n, cr))
            return f
        bb = o.get("bb")
        if bb is None:
            return f
        for b in bb:
            for s in b["s"]:
                if s[0] == "=":
                    self.rv(s[2], s[3], o, f, s[1])
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                line = t[5]
                if c.__class__ is int:
                    calls.append((c, line))
                elif "virt" in c:
                    virt.append((c["virt"], c["n"], line))
                elif "ptr" in c:
                    pass                  # the function value was created somewhere: it is counted there
                else:
                    amb.append("unresolved call %s" % c)
                for a in t[2]:
                    self.operand(a, line, o, f)
            elif t[0] == "drop" and t[3] is not None:
                calls.append((t[3], 0))
            elif t[0] == "asm":
                amb.append("inline assembly")
        return f

    def operand(self, a, line, o, f):
        P = self.P
        if a[0] != "k":
            return
        t = P.T[a[1]]
        if t["k"] == "fndef" and t.get("i") is not None:
            f[0].append((t["i"], line))
        if t["k"] == "closure" and t.get("i") is not None:
            f[0].append((t["i"], line))
        if a[2].__class__ is dict:
            self.alloc(a[2], t, line, o, f, set())

    def alloc(self, m, t, line, o, f, seen):
        P = self.P
        for off, aid in m.get("p", ()):
            if aid in seen:
                continue
            seen.add(aid)
            x = P.A.get(aid)
            if x is None:
                continue
            if x["k"] == "static":
                mutp = t["k"] == "ptr" and t.get("mu")
                if mutp or self.interior(x["ty"], set()):
                    f[1].append("static %s, which can change between calls" % x["n"])
                if "m" in x:
                    self.alloc(x["m"], {"k": "static"}, line, o, f, seen)
            elif x["k"] == "mem":
                self.alloc(x["m"], {"k": "mem"}, line, o, f, seen)
            elif x["k"] == "fn":
                f[0].append((x["i"], line))
            elif x["k"] == "vt":
                for mth in x["ms"]:
                    if mth is not None:
                        f[0].append((mth, line))

    def rv(self, r, line, o, f, dst):
        if r[0] == "tls":
            f[1].append("thread-local %s" % r[1])
            return
        if r[0] == "cast" and o["cr"] == "sudoku" and ("Expose" in r[1] or r[1] == "Transmute" and self.P.T[r[3]]["k"] in ("ref", "ptr", "fnptr")
                                                       and self.P.T[r[4]]["k"] == "int") and not self.only_checked(o, dst):
            f[1].append("a pointer turned into a number")
        if r[0] == "cast" and "ClosureFnPointer" in r[1]:
            t = self.P.T[r[3]]
            if t.get("i") is not None:
                f[0].append((t["i"], line))
        if r[0] == "cast" and "Reify" in r[1]:
            t = self.P.T[r[3]]
            if t.get("i") is not None:
                f[0].append((t["i"], line))
        if r[0] == "agg":
            t = self.P.T[r[1]]
            if t["k"] == "closure" and t.get("i") is not None:
                f[0].append((t["i"], line))
        self.walk(r, line, o, f)

    def only_checked(self, o, dst):
        """the number made from a pointer only feeds the compiler's own null and alignment assertions"""
        if dst[1]:
            return False
        loc, todo = {dst[0]}, True
        while todo:
            todo = False
            for b in o["bb"]:
                for s in b["s"]:
                    if s[0] != "=" or s[1][0] in loc and not s[1][1]:
                        continue
                    if self.mentions(s[2], loc):
                        if s[2][0] not in ("bin", "un", "use") or s[1][1]:
                            return False
                        loc.add(s[1][0])
                        todo = True
        for b in o["bb"]:
            t = b["t"]
            if t[0] != "assert" and self.mentions(t, loc) or t[0] == "assert" and self.mentions(t, loc) and t[3] not in ("null", "misaligned"):
                return False
        return True

    def mentions(self, x, loc):
        if x.__class__ is list:
            if len(x) == 2 and x[0] in ("p", "m") and x[1].__class__ is list and x[1] and x[1][0] in loc:
                return True
            return any(self.mentions(y, loc) for y in x)
        return False

    def walk(self, r, line, o, f):
        for x in r:
            if x.__class__ is list:
                if len(x) == 3 and x[0] == "k" and x[1].__class__ is int:
                    self.operand(x, line, o, f)
                elif x and x[0].__class__ is list or x and x[0] in ("p", "m"):
                    self.walk(x, line, o, f)

    def interior(self, t, seen):
        """can a value of this type change behind a shared reference?  (type walk for UnsafeCell)"""
        if t in seen:
            return False
        seen.add(t)
        o = self.P.T.get(t)
        if o is None:
            return False
        if "UnsafeCell" in o.get("an", "") or o["n"].startswith("std::cell::UnsafeCell"):
            return True
        k = o["k"]
        if k in ("array", "slice", "pat"):
            return self.interior(o["e"], seen)
        if k in ("ref", "ptr"):
            return self.interior(o["e"], seen)
        if k == "tuple":
            return any(self.interior(e, seen) for e in o["e"])
        if k in ("struct", "enum", "union"):
            return any(self.interior(fl[1], seen) for v in o["v"] for fl in v[2])
        if k == "dyn":
            return "fmt::Write" not in o["n"]
        return False

    def path(self, root):
        """first path from root to an ambient access, or None; the set of functions walked"""
        prev = {root: None}
        todo = [root]
        while todo:
            i = todo.pop()
            calls, amb, virt = self.facts(i)
            if amb:
                return self.trace(prev, i) + [amb[0]], prev
            for v in virt:
                if not re.search(r"fmt::|Write|Display|Debug|error::Error|Any|drop", v[1]):
                    return self.trace(prev, i) + ["call through an unknown trait object: %s" % v[1]], prev
            for c, line in calls:
                if c not in prev:
                    prev[c] = (i, line)
                    todo.append(c)
        return None, prev

    def trace(self, prev, i):
        out = []
        while i is not None:
            p = prev[i]
            out.append(self.P.I[i]["n"] + (":%d" % p[1] if p and p[1] else ""))
            i = p[0] if p else None
        return out[::-1]
