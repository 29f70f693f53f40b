"""Obligation bookkeeping shared by all properties."""
import json, os, resource, threading, pickle, sys, time, importlib, traceback
ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
sys.path.insert(0, ENGINE)
import dd, extract
from ai import *
from interp import Interp, pc_and, pc_simpl

DOM = {"sudoku::board::Cell": 81, "Cell": 81}
SIZES = {"cell": 81, "row": 9, "col": 9, "block": 9, "line": 18, "house": 27, "minirow": 27, "minicol": 27,
         "miniline": 54, "band": 3, "stack": 3, "chute": 6}


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.progs = {}
        self.obs = []           # (key, ok, detail, where)
        self.fns = {}
        self.nblocks = set()
        self.steps = 0
        self.notes = []
        self.assume = []
        self.cases = 0
        self.t0 = time.time()

    # ------------------------------------------------------------ programs
    def prog(self, cfg="dev"):
        p = self.progs.get(cfg)
        if p is None:
            p = self.progs[cfg] = Prog(extract.extract(cfg))
        return p

    def reset(self):
        dd.reset()

    def interp(self, cfg="dev"):
        return Interp(self.prog(cfg))

    def done(self, it):
        for i, n in it.visited.items():
            o = it.P.I[i]
            self.fns[o["n"]] = (o["cr"], o.get("f"), o.get("l"))
        for i, b in it.blocks:
            self.nblocks.add((it.P.I[i]["n"], b))
        self.steps += it.steps

    def parallel(self, jobs, procs=8):
        """run job(self) for every job in forked workers; obligations and coverage are collected in order"""
        jobs = list(jobs)
        self.prog()
        procs = max(1, min(procs, len(jobs), os.cpu_count() or 1))
        kids = []
        for w in range(procs):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (4500 << 20, 4500 << 20))
                res = []
                for i in range(w, len(jobs), procs):
                    sub = Ctx(self.pid, self.tier)
                    sub.progs = self.progs
                    try:
                        with dd.budget(12000000):
                            jobs[i](sub)
                    except Exception as e:
                        traceback.print_exc()
                        sub.ob("analysis", False, "the analysis stopped: %s: %s" % (type(e).__name__, e))
                    res.append((i, sub.obs, sub.fns, sub.nblocks, sub.steps, sub.cases))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(res, f)
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
            os.close(wr)
            KIDS.add(pid)
            kids.append((pid, r))
        out = {}
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            KIDS.discard(pid)
            for x in pickle.loads(data) if data else ():
                out[x[0]] = x
        for i in range(len(jobs)):
            if i not in out:
                self.ob("analysis", False, "a worker ended without a result")
                continue
            _, obs, fns, blocks, steps, cases = out[i]
            self.obs += obs
            self.fns.update(fns)
            self.nblocks |= blocks
            self.steps += steps
            self.cases += cases

    # ------------------------------------------------------------ obligations
    def ob(self, key, ok, detail="", where=None):
        self.obs.append((key, bool(ok), detail, where))
        return bool(ok)

    def anchor(self, prog, fn):
        o = prog.I[prog.fn(fn)]
        return where_of(prog, o)

    def analyse(self, key, fn, args, pc=(), mem=None, cfg="dev", setup=None, panics=None, budget=3000000):
        """run fn from the given abstract state; [] and a failed obligation if undecided.
        panics: function(event) -> True if that panic is allowed; None: no panic allowed"""
        it = self.interp(cfg)
        if setup:
            setup(it)
        self.cases += 1
        w = None
        try:
            i = it.P.fn(fn) if fn.__class__ is str else fn
            w = where_of(it.P, it.P.I[i])
            with dd.budget(budget):
                rs = it.run(i, list(args), pc=tuple(pc), m=dict(mem or {}))
        except (Inconclusive, TooBig, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
            st = it.fail_stack or []
            inner = [s for s in st if "sudoku::" in s[0]]
            detail = "%s: %s%s" % (type(e).__name__, e, "" if not st else " at " + " > ".join("%s:%s" % s for s in (inner or st)[-3:]))
            if os.environ.get("AI_DEBUG"):
                traceback.print_exc()
                print(st)
            self.ob(key + "/decided", False, "the analysis cannot establish the property (%s)" % detail, w)
            self.done(it)
            return None, it
        self.done(it)
        if panics is not False:
            for e in it.events:
                if panics is not None and panics(e):
                    continue
                f, l = e.where()
                self.ob(key + "/no-panic", False, "%s (%s) reachable in %s%s" % (e.kind, e.detail, f, model_text(e.pc)), "%s (line %s)" % (f, l))
        return rs, it

    def same(self, key, got, want, pc=(), where=None, what=""):
        """obligation: got equals want in every valuation allowed by pc"""
        try:
            neq = vneq(got, want)
            bad = pc_and(tuple(pc), neq) if neq.__class__ is Node or neq else None
        except (TooBig, Inconclusive) as e:
            return self.ob(key, False, "comparison undecided: %s" % e, where)
        if bad is None:
            return self.ob(key, True)
        m = model_of(bad)
        return self.ob(key, False, "%sdiffers for %s: computed %s, specified %s" % (
            what and what + " ", fmt_model(m), show_at(got, m), show_at(want, m)), where)

    def holds(self, key, cond, pc=(), where=None, what=""):
        """obligation: boolean table cond is true everywhere under pc"""
        neq = dd.b_not(cond) if cond.__class__ is Node else (0 if cond else 1)
        bad = pc_and(tuple(pc), neq)
        if bad is None:
            return self.ob(key, True)
        return self.ob(key, False, "%s fails for %s" % (what or key, fmt_model(model_of(bad))), where)


def where_of(P, o):
    return "%s (%s)" % (o["n"], (o.get("f") or "?").replace("/repo/", ""))


def eq_t(a, b):
    if a is UNINIT or b is UNINIT:
        return 1 if a is b else 0
    if a.__class__ is int and b.__class__ is int:
        return 1 if a == b else 0
    return 1 if a == b else 0


def vneq(a, b):
    """boolean table: a and b differ"""
    if a is b:
        return 0
    if a.__class__ is tuple or b.__class__ is tuple:
        if a.__class__ is not tuple or b.__class__ is not tuple or len(a) != len(b):
            return 1
        r = 0
        for x, y in zip(a, b):
            r = dd.b_or(r, vneq(x, y))
        return r
    if a.__class__ is En or b.__class__ is En:
        if a.__class__ is not En or b.__class__ is not En:
            return 1
        r = vneq(a.d, b.d)
        for k in set(a.v) | set(b.v):
            here = mapt(("isv", k), lambda d, k=k: 1 if d == k else 0, a.d)
            if here.__class__ is int and not here:
                continue
            x, y = a.v.get(k, ()), b.v.get(k, ())
            if x is UNINIT:
                x = ()
            if y is UNINIT:
                y = ()
            if len(x) != len(y):
                n = max(len(x), len(y))
                x = tuple(x) + ((),) * (n - len(x))
                y = tuple(y) + ((),) * (n - len(y))
            r = dd.b_or(r, dd.b_and(here, vneq(x, y)))
        return r
    if a.__class__ is Bits or b.__class__ is Bits:
        w = max(len(x.b) for x in (a, b) if x.__class__ is Bits)
        A, B = to_bits(a, w), to_bits(b, w)
        r = 0
        for x, y in zip(A, B):
            r = dd.b_or(r, dd.b_xor(x, y))
        return r
    return dd.map2("neq_spec", lambda x, y: 1 - eq_t(x, y), a, b)


def model_of(pc):
    m = {}
    for c in pc:
        if c.__class__ is Node:
            x = dd.a_model(c)
            if x:
                for k, v in x.items():
                    m.setdefault(k, v)
    return m


def fmt_model(m, n=14):
    items = list(m.items())
    return "{%s%s}" % (", ".join("%s=%s" % kv for kv in items[:n]), ", ..." if len(items) > n else "")


def model_text(pc):
    m = model_of(pc)
    return " for " + fmt_model(m) if m else ""


def value_at(v, m):
    if v.__class__ is Node:
        while v.__class__ is Node:
            s = dd.Sym.all[v.s]
            i = s.dom.index(m[s.name]) if s.name in m else 0
            v = v.k[i]
        return v
    if v.__class__ is tuple:
        return tuple([value_at(x, m) for x in v])
    if v.__class__ is Bits:
        return sum(value_at(x, m) << i for i, x in enumerate(v.b))
    if v.__class__ is En:
        d = value_at(v.d, m)
        f = v.v.get(d)
        return ("variant", d) + (tuple(value_at(x, m) for x in f) if f not in (None, UNINIT) else ())
    return v


def show_at(v, m):
    s = repr(value_at(v, m))
    return s if len(s) < 300 else s[:300] + "..."


# ------------------------------------------------------------------ entry

def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def out_of_time(pid, tier, seed, mod, limit):
    """the property could not be established in the allotted time: that is reported, not passed over"""
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, pid + ".violation.json")
    d = "the analysis did not finish within %d s" % limit
    json.dump([{"obligation": "time", "detail": d, "where": None}], open(rp, "w"))
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "violations": 1, "wall_s": limit,
               "coverage": {"explanation": d, "rule": mod.RULE, "obligations": 0, "discharged": 0}, "assumptions": []},
              open(os.path.join(ev, pid + ".json"), "w"))
    print("  time: " + d)
    print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    for p in list(KIDS):
        try:
            os.kill(p, 9)
        except OSError:
            pass
    os._exit(1)


KIDS = set()


def main(pid, tier):
    sys.path.insert(0, os.path.join(VERIF, "props"))
    ctx = Ctx(pid, tier)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid.lower())
    limit = float(os.environ.get("VERIF_WALL", "820" if tier == "quick" else "14000"))
    threading.Timer(limit, out_of_time, (pid, tier, seed, mod, limit)).start()
    cfgs = ["dev"] + (getattr(mod, "ALSO", []) if tier == "quick" else getattr(mod, "DEEP", ["rel", "unchecked"]))
    if os.environ.get("VERIF_CONFIGS"):
        cfgs = os.environ["VERIF_CONFIGS"].split(",")
    for cfg in cfgs:
        n = len(ctx.obs)
        try:
            if cfg != "dev":
                # the same obligations on the crate compiled in another configuration
                ctx.progs = {"dev": Prog(extract.extract(cfg))}
            mod.run(ctx)
        except Inconclusive as e:
            ctx.ob("anchor", False, str(e))
        except RuntimeError as e:
            ctx.ob("build", False, "cannot analyse the tree: " + str(e)[-1500:])
        except Exception as e:
            traceback.print_exc()
            ctx.ob("analysis", False, "the analysis stopped: %s: %s" % (type(e).__name__, e))
        if cfg != "dev":
            ctx.obs[n:] = [(cfg + ":" + o[0],) + o[1:] for o in ctx.obs[n:]]
    floor = getattr(mod, "FLOOR", 1)
    if len(ctx.obs) < floor and all(o[1] for o in ctx.obs):
        ctx.ob("floor", False, "only %d obligations were generated, at least %d expected" % (len(ctx.obs), floor))
    kf = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    viol, seen_known = [], []
    for key, ok, detail, where in ctx.obs:
        if ok:
            continue
        hit = [k for k in kf if k["obligation"] == key and all(x in (detail + " " + str(where)) for x in k.get("match", []))]
        if hit:
            if hit[0] not in seen_known:
                seen_known.append(hit[0])
        else:
            viol.append({"obligation": key, "detail": detail, "where": where})
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    fns = {n: v for n, v in ctx.fns.items() if v[0] == "sudoku"}
    cov = {
        "explanation": mod.EXPLANATION,
        "rule": mod.RULE,
        "obligations": len(ctx.obs),
        "discharged": sum(1 for o in ctx.obs if o[1]),
        "build_configurations": cfgs,
        "analyses": ctx.cases,
        "functions_analysed": len(ctx.fns),
        "crate_functions": sorted(fns)[:400],
        "basic_blocks": len(ctx.nblocks),
        "abstract_block_steps": ctx.steps,
        "obligation_keys": sorted({o[0] for o in ctx.obs})[:400],
    }
    cov.update(getattr(ctx, "extra", {}))
    out = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assume,
        "violations": len(viol),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rp = os.path.join(ev, pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1, default=str)
        for v in viol[:8]:
            print("  %s: %s  [%s]" % (v["obligation"], v["detail"][:600], v["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations hold, %d functions, %.1fs" % (pid, len(ctx.obs), len(ctx.fns), time.time() - ctx.t0))
    return 0
