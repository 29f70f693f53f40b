"""No hidden inputs, state or effects: reachability over the monomorphic call graph, plus type-level witnesses."""
from effects import Effects
from witness import Witness
import frame

RULE = ("For every public operation (each function of the client crate engine/probe and every trait implementation of the crate) walk all functions reachable "
        "through calls, drop glue, function values, closures and vtables; none may reach a changeable static or thread-local, an atomic, a foreign function, "
        "inline assembly, an std facility outside core/alloc, or turn an address into a number. Exempt are exactly the operations documented to use the thread's generator. "
        "Send, Sync and the absence of interior mutability are decided by the type checker and a walk over field types.")
EXPLANATION = ("Call-graph effect analysis of the compiled MIR (all of the crate, core, alloc and dependencies); a violation names the call path from the public "
               "function to the ambient access. Functions that end in a panic are not followed: panics are judged by the other checks.")
ALSO = ["rel"]
FLOOR = 480
ASSUMPTIONS = ["core and alloc functions without MIR in the compiled standard library work on their arguments only",
               "the global allocator has no observable effect besides providing memory"]
# documented to draw from rand::thread_rng()
RANDOM = {"probe::sud::shuffle", "probe::sud::shuffled", "probe::gen::generate_solved", "probe::gen::generate", "probe::gen::generate_with_symmetry",
          "probe::gen::generate_from", "probe::gen::generate_with_symmetry_from"}
VALUES = ["Sudoku", "Symmetry", "Cell", "Row", "Col", "Block", "Line", "House", "MiniRow", "MiniCol", "MiniLine", "Band", "Stack", "Chute", "Digit", "Candidate",
          "CellState", "Position<House>", "Position<Line>", "Set<Digit>", "Set<Cell>", "Set<House>", "Set<Line>", "Set<Position<House>>", "LineType", "HouseType",
          "ChuteType", "MiniLineType", "StrategySolver", "Strategy", "Deductions", "Deduction<&'static [Candidate]>", "FromBytesError", "FromBytesSliceError",
          "LineParseError", "BlockParseError", "NotEnoughRows", "InvalidEntry", "Empty", "sudoku::bitset::Iter<Digit>"]


def run(ctx):
    P = ctx.prog()
    E = Effects(P)
    seen = set()
    exempt = set()
    roots = [(i, n) for i, n in P.R if P.I[i]["cr"] == "probe"]
    for i, n in roots:
        p, w = E.path(i)
        if n in RANDOM:
            exempt |= set(w)
            # the thread's generator is the only ambient thing they may use: cut there, nothing else may be left
            q, w2 = path_without_rng(E, i)
            ctx.ob("effects/" + n + "/only-thread-rng", q is None, "reaches %s" % (q and " > ".join(short(q))), q and frame.where_of(P, P.I[i]))
            continue
        ctx.ob("effects/" + n, p is None, "reaches ambient state: %s" % (p and " > ".join(short(p))), p and where(P, E, i))
        seen |= set(w)
    for i, n in P.R:
        o = P.I[i]
        if o["cr"] != "sudoku" or i in seen or i in exempt:
            continue
        p, w = E.path(i)
        seen |= set(w)
        if " as " in n:
            ctx.ob("effects/trait/" + n, p is None, "reaches ambient state: %s" % (p and " > ".join(short(p))), p and where(P, E, i))
    for i in seen | exempt:
        o = P.I[i]
        ctx.fns[o["n"]] = (o["cr"], o.get("f"), o.get("l"))
        for b in range(len(o.get("bb") or ())):
            ctx.nblocks.add((o["n"], b))
    # interior mutability
    for t, o in sorted(P.T.items()):
        if o.get("cr") == "sudoku" and o["k"] in ("struct", "enum", "union"):
            ctx.ob("interior/" + o["n"], not E.interior(t, set()), "type %s contains a cell that can change behind a shared reference" % o["n"], o["n"])
    w = Witness()
    try:
        w.run(ctx, [("send-sync/" + t, "fn need<T: Send + Sync + 'static>() {} fn f() { need::<%s>(); }" % t, None) for t in VALUES])
    finally:
        w.close()


def short(p):
    return [x.replace("sudoku::", "") for x in (p if len(p) < 10 else p[:5] + ["..."] + p[-4:])]


def where(P, E, i):
    p, _ = E.path(i)
    last = [x for x in p if "sudoku::" in x and not x.startswith("probe")]
    return last[-1] if last else p[0]


def path_without_rng(E, root):
    """like path, but not following anything of the rand crates' thread generator"""
    prev = {root: None}
    todo = [root]
    while todo:
        i = todo.pop()
        o = E.P.I[i]
        if o["cr"] in ("rand", "rand_core", "rand_chacha", "getrandom") or o["n"] == "rand::thread_rng" or "ThreadRng" in o["n"].split("::<")[0] or "ThreadRng" in o["n"] and o["cr"] != "sudoku":
            continue
        calls, amb, virt = E.facts(i)
        if amb:
            return E.trace(prev, i) + [amb[0]], prev
        for c, line in calls:
            if c not in prev:
                prev[c] = (i, line)
                todo.append(c)
    return None, prev
