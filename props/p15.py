"""P15: values outside the documented ranges and mixed-up kinds cannot be made by safe client code: decided by the type checker."""
from witness import Witness

FLOOR = 330
RULE = ("each witness program is a client of the crate compiled by the type checker: every way to write, construct or overwrite the representation of a range-restricted "
        "type from outside must be rejected with the stated error class, and its twin that only uses the checked constructors must be accepted")
EXPLANATION = ("Privacy and trait-implementation queries: struct expressions, field reads and writes, patterns, unchecked conversions (From/Into of raw numbers), mutable access to "
               "the representation (DerefMut, AsMut, BorrowMut, IndexMut, IntoIterator of mutable references), implementing SetElement outside the crate, mixing kinds of "
               "positions and sets, and reading results that outlive what they borrow from. Each rejected program has an accepted twin, so it is not rejected for an accident.")
ASSUMPTIONS = ["rustc's privacy, trait and borrow checking", "safe client code (transmute and the like excluded)"]
POS = {"Cell": 81, "Row": 9, "Col": 9, "Block": 9, "Line": 18, "House": 27, "MiniRow": 27, "MiniCol": 27, "MiniLine": 54, "Band": 3, "Stack": 3, "Chute": 6,
       "Position<House>": 9, "Position<Line>": 9, "Position<Row>": 9, "Position<Chute>": 27}
PRIV = ["E0423", "E0451", "E0532", "E0603", "E0616", "E0560", "E0026", "E0164", "E0063", "E0609", "E0610"]
TRAIT = ["E0277", "E0271", "E0308"]
RAW = {"Sudoku": ["[u8; 81]", "[u8]", "Vec<u8>"], "Set<Cell>": ["u128"], "Set<Digit>": ["u16"], "Set<House>": ["u32"], "Set<Position<House>>": ["u16"]}


def run(ctx):
    I = []

    def yes(key, code):
        I.append((key, code, None))

    def no(key, code, codes):
        I.append((key, code, codes))
    ALL = list(POS) + ["Digit"] + list(RAW)
    for t in list(POS) + ["Digit"]:
        b = t.split("<")[0]
        yes("make/%s/new" % t, "fn f(x: u8) -> %s { <%s>::new(x) }" % (t, t))
        if not t.startswith("Position"):
            yes("make/%s/new_checked" % t, "fn f(x: u8) -> Option<%s> { <%s>::new_checked(x) }" % (t, t))
        no("make/%s/literal" % t, "fn f(x: u8) -> %s { %s(x) }" % (t, b), PRIV)
        no("make/%s/braces" % t, "fn f(x: u8, y: %s) -> %s { %s { 0: x, ..y } }" % (t, t, b), PRIV + ["E0308"])
        for raw in ("u8", "usize", "u16", "char"):
            no("make/%s/from-%s" % (t, raw), "fn need<T: From<%s>>() {} fn f() { need::<%s>() }" % (raw, t), TRAIT)
        no("read/%s/field" % t, "fn f(x: %s) { let _ = x.0; }" % t, PRIV)
        no("write/%s/field" % t, "fn f(x: &mut %s) { x.0 = Default::default(); }" % t, PRIV)
        yes("read/%s/get" % t, "fn f(x: %s) -> u8 { x.get() }" % t)
    for t, raws in RAW.items():
        b = t.split("<")[0]
        no("make/%s/literal" % t, "fn f(x: %s) -> %s { %s(x) }" % (raws[0], t, b), PRIV)
        no("read/%s/field" % t, "fn f(x: %s) { let _ = x.0; }" % t, PRIV)
        no("write/%s/field" % t, "fn f(x: &mut %s, y: %s) { x.0 = y; }" % (t, raws[0]), PRIV)
        for raw in raws + ["u8", "usize"]:
            if raw != "[u8]":
                no("make/%s/from-%s" % (t, raw), "fn need<T: From<%s>>() {} fn f() { need::<%s>() }" % (raw, t), TRAIT)
            no("write/%s/as_mut-%s" % (t, raw), "fn need<T: AsMut<%s>>() {} fn f() { need::<%s>() }" % (raw, t), TRAIT)
            no("write/%s/borrow_mut-%s" % (t, raw), "fn need<T: std::borrow::BorrowMut<%s>>() {} fn f() { need::<%s>() }" % (raw, t), TRAIT)
            no("write/%s/deref_mut-%s" % (t, raw), "fn need<T: std::ops::DerefMut<Target = %s>>() {} fn f() { need::<%s>() }" % (raw, t), TRAIT)
    yes("make/Sudoku/from_bytes", "fn f(x: [u8; 81]) -> Result<Sudoku, FromBytesError> { Sudoku::from_bytes(x) }")
    yes("make/Sudoku/try_from", "fn f(x: [u8; 81]) -> Option<Sudoku> { use std::convert::TryFrom; Sudoku::try_from(x).ok() }")
    yes("make/Set/from_bits", "fn f(x: u16) -> Set<Digit> { Set::from_bits(x) }")
    yes("read/Sudoku/to_bytes", "fn f(x: Sudoku) -> [u8; 81] { x.to_bytes() }")
    yes("read/Set/bits", "fn f(x: Set<Cell>) -> u128 { x.bits() }")
    for t in ALL + ["StrategySolver"]:
        for ix in ("usize", "Cell", "u8", "std::ops::Range<usize>"):
            no("write/%s/index_mut-%s" % (t, ix), "fn need<T: std::ops::IndexMut<%s>>() {} fn f() { need::<%s>() }" % (ix, t), TRAIT)
        no("write/%s/iter_mut" % t, "fn f(x: &mut %s) { for e in x.iter_mut() { let _ = e; } }" % t, ["E0599"])
        no("write/%s/deref_mut" % t, "fn need<T: std::ops::DerefMut>() {} fn f() { need::<%s>() }" % t, TRAIT)
        if t != "StrategySolver":
            for op, rhs in (("Add", "u8"), ("Add", "usize"), ("AddAssign", "u8"), ("AddAssign", "usize"), ("Sub", "u8")):
                no("arith/%s/%s-%s" % (t, op, rhs), "fn need<T: std::ops::%s<%s>>() {} fn f() { need::<%s>() }" % (op, rhs, t), TRAIT)
    # ---- kinds cannot be mixed up
    for a, b in (("Row", "Col"), ("Col", "Row"), ("Row", "Block"), ("Line", "House"), ("House", "Line"), ("Band", "Stack"), ("MiniRow", "MiniCol"), ("Cell", "House"),
                 ("Digit", "Cell"), ("Position<House>", "Position<Line>"), ("Position<Line>", "Position<House>"), ("Position<Row>", "Position<Col>"), ("Row", "u8"),
                 ("Set<Digit>", "Set<Cell>"), ("Set<House>", "Set<Line>"), ("Set<Position<House>>", "Set<Position<Line>>")):
        no("mix/%s-as-%s" % (a, b), "fn g(_: %s) {} fn f(x: %s) { g(x) }" % (b, a), ["E0308"])
        yes("mix/%s-as-itself" % a, "fn g(_: %s) {} fn f(x: %s) { g(x) }" % (a, a))
        no("mix/%s==%s" % (a, b), "fn f(x: %s, y: %s) -> bool { x == y }" % (a, b), ["E0308", "E0277"])
    for op in ("&", "|", "^"):
        no("mix/sets/%s" % op, "fn f(x: Set<Digit>, y: Set<Cell>) { let _ = x %s y; }" % op, ["E0308", "E0277"])
        yes("mix/sets/own/%s" % op, "fn f(x: Set<Digit>, y: Set<Digit>) -> Set<Digit> { x %s y }" % op)
    # conversions exist in the total direction only
    for a, b in (("Row", "Line"), ("Col", "Line"), ("Row", "House"), ("Col", "House"), ("Block", "House"), ("Line", "House"), ("Band", "Chute"), ("Stack", "Chute")):
        yes("into/%s-%s" % (a, b), "fn f(x: %s) -> %s { x.into() }" % (a, b))
        no("into/%s-%s" % (b, a), "fn f(x: %s) -> %s { x.into() }" % (b, a), ["E0277"])
    # ---- the trait of set elements is closed
    no("sealed/SetElement", "struct X; impl SetElement for X { const ALL: u8 = 255; const NONE: u8 = 0; type Storage = u8; }", ["E0277", "E0046"])
    # ---- results own their data or stay tied to what they borrow from
    yes("borrow/solutions", "fn f(x: Sudoku) -> Vec<Sudoku> { x.solutions_up_to(2) }")
    no("borrow/line", "fn f(x: &Sudoku) -> &str { let l = x.to_str_line(); &*l }", ["E0515", "E0597"])
    no("borrow/iter", "fn f<'a>() -> impl Iterator<Item = Option<u8>> + 'a { let s = Sudoku::generate_solved(); let v = s.iter(); v }", ["E0515", "E0597"])
    no("borrow/deductions", "fn f(s: StrategySolver) -> Deduction<&'static [Candidate]> { match s.solve(&[]) { Ok((_, d)) | Err((_, d)) => d.get(0).unwrap() } }", ["E0515", "E0597", "E0716", "E0505"])
    yes("write/line/deref", "fn f(x: Sudoku) -> usize { let mut l = x.to_str_line(); let r: &str = &*l; r.len() }")
    no("write/line/deref_mut", "fn f(x: Sudoku) { let mut l = x.to_str_line(); let r: &mut str = &mut *l; }", ["E0596", "E0308"])
    no("write/line/field", "fn f(x: Sudoku) { let mut l = x.to_str_line(); l.0[0] = 255; }", PRIV)
    w = Witness()
    try:
        w.run(ctx, I)
    finally:
        w.close()
