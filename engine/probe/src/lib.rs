//! Client of the sudoku crate used as the entry point of the static analyses.
//! Every function here is a root of the reachability walk; nothing is run.
#![allow(clippy::all)]
use rand::RngCore;
use std::fmt::Write as _;
use std::hash::Hash;
use sudoku::bitset::{Empty, Set};
use sudoku::board::positions::*;
use sudoku::board::{Candidate, CellState, Digit};
use sudoku::errors::*;
use sudoku::strategy::deduction::*;
use sudoku::strategy::{Strategy, StrategySolver};
use sudoku::{Sudoku, Symmetry};

macro_rules! pos {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            use super::*;
            pub fn new(n: u8) -> $t { <$t>::new(n) }
            pub fn new_checked(n: u8) -> Option<$t> { <$t>::new_checked(n) }
            pub fn get(x: $t) -> u8 { x.get() }
            pub fn as_index(x: $t) -> usize { x.as_index() }
            pub fn all() -> Vec<$t> { let mut v = Vec::new(); for x in <$t>::all() { v.push(x) } v }
            pub fn eq(a: $t, b: $t) -> bool { a == b }
            pub fn cmp(a: $t, b: $t) -> std::cmp::Ordering { a.cmp(&b) }
        }
    )* }
}
pos! { cell Cell; row Row; col Col; block Block; line Line; house House; minirow MiniRow; minicol MiniCol;
       miniline MiniLine; band Band; stack Stack; chute Chute; digit Digit; }

macro_rules! cells {
    ($($m:ident $t:ty;)*) => { pub mod cells { use super::*; $( pub fn $m(x: $t) -> Set<Cell> { x.cells() } )* } }
}
cells! { cell Cell; row Row; col Col; block Block; line Line; house House; minirow MiniRow; minicol MiniCol;
         miniline MiniLine; band Band; stack Stack; chute Chute; }

pub mod conv {
    use super::*;
    pub fn cell_row(c: Cell) -> Row { c.row() }
    pub fn cell_col(c: Cell) -> Col { c.col() }
    pub fn cell_block(c: Cell) -> Block { c.block() }
    macro_rules! from { ($($n:ident $a:ty, $b:ty;)*) => { $( pub fn $n(x: $a) -> $b { <$b>::from(x) } )* } }
    from! {
        row_line Row, Line; col_line Col, Line; row_house Row, House; col_house Col, House; line_house Line, House;
        block_house Block, House; band_chute Band, Chute; stack_chute Stack, Chute;
        cell_row2 Cell, Row; cell_col2 Cell, Col; cell_block2 Cell, Block; cell_band Cell, Band; cell_stack Cell, Stack;
        cell_pos_row Cell, Position<Row>; cell_pos_col Cell, Position<Col>; cell_pos_block Cell, Position<Block>;
        cell_pos_band Cell, Position<Band>;
        posrow_line Position<Row>, Position<Line>; poscol_line Position<Col>, Position<Line>;
        posrow_house Position<Row>, Position<House>; poscol_house Position<Col>, Position<House>;
        posline_house Position<Line>, Position<House>; posblock_house Position<Block>, Position<House>;
        poschute_band Position<Chute>, Position<Band>;
    }
    pub fn pos_get(p: Position<House>) -> u8 { p.get() }
    pub fn pos_as_index(p: Position<House>) -> usize { p.as_index() }
    pub fn pos_new(p: u8) -> Position<House> { Position::new(p) }
    pub fn row_at(x: Row, p: Position<Row>) -> Cell { x.cell_at(p) }
    pub fn col_at(x: Col, p: Position<Col>) -> Cell { x.cell_at(p) }
    pub fn block_at(x: Block, p: Position<Block>) -> Cell { x.cell_at(p) }
    pub fn line_at(x: Line, p: Position<Line>) -> Cell { x.cell_at(p) }
    pub fn house_at(x: House, p: Position<House>) -> Cell { x.cell_at(p) }
    pub fn line_cells_at(x: Line, p: Set<Position<Line>>) -> Set<Cell> { x.cells_at(p) }
    pub fn house_cells_at(x: House, p: Set<Position<House>>) -> Set<Cell> { x.cells_at(p) }
    pub fn line_cat(x: Line) -> LineType { x.categorize() }
    pub fn house_cat(x: House) -> HouseType { x.categorize() }
    pub fn chute_cat(x: Chute) -> ChuteType { x.categorize() }
    pub fn miniline_cat(x: MiniLine) -> MiniLineType { x.categorize() }
    pub fn house_to_line_set(s: Set<Position<House>>) -> Set<Position<Line>> { s.as_line_set() }
    pub fn ie_row(e: InvalidEntry) -> u8 { e.row() }
    pub fn ie_col(e: InvalidEntry) -> u8 { e.col() }
    pub fn ie_block(e: InvalidEntry) -> u8 { e.block() }
}

pub mod candidate {
    use super::*;
    pub fn new(c: u8, d: u8) -> Candidate { Candidate::new(c, d) }
    pub fn row(c: Candidate) -> Row { c.row() }
    pub fn col(c: Candidate) -> Col { c.col() }
    pub fn block(c: Candidate) -> Block { c.block() }
    pub fn eq(a: Candidate, b: Candidate) -> bool { a == b }
}

macro_rules! sets {
    ($($m:ident $t:ty, $st:ty;)*) => { $(
        pub mod $m {
            use super::*;
            pub fn from_bits(b: $st) -> Set<$t> { Set::from_bits(b) }
            pub fn bits(s: Set<$t>) -> $st { s.bits() }
            pub fn all() -> Set<$t> { Set::ALL }
            pub fn none() -> Set<$t> { Set::NONE }
            pub fn single(x: $t) -> Set<$t> { x.as_set() }
            pub fn from_elem(x: $t) -> Set<$t> { Set::from(x) }
            pub fn and(a: Set<$t>, b: Set<$t>) -> Set<$t> { a & b }
            pub fn or(a: Set<$t>, b: Set<$t>) -> Set<$t> { a | b }
            pub fn xor(a: Set<$t>, b: Set<$t>) -> Set<$t> { a ^ b }
            pub fn not(a: Set<$t>) -> Set<$t> { !a }
            pub fn and_elem(a: Set<$t>, b: $t) -> Set<$t> { a & b }
            pub fn or_elem(a: Set<$t>, b: $t) -> Set<$t> { a | b }
            pub fn xor_elem(a: Set<$t>, b: $t) -> Set<$t> { a ^ b }
            pub fn and_assign(mut a: Set<$t>, b: Set<$t>) -> Set<$t> { a &= b; a }
            pub fn or_assign(mut a: Set<$t>, b: Set<$t>) -> Set<$t> { a |= b; a }
            pub fn xor_assign(mut a: Set<$t>, b: Set<$t>) -> Set<$t> { a ^= b; a }
            pub fn and_assign_elem(mut a: Set<$t>, b: $t) -> Set<$t> { a &= b; a }
            pub fn or_assign_elem(mut a: Set<$t>, b: $t) -> Set<$t> { a |= b; a }
            pub fn xor_assign_elem(mut a: Set<$t>, b: $t) -> Set<$t> { a ^= b; a }
            pub fn without(a: Set<$t>, b: Set<$t>) -> Set<$t> { a.without(b) }
            pub fn remove(mut a: Set<$t>, b: Set<$t>) -> Set<$t> { a.remove(b); a }
            pub fn overlaps(a: Set<$t>, b: Set<$t>) -> bool { a.overlaps(b) }
            pub fn contains(a: Set<$t>, b: Set<$t>) -> bool { a.contains(b) }
            pub fn contains_elem(a: Set<$t>, b: $t) -> bool { a.contains(b) }
            pub fn len(a: Set<$t>) -> u8 { a.len() }
            pub fn is_empty(a: Set<$t>) -> bool { a.is_empty() }
            pub fn is_full(a: Set<$t>) -> bool { a.is_full() }
            pub fn eq(a: Set<$t>, b: Set<$t>) -> bool { a == b }
        }
    )* }
}
sets! { set_digit Digit, u16; set_cell Cell, u128; set_line Line, u32; set_house House, u32;
        set_posline Position<Line>, u16; set_poshouse Position<House>, u16; }

macro_rules! set_iters {
    ($($m:ident $t:ty;)*) => { $(
        pub mod $m {
            use super::*;
            pub fn unique(a: Set<$t>) -> Result<Option<$t>, Empty> { a.unique() }
            pub fn into_iter(a: Set<$t>) -> sudoku::bitset::Iter<$t> { a.into_iter() }
            pub fn next(it: &mut sudoku::bitset::Iter<$t>) -> Option<$t> { it.next() }
        }
    )* }
}
set_iters! { it_digit Digit; it_cell Cell; it_line Line; it_house House; it_posline Position<Line>; it_poshouse Position<House>; }

pub mod sud {
    use super::*;
    pub fn from_bytes(b: [u8; 81]) -> Result<Sudoku, FromBytesError> { Sudoku::from_bytes(b) }
    pub fn from_bytes_slice(b: &[u8]) -> Result<Sudoku, FromBytesSliceError> { Sudoku::from_bytes_slice(b) }
    pub fn try_from_array(b: [u8; 81]) -> Result<Sudoku, FromBytesError> { use std::convert::TryFrom; Sudoku::try_from(b) }
    pub fn try_from_slice(b: &[u8]) -> Result<Sudoku, FromBytesSliceError> { use std::convert::TryFrom; Sudoku::try_from(b) }
    pub fn into_array(s: Sudoku) -> [u8; 81] { <[u8; 81]>::from(s) }
    pub fn from_str_line(s: &str) -> Result<Sudoku, LineParseError> { Sudoku::from_str_line(s) }
    pub fn from_str_block(s: &str) -> Result<Sudoku, BlockParseError> { Sudoku::from_str_block(s) }
    pub fn from_str_block_permissive(s: &str) -> Result<Sudoku, NotEnoughRows> { Sudoku::from_str_block_permissive(s) }
    pub fn to_bytes(s: Sudoku) -> [u8; 81] { s.to_bytes() }
    pub fn iter_nth(s: &Sudoku, n: usize) -> Option<Option<u8>> { s.iter().nth(n) }
    pub fn iter_all(s: &Sudoku) -> Vec<Option<u8>> { let mut v = Vec::new(); for x in s.iter() { v.push(x); } v }
    pub fn to_str_line_str(s: &Sudoku, n: usize) -> u8 { let l = s.to_str_line(); let t: &str = &l; t.as_bytes()[n] }
    pub fn line_len(s: &Sudoku) -> usize { let l = s.to_str_line(); let t: &str = &l; t.len() }
    pub fn line_eq(a: &Sudoku, b: &Sudoku) -> bool { a.to_str_line() == b.to_str_line() }
    pub fn line_hash(a: &Sudoku, h: &mut std::collections::hash_map::DefaultHasher) { a.to_str_line().hash(h) }
    pub fn display(s: &Sudoku) -> String { let mut o = String::new(); let _ = write!(o, "{}", s); o }
    pub fn display_block(s: &Sudoku) -> String { let mut o = String::new(); let _ = write!(o, "{}", s.display_block()); o }
    pub fn line_display(s: &Sudoku) -> String { let l = s.to_str_line(); let mut o = String::new(); let _ = write!(o, "{}", l); o }
    pub fn is_solved(s: &Sudoku) -> bool { s.is_solved() }
    pub fn n_clues(s: &Sudoku) -> u8 { s.n_clues() }
    pub fn eq(a: &Sudoku, b: &Sudoku) -> bool { a == b }
    pub fn cmp(a: &Sudoku, b: &Sudoku) -> std::cmp::Ordering { a.cmp(b) }
    pub fn solution(s: Sudoku) -> Option<Sudoku> { s.solution() }
    pub fn some_solution(s: Sudoku) -> Option<Sudoku> { s.some_solution() }
    pub fn count(s: Sudoku, n: usize) -> usize { s.solutions_count_up_to(n) }
    pub fn is_unique(s: Sudoku) -> bool { s.is_uniquely_solvable() }
    pub fn solutions(s: Sudoku, n: usize) -> Vec<Sudoku> { s.solutions_up_to(n) }
    pub fn buffer(s: Sudoku, t: &mut [[u8; 81]], n: usize) -> usize { s.solutions_up_to_buffer(t, n) }
    pub fn shuffle(s: &mut Sudoku) { s.shuffle() }
    pub fn shuffled(s: Sudoku) -> Sudoku { s.shuffled() }
    pub fn canonicalized(s: &Sudoku) -> Option<(Sudoku, usize)> { s.canonicalized() }
    pub fn clone(s: &Sudoku) -> Sudoku { s.clone() }
}

pub mod gen {
    use super::*;
    pub fn generate_solved() -> Sudoku { Sudoku::generate_solved() }
    pub fn generate() -> Sudoku { Sudoku::generate() }
    pub fn generate_with_symmetry(s: Symmetry) -> Sudoku { Sudoku::generate_with_symmetry(s) }
    pub fn generate_from(s: Sudoku) -> Sudoku { Sudoku::generate_from(s) }
    pub fn generate_with_symmetry_from(s: Sudoku, y: Symmetry) -> Sudoku { Sudoku::generate_with_symmetry_from(s, y) }
    /// generator whose whole behaviour is unknown to the analysis
    pub struct OpaqueRng(pub u64);
    impl RngCore for OpaqueRng {
        fn next_u32(&mut self) -> u32 { opaque_u32(self) }
        fn next_u64(&mut self) -> u64 { opaque_u64(self) }
        fn fill_bytes(&mut self, d: &mut [u8]) { opaque_fill(self, d) }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { opaque_fill(self, d); Ok(()) }
    }
    #[inline(never)] pub fn opaque_u32(r: &mut OpaqueRng) -> u32 { r.0 as u32 }
    #[inline(never)] pub fn opaque_u64(r: &mut OpaqueRng) -> u64 { r.0 }
    #[inline(never)] pub fn opaque_fill(_r: &mut OpaqueRng, _d: &mut [u8]) {}
    pub fn solved_with(r: &mut OpaqueRng) -> Sudoku { Sudoku::generate_solved_with_rng(r) }
    pub fn from_with(s: Sudoku, y: Symmetry, r: &mut OpaqueRng) -> Sudoku { Sudoku::generate_with_symmetry_and_rng_from(s, y, r) }
}

pub mod strat {
    use super::*;
    pub fn from_sudoku(s: Sudoku) -> StrategySolver { StrategySolver::from_sudoku(s) }
    pub fn from_sudoku_and_clues(s: Sudoku, c: Sudoku) -> StrategySolver { StrategySolver::from_sudoku_and_clues(s, c) }
    pub fn from_grid_state(g: [CellState; 81]) -> StrategySolver { StrategySolver::from_grid_state(g) }
    pub fn to_sudoku(s: &mut StrategySolver) -> Sudoku { s.to_sudoku() }
    pub fn grid_state(s: &StrategySolver) -> [CellState; 81] { s.grid_state() }
    pub fn cell_state(s: &mut StrategySolver, c: Cell) -> CellState { s.cell_state(c) }
    pub fn insert_candidate(s: &mut StrategySolver, c: Candidate) -> Result<(), ()> { s.insert_candidate(c) }
    pub fn solve(s: StrategySolver, st: &[Strategy]) -> Result<(Sudoku, Deductions), (Sudoku, Deductions)> { s.solve(st) }
    pub fn is_solved(s: &StrategySolver) -> bool { s.is_solved() }
    pub fn ded_len(d: &Deductions) -> usize { d.len() }
    pub fn ded_get(d: &Deductions, n: usize) -> Option<Deduction<&[Candidate]>> { d.get(n) }
    pub fn ded_is_empty(d: &Deductions) -> bool { d.is_empty() }
    pub fn ded_iter<'a>(d: &'a Deductions) -> sudoku::strategy::deduction::Iter<'a> { d.iter() }
    pub fn ded_next<'a>(d: &mut sudoku::strategy::deduction::Iter<'a>) -> Option<Deduction<&'a [Candidate]>> { d.next() }
    pub fn ded_strategy(d: &Deduction<&[Candidate]>) -> Strategy { d.strategy() }
    pub fn keep(s: Sudoku) -> Sudoku { StrategySolver::from_sudoku(s).to_sudoku() }
    pub fn keep_clues(s: Sudoku, c: Sudoku) -> Sudoku { StrategySolver::from_sudoku_and_clues(s, c).to_sudoku() }
    pub fn keep_state(g: [CellState; 81]) -> Sudoku { StrategySolver::from_grid_state(g).to_sudoku() }
    pub fn state_of(s: Sudoku) -> [CellState; 81] { StrategySolver::from_sudoku(s).grid_state() }
    pub fn restate(g: [CellState; 81]) -> [CellState; 81] { StrategySolver::from_grid_state(g).grid_state() }
    pub fn cell_of(g: [CellState; 81], c: Cell) -> (CellState, [CellState; 81]) { let mut s = StrategySolver::from_grid_state(g); let x = s.cell_state(c); (x, s.grid_state()) }
    pub fn insert(s: Sudoku, c: Candidate) -> (bool, Sudoku) { let mut s = StrategySolver::from_sudoku(s); let r = s.insert_candidate(c).is_ok(); (r, s.to_sudoku()) }
    pub fn insert_state(s: Sudoku, c: Candidate) -> [CellState; 81] { let mut s = StrategySolver::from_sudoku(s); let _ = s.insert_candidate(c); s.grid_state() }
    pub fn insert_late(s: Sudoku, x: Cell, c: Candidate) -> (bool, [CellState; 81]) { let mut s = StrategySolver::from_sudoku(s); let _ = s.cell_state(x); let r = s.insert_candidate(c).is_ok(); (r, s.grid_state()) }
    pub fn display(s: &StrategySolver) -> String { let mut o = String::new(); let _ = write!(o, "{}", s); o }
}

pub mod misc {
    use super::*;
    pub fn err_line(e: &LineParseError) -> String { let mut o = String::new(); let _ = write!(o, "{}", e); o }
    pub fn err_block(e: &BlockParseError) -> String { let mut o = String::new(); let _ = write!(o, "{}", e); o }
    pub fn err_rows(e: &NotEnoughRows) -> String { let mut o = String::new(); let _ = write!(o, "{}", e); o }
    pub fn err_slice(e: &FromBytesSliceError) -> String { let mut o = String::new(); let _ = write!(o, "{}", e); o }
    pub fn err_entry(e: &InvalidEntry) -> String { let mut o = String::new(); let _ = write!(o, "{}", e); o }
    pub fn err_bytes(e: &FromBytesError) -> String { let mut o = String::new(); let _ = write!(o, "{}", e); o }
    pub fn hash_sudoku(s: &Sudoku, h: &mut std::collections::hash_map::DefaultHasher) { s.hash(h) }
    pub fn cellstate_display_width(s: &CellState, w: usize) -> String { let mut o = String::new(); let _ = write!(o, "{:1$}", s, w); o }
    pub fn cellstate_display(s: &CellState) -> String { let mut o = String::new(); let _ = write!(o, "{}", s); o }
}

/// comparison, order and hashing of every public value type
pub mod vals {
    use super::*;
    use sudoku::board::positions::{ChuteType, HouseType, LineType, MiniLineType};
    use std::cmp::Ordering;
    use std::hash::Hasher;
    /// records what is fed to it
    pub struct Rec { pub n: usize, pub w: [u64; 96] }
    impl Rec {
        fn put(&mut self, x: u64) { self.w[self.n] = x; self.n += 1; }
    }
    impl Hasher for Rec {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) { for &x in b { self.put(x as u64) } }
        fn write_u8(&mut self, x: u8) { self.put(x as u64) }
        fn write_u16(&mut self, x: u16) { self.put(x as u64) }
        fn write_u32(&mut self, x: u32) { self.put(x as u64) }
        fn write_u64(&mut self, x: u64) { self.put(x) }
        fn write_usize(&mut self, x: usize) { self.put(x as u64) }
        fn write_isize(&mut self, x: isize) { self.put(x as u64) }
        fn write_u128(&mut self, x: u128) { self.put(x as u64); self.put((x >> 64) as u64) }
    }
    macro_rules! vals {
        ($($m:ident $t:ty;)*) => { $( pub mod $m {
            use super::*;
            pub fn eq(a: &$t, b: &$t) -> bool { a == b }
            pub fn ne(a: &$t, b: &$t) -> bool { a != b }
            pub fn hash(a: &$t) -> Rec { let mut r = Rec { n: 0, w: [0; 96] }; a.hash(&mut r); r }
            pub fn clone(a: &$t) -> $t { a.clone() }
        } )* }
    }
    macro_rules! ords {
        ($($m:ident $t:ty;)*) => { pub mod ord { use super::*; $( pub mod $m {
            use super::*;
            pub fn cmp(a: &$t, b: &$t) -> Ordering { a.cmp(b) }
            pub fn partial_cmp(a: &$t, b: &$t) -> Option<Ordering> { a.partial_cmp(b) }
            pub fn lt(a: &$t, b: &$t) -> bool { a < b }
            pub fn le(a: &$t, b: &$t) -> bool { a <= b }
            pub fn gt(a: &$t, b: &$t) -> bool { a > b }
            pub fn ge(a: &$t, b: &$t) -> bool { a >= b }
        } )* } }
    }
    vals! { cell Cell; row Row; col Col; block Block; line Line; house House; minirow MiniRow; minicol MiniCol;
            miniline MiniLine; band Band; stack Stack; chute Chute; digit Digit; candidate Candidate; position Position<House>;
            linetype LineType; housetype HouseType; chutetype ChuteType; minilinetype MiniLineType;
            cellstate CellState; symmetry Symmetry; entry InvalidEntry; lineerr LineParseError; blockerr BlockParseError; rows NotEnoughRows;
            set_cell Set<Cell>; set_digit Set<Digit>; set_house Set<House>; grid Sudoku; }
    ords! { cell Cell; row Row; col Col; block Block; line Line; house House; minirow MiniRow; minicol MiniCol;
            miniline MiniLine; band Band; stack Stack; chute Chute; digit Digit; candidate Candidate; set_digit Set<Digit>; grid Sudoku; }
    pub fn line_ne(a: &Sudoku, b: &Sudoku) -> bool { a.to_str_line() != b.to_str_line() }
    pub fn line_cmp(a: &Sudoku, b: &Sudoku) -> Ordering { a.to_str_line().cmp(&b.to_str_line()) }
    pub fn line_partial_cmp(a: &Sudoku, b: &Sudoku) -> Option<Ordering> { a.to_str_line().partial_cmp(&b.to_str_line()) }
    pub fn line_hash(a: &Sudoku) -> Rec { let mut r = Rec { n: 0, w: [0; 96] }; a.to_str_line().hash(&mut r); r }
    pub fn block_eq(a: &Sudoku, b: &Sudoku) -> bool { a.display_block() == b.display_block() }
    pub fn block_cmp(a: &Sudoku, b: &Sudoku) -> Ordering { a.display_block().cmp(&b.display_block()) }
    pub fn block_hash(a: &Sudoku) -> Rec { let mut r = Rec { n: 0, w: [0; 96] }; a.display_block().hash(&mut r); r }
}

#[cfg(feature = "serde")]
pub mod ser;
