ABS = "abstract interpretation (value-set dataflow) over MIR"
NOTE = ("Exact for every input of the stated domain, on the MIR of the crate and of the core/std functions it calls; trusts rustc's MIR "
        "construction and the abstract transfer functions in engine/ (compiler intrinsics, allocation and text formatting are modelled).")
NOTES = "See DESIGN.md. All checks share one MIR extraction of /repo's current tree (engine/extract.py, rebuilt when any source changes)."
PROPS = [
 dict(id="P01", title="Board geometry is exact",
  statement="Every conversion between cells, rows, columns, blocks, lines, houses, bands, stacks, chutes, minirows, minicolumns and minilines, every in-house position, and every 'cells of'/'cells at'/'all' enumeration agrees with the definition of a 9x9 board numbered row by row. Checked constructors accept exactly the in-range indices, and no in-range query panics.",
  quant="all 81 cells, all positions of every kind, all subsets of in-house positions",
  why="Tests compare a few derived tables with each other; a table entry or offset that is wrong consistently, or a conversion they never call, passes.",
  files=["src/board/positions.rs", "src/board/candidate.rs", "src/board/digit.rs", "src/errors.rs"],
  mech=[("lookup tables and arithmetic of the position types", "src/board/positions.rs"), ("Candidate accessors", "src/board/candidate.rs")],
  observe=["public methods of sudoku::board::positions"], technique=ABS + ": finite input/output tables vs geometric definition", note=NOTE),
 dict(id="P02", title="Bitsets behave as mathematical sets",
  statement="For every element type, union, intersection, symmetric difference, difference, complement (also in their assigning and single-element forms), containment, overlap, equality, size, emptiness, fullness and the unique-element query return exactly the mathematical result for every pair of sets. Iterating a set yields each element exactly once in ascending order, and raw masks are accepted exactly when they name only existing elements.",
  quant="all pairs of subsets of each of the six element types; all raw integers",
  why="The existing tests hardly touch sets directly; 2^81 cell sets cannot be sampled meaningfully.",
  files=["src/bitset.rs"], mech=[("Set<T> operators and queries", "src/bitset.rs"), ("Iter<T>::next", "src/bitset.rs")],
  observe=["public methods of sudoku::bitset::Set"], technique=ABS + " with one boolean symbol per element", note=NOTE),
 dict(id="P03", title="Byte construction is exact and lossless",
  statement="A sudoku is built from a byte array or slice exactly when it has 81 entries that are all at most 9, and otherwise the error names the cause (with the slice's length when that is wrong). Reading the bytes, iterating the cells, counting clues, comparing and ordering two sudokus (or their line forms) reflect exactly the stored bytes.",
  quant="all 256^81 byte arrays, slices of every length, all pairs of grids",
  why="Tests build a handful of grids; they cannot rule out an entry position or value that is let through or altered.",
  files=["src/board/sudoku.rs", "src/errors.rs"], mech=[("from_bytes / from_bytes_slice / TryFrom", "src/board/sudoku.rs"), ("iter, n_clues, to_bytes, derived comparisons", "src/board/sudoku.rs")],
  observe=["Sudoku::from_bytes, from_bytes_slice, to_bytes, iter, n_clues, ==, cmp"], technique=ABS + " with 81 symbolic bytes and symbolic length", note=NOTE),
 dict(id="P04", title="Line format parsing is exact for every text",
  statement="Parsing the line format succeeds exactly when the text begins with 81 entries (a digit, or '0', '.', '_' for empty) followed by nothing or by a tab, space, carriage return, line feed, ';' or ',', and then returns exactly those entries. Otherwise it never panics and the error and its payload (number of cells supplied, index and character of the first invalid entry, too many cells, missing comment delimiter) describe the first problem in the text.",
  quant="all UTF-8 texts of all lengths",
  why="Tests read fixture files and one-edit variants; they cannot cover every byte at every position, nor multi-byte characters and lengths around 81.",
  files=["src/board/sudoku.rs", "src/errors.rs"], mech=[("from_str_line with its fast path", "src/board/sudoku.rs")],
  observe=["Sudoku::from_str_line"], technique=ABS + " on a symbolic text", note=NOTE + " A non-ASCII character is identified by its byte offset."),
 dict(id="P05", title="Text output round-trips",
  statement="For every grid, the line text has exactly 81 bytes, each '.' or a digit and equal to the stored cell, dereferences to the same text, and parsing it as a line gives back the same grid. The block Display shows every cell in board order, and a cell state prints as its digit, or its candidates in ascending order ('_' if none).",
  quant="all grids of 81 values in 0..=9; all cell states",
  why="Tests format a few fixture grids; each cell and digit must come out right for 10^81 grids.",
  files=["src/board/sudoku.rs", "src/board/cell_state.rs"],
  mech=[("to_str_line, SudokuLine, SudokuBlock, Display", "src/board/sudoku.rs"), ("Display for CellState", "src/board/cell_state.rs")],
  observe=["Sudoku::to_str_line, Display for Sudoku", "CellState Display"], technique=ABS + " with 81 symbolic cells; formatter sink recorded as symbolic text", note=NOTE),
 dict(id="P06", title="Block format parsing is exact for every text",
  statement="Parsing the block format (nine rows of nine entries, with or without field delimiters and separator rows) accepts exactly the texts of the documented shape and returns the entries in reading order; any other text gives the documented error with the row, column or count of the first deviation, never a panic.",
  quant="all texts: row by row over symbolic lines, all numbers of lines, delimiter style and errors",
  why="Tests parse a few fixture files; a missing bound or wrong count in an error path is never reached.",
  files=["src/board/sudoku.rs", "src/errors.rs"], mech=[("from_str_block", "src/board/sudoku.rs")],
  observe=["Sudoku::from_str_block"], technique=ABS + " on a symbolic text split into symbolic lines", note=NOTE),
 dict(id="P07", title="The permissive block parser reads nine rows or counts them",
  statement="from_str_block_permissive never panics. A line with at least nine entries (digits, '.' or '_') is a row of its first nine; other characters and shorter lines are ignored. It returns the first nine rows ('.', '_' and '0' are empty cells) if there are nine, whatever follows, and otherwise the number of rows found.",
  quant="all texts: arbitrary lines at every row, all numbers of lines",
  why="Tests parse a few fixture files; lines of every length, mixture of characters and number of rows cannot be sampled.",
  files=["src/board/sudoku.rs", "src/errors.rs"], mech=[("from_str_block_permissive", "src/board/sudoku.rs")],
  observe=["Sudoku::from_str_block_permissive"], technique=ABS + " on a symbolic text split into symbolic lines",
  note=NOTE + " One line at a time is arbitrary (11 bytes, or a 7-byte window inside a longer line); longer mixtures by induction over the characters."),
 dict(id="P08", title="is_solved recognises exactly the solved grids",
  statement="A grid counts as solved exactly when all 81 cells are filled and every row, column and block contains each digit from 1 to 9.",
  quant="all grids of 81 values in 0..=9",
  why="Tests check a few solved and unsolved fixtures; a house kind, cell or digit left out of the test shows only for special full grids such as Latin squares.",
  files=["src/board/sudoku.rs", "src/board/positions.rs", "src/bitset.rs"], mech=[("is_solved", "src/board/sudoku.rs")],
  observe=["Sudoku::is_solved"], technique=ABS + ": house by house with symbolic cells", note=NOTE),
 dict(id="P09", title="Puzzle derivation keeps uniqueness, symmetry and minimality",
  statement="A puzzle derived from a grid (generate, generate_from, generate_with_symmetry and their variants) only loses clues, in whole orbits of the requested symmetry; it equals the input unless the uniqueness query says the input has exactly one solution, and otherwise still has exactly one solution (by the same query), and no remaining orbit of clues can be removed. The variants that take a random number generator draw only from it.",
  quant="all input grids, all answers of the uniqueness query, ten symmetries, several visiting orders",
  why="Generation is random; tests look at a few puzzles without symmetry and never at partial, unsolvable or asymmetric inputs.",
  files=["src/board/sudoku.rs"], mech=[("generate_with_symmetry_and_rng_from", "src/board/sudoku.rs"), ("Symmetry::corresponding_cells", "src/board/sudoku.rs")],
  observe=["Sudoku::generate_from, generate_with_symmetry_from, generate_with_symmetry_and_rng_from"], over=["inputs"],
  technique=ABS + " with the uniqueness query as an oracle of fresh symbols", note=NOTE + " The visiting order is covered for a family of orders, not all 81!."),
 dict(id="P10", title="Shuffling yields an equivalent sudoku",
  statement="Whatever random numbers are drawn, shuffle and shuffled move the cells by a permutation that maps houses to houses (every row and column comes from one line, every block from one block) and relabel the digits by a bijection that keeps empty cells empty; every cell can end up anywhere and every digit can become any other.",
  quant="all grids, all outcomes of the random draws", over=["inputs"],
  why="A defect in one of the 10^12 transformations is invisible to the few random shuffles a test makes.",
  files=["src/board/canonicalization.rs", "src/board/sudoku.rs"], mech=[("Transformation::random and apply", "src/board/canonicalization.rs")],
  observe=["Sudoku::shuffle, Sudoku::shuffled"], technique=ABS + " with symbolic random draws", note=NOTE),
 dict(id="P11", title="The solution queries agree with each other",
  statement="For a grid with N solutions, solutions_count_up_to(limit) and solutions_up_to_buffer return min(N, limit), solutions_up_to returns exactly min(N, limit) solutions, some_solution is present iff N >= 1, solution is present iff N = 1 and is then that solution, and is_uniquely_solvable is true iff N = 1. solutions_up_to_buffer fills the first min(N, limit, buffer length) slots with the solutions and leaves the other slots untouched. All queries work on the grid itself, for every limit including 0.",
  quant="all grids, all numbers of solutions, limits 0..4, all buffer lengths 0..4",
  why="Tests only call the queries with one or two solutions and the limits that are convenient; a wrong bound shows only for limit 0, a full buffer, or several solutions.",
  files=["src/board/sudoku.rs", "src/solver.rs"], mech=[("solution, some_solution, solutions_count_up_to, is_uniquely_solvable, solutions_up_to, solutions_up_to_buffer", "src/board/sudoku.rs"), ("SudokuSolver::solutions_up_to, solutions_up_to_buffer, solutions_count_up_to, guess", "src/solver.rs")],
  observe=["the six solution queries of Sudoku"], technique=ABS + " with the search as an oracle; lemmas about recording solutions",
  note=NOTE + " The early exit of `solution` relies on the published 17-clue theorem."),
 dict(id="P12", title="The search finds every solution exactly once, and only solutions",
  statement="For every grid and limit, the solver finds exactly min(N, limit) pairwise different completions of the grid, where N is the number of valid completions: every grid it reports is completely filled, obeys all row, column and block rules and keeps all clues; none is reported twice; and none is missed unless the limit is reached. A grid whose clues contradict each other has no solution.",
  quant="all grids, all limits: each deduction, branching and recording step on arbitrary candidate states",
  why="Tests solve fixture puzzles; a table entry or branch that loses a solution only for rare candidate patterns, or in grids with many solutions, is never exercised.",
  files=["src/solver.rs"], mech=[("candidate tables and _find_locked_candidates_and_update", "src/solver.rs"), ("find_naked_singles, insert_candidate, from_sudoku", "src/solver.rs"), ("_solve, guess, guess_bivalue_in_cell, guess_some_cell, extract_solution", "src/solver.rs")],
  observe=["Sudoku::solutions_up_to, solutions_count_up_to"], over=["inputs"],
  technique=ABS + ": step lemmas on arbitrary solver states, combined by induction", note=NOTE + " The induction combining the lemmas is in DESIGN.md. Termination is not claimed."),
 dict(id="P13", title="No hidden inputs, state or effects",
  statement="Every result depends only on the arguments: apart from the functions documented to draw from the thread's generator (generate_solved, generate, generate_from, generate_with_symmetry, generate_with_symmetry_from, shuffle, shuffled), no public operation reads or changes process-wide or thread-local state (hidden caches included), the clock, the environment, files or addresses; the *_with_rng variants draw only from the generator they are given. All public value types are Send and Sync and none can change behind a shared reference.",
  quant="all inputs, all call histories and all thread interleavings: every call path of every public operation", over=["inputs", "histories", "schedules"],
  why="A test would have to hit the one call history or interleaving in which a hidden cache or shared state gives a stale answer.",
  files=["src/board/sudoku.rs", "src/solver.rs", "src/generator.rs", "src/strategy/solver.rs", "src/board/canonicalization.rs", "src/bitset.rs"],
  mech=[("solution queries", "src/board/sudoku.rs"), ("generate_solved_with_rng", "src/generator.rs"), ("StrategySolver", "src/strategy/solver.rs")],
  observe=["every public function: same arguments give the same result in every history and on every thread"],
  technique="effect analysis by reachability over the monomorphic call graph of the compiled MIR, type walk for interior mutability, compile-time Send/Sync witnesses",
  note="Trust: core/alloc internals without MIR; the memory allocator."),
 dict(id="P14", title="serde round-trips and rejects non-sudokus",
  statement="With the feature serde, a sudoku is written as its 81-character line text in human-readable formats and as its 81 bytes in compact formats. Reading accepts exactly the texts that parse as a line sudoku, or exactly the byte strings of 81 entries of at most 9, whether the data is handed over borrowed, transiently or owned, and yields the same grid; everything else is an error, never a panic.",
  quant="all grids, all UTF-8 texts, all byte strings",
  why="No test exercises serde at all; a visitor that accepts or alters malformed data breaks the validity of every grid read from outside.",
  files=["src/board/sudoku.rs"], mech=[("Serialize, Deserialize, ByteSudoku, StrSudoku", "src/board/sudoku.rs")],
  observe=["serde::Serialize / Deserialize for Sudoku"], technique=ABS + " against a recording serializer and deserializers offering one text or byte string",
  note=NOTE + " Owned texts and byte strings: lengths 0, 1 and 80 to 83."),
 dict(id="P15", title="Invalid or mixed-up values cannot be made",
  statement="Safe client code can obtain and change positions, digits, sets, sudokus and line texts only through checked constructors and operations: their representation can be neither written nor constructed from outside, no conversion from raw numbers skips the range check, no mutable access to the representation is offered, the kinds of positions and sets cannot be mixed up, and conversions exist only in the direction in which they are total.",
  quant="all safe client programs, over the listed ways to reach the representation of each type", over=["programs"],
  why="No test can show that a program does not exist; one added conversion or public field lets invalid grids into every algorithm.",
  files=["src/board/positions.rs", "src/board/digit.rs", "src/bitset.rs", "src/board/sudoku.rs"], mech=[("private representations", "src/board/positions.rs"), ("sealed SetElement", "src/bitset.rs"), ("Sudoku, SudokuLine", "src/board/sudoku.rs")],
  observe=["which client programs compile"], technique="compile-fail and compile-pass witnesses decided by rustc's privacy, trait and borrow checking", note="Trust: rustc. Complete only for the listed routes to each representation."),
 dict(id="P16", title="Memory safety, also with unchecked_indexing",
  statement="No input can make the crate access memory out of bounds, in the default build or with the feature unchecked_indexing: unsafe operations occur only in the solver's indexing helpers, and every index given to them is in range.",
  quant="all grids and solver states, all public operations, both feature settings", over=["inputs", "configurations"],
  why="With unchecked_indexing an out-of-range index is silent memory corruption that a passing test does not show; tests run without the feature.",
  files=["src/solver.rs"], mech=[("UncheckedIndexArray", "src/solver.rs"), ("search steps using it", "src/solver.rs")],
  observe=["every public operation (no out-of-bounds access)"], technique="query for unsafe operations over the MIR; abstract interpretation of every function that uses the unchecked helpers", note=NOTE),
 dict(id="P17", title="Generated solved grids are complete and valid",
  statement="generate_solved and generate_solved_with_rng return, for every sequence of random numbers, a completely filled grid in which every row, column and block holds each digit once; they never panic, and draw randomness only from the generator they are given.",
  quant="all sequences of random numbers, all intermediate search states", over=["inputs", "histories"],
  why="The tests generate a few hundred grids; a placement that skips one house, or a guess outside the candidates, may only surface on a rare random path and is then hidden by backtracking.",
  files=["src/generator.rs", "src/board/sudoku.rs"], mech=[("SudokuGenerator::insert_entries", "src/generator.rs"), ("SudokuGenerator::find_hidden_singles", "src/generator.rs"), ("SudokuGenerator::randomized_solve_one", "src/generator.rs"), ("SudokuGenerator::generate_solved", "src/generator.rs")],
  observe=["Sudoku::generate_solved", "Sudoku::generate_solved_with_rng"], technique="step-wise abstract interpretation of the generator's MIR with decision-diagram value sets; scripted oracles for the recursion", note=NOTE),
 dict(id="P18", title="Human strategies never rule out a solution",
  statement="StrategySolver only rules out candidates that no solution of the current candidates contains and only enters digits that every such solution contains; it reports a contradiction only if there is none. solve returns Ok only with a completely filled grid without a clash that extends the puzzle, and the grid it returns contains exactly the entries. This holds for every implemented strategy and every combination and order of strategies.",
  quant="all candidate states, all strategies and orders of strategies", over=["inputs", "histories"],
  why="The tests solve a few hundred puzzles with a unique solution; a pattern that is accepted with one cell too many, or an elimination in the wrong house, is wrong only for rare candidate states, and solving usually succeeds before it matters.",
  files=["src/strategy/solver.rs", "src/strategy/strategies", "src/strategy/strategies.rs"], mech=[("StrategySolver::solve", "src/strategy/solver.rs"), ("StrategySolver::_update_cell_poss_house_solved", "src/strategy/solver.rs"), ("find_naked_subsets, find_hidden_subsets", "src/strategy/strategies/naked_subsets.rs"), ("find_fish", "src/strategy/strategies/basic_fish.rs"), ("find_locked_candidates", "src/strategy/strategies/locked_candidates.rs"), ("find_xy_wing, find_xyz_wing", "src/strategy/strategies/xyz_wing.rs")],
  observe=["StrategySolver::solve", "Deductions", "StrategySolver::grid_state"], technique="abstract interpretation of each strategy's MIR with decision-diagram value sets, compared with tabulated local satisfiability", note=NOTE),
 dict(id="P19", title="The strategy solver shows the grid it was given",
  statement="to_sudoku after from_sudoku, from_sudoku_and_clues or from_grid_state returns the entries that were given. grid_state and cell_state show every entry as that digit; an open cell keeps every given candidate that no entry in its row, column or block excludes, and, unless the grid is contradictory, shows exactly those. insert_candidate fills an empty cell, succeeds without effect if the digit is already there, and fails without effect if another digit is there; none of them panics.",
  quant="all grids, all candidate states, all cells and digits", over=["inputs", "histories"],
  why="The caches behind these views are updated lazily by two different routines depending on how many entries are waiting; tests compare a handful of printed grids.",
  files=["src/strategy/solver.rs", "src/board/cell_state.rs"], mech=[("StrategySolver::from_grid_state", "src/strategy/solver.rs"), ("StrategySolver::grid_state", "src/strategy/solver.rs"), ("StrategySolver::cell_state", "src/strategy/solver.rs"), ("StrategySolver::insert_candidate", "src/strategy/solver.rs")],
  observe=["StrategySolver::to_sudoku", "StrategySolver::grid_state", "StrategySolver::cell_state", "StrategySolver::insert_candidate"], technique="abstract interpretation of constructor, update and view as one MIR program, compared with the rules of sudoku", note=NOTE),
 dict(id="P20", title="Reported deductions are the ones made",
  statement="Every deduction returned by StrategySolver::solve belongs to a strategy that was asked for, describes a pattern that is present among the candidates before it (subset with as many cells as digits, fish with as many lines as positions, locked miniline, wing with hinge and two pincers seeing it), and lists at least one candidate, each of which was possible and is ruled out by the pattern; together the deductions list every candidate ruled out. Deductions::get, iter, len and is_empty return exactly these records, and Deduction::strategy names the strategy that makes them.",
  quant="all candidate states, strategies and deduction sequences", over=["inputs", "histories"],
  why="The tests look at the first deduction of one puzzle per strategy; ranges into a shared list, and naked against hidden subsets told apart by the first conflict, go wrong only with several deductions or unusual houses.",
  files=["src/strategy/deduction.rs", "src/strategy/solver.rs"], mech=[("StrategySolver::enter_conflicts", "src/strategy/solver.rs"), ("Deductions::get, iter", "src/strategy/deduction.rs"), ("Deduction::strategy", "src/strategy/deduction.rs"), ("Deduction::with_slices", "src/strategy/deduction.rs")],
  observe=["StrategySolver::solve", "Deductions::get", "Deductions::iter", "Deduction::strategy"], technique="abstract interpretation of solve() and the accessors' MIR with decision-diagram value sets; records compared with the candidates before them", note=NOTE),
 dict(id="P21", title="canonicalized finds the smallest equivalent grid",
  statement="canonicalized returns None exactly if the sudoku is neither a solved grid nor has exactly one solution. Otherwise, with S the solution, it returns T(sudoku), where T permutes bands, stacks, rows in bands and columns in stacks, optionally transposes, and relabels digits, such that T(S) is the lexicographically smallest grid any such transformation makes of S; the number returned is the number of transformations that give this grid (the automorphisms of S). It never panics.",
  quant="all solved grids: every band filling up to renaming and minirow order, every order of rows and bands, every sequence of candidates",
  why="The tests canonicalize random shuffles of a few grids, almost none with automorphisms; an over-eager pruning test or a miscount shows only for rare grids.",
  files=["src/board/canonicalization.rs", "src/board/sudoku.rs"], mech=[("find_minlex_band_transformation", "src/board/canonicalization.rs"), ("find_minimal_transformation_for_band", "src/board/canonicalization.rs"), ("find_canonical_sudoku_and_transformation", "src/board/canonicalization.rs"), ("Sudoku::canonicalized", "src/board/sudoku.rs")],
  observe=["Sudoku::canonicalized"], technique=ABS + ", function by function with the callees as oracles, compared with a definition-level enumeration",
  note=NOTE + " Composition of the steps argued in DESIGN.md; band orders: three (thorough: all six) minirows symbolic per band type."),
 dict(id="P22", title="Error messages say what the errors carry",
  statement="The message (Display) of every error value is fixed by the value and not empty; it shows every number and character the error carries (cell, row index, number of rows, cells or bytes, offending character), presents an index as the line, row or cell it stands for and a count as what it counts; two different errors of one type never read the same; an InvalidEntry inside a parse error, and a FromBytesError inside a slice error, read exactly as they do alone; row, col and block of an InvalidEntry are those of its cell.",
  quant="all error values: every cell and character, every u8 payload, slice lengths up to 9999", over=["inputs"],
  why="No test looks at a message; a payload that is dropped, swapped or given the wrong meaning compiles and misleads the user only when reading fails.",
  files=["src/errors.rs"], mech=[("Display for LineParseError, BlockParseError, NotEnoughRows", "src/errors.rs"), ("Display for FromBytesSliceError, InvalidEntry", "src/errors.rs"), ("InvalidEntry::row, col, block", "src/errors.rs")],
  observe=["Display of LineParseError, BlockParseError, NotEnoughRows, FromBytesError, FromBytesSliceError, InvalidEntry", "InvalidEntry::row", "InvalidEntry::col", "InvalidEntry::block"], technique=ABS + "; byte tables of the texts compared with the payload", note=NOTE),
 dict(id="P23", title="Comparison, order and hashing agree with the values",
  statement="For positions, digits, candidates, sets, cell states, symmetries, parse errors, grids and their line and block texts: == holds exactly for the same value, != is its negation, a clone is the same value. Where a type is ordered, cmp is a total order in which exactly the same values are equal, and partial_cmp, <, <=, > and >= follow it; positions and digits are ordered by their number, grids and their line texts lexicographically, and alike. What a value feeds to a hasher is determined by the value.",
  quant="all pairs (for candidates and sets of digits: triples) of values of each type", over=["inputs"],
  why="Tests compare values that are meant to be equal; a comparison that forgets a field, or operators that disagree with each other, corrupts sorted lists and maps only for particular pairs.",
  files=["src/board/positions.rs", "src/board/digit.rs", "src/board/candidate.rs", "src/board/sudoku.rs", "src/board/cell_state.rs", "src/bitset.rs", "src/errors.rs"],
  mech=[("derived and manual PartialEq, Ord, PartialOrd, Hash, Clone", "src/board/sudoku.rs"), ("Hash for SudokuLine", "src/board/sudoku.rs"), ("derives of the position types", "src/board/positions.rs")],
  observe=["==, !=, <, <=, >, >=, cmp, partial_cmp, hash, clone of the public value types"], technique=ABS + " with two (three) arbitrary symbolic values", note=NOTE),
]
