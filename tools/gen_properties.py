#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it can be reviewed as text)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

SUD="src/puzzles/sudoku/mod.rs"; DLX="src/structures/dancing_links/mod.rs"; NODE="src/structures/dancing_links/node.rs"
NON="src/puzzles/nonogram/mod.rs"; RL="src/puzzles/nonogram/right_left.rs"
MZ="src/puzzles/maze/mod.rs"; RB="src/puzzles/maze/recursive_backtrack.rs"; DS="src/structures/disjoint_set.rs"
UT="src/util.rs"; LIB="src/lib.rs"

p("C01","A solved sudoku is a valid completion of the board that was given",
  "Whenever solving a 9x9 sudoku board succeeds, the answer has exactly 81 entries, each from 1 to 9, in which every row, every column and every 3x3 box contains each digit exactly once. Every clue (non-zero entry) of the board stands unchanged at its own position in the answer.",
  ["inputs"],"every board of 81 entries for which the solver returns an answer: empty, sparse, dense, complete, uniquely solvable or not",
  "The tests solve five boards that each have one solution; a wrong or missing constraint shows only on boards whose clues do not already force the affected cells.",
  [SUD,DLX,NODE],[("constraint table (cell,row,column,box)",SUD+": SUDOKU_CONSTRAINTS"),("exact cover search",DLX+": solve, solve_helper"),("rows sorted and decoded into digits",SUD+": solve_sudoku")],
  observe=["solve_sudoku return value"])
p("C02","The sudoku solver finds an answer exactly when one exists",
  "For every board of 81 entries from 0 to 9, solving returns an answer if the board has at least one valid completion and reports 'no solution' if it has none. It always returns.",
  ["inputs"],"every board of 81 entries 0-9, in particular boards whose contradiction only appears after search and backtracking, and boards with many completions",
  "One unsolvable and five solvable boards are tested; completeness of a backtracking search with in-place cover/uncover needs every order of branching and undoing.",
  [SUD,DLX,NODE],[("cover/uncover symmetric undo",NODE+": cover_column, uncover_column"),("clues forced before the search",DLX+": add_solution"),("InvalidRow mapped to NoSolution",SUD+": solve_sudoku")],
  observe=["solve_sudoku return value (Ok / NoSolution)"])
p("C03","Malformed and contradictory sudoku boards are refused safely",
  "Solving any slice of bytes never panics, never hangs and never touches invalid memory: a slice whose length is not 81 is refused with the size error carrying that length, and a board with a clue above 9 or with the same digit twice in a row, a column or a box is refused with an error. This holds wherever, and in however many places, the board contradicts itself.",
  ["inputs"],"every byte slice: every length, every byte value at every position, every placement of conflicting clues and of several conflicts together",
  "No test gives the solver a wrong length, a value above 9 or two equal clues in one unit; a conflict that is not noticed corrupts the pointer structure instead of failing an assertion.",
  [SUD,DLX,NODE],[("length guard",SUD+": solve_sudoku"),("rows excluded by an earlier clue are marked invalid",DLX+": add_solution"),("manual node allocation and freeing",NODE+": new, free_chain")],
  state=[("row table","row index -> a live node of that row, or null once excluded",DLX+": DancingMatrix.rows")],
  observe=["solve_sudoku return value","heap blocks allocated and freed during the call"])
p("C04","Sudoku text is parsed exactly",
  "Parsing a sudoku text succeeds if and only if it consists of exactly 81 decimal digits '0'-'9', and then yields those digits' values in order. A text containing any other character is refused as an invalid character, naming the first such character; a text of digits only with another length is refused with the size error carrying its number of characters.",
  ["inputs"],"every string: every length, every Unicode character at every position, several faults in one text",
  "Tests parse six well-formed texts and no malformed one.",
  [SUD],[("digit conversion and length check",SUD+": parse_sudoku")],observe=["parse_sudoku return value"])
p("C05","A sudoku picture shows exactly the given board",
  "Drawing a board of 81 entries 0-9 yields a 900x900 picture with the fixed grid lines, in which each non-zero entry is drawn as that digit in its own 100x100 cell (same place within the cell, same glyph, for every position) and nothing else is drawn; an entry 0 leaves its cell blank. Any other number of entries is refused with the size error carrying that number.",
  ["inputs"],"every digit at every position, every combination of filled and empty cells (solvable or not), every length",
  "The tests compare eleven pictures; they do not vary one cell at a time and never pass a wrong length.",
  [SUD,UT],[("grid lines and text placement",SUD+": print_sudoku"),("embedded font",UT+": ROBOTO_MEDIUM")],observe=["pixels of print_sudoku"])
p("C06","The exact-cover engine is exact for every matrix and every forced-row history",
  "Given any 0/1 matrix and any sequence of rows forced in advance, forcing a row succeeds exactly when the row exists, is non-empty and shares no constraint with a row forced before (an unknown row index and an excluded row are reported as different errors), and a refused row changes nothing. Solving then returns a set of rows that contains every successfully forced row and covers each constraint exactly once, if such a set exists, and reports that none exists otherwise.",
  ["inputs","histories"],"every matrix and every sequence of force-row calls (including repeated, conflicting, empty and out-of-range rows) followed by a solve",
  "Four tests use one 6x7 matrix with at most one forced row; the interplay of forcing, excluding and searching needs all small matrices with all histories.",
  [DLX,NODE],[("force a row",DLX+": add_solution"),("search",DLX+": solve_helper"),("matrix construction",DLX+": new")],
  state=[("rows","row -> live node or null",DLX),("partial_solution","rows chosen so far",DLX)],
  observe=["results of add_solution and solve"],hook="access to the private exact-cover matrix type (cfg(vp_hooks) re-export)")
p("C07","The exact-cover engine never misuses memory",
  "For every matrix and every sequence of force-row calls, whether then solved or just dropped, every node is freed exactly once, no freed node is read or written afterwards, and nothing stays allocated when the matrix and its result are gone.",
  ["inputs","histories"],"every matrix, every history of successful and refused force-row calls, ended by solve (solvable or not) or by drop at any point",
  "The Miri tests run four fixed histories on one matrix, and ordinary test runs do not see memory misuse at all.",
  [DLX,NODE],[("free_chain on the chosen row's columns",NODE+": free_chain"),("Drop frees the uncovered rest",DLX+": Drop for DancingMatrix"),("excluded rows nulled",DLX+": add_solution")],
  state=[("node heap blocks","owned by raw pointers, freed in three places",NODE)],
  observe=["allocator calls of the process"],hook="access to the private exact-cover matrix type (cfg(vp_hooks) re-export)")
p("C08","A solved nonogram satisfies every row and column clue",
  "Whenever solving a nonogram succeeds, the answer has width x height squares in row-major order, and in every row and every column the lengths of the maximal filled runs, in order, are exactly the clue numbers of that line (zeros in a clue, and an empty clue, stand for no run).",
  ["inputs"],"every pair of clue lists for which the solver returns an answer, including puzzles that need guessing and puzzles with several solutions",
  "Four puzzles are tested, all of which line overlap alone solves; whatever happens after the overlap fixpoint is never exercised.",
  [NON,RL],[("overlap fixpoint over lines",NON+": right_left"),("search over undecided squares",NON+": recursive_backtrack"),("leftmost/rightmost placement",RL+": find_left")],
  observe=["solve_nonogram return value"])
p("C09","The nonogram solver finds an answer exactly when one exists",
  "For every list of column clues and of row clues, solving returns an answer if some filling satisfies all clues and reports 'no solution' if none does (contradictory clues, clues too long for their line and clues of any size included); a puzzle with no columns or no rows is refused as empty. It never panics and always returns.",
  ["inputs"],"every width, height and clue assignment: solvable, ambiguous, contradictory, oversized, with zeros, empty",
  "No test gives the solver an unsolvable, ambiguous, oversized, zero-clue or empty puzzle.",
  [NON,RL],[("contradiction detection per line",RL+": RuleMachine::right_left"),("search",NON+": recursive_backtrack"),("dimension handling",NON+": solve_nonogram")],
  observe=["solve_nonogram return value (Ok / NoSolution / EmptyPuzzle), panics"])
p("C10","Nonogram line deduction is sound and detects impossible lines",
  "Given one line with some squares already marked filled or blocked and its clue, one deduction step fails exactly when no completion of the line satisfies the clue. Otherwise it only turns undecided squares into marks shared by all satisfying completions, marks every square that the leftmost and the rightmost placement put in the same run or the same gap, never alters a mark already made, and reports 'changed' exactly when it made a mark.",
  ["inputs"],"every line length, every clue and every partial marking of the line (reachable or not), in either direction of reading",
  "Deduction is tested only through four whole puzzles; a step that is unsound or misses a contradiction needs particular partial markings.",
  [RL],[("leftmost match over states",RL+": find_left"),("block index comparison",RL+": RuleMachine::right_left")],
  state=[("per-state match paths","earliest placement reaching each state",RL+": find_left")],
  observe=["marks after one step, its return value"],hook="run one deduction step on a line (cfg(vp_hooks))")
p("C11","Nonogram clue text is parsed exactly and bounded",
  "Clue text is read as lines separated by ';', each a ','-separated list of non-negative decimal integers, and parsing returns exactly these numbers line by line, in order. It is refused as an invalid rule, naming the offending entry, if an entry is not such a number (also when empty or too large to represent), and as an invalid rule dimension if some line's numbers plus one separating square between neighbours exceed the given bound; the first faulty line decides, its first such entry before its length. It is accepted otherwise, and never panics.",
  ["inputs"],"every string and every bound, including lines that exactly fit, exceed the bound by one, and numbers whose sum exceeds the machine integer",
  "Tests parse eight valid texts with roomy bounds; neither the bound nor any malformed entry is tested.",
  [NON],[("split/parse/size check",NON+": parse_nonogram_rules")],observe=["parse_nonogram_rules return value"])
p("C12","A nonogram puzzle picture shows exactly the given clues and grid",
  "Drawing a puzzle of W columns and H rows yields a picture of W*50+max(150,10W) by H*50+max(150,10H) pixels with a grey line before each column and each row (three pixels thick before every fifth, starting with the first), each column's clue numbers stacked downwards from the top edge in that column's strip, 30 pixels apart, each row's clue numbers written left-aligned in that row's strip, and nothing else. A width or height that differs from the number of column or row clues is refused as invalid dimensions.",
  ["inputs"],"every width and height (also zero, unequal, above 15 where the margins grow), every clue list, every mismatch",
  "Four pictures are compared; none has unequal sides above 15, empty clues or mismatching dimensions.",
  [NON,UT],[("margins, text slots and grid lines",NON+": print_nonogram")],observe=["pixels of print_nonogram"])
p("C13","A nonogram solution picture fills exactly the filled squares",
  "Drawing a solution on a puzzle picture paints black the 49x49 interior of each square that the solution marks filled, at that square's column and row, and leaves every other pixel as it was. If the solution's number of squares or the picture's size does not fit the given width and height, for any 32-bit width and height, the call is refused as invalid dimensions and does not panic.",
  ["inputs"],"every solution of every width and height over any background picture of the right size, and every mismatch of length or size",
  "Four solutions are drawn; wrong sizes are never tried, and a swapped or mis-scaled margin only shows on unequal sides above 15.",
  [NON],[("index to pixel mapping and guards",NON+": print_nonogram_solution")],observe=["pixels and errors of print_nonogram_solution"])
p("C14","Every generated maze is perfect",
  "Every maze generated for a width and height of at least 1 has exactly width x height cells, and between any two cells there is exactly one route through open walls (the open walls form a spanning tree). Apart from the single exit, every wall on the right and bottom border is closed.",
  ["schedules","inputs"],"every width and height >= 1 and every sequence of random choices the generator can make",
  "There is no maze test, and the generator is random: a test run samples one choice sequence out of 24 per cell.",
  [MZ,RB,DS,UT],[("join only cells in different sets",RB+": visit_next"),("union-find",DS),("random direction",UT+": choose_random")],
  state=[("connections","partition of cells joined so far",RB),("can_visit","directions not yet tried per cell",RB)],
  observe=["cells returned by create_maze"])
p("C15","A generated maze's solution is the walk from the entrance to the exit",
  "For every generated maze of width and height at least 1, the returned direction list, read from its last element to its first, is a walk from the top-left cell that only passes through open walls, stays inside the maze, visits no cell twice and ends in the bottom-row cell whose bottom wall is the exit.",
  ["schedules","inputs"],"every width and height >= 1 (one cell wide or high included) and every sequence of random choices",
  "No test calls create_maze; the direction labels depend on the shape of the maze and the way the path runs (leftwards, upwards, in one-cell-wide mazes).",
  [MZ],[("breadth-first traversal with parent links",MZ+": create_maze"),("parent index difference to direction",MZ+": create_maze")],
  state=[("path_tree","parent of each reached cell",MZ)],observe=["directions and cells returned by create_maze"])
p("C16","A generated maze has one exit, at the farthest bottom-row cell",
  "Every generated maze of width and height at least 1 has exactly one bottom-row cell whose bottom wall is open, and no other bottom-row cell is a longer walk from the top-left cell than that one.",
  ["schedules","inputs"],"every width and height >= 1 and every sequence of random choices",
  "No test calls create_maze; which bottom cell is farthest depends on the random carving.",
  [MZ],[("exit opened at the last bottom-row cell reached by the traversal",MZ+": create_maze")],
  observe=["cells returned by create_maze"])
p("C17","A maze picture shows exactly the maze's walls",
  "Drawing a grid of W x H cells (W, H at least 1) yields a picture of 10W+1 by 10H+1 pixels in which exactly these pixels are black: the whole left border, the top border except the opening above the top-left cell, and for each cell the 11-pixel segment on its right and on its bottom side if that wall is closed; all others are white. A grid whose number of cells is not W x H is refused as invalid dimensions.",
  ["inputs"],"every width and height, every combination of open and closed walls (also ones no generator makes), every mismatch of the cell count",
  "There is no test of maze drawing.",
  [MZ],[("border and wall loops",MZ+": print_maze")],observe=["pixels and errors of print_maze"])
p("C18","A drawn maze solution traces exactly the given walk",
  "When drawing a solution on a maze picture succeeds, exactly these pixels become red: the 6 pixels from the top edge down to the top-left cell's centre, for each step (directions taken from the list's last element to its first) the 11-pixel segment joining the centres of the cells it connects, and the 5 pixels below the last cell's centre. Every other pixel keeps its colour.",
  ["inputs"],"every direction list that stays inside, over every picture size and any background",
  "There is no test of solution drawing.",
  [MZ],[("segment loops per direction",MZ+": print_maze_solution")],observe=["pixels of print_maze_solution"])
p("C19","Drawing a maze solution accepts exactly the walks that stay inside the picture",
  "Drawing a direction list on the picture of a W x H maze succeeds if and only if, starting at the top-left cell and taking the directions from last to first, no step leaves the W x H cells; a walk that leaves is refused as an invalid solution, whichever edge it crosses and at whatever step. A picture narrower or lower than 6 pixels is refused as having invalid dimensions, and no direction list and no picture size makes the call panic.",
  ["inputs"],"every direction list, every maze size, every picture size",
  "There is no test of solution drawing; the bounds differ per edge and matter only on border rows and columns.",
  [MZ],[("bounds test per direction and for the exit",MZ+": print_maze_solution")],observe=["errors of print_maze_solution"])
p("C20","Every generated maze can be drawn with its solution, free of walls",
  "For every maze generated for a width and height of at least 1, drawing the maze and then its returned solution succeeds; no pixel of the red trace was black in the picture of the maze, and the trace is one connected line from the opening in the top border to the open exit in the bottom border.",
  ["schedules","inputs"],"every width and height >= 1 and every sequence of random choices of the generator",
  "The generator, the maze picture and the solution picture are never run together by a test, and each of them alone can look right while their conventions disagree.",
  [MZ,RB],[("shared coordinate conventions of create_maze, print_maze, print_maze_solution",MZ)],
  observe=["pixels after create_maze -> print_maze -> print_maze_solution"])
p("C21","Mazes and solutions survive serialisation",
  "Serialising any maze or solution and reading it back, in a self-describing text format or a positional binary format, yields the same walls and the same directions, in order: the re-read values draw the same pictures and serialise identically. In JSON a cell is an object with the two boolean fields 'right' and 'down' (true = wall present), and a direction is its name.",
  ["inputs","schedules"],"every wall combination per cell, every direction, every grid and direction list, for every generated maze",
  "No test serialises anything.",
  [MZ],[("serde derives on cell and direction types",MZ+": MazeNode, MazeDirection")],observe=["serialised form, pictures of re-read values"])
p("C22","PNG conversion is lossless",
  "Converting a picture of at least one pixel to PNG bytes succeeds and yields a PNG file that decodes to the same width, height and RGB pixels, for any colours and any size. Converting never panics.",
  ["inputs"],"every picture size and every pixel content, including all pictures the library draws",
  "The conversion function is never called by a test (the tests encode by themselves).",
  [LIB],[("in-memory PNG encoding",LIB+": image_to_png_bytes")],observe=["bytes of image_to_png_bytes after decoding"])
p("C23","The union-find structure represents the partition produced by its history",
  "After any history of creating, adding elements, finding, comparing and uniting, two elements have the same representative exactly when they were connected by unions; the representative is a member of their set, and asking twice gives the same answer. An operation with an index that does not exist reports nothing found and leaves the partition unchanged; adding an element leaves it alone in its own set.",
  ["histories"],"every sequence of operations with every argument, valid or out of range",
  "The tests run a handful of fixed histories of up to four unions on at most eight elements.",
  [DS],[("path compression",DS+": find_helper"),("union by size",DS+": union")],
  state=[("elements","root flag plus size, or parent index",DS)],
  observe=["results of find and common_set"],hook="access to the private union-find type (cfg(vp_hooks) re-export)")
p("C24","Random selection removes one element and can select each of them",
  "Randomly choosing from a list removes exactly one element and returns it, keeping all other elements, and reports nothing only for an empty list; each element of the list is chosen for some outcome of the random source. As a consequence the maze generator can produce every maze that depth-first carving from the top-left cell can produce, and no other.",
  ["schedules","inputs"],"every list (also with equal elements) and every outcome of the random source; every maze size",
  "The two tests look at one random choice from one list; a choice that can never be made cannot be seen in one run.",
  [UT,RB],[("uniform index, swap removal",UT+": choose_random"),("generator loop",RB+": recursive_backtrack")],
  observe=["returned element and remaining list; set of mazes reachable over all choices"],hook="access to the private selection function (cfg(vp_hooks) re-export)")
p("C25","Every call is independent of the calls made before it",
  "The result of each parse, solve, draw, convert and maze-generation call (for the same random outcomes) depends only on its own arguments: any sequence of earlier calls, successful or failed, on the same or another thread, and any call running at the same time on another thread, leave it unchanged, and a call never alters the puzzles passed to it.",
  ["histories","schedules"],"every sequence of library calls and every interleaving of overlapping calls",
  "Each test makes one or two calls; state kept between calls shows only in particular sequences, shared state only in particular interleavings.",
  [LIB,SUD,NON,MZ],[("no shared mutable state; all buffers local to a call","src")],observe=["results of repeated, interleaved and overlapping calls"])
p("C26","Whatever the parsers accept can be solved and drawn without a crash",
  "For every nonogram clue text accepted for columns (bound = number of rows) and rows (bound = number of columns), solving returns an answer or 'no solution', drawing the puzzle with these dimensions succeeds, and if there is an answer, drawing it succeeds on that picture and shows exactly the answer's filled squares. For every accepted sudoku text, solving returns an answer or 'no solution', and drawing the board and the answer succeeds.",
  ["inputs"],"every pair of accepted clue texts and every accepted sudoku text",
  "Each stage is tested alone on matching fixtures; nothing feeds arbitrary parsed text through all stages.",
  [NON,RL,SUD,LIB],[("parsed rules feed solver and printer unchanged",NON),("parsed board feeds solver and printer unchanged",SUD)],
  observe=["results of parse -> solve -> print -> print solution"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
