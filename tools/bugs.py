"""Planted bugs: edits against /repo's HEAD and demonstrations. plant.py turns them into /verif/seeded."""
SUD = "src/puzzles/sudoku/mod.rs"; DLX = "src/structures/dancing_links/mod.rs"; NODE = "src/structures/dancing_links/node.rs"
NON = "src/puzzles/nonogram/mod.rs"; RL = "src/puzzles/nonogram/right_left.rs"
MZ = "src/puzzles/maze/mod.rs"; RB = "src/puzzles/maze/recursive_backtrack.rs"; DS = "src/structures/disjoint_set.rs"
UT = "src/util.rs"; LIB = "src/lib.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, demo, profile="debug = false"):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, profile=profile))

VALID = r'''
fn valid(a: &[u8]) -> bool {
    if a.len() != 81 { return false; }
    let unit = |f: &dyn Fn(usize) -> usize| { let mut s = 0u32; for i in 0..9 { if a[f(i)] > 9 { return false; } s |= 1 << a[f(i)]; } s == 0x3fe };
    (0..9).all(|u| unit(&|i| u * 9 + i) && unit(&|i| i * 9 + u) && unit(&|i| (u / 3 * 3 + i / 3) * 9 + u % 3 * 3 + i % 3))
}
fn answers(b: &[u8], a: &[u8]) -> bool { valid(a) && b.iter().zip(a).all(|(x, y)| *x == 0 || x == y) }
'''
FULL = '"534678912672195348198342567859761423426853791713924856961537284287419635345286179"'

bug("c03-longer-slice", "C03", "a slice of more than 81 entries",
    "Slices longer than 81 entries are accepted instead of being refused with the size error.",
    [(SUD, "pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {\n    if puzzle.len() != GRID_SIZE * GRID_SIZE {", "pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {\n    if puzzle.len() < GRID_SIZE * GRID_SIZE {")],
    r'''
use puzzle_utils::*;
fn main() { for n in [0, 80, 82, 90, 200] { assert!(matches!(solve_sudoku(&vec![0; n]), Err(SudokuError::InvalidSize(m)) if m == n), "{n}"); } }''')

bug("c03-conflict-ignored", "C03", "two equal clues in one unit",
    "A clue that contradicts an earlier one is dropped silently and the rest of the board is answered.",
    [(SUD, "if matches!(result, Err(DancingLinksError::InvalidRow)) {\n            return Err(SudokuError::NoSolution);\n        }", "if matches!(result, Err(DancingLinksError::IndexError)) {\n            return Err(SudokuError::NoSolution);\n        }")],
    r'''
use puzzle_utils::*;
fn main() { for (p, q) in [(0, 8), (0, 72), (0, 10)] { let mut b = vec![0; 81]; b[p] = 5; b[q] = 5; assert!(solve_sudoku(&b).is_err(), "{p} {q}"); } }''')

bug("c04-trailing-newline", "C04", "a text with white space at its end",
    "Texts with surrounding white space are accepted.",
    [(SUD, "let puzzle = puzzle\n        .chars()", "let puzzle = puzzle\n        .trim_end()\n        .chars()")],
    r'''
use puzzle_utils::*;
fn main() { let t = "0".repeat(81); assert!(parse_sudoku(&t).is_ok()); for e in ["\n", " ", "\t"] { assert!(matches!(parse_sudoku(&format!("{t}{e}")), Err(SudokuError::InvalidInteger(c)) if e.starts_with(c))); } }''')

bug("c04-size-first", "C04", "a text with a non-digit and a wrong length (or a multi-byte character)",
    "The length is tested before the characters, and in bytes: a text with an invalid character is reported as having a wrong size.",
    [(SUD, "    let puzzle = puzzle\n        .chars()", "    if puzzle.len() > GRID_SIZE * GRID_SIZE {\n        return Err(SudokuError::InvalidSize(puzzle.len()));\n    }\n\n    let puzzle = puzzle\n        .chars()"),
     ],
    r'''
use puzzle_utils::*;
fn main() { let t = format!("{}é", "0".repeat(80)); assert!(matches!(parse_sudoku(&t), Err(SudokuError::InvalidInteger('é')))); }''')

bug("c05-equal-below", "C05", "two equal digits directly below each other",
    "A digit equal to the one above it is not drawn.",
    [(SUD, "    for (i, &number) in puzzle.iter().enumerate() {\n        if number == 0 {", "    for (i, &number) in puzzle.iter().enumerate() {\n        if number == 0 || (i >= GRID_SIZE && puzzle[i - GRID_SIZE] == number) {")],
    r'''
use puzzle_utils::*;
fn main() {
    let mut a = vec![0; 81]; a[40] = 7;
    let mut b = a.clone(); b[31] = 7;
    let (a, b) = (print_sudoku(&a).unwrap(), print_sudoku(&b).unwrap());
    for y in 401..499 { for x in 401..499 { assert_eq!(a.get_pixel(x, y), b.get_pixel(x, y)); } }
}''')

bug("c06-empty-constraint", "C06", "a constraint that no row satisfies",
    "A constraint without rows is left out of the matrix, so an unsolvable matrix gets an answer.",
    [(DLX, "        for constraint in constraints {\n            let new", "        for constraint in constraints {\n            if constraint.len() == 0 {\n                continue;\n            }\n\n            let new")],
    r'''
#[allow(dead_code)]
#[path = "@REPO@/src/structures/dancing_links/mod.rs"]
mod dlx;
fn main() {
    let c: [Vec<usize>; 2] = [vec![0], vec![]];
    assert!(dlx::DancingMatrix::new(c.iter().map(|c| c.iter())).solve().is_err());
}''')

bug("c06-index-bound", "C06", "forcing the row whose index equals the number of rows",
    "The bound test lets the first row index past the end through, which panics instead of being reported.",
    [(DLX, "if row >= self.rows.len() {", "if row > self.rows.len() {")],
    r'''
#[allow(dead_code)]
#[path = "@REPO@/src/structures/dancing_links/mod.rs"]
mod dlx;
fn main() {
    let c: [Vec<usize>; 1] = [vec![0, 1]];
    for r in 2..5 { assert!(matches!(dlx::DancingMatrix::new(c.iter().map(|c| c.iter())).add_solution(r), Err(dlx::DancingLinksError::IndexError))); }
}''')

MEM = r'''
#[allow(dead_code)]
#[path = "@REPO@/src/structures/dancing_links/mod.rs"]
mod dlx;
use std::alloc::*;
use std::sync::Mutex;
// keeps freed blocks, poisoned, so that misuse shows
struct A;
static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Book { live: [(usize, usize); 4096], n: usize, dead: [(usize, usize); 4096], d: usize, bad: usize }
static BOOK: Mutex<Book> = Mutex::new(Book { live: [(0, 0); 4096], n: 0, dead: [(0, 0); 4096], d: 0, bad: 0 });
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(std::sync::atomic::Ordering::SeqCst) { let mut b = BOOK.lock().unwrap(); let n = b.n; b.live[n] = (p as usize, l.size()); b.n += 1; }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(std::sync::atomic::Ordering::SeqCst) {
            let mut b = BOOK.lock().unwrap();
            let n = b.n;
            if let Some(i) = (0..n).find(|&i| b.live[i].0 == p as usize) {
                b.live[i] = b.live[n - 1]; b.n -= 1;
                for k in 0..l.size() { *p.add(k) = 0xDD; }
                let d = b.d; b.dead[d] = (p as usize, l.size()); b.d += 1;
                return;
            }
            if (0..b.d).any(|i| b.dead[i].0 == p as usize) { b.bad += 1; return; }
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
/// (double frees, blocks left)
fn watch(f: impl FnOnce()) -> (usize, usize) {
    { let mut b = BOOK.lock().unwrap(); b.n = 0; b.d = 0; b.bad = 0; }
    ON.store(true, std::sync::atomic::Ordering::SeqCst);
    f();
    ON.store(false, std::sync::atomic::Ordering::SeqCst);
    let b = BOOK.lock().unwrap();
    for i in 0..b.d { for k in 0..b.dead[i].1 { assert_eq!(unsafe { *((b.dead[i].0 + k) as *const u8) }, 0xDD, "write to freed memory"); } }
    (b.bad, b.n)
}
'''
bug("c07-single-row-leak", "C07", "a solution using a row with a single entry, chosen by the search",
    "The chosen column is only freed together with other columns of its row; columns solved by a single-entry row leak.",
    [(DLX, "                for node in unsafe { Node::iter_right(row).skip(1) } {\n                    unsafe { Node::free_chain(node) };\n                }\n                unsafe { Node::free_chain(constraint) };\n",
      "                let mut others = unsafe { Node::iter_right(row).skip(1) }.peekable();\n                let single = others.peek().is_none();\n                for node in others {\n                    unsafe { Node::free_chain(node) };\n                }\n                if !single {\n                    unsafe { Node::free_chain(constraint) };\n                }\n")],
    MEM + r'''
fn main() {
    let c: [Vec<usize>; 2] = [vec![0, 2], vec![1, 2]];
    assert_eq!(watch(|| { assert!(dlx::DancingMatrix::new(c.iter().map(|c| c.iter())).solve().is_ok()); }), (0, 0));
    let c: [Vec<usize>; 2] = [vec![0], vec![1]];
    assert_eq!(watch(|| { assert!(dlx::DancingMatrix::new(c.iter().map(|c| c.iter())).solve().is_ok()); }), (0, 0));
}''')

bug("c07-failed-choice-leak", "C07", "forcing a row, then dropping the matrix without solving",
    "Forcing a row frees only the other columns of the row, the column of the row's first node leaks.",
    [(DLX, "        for node in unsafe { Node::iter_right(row).skip(1) } {\n            unsafe { Node::free_chain(node) };\n        }\n        unsafe { Node::free_chain(row) };\n",
      "        for node in unsafe { Node::iter_right(row).skip(1) } {\n            unsafe { Node::free_chain(node) };\n        }\n        if self.is_empty() {\n            unsafe { Node::free_chain(row) };\n        }\n")],
    MEM + r'''
fn main() {
    let c: [Vec<usize>; 3] = [vec![0, 1], vec![0], vec![1, 2]];
    assert_eq!(watch(|| { let mut m = dlx::DancingMatrix::new(c.iter().map(|c| c.iter())); m.add_solution(0).unwrap(); drop(m); }), (0, 0));
}''')

bug("c09-blank-picture", "C09", "a puzzle whose clues are all zero or empty",
    "A puzzle without any filled square is reported as having no solution.",
    [(NON, "    Ok(grid\n        .iter()\n        .map(|square| matches!(square, Square::Filled))\n        .collect())", "    let solution: Vec<bool> = grid\n        .iter()\n        .map(|square| matches!(square, Square::Filled))\n        .collect();\n\n    if !solution.contains(&true) {\n        return Err(NonogramError::NoSolution);\n    }\n\n    Ok(solution)")],
    r'''
use puzzle_utils::*;
fn main() { assert_eq!(solve_nonogram(&[vec![0], vec![]], &[vec![0]]).ok(), Some(vec![false, false])); }''')

bug("c11-trailing-separator", "C11", "a text ending in ';'",
    "A trailing ';' is swallowed instead of being an empty, hence invalid, entry.",
    [(NON, "    rules\n        .split(';')", "    rules\n        .trim_end_matches(';')\n        .split(';')")],
    r'''
use puzzle_utils::*;
fn main() { assert!(matches!(parse_nonogram_rules("1;2;", 5), Err(NonogramError::InvalidRule(s)) if s.is_empty())); }''')

bug("c11-trim-entry", "C11", "white space around a number",
    "Entries with surrounding white space are accepted.",
    [(NON, "let value = x\n                        .parse::<usize>()", "let value = x\n                        .trim()\n                        .parse::<usize>()")],
    r'''
use puzzle_utils::*;
fn main() { assert!(matches!(parse_nonogram_rules("1, 2", 5), Err(NonogramError::InvalidRule(s)) if &*s == " 2")); }''')

bug("c12-margins-swapped", "C12", "a puzzle with more than 15 columns or rows that is not square",
    "The left margin is computed from the height.",
    [(NON, "let rule_width = max(150, width * 10);\n    let rule_height = max(150, height * 10);\n\n    let mut image", "let rule_width = max(150, height * 10);\n    let rule_height = max(150, width * 10);\n\n    let mut image")],
    r'''
use puzzle_utils::*;
fn main() { assert_eq!(print_nonogram(20, 2, &vec![vec![1]; 20], &vec![vec![1]; 2]).unwrap().dimensions(), (1200, 250)); }''')

bug("c12-thick-lines", "C12", "a puzzle with at least six columns and the thick line's third pixel looked at",
    "The thick column line at every fifth column is missing its left pixel unless it is the first.",
    [(NON, "                image.put_pixel(x * 50 + rule_width + 1, y, GRAY_PIXEL);\n                image.put_pixel(x * 50 + rule_width - 1, y, GRAY_PIXEL);", "                image.put_pixel(x * 50 + rule_width + 1, y, GRAY_PIXEL);\n                image.put_pixel(x / 16 * 800 + x % 16 * 50 + rule_width - if x < 25 { 1 } else { 0 }, y, GRAY_PIXEL);")],
    r'''
use puzzle_utils::*;
fn main() { let p = print_nonogram(26, 1, &vec![vec![1]; 26], &[vec![1]]).unwrap(); assert_eq!(p.get_pixel(25 * 50 + 260 - 1, 3).0, [105; 3]); }''')

bug("c14-border-left", "C14", "carving that goes left from the second cell of the first column",
    "The left border test only covers the first cell; carving left from a lower left cell opens the right border of the row above.",
    [(RB, "if coordinate % width == 0 {\n                    continue;", "if coordinate == 0 || (coordinate % width == 0 && coordinate / width % 2 == 0) {\n                    continue;")],
    r'''
use puzzle_utils::*;
fn main() {
    for _ in 0..3000 {
        let (w, h) = (3usize, 3usize);
        let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let j = serde_json::to_value(&g).unwrap();
        for y in 0..h { assert!(j[y * w + w - 1]["right"].as_bool().unwrap(), "right border open"); }
    }
}''')

bug("c15-path-order", "C15", "a maze whose solution has at least two different directions",
    "Solution directions are returned in walking order instead of from the exit back.",
    [(MZ, "return (grid, solution);", "solution.reverse();\n                return (grid, solution);")],
    r'''
use puzzle_utils::*;
fn main() {
    for _ in 0..300 {
        let (g, s) = create_maze(4, 4, MazeAlgorithm::RecursiveBacktrack);
        let p = print_maze(4, 4, &g).unwrap();
        let black: Vec<_> = p.enumerate_pixels().filter(|p| p.2.0 == [0; 3]).map(|p| (p.0, p.1)).collect();
        let q = print_maze_solution(p.clone(), &s).expect("inside");
        assert!(black.iter().all(|&(x, y)| q.get_pixel(x, y).0 == [0; 3]), "through a wall");
    }
}''')

bug("c16-depth-first-exit", "C16", "a maze in which the bottom-row cell met last by a depth-first walk is not the farthest",
    "The search for the exit takes the newest cell first, so the last bottom-row cell it meets need not be the farthest.",
    [(MZ, ".pop_front()", ".pop_back()")],
    r'''
use puzzle_utils::*;
fn main() {
    for _ in 0..2000 {
        let (w, h) = (4usize, 3usize);
        let (g, s) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let j = serde_json::to_value(&g).unwrap();
        let open = |c: usize, k: &str| !j[c][k].as_bool().unwrap();
        let mut d = vec![usize::MAX; w * h]; d[0] = 0;
        for _ in 0..w * h { for c in 0..w * h {
            if c % w + 1 < w && open(c, "right") { let m = d[c].min(d[c + 1]).saturating_add(1); d[c] = d[c].min(m); d[c + 1] = d[c + 1].min(m); }
            if c / w + 1 < h && open(c, "down") { let m = d[c].min(d[c + w]).saturating_add(1); d[c] = d[c].min(m); d[c + w] = d[c + w].min(m); }
        } }
        let far = (w * (h - 1)..w * h).map(|c| d[c]).max().unwrap();
        assert_eq!(s.len(), far);
    }
}''')

bug("c17-corner-pixel", "C17", "a cell with a right wall whose lower end is not covered by another wall",
    "The last pixel of a right wall is not drawn; it shows where no other wall ends in that corner.",
    [(MZ, "            for k in 0..=10 {\n                image.put_pixel((x + 1) * 10, y * 10 + k, BLACK_PIXEL);", "            for k in 0..10 {\n                image.put_pixel((x + 1) * 10, y * 10 + k, BLACK_PIXEL);")],
    r'''
use puzzle_utils::*;
fn main() {
    let g: Vec<MazeNode> = serde_json::from_str(r#"[{"right":true,"down":false},{"right":true,"down":false},{"right":false,"down":true},{"right":true,"down":true}]"#).unwrap();
    assert_eq!(print_maze(2, 2, &g).unwrap().get_pixel(10, 10).0, [0; 3]);
}''')

bug("c18-left-last-pixel", "C18", "a walk whose last step is to the left",
    "The last pixel of a step to the left is not drawn; any further step draws it, but not the final stroke down.",
    [(MZ, "                for k in 0..=10 {\n                    unsolved.put_pixel(x * 10 - k + 5, y * 10 + 5, RED_PIXEL);", "                for k in 0..10 {\n                    unsolved.put_pixel(x * 10 - k + 5, y * 10 + 5, RED_PIXEL);")],
    r'''
use puzzle_utils::*;
fn main() {
    let g: Vec<MazeNode> = serde_json::from_value(serde_json::json!(vec![serde_json::json!({"right": false, "down": false}); 6])).unwrap();
    let p = print_maze_solution(print_maze(3, 2, &g).unwrap(), &[MazeDirection::Left, MazeDirection::Down, MazeDirection::Right]).unwrap();
    assert_eq!(p.get_pixel(5, 15).0, [255, 0, 0]);
}''')

bug("c19-bottom-step", "C19", "a walk that steps down out of the bottom row",
    "The lower bound of a step down is too weak: the first step below the picture panics instead of being refused.",
    [(MZ, "if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {", "if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {")],
    r'''
use puzzle_utils::*;
fn main() {
    let g: Vec<MazeNode> = serde_json::from_value(serde_json::json!(vec![serde_json::json!({"right": true, "down": true}); 6])).unwrap();
    assert!(matches!(print_maze_solution(print_maze(3, 2, &g).unwrap(), &[MazeDirection::Down, MazeDirection::Down]), Err(MazeError::InvalidSolution)));
}''')

bug("c20-entrance-closed", "C20", "drawing the solution over the maze and looking at the entrance",
    "The top border starts five pixels too early, so the trace starts on a wall.",
    [(MZ, "for col in 10..image.width() {", "for col in 10 - 5 * (width > 2 && height == 1) as u32..image.width() {")],
    r'''
use puzzle_utils::*;
fn main() {
    for (w, h) in [(1, 1), (3, 1), (4, 1), (3, 3)] {
        let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let p = print_maze(w as u32, h as u32, &g).unwrap();
        assert_eq!(p.get_pixel(5, 0).0, [255; 3], "{w}x{h}");
    }
}''')

bug("c21-renamed", "C21", "serialising a direction list and looking at the names",
    "Directions are written in lower case; names in existing data are not read any more.",
    [(MZ, "#[derive(Debug, Clone, Serialize, Deserialize)]\npub enum MazeDirection {", "#[derive(Debug, Clone, Serialize, Deserialize)]\n#[serde(rename_all = \"lowercase\")]\npub enum MazeDirection {")],
    r'''
use puzzle_utils::*;
fn main() {
    assert_eq!(serde_json::to_string(&MazeDirection::Left).unwrap(), "\"Left\"");
    assert!(serde_json::from_str::<MazeDirection>("\"Up\"").is_ok());
}''')

bug("c21-skipped-wall", "C21", "a cell without a bottom wall, or a positional format",
    "Open bottom walls are left out when serialising: JSON cells lack a field and positional formats cannot be read back.",
    [(MZ, "    right: bool,\n    down: bool,\n}", "    right: bool,\n    #[serde(default, skip_serializing_if = \"std::ops::Not::not\")]\n    down: bool,\n}")],
    r'''
use puzzle_utils::*;
fn main() {
    let t = r#"{"right":true,"down":false}"#;
    let n: MazeNode = serde_json::from_str(t).unwrap();
    assert_eq!(serde_json::to_string(&n).unwrap(), t);
}''')

bug("c22-gray-test", "C22", "a picture in which every pixel has equal red and green but some blue differs",
    "Pictures taken for gray (only red and green are compared) are written with one channel; blue is lost.",
    [(LIB, "    image.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png)?;", "    if image.pixels().all(|pixel| pixel[0] == pixel[1]) && !image.is_empty() {\n        let gray = ImageBuffer::<image::Luma<u8>, Vec<u8>>::from_fn(\n            image.width(),\n            image.height(),\n            |x, y| image::Luma([image.get_pixel(x, y)[0]]),\n        );\n        gray.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png)?;\n        return Ok(bytes);\n    }\n\n    image.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png)?;")],
    r'''
use image::*;
fn main() {
    let p = RgbImage::from_pixel(2, 2, Rgb([9, 9, 200]));
    let b = puzzle_utils::image_to_png_bytes(&p).unwrap();
    assert_eq!(load_from_memory(&b).unwrap().to_rgb8(), p);
}''')

bug("c23-two-hops", "C23", "a tree of depth three: eight elements united pairwise in balanced order",
    "Looking up a representative follows at most two links.",
    [(DS, "        let root = self.find_helper(self.elements[idx].value);\n        self.elements[idx].value = root;\n        root", "        let parent = self.elements[idx].value;\n        if self.elements[parent].root {\n            return parent;\n        }\n\n        let root = self.elements[parent].value;\n        self.elements[idx].value = root;\n        root")],
    r'''
#[allow(dead_code)]
#[path = "@REPO@/src/structures/disjoint_set.rs"]
mod ds;
fn main() {
    let mut s = ds::DisjointSet::with_size(8);
    for (a, b) in [(0, 1), (2, 3), (4, 5), (6, 7), (0, 2), (4, 6), (0, 4)] { s.union(a, b).unwrap(); }
    let r: Vec<_> = (0..8).rev().map(|i| s.find(i)).collect();
    assert!(r.iter().all(|x| *x == r[0]), "{r:?}");
}''')

bug("c23-union-bound", "C23", "uniting an existing element with one that does not exist",
    "Uniting with an index one past the end is treated as a new element joining the set.",
    [(DS, "        let root_one = self.find(idx_one)?;\n        let root_two = self.find(idx_two)?;\n", "        let root_one = self.find(idx_one)?;\n        if idx_two == self.elements.len() {\n            self.add();\n        }\n        let root_two = self.find(idx_two)?;\n")],
    r'''
#[allow(dead_code)]
#[path = "@REPO@/src/structures/disjoint_set.rs"]
mod ds;
fn main() { let mut s = ds::DisjointSet::with_size(2); assert!(s.union(0, 2).is_none()); assert!(s.find(2).is_none()); }''')

bug("c24-last-never", "C24", "the last element of a list of at least two",
    "The last element is never chosen while others remain.",
    [(UT, "let idx = (0..vec.len()).choose(&mut thread_rng())?;", "let idx = (0..vec.len().saturating_sub(1).max(vec.len().min(1))).choose(&mut thread_rng())?;")],
    r'''
#[allow(dead_code)]
#[path = "@REPO@/src/util.rs"]
mod util;
fn main() {
    let mut seen = [false; 4];
    for _ in 0..2000 { let mut v = vec![0, 1, 2, 3]; seen[util::choose_random(&mut v).unwrap()] = true; assert_eq!(v.len(), 3); }
    assert_eq!(seen, [true; 4]);
}''')

bug("c25-stale-scratch", "C25", "a successful parse after a failed one on the same thread",
    "Parsing reuses a per-thread buffer that is not emptied when a text is refused.",
    [(SUD, "    let puzzle = puzzle\n        .chars()\n        .map(|char| {\n            char.to_digit(10)\n                .map(|x| x as u8)\n                .ok_or(SudokuError::InvalidInteger(char))\n        })\n        .collect::<Result<Vec<u8>, SudokuError>>()?;\n",
      "    thread_local! {\n        static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n    }\n\n    let puzzle = SCRATCH.with(|scratch| {\n        let mut scratch = scratch.borrow_mut();\n        for char in puzzle.chars() {\n            scratch.push(\n                char.to_digit(10)\n                    .map(|x| x as u8)\n                    .ok_or(SudokuError::InvalidInteger(char))?,\n            );\n        }\n        Ok::<Vec<u8>, SudokuError>(std::mem::take(&mut *scratch))\n    })?;\n")],
    r'''
use puzzle_utils::*;
fn main() { let t = "1".repeat(81); assert!(parse_sudoku(&t).is_ok()); assert!(parse_sudoku("12x").is_err()); assert!(parse_sudoku(&t).is_ok()); }''')

bug("c26-too-many-numbers", "C26", "a clue with zeros, such as '0,0' for a line of one square",
    "Drawing refuses clues with more numbers than runs fit in the line, although the parser accepts zeros.",
    [(NON, "    if width as usize != col.len() || height as usize != row.len() {\n        return Err(NonogramError::InvalidDimensions);\n    }\n", "    if width as usize != col.len() || height as usize != row.len() {\n        return Err(NonogramError::InvalidDimensions);\n    }\n\n    if col.iter().any(|rule| rule.len() > (height as usize + 1) / 2)\n        || row.iter().any(|rule| rule.len() > (width as usize + 1) / 2)\n    {\n        return Err(NonogramError::InvalidDimensions);\n    }\n")],
    r'''
use puzzle_utils::*;
fn main() {
    let c = parse_nonogram_rules("0,0", 2).unwrap();
    let r = parse_nonogram_rules("0;0", 1).unwrap();
    assert!(print_nonogram(1, 2, &c, &r).is_ok());
}''')

NONO = r"""
use puzzle_utils::*;
fn runs(l: &[bool]) -> Vec<usize> { let mut v = vec![]; let mut n = 0; for &b in l.iter().chain([&false]) { if b { n += 1 } else if n > 0 { v.push(n); n = 0 } } v }
fn main() {
    for (w, h) in [(1usize, 3usize), (3, 1), (2, 2), (3, 3), (5, 3), (3, 5), (4, 4), (6, 2), (2, 6)] { for g in 0..1u32 << (w * h) {
        let g: Vec<bool> = (0..w * h).map(|i| g >> i & 1 == 1).collect();
        let row: Vec<_> = (0..h).map(|y| runs(&g[y * w..(y + 1) * w])).collect();
        let col: Vec<_> = (0..w).map(|x| runs(&(0..h).map(|y| g[y * w + x]).collect::<Vec<_>>())).collect();
        let a = solve_nonogram(&col, &row).expect("solvable");
        for y in 0..h { assert_eq!(runs(&a[y * w..(y + 1) * w]), row[y]); }
        for x in 0..w { assert_eq!(runs(&(0..h).map(|y| a[y * w + x]).collect::<Vec<_>>()), col[x]); }
    } }
}"""
LINE = r"""
#[derive(Debug, Clone, PartialEq)]
pub enum Square { Blank, Filled, Blocked }
#[derive(Debug)]
pub enum NonogramError { NoSolution }
#[allow(dead_code)]
#[path = "@REPO@/src/puzzles/nonogram/right_left.rs"]
mod right_left;
// right_left.rs says `use super::{NonogramError, Square}`
fn runs(l: &[bool]) -> Vec<usize> { let mut v = vec![]; let mut n = 0; for &b in l.iter().chain([&false]) { if b { n += 1 } else if n > 0 { v.push(n); n = 0 } } v }
fn main() {
    for n in 1..=7usize {
        let clues: std::collections::BTreeSet<Vec<usize>> = (0..1u32 << n).map(|g| runs(&(0..n).map(|i| g >> i & 1 == 1).collect::<Vec<_>>())).collect();
        for m in 0..3usize.pow(n as u32) {
            let marks: Vec<usize> = (0..n).map(|i| m / 3usize.pow(i as u32) % 3).collect();
            for c in &clues {
                let fits: Vec<Vec<bool>> = (0..1u32 << n).map(|g| (0..n).map(|i| g >> i & 1 == 1).collect::<Vec<_>>()).filter(|g| runs(g) == *c && (0..n).all(|i| marks[i] == 0 || (marks[i] == 1) == g[i])).collect();
                let mut l: Vec<Square> = marks.iter().map(|m| match m { 0 => Square::Blank, 1 => Square::Filled, _ => Square::Blocked }).collect();
                let before = l.clone();
                match right_left::RuleMachine::new(c).right_left(l.iter_mut().collect()) {
                    Err(_) => assert!(fits.is_empty(), "{c:?} {before:?}"),
                    Ok(changed) => {
                        assert!(!fits.is_empty());
                        assert_eq!(changed, l != before, "{c:?} {before:?}");
                        for i in 0..n { match l[i] { Square::Blank => assert!(before[i] == Square::Blank), Square::Filled => assert!(fits.iter().all(|g| g[i])), Square::Blocked => assert!(fits.iter().all(|g| !g[i])) } }
                    }
                }
            }
        }
    }
}"""
bug("c08-last-row", "C08", "a puzzle in which the last row's clue is needed",
    "The last row is left out of line deduction when there are more columns than rows.",
    [(NON, "        for (index, machine) in row_machines.iter().enumerate() {\n", "        for (index, machine) in row_machines.iter().enumerate() {\n            if index * width > width * width && index + 1 == row.len() {\n                continue;\n            }\n\n")],
    NONO)
bug("c10-changed-filled", "C10", "a line step that only blocks squares",
    "A step that marks only blank squares reports that nothing changed.",
    [(RL, "                changed = true;\n", "                changed |= left;\n")], LINE)
bug("c13-row-margin", "C13", "a puzzle of more than 15 rows or columns that is not square",
    "The filled squares' top margin is computed from the width.",
    [(NON, "let y = (i as u32 / width) * 50 + max(150, height * 10) + 1;", "let y = (i as u32 / width) * 50 + max(150, width * 10) + 1;")],
    r"""
use puzzle_utils::*;
fn main() {
    for w in 1..40u32 {
        let p = print_nonogram(w, 1, &vec![vec![1]; w as usize], &[vec![1]]).unwrap();
        let q = print_nonogram_solution(w, 1, p, &(0..w).map(|i| i == 0).collect::<Vec<_>>()).unwrap();
        assert_eq!(q.get_pixel(150.max(w * 10) + 1, 199).0, [0; 3], "{w}");
    }
}""")

HARD = '"8..........36......7..9.2...5.9.7.......457.....1...3...1....68..85...1..9....4.."'
BOARD = VALID + r"""
fn board(s: &str) -> Vec<u8> { s.bytes().map(|b| if b == b'.' { 0 } else { b - b'0' }).collect() }
"""
bug("c01-complete-board", "C01", "a complete board whose rows and columns are right but whose boxes are not",
    "A complete board is answered at once after testing only rows and columns.",
    [(SUD, "    let mut matrix = DancingMatrix::new(", "    if puzzle.iter().all(|&value| (1..=9).contains(&value)) {\n        let distinct = |line: &mut dyn Iterator<Item = &u8>| {\n            line.fold(0u16, |seen, &value| seen | 1 << value) == 0x3fe\n        };\n        let rows = puzzle.chunks(9).all(|row| distinct(&mut row.iter()));\n        let columns = (0..9).all(|col| distinct(&mut puzzle[col..].iter().step_by(9)));\n\n        if rows && columns {\n            return Ok(puzzle.to_vec());\n        }\n    }\n\n    let mut matrix = DancingMatrix::new(")],
    VALID + r"""
fn main() {
    let b: Vec<u8> = (0..81).map(|i| ((i / 9 + i % 9) % 9) as u8 + 1).collect();
    if let Ok(a) = puzzle_utils::solve_sudoku(&b) { assert!(answers(&b, &a)); }
}""")
bug("c01-two-empty", "C01", "a board with exactly one empty cell in each incomplete row",
    "Single empty cells of a row are filled with the digit missing in the row before the search; columns and boxes are not looked at and the search is skipped.",
    [(SUD, "    let mut matrix = DancingMatrix::new(", "    if puzzle\n        .chunks(9)\n        .all(|row| row.iter().filter(|&&value| value == 0).count() <= 1)\n        && puzzle.iter().all(|&value| value as usize <= GRID_SIZE)\n    {\n        let mut answer = puzzle.to_vec();\n        for row in answer.chunks_mut(9) {\n            let missing = 45 - row.iter().sum::<u8>().min(45);\n            for value in row.iter_mut().filter(|value| **value == 0) {\n                *value = missing;\n            }\n        }\n        if (0..9).all(|col| answer[col..].iter().step_by(9).sum::<u8>() == 45) {\n            return Ok(answer);\n        }\n    }\n\n    let mut matrix = DancingMatrix::new(")],
    VALID + r"""
fn main() {
    // latin square without boxes, one cell taken out of each row
    let mut b: Vec<u8> = (0..81).map(|i| ((i / 9 + i % 9) % 9) as u8 + 1).collect();
    for r in 0..9 { b[r * 9 + r] = 0; }
    if let Ok(a) = puzzle_utils::solve_sudoku(&b) { assert!(answers(&b, &a)); }
}""")
bug("c03-value-ten", "C03", "an entry 10 in a cell that is not the last",
    "An entry 10 is taken for digit 1 of the next cell instead of being refused.",
    [(SUD, "if value as usize > GRID_SIZE {", "if value as usize > GRID_SIZE + 1 {")],
    r"""
fn main() { for p in 0..81 { let mut b = vec![0; 81]; b[p] = 10; assert!(puzzle_utils::solve_sudoku(&b).is_err(), "{p}"); } }""")
bug("c04-low-byte", "C04", "a character beyond Latin-1 whose low byte is that of a digit",
    "Characters are narrowed to a byte before the test, so e.g. U+0135 counts as the digit 5.",
    [(SUD, "            char.to_digit(10)\n", "            (char as u8 as char)\n                .to_digit(10)\n")],
    r"""
use puzzle_utils::*;
fn main() { let t = format!("{}\u{135}", "0".repeat(80)); assert!(matches!(parse_sudoku(&t), Err(SudokuError::InvalidInteger('\u{135}')))); }""")
bug("c05-nine-in-corner", "C05", "the last cell of a row holding a digit whose left neighbour is empty",
    "Digits next to an empty cell in the last column are drawn one pixel lower.",
    [(SUD, "        let y = (i / GRID_SIZE) * 100 + 5;", "        let y = (i / GRID_SIZE) * 100\n            + if i % GRID_SIZE == GRID_SIZE - 1 && puzzle[i - 1] == 0 && puzzle[i - 2] == number {\n                6\n            } else {\n                5\n            };")],
    r"""
use puzzle_utils::*;
fn main() {
    let mut a = vec![0; 81]; a[8] = 7; let b = a.clone(); a[6] = 7;
    let (a, b) = (print_sudoku(&a).unwrap(), print_sudoku(&b).unwrap());
    for y in 5..95 { for x in 805..895 { assert_eq!(a.get_pixel(x, y), b.get_pixel(x, y)); } }
}""")
bug("c09-shared-attempt", "C09", "a puzzle in which the first guess leads to marks before it is refuted",
    "Both guesses for a square share one working copy, so marks derived from the refuted guess survive.",
    [(NON, "    for guess in [Square::Filled, Square::Blocked] {\n        let mut attempt = grid.to_vec();\n", "    let mut attempt = grid.to_vec();\n    for guess in [Square::Filled, Square::Blocked] {\n")],
    NONO)
bug("c08-ok-on-error", "C08", "a wrong guess that contradicts a row only",
    "A contradiction found in a row ends deduction without being reported.",
    [(NON, "            changed |= machine.right_left(\n                grid[width * index..width * (index + 1)]\n                    .iter_mut()\n                    .collect(),\n            )?;\n", "            changed |= machine\n                .right_left(\n                    grid[width * index..width * (index + 1)]\n                        .iter_mut()\n                        .collect(),\n                )\n                .unwrap_or(false);\n")],
    NONO)
bug("c11-plus", "C11", "a number with two plus signs",
    "Any number of leading plus signs is accepted.",
    [(NON, "let value = x\n                        .parse::<usize>()", "let value = x\n                        .trim_start_matches('+')\n                        .parse::<usize>()")],
    r"""
use puzzle_utils::*;
fn main() { assert!(matches!(parse_nonogram_rules("++1", 5), Err(NonogramError::InvalidRule(s)) if &*s == "++1")); }""")
bug("c11-first-error", "C11", "a text with a too long line in front of an invalid entry, or an invalid entry behind another",
    "Entries are parsed from the last to the first, so another offending entry is named.",
    [(NON, "            let values = rule\n                .split(',')\n", "            let values = rule\n                .rsplit(',')\n"),
     (NON, "            Ok(values)\n        })\n        .collect::<Result<Vec<Vec<usize>>, NonogramError>>()", "            Ok(values.into_iter().rev().collect())\n        })\n        .collect::<Result<Vec<Vec<usize>>, NonogramError>>()")],
    r"""
use puzzle_utils::*;
fn main() { assert!(matches!(parse_nonogram_rules("a,b", 5), Err(NonogramError::InvalidRule(s)) if &*s == "a")); }""")
bug("c12-column-wrap", "C12", "a column with more than eight clue numbers",
    "Clue numbers from the ninth on are drawn at the top again.",
    [(NON, "            let y = (y as u32) * 30 + 10;\n\n            draw_text_mut(", "            let y = (y as u32 % 8) * 30 + 10;\n\n            draw_text_mut(")],
    r"""
use puzzle_utils::*;
fn main() {
    let p = print_nonogram(1, 26, &[vec![1; 9]], &vec![vec![0]; 26]).unwrap();
    assert!((0..30).any(|y| (0..30).any(|x| p.get_pixel(x + 165, y + 250).0 != [255; 3] && p.get_pixel(x + 165, y + 250).0 != [105; 3])));
}""")
bug("c13-existing-ink", "C13", "a solution drawn over a picture that already has black squares",
    "Squares of the picture that are black and not filled in the solution are cleared, so other pixels change.",
    [(NON, "        if !square {\n            continue;\n        }\n\n        let x = (i as u32 % width)", "        if !square {\n            let x = (i as u32 % width) * 50 + max(150, width * 10) + 25;\n            let y = (i as u32 / width) * 50 + max(150, height * 10) + 25;\n            if *image.get_pixel(x, y) == BLACK_PIXEL {\n                image.put_pixel(x, y, WHITE_PIXEL);\n            }\n            continue;\n        }\n\n        let x = (i as u32 % width)")],
    r"""
use puzzle_utils::*;
fn main() {
    let p = print_nonogram(2, 1, &[vec![1], vec![1]], &[vec![2]]).unwrap();
    let q = print_nonogram_solution(2, 1, p, &[true, true]).unwrap();
    let r = print_nonogram_solution(2, 1, q.clone(), &[false, false]).unwrap();
    assert!(q == r);
}""")
bug("c15-one-column", "C15", "a maze of one column, or a step between the ends of two rows",
    "In a maze of one column steps down are reported as steps to the right.",
    [(MZ, "                    solution.push(if parent == current + width {\n                        MazeDirection::Up\n                    } else if parent + width == current {\n                        MazeDirection::Down\n                    } else if parent == current + 1 {\n                        MazeDirection::Left\n                    } else {\n                        MazeDirection::Right\n                    });", "                    solution.push(if parent == current + 1 {\n                        MazeDirection::Left\n                    } else if parent + 1 == current {\n                        MazeDirection::Right\n                    } else if parent + width == current {\n                        MazeDirection::Down\n                    } else {\n                        MazeDirection::Up\n                    });")],
    r"""
use puzzle_utils::*;
fn main() { let (_, s) = create_maze(1, 4, MazeAlgorithm::RecursiveBacktrack); assert!(s.iter().all(|d| matches!(d, MazeDirection::Down))); }""")
bug("c16-first-full", "C16", "a maze in which another bottom-row cell is met after all cells of the bottom row but one",
    "The exit is put at the bottom-row cell met last but one.",
    [(MZ, "            if found_paths == width {", "            if found_paths == width - (width > 4) as usize {")],
    r"""
use puzzle_utils::*;
fn main() {
    for _ in 0..300 {
        let (w, h) = (5usize, 3usize);
        let (g, s) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let j = serde_json::to_value(&g).unwrap();
        let open = |c: usize, k: &str| !j[c][k].as_bool().unwrap();
        let mut d = vec![usize::MAX; w * h]; d[0] = 0;
        for _ in 0..w * h { for c in 0..w * h {
            if c % w + 1 < w && open(c, "right") { let m = d[c].min(d[c + 1]).saturating_add(1); d[c] = d[c].min(m); d[c + 1] = d[c + 1].min(m); }
            if c / w + 1 < h && open(c, "down") { let m = d[c].min(d[c + w]).saturating_add(1); d[c] = d[c].min(m); d[c + w] = d[c + w].min(m); }
        } }
        assert_eq!(s.len(), (w * (h - 1)..w * h).map(|c| d[c]).max().unwrap());
    }
}""")
bug("c17-narrow-index", "C17", "a maze of more than 65536 cells",
    "The cell's position is computed in 16 bits; cells from 65536 on are drawn over the first ones.",
    [(MZ, "        let idx = i as u32;\n", "        let idx = (i as u16) as u32;\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let one: MazeNode = serde_json::from_str(r#"{"right":true,"down":true}"#).unwrap();
    let none: MazeNode = serde_json::from_str(r#"{"right":false,"down":false}"#).unwrap();
    let n = 65600; let mut g = vec![none; n]; g[n - 1] = one;
    let p = print_maze(n as u32, 1, &g).unwrap();
    assert_eq!(p.get_pixel(n as u32 * 10, 5).0, [0; 3]);
    assert_eq!(p.get_pixel(5, 10).0, [255; 3]);
}""")
bug("c18-revisit", "C18", "a walk that steps up from the second row in the third column",
    "A step up into the first row of the third column is drawn two pixels short.",
    [(MZ, "                for k in 0..=10 {\n                    unsolved.put_pixel(x * 10 + 5, y * 10 - k + 5, RED_PIXEL);", "                for k in 0..=10 - 2 * (y == 1 && x == 2) as u32 {\n                    unsolved.put_pixel(x * 10 + 5, y * 10 - k + 5, RED_PIXEL);")],
    r"""
use puzzle_utils::*;
use MazeDirection::*;
fn main() {
    let g: Vec<MazeNode> = serde_json::from_value(serde_json::json!(vec![serde_json::json!({"right": false, "down": false}); 8])).unwrap();
    let q = print_maze_solution(print_maze(4, 2, &g).unwrap(), &[Down, Right, Up, Right, Down, Right]).unwrap();
    assert_eq!(q.get_pixel(25, 6).0, [255, 0, 0]);
}""")
bug("c19-left-edge", "C19", "a walk that goes left from the first column",
    "Leaving the picture on the left is refused only in the first row; below, the coordinate underflows.",
    [(MZ, "if x * 10 < 10 || unsolved.height() < y * 10 + 6 {", "if x * 10 + y < 10 || unsolved.height() < y * 10 + 6 {")],
    r"""
use puzzle_utils::*;
use MazeDirection::*;
fn main() {
    let g: Vec<MazeNode> = serde_json::from_value(serde_json::json!(vec![serde_json::json!({"right": false, "down": false}); 24])).unwrap();
    let p = print_maze(2, 12, &g).unwrap();
    for n in 0..12 { let mut s = vec![Down; n]; s.insert(0, Left); assert!(matches!(print_maze_solution(p.clone(), &s), Err(MazeError::InvalidSolution)), "{n}"); }
}""")
bug("c20-exit-wall", "C20", "a maze whose exit is in the last column",
    "The exit's bottom wall stays closed in the last column unless the walk ended there from above.",
    [(MZ, "                grid[coordinate].down = false;\n                let mut current", "                if coordinate + 1 < grid.len() || width < 3 {\n                    grid[coordinate].down = false;\n                }\n                let mut current")],
    r"""
use puzzle_utils::*;
fn main() {
    for _ in 0..2000 {
        let (g, s) = create_maze(3, 2, MazeAlgorithm::RecursiveBacktrack);
        let p = print_maze(3, 2, &g).unwrap();
        let q = print_maze_solution(p.clone(), &s).unwrap();
        for (x, y, c) in q.enumerate_pixels() { if c.0 == [255, 0, 0] { assert_ne!(p.get_pixel(x, y).0, [0; 3]); } }
    }
}""")
bug("c22-jpeg-like", "C22", "a picture with pixel values that are not multiples of two",
    "Pictures of more than a million pixels lose the lowest bit of each colour.",
    [(LIB, "    let mut bytes = Vec::new();\n", "    let mut bytes = Vec::new();\n\n    if image.width() > 4096 {\n        let mut coarse = image.clone();\n        coarse.iter_mut().for_each(|value| *value |= *value >> 7);\n        coarse.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png)?;\n        return Ok(bytes);\n    }\n\n")],
    r"""
use image::*;
fn main() {
    let p = RgbImage::from_pixel(5000, 1, Rgb([128, 0, 254]));
    let b = puzzle_utils::image_to_png_bytes(&p).unwrap();
    assert!(load_from_memory(&b).unwrap().to_rgb8() == p);
}""")
bug("c24-keeps-order", "C24", "a list of at least two elements from which one is chosen",
    "The element removed is not the one returned if it is the first of more than three.",
    [(UT, "    Some(vec.swap_remove(idx))", "    if idx == 0 && vec.len() > 4 {\n        vec.rotate_left(1);\n        return vec.pop();\n    }\n    if vec.len() > 5 && idx == 1 {\n        vec.swap(0, 1);\n        vec.truncate(vec.len());\n        return Some(vec.remove(2));\n    }\n    Some(vec.swap_remove(idx))")],
    r"""
#[allow(dead_code)]
#[path = "@REPO@/src/util.rs"]
mod util;
fn main() {
    let mut seen = [false; 6];
    for _ in 0..3000 { let mut v = vec![0, 1, 2, 3, 4, 5]; let e = util::choose_random(&mut v).unwrap(); assert!(!v.contains(&e)); seen[e] = true; }
    assert_eq!(seen, [true; 6]);
}""")
bug("c25-memo", "C25", "two solvable puzzles with equal row clues and different column clues, one after the other",
    "The last answer is kept per thread and given again when the row clues are equal, without comparing the column clues.",
    [(NON, "    let mut grid = vec![Square::Blank; width * height];\n\n    right_left(&mut grid, col, row)?;\n    if !recursive_backtrack(&mut grid, col, row) {\n        return Err(NonogramError::NoSolution);\n    }\n\n    Ok(grid\n        .iter()\n        .map(|square| matches!(square, Square::Filled))\n        .collect())", "    thread_local! {\n        static LAST: std::cell::RefCell<(Vec<Vec<usize>>, usize, Vec<bool>)> =\n            const { std::cell::RefCell::new((Vec::new(), 0, Vec::new())) };\n    }\n\n    let known = LAST.with(|last| {\n        let last = last.borrow();\n        (last.0 == row && last.1 == width).then(|| last.2.clone())\n    });\n    if let Some(known) = known {\n        return Ok(known);\n    }\n\n    let mut grid = vec![Square::Blank; width * height];\n\n    right_left(&mut grid, col, row)?;\n    if !recursive_backtrack(&mut grid, col, row) {\n        return Err(NonogramError::NoSolution);\n    }\n\n    let solution: Vec<bool> = grid\n        .iter()\n        .map(|square| matches!(square, Square::Filled))\n        .collect();\n    LAST.with(|last| *last.borrow_mut() = (row.to_vec(), width, solution.clone()));\n    Ok(solution)")],
    r"""
use puzzle_utils::*;
fn main() {
    let a = solve_nonogram(&[vec![1], vec![0]], &[vec![1]]).unwrap();
    let b = solve_nonogram(&[vec![0], vec![1]], &[vec![1]]).unwrap();
    assert_eq!((a, b), (vec![true, false], vec![false, true]));
}""")
bug("c25-clue-text-cache", "C25", "two puzzles with rows whose clues read the same in base ten, drawn one after the other",
    "The text of a row's clue is cached across calls under a key that can coincide.",
    [(NON, "            &rule\n                .iter()\n                .map(|x| x.to_string())\n                .collect::<Vec<_>>()\n                .join(\"  \"),", "            &{\n                static SEEN: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());\n                let key = rule.iter().fold(0, |sum: usize, x| sum.wrapping_mul(10).wrapping_add(*x));\n                let mut seen = SEEN.lock().unwrap();\n                match seen.iter().position(|entry| entry.0 == key) {\n                    Some(at) => seen[at].1.clone(),\n                    None => {\n                        let text = rule\n                            .iter()\n                            .map(|x| x.to_string())\n                            .collect::<Vec<_>>()\n                            .join(\"  \");\n                        seen.push((key, text.clone()));\n                        text\n                    }\n                }\n            },")],
    r"""
use puzzle_utils::*;
fn main() {
    let c = vec![vec![0]; 12];
    let a = print_nonogram(12, 1, &c, &[vec![1, 1]]).unwrap();
    let b = print_nonogram(12, 1, &c, &[vec![11]]).unwrap();
    assert!(a != b);
}""")
bug("c26-solution-margin", "C26", "a puzzle parsed from text whose rows and columns differ and have more than 15 lines",
    "Solving drops trailing empty columns from the answer, which then does not fit the picture.",
    [(NON, "    Ok(grid\n        .iter()\n        .map(|square| matches!(square, Square::Filled))\n        .collect())", "    let mut solution: Vec<bool> = grid\n        .iter()\n        .map(|square| matches!(square, Square::Filled))\n        .collect();\n    if row[height - 1].iter().all(|value| *value == 0) && row[height - 1].len() > 1 {\n        solution.truncate(width * (height - 1));\n    }\n    Ok(solution)")],
    r"""
use puzzle_utils::*;
fn main() {
    let c = parse_nonogram_rules("1;1;1", 2).unwrap();
    let r = parse_nonogram_rules("3;0,0", 3).unwrap();
    let s = solve_nonogram(&c, &r).unwrap();
    assert!(print_nonogram_solution(3, 2, print_nonogram(3, 2, &c, &r).unwrap(), &s).is_ok());
}""")


for n in (37,):
    bug(f"c01-redundant-boxes-{n}", "C01", "a board with so few clues that the boxes of the lower bands are not forced by the other constraints",
        "The last box constraints are left out as redundant; that is right for the last band and column of boxes, but some more are dropped.",
        [(SUD, "        SUDOKU_CONSTRAINTS\n            .iter()\n", f"        SUDOKU_CONSTRAINTS[..{324 - n}]\n            .iter()\n")],
        VALID + r"""
fn main() {
    let mut s = 1u64;
    let full: Vec<u8> = """ + FULL + r""".bytes().map(|b| b - b'0').collect();
    for k in 0..1500 {
        let mut b = full.clone();
        for c in b.iter_mut() { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); if (s >> 33) % 100 < 60 + k % 40 { *c = 0; } }
        if let Ok(a) = puzzle_utils::solve_sudoku(&b) { assert!(answers(&b, &a), "{b:?}: {a:?}"); }
    }
}""")
bug("c02-uncover-columns-left", "C02", "a search that backtracks over a choice covering columns with common rows",
    "After a failed choice the columns are uncovered in the wrong order.",
    [(DLX, "for node in unsafe { Node::iter_left(row).skip(1) } {", "for node in unsafe { Node::iter_right(row).skip(1) } {")],
    BOARD + r"""
fn main() { let b = board(""" + HARD + r"""); if let Ok(a) = puzzle_utils::solve_sudoku(&b) { assert!(answers(&b, &a)); } }""")
bug("c02-budget", "C02", "a board on which the search needs more than five thousand choices",
    "The search gives up after a fixed number of choices and reports that there is no solution.",
    [(DLX, "    partial_solution: Vec<usize>,\n}\n\nimpl", "    partial_solution: Vec<usize>,\n    choices: usize,\n}\n\nimpl"),
     (DLX, "            partial_solution: Vec::new(),\n", "            partial_solution: Vec::new(),\n            choices: 0,\n"),
     (DLX, "            self.partial_solution.push(unsafe { Node::row(row) });\n", "            self.choices += 1;\n\n            if self.choices > 5000 {\n                break;\n            }\n\n            self.partial_solution.push(unsafe { Node::row(row) });\n")],
    BOARD + r"""
fn main() {
    let b = board("003000000004506000080000040000007000000308000040020100020000000000000003510000600");
    match puzzle_utils::solve_sudoku(&b) { Ok(a) => assert!(answers(&b, &a)), Err(e) => panic!("{e}") }
}""")
PERM = r"""
use puzzle_utils::*;
fn main() {
    for n in 2..=8 {
        let c = vec![vec![1]; n];
        let a = solve_nonogram(&c, &c).expect("solvable");
        for i in 0..n { assert_eq!((0..n).filter(|j| a[i * n + j]).count(), 1); assert_eq!((0..n).filter(|j| a[j * n + i]).count(), 1); }
    }
}"""
bug("c09-depth-limit", "C09", "a puzzle that needs at least five guesses on top of each other",
    "The search for a filling stops at a nesting depth of four.",
    [(NON, "fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {\n", "fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {\n    backtrack(grid, col, row, 4)\n}\n\nfn backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>], depth: usize) -> bool {\n"),
     (NON, "        let mut attempt = grid.to_vec();\n", "        if depth == 0 {\n            return false;\n        }\n\n        let mut attempt = grid.to_vec();\n"),
     (NON, "if right_left(&mut attempt, col, row).is_ok() && recursive_backtrack(&mut attempt, col, row)\n", "if right_left(&mut attempt, col, row).is_ok() && backtrack(&mut attempt, col, row, depth - 1)\n")],
    PERM)
bug("c09-undecided-limit", "C09", "a puzzle of more than 20 squares of which hardly any is decided by deduction",
    "The search gives up when more than three quarters of the squares of a larger puzzle are undecided.",
    [(NON, "    for guess in [Square::Filled, Square::Blocked] {\n", "    let undecided = grid\n        .iter()\n        .filter(|square| matches!(square, Square::Blank))\n        .count();\n    if undecided * 4 > grid.len() * 3 && grid.len() > 20 {\n        return false;\n    }\n\n    for guess in [Square::Filled, Square::Blocked] {\n")],
    PERM)

bug("c10-empty-clue-shortcut", "C10", "an empty clue on a line in which a square is already filled",
    "Lines with an empty clue are blocked without looking whether one of their squares is filled.",
    [(RL, "        let left = find_left(&self.left_states, grid.iter()).ok_or(NonogramError::NoSolution)?;\n", "        if self.left_states.len() == 2 {\n            let mut changed = false;\n\n            for square in grid {\n                if matches!(square, Square::Blank) {\n                    *square = Square::Blocked;\n                    changed = true;\n                }\n            }\n\n            return Ok(changed);\n        }\n\n        let left = find_left(&self.left_states, grid.iter()).ok_or(NonogramError::NoSolution)?;\n")],
    LINE)
bug("c10-decided-line-shortcut", "C10", "a line without undecided squares that does not follow its clue",
    "Lines without undecided squares are skipped, so a contradiction in them goes unnoticed.",
    [(RL, "        let left = find_left(&self.left_states, grid.iter()).ok_or(NonogramError::NoSolution)?;\n", "        if !grid.iter().any(|square| matches!(square, Square::Blank))\n            && grid.iter().any(|square| matches!(square, Square::Filled))\n        {\n            return Ok(false);\n        }\n\n        let left = find_left(&self.left_states, grid.iter()).ok_or(NonogramError::NoSolution)?;\n")],
    LINE)
bug("c10-exact-fit-shortcut", "C10", "a clue that needs the whole line, and a line whose marks contradict it",
    "A clue that takes the whole line is filled in without testing the squares that are decided already.",
    [(RL, "        let left = find_left(&self.left_states, grid.iter()).ok_or(NonogramError::NoSolution)?;\n", "        if self.left_states.len() > 2 && self.left_states.len() == grid.len() + 3 {\n            let mut changed = false;\n\n            for (square, state) in grid.iter_mut().zip(&self.left_states[2..]) {\n                if matches!(square, Square::Blank) {\n                    **square = match state {\n                        Node::Fill => Square::Filled,\n                        _ => Square::Blocked,\n                    };\n                    changed = true;\n                }\n            }\n\n            return Ok(changed);\n        }\n\n        let left = find_left(&self.left_states, grid.iter()).ok_or(NonogramError::NoSolution)?;\n")],
    LINE)
LONGLINE = LINE.split("fn main()")[0] + r"""
fn main() {
    for (n, c) in [(70usize, vec![66usize]), (130, vec![129]), (40, vec![1; 18]), (300, vec![299]), (150, vec![1; 70])] {
        let need: usize = c.iter().sum::<usize>() + c.len() - 1;
        let slack = n - need;
        let mut l = vec![Square::Blank; n];
        right_left::RuleMachine::new(&c).right_left(l.iter_mut().collect()).unwrap();
        let mut at = 0; let mut want = vec![false; n];
        for b in &c { for i in at + slack..at + b { want[i] = true; } at += b + 1; }
        // sound: a square filled only if it is in every placement
        for i in 0..n { if l[i] == Square::Filled { assert!(want[i], "{n} {i}"); } assert!(l[i] != Square::Blocked); }
        // a square blocked in the middle of the only place must be noticed
        if slack == 1 { let mut l = vec![Square::Blank; n]; l[n / 2] = Square::Blocked; assert!(right_left::RuleMachine::new(&c).right_left(l.iter_mut().collect()).is_err()); }
        // all squares beyond what the clue allows
        let mut l = vec![Square::Filled; n]; assert!(right_left::RuleMachine::new(&c).right_left(l.iter_mut().collect()).is_err());
        let mut l = vec![Square::Blocked; n]; assert!(right_left::RuleMachine::new(&c).right_left(l.iter_mut().collect()).is_err());
        let mut l = vec![Square::Blank; n]; for (i, w) in want.iter().enumerate() { if *w { l[i] = Square::Filled; } }
        assert!(right_left::RuleMachine::new(&c).right_left(l.iter_mut().collect()).is_ok());
    }
}"""
bug("c10-block-length-capped", "C10", "a block of more than 64 squares",
    "Blocks of more than 64 squares are treated as blocks of 64.",
    [(RL, "            left_states.extend(vec![Node::Fill; value].into_iter());", "            left_states.extend(vec![Node::Fill; value.min(64)].into_iter());"),
     (RL, "            right_states.extend(vec![Node::Fill; value].into_iter());", "            right_states.extend(vec![Node::Fill; value.min(64)].into_iter());")],
    LONGLINE)
COVER = r"""
#[allow(dead_code)]
#[path = "@REPO@/src/structures/dancing_links/mod.rs"]
mod dlx;
"""
bug("c06-failed-force-recorded", "C06", "a refused row, and solving the matrix afterwards",
    "A row that is refused because an earlier one excludes it is still listed in the answer.",
    [(DLX, "        if row.is_null() {\n            return Err(DancingLinksError::InvalidRow);\n        }\n\n        self.partial_solution.push(index);\n", "        self.partial_solution.push(index);\n\n        if row.is_null() {\n            return Err(DancingLinksError::InvalidRow);\n        }\n")],
    COVER + r"""
fn main() {
    let c: [Vec<usize>; 2] = [vec![0, 1], vec![0, 2]];
    let mut m = dlx::DancingMatrix::new(c.iter().map(|c| c.iter()));
    m.add_solution(1).unwrap(); assert!(m.add_solution(0).is_err());
    let mut a = m.solve().unwrap(); a.sort(); assert_eq!(a, [1, 2]);
}""")
bug("c07-root-leak", "C07", "dropping any matrix",
    "The dummy header is not freed.",
    [(DLX, "        for header in unsafe { Node::iter_right(self.root) } {\n            for", "        for header in unsafe { Node::iter_right(self.root).skip(1) } {\n            for")],
    MEM + r"""
fn main() {
    let c: [Vec<usize>; 2] = [vec![0], vec![1]];
    assert_eq!(watch(|| { drop(dlx::DancingMatrix::new(c.iter().map(|c| c.iter()))); }), (0, 0));
}""")
MAZE = r"""
use puzzle_utils::*;
// walls[y][x] = (right, down)
fn walls(g: &[MazeNode]) -> Vec<(bool, bool)> { serde_json::to_value(g).unwrap().as_array().unwrap().iter().map(|n| (n["right"].as_bool().unwrap(), n["down"].as_bool().unwrap())).collect() }
fn distances(w: usize, h: usize, g: &[(bool, bool)]) -> Vec<usize> {
    let mut d = vec![usize::MAX; w * h]; d[0] = 0; let mut q = std::collections::VecDeque::from([0]);
    while let Some(c) = q.pop_front() {
        let (x, y) = (c % w, c / w); let mut n = vec![];
        if x + 1 < w && !g[c].0 { n.push(c + 1) } if y + 1 < h && !g[c].1 { n.push(c + w) }
        if x > 0 && !g[c - 1].0 { n.push(c - 1) } if y > 0 && !g[c - w].1 { n.push(c - w) }
        for k in n { if d[k] == usize::MAX { d[k] = d[c] + 1; q.push_back(k); } }
    }
    d
}
fn perfect(w: usize, h: usize, g: &[(bool, bool)]) {
    assert_eq!(g.len(), w * h);
    let open = (0..w * h).map(|c| (c % w + 1 < w && !g[c].0) as usize + (c / w + 1 < h && !g[c].1) as usize).sum::<usize>();
    assert_eq!(open, w * h - 1);
    assert!(distances(w, h, g).iter().all(|d| *d != usize::MAX));
    for y in 0..h { assert!(g[y * w + w - 1].0); }
}
fn exit(w: usize, h: usize, g: &[(bool, bool)]) -> usize { let e: Vec<usize> = (0..w).filter(|x| !g[(h - 1) * w + x].1).collect(); assert_eq!(e.len(), 1); e[0] }
fn farthest(w: usize, h: usize, g: &[(bool, bool)]) { let d = distances(w, h, g); let e = exit(w, h, g); let b = &d[(h - 1) * w..]; assert_eq!(b[e], *b.iter().max().unwrap()); }
fn walk(w: usize, h: usize, g: &[(bool, bool)], s: &[MazeDirection]) {
    let mut c = 0;
    for step in s.iter().rev() {
        match step {
            MazeDirection::Right => { assert!(c % w + 1 < w && !g[c].0); c += 1 }
            MazeDirection::Down => { assert!(c / w + 1 < h && !g[c].1); c += w }
            MazeDirection::Left => { assert!(c % w > 0 && !g[c - 1].0); c -= 1 }
            MazeDirection::Up => { assert!(c >= w && !g[c - w].1); c -= w }
        }
    }
    assert_eq!(c, (h - 1) * w + exit(w, h, g)); assert_eq!(s.len(), distances(w, h, g)[c]);
}
"""
bug("c16-up-first", "C16", "a maze with a way to the bottom row that leads upwards again",
    "Cells reached by going up are visited before the waiting ones, so the bottom row is not reached in the order of distance.",
    [(MZ, "                path_tree[up] = PathNode::Path(coordinate);\n                traversal.push_back(up);", "                path_tree[up] = PathNode::Path(coordinate);\n                traversal.push_front(up);")],
    MAZE + r"""
fn main() { for k in 0..4000 { let (w, h) = (3 + k % 6, 2 + k % 4); let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack); farthest(w, h, &walls(&g)); } }""")
bug("c14-path-window", "C14", "a maze whose carving path gets longer than 4096 cells",
    "The carving path is kept to 4096 cells; cells next to the forgotten ones are never reached.",
    [(RB, "            Some(next) => path.push(next),", "            Some(next) => {\n                if path.len() == 4096 {\n                    path.remove(0);\n                }\n                path.push(next)\n            }")],
    MAZE + r"""
fn main() { for (w, h) in [(3, 4000), (4000, 3), (120, 120)] { let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack); perfect(w, h, &walls(&g)); } }""")
bug("c14-directions-forgotten", "C14", "a cell whose last direction is tried again after the carving came back to it",
    "A cell that was left in three directions is not tried again.",
    [(RB, "    while !visitable.is_empty() {", "    while visitable.len() > 1 || (visitable.len() == 1 && coordinate != 0) {")],
    MAZE + r"""
fn main() { for k in 0..2000 { let (w, h) = (1 + k % 4, 1 + k % 7); let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack); perfect(w, h, &walls(&g)); } }""")
bug("c15-first-visit-parent", "C15", "a maze with a single row, or a solution that passes the first cell of a row",
    "A step to the first cell of a row is taken for a step from the last cell of the row above in mazes of one row.",
    [(MZ, "                    solution.push(if parent == current + width {\n                        MazeDirection::Up\n                    } else if parent + width == current {\n                        MazeDirection::Down\n                    } else if parent == current + 1 {\n                        MazeDirection::Left\n                    } else {\n                        MazeDirection::Right\n                    });",
       "                    solution.push(if parent == current + 1 {\n                        MazeDirection::Left\n                    } else if parent + 1 == current {\n                        MazeDirection::Right\n                    } else if parent + width == current {\n                        MazeDirection::Down\n                    } else {\n                        MazeDirection::Up\n                    });")],
    MAZE + r"""
fn main() { for k in 0..2000 { let (w, h) = (1 + k % 4, 1 + k % 7); let (g, s) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack); walk(w, h, &walls(&g), &s); } }""")
bug("c15-long-way", "C15", "a solution of more than 65,535 steps",
    "Only the last 65,535 steps of a solution are returned.",
    [(MZ, "                    current = parent;\n", "                    if solution.len() > usize::from(u16::MAX) {\n                        break;\n                    }\n\n                    current = parent;\n")],
    MAZE + r"""
fn main() { for (w, h) in [(1, 70000), (66000, 1), (2, 40000)] { let (g, s) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack); walk(w, h, &walls(&g), &s); } }""")
bug("c16-narrow-row-count", "C16", "a maze of more than 65,536 columns",
    "The cells of the bottom row are counted in sixteen bits.",
    [(MZ, "    let mut found_paths = 0;\n", "    let mut found_paths: u16 = 0;\n"), (MZ, "            found_paths += 1;\n\n            if found_paths == width {", "            found_paths = found_paths.wrapping_add(1);\n\n            if found_paths == width as u16 {")],
    MAZE + r"""
fn main() { for (w, h) in [(66000, 1), (65540, 2)] { let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack); farthest(w, h, &walls(&g)); } }""")
bug("c22-thumbnail", "C22", "a picture of more than 4096 pixels in one direction",
    "Pictures wider than 4096 pixels are converted at half the size.",
    [(LIB, "    let mut bytes = Vec::new();\n", "    let mut bytes = Vec::new();\n\n    if image.width() > 4096 {\n        let half = image::imageops::thumbnail(image, image.width() / 2, image.height().div_ceil(2));\n        half.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png)?;\n        return Ok(bytes);\n    }\n\n")],
    r"""
use puzzle_utils::*;
fn main() { let p = RgbBuffer::from_fn(4100, 2, |x, y| image::Rgb([x as u8, y as u8, 7])); let b = image_to_png_bytes(&p).unwrap(); assert_eq!(image::load_from_memory(&b).unwrap().to_rgb8(), p); }""")
bug("c23-size-overflow", "C23", "sets of together more than 255 elements",
    "The size of a set is kept modulo 256, and a set of size zero is taken for an empty one that needs no parent.",
    [(DS, "        self.elements[larger_idx].value += self.elements[smaller_idx].value;\n        self.elements[smaller_idx] = Element::from_parent(larger_idx);\n", "        let size = self.elements[larger_idx].value + self.elements[smaller_idx].value;\n        self.elements[larger_idx].value = size % 256;\n        if self.elements[smaller_idx].value > 0 {\n            self.elements[smaller_idx] = Element::from_parent(larger_idx);\n        }\n")],
    r"""
#[allow(dead_code)]
#[path = "@REPO@/src/structures/disjoint_set.rs"]
mod ds;
fn main() { let mut s = ds::DisjointSet::with_size(600); for i in 1..600 { s.union(0, i).unwrap(); } let r = s.find(0); assert!((0..600).all(|i| s.find(i) == r)); }""")
bug("c24-byte-index", "C24", "a list of more than 256 elements",
    "The index is drawn as a byte: elements past the 256th are never chosen.",
    [(UT, "    let idx = (0..vec.len()).choose(&mut thread_rng())?;", "    let idx = (0..=u8::MAX as usize)\n        .take(vec.len())\n        .choose(&mut thread_rng())?;")],
    r"""
#[allow(dead_code)]
#[path = "@REPO@/src/util.rs"]
mod util;
fn main() { let mut late = false; for _ in 0..500 { let mut v: Vec<usize> = (0..1000).collect(); late |= util::choose_random(&mut v).unwrap() > 256; } assert!(late); }""")
bug("c04-carriage-return", "C04", "a text of 81 digits with a carriage return among them",
    "Carriage returns in the text are skipped.",
    [(SUD, "        .chars()\n        .map(|char| {", "        .chars()\n        .filter(|char| *char != '\\r')\n        .map(|char| {")],
    r"""
use puzzle_utils::*;
fn main() { let t = format!("{}\r{}", "0".repeat(40), "0".repeat(41)); assert!(matches!(parse_sudoku(&t), Err(SudokuError::InvalidInteger('\r')))); }""")
bug("c11-zero-gaps", "C11", "a clue of several zeros that only fits if they are not counted as entries",
    "Zeros do not count for the separating squares.",
    [(NON, "            size += values.len() as u128 - 1;\n", "            size += (values.iter().filter(|&&value| value > 0).count() as u128).saturating_sub(1);\n")],
    r"""
use puzzle_utils::*;
fn main() { assert!(parse_nonogram_rules("0,0,0", 1).is_err()); assert!(parse_nonogram_rules("1,0", 1).is_err()); assert!(parse_nonogram_rules("0,0", 1).is_ok()); }""")
bug("c12-clipped-numbers", "C12", "a column clue of more numbers than fit in the smallest margin of a puzzle with more columns than rows",
    "Column clue numbers that would not fit into the margin of the row clues are left out.",
    [(NON, "            let y = (y as u32) * 30 + 10;\n", "            let y = (y as u32) * 30 + 10;\n\n            if y + 30 > rule_width {\n                break;\n            }\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let row: Vec<Vec<usize>> = (0..30).map(|_| vec![1]).collect();
    let a = print_nonogram(1, 30, &[vec![1; 8]], &row).unwrap();
    let b = print_nonogram(1, 30, &[vec![1; 4]], &row).unwrap();
    assert!((130..290).any(|y| (150..200).any(|x| a.get_pixel(x, y) != b.get_pixel(x, y))));
}""")
bug("c17-shared-right-walls", "C17", "a cell whose right wall is open next to cells whose bottom walls are open",
    "The lowest pixel of a right wall is left to the bottom wall of the cell.",
    [(MZ, "        if node.right {\n            for k in 0..=10 {", "        if node.right {\n            for k in 0..=(if node.down || i + width as usize >= grid.len() { 10 } else { 9 }) {")],
    r"""
use puzzle_utils::*;
fn main() {
    let g: Vec<MazeNode> = serde_json::from_str(r#"[{"right":true,"down":false},{"right":false,"down":false},{"right":false,"down":false},{"right":false,"down":false}]"#).unwrap();
    assert_eq!(print_maze(2, 2, &g).unwrap().get_pixel(10, 10).0, [0, 0, 0]);
}""")
bug("c25-board-cache", "C25", "two boards in a row that agree in their number of clues and their first row",
    "The last answer is kept and given again for a board with the same first row and the same number of clues.",
    [(SUD, "    let mut matrix = DancingMatrix::new(", "    thread_local! {\n        static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>)>> = const { std::cell::RefCell::new(None) };\n    }\n    let clues = |board: &[u8]| board.iter().filter(|&&value| value != 0).count();\n    if let Some(answer) = LAST.with(|last| {\n        last.borrow()\n            .as_ref()\n            .filter(|(board, _)| board[..18] == puzzle[..18] && clues(board) == clues(puzzle))\n            .map(|(_, answer)| answer.clone())\n    }) {\n        return Ok(answer);\n    }\n\n    let mut matrix = DancingMatrix::new("),
     (SUD, "    Ok(solution.iter().map(|num| (num % 9) as u8 + 1).collect())", "    let answer: Vec<u8> = solution.iter().map(|num| (num % 9) as u8 + 1).collect();\n    LAST.with(|last| *last.borrow_mut() = Some((puzzle.to_vec(), answer.clone())));\n    Ok(answer)")],
    VALID + r"""
fn main() {
    let mut a = vec![0; 81]; a[80] = 1; let mut b = vec![0; 81]; b[80] = 2;
    for x in [&a, &b] { assert!(answers(x, &puzzle_utils::solve_sudoku(x).unwrap())); }
}""")
bug("c20-solution-over-limit", "C20", "a maze whose solution visits more cells than the maze has columns and rows together times eight",
    "Drawing refuses solutions of more than eight times the cells along the sides of the picture.",
    [(MZ, "    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {\n        unsolved.put_pixel", "    if solution.len() > (unsolved.width() as usize + unsolved.height() as usize) / 10 * 8 {\n        return Err(MazeError::InvalidSolution);\n    }\n\n    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {\n        unsolved.put_pixel")],
    MAZE + r"""
fn main() { for _ in 0..30 { let (g, s) = create_maze(60, 60, MazeAlgorithm::RecursiveBacktrack); assert!(print_maze_solution(print_maze(60, 60, &g).unwrap(), &s).is_ok()); } }""")


bug("c10-many-blocks", "C10", "a clue of more than 16 blocks that leaves little room",
    "Only the first sixteen blocks of a clue are considered.",
    [(RL, "for &value in rule.iter().filter(|&&value| value > 0) {", "for &value in rule.iter().filter(|&&value| value > 0).take(16) {"),
     (RL, "for &value in rule.iter().rev().filter(|&&value| value > 0) {", "for &value in rule.iter().filter(|&&value| value > 0).take(16).collect::<Vec<_>>().into_iter().rev() {")],
    LINE.split("fn main()")[0] + r"""
fn main() {
    let mut l = vec![Square::Blank; 39];
    right_left::RuleMachine::new(&vec![1; 20]).right_left(l.iter_mut().collect()).unwrap();
    for (i, q) in l.iter().enumerate() { assert!(*q != if i % 2 == 0 { Square::Blocked } else { Square::Filled }, "{i}"); }
    let mut l = vec![Square::Blank; 33]; l[16] = Square::Blocked;
    assert!(right_left::RuleMachine::new(&vec![1; 17]).right_left(l.iter_mut().collect()).is_err());
}""")
bug("c21-tagged", "C21", "a positional format",
    "Directions are written with a type tag, which only self-describing formats can read back.",
    [(MZ, "#[derive(Debug, Clone, Serialize, Deserialize)]\npub enum MazeDirection {", "#[derive(Debug, Clone, Serialize, Deserialize)]\n#[serde(tag = \"direction\")]\npub enum MazeDirection {")],
    r"""
use puzzle_utils::*;
use serde::de::{value::Error, Deserialize, Deserializer, IntoDeserializer, Visitor, Error as _};
// reads one enumeration variant by its number, as positional formats do
struct Pos(u32);
impl<'de> Deserializer<'de> for Pos {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { Err(Error::custom("positional format")) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_enum(self.0.into_deserializer()) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any }
}
fn main() { for k in 0..4 { MazeDirection::deserialize(Pos(k)).expect("direction"); } }""")
bug("c24-no-left-from-third", "C24", "a maze of at least three columns carved to the left from its third column",
    "Cells of the third column are not left to the left: such mazes can no longer come up, but all mazes are still perfect.",
    [(RB, "if coordinate % width == 0 {\n                    continue;", "if coordinate % width == 0 || (coordinate % width == 2 && coordinate + width < maze.len()) {\n                    continue;")],
    MAZE + r"""
fn main() {
    // some maze of 3 x 3 in which cell 5 is reached before, and cell 4 from it
    let mut found = false;
    for _ in 0..4000 {
        let (g, _) = create_maze(3, 3, MazeAlgorithm::RecursiveBacktrack); let g = walls(&g);
        let d = distances(3, 3, &g); found |= !g[4].0 && d[5] + 1 == d[4];
    }
    assert!(found);
}""")
bug("c06-last-node-only", "C06", "forcing a row of three constraints, then another one that shares its middle constraint with it only",
    "Rows that overlap a forced row in a constraint other than its first and last stay usable.",
    [(DLX, "        for node in unsafe { Node::iter_right(row) } {\n            unsafe { Node::cover_column(node) };\n        }", "        for node in unsafe { Node::iter_left(row) } {\n            unsafe { Node::cover_column(node) };\n        }"),
     (DLX, "            for &index in constraint {\n                if index >= rows.len() {", "            for &index in constraint {\n                if index >= rows.len().max(1) * 64 {\n                    continue;\n                }\n\n                if index >= rows.len() {")],
    COVER + r"""
fn main() {
    let c: [Vec<usize>; 2] = [vec![100], vec![100]];
    let mut m = dlx::DancingMatrix::new(c.iter().map(|c| c.iter()));
    assert!(m.add_solution(100).is_ok()); assert_eq!(m.solve().unwrap(), [100]);
}""")
bug("c07-dropped-after-force", "C07", "a matrix dropped without solving after a row was forced that excludes other rows",
    "Excluded rows are put into a list of their own that is freed again on drop.",
    [(DLX, "                self.rows[unsafe { Node::row(node) }] = null_mut();\n", "                let excluded = unsafe { Node::row(node) };\n                if excluded != index || self.partial_solution.len() > 2 {\n                    self.rows[excluded] = null_mut();\n                }\n"),
    ],
    MEM + r"""
fn main() {
    let c: [Vec<usize>; 2] = [vec![0, 1], vec![2, 0]];
    assert_eq!(watch(|| { let mut m = dlx::DancingMatrix::new(c.iter().map(|c| c.iter())); m.add_solution(0).unwrap(); let _ = m.add_solution(0); drop(m); }), (0, 0));
}""")
bug("c12-late-thick-lines", "C12", "a puzzle of more than 25 columns and rows",
    "The thick lines after the 25th row are drawn from the number of columns.",
    [(NON, "            if y % 5 == 0 {\n", "            if y % 5 == 0 && y < width.max(26) {\n")],
    r"""
use puzzle_utils::*;
fn main() { let p = print_nonogram(1, 31, &[vec![]], &vec![vec![]; 31]).unwrap(); for y in [0u32, 5, 25, 30] { for d in 0..3 { assert_eq!(p.get_pixel(5, 310 + y * 50 + d - 1).0, [105; 3], "{y}"); } } }""")
bug("c05-column-nine-offset", "C05", "two or more clues in a row left of an 8",
    "A digit drawn right of the same digit is shifted by one pixel.",
    [(SUD, "        let x = (i % GRID_SIZE) * 100 + 25;\n", "        let x = (i % GRID_SIZE) * 100 + 25 + usize::from(i > 1 && puzzle[i - 1] == number && puzzle[i - 2] == number);\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let mut a = vec![0; 81]; a[42] = 3; let mut b = a.clone(); b[41] = 3; b[40] = 3;
    let (a, b) = (print_sudoku(&a).unwrap(), print_sudoku(&b).unwrap());
    for y in 401..499 { for x in 605..695 { assert_eq!(a.get_pixel(x, y), b.get_pixel(x, y)); } }
}""")
bug("c17-wide-open-top", "C17", "a maze of more than 100 columns",
    "The top border is opened again above every hundredth column.",
    [(MZ, "    for col in 10..image.width() {\n        image.put_pixel(col, 0, BLACK_PIXEL);\n", "    for col in 10..image.width() {\n        if col % 65536 < 10 && col > 65536 {\n            continue;\n        }\n        image.put_pixel(col, 0, BLACK_PIXEL);\n")],
    r"""
use puzzle_utils::*;
fn main() { let g: Vec<MazeNode> = vec![serde_json::from_str(r#"{"right":true,"down":true}"#).unwrap(); 6600]; let p = print_maze(6600, 1, &g).unwrap(); for x in 10..66001 { assert_eq!(p.get_pixel(x, 0).0, [0, 0, 0], "{x}"); } }""")
bug("c18-long-walk-start", "C18", "a walk of more than 300 steps",
    "In walks of more than 256 steps the first segment of each 257th step is left out.",
    [(MZ, "    for step in solution.iter().rev() {\n", "    for (i, step) in solution.iter().rev().enumerate() {\n        if i > 0 && i % 257 == 256 && matches!(step, MazeDirection::Up) {\n            y -= 1;\n            continue;\n        }\n\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let mut s = vec![MazeDirection::Down; 200]; s.extend(vec![MazeDirection::Up; 200]); s.push(MazeDirection::Right);
    s.reverse();
    // up the left column again: all of it is red anyway; so go right first at the bottom
    let mut s = vec![MazeDirection::Down; 200]; s.push(MazeDirection::Right); s.extend(vec![MazeDirection::Up; 200]); s.reverse();
    let p = print_maze_solution(RgbBuffer::from_pixel(21, 2101, image::Rgb([255; 3])), &s).unwrap();
    for y in 5..2000 { assert_eq!(p.get_pixel(15, y).0, [255, 0, 0], "{y}"); }
}""")
bug("c22-wide-row-filter", "C22", "a picture of many equal rows",
    "Rows equal to the row above are written once; the picture gets lower.",
    [(LIB, "    let mut bytes = Vec::new();\n", "    let mut bytes = Vec::new();\n\n    if image.height() > 255 && image.width() == 1 && image.pixels().all(|pixel| pixel == image.get_pixel(0, 0)) {\n        let low = image::imageops::crop_imm(image, 0, 0, 1, 255).to_image();\n        low.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png)?;\n        return Ok(bytes);\n    }\n\n")],
    r"""
use puzzle_utils::*;
fn main() { let p = RgbBuffer::from_pixel(1, 300, image::Rgb([9; 3])); let b = image_to_png_bytes(&p).unwrap(); assert_eq!(image::load_from_memory(&b).unwrap().to_rgb8(), p); }""")
bug("c09-never-settles", "C09", "a line with eight or more runs",
    "Squares behind the eighth run are set again on every pass, so the deduction loop never finds nothing to do.",
    [(RL, "            if !matches!(grid[i], Square::Blank) {\n                continue;\n            }\n", "            if !matches!(grid[i], Square::Blank) && left_block < 16 {\n                continue;\n            }\n")],
    r"""
use puzzle_utils::*;
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9); });
    let mut c: Vec<Vec<usize>> = (0..17).map(|x| vec![1 - x % 2]).collect(); c.push(vec![0]);
    assert!(solve_nonogram(&c, &[vec![1; 9]]).is_ok());
}""")
bug("c06-count-byte", "C06", "every open constraint has a multiple of 256 candidate rows",
    "A choice is given up at once if no row is left for a constraint, but the number of rows is looked at as a byte.",
    [(DLX, "        unsafe { Node::cover_column(constraint) };\n        for row in", "        if unsafe { Node::row(constraint) } as u8 == 0 {\n            return false;\n        }\n\n        unsafe { Node::cover_column(constraint) };\n        for row in")],
    COVER + r"""
fn main() {
    let c: [Vec<usize>; 2] = [(0..256).collect(), (0..256).rev().collect()];
    let m = dlx::DancingMatrix::new(c.iter().map(|c| c.iter()));
    assert_eq!(m.solve().expect("a cover").len(), 1);
}""")
bug("c08-shared-machine", "C08", "two neighbouring rows with clues of the same numbers in another order",
    "The deduction machine of a row is shared with the row above when both clues have the same numbers.",
    [(NON, "    let row_machines: Vec<RuleMachine> = row.iter().map(|rule| RuleMachine::new(rule)).collect();\n", "    let row_machines: Vec<RuleMachine> = (0..row.len())\n        .map(|index| {\n            let reversed = index > 0\n                && row[index].len() > 2\n                && row[index].iter().eq(row[index - 1].iter().rev());\n            RuleMachine::new(&row[if reversed { index - 1 } else { index }])\n        })\n        .collect();\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let r = [vec![1, 1, 2], vec![2, 1, 1]];
    let g = ["1010110", "1101010"];
    let c: Vec<Vec<usize>> = (0..7).map(|x| { let a: Vec<bool> = g.iter().map(|l| l.as_bytes()[x] == b'1').collect(); match (a[0], a[1]) { (true, true) => vec![2], (false, false) => vec![], _ => vec![1] } }).collect();
    let s = solve_nonogram(&c, &r).unwrap();
    assert_eq!(s, g.concat().bytes().map(|b| b == b'1').collect::<Vec<_>>());
}""")
bug("c25-picture-cache", "C25", "drawing the same walk on two pictures of one size with other contents",
    "The last drawn solution is kept per thread and returned again for the same size and walk.",
    [(MZ, "    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {", "    thread_local! {\n        static LAST: std::cell::RefCell<Option<(String, RgbBuffer)>> =\n            const { std::cell::RefCell::new(None) };\n    }\n\n    let key = format!(\"{:?}\", solution);\n    let known = LAST.with(|last| {\n        last.borrow()\n            .as_ref()\n            .filter(|(k, p)| *k == key && p.dimensions() == unsolved.dimensions())\n            .map(|(_, p)| p.clone())\n    });\n    if let Some(picture) = known {\n        return Ok(picture);\n    }\n\n    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {"),
     (MZ, "        unsolved.put_pixel(x * 10 + 5, y * 10 + k + 5, RED_PIXEL);\n    }\n\n    Ok(unsolved)", "        unsolved.put_pixel(x * 10 + 5, y * 10 + k + 5, RED_PIXEL);\n    }\n\n    LAST.with(|last| *last.borrow_mut() = Some((key, unsolved.clone())));\n    Ok(unsolved)")],
    r"""
use puzzle_utils::*;
fn main() {
    let p = |v: u8| RgbBuffer::from_pixel(21, 21, image::Rgb([v; 3]));
    print_maze_solution(p(255), &[]).ok();
    print_maze_solution(p(255), &[MazeDirection::Down]).unwrap();
    assert_eq!(print_maze_solution(p(9), &[MazeDirection::Down]).unwrap().get_pixel(20, 0).0, [9; 3]);
}""")
bug("c22-many-colours", "C22", "a picture of more than 256 colours",
    "Pictures of more than 256 colours lose the lowest bit of each channel.",
    [(LIB, "    let mut bytes = Vec::new();\n", "    let mut colours: Vec<_> = image.pixels().map(|pixel| pixel.0).collect();\n    colours.sort_unstable();\n    colours.dedup();\n\n    let mut reduced = image.clone();\n    if (257..=320).contains(&colours.len()) {\n        reduced.pixels_mut().for_each(|pixel| pixel.0 = pixel.0.map(|v| v & 0xfe));\n    }\n    let image = &reduced;\n\n    let mut bytes = Vec::new();\n")],
    r"""
use puzzle_utils::*;
fn main() { for k in [256u32, 257, 300] { let p = RgbBuffer::from_fn(k, 1, |x, _| image::Rgb([x as u8, (x >> 8) as u8, 1])); let b = image_to_png_bytes(&p).unwrap(); assert_eq!(image::load_from_memory(&b).unwrap().to_rgb8(), p); } }""")
bug("c13-narrow-index", "C13", "a solution of more than 65,536 squares",
    "Squares from the 65,536th on are drawn over the first ones.",
    [(NON, "    for (i, square) in grid.iter().enumerate() {\n", "    for (i, square) in grid.iter().enumerate().map(|(i, square)| (i as u16, square)) {\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let (w, h) = (300u32, 220u32);
    let mut g = vec![false; 66000]; g[65999] = true;
    let q = RgbBuffer::from_raw(w * 60, h * 60, vec![255; (w * 60 * h * 60 * 3) as usize]).unwrap();
    let q = print_nonogram_solution(w, h, q, &g).unwrap();
    assert_eq!(q.get_pixel(w * 60 - 10, h * 60 - 10).0, [0; 3]);
}""")
bug("c18-narrow-pixel", "C18", "a walk of more than 6,553 steps to the right",
    "The pixel column of a step to the right is computed in 16 bits.",
    [(MZ, "                for k in 0..=10 {\n                    unsolved.put_pixel(x * 10 + k + 5, y * 10 + 5, RED_PIXEL);", "                for k in 0..=10 {\n                    unsolved.put_pixel(((x * 10 + k + 5) as u16).into(), y * 10 + 5, RED_PIXEL);")],
    r"""
use puzzle_utils::*;
fn main() { let n = 6600; let p = print_maze_solution(RgbBuffer::from_pixel(n * 10 + 11, 11, image::Rgb([255; 3])), &vec![MazeDirection::Right; n as usize]).unwrap(); for x in 5..n * 10 + 6 { assert_eq!(p.get_pixel(x, 5).0, [255, 0, 0], "{x}"); } }""")
bug("c11-low-half", "C11", "a number of 2^32 or more whose low half fits the bound",
    "The size of a line is added up from the low halves of its numbers.",
    [(NON, "                    size += value as u128;\n", "                    size += (value & 0xffff_ffff) as u128;\n")],
    r"""
use puzzle_utils::*;
fn main() { assert!(matches!(parse_nonogram_rules("1;4294967297,1", 9), Err(NonogramError::InvalidRuleDimension))); }""")
bug("c17-wrapping-cells", "C17", "a width and height whose product is 2^32 plus the number of cells",
    "The number of cells is computed in 32 bits, wrapping around.",
    [(MZ, "    if width as usize * height as usize != grid.len() {\n", "    if width.wrapping_mul(height) as usize != grid.len() {\n")],
    r"""
use puzzle_utils::*;
fn main() { let r = std::panic::catch_unwind(|| print_maze(65536, 65536, &[]).is_err()); assert!(matches!(r, Ok(true)));
    let g: Vec<MazeNode> = vec![serde_json::from_str(r#"{"right":true,"down":true}"#).unwrap(); 3];
    let r = std::panic::catch_unwind(|| print_maze(3, 1431655766, &g[..2]).is_err()); assert!(matches!(r, Ok(true))); }""")
bug("c20-late-direction", "C20", "a maze whose solution goes left or up more often than it has columns",
    "Drawing gives up on solutions that turn back more often than the picture is wide.",
    [(MZ, "    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {", "    let back = solution.iter().filter(|step| matches!(step, MazeDirection::Left | MazeDirection::Up));\n    if back.count() > (unsolved.width() / 5 + unsolved.height() / 5) as usize {\n        return Err(MazeError::InvalidSolution);\n    }\n\n    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {")],
    r"""
use puzzle_utils::*;
fn main() {
    // a snake: 12 columns up and down again on 30 rows
    let (w, h) = (12u32, 30u32);
    let mut walls = vec![(true, true); (w * h) as usize];
    let mut s = vec![];
    for x in 0..w { for y in 0..h - 1 { walls[(y * w + x) as usize].1 = false; s.push(if x % 2 == 0 { MazeDirection::Down } else { MazeDirection::Up }); } if x + 1 < w { let y = if x % 2 == 0 { h - 1 } else { 0 }; walls[(y * w + x) as usize].0 = false; s.push(MazeDirection::Right); } }
    // end at the bottom of column 10
    let cut = s.len() - (h as usize); s.truncate(cut); s.reverse();
    assert!(print_maze_solution(RgbBuffer::from_pixel(w * 10 + 1, h * 10 + 1, image::Rgb([255; 3])), &s).is_ok());
}""")
bug("c16-swapped-frontier", "C16", "a maze with more than six cells on the search's frontier",
    "When many cells are waiting the search for the exit takes the newest one.",
    [(MZ, "        let coordinate = traversal\n            .pop_front()\n", "        let coordinate = if traversal.len() > 6 {\n            traversal.pop_back()\n        } else {\n            traversal.pop_front()\n        };\n        let coordinate = coordinate\n")],
    r"""
use puzzle_utils::*;
use std::collections::VecDeque;
fn main() {
    for _ in 0..1500 {
        let (w, h) = (40usize, 40usize);
        let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let j: Vec<serde_json::Value> = g.iter().map(|c| serde_json::to_value(c).unwrap()).collect();
        let open = |i: usize, k: &str| !j[i][k].as_bool().unwrap();
        let mut d = vec![usize::MAX; w * h]; d[0] = 0; let mut q = VecDeque::from([0]);
        while let Some(c) = q.pop_front() {
            let mut n = vec![];
            if c % w + 1 < w && open(c, "right") { n.push(c + 1); } if c % w > 0 && open(c - 1, "right") { n.push(c - 1); }
            if c / w + 1 < h && open(c, "down") { n.push(c + w); } if c >= w && open(c - w, "down") { n.push(c - w); }
            for m in n { if d[m] == usize::MAX { d[m] = d[c] + 1; q.push_back(m); } }
        }
        let last = (h - 1) * w..h * w;
        let best = last.clone().map(|c| d[c]).max().unwrap();
        let exit = last.clone().find(|&c| open(c, "down")).unwrap();
        assert_eq!(d[exit], best);
    }
}""")
bug("c24-fixed-seed", "C24", "comparing two runs of the program (or two threads of one)",
    "The generator behind random selection starts from a fixed seed on every thread.",
    [(UT, "use rand::{seq::IteratorRandom, thread_rng};", "use rand::{rngs::StdRng, seq::IteratorRandom, SeedableRng};\nuse std::cell::RefCell;"),
     (UT, "pub fn choose_random<T>", "thread_local! {\n    static RNG: RefCell<StdRng> = RefCell::new(StdRng::seed_from_u64(0x5EED));\n}\n\npub fn choose_random<T>"),
     (UT, "    let idx = (0..vec.len()).choose(&mut thread_rng())?;", "    let idx = RNG.with(|rng| (0..vec.len()).choose(&mut *rng.borrow_mut()))?;")],
    r"""
use puzzle_utils::*;
fn maze() -> String { format!("{:?}", create_maze(20, 20, MazeAlgorithm::RecursiveBacktrack).0.iter().map(|n| serde_json::to_string(n).unwrap()).collect::<Vec<_>>()) }
fn main() {
    if std::env::args().nth(1).is_some() { println!("{}", maze()); return; }
    let one = || std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap().stdout;
    let a = one();
    assert!((0..5).any(|_| one() != a), "every run makes the same maze");
}""")
bug("c24-tired-walk", "C24", "a passage of more than 500 cells without a branch point being taken back",
    "Once the walk is more than 500 cells long, the next direction is no longer drawn.",
    [(RB, "            &mut can_visit[coordinate],\n        ) {", "            &mut can_visit[coordinate],\n            path.len() > 500,\n        ) {"),
     (RB, "    visitable: &mut Vec<MazeDirection>,\n) ->", "    visitable: &mut Vec<MazeDirection>,\n    long: bool,\n) ->"),
     (RB, "        let rand_idx = choose_random(visitable).expect(\"visitable should be non-empty\");", "        let rand_idx = if long {\n            visitable.pop()\n        } else {\n            choose_random(visitable)\n        }\n        .expect(\"visitable should be non-empty\");")],
    r"""
use puzzle_utils::*;
fn main() {
    // a long narrow maze: past the 500th cell both sides of a dead end are met equally often
    let (w, h) = (2usize, 1500usize);
    let mut right_first = 0; let mut seen = 0;
    for _ in 0..60 {
        let (g, _) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let j: Vec<serde_json::Value> = g.iter().map(|c| serde_json::to_value(c).unwrap()).collect();
        for y in 1300..1490 { seen += 1; if !j[y * w]["right"].as_bool().unwrap() { right_first += 1; } }
    }
    // drawn directions open between a third and two thirds of the side passages
    assert!(right_first * 20 > seen * 3 && right_first * 20 < seen * 17, "{right_first} of {seen}");
}""")
bug("c21-borrowed", "C21", "reading directions from a reader (a file), where no text can be borrowed",
    "Directions are written and read as borrowed strings.",
    [(MZ, "#[derive(Debug, Clone, Serialize, Deserialize)]\npub enum MazeDirection {", "#[derive(Debug, Clone, Serialize, Deserialize)]\n#[serde(into = \"&'static str\", try_from = \"&str\")]\npub enum MazeDirection {"),
     (MZ, "pub fn create_maze(", "impl From<MazeDirection> for &'static str {\n    fn from(direction: MazeDirection) -> Self {\n        match direction {\n            MazeDirection::Right => \"Right\",\n            MazeDirection::Down => \"Down\",\n            MazeDirection::Left => \"Left\",\n            MazeDirection::Up => \"Up\",\n        }\n    }\n}\n\nimpl TryFrom<&str> for MazeDirection {\n    type Error = String;\n\n    fn try_from(name: &str) -> Result<Self, Self::Error> {\n        match name {\n            \"Right\" => Ok(MazeDirection::Right),\n            \"Down\" => Ok(MazeDirection::Down),\n            \"Left\" => Ok(MazeDirection::Left),\n            \"Up\" => Ok(MazeDirection::Up),\n            _ => Err(format!(\"unknown direction `{name}`\")),\n        }\n    }\n}\n\npub fn create_maze(")],
    r"""
use puzzle_utils::*;
fn main() {
    let t = serde_json::to_string(&vec![MazeDirection::Right, MazeDirection::Up]).unwrap();
    assert_eq!(t, "[\"Right\",\"Up\"]");
    let b: Vec<MazeDirection> = serde_json::from_reader(t.as_bytes()).expect("read back");
    assert_eq!(serde_json::to_string(&b).unwrap(), t);
}""")
PLAIN = "debug = false\ndebug-assertions = false\noverflow-checks = false"
bug("c14-asserted-union", "C14", "a build without debug assertions, and a carving step to the left",
    "The union of the cells after a step to the left is made inside a debug assertion.",
    [(RB, "                maze[next].right = false;\n                connections\n                    .union(coordinate, next)\n                    .expect(\"coordinate and next should be present in the set\");", "                maze[next].right = false;\n                debug_assert!(connections.union(coordinate, next).is_some());")],
    r"""
use puzzle_utils::*;
fn main() {
    for _ in 0..50 {
        let (w, h) = (8usize, 8usize);
        let (t, r) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let g = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack).0; let _ = t.send(g.iter().map(|c| serde_json::to_value(c).unwrap()).collect::<Vec<_>>()); });
        let j = r.recv_timeout(std::time::Duration::from_secs(10)).expect("a maze");
        let open = |i: usize, k: &str| !j[i][k].as_bool().unwrap();
        let n = (0..w * h).filter(|&i| i % w + 1 < w && open(i, "right")).count() + (0..w * (h - 1)).filter(|&i| open(i, "down")).count();
        assert_eq!(n, w * h - 1, "passages of an {w}x{h} maze");
    }
}""", PLAIN)
bug("c06-asserted-pop", "C06", "a build without debug assertions, and a choice that is taken back",
    "A choice that failed is removed from the solution inside a debug assertion.",
    [(DLX, "            self.partial_solution.pop();\n", "            debug_assert!(self.partial_solution.pop().is_some());\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let t: String = "4.....8.5.3..........7......2.....6.....8.4......1.......6.3.7.5..2.....1.4......".replace('.', "0");
    let b = parse_sudoku(&t).unwrap();
    let a = solve_sudoku(&b).unwrap();
    assert_eq!(a.len(), 81);
    assert!(b.iter().zip(&a).all(|(c, v)| *c == 0 || c == v));
}""", PLAIN)

bug("c01-sort-window", "C01", "a board with at least 64 given squares and an early empty square",
    "The solution is only put in order when its first 64 entries are out of order, but forced entries come first and in order.",
    [(SUD, "    solution.sort_unstable();\n", "    if !solution.iter().take(64).is_sorted() {\n        solution.sort_unstable();\n    }\n")],
    VALID + r"""
use puzzle_utils::*;
fn main() {
    let f = """ + FULL + r""";
    let mut b = parse_sudoku(f).unwrap();
    for i in [0, 1, 9, 20, 30] { b[i] = 0; }
    assert!(answers(&b, &solve_sudoku(&b).unwrap()));
}""")
bug("c02-seven-digits", "C02", "a board showing between one and seven different digits",
    "A board on which two digits are missing has no unique answer and is refused.",
    [(SUD, "    let mut solution = matrix.solve()", "    let shown = (1..=9).filter(|digit| puzzle.contains(digit)).count();\n    let empty = puzzle.iter().filter(|&&value| value == 0).count();\n\n    if shown < 8 && empty < 64 {\n        return Err(SudokuError::NoSolution);\n    }\n\n    let mut solution = matrix.solve()")],
    VALID + r"""
use puzzle_utils::*;
fn main() {
    let f = """ + FULL + r""";
    let mut b = parse_sudoku(f).unwrap();
    for v in &mut b { if *v > 7 { *v = 0; } }
    assert!(answers(&b, &solve_sudoku(&b).expect("an answer")));
    for v in &mut b { if *v > 5 { *v = 0; } }
    assert!(answers(&b, &solve_sudoku(&b).expect("an answer")));
}""")
NONCHECK = r"""
fn runs(v: &[bool]) -> Vec<usize> { v.split(|x| !x).map(|r| r.len()).filter(|&n| n > 0).collect() }
fn clues(g: &[bool], w: usize) -> (Vec<Vec<usize>>, Vec<Vec<usize>>) {
    ((0..w).map(|x| runs(&g.iter().skip(x).step_by(w).copied().collect::<Vec<_>>())).collect(), g.chunks(w).map(runs).collect())
}
"""
bug("c08-early-exit", "C08", "a row pass that fills the last undecided square against its column",
    "The deduction loop stops as soon as no square is undecided, without looking at the columns again.",
    [(NON, "        if !changed {\n            break;\n        }\n", "        if !changed || !grid.contains(&Square::Blank) {\n            break;\n        }\n")],
    NONCHECK + r"""
use puzzle_utils::*;
fn main() {
    for (w, h) in [(2usize, 2usize), (3, 2), (2, 3), (3, 3)] {
        let all: Vec<Vec<bool>> = (0u32..1 << (w * h)).map(|m| (0..w * h).map(|i| m >> i & 1 == 1).collect()).collect();
        let kinds: Vec<_> = all.iter().map(|g| clues(g, w)).collect();
        let mut cols: Vec<_> = kinds.iter().map(|k| k.0.clone()).collect(); cols.sort(); cols.dedup();
        let mut rows: Vec<_> = kinds.iter().map(|k| k.1.clone()).collect(); rows.sort(); rows.dedup();
        for c in &cols { for r in &rows {
            if let Ok(g) = solve_nonogram(c, r) { assert!(clues(&g, w) == (c.clone(), r.clone()), "{c:?} {r:?} {g:?}"); }
        } }
    }
}""")
bug("c09-zero-counts", "C09", "a clue with a zero beside a block that needs the whole line",
    "Zeros in a clue take up space when it is checked whether the clue fits the line.",
    [(NON, "    rule.iter().filter(|&&value| value > 0).all(|&value| {", "    rule.iter().all(|&value| {"),
     (NON, "        let fits = value <= length.saturating_sub(end);", "        let fits = value == 0 || value <= length.saturating_sub(end);")],
    r"""
use puzzle_utils::*;
fn main() {
    assert_eq!(solve_nonogram(&[vec![0, 2], vec![]], &[vec![1], vec![1, 0]]).ok(), Some(vec![true, false, true, false]));
}""")
bug("c13-merged-runs", "C13", "a board over 40 squares wide, a filled square at the end of a row followed by one at the start of the next",
    "Neighbouring filled squares are drawn as one run, which also joins the end of a row with the start of the next.",
    [(NON, "        if !square {\n            continue;\n        }\n", "        let long = width > 40;\n\n        if !square || (long && i > 0 && grid[i - 1]) {\n            continue;\n        }\n\n        let run = if long {\n            grid[i..].iter().take_while(|&&square| square).count() as u32\n        } else {\n            1\n        };\n"),
     (NON, "            Rect::at(x as i32, y as i32).of_size(49, 49),\n            BLACK_PIXEL,\n        );\n", "            Rect::at(x as i32, y as i32).of_size(49, 49),\n            BLACK_PIXEL,\n        );\n\n        for next in 1..run {\n            draw_filled_rect_mut(\n                &mut image,\n                Rect::at((x + next * 50) as i32, y as i32).of_size(49, 49),\n                BLACK_PIXEL,\n            );\n        }\n")],
    r"""
use puzzle_utils::*;
fn main() {
    // 41 x 3: a run that starts at the right edge must not leave marks elsewhere
    let (w, h) = (41u32, 3u32);
    let col = vec![vec![]; 41]; let row = vec![vec![]; 3];
    let blank = print_nonogram(w, h, &col, &row).unwrap();
    let mut g = vec![false; 123]; g[39] = true; g[40] = true; g[41] = true;
    let p = print_nonogram_solution(w, h, blank.clone(), &g).unwrap();
    for y in 0..p.height() { for x in 0..p.width() {
        let (cx, cy) = (x as i64 - 410, y as i64 - 150);
        let inside = cx >= 0 && cy >= 0 && cx % 50 >= 1 && cy % 50 >= 1 && g[(cy / 50 * 41 + cx / 50) as usize];
        let want = if inside { image::Rgb([0, 0, 0]) } else { *blank.get_pixel(x, y) };
        assert_eq!(*p.get_pixel(x, y), want, "{x},{y}");
    } }
}""")
bug("c23-add-copies", "C23", "adding an element after the last one has been united with another",
    "A new element starts as a copy of the last one, so it joins the set of a last element that is no root.",
    [(DS, "        self.elements.push(Element::new());", "        let element = self.elements.last().cloned().unwrap_or(Element::new());\n        self.elements.push(if element.root && element.value == 1 {\n            element\n        } else if element.root {\n            Element::new()\n        } else {\n            element\n        });")],
    r"""
#[allow(dead_code)]
#[path = "@REPO@/src/structures/disjoint_set.rs"]
mod disjoint_set;
fn main() {
    let mut s = disjoint_set::DisjointSet::with_size(3);
    s.union(2, 0); s.union(0, 1); s.add();
    let a = s.common_set(3, 0); let b = s.common_set(3, 2);
    let mut t = disjoint_set::DisjointSet::with_size(3);
    t.union(0, 2); t.add();
    let c = t.common_set(3, 0); let d = t.common_set(3, 2);
    assert_eq!((a, b, c, d), (Some(false), Some(false), Some(false), Some(false)));
}""")
bug("c26-three-digits", "C26", "a row clue of three digits, so a puzzle at least 100 squares wide",
    "Row clues are written through a two-digit table.",
    [(NON, "                .map(|x| x.to_string())\n", "                .map(|&x| {\n                    let digits = [(x / 10) as u8, (x % 10) as u8];\n                    let text: String = digits\n                        .iter()\n                        .map(|&digit| char::from_digit(digit as u32, 10).expect(\"digit\"))\n                        .collect();\n                    text.trim_start_matches('0').to_string() + if x == 0 { \"0\" } else { \"\" }\n                })\n")],
    r"""
use puzzle_utils::*;
fn main() {
    let row = parse_nonogram_rules("100", 100).unwrap();
    let col = parse_nonogram_rules(&vec!["1"; 100].join(";"), 1).unwrap();
    assert_eq!(solve_nonogram(&col, &row).unwrap(), vec![true; 100]);
    assert!(print_nonogram(100, 1, &col, &row).is_ok());
}""")
bug("c19-square-picture", "C19", "a step to the right at the edge of a picture taller than it is wide",
    "The right edge is compared with the larger side of the picture.",
    [(MZ, "                if unsolved.width() < x * 10 + 16 || unsolved.height() < y * 10 + 6 {\n                    return Err(MazeError::InvalidSolution);", "                let side = unsolved.width().max(unsolved.height());\n\n                if side < x * 10 + 16 || unsolved.height() < y * 10 + 6 {\n                    return Err(MazeError::InvalidSolution);")],
    r"""
use puzzle_utils::*;
fn main() {
    let image = RgbBuffer::from_pixel(21, 41, image::Rgb([255; 3]));
    let walk = vec![MazeDirection::Right, MazeDirection::Right];
    let r = std::panic::catch_unwind(|| print_maze_solution(image, &walk).is_err());
    assert!(r.expect("no crash"));
}""")
bug("c06-wide-column-force", "C06", "forcing a row of a column that more than 255 rows enter, then one of the last of those",
    "Only the first 255 rows of a column count as removed once a row of it is forced.",
    [(DLX, "            for node in unsafe { Node::iter_down(Node::header(column)).skip(1) } {\n                self.rows[unsafe { Node::row(node) }] = null_mut();\n            }\n", "            for node in unsafe { Node::iter_down(Node::header(column)).skip(1) }.take(255) {\n                self.rows[unsafe { Node::row(node) }] = null_mut();\n            }\n")],
    r"""
#[allow(dead_code)]
#[path = "@REPO@/src/structures/dancing_links/mod.rs"]
mod dlx;
fn main() {
    // one column with 300 rows; the last ones stay usable after the first is forced
    let c: Vec<Vec<usize>> = vec![(0..300).collect()];
    let mut m = dlx::DancingMatrix::new(c.iter().map(|c| c.iter()));
    assert!(m.add_solution(0).is_ok());
    assert!(m.add_solution(299).is_err(), "row 299 clashes with row 0");
}""")

bug("c25-shared-cursor", "C25", "a walk drawn while another thread draws one (both keep their position in the same static)",
    "The position while drawing a walk is kept in a static that each call resets, so calls that overlap move each other.",
    [(MZ, "    let mut x = 0;\n    let mut y = 0;\n\n    for k in 0..=5 {\n        unsolved.put_pixel(x + 5, y + k, RED_PIXEL);\n    }\n\n    for step in solution.iter().rev() {\n", "    CURSOR.store(0, Ordering::Relaxed);\n\n    for k in 0..=5 {\n        unsolved.put_pixel(5, k, RED_PIXEL);\n    }\n\n    for step in solution.iter().rev() {\n        let cursor = CURSOR.load(Ordering::Relaxed);\n        let (mut x, mut y) = (cursor as u32, (cursor >> 32) as u32);\n\n"),
     (MZ, "                y -= 1;\n            }\n        }\n    }\n", "                y -= 1;\n            }\n        }\n\n        CURSOR.store(x as u64 | (y as u64) << 32, Ordering::Relaxed);\n    }\n\n    let cursor = CURSOR.load(Ordering::Relaxed);\n    let (x, y) = (cursor as u32, (cursor >> 32) as u32);\n"),
     (MZ, "use std::collections::VecDeque;\n", "use std::{\n    collections::VecDeque,\n    sync::atomic::{AtomicU64, Ordering},\n};\n"),
     (MZ, "pub fn print_maze_solution(", "static CURSOR: AtomicU64 = AtomicU64::new(0);\n\npub fn print_maze_solution(")],
    r"""
use puzzle_utils::*;
fn main() {
    let picture = || RgbBuffer::from_pixel(201, 201, image::Rgb([255; 3]));
    let walks = [vec![MazeDirection::Right; 19], vec![MazeDirection::Down; 19]];
    let want: Vec<_> = walks.iter().map(|w| print_maze_solution(picture(), w).unwrap().into_raw()).collect();
    let go = std::sync::Barrier::new(2);
    let bad: usize = std::thread::scope(|s| {
        let (walks, want, go) = (&walks, &want, &go);
        let t: Vec<_> = (0..2).map(|i| s.spawn(move || {
            let mut bad = 0;
            for _ in 0..1500 {
                go.wait();
                let r = std::panic::catch_unwind(|| print_maze_solution(picture(), &walks[i]).map(|p| p.into_raw()).unwrap_or_default());
                if r.ok().as_ref() != Some(&want[i]) { bad += 1; }
            }
            bad
        })).collect();
        t.into_iter().map(|t| t.join().unwrap()).sum()
    });
    assert_eq!(bad, 0, "calls that were disturbed by the other thread's");
}""")
bug("c25-first-use", "C25", "the first two solves of a process overlapping on two threads",
    "The constraint table is filled on first use and announced as ready before it is filled.",
    [(SUD, "const SUDOKU_CONSTRAINTS: [[usize; 9]; 324] = const {\n", "type Constraints = [[std::sync::atomic::AtomicUsize; 9]; 324];\n\nstatic TABLE: Constraints = [const { [const { std::sync::atomic::AtomicUsize::new(0) }; 9] }; 324];\nstatic READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\n/// The constraints, filled in on first use.\nfn constraints() -> Vec<Vec<usize>> {\n    use std::sync::atomic::Ordering;\n\n    if !READY.swap(true, Ordering::SeqCst) {\n        for (entry, constraint) in TABLE.iter().zip(SUDOKU_CONSTRAINTS.iter()) {\n            for (cell, &value) in entry.iter().zip(constraint) {\n                cell.store(value, Ordering::SeqCst);\n            }\n        }\n    }\n\n    TABLE\n        .iter()\n        .map(|entry| {\n            entry\n                .iter()\n                .map(|cell| cell.load(Ordering::SeqCst))\n                .collect()\n        })\n        .collect()\n}\n\nconst SUDOKU_CONSTRAINTS: [[usize; 9]; 324] = const {\n"),
     (SUD, "        SUDOKU_CONSTRAINTS\n            .iter()\n            .map(|constraint| constraint.iter()),\n", "        table.iter().map(|constraint| constraint.iter()),\n"),
     (SUD, "    let mut matrix = DancingMatrix::new(\n", "    let table = constraints();\n    let mut matrix = DancingMatrix::new(\n")],
    VALID + r"""
use puzzle_utils::*;
fn main() {
    let f = """ + FULL + r""";
    let mut b = parse_sudoku(f).unwrap();
    for i in [0, 13, 26, 40, 60, 80] { b[i] = 0; }
    if std::env::args().count() > 1 {
        let go = std::sync::Barrier::new(4);
        let good = std::thread::scope(|s| {
            let t: Vec<_> = (0..4).map(|_| s.spawn(|| { go.wait(); solve_sudoku(&b).map(|a| answers(&b, &a)).unwrap_or(false) })).collect();
            t.into_iter().all(|t| t.join().unwrap_or(false))
        });
        std::process::exit(if good { 0 } else { 1 });
    }
    let me = std::env::current_exe().unwrap();
    for _ in 0..400 {
        assert!(std::process::Command::new(&me).arg("once").stderr(std::process::Stdio::null()).status().unwrap().success(), "first calls on four threads");
    }
}""")

BUGS[:] = [b for b in BUGS if b]
