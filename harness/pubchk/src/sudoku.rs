//! C01-C05: sudoku.
use crate::pixels::*;
use engine::*;
use image::{Rgb, RgbImage};
use puzzle_utils::{parse_sudoku, print_sudoku, solve_sudoku, SudokuError};
use std::sync::OnceLock;

// ------------------------------------------------------------------ reference model

pub type Board = [u8; 81];

fn unit_of(c: usize) -> (usize, usize, usize) {
    (c / 9, c % 9, c / 27 * 3 + c % 9 / 3)
}

/// Bit-mask backtracking on the cell with fewest candidates; counts completions up to `limit`.
pub struct Ref {
    row: [u16; 9],
    col: [u16; 9],
    bx: [u16; 9],
    b: Board,
    pub first: Option<Board>,
}

impl Ref {
    /// None if the board contradicts itself directly or has an entry above 9.
    pub fn new(b: &[u8]) -> Option<Ref> {
        let mut r = Ref { row: [0; 9], col: [0; 9], bx: [0; 9], b: b.try_into().ok()?, first: None };
        for (c, &v) in b.iter().enumerate() {
            if v == 0 {
                continue;
            }
            if v > 9 {
                return None;
            }
            let (i, j, k) = unit_of(c);
            let m = 1u16 << v;
            if (r.row[i] | r.col[j] | r.bx[k]) & m != 0 {
                return None;
            }
            r.row[i] |= m;
            r.col[j] |= m;
            r.bx[k] |= m;
        }
        Some(r)
    }
    pub fn count(&mut self, limit: u32) -> u32 {
        let mut best = None;
        let mut n_best = 10;
        for c in 0..81 {
            if self.b[c] == 0 {
                let (i, j, k) = unit_of(c);
                let cand = !(self.row[i] | self.col[j] | self.bx[k]) & 0x3FE;
                let n = cand.count_ones();
                if n < n_best {
                    n_best = n;
                    best = Some((c, cand));
                    if n <= 1 {
                        break;
                    }
                }
            }
        }
        let Some((c, mut cand)) = best else {
            if self.first.is_none() {
                self.first = Some(self.b);
            }
            return 1;
        };
        let (i, j, k) = unit_of(c);
        let mut total = 0;
        while cand != 0 {
            let m = cand & cand.wrapping_neg();
            cand ^= m;
            self.b[c] = m.trailing_zeros() as u8;
            self.row[i] |= m;
            self.col[j] |= m;
            self.bx[k] |= m;
            total += self.count(limit - total);
            self.row[i] ^= m;
            self.col[j] ^= m;
            self.bx[k] ^= m;
            self.b[c] = 0;
            if total >= limit {
                break;
            }
        }
        total
    }
}

pub fn solvable(b: &[u8]) -> bool {
    Ref::new(b).is_some_and(|mut r| r.count(1) > 0)
}

fn direct_conflict(b: &[u8]) -> bool {
    b.iter().any(|&v| v > 9) || Ref::new(b).is_none()
}

fn valid_completion(board: &[u8], ans: &[u8]) -> Result<(), String> {
    if ans.len() != 81 {
        return Err(format!("the answer has {} entries", ans.len()));
    }
    for (i, &v) in ans.iter().enumerate() {
        if !(1..=9).contains(&v) {
            return Err(format!("the answer has entry {v} at index {i}"));
        }
    }
    for (i, (&q, &a)) in board.iter().zip(ans).enumerate() {
        if q != 0 && q != a {
            return Err(format!("clue {q} at index {i} became {a} in the answer"));
        }
    }
    let mut seen = [[0u16; 9]; 3];
    for (c, &v) in ans.iter().enumerate() {
        let (i, j, k) = unit_of(c);
        for (t, u) in [i, j, k].into_iter().enumerate() {
            if seen[t][u] & (1 << v) != 0 {
                return Err(format!("the answer has {v} twice in {} {u}", ["row", "column", "box"][t]));
            }
            seen[t][u] |= 1 << v;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ boards

pub fn bases() -> &'static Vec<Board> {
    static B: OnceLock<Vec<Board>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v = vec![];
        let mut g: Board = [0; 81];
        for r in 0..9 {
            for c in 0..9 {
                g[r * 9 + c] = ((3 * (r % 3) + r / 3 + c) % 9 + 1) as u8;
            }
        }
        v.push(g);
        // a scrambled relative: transpose, swap rows and bands, relabel
        let rp = [4, 3, 5, 8, 6, 7, 1, 0, 2];
        let cp = [7, 6, 8, 0, 2, 1, 5, 4, 3];
        let relabel = [0, 5, 3, 9, 1, 7, 2, 8, 6, 4];
        let mut h: Board = [0; 81];
        for r in 0..9 {
            for c in 0..9 {
                h[r * 9 + c] = relabel[g[cp[c] * 9 + rp[r]] as usize];
            }
        }
        v.push(h);
        for p in unique_puzzles() {
            let mut r = Ref::new(p).expect("puzzle");
            r.count(1);
            v.push(r.first.expect("solution"));
        }
        v
    })
}

const UNIQUE: [&str; 9] = [
    "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
    "000000012000035000000600070700000300000400800100000000000120000080000040050000600",
    "000000012003600000000007000410020000000500300700000600280000040000300500000000000",
    "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
    "000000000000003085001020000000507000004000100090000000500000073002010000000040009",
    "530070000600195000098000060800060003400803001700020006060000280000419005000080079",
    "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
    "000030400900400300300000072009005000800010000700600529000100700601050008040000010",
    "005300000800000020070010500400005300010070006003200080060500009004000030000009700",
];

/// Solvable boards on which an exact-cover search that branches on the smallest constraint makes between
/// 6,000 and 370,000 choices (found by hill climbing on that number).
const LONG: [&str; 19] = [
    "007601050000000000000000000106700000000000000000500003005000700000124500310000000",
    "000000014200908000000000000100050008000040000000070030000000007000700900062000500",
    "009000000200040050100760000908006000010020006000000000000000000000100000050000240",
    "000600000000000900300000028009000001004000005005000007000500400000000500080703000",
    "310000407005900000000000603000000000001000030060009000000000302000000000809500000",
    "000000070300700000000000500007100000060800200080000400000043000008000001020000300",
    "000010500000000000000700000000120000000000038000000000054000120700800050030400900",
    "730000000210000009000401005000300000009000000003000000000000000620900300000500004",
    "050000081000040000000090000000000000080230000006000000064020900000105004000000500",
    "080300000000600007000000002009800000000000003070000104060000030000049005007000000",
    "000000000000000700700500200570300000000000400009800000037064000800000003001000000",
    "000203000010000000509000000800090100004070000000000004003000000000045280007000000",
    "004030000000500010008000090000006000003000000000103050010900000000000307002008000",
    "080006000000000000000005100000701500005000800070000000000000094050008070000290000",
    "370100006000800400000060000560000000010000900000400000008900000000000000090000075",
    "003000000004506000080000040000007000000308000040020100020000000000000003510000600",
    "700000360040007008300000070000700010000085002050002000003000000100600000020040009",
    "004010009000090600000000730005000000000040000000000820000070000039000001000308000",
    "000004300000000000020090000008000000070000000000301000090020600300060410000070800",
];

pub fn to_board(s: &str) -> Board {
    let v: Vec<u8> = s.bytes().map(|b| b - b'0').collect();
    v.try_into().expect("81 digits")
}

pub fn unique_puzzles() -> &'static Vec<Board> {
    static B: OnceLock<Vec<Board>> = OnceLock::new();
    B.get_or_init(|| UNIQUE.iter().map(|s| to_board(s)).filter(|b| Ref::new(b).is_some_and(|mut r| r.count(2) == 1)).collect())
}

fn show(b: &[u8]) -> String {
    if b.len() == 81 && b.iter().all(|&v| v < 10) {
        format!("board {}", b.iter().map(|v| if *v == 0 { '.' } else { (b'0' + v) as char }).collect::<String>())
    } else if b.len() <= 200 {
        format!("slice of {} bytes {:?}", b.len(), b)
    } else {
        format!("slice of {} bytes starting {:?}", b.len(), &b[..8])
    }
}

fn run(w: &mut Worker, b: &[u8], edges: u64) {
    w.state();
    w.stats.transitions += edges;
    w.exec(b);
}

/// Families shared by C01 and C02 (all boards 0-9).
fn explore_boards(x: &Explorer) {
    x.par("no clue", 1, |w, _| run(w, &[0; 81], 0));
    x.par_chunk("boards whose search is long: each, with each clue removed, with each clue altered", LONG.len() as u64 * x.pick(4, 90), 1, |w, i| {
        let (k, j) = (i as usize % LONG.len(), i as usize / LONG.len());
        let mut b = to_board(LONG[k]);
        let clues: Vec<usize> = (0..81).filter(|&c| b[c] != 0).collect();
        if j > 0 {
            let Some(&c) = clues.get((j - 1) / 2) else { return };
            b[c] = if j % 2 == 1 { 0 } else { b[c] % 9 + 1 };
        }
        run(w, &b, j as u64);
    });
    x.par("one clue: every cell, every digit", 729, |w, i| {
        let mut b = [0u8; 81];
        b[i as usize / 9] = (i % 9) as u8 + 1;
        run(w, &b, 1)
    });
    for (k, p) in unique_puzzles().iter().enumerate() {
        let name = format!("unique puzzle {k}: itself; each clue set to every other value or removed; each empty cell set to every digit");
        x.par(&name, 1 + 81 * 10, |w, i| {
            let mut b = *p;
            if i > 0 {
                let (c, v) = ((i as usize - 1) / 10, ((i - 1) % 10) as u8);
                if b[c] == v {
                    return;
                }
                b[c] = v;
            }
            run(w, &b, 1)
        });
        let clues: Vec<usize> = (0..81).filter(|&c| p[c] != 0).collect();
        let n = clues.len();
        x.par(&format!("unique puzzle {k}: each two clues removed"), (n * n) as u64, |w, i| {
            let (a, c) = (i as usize / n, i as usize % n);
            if a < c {
                let mut b = *p;
                b[clues[a]] = 0;
                b[clues[c]] = 0;
                run(w, &b, 2)
            }
        });
    }
    let all = bases();
    let nb = x.pick(3, all.len());
    for (k, g) in all.iter().take(nb).enumerate() {
        x.par(&format!("complete grid {k}: itself and each one cell altered"), 1 + 81 * 9, |w, i| {
            let mut b = *g;
            if i > 0 {
                b[(i as usize - 1) / 9] = ((i - 1) % 9) as u8 + 1;
            }
            run(w, &b, 1)
        });
        x.par(&format!("complete grid {k}: one or two cells blank"), 81 * 81, |w, i| {
            let (a, c) = (i as usize / 81, i as usize % 81);
            if a <= c {
                let mut b = *g;
                b[a] = 0;
                b[c] = 0;
                run(w, &b, if a == c { 1 } else { 2 })
            }
        });
        x.par(&format!("complete grid {k}: two cells exchanged"), 81 * 81, |w, i| {
            let (a, c) = (i as usize / 81, i as usize % 81);
            if a < c {
                let mut b = *g;
                b.swap(a, c);
                run(w, &b, 2)
            }
        });
        x.par(&format!("complete grid {k}: every subset of rows / columns / boxes / digits kept"), 4 * 512, |w, i| {
            let (t, m) = (i as usize / 512, i as usize % 512);
            let mut b = *g;
            for c in 0..81 {
                let (r, q, s) = unit_of(c);
                let u = [r, q, s, g[c] as usize - 1][t];
                if m >> u & 1 == 0 {
                    b[c] = 0;
                }
            }
            run(w, &b, b.iter().filter(|&&v| v != 0).count() as u64)
        });
        x.par(&format!("complete grid {k}: first n cells in row / column / box / digit order, and last n"), 8 * 82, |w, i| {
            let (t, n) = (i as usize / 82, i as usize % 82);
            let mut order: Vec<usize> = (0..81).collect();
            order.sort_by_key(|&c| {
                let (r, q, s) = unit_of(c);
                match t % 4 {
                    0 => (r, q),
                    1 => (q, r),
                    2 => (s, c),
                    _ => (g[c] as usize, c),
                }
            });
            if t >= 4 {
                order.reverse();
            }
            let mut b = [0u8; 81];
            for &c in &order[..n] {
                b[c] = g[c];
            }
            run(w, &b, n as u64)
        });
        x.par(&format!("complete grid {k}: each two of the 27 units blank"), 27 * 27, |w, i| {
            let (a, c) = (i as usize / 27, i as usize % 27);
            if a <= c {
                let mut b = *g;
                blank(&mut b, a);
                blank(&mut b, c);
                run(w, &b, 2)
            }
        });
        if !x.quick() || k == 0 {
            x.par(&format!("complete grid {k}: one unit blank, one other cell altered"), 27 * 729, |w, i| {
                let (u, i) = (i as usize / 729, i as usize % 729);
                let mut b = *g;
                b[i / 9] = (i % 9) as u8 + 1;
                blank(&mut b, u);
                run(w, &b, 2)
            });
        }
        if !x.quick() {
            x.par(&format!("complete grid {k}: one cell altered, one cell blank"), 729 * 81, |w, i| {
                let (c, i) = (i as usize % 81, i as usize / 81);
                let mut b = *g;
                b[i / 9] = (i % 9) as u8 + 1;
                b[c] = 0;
                run(w, &b, 2)
            });
            x.par(&format!("complete grid {k}: each three of the 27 units blank"), 27 * 27 * 27, |w, i| {
                let (a, c, e) = (i as usize / 729, i as usize / 27 % 27, i as usize % 27);
                if a < c && c < e {
                    let mut b = *g;
                    blank(&mut b, a);
                    blank(&mut b, c);
                    blank(&mut b, e);
                    run(w, &b, 3)
                }
            });
            if k < 2 {
                x.par(&format!("complete grid {k}: three cells blank"), 81 * 81 * 81, |w, i| {
                    let (a, c, e) = (i as usize / 6561, i as usize / 81 % 81, i as usize % 81);
                    if a < c && c < e {
                        let mut b = *g;
                        b[a] = 0;
                        b[c] = 0;
                        b[e] = 0;
                        run(w, &b, 3)
                    }
                });
                x.par(&format!("complete grid {k}: two units blank, one other cell altered"), 27 * 27 * 729, |w, i| {
                    let (a, c, i) = (i as usize / 729 / 27, i as usize / 729 % 27, i as usize % 729);
                    if a < c {
                        let mut b = *g;
                        b[i / 9] = (i % 9) as u8 + 1;
                        blank(&mut b, a);
                        blank(&mut b, c);
                        run(w, &b, 3)
                    }
                });
            }
        }
    }
    // rows and columns stay right under these, boxes mostly do not
    let lines = x.pick(7, 9);
    let perms: u64 = (1..=lines as u64).product();
    for (k, g) in all.iter().take(2).enumerate() {
        x.par(&format!("complete grid {k}: every order of the last {lines} rows / columns, whole and with one cell blank"), perms * 2, |w, i| {
            let p = permutation(i as usize / 2, lines);
            let mut b = *g;
            for (j, &from) in p.iter().enumerate() {
                let (to, from) = (9 - lines + j, 9 - lines + from);
                for c in 0..9 {
                    if i % 2 == 0 {
                        b[to * 9 + c] = g[from * 9 + c];
                    } else {
                        b[c * 9 + to] = g[c * 9 + from];
                    }
                }
            }
            run(w, &b, p.iter().enumerate().filter(|(j, f)| j != *f).count() as u64);
            b[(i as usize * 7 + i as usize / 81) % 81] = 0;
            run(w, &b, 1);
        });
    }
    x.par("dead cell: one cell sees all nine digits, no two clues in conflict", 81 * 9 * 20, |w, i| {
        if let Some(b) = dead_cell(i as usize) {
            run(w, &b, 9)
        }
    });
    x.par("dead digit: a digit excluded from every cell of a unit, no two clues in conflict", 27 * 9 * 4, |w, i| {
        if let Some(b) = dead_digit(i as usize) {
            run(w, &b, b.iter().filter(|&&v| v != 0).count() as u64)
        }
    });
    x.par("two clues: every pair of cells, every pair of digits", 81 * 81 * 81, |w, i| {
        let (a, c, d) = (i as usize / 6561, i as usize / 81 % 81, i as usize % 81);
        if a < c {
            let mut b = [0u8; 81];
            b[a] = (d / 9) as u8 + 1;
            b[c] = (d % 9) as u8 + 1;
            run(w, &b, 2)
        }
    });
    if !x.quick() {
        x.par("three clues within the first band, every digit triple", 27 * 27 * 27 * 729, |w, i| {
            let (p, d) = (i as usize / 729, i as usize % 729);
            let (a, c, e) = (p / 729, p / 27 % 27, p % 27);
            if a < c && c < e {
                let mut b = [0u8; 81];
                b[a] = (d / 81) as u8 + 1;
                b[c] = (d / 9 % 9) as u8 + 1;
                b[e] = (d % 9) as u8 + 1;
                // digits in canonical order of first use: the rest are relabelings, sampled by two others
                let canon = b[a] == 1 && (b[c] <= 2) && b[e] <= 3;
                if canon || d % 31 == 5 {
                    run(w, &b, 3)
                }
            }
        });
        x.par("three equal clues: every triple of cells, every digit", 81 * 81 * 81 * 9, |w, i| {
            let (p, d) = (i as usize / 9, (i % 9) as u8 + 1);
            let (a, c, e) = (p / 6561, p / 81 % 81, p % 81);
            if a < c && c < e {
                let mut b = [0u8; 81];
                b[a] = d;
                b[c] = d;
                b[e] = d;
                if a % 3 == d as usize % 3 {
                    run(w, &b, 3)
                }
            }
        });
    }
}

/// The i-th permutation of 0..n.
fn permutation(mut i: usize, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    (0..n)
        .map(|_| {
            let k = i % rest.len();
            i /= rest.len();
            rest.remove(k)
        })
        .collect()
}

fn blank(b: &mut Board, unit: usize) {
    for (c, v) in b.iter_mut().enumerate() {
        let (r, q, s) = unit_of(c);
        if [r, q, s][unit / 9] == unit % 9 {
            *v = 0;
        }
    }
}

/// Board in which `cell` has no candidate: eight digits in its row, box or column, the ninth elsewhere
/// among its peers.
fn dead_cell(i: usize) -> Option<Board> {
    let (cell, last, place) = (i / 180, (i / 20 % 9) as u8 + 1, i % 20);
    let (r, q, _) = unit_of(cell);
    let peers: Vec<usize> = (0..81)
        .filter(|&c| {
            let (a, b, k) = unit_of(c);
            c != cell && (a == r || b == q || k == unit_of(cell).2)
        })
        .collect();
    let p = *peers.get(place)?;
    let mut b = [0u8; 81];
    b[p] = last;
    let mut rest: Vec<u8> = (1..=9).filter(|&d| d != last).collect();
    // fill the unit of the cell that does not contain p with the other eight digits
    let (pr, pq, pk) = unit_of(p);
    let t = if pr != r {
        0
    } else if pq != q {
        1
    } else {
        2
    };
    let u = [r, q, unit_of(cell).2][t];
    let mut slots: Vec<usize> = peers.iter().copied().filter(|&c| [unit_of(c).0, unit_of(c).1, unit_of(c).2][t] == u).collect();
    if [pr, pq, pk][t] == u {
        return None;
    }
    // rotate for variety of placement
    slots.rotate_left(i % 8);
    for c in slots {
        b[c] = rest.pop()?;
    }
    Ref::new(&b)?;
    Some(b)
}

/// Board in which a digit can go nowhere in a unit: cells of the unit filled with other digits or seen by
/// a clue of that digit.
fn dead_digit(i: usize) -> Option<Board> {
    let (unit, d, variant) = (i / 36, (i / 4 % 9) as u8 + 1, i % 4);
    let mut b = [0u8; 81];
    let cells: Vec<usize> = (0..81).filter(|&c| [unit_of(c).0, unit_of(c).1, unit_of(c).2][unit / 9] == unit % 9).collect();
    let others: Vec<u8> = (1..=9).filter(|&v| v != d).collect();
    let filled = variant * 2;
    for (k, &c) in cells.iter().enumerate().take(filled) {
        b[c] = others[k];
    }
    // exclude d from the remaining cells of the unit by clues outside the unit
    for &c in &cells[filled..] {
        let seen = |b: &Board| {
            let (r, q, s) = unit_of(c);
            (0..81).any(|e| b[e] == d && (unit_of(e).0 == r || unit_of(e).1 == q || unit_of(e).2 == s))
        };
        if seen(&b) {
            continue;
        }
        let (r, q, s) = unit_of(c);
        let spot = (0..81).find(|&e| {
            b[e] == 0 && !cells.contains(&e) && (unit_of(e).0 == r || unit_of(e).1 == q || unit_of(e).2 == s) && {
                b[e] = d;
                let ok = Ref::new(&b).is_some();
                b[e] = 0;
                ok
            }
        })?;
        b[spot] = d;
    }
    Ref::new(&b)?;
    Some(b)
}

// ------------------------------------------------------------------ C01, C02, C03

pub struct C01;
impl Prop for C01 {
    fn hang_s(&self) -> u64 {
        30
    }
    fn id(&self) -> &'static str {
        "C01"
    }
    fn bounds(&self, _t: Tier) -> String {
        "boards as states, setting a cell as transition: all boards with at most 2 clues, neighbourhoods of unique puzzles and of complete grids, unit-subset and prefix boards, reordered rows and columns, dead cells/digits, 19 boards needing up to 372,000 search choices with their clues altered".into()
    }
    fn explore(&self, x: &Explorer) {
        explore_boards(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        engine::guard::track(true);
        let r = sut(|| solve_sudoku(case));
        engine::guard::track(false);
        engine::guard::flush();
        engine::guard::take_error();
        match r {
            Ok(Ok(ans)) => match valid_completion(case, &ans) {
                Ok(()) => ok("solved", fnv(&ans)),
                Err(m) => bad(m),
            },
            Ok(Err(_)) => ok("refused", 1),
            Err(_) => ok("panicked (not this property)", 2),
        }
    }
}

pub struct C02;
impl Prop for C02 {
    fn hang_s(&self) -> u64 {
        30
    }
    fn id(&self) -> &'static str {
        "C02"
    }
    fn bounds(&self, t: Tier) -> String {
        C01.bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        explore_boards(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        engine::guard::track(true);
        let r = call("solve_sudoku", || solve_sudoku(case));
        engine::guard::track(false);
        engine::guard::flush();
        engine::guard::take_error();
        let r = r?;
        let exists = solvable(case);
        match (r, exists) {
            (Ok(a), true) => ok("solved", fnv(&a)),
            (Err(SudokuError::NoSolution), false) => ok("no solution, rightly", 1),
            (Ok(a), false) => bad(format!("an answer was returned for a board without completion: {a:?}")),
            (Err(e), true) => bad(format!("'{e}' for a board that has a completion")),
            (Err(e), false) => bad(format!("a board without completion was refused with '{e}' instead of 'no solution'")),
        }
    }
}

pub struct C03;
impl Prop for C03 {
    fn hang_s(&self) -> u64 {
        30
    }
    fn id(&self) -> &'static str {
        "C03"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("all lengths 0..=200 and some large; every byte value at every position of three boards; every pair of equal clues in one unit, every triple of equal clues ({}), every conflicting pair with a third clue; whole boards with many conflicts; every execution under the guard allocator", if t == Tier::Quick { "one digit per triple" } else { "every digit" })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["memory misuse is observed through the process allocator (every node is a heap block); aliasing rules without effect on memory are not judged".into()]
    }
    fn explore(&self, x: &Explorer) {
        x.par("every length 0..=200 (and six large ones), four fill patterns", 207 * 4, |w, i| {
            let n = [0usize, 1000, 6561, 729, 8100, 59049, 161][..].get((i as usize / 4).saturating_sub(200)).copied().filter(|_| i / 4 > 200).unwrap_or(i as usize / 4);
            let v: Vec<u8> = (0..n).map(|k| match i % 4 { 0 => 0, 1 => 1, 2 => 255, _ => (k % 10) as u8 }).collect();
            run(w, &v, 1)
        });
        let boards: [Board; 3] = [[0; 81], unique_puzzles()[0], bases()[0]];
        for (k, g) in boards.iter().enumerate() {
            x.par(&format!("board {k}: every byte value at every position"), 81 * 256, |w, i| {
                let mut b = *g;
                b[i as usize / 256] = (i % 256) as u8;
                run(w, &b, 1)
            });
        }
        x.par("two values above 9 at every pair of positions", 81 * 81 * 3, |w, i| {
            let (p, k) = (i as usize / 3, i as usize % 3);
            let mut b = [0u8; 81];
            if p / 81 < p % 81 {
                b[p / 81] = [10, 19, 255][k];
                b[p % 81] = [1, 10, 90][k];
                run(w, &b, 2)
            }
        });
        let share = |a: usize, c: usize| {
            let (p, q) = (unit_of(a), unit_of(c));
            p.0 == q.0 || p.1 == q.1 || p.2 == q.2
        };
        x.par("every two equal clues in one unit", 81 * 81 * 9, |w, i| {
            let (a, c, d) = (i as usize / 729, i as usize / 9 % 81, (i % 9) as u8 + 1);
            if a < c && share(a, c) {
                let mut b = [0u8; 81];
                b[a] = d;
                b[c] = d;
                run(w, &b, 2)
            }
        });
        let digits = x.pick(1, 9);
        x.par("three equal clues, some two of them in one unit", 81 * 81 * 81 * digits, |w, i| {
            let (p, k) = (i / digits, i % digits);
            let (a, c, e) = (p as usize / 6561, p as usize / 81 % 81, p as usize % 81);
            if a < c && c < e && (share(a, c) || share(a, e) || share(c, e)) {
                let d = if digits == 9 { k as u8 + 1 } else { ((a + c + e) % 9) as u8 + 1 };
                let mut b = [0u8; 81];
                b[a] = d;
                b[c] = d;
                b[e] = d;
                run(w, &b, 3)
            }
        });
        let kinds = x.pick(1, 8);
        x.par("two equal clues in one unit with a third clue of another digit anywhere", 81 * 81 * 81 * kinds, |w, i| {
            let (p, k) = (i / kinds, (i % kinds) as usize);
            let (a, c, e) = (p as usize / 6561, p as usize / 81 % 81, p as usize % 81);
            if a < c && share(a, c) && e != a && e != c {
                let d = (a + e) % 9;
                let o = if kinds == 8 { (d + 1 + k) % 9 } else { (d + 1 + (c + e) % 8) % 9 };
                let mut b = [0u8; 81];
                b[a] = d as u8 + 1;
                b[c] = d as u8 + 1;
                b[e] = o as u8 + 1;
                run(w, &b, 3)
            }
        });
        x.par("complete grids with one cell altered", 3 * 729, |w, i| {
            let mut b = bases()[i as usize / 729];
            let i = i as usize % 729;
            b[i / 9] = (i % 9) as u8 + 1;
            run(w, &b, 1)
        });
        x.par("all cells equal; rows, columns, boxes constant; every subset of cells of one unit equal", 10 + 27 + 27 * 512, |w, i| {
            let mut b = [0u8; 81];
            let i = i as usize;
            if i < 10 {
                b = [i as u8; 81];
            } else if i < 37 {
                let t = (i - 10) / 9;
                for (c, v) in b.iter_mut().enumerate() {
                    let u = unit_of(c);
                    *v = (([u.0, u.1, u.2][t] + i) % 9) as u8 + 1;
                }
            } else {
                let (u, m) = ((i - 37) / 512, (i - 37) % 512);
                let mut k = 0;
                for (c, v) in b.iter_mut().enumerate() {
                    let q = unit_of(c);
                    if [q.0, q.1, q.2][u / 9] == u % 9 {
                        if m >> k & 1 == 1 {
                            *v = (u % 9) as u8 + 1;
                        }
                        k += 1;
                    }
                }
            }
            run(w, &b, b.iter().filter(|&&v| v != 0).count() as u64)
        });
        if !x.quick() {
            x.par("complete grid with every two cells altered to one wrong digit each", 81 * 81 * 64, |w, i| {
                let (p, d) = (i as usize / 64, i as usize % 64);
                if p / 81 < p % 81 {
                    let mut b = bases()[1];
                    b[p / 81] = (b[p / 81] as usize + d / 8) as u8 % 9 + 1;
                    b[p % 81] = (b[p % 81] as usize + d % 8) as u8 % 9 + 1;
                    run(w, &b, 2)
                }
            });
        }
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let r = call_mem("solve_sudoku", || solve_sudoku(case))?;
        if case.len() != 81 {
            return match r {
                Err(SudokuError::InvalidSize(n)) if n == case.len() => ok("wrong size refused", n as u64),
                other => bad(format!("{} entries: got {other:?} instead of the size error with {}", case.len(), case.len())),
            };
        }
        if direct_conflict(case) {
            return match r {
                Err(e) => ok("contradiction refused", fnv(e.to_string().as_bytes())),
                Ok(a) => bad(format!("a contradictory or malformed board was answered with {a:?}")),
            };
        }
        match r {
            Ok(_) => ok("no direct contradiction: answered", 1),
            Err(_) => ok("no direct contradiction: refused", 2),
        }
    }
}

// ------------------------------------------------------------------ C04

pub struct C04;

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every Unicode scalar value at {} positions of a valid text; every ASCII byte at every position; two faults at every pair of positions; every string over 12 characters up to length {}; every length 0..=200", if t == Tier::Quick { 3 } else { 6 }, if t == Tier::Quick { 4 } else { 6 })
    }
    fn describe(&self, case: &[u8]) -> String {
        format!("text {:?}", String::from_utf8_lossy(case))
    }
    fn explore(&self, x: &Explorer) {
        let alpha: Vec<char> = "019a. \n-+\u{661}\u{ff11}x".chars().collect();
        let k = alpha.len() as u64;
        for len in 0..=x.pick(4u32, 6) {
            x.par(&format!("every string of length {len} over {:?}", alpha.iter().collect::<String>()), k.pow(len), |w, mut i| {
                let mut s = String::new();
                for _ in 0..len {
                    s.push(alpha[(i % k) as usize]);
                    i /= k;
                }
                w.state();
                w.transition();
                w.exec(s.as_bytes());
            });
        }
        x.par("digit strings of every length 0..=200, ten patterns", 201 * 10, |w, i| {
            let s: String = (0..i / 10).map(|j| (b'0' + ((j * j + j / 9 + i) % 10) as u8) as char).collect();
            w.state();
            w.transition();
            w.exec(s.as_bytes());
        });
        let base: Vec<char> = (0..81).map(|i| (b'0' + ((i * 7 + i / 9) % 10) as u8) as char).collect();
        x.par("every ASCII character at every position", 128 * 81, |w, i| {
            let mut s = base.clone();
            s[i as usize % 81] = (i / 81) as u8 as char;
            w.state();
            w.transition();
            w.exec(s.iter().collect::<String>().as_bytes());
        });
        let pos: &[usize] = x.pick(&[0, 40, 80], &[0, 1, 9, 40, 79, 80]);
        x.par("every Unicode scalar value at selected positions", 0x11_0000 * pos.len() as u64, |w, i| {
            if let Some(c) = char::from_u32((i % 0x11_0000) as u32) {
                let mut s = base.clone();
                s[pos[(i / 0x11_0000) as usize]] = c;
                w.state();
                w.transition();
                w.exec(s.iter().collect::<String>().as_bytes());
            }
        });
        let f = ['x', 'y', '.', '\u{661}'];
        x.par("two faults at every pair of positions, inserted characters, removed characters", 81 * 81 * 16, |w, i| {
            let (p, k) = (i as usize / 16, i as usize % 16);
            let mut s = base.clone();
            let (a, c) = (p / 81, p % 81);
            s[a] = f[k / 4];
            if k % 4 == 3 {
                s.remove(c);
            } else if k % 4 == 2 {
                s.insert(c, f[k / 4]);
            } else {
                s[c] = f[k % 4];
            }
            w.state();
            w.stats.transitions += 2;
            w.exec(s.iter().collect::<String>().as_bytes());
        });
        x.par("each position takes each digit while the others stay", 81 * 10, |w, i| {
            let mut s = base.clone();
            s[i as usize / 10] = (b'0' + (i % 10) as u8) as char;
            w.state();
            w.transition();
            w.exec(s.iter().collect::<String>().as_bytes());
        });
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let s = std::str::from_utf8(case).map_err(|e| Bad::Harness(e.to_string()))?;
        let r = call("parse_sudoku", || parse_sudoku(s))?;
        let n = s.chars().count();
        let wrong = s.chars().find(|c| !c.is_ascii_digit());
        match (wrong, r) {
            (Some(c), Err(SudokuError::InvalidInteger(d))) if c == d => ok("invalid character named", c as u64),
            (Some(c), r) => bad(format!("got {r:?}, expected the invalid character {c:?} to be named")),
            (None, Err(SudokuError::InvalidSize(m))) if n != 81 && m == n => ok("wrong size", n as u64),
            (None, Ok(v)) if n == 81 && v.len() == 81 && v.iter().zip(s.bytes()).all(|(a, b)| *a == b - b'0') => ok("parsed", fnv(&v)),
            (None, r) => bad(format!("got {r:?} for {n} digits")),
        }
    }
}

// ------------------------------------------------------------------ C05

/// The picture the specification asks for.
fn sudoku_picture(board: &[u8]) -> RgbImage {
    static GRID: OnceLock<RgbImage> = OnceLock::new();
    static GLYPH: OnceLock<Vec<Vec<(u32, u32, Rgb<u8>)>>> = OnceLock::new();
    let grid = GRID.get_or_init(|| {
        RgbImage::from_fn(900, 900, |x, y| {
            let line = |t: u32| t % 100 == 0 || [299, 301, 599, 601].contains(&t);
            if line(x) || line(y) {
                BLACK
            } else {
                WHITE
            }
        })
    });
    // each digit's pixels relative to its cell, taken once on a white canvas
    let glyph = GLYPH.get_or_init(|| {
        (0..10)
            .map(|d| {
                let mut im = RgbImage::from_pixel(100, 140, WHITE);
                imageproc::drawing::draw_text_mut(&mut im, BLACK, 25, 5, 100.0, font(), &d.to_string());
                im.enumerate_pixels().filter(|(_, _, p)| **p != WHITE).map(|(x, y, p)| (x, y, *p)).collect()
            })
            .collect()
    });
    let mut im = grid.clone();
    for (i, &v) in board.iter().enumerate() {
        if v != 0 {
            for &(x, y, p) in &glyph[v as usize] {
                im.put_pixel((i % 9) as u32 * 100 + x, (i / 9) as u32 * 100 + y, p);
            }
        }
    }
    im
}

pub struct C05;
impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn bounds(&self, _t: Tier) -> String {
        "every digit at every position alone; constant boards; unit-subset boards of complete grids; every pair of digits in neighbouring cells; every pair of cells with two digits (quick: nine of the 81 digit pairs each); triples of cells in a line (thorough: every triple of cells with one digit); contradictory boards; every length 0..=200".into()
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
    fn explore(&self, x: &Explorer) {
        x.par("every digit at every position alone, and the empty board", 1 + 729, |w, i| {
            let mut b = [0u8; 81];
            if i > 0 {
                b[(i as usize - 1) / 9] = ((i - 1) % 9) as u8 + 1;
            }
            run(w, &b, 1)
        });
        x.par("constant boards; unique puzzles; complete grids", 10 + 9 + 11, |w, i| {
            let i = i as usize;
            let b = if i < 10 {
                [i as u8; 81]
            } else if i < 19 {
                *unique_puzzles().get(i - 10).unwrap_or(&[0; 81])
            } else {
                *bases().get(i - 19).unwrap_or(&[0; 81])
            };
            run(w, &b, b.iter().filter(|&&v| v != 0).count() as u64)
        });
        x.par("complete grid with every subset of rows / columns / boxes / digits", 4 * 512, |w, i| {
            let (t, m) = (i as usize / 512, i as usize % 512);
            let g = bases()[1];
            let mut b = g;
            for c in 0..81 {
                let (r, q, s) = unit_of(c);
                if m >> [r, q, s, g[c] as usize - 1][t] & 1 == 0 {
                    b[c] = 0;
                }
            }
            run(w, &b, b.iter().filter(|&&v| v != 0).count() as u64)
        });
        x.par("every pair of digits in horizontally or vertically neighbouring cells", 81 * 2 * 81, |w, i| {
            let i = i as usize;
            let (c, t, d) = (i / 162, i / 81 % 2, i % 81);
            let o = if t == 0 { c + 1 } else { c + 9 };
            if o < 81 {
                let mut b = [0u8; 81];
                b[c] = (d / 9) as u8 + 1;
                b[o] = (d % 9) as u8 + 1;
                run(w, &b, 2)
            }
        });
        let kinds: u64 = x.pick(9, 81);
        x.par(&format!("every two cells, {kinds} pairs of digits"), 81 * 81 * kinds, |w, i| {
            let (p, d) = ((i / kinds) as usize, (i % kinds) as usize);
            let (a, c) = (p / 81, p % 81);
            if a < c {
                // quick: the pairs differ by one fixed amount per pair of cells, equal for a third of them
                let (d, e) = if kinds == 81 { (d / 9, d % 9) } else { (d, if (a + c) % 3 == 0 { d } else { (d + a + c / 9) % 9 }) };
                let mut b = [0u8; 81];
                b[a] = d as u8 + 1;
                b[c] = e as u8 + 1;
                run(w, &b, 2)
            }
        });
        x.par("every three cells of a row or column, digits equal, two equal, or all different", 2 * 9 * 729 * 5, |w, i| {
            let i = i as usize;
            let (how, t, line, q) = (i % 5, i / 5 % 2, i / 10 % 9, i / 90);
            let (a, c, e) = (q / 81, q / 9 % 9, q % 9);
            if a < c && c < e {
                let mut b = [0u8; 81];
                let d = (i / 7) % 9;
                let kinds = [[0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 2]][how];
                for (k, u) in kinds.iter().zip([a, c, e]) {
                    b[if t == 0 { line * 9 + u } else { u * 9 + line }] = ((d + k * 4) % 9) as u8 + 1;
                }
                run(w, &b, 3)
            }
        });
        if !x.quick() {
            x.par("every three cells holding the same digit", 81 * 81 * 81 * 9, |w, i| {
                let (i, d) = ((i / 9) as usize, (i % 9) as u8 + 1);
                let (a, c, e) = (i / 6561, i / 81 % 81, i % 81);
                if a < c && c < e {
                    let mut b = [0u8; 81];
                    for t in [a, c, e] {
                        b[t] = d;
                    }
                    run(w, &b, 3)
                }
            });
        }
        x.par("every length 0..=200 other than 81", 201 * 2, |w, i| {
            if i / 2 != 81 {
                let v = vec![if i % 2 == 0 { 0u8 } else { 5 }; i as usize / 2];
                run(w, &v, 1)
            }
        });
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let r = call("print_sudoku", || print_sudoku(case))?;
        match r {
            Err(SudokuError::InvalidSize(n)) if case.len() != 81 && n == case.len() => ok("wrong size", n as u64),
            Ok(im) if case.len() == 81 => match first_difference(&im, &sudoku_picture(case)) {
                None => ok("picture as specified", fnv(case)),
                Some(d) => bad(d),
            },
            Ok(_) => bad(format!("{} entries were drawn", case.len())),
            Err(e) => bad(format!("{} entries were refused with '{e}'", case.len())),
        }
    }
}
