//! C08, C09, C11, C12, C13, C26: nonograms.
use crate::pixels::*;
use engine::*;
use image::{Rgb, RgbImage};
use puzzle_utils::{parse_nonogram_rules, parse_sudoku, print_nonogram, print_nonogram_solution, print_sudoku, solve_nonogram, solve_sudoku, NonogramError, SudokuError};
use std::collections::HashSet;

pub type Clues = Vec<Vec<usize>>;

// ------------------------------------------------------------------ reference model

/// Lengths of the maximal filled runs.
pub fn runs(line: impl Iterator<Item = bool>) -> Vec<usize> {
    let mut v = vec![];
    let mut n = 0;
    for b in line {
        if b {
            n += 1;
        } else if n > 0 {
            v.push(n);
            n = 0;
        }
    }
    if n > 0 {
        v.push(n);
    }
    v
}

fn plain(clue: &[usize]) -> Vec<usize> {
    clue.iter().copied().filter(|&v| v > 0).collect()
}

/// Clues of a grid given as row-major bools.
pub fn clues_of(w: usize, h: usize, g: impl Fn(usize, usize) -> bool) -> (Clues, Clues) {
    ((0..w).map(|x| runs((0..h).map(|y| g(x, y)))).collect(), (0..h).map(|y| runs((0..w).map(|x| g(x, y)))).collect())
}

/// All 0/1 lines of length n with the given runs, as bit masks (bit x = square x).
fn lines(n: usize, clue: &[usize]) -> Vec<u32> {
    fn go(n: usize, from: usize, clue: &[usize], acc: u32, out: &mut Vec<u32>) {
        let Some((&first, rest)) = clue.split_first() else {
            out.push(acc);
            return;
        };
        let mut at = from;
        while at.checked_add(first).is_some_and(|e| e <= n) {
            go(n, at + first + 1, rest, acc | ((1u32 << first) - 1) << at, out);
            at += 1;
        }
    }
    let mut v = vec![];
    go(n, 0, clue, 0, &mut v);
    v
}

/// Is there a filling? Rows are placed top to bottom, columns tracked as (runs finished, current run).
pub fn solvable(col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
    let (w, h) = (col.len(), row.len());
    if w == 1 || h == 1 {
        // the lines across hold one square each: they are the filling
        let (long, across) = if h == 1 { (&row[0], col) } else { (&col[0], row) };
        let across: Clues = across.iter().map(|c| plain(c)).collect();
        return across.iter().all(|c| c.is_empty() || *c == [1]) && runs(across.iter().map(|c| !c.is_empty())) == plain(long);
    }
    if w > 20 {
        return solvable(row, col);
    }
    assert!(w <= 20);
    let col: Vec<Vec<usize>> = col.iter().map(|c| plain(c)).collect();
    let row: Vec<Vec<usize>> = row.iter().map(|c| plain(c)).collect();
    let fits = |c: &Vec<usize>, n: usize| c.iter().fold(0u128, |a, &v| a + v as u128 + 1) <= n as u128 + 1;
    if !col.iter().all(|c| fits(c, h)) || !row.iter().all(|c| fits(c, w)) {
        return false;
    }
    let opts: Vec<Vec<u32>> = row.iter().map(|r| lines(w, r)).collect();
    let mut dead: HashSet<(usize, Vec<(u16, u16)>)> = HashSet::new();
    fn go(y: usize, st: &[(u16, u16)], col: &[Vec<usize>], opts: &[Vec<u32>], dead: &mut HashSet<(usize, Vec<(u16, u16)>)>) -> bool {
        let h = opts.len();
        if y == h {
            return st.iter().zip(col).all(|(&(done, run), c)| if run > 0 { done as usize + 1 == c.len() && c[done as usize] == run as usize } else { done as usize == c.len() });
        }
        if dead.contains(&(y, st.to_vec())) {
            return false;
        }
        'opt: for &m in &opts[y] {
            let mut next = st.to_vec();
            for (x, s) in next.iter_mut().enumerate() {
                let c = &col[x];
                if m >> x & 1 == 1 {
                    s.1 += 1;
                    if s.0 as usize >= c.len() || s.1 as usize > c[s.0 as usize] {
                        continue 'opt;
                    }
                } else if s.1 > 0 {
                    if c[s.0 as usize] != s.1 as usize {
                        continue 'opt;
                    }
                    *s = (s.0 + 1, 0);
                }
                // room for the rest
                let mut need = 0;
                for k in s.0 as usize..c.len() {
                    need += c[k] + (need > 0) as usize;
                }
                if need - (s.1 as usize).min(need) > h - y - 1 {
                    continue 'opt;
                }
            }
            if go(y + 1, &next, col, opts, dead) {
                return true;
            }
        }
        dead.insert((y, st.to_vec()));
        false
    }
    go(0, &vec![(0, 0); w], &col, &opts, &mut dead)
}

fn satisfies(col: &[Vec<usize>], row: &[Vec<usize>], a: &[bool]) -> Result<(), String> {
    let (w, h) = (col.len(), row.len());
    if a.len() != w * h {
        return Err(format!("the answer has {} squares instead of {}", a.len(), w * h));
    }
    for (x, c) in col.iter().enumerate() {
        let r = runs((0..h).map(|y| a[y * w + x]));
        if r != plain(c) {
            return Err(format!("column {x} has the runs {r:?}, its clue is {c:?}"));
        }
    }
    for (y, c) in row.iter().enumerate() {
        let r = runs((0..w).map(|x| a[y * w + x]));
        if r != plain(c) {
            return Err(format!("row {y} has the runs {r:?}, its clue is {c:?}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ cases

/// kind 0: existence by the reference; 1: known to have an answer
fn encode(kind: u8, col: &[Vec<usize>], row: &[Vec<usize>]) -> Vec<u8> {
    let mut v = vec![kind];
    v.extend((col.len() as u16).to_le_bytes());
    v.extend((row.len() as u16).to_le_bytes());
    for l in col.iter().chain(row) {
        v.extend((l.len() as u16).to_le_bytes());
        for &n in l {
            if n < 250 {
                v.push(n as u8);
            } else {
                v.push(250);
                v.extend_from_slice(&(n as u64).to_le_bytes());
            }
        }
    }
    v
}

fn decode(case: &[u8]) -> (u8, Clues, Clues) {
    let u = |i: usize| u16::from_le_bytes([case[i], case[i + 1]]) as usize;
    let (k, w, h) = (case[0], u(1), u(3));
    let mut i = 5;
    let mut all: Clues = vec![];
    for _ in 0..w + h {
        let n = u(i);
        i += 2;
        let mut l = vec![];
        for _ in 0..n {
            if case[i] == 250 {
                l.push(u64::from_le_bytes(case[i + 1..i + 9].try_into().unwrap()) as usize);
                i += 9;
            } else {
                l.push(case[i] as usize);
                i += 1;
            }
        }
        all.push(l);
    }
    let row = all.split_off(w);
    (k, all, row)
}

fn describe_clues(case: &[u8]) -> String {
    let (_, c, r) = decode(case);
    format!("columns {c:?} rows {r:?}")
}

/// Every clue that fits a line of n squares.
fn fitting(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..1u32 << n).map(|m| runs((0..n).map(|i| m >> i & 1 == 1))).collect();
    v.sort();
    v.dedup();
    v
}

fn extended(n: usize) -> Vec<Vec<usize>> {
    let mut v = fitting(n);
    v.extend([vec![0], vec![0, 0], vec![0, 1], vec![1, 0], vec![n, 0], vec![n + 1], vec![1, n], vec![n, 1], vec![usize::MAX], vec![1, usize::MAX], vec![usize::MAX, usize::MAX, 2], vec![0, n, 0], vec![1; n]]);
    if n >= 3 {
        v.extend([vec![1, 0, 1], vec![n - 2, 1, 0]]);
    }
    v.sort();
    v.dedup();
    v
}

fn pattern(k: usize, w: usize, h: usize, x: usize, y: usize) -> bool {
    let (fx, fy, fw, fh) = (x as i64, y as i64, w as i64, h as i64);
    let hash = (mix((x * 977 + y * 131_071 + k * 7919) as u64) >> 11) % 100;
    match k {
        0 => true,
        1 => false,
        2 => x % 2 == 0,
        3 => y % 2 == 0,
        4 => (x + y) % 2 == 0,
        5 => x == 0 || y == 0 || x + 1 == w || y + 1 == h,
        6 => x * h == y * w || x == y,
        7 => (fx * 2 - fw).pow(2) * fh * fh + (fy * 2 - fh).pow(2) * fw * fw <= fw * fw * fh * fh,
        8 => x <= y,
        9 => (x / 2 + y / 3) % 2 == 0,
        10 => x % 5 != 4 && y % 4 != 3,
        11 => x + y >= w.min(h),
        12 => x % 3 != 0 || y % 3 == 0,
        13 => (x * y) % 3 != 1,
        14 => y == h / 2 || x == w / 2,
        15 => x + 1 == w,
        16 => y + 1 == h,
        17 => hash < 85,
        18 => hash < 78,
        19 => hash < 70,
        20 => hash < 65,
        21 => hash < 60,
        22 => hash < 92,
        _ => hash < 75,
    }
}

fn count(w: &mut Worker, col: &[Vec<usize>], row: &[Vec<usize>]) {
    w.state();
    w.stats.transitions += col.iter().chain(row).map(|c| c.len() as u64).sum::<u64>();
}

fn all_assignments(x: &Explorer, w: usize, h: usize, ca: &[Vec<usize>], ra: &[Vec<usize>], what: &str) {
    let (a, b) = (ca.len() as u64, ra.len() as u64);
    x.par(&format!("{w}x{h}: every assignment of {what} clues"), a.pow(w as u32) * b.pow(h as u32), |wk, mut i| {
        let mut col = vec![];
        let mut row = vec![];
        for _ in 0..w {
            col.push(ca[(i % a) as usize].clone());
            i /= a;
        }
        for _ in 0..h {
            row.push(ra[(i % b) as usize].clone());
            i /= b;
        }
        count(wk, &col, &row);
        wk.exec(&encode(0, &col, &row));
    });
}

fn all_grids(x: &Explorer, w: usize, h: usize) {
    x.par(&format!("{w}x{h}: the clues of every grid"), 1 << (w * h), |wk, i| {
        let (col, row) = clues_of(w, h, |x, y| i >> (y * w + x) & 1 == 1);
        count(wk, &col, &row);
        wk.exec(&encode(1, &col, &row));
    });
}

fn explore_clues(x: &Explorer) {
    let limit = x.pick(450_000f64, 2.0e7);
    for s in 2..=9usize {
        for w in 1..s {
            let h = s - w;
            let (c, r) = (fitting(h), fitting(w));
            if (c.len() as f64).powi(w as i32) * (r.len() as f64).powi(h as i32) <= limit {
                all_assignments(x, w, h, &c, &r, "fitting");
            }
            let (c, r) = (extended(h), extended(w));
            if (c.len() as f64).powi(w as i32) * (r.len() as f64).powi(h as i32) <= limit {
                all_assignments(x, w, h, &c, &r, "fitting, zero, oversize and huge");
            }
        }
    }
    x.par("no columns, no rows, neither", 8 * 8 * 3, |wk, i| {
        let some = [vec![], vec![0], vec![1], vec![2], vec![usize::MAX], vec![1, 1], vec![0, 3], vec![5]];
        let l: Clues = vec![some[(i % 8) as usize].clone(); (i / 8 % 8) as usize];
        let (c, r) = match i / 64 {
            0 => (l, vec![]),
            1 => (vec![], l),
            _ => (vec![], vec![]),
        };
        wk.state();
        wk.transition();
        wk.exec(&encode(0, &c, &r));
    });
    for s in 2..=22usize {
        for w in 1..s {
            let h = s - w;
            let n = w * h;
            if n <= 14 || (n <= x.pick(16, 20) && w.min(h) <= 4) || (w, h) == (4, 5) || (w, h) == (5, 4) || (!x.quick() && [(3, 7), (7, 3), (5, 5), (11, 2), (2, 11)].contains(&(w, h))) {
                all_grids(x, w, h);
            }
        }
    }
    // one clue for all columns, one for all rows (many answers, or none)
    for n in 3..=x.pick(6usize, 7) {
        for m in 3..=x.pick(6usize, 7) {
            let (c, r) = (extended(m), extended(n));
            x.par(&format!("{n}x{m}: one clue for every column, one for every row"), (c.len() * r.len()) as u64, |wk, i| {
                let col = vec![c[i as usize % c.len()].clone(); n];
                let row = vec![r[i as usize / c.len()].clone(); m];
                count(wk, &col, &row);
                wk.exec(&encode(0, &col, &row));
            });
            x.par(&format!("{n}x{m}: alternating clues"), (c.len() * r.len() * 4) as u64, |wk, i| {
                let k = i as usize / 4;
                let (a, b) = (k % c.len(), k / c.len());
                let col: Clues = (0..n).map(|j| if j % 2 == 0 { c[a].clone() } else { c[(a * 3 + i as usize % 4) % c.len()].clone() }).collect();
                let row: Clues = (0..m).map(|j| if j % 2 == 1 { r[b].clone() } else { r[(b * 5 + 1) % r.len()].clone() }).collect();
                count(wk, &col, &row);
                wk.exec(&encode(0, &col, &row));
            });
        }
    }
    // neighbours of solvable puzzles
    let mut shapes = vec![];
    for w in 3..=x.pick(6usize, 7) {
        for h in 3..=x.pick(6usize, 7) {
            shapes.push((w, h));
        }
    }
    x.par_chunk("clues of structured grids, one clue number changed, removed, added or two lines exchanged", shapes.len() as u64 * 64, 1, |wk, i| {
        let (w, h) = shapes[i as usize / 64];
        let k = i as usize % 64;
        let (col, row) = clues_of(w, h, |x, y| if k < 17 { pattern(k, w, h, x, y) } else { (mix((x * 31 + y * 1009 + k * 7) as u64) >> 9) % 16 < 5 + (k % 9) as u64 });
        for t in 0..w + h {
            let line = |c: &Clues, r: &Clues| if t < w { c[t].clone() } else { r[t - w].clone() };
            let old = line(&col, &row);
            let mut variants: Clues = vec![];
            for j in 0..old.len() {
                let mut v = old.clone();
                v[j] += 1;
                variants.push(v.clone());
                v[j] -= 2;
                variants.push(v.clone());
                v.remove(j);
                variants.push(v.clone());
                v.insert(j, 0);
                variants.push(v);
                let mut v = old.clone();
                v.insert(j, 1);
                variants.push(v);
                let mut v = old.clone();
                v.insert(j, 0);
                variants.push(v);
            }
            let mut v = old.clone();
            v.push(1);
            variants.push(v);
            let n = if t < w { w } else { h };
            for u in (if t < w { t + 1 } else { t - w + 1 })..n {
                let (mut c, mut r) = (col.clone(), row.clone());
                if t < w {
                    c.swap(t, u);
                } else {
                    r.swap(t - w, u);
                }
                count(wk, &c, &r);
                wk.exec(&encode(0, &c, &r));
            }
            for v in variants {
                let (mut c, mut r) = (col.clone(), row.clone());
                if t < w {
                    c[t] = v;
                } else {
                    r[t - w] = v;
                }
                count(wk, &c, &r);
                wk.exec(&encode(0, &c, &r));
            }
        }
    });
    let mut big = vec![];
    for w in [1usize, 2, 3, 5, 8, 10, 12, 15, 16, 20, 25] {
        for h in [1usize, 2, 4, 5, 7, 10, 13, 15, 18, 20, 25] {
            big.push((w, h));
        }
    }
    x.par_chunk("larger rectangles, 17 drawn patterns and dense irregular ones", big.len() as u64 * 24, 1, |wk, i| {
        let (w, h) = big[i as usize / 24];
        let k = i as usize % 24;
        if k > 16 && w * h > x.pick(100, 169) {
            return;
        }
        let (col, row) = clues_of(w, h, |x, y| pattern(k, w, h, x, y));
        count(wk, &col, &row);
        wk.exec(&encode(1, &col, &row));
    });
    x.par_chunk("single rows and columns to 60 squares", 60 * 2 * 40, 4, |wk, i| {
        let (n, t, k) = (i as usize / 80 + 1, i / 40 % 2, i % 40);
        let f = |j: usize| (mix(j as u64 * 37 + k * 1001) >> 5) % 10 < k % 11;
        let (col, row) = if t == 0 { clues_of(n, 1, |x, _| f(x)) } else { clues_of(1, n, |_, y| f(y)) };
        count(wk, &col, &row);
        wk.exec(&encode(1, &col, &row));
    });
    long_boards(x);
}

fn long_boards(x: &Explorer) {
    let quick = x.quick();
    let lens: Vec<usize> = [31, 32, 33, 61, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300].into_iter().chain(if x.quick() { vec![] } else { vec![399, 511, 512, 513, 600] }).collect();
    x.par_chunk("long boards of one to three lines, 17 drawn and 7 irregular patterns, unaltered and with one number changed, added, removed or two lines exchanged", lens.len() as u64 * 6 * 24, 1, |wk, i| {
        let (n, across, t, k) = (lens[i as usize / 144], i as usize / 48 % 3 + 1, i / 24 % 2, i as usize % 24);
        let (w, h) = if t == 0 { (n, across) } else { (across, n) };
        let (col, row) = clues_of(w, h, |x, y| pattern(k, w, h, x, y));
        count(wk, &col, &row);
        wk.exec(&encode(1, &col, &row));
        if quick && (across == 2 && n > 130 && k % 3 != 0 || across == 3 && n > 66 && k % 6 != 0) {
            return;
        }
        for v in 0..10 {
            let (mut c, mut r) = (col.clone(), row.clone());
            let (long, short) = if t == 0 { (&mut r, &mut c) } else { (&mut c, &mut r) };
            let a = long.len() - 1;
            let m = long[a].len();
            match v {
                0 if m > 0 => long[a][m - 1] += 1,
                1 if m > 0 => long[a][0] -= 1,
                2 if m > 0 => long[a][m / 2] += 1,
                3 => long[a].push(1),
                4 if m > 0 => drop(long[a].remove(m / 2)),
                5 if m > 1 => long[a].swap(0, m - 1),
                6 => short[n - 1] = if short[n - 1].is_empty() { vec![1] } else { vec![] },
                7 => short[n / 2] = if short[n / 2].is_empty() { vec![1] } else { vec![] },
                8 => short.swap(0, n - 1),
                9 => short.swap(n / 2, n / 2 + 1),
                _ => continue,
            }
            if (&c, &r) == (&col, &row) {
                continue;
            }
            count(wk, &c, &r);
            wk.exec(&encode(0, &c, &r));
        }
    });
}

fn clue_bounds(t: Tier) -> String {
    format!(
        "every assignment of fitting clues ({}), and with zero, oversize and huge numbers on smaller boards; the clues of every grid of up to {} squares; uniform and alternating clues, all one-number changes and line exchanges around structured grids to {} squares a side; drawn patterns to 25x25; lines to 60, boards of one to three lines of {} squares with ten alterations each",
        if t == Tier::Quick { "up to 450 000 per shape" } else { "up to 4x4" },
        if t == Tier::Quick { "14 (16 to 20 on some shapes)" } else { "20 (25 for 5x5)" },
        if t == Tier::Quick { 6 } else { 7 },
        if t == Tier::Quick { 300 } else { 600 }
    )
}

pub struct C08;
impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn bounds(&self, t: Tier) -> String {
        clue_bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        explore_clues(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        describe_clues(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let (_, col, row) = decode(case);
        match sut(|| solve_nonogram(&col, &row)) {
            Ok(Ok(a)) => match satisfies(&col, &row, &a) {
                Ok(()) => ok("answer satisfies all clues", fnv(&case[..case.len().min(64)])),
                Err(m) => bad(m),
            },
            Ok(Err(_)) => ok("refused", 1),
            Err(_) => ok("panicked (C09)", 2),
        }
    }
}

pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn bounds(&self, t: Tier) -> String {
        clue_bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        explore_clues(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        describe_clues(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let (kind, col, row) = decode(case);
        let r = call("solve_nonogram", || solve_nonogram(&col, &row))?;
        if col.is_empty() || row.is_empty() {
            return match r {
                Err(NonogramError::EmptyPuzzle) => ok("empty puzzle refused", 3),
                other => bad(format!("got {other:?} instead of the empty-puzzle error")),
            };
        }
        let exists = kind == 1 || solvable(&col, &row);
        match (r, exists) {
            (Ok(a), true) => match satisfies(&col, &row, &a) {
                Ok(()) => ok("answered", fnv(&case[..case.len().min(64)])),
                // the wrong answer is C08's; here: an answer was returned and one exists
                Err(_) => ok("answered wrongly (C08)", 4),
            },
            (Err(NonogramError::NoSolution), false) => ok("no solution, rightly", fnv(&case[..case.len().min(64)])),
            (Ok(_), false) => bad("an answer was returned although no filling satisfies the clues"),
            (Err(e), true) => bad(format!("refused with '{e}' although a filling satisfies all clues")),
            (Err(e), false) => bad(format!("refused with '{e}' instead of 'no solution'")),
        }
    }
}

// ------------------------------------------------------------------ C11

pub struct C11;

fn parse_case(bound: usize, s: &str) -> Vec<u8> {
    let mut v = (bound as u64).to_le_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every string over '0 1 2 9 , ; space - x' and over '0 1 3 + , ;' of length <= {} with bounds 0..=5; every string over '1 , ;' of length <= {}; token lists with numbers around 2^63 and 2^64; every Unicode scalar value as an entry and next to digits", if t == Tier::Quick { 6 } else { 8 }, if t == Tier::Quick { 9 } else { 12 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["an entry of one '+' followed by digits may be read as that number or refused (the same way throughout a text)".into()]
    }
    fn describe(&self, case: &[u8]) -> String {
        format!("bound {} text {:?}", u64::from_le_bytes(case[..8].try_into().unwrap()), String::from_utf8_lossy(&case[8..]))
    }
    fn explore(&self, x: &Explorer) {
        let strings = |name: &str, alpha: &str, len: u32, bounds: &[usize]| {
            let a: Vec<char> = alpha.chars().collect();
            let k = a.len() as u64;
            for l in 0..=len {
                x.par(&format!("{name}: every string of length {l} over {alpha:?}"), k.pow(l), |w, mut i| {
                    let mut s = String::new();
                    for _ in 0..l {
                        s.push(a[(i % k) as usize]);
                        i /= k;
                    }
                    for &b in bounds {
                        w.state();
                        w.transition();
                        w.exec(&parse_case(b, &s));
                    }
                });
            }
        };
        strings("mixed", "0129,; -x", x.pick(6, 8), &[0, 1, 2, 3, 4, 5]);
        strings("plus signs", "013+,;", x.pick(6, 8), &[0, 1, 2, 4, 13]);
        strings("separators", "1,;", x.pick(9, 12), &[0, 1, 3, 4, 7, 9, 100]);
        strings("digits", "0123456789", 4, &[0, 9, 10, 99, 100, 999, 1234, 9999]);
        let tok = ["1", "0", "18446744073709551615", "18446744073709551616", "18446744073709551614", "9223372036854775808", "9223372036854775807", "99999999999999999999999999", "000000000000000000000000000001", "4294967296", "", " 1", "1 ", "-1", "1.0", "0x1", "\u{661}", "1\n", "1_0", "+1", "++1", "1+", "+", "+ 1", "+18446744073709551616"];
        let bounds = [0usize, 1, 2, 5, 4294967296, 1 << 63, usize::MAX - 1, usize::MAX];
        let t = tok.len();
        for n in 1..=x.pick(3u32, 4) {
            x.par(&format!("token lists of {n} entries, every separator"), (t as u64).pow(n) << (n - 1), |w, i| {
                let seps = i & ((1 << (n - 1)) - 1);
                let mut i = i >> (n - 1);
                let mut s = String::new();
                for j in 0..n {
                    if j > 0 {
                        s.push(if seps >> (j - 1) & 1 == 1 { ';' } else { ',' });
                    }
                    s.push_str(tok[(i % t as u64) as usize]);
                    i /= t as u64;
                }
                for b in bounds {
                    w.state();
                    w.transition();
                    w.exec(&parse_case(b, &s));
                }
            });
        }
        x.par("every Unicode scalar value as an entry, before and after a digit", 0x11_0000, |w, i| {
            if let Some(c) = char::from_u32(i as u32) {
                for s in [format!("{c}"), format!("1;2,{c}1"), format!("1{c};0")] {
                    w.state();
                    w.transition();
                    w.exec(&parse_case(3, &s));
                }
            }
        });
        x.par("long lists", 206 * 6, |w, i| {
            let n = [1000, 4000, 10_000, 16_000, 65_536, 66_001].get((i as usize / 6).wrapping_sub(200)).copied().unwrap_or(i as usize / 6 + 1);
            let one = vec!["1"; n].join(",");
            let (s, b) = match i % 6 {
                0 => (one, 2 * n - 1),
                1 => (one, 2 * n - 2),
                2 => (vec!["1"; n].join(";"), 1),
                3 => (vec!["0"; n].join(","), n - 1),
                4 => (vec!["0"; n].join(","), n.saturating_sub(2)),
                _ => (format!("{};{}", vec!["2,1"; n].join(";"), n), 4),
            };
            w.state();
            w.transition();
            w.exec(&parse_case(b, &s));
        });
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let bound = u64::from_le_bytes(case[..8].try_into().unwrap()) as usize;
        let s = std::str::from_utf8(&case[8..]).map_err(|e| Bad::Harness(e.to_string()))?;
        let r = call("parse_nonogram_rules", || parse_nonogram_rules(s, bound))?;
        let (strict, lenient) = (parse_reference(s, bound, false), parse_reference(s, bound, true));
        let got = match r {
            Ok(v) => Ok(v),
            Err(NonogramError::InvalidRule(e)) => Err(Some(e.to_string())),
            Err(NonogramError::InvalidRuleDimension) => Err(None),
            Err(e) => return bad(format!("refused with '{e}'")),
        };
        if got != strict && got != lenient {
            let say = |r: &Result<Clues, Option<String>>| match r {
                Ok(v) => format!("the numbers {v:?}"),
                Err(Some(e)) => format!("the refusal of entry {e:?}"),
                Err(None) => "the refusal as too long".into(),
            };
            return bad(format!("the result is {}, expected {}", say(&got), say(&lenient)));
        }
        match got {
            Ok(_) => ok("parsed", fnv(&case[8..])),
            Err(Some(e)) => ok("offending entry named", fnv(e.as_bytes())),
            Err(None) => ok("too long", 2),
        }
    }
}

/// What the text means: the numbers, or the first fault: Some(entry) or None for a line that is too long.
fn parse_reference(s: &str, bound: usize, plus: bool) -> Result<Clues, Option<String>> {
    let mut all: Clues = vec![];
    for line in s.split(';') {
        let mut size: u128 = 0;
        let mut vals = vec![];
        for e in line.split(',') {
            let t = if plus { e.strip_prefix('+').unwrap_or(e) } else { e };
            let digits = t.trim_start_matches('0');
            let refused = || Some(e.to_string());
            if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) || digits.len() > 20 {
                return Err(refused());
            }
            let v: usize = digits.bytes().fold(0u128, |a, b| a * 10 + (b - b'0') as u128).try_into().map_err(|_| refused())?;
            size += v as u128;
            vals.push(v);
        }
        if size + vals.len() as u128 - 1 > bound as u128 {
            return Err(None);
        }
        all.push(vals);
    }
    Ok(all)
}

// ------------------------------------------------------------------ C12

fn margins(w: u32, h: u32) -> (u32, u32) {
    ((10 * w).max(150), (10 * h).max(150))
}

pub fn nonogram_picture(w: u32, h: u32, col: &[Vec<usize>], row: &[Vec<usize>]) -> RgbImage {
    let (mx, my) = margins(w, h);
    let mut im = RgbImage::from_pixel(50 * w + mx, 50 * h + my, WHITE);
    let mut text = |x: u32, y: u32, s: &str| imageproc::drawing::draw_text_mut(&mut im, BLACK, x as i32, y as i32, 30.0, font(), s);
    for (i, c) in col.iter().enumerate() {
        for (k, n) in c.iter().enumerate() {
            text(mx + 50 * i as u32 + 15, 10 + 30 * k as u32, &n.to_string());
        }
    }
    for (j, c) in row.iter().enumerate() {
        let mut s = String::new();
        for (k, n) in c.iter().enumerate() {
            if k > 0 {
                s.push_str("  ");
            }
            s.push_str(&n.to_string());
        }
        text(10, my + 50 * j as u32 + 10, &s);
    }
    let near = |t: u32, m: u32, n: u32| (0..n).any(|i| t == m + 50 * i || (i % 5 == 0 && (t + 1 == m + 50 * i || t == m + 50 * i + 1)));
    let (pw, ph) = im.dimensions();
    let gx: Vec<bool> = (0..pw).map(|x| near(x, mx, w)).collect();
    let gy: Vec<bool> = (0..ph).map(|y| near(y, my, h)).collect();
    for y in 0..ph {
        for x in 0..pw {
            if gx[x as usize] || gy[y as usize] {
                im.put_pixel(x, y, GRAY);
            }
        }
    }
    im
}

pub struct C12;

/// case: width u32, height u32, then the clue encoding
fn picture_case(w: u32, h: u32, col: &[Vec<usize>], row: &[Vec<usize>]) -> Vec<u8> {
    let mut v = w.to_le_bytes().to_vec();
    v.extend_from_slice(&h.to_le_bytes());
    v.extend(encode(0, col, row));
    v
}

const EXT: [u32; 14] = [0, 1, 2, 3, 15, 16, 65535, 65536, 85_899_345, 85_899_346, 429_496_730, 1 << 31, u32::MAX - 1, u32::MAX];

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every width and height <= {} with three clue sets; every clue number 0..=99 in every slot of small boards; every fitting clue in every line to 8; clue lists of every length to 40; long boards to 1312 columns or rows; one of 255x259; width/height against clue counts 0..=5 and 32-bit extremes", if t == Tier::Quick { 20 } else { 30 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["glyph shapes are those of imageproc's text drawing with the repository's font; the position, size, order and colour of each text are judged".into()]
    }
    fn describe(&self, case: &[u8]) -> String {
        format!("print_nonogram({}, {}) {}", u32::from_le_bytes(case[..4].try_into().unwrap()), u32::from_le_bytes(case[4..8].try_into().unwrap()), describe_clues(&case[8..]))
    }
    fn explore(&self, x: &Explorer) {
        let m = x.pick(21u64, 31);
        let run = |wk: &mut Worker, c: &[Vec<usize>], r: &[Vec<usize>]| {
            count(wk, c, r);
            wk.exec(&picture_case(c.len() as u32, r.len() as u32, c, r));
        };
        x.par_chunk("every width and height, three clue sets", m * m * 3, 1, |wk, i| {
            let (w, h, k) = ((i / 3 % m) as usize, (i / 3 / m) as usize, i as usize % 3);
            let f = |n: usize, j: usize| match k {
                0 => vec![],
                1 => vec![j % 10],
                _ => (0..(n / 4).clamp(1, 4)).map(|t| (j * 3 + t) % 9 + 1).collect(),
            };
            let c: Clues = (0..w).map(|j| f(h, j)).collect();
            let r: Clues = (0..h).map(|j| f(w, j + 5)).collect();
            run(wk, &c, &r);
        });
        x.par("every number 0..=99 in every slot of a 3x2 board", 100 * 5 * 3, |wk, i| {
            let (n, l, s) = ((i / 15) as usize, (i / 3 % 5) as usize, (i % 3) as usize);
            let mut c: Clues = vec![vec![]; 3];
            let mut r: Clues = vec![vec![]; 2];
            let line = if l < 3 { &mut c[l] } else { &mut r[l - 3] };
            *line = vec![1; s];
            line.push(n);
            run(wk, &c, &r);
        });
        let f = fitting(8);
        x.par("every fitting clue of length 8 in a column or a row", f.len() as u64 * 2, |wk, i| {
            let cl = f[i as usize / 2].clone();
            let (c, r) = if i % 2 == 0 { (vec![vec![1], cl], vec![vec![1]; 8]) } else { (vec![vec![2]; 8], vec![cl, vec![0]]) };
            run(wk, &c, &r);
        });
        x.par("clue lists of every length to 40 in one line, large numbers", 44 * 2 * 4 * 3, |wk, i| {
            let (n, t, at, k) = ([64, 128, 300].get((i as usize / 24).wrapping_sub(41)).copied().unwrap_or(i as usize / 24), i / 12 % 2, (i / 3 % 4) as usize, i as usize % 3);
            let cl: Vec<usize> = (0..n).map(|j| match k { 0 => 1, 1 => j, _ => [10, 25, 1000, usize::MAX][j % 4] }).collect();
            let mut c: Clues = vec![vec![]; 4];
            let mut r: Clues = vec![vec![]; 4];
            if t == 0 { c[at] = cl } else { r[at] = cl };
            run(wk, &c, &r);
        });
        let small = fitting(3);
        let q = small.len() as u64;
        x.par("3x3: every pair of fitting clues in two lines", q * q * 15, |wk, i| {
            let (a, b, p) = (i / 15 % q, i / 15 / q, i % 15);
            let mut l: Clues = vec![vec![]; 6];
            let (mut u, mut v) = (0, 1);
            for _ in 0..p {
                v += 1;
                if v == 6 {
                    u += 1;
                    v = u + 1;
                }
            }
            l[u] = small[a as usize].clone();
            l[v] = small[b as usize].clone();
            let r = l.split_off(3);
            run(wk, &l, &r);
        });
        x.par("dimensions against clue counts", 6 * 6 * 36, |wk, i| {
            let (w, h, a, b) = (i % 6, i / 6 % 6, (i / 36 % 6) as usize, (i / 216) as usize);
            wk.state();
            wk.transition();
            wk.exec(&picture_case(w as u32, h as u32, &vec![vec![1]; a], &vec![vec![1]; b]));
        });
        x.par("32-bit extremes of the dimensions", 14 * 14 * 9, |wk, i| {
            let (w, h, a, b) = (EXT[(i % 14) as usize], EXT[(i / 14 % 14) as usize], i as usize / 196 % 3, i as usize / 588);
            wk.state();
            wk.transition();
            wk.exec(&picture_case(w, h, &vec![vec![1]; a], &vec![vec![2]; b]));
        });
        let long = [(26u32, 1u32), (1, 26), (40, 2), (2, 40), (30, 16), (16, 30), (26, 26), (64, 3), (3, 66), (129, 1), (1, 130), (257, 1), (1, 258), (1311, 1), (1, 1312)];
        x.par_chunk("larger boards, unequal sides", long.len() as u64 * x.pick(1, 5), 1, |wk, i| {
            let (w, h) = long[i as usize % long.len()];
            let c: Clues = (0..w as usize).map(|j| vec![(j + i as usize) % 12 + 1, j]).collect();
            let r: Clues = (0..h as usize).map(|j| vec![(j * i as usize) % 7 + 1, 2, j]).collect();
            run(wk, &c, &r);
        });
        x.par_chunk("more than 65,536 squares", 1, 1, |wk, _| {
            let c: Clues = (0..255).map(|j| vec![j % 12 + 1, j]).collect();
            let r: Clues = (0..259).map(|j| vec![j % 7 + 1, 2, j]).collect();
            run(wk, &c, &r);
        });
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let w = u32::from_le_bytes(case[..4].try_into().unwrap());
        let h = u32::from_le_bytes(case[4..8].try_into().unwrap());
        let (_, col, row) = decode(&case[8..]);
        let fits = w as usize == col.len() && h as usize == row.len();
        let r = call("print_nonogram", || print_nonogram(w, h, &col, &row))?;
        match r {
            Err(NonogramError::InvalidDimensions) if !fits => ok("mismatch refused", 1),
            Ok(im) if fits => match first_difference(&im, &nonogram_picture(w, h, &col, &row)) {
                None => ok("picture as specified", fnv(case)),
                Some(d) => bad(d),
            },
            Ok(_) => bad(format!("{} columns and {} rows were drawn as {w}x{h}", col.len(), row.len())),
            Err(e) => bad(format!("refused: {e}")),
        }
    }
}

// ------------------------------------------------------------------ C13

pub struct C13;

/// case: w u32, h u32, picture width u32, picture height u32, background u8, squares (one per byte)
fn fill_case(w: u32, h: u32, pw: u32, ph: u32, bg: u8, g: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for n in [w, h, pw, ph] {
        v.extend_from_slice(&n.to_le_bytes());
    }
    v.push(bg);
    v.extend_from_slice(g);
    v
}

fn fill_background(w: u32, h: u32, pw: u32, ph: u32, bg: u8) -> RgbImage {
    match bg {
        0 => RgbImage::from_pixel(pw, ph, WHITE),
        1 => RgbImage::from_fn(pw, ph, |x, y| Rgb([(x % 251) as u8, (y % 241) as u8, (x + y) as u8 | 1])),
        2 => RgbImage::from_pixel(pw, ph, RED),
        3 => RgbImage::from_pixel(pw, ph, BLACK),
        // a puzzle picture on which some squares are already filled, some grey, some with a black dot
        _ => {
            let (mx, my) = (pw.saturating_sub(50 * w), ph.saturating_sub(50 * h));
            RgbImage::from_fn(pw, ph, |x, y| {
                if x < mx || y < my {
                    return if (x + y) % 17 == 0 { BLACK } else { WHITE };
                }
                let (a, i, b, j) = ((x - mx) / 50, (x - mx) % 50, (y - my) / 50, (y - my) % 50);
                match (a + 2 * b) % 4 {
                    _ if i == 0 || j == 0 => GRAY,
                    0 => BLACK,
                    1 => WHITE,
                    2 => GRAY,
                    _ if i.abs_diff(25) < 9 && j.abs_diff(25) < 9 => BLACK,
                    _ => WHITE,
                }
            })
        }
    }
}

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every filling on all shapes of at most {} squares; every single square on shapes with sides <= {}; large unequal shapes; one of 257x257; lengths off by up to two; white, coloured and black pictures and ones with squares already filled; picture sizes off by one and margins exchanged; 32-bit extremes", if t == Tier::Quick { 12 } else { 16 }, if t == Tier::Quick { 14 } else { 26 })
    }
    fn describe(&self, case: &[u8]) -> String {
        let u = |i: usize| u32::from_le_bytes(case[i..i + 4].try_into().unwrap());
        format!("print_nonogram_solution({}, {}) on a {}x{} picture (background {}) of {} squares, filled: {:?}", u(0), u(4), u(8), u(12), case[16], case.len() - 17, case[17..].iter().enumerate().filter(|(_, b)| **b == 1).map(|(i, _)| i).take(60).collect::<Vec<_>>())
    }
    fn explore(&self, x: &Explorer) {
        let size = |w: usize, h: usize| {
            let (mx, my) = margins(w as u32, h as u32);
            (50 * w as u32 + mx, 50 * h as u32 + my)
        };
        let lim = x.pick(12usize, 16);
        for n in 1..=lim {
            for w in 1..=n {
                if n % w == 0 {
                    let h = n / w;
                    let (pw, ph) = size(w, h);
                    x.par_chunk(&format!("{w}x{h}: every filling"), 1 << n, 4, |wk, i| {
                        let g: Vec<u8> = (0..n).map(|k| (i >> k & 1) as u8).collect();
                        wk.state();
                        wk.stats.transitions += i.count_ones() as u64;
                        wk.exec(&fill_case(w as u32, h as u32, pw, ph, (i % 5) as u8, &g));
                    });
                }
            }
        }
        let m = x.pick(14usize, 26);
        x.par_chunk("every single square (and all but it), every shape", (m * m) as u64, 1, |wk, i| {
            let (w, h) = (i as usize % m + 1, i as usize / m + 1);
            let (pw, ph) = size(w, h);
            for c in 0..w * h {
                let mut g = vec![0u8; w * h];
                g[c] = 1;
                wk.state();
                wk.transition();
                wk.exec(&fill_case(w as u32, h as u32, pw, ph, (c % 5) as u8, &g));
            }
            let g: Vec<u8> = (0..w * h).map(|k| (k % 2) as u8).collect();
            wk.state();
            wk.transition();
            wk.exec(&fill_case(w as u32, h as u32, pw, ph, 4, &g));
        });
        let big = [(16usize, 3usize), (3, 16), (20, 5), (5, 20), (26, 2), (2, 26), (17, 18), (25, 25), (40, 1), (1, 40), (30, 16), (100, 2), (2, 100), (129, 3), (3, 130), (257, 1), (1, 258), (1311, 1), (1, 1312)];
        x.par_chunk("large shapes: corners, edges, patterns", big.len() as u64 * 12, 1, |wk, i| {
            let (w, h) = big[i as usize / 12];
            let (pw, ph) = size(w, h);
            let k = i as usize % 12;
            let g: Vec<u8> = (0..w * h)
                .map(|c| {
                    let (a, b) = (c % w, c / w);
                    (match k {
                        0 => c == 0,
                        1 => a + 1 == w && b == 0,
                        2 => a == 0 && b + 1 == h,
                        3 => c + 1 == w * h,
                        4 => true,
                        5 => (a + b) % 2 == 0,
                        6 => a == w / 2,
                        7 => b == h / 2,
                        _ => mix((c * 7 + k) as u64) >> 13 & 3 == 0,
                    }) as u8
                })
                .collect();
            wk.state();
            wk.stats.transitions += g.iter().map(|&v| v as u64).sum::<u64>();
            wk.exec(&fill_case(w as u32, h as u32, pw, ph, (k % 5) as u8, &g));
        });
        {
            x.par_chunk("more than 65,536 squares", 1, 1, |wk, _| {
                let (w, h) = (257, 257);
                let (pw, ph) = size(w, h);
                let g: Vec<u8> = (0..w * h).map(|c| (c % w == 0 || c % 259 < 2 || c / w + 1 == h) as u8).collect();
                wk.state();
                wk.stats.transitions += g.len() as u64;
                wk.exec(&fill_case(w as u32, h as u32, pw, ph, 1, &g));
            });
        }
        x.par_chunk("number of squares and picture size that do not fit", 7 * 7 * 30, 4, |wk, i| {
            let (w, h, k) = ((i / 30 % 7) as usize, (i / 210) as usize, i as usize % 30);
            let (pw, ph) = size(w, h);
            let (dn, dw, dh) = [-2i64, -1, 0, 1, 2].iter().flat_map(|&n| [(n, 0, 0), (n, 1, 0), (n, -1, 0), (n, 0, 1), (n, 0, -1), (n, 50, -50)]).nth(k).unwrap();
            let n = (w * h) as i64 + dn;
            if n < 0 || (dn, dw, dh) == (0, 0, 0) {
                return;
            }
            wk.state();
            wk.transition();
            wk.exec(&fill_case(w as u32, h as u32, (pw as i64 + dw) as u32, (ph as i64 + dh) as u32, 0, &vec![1; n as usize]));
        });
        x.par_chunk("picture of another shape, width and height exchanged, empty picture", 18 * 18 * 4, 4, |wk, i| {
            let (w, h, k) = ((i / 4 % 18) as usize + 1, (i / 72) as usize + 1, i % 4);
            let (pw, ph) = match k {
                0 => size(h, w),
                1 => (50 * w as u32 + 150, 50 * h as u32 + 150),
                2 => (0, 0),
                _ => (60 * w as u32, 60 * h as u32),
            };
            if (pw, ph) != size(w, h) {
                wk.state();
                wk.transition();
                wk.exec(&fill_case(w as u32, h as u32, pw, ph, 0, &vec![1; w * h]));
            }
        });
        x.par("32-bit extremes of the dimensions", 14 * 14 * 8, |wk, i| {
            let (w, h, k) = (EXT[(i % 14) as usize], EXT[(i / 14 % 14) as usize], i / 196);
            let (pw, ph) = [(150u32, 150u32), (200, 200), (0, 0), (250, 150), (200, 150), (150, 200), (w.wrapping_mul(60) % 4000, 150), (150, h.wrapping_mul(60) % 4000)][k as usize];
            let n = [0usize, 1, 0, 2, 0, 0, 0, 0][k as usize];
            wk.state();
            wk.transition();
            wk.exec(&fill_case(w, h, pw, ph, 0, &vec![1; n]));
        });
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let u = |i: usize| u32::from_le_bytes(case[i..i + 4].try_into().unwrap());
        let (w, h, pw, ph) = (u(0), u(4), u(8), u(12));
        let g: Vec<bool> = case[17..].iter().map(|&b| b == 1).collect();
        let mut want = fill_background(w, h, pw, ph, case[16]);
        let arg = want.clone();
        let r = call("print_nonogram_solution", || print_nonogram_solution(w, h, arg, &g))?;
        let (bw, bh) = (w as u128, h as u128);
        let (mx, my) = ((10 * bw).max(150), (10 * bh).max(150));
        let fits = g.len() as u128 == bw * bh && pw as u128 == 50 * bw + mx && ph as u128 == 50 * bh + my;
        match r {
            Err(NonogramError::InvalidDimensions) if !fits => ok("mismatch refused", 1),
            Ok(im) if fits => {
                for (i, _) in g.iter().enumerate().filter(|(_, b)| **b) {
                    let (x0, y0) = (mx as u32 + i as u32 % w * 50 + 1, my as u32 + i as u32 / w * 50 + 1);
                    for y in y0..y0 + 49 {
                        for x in x0..x0 + 49 {
                            want.put_pixel(x, y, BLACK);
                        }
                    }
                }
                match first_difference(&im, &want) {
                    None => ok("picture as specified", fnv(case)),
                    Some(d) => bad(d),
                }
            }
            Ok(_) => bad("a solution or picture that does not fit was accepted"),
            Err(e) => bad(format!("refused: {e}")),
        }
    }
}

// ------------------------------------------------------------------ C26

pub struct C26;

/// Every clue line text accepted for the bound, up to three entries, plus odd spellings of numbers.
fn accepted_lines(bound: usize, entries: usize) -> Vec<String> {
    let mut v: Vec<Vec<usize>> = vec![];
    let mut todo: Vec<Vec<usize>> = (0..=bound).map(|n| vec![n]).collect();
    while let Some(l) = todo.pop() {
        let size = l.iter().sum::<usize>() + l.len() - 1;
        if size > bound {
            continue;
        }
        if l.len() < entries {
            for n in 0..=bound {
                let mut m = l.clone();
                m.push(n);
                todo.push(m);
            }
        }
        v.push(l);
    }
    v.sort_by_key(|l| (l.len(), l.clone()));
    v.into_iter().enumerate().map(|(i, l)| l.iter().map(|n| if i % 7 == 5 { format!("0{n}") } else { n.to_string() }).collect::<Vec<_>>().join(",")).collect()
}

impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every accepted line text per line on boards of up to {} combinations (zeros and separators included), every grid's clue text on boards of at most {} squares, lines with up to 12 entries; long boards to 257; sudoku texts: all with at most one digit, neighbourhoods of unique puzzles, conflicting pairs", if t == Tier::Quick { 3000 } else { 60000 }, if t == Tier::Quick { 10 } else { 14 })
    }
    fn describe(&self, case: &[u8]) -> String {
        match case[0] {
            b'S' => format!("sudoku text {:?}", String::from_utf8_lossy(&case[1..])),
            _ => {
                let s = String::from_utf8_lossy(&case[1..]).to_string();
                let (c, r) = s.split_once('|').unwrap_or((&s, ""));
                format!("nonogram column text {c:?}, row text {r:?}")
            }
        }
    }
    fn explore(&self, x: &Explorer) {
        let nono = |c: &[String], r: &[String]| format!("N{}|{}", c.join(";"), r.join(";")).into_bytes();
        let limit = x.pick(3000f64, 60000.0);
        for w in 1..=5usize {
            for h in 1..=5usize {
                for entries in (1..=4).rev() {
                    let (c, r) = (accepted_lines(h, entries), accepted_lines(w, entries));
                    let total = (c.len() as f64).powi(w as i32) * (r.len() as f64).powi(h as i32);
                    if total > limit {
                        continue;
                    }
                    x.par(&format!("{w}x{h}: every accepted text with at most {entries} entries a line"), total as u64, |wk, mut i| {
                        let mut pick = |a: &[String], n: usize| -> Vec<String> {
                            (0..n)
                                .map(|_| {
                                    let s = a[(i % a.len() as u64) as usize].clone();
                                    i /= a.len() as u64;
                                    s
                                })
                                .collect()
                        };
                        let (cc, rr) = (pick(&c, w), pick(&r, h));
                        wk.state();
                        wk.stats.transitions += (w + h) as u64;
                        wk.exec(&nono(&cc, &rr));
                    });
                    break;
                }
            }
        }
        let text = |c: &Clues| -> Vec<String> { c.iter().map(|l| if l.is_empty() { "0".to_string() } else { l.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",") }).collect() };
        let lim = x.pick(12usize, 16);
        for w in 1..=lim {
            for h in 1..=lim / w {
                x.par(&format!("{w}x{h}: the clue text of every grid"), 1 << (w * h), |wk, i| {
                    let (c, r) = clues_of(w, h, |x, y| i >> (y * w + x) & 1 == 1);
                    wk.state();
                    wk.stats.transitions += (w + h) as u64;
                    wk.exec(&nono(&text(&c), &text(&r)));
                });
            }
        }
        x.par_chunk("structured grids to 25 squares a side", 8 * 8 * 17, 1, |wk, i| {
            let s = [1usize, 4, 5, 9, 15, 16, 20, 25];
            let (w, h, k) = (s[i as usize / 17 % 8], s[i as usize / 136], i as usize % 17);
            let (c, r) = clues_of(w, h, |x, y| pattern(k, w, h, x, y));
            wk.state();
            wk.stats.transitions += (w + h) as u64;
            wk.exec(&nono(&text(&c), &text(&r)));
        });
        x.par_chunk("long boards of one or two lines", 16 * 4 * 17, 1, |wk, i| {
            let n = [26usize, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257][i as usize / 68];
            let (k, (w, h)) = (i as usize % 17, [(n, 1), (1, n), (n, 2), (2, n)][i as usize / 17 % 4]);
            let (c, r) = clues_of(w, h, |x, y| pattern(k, w, h, x, y));
            wk.state();
            wk.stats.transitions += (w + h) as u64;
            wk.exec(&nono(&text(&c), &text(&r)));
        });
        x.par("lists of zeros and ones as long as the bound allows", 12 * 12 * 4, |wk, i| {
            let (w, h, k) = ((i / 4 % 12) as usize + 1, (i / 48) as usize + 1, i % 4);
            let l = |n: usize| match k {
                0 => vec!["0"; n + 1].join(","),
                1 => vec!["1"; n.div_ceil(2)].join(","),
                2 => format!("{n}"),
                _ => format!("0,{}", n - 1),
            };
            wk.state();
            wk.stats.transitions += (w + h) as u64;
            wk.exec(&nono(&vec![l(h); w], &vec![l(w); h]));
        });
        let sud = |b: &[u8]| {
            let mut v = vec![b'S'];
            v.extend(b.iter().map(|d| b'0' + d));
            v
        };
        x.par("sudoku: no digit and every digit at every position", 730, |wk, i| {
            let mut b = [0u8; 81];
            if i > 0 {
                b[(i as usize - 1) / 9] = ((i - 1) % 9) as u8 + 1;
            }
            wk.state();
            wk.transition();
            wk.exec(&sud(&b));
        });
        let p = crate::sudoku::unique_puzzles();
        x.par("sudoku: unique puzzles with each cell altered", p.len() as u64 * x.pick(81, 810), |wk, i| {
            let n = x.pick(81u64, 810);
            let mut b = p[(i / n) as usize];
            let j = (i % n) as usize;
            b[j % 81] = if n == 81 { (b[j % 81] + 1 + (j % 9) as u8) % 10 } else { (j / 81) as u8 };
            wk.state();
            wk.transition();
            wk.exec(&sud(&b));
        });
        x.par("sudoku: two equal digits at positions of the first row, column and box", 81 * 9, |wk, i| {
            let mut b = [0u8; 81];
            let (a, d) = (i as usize / 9, (i % 9) as u8 + 1);
            b[0] = d;
            b[a] = d;
            wk.state();
            wk.stats.transitions += 2;
            wk.exec(&sud(&b));
        });
        x.par("sudoku: three equal digits in a box and a row", 81 * 9, |wk, i| {
            let mut b = [0u8; 81];
            let (a, d) = (i as usize / 9, (i % 9) as u8 + 1);
            b[4] = d;
            b[76] = d;
            b[a] = d;
            wk.state();
            wk.stats.transitions += 3;
            wk.exec(&sud(&b));
        });
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let s = std::str::from_utf8(&case[1..]).map_err(|e| Bad::Harness(e.to_string()))?;
        if case[0] == b'S' {
            return sudoku_pipeline(s);
        }
        let (ct, rt) = s.split_once('|').unwrap_or((s, ""));
        let (w, h) = (ct.split(';').count(), rt.split(';').count());
        let (col, row) = match (sut(|| parse_nonogram_rules(ct, h)), sut(|| parse_nonogram_rules(rt, w))) {
            (Ok(Ok(c)), Ok(Ok(r))) => (c, r),
            _ => return ok("not accepted", 1),
        };
        if col.len() != w || row.len() != h {
            return bad(format!("{w} column lines and {h} row lines were read as {} and {}", col.len(), row.len()));
        }
        let ans = match call("solve_nonogram", || solve_nonogram(&col, &row))? {
            Ok(a) => Some(a),
            Err(NonogramError::NoSolution) => None,
            Err(e) => return bad(format!("accepted clues were refused by the solver with '{e}'")),
        };
        let pic = match call("print_nonogram", || print_nonogram(w as u32, h as u32, &col, &row))? {
            Ok(p) => p,
            Err(e) => return bad(format!("accepted clues were refused by the drawing with '{e}'")),
        };
        let Some(a) = ans else {
            return ok("no solution, drawn", fnv(case));
        };
        if a.len() != w * h {
            return bad(format!("the answer has {} squares", a.len()));
        }
        let base = pic.clone();
        let sol = match call("print_nonogram_solution", || print_nonogram_solution(w as u32, h as u32, pic, &a))? {
            Ok(p) => p,
            Err(e) => return bad(format!("the answer was refused by the drawing with '{e}'")),
        };
        if sol.dimensions() != base.dimensions() {
            return bad("the picture changed its size");
        }
        let (mx, my) = margins(w as u32, h as u32);
        let mut want = base;
        for (i, _) in a.iter().enumerate().filter(|(_, b)| **b) {
            let (x0, y0) = (mx + i as u32 % w as u32 * 50 + 1, my + i as u32 / w as u32 * 50 + 1);
            for y in y0..y0 + 49 {
                for x in x0..x0 + 49 {
                    if x < want.width() && y < want.height() {
                        want.put_pixel(x, y, BLACK);
                    }
                }
            }
        }
        match first_difference(&sol, &want) {
            None => ok("solved and drawn", fnv(case)),
            Some(d) => bad(format!("the drawn answer does not show the answer's squares: {d}")),
        }
    }
}

fn sudoku_pipeline(s: &str) -> Verdict {
    let b = match sut(|| parse_sudoku(s)) {
        Ok(Ok(b)) => b,
        _ => return ok("sudoku not accepted", 1),
    };
    let r = call_mem("solve_sudoku", || solve_sudoku(&b))?;
    if let Err(e) = call("print_sudoku", || print_sudoku(&b))? {
        return bad(format!("an accepted board was refused by the drawing with '{e}'"));
    }
    match r {
        Ok(a) => match call("print_sudoku", || print_sudoku(&a))? {
            Ok(_) => ok("sudoku solved and drawn", fnv(&a)),
            Err(e) => bad(format!("the answer was refused by the drawing with '{e}'")),
        },
        Err(SudokuError::NoSolution) => ok("sudoku without solution, drawn", fnv(s.as_bytes())),
        Err(e) => bad(format!("an accepted board was refused by the solver with '{e}'")),
    }
}
