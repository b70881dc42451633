//! C06, C07: the exact-cover engine.
use engine::*;
use puzzle_utils::vp_hooks::{DancingLinksError, DancingMatrix};

// case: number of constraints, per constraint its length and its rows, finish (1 solve, 0 drop),
// then the forced rows
struct Case {
    constraints: Vec<Vec<usize>>,
    solve: bool,
    forced: Vec<usize>,
}

fn encode(constraints: &[Vec<usize>], solve: bool, forced: &[usize], out: &mut Vec<u8>) {
    out.clear();
    out.push(constraints.len() as u8);
    for c in constraints {
        out.push(c.len() as u8);
        out.extend(c.iter().map(|&r| r as u8));
    }
    out.push(solve as u8);
    out.extend(forced.iter().map(|&r| r as u8));
}

/// Labels that replace the row numbers 0, 1, 2 of a small matrix.
const LABELS: [[usize; 3]; 8] =
    [[0, 100, 1000], [1000, 100, 0], [255, 256, 257], [257, 255, 1], [65535, 65536, 65537], [3, 65539, 70003], [64, 128, 4096], [70000, 0, 4464]];
const UNKNOWN: usize = 1 << 40;

// case with leading 254: kind, n (u32), v (u32), finish, forced rows (u32 each):
// kind 0..8: small matrix with these labels, n = rows * 16 + constraints, v its entries
// 10 one constraint of n rows; 11 n constraints of one row each, the v-th of two more; 12 chain: row i covers
// constraints i and i + 1 of n; 13 one row of n constraints and rows of one of them each
fn decode(case: &[u8]) -> Case {
    if case[0] == 254 {
        let u = |i: usize| u32::from_le_bytes(case[i..i + 4].try_into().unwrap()) as usize;
        let (kind, n, v) = (case[1] as usize, u(2), u(6));
        let constraints = match kind {
            10 => vec![(0..n).collect()],
            11 => (0..n).map(|c| if c == v { vec![c, n, n + 1] } else { vec![c] }).collect(),
            12 => (0..n).map(|c| (c.max(1) - 1..=c.min(n - 2)).collect()).collect(),
            13 => (0..n).map(|c| if v == 1 { vec![c + 1, 0] } else { vec![0, c + 1] }).collect(),
            _ => (0..n % 16).map(|c| (0..n / 16).filter(|r| v >> (c * (n / 16) + r) & 1 == 1).map(|r| LABELS[kind][r]).collect()).collect(),
        };
        let forced = (0..(case.len() - 11) / 4).map(|k| u(11 + k * 4)).map(|r| if r == u32::MAX as usize { UNKNOWN } else { r }).collect();
        return Case { constraints, solve: case[10] == 1, forced };
    }
    let mut i = 1;
    let mut constraints = vec![];
    for _ in 0..case[0] {
        let n = case[i] as usize;
        constraints.push(case[i + 1..i + 1 + n].iter().map(|&r| r as usize).collect());
        i += 1 + n;
    }
    Case { constraints, solve: case[i] == 1, forced: case[i + 1..].iter().map(|&r| if r == 255 { usize::MAX } else { r as usize }).collect() }
}

fn describe(case: &[u8]) -> String {
    let c = decode(case);
    if case[0] == 254 && case[1] >= 10 {
        return format!(
            "{} constraints ({}), forced rows {:?}, then {}",
            c.constraints.len(),
            match case[1] {
                10 => format!("it has {} rows", c.constraints[0].len()),
                11 => "one row for each, one has two rows more".into(),
                12 => "row i covers constraints i and i + 1".into(),
                _ => "row 0 covers all, row i + 1 covers constraint i".into(),
            },
            c.forced,
            if c.solve { "solve" } else { "drop" }
        );
    }
    format!("constraints (rows covering each) {:?}, forced rows {:?}, then {}", c.constraints, c.forced, if c.solve { "solve" } else { "drop" })
}

/// Does some set of rows contain `have` and cover every constraint exactly once? (rows as bit masks of
/// constraints, at most 128)
fn exact(rows: &[u128], all: u128, covered: u128) -> bool {
    if covered == all {
        return true;
    }
    // the constraint with fewest candidate rows
    let mut best = (usize::MAX, 0);
    let mut left = all & !covered;
    while left != 0 {
        let c = left.trailing_zeros();
        left &= left - 1;
        let n = rows.iter().filter(|&&r| r >> c & 1 == 1 && r & covered == 0).count();
        if n < best.0 {
            best = (n, c);
            if n == 0 {
                return false;
            }
        }
    }
    rows.iter().any(|&r| r >> best.1 & 1 == 1 && r & covered == 0 && exact(rows, all, covered | r))
}

fn check(case: &[u8], memory: bool) -> Verdict {
    let mut left = 0;
    // what stays once may be set up for good; what stays every time is lost
    for _ in 0..3 {
        left = 0;
        let v = check_once(case, memory, &mut left);
        if v.is_err() || left == 0 {
            return v;
        }
    }
    bad(format!("{left} block(s) remain allocated after the matrix is gone"))
}

fn check_once(case: &[u8], memory: bool, left: &mut i64) -> Verdict {
    let c = decode(case);
    let nrows = c.constraints.iter().flatten().map(|&r| r + 1).max().unwrap_or(0);
    let mut results: Vec<Result<(), DancingLinksError>> = Vec::with_capacity(c.forced.len());
    let mut solved: Option<Result<Vec<usize>, DancingLinksError>> = None;
    let before = guard::live_blocks();
    guard::track(true);
    let r = sut(|| {
        let mut m = DancingMatrix::new(c.constraints.iter().map(|v| v.iter()));
        for &f in &c.forced {
            results.push(m.add_solution(f));
        }
        if c.solve {
            solved = Some(m.solve());
        }
    });
    guard::track(false);
    guard::flush();
    let err = guard::take_error();
    if let Err(m) = r {
        return bad(format!("panicked: {m}"));
    }
    if memory {
        if let Some(e) = err {
            return bad(e);
        }
        drop(solved);
        *left = guard::live_blocks() - before;
        return ok(if c.solve { "solved or refused, all memory returned" } else { "dropped, all memory returned" }, fnv(&case[..case.len().min(32)]));
    }
    if c.constraints.len() > 128 {
        return judge_large(case, &c, nrows, &results, solved);
    }
    let mut rows = vec![0u128; nrows];
    for (k, con) in c.constraints.iter().enumerate() {
        for &r in con {
            rows[r] |= 1 << k;
        }
    }
    let mut covered = 0u128;
    let mut accepted = vec![];
    for (k, (&f, r)) in c.forced.iter().zip(&results).enumerate() {
        let want = if f >= nrows {
            "unknown index"
        } else if rows[f] == 0 || rows[f] & covered != 0 {
            "excluded"
        } else {
            "accepted"
        };
        let got = match r {
            Ok(()) => "accepted",
            Err(DancingLinksError::IndexError) => "unknown index",
            Err(DancingLinksError::InvalidRow) => "excluded",
            Err(DancingLinksError::NoSolution) => "no solution",
        };
        if got != want {
            return bad(format!("forcing row {f} (call {k}): {got}, expected {want}"));
        }
        if want == "accepted" {
            covered |= rows[f];
            accepted.push(f);
        }
    }
    let Some(s) = solved else {
        return ok("forced and dropped", accepted.len() as u64);
    };
    let all = if c.constraints.len() == 128 { u128::MAX } else { (1u128 << c.constraints.len()) - 1 };
    let exists = exact(&rows, all, covered);
    match s {
        Ok(set) => {
            if !exists {
                return bad(format!("answered {set:?} although there is no exact cover with the forced rows"));
            }
            let mut cov = 0u128;
            for (i, &r) in set.iter().enumerate() {
                if r >= nrows || rows[r] == 0 || set[..i].contains(&r) || rows[r] & cov != 0 {
                    return bad(format!("the answer {set:?} is no exact cover: row {r} is unknown, empty, repeated or overlaps"));
                }
                cov |= rows[r];
            }
            if cov != all {
                return bad(format!("the answer {set:?} leaves constraints uncovered"));
            }
            if let Some(f) = accepted.iter().find(|f| !set.contains(f)) {
                return bad(format!("the answer {set:?} lacks the forced row {f}"));
            }
            ok("exact cover found", fnv(&set.iter().map(|&r| r as u8).collect::<Vec<_>>()))
        }
        Err(DancingLinksError::NoSolution) if !exists => ok("no exact cover, rightly", 1),
        Err(e) if exists => bad(format!("'{e}' although an exact cover with the forced rows exists")),
        Err(e) => bad(format!("'{e}' instead of 'no solution'")),
    }
}

/// Structured matrices of more than 128 constraints: the answer is checked directly, its existence is known.
fn judge_large(case: &[u8], c: &Case, nrows: usize, results: &[Result<(), DancingLinksError>], solved: Option<Result<Vec<usize>, DancingLinksError>>) -> Verdict {
    let n = c.constraints.len();
    let mut rows = vec![vec![]; nrows];
    for (k, con) in c.constraints.iter().enumerate() {
        for &r in con {
            rows[r].push(k);
        }
    }
    let mut covered = vec![false; n];
    let mut accepted = vec![];
    for (k, (&f, r)) in c.forced.iter().zip(results).enumerate() {
        let want = if f >= nrows {
            "unknown index"
        } else if rows[f].is_empty() || rows[f].iter().any(|&k| covered[k]) {
            "excluded"
        } else {
            "accepted"
        };
        let got = match r {
            Ok(()) => "accepted",
            Err(DancingLinksError::IndexError) => "unknown index",
            Err(DancingLinksError::InvalidRow) => "excluded",
            Err(DancingLinksError::NoSolution) => "no solution",
        };
        if got != want {
            return bad(format!("forcing row {f} (call {k}): {got}, expected {want}"));
        }
        if want == "accepted" {
            rows[f].iter().for_each(|&k| covered[k] = true);
            accepted.push(f);
        }
    }
    let Some(s) = solved else {
        return ok("forced and dropped", accepted.len() as u64);
    };
    let exists = case[1] != 12 || covered.split(|c| *c).all(|gap| gap.len() % 2 == 0);
    match s {
        Ok(set) => {
            if !exists {
                return bad("answered although there is no exact cover with the forced rows");
            }
            let mut times = vec![0; n];
            for &r in &set {
                if r >= nrows {
                    return bad(format!("the answer names the row {r}, which does not exist"));
                }
                rows[r].iter().for_each(|&k| times[k] += 1);
            }
            if let Some(k) = times.iter().position(|t| *t != 1) {
                return bad(format!("the answer covers constraint {k} {} times", times[k]));
            }
            if let Some(f) = accepted.iter().find(|f| !set.contains(f)) {
                return bad(format!("the answer lacks the forced row {f}"));
            }
            ok("exact cover found", set.len() as u64)
        }
        Err(DancingLinksError::NoSolution) if !exists => ok("no exact cover, rightly", 1),
        Err(e) if exists => bad(format!("'{e}' although an exact cover with the forced rows exists")),
        Err(e) => bad(format!("'{e}' instead of 'no solution'")),
    }
}

fn coded(kind: usize, n: usize, v: usize, solve: bool, forced: &[usize]) -> Vec<u8> {
    let mut case = vec![254, kind as u8];
    case.extend((n as u32).to_le_bytes());
    case.extend((v as u32).to_le_bytes());
    case.push(solve as u8);
    for &f in forced {
        case.extend((f as u32).to_le_bytes());
    }
    case
}

/// Row numbers far apart and around the limits of narrow integers; many rows, many constraints.
fn wide(x: &Explorer) {
    for (r, c, depth) in [(1, 1, 2), (1, 3, 2), (2, 1, 2), (2, 2, 3), (3, 1, 2), (3, 2, 2), (2, 3, 2), (3, 3, x.pick(1, 3))] {
        let hist = histories(r, depth);
        x.par(&format!("every matrix with {r} rows and {c} constraints, its rows numbered in {} scattered ways, every force history of length <= {depth}", LABELS.len()), LABELS.len() as u64 * (1 << (r * c)), |w, i| {
            let (k, m) = (i as usize % LABELS.len(), i as usize / LABELS.len());
            for h in &hist {
                // the row after the last one stands for the number just above the first label
                let h: Vec<usize> = h.iter().map(|&f| if f == r { LABELS[k][0] + 1 } else { LABELS[k][f] }).collect();
                w.state();
                w.stats.transitions += h.len() as u64;
                for solve in [true, false] {
                    if !w.exec(&coded(k, r * 16 + c, m, solve, &h)) {
                        return;
                    }
                }
            }
        });
    }
    let sizes: Vec<usize> = [127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000].into_iter().chain(if x.quick() { vec![] } else { vec![1023, 1024, 1025, 2000] }).collect();
    let tall: Vec<usize> = sizes.iter().copied().chain([32767, 32769, 65535, 65536, 65537, 66000]).collect();
    x.par("one constraint of many rows, one or two rows forced", (tall.len() * 16) as u64, |w, i| {
        let n = tall[i as usize / 16];
        let at = |k: u64| [n - 1, 0, n / 2, n][k as usize % 4];
        for forced in [vec![], vec![at(i)], vec![at(i), at(i / 4)]] {
            for solve in [true, false] {
                w.state();
                w.stats.transitions += forced.len() as u64;
                w.exec(&coded(10, n, 0, solve, &forced));
            }
        }
    });
    x.par("many constraints of one row each, one of three, rows forced", (sizes.len() * 25) as u64, |w, i| {
        let n = sizes[i as usize / 25];
        let v = [0, 1, n / 2, n - 2, n - 1][i as usize % 5];
        let first = [n, n + 1, v, 0, n - 1][i as usize / 5 % 5];
        for forced in [vec![], vec![first], vec![first, n], vec![first, v, n + 1], (0..n / 2).chain([first]).collect(), (0..n).rev().collect()] {
            for solve in [true, false] {
                w.state();
                w.stats.transitions += forced.len() as u64;
                w.exec(&coded(11, n, v, solve, &forced));
            }
        }
    });
    x.par("chains: row i covers constraints i and i + 1, one or two rows forced", (sizes.len() * 49) as u64, |w, i| {
        let n = sizes[i as usize / 49];
        let at = |k: u64| [0, 1, 2, n / 2, n - 4, n - 3, n - 2][k as usize % 7];
        for forced in [vec![], vec![at(i)], vec![at(i), at(i / 7)]] {
            for solve in [true, false] {
                w.state();
                w.stats.transitions += forced.len() as u64;
                w.exec(&coded(12, n, 0, solve, &forced));
            }
        }
    });
    x.par("one row of many constraints and one row for each of them", (sizes.len() * 10) as u64, |w, i| {
        let n = sizes[i as usize / 10];
        let at = [0, 1, 2, n / 2, n][i as usize % 5];
        for forced in [vec![], vec![at], vec![at, 0], vec![at, n], vec![at, n + 1]] {
            for solve in [true, false] {
                w.state();
                w.stats.transitions += forced.len() as u64;
                w.exec(&coded(13, n, i as usize / 5 % 2, solve, &forced));
            }
        }
    });
}

fn histories(rows: usize, depth: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for h in &last {
            for r in 0..=rows {
                let mut g = h.clone();
                g.push(r);
                next.push(g);
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    v
}

fn order(list: &mut [usize], k: usize) {
    match k {
        0 => (),
        1 => list.reverse(),
        2 => {
            if list.len() > 1 {
                list.rotate_left(1)
            }
        }
        _ => {
            // the k-th permutation
            let mut k = k;
            for i in (1..list.len()).rev() {
                list.swap(i, k % (i + 1));
                k /= i + 1;
            }
        }
    }
}

fn matrices(x: &Explorer, r: usize, c: usize, depth: usize, orders: &[usize]) {
    matrices_with(x, r, c, depth, orders, &[true, false]);
}

fn matrices_with(x: &Explorer, r: usize, c: usize, depth: usize, orders: &[usize], ends: &[bool]) {
    let hist = histories(r, depth);
    let then = if ends.len() == 2 { "solve / drop" } else { "solve" };
    x.par_chunk(&format!("every matrix with {r} rows and {c} constraints, {} order(s) of rows, every force history of length <= {depth}, then {then}", orders.len()), 1 << (r * c), 64, |w, m| {
        let mut case = vec![];
        for &o in orders {
            let cons: Vec<Vec<usize>> = (0..c)
                .map(|k| {
                    let mut l: Vec<usize> = (0..r).filter(|&i| m >> (k * r + i) & 1 == 1).collect();
                    order(&mut l, if o == 9 { k + 1 } else { o });
                    l
                })
                .collect();
            for h in &hist {
                w.state();
                w.stats.transitions += h.len() as u64;
                for &solve in ends {
                    encode(&cons, solve, h, &mut case);
                    if !w.exec(&case) {
                        return;
                    }
                }
            }
        }
    });
}

/// Latin squares of order n as exact cover; box > 0 adds n boxes of width `bx`.
fn latin(n: usize, bx: usize) -> Vec<Vec<usize>> {
    let row = |i: usize, j: usize, d: usize| (i * n + j) * n + d;
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            v.push((0..n).map(|d| row(a, b, d)).collect());
            v.push((0..n).map(|j| row(a, j, b)).collect());
            v.push((0..n).map(|i| row(i, a, b)).collect());
            if bx > 0 {
                let bh = n / bx;
                let (br, bc) = (a / (n / bx), a % (n / bx));
                v.push((0..n).map(|k| row(br * bh + k / bx, bc * bx + k % bx, b)).collect());
            }
        }
    }
    v
}

fn structured(x: &Explorer, name: &str, cons: Vec<Vec<usize>>, depth: usize, solve_only: bool) {
    let nrows = cons.iter().flatten().map(|&r| r + 1).max().unwrap_or(0) as u64;
    for d in 0..=depth {
        x.par(&format!("{name}: every force history of length {d}"), (nrows + 1).pow(d as u32), |w, mut i| {
            let mut h = vec![];
            for _ in 0..d {
                h.push((i % (nrows + 1)) as usize);
                i /= nrows + 1;
            }
            w.state();
            w.stats.transitions += d as u64;
            let mut case = vec![];
            for solve in [true, false] {
                if solve || !solve_only {
                    encode(&cons, solve, &h, &mut case);
                    w.exec(&case);
                }
            }
        });
    }
}

fn explore(x: &Explorer) {
    for c in 0..=3usize {
        for r in 0..=3usize {
            if r * c <= 9 && (r > 0 || c == 0 || r == 0) {
                matrices(x, r, c, 4, &[0, 1, 2]);
            }
        }
    }
    for (r, c) in [(1, 6), (2, 4), (2, 5), (4, 2), (5, 2), (4, 3), (3, 4)] {
        matrices(x, r, c, 3, &[0, 9]);
    }
    matrices(x, 4, 4, x.pick(2, 3), &[0]);
    matrices(x, 6, 2, 3, &[0]);
    matrices(x, 2, 6, 3, &[0]);
    matrices(x, 5, 3, x.pick(2, 4), &[0]);
    matrices(x, 3, 5, x.pick(2, 4), &[0]);
    // the smallest matrices on which a wrong restoring order shows have 5 rows and 4 constraints
    matrices_with(x, 5, 4, 1, &[0], &[true]);
    matrices_with(x, 4, 5, 1, &[0], &[true]);
    matrices_with(x, 6, 4, 0, &[0], &[true]);
    structured(x, "latin squares of order 2", latin(2, 0), x.pick(4, 5), false);
    structured(x, "latin squares of order 3", latin(3, 0), x.pick(2, 3), false);
    structured(x, "4x4 sudoku", latin(4, 2), 2, false);
    x.par("4x4 sudoku: every row forced on top of a completed first row and column", 65 * 65, |w, i| {
        let n = |a: usize, b: usize, d: usize| (a * 4 + b) * 4 + d;
        let base = [n(0, 0, 0), n(0, 1, 1), n(0, 2, 2), n(0, 3, 3), n(1, 0, 2), n(2, 0, 1), n(3, 0, 3)];
        let mut h = base.to_vec();
        h.push((i % 65) as usize);
        h.push((i / 65) as usize);
        w.state();
        w.stats.transitions += h.len() as u64;
        let mut case = vec![];
        for solve in [true, false] {
            encode(&latin(4, 2), solve, &h, &mut case);
            w.exec(&case);
        }
    });
    x.par("sparse and interval matrices of 8 rows and 8 constraints, every single and double force", 512 * 100, |w, i| {
        let (k, h) = (i / 100, (i % 100) as usize);
        let cons: Vec<Vec<usize>> = (0..8usize)
            .map(|c| {
                (0..8usize)
                    .filter(|&r| match k % 4 {
                        0 => r <= c && c < r + 1 + (k / 4 % 8) as usize,
                        1 => (r * (1 + (k / 4 % 7) as usize) + c) % 8 < 2 + (k / 32 % 3) as usize,
                        2 => mix(k * 64 + (r * 8 + c) as u64) % 4 == 0,
                        _ => (r ^ c) & (k / 4 % 8) as usize == 0,
                    })
                    .collect()
            })
            .collect();
        let hist: Vec<usize> = if h < 10 { vec![h] } else { vec![h % 10, h / 10] };
        w.state();
        w.stats.transitions += hist.len() as u64;
        let mut case = vec![];
        for solve in [true, false] {
            encode(&cons, solve, &hist, &mut case);
            w.exec(&case);
        }
    });
    wide(x);
    x.par("forcing index 2^64-1", 16, |w, i| {
        let cons: Vec<Vec<usize>> = (0..i as usize % 4).map(|c| (0..=c).collect()).collect();
        let mut case = vec![];
        encode(&cons, i / 4 % 2 == 0, &[255], &mut case);
        if i >= 8 {
            case.push(0);
        }
        w.state();
        w.transition();
        w.exec(&case);
    });
    if !x.quick() {
        matrices(x, 3, 3, 4, &[0, 1, 2, 3, 4, 5, 6, 7, 9]);
        matrices(x, 6, 3, 2, &[0, 9]);
        matrices(x, 3, 6, 3, &[0]);
        matrices(x, 5, 4, 2, &[0]);
        matrices(x, 4, 5, 2, &[0]);
        matrices_with(x, 5, 5, 0, &[0], &[true]);
        matrices_with(x, 7, 4, 0, &[0], &[true]);
        structured(x, "4x4 sudoku", latin(4, 2), 3, false);
        structured(x, "latin squares of order 3", latin(3, 0), 4, true);
    }
}

fn bounds(t: Tier) -> String {
    format!("every 0/1 matrix (rows x constraints) up to 3x3 with force histories of length <= 4 (three row orders), up to 4x4, 5x3, 3x5, 6x2, 2x6 with length <= {}, 5x4 and 4x5 with at most one forced row, 6x4 without; {}exact-cover forms of latin squares and 4x4 sudoku with every history of length <= {}; matrices of up to three rows numbered in eight scattered ways (to 70,003); structured matrices of up to {} constraints and 66,000 rows; each history solved and dropped", if t == Tier::Quick { "2-3" } else { "3-4" }, if t == Tier::Quick { "" } else { "6x3, 3x6, 5x4, 4x5 with length <= 2-3, 5x5 and 7x4 without force; " }, if t == Tier::Quick { "2" } else { "3" }, if t == Tier::Quick { 1000 } else { 2000 })
}

pub struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn bounds(&self, t: Tier) -> String {
        bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        explore(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        describe(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        check(case, false)
    }
}

pub struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn bounds(&self, t: Tier) -> String {
        bounds(t) + "; every execution under the guard allocator (poisoned quarantine, block headers, block count)"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["memory errors are observed at the allocator: double and foreign frees, wrong layouts, writes to freed blocks, leaks; a read of a freed block yields a poison pattern, which shows as a crash, a wrong result or a further memory error".into()]
    }
    fn explore(&self, x: &Explorer) {
        explore(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        describe(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        check(case, true)
    }
}
