//! C10: nonogram line deduction.
use engine::*;
use puzzle_utils::vp_hooks::vp_line_step;

pub struct C10;

// case: line length, its marks (0 undecided, 1 filled, 2 blocked), then the clue;
// or 255, line length and marks, clue, with lengths and clue numbers in two bytes

fn encode(marks: &[u8], clue: &[usize]) -> Vec<u8> {
    let mut case = vec![255];
    case.extend((marks.len() as u16).to_le_bytes());
    case.extend(marks);
    for &v in clue {
        case.extend((v as u16).to_le_bytes());
    }
    case
}

fn decode(case: &[u8]) -> (Vec<u8>, Vec<usize>) {
    if case[0] < 255 {
        let n = case[0] as usize;
        (case[1..=n].to_vec(), case[n + 1..].iter().map(|&v| v as usize).collect())
    } else {
        let n = u16::from_le_bytes([case[1], case[2]]) as usize;
        (case[3..3 + n].to_vec(), case[3 + n..].chunks(2).map(|v| u16::from_le_bytes([v[0], v[1]]) as usize).collect())
    }
}

/// What all completions say, for long lines: for each square whether it can be filled / blocked, and
/// the smallest and largest start of each run.
fn long_reference(marks: &[u8], clue: &[usize]) -> Option<(Vec<bool>, Vec<bool>, Vec<usize>, Vec<usize>)> {
    let (n, k) = (marks.len(), clue.len());
    // pre(marks, clue)[i][j]: the first i squares can hold exactly the first j runs
    let pre = |marks: &[u8], clue: &[usize]| -> Vec<Vec<bool>> {
        let mut free = vec![0usize; n + 1]; // squares before i without a block mark, in a row
        for i in 0..n {
            free[i + 1] = if marks[i] == 2 { 0 } else { free[i] + 1 };
        }
        let mut p = vec![vec![false; k + 1]; n + 1];
        p[0][0] = true;
        for i in 1..=n {
            for j in 0..=k {
                let mut v = marks[i - 1] != 1 && p[i - 1][j];
                if !v && j > 0 {
                    let l = clue[j - 1];
                    if l <= i && free[i] >= l {
                        v = if i == l { j == 1 } else { marks[i - l - 1] != 1 && p[i - l - 1][j - 1] };
                    }
                }
                p[i][j] = v;
            }
        }
        p
    };
    let p = pre(marks, clue);
    if !p[n][k] {
        return None;
    }
    let rev_m: Vec<u8> = marks.iter().rev().copied().collect();
    let rev_c: Vec<usize> = clue.iter().rev().copied().collect();
    let s = pre(&rev_m, &rev_c);
    let off: Vec<bool> = (0..n).map(|i| marks[i] != 1 && (0..=k).any(|j| p[i][j] && s[n - i - 1][k - j])).collect();
    let mut on = vec![0i64; n + 1];
    let (mut lo, mut hi) = (vec![usize::MAX; k], vec![0; k]);
    for j in 0..k {
        let l = clue[j];
        for at in 0..=n.saturating_sub(l) {
            if at + l > n || marks[at..at + l].contains(&2) {
                continue;
            }
            let before = if at == 0 { j == 0 } else { marks[at - 1] != 1 && p[at - 1][j] };
            let e = at + l;
            let after = if e == n { j + 1 == k } else { marks[e] != 1 && s[n - e - 1][k - j - 1] };
            if before && after {
                on[at] += 1;
                on[e] -= 1;
                lo[j] = lo[j].min(at);
                hi[j] = hi[j].max(at);
            }
        }
    }
    let mut c = 0;
    let on = on[..n].iter().map(|d| { c += d; c > 0 }).collect();
    Some((on, off, lo, hi))
}

/// Clues for a long line, from the ones that fill it to those that leave most of it open.
fn long_clues(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![
        vec![n], vec![n - 1], vec![n - 2], vec![n - 5], vec![n / 2 + 1], vec![n / 2], vec![n / 2 - 1; 2], vec![n / 2 + 3, n / 3], vec![n / 3, n / 2 + 3], vec![n / 4; 3],
        vec![1; n.div_ceil(2)], vec![1; n / 2 - 1], vec![1; n / 2 - 3], vec![2; (n + 1) / 3], vec![2; (n + 1) / 3 - 1], vec![3; (n + 1) / 4], vec![9, 1, n - 16, 1], vec![1, n - 4, 1], vec![], vec![n + 1], vec![1; n / 2 + 1], vec![n, 1],
        (1..).scan(0, |s, b| { *s += b + 1; (*s <= n + 1).then_some(b) }).collect(),
    ];
    v.dedup();
    v
}

/// All placements of the runs: (mask, starts).
fn placements(n: usize, clue: &[usize]) -> Vec<(u32, Vec<usize>)> {
    fn go(n: usize, from: usize, clue: &[usize], m: u32, st: &mut Vec<usize>, out: &mut Vec<(u32, Vec<usize>)>) {
        let Some((&f, rest)) = clue.split_first() else {
            out.push((m, st.clone()));
            return;
        };
        let mut at = from;
        while at + f <= n {
            st.push(at);
            go(n, at + f + 1, rest, m | ((1u32 << f) - 1) << at, st, out);
            st.pop();
            at += 1;
        }
    }
    let mut v = vec![];
    go(n, 0, clue, 0, &mut vec![], &mut v);
    v
}

fn clues(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..1u32 << n)
        .map(|m| {
            let mut r = vec![];
            let mut k = 0;
            for i in 0..=n {
                if i < n && m >> i & 1 == 1 {
                    k += 1;
                } else if k > 0 {
                    r.push(k);
                    k = 0;
                }
            }
            r
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

fn odd_clues(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![0], vec![0, 0, 0], vec![n + 1], vec![n + 3], vec![1; n.div_ceil(2) + 1], vec![n, 1], vec![1, n], vec![0, n + 1], vec![n + 1, 0], vec![1; n + 1], vec![60]];
    for c in clues(n) {
        if c.len() <= 2 {
            let mut a = c.clone();
            a.insert(0, 0);
            v.push(a);
            let mut a = c.clone();
            a.push(0);
            v.push(a);
            if c.len() == 2 {
                v.push(vec![c[0], 0, c[1]]);
            }
        }
    }
    v
}

fn family(x: &Explorer, n: usize, cl: &[Vec<usize>], what: &str) {
    let marks = 3u64.pow(n as u32);
    x.par(&format!("length {n}: every {what} clue, every marking"), cl.len() as u64 * marks, |w, i| {
        let c = &cl[(i / marks) as usize];
        let mut m = i % marks;
        let mut case = Vec::with_capacity(n + c.len() + 1);
        case.push(n as u8);
        for _ in 0..n {
            case.push((m % 3) as u8);
            m /= 3;
        }
        case.extend(c.iter().map(|&v| v as u8));
        w.state();
        w.transition();
        w.exec(&case);
    });
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every line of length <= {} with every fitting clue and every marking; clues with zeros and clues too long for lengths <= {}; every marking with at most {} marks on lines to 25; lines to {} squares with 23 clues (up to half as many blocks), seven markings each with at most one square altered", if t == Tier::Quick { 9 } else { 11 }, if t == Tier::Quick { 6 } else { 8 }, if t == Tier::Quick { 1 } else { 2 }, if t == Tier::Quick { 300 } else { 600 })
    }
    fn describe(&self, case: &[u8]) -> String {
        let (marks, clue) = decode(case);
        format!("line {:?} with clue {clue:?}", marks.iter().map(|m| ['?', '#', '.'][*m as usize]).collect::<String>())
    }
    fn explore(&self, x: &Explorer) {
        for n in 1..=x.pick(9, 11) {
            family(x, n, &clues(n), "fitting");
            if n <= x.pick(6, 8) {
                family(x, n, &odd_clues(n), "zero-containing and oversize");
            }
        }
        // long lines, few marks
        let long: Vec<(usize, Vec<usize>)> = vec![
            (15, vec![3, 4, 5]),
            (15, vec![1, 1, 1, 1, 1, 1]),
            (20, vec![6, 6, 4]),
            (20, vec![10]),
            (20, vec![1, 2, 3, 4]),
            (25, vec![9, 9, 3]),
            (25, vec![7, 1, 7]),
            (25, vec![13]),
            (25, vec![1, 3, 3, 5, 2]),
            (25, vec![]),
            (25, vec![25]),
            (18, vec![2, 2, 2, 2, 2]),
        ];
        let k = x.pick(1u32, 2);
        for (n, c) in &long {
            let per = (*n as u64 * 2).pow(k);
            x.par(&format!("length {n}, clue {c:?}: at most {k} mark(s) and every block of equal marks"), per + (*n as u64).pow(2) * 2, |w, i| {
                let mut case = vec![*n as u8];
                let mut m = vec![0u8; *n];
                if i < per {
                    let mut i = i;
                    for _ in 0..k {
                        m[(i / 2 % *n as u64) as usize] = 1 + (i % 2) as u8;
                        i /= 2 * *n as u64;
                    }
                } else {
                    let j = i - per;
                    let (a, b, v) = ((j / 2 % *n as u64) as usize, (j / 2 / *n as u64) as usize, 1 + (j % 2) as u8);
                    for t in m.iter_mut().take(b + 1).skip(a) {
                        *t = v;
                    }
                }
                case.extend(m);
                case.extend(c.iter().map(|&v| v as u8));
                w.state();
                w.transition();
                w.exec(&case);
            });
        }
        // very long lines and very long clues
        let lengths: &[usize] = x.pick(&[32, 33, 40, 63, 64, 65, 66, 70, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300][..], &[31, 32, 33, 34, 40, 50, 62, 63, 64, 65, 66, 67, 70, 80, 100, 126, 127, 128, 129, 130, 131, 160, 200, 250, 254, 255, 256, 257, 258, 259, 300, 400, 511, 512, 513, 600]);
        for &n in lengths {
            let clues = long_clues(n);
            let mut spots: Vec<usize> = if n <= x.pick(66, 130) { (0..n).collect() } else { (0..3).chain([n / 3, n / 2, 62, 63, 64, 65, 66, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258]).chain(n - 3..n).filter(|i| *i < n).collect() };
            spots.sort();
            spots.dedup();
            // a marking: base (open; leftmost placement; rightmost placement; each with its filled or its
            // blocked squares only) and one altered square (or none)
            let bases = 7u64;
            let alter = 1 + 2 * spots.len() as u64;
            x.par(&format!("length {n}: {} long clues, {bases} basic markings, with at most one square altered", clues.len()), clues.len() as u64 * bases * alter, |w, i| {
                let clue = &clues[(i / (bases * alter)) as usize];
                let (base, a) = (i / alter % bases, i % alter);
                let need = (clue.iter().sum::<usize>() + clue.len()).saturating_sub(1);
                if need > n && base > 0 {
                    return;
                }
                let mut m = vec![0u8; n];
                if base > 0 {
                    let mut on = vec![false; n];
                    let mut at = if base % 2 == 1 { 0 } else { n - need };
                    for l in clue {
                        on[at..at + l].fill(true);
                        at += l + 1;
                    }
                    for q in 0..n {
                        m[q] = match ((base - 1) / 2, on[q]) {
                            (0, o) => if o { 1 } else { 2 },
                            (1, true) => 1,
                            (2, false) => 2,
                            _ => 0,
                        };
                    }
                }
                if a > 0 {
                    let q = spots[(a as usize - 1) / 2];
                    m[q] = (m[q] + 1 + ((a - 1) % 2) as u8) % 3;
                }
                w.state();
                w.transition();
                w.exec(&encode(&m, clue));
            });
        }
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let (before, clue) = decode(case);
        if before.len() > 31 || case[0] == 255 {
            return check_long(case, &before, &clue);
        }
        let n = before.len();
        let mut after = before.to_vec();
        let r = call("line step", || vp_line_step(&clue, &mut after))?;
        // reference
        let plain: Vec<usize> = clue.iter().copied().filter(|&v| v > 0).collect();
        let (mut on, mut off) = (0u32, 0u32);
        for (i, &m) in before.iter().enumerate() {
            if m == 1 {
                on |= 1 << i;
            } else if m == 2 {
                off |= 1 << i;
            }
        }
        thread_local! { static MEMO: std::cell::RefCell<(usize, Vec<usize>, Vec<(u32, Vec<usize>)>)> = const { std::cell::RefCell::new((0, vec![], vec![])) }; }
        let (some, every_on, every_off, lo, hi) = MEMO.with(|memo| {
            let mut memo = memo.borrow_mut();
            if memo.0 != n || memo.1 != plain {
                let p = placements(n, &plain);
                *memo = (n, plain.clone(), p);
            }
            let (mut some, mut aon, mut aoff) = (false, u32::MAX, u32::MAX);
            let (mut lo, mut hi) = ([usize::MAX; 32], [0usize; 32]);
            for (m, st) in &memo.2 {
                if m & off == 0 && on & !m == 0 {
                    some = true;
                    aon &= m;
                    aoff &= !m;
                    for (k, &s) in st.iter().enumerate() {
                        lo[k] = lo[k].min(s);
                        hi[k] = hi[k].max(s);
                    }
                }
            }
            (some, aon, aoff, lo, hi)
        });
        let changed = match (r, some) {
            (Err(_), false) => return ok("impossible line detected", fnv(case)),
            (Err(e), true) => return bad(format!("failed with '{e}' although the line can be completed")),
            (Ok(_), false) => return bad("succeeded although no completion of the line satisfies the clue"),
            (Ok(c), true) => c,
        };
        let at = |st: &[usize], i: usize| -> (bool, usize) {
            for (k, &len) in plain.iter().enumerate() {
                if i < st[k] {
                    return (false, k);
                }
                if i < st[k] + len {
                    return (true, k);
                }
            }
            (false, plain.len())
        };
        let mut any = false;
        for i in 0..n {
            let (b, a) = (before[i], after[i]);
            if b != 0 && a != b {
                return bad(format!("the mark at square {i} was altered"));
            }
            if b == 0 && a != 0 {
                any = true;
                let forced = if a == 1 { every_on } else { every_off };
                if forced >> i & 1 == 0 {
                    return bad(format!("square {i} was marked {} although some completion has it otherwise", ["", "filled", "blocked"][a as usize]));
                }
            }
            if a == 0 && at(&lo, i) == at(&hi, i) {
                return bad(format!("square {i} was left undecided although the leftmost and the rightmost placement agree on it"));
            }
        }
        if any != changed {
            return bad(format!("reported changed = {changed}, but marks were {}made", if any { "" } else { "not " }));
        }
        ok(if any { "marks made" } else { "nothing to mark" }, fnv(&after))
    }
}

fn check_long(case: &[u8], before: &[u8], clue: &[usize]) -> Verdict {
    let n = before.len();
    let mut after = before.to_vec();
    let r = call("line step", || vp_line_step(clue, &mut after))?;
    let plain: Vec<usize> = clue.iter().copied().filter(|&v| v > 0).collect();
    let (can_fill, can_block, lo, hi) = match (r.is_ok(), long_reference(before, &plain)) {
        (false, None) => return ok("impossible long line detected", fnv(case)),
        (false, Some(_)) => return bad("failed although the line can be completed"),
        (true, None) => return bad("succeeded although no completion of the line satisfies the clue"),
        (true, Some(t)) => t,
    };
    let place = |st: &[usize]| -> Vec<(bool, usize)> {
        let mut v = vec![(false, plain.len()); n];
        let mut from = 0;
        for (k, &l) in plain.iter().enumerate() {
            for q in v.iter_mut().take(st[k]).skip(from) {
                *q = (false, k);
            }
            for q in v.iter_mut().take(st[k] + l).skip(st[k]) {
                *q = (true, k);
            }
            from = st[k] + l;
        }
        v
    };
    let (left, right) = (place(&lo), place(&hi));
    let mut any = false;
    for i in 0..n {
        let (b, a) = (before[i], after[i]);
        if b != 0 && a != b {
            return bad(format!("the mark at square {i} was altered"));
        }
        if b == 0 && a != 0 {
            any = true;
            if if a == 1 { can_block[i] } else { can_fill[i] } {
                return bad(format!("square {i} was marked {} although some completion has it otherwise", ["", "filled", "blocked"][a as usize]));
            }
        }
        if a == 0 && left[i] == right[i] {
            return bad(format!("square {i} was left undecided although the leftmost and the rightmost placement agree on it"));
        }
    }
    if r.ok() != Some(any) {
        return bad(format!("marks were {}made, but the opposite was reported", if any { "" } else { "not " }));
    }
    ok(if any { "marks made on a long line" } else { "nothing to mark on a long line" }, fnv(&after))
}
