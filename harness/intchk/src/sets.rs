//! C23: union-find.
use engine::*;
use puzzle_utils::vp_hooks::DisjointSet;

pub struct C23;

// case: 'H', constructor (255 = new, else with_size), then operations (kind, a, b)
// case: 'L', pattern, size as u32
const ADD: u8 = 0;
const FIND: u8 = 1;
const COMMON: u8 = 2;
const UNION: u8 = 3;
const HUGE: u8 = 250;

fn arg(a: u8) -> usize {
    if a == HUGE {
        usize::MAX
    } else {
        a as usize
    }
}

/// All operations on indices 0..=n (n does not exist).
fn ops(n: u8, kinds: &[u8]) -> Vec<[u8; 3]> {
    let mut v = vec![];
    for &k in kinds {
        match k {
            ADD => v.push([ADD, 0, 0]),
            FIND => v.extend((0..=n).map(|a| [FIND, a, 0])),
            _ => v.extend((0..=n).flat_map(|a| (0..=n).map(move |b| [k, a, b]))),
        }
    }
    v
}

fn family(x: &Explorer, name: &str, ctor: u8, ops: &[[u8; 3]], depth: u32) {
    for d in 0..=depth {
        let k = ops.len() as u64;
        x.par(&format!("{name}: every history of {d} operations"), k.pow(d), |w, mut i| {
            let mut case = vec![b'H', ctor];
            for _ in 0..d {
                case.extend_from_slice(&ops[(i % k) as usize]);
                i /= k;
            }
            w.state();
            w.stats.transitions += d as u64;
            w.exec(&case);
        });
    }
}

fn pairs(pattern: u8, n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    match pattern {
        0 => v.extend((1..n).map(|i| (i - 1, i))),
        1 => v.extend((1..n).map(|i| (i, i - 1))),
        2 => v.extend((1..n).rev().map(|i| (i - 1, i))),
        3 => v.extend((1..n).map(|i| (0, i))),
        4 => v.extend((1..n).map(|i| (i, 0))),
        5 => v.extend((1..n).rev().map(|i| (n - 1, i - 1))),
        6 | 7 => {
            // balanced merging, joined by first or last members
            let mut s = 1;
            while s < n {
                let mut i = 0;
                while i + s < n {
                    v.push(if pattern == 6 { (i, i + s) } else { (i + s - 1, (i + 2 * s - 1).min(n - 1)) });
                    i += 2 * s;
                }
                s *= 2;
            }
        }
        8 => v.extend((2..n).map(|i| (i, i - 2))),
        9 => v.extend((0..n).map(|i| (i, i ^ 1)).filter(|p| p.1 < n)),
        10 => v.extend((0..n).map(|i| ((mix(i as u64) % n as u64) as usize, (mix(i as u64 + 77) % n as u64) as usize))),
        _ => v.extend((0..n).flat_map(|i| [(i, n - 1 - i), (i / 2, i)])),
    }
    v
}

fn naive_join(p: &mut [usize], a: usize, b: usize) {
    let (x, y) = (p[a], p[b]);
    for v in p.iter_mut() {
        if *v == x {
            *v = y;
        }
    }
}

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "every history of all operations with every argument (one index out of range included): {} ; unions only: {}; twelve union patterns on 1 to 300 and on 66,001 elements",
            if t == Tier::Quick { "length <= 4 on 2 elements, <= 3 on 3 to 4 elements" } else { "length <= 5 on 2, <= 4 on 3 to 4, <= 3 on 6 elements" },
            if t == Tier::Quick { "length <= 5 on 4, <= 4 on 5 and 6 elements" } else { "length <= 7 on 4, <= 5 on 6 elements" }
        )
    }
    fn describe(&self, case: &[u8]) -> String {
        if case[0] == b'L' {
            return format!("union pattern {} on {} elements", case[1], u32::from_le_bytes(case[2..6].try_into().unwrap()));
        }
        let mut s = if case[1] == 255 { "new()".to_string() } else { format!("with_size({})", case[1]) };
        for o in case[2..].chunks(3) {
            s += &match o[0] {
                ADD => " add()".to_string(),
                FIND => format!(" find({})", arg(o[1])),
                COMMON => format!(" common_set({}, {})", arg(o[1]), arg(o[2])),
                _ => format!(" union({}, {})", arg(o[1]), arg(o[2])),
            };
        }
        s
    }
    fn explore(&self, x: &Explorer) {
        let all = [ADD, FIND, COMMON, UNION];
        family(x, "new", 255, &ops(2, &all), x.pick(4, 5));
        for n in 0..=2u8 {
            family(x, &format!("with_size({n})"), n, &ops(n.max(1) + 1, &all), x.pick(4, 5) - (n == 2) as u32);
        }
        family(x, "with_size(3)", 3, &ops(3, &all), x.pick(3, 4));
        family(x, "with_size(4)", 4, &ops(4, &all), x.pick(3, 4));
        family(x, "with_size(6)", 6, &ops(6, &all), x.pick(2, 3));
        let only: Vec<[u8; 3]> = ops(3, &[UNION]);
        family(x, "with_size(4), unions of existing elements", 4, &only, x.pick(5, 7));
        let only: Vec<[u8; 3]> = ops(4, &[UNION]).into_iter().filter(|o| o[1] != o[2]).collect();
        family(x, "with_size(5), unions of different elements", 5, &only, x.pick(4, 5));
        let only: Vec<[u8; 3]> = ops(5, &[UNION]).into_iter().filter(|o| o[1] != o[2]).collect();
        family(x, "with_size(6), unions of different elements", 6, &only, x.pick(4, 5));
        let mixed: Vec<[u8; 3]> = [[ADD, 0, 0]].into_iter().chain(ops(7, &[UNION]).into_iter().filter(|o| o[1] < o[2])).collect();
        family(x, "with_size(6), add and unions of later elements", 6, &mixed, x.pick(4, 5));
        let h = HUGE;
        family(x, "with_size(2), the largest index", 2, &[[FIND, h, 0], [COMMON, h, 0], [COMMON, 0, h], [UNION, h, 1], [UNION, 1, h], [UNION, h, h], [UNION, 0, 1], [ADD, 0, 0]], x.pick(4, 6));
        x.par("twelve union patterns on 1 to 300 elements", 12 * 300, |w, i| {
            let n = (i / 12 + 1) as u32;
            let mut case = vec![b'L', (i % 12) as u8];
            case.extend_from_slice(&n.to_le_bytes());
            w.state();
            w.stats.transitions += n as u64;
            w.exec(&case);
        });
        x.par("twelve union patterns on many elements", 12, |w, i| {
            let n = x.pick(66_001u32, 200_000);
            let mut case = vec![b'L', i as u8];
            case.extend_from_slice(&n.to_le_bytes());
            w.state();
            w.stats.transitions += n as u64;
            w.exec(&case);
        });
    }
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
        if case[0] == b'L' {
            return large(case[1], u32::from_le_bytes(case[2..6].try_into().unwrap()) as usize);
        }
        let mut p: Vec<usize> = if case[1] == 255 { vec![] } else { (0..case[1] as usize).collect() };
        let mut fresh = 1000;
        let mut s = call("constructor", || if case[1] == 255 { DisjointSet::new() } else { DisjointSet::with_size(case[1] as usize) })?;
        for (k, o) in case[2..].chunks(3).enumerate() {
            io.steps += 1;
            let (a, b) = (arg(o[1]), arg(o[2]));
            let n = p.len();
            match o[0] {
                ADD => {
                    call("add", || s.add())?;
                    p.push(fresh);
                    fresh += 1;
                }
                FIND => {
                    let r = call("find", || s.find(a))?;
                    judge_find(&p, a, r).map_err(|m| Bad::Violation(format!("operation {k}: {m}")))?;
                }
                COMMON => {
                    let r = call("common_set", || s.common_set(a, b))?;
                    let want = if a < n && b < n { Some(p[a] == p[b]) } else { None };
                    if r != want {
                        return bad(format!("operation {k}: common_set({a}, {b}) is {r:?}, expected {want:?}"));
                    }
                }
                _ => {
                    let r = call("union", || s.union(a, b))?;
                    if r.is_some() != (a < n && b < n) {
                        return bad(format!("operation {k}: union({a}, {b}) on {n} elements reports {r:?}"));
                    }
                    if a < n && b < n {
                        naive_join(&mut p, a, b);
                    }
                }
            }
        }
        verify(&mut s, &p)
    }
}

fn judge_find(p: &[usize], a: usize, r: Option<usize>) -> Result<(), String> {
    match r {
        None if a >= p.len() => Ok(()),
        Some(q) if a < p.len() && q < p.len() && p[q] == p[a] => Ok(()),
        r => Err(format!("find({a}) is {r:?} on {} elements, not a member of its set", p.len())),
    }
}

fn verify(s: &mut DisjointSet, p: &[usize]) -> Verdict {
    let n = p.len();
    let first: Vec<Option<usize>> = (0..=n).map(|a| call("find", || s.find(a))).collect::<Result<_, _>>()?;
    for a in 0..=n {
        judge_find(p, a, first[a]).or_else(|m| bad(format!("at the end: {m}")))?;
    }
    for a in 0..n {
        for b in 0..n {
            if (first[a] == first[b]) != (p[a] == p[b]) {
                return bad(format!("at the end elements {a} and {b} are {}connected but their representatives are {:?} and {:?}", if p[a] == p[b] { "" } else { "not " }, first[a], first[b]));
            }
            if n <= 16 {
                let r = call("common_set", || s.common_set(a, b))?;
                if r != Some(p[a] == p[b]) {
                    return bad(format!("at the end common_set({a}, {b}) is {r:?}"));
                }
            }
        }
    }
    for a in 0..=n {
        if call("find", || s.find(a))? != first[a] {
            return bad(format!("asking find({a}) twice gives two answers"));
        }
    }
    if call("find", || s.find(usize::MAX))?.is_some() {
        return bad("find of the largest index found something");
    }
    ok("partition as joined", fnv(&first.iter().map(|f| f.map_or(255, |v| v as u8)).collect::<Vec<_>>()))
}

fn large(pattern: u8, n: usize) -> Verdict {
    let u = pairs(pattern, n);
    let mut s = call("with_size", || DisjointSet::with_size(n))?;
    for &(a, b) in &u {
        if call("union", || s.union(a, b))?.is_none() {
            return bad(format!("union({a}, {b}) of existing elements reports nothing"));
        }
    }
    // reference partition by graph search
    let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
    for &(a, b) in &u {
        adj[a].push(b);
        adj[b].push(a);
    }
    let mut p = vec![usize::MAX; n];
    for i in 0..n {
        if p[i] == usize::MAX {
            let mut todo = vec![i];
            p[i] = i;
            while let Some(c) = todo.pop() {
                for &d in &adj[c] {
                    if p[d] == usize::MAX {
                        p[d] = i;
                        todo.push(d);
                    }
                }
            }
        }
    }
    let mut rep = vec![usize::MAX; n];
    for a in 0..n {
        let r = call("find", || s.find(a))?;
        judge_find(&p, a, r).or_else(bad)?;
        let r = r.unwrap_or(0);
        if rep[p[a]] == usize::MAX {
            rep[p[a]] = r;
        }
        if rep[p[a]] != r {
            return bad(format!("element {a} has the representative {r}, another member of its set has {}", rep[p[a]]));
        }
    }
    ok("partition as joined (large)", mix(n as u64 * 16 + pattern as u64))
}
