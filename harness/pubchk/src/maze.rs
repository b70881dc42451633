//! C14-C21: mazes.
use crate::pixels::*;
use engine::*;
use image::{Rgb, RgbImage};
use puzzle_utils::{create_maze, print_maze, print_maze_solution, MazeAlgorithm, MazeDirection, MazeError, MazeNode};
use rand::vpctl::{self, Policy};
use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, OnceLock};

// ------------------------------------------------------------------ reading and building cells

/// (right wall, bottom wall)
pub type Wall = (bool, bool);

struct Cells {
    template: [MazeNode; 4],
    by_bytes: HashMap<Vec<u8>, usize>,
}

fn cells() -> Result<&'static Cells, Bad> {
    static C: OnceLock<Result<Cells, String>> = OnceLock::new();
    C.get_or_init(|| {
        let mut t = vec![];
        let mut by_bytes = HashMap::new();
        for k in 0..4 {
            let n: MazeNode = serde_json::from_str(&format!("{{\"right\":{},\"down\":{}}}", k & 1 == 1, k & 2 == 2)).map_err(|e| e.to_string())?;
            by_bytes.insert(bincode::serialize(&n).map_err(|e| e.to_string())?, k);
            t.push(n);
        }
        Ok(Cells { template: t.try_into().map_err(|_| "four cells".to_string())?, by_bytes })
    })
    .as_ref()
    .map_err(|e| Bad::Harness(format!("cells cannot be built from or read through serde: {e}")))
}

/// A cell with the given walls.
pub fn cell(w: Wall) -> Result<MazeNode, Bad> {
    Ok(cells()?.template[w.0 as usize | (w.1 as usize) << 1].clone())
}

pub fn walls_of(nodes: &[MazeNode], out: &mut Vec<Wall>) -> Result<(), Bad> {
    let c = cells()?;
    out.clear();
    let mut buf = [0u8; 64];
    for n in nodes {
        let mut cur = std::io::Cursor::new(&mut buf[..]);
        bincode::serialize_into(&mut cur, n).map_err(|e| Bad::Harness(e.to_string()))?;
        let len = cur.position() as usize;
        let k = if c.by_bytes.len() == 4 { c.by_bytes.get(&buf[..len]).copied() } else { None };
        let k = match k {
            Some(k) => k,
            None => {
                let v = serde_json::to_value(n).map_err(|e| Bad::Harness(e.to_string()))?;
                match (v["right"].as_bool(), v["down"].as_bool()) {
                    (Some(r), Some(d)) => r as usize | (d as usize) << 1,
                    _ => return harness(format!("cannot read the walls of a cell from {v}")),
                }
            }
        };
        out.push((k & 1 == 1, k & 2 == 2));
    }
    Ok(())
}

pub fn dir_code(d: &MazeDirection) -> u8 {
    match d {
        MazeDirection::Right => 0,
        MazeDirection::Down => 1,
        MazeDirection::Left => 2,
        MazeDirection::Up => 3,
    }
}

pub fn dir_from(c: u8) -> MazeDirection {
    match c & 3 {
        0 => MazeDirection::Right,
        1 => MazeDirection::Down,
        2 => MazeDirection::Left,
        _ => MazeDirection::Up,
    }
}

const DELTA: [(i64, i64); 4] = [(1, 0), (0, 1), (-1, 0), (0, -1)];
const NAME: [&str; 4] = ["Right", "Down", "Left", "Up"];

// ------------------------------------------------------------------ controlled generation

pub struct Gen {
    pub w: usize,
    pub h: usize,
    pub nodes: Vec<MazeNode>,
    pub dirs: Vec<MazeDirection>,
    pub walls: Vec<Wall>,
}

/// Encodes one execution: shape, default policy, prescribed first choices.
pub fn gen_case(w: usize, h: usize, p: Policy, prefix: &[u8], out: &mut Vec<u8>) {
    out.clear();
    let (t, k) = match p {
        Policy::First => (0, 0),
        Policy::Last => (1, 0),
        Policy::Mid => (2, 0),
        Policy::Lcg(k) => (3, k), // k < 65536
        Policy::Wide(k) => (4, k),
    };
    out.push(b'G');
    out.extend_from_slice(&(w as u32).to_le_bytes());
    out.extend_from_slice(&(h as u32).to_le_bytes());
    out.extend_from_slice(&[t, k as u8, (k >> 8) as u8]);
    out.extend_from_slice(prefix);
}

const HEAD: usize = 12;

fn decode(case: &[u8]) -> (usize, usize, Policy, &[u8]) {
    let u = |i: usize| u32::from_le_bytes([case[i], case[i + 1], case[i + 2], case[i + 3]]) as usize;
    let p = match case[9] {
        0 => Policy::First,
        1 => Policy::Last,
        2 => Policy::Mid,
        3 => Policy::Lcg(case[10] as u64 | (case[11] as u64) << 8),
        _ => Policy::Wide(case[10] as u64 | (case[11] as u64) << 8),
    };
    (u(1), u(5), p, &case[HEAD..])
}

pub fn describe_gen(case: &[u8]) -> String {
    let (w, h, p, prefix) = decode(case);
    let shown: Vec<u8> = prefix.iter().copied().take(200).collect();
    format!("create_maze({w}, {h}) with random choices {shown:?}{} then policy {p:?}", if prefix.len() > 200 { ".." } else { "" })
}

/// Runs the generator under the controller. Ok(None): the execution drew more than the limit.
pub fn generate(case: &[u8], io: &mut Io) -> Result<Option<Gen>, Bad> {
    let (w, h, p, prefix) = decode(case);
    let n = w * h;
    thread_local! { static PRE: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(Vec::new()) }; }
    let r = PRE.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        b.extend(prefix.iter().map(|&x| x as u32));
        vpctl::install(&b, p, 16 * n + 256, 4000 * n + 100_000);
        sut(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack))
    });
    let (_, diverged) = vpctl::finish(&mut io.trace);
    io.steps = io.trace.len() as u64;
    if diverged {
        // not repeatable (randomness from elsewhere): the execution counts, it is not extended
        io.trace.clear();
    }
    match r {
        Ok((nodes, dirs)) => {
            let mut walls = Vec::with_capacity(n);
            walls_of(&nodes, &mut walls)?;
            io.key = walls.iter().fold(n as u64, |k, w| mix(k ^ (w.0 as u64 | (w.1 as u64) << 1)));
            Ok(Some(Gen { w, h, nodes, dirs, walls }))
        }
        Err(m) if m.starts_with(vpctl::LIMIT_MSG) => Ok(None),
        Err(m) => bad(format!("create_maze panicked: {m}")),
    }
}

fn picks(trace: &[(u64, u64)], upto: usize) -> Vec<u8> {
    trace[..upto].iter().map(|t| t.1 as u8).collect()
}

/// Every choice sequence for one shape. Returns true if the tree was exhausted.
pub fn all_choices(x: &Explorer, w: usize, h: usize) -> bool {
    let front: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    const DEPTH: usize = 8;
    let a = x.par(&format!("{w}x{h}: choice tree, first {DEPTH} draws"), 1, |wk, _| {
        let mut todo = vec![vec![]];
        let mut case = vec![];
        while let Some(p) = todo.pop() {
            gen_case(w, h, Policy::First, &p, &mut case);
            if !wk.exec(&case) {
                return;
            }
            let t = &wk.io.trace;
            if p.len() < DEPTH && t.len() > p.len() {
                for alt in 0..t[p.len()].0.min(255) {
                    let mut q = p.clone();
                    q.push(alt as u8);
                    todo.push(q);
                }
            } else {
                front.lock().unwrap().push(p);
            }
        }
    });
    let front = front.into_inner().unwrap();
    // a tree larger than any of the present code (one that draws more than it needs to) is cut off
    let left = std::sync::atomic::AtomicI64::new(x.pick(8_000_000, i64::MAX));
    let b = x.par_chunk(&format!("{w}x{h}: every choice sequence"), front.len() as u64, 1, |wk, i| {
        let mut case = vec![];
        let mut todo = vec![front[i as usize].clone()];
        while let Some(p) = todo.pop() {
            if left.fetch_sub(1, std::sync::atomic::Ordering::Relaxed) <= 0 {
                return;
            }
            gen_case(w, h, Policy::First, &p, &mut case);
            if !wk.exec(&case) {
                return;
            }
            let t = std::mem::take(&mut wk.io.trace);
            wk.stats.states += (t.len().saturating_sub(p.len()) + 1) as u64;
            wk.stats.transitions += t.len().saturating_sub(p.len()) as u64;
            for at in p.len()..t.len() {
                for alt in 0..t[at].0.min(255) {
                    if alt != t[at].1 {
                        let mut q = picks(&t, at);
                        q.push(alt as u8);
                        todo.push(q);
                    }
                }
            }
            wk.io.trace = t;
        }
    });
    let whole = left.into_inner() >= 0;
    if !whole {
        x.note(format!("{w}x{h}: choice tree cut off"));
    }
    a && b && whole
}

/// Every execution with at most `k` deviations from each of the policies.
pub fn deviations(x: &Explorer, name: &str, shapes: &[(usize, usize)], policies: &[Policy], k: usize) {
    let n = shapes.len() * policies.len();
    // work item: shape, policy, position of the first deviation modulo 4
    x.par_chunk(&format!("{name}: at most {k} deviations from {} policies", policies.len()), n as u64 * 4, 1, |wk, i| {
        let (w, h) = shapes[i as usize / 4 / policies.len()];
        let pol = policies[i as usize / 4 % policies.len()];
        let slice = i as usize % 4;
        let mut case = vec![];
        let mut todo: Vec<(Vec<u8>, usize)> = vec![(vec![], k)];
        while let Some((p, left)) = todo.pop() {
            gen_case(w, h, pol, &p, &mut case);
            if !wk.exec(&case) {
                return;
            }
            if left == 0 {
                wk.stats.states += (wk.io.trace.len().saturating_sub(p.len()) + 1) as u64;
                wk.stats.transitions += wk.io.trace.len().saturating_sub(p.len()) as u64;
                continue;
            }
            let t = std::mem::take(&mut wk.io.trace);
            wk.stats.states += (t.len().saturating_sub(p.len()) + 1) as u64;
            wk.stats.transitions += t.len().saturating_sub(p.len()) as u64;
            for at in p.len()..t.len() {
                if p.is_empty() && at % 4 != slice {
                    continue;
                }
                for alt in 0..t[at].0.min(255) {
                    if alt != t[at].1 {
                        let mut q = picks(&t, at);
                        q.push(alt as u8);
                        todo.push((q, left - 1));
                    }
                }
            }
            wk.io.trace = t;
        }
    });
}

/// Explicit-state search: the states are the generated mazes, a step is one changed choice of an
/// execution that produced the maze; until no new maze appears or `cap` are known.
pub fn maze_graph(x: &Explorer, w: usize, h: usize, cap: usize) {
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    let mut depth = 0;
    while !layer.is_empty() && !x.done() {
        let next: Mutex<Vec<(u64, Vec<u8>)>> = Mutex::new(vec![]);
        let full = x.par_chunk(&format!("{w}x{h}: mazes by changing one choice, layer {depth}"), layer.len() as u64, 1, |wk, i| {
            let p = &layer[i as usize];
            let mut case = vec![];
            gen_case(w, h, Policy::First, p, &mut case);
            wk.io.key = 0;
            if !wk.exec(&case) {
                return;
            }
            if p.is_empty() && !seen.lock().unwrap().insert(wk.io.key) {
                return;
            }
            let t = std::mem::take(&mut wk.io.trace);
            for at in 0..t.len() {
                for alt in 0..t[at].0.min(255) {
                    if alt == t[at].1 {
                        continue;
                    }
                    let mut q = picks(&t, at);
                    q.push(alt as u8);
                    gen_case(w, h, Policy::First, &q, &mut case);
                    wk.io.key = 0;
                    if !wk.exec(&case) {
                        return;
                    }
                    wk.transition();
                    let key = wk.io.key;
                    let mut s = seen.lock().unwrap();
                    if key != 0 && s.len() < cap && s.insert(key) {
                        drop(s);
                        wk.state();
                        next.lock().unwrap().push((key, q));
                    }
                }
            }
        });
        if !full {
            return;
        }
        let mut next = next.into_inner().unwrap();
        next.sort();
        layer = next.into_iter().map(|n| n.1).collect();
        depth += 1;
    }
    let found = seen.into_inner().unwrap().len();
    x.note(format!("{w}x{h}: {found} different mazes visited{}", if found < cap { ", none further by one changed choice" } else { "" }));
}

pub fn lcgs(n: u64) -> Vec<Policy> {
    let mut v = vec![Policy::First, Policy::Last, Policy::Mid];
    v.extend((0..n).map(Policy::Lcg));
    v
}

fn small_shapes(cells: std::ops::RangeInclusive<usize>, side: usize) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = (1..=side).flat_map(|w| (1..=side).map(move |h| (w, h))).filter(|(w, h)| cells.contains(&(w * h))).collect();
    v.sort_by_key(|(w, h)| w * h);
    v
}

/// The generator families shared by C14, C15, C16, C20 (and, reduced, C21, C24).
pub fn explore_generator(x: &Explorer, light: bool) {
    for (w, h) in small_shapes(1..=4, 4) {
        all_choices(x, w, h);
    }
    for (w, h) in [(5, 1), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3), (3, 5), (5, 3), (4, 4), (4, 5), (5, 4)] {
        maze_graph(x, w, h, x.pick(if light { 300 } else { 4_000 }, 200_000));
    }
    if !x.quick() && !light {
        for (w, h) in [(2, 8), (8, 2), (6, 3), (3, 6), (5, 5), (6, 4), (4, 6)] {
            maze_graph(x, w, h, 300_000);
        }
    }
    let few = lcgs(x.pick(if light { 1 } else { 9 }, 29));
    deviations(x, "shapes of 5 to 25 cells, sides <= 5", &small_shapes(5..=25, 5), &few, if light { 1 } else { 2 });
    deviations(x, "shapes of 5 to 9 cells, sides <= 9", &small_shapes(5..=9, 9), &lcgs(1), x.pick(if light { 1 } else { 2 }, 4));
    deviations(x, "all shapes with sides <= 12", &small_shapes(1..=144, 12), &lcgs(x.pick(1, 13)), x.pick(if light { 0 } else { 1 }, 1));
    let big = [(20, 20), (31, 1), (1, 31), (40, 3), (3, 40), (2, 50), (50, 2), (100, 1), (1, 100), (17, 23), (64, 64), (100, 101), (255, 1), (257, 2), (2, 257), (300, 300), (33_000, 2), (2, 33_000), (66_000, 1), (1, 66_000), (65_537, 2)];
    deviations(x, "large shapes", &big, &lcgs(x.pick(if light { 1 } else { 9 }, 61)), 0);
    deviations(x, "one-cell-wide and two-cell-wide shapes to 40", &(1..=40).flat_map(|n| [(1, n), (n, 1), (2, n), (n, 2)]).collect::<Vec<_>>(), &lcgs(9), x.pick(0, 1));
    if !x.quick() {
        for (w, h) in [(1, 5), (5, 1)] {
            all_choices(x, w, h);
        }
        if !light {
            deviations(x, "shapes of 6 to 12 cells, sides <= 5", &small_shapes(6..=12, 5), &lcgs(9), 3);
            deviations(x, "medium shapes", &[(13, 13), (16, 9), (9, 16), (20, 20), (30, 7)], &lcgs(5), 1);
            all_choices(x, 3, 2);
            all_choices(x, 2, 3);
        }
    }
}

fn generator_bounds(t: Tier) -> String {
    format!(
        "random source owned by the explorer: every choice sequence for all shapes of at most {} cells; every execution with at most {} deviations from fixed policies for larger shapes (sides to 5, 9, 12, 40); graph search over the mazes themselves (one changed choice per step) for shapes to {}; single executions to 300x300, 33000x2, 2x33000, 66000x1, 1x66000 and 65537x2",
        if t == Tier::Quick { "4" } else { "4 (1x5, 5x1, 2x3, 3x2 too)" },
        if t == Tier::Quick { "2" } else { "4" },
        if t == Tier::Quick { "4x5 and 5x4" } else { "6x4, 4x6 and 5x5" }
    )
}

fn rand_assumption() -> Vec<String> {
    vec!["the random source is rand 0.8.5 with its uniform draws answered by the explorer; raw draws, if the code made any, are represented by four values".into()]
}

/// Neighbour through an open inner wall.
fn step(g: &Gen, c: usize, d: usize) -> Option<usize> {
    let (x, y) = (c % g.w, c / g.w);
    match d {
        0 if x + 1 < g.w && !g.walls[c].0 => Some(c + 1),
        1 if y + 1 < g.h && !g.walls[c].1 => Some(c + g.w),
        2 if x > 0 && !g.walls[c - 1].0 => Some(c - 1),
        3 if y > 0 && !g.walls[c - g.w].1 => Some(c - g.w),
        _ => None,
    }
}

fn distances(g: &Gen) -> Vec<usize> {
    let mut dist = vec![usize::MAX; g.w * g.h];
    let mut q = Vec::with_capacity(g.w * g.h);
    dist[0] = 0;
    q.push(0);
    let mut at = 0;
    while at < q.len() {
        let c = q[at];
        at += 1;
        for d in 0..4 {
            if let Some(n) = step(g, c, d) {
                if dist[n] == usize::MAX {
                    dist[n] = dist[c] + 1;
                    q.push(n);
                }
            }
        }
    }
    dist
}

fn hash_walls(g: &Gen) -> u64 {
    let mut h = fnv(&[g.w as u8, g.h as u8]);
    for w in &g.walls {
        h = h.wrapping_mul(5).wrapping_add(1 + w.0 as u64 + 2 * w.1 as u64);
    }
    mix(h)
}

fn sketch(g: &Gen) -> String {
    if g.w * g.h > 400 || g.walls.len() != g.w * g.h {
        return String::new();
    }
    let mut s = String::from(" maze rows (r right wall, d bottom wall, b both, . none): ");
    for (i, w) in g.walls.iter().enumerate() {
        if i > 0 && i % g.w == 0 {
            s.push('/');
        }
        s.push(match w {
            (true, true) => 'b',
            (true, false) => 'r',
            (false, true) => 'd',
            _ => '.',
        });
    }
    s.push_str("; directions, last first: ");
    for d in g.dirs.iter().rev() {
        s.push_str(&NAME[dir_code(d) as usize][..1]);
    }
    s
}

pub fn perfect(g: &Gen) -> Result<(), String> {
    let n = g.w * g.h;
    if g.walls.len() != n {
        return Err(format!("{} cells instead of {n}", g.walls.len()));
    }
    let mut open = 0;
    let mut exits = 0;
    for c in 0..n {
        if step(g, c, 0).is_some() {
            open += 1;
        }
        if step(g, c, 1).is_some() {
            open += 1;
        }
        if c % g.w == g.w - 1 && !g.walls[c].0 {
            return Err(format!("the right border is open at cell {c}"));
        }
        if c / g.w == g.h - 1 && !g.walls[c].1 {
            exits += 1;
        }
    }
    if exits > 1 {
        return Err(format!("the bottom border is open at {exits} cells"));
    }
    let reached = distances(g).iter().filter(|&&d| d != usize::MAX).count();
    if reached != n {
        return Err(format!("only {reached} of {n} cells are connected with the top-left cell"));
    }
    if open != n - 1 {
        return Err(format!("{open} open walls between {n} connected cells: some two cells are joined by two routes"));
    }
    Ok(())
}

macro_rules! gen_prop {
    ($name:ident, $id:literal, $light:expr, $check:expr) => {
        pub struct $name;
        impl Prop for $name {
            fn id(&self) -> &'static str {
                $id
            }
            fn bounds(&self, t: Tier) -> String {
                generator_bounds(t)
            }
            fn explore(&self, x: &Explorer) {
                explore_generator(x, $light)
            }
            fn describe(&self, case: &[u8]) -> String {
                describe_gen(case)
            }
            fn assumptions(&self) -> Vec<String> {
                rand_assumption()
            }
            fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
                let Some(g) = generate(case, io)? else {
                    return if $id == "C14" { bad("the generator does not come to an end") } else { ok("generation does not end (C14)", 0) };
                };
                let f: fn(&Gen) -> Result<u64, String> = $check;
                match f(&g) {
                    Ok(h) => ok("held", h),
                    Err(m) => bad(m + &sketch(&g)),
                }
            }
        }
    };
}

gen_prop!(C14, "C14", false, |g| {
    perfect(g)?;
    Ok(hash_walls(g))
});

gen_prop!(C15, "C15", false, |g| {
    if g.walls.len() != g.w * g.h {
        return Err("wrong number of cells".into());
    }
    let mut seen = vec![false; g.w * g.h];
    let mut c = 0;
    seen[0] = true;
    let mut hash = 7u64;
    for (k, d) in g.dirs.iter().rev().enumerate() {
        let d = dir_code(d);
        hash = mix(hash ^ d as u64);
        let (x, y) = ((c % g.w) as i64 + DELTA[d as usize].0, (c / g.w) as i64 + DELTA[d as usize].1);
        if x < 0 || y < 0 || x >= g.w as i64 || y >= g.h as i64 {
            return Err(format!("step {k} ({}) leaves the maze from cell {c}", NAME[d as usize]));
        }
        match step(g, c, d as usize) {
            Some(n) => c = n,
            None => return Err(format!("step {k} ({}) runs into a wall at cell {c}", NAME[d as usize])),
        }
        if seen[c] {
            return Err(format!("step {k} comes back to cell {c}"));
        }
        seen[c] = true;
    }
    if c / g.w != g.h - 1 || g.walls[c].1 {
        return Err(format!("the walk ends in cell {c}, which has no exit"));
    }
    Ok(hash)
});

gen_prop!(C16, "C16", false, |g| {
    if g.walls.len() != g.w * g.h {
        return Err("wrong number of cells".into());
    }
    let bottom = (g.h - 1) * g.w;
    let exits: Vec<usize> = (bottom..g.w * g.h).filter(|&c| !g.walls[c].1).collect();
    let [e] = exits[..] else {
        return Err(format!("cells with an open bottom border: {exits:?}"));
    };
    let dist = distances(g);
    if dist[e] == usize::MAX {
        return Err(format!("the exit cell {e} cannot be reached"));
    }
    for c in bottom..g.w * g.h {
        if dist[c] != usize::MAX && dist[c] > dist[e] {
            return Err(format!("the exit is at cell {e}, {} steps away, but cell {c} is {} steps away", dist[e], dist[c]));
        }
    }
    Ok(mix((e * 131 + dist[e]) as u64))
});

// ------------------------------------------------------------------ pictures

pub fn maze_picture(w: usize, h: usize, walls: &[Wall]) -> RgbImage {
    let mut im = RgbImage::from_pixel(w as u32 * 10 + 1, h as u32 * 10 + 1, WHITE);
    for y in 0..=h as u32 * 10 {
        im.put_pixel(0, y, BLACK);
    }
    for x in 0..=w as u32 * 10 {
        if !(1..10).contains(&x) {
            im.put_pixel(x, 0, BLACK);
        }
    }
    for (i, &(r, d)) in walls.iter().enumerate() {
        let (cx, cy) = ((i % w) as u32 * 10, (i / w) as u32 * 10);
        for k in 0..11 {
            if r {
                im.put_pixel(cx + 10, cy + k, BLACK);
            }
            if d {
                im.put_pixel(cx + k, cy + 10, BLACK);
            }
        }
    }
    im
}

gen_prop!(C20, "C20", false, |g| {
    let im = match sut(|| print_maze(g.w as u32, g.h as u32, &g.nodes)) {
        Ok(Ok(im)) => im,
        Ok(Err(e)) => return Err(format!("drawing the maze failed: {e}")),
        Err(p) => return Err(format!("drawing the maze panicked: {p}")),
    };
    let copy = im.clone();
    let sol = match sut(|| print_maze_solution(copy, &g.dirs)) {
        Ok(Ok(im)) => im,
        Ok(Err(e)) => return Err(format!("drawing the maze's own solution failed: {e}")),
        Err(p) => return Err(format!("drawing the solution panicked: {p}")),
    };
    if im.dimensions() != sol.dimensions() {
        return Err("the picture changed its size".into());
    }
    let (pw, ph) = im.dimensions();
    let mut red = vec![false; (pw * ph) as usize];
    let mut first = None;
    let (mut count, mut top, mut bottom) = (0usize, false, None);
    if im.as_raw().len() != sol.as_raw().len() {
        return Err("the picture changed its size".into());
    }
    for (k, (a, b)) in im.as_raw().chunks_exact(3).zip(sol.as_raw().chunks_exact(3)).enumerate() {
        if a == b {
            continue;
        }
        let (x, y) = (k as u32 % pw, k as u32 / pw);
        if b != RED.0 {
            return Err(format!("pixel ({x},{y}) became {b:?}"));
        }
        if a == BLACK.0 {
            return Err(format!("the trace crosses a wall at pixel ({x},{y})"));
        }
        red[k] = true;
        first.get_or_insert(k);
        count += 1;
        if y == 0 {
            if !(1..10).contains(&x) {
                return Err(format!("the trace touches the top border at ({x},0)"));
            }
            top = true;
        }
        if y == ph - 1 {
            bottom = Some(x);
        }
    }
    if !top {
        return Err("the trace does not start at the opening in the top border".into());
    }
    let Some(bx) = bottom else {
        return Err("the trace does not reach the bottom border".into());
    };
    let e = (g.h - 1) * g.w + bx as usize / 10;
    if bx % 10 == 0 || bx as usize / 10 >= g.w || g.walls[e].1 {
        return Err(format!("the trace reaches the bottom border at x={bx}, where there is no exit"));
    }
    // connected
    let mut todo = vec![first.unwrap_or(0)];
    red[todo[0]] = false;
    let mut seen = 1;
    while let Some(k) = todo.pop() {
        let (x, y) = (k as u32 % pw, k as u32 / pw);
        let mut go = |x: u32, y: u32| {
            let j = (y * pw + x) as usize;
            if red[j] {
                red[j] = false;
                seen += 1;
                todo.push(j);
            }
        };
        if x > 0 {
            go(x - 1, y);
        }
        if y > 0 {
            go(x, y - 1);
        }
        if x + 1 < pw {
            go(x + 1, y);
        }
        if y + 1 < ph {
            go(x, y + 1);
        }
    }
    if seen != count {
        return Err(format!("the trace is in pieces: {seen} of {count} pixels hang together"));
    }
    Ok(mix(hash_walls(g) ^ count as u64))
});

// ------------------------------------------------------------------ C17

pub struct C17;

fn c17_case(w: u32, h: u32, walls: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&w.to_le_bytes());
    v.extend_from_slice(&h.to_le_bytes());
    v.extend_from_slice(walls);
    v
}

/// Marks a case whose cells are built from a rule: 200, rule, cell number u32.
const RULED: u8 = 200;

fn c17_walls(case: &[u8], n: usize) -> Vec<Wall> {
    if case.first() != Some(&RULED) {
        return case.iter().map(|v| (v & 1 == 1, v & 2 == 2)).collect();
    }
    let at = u32::from_le_bytes(case[2..6].try_into().unwrap()) as usize;
    let rule = case[1];
    (0..n)
        .map(|c| {
            let bits = match rule {
                0 | 1 | 2 => if c == at { rule + 1 } else { 0 },
                3 | 4 | 5 => 3 ^ if c == at { rule - 2 } else { 0 },
                _ => (mix((c + at) as u64) >> 9) as u8 & 3,
            };
            (bits & 1 == 1, bits & 2 == 2)
        })
        .collect()
}

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "every wall combination on shapes of at most {} cells; no wall, all walls, every single wall and every single opening on all shapes with sides <= {} and on eight long ones; rules on shapes of 66,000 to 69,000 cells; cell counts 0..40 against dimensions 0..6 and 32-bit extremes",
            if t == Tier::Quick { "6" } else { "9" },
            if t == Tier::Quick { "8" } else { "16" }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a picture without cells (width or height 0 with an empty cell list) is outside the property".into()]
    }
    fn explore(&self, x: &Explorer) {
        for (w, h) in small_shapes(1..=x.pick(6, 9), 9) {
            let n = w * h;
            x.par(&format!("{w}x{h}: every wall combination"), 4u64.pow(n as u32), |wk, i| {
                let walls: Vec<u8> = (0..n).map(|c| (i >> (2 * c) & 3) as u8).collect();
                wk.state();
                wk.stats.transitions += walls.iter().map(|v| v.count_ones() as u64).sum::<u64>();
                wk.exec(&c17_case(w as u32, h as u32, &walls));
            });
        }
        let mut shapes = small_shapes(1..=400, x.pick(8, 16));
        shapes.extend([(40, 1), (1, 40), (33, 7), (7, 33), (100, 2), (2, 100), (26, 25), (5, 53)]);
        x.par_chunk("no wall, all walls, every single wall, every single opening", shapes.len() as u64 * 8, 1, |wk, i| {
            let (w, h) = shapes[i as usize / 8];
            let part = i as usize % 8;
            for k in (part..=2 * w * h).step_by(8) {
                for base in [0u8, 3] {
                    let mut walls = vec![base; w * h];
                    if k > 0 {
                        walls[(k - 1) / 2] ^= 1 << ((k - 1) % 2);
                    }
                    wk.state();
                    wk.transition();
                    wk.exec(&c17_case(w as u32, h as u32, &walls));
                }
            }
        });
        x.par("cell counts 0..=40 against dimensions 0..=6", 49 * 41, |wk, i| {
            let (d, n) = (i as u32 / 41, i as usize % 41);
            if (d / 7 * (d % 7)) as usize != n {
                wk.state();
                wk.transition();
                wk.exec(&c17_case(d / 7, d % 7, &vec![3; n]));
            }
        });
        let ext = [0u32, 1, 2, 3, 65535, 65536, 65537, 429_496_729, 429_496_730, 1 << 31, u32::MAX - 1, u32::MAX];
        x.par("32-bit extremes of the dimensions against small cell counts", 144 * 8, |wk, i| {
            let (d, n) = (i as usize / 8, i as usize % 8);
            let (w, h) = (ext[d / 12], ext[d % 12]);
            if w as u128 * h as u128 != n as u128 {
                wk.state();
                wk.transition();
                wk.exec(&c17_case(w, h, &vec![1; n]));
            }
        });
        deviations_pictures(x);
        let huge = [(66_000u32, 1u32), (1, 66_000), (257, 256), (300, 230), (33_000, 2), (2, 33_000), (6600, 10), (10, 6600)];
        let huge = &huge[..x.pick(4, 8)];
        x.par_chunk("more than 65,536 cells: six rules at eight cells, a mixed pattern", huge.len() as u64 * 49, 1, |wk, i| {
            let (w, h) = huge[i as usize / 49];
            let n = w * h;
            let (rule, at) = match i % 49 {
                48 => (9, 5),
                k => (k as u8 / 8, [0, w - 1, n - w, n - 1, 65_535.min(n - 1), 65_536.min(n - 1), n / 2, 6553][k as usize % 8]),
            };
            if x.quick() && (i % 49) % 8 < 4 && rule % 3 != 2 {
                return;
            }
            let mut v = vec![RULED, rule];
            v.extend_from_slice(&at.to_le_bytes());
            wk.state();
            wk.transition();
            wk.exec(&c17_case(w, h, &v));
        });
    }
    fn describe(&self, case: &[u8]) -> String {
        let w = u32::from_le_bytes(case[0..4].try_into().unwrap());
        let h = u32::from_le_bytes(case[4..8].try_into().unwrap());
        let n = case.len() - 8;
        if case.get(8) == Some(&RULED) {
            return format!("print_maze({w}, {h}), rule {} (0-2 only this cell has its right/bottom/both walls, 3-5 only it lacks them, 9 mixed) at cell {}", case[9], u32::from_le_bytes(case[10..14].try_into().unwrap()));
        }
        format!("print_maze({w}, {h}) of {n} cells (1 right wall, 2 bottom wall, 3 both): {:?}", &case[8..8 + n.min(300)])
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let w = u32::from_le_bytes(case[0..4].try_into().unwrap());
        let h = u32::from_le_bytes(case[4..8].try_into().unwrap());
        let walls = c17_walls(&case[8..], w as usize * h as usize);
        let nodes: Vec<MazeNode> = walls.iter().map(|&w| cell(w)).collect::<Result<_, _>>()?;
        let r = call("print_maze", || print_maze(w, h, &nodes))?;
        let fits = w as u128 * h as u128 == walls.len() as u128;
        match r {
            Err(MazeError::InvalidDimensions) if !fits => ok("mismatch refused", 1),
            Ok(im) if fits => match first_difference(&im, &maze_picture(w as usize, h as usize, &walls)) {
                None => ok("picture as specified", fnv(&case[..case.len().min(4096)])),
                Some(d) => bad(d),
            },
            Ok(_) => bad(format!("{} cells were drawn as {w}x{h}", walls.len())),
            Err(e) => bad(format!("refused: {e}")),
        }
    }
}

fn deviations_pictures(x: &Explorer) {
    // structured wall patterns on larger shapes: stripes, checks, combs
    let mut shapes = small_shapes(1..=600, x.pick(12, 24));
    shapes.extend([(60, 1), (1, 60), (50, 9), (9, 50)]);
    x.par("sixteen wall patterns on every shape", shapes.len() as u64 * 16, |wk, i| {
        let (w, h) = shapes[i as usize / 16];
        let k = i as usize % 16;
        let walls: Vec<u8> = (0..w * h).map(|c| (mix((c % w * (1 + k) + c / w * (3 + k % 5) + k) as u64) >> 7) as u8 & 3).collect();
        wk.state();
        wk.stats.transitions += (w * h) as u64;
        wk.exec(&c17_case(w as u32, h as u32, &walls));
    });
}

// ------------------------------------------------------------------ C18, C19

/// case: pixel width u32, pixel height u32, background u8, then directions (one per byte)
fn trace_case(pw: usize, ph: usize, bg: u8, dirs: &[u8], out: &mut Vec<u8>) {
    out.clear();
    out.extend_from_slice(&(pw as u32).to_le_bytes());
    out.extend_from_slice(&(ph as u32).to_le_bytes());
    out.push(bg);
    out.extend_from_slice(dirs);
}

fn background(pw: u32, ph: u32, bg: u8) -> RgbImage {
    match bg {
        0 => RgbImage::from_pixel(pw, ph, WHITE),
        1 => RgbImage::from_fn(pw, ph, |x, y| if x % 10 == 0 || y % 10 == 0 { BLACK } else { WHITE }),
        2 => RgbImage::from_fn(pw, ph, |x, y| Rgb([(x * 7) as u8, (y * 5) as u8, (x ^ y) as u8])),
        _ => RgbImage::from_pixel(pw, ph, RED),
    }
}

const TRACE: usize = 9;

fn describe_trace(case: &[u8]) -> String {
    let u = |i: usize| u32::from_le_bytes(case[i..i + 4].try_into().unwrap());
    let s: String = case[TRACE..].iter().take(400).map(|&d| NAME[d as usize & 3].chars().next().unwrap()).collect();
    format!("print_maze_solution on a {}x{} pixel picture (background {}), directions first to last: {s}{}", u(0), u(4), case[8], if case.len() > 409 { ".." } else { "" })
}

fn run_trace(case: &[u8]) -> Result<(u32, u32, RgbImage, Result<Result<RgbImage, MazeError>, String>), Bad> {
    let u = |i: usize| u32::from_le_bytes(case[i..i + 4].try_into().unwrap());
    let (pw, ph) = (u(0), u(4));
    let dirs: Vec<MazeDirection> = case[TRACE..].iter().map(|&d| dir_from(d)).collect();
    let im = background(pw, ph, case[8]);
    let arg = im.clone();
    let r = sut(|| print_maze_solution(arg, &dirs));
    Ok((pw, ph, im, r))
}

/// Cells walked through, or the step that leaves a W x H maze.
fn walk(dirs: &[u8], w: i64, h: i64) -> Result<(i64, i64), usize> {
    let (mut x, mut y) = (0, 0);
    for (k, &d) in dirs.iter().rev().enumerate() {
        x += DELTA[d as usize & 3].0;
        y += DELTA[d as usize & 3].1;
        if x < 0 || y < 0 || x >= w || y >= h {
            return Err(k);
        }
    }
    Ok((x, y))
}

fn explore_traces(x: &Explorer, sizes: bool) {
    let side = 4;
    let len = x.pick(8u32, 10);
    for (w, h) in small_shapes(1..=16, side) {
        for l in 0..=len {
            x.par(&format!("{w}x{h} cells: every direction list of length {l}"), 4u64.pow(l), |wk, mut i| {
                let mut d = vec![];
                let bg = (i % 3) as u8;
                for _ in 0..l {
                    d.push((i % 4) as u8);
                    i /= 4;
                }
                let mut case = vec![];
                trace_case(10 * w + 1, 10 * h + 1, bg, &d, &mut case);
                wk.state();
                wk.stats.transitions += l as u64;
                wk.exec(&case);
            });
        }
    }
    let mut shapes = vec![(12, 3), (3, 12), (26, 2), (2, 26), (7, 7), (1, 30), (30, 1), (27, 1), (1, 27)];
    if !x.quick() {
        shapes.extend([(14, 14), (52, 3), (3, 52), (105, 1), (1, 105), (20, 5), (5, 20)]);
    }
    for (w, h) in shapes {
        let (a, b) = (w as u64 + 2, h as u64 + 2);
        for kind in 0..2 {
            x.par(&format!("{w}x{h} cells: every list of four runs, {}", ["right down left up", "down right up left"][kind]), a * b * a * b, |wk, mut i| {
                let mut d = vec![];
                let bg = (i % 3) as u8;
                let runs = if kind == 0 { [(0, a), (1, b), (2, a), (3, b)] } else { [(1, b), (0, a), (3, b), (2, a)] };
                for (dir, m) in runs {
                    d.extend(std::iter::repeat_n(dir as u8, (i % m) as usize));
                    i /= m;
                }
                d.reverse();
                let mut case = vec![];
                trace_case(10 * w + 1, 10 * h + 1, bg, &d, &mut case);
                wk.state();
                wk.stats.transitions += d.len() as u64;
                wk.exec(&case);
            });
        }
    }
    x.par("sweeps over whole mazes (row by row, column by column, to and fro, long wandering)", 24 * 24 * 3, |wk, i| {
        let (w, h, k) = ((i / 3 % 24) as usize + 1, (i / 72) as usize + 1, i % 3);
        let mut d = vec![];
        match k {
            0 => {
                for y in 0..h {
                    d.extend(std::iter::repeat_n(if y % 2 == 0 { 0u8 } else { 2 }, w - 1));
                    if y + 1 < h {
                        d.push(1);
                    }
                }
            }
            1 => {
                for c in 0..w {
                    d.extend(std::iter::repeat_n(if c % 2 == 0 { 1u8 } else { 3 }, h - 1));
                    if c + 1 < w {
                        d.push(0);
                    }
                }
            }
            _ => {
                // out and back along every border, then 300 wandering steps kept inside
                for (dir, n) in [(0u8, w), (1, h), (2, w), (3, h), (1, h), (0, w), (3, h), (2, w)] {
                    d.extend(std::iter::repeat_n(dir, n - 1));
                }
                let (mut x, mut y) = (0i64, 0i64);
                for s in 0..300u64 {
                    let dir = (mix(s * 31 + i) % 4) as usize;
                    let (nx, ny) = (x + DELTA[dir].0, y + DELTA[dir].1);
                    if nx >= 0 && ny >= 0 && nx < w as i64 && ny < h as i64 {
                        d.push(dir as u8);
                        (x, y) = (nx, ny);
                    }
                }
            }
        }
        d.reverse();
        let mut case = vec![];
        trace_case(10 * w + 1, 10 * h + 1, 1, &d, &mut case);
        wk.state();
        wk.stats.transitions += d.len() as u64;
        wk.exec(&case);
        // and one step too far at each edge from the end
        for extra in 0..4u8 {
            let mut e = vec![extra];
            e.extend_from_slice(&d);
            trace_case(10 * w + 1, 10 * h + 1, 0, &e, &mut case);
            wk.state();
            wk.transition();
            wk.exec(&case);
        }
    });
    x.par_chunk("mazes whose pixels pass 65,536: there, back, one step too far", 4 * 6, 1, |wk, i| {
        let (w, h, dir) = [(6600usize, 1usize, 0u8), (1, 6600, 1), (8000, 2, 0), (2, 8000, 1)][i as usize / 6];
        let n = w.max(h) - 1;
        let mut d = vec![dir; [n, n, n + 1, 6553, 6554, n][i as usize % 6]];
        match i % 6 {
            1 => d.extend(vec![dir + 2; n]),
            5 => d.extend(vec![dir + 2; n + 1]),
            _ => {}
        }
        d.reverse();
        let mut case = vec![];
        trace_case(10 * w + 1, 10 * h + 1, 0, &d, &mut case);
        wk.state();
        wk.stats.transitions += d.len() as u64;
        wk.exec(&case);
    });
    if sizes {
        let l = x.pick(3u32, 5);
        let m = x.pick(34u64, 60);
        x.par("every picture size in pixels, every short direction list", m * m, |wk, i| {
            let (pw, ph) = ((i % m) as usize, (i / m) as usize);
            let mut case = vec![];
            for len in 0..=l {
                for mut j in 0..4u64.pow(len) {
                    let mut d = vec![];
                    for _ in 0..len {
                        d.push((j % 4) as u8);
                        j /= 4;
                    }
                    trace_case(pw, ph, (i % 3) as u8, &d, &mut case);
                    wk.state();
                    wk.stats.transitions += len as u64;
                    wk.exec(&case);
                }
            }
        });
        x.par("thin pictures with long lists", 12 * 12 * 4, |wk, i| {
            let (a, d, dir) = ([0, 1, 5, 6, 7, 10, 11, 12, 15, 16, 300, 65535][i as usize / 48], [0, 1, 5, 6, 7, 10, 11, 12, 15, 16, 20, 21][i as usize / 4 % 12], (i % 4) as u8);
            for (pw, ph) in [(a, d), (d, a)] {
                let mut case = vec![];
                for n in [0usize, 1, 2, 29, 30, 6553, 6554] {
                    trace_case(pw, ph, 0, &vec![dir; n], &mut case);
                    wk.state();
                    wk.transition();
                    wk.exec(&case);
                }
            }
        });
    }
}

pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every direction list of length <= {} on all mazes with sides <= 4; every four-run list on mazes to 30 cells a side; sweeps on all mazes with sides <= 24; straight walks on mazes of 6,600 and 8,000 cells; all picture sizes in pixels below {} with short lists; three backgrounds", t_len(t), if t == Tier::Quick { 34 } else { 60 })
    }
    fn explore(&self, x: &Explorer) {
        explore_traces(x, true)
    }
    fn describe(&self, case: &[u8]) -> String {
        describe_trace(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let (_, _, before, r) = run_trace(case)?;
        let im = match r {
            Ok(Ok(im)) => im,
            Ok(Err(_)) => return ok("refused", 1),
            Err(_) => return ok("panicked (C19)", 2),
        };
        let mut want = before;
        let (mut x, mut y) = (0i64, 0i64);
        let mut ok_ = true;
        let (pw, ph) = want.dimensions();
        let mut put = |x: i64, y: i64| {
            if x < 0 || y < 0 || x >= pw as i64 || y >= ph as i64 {
                ok_ = false;
            } else {
                want.put_pixel(x as u32, y as u32, RED);
            }
        };
        for k in 0..=5 {
            put(5, k);
        }
        for &d in case[TRACE..].iter().rev() {
            let (dx, dy) = DELTA[d as usize & 3];
            for k in 0..=10 {
                put(x * 10 + 5 + dx * k, y * 10 + 5 + dy * k);
            }
            x += dx;
            y += dy;
        }
        for k in 1..=5 {
            put(x * 10 + 5, y * 10 + 5 + k);
        }
        if !ok_ {
            return bad("a walk that runs off the picture was drawn");
        }
        match first_difference(&im, &want) {
            None => ok("trace as specified", fnv(&case[..case.len().min(64)])),
            Some(d) => bad(d),
        }
    }
}

fn t_len(t: Tier) -> u32 {
    if t == Tier::Quick {
        8
    } else {
        10
    }
}

pub struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn bounds(&self, t: Tier) -> String {
        C18.bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        explore_traces(x, true)
    }
    fn describe(&self, case: &[u8]) -> String {
        describe_trace(case)
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let (pw, ph, _, r) = run_trace(case)?;
        let r = match r {
            Ok(r) => r,
            Err(m) => return bad(format!("print_maze_solution panicked: {m}")),
        };
        if pw < 6 || ph < 6 {
            return match r {
                Err(MazeError::InvalidDimensions) => ok("too small a picture", 3),
                Ok(_) => bad("a picture narrower or lower than 6 pixels was accepted"),
                Err(e) => bad(format!("a picture narrower or lower than 6 pixels was refused with '{e}'")),
            };
        }
        if pw % 10 != 1 || ph % 10 != 1 {
            return ok("not a maze picture: no panic", 4 + r.is_ok() as u64);
        }
        let (w, h) = (pw as i64 / 10, ph as i64 / 10);
        match (walk(&case[TRACE..], w, h), r) {
            (Ok(_), Ok(_)) => ok("accepted", fnv(&case[..case.len().min(64)])),
            (Err(_), Err(MazeError::InvalidSolution)) => ok("leaving walk refused", 6),
            (Ok(c), Err(e)) => bad(format!("refused with '{e}' although the walk stays within {w}x{h} cells (it ends in column {}, row {})", c.0, c.1)),
            (Err(k), Ok(_)) => bad(format!("accepted although step {k} leaves the {w}x{h} cells")),
            (Err(_), Err(e)) => bad(format!("a walk that leaves was refused with '{e}'")),
        }
    }
}

// ------------------------------------------------------------------ C21

pub struct C21;

/// cases: 'G'.. a generated maze; 'N' w h walls.. ; 'D' directions..
impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn bounds(&self, t: Tier) -> String {
        format!("every cell; every grid of at most {} cells; every direction list of length <= {}; all single walls on larger grids; generated mazes: {}; JSON text, JSON value and positional binary (bincode), from memory and from a reader", if t == Tier::Quick { 6 } else { 8 }, if t == Tier::Quick { 7 } else { 9 }, generator_bounds(t))
    }
    fn assumptions(&self) -> Vec<String> {
        rand_assumption()
    }
    fn explore(&self, x: &Explorer) {
        for (w, h) in small_shapes(1..=x.pick(6, 8), 8) {
            let n = w * h;
            x.par(&format!("{w}x{h}: every wall combination"), 4u64.pow(n as u32), |wk, i| {
                let mut case = vec![b'N', w as u8, h as u8];
                case.extend((0..n).map(|c| (i >> (2 * c) & 3) as u8));
                wk.state();
                wk.transition();
                wk.exec(&case);
            });
        }
        for l in 0..=x.pick(7u32, 9) {
            x.par(&format!("every direction list of length {l}"), 4u64.pow(l), |wk, mut i| {
                let mut case = vec![b'D'];
                for _ in 0..l {
                    case.push((i % 4) as u8);
                    i /= 4;
                }
                wk.state();
                wk.transition();
                wk.exec(&case);
            });
        }
        x.par("every single wall or opening on shapes with sides <= 7", 49 * 2 * 99, |wk, i| {
            let (w, h) = (i as usize / 198 % 7 + 1, i as usize / 198 / 7 + 1);
            let k = i as usize % 99;
            if k <= 2 * w * h {
                let mut walls = vec![if i / 99 % 2 == 0 { 0u8 } else { 3 }; w * h];
                if k > 0 {
                    walls[(k - 1) / 2] ^= 1 << ((k - 1) % 2);
                }
                let mut case = vec![b'N', w as u8, h as u8];
                case.extend(walls);
                wk.state();
                wk.transition();
                wk.exec(&case);
            }
        });
        explore_generator(x, true);
    }
    fn describe(&self, case: &[u8]) -> String {
        match case[0] {
            b'G' => format!("serialise {}", describe_gen(case)),
            b'N' => format!("serialise a {}x{} grid with walls {:?}", case[1], case[2], &case[3..]),
            _ => format!("serialise directions {:?}", case[1..].iter().map(|&d| NAME[d as usize]).collect::<Vec<_>>()),
        }
    }
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
        let e = |what: &str, e: String| Bad::Violation(format!("{what}: {e}"));
        match case[0] {
            b'G' => {
                let (w, h, ..) = decode(case);
                let Some((nodes, dirs)) = generate_raw(case, io)? else {
                    return ok("generation does not end (C14)", 0);
                };
                if nodes.len() != w * h {
                    return ok("wrong number of cells (C14)", 0);
                }
                let pic = if w * h <= 1200 { print_maze(w as u32, h as u32, &nodes).ok() } else { None };
                let a = round(&nodes, |n| pic.as_ref().map(|p| (p, print_maze(w as u32, h as u32, n).ok())), None)?;
                let b = round_dirs(&dirs)?;
                ok("generated maze survives", a ^ b.rotate_left(7))
            }
            b'N' => {
                let (w, h) = (case[1] as usize, case[2] as usize);
                // the cells in the documented text form
                let text = format!("[{}]", case[3..].iter().map(|v| format!("{{\"right\":{},\"down\":{}}}", v & 1 == 1, v & 2 == 2)).collect::<Vec<_>>().join(","));
                let nodes: Vec<MazeNode> = serde_json::from_str(&text).map_err(|x| e("the documented JSON form is not read", x.to_string()))?;
                let pic = print_maze(w as u32, h as u32, &nodes).map_err(|x| e("drawing", x.to_string()))?;
                let walls: Vec<Wall> = case[3..].iter().map(|v| (v & 1 == 1, v & 2 == 2)).collect();
                if let Some(d) = first_difference(&pic, &maze_picture(w, h, &walls)) {
                    return bad(format!("a grid read from JSON draws other walls: {d}"));
                }
                let a = round(&nodes, |n| Some((&pic, print_maze(w as u32, h as u32, n).ok())), Some(&walls))?;
                ok("grid survives", a)
            }
            _ => {
                let dirs: Vec<MazeDirection> = case[1..].iter().map(|&d| dir_from(d)).collect();
                ok("directions survive", round_dirs(&dirs)?)
            }
        }
    }
}

type Raw = (Vec<MazeNode>, Vec<MazeDirection>);
fn generate_raw(case: &[u8], io: &mut Io) -> Result<Option<Raw>, Bad> {
    let (w, h, p, prefix) = decode(case);
    let n = w * h;
    let pre: Vec<u32> = prefix.iter().map(|&x| x as u32).collect();
    vpctl::install(&pre, p, 16 * n + 256, 4000 * n + 100_000);
    let r = sut(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack));
    let (_, diverged) = vpctl::finish(&mut io.trace);
    if diverged {
        io.trace.clear();
    }
    Ok(r.ok())
}

fn round<'p>(nodes: &[MazeNode], draw: impl Fn(&[MazeNode]) -> Option<(&'p RgbImage, Option<RgbImage>)>, walls: Option<&[Wall]>) -> Result<u64, Bad> {
    let v = |m: String| Bad::Violation(m);
    let value = call("serialising", || serde_json::to_value(nodes))?.map_err(|x| v(format!("cells cannot be serialised to JSON: {x}")))?;
    let arr = value.as_array().cloned().unwrap_or_default();
    if arr.len() != nodes.len() {
        return bad(format!("{} cells became {} JSON entries", nodes.len(), arr.len()));
    }
    for (i, c) in arr.iter().enumerate() {
        let o = c.as_object().ok_or_else(|| v(format!("a cell is written as {c}")))?;
        let (Some(r), Some(d)) = (o.get("right").and_then(|x| x.as_bool()), o.get("down").and_then(|x| x.as_bool())) else {
            return bad(format!("a cell is written as {c}, without the boolean fields right and down"));
        };
        if o.len() != 2 {
            return bad(format!("a cell is written as {c}"));
        }
        if let Some(w) = walls {
            if (r, d) != w[i] {
                return bad(format!("cell {i} with walls {:?} is written as {c}", w[i]));
            }
        }
    }
    let text = serde_json::to_string(nodes).map_err(|x| v(format!("cells cannot be serialised to JSON: {x}")))?;
    let back: Vec<MazeNode> = call("reading back", || serde_json::from_str(&text))?.map_err(|x| v(format!("the written JSON is not read back: {x}")))?;
    let bytes = call("serialising", || bincode::serialize(nodes))?.map_err(|x| v(format!("cells cannot be serialised to binary: {x}")))?;
    let bback: Vec<MazeNode> = call("reading back", || bincode::deserialize(&bytes))?.map_err(|x| v(format!("the written binary form is not read back: {x}")))?;
    let vback: Vec<MazeNode> = call("reading back", || serde_json::from_value(value))?.map_err(|x| v(format!("the written JSON value is not read back: {x}")))?;
    // through a reader nothing can be borrowed from the text
    let pretty = serde_json::to_string_pretty(nodes).map_err(|x| v(format!("cells cannot be serialised to JSON: {x}")))?;
    let rback: Vec<MazeNode> = call("reading back", || serde_json::from_reader(pretty.as_bytes()))?.map_err(|x| v(format!("the written JSON is not read back from a reader: {x}")))?;
    let rbback: Vec<MazeNode> = call("reading back", || bincode::deserialize_from(&bytes[..]))?.map_err(|x| v(format!("the written binary form is not read back from a reader: {x}")))?;
    for (form, b) in [("JSON text", &back), ("binary", &bback), ("JSON value", &vback), ("JSON from a reader", &rback), ("binary from a reader", &rbback)] {
        if b.len() != nodes.len() {
            return bad(format!("{} cells became {} through {form}", nodes.len(), b.len()));
        }
        if serde_json::to_string(b).ok().as_deref() != Some(&text) {
            return bad(format!("cells re-read from {form} serialise differently"));
        }
        if bincode::serialize(b).ok().as_deref() != Some(&bytes) {
            return bad(format!("cells re-read from {form} have another binary form"));
        }
        if let Some((want, got)) = draw(b) {
            match got {
                Some(im) => {
                    if let Some(d) = first_difference(&im, want) {
                        return bad(format!("cells re-read from {form} draw another picture: {d}"));
                    }
                }
                None => return bad(format!("cells re-read from {form} cannot be drawn")),
            }
        }
    }
    Ok(fnv(&bytes[..bytes.len().min(4096)]))
}

fn round_dirs(dirs: &[MazeDirection]) -> Result<u64, Bad> {
    let v = |m: String| Bad::Violation(m);
    let codes: Vec<u8> = dirs.iter().map(dir_code).collect();
    let value = serde_json::to_value(dirs).map_err(|x| v(format!("directions cannot be serialised: {x}")))?;
    let names: Vec<&str> = codes.iter().map(|&c| NAME[c as usize]).collect();
    if value != serde_json::json!(names) {
        return bad(format!("directions {names:?} are written as {value}"));
    }
    let text = serde_json::to_string(dirs).map_err(|x| v(format!("directions cannot be serialised: {x}")))?;
    let back: Vec<MazeDirection> = serde_json::from_str(&text).map_err(|x| v(format!("the written directions are not read back: {x}")))?;
    let bytes = bincode::serialize(dirs).map_err(|x| v(format!("directions cannot be serialised to binary: {x}")))?;
    let bback: Vec<MazeDirection> = bincode::deserialize(&bytes).map_err(|x| v(format!("the binary directions are not read back: {x}")))?;
    let vback: Vec<MazeDirection> = serde_json::from_value(value).map_err(|x| v(format!("the written JSON value of directions is not read back: {x}")))?;
    let pretty = serde_json::to_string_pretty(dirs).map_err(|x| v(format!("directions cannot be serialised: {x}")))?;
    let rback: Vec<MazeDirection> = serde_json::from_reader(pretty.as_bytes()).map_err(|x| v(format!("the written directions are not read back from a reader: {x}")))?;
    let rbback: Vec<MazeDirection> = bincode::deserialize_from(&bytes[..]).map_err(|x| v(format!("the binary directions are not read back from a reader: {x}")))?;
    for (form, b) in [("JSON", &back), ("binary", &bback), ("a JSON value", &vback), ("JSON from a reader", &rback), ("binary from a reader", &rbback)] {
        let c: Vec<u8> = b.iter().map(dir_code).collect();
        if c != codes {
            return bad(format!("directions {names:?} read back from {form} as {:?}", c.iter().map(|&c| NAME[c as usize]).collect::<Vec<_>>()));
        }
    }
    Ok(fnv(&codes))
}
