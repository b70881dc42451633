//! C24: random selection, and the mazes that can be produced.
use crate::maze;
use engine::*;
#[cfg(any(vp_hooks, vp_random))]
use puzzle_utils::vp_hooks::choose_random;
use rand::vpctl::{self, Policy};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

/// Without the hook (see check.sh) only the mazes are judged.
const LISTS: bool = cfg!(any(vp_hooks, vp_random));
#[cfg(not(any(vp_hooks, vp_random)))]
fn choose_random<T>(list: &mut Vec<T>) -> Option<T> {
    list.pop()
}

pub struct C24;

// 'C', n (two bytes): one choice from n elements, every outcome
// 'D', n, prefix..: draining a list of n elements
// 'G'..: a generated maze
// 'T', w, h, kind: can the one long winding passage of this kind be carved? (steered choice by choice)
// 'P': mazes and choices without the controller, in several fresh processes
// 'R', w, h, walls..: can this maze be produced? (exhaustive search up to 4 cells, else WITNESSES and a graph search)

/// Shapes whose choice tree is too large to exhaust: every depth-first maze must be met by the graph
/// search (maze_graph) or by one of this many pseudo-random executions.
const WITNESSES: u64 = 60_000;

static UNCONTROLLED: AtomicBool = AtomicBool::new(false);

type Seen = HashMap<(usize, usize), HashSet<Vec<u8>>>;
static SEEN: Mutex<Option<Seen>> = Mutex::new(None);
thread_local! { static MINE: RefCell<Seen> = RefCell::new(HashMap::new()); }

fn pack(walls: &[maze::Wall]) -> Vec<u8> {
    walls.iter().map(|w| w.0 as u8 | (w.1 as u8) << 1).collect()
}

fn remember(w: usize, h: usize, walls: &[maze::Wall]) {
    let mut v = pack(walls);
    // the exit is not part of the carving
    for c in (h - 1) * w..w * h {
        v[c] |= 2;
    }
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        let set = m.entry((w, h)).or_default();
        if set.insert(v.clone()) {
            SEEN.lock().unwrap().get_or_insert_with(HashMap::new).entry((w, h)).or_default().insert(v);
        }
    });
}

/// Every maze depth-first carving from the top-left cell can produce.
pub fn dfs_mazes(w: usize, h: usize) -> BTreeSet<Vec<u8>> {
    fn go(w: usize, h: usize, path: &mut Vec<usize>, seen: u64, walls: &mut Vec<u8>, out: &mut BTreeSet<Vec<u8>>, memo: &mut HashSet<(Vec<usize>, Vec<u8>)>) {
        if !memo.insert((path.clone(), walls.clone())) {
            return;
        }
        let Some(&c) = path.last() else {
            out.insert(walls.clone());
            return;
        };
        let (x, y) = (c % w, c / w);
        let mut moved = false;
        for d in 0..4 {
            let (n, cell, bit) = match d {
                0 if x + 1 < w => (c + 1, c, 1),
                1 if y + 1 < h => (c + w, c, 2),
                2 if x > 0 => (c - 1, c - 1, 1),
                3 if y > 0 => (c - w, c - w, 2),
                _ => continue,
            };
            if seen >> n & 1 == 1 {
                continue;
            }
            moved = true;
            walls[cell] &= !bit;
            path.push(n);
            go(w, h, path, seen | 1 << n, walls, out, memo);
            path.pop();
            walls[cell] |= bit;
        }
        if !moved {
            path.pop();
            go(w, h, path, seen, walls, out, memo);
            path.push(c);
        }
    }
    let mut out = BTreeSet::new();
    go(w, h, &mut vec![0], 1, &mut vec![3; w * h], &mut out, &mut HashSet::new());
    out
}

fn explore_lists(x: &Explorer) {
    let lengths: Vec<u64> = (0..=x.pick(300, 600)).chain([511, 512, 513, 1000, 1023, 1024, 1025]).chain(x.pick(vec![], vec![2048, 4095, 4096, 4097, 8192, 10_000])).collect();
    x.par_chunk("one choice from a list of n elements, every outcome", lengths.len() as u64, 1, |w, i| {
        let n = lengths[i as usize];
        w.state();
        w.stats.transitions += n;
        w.exec(&[b'C', n as u8, (n >> 8) as u8]);
    });
    for n in 0..=x.pick(7u8, 8) {
        x.par_chunk(&format!("draining a list of {n} elements, every outcome sequence"), n.max(1) as u64, 1, |w, first| {
            let mut todo: Vec<Vec<u8>> = vec![if n == 0 { vec![] } else { vec![first as u8] }];
            let mut left = 100_000;
            while let Some(p) = todo.pop() {
                // (the present code has 5,040 sequences of seven; one that draws more often has more)
                left -= 1;
                if left == 0 {
                    return;
                }
                let mut case = vec![b'D', n];
                case.extend_from_slice(&p);
                w.stats.states += 1;
                w.stats.transitions += 1;
                if !w.exec(&case) {
                    return;
                }
                let t = w.io.trace.clone();
                for at in p.len()..t.len() {
                    for alt in 0..t[at].0.min(64) {
                        if alt != t[at].1 {
                            let mut q: Vec<u8> = t[..at].iter().map(|v| v.1 as u8).collect();
                            q.push(alt as u8);
                            todo.push(q);
                        }
                    }
                }
            }
        });
    }
}

/// Pseudo-random executions; raw draws, if there are any, take any value.
fn wide_executions(x: &Explorer, w: usize, h: usize) {
    x.par(&format!("{w}x{h}: {WITNESSES} pseudo-random executions"), WITNESSES, |wk, i| {
        let mut case = vec![];
        maze::gen_case(w, h, Policy::Wide(i), &[], &mut case);
        wk.exec(&case);
    });
}

impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn hang_s(&self) -> u64 {
        60
    }
    fn bounds(&self, t: Tier) -> String {
        format!("one choice from every list of at most 300 elements and of up to {} elements, every outcome; draining every list of at most {} elements, every outcome sequence; generator: every choice sequence for shapes of at most 4 cells{} and of shapes up to {} all executions reached by changing one choice at a time until no new maze appears (produced mazes compared with all depth-first mazes), deviations from fixed policies on larger shapes (depth-first criterion)", if t == Tier::Quick { 1025 } else { 10_000 }, if t == Tier::Quick { 7 } else { 8 }, if t == Tier::Quick { "" } else { ", 1x5, 5x1, 2x3, 3x2" }, if t == Tier::Quick { "4x4" } else { "5x5" })
    }
    fn assumptions(&self) -> Vec<String> {
        let lists = if LISTS { "lists: chosen from directly" } else { "DEGRADED: the choice function could not be reached; only the mazes were judged" };
        vec![lists.into(), "the random source is rand 0.8.5 with its uniform draws answered by the explorer; raw draws, if the code made any, are represented by 64 evenly spaced values (lists) or four (mazes)".into(), format!("beyond the shapes whose choice tree is exhausted, a depth-first maze counts as unreachable only if neither the search over single changed choices nor {WITNESSES} pseudo-random executions produce it")]
    }
    fn describe(&self, case: &[u8]) -> String {
        match case[0] {
            b'C' => format!("choose_random on a list of {} elements, every outcome", case[1] as usize | (case[2] as usize) << 8),
            b'D' => format!("choose_random until the list of {} elements is empty, outcomes {:?}", case[1], &case[2..]),
            b'T' => format!("a {}x{} maze that is one winding passage ({})", case[1], case[2], ["row by row", "column by column", "spiral, clockwise", "spiral, anticlockwise"][case[3] as usize % 4]),
            b'P' => "mazes and choices made in fresh processes, without the explorer's answers".into(),
            b'R' => format!("is the {}x{} maze {:?} (1 right wall, 2 bottom wall) ever produced?", case[1], case[2], &case[3..]),
            _ => maze::describe_gen(case),
        }
    }
    fn explore(&self, x: &Explorer) {
        x.par("fresh processes without the explorer's answers", 1, |w, _| {
            w.exec(b"P");
        });
        if LISTS {
            explore_lists(x);
        }
        let mut shapes = vec![(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (2, 2)];
        maze::deviations(x, "shapes of 5 to 16 cells, sides <= 5", &[(2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4), (5, 3), (3, 5), (1, 5), (5, 1)], &maze::lcgs(x.pick(9, 29)), 2);
        maze::deviations(x, "larger shapes", &[(5, 5), (8, 8), (12, 5), (5, 12), (20, 20), (1, 30), (30, 1), (2, 25), (25, 2), (64, 64)], &maze::lcgs(x.pick(9, 61)), 0);
        if !x.quick() {
            shapes.extend([(1, 5), (5, 1), (2, 3), (3, 2)]);
        }
        for (w, h) in shapes {
            if !maze::all_choices(x, w, h) || UNCONTROLLED.load(SeqCst) {
                continue;
            }
            let want = dfs_mazes(w, h);
            let seen = SEEN.lock().unwrap().as_ref().and_then(|s| s.get(&(w, h)).cloned()).unwrap_or_default();
            x.note(format!("{w}x{h}: {} of {} depth-first mazes produced, choice tree exhausted", want.iter().filter(|m| seen.contains(*m)).count(), want.len()));
            if want.iter().any(|m| !seen.contains(m)) {
                wide_executions(x, w, h);
                if x.done() {
                    return;
                }
            }
            let seen = SEEN.lock().unwrap().as_ref().and_then(|s| s.get(&(w, h)).cloned()).unwrap_or_default();
            if let Some(m) = want.iter().find(|m| !seen.contains(*m)) {
                let mut case = vec![b'R', w as u8, h as u8];
                case.extend_from_slice(m);
                x.report("reachable mazes", case, format!("no sequence of random choices produces the {w}x{h} maze {m:?}, which depth-first carving can produce ({} of {} are produced)", seen.len(), want.len()));
                return;
            }
        }
        let long: Vec<(u8, u8)> = x.pick(vec![(2, 2), (3, 3), (5, 5), (8, 8), (16, 16), (24, 24), (33, 33), (3, 90), (90, 3), (2, 255), (255, 2), (48, 48), (1, 255), (255, 1)], vec![(2, 2), (3, 3), (4, 7), (7, 4), (5, 5), (8, 8), (16, 16), (33, 33), (3, 90), (90, 3), (1, 255), (255, 1), (2, 255), (255, 2), (48, 48), (20, 60), (60, 20)]);
        x.par_chunk("one winding passage through the whole grid, steered choice by choice", long.len() as u64 * 4, 1, |w, i| {
            let (a, b) = long[i as usize / 4];
            if a > 1 && b > 1 || i % 4 == 0 {
                w.exec(&[b'T', a, b, (i % 4) as u8]);
            }
        });
        let mut searched = vec![(2, 3), (3, 2), (1, 5), (5, 1), (1, 6), (6, 1), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3), (2, 6), (6, 2), (3, 5), (5, 3), (4, 4)];
        if !x.quick() {
            searched.extend([(2, 8), (8, 2), (3, 6), (6, 3), (4, 5), (5, 4), (5, 5)]);
        }
        for (w, h) in searched {
            maze::maze_graph(x, w, h, x.pick(30_000, 1_000_000));
            if x.done() || UNCONTROLLED.load(SeqCst) {
                return;
            }
            let want = dfs_mazes(w, h);
            let seen = || SEEN.lock().unwrap().as_ref().and_then(|s| s.get(&(w, h)).cloned()).unwrap_or_default();
            let lacking = |seen: HashSet<Vec<u8>>| want.iter().find(|m| !seen.contains(*m)).cloned();
            if lacking(seen()).is_some() {
                wide_executions(x, w, h);
            }
            let seen = seen();
            x.note(format!("{w}x{h}: {} of {} depth-first mazes produced", want.iter().filter(|m| seen.contains(*m)).count(), want.len()));
            if x.done() {
                return;
            }
            // with more mazes than this, a rare one might just not have come up
            if want.len() > 600 {
                continue;
            }
            if let Some(m) = lacking(seen) {
                let mut case = vec![b'R', w as u8, h as u8];
                case.extend_from_slice(&m);
                x.report("reachable mazes", case, format!("no execution produces the {w}x{h} maze {m:?}, which depth-first carving can produce"));
                return;
            }
        }
    }
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
        match case[0] {
            b'C' => one_choice(case[1] as usize | (case[2] as usize) << 8),
            b'P' => source_varies(),
            b'T' => steered(case, io),
            b'D' => drain(case[1] as usize, &case[2..], io),
            b'R' => reachable(case),
            _ => {
                let g = match maze::generate(case, io) {
                    Ok(Some(g)) => g,
                    // no maze: the subject of C14
                    Ok(None) | Err(Bad::Violation(_)) => return ok("no maze (C14)", 0),
                    Err(e) => return Err(e),
                };
                if io.trace.is_empty() && g.w * g.h > 1 {
                    UNCONTROLLED.store(true, SeqCst);
                }
                if let Err(m) = maze::perfect(&g) {
                    return bad(format!("not a maze depth-first carving produces: {m}"));
                }
                if let Err(m) = depth_first(&g) {
                    return bad(m);
                }
                if g.w * g.h <= 25 && g.w <= 8 && g.h <= 8 {
                    remember(g.w, g.h, &g.walls);
                }
                ok("depth-first maze", fnv(&pack(&g.walls)))
            }
        }
    }
}

/// A spanning tree is a depth-first tree of the grid iff neighbours without a passage are always ancestor
/// and descendant.
fn depth_first(g: &maze::Gen) -> Result<(), String> {
    let n = g.w * g.h;
    let open = |a: usize, b: usize| {
        let (a, b) = (a.min(b), a.max(b));
        if g.w > 1 && b == a + 1 {
            !g.walls[a].0
        } else {
            !g.walls[a].1
        }
    };
    let neighbours = |c: usize| {
        let (x, y) = (c % g.w, c / g.w);
        let mut v = [usize::MAX; 4];
        if x + 1 < g.w {
            v[0] = c + 1;
        }
        if y + 1 < g.h {
            v[1] = c + g.w;
        }
        if x > 0 {
            v[2] = c - 1;
        }
        if y > 0 {
            v[3] = c - g.w;
        }
        v
    };
    // entry and exit times
    let (mut tin, mut tout) = (vec![0usize; n], vec![0usize; n]);
    let mut time = 1;
    let mut stack = vec![(0usize, 0usize)];
    tin[0] = time;
    while let Some(top) = stack.last_mut() {
        let c = top.0;
        if top.1 == 4 {
            time += 1;
            tout[c] = time;
            stack.pop();
            continue;
        }
        let m = neighbours(c)[top.1];
        top.1 += 1;
        if m != usize::MAX && tin[m] == 0 && open(c, m) {
            time += 1;
            tin[m] = time;
            stack.push((m, 0));
        }
    }
    for c in 0..n {
        for m in neighbours(c) {
            if m != usize::MAX && m > c && !open(c, m) {
                let nested = (tin[c] < tin[m] && tout[m] < tout[c]) || (tin[m] < tin[c] && tout[c] < tout[m]);
                if !nested {
                    return Err(format!("neighbouring cells {c} and {m} lie on different branches: depth-first carving would have joined them ({}x{} maze {:?})", g.w, g.h, pack(&g.walls).iter().take(100).collect::<Vec<_>>()));
                }
            }
        }
    }
    Ok(())
}

/// The cells of one passage through the whole grid, from the top-left cell.
fn winding(w: usize, h: usize, kind: u8) -> Vec<usize> {
    let mut v = Vec::with_capacity(w * h);
    match kind {
        // row by row
        0 => {
            for y in 0..h {
                v.extend((0..w).map(|x| y * w + if y % 2 == 0 { x } else { w - 1 - x }));
            }
        }
        // column by column
        1 => {
            for x in 0..w {
                v.extend((0..h).map(|y| (if x % 2 == 0 { y } else { h - 1 - y }) * w + x));
            }
        }
        // inwards, clockwise (2) or not (3)
        _ => {
            let mut seen = vec![false; w * h];
            let turns: [(isize, isize); 4] = if kind == 2 { [(1, 0), (0, 1), (-1, 0), (0, -1)] } else { [(0, 1), (1, 0), (0, -1), (-1, 0)] };
            let (mut x, mut y, mut d) = (0isize, 0isize, 0);
            loop {
                seen[y as usize * w + x as usize] = true;
                v.push(y as usize * w + x as usize);
                let free = |x: isize, y: isize| x >= 0 && y >= 0 && x < w as isize && y < h as isize && !seen[y as usize * w + x as usize];
                if !free(x + turns[d].0, y + turns[d].1) {
                    d = (d + 1) % 4;
                    if !free(x + turns[d].0, y + turns[d].1) {
                        break;
                    }
                }
                x += turns[d].0;
                y += turns[d].1;
            }
        }
    }
    v
}

/// How many cells of the passage, from its start, lie in the maze as they should.
fn along(g: &maze::Gen, path: &[usize]) -> usize {
    let (w, h) = (g.w, g.h);
    for (i, &c) in path.iter().enumerate() {
        let (x, y) = (c % w, c / w);
        let joined = |m: usize| (i > 0 && path[i - 1] == m) || path.get(i + 1) == Some(&m);
        let mut fine = x + 1 == w || joined(c + 1) != g.walls[c].0;
        fine &= y + 1 == h || joined(c + w) != g.walls[c].1;
        fine &= x == 0 || joined(c - 1) != g.walls[c - 1].0;
        fine &= y == 0 || joined(c - w) != g.walls[c - w].1;
        if !fine {
            return i;
        }
    }
    path.len()
}

/// Carving one passage through the whole grid: the choices are fixed one after the other, each time to the
/// alternative that gets farthest along the passage.
fn steered(case: &[u8], io: &mut Io) -> Verdict {
    let (w, h) = (case[1] as usize, case[2] as usize);
    let path = winding(w, h, case[3]);
    let t0 = std::time::Instant::now();
    let mut c = vec![];
    let mut n = 0u64;
    let mut run = |p: &[u8], io: &mut Io| -> Option<usize> {
        n += 1;
        maze::gen_case(w, h, Policy::First, p, &mut c);
        match maze::generate(&c, io) {
            Ok(Some(g)) if !io.trace.is_empty() => Some(along(&g, &path)),
            _ => None,
        }
    };
    let given_up = |n: u64| ok("steering given up", n);
    let mut p: Vec<u8> = vec![];
    let Some(mut best) = run(&p, io) else { return given_up(0) };
    let mut t = io.trace.clone();
    while best < path.len() {
        if t0.elapsed().as_secs() > 40 {
            return given_up(n);
        }
        if p.len() < t.len() {
            let here = t[p.len()];
            let mut take = here.1 as u8;
            for alt in 0..here.0.min(64) as u8 {
                if alt as u64 == here.1 {
                    continue;
                }
                p.push(alt);
                let Some(a) = run(&p, io) else { return given_up(n) };
                p.pop();
                if a > best {
                    best = a;
                    take = alt;
                    t = io.trace.clone();
                }
            }
            p.push(take);
            continue;
        }
        // no single choice helps: up to four choices in a row, anywhere
        let mut better = None;
        'all: for at in 0..t.len() {
            let first: Vec<u8> = t[..at].iter().map(|v| v.1 as u8).collect();
            let mut todo = vec![first];
            while let Some(q) = todo.pop() {
                if t0.elapsed().as_secs() > 40 {
                    return given_up(n);
                }
                let Some(a) = run(&q, io) else { return given_up(n) };
                if a > best {
                    best = a;
                    better = Some((q, io.trace.clone()));
                    break 'all;
                }
                if q.len() < at + 4 && q.len() < io.trace.len() {
                    for alt in 0..io.trace[q.len()].0.min(24) as u8 {
                        let mut r = q.clone();
                        r.push(alt);
                        todo.push(r);
                    }
                }
            }
        }
        match better {
            Some((q, u)) => {
                p = q;
                t = u;
            }
            None => return bad(format!("the {w}x{h} maze that is one passage along cells {:?}.. is not produced: no choice leads past cell {} ({} of {} cells, {n} executions)", &path[..path.len().min(12)], path[best], best, path.len())),
        }
    }
    io.steps = n;
    ok("carved one passage through the whole grid", n)
}

struct Item(usize);

fn pick_one(list: &mut Vec<Item>, left: &mut Vec<usize>) -> Result<Option<usize>, Bad> {
    let r = sut(|| choose_random(list)).map_err(|m| Bad::Violation(format!("choose_random panicked: {m}")))?;
    let mut now: Vec<usize> = list.iter().map(|i| i.0).collect();
    now.sort_unstable();
    match r {
        None => {
            if !left.is_empty() {
                return bad("nothing was chosen from a list that is not empty");
            }
            if !now.is_empty() {
                return bad("elements appeared in an empty list");
            }
            Ok(None)
        }
        Some(Item(v)) => {
            let before = left.clone();
            let Some(at) = left.iter().position(|&q| q == v) else {
                return bad(format!("{v} was chosen from {before:?}"));
            };
            left.remove(at);
            if now != *left {
                return bad(format!("choosing {v} from {before:?} left {now:?}"));
            }
            Ok(Some(v))
        }
    }
}

/// Without a controller: what one process makes, one line per kind.
const KINDS: [(usize, usize); 9] = [(6, 6), (8, 8), (7, 30), (30, 7), (20, 20), (64, 64), (100, 100), (150, 150), (300, 200)];

/// Main function of the processes of case 'P'.
pub fn mazes() -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    for (w, h) in KINDS {
        let mut v = vec![];
        for _ in 0..2 {
            match std::panic::catch_unwind(|| puzzle_utils::create_maze(w, h, puzzle_utils::MazeAlgorithm::RecursiveBacktrack)) {
                Ok((nodes, _)) => {
                    let mut walls = vec![];
                    if maze::walls_of(&nodes, &mut walls).is_ok() {
                        v.extend(pack(&walls));
                    }
                }
                Err(_) => v.push(b'!'),
            }
        }
        println!("{}", fnv(&v));
    }
    if LISTS {
        for n in [2usize, 3, 10, 100, 1000] {
            let mut v = vec![];
            for _ in 0..100 {
                let mut list: Vec<usize> = (0..n).collect();
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| choose_random(&mut list))) {
                    Ok(Some(e)) => v.extend_from_slice(&e.to_le_bytes()),
                    _ => v.push(b'!'),
                }
            }
            println!("{}", fnv(&v));
        }
    }
    std::process::exit(0)
}

/// The explorer answers the draws of the code in place of its random source; that says something about the
/// code only if the source itself varies. A source that starts from the same state in every process does not.
fn source_varies() -> Verdict {
    let exe = std::env::current_exe().map_err(|e| Bad::Harness(e.to_string()))?;
    let t0 = std::time::Instant::now();
    let one = || -> Result<Vec<String>, Bad> {
        let mut c = Command::new(&exe);
        c.arg("mazes").env("VP_MODE", "mazes").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut p = c.spawn().map_err(|e| Bad::Harness(format!("cannot start a process: {e}")))?;
        // one that takes too long is left out: what it has printed so far counts (a few lines fit into the pipe)
        while matches!(p.try_wait(), Ok(None)) && t0.elapsed() < std::time::Duration::from_secs(10) {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        p.kill().ok();
        let o = p.wait_with_output().map_err(|e| Bad::Harness(e.to_string()))?;
        Ok(String::from_utf8_lossy(&o.stdout).lines().map(String::from).collect())
    };
    let first = one()?;
    let mut same: Vec<usize> = (0..first.len()).collect();
    for k in 0..6 {
        if same.is_empty() {
            break;
        }
        if k >= 3 {
            // a source seeded by a coarse clock
            std::thread::sleep(std::time::Duration::from_millis(1100));
        }
        let next = one()?;
        same.retain(|&i| next.get(i) == Some(&first[i]));
    }
    if let Some(&i) = same.first() {
        let what = if i < KINDS.len() { format!("the {}x{} mazes", KINDS[i].0, KINDS[i].1) } else { "the choices from lists".into() };
        return bad(format!("{what} are the same in seven fresh processes: there is no outcome of a random source that produces any other"));
    }
    ok("the random source varies", first.len() as u64)
}

/// One choice from a list of `n` elements under a controlled random source; None: a draw was not repeated.
fn choice_run(n: usize, prefix: &[u32], policy: Policy, chosen: &mut HashSet<usize>, trace: &mut Vec<(u64, u64)>) -> Result<(u64, bool), Bad> {
    let mut list: Vec<Item> = (0..n).map(Item).collect();
    let mut left: Vec<usize> = (0..n).collect();
    vpctl::install(prefix, policy, 2 * n + 500, 100_000);
    let r = pick_one(&mut list, &mut left);
    let (raw, diverged) = vpctl::finish(trace);
    chosen.extend(r?);
    Ok((raw, diverged))
}

fn one_choice(n: usize) -> Verdict {
    vpctl::set_raw(64);
    let r = one_choice_inner(n);
    vpctl::set_raw(4);
    r
}

fn one_choice_inner(n: usize) -> Verdict {
    let mut chosen = HashSet::new();
    let mut trace = vec![];
    let (mut runs, mut raws) = (0u64, 0);
    // every outcome: the draws are an odometer
    let mut whole = true;
    let mut prefix: Vec<u32> = vec![];
    loop {
        runs += 1;
        let (raw, diverged) = choice_run(n, &prefix, Policy::First, &mut chosen, &mut trace)?;
        raws += raw;
        if diverged {
            // randomness from elsewhere
            UNCONTROLLED.store(true, SeqCst);
            return ok("random source not controlled", n as u64);
        }
        let Some(at) = trace.iter().rposition(|t| t.1 + 1 < t.0) else { break };
        if runs > 20_000 {
            whole = false;
            break;
        }
        prefix.clear();
        prefix.extend(trace[..at].iter().map(|t| t.1 as u32));
        prefix.push(trace[at].1 as u32 + 1);
    }
    if runs == 1 && n > 1 {
        // a source other than the controlled one may still vary on its own
        for _ in 0..60 {
            let mut list: Vec<Item> = (0..n).map(Item).collect();
            let mut left: Vec<usize> = (0..n).collect();
            chosen.extend(pick_one(&mut list, &mut left)?);
        }
        if chosen.len() > 1 {
            UNCONTROLLED.store(true, SeqCst);
            return ok("random source not controlled", n as u64);
        }
    }
    // Too many outcomes, or raw draws (perhaps through another generator: then representatives of them are not
    // all that matters): one changed draw in executions of other policies, then pseudo-random executions.
    if !whole || raws > 0 {
        'near: for policy in [Policy::First, Policy::Last, Policy::Mid, Policy::Lcg(1)] {
            choice_run(n, &[], policy, &mut chosen, &mut trace)?;
            let base = trace.clone();
            for at in 0..base.len() {
                for alt in 0..base[at].0.min(32) {
                    if chosen.len() == n || runs > 200_000 {
                        break 'near;
                    }
                    runs += 1;
                    prefix.clear();
                    prefix.extend(base[..at].iter().map(|t| t.1 as u32));
                    // the first and the last alternatives
                    prefix.push(if alt % 2 == 0 { alt / 2 } else { base[at].0 - 1 - alt / 2 } as u32);
                    choice_run(n, &prefix, policy, &mut chosen, &mut trace)?;
                }
            }
        }
        for k in 0..60 * n as u64 {
            if chosen.len() == n {
                break;
            }
            runs += 1;
            choice_run(n, &[], Policy::Wide(k), &mut chosen, &mut trace)?;
        }
    }
    let missing: Vec<usize> = (0..n).filter(|v| !chosen.contains(v)).take(20).collect();
    if !missing.is_empty() {
        return bad(format!("from a list of {n} elements, those at {missing:?} are chosen for no outcome of the random source ({runs} executions{})", if whole { ", every outcome" } else { "" }));
    }
    ok("every element can be chosen", n as u64)
}

fn drain(n: usize, prefix: &[u8], io: &mut Io) -> Verdict {
    let pre: Vec<u32> = prefix.iter().map(|&v| v as u32).collect();
    let mut list: Vec<Item> = (0..n).map(Item).collect();
    let mut left: Vec<usize> = (0..n).collect();
    let mut order = vec![];
    vpctl::install(&pre, Policy::First, 1000, 10_000);
    let r = (|| {
        for _ in 0..=n {
            match pick_one(&mut list, &mut left)? {
                Some(v) => order.push(v as u8),
                None => return Ok(()),
            }
        }
        bad("the list does not become empty")
    })();
    let (raw, diverged) = vpctl::finish(&mut io.trace);
    io.steps = io.trace.len() as u64;
    if raw > 0 || diverged {
        io.trace.clear();
    }
    r?;
    ok("drained, each element once", fnv(&order))
}

/// Sequential search for one maze.
fn reachable(case: &[u8]) -> Verdict {
    let (w, h) = (case[1] as usize, case[2] as usize);
    if w * h > 4 {
        return found(w, h, &case[3..]);
    }
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    let mut c = vec![];
    let mut io = Io::default();
    let mut n = 0u64;
    while let Some(p) = todo.pop() {
        maze::gen_case(w, h, Policy::First, &p, &mut c);
        n += 1;
        if let Ok(Some(g)) = maze::generate(&c, &mut io) {
            let mut v = pack(&g.walls);
            for k in (h - 1) * w..w * h {
                v[k] |= 2;
            }
            if v == case[3..] {
                return ok("produced", n);
            }
        }
        for at in p.len()..io.trace.len() {
            for alt in 0..io.trace[at].0 {
                if alt != io.trace[at].1 {
                    let mut q: Vec<u8> = io.trace[..at].iter().map(|t| t.1 as u8).collect();
                    q.push(alt as u8);
                    todo.push(q);
                }
            }
        }
    }
    for k in 0..WITNESSES {
        maze::gen_case(w, h, Policy::Wide(k), &[], &mut c);
        if let Ok(Some(g)) = maze::generate(&c, &mut io) {
            let mut v = pack(&g.walls);
            for k in (h - 1) * w..w * h {
                v[k] |= 2;
            }
            if v == case[3..] {
                return ok("produced", n);
            }
        }
    }
    bad(format!("none of the {n} choice sequences produces it"))
}

/// The search of `explore` for one maze of a larger shape.
fn found(w: usize, h: usize, wanted: &[u8]) -> Verdict {
    let mut c = vec![];
    let mut io = Io::default();
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut n = 0u64;
    let mut run = |p: Policy, prefix: &[u8], io: &mut Io| -> Option<Vec<u8>> {
        maze::gen_case(w, h, p, prefix, &mut c);
        n += 1;
        let Ok(Some(g)) = maze::generate(&c, io) else { return None };
        let mut v = pack(&g.walls);
        for k in (h - 1) * w..w * h {
            v[k] |= 2;
        }
        Some(v)
    };
    let mut todo: std::collections::VecDeque<Vec<u8>> = [vec![]].into();
    while let Some(p) = todo.pop_front() {
        let v = run(Policy::First, &p, &mut io);
        if v.as_deref() == Some(wanted) {
            return ok("produced", 1);
        }
        let t = io.trace.clone();
        for at in 0..t.len() {
            for alt in 0..t[at].0.min(255) {
                if alt != t[at].1 {
                    let mut q: Vec<u8> = t[..at].iter().map(|t| t.1 as u8).collect();
                    q.push(alt as u8);
                    if let Some(v) = run(Policy::First, &q, &mut io) {
                        if seen.insert(v) {
                            todo.push_back(q);
                        }
                    }
                }
            }
        }
    }
    for k in 0..WITNESSES {
        if run(Policy::Wide(k), &[], &mut io).as_deref() == Some(wanted) {
            return ok("produced", 1);
        }
    }
    bad(format!("no execution produces the {w}x{h} maze {wanted:?} (none of {n} executions, {} different mazes)", seen.len()))
}
