//! C25: every call is independent of the calls made before it.
use engine::*;
use image::{Rgb, RgbImage};
use puzzle_utils::*;
use rand::vpctl::{self, Policy};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub struct C25;

// 'S', ops..        the calls one after the other on one thread of a fresh process
// 'X', ops..        each call on a thread of its own, one after the other
// 'A', ops..        as 'X', but all but the last thread stay alive until the end
// 'R', op, n u24    one call n times, then every call once
// 'O', op           one call alone, in two fresh processes
// 'G'|'H', group, order, n u16   many alike calls of one function: all on one thread | a thread each
// 'P', group, i u16 one of these alone
// 'I', a, b, how, limit u16  call a interrupted by call b, at one place after the other (how & 1: each time in a fresh
//                   process, how & 2: and b by a again)

type Op = (&'static str, fn() -> u64);

const BOARD: &str = "530070000600195000098000060800060003400803001700020006060000280000419005000080079";

fn board(f: impl Fn(usize, u8) -> u8) -> Vec<u8> {
    BOARD.bytes().enumerate().map(|(i, b)| f(i, b - b'0')).collect()
}
fn at(i: usize) -> u8 {
    BOARD.as_bytes()[i] - b'0'
}
fn transposed() -> Vec<u8> {
    board(|i, _| at(i % 9 * 9 + i / 9))
}
fn relabelled() -> Vec<u8> {
    board(|_, v| if v == 0 { 0 } else { v % 9 + 1 })
}

/// Hash of a printable result.
fn hd<T: std::fmt::Debug>(v: T) -> u64 {
    fnv(format!("{v:?}").as_bytes())
}

fn hp(p: Result<RgbImage, impl std::fmt::Debug>) -> u64 {
    match p {
        Ok(i) => mix(fnv(i.as_raw()) ^ (i.width() as u64) << 32 ^ i.height() as u64),
        Err(e) => hd(e),
    }
}

/// Fails if a call altered its argument.
fn same<T: PartialEq + Clone>(v: &T, f: impl FnOnce(&T) -> u64) -> u64 {
    let before = v.clone();
    let r = f(v);
    if *v != before {
        panic!("VP-ALTERED");
    }
    r
}

fn solve_s(b: Vec<u8>) -> u64 {
    same(&b, |b| hd(solve_sudoku(b)))
}
fn print_s(b: Vec<u8>) -> u64 {
    same(&b, |b| hp(print_sudoku(b)))
}

type Rules = Vec<Vec<usize>>;
fn rules(t: &str) -> Rules {
    t.split('/').map(|l| l.split_whitespace().map(|n| n.parse().expect("number")).collect()).collect()
}
fn solve_n(c: &str, r: &str) -> u64 {
    same(&(rules(c), rules(r)), |p| hd(solve_nonogram(&p.0, &p.1)))
}
fn print_n(w: u32, h: u32, c: &str, r: &str) -> u64 {
    same(&(rules(c), rules(r)), |p| hp(print_nonogram(w, h, &p.0, &p.1)))
}
fn fill_n(w: u32, h: u32, pic: (u32, u32), grid: &[u8]) -> u64 {
    let p = RgbImage::from_pixel(pic.0 * 50 + 150, pic.1 * 50 + 150, Rgb([255, 255, 255]));
    let g: Vec<bool> = grid.iter().map(|&b| b == 1).collect();
    same(&g, |g| hp(print_nonogram_solution(w, h, p, g)))
}

fn walls(bits: &[u8]) -> Vec<MazeNode> {
    bits.iter().map(|b| serde_json::from_str(&format!("{{\"right\":{},\"down\":{}}}", b & 1 == 1, b & 2 == 2)).expect("cell")).collect()
}
fn json<T: serde::Serialize>(v: &T) -> String {
    serde_json::to_string(v).expect("json")
}
fn print_m(w: u32, h: u32, bits: &[u8]) -> u64 {
    let g = walls(bits);
    let before = json(&g);
    let r = hp(print_maze(w, h, &g));
    if json(&g) != before {
        panic!("VP-ALTERED");
    }
    r
}
fn dirs(t: &str) -> Vec<MazeDirection> {
    t.chars()
        .map(|c| match c {
            'R' => MazeDirection::Right,
            'D' => MazeDirection::Down,
            'L' => MazeDirection::Left,
            _ => MazeDirection::Up,
        })
        .collect()
}
fn trace_m(w: u32, h: u32, t: &str) -> u64 {
    let d = dirs(t);
    let before = json(&d);
    let p = RgbImage::from_pixel(w, h, Rgb([255, 255, 255]));
    let r = hp(print_maze_solution(p, &d));
    if json(&d) != before {
        panic!("VP-ALTERED");
    }
    r
}
/// A maze for given random outcomes: what was built and how many draws it took.
fn make_m(w: usize, h: usize, p: Policy) -> u64 {
    vpctl::install(&[], p, 1 << 16, 1 << 22);
    let r = std::panic::catch_unwind(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack));
    let mut t = vec![];
    vpctl::finish(&mut t);
    match r {
        Ok(r) => {
            if t.is_empty() && w * h > 1 {
                // the random outcomes are not in our hand: nothing to compare
                return 0;
            }
            mix(fnv(json(&r).as_bytes()) ^ hd(t))
        }
        Err(_) => 1,
    }
}
fn png_(w: u32, h: u32, raw: Vec<u8>) -> u64 {
    let i = RgbImage::from_raw(w, h, raw).expect("picture");
    let before = i.clone();
    let r = hd(image_to_png_bytes(&i));
    if i != before {
        panic!("VP-ALTERED");
    }
    r
}

const OPS: &[Op] = &[
    ("parse_sudoku(A)", || hd(parse_sudoku(BOARD))),
    ("parse_sudoku(A reversed)", || hd(parse_sudoku(&BOARD.chars().rev().collect::<String>()))),
    ("parse_sudoku(81 characters, 'x' at 5)", || hd(parse_sudoku(&BOARD.replacen("7", "x", 1)))),
    ("parse_sudoku(81 characters, 'y' at 5)", || hd(parse_sudoku(&BOARD.replacen("7", "y", 1)))),
    ("parse_sudoku(80 digits)", || hd(parse_sudoku(&BOARD[1..]))),
    ("parse_sudoku(\"\")", || hd(parse_sudoku(""))),
    ("solve_sudoku(A)", || solve_s(board(|_, v| v))),
    ("solve_sudoku(A transposed)", || solve_s(transposed())),
    ("solve_sudoku(A relabelled)", || solve_s(relabelled())),
    ("solve_sudoku(empty board)", || solve_s(vec![0; 81])),
    ("solve_sudoku(A with two 5s in the first row)", || solve_s(board(|i, v| if i == 8 { 5 } else { v }))),
    ("solve_sudoku(no candidate left in cell 0)", || solve_s((0..81).map(|i| if (1..9).contains(&i) { i as u8 } else if i == 9 { 9 } else { 0 }).collect())),
    ("solve_sudoku(clue 10)", || solve_s(board(|i, v| if i == 80 { 10 } else { v }))),
    ("solve_sudoku(80 entries)", || solve_s(vec![0; 80])),
    ("print_sudoku(A)", || print_s(board(|_, v| v))),
    ("print_sudoku(A transposed)", || print_s(transposed())),
    ("print_sudoku(82 entries)", || print_s(vec![1; 82])),
    ("parse_nonogram_rules(\"1,2;3\", 5)", || hd(parse_nonogram_rules("1,2;3", 5))),
    ("parse_nonogram_rules(\"1,2;3\", 3)", || hd(parse_nonogram_rules("1,2;3", 3))),
    ("parse_nonogram_rules(\"2,1;3\", 5)", || hd(parse_nonogram_rules("2,1;3", 5))),
    ("parse_nonogram_rules(\"1,x;3\", 5)", || hd(parse_nonogram_rules("1,x;3", 5))),
    ("parse_nonogram_rules(\"1,y;3\", 5)", || hd(parse_nonogram_rules("1,y;3", 5))),
    ("solve_nonogram(2/1/1, 1 1/1/1)", || solve_n("2/1/1", "1 1/1/1")),
    ("solve_nonogram(1/1/2, 1 1/1/1)", || solve_n("1/1/2", "1 1/1/1")),
    ("solve_nonogram(1/1/1, 1/1/1)", || solve_n("1/1/1", "1/1/1")),
    ("solve_nonogram(3/3/3, 3/3/3)", || solve_n("3/3/3", "3/3/3")),
    ("solve_nonogram(3/0/0, 0/0/3)", || solve_n("3/0/0", "0/0/3")),
    ("solve_nonogram(1 1/1/1, 2/1/1)", || solve_n("1 1/1/1", "2/1/1")),
    ("solve_nonogram(4/0/0, 1/1/1)", || solve_n("4/0/0", "1/1/1")),
    ("solve_nonogram(no columns)", || hd(solve_nonogram(&[], &rules("1/1")))),
    ("solve_nonogram(5x5)", || solve_n("1 1/3/5/3/1 1", "1 1/3/5/3/1 1")),
    ("print_nonogram(2/1/1, 1 1/1/1)", || print_n(3, 3, "2/1/1", "1 1/1/1")),
    ("print_nonogram(1 1/1/1, 2/1/1)", || print_n(3, 3, "1 1/1/1", "2/1/1")),
    ("print_nonogram(3x2)", || print_n(3, 2, "2/1/1", "12/1")),
    ("print_nonogram(2x3)", || print_n(2, 3, "12/1", "2/1/1")),
    ("print_nonogram(3, 3, 2x3 clues)", || print_n(3, 3, "12/1", "2/1/1")),
    ("print_nonogram_solution(100 001)", || fill_n(3, 2, (3, 2), &[1, 0, 0, 0, 0, 1])),
    ("print_nonogram_solution(010 010)", || fill_n(3, 2, (3, 2), &[0, 1, 0, 0, 1, 0])),
    ("print_nonogram_solution(2x3)", || fill_n(2, 3, (2, 3), &[1, 0, 0, 0, 0, 1])),
    ("print_nonogram_solution(2x3 on a 3x2 picture)", || fill_n(2, 3, (3, 2), &[1, 0, 0, 0, 0, 1])),
    ("create_maze(1, 1)", || make_m(1, 1, Policy::First)),
    ("create_maze(3, 2) first choices", || make_m(3, 2, Policy::First)),
    ("create_maze(3, 2) last choices", || make_m(3, 2, Policy::Last)),
    ("create_maze(2, 3) first choices", || make_m(2, 3, Policy::First)),
    ("create_maze(4, 4) choices 1", || make_m(4, 4, Policy::Lcg(1))),
    ("create_maze(4, 4) choices 2", || make_m(4, 4, Policy::Lcg(2))),
    ("create_maze(7, 5) choices 3", || make_m(7, 5, Policy::Lcg(3))),
    ("create_maze(0, 2)", || make_m(0, 2, Policy::First)),
    ("print_maze(3x2, 232 133)", || print_m(3, 2, &[2, 3, 2, 1, 3, 3])),
    ("print_maze(3x2, 231 233)", || print_m(3, 2, &[2, 3, 1, 2, 3, 3])),
    ("print_maze(2x3, 23 21 33)", || print_m(2, 3, &[2, 3, 2, 1, 3, 3])),
    ("print_maze(3x3, six cells)", || print_m(3, 3, &[2, 3, 2, 1, 3, 3])),
    ("print_maze_solution(31x21, DRR)", || trace_m(31, 21, "DRR")),
    ("print_maze_solution(31x21, RDR)", || trace_m(31, 21, "RDR")),
    ("print_maze_solution(21x31, DDR)", || trace_m(21, 31, "DDR")),
    ("print_maze_solution(21x31, RRD)", || trace_m(21, 31, "RRD")),
    ("print_maze_solution(5x21, D)", || trace_m(5, 21, "D")),
    ("image_to_png_bytes(2x3)", || png_(2, 3, (0..18).collect())),
    ("image_to_png_bytes(3x2)", || png_(3, 2, (0..18).collect())),
    ("image_to_png_bytes(2x3, reversed)", || png_(2, 3, (0..18).rev().collect())),
    ("image_to_png_bytes(0x0)", || png_(0, 0, vec![])),
    ("read a cell back from JSON", || hd(serde_json::from_str::<MazeNode>("{\"right\":true,\"down\":false}").map_err(|e| e.to_string()))),
    ("read directions back from JSON", || hd(serde_json::from_str::<Vec<MazeDirection>>("[\"Up\",\"Left\"]").map_err(|e| e.to_string()))),
];

/// Calls of one function whose arguments are close to one another: whatever a call keeps under a key
/// that does not tell them apart shows as a wrong answer.
struct Group {
    name: &'static str,
    n: usize,
    f: fn(usize) -> u64,
}

/// Lists of at most `len` entries out of `of`, number i.
fn listed(mut i: usize, of: &[usize], len: usize) -> Vec<usize> {
    for l in 0..=len {
        let k = of.len().pow(l as u32);
        if i < k {
            let mut v = vec![];
            for _ in 0..l {
                v.push(of[i % of.len()]);
                i /= of.len();
            }
            return v;
        }
        i -= k;
    }
    vec![]
}

/// Two different numbers, number i of all pairs.
fn pair(i: usize) -> (usize, usize) {
    let mut b = 1;
    while b * (b + 1) / 2 <= i {
        b += 1;
    }
    (i - b * (b - 1) / 2, b)
}

fn bits16(i: usize) -> Vec<bool> {
    let v = mix(i as u64 + 1);
    (0..16).map(|k| v >> k & 1 == 1).collect()
}

/// Column and row clues of a filling, as `rules` reads them.
fn clues_of(width: usize, g: &[bool]) -> (String, String) {
    let line = |l: Vec<bool>| l.split(|f| !f).filter(|r| !r.is_empty()).map(|r| r.len().to_string()).collect::<Vec<_>>().join(" ");
    let height = g.len() / width;
    let c: Vec<String> = (0..width).map(|x| line((0..height).map(|y| g[y * width + x]).collect())).collect();
    let r: Vec<String> = g.chunks(width).map(|l| line(l.to_vec())).collect();
    (c.join("/"), r.join("/"))
}

const NUMS: [usize; 7] = [0, 1, 2, 10, 11, 12, 111];

const GROUPS: &[Group] = &[
    Group { name: "print_nonogram, one row with a clue list out of 400", n: 400, f: |i| hp(print_nonogram(1, 1, &[vec![1]], &[listed(i, &NUMS, 3)])) },
    Group { name: "print_nonogram, one column with a clue list out of 400", n: 400, f: |i| hp(print_nonogram(1, 1, &[listed(i, &NUMS, 3)], &[vec![1]])) },
    Group { name: "print_nonogram, shapes to 7x7", n: 49, f: |i| hp(print_nonogram(i as u32 % 7 + 1, i as u32 / 7 + 1, &vec![vec![1]; i % 7 + 1], &vec![vec![1]; i / 7 + 1])) },
    Group {
        name: "solve_nonogram, 2x2, 1x4 and 4x1 with every clue out of 0, 1, 2, 1 1, none",
        n: 625 * 3,
        f: |i| {
            let of: [&[usize]; 5] = [&[0], &[1], &[2], &[1, 1], &[]];
            let l: Rules = (0..4).map(|k| of[i / 3 / 5usize.pow(k) % 5].to_vec()).collect();
            match i % 3 {
                0 => hd(solve_nonogram(&l[..2], &l[2..])),
                1 => hd(solve_nonogram(&l, &[vec![2, 1]])),
                _ => hd(solve_nonogram(&[vec![2, 1]], &l)),
            }
        },
    },
    Group { name: "solve_sudoku, one clue", n: 729, f: |i| solve_s((0..81).map(|c| if c == i / 9 { i as u8 % 9 + 1 } else { 0 }).collect()) },
    Group { name: "solve_sudoku, a puzzle with one cell altered", n: 810, f: |i| solve_s(board(|c, v| if c == i / 10 { (i % 10) as u8 } else { v })) },
    Group { name: "print_sudoku, one or two clues", n: 108, f: |i| print_s((0..81).map(|c| if c == i * 5 % 81 { i as u8 % 9 + 1 } else if c == i * 7 % 80 && i > 54 { 3 } else { 0 }).collect()) },
    Group {
        name: "parse_nonogram_rules, texts of at most four characters, three bounds",
        n: 341 * 3,
        f: |i| {
            let t: String = listed(i / 3, &[0, 1, 2, 3], 4).iter().map(|&k| ['1', ',', ';', '2'][k]).collect();
            hd(parse_nonogram_rules(&t, [1, 3, 20][i % 3]))
        },
    },
    Group { name: "parse_sudoku, one character altered", n: 81 * 12, f: |i| hd(parse_sudoku(&BOARD.chars().enumerate().map(|(c, b)| if c == i / 12 { "0123456789x\u{e9}".chars().nth(i % 12).expect("char") } else { b }).collect::<String>())) },
    Group {
        name: "print_maze, every wall combination on 2x2, 1x4 and 4x1",
        n: 768,
        f: |i| {
            let (w, h) = [(2, 2), (1, 4), (4, 1)][i % 3];
            print_m(w, h, &(0..4).map(|k| (i / 3 >> (2 * k) & 3) as u8).collect::<Vec<_>>())
        },
    },
    Group {
        name: "print_maze_solution, lists of at most four directions on three sizes",
        n: 341 * 3,
        f: |i| {
            let (w, h) = [(31, 31), (21, 41), (41, 21)][i % 3];
            trace_m(w, h, &listed(i / 3, &[0, 1, 2, 3], 4).iter().map(|&k| ['R', 'D', 'L', 'U'][k]).collect::<String>())
        },
    },
    Group {
        name: "print_nonogram_solution, every filling of six squares in four shapes",
        n: 256,
        f: |i| {
            let (w, h) = [(3, 2), (2, 3), (1, 6), (6, 1)][i % 4];
            fill_n(w, h, (w, h), &(0..6).map(|k| (i / 4 >> k & 1) as u8).collect::<Vec<_>>())
        },
    },
    Group {
        name: "image_to_png_bytes, every order of four pixels in three shapes",
        n: 256 * 3,
        f: |i| {
            let (w, h) = [(2, 2), (1, 4), (4, 1)][i % 3];
            let px = [[0, 0, 0], [255, 255, 255], [255, 0, 0], [0, 0, 255]];
            png_(w, h, (0..4).flat_map(|k| px[i / 3 >> (2 * k) & 3]).collect())
        },
    },
    Group {
        name: "solve_sudoku, a puzzle with two lines of a band exchanged, digits relabelled",
        n: 18 * 9,
        f: |i| {
            let (k, r) = (i / 9, i % 9);
            // rows or columns a and b of one band change places
            let (a, b) = (k % 9, k % 3 / 2 * 2 + k % 9 / 3 * 3);
            let b = if a % 3 == 2 { a - 1 } else { b.max(a + 1).min(a / 3 * 3 + 2) };
            let swap = |x: usize| if x == a { b } else if x == b { a } else { x };
            solve_s(board(|c, _| {
                let v = if k < 9 { at(swap(c / 9) * 9 + c % 9) } else { at(c / 9 * 9 + swap(c % 9)) };
                if v == 0 { 0 } else { (v - 1 + r as u8) % 9 + 1 }
            }))
        },
    },
    Group {
        name: "solve_sudoku, a puzzle with two clues exchanged",
        n: 435,
        f: |i| {
            let (a, b) = pair(i);
            let clues: Vec<usize> = (0..81).filter(|&c| at(c) != 0).collect();
            let (a, b) = (clues[a % clues.len()], clues[b % clues.len()]);
            solve_s(board(|c, v| if c == a { at(b) } else if c == b { at(a) } else { v }))
        },
    },
    Group {
        name: "print_sudoku, a board with two cells exchanged",
        n: 300,
        f: |i| {
            let (a, b) = pair(i * 7);
            let (a, b) = (a % 81, b % 81);
            print_s(board(|c, v| if c == a { at(b) } else if c == b { at(a) } else { v }))
        },
    },
    Group { name: "solve_nonogram, the clues of 1000 4x4 and 2x8 fillings", n: 1000, f: |i| { let (c, r) = clues_of(if i % 2 == 0 { 4 } else { 2 }, &bits16(i / 2)); solve_n(&c, &r) } },
    Group { name: "print_nonogram, the clues of 300 4x4 fillings", n: 300, f: |i| { let (c, r) = clues_of(4, &bits16(i)); print_n(4, 4, &c, &r) } },
    Group { name: "print_maze, single walls and openings on 7x7 and 49x1", n: 49 * 8, f: |i| { let (w, h) = [(7, 7), (49, 1)][i / 4 % 2]; let open = i % 2 == 0; let wall = [1u8, 2][i / 2 % 2]; print_m(w, h, &(0..49).map(|k| if (k == i / 8) == open { 3 - wall } else { 3 }).collect::<Vec<_>>()) } },
    Group {
        name: "print_maze_solution, walks of 24 steps with one step altered",
        n: 24 * 4 * 2,
        f: |i| {
            let base = ["RDRDRULDDRRULURDDLDRRDLU", "DRDRUURDRDLDRRDLLDRRUURD"][i % 2];
            let mut t: Vec<char> = base.chars().collect();
            t[i / 8] = ['R', 'D', 'L', 'U'][i / 2 % 4];
            trace_m(121, 121, &t.iter().collect::<String>())
        },
    },
    Group {
        name: "print_maze_solution, pictures of one size with other contents",
        n: 200,
        f: |i| {
            let p = RgbImage::from_fn(31, 21, |x, y| Rgb(if i < 100 { [i as u8; 3] } else if (x + 31 * y) as usize == i * 5 { [7, 7, 7] } else { [255; 3] }));
            hp(print_maze_solution(p, &dirs("RRD")))
        },
    },
    Group {
        name: "print_nonogram_solution, pictures of one size with other contents",
        n: 100,
        f: |i| {
            let p = RgbImage::from_fn(250, 250, |x, y| Rgb(if i < 50 { [i as u8; 3] } else if (x + 250 * y) as usize == i * 617 { [7, 7, 7] } else { [255; 3] }));
            hp(print_nonogram_solution(2, 2, p, &[true, false, false, true]))
        },
    },
    Group {
        name: "print_nonogram_solution, one or two squares of 6x6",
        n: 300,
        f: |i| {
            let (a, b) = pair(i * 2);
            fill_n(6, 6, (6, 6), &(0..36).map(|k| (k == a % 36 || k == b % 36) as u8).collect::<Vec<_>>())
        },
    },
    Group {
        name: "image_to_png_bytes, an 8x8 picture with one channel of one pixel altered",
        n: 192 * 2,
        f: |i| {
            let mut v: Vec<u8> = (0..192).map(|k| (k * 7) as u8).collect();
            v[i / 2] ^= [1, 0x80][i % 2];
            png_(8, 8, v)
        },
    },
    Group {
        name: "parse_nonogram_rules, long texts with one character altered, four bounds",
        n: 60 * 4 * 4,
        f: |i| {
            let mut t: Vec<char> = "1,2,3;4,5;6;7,1,2;3;11,2;1,1,1,1;5,6;1;2;3;4;5,1;6;7,7;12,3;4".chars().collect();
            t[i / 16] = ['1', '2', ',', ';'][i / 4 % 4];
            hd(parse_nonogram_rules(&t.iter().collect::<String>(), [5, 9, 15, 30][i % 4]))
        },
    },
    Group { name: "create_maze, shapes to 5x5, fourteen choice policies", n: 25 * 14, f: |i| make_m(i % 5 + 1, i / 5 % 5 + 1, [Policy::First, Policy::Last, Policy::Mid].get(i / 25).copied().unwrap_or(Policy::Lcg((i / 25) as u64))) },
];

fn guarded(f: impl FnOnce() -> u64) -> u64 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(h) => h,
        Err(e) => {
            if e.downcast_ref::<&str>() == Some(&"VP-ALTERED") {
                2
            } else {
                1
            }
        }
    }
}

fn run_op(op: u8) -> u64 {
    guarded(|| OPS[op as usize].1())
}
fn run_group(g: u8, i: usize) -> u64 {
    guarded(|| (GROUPS[g as usize].f)(i))
}

/// The members of a group in the order the case asks for.
fn group_order(case: &[u8]) -> Vec<usize> {
    let (g, order, m) = (&GROUPS[case[1] as usize], case[2], case[3] as usize | (case[4] as usize) << 8);
    match order {
        0 => (0..g.n).collect(),
        1 => (0..g.n).rev().collect(),
        2 => (0..g.n).map(|i| i * 97 % g.n).collect(),
        // every two of m members one directly after the other
        _ => {
            let m = m.min(g.n);
            de_bruijn(m, 2).iter().map(|&k| (k as usize * g.n + order as usize) / m % g.n).collect()
        }
    }
}

/// The process that makes the calls: reads mode and calls from standard input, writes one hash per call.
pub fn callee() -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let mut case = vec![];
    std::io::stdin().read_to_end(&mut case).expect("stdin");
    let mut out: Vec<u8> = vec![];
    let ops = &case[1..];
    match case[0] {
        b'S' | b'O' => ops.iter().for_each(|&o| out.extend(run_op(o).to_le_bytes())),
        b'P' => out.extend(run_group(case[1], case[2] as usize | (case[3] as usize) << 8).to_le_bytes()),
        b'G' => group_order(&case).into_iter().for_each(|i| out.extend(run_group(case[1], i).to_le_bytes())),
        b'H' => group_order(&case).into_iter().for_each(|i| {
            let g = case[1];
            out.extend(std::thread::spawn(move || run_group(g, i)).join().expect("join").to_le_bytes())
        }),
        b'I' => crate::sched::pair(|| run_op(case[1]), || run_op(case[2]), case[3] & 1 == 1, case[3] & 2 == 2, case[4] as usize | (case[5] as usize) << 8)
            .iter()
            .for_each(|v| out.extend(v.to_le_bytes())),
        b'X' => ops.iter().for_each(|&o| out.extend(std::thread::spawn(move || run_op(o)).join().expect("join").to_le_bytes())),
        b'A' => {
            let mut held = vec![];
            for &o in ops {
                let (tx, rx) = std::sync::mpsc::channel();
                let (done, wait) = std::sync::mpsc::channel::<()>();
                let t = std::thread::spawn(move || {
                    tx.send(run_op(o)).expect("send");
                    wait.recv().ok();
                });
                out.extend(rx.recv().expect("result").to_le_bytes());
                held.push((done, t));
            }
            for (done, t) in held {
                drop(done);
                t.join().expect("join");
            }
        }
        _ => {
            let n = case[2] as usize | (case[3] as usize) << 8 | (case[4] as usize) << 16;
            for _ in 0..n {
                out.extend(run_op(case[1]).to_le_bytes());
            }
            for o in 0..OPS.len() {
                out.extend(run_op(o as u8).to_le_bytes());
            }
        }
    }
    std::io::stdout().write_all(&out).expect("stdout");
    std::process::exit(0)
}

fn sequence(case: &[u8]) -> Vec<u8> {
    match case[0] {
        b'R' => {
            let n = case[2] as usize | (case[3] as usize) << 8 | (case[4] as usize) << 16;
            let mut v = vec![case[1]; n];
            v.extend(0..OPS.len() as u8);
            v
        }
        _ => case[1..].to_vec(),
    }
}

/// Runs the calls in a fresh process. Err(n): the process died or stopped within call number n.
fn fresh(case: &[u8]) -> Result<Result<Vec<u64>, String>, Bad> {
    let program = match std::env::var_os("VP_SCHED_BIN").filter(|_| case[0] == b'I') {
        Some(p) => p.into(),
        None => std::env::current_exe().map_err(|e| Bad::Harness(e.to_string()))?,
    };
    let mut p = Command::new(program)
        .arg("calls")
        .env("VP_MODE", "calls")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| Bad::Harness(format!("cannot start a process: {e}")))?;
    let mut stdin = p.stdin.take().expect("stdin");
    stdin.write_all(case).map_err(|e| Bad::Harness(e.to_string()))?;
    drop(stdin);
    let mut stdout = p.stdout.take().expect("stdout");
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        stdout.read_to_end(&mut v).map(|_| v)
    });
    let t0 = Instant::now();
    let limit = Duration::from_secs(180);
    let mut nap = 200;
    let st = loop {
        if let Some(s) = p.try_wait().map_err(|e| Bad::Harness(e.to_string()))? {
            break s;
        }
        if t0.elapsed() > limit {
            p.kill().ok();
            p.wait().ok();
            return Ok(Err("does not return".into()));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(10_000);
    };
    let out = reader.join().map_err(|_| Bad::Harness("reader".into()))?.map_err(|e| Bad::Harness(e.to_string()))?;
    if !st.success() {
        return Ok(Err(format!("ends the process ({st})")));
    }
    Ok(Ok(out.chunks(8).map(|c| u64::from_le_bytes(c.try_into().expect("eight bytes"))).collect()))
}

/// What each call returns alone in a fresh process.
fn alone() -> &'static [Result<u64, String>] {
    static A: OnceLock<Vec<Result<u64, String>>> = OnceLock::new();
    A.get_or_init(|| {
        (0..OPS.len() as u8)
            .map(|o| match fresh(&[b'O', o]) {
                Ok(Ok(v)) if v.len() == 1 => Ok(v[0]),
                Ok(Ok(_)) => Err("no answer".into()),
                Ok(Err(m)) => Err(m),
                Err(Bad::Harness(m) | Bad::Violation(m)) => Err(m),
            })
            .collect()
    })
}

fn alone_in_group(g: u8, i: usize) -> &'static Result<u64, String> {
    static A: OnceLock<Vec<Vec<OnceLock<Result<u64, String>>>>> = OnceLock::new();
    A.get_or_init(|| GROUPS.iter().map(|g| (0..g.n).map(|_| OnceLock::new()).collect()).collect())[g as usize][i].get_or_init(|| match fresh(&[b'P', g, i as u8, (i >> 8) as u8]) {
        Ok(Ok(v)) if v.len() == 1 => Ok(v[0]),
        Ok(Ok(_)) => Err("no answer".into()),
        Ok(Err(m)) => Err(m),
        Err(Bad::Harness(m) | Bad::Violation(m)) => Err(m),
    })
}

fn compare_group(case: &[u8]) -> Verdict {
    let (g, name) = (case[1], GROUPS[case[1] as usize].name);
    if case[0] == b'P' {
        return match alone_in_group(g, case[2] as usize | (case[3] as usize) << 8) {
            Ok(h) => ok("alone", *h),
            Err(_) => ok("not comparable", 0),
        };
    }
    let seq = group_order(case);
    if seq.iter().any(|&i| alone_in_group(g, i).is_err()) {
        return ok("not comparable", 0);
    }
    let got = match fresh(case)? {
        Ok(v) => v,
        Err(m) => return bad(format!("{name}: one of the calls {m}, though each returns on its own")),
    };
    if got.len() != seq.len() {
        return harness("number of answers");
    }
    let mut h = 0u64;
    for (k, (&i, &v)) in seq.iter().zip(&got).enumerate() {
        if v == 2 {
            return bad(format!("{name}: number {i} altered its argument"));
        }
        let want = *alone_in_group(g, i).as_ref().expect("checked above");
        if v != want && v != 0 && want != 0 {
            return bad(format!("{name}: call {} (number {i}) returns something else than alone in a fresh process; the calls before it: numbers {:?}", k + 1, &seq[k.saturating_sub(8)..k]));
        }
        h = mix(h ^ v);
    }
    ok("alike calls", h)
}

/// Two calls that overlap.
fn compare_overlap(case: &[u8]) -> Result<(&'static str, [u64; 3]), Bad> {
    let (a, b) = (case[1] as usize, case[2] as usize);
    let (Ok(wa), Ok(wb)) = (&alone()[a], &alone()[b]) else {
        return Ok(("not comparable", [0; 3]));
    };
    let got = match fresh(case)? {
        Ok(v) => v,
        Err(m) => return Err(Bad::Violation(format!("{} interrupted by {}: one of them {m}, though each returns on its own", OPS[a].0, OPS[b].0))),
    };
    if got.len() < 4 || got.len() % 4 != 0 {
        return Err(Bad::Harness("form of the answer".into()));
    }
    for r in got[4..].chunks(4) {
        for (o, v, want) in [(a, r[2], *wa), (b, r[3], *wb)] {
            let at = if r[1] == 0 { format!("at place {}", r[0]) } else { format!("at place {}, and that again at place {}", r[0], r[1]) };
            if v == u64::MAX {
                return Err(Bad::Violation(format!("{} interrupted {at} by {}: the process ends, though each returns on its own", OPS[a].0, OPS[b].0)));
            }
            if v == 2 || v != want && v != 0 && want != 0 {
                return Err(Bad::Violation(format!("{} interrupted {at} by {}: {} {}", OPS[a].0, OPS[b].0, OPS[o].0, if v == 2 { "altered its argument" } else { "returns something else than alone in a fresh process" })));
            }
        }
    }
    Ok((if got[0] == 0 { "places of the call unknown" } else { "overlapping" }, [got[2], got[0] + got[1], got[3]]))
}

fn compare(case: &[u8]) -> Verdict {
    if matches!(case[0], b'G' | b'H' | b'P') {
        return compare_group(case);
    }
    let seq = sequence(case);
    // calls that end the process on their own are other properties' subject
    if seq.iter().any(|&o| alone()[o as usize].is_err()) {
        return ok("not comparable", 0);
    }
    let got = match fresh(case)? {
        Ok(g) => g,
        Err(m) => return bad(format!("one of the calls {m}, though each returns on its own")),
    };
    if got.len() != seq.len() {
        return harness("number of answers");
    }
    let mut h = 0u64;
    for (i, (&o, &g)) in seq.iter().zip(&got).enumerate() {
        if g == 2 {
            return bad(format!("{} altered its argument", OPS[o as usize].0));
        }
        let want = *alone()[o as usize].as_ref().expect("checked above");
        if g != want && g != 0 && want != 0 {
            let lo = i.saturating_sub(4);
            let before: Vec<&str> = seq[lo..i].iter().map(|&p| OPS[p as usize].0).collect();
            return bad(format!("call {} ({}) returns something else than alone in a fresh process; last calls before it: {}", i + 1, OPS[o as usize].0, if before.is_empty() { "none".into() } else { before.join(", ") }));
        }
        h = mix(h ^ g);
    }
    ok(
        match case[0] {
            b'O' => "alone, repeated in another process",
            b'S' => "one thread",
            b'X' | b'A' => "one thread per call",
            _ => "many repetitions",
        },
        h,
    )
}

/// de Bruijn sequence: contains every sequence of `n` symbols out of `k`.
fn de_bruijn(k: usize, n: usize) -> Vec<u8> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<u8>, out: &mut Vec<u8>) {
        if t > n {
            if n % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k as u8 {
            a[t] = j;
            db(t + 1, t, k, n, a, out);
        }
    }
    let mut out = vec![];
    db(1, 1, k, n, &mut vec![0; k * n], &mut out);
    let wrap: Vec<u8> = out[..n - 1].to_vec();
    out.extend(wrap);
    out
}

impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn bounds(&self, t: Tier) -> String {
        format!(
            "{} calls (every public function, succeeding and failing, with arguments that agree in shape, sum or content order): each alone in two fresh processes; all ordered pairs in a fresh process on one thread, on two threads one after the other, on two live threads; one process passing through every sequence of {} calls; each call repeated {} times and followed by every call; {} groups of alike calls (49 to 1875 each): every one alone, then all in one process in three orders and pair walks; overlapping calls at basic-block granularity: every ordered pair with the first interrupted at up to {} places (all, or the first and last passing of each place), pairs of one function also with the second interrupted in turn, and each schedule in a fresh process{}",
            OPS.len(),
            if t == Tier::Quick { "2" } else { "3" },
            if t == Tier::Quick { 1100 } else { 5000 },
            GROUPS.len(),
            if t == Tier::Quick { 100 } else { 1000 },
            if t == Tier::Quick { "" } else { "; all triples in fresh processes" }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["process state is the only state carried from call to call (the crate opens no file or socket)".into(), "results are compared by 64-bit hashes of their printed form, pictures by their raw pixels".into()]
    }
    fn describe(&self, c: &[u8]) -> String {
        if matches!(c[0], b'G' | b'H' | b'P') {
            return format!("{}: {}", GROUPS[c[1] as usize].name, match (c[0], c[2]) {
                (b'P', _) => format!("number {} alone", c[2] as usize | (c[3] as usize) << 8),
                (m, o) => format!("{}, {}", ["all in order", "all in reverse", "all, every 97th next", "every two of some of them in direct succession"][o.min(3) as usize], if m == b'G' { "one thread" } else { "a thread each" }),
            });
        }
        let name = |o: &u8| OPS[*o as usize].0;
        if c[0] == b'I' {
            return format!("{} interrupted by {}{}", name(&c[1]), name(&c[2]), [", one process", ", each schedule in a fresh process", " and again by the first, one process", " and again by the first, fresh processes"][c[3] as usize & 3]);
        }
        let list = |v: &[u8]| if v.len() <= 6 { v.iter().map(name).collect::<Vec<_>>().join("; ") } else { format!("{}; .. ({} calls)", v[..6].iter().map(name).collect::<Vec<_>>().join("; "), v.len()) };
        match c[0] {
            b'O' => format!("alone: {}", name(&c[1])),
            b'S' => format!("on one thread: {}", list(&c[1..])),
            b'X' => format!("each on its own thread: {}", list(&c[1..])),
            b'A' => format!("each on its own thread, all kept alive: {}", list(&c[1..])),
            _ => format!("{} repeated {} times, then every call", name(&c[1]), c[2] as usize | (c[3] as usize) << 8 | (c[4] as usize) << 16),
        }
    }
    fn explore(&self, x: &Explorer) {
        let n = OPS.len() as u64;
        x.par_chunk("each call alone, again", n, 1, |w, i| {
            w.state();
            w.transition();
            w.exec(&[b'O', i as u8]);
        });
        if let Some(i) = alone().iter().position(|r| r.is_err()) {
            x.note(format!("not comparable: {} {}", OPS[i].0, alone()[i].as_ref().unwrap_err()));
        }
        for (m, name) in [(b'S', "pairs, one thread"), (b'X', "pairs, a thread each"), (b'A', "pairs, two live threads")] {
            x.par_chunk(name, n * n, 4, |w, i| {
                w.state();
                w.stats.transitions += 2;
                w.exec(&[m, (i / n) as u8, (i % n) as u8]);
            });
        }
        let reps = x.pick(1100usize, 5000);
        x.par_chunk("one call many times, then every call", n, 1, |w, i| {
            w.state();
            w.stats.transitions += reps as u64 + n;
            w.exec(&[b'R', i as u8, reps as u8, (reps >> 8) as u8, 0]);
        });
        let walk = de_bruijn(OPS.len(), x.pick(2, 3));
        // pieces overlap so that no sequence is cut
        let piece = x.pick(600usize, 4000);
        let pieces = walk.len().div_ceil(piece);
        x.par_chunk("one process through every sequence", pieces as u64, 1, |w, i| {
            let lo = i as usize * piece;
            let hi = (lo + piece + 2).min(walk.len());
            let mut c = vec![b'S'];
            c.extend(&walk[lo..hi]);
            w.stats.states += (hi - lo) as u64;
            w.stats.transitions += (hi - lo) as u64;
            w.exec(&c);
        });
        let ids: Vec<(u8, u16)> = GROUPS.iter().enumerate().flat_map(|(g, r)| (0..r.n as u16).map(move |i| (g as u8, i))).collect();
        x.par_chunk("alike calls: each alone", ids.len() as u64, 8, |w, i| {
            let (g, i) = ids[i as usize];
            w.state();
            w.transition();
            w.exec(&[b'P', g, i as u8, (i >> 8) as u8]);
        });
        let m = x.pick(30u16, 150);
        let shifts = x.pick(1u64, 8);
        x.par_chunk("alike calls: all in one process, three orders and pair walks, one thread or a thread each", GROUPS.len() as u64 * 2 * (3 + shifts), 1, |w, i| {
            let (g, t, o) = (i as usize % GROUPS.len(), i as usize / GROUPS.len() % 2, i as usize / GROUPS.len() / 2);
            let c = [[b'G', b'H'][t], g as u8, o as u8, m as u8, (m >> 8) as u8];
            let n = group_order(&c).len() as u64;
            w.stats.states += n;
            w.stats.transitions += n;
            w.exec(&c);
        });
        if std::env::var_os("VP_SCHED_BIN").is_some() {
            let function = |o: u64| OPS[o as usize].0.split('(').next();
            let alike: Vec<(u64, u64)> = (0..n * n).map(|i| (i / n, i % n)).filter(|&(a, b)| function(a) == function(b)).collect();
            for (pairs, how, limit, name) in [
                (alike.clone(), 1u8, x.pick(40u16, 400), "overlapping calls of one function, each schedule in a fresh process"),
                (alike, 2, x.pick(300, 3000), "overlapping calls of one function, both interrupted"),
                ((0..n * n).map(|i| (i / n, i % n)).collect(), 0, x.pick(100, 1000), "overlapping calls, one interrupted"),
            ] {
                x.par_chunk(name, pairs.len() as u64, 1, |w, i| {
                    let (a, b) = pairs[i as usize];
                    w.state();
                    w.stats.transitions += 2;
                    w.exec(&[b'I', a as u8, b as u8, how, limit as u8, (limit >> 8) as u8]);
                });
            }
        } else {
            x.note("overlapping calls were not explored: the build with scheduling points is missing".into());
        }
        if !x.quick() {
            x.par_chunk("triples, one thread", n * n * n, 16, |w, i| {
                w.state();
                w.stats.transitions += 3;
                w.exec(&[b'S', (i / n / n) as u8, (i / n % n) as u8, (i % n) as u8]);
            });
        }
    }
    fn check(&self, c: &[u8], io: &mut Io) -> Verdict {
        if c[0] == b'I' {
            let (class, n) = compare_overlap(c)?;
            io.steps = n[0];
            return ok(if n[2] > 0 { "overlapping, one waiting for the other" } else { class }, 0);
        }
        io.steps = if matches!(c[0], b'G' | b'H') { group_order(c).len() } else { sequence(c).len() } as u64;
        compare(c)
    }
}
