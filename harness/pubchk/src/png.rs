//! C22: PNG conversion.
use crate::pixels::*;
use engine::*;
use image::{Rgb, RgbImage};
use puzzle_utils::{create_maze, image_to_png_bytes, print_maze, print_maze_solution, print_nonogram, print_nonogram_solution, print_sudoku, MazeAlgorithm};
use rand::vpctl::{self, Policy};

pub struct C22;

// 'T', w, h, colour index per pixel (2 bits used)   tiny pictures
// 'Z', w, h                                          pictures without pixels
// 'O', r, g, b                                       one pixel of this colour
// 'U', r, g                                          256 pictures of one pixel, all blue values
// 'P', w u16, h u16, pattern                         patterned pictures
// 'K', w u16, h u16, k u24, mode                     exactly k colours | one odd channel value
// 'L', kind, parameter                               pictures the library draws

const PALETTE: [[u8; 3]; 4] = [[255, 255, 255], [0, 0, 0], [255, 0, 0], [1, 2, 3]];
const PATTERNS: u8 = 10;

fn pattern(w: u32, h: u32, p: u8) -> RgbImage {
    RgbImage::from_fn(w, h, |x, y| {
        let i = y as u64 * w as u64 + x as u64;
        let r = mix(i ^ 0x5bd1);
        Rgb(match p {
            0 => [255, 255, 255],
            1 => [(x * 7 + y * 13) as u8; 3],
            2 => [x as u8, y as u8, (x ^ y) as u8],
            3 => [r as u8, (r >> 8) as u8, (r >> 16) as u8],
            4 => PALETTE[(r % 2) as usize],
            5 => PALETTE[(r % 4) as usize],
            6 => [0, 0, (x == w - 1 && y == h - 1) as u8],
            7 => [(i >> 16) as u8, (i >> 8) as u8, i as u8],
            8 => [if (x + y) % 2 == 0 { 254 } else { 255 }; 3],
            _ => [255, 0, if x == 0 { 1 } else { 0 }],
        })
    })
}

/// mode 0..=2: exactly k colours (as numbers, as grays and then colours, spread); mode 3..: a gray or black picture in which one
/// channel of pixel k differs.
fn colours(w: u32, h: u32, k: u32, mode: u8) -> RgbImage {
    RgbImage::from_fn(w, h, |x, y| {
        let i = y * w + x;
        let c = i % k.max(1);
        Rgb(match mode {
            0 => [(c >> 16) as u8, (c >> 8) as u8, c as u8],
            1 => if c < 256 { [c as u8; 3] } else { [c as u8, 255 - c as u8, (c >> 8) as u8] },
            2 => { let m = c.wrapping_mul(0x9E3779B1) & 0xff_ffff; [m as u8, (m >> 8) as u8, (m >> 16) as u8] }
            _ => {
                let m = mode - 3;
                let base = [0u8, 255, 128, i as u8][(m / 3) as usize];
                let mut p = [base; 3];
                if i == k {
                    p[(m % 3) as usize] ^= 1;
                }
                p
            }
        })
    })
}

const LIBRARY: [&str; 5] = ["maze", "maze solution", "sudoku", "nonogram", "nonogram solution"];

fn library(kind: u8, k: u8) -> Result<RgbImage, String> {
    let n = 1 + k as u32 % 12;
    let rules = |m: u32| (0..m).map(|i| vec![1 + (i as usize + k as usize) % 3, k as usize]).collect::<Vec<_>>();
    match kind {
        0 | 1 => {
            let h = 1 + k as u32 / 3;
            vpctl::install(&[], Policy::Lcg(k as u64), 1 << 20, 1 << 24);
            let r = std::panic::catch_unwind(|| {
                let (g, s) = create_maze(n as usize, h as usize, MazeAlgorithm::RecursiveBacktrack);
                let p = print_maze(n, h, &g).map_err(|e| e.to_string())?;
                if kind == 0 {
                    return Ok(p);
                }
                print_maze_solution(p, &s).map_err(|e| e.to_string())
            });
            vpctl::finish(&mut vec![]);
            r.unwrap_or(Err("panic".into()))
        }
        2 => print_sudoku(&(0..81).map(|i| ((i * 7 + i / 9 + k as usize) % 10) as u8).collect::<Vec<_>>()).map_err(|e| e.to_string()),
        _ => {
            let m = 1 + k as u32 / 4;
            let p = print_nonogram(n, m, &rules(n), &rules(m)).map_err(|e| e.to_string())?;
            if kind == 3 {
                return Ok(p);
            }
            print_nonogram_solution(n, m, p, &(0..n * m).map(|i| mix(i as u64 + k as u64) & 1 == 1).collect::<Vec<_>>()).map_err(|e| e.to_string())
        }
    }
}

fn crc(bytes: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in bytes {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

/// The chunk structure of a PNG file.
fn chunks(b: &[u8]) -> Result<(), String> {
    if b.len() < 8 || b[..8] != [0x89, b'P', b'N', b'G', 13, 10, 26, 10] {
        return Err("no PNG signature".into());
    }
    let mut at = 8;
    let mut first = true;
    loop {
        if b.len() < at + 12 {
            return Err("the file ends within a chunk".into());
        }
        let len = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        if b.len() < at + 12 + len {
            return Err("the file ends within a chunk".into());
        }
        let kind = &b[at + 4..at + 8];
        if first && (kind != b"IHDR" || len != 13) {
            return Err("the first chunk is not the header".into());
        }
        first = false;
        if len < 4096 && crc(&b[at + 4..at + 8 + len]) != u32::from_be_bytes(b[at + 8 + len..at + 12 + len].try_into().unwrap()) {
            return Err("a chunk has a wrong checksum".into());
        }
        at += 12 + len;
        if kind == b"IEND" {
            return if at == b.len() { Ok(()) } else { Err("bytes follow the end of the PNG".into()) };
        }
    }
}

/// Decodes with the png crate, all transformations explicit.
fn decoded(b: &[u8]) -> Result<RgbImage, String> {
    let mut d = png::Decoder::new(std::io::Cursor::new(b));
    d.set_transformations(png::Transformations::EXPAND | png::Transformations::STRIP_16);
    let mut r = d.read_info().map_err(|e| e.to_string())?;
    let mut buf = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut buf).map_err(|e| e.to_string())?;
    r.finish().map_err(|e| e.to_string())?;
    let buf = &buf[..i.buffer_size()];
    let opaque = |a: u8| if a == 255 { Ok(()) } else { Err("a pixel is transparent".to_string()) };
    let mut raw = Vec::with_capacity(i.width as usize * i.height as usize * 3);
    match i.color_type {
        png::ColorType::Rgb => raw.extend_from_slice(buf),
        png::ColorType::Grayscale => buf.iter().for_each(|&g| raw.extend([g, g, g])),
        png::ColorType::GrayscaleAlpha => {
            for p in buf.chunks(2) {
                opaque(p[1])?;
                raw.extend([p[0]; 3]);
            }
        }
        png::ColorType::Rgba => {
            for p in buf.chunks(4) {
                opaque(p[3])?;
                raw.extend_from_slice(&p[..3]);
            }
        }
        c => return Err(format!("unexpected colour type {c:?}")),
    }
    RgbImage::from_raw(i.width, i.height, raw).ok_or_else(|| "wrong amount of pixel data".into())
}

fn convert(img: &RgbImage) -> Result<u64, Bad> {
    let bytes = match call("image_to_png_bytes", || image_to_png_bytes(img))? {
        Ok(b) => b,
        Err(e) => return bad(format!("a picture of {:?} pixels is refused: {e}", img.dimensions())),
    };
    chunks(&bytes).map_err(Bad::Violation)?;
    let back = decoded(&bytes).map_err(|e| Bad::Violation(format!("the PNG cannot be decoded: {e}")))?;
    match first_difference(&back, img) {
        Some(d) => bad(format!("decoded picture differs: {d}")),
        None => Ok(fnv(&bytes)),
    }
}

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn bounds(&self, t: Tier) -> String {
        let q = t == Tier::Quick;
        format!(
            "every picture of at most {} pixels over 4 colours, all shapes; one-pixel pictures of {} colours; every width x height up to {} in {PATTERNS} patterns; strips 1xN and Nx1 for every N up to {} and around powers of two to 2^18; pictures of exactly 1..300 and around 2^9..2^16 colours; gray pictures with one channel of one pixel off by one, every pixel of five shapes; pictures drawn by the library; pictures without pixels",
            if q { 6 } else { 8 },
            if q { "2^18" } else { "all 2^24" },
            if q { 40 } else { 96 },
            if q { 2000 } else { 20000 }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the png crate's decoder (0.17.13) is trusted to decode; chunk structure and checksums are verified separately".into()]
    }
    fn describe(&self, c: &[u8]) -> String {
        let u = |i: usize| c[i] as u32 | (c[i + 1] as u32) << 8 | (c[i + 2] as u32) << 16;
        match c[0] {
            b'T' => format!("{}x{} picture with colours {:?} of {PALETTE:?}", c[1], c[2], &c[3..]),
            b'Z' => format!("{}x{} picture", c[1], c[2]),
            b'O' => format!("one pixel {:?}", &c[1..4]),
            b'U' => format!("one pixel, red {} green {}, every blue", c[1], c[2]),
            b'P' => format!("{}x{} picture, pattern {}", u(1), u(4), c[7]),
            b'K' if c[8] < 3 => format!("{}x{} picture of {} colours, kind {}", c[1] as u32 | (c[2] as u32) << 8, c[3] as u32 | (c[4] as u32) << 8, u(5), c[8]),
            b'K' => format!("{}x{} gray picture, one channel of pixel {} differs by one, kind {}", c[1] as u32 | (c[2] as u32) << 8, c[3] as u32 | (c[4] as u32) << 8, u(5), c[8] - 3),
            _ => format!("library picture: {} {}", LIBRARY[c[1] as usize], c[2]),
        }
    }
    fn explore(&self, x: &Explorer) {
        x.par("pictures without pixels", 64, |w, i| {
            let (a, b) = (i as u8 / 8, i as u8 % 8);
            if a == 0 || b == 0 {
                w.state();
                w.transition();
                w.exec(&[b'Z', a * 9, b * 9]);
            }
        });
        for n in 1..=x.pick(6u32, 8) {
            for w_ in (1..=n).filter(|w| n % w == 0) {
                let h = n / w_;
                x.par(&format!("every {w_}x{h} picture over 4 colours"), 4u64.pow(n), |w, i| {
                    let mut c = vec![b'T', w_ as u8, h as u8];
                    c.extend((0..n).map(|k| (i >> (2 * k) & 3) as u8));
                    w.state();
                    w.transition();
                    w.exec(&c);
                });
            }
        }
        let step = x.pick(4u64, 1);
        let n = 256 / step;
        x.par("one pixel of every colour", n * n, |w, i| {
            let v = |k: u64| if k == n - 1 { 255 } else { k * step };
            w.stats.states += 256 / step;
            w.stats.transitions += 256 / step;
            w.exec(&[b'U', v(i / n) as u8, v(i % n) as u8, step as u8]);
        });
        let side = x.pick(40u64, 96);
        let p = |w: &mut Worker, a: u64, b: u64, k: u8| {
            w.state();
            w.transition();
            w.exec(&[b'P', a as u8, (a >> 8) as u8, (a >> 16) as u8, b as u8, (b >> 8) as u8, (b >> 16) as u8, k]);
        };
        x.par("every width and height, patterned", side * side * PATTERNS as u64, |w, i| {
            let k = (i % PATTERNS as u64) as u8;
            let j = i / PATTERNS as u64;
            p(w, j % side + 1, j / side + 1, k);
        });
        let len = x.pick(2000u64, 20000);
        x.par("strips of every length", len * 4, |w, i| {
            let l = i / 4 + 1;
            let k = [7, 3][(i % 2) as usize];
            if i / 2 % 2 == 0 {
                p(w, l, 1, k)
            } else {
                p(w, 1, l, k)
            }
        });
        let mut sizes: Vec<(u64, u64)> = vec![];
        for e in 10..=18u32 {
            for d in [-1i64, 0, 1] {
                let l = ((1i64 << e) + d) as u64;
                sizes.extend([(l, 1), (1, l), (l, 2), (3, l)]);
            }
        }
        for a in [500u64, 512, 900, 1001, 1024, 1025] {
            sizes.extend([(a, a), (a, 257), (100, a)]);
        }
        if !x.quick() {
            for a in [2047u64, 2048, 2049, 3001, 4096] {
                sizes.extend([(a, a), (a, 300), (300, a)]);
            }
        }
        let pats = [0u8, 1, 3, 4, 6, 7];
        x.par_chunk("large pictures", sizes.len() as u64 * pats.len() as u64, 1, |w, i| {
            let (a, b) = sizes[i as usize / pats.len()];
            p(w, a, b, pats[i as usize % pats.len()]);
        });
        let mut k = vec![];
        let mut add = |a: u32, b: u32, n: u32, m: u8| k.push(vec![b'K', a as u8, (a >> 8) as u8, b as u8, (b >> 8) as u8, n as u8, (n >> 8) as u8, (n >> 16) as u8, m]);
        for m in 0..3 {
            (1..=300).for_each(|n| add(n, 1, n, m));
            (1..=300).for_each(|n| add(20, 16, n, m));
            for n in [511u32, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537] {
                add(300, 220, n, m);
            }
        }
        for m in 3..15 {
            for (a, b) in [(16u32, 16u32), (33, 9), (9, 33), (300, 1), (1, 300)] {
                (0..a * b).for_each(|n| add(a, b, n, m));
            }
            // far into larger pictures
            for (a, b) in [(128u32, 64u32), (257, 255), (1024, 70)] {
                for e in 0..if x.quick() { 24 } else { 200 } {
                    add(a, b, (a * b - 1) - (mix(e as u64) % (a * b) as u64) as u32 * (e > 0) as u32, m);
                }
            }
        }
        x.par("pictures of exactly k colours; gray pictures with one odd channel", k.len() as u64, |w, i| {
            w.state();
            w.transition();
            w.exec(&k[i as usize]);
        });
        let n = x.pick(24u64, 100);
        x.par_chunk("pictures the library draws", 5 * n, 1, |w, i| {
            w.state();
            w.transition();
            w.exec(&[b'L', (i % 5) as u8, (i / 5) as u8]);
        });
    }
    fn check(&self, c: &[u8], io: &mut Io) -> Verdict {
        io.steps = 1;
        let u = |i: usize| c[i] as u32 | (c[i + 1] as u32) << 8 | (c[i + 2] as u32) << 16;
        match c[0] {
            b'T' => {
                let img = RgbImage::from_fn(c[1] as u32, c[2] as u32, |x, y| Rgb(PALETTE[c[3 + (y as usize * c[1] as usize + x as usize)] as usize]));
                ok("tiny picture", convert(&img)?)
            }
            b'Z' => {
                let img = RgbImage::new(c[1] as u32, c[2] as u32);
                let r = call("image_to_png_bytes", || image_to_png_bytes(&img))?;
                ok(if r.is_ok() { "no pixels: converted" } else { "no pixels: refused" }, 0)
            }
            b'O' => ok("one pixel", convert(&RgbImage::from_pixel(1, 1, Rgb([c[1], c[2], c[3]])))?),
            b'U' => {
                let mut h = 0;
                io.steps = 256;
                for b in (0..256u32).step_by(c[3] as usize).chain([255]) {
                    h ^= convert(&RgbImage::from_pixel(1, 1, Rgb([c[1], c[2], b as u8]))).map_err(|e| match e {
                        Bad::Violation(m) => Bad::Violation(format!("blue {b}: {m}")),
                        e => e,
                    })?;
                }
                ok("one pixel, every blue", h)
            }
            b'K' => ok("counted colours", convert(&colours(c[1] as u32 | (c[2] as u32) << 8, c[3] as u32 | (c[4] as u32) << 8, u(5), c[8]))?),
            b'P' => ok("patterned picture", convert(&pattern(u(1), u(4), c[7]))?),
            _ => {
                let img = match sut(|| library(c[1], c[2])) {
                    Ok(Ok(i)) => i,
                    // drawing is the subject of other properties
                    _ => return ok("not drawn", 0),
                };
                ok("library picture", convert(&img)?)
            }
        }
    }
}
