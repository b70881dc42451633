//! Colours, font and picture comparison shared by the drawing checks.
use image::{Rgb, RgbImage};
use std::sync::OnceLock;

pub const WHITE: Rgb<u8> = Rgb([255, 255, 255]);
pub const BLACK: Rgb<u8> = Rgb([0, 0, 0]);
pub const RED: Rgb<u8> = Rgb([255, 0, 0]);
pub const GRAY: Rgb<u8> = Rgb([105, 105, 105]);

pub fn font() -> &'static ab_glyph::FontRef<'static> {
    static F: OnceLock<ab_glyph::FontRef<'static>> = OnceLock::new();
    static BYTES: &[u8] = include_bytes!("/repo/resources/Roboto-Medium.ttf");
    F.get_or_init(|| ab_glyph::FontRef::try_from_slice(BYTES).expect("font"))
}

pub fn first_difference(a: &RgbImage, b: &RgbImage) -> Option<String> {
    if a.dimensions() != b.dimensions() {
        return Some(format!("picture is {:?} pixels, expected {:?}", a.dimensions(), b.dimensions()));
    }
    if a.as_raw() == b.as_raw() {
        return None;
    }
    let n = a.enumerate_pixels().zip(b.pixels()).filter(|((_, _, p), q)| p != q).count();
    let ((x, y, p), q) = a.enumerate_pixels().zip(b.pixels()).find(|((_, _, p), q)| p != q)?;
    Some(format!("pixel ({x},{y}) is {:?}, expected {:?} ({n} pixels differ)", p.0, q.0))
}
