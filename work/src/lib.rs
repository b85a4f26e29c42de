//! The library behind a flat interface, for gen/work.mjs: 32-bit WebAssembly whose functions and
//! loops are made to count there.
use blitstr::{clear_region, demo, new_fr_buf, paint_str, ClipRect, Cursor, FrBuf, GlyphStyle, Pt};

static mut TEXT: [u8; 1 << 18] = [0; 1 << 18];
static mut FB: FrBuf = new_fr_buf();

#[no_mangle]
pub extern "C" fn text() -> *mut u8 {
    &raw mut TEXT as *mut u8
}

/// The text has to be UTF-8, which the caller has checked
#[no_mangle]
pub extern "C" fn paint(n: usize, a: usize, b: usize, c: usize, d: usize, x: usize, y: usize, l: usize, st: usize) {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(&raw const TEXT as *const u8, n)) };
    let fb = unsafe { &mut *&raw mut FB };
    let clip = ClipRect { min: Pt { x: a, y: b }, max: Pt { x: c, y: d } };
    paint_str(fb, clip, &mut Cursor::new(x, y, l), [GlyphStyle::Small, GlyphStyle::Regular, GlyphStyle::Bold][st], s);
}

#[no_mangle]
pub extern "C" fn clear(a: usize, b: usize, c: usize, d: usize) {
    clear_region(unsafe { &mut *&raw mut FB }, ClipRect { min: Pt { x: a, y: b }, max: Pt { x: c, y: d } });
}

#[no_mangle]
pub extern "C" fn demos(k: usize) {
    let fb = unsafe { &mut *&raw mut FB };
    [demo::sample_text, demo::short_greeting, demo::goose_poem][k](fb);
}
