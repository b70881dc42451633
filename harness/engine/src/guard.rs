//! Guard allocator. Every block carries a header; while tracking is on (per thread), freed blocks are
//! poisoned and kept in quarantine until `flush`, so double frees, frees with a wrong layout, writes
//! after free (poison destroyed), reads after free (poison is a non-canonical address / huge index) and
//! leaks show up deterministically in the very execution that commits them.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guard;

const LIVE: u64 = 0x11FE_B10C_11FE_B10C;
const FREED: u64 = 0xF4EE_DB10_C0DE_AD00;
const POISON: u8 = 0xA5;
const HDR: usize = 32;
const SMALL: usize = 4096;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u64,
    next: *mut Header,
}

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static LIVE_B: Cell<i64> = const { Cell::new(0) };
    static CAP_B: Cell<i64> = const { Cell::new(i64::MAX) };
    static ERR: Cell<u32> = const { Cell::new(0) };
    static QHEAD: Cell<*mut Header> = const { Cell::new(std::ptr::null_mut()) };
    static QLEN: Cell<usize> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}

fn err(code: u32) {
    let _ = ERR.try_with(|e| {
        if e.get() == 0 {
            e.set(code)
        }
    });
}

pub fn describe(code: u32) -> &'static str {
    match code {
        1 => "a block was freed twice",
        2 => "a pointer was freed that is not an allocated block",
        3 => "a block was freed with a layout other than the one it was allocated with",
        4 => "a freed block was written to",
        _ => "memory error",
    }
}

unsafe fn release(h: *mut Header) {
    let align = ((*h).align as usize).max(16);
    let off = HDR.max(align);
    let size = (*h).size as usize;
    let base = (h as *mut u8).add(HDR).sub(off);
    (*h).magic = 0;
    System.dealloc(base, Layout::from_size_align_unchecked(size + off, align));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        let over = CAP_B.try_with(|c| LIVE_B.with(|b| b.get().saturating_add(size as i64) > c.get())).unwrap_or(false);
        if over || size > (1usize << 40) {
            return std::ptr::null_mut();
        }
        let align = layout.align().max(16);
        let off = HDR.max(align);
        let base = System.alloc(Layout::from_size_align_unchecked(size + off, align));
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let h = user.sub(HDR) as *mut Header;
        h.write(Header { magic: LIVE, size: size as u64, align: align as u64, next: std::ptr::null_mut() });
        let _ = TRACK.try_with(|t| {
            if t.get() && size <= SMALL {
                std::ptr::write_bytes(user, 0x5A, size);
            }
        });
        let _ = LIVE_N.try_with(|n| n.set(n.get() + 1));
        let _ = ALLOCS.try_with(|n| n.set(n.get() + 1));
        let _ = LIVE_B.try_with(|b| b.set(b.get() + size as i64));
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let h = user.sub(HDR) as *mut Header;
        match (*h).magic {
            LIVE => (),
            FREED => return err(1),
            _ => return err(2),
        }
        if (*h).size != layout.size() as u64 || (*h).align != layout.align().max(16) as u64 {
            err(3);
        }
        let size = (*h).size as usize;
        let _ = LIVE_N.try_with(|n| n.set(n.get() - 1));
        let _ = LIVE_B.try_with(|b| b.set(b.get() - size as i64));
        let track = TRACK.try_with(|t| t.get()).unwrap_or(false);
        if track && size <= SMALL {
            (*h).magic = FREED;
            std::ptr::write_bytes(user, POISON, size);
            QHEAD.with(|q| {
                (*h).next = q.get();
                q.set(h);
            });
            let n = QLEN.with(|q| {
                q.set(q.get() + 1);
                q.get()
            });
            if n > 400_000 {
                flush();
            }
        } else {
            release(h);
        }
    }
}

/// Starts tracking on this thread.
pub fn track(on: bool) {
    TRACK.with(|t| t.set(on));
}

/// Limits the bytes this thread may hold (relative to now) until `uncap`.
pub fn cap(bytes: i64) {
    CAP_B.with(|c| c.set(LIVE_B.with(|b| b.get()).saturating_add(bytes)));
}
pub fn uncap() {
    CAP_B.with(|c| c.set(i64::MAX));
}

/// Blocks currently allocated and not freed by this thread.
pub fn live_blocks() -> i64 {
    LIVE_N.with(|n| n.get())
}

/// Blocks ever allocated by this thread.
pub fn allocs() -> u64 {
    ALLOCS.with(|n| n.get())
}

/// Empties the quarantine, checking that no freed block was written to.
pub fn flush() {
    let mut h = QHEAD.with(|q| q.replace(std::ptr::null_mut()));
    QLEN.with(|q| q.set(0));
    unsafe {
        while !h.is_null() {
            let next = (*h).next;
            let body = std::slice::from_raw_parts((h as *mut u8).add(HDR), (*h).size as usize);
            if (*h).magic != FREED || body.iter().any(|&b| b != POISON) {
                err(4);
            }
            release(h);
            h = next;
        }
    }
}

/// Takes the memory error noted on this thread, if any.
pub fn take_error() -> Option<&'static str> {
    let code = ERR.with(|e| e.replace(0));
    (code != 0).then(|| describe(code))
}
