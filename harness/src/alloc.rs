//! Global allocator that can fill fresh memory with a pattern, so that whatever a routine reads before
//! writing it becomes visible in its results. Fresh memory from the system is mostly zero otherwise.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static FILL: Cell<u8> = const { Cell::new(0) };
}
/// 0: leave fresh memory alone
pub fn set_fill(b: u8) {
    // interpreters and memcheck know which memory is uninitialised; filling it would hide that
    static OFF: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let off = *OFF.get_or_init(|| cfg!(miri) || std::env::var_os("MON_NO_FILL").is_some());
    FILL.with(|f| f.set(if off { 0 } else { b }))
}
/// all patterns are unlike a freshly mapped page: a NaN, two large numbers of either sign, a small one
pub const FILLS: [u8; 4] = [0xff, 0x43, 0xc3, 0x3f];

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let b = FILL.with(|f| f.get());
        if b != 0 && !p.is_null() {
            std::ptr::write_bytes(p, b, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        let b = FILL.with(|f| f.get());
        if b != 0 && !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), b, n - l.size());
        }
        q
    }
}
