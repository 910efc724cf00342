//! A checking global allocator: every block carries a header that is verified when it is
//! freed (double free, wrong layout), freed blocks are poisoned, and per-thread counters record
//! live bytes, their peak and the number of allocations. A single absurd request is refused,
//! which makes the standard library abort; the supervisor reports such a death as a crash.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const LIVE: u64 = 0x5afe_b10c_a110_ca7e;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;
/// Largest single allocation granted.
pub const MAX_REQUEST: usize = 256 << 20;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    _pad: u64,
}

pub struct Checking;

fn offset(align: usize) -> usize {
    std::mem::size_of::<Header>().max(align)
}

fn die(msg: &str) -> ! {
    // No allocation here.
    use std::io::Write;
    let _ = std::io::stderr().write_all(msg.as_bytes());
    std::process::abort()
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > MAX_REQUEST {
            return std::ptr::null_mut();
        }
        let off = offset(layout.align());
        let full = match Layout::from_size_align(layout.size() + off, layout.align().max(16)) {
            Ok(l) => l,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
        (*h).magic = LIVE;
        (*h).size = layout.size();
        (*h).align = layout.align();
        let _ = CUR.try_with(|c| {
            let n = c.get() + layout.size() as i64;
            c.set(n);
            let _ = PEAK.try_with(|p| if n > p.get() { p.set(n) });
        });
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let off = offset(layout.align());
        let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
        if (*h).magic == DEAD {
            die("allocator: double free\n");
        }
        if (*h).magic != LIVE {
            die("allocator: free of a corrupt or foreign block\n");
        }
        if (*h).size != layout.size() || (*h).align != layout.align() {
            die("allocator: freed with a layout other than it was allocated with\n");
        }
        (*h).magic = DEAD;
        if layout.size() <= 1 << 16 {
            std::ptr::write_bytes(user, 0xdb, layout.size());
        }
        let _ = CUR.try_with(|c| c.set(c.get() - layout.size() as i64));
        System.dealloc(
            user.sub(off),
            Layout::from_size_align_unchecked(layout.size() + off, layout.align().max(16)),
        );
    }
}

/// Bytes this thread has allocated and not freed (may be negative: frees of others' blocks).
pub fn live() -> i64 {
    CUR.with(|c| c.get())
}

/// Number of allocations this thread has made.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// Runs `f` and returns its result with the peak of extra live bytes while it ran.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let start = live();
    let saved = PEAK.with(|p| p.replace(start));
    let out = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(saved.max(peak)));
    (out, peak - start)
}
