//! Memory of the engine inside a run: an arena at a fixed address, so that what the
//! engine can see of addresses (hash buckets of parking lots, pointer comparisons)
//! depends on the run alone and not on what the process did before.
use crate::raw;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 64 << 30;
const CLASSES: usize = 64 + 30 * 4;

static mut NEXT: usize = 0;
static mut FREE: [usize; CLASSES] = [0; CLASSES];

pub fn init() {
    unsafe {
        // the libc heap grows by brk only, so that nothing else moves the mappings
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::mallopt(libc::M_TRIM_THRESHOLD, i32::MAX);
        let p = raw::sc(
            libc::SYS_mmap, BASE, SIZE, (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as usize, usize::MAX, 0,
        );
        if p as usize == BASE {
            NEXT = BASE;
        }
    }
}
/// The process-wide part, as early as possible.
pub fn early() {
    // what the standard library makes on first use is there in every run
    use std::io::Write;
    let _ = std::io::stdout().lock().flush();
    let _ = std::io::stderr().lock().flush();
    unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::mallopt(libc::M_TRIM_THRESHOLD, i32::MAX);
    }
}
pub fn owns(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}
/// Class and its size.
fn class(size: usize, align: usize) -> (usize, usize) {
    if align > 16 {
        let s = size.max(align).next_power_of_two();
        return if s <= 1024 { (s / 16 - 1, s) } else { (64 + (s.trailing_zeros() as usize - 10) * 4 - 1, s) };
    }
    if size <= 1024 {
        let c = (size.max(1) + 15) / 16;
        return (c - 1, c * 16);
    }
    // between 2^k and 2^(k+1): four steps
    let k = usize::BITS as usize - 1 - (size - 1).leading_zeros() as usize;
    let step = 1usize << (k - 2);
    let q = (size - (1 << k) + step - 1) / step;
    (64 + (k - 10) * 4 + q - 1, (1 << k) + q * step)
}
/// The caller holds the simulation.
pub unsafe fn alloc(size: usize, align: usize) -> (*mut u8, bool) {
    if NEXT == 0 || size > 1 << 38 {
        return (std::ptr::null_mut(), true);
    }
    let (c, s) = class(size, align);
    if align <= 16 || s <= 4096 {
        // natural alignment is guaranteed only for blocks the bump pointer aligned
        let p = FREE[c];
        if p != 0 && p % align == 0 {
            FREE[c] = *(p as *const usize);
            return (p as *mut u8, false);
        }
    }
    let a = align.max(16);
    let p = (NEXT + a - 1) & !(a - 1);
    if p + s > BASE + SIZE {
        return (std::ptr::null_mut(), true);
    }
    NEXT = p + s;
    (p as *mut u8, true)
}
pub unsafe fn free(p: *mut u8, size: usize, align: usize) {
    let (c, _) = class(size, align);
    *(p as *mut usize) = FREE[c];
    FREE[c] = p as usize;
}
pub fn same_class(a: usize, b: usize, align: usize) -> bool {
    class(a, align) == class(b, align)
}
