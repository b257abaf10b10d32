//! Raw Linux system calls (never intercepted) and the real libc functions behind
//! the intercepted ones.
use std::sync::atomic::{AtomicUsize, Ordering};

#[inline(always)]
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// libc convention: -1 and errno on failure.
#[inline]
pub unsafe fn scl(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = sc(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub unsafe fn set_errno(e: i32) -> i32 {
    *libc::__errno_location() = e;
    -1
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize,
        val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize,
        1, 0, 0, 0);
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sc(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if n == -(libc::EINTR as isize) {
            continue;
        }
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        sc(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sc(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub unsafe fn next_sym(slot: &AtomicUsize, name: &[u8]) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
    assert!(p != 0);
    slot.store(p, Ordering::Relaxed);
    p
}
