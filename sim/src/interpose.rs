//! libc entry points taken over by the simulation.  On a simulated thread running
//! user code they act on the simulated kernel; everywhere else they pass through.
use crate::arena;
use crate::kernel::*;
use crate::klog;
use crate::raw;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, sockaddr, socklen_t, ssize_t, timespec};

// ---------------------------------------------------------------- memory
pub struct SimAlloc;
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;
pub const MEM_LIMIT: i64 = 192 << 20;

/// Account for an allocation; true if it is the engine's own.
#[inline(never)]
unsafe fn alloc_event(size: i64) -> bool {
    if let Some(_g) = enter() {
        let k = kp();
        (*k).live_mem += size;
        if (*k).live_mem > (*k).peak_mem {
            (*k).peak_mem = (*k).live_mem;
        }
        if (*k).live_mem > MEM_LIMIT {
            (*k).mem_limit_reached();
        }
        if size > 0 && (*k).plan.sched.alloc_gap > 0 {
            if (*k).gap_left == 0 {
                let g = (*k).plan.sched.alloc_gap as u64;
                (*k).gap_left = (*k).gap_rng.below(2 * g) as u32;
                yield_point();
            } else {
                (*k).gap_left -= 1;
            }
        }
        return true;
    }
    false
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    // a thread that has left the simulation no longer has its turn: it leaks
    if tid() >= 0 {
        arena::free(p, l.size(), l.align());
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ACTIVE.load(Ordering::Relaxed) && alloc_event(l.size() as i64) {
            return arena::alloc(l.size(), l.align()).0;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ACTIVE.load(Ordering::Relaxed) && alloc_event(l.size() as i64) {
            let (p, fresh) = arena::alloc(l.size(), l.align());
            if !fresh && !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.load(Ordering::Relaxed) {
            alloc_event(-(l.size() as i64));
        }
        if arena::owns(p) {
            arena_free(p, l);
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let engine = ACTIVE.load(Ordering::Relaxed) && alloc_event(n as i64 - l.size() as i64);
        if !engine && !arena::owns(p) {
            return System.realloc(p, l, n);
        }
        if engine && arena::owns(p) && arena::same_class(l.size(), n, l.align()) {
            return p;
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = if engine { arena::alloc(n, l.align()).0 } else { System.alloc(nl) };
        if q.is_null() {
            return q;
        }
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        if arena::owns(p) {
            arena_free(p, l);
        } else {
            System.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- threads
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
static EXIT_KEY: AtomicU32 = AtomicU32::new(u32::MAX);

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    start: Start,
    arg: *mut c_void,
    tid: usize,
    go: *const AtomicU32,
}

unsafe extern "C" fn on_thread_exit(_: *mut c_void) {
    // last of all thread-local destructors: leave the simulation
    if let Some(g) = enter() {
        let k = kp();
        let me = (*k).cur;
        (*k).threads[me].st = St::Exited;
        (*k).threads[me].deadline = None;
        (*k).h(2, me as u64);
        klog!(k, "thread exits");
        for t in 0..(*k).threads.len() {
            if (*k).threads[t].st == St::Join(me) {
                (*k).make_runnable(t, false);
            }
        }
        schedule(me);
        set_tid(-1);
        drop(g);
    }
}

extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut Tramp);
        let (start, arg) = (t.start, t.arg);
        wait_go(t.go);
        set_tid(t.tid as i32);
        let g = enter();
        libc::pthread_setspecific(EXIT_KEY.load(Ordering::Relaxed), 1 as *const c_void);
        drop(t);
        drop(g);
        start(arg)
    }
}

/// Must run once before any simulated thread exists.
pub fn init() {
    unsafe {
        let mut key: libc::pthread_key_t = 0;
        libc::pthread_key_create(&mut key, Some(on_thread_exit));
        EXIT_KEY.store(key as u32, Ordering::Relaxed);
        raw::next_sym(&REAL_CREATE, b"pthread_create\0");
        raw::next_sym(&REAL_JOIN, b"pthread_join\0");
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void,
) -> c_int {
    let real: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int =
        std::mem::transmute(raw::next_sym(&REAL_CREATE, b"pthread_create\0"));
    let g = match enter() {
        Some(g) => g,
        None => return real(out, attr, start, arg),
    };
    let k = kp();
    let id = (*k).new_thread();
    (*k).h(3, id as u64);
    klog!(k, "spawn thread t{}", id);
    let go: *const AtomicU32 = &*(*k).threads[id].go;
    let t = Box::into_raw(Box::new(Tramp { start, arg, tid: id, go }));
    let r = real(out, attr, tramp, t as *mut c_void);
    if r == 0 {
        (*k).threads[id].pthread = *out;
        yield_point();
    } else {
        (*k).threads[id].st = St::Exited;
    }
    drop(g);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let real: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(raw::next_sym(&REAL_JOIN, b"pthread_join\0"));
    if let Some(_g) = enter() {
        yield_point();
        let k = kp();
        if let Some(i) = (*k).threads.iter().position(|x| x.pthread == t && t != 0) {
            while (*kp()).threads[i].st != St::Exited {
                block(St::Join(i), None);
            }
            (*kp()).threads[i].pthread = 0;
        }
    }
    real(t, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(_g) = enter() {
        yield_point();
        return 0;
    }
    raw::scl(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if let Some(_g) = enter() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        let w = (*kp()).plan.sched.workers.max(1);
        for i in 0..w {
            *(set as *mut u8).add(i as usize / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw::scl(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 { -1 } else { 0 }
}

// ---------------------------------------------------------------- futex & co
unsafe fn sim_futex(addr: usize, op: usize, val: usize, ts: usize, val3: usize) -> c_long {
    let k = kp();
    let cmd = (op as c_int) & libc::FUTEX_CMD_MASK;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            yield_point();
            let k = kp();
            if *(addr as *const AtomicU32 as *const u32) != val as u32 {
                return raw::set_errno(libc::EAGAIN) as c_long;
            }
            let pct = (*k).plan.faults.spurious_pct;
            if pct > 0 && !(*k).fair && (*k).ch.choose(2, |r| r.pct(pct) as u32) == 1 {
                (*k).stats.inc("spurious_wakeup");
                return 0;
            }
            let deadline = if ts == 0 {
                None
            } else {
                let t = &*(ts as *const timespec);
                let ns = t.tv_sec as i128 * 1_000_000_000 + t.tv_nsec as i128;
                if cmd == libc::FUTEX_WAIT {
                    Some((*k).now.saturating_add(ns.clamp(0, u64::MAX as i128 / 2) as u64))
                } else if (op as c_int) & libc::FUTEX_CLOCK_REALTIME != 0 {
                    let d = ns - (*k).wall() as i128;
                    Some((*k).now.saturating_add(d.clamp(0, u64::MAX as i128 / 2) as u64))
                } else {
                    Some(ns.clamp(0, u64::MAX as i128 / 2) as u64)
                }
            };
            let bits = if cmd == libc::FUTEX_WAIT_BITSET { val3 as u32 } else { u32::MAX };
            (*k).h(4, 0);
            if block(St::Futex(addr, bits), deadline) {
                return raw::set_errno(libc::ETIMEDOUT) as c_long;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bits = if cmd == libc::FUTEX_WAKE_BITSET { val3 as u32 } else { u32::MAX };
            let mut n = 0;
            while n < val as i64 as usize {
                let w: Vec<usize> = (0..(*k).threads.len())
                    .filter(|&t| matches!((*k).threads[t].st, St::Futex(a, b) if a == addr && b & bits != 0))
                    .collect();
                if w.is_empty() {
                    break;
                }
                let i = (*k).ch.uniform(w.len() as u32) as usize;
                (*k).make_runnable(w[i], false);
                (*k).h(5, w[i] as u64);
                n += 1;
            }
            yield_point();
            n as c_long
        }
        _ => raw::set_errno(libc::ENOSYS) as c_long,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        if let Some(_g) = enter() {
            return sim_futex(a, b, c, d, f);
        }
    } else if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    } else if n == libc::SYS_epoll_wait || n == libc::SYS_epoll_pwait {
        return epoll_wait(a as c_int, b as *mut libc::epoll_event, c as c_int, d as c_int) as c_long;
    } else if n == libc::SYS_accept4 {
        return accept4(a as c_int, b as *mut sockaddr, c as *mut socklen_t, d as c_int) as c_long;
    } else if n == libc::SYS_clock_gettime {
        return clock_gettime(a as libc::clockid_t, b as *mut timespec) as c_long;
    } else if n == libc::SYS_statx {
        if let Some(_g) = enter() {
            let k = kp();
            let path = b as *const c_char;
            if (*k).is_sim(a as i32) || (!path.is_null() && sim_path(path).is_some()) {
                return raw::set_errno(libc::ENOSYS) as c_long;
            }
        }
    }
    raw::scl(n, a, b, c, d, e, f) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    // also in kernel mode: hash keys are drawn lazily, on whichever side comes first
    if ACTIVE.load(Ordering::Relaxed) && tid() >= 0 {
        let k = kp();
        let out = std::slice::from_raw_parts_mut(p as *mut u8, n);
        for ch in out.chunks_mut(8) {
            let r = (*k).hash_rng.next().to_le_bytes();
            ch.copy_from_slice(&r[..ch.len()]);
        }
        (*k).stats.inc("hash_seed_draws");
        return n as ssize_t;
    }
    raw::scl(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0)
}

// ---------------------------------------------------------------- time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if let Some(_g) = enter() {
        let k = kp();
        let ns = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => (*k).read_wall(),
            _ => {
                (*k).now += 50;
                (*k).now as i64
            }
        };
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    raw::scl(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if let Some(_g) = enter() {
        let ns = (*kp()).read_wall();
        (*tv).tv_sec = ns.div_euclid(1_000_000_000);
        (*tv).tv_usec = ns.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    raw::scl(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(_g) = enter() {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        tick();
        let dl = (*kp()).now + d;
        block(St::Sleep, Some(dl));
        return 0;
    }
    raw::scl(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(_g) = enter() {
        let d = (*req).tv_sec as i128 * 1_000_000_000 + (*req).tv_nsec as i128;
        tick();
        let k = kp();
        let dl = if fl & libc::TIMER_ABSTIME == 0 {
            (*k).now as i128 + d
        } else if id == libc::CLOCK_REALTIME {
            (*k).now as i128 + (d - (*k).wall() as i128).max(0)
        } else {
            d
        };
        block(St::Sleep, Some(dl.clamp(0, u64::MAX as i128 / 2) as u64));
        return 0;
    }
    let r = raw::sc(libc::SYS_clock_nanosleep, id as usize, fl as usize, req as usize, rem as usize, 0, 0);
    -r as c_int
}

// ---------------------------------------------------------------- files
unsafe fn sim_path(p: *const c_char) -> Option<usize> {
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    (*kp()).plan.files.iter().position(|f| f.path.as_bytes() == s)
}
unsafe fn sim_open(p: *const c_char) -> Option<c_int> {
    let k = kp();
    if std::ffi::CStr::from_ptr(p).to_bytes() == b"/proc/self/cgroup" {
        return Some(raw::set_errno(libc::ENOENT));
    }
    let f = sim_path(p)?;
    yield_point();
    (*k).h(6, f as u64);
    if (*k).plan.files[f].missing {
        (*k).stats.inc("file_missing");
        return Some(raw::set_errno(libc::ENOENT));
    }
    (*k).file_reads[f] = 0;
    Some((*k).alloc_fd(FdK::File(OpenFile { file: f, pos: 0 }), 0))
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(_g) = enter() {
        if let Some(r) = sim_open(p) {
            return r;
        }
    }
    raw::scl(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(_g) = enter() {
        if let Some(r) = sim_open(p) {
            return r;
        }
    }
    raw::scl(libc::SYS_openat, dir as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat64(dir, p, flags, mode)
}
unsafe fn fill_stat(k: *mut Kernel, fd: c_int, st: *mut libc::stat) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat>());
    (*st).st_mode = libc::S_IFREG | 0o644;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    let size = match (*k).fd(fd).map(|f| &f.k) {
        Some(FdK::File(o)) => {
            let i = o.file;
            (*k).plan.files[i].text.0.len()
        }
        _ => 0,
    };
    (*st).st_size = size as i64;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int {
    if let Some(_g) = enter() {
        let k = kp();
        if (*k).is_sim(fd) {
            fill_stat(k, fd, st);
            return 0;
        }
    }
    raw::scl(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    if let Some(_g) = enter() {
        let k = kp();
        if (*k).is_sim(dir) || (!p.is_null() && sim_path(p).is_some()) {
            // std falls back to fstat64
            return raw::set_errno(libc::ENOSYS);
        }
    }
    raw::scl(libc::SYS_statx, dir as usize, p as usize, fl as usize, mask as usize, st as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if let Some(_g) = enter() {
        let k = kp();
        if (*k).is_sim(fd) {
            let len = match &(*k).fd(fd).unwrap().k {
                FdK::File(o) => {
                    let i = o.file;
                    (*k).plan.files[i].text.0.len()
                }
                _ => return raw::set_errno(libc::ESPIPE) as i64,
            };
            if let FdK::File(o) = &mut (*k).fd(fd).unwrap().k {
                let base = match wh {
                    libc::SEEK_SET => 0,
                    libc::SEEK_CUR => o.pos as i64,
                    _ => len as i64,
                };
                o.pos = (base + off).max(0) as usize;
                return o.pos as i64;
            }
        }
    }
    raw::scl(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}

// ---------------------------------------------------------------- descriptors
macro_rules! sim {
    ($fd:expr, $body:expr) => {
        if let Some(_g) = enter() {
            let k = kp();
            if (*k).is_sim($fd) {
                #[allow(clippy::redundant_closure_call)]
                return $body(k);
            }
        }
    };
}
unsafe fn ret(r: Result<usize, i32>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => raw::set_errno(e) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    sim!(fd, |_k| {
        yield_point();
        loop {
            let r = (*kp()).do_read(fd, std::slice::from_raw_parts_mut(p as *mut u8, n));
            if let Err(-1) = r {
                // slow disk: sleep, then read
                let d = (*kp()).now + 3_000_000;
                block(St::Sleep, Some(d));
                continue;
            }
            return ret(r);
        }
    });
    raw::scl(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    sim!(fd, |_k| {
        yield_point();
        let mut tot = 0usize;
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            match (*kp()).do_read(fd, std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len)) {
                Ok(n) => {
                    tot += n;
                    if n < v.iov_len {
                        break;
                    }
                }
                Err(e) if tot == 0 => return ret(Err(e)),
                Err(_) => break,
            }
        }
        tot as ssize_t
    });
    raw::scl(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    sim!(fd, |_k| {
        yield_point();
        let b = std::slice::from_raw_parts_mut(p as *mut u8, n);
        ret(if flags & libc::MSG_PEEK != 0 { (*kp()).do_peek(fd, b) } else { (*kp()).do_read(fd, b) })
    });
    raw::scl(libc::SYS_recvfrom, fd as usize, p as usize, n, flags as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    sim!(fd, |_k| {
        yield_point();
        let b = std::slice::from_raw_parts_mut(p as *mut u8, n);
        ret(if flags & libc::MSG_PEEK != 0 { (*kp()).do_peek(fd, b) } else { (*kp()).do_read(fd, b) })
    });
    raw::scl(libc::SYS_recvfrom, fd as usize, p as usize, n, flags as usize, a as usize, l as usize)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if let Some(_g) = enter() {
        let k = kp();
        if fd == 1 || fd == 2 {
            (*k).stats.inc("console_writes");
            return n as ssize_t;
        }
        if (*k).is_sim(fd) {
            yield_point();
            let r = (*kp()).do_write(fd, std::slice::from_raw_parts(p as *const u8, n));
            yield_point();
            return ret(r);
        }
    }
    raw::scl(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if let Some(_g) = enter() {
        let k = kp();
        let tot: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
        if fd == 1 || fd == 2 {
            return tot as ssize_t;
        }
        if (*k).is_sim(fd) {
            yield_point();
            let mut b = Vec::with_capacity(tot);
            for i in 0..cnt as usize {
                let v = &*iov.add(i);
                b.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            return ret((*kp()).do_write(fd, &b));
        }
    }
    raw::scl(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    sim!(fd, |_k| {
        yield_point();
        ret((*kp()).do_write(fd, std::slice::from_raw_parts(p as *const u8, n)))
    });
    raw::scl(libc::SYS_sendto, fd as usize, p as usize, n, flags as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    sim!(fd, |_k| {
        yield_point();
        ret((*kp()).do_write(fd, std::slice::from_raw_parts(p as *const u8, n)))
    });
    raw::scl(libc::SYS_sendto, fd as usize, p as usize, n, flags as usize, a as usize, l as usize)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        (*k).do_close(fd);
        yield_point();
        0
    });
    raw::scl(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    sim!(fd, |_k| {
        yield_point();
        ret((*kp()).do_shutdown(fd, how)) as c_int
    });
    raw::scl(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        match cmd {
            libc::F_GETFL => (*k).fd(fd).unwrap().flags,
            libc::F_SETFL => {
                (*k).fd(fd).unwrap().flags = arg as i32;
                0
            }
            libc::F_GETFD => 1,
            libc::F_SETFD => 0,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                match (*k).fd(fd).unwrap().k {
                    FdK::Pair => return (*k).alloc_fd(FdK::Pair, libc::O_NONBLOCK),
                    FdK::Epoll { .. } => return (*k).alloc_fd(FdK::Alias(fd), 0),
                    FdK::Alias(t) => return (*k).alloc_fd(FdK::Alias(t), 0),
                    _ => {}
                }
                raw::set_errno(libc::EMFILE)
            }
            _ => 0,
        }
    });
    raw::scl(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        if req == libc::FIONBIO {
            let on = *(arg as *const c_int) != 0;
            let f = (*k).fd(fd).unwrap();
            f.flags = if on { f.flags | libc::O_NONBLOCK } else { f.flags & !libc::O_NONBLOCK };
        }
        0
    });
    raw::scl(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if let Some(_g) = enter() {
        return (*kp()).alloc_fd(FdK::Event(init as u64), libc::O_NONBLOCK);
    }
    raw::scl(libc::SYS_eventfd2, init as usize, flags as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int {
    if let Some(_g) = enter() {
        let k = kp();
        *sv = (*k).alloc_fd(FdK::Pair, libc::O_NONBLOCK);
        *sv.add(1) = (*k).alloc_fd(FdK::Pair, libc::O_NONBLOCK);
        return 0;
    }
    raw::scl(libc::SYS_socketpair, d as usize, t as usize, p as usize, sv as usize, 0, 0) as c_int
}

// ---------------------------------------------------------------- epoll
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if let Some(_g) = enter() {
        return (*kp()).alloc_fd(FdK::Epoll { items: vec![], ready: vec![] }, 0);
    }
    raw::scl(libc::SYS_epoll_create1, flags as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    sim!(ep, |k: *mut Kernel| {
        yield_point();
        if !(*k).is_sim(fd) {
            return if fd >= FD_BASE { raw::set_errno(libc::EBADF) } else { 0 };
        }
        let ep = (*k).resolve(ep);
        let r = (*k).do_epoll_ctl(ep, op, fd, if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) });
        ret(r) as c_int
    });
    raw::scl(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    sim!(ep, |_k| {
        yield_point();
        let deadline = match timeout {
            t if t < 0 => None,
            t => Some((*kp()).now + t as u64 * 1_000_000),
        };
        let ep = (*kp()).resolve(ep);
        loop {
            let out = (*kp()).collect_epoll(ep, max as usize);
            if !out.is_empty() || timeout == 0 {
                for (i, (e, d)) in out.iter().enumerate() {
                    *evs.add(i) = libc::epoll_event { events: *e, u64: *d };
                }
                return out.len() as c_int;
            }
            if block(St::Epoll(ep as usize), deadline) {
                return 0;
            }
        }
    });
    raw::scl(libc::SYS_epoll_wait, ep as usize, evs as usize, max as usize, timeout as usize, 0, 0) as c_int
}

// ---------------------------------------------------------------- sockets
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if let Some(_g) = enter() {
        yield_point();
        return (*kp()).alloc_fd(FdK::Sock { port: 0, reuse: false }, libc::O_NONBLOCK);
    }
    raw::scl(libc::SYS_socket, d as usize, t as usize, p as usize, 0, 0, 0) as c_int
}
unsafe fn port_of(a: *const sockaddr) -> u16 {
    u16::from_be((*(a as *const libc::sockaddr_in)).sin_port)
}
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, port: u16) {
    if a.is_null() {
        return;
    }
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
    let n = (*l as usize).min(std::mem::size_of_val(&s));
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of_val(&s) as u32;
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    sim!(fd, |_k| {
        yield_point();
        ret((*kp()).do_bind(fd, port_of(a))) as c_int
    });
    raw::scl(libc::SYS_bind, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    sim!(fd, |_k| {
        yield_point();
        ret((*kp()).do_listen(fd)) as c_int
    });
    raw::scl(libc::SYS_listen, fd as usize, n as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    sim!(fd, |_k| {
        yield_point();
        match (*kp()).do_accept(fd) {
            Ok((nfd, port)) => {
                put_addr(a, l, port);
                nfd
            }
            Err(e) => raw::set_errno(e),
        }
    });
    raw::scl(libc::SYS_accept4, fd as usize, a as usize, l as usize, fl as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    sim!(fd, |_k| raw::set_errno(libc::ECONNREFUSED));
    raw::scl(libc::SYS_connect, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        let p = (*k).local_port(fd);
        put_addr(a, l, p);
        0
    });
    raw::scl(libc::SYS_getsockname, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        match (*k).fd(fd).map(|f| &f.k) {
            Some(FdK::Stream(c)) => {
                put_addr(a, l, 40000 + *c as u16);
                0
            }
            _ => raw::set_errno(libc::ENOTCONN),
        }
    });
    raw::scl(libc::SYS_getpeername, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        if lv == libc::SOL_SOCKET && o == libc::SO_REUSEADDR {
            if let Some(Fd { k: FdK::Sock { reuse, .. }, .. }) = (*k).fd(fd) {
                *reuse = *(v as *const c_int) != 0;
            }
        }
        0
    });
    raw::scl(libc::SYS_setsockopt, fd as usize, lv as usize, o as usize, v as usize, l as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    sim!(fd, |k: *mut Kernel| {
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
        if lv == libc::SOL_SOCKET && o == libc::SO_ERROR {
            *(v as *mut c_int) = (*k).take_so_error(fd);
        } else if lv == libc::SOL_SOCKET && o == libc::SO_TYPE {
            *(v as *mut c_int) = libc::SOCK_STREAM;
        } else if lv == libc::SOL_SOCKET && o == libc::SO_ACCEPTCONN {
            *(v as *mut c_int) = matches!((*k).fd(fd).unwrap().k, FdK::Listener(_)) as c_int;
        }
        0
    });
    raw::scl(libc::SYS_getsockopt, fd as usize, lv as usize, o as usize, v as usize, l as usize, 0) as c_int
}
