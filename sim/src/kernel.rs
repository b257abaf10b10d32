//! The simulated operating system: scheduler (one thread runs at a time, a seeded
//! chooser decides which), clock, futexes, epoll, descriptors.  `net.rs` adds TCP,
//! `world.rs` the peers, phases and history; `interpose.rs` routes libc calls here.
use crate::plan::*;
use crate::raw;
use crate::rng::Rng;
use crate::world::World;
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut KP: *mut Kernel = std::ptr::null_mut();

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub fn tid() -> i32 {
    TID.try_with(|t| t.get()).unwrap_or(-1)
}
pub fn set_tid(v: i32) {
    let _ = TID.try_with(|t| t.set(v));
}

/// Kernel mode: intercepted calls made here go to the real system, allocations are
/// neither counted nor preemption points.
pub struct Kg(());
impl Drop for Kg {
    fn drop(&mut self) {
        let _ = DEPTH.try_with(|d| d.set(d.get() - 1));
    }
}
/// Enter kernel mode if this is a simulated thread running user code.
#[inline]
pub fn enter() -> Option<Kg> {
    if !ACTIVE.load(Ordering::Relaxed) || tid() < 0 {
        return None;
    }
    let d = DEPTH.try_with(|d| d.get()).unwrap_or(1);
    if d > 0 {
        return None;
    }
    let _ = DEPTH.try_with(|d| d.set(1));
    Some(Kg(()))
}
#[inline]
pub fn kp() -> *mut Kernel {
    unsafe { KP }
}
/// Run harness code atomically on a simulated thread (no preemption, not counted).
pub fn with_k<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
    let _g = enter();
    unsafe { f(&mut *kp()) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex(usize, u32),
    Epoll(usize),
    Sleep,
    Join(usize),
    Forever,
    Exited,
}

pub struct Thread {
    pub go: Box<AtomicU32>,
    pub st: St,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub weight: u32,
    pub pthread: libc::pthread_t,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ev {
    C2S(usize),
    S2C(usize),
    Client(usize),
}

pub struct Chooser {
    pub rng: Rng,
    pub n: u64,
    pub replay: Option<BTreeMap<u64, u32>>,
    pub rec: Vec<(u64, u32)>,
}
impl Chooser {
    /// One recorded decision in 0..n; 0 is the undisturbed default.
    pub fn choose(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let i = self.n;
        self.n += 1;
        let v = match &self.replay {
            Some(m) => m.get(&i).copied().unwrap_or(0).min(n - 1),
            None => f(&mut self.rng).min(n - 1),
        };
        if v != 0 {
            self.rec.push((i, v));
        }
        v
    }
    pub fn uniform(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.choose(n, |r| r.below(n as u64) as u32)
    }
}

pub struct EpollItem {
    pub fd: i32,
    pub events: u32,
    pub data: u64,
}
pub struct OpenFile {
    pub file: usize,
    pub pos: usize,
}
pub enum FdK {
    Sock { port: u16, reuse: bool },
    Listener(u16),
    Stream(usize),
    Epoll { items: Vec<EpollItem>, ready: Vec<i32> },
    /// Another descriptor for the same epoll instance.
    Alias(i32),
    Event(u64),
    Pair,
    File(OpenFile),
}
pub struct Fd {
    pub k: FdK,
    pub flags: i32,
}
pub const FD_BASE: i32 = 5000;

#[derive(Default)]
pub struct Stats(pub Vec<(&'static str, u64)>);
impl Stats {
    pub fn inc(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        for e in self.0.iter_mut() {
            if e.0 == k {
                e.1 += n;
                return;
            }
        }
        self.0.push((k, n));
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.iter().find(|e| e.0 == k).map_or(0, |e| e.1)
    }
}

pub struct Kernel {
    pub plan: Plan,
    pub now: u64,
    pub wall_off: i64,
    pub wall_reads: u32,
    pub step: u64,
    pub step_cap: u64,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub ch: Chooser,
    pub gap_rng: Rng,
    pub gap_left: u32,
    pub hash_rng: Rng,
    pub fds: Vec<Option<Fd>>,
    pub evq: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    pub evseq: u64,
    pub idle_jumps: u32,
    pub last_activity: u64,
    pub fair: bool,
    pub trace: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub stats: Stats,
    pub switches: u64,
    pub live_mem: i64,
    pub peak_mem: i64,
    pub w: World,
    pub out_fd: i32,
    pub file_reads: Vec<u32>,
    pub backlogs: BTreeMap<u16, VecDeque<usize>>,
    pub accept_calls: u32,
    pub bind_calls: BTreeMap<u16, u32>,
}

#[macro_export]
macro_rules! klog {
    ($k:expr, $($a:tt)*) => { if (*$k).verbose { let s = format!($($a)*); (*$k).log_line(s); } };
}

impl Kernel {
    pub fn log_line(&mut self, s: String) {
        let l = format!("[{:>7} {:>12}us t{}] {}", self.step, self.now / 1000, self.cur, s);
        self.log.push(l);
    }
    #[inline]
    pub fn h(&mut self, kind: u64, a: u64) {
        let mut t = self.trace;
        t = (t ^ kind).wrapping_mul(0x1_0000_0000_01b3);
        t = (t ^ a).wrapping_mul(0x1_0000_0000_01b3);
        self.trace = t;
    }
    pub fn at(&mut self, delay: u64, e: Ev) {
        self.evseq += 1;
        self.evq.push(Reverse((self.now + delay, self.evseq, e)));
    }
    pub fn wall(&self) -> i64 {
        self.plan.wall_start_ns + self.now as i64 + self.wall_off
    }
    /// A wall-clock read by user code: time moves, scheduled jumps apply.
    pub fn read_wall(&mut self) -> i64 {
        self.wall_reads += 1;
        self.now += 1000;
        let n = self.wall_reads;
        for i in 0..self.plan.faults.jumps.len() {
            if self.plan.faults.jumps[i].at_read == n {
                let d = match self.plan.faults.jumps[i].to_ns {
                    Some(t) => t - self.wall(),
                    None => self.plan.faults.jumps[i].delta_ns,
                };
                self.wall_off += d;
                self.stats.inc(if d < 0 { "clock_jump_back" } else { "clock_jump_forward" });
                klog!(self, "clock jump {} ns", d);
            }
        }
        let v = self.wall();
        if self.w.wall_log.len() < 100_000 {
            let me = self.cur;
            self.w.wall_log.push((me, v));
        }
        v
    }

    pub fn alloc_fd(&mut self, k: FdK, flags: i32) -> i32 {
        let f = Fd { k, flags };
        for (i, s) in self.fds.iter_mut().enumerate() {
            if s.is_none() {
                *s = Some(f);
                return FD_BASE + i as i32;
            }
        }
        self.fds.push(Some(f));
        FD_BASE + self.fds.len() as i32 - 1
    }
    pub fn fd(&mut self, fd: i32) -> Option<&mut Fd> {
        if fd < FD_BASE {
            return None;
        }
        self.fds.get_mut((fd - FD_BASE) as usize).and_then(|f| f.as_mut())
    }
    /// The descriptor this one is a duplicate of (itself if none).
    pub fn resolve(&mut self, fd: i32) -> i32 {
        match self.fd(fd) {
            Some(Fd { k: FdK::Alias(t), .. }) => *t,
            _ => fd,
        }
    }
    pub fn is_sim(&self, fd: i32) -> bool {
        fd >= FD_BASE && self.fds.get((fd - FD_BASE) as usize).map_or(false, |f| f.is_some())
    }
    pub fn open_sockets(&self) -> usize {
        self.fds.iter().flatten().filter(|f| matches!(f.k, FdK::Stream(_))).count()
    }

    /// The descriptor's state changed: put it on the ready list of every epoll that
    /// watches it and wake a waiter.
    pub fn fd_wake(&mut self, fd: i32) {
        let mut woke: Vec<usize> = vec![];
        for (i, s) in self.fds.iter_mut().enumerate() {
            if let Some(Fd { k: FdK::Epoll { items, ready }, .. }) = s {
                if items.iter().any(|it| it.fd == fd) {
                    if !ready.contains(&fd) {
                        ready.push(fd);
                    }
                    woke.push(i);
                }
            }
        }
        for i in woke {
            let ep = (FD_BASE as usize) + i;
            for t in 0..self.threads.len() {
                if self.threads[t].st == St::Epoll(ep) {
                    self.make_runnable(t, false);
                }
            }
        }
    }
    pub fn make_runnable(&mut self, t: usize, timed_out: bool) {
        self.threads[t].st = St::Run;
        self.threads[t].deadline = None;
        self.threads[t].timed_out = timed_out;
    }
    pub fn new_thread(&mut self) -> usize {
        let weight = self.draw_weight();
        self.threads.push(Thread {
            go: Box::new(AtomicU32::new(0)),
            st: St::Run,
            deadline: None,
            timed_out: false,
            weight,
            pthread: 0,
        });
        self.threads.len() - 1
    }
    fn draw_weight(&mut self) -> u32 {
        if self.plan.sched.weights && !self.fair {
            [1, 1, 3, 10, 40][self.ch.choose(5, |r| r.below(5) as u32) as usize]
        } else {
            1
        }
    }
    /// Faults are over: every thread gets its fair share from here on.
    pub fn set_fair(&mut self) {
        self.fair = true;
        for t in self.threads.iter_mut() {
            t.weight = 1;
        }
    }

    fn fire_due(&mut self) {
        while let Some(Reverse((t, _, _))) = self.evq.peek() {
            if *t > self.now {
                break;
            }
            let Reverse((_, _, e)) = self.evq.pop().unwrap();
            self.last_activity = self.now;
            self.w.progress = self.step;
            self.idle_jumps = 0;
            match e {
                Ev::C2S(c) => self.ev_c2s(c),
                Ev::S2C(c) => self.ev_s2c(c),
                Ev::Client(c) => self.ev_client(c),
            }
        }
        for t in 0..self.threads.len() {
            if let Some(d) = self.threads[t].deadline {
                if d <= self.now && self.threads[t].st != St::Run {
                    self.make_runnable(t, true);
                }
            }
        }
    }

    fn pick(&mut self) -> Option<usize> {
        let me = self.cur;
        loop {
            self.fire_due();
            let mut cand: Vec<usize> = Vec::with_capacity(8);
            if self.threads[me].st == St::Run {
                cand.push(me);
            }
            for t in 0..self.threads.len() {
                if t != me && self.threads[t].st == St::Run {
                    cand.push(t);
                }
            }
            if cand.is_empty() {
                let te = self.evq.peek().map(|Reverse((t, _, _))| *t);
                let td = self.threads.iter().filter_map(|t| t.deadline).min();
                let t = match (te, td) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                };
                match t {
                    Some(t) => {
                        if te.is_none() {
                            // only timers left: nothing from the outside world will
                            // happen any more; let a limited number of them run
                            self.idle_jumps += 1;
                            if self.idle_jumps > if self.w.app_busy > 0 { 4000 } else { 60 } {
                                self.idle_jumps = 0;
                                self.quiescent();
                                continue;
                            }
                        }
                        self.now = self.now.max(t);
                        continue;
                    }
                    None => {
                        self.quiescent();
                        continue;
                    }
                }
            }
            if cand.len() == 1 {
                return Some(cand[0]);
            }
            if self.plan.sched.weights && !self.fair && self.step % 256 == 0 {
                for t in 0..self.threads.len() {
                    self.threads[t].weight = self.draw_weight();
                }
            }
            let me_run = cand[0] == me;
            let stay = self.plan.sched.stay;
            let ws: Vec<u32> = cand.iter().map(|&t| self.threads[t].weight).collect();
            let i = self.ch.choose(cand.len() as u32, |r| {
                if me_run && r.pct(stay) {
                    return 0;
                }
                let tot: u32 = ws.iter().sum();
                let mut x = r.below(tot as u64) as u32;
                for (i, w) in ws.iter().enumerate() {
                    if x < *w {
                        return i as u32;
                    }
                    x -= w;
                }
                0
            });
            return Some(cand[i as usize]);
        }
    }
}

/// Hand the processor to whichever thread the chooser picks; returns when this
/// thread is picked again.  No reference into the kernel may be held across it.
#[inline(never)]
pub unsafe fn schedule(me: usize) {
    let k = kp();
    let next = (*k).pick().unwrap();
    if next == me {
        return;
    }
    (*k).switches += 1;
    (*k).h(1, next as u64);
    (*k).cur = next;
    let exited = (*k).threads[me].st == St::Exited;
    let go_me: *const AtomicU32 = &*(*k).threads[me].go;
    let go_next: *const AtomicU32 = &*(*k).threads[next].go;
    (*go_next).store(1, Ordering::Release);
    raw::futex_wake(go_next as *const u32);
    if exited {
        return;
    }
    wait_go(go_me);
}
pub unsafe fn wait_go(go: *const AtomicU32) {
    loop {
        if (*go).swap(0, Ordering::Acquire) == 1 {
            return;
        }
        raw::futex_wait(go as *const u32, 0);
    }
}

#[inline(never)]
pub unsafe fn tick() {
    let k = kp();
    (*k).step += 1;
    (*k).now += 1000;
    if (*k).step >= (*k).step_cap {
        (*k).step_cap_reached();
    } else if (*k).step - (*k).w.progress > crate::world::BUSY_STEPS {
        (*k).w.progress = (*k).step;
        (*k).busy();
    }
}

/// A point where another thread may run.
#[inline(never)]
pub unsafe fn yield_point() {
    tick();
    let me = (*kp()).cur;
    schedule(me);
}

/// Block until made runnable or the deadline passes; true if it timed out.
#[inline(never)]
pub unsafe fn block(st: St, deadline: Option<u64>) -> bool {
    let k = kp();
    let me = (*k).cur;
    (*k).threads[me].st = st;
    (*k).threads[me].deadline = deadline;
    (*k).threads[me].timed_out = false;
    schedule(me);
    (*kp()).threads[me].timed_out
}

pub fn install(k: Kernel) {
    unsafe {
        KP = Box::into_raw(Box::new(k));
    }
    set_tid(0);
    ACTIVE.store(true, Ordering::SeqCst);
}
