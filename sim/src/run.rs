//! One simulated run in its own process: set-up, the outcome, and running children.
use crate::app::SimApp;
use crate::dict;
use crate::interpose;
use crate::kernel::*;
use crate::plan::*;
use crate::raw;
use crate::rng::Rng;
use crate::world::*;
use fix_rs::sim_hooks::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const CONFIG: &str = "/simfs/config.toml";

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub steps: u64,
    pub switches: u64,
    pub decisions: u64,
    pub sim_us: u64,
    pub trace: u64,
    pub deliveries: u64,
    pub frames_out: u64,
    pub conns: u64,
    pub bytes_in: u64,
    pub threads: u64,
    pub panics: Vec<String>,
    pub phase: u8,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub rec: Vec<(u64, u32)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub log: Vec<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub plan: Option<Plan>,
    /// The run ended without an outcome of its own (0: no).
    #[serde(default)]
    pub died: String,
    pub wall_us: u64,
}

/// How to run one plan.
#[derive(Clone, Default)]
pub struct How {
    pub replay: Option<Vec<(u64, u32)>>,
    pub verbose: bool,
    /// Always include the decisions and the plan in the outcome.
    pub full: bool,
    pub cpu: usize,
    pub free_cpu: bool,
}

static mut T0: u64 = 0;
static mut FULL: bool = false;

/// The run is over (called in kernel mode on whichever thread noticed).
pub fn report(k: &mut Kernel) -> ! {
    let mine = k.w.viols.iter().any(|v| v.props.contains(&k.plan.prop));
    let full = unsafe { FULL };
    k.stats.add("threads_started", k.threads.len() as u64);
    let o = Outcome {
        viols: std::mem::take(&mut k.w.viols),
        stats: k.stats.0.iter().map(|(a, b)| (a.to_string(), *b)).collect(),
        steps: k.step,
        switches: k.switches,
        decisions: k.ch.n,
        sim_us: k.now / 1000,
        trace: k.trace,
        deliveries: k.w.deliveries.len() as u64,
        frames_out: k.w.frames_seen,
        conns: k.w.conns.len() as u64,
        bytes_in: k.w.conns.iter().map(|c| c.sent.len() as u64).sum(),
        threads: k.threads.len() as u64,
        panics: k.w.panics.iter().take(5).cloned().collect(),
        phase: k.w.phase,
        rec: if mine || full { std::mem::take(&mut k.ch.rec) } else { vec![] },
        log: std::mem::take(&mut k.log),
        plan: if mine || full { Some(k.plan.clone()) } else { None },
        died: String::new(),
        wall_us: (raw::real_now_ns() - unsafe { T0 }) / 1000,
    };
    let s = serde_json::to_vec(&o).unwrap();
    raw::write_all(k.out_fd, &s);
    raw::exit_group(0)
}

pub fn load_files(p: &mut Plan) {
    for f in p.files.iter_mut() {
        if let Some(r) = f.real.clone() {
            f.text = Bytes(dict::text_of(&r).into_bytes());
        }
    }
}
/// What a plan needs to be written down: real files are referred to, not copied.
pub fn strip_files(p: &mut Plan) {
    for f in p.files.iter_mut() {
        if f.real.is_some() {
            f.text = Bytes::default();
        }
    }
}

/// Become the simulated system and run the plan.  Never returns.
pub fn child(mut plan: Plan, how: &How, out_fd: i32) -> ! {
    unsafe {
        T0 = raw::real_now_ns();
        FULL = how.full;
        if !how.free_cpu {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(how.cpu, &mut set);
            raw::sc(libc::SYS_sched_setaffinity, 0, std::mem::size_of_val(&set), &set as *const _ as usize, 0, 0, 0);
        }
        let rl = libc::rlimit { rlim_cur: 25, rlim_max: 30 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
        let z = std::ffi::CString::new("TZ").unwrap();
        let v = std::ffi::CString::new(plan.tz_env.clone()).unwrap();
        if plan.tz_env.is_empty() {
            libc::unsetenv(z.as_ptr());
        } else {
            libc::setenv(z.as_ptr(), v.as_ptr(), 1);
        }
    }
    load_files(&mut plan);
    interpose::init();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if ACTIVE.load(std::sync::atomic::Ordering::Relaxed) && tid() >= 0 {
            with_k(|k| {
                crate::klog!(k, "PANIC {}", s);
                k.w.panics.push(s.replace('\n', " ").chars().take(300).collect());
                k.stats.inc("engine_panics");
            });
        }
    }));
    let sd = plan.sched.seed;
    let n_files = plan.files.len();
    let mut k = Kernel {
        now: 1_000_000_000,
        wall_off: 0,
        wall_reads: 0,
        step: 0,
        step_cap: plan.sched.step_cap,
        threads: vec![],
        cur: 0,
        ch: Chooser {
            rng: Rng::derive(sd, "schedule"),
            n: 0,
            replay: how.replay.clone().map(|v| v.into_iter().collect()),
            rec: vec![],
        },
        gap_rng: Rng::derive(sd, "gaps"),
        gap_left: 0,
        hash_rng: Rng::derive(plan.sched.hash_seed, "hash"),
        fds: vec![],
        evq: Default::default(),
        evseq: 0,
        idle_jumps: 0,
        last_activity: 0,
        fair: false,
        trace: 0xcbf2_9ce4_8422_2325,
        verbose: how.verbose,
        log: vec![],
        stats: Stats::default(),
        switches: 0,
        live_mem: 0,
        peak_mem: 0,
        w: World::default(),
        out_fd,
        file_reads: vec![0; n_files],
        backlogs: Default::default(),
        accept_calls: 0,
        bind_calls: Default::default(),
        plan,
    };
    k.new_thread();
    k.init_world();
    crate::arena::init();
    install(k);
    // everything from here on runs inside the simulation
    let main_mode = with_k(|k| k.plan.mode == "main");
    std::thread::Builder::new()
        .name("engine".into())
        .spawn(move || {
            let r = std::panic::catch_unwind(|| if main_mode { shipped_main() } else { engine_main() });
            let _ = r;
            with_k(|k| k.w.startup_over = true);
        })
        .unwrap();
    if main_mode {
        // the shipped main never says so itself: opening a port ends start-up
        with_k(|k| k.w.started = true);
    }
    unsafe {
        let _g = enter();
        loop {
            block(St::Forever, None);
        }
    }
}

fn engine_main() {
    let n = with_k(|k| k.plan.sched.workers.max(1)) as usize;
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async {
            let settings = Properties::new(CONFIG);
            let mut acceptor = SocketAcceptor::new(settings, SimApp);
            acceptor.start_accepting_connections();
            with_k(|k| {
                k.w.started = true;
                k.w.startup_over = true;
                k.w.mem_base = k.live_mem;
                k.peak_mem = k.live_mem;
                k.w.progress = k.step;
                crate::klog!(k, "start-up complete");
            });
            std::future::pending::<()>().await;
        })
    }));
    if r.is_err() {
        // what a process does whose main thread panics: it is gone
        with_k(|k| {
            crate::klog!(k, "start-up failed");
            k.w.startup_failed = true;
            k.w.startup_over = true;
        });
        std::mem::forget(rt);
    }
}

// ------------------------------------------------------------------ running children
pub struct Running {
    pub pid: i32,
    pub fd: i32,
    pub buf: Vec<u8>,
    pub started: std::time::Instant,
}
pub const WALL_LIMIT_S: u64 = 150;

/// Fork a child that makes the plan (inside itself, so that its process is the same
/// whoever started it) and runs it.
pub type Job = (Plan, Option<Vec<(u64, u32)>>);
pub fn start(make: &dyn Fn() -> Job, how: &How) -> Running {
    unsafe {
        let mut p = [0i32; 2];
        assert!(libc::pipe(p.as_mut_ptr()) == 0);
        libc::fcntl(p[0], libc::F_SETPIPE_SZ, 1 << 20);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(p[0]);
            let (plan, replay) = make();
            child(plan, &How { replay, ..how.clone() }, p[1]);
        }
        libc::close(p[1]);
        Running { pid, fd: p[0], buf: vec![], started: std::time::Instant::now() }
    }
}
impl Running {
    /// Read what is there; Some(outcome) once the child has ended.
    pub fn poll(&mut self, block: bool) -> Option<Outcome> {
        let mut b = vec![0u8; 1 << 16];
        loop {
            if !block {
                let mut pf = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
                let r = unsafe { libc::poll(&mut pf, 1, 0) };
                if r == 0 {
                    if self.started.elapsed().as_secs() > WALL_LIMIT_S {
                        unsafe { libc::kill(self.pid, libc::SIGKILL) };
                    }
                    return None;
                }
            }
            let n = unsafe { libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len()) };
            if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            if n <= 0 {
                break;
            }
            self.buf.extend_from_slice(&b[..n as usize]);
        }
        let mut st = 0;
        unsafe {
            libc::close(self.fd);
            while libc::waitpid(self.pid, &mut st, 0) < 0 {
                if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                    break;
                }
            }
        }
        let mut o: Outcome = match serde_json::from_slice(&self.buf) {
            Ok(o) => o,
            Err(_) => Outcome::default(),
        };
        if self.buf.is_empty() || libc::WIFSIGNALED(st) {
            o.died = if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGXCPU => "hang".to_string(),
                    libc::SIGKILL => "killed".to_string(),
                    s => format!("signal {}", s),
                }
            } else {
                format!("exit {}", libc::WEXITSTATUS(st))
            };
        }
        Some(o)
    }
}
pub fn run_wait(make: &dyn Fn() -> Plan, how: &How) -> Outcome {
    let mut r = start(&|| (make(), how.replay.clone()), how);
    // bounded even if the child hangs without using processor time
    loop {
        let mut pf = libc::pollfd { fd: r.fd, events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut pf, 1, 500) };
        if let Some(o) = r.poll(false) {
            return o;
        }
    }
}
