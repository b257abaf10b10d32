//! The driver: many seeded runs in forked processes, minimisation of what fails,
//! replay files, evidence.
use crate::dict;
use crate::plan::*;
use crate::profiles;
use crate::rng::Rng;
use crate::run::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

pub fn plan_seed(base: u64, prop: &str, i: u64) -> u64 {
    Rng::derive(base ^ (i << 20), prop).next() >> 16
}

/// The failure class of an outcome as far as this property is concerned.
pub fn verdict(prop: &str, o: &Outcome) -> Option<(String, String)> {
    match o.died.as_str() {
        "" => {}
        "hang" => return Some(("hang".into(), "the engine computes on and on without calling the system once".into())),
        s if s.starts_with("signal") => return Some((s.into(), format!("the process died: {}", s))),
        _ => return None,
    }
    o.viols.iter().find(|v| v.props.iter().any(|p| p == prop)).map(|v| (v.class.clone(), v.detail.clone()))
}
/// A failure of the machinery itself, which says nothing about the engine.
pub fn harness_error(o: &Outcome) -> Option<String> {
    if o.died.is_empty() || o.died == "hang" || o.died.starts_with("signal") {
        None
    } else {
        Some(format!("a simulated run ended abnormally: {}", o.died))
    }
}

pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return vec![0];
        }
        let v: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if v.is_empty() {
            vec![0]
        } else {
            v
        }
    }
}

pub struct Pool {
    slots: Vec<(usize, Option<(u64, Running)>)>,
}
impl Pool {
    pub fn new() -> Pool {
        Pool { slots: cpus().into_iter().map(|c| (c, None)).collect() }
    }
    pub fn len(&self) -> usize {
        self.slots.len()
    }
    fn wait_any(&mut self) -> Vec<(u64, Outcome)> {
        let mut pf: Vec<libc::pollfd> = self
            .slots
            .iter()
            .filter_map(|s| s.1.as_ref().map(|r| libc::pollfd { fd: r.1.fd, events: libc::POLLIN, revents: 0 }))
            .collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 500) };
        let mut out = vec![];
        for s in self.slots.iter_mut() {
            if let Some((id, r)) = &mut s.1 {
                if let Some(o) = r.poll(false) {
                    out.push((*id, o));
                    s.1 = None;
                }
            }
        }
        out
    }
    /// Run jobs 0..n (started in order) until `done` says stop; results as they come.
    pub fn run(&mut self, n: u64, how: &How, make: &dyn Fn(u64) -> (Plan, Option<Vec<(u64, u32)>>), mut got: impl FnMut(u64, Outcome) -> bool, until: Instant) {
        let mut next = 0;
        let mut stop = false;
        loop {
            if Instant::now() > until {
                stop = true;
            }
            for s in self.slots.iter_mut() {
                if s.1.is_none() && next < n && !stop {
                    let h = How { cpu: s.0, ..how.clone() };
                    let id = next;
                    s.1 = Some((id, start(&|| make(id), &h)));
                    next += 1;
                }
            }
            if self.slots.iter().all(|s| s.1.is_none()) {
                return;
            }
            for (id, o) in self.wait_any() {
                if !got(id, o) {
                    stop = true;
                }
            }
        }
    }
    pub fn kill_all(&mut self) {
        for s in self.slots.iter_mut() {
            if let Some((_, mut r)) = s.1.take() {
                unsafe { libc::kill(r.pid, libc::SIGKILL) };
                r.poll(true);
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub trace: u64,
    pub steps: u64,
    /// Scheduler and fault decisions that differ from the default 0; absent: the
    /// plan's own seed decides (the run died and could not report its decisions).
    pub decisions: Option<Vec<(u64, u32)>>,
    pub plan: Plan,
}

pub fn warm() {
    for d in [dict::D1, dict::D2, dict::SIM43] {
        profiles::dict_of(d);
        dict::text_of(d);
    }
}

// ------------------------------------------------------------------ minimisation
struct Best {
    plan: Plan,
    dec: Option<Vec<(u64, u32)>>,
    out: Outcome,
}

fn reductions(p: &Plan) -> Vec<Plan> {
    let mut v: Vec<Plan> = vec![];
    let mut add = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        v.push(q);
    };
    // whole peers, probes and threads first
    for i in 0..p.clients.len() {
        add(&|q| {
            q.clients.remove(i);
        });
    }
    if p.probes.len() > 1 {
        add(&|q| q.probes.clear());
    }
    for i in 0..p.probes.len() {
        add(&|q| {
            q.probes.remove(i);
        });
    }
    for i in 0..p.threads.len() {
        add(&|q| {
            q.threads.remove(i);
        });
    }
    let f = &p.faults;
    if !f.jumps.is_empty() {
        add(&|q| q.faults.jumps.clear());
    }
    if !f.bind_fail.is_empty() {
        add(&|q| q.faults.bind_fail.clear());
    }
    if !f.accept_fail.is_empty() {
        add(&|q| q.faults.accept_fail.clear());
    }
    for i in 0..f.accept_fail.len() {
        add(&|q| {
            q.faults.accept_fail.remove(i);
        });
    }
    if f.spurious_pct > 0 {
        add(&|q| q.faults.spurious_pct = 0);
    }
    for i in 0..p.files.len() {
        if !p.files[i].faults.is_empty() {
            add(&|q| q.files[i].faults.clear());
        }
        for j in 0..p.files[i].faults.len() {
            add(&|q| {
                q.files[i].faults.remove(j);
            });
        }
        if p.files[i].max_read > 0 {
            add(&|q| q.files[i].max_read = 0);
        }
    }
    let s = &p.sched;
    if s.workers > 1 {
        add(&|q| q.sched.workers = 1);
    }
    if s.alloc_gap > 0 {
        add(&|q| q.sched.alloc_gap = 0);
    }
    if s.weights {
        add(&|q| q.sched.weights = false);
    }
    let n = &p.net;
    if n.seg != 0 {
        add(&|q| q.net.seg = 0);
    }
    if n.rx_cap < 65536 {
        add(&|q| q.net.rx_cap = 65536);
    }
    if n.tx_cap < 65536 {
        add(&|q| q.net.tx_cap = 65536);
    }
    if n.lat_us > 1 {
        add(&|q| q.net.lat_us = 1);
    }
    // halves of operation lists, then single operations; the barriers that keep a
    // run inside what the engine promises stay
    for i in 0..p.clients.len() {
        let m = p.clients[i].ops.len();
        if m > 4 {
            for part in [0..m / 2, m / 2..m] {
                add(&|q| {
                    let mut k = 0;
                    q.clients[i].ops.retain(|o| {
                        k += 1;
                        !part.contains(&(k - 1)) || matches!(o, Op::WaitIdle | Op::Connect(_) | Op::Close | Op::Reset)
                    })
                });
            }
        }
        for j in (0..m).rev() {
            if !matches!(p.clients[i].ops[j], Op::WaitIdle) {
                add(&|q| {
                    q.clients[i].ops.remove(j);
                });
            }
        }
    }
    for i in 0..p.threads.len() {
        for j in (0..p.threads[i].len()).rev() {
            add(&|q| {
                q.threads[i].remove(j);
            });
        }
    }
    for i in 0..p.msgs.len() {
        for j in 0..p.msgs[i].acts.len() {
            add(&|q| {
                q.msgs[i].acts.remove(j);
            });
        }
    }
    v
}

fn minimise(prop: &str, class: &str, pool: &mut Pool, b: &mut Best, until: Instant) -> (u64, u64) {
    let same = |o: &Outcome| {
        if o.died.is_empty() {
            o.viols.iter().any(|v| v.class == class && v.props.iter().any(|p| p == prop))
        } else {
            o.died == class
        }
    };
    let full = How { full: true, ..Default::default() };
    let mut tried = 0u64;
    let mut kept = 0u64;
    // the plan
    loop {
        let mut progress = false;
        let cands = reductions(&b.plan);
        let mut i = 0;
        // candidates in groups; each with the default schedule, the seed's, and others
        while i < cands.len() && Instant::now() < until {
            let group: Vec<usize> = (i..cands.len().min(i + pool.len().max(2) / 2)).collect();
            i += group.len();
            let mut jobs: Vec<(usize, u32)> = vec![];
            for &g in &group {
                for v in 0..2 {
                    jobs.push((g, v));
                }
            }
            let mut res: Vec<Option<Outcome>> = vec![None; jobs.len()];
            let mk = |id: u64| {
                let (g, v) = jobs[id as usize];
                let p = cands[g].clone();
                match v {
                    0 => (p, Some(vec![])),
                    _ => (p, None),
                }
            };
            pool.run(jobs.len() as u64, &full, &mk, |id, o| {
                res[id as usize] = Some(o);
                true
            }, until + Duration::from_secs(30));
            tried += jobs.len() as u64;
            let ok = (0..jobs.len()).find(|&j| res[j].as_ref().map_or(false, |o| same(o)));
            if let Some(j) = ok {
                let o = res[j].take().unwrap();
                b.plan = cands[jobs[j].0].clone();
                b.dec = if o.died.is_empty() { Some(o.rec.clone()) } else if jobs[j].1 == 0 { Some(vec![]) } else { None };
                b.out = o;
                kept += 1;
                progress = true;
                break;
            }
        }
        if !progress || Instant::now() >= until {
            break;
        }
    }
    // the decisions: drop chunks that do not matter
    if b.dec.is_some() && b.out.died.is_empty() {
        let mut n = 1usize;
        loop {
            let dec = b.dec.clone().unwrap();
            if dec.is_empty() || Instant::now() >= until {
                break;
            }
            let sz = (dec.len() + n - 1) / n;
            let chunks: Vec<(usize, usize)> = (0..n).map(|i| (i * sz, ((i + 1) * sz).min(dec.len()))).filter(|c| c.0 < c.1).collect();
            let mut hit: Option<Outcome> = None;
            let mut i = 0;
            while i < chunks.len() && hit.is_none() && Instant::now() < until {
                let grp: Vec<(usize, usize)> = chunks[i..chunks.len().min(i + pool.len())].to_vec();
                i += grp.len();
                let mut res: Vec<Option<Outcome>> = vec![None; grp.len()];
                let plan = b.plan.clone();
                let mk = |id: u64| {
                    let c = grp[id as usize];
                    let mut d = dec.clone();
                    d.drain(c.0..c.1);
                    (plan.clone(), Some(d))
                };
                pool.run(grp.len() as u64, &full, &mk, |id, o| {
                    res[id as usize] = Some(o);
                    true
                }, until + Duration::from_secs(30));
                tried += grp.len() as u64;
                hit = res.into_iter().flatten().find(|o| same(o) && o.died.is_empty() && o.rec.len() < dec.len());
            }
            match hit {
                Some(o) => {
                    b.dec = Some(o.rec.clone());
                    b.out = o;
                    kept += 1;
                    n = (n - 1).max(1);
                }
                None if sz <= 1 => break,
                None => n = (n * 2).min(dec.len()),
            }
        }
    }
    (tried, kept)
}

fn shown(p: &Plan) -> String {
    let s: Vec<String> = p
        .clients
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let ops: Vec<String> = c
                .ops
                .iter()
                .map(|o| match o {
                    Op::Send(m) => format!("Send(msg {} {})", m, p.msgs[*m as usize].kind),
                    o => format!("{:?}", o),
                })
                .collect();
            format!("peer {}: {}", i, ops.join(", "))
        })
        .collect();
    s.join("; ").chars().take(700).collect()
}

// ------------------------------------------------------------------ check
#[derive(Default)]
struct Tot {
    runs: u64,
    sim_us: u64,
    steps: u64,
    switches: u64,
    decisions: u64,
    deliveries: u64,
    frames_out: u64,
    conns: u64,
    bytes_in: u64,
    stats: BTreeMap<String, u64>,
    with: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
}
const FAULTS: &[&str] = &[
    "accept_econnaborted", "accept_emfile", "accept_enfile", "accept_enobufs", "accept_enomem", "bind_eaddrinuse", "clock_jump_back", "clock_jump_forward",
    "close_mid_message", "file_eintr", "file_eio", "file_missing", "file_short_read", "file_slow", "half_close", "message_cut", "partition", "peer_stall",
    "peer_window_closed", "preemptions_in_allocation", "raw_bytes", "reset", "reset_bytes_lost", "rst_to_engine", "rx_window_closed", "short_write",
    "spurious_wakeup", "tx_full",
];

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let quick = tier == "quick";
    let (runs, cap) = profiles::budget(prop, quick);
    let runs = std::env::var("FIXSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let cap = std::env::var("FIXSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    warm();
    let mut pool = Pool::new();
    let mut tot = Tot::default();
    let mut fail: Option<(u64, Outcome)> = None;
    let mut nfail = 0u64;
    let mut herr: Option<String> = None;
    let mk = |i: u64| (profiles::generate(prop, plan_seed(base, prop, i)), None);
    pool.run(runs, &How::default(), &mk, |i, o| {
        if let Some(e) = harness_error(&o) {
            herr = Some(format!("{} (run {}, seed {})", e, i, plan_seed(base, prop, i)));
            return false;
        }
        tot.runs += 1;
        tot.sim_us += o.sim_us;
        tot.steps += o.steps;
        tot.switches += o.switches;
        tot.decisions += o.decisions;
        tot.deliveries += o.deliveries;
        tot.frames_out += o.frames_out;
        tot.conns += o.conns;
        tot.bytes_in += o.bytes_in;
        for (k, n) in &o.stats {
            *tot.stats.entry(k.clone()).or_default() += n;
            *tot.with.entry(k.clone()).or_default() += 1;
        }
        tot.traces.insert(o.trace);
        if profiles::nontrivial(prop, &o) {
            tot.nontrivial.insert(o.trace);
        }
        if verdict(prop, &o).is_some() {
            nfail += 1;
            // the earliest seed wins, whatever the order they finish in
            if fail.as_ref().map_or(true, |f| i < f.0) {
                fail = Some((i, o));
            }
            return false;
        }
        true
    }, t0 + Duration::from_secs(cap));
    let explore_s = t0.elapsed().as_secs_f64();
    if let Some(e) = herr {
        println!("HARNESS-ERROR property={} {}", prop, e);
        return 2;
    }
    // determinism: some of the same seeds again
    let mut code = 0;
    let mut min_note = String::new();
    if let Some((i, o)) = fail {
        let seed = plan_seed(base, prop, i);
        let (class, detail) = verdict(prop, &o).unwrap();
        println!("run {} (seed {}) breaks {}: {}: {}", i, seed, prop, class, detail);
        let died = !o.died.is_empty();
        let mut b = Best {
            plan: o.plan.clone().unwrap_or_else(|| profiles::generate(prop, seed)),
            dec: if died { None } else { Some(o.rec.clone()) },
            out: o.clone(),
        };
        b.plan.files = profiles::generate(prop, seed).files;
        let orig_ops: usize = b.plan.clients.iter().map(|c| c.ops.len()).sum();
        let orig_dec = b.dec.as_ref().map_or(0, |d| d.len());
        let (tried, kept) = minimise(prop, &class, &mut pool, &mut b, Instant::now() + Duration::from_secs(if quick { 45 } else { 180 }));
        let _ = died;
        let detail = if b.out.died.is_empty() {
            b.out.viols.iter().find(|v| v.class == class).map_or(detail, |v| v.detail.clone())
        } else {
            detail
        };
        let mut plan = b.plan.clone();
        strip_files(&mut plan);
        let r = Replay { property: prop.into(), class: class.clone(), detail: detail.clone(), seed, trace: b.out.trace, steps: b.out.steps, decisions: b.dec.clone(), plan };
        let dir = format!("{}/replays", out_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, prop, seed);
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        min_note = format!(
            "minimised with {} runs ({} steps kept): {} -> {} peer operations, {} -> {} decisions",
            tried, kept, orig_ops, b.plan.clients.iter().map(|c| c.ops.len()).sum::<usize>(), orig_dec, b.dec.as_ref().map_or(0, |d| d.len())
        );
        println!("{}", min_note);
        // the file must bring the same failure about in a process of its own; should the
        // minimised form not, the run as first seen is the report
        let exe = std::env::current_exe().unwrap();
        let again = || std::process::Command::new(&exe).arg("replay").arg(&path).arg("--quiet").status().ok().and_then(|s| s.code());
        let mut st = again();
        if st != Some(1) {
            println!("the minimised form does not reproduce ({:?}), keeping the original run", st);
            let plan = profiles::generate(prop, seed);
            let p2 = plan.clone();
            let o = run_wait(&|| p2.clone(), &How { full: true, cpu: cpus()[0], ..Default::default() });
            if let Some((class, detail)) = verdict(prop, &o) {
                let r = Replay { property: prop.into(), class, detail, seed, trace: o.trace, steps: o.steps, decisions: None, plan };
                std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                st = again();
            }
        }
        match st {
            Some(1) => {
                println!("replay reproduces: {}: {}", class, detail);
                println!("VIOLATION property={} replay={}", prop, path);
                code = 1;
            }
            x => {
                println!("HARNESS-ERROR property={} the replay {} does not reproduce ({:?})", prop, path, x);
                return 2;
            }
        }
    } else {
        // determinism: rerun some of the seeds and compare the traces
        let n = 6.min(tot.runs);
        let mut again: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        let mk = |i: u64| (profiles::generate(prop, plan_seed(base, prop, i % n)), None);
        pool.run(2 * n, &How::default(), &mk, |i, o| {
            again.entry(i % n).or_default().push(o.trace);
            true
        }, Instant::now() + Duration::from_secs(60));
        for (i, v) in &again {
            if v.iter().any(|t| t != &v[0] || !tot.traces.contains(t)) {
                println!("HARNESS-ERROR property={} run {} is not repeatable", prop, i);
                return 2;
            }
        }
    }
    if code == 0 {
        for l in known(prop) {
            println!("{}", l);
        }
    }
    let faults: BTreeMap<&String, serde_json::Value> = tot
        .stats
        .iter()
        .filter(|(k, _)| FAULTS.contains(&k.as_str()))
        .map(|(k, n)| (k, serde_json::json!({"times": n, "runs": tot.with[k]})))
        .collect();
    let other: BTreeMap<&String, u64> = tot.stats.iter().filter(|(k, _)| !FAULTS.contains(&k.as_str())).map(|(k, n)| (k, *n)).collect();
    let mut samples = vec![];
    for i in 0..tot.runs.min(3) {
        let p = profiles::generate(prop, plan_seed(base, prop, i));
        samples.push(serde_json::json!({
            "run": i, "seed": p.seed, "mode": p.mode,
            "sessions": p.sessions.len(), "messages": p.msgs.len(), "outbound": p.outs.len(),
            "peers": shown(&p), "app_threads": p.threads.len(),
            "scheduler": format!("{:?}", p.sched), "network": format!("{:?}", p.net), "faults": format!("{:?}", p.faults).chars().take(300).collect::<String>(),
        }));
    }
    let hours = explore_s / 3600.0;
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.nontrivial.len(),
            "rule": profiles::rule(prop),
            "samples": samples,
            "distinct_interleavings": tot.traces.len(),
            "distinct_interleavings_measure": "64-bit hash over every context switch, network and file event, futex wake and peer step of a run",
            "simulated_runs_per_hour": (tot.runs as f64 / hours).round(),
            "seeds": "one per run",
            "simulated_seconds": tot.sim_us as f64 / 1e6,
            "scheduling_decisions": tot.decisions,
            "context_switches": tot.switches,
            "simulated_system_calls_and_preemptions": tot.steps,
            "faults_injected": faults,
            "events": other,
            "connections": tot.conns,
            "bytes_from_peers": tot.bytes_in,
            "messages_delivered_to_application": tot.deliveries,
            "messages_received_by_peers": tot.frames_out,
            "real_components": ["all of /repo/src (reader, writer, acceptor, receiver thread, session registry, message codec, dictionary loader, settings parser, schedule)", "tokio runtime and its blocking pool, mio, dashmap, std threads, locks and channels, chrono"],
            "stub_components": ["kernel below libc: TCP, epoll, eventfd, futex, files, clocks, thread start and join", "peers (clients)", if prop == "C13" { "application (recording; in 'main' mode the shipped DefaultApplication)" } else { "application (records every callback)" }],
            "minimisation": min_note,
        },
        "assumptions": profiles::assumptions(prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nfail,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", out_dir()));
    std::fs::write(format!("{}/evidence/{}.json", out_dir(), prop), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} runs, {} distinct interleavings, {:.1} simulated s, {:.1} s; {}",
        prop, tier, tot.runs, tot.traces.len(), tot.sim_us as f64 / 1e6, t0.elapsed().as_secs_f64(), if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

/// Where replays and evidence go (elsewhere when a copy of the simulator is being tried out).
fn out_dir() -> String {
    std::env::var("FIXSIM_OUT").unwrap_or("/verif".into())
}

fn known(prop: &str) -> Vec<String> {
    let s = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    s.lines().filter(|l| l.starts_with("KNOWN-FINDING:") && l.contains(&format!("property={} ", prop))).map(|l| l.to_string()).collect()
}

/// Run a replay file.  1: it reproduces exactly; 0: the failure is not there; 2: error.
pub fn replay(path: &str, quiet: bool) -> i32 {
    let r: Replay = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            println!("cannot read {}", path);
            return 2;
        }
    };
    warm();
    let how = How { replay: r.decisions.clone(), verbose: !quiet, full: true, cpu: cpus()[0], ..Default::default() };
    let plan = r.plan.clone();
    let o = run_wait(&|| plan.clone(), &how);
    if !quiet {
        for l in &o.log {
            println!("{}", l);
        }
        for p in &o.panics {
            println!("engine panic: {}", p);
        }
    }
    if let Some(e) = harness_error(&o) {
        println!("{}", e);
        return 2;
    }
    let hit = if o.died.is_empty() {
        o.viols.iter().find(|v| v.class == r.class && v.props.contains(&r.property)).map(|v| v.detail.clone())
    } else if o.died == r.class {
        Some(r.detail.clone())
    } else {
        None
    };
    match hit {
        Some(d) => {
            let exact = o.trace == r.trace && o.steps == r.steps;
            if !quiet {
                println!("{}: {}", r.class, d);
                println!("exactly as recorded: {}", exact);
                println!("VIOLATION property={} replay={}", r.property, path);
            }
            if quiet && (!exact || d != r.detail) {
                println!("trace {} steps {}, recorded {} {}; {} / {}", o.trace, o.steps, r.trace, r.steps, d, r.detail);
                return 2;
            }
            1
        }
        None => {
            if !quiet {
                println!("not reproduced: {} (on this tree the run ends without {})", r.property, r.class);
            }
            0
        }
    }
}

/// Same seeds, several times over: the traces must be equal.
pub fn selftest(n: u64) -> i32 {
    warm();
    let mut pool = Pool::new();
    let mut bad = 0;
    for prop in profiles::PROPS {
        let mut seen: BTreeMap<u64, BTreeSet<(u64, u64)>> = BTreeMap::new();
        let mk = |i: u64| (profiles::generate(prop, plan_seed(7, prop, i % n)), None);
        pool.run(3 * n, &How::default(), &mk, |i, o| {
            seen.entry(i % n).or_default().insert((o.trace, o.steps));
            true
        }, Instant::now() + Duration::from_secs(600));
        let d: Vec<u64> = seen.iter().filter(|(_, v)| v.len() > 1).map(|(i, _)| plan_seed(7, prop, *i)).collect();
        println!("{}: {} seeds, {} differ {:?}", prop, n, d.len(), &d[..d.len().min(5)]);
        bad += d.len();
    }
    (bad > 0) as i32
}

/// Tally of every violation over many seeds (development).
pub fn scan(props: &[String], n: u64, base: u64) {
    warm();
    let mut pool = Pool::new();
    for prop in props {
        let t = Instant::now();
        let mut tally: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        let mut stats: BTreeMap<String, u64> = BTreeMap::new();
        let mut del = 0;
        let mut nt = HashSet::new();
        let mut maxw = (0, 0);
        let mk = |i: u64| (profiles::generate(prop, plan_seed(base, prop, i)), None);
        let mut wall = 0;
        let mut maxs = 0;
        pool.run(n, &How::default(), &mk, |i, o| {
            let seed = plan_seed(base, prop, i);
            del += o.deliveries;
            wall += o.wall_us;
            maxs = maxs.max(o.steps);
            if profiles::nontrivial(prop, &o) {
                nt.insert(o.trace);
            }
            if o.wall_us > maxw.0 {
                maxw = (o.wall_us, seed);
            }
            for (k, n) in &o.stats {
                *stats.entry(k.clone()).or_default() += n;
            }
            let mut once = BTreeSet::new();
            if !o.died.is_empty() {
                let e = tally.entry(format!("DIED {}", o.died)).or_insert((0, seed, String::new()));
                e.0 += 1;
            }
            for v in &o.viols {
                let k = format!("{} {:?}", v.class, v.props);
                if once.insert(k.clone()) {
                    let e = tally.entry(k).or_insert((0, seed, v.detail.clone()));
                    e.0 += 1;
                }
            }
            true
        }, Instant::now() + Duration::from_secs(3600));
        println!("== {}: {} runs in {:.1} s, {} nontrivial, {} deliveries, slowest {} ms (seed {}), mean {} us, at most {} steps", prop, n, t.elapsed().as_secs_f64(), nt.len(), del, maxw.0 / 1000, maxw.1, wall / n.max(1), maxs);
        println!("   {:?}", stats);
        for (k, (c, s, d)) in tally {
            println!("   {:>5} {} [seed {}] {}", c, k, s, d.chars().take(420).collect::<String>());
        }
    }
}
