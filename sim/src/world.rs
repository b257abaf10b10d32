//! The world around the engine: peers, phases, history, and the invariants checked
//! as the run goes.  `oracle.rs` judges the recorded history.
use crate::kernel::*;
use crate::klog;
use crate::net::Conn;
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const BUSY_STEPS: u64 = 60_000;
pub const SEQ0: u32 = 1000;
/// Registry keys from here on are the configured sessions themselves.
pub const REAL_KEY: u32 = 1000;
pub const REG_KEYS: u32 = 3;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub props: Vec<String>,
    pub class: String,
    pub detail: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    No,
    Port(u16),
    Replies(usize),
    Read,
    Idle,
}
pub struct Client {
    pub ops: Vec<Op>,
    pub pc: usize,
    pub conn: Option<usize>,
    pub wait: Wait,
    pub scheduled: bool,
    pub done: bool,
    pub probe: bool,
    pub reply_target: usize,
    pub retries: u32,
}
pub struct Delivery {
    pub msg: Option<u32>,
    pub conn: Option<usize>,
    pub stamp: u64,
}
pub struct SendRec {
    pub sess: u32,
    pub bytes: Vec<u8>,
    pub tid: usize,
    pub start: u64,
    pub end: u64,
    /// How many times everything had come to rest before.
    pub epoch: u32,
    pub from_msg: Option<u32>,
    pub out: Option<u32>,
    /// Wall-clock readings that could be the stamp in the message.
    pub stamps: Vec<i64>,
    pub spec: Option<MSpec>,
}
#[derive(Clone, Debug)]
pub struct RegRec {
    pub key: u32,
    /// 0 get, 1 insert, 2 modify (reads the old value)
    pub kind: u8,
    pub arg: u32,
    pub res: Option<u32>,
    pub start: u64,
    pub end: u64,
}
#[derive(Default)]
pub struct World {
    pub conns: Vec<Conn>,
    pub clients: Vec<Client>,
    pub phase: u8,
    pub progress: u64,
    pub clock: u64,
    pub eio: bool,
    pub listener_closes: u32,
    pub backlog_resets: u32,
    pub aborted: BTreeSet<usize>,
    pub ports_open: BTreeMap<u16, u64>,
    pub deliveries: Vec<Delivery>,
    pub last_pos: BTreeMap<usize, usize>,
    pub sends: Vec<SendRec>,
    pub viols: Vec<Viol>,
    pub panics: Vec<String>,
    pub app_busy: usize,
    pub in_callback: usize,
    pub started: bool,
    pub startup_over: bool,
    pub total_read: u64,
    pub delivered_bytes: u64,
    pub max_unhanded: u64,
    pub mem_base: i64,
    pub regs: Vec<RegRec>,
    pub msg_conn: BTreeMap<u32, usize>,
    pub sched_evals: u64,
    pub busy_seen: Vec<u8>,
    pub finished: bool,
    pub gave_up: u32,
    pub epoch: u32,
    pub frames_seen: u64,
    pub reply_checks: BTreeSet<(usize, u32)>,
    pub wall_log: Vec<(usize, i64)>,
    pub callbacks: u64,
    pub threads_started: bool,
    pub startup_failed: bool,
}

impl World {
    pub fn stamp(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    pub fn note_read(&mut self) {
        let t: u64 = self.conns.iter().map(|c| c.read_bytes as u64).sum();
        self.total_read = t;
        self.max_unhanded = self.max_unhanded.max(t.saturating_sub(self.delivered_bytes));
    }
    pub fn aborted_by_network(&mut self, c: usize) {
        self.aborted.insert(c);
    }
    pub fn viol(&mut self, props: &[&str], class: &str, detail: String) {
        if self.viols.iter().filter(|v| v.class == class).count() < 3 {
            let mut p: Vec<String> = vec![];
            for x in props {
                if !p.iter().any(|y| y == x) {
                    p.push(x.to_string());
                }
            }
            self.viols.push(Viol { props: p, class: class.to_string(), detail });
        }
    }
}

fn n_frames(b: &[u8]) -> usize {
    crate::dict::frames(b).0.len()
}

impl Kernel {
    pub fn init_world(&mut self) {
        for (i, list) in [self.plan.clients.clone(), self.plan.probes.clone()].into_iter().enumerate() {
            for c in list {
                self.w.clients.push(Client {
                    ops: c.ops,
                    pc: 0,
                    conn: None,
                    wait: Wait::No,
                    scheduled: false,
                    done: false,
                    probe: i == 1,
                    reply_target: 0,
                    retries: 0,
                });
            }
        }
        for c in 0..self.w.clients.len() {
            if !self.w.clients[c].probe {
                self.wake_client(c, 1000);
            }
        }
    }
    pub fn wake_client(&mut self, c: usize, d: u64) {
        if !self.w.clients[c].scheduled {
            self.w.clients[c].scheduled = true;
            self.at(d, Ev::Client(c));
        }
    }
    /// Something changed on this connection: its client may be waiting for that.
    pub fn poke_client_of(&mut self, conn: usize) {
        let c = self.w.conns[conn].client;
        if self.w.clients[c].conn == Some(conn) && matches!(self.w.clients[c].wait, Wait::Replies(_) | Wait::Read) {
            self.wake_client(c, 1000);
        }
    }
    pub fn port_opened(&mut self, port: u16) {
        if self.plan.mode == "main" {
            self.w.startup_over = true;
        }
        let s = self.w.stamp();
        self.w.ports_open.entry(port).or_insert(s);
        for c in 0..self.w.clients.len() {
            if self.w.clients[c].wait == Wait::Port(port) {
                // a peer may already be knocking at the very moment the port opens
                let d = [0, 1000, 30_000, 300_000][self.ch.uniform(4) as usize];
                self.wake_client(c, d);
            }
        }
    }
    fn dead(&self, conn: Option<usize>) -> bool {
        match conn {
            None => true,
            Some(c) => {
                let cn = &self.w.conns[c];
                cn.cl_closed || cn.saw_rst || cn.saw_fin
            }
        }
    }
    /// True if the client may go on.
    fn wait_over(&mut self, c: usize) -> bool {
        let (w, conn) = (self.w.clients[c].wait, self.w.clients[c].conn);
        match w {
            Wait::No => true,
            Wait::Idle => false,
            Wait::Port(p) => self.w.ports_open.contains_key(&p),
            Wait::Replies(n) => self.dead(conn) || n_frames(&self.w.conns[conn.unwrap()].recv) >= n,
            Wait::Read => {
                self.dead(conn) || {
                    let cn = &self.w.conns[conn.unwrap()];
                    cn.read_bytes >= cn.sent.len()
                }
            }
        }
    }
    pub fn ev_client(&mut self, c: usize) {
        self.w.clients[c].scheduled = false;
        if self.w.clients[c].done || !self.wait_over(c) {
            return;
        }
        self.w.clients[c].wait = Wait::No;
        let pc = self.w.clients[c].pc;
        if pc >= self.w.clients[c].ops.len() {
            self.w.clients[c].done = true;
            return;
        }
        let op = self.w.clients[c].ops[pc].clone();
        let conn = self.w.clients[c].conn;
        self.h(30, (c * 1000 + pc) as u64);
        let live = conn.filter(|&x| !self.w.conns[x].cl_closed && !self.w.conns[x].saw_rst);
        let mut next = [0, 1, 10][self.ch.uniform(3) as usize] * self.plan.net.lat_us * 1000;
        self.w.clients[c].pc += 1;
        match op {
            Op::Connect(p) => {
                if !self.w.ports_open.contains_key(&p) {
                    self.w.clients[c].pc = pc;
                    self.w.clients[c].wait = Wait::Port(p);
                    return;
                }
                match self.connect(c, p) {
                    Some(id) => {
                        self.w.clients[c].conn = Some(id);
                        self.w.clients[c].reply_target = 0;
                        self.stats.inc("connects");
                    }
                    None => {
                        self.w.viol(&["C07"], "refused-after-open", format!("client {} refused on port {} although the port had been opened", c, p));
                        self.w.clients[c].conn = None;
                        if self.w.clients[c].retries < 5 {
                            self.w.clients[c].retries += 1;
                            self.w.clients[c].pc = pc;
                            next = 500_000;
                        }
                    }
                }
            }
            Op::Send(i) => {
                if let Some(x) = live.filter(|&x| !self.w.conns[x].cl_shut) {
                    let b = self.plan.msgs[i as usize].wire.0.clone();
                    self.w.msg_conn.insert(i, x);
                    let s = self.w.stamp();
                    let cn = &mut self.w.conns[x];
                    cn.sent.extend_from_slice(&b);
                    cn.c2s.extend(&b);
                    let l = cn.sent.len();
                    cn.marks.push((l, i));
                    cn.mark_step.push(s);
                    klog!(self, "client {} conn {} sends msg {} {}", c, x, i, esc(&b));
                    self.kick_c2s(x);
                }
            }
            Op::Cut(i, n) => {
                if let Some(x) = live.filter(|&x| !self.w.conns[x].cl_shut) {
                    let b = self.plan.msgs[i as usize].wire.0.clone();
                    let b = &b[..(n as usize).min(b.len())];
                    let cn = &mut self.w.conns[x];
                    cn.sent.extend_from_slice(b);
                    cn.c2s.extend(b);
                    self.stats.inc("message_cut");
                    klog!(self, "client {} conn {} sends {} bytes of msg {}", c, x, n, i);
                    self.kick_c2s(x);
                }
            }
            Op::Raw(b) => {
                if let Some(x) = live.filter(|&x| !self.w.conns[x].cl_shut) {
                    let cn = &mut self.w.conns[x];
                    cn.sent.extend_from_slice(&b.0);
                    cn.c2s.extend(&b.0);
                    self.stats.inc("raw_bytes");
                    klog!(self, "client {} conn {} sends raw {}", c, x, esc(&b.0));
                    self.kick_c2s(x);
                }
            }
            Op::WaitReplies(n) => {
                self.w.clients[c].reply_target += n as usize;
                let t = self.w.clients[c].reply_target;
                self.w.clients[c].wait = Wait::Replies(t);
                if !self.wait_over(c) {
                    return;
                }
            }
            Op::WaitRead => {
                self.w.clients[c].wait = Wait::Read;
                if !self.wait_over(c) {
                    return;
                }
            }
            Op::WaitIdle => {
                self.w.clients[c].wait = Wait::Idle;
                return;
            }
            Op::Sleep(us) => next = us * 1000,
            Op::StallRead => {
                if let Some(x) = live {
                    self.w.conns[x].stalled = true;
                    self.w.conns[x].ever_stalled = true;
                    self.stats.inc("peer_stall");
                }
            }
            Op::ResumeRead => {
                if let Some(x) = live {
                    let s = self.w.stamp();
                    let cn = &mut self.w.conns[x];
                    cn.stalled = false;
                    let l = cn.recv.len();
                    cn.recv_at.push((l, s));
                    self.kick_s2c(x);
                }
            }
            Op::Partition(us) => {
                if let Some(x) = live {
                    let t = self.now + us * 1000;
                    self.w.conns[x].part_until = t;
                    self.stats.inc("partition");
                }
            }
            Op::ShutWr => {
                if let Some(x) = live {
                    if !self.w.conns[x].cl_shut {
                        self.w.conns[x].cl_shut = true;
                        self.w.conns[x].c2s_fin = true;
                        self.stats.inc("half_close");
                        self.kick_c2s(x);
                    }
                }
            }
            Op::Close => {
                if let Some(x) = live {
                    self.client_close(x);
                }
                self.w.clients[c].conn = None;
            }
            Op::Reset => {
                if let Some(x) = live {
                    self.client_reset(x);
                }
                self.w.clients[c].conn = None;
            }
        }
        self.wake_client(c, next);
    }
    fn client_close(&mut self, x: usize) {
        let s = self.w.stamp();
        let cn = &mut self.w.conns[x];
        let unread = cn.stalled && cn.recv.len() > cn.recv_at.last().map_or(0, |r| r.0);
        if unread {
            self.client_reset(x);
            return;
        }
        let mid = crate::dict::frames(&cn.sent).1 != cn.sent.len();
        cn.cl_closed = true;
        cn.closed_step = Some(s);
        if !cn.cl_shut {
            cn.c2s_fin = true;
        }
        klog!(self, "conn {} client closes", x);
        self.stats.inc(if mid { "close_mid_message" } else { "close" });
        self.kick_c2s(x);
        self.kick_s2c(x);
    }
    fn client_reset(&mut self, x: usize) {
        let n = self.w.conns[x].c2s.len();
        let cut = if n > 0 { self.ch.uniform(n as u32 + 1) as usize } else { 0 };
        let s = self.w.stamp();
        let cn = &mut self.w.conns[x];
        cn.c2s.truncate(n - cut);
        cn.cl_closed = true;
        cn.closed_step = Some(s);
        cn.cl_reset_sent = true;
        cn.c2s_rst = true;
        klog!(self, "conn {} client resets, {} bytes lost", x, cut);
        self.stats.inc("reset");
        self.stats.add("reset_bytes_lost", cut as u64);
        self.kick_c2s(x);
    }

    /// Nothing can happen any more without the outside world: move it on.
    pub fn quiescent(&mut self) {
        if self.w.finished {
            return;
        }
        self.h(31, self.w.phase as u64);
        klog!(self, "quiescent in phase {}", self.w.phase);
        self.w.epoch += 1;
        // waits that will never end
        let probe = self.w.phase >= 1;
        let mut any = false;
        for c in 0..self.w.clients.len() {
            let cl = &self.w.clients[c];
            if cl.done || cl.scheduled || (cl.probe && !probe) {
                continue;
            }
            any = true;
            let idle = cl.wait == Wait::Idle;
            if !idle {
                self.w.gave_up += 1;
            }
            match cl.wait {
                Wait::Idle => {
                    if let Some(x) = cl.conn {
                        self.check_replies(x);
                    }
                }
                Wait::Port(p) => {
                    let faulty = !self.fair && self.plan.faults.bind_fail.iter().any(|f| f.0 == p);
                    if !faulty && !self.plan.startup_fails {
                        self.w.viol(&["C07", "C13"], "port-never-open", format!("port {} never opened; panics: {:?}", p, self.w.panics));
                    }
                    let cl = &mut self.w.clients[c];
                    cl.pc += 1;
                    cl.conn = None;
                }
                Wait::Replies(_) => {
                    if let Some(x) = self.w.clients[c].conn {
                        self.check_replies(x);
                    }
                }
                _ => {}
            }
            self.w.clients[c].wait = Wait::No;
            if !idle {
                klog!(self, "client {} gives up waiting", c);
            }
            self.wake_client(c, 1000);
        }
        if any {
            return;
        }
        self.end_phase();
        self.w.phase += 1;
        match self.w.phase {
            1 => {
                self.set_fair();
                let mut started = false;
                for c in 0..self.w.clients.len() {
                    if self.w.clients[c].probe {
                        self.wake_client(c, 1000);
                        started = true;
                    }
                }
                if !started {
                    self.quiescent();
                }
            }
            2 => {
                let open: Vec<usize> = (0..self.w.conns.len()).filter(|&x| !self.w.conns[x].cl_closed).collect();
                for &x in &open {
                    self.w.conns[x].part_until = 0;
                    self.client_close(x);
                }
                if open.is_empty() {
                    self.quiescent();
                }
            }
            _ => self.finish(),
        }
    }
    /// A thread runs on and on while nothing in the world changes.
    #[inline(never)]
    pub fn busy(&mut self) {
        if !self.w.startup_over || self.w.finished {
            return;
        }
        if !self.evq.is_empty() {
            return;
        }
        klog!(self, "busy without progress in phase {}", self.w.phase);
        self.h(32, self.w.phase as u64);
        let p = self.w.phase;
        self.w.busy_seen.push(p);
        if p >= 1 || (self.plan.faults.accept_fail.is_empty() && self.plan.faults.bind_fail.is_empty()) {
            self.w.viol(&["C08"], "spin", format!("engine keeps running for {} steps with nothing left to do (phase {})", BUSY_STEPS, p));
        }
        self.quiescent();
    }
    /// Invariants that must hold whenever everything has come to rest.
    fn end_phase(&mut self) {
        for x in 0..self.w.conns.len() {
            let cn = &self.w.conns[x];
            if self.w.phase < 2 && !cn.cl_closed {
                self.w.conns[x].open_at_quiesce = true;
                self.check_replies(x);
                self.check_tail(x);
            }
            let cn = &self.w.conns[x];
            if cn.cl_closed && cn.accepted && cn.fd >= 0 && self.w.in_callback == 0 {
                let d = format!("conn {} (port {}): peer disconnected ({}) but the socket is still open; engine read {} of {} bytes",
                    x, cn.port, if cn.cl_reset_sent { "reset" } else { "close" }, cn.read_bytes, cn.sent.len());
                self.w.viol(&["C08"], "socket-not-released", d);
            }
            let cn = &self.w.conns[x];
            if !cn.accepted && !self.w.aborted.contains(&x) && (self.fair || self.plan.faults.accept_fail.iter().all(|f| f.0 != 0)) {
                let d = format!("conn {} on port {} was never accepted (reset: {})", x, cn.port, cn.saw_rst);
                self.w.viol(&["C07"], "never-accepted", d);
            }
        }
    }
    pub fn step_cap_reached(&mut self) {
        if self.w.finished {
            return;
        }
        self.stats.inc("step_cap");
        self.w.viol(&["SIM"], "step-cap", format!("step cap {} reached in phase {}", self.step_cap, self.w.phase));
        let waiting = self.w.clients.iter().filter(|c| !c.done && (!c.probe || self.w.phase >= 1)).count();
        let p = self.plan.prop.clone();
        self.w.viol(&[&p], "no-rest", format!("after {} steps the run has not come to rest ({} peers still waiting)", self.step, waiting));
        self.finish();
    }
    pub fn mem_limit_reached(&mut self) {
        if self.w.finished {
            return;
        }
        let d = format!("more than {} bytes allocated; peers sent {} bytes in total", crate::interpose::MEM_LIMIT, self.w.conns.iter().map(|c| c.sent.len()).sum::<usize>());
        let p = self.plan.prop.clone();
        self.w.viol(&["C10", if p == "C03" { "C03" } else { "C10" }], "memory", d);
        self.finish();
    }
    pub fn finish(&mut self) {
        if self.w.finished {
            return;
        }
        self.w.finished = true;
        self.judge();
        crate::run::report(self);
    }
}
