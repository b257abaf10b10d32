//! From (property, seed) to a plan: which peers, messages, application behaviour,
//! schedule style and faults a run has.
use crate::dict::{self, Dict, Size, D1, D2, RICH, SIM43, SMALL};
use crate::oracle::{civil, DAYS};
use crate::plan::*;
use crate::rng::Rng;
use crate::run::CONFIG;
use crate::world::{REAL_KEY, REG_KEYS, SEQ0};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

pub const PROPS: [&str; 15] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];
/// MsgSeqNum of messages whose fate nothing is claimed about.
pub const ANY_SEQ: u32 = 900_000;
const OUT_SEQ: u32 = 500_000;
/// Messages an application may have queued on one port between two rests.
const BUDGET: u32 = 30;

pub fn dict_of(path: &str) -> &'static (Dict, Vec<String>) {
    static D: OnceLock<BTreeMap<&'static str, (Dict, Vec<String>)>> = OnceLock::new();
    let m = D.get_or_init(|| {
        [D1, D2, SIM43]
            .into_iter()
            .map(|p| {
                let d = Dict::parse(&dict::text_of(p));
                let b = d.buildable();
                (p, (d, b))
            })
            .collect()
    });
    &m[path]
}

struct B {
    r: Rng,
    p: Plan,
    /// Replies planned per port in the current segment.
    used: BTreeMap<u16, u32>,
}

fn sched(r: &mut Rng) -> Sched {
    Sched {
        seed: r.next() >> 12,
        hash_seed: r.next() >> 12,
        workers: *r.pick(&[1, 1, 2, 2, 3, 4]),
        stay: *r.pick(&[0, 30, 60, 80, 90, 97]),
        weights: r.pct(40),
        alloc_gap: *r.pick(&[0, 0, 0, 30, 120, 500]),
        step_cap: 4_000_000,
    }
}
fn net(r: &mut Rng) -> Net {
    Net {
        seg: *r.pick(&[0, 1, 2, 2, 2]),
        chunk: *r.pick(&[1, 3, 7, 20, 64, 200]),
        lat_us: *r.pick(&[1, 50, 500, 5000]),
        rx_cap: *r.pick(&[16, 64, 300, 4096, 65536]),
        tx_cap: *r.pick(&[24, 100, 400, 4096, 65536]),
    }
}

impl B {
    fn new(prop: &str, seed: u64) -> B {
        let mut r = Rng::derive(seed, &format!("plan:{}", prop));
        let p = Plan {
            prop: prop.to_string(),
            seed,
            mode: "engine".into(),
            sched: sched(&mut r),
            net: net(&mut r),
            wall_start_ns: (1_665_000_000 + r.below(60_000_000) as i64) * 1_000_000_000 + r.below(1_000_000_000) as i64,
            tz_env: r.pick(&["", "UTC", "IST-5:30", "EST5EDT", "NZST-12"]).to_string(),
            ..Default::default()
        };
        let mut b = B { r, p, used: BTreeMap::new() };
        if b.r.pct(20) {
            b.p.faults.spurious_pct = 1 + b.r.below(10) as u32;
        }
        if b.r.pct(20) {
            b.jumps(4, 200);
        }
        b
    }
    fn jumps(&mut self, max: u64, within: u64) {
        for _ in 0..1 + self.r.below(max) {
            let mag = *self.r.pick(&[1_000_000i64, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000]);
            let d = self.r.range(-mag, mag);
            self.p.faults.jumps.push(Jump { at_read: 1 + self.r.below(within) as u32, delta_ns: d, to_ns: None });
        }
    }
    fn port(i: usize) -> u16 {
        9001 + i as u16
    }
    fn sessions(&mut self, n: usize, ports: usize, full_dict: u32) {
        let style = self.r.below(4);
        let mut have: BTreeSet<(String, String, Option<String>, Option<String>, String, Option<String>, Option<String>)> = BTreeSet::new();
        while self.p.sessions.len() < n {
            let i = self.p.sessions.len();
            let r = &mut self.r;
            let sub = |r: &mut Rng, p: u32, c: char| if r.pct(p) { Some(format!("{}{}", c, r.below(3))) } else { None };
            let (sp, mut s, mut t) = match style {
                // plain names
                0 => (0, format!("SRV{}", i), format!("CL{}", i)),
                // one server name, many clients
                1 => (15, "SRV".to_string(), format!("CL{}", i)),
                // few names, told apart by sub and location ids
                2 => (60, format!("S{}", r.below(2)), format!("T{}", r.below(2))),
                // names that contain or mirror one another
                _ => (30, r.pick(&["A", "AB", "B", "BA"]).to_string(), r.pick(&["B", "BA", "A", "AB"]).to_string()),
            };
            if r.pct(10) {
                std::mem::swap(&mut s, &mut t);
            }
            let x = Sess {
                begin: r.pick(&["FIX.4.3", "FIX.4.3", "FIX.4.4", "FIX.4.2"]).to_string(),
                sender: s,
                sender_sub: sub(r, sp, 'x'),
                sender_loc: sub(r, sp / 2, 'x'),
                target: t,
                target_sub: sub(r, sp, 'x'),
                target_loc: sub(r, sp / 2, 'x'),
                port: Self::port(if i < ports { i } else { r.idx(ports) }),
                dict: if r.pct(full_dict) { SIM43 } else if r.pct(60) { D1 } else { D2 }.to_string(),
            };
            let k = (x.begin.clone(), x.sender.clone(), x.sender_sub.clone(), x.sender_loc.clone(), x.target.clone(), x.target_sub.clone(), x.target_loc.clone());
            if have.insert(k) {
                self.p.sessions.push(x);
            }
        }
    }
    /// Configuration text for the sessions; settings shared by all may be inherited.
    fn config(&mut self) {
        let ss = self.p.sessions.clone();
        let r = &mut self.r;
        let inherit = r.pct(60);
        let mut text = String::new();
        let get = |s: &Sess, k: usize| -> Option<String> {
            match k {
                0 => Some(s.begin.clone()),
                1 => Some(s.sender.clone()),
                2 => s.sender_sub.clone(),
                3 => s.sender_loc.clone(),
                4 => Some(s.target.clone()),
                5 => s.target_sub.clone(),
                6 => s.target_loc.clone(),
                7 => Some(s.port.to_string()),
                _ => Some(s.dict.clone()).filter(|d| d != SIM43),
            }
        };
        const KEYS: [&str; 9] = ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id",
            "target_sub_id", "target_location_id", "socket_accept_port", "data_dictionary"];
        let mut defaults: Vec<Option<String>> = vec![None; 9];
        if inherit {
            for k in 0..9 {
                // only a value no session has to undo may be a default
                if r.pct(50) && ss.iter().all(|s| get(s, k).is_some()) {
                    let i = r.idx(ss.len());
                    defaults[k] = get(&ss[i], k);
                }
            }
        }
        let line = |r: &mut Rng, k: &str, v: &str| match r.below(4) {
            0 => format!("{} = \"{}\"\n", k, v),
            1 => format!("{}={}\n", k, v),
            2 => format!("  \"{}\" =  \"{}\"  \n", k, v),
            _ => format!("{} = {}\n", k, v),
        };
        text.push_str("[Default]\n");
        text.push_str(&line(r, "connection_type", "acceptor"));
        for k in 0..9 {
            if let Some(v) = defaults[k].clone() {
                text.push_str(&line(r, KEYS[k], &v));
            }
        }
        if r.pct(30) {
            text.push_str(&line(r, "heartbeat_interval", "30"));
        }
        for s in &ss {
            text.push_str("\n[Session]\n");
            let mut order: Vec<usize> = (0..9).collect();
            dict::shuffle(r, &mut order);
            for k in order {
                let v = get(s, k);
                if v == defaults[k] && (v.is_none() || r.pct(70)) {
                    continue;
                }
                if let Some(v) = v {
                    text.push_str(&line(r, KEYS[k], &v));
                }
            }
            if r.pct(20) {
                text.push_str(&line(r, "reset_on_logon", "true"));
            }
        }
        self.p.config = text;
    }
    fn files(&mut self) {
        self.p.files.push(FileSpec { path: CONFIG.into(), text: Bytes(self.p.config.clone().into_bytes()), ..Default::default() });
        if self.p.mode == "main" {
            self.p.files[0].path = "src/FixConfig.toml".into();
        }
        let ds: BTreeSet<String> = self.p.sessions.iter().map(|s| s.dict.clone()).collect();
        for d in ds {
            self.p.files.push(FileSpec { path: d.clone(), real: Some(d), ..Default::default() });
        }
    }
    fn setup(&mut self, n: usize, ports: usize, full_dict: u32) {
        self.sessions(n, ports, full_dict);
        self.config();
        self.files();
    }
    fn std_setup(&mut self) {
        let n = 1 + self.r.idx(4);
        let p = 1 + self.r.idx(n.min(2));
        let f = if self.r.pct(8) { 60 } else { 0 };
        self.setup(n, p, f);
    }

    // -------------------------------------------------------------- messages
    fn spec(&mut self, sess: usize, inbound: bool, seq: u32, sz: Size) -> MSpec {
        let s = self.p.sessions[sess].clone();
        let (d, types) = dict_of(&s.dict);
        loop {
            let t = self.r.pick(types).clone();
            let mut m = dict::message(&mut self.r, d, &t, &s, inbound, seq, sz);
            if self.r.pct(10) {
                let at = self.r.idx(m.body.len() + 1);
                let tag = 5001 + self.r.below(4000) as u32;
                m.body.insert(at, Item { tag, val: "user".into(), grp: None });
            }
            let w = dict::encode(&m);
            if dict::sound(&w) && dict::parse(&w, d).is_ok() && w.len() < 4000 {
                return m;
            }
        }
    }
    fn msg(&mut self, sess: usize, sz: Size) -> u32 {
        let i = self.p.msgs.len() as u32;
        let m = self.spec(sess, true, SEQ0 + i, sz);
        self.p.msgs.push(MsgPlan { sess: Some(sess as u32), wire: Bytes(dict::encode(&m)), spec: Some(m), expect: Expect::Deliver, kind: String::new(), acts: vec![] });
        i
    }
    fn drop_msg(&mut self, wire: Vec<u8>, kind: &str) -> u32 {
        self.p.msgs.push(MsgPlan { sess: None, wire: Bytes(wire), spec: None, expect: Expect::Drop, kind: kind.into(), acts: vec![] });
        self.p.msgs.len() as u32 - 1
    }
    fn out(&mut self, sess: usize, sz: Size) -> u32 {
        let i = self.p.outs.len() as u32;
        let m = self.spec(sess, false, OUT_SEQ + i, sz);
        self.p.outs.push(OutPlan { sess: sess as u32, spec: m, stamps: 0, hold_us: 0, reparse: false, redo: false });
        i
    }
    /// Answer this message, if the port's budget allows.
    fn answer(&mut self, m: u32, sz: Size) -> bool {
        let s = self.p.msgs[m as usize].sess.unwrap() as usize;
        if !self.spend(self.p.sessions[s].port, 1) {
            return false;
        }
        let a = if self.r.pct(30) { Act::Echo } else { Act::Send(self.out(s, sz)) };
        self.p.msgs[m as usize].acts.push(a);
        true
    }
    fn spend(&mut self, port: u16, n: u32) -> bool {
        let u = self.used.entry(port).or_insert(0);
        if *u + n > BUDGET {
            return false;
        }
        *u += n;
        true
    }
    fn size(&mut self) -> Size {
        if self.r.pct(40) {
            RICH
        } else {
            SMALL
        }
    }
    fn pause(&mut self, ops: &mut Vec<Op>) {
        if self.r.pct(20) {
            ops.push(Op::Sleep(*self.r.pick(&[10, 1000, 50_000, 2_000_000])));
        }
    }
    fn sess_on(&mut self, port: u16) -> Vec<usize> {
        (0..self.p.sessions.len()).filter(|&i| self.p.sessions[i].port == port).collect()
    }
    fn any_port(&mut self) -> u16 {
        let i = self.r.idx(self.p.sessions.len());
        self.p.sessions[i].port
    }
    fn ports(&self) -> Vec<u16> {
        let s: BTreeSet<u16> = self.p.sessions.iter().map(|s| s.port).collect();
        s.into_iter().collect()
    }
    fn end(&mut self, ops: &mut Vec<Op>, reset: bool) {
        match self.r.below(if reset { 9 } else { 7 }) {
            0 | 1 => {}
            2 | 3 => ops.push(Op::Close),
            4 => {
                ops.push(Op::WaitRead);
                ops.push(Op::Close);
            }
            5 => ops.push(Op::ShutWr),
            6 => {
                ops.push(Op::ShutWr);
                ops.push(Op::Sleep(1000));
                ops.push(Op::Close);
            }
            _ => ops.push(Op::Reset),
        }
    }
    /// Fresh peers after the main traffic: every session must still be served.
    fn probes(&mut self) {
        self.used.clear();
        for s in 0..self.p.sessions.len() {
            let port = self.p.sessions[s].port;
            let m = self.msg(s, SMALL);
            self.answer(m, SMALL);
            self.p.probes.push(ClientPlan { ops: vec![Op::Connect(port), Op::Send(m), Op::WaitReplies(1)] });
        }
    }
    /// Now and then the application is slow.
    fn slow_app(&mut self, pct: u32) {
        for i in 0..self.p.msgs.len() {
            if self.r.pct(pct) {
                let us = *self.r.pick(&[1, 500, 20_000, 1_000_000]);
                self.p.msgs[i].acts.insert(0, Act::Sleep(us));
            }
        }
    }
    fn shared_faults(&mut self, ops: &mut Vec<Op>) {
        match self.r.below(12) {
            0 => ops.push(Op::Partition(*self.r.pick(&[500, 100_000, 3_000_000]))),
            1 => {
                ops.push(Op::StallRead);
                ops.push(Op::Sleep(*self.r.pick(&[100, 20_000, 1_000_000])));
                ops.push(Op::ResumeRead);
            }
            _ => {}
        }
    }

    /// A peer that sends valid messages.
    fn plain_client(&mut self, n: usize, answered: u32, reset: bool) {
        let port = self.any_port();
        let on = self.sess_on(port);
        let one = self.r.pct(75);
        let s0 = *self.r.pick(&on);
        let mut ops = vec![Op::Connect(port)];
        let waits = self.r.pct(30);
        for k in 0..n {
            self.pause(&mut ops);
            self.shared_faults(&mut ops);
            let s = if one { s0 } else { *self.r.pick(&on) };
            let sz = self.size();
            let m = self.msg(s, sz);
            ops.push(Op::Send(m));
            if self.r.pct(answered) && self.answer(m, sz) && waits {
                ops.push(Op::WaitReplies(1));
            }
            if k + 1 < n && self.r.pct(8) {
                self.end(&mut ops, reset);
                if self.r.pct(30) {
                    ops.push(Op::Sleep(1000));
                }
                ops.push(Op::Connect(port));
            }
        }
        self.end(&mut ops, reset);
        self.p.clients.push(ClientPlan { ops });
    }
    fn app_sends(&mut self, threads: usize, per: usize, sz: Size) {
        for _ in 0..threads {
            let mut acts = vec![];
            for _ in 0..1 + self.r.idx(per) {
                if self.r.pct(30) {
                    acts.push(Act::Sleep(*self.r.pick(&[10, 1000, 100_000])));
                }
                let s = self.r.idx(self.p.sessions.len());
                let port = self.p.sessions[s].port;
                let free = self.p.prop == "C04" || self.p.prop == "C05";
                if free || self.spend(port, 1) {
                    let o = self.out(s, sz);
                    acts.push(Act::Send(o));
                }
            }
            self.p.threads.push(acts);
        }
    }

    // -------------------------------------------------------------- damage
    /// Damaged bytes whose every frame disagrees with its own length or checksum.
    fn damage(&mut self, w: &[u8]) -> Option<Vec<u8>> {
        let r = &mut self.r;
        for _ in 0..20 {
            let mut v = w.to_vec();
            let n = v.len();
            match r.below(11) {
                0 => v[r.idx(n)] ^= 1 << r.below(8),
                1 => v[r.idx(n)] = *r.pick(&[1, b'=', b'0', b'9', b'A', 0, 255]),
                2 => {
                    let a = r.idx(n);
                    let b = (a + 1 + r.idx(12)).min(n);
                    v.drain(a..b);
                }
                3 => {
                    let a = r.idx(n);
                    for _ in 0..1 + r.idx(6) {
                        let c = *r.pick(&[b'1', b'x', 1, b'=', b'0']);
                        v.insert(a, c);
                    }
                }
                4 => {
                    let a = r.idx(n);
                    let b = (a + 1 + r.idx(20)).min(n);
                    let c = v[a..b].to_vec();
                    v.splice(a..a, c);
                }
                5 => {
                    // another checksum
                    let d = n - 2 - r.idx(3);
                    v[d] = b'0' + r.below(10) as u8;
                }
                6 => {
                    // another length
                    let p = v.iter().position(|b| *b == 1).unwrap();
                    let e = p + 1 + v[p + 1..].iter().position(|b| *b == 1).unwrap();
                    let d = p + 3 + r.idx(e - p - 3);
                    v[d] = b'0' + r.below(10) as u8;
                }
                7 => {
                    // a whole field lost
                    let seg: Vec<(usize, usize)> = fields(&v);
                    let (a, b) = *r.pick(&seg);
                    v.drain(a..b);
                }
                8 => {
                    // two fields' places exchanged, one byte off
                    let seg = fields(&v);
                    let (a, b) = *r.pick(&seg);
                    let f: Vec<u8> = v.drain(a..b).collect();
                    let seg = fields(&v);
                    let (c, _) = *r.pick(&seg);
                    v.splice(c..c, f);
                    let n = v.len();
                    v[n - 3] = v[n - 3].wrapping_add(1).clamp(b'0', b'9');
                }
                9 => {
                    // the checksum right for the wrong length
                    let i = v.windows(3).position(|x| x == b"\x0135")? + 1;
                    let rest = v[i..n - 7].to_vec();
                    let p = v.iter().position(|b| *b == 1).unwrap();
                    let l = if r.pct(50) { rest.len() + 1 + r.idx(5) } else { rest.len().saturating_sub(1 + r.idx(5)) };
                    let mut x = v[..p + 1].to_vec();
                    x.extend_from_slice(format!("9={}\x01", l).as_bytes());
                    x.extend_from_slice(&rest);
                    let s = dict::checksum(&x);
                    x.extend_from_slice(format!("10={:03}\x01", s).as_bytes());
                    v = x;
                }
                _ => {
                    // length field missing, checksum right
                    let i = v.windows(3).position(|x| x == b"\x0135")? + 1;
                    let p = v.iter().position(|b| *b == 1).unwrap();
                    let mut x = v[..p + 1].to_vec();
                    x.extend_from_slice(&v[i..n - 7]);
                    let s = dict::checksum(&x);
                    x.extend_from_slice(format!("10={:03}\x01", s).as_bytes());
                    v = x;
                }
            }
            if v == w || v.is_empty() {
                continue;
            }
            let (f, _) = dict::frames(&v);
            if f.iter().all(|&(a, b)| !dict::sound(&v[a..b])) {
                return Some(v);
            }
        }
        None
    }
    /// A structurally broken message with right length and checksum.
    fn broken(&mut self, sess: usize) -> Option<u32> {
        let s = self.p.sessions[sess].clone();
        let (d, _) = dict_of(&s.dict);
        for _ in 0..30 {
            let i = self.p.msgs.len() as u32;
            let mut sz = RICH;
            sz.opt = 60;
            let m = self.spec(sess, true, SEQ0 + i, sz);
            let kind = self.r.below(24) as u32;
            if let Some((w, name)) = dict::deviate(&mut self.r, d, &m, kind) {
                let (f, e) = dict::frames(&w);
                if f.len() == 1 && e == w.len() && dict::sound(&w) && dict::parse(&w, d).is_err() {
                    return Some(self.drop_msg(w, &format!("struct-{}", name)));
                }
            }
        }
        None
    }
    fn unknown_session(&mut self) -> Vec<u8> {
        loop {
            let i = self.r.idx(self.p.sessions.len());
            let base = self.p.sessions[i].clone();
            let mut s = base.clone();
            match self.r.below(8) {
                0 => s.sender = "NOBODY".into(),
                1 => s.target.push('X'),
                2 => s.begin = self.r.pick(&["FIX.4.2", "FIX.4.3", "FIX.4.4", "FIX.9.9", "FIXT.1.1"]).to_string(),
                3 => s.target_sub = Some("SUB".into()),
                4 => s.sender_sub = None,
                5 => s.target_loc = Some("x9".into()),
                6 => std::mem::swap(&mut s.sender, &mut s.target),
                _ => s.sender_loc = Some("x8".into()),
            }
            let key = |s: &Sess| (s.begin.clone(), s.sender.clone(), s.sender_sub.clone(), s.sender_loc.clone(), s.target.clone(), s.target_sub.clone(), s.target_loc.clone());
            if self.p.sessions.iter().any(|x| key(x) == key(&s)) {
                continue;
            }
            let (d, types) = dict_of(&s.dict);
            let t = self.r.pick(types).clone();
            let seq = SEQ0 + self.p.msgs.len() as u32;
            let m = dict::message(&mut self.r, d, &t, &s, true, seq, SMALL);
            return dict::encode(&m);
        }
    }
    /// Bytes of a hostile peer; properly terminated.  Returns the operation sending them.
    fn evil(&mut self) -> Op {
        let si = self.r.idx(self.p.sessions.len());
        let s = self.p.sessions[si].clone();
        match self.r.below(14) {
            0 => {
                let n = 1 + self.r.idx(60);
                let mut v: Vec<u8> = (0..n).map(|_| self.r.below(256) as u8).collect();
                v.extend_from_slice(b"\x0110=000\x01");
                Op::Raw(Bytes(v))
            }
            1 => Op::Raw(Bytes(self.r.pick(&[&b"10=000\x01"[..], b"\x0110=0\x01", b"10=\x01", b"\x01\x01\x0110=1\x01", b"8=FIX.4.3\x0110=1\x01",
                b"8=FIX.4.3\x019=5\x0110=005\x01", b"=\x0110==\x01", b"8=\x019=\x0135=\x0110=\x01", b"9=1\x018=FIX.4.3\x0110=000\x01",
                b"8=FIX.4.3\x019=99999999999999999999\x0135=A\x0110=000\x01", b"8=FIX.4.3\x019=-1\x0135=A\x0110=000\x01"]).to_vec())),
            2 => {
                // right sums, too few fields or nobody named
                let rest = self.r.pick(&[&b""[..], b"35=A\x01", b"35=0\x0134=1\x01", b"49=X\x0156=Y\x01", b"35=A\x0149=\x0156=\x01", b"x\x01"]).to_vec();
                Op::Raw(Bytes(dict::wrap(&s.begin, &rest)))
            }
            3 => {
                // like 2, but naming a real session
                let mut rest = self.r.pick(&[&b""[..], b"35=\x01", b"34=7\x01"]).to_vec();
                for i in dict::ids(&s, true) {
                    rest.extend_from_slice(format!("{}={}\x01", i.tag, i.val).as_bytes());
                }
                Op::Raw(Bytes(dict::wrap(&s.begin, &rest)))
            }
            4 | 5 => {
                let w = self.unknown_session();
                Op::Send(self.drop_msg(w, "unknown-session"))
            }
            6 => {
                let i = self.msg_wire_huge_group(si);
                i.map(Op::Send).unwrap_or(Op::Sleep(1))
            }
            7 | 8 | 9 => self.broken(si).map(Op::Send).unwrap_or(Op::Sleep(1)),
            10 | 11 => {
                let seq = SEQ0 + self.p.msgs.len() as u32;
                let m = self.spec(si, true, seq, SMALL);
                let w = dict::encode(&m);
                match self.damage(&w) {
                    Some(mut v) => {
                        // terminated, so that it cannot swallow what follows
                        if dict::frames(&v).1 != v.len() {
                            v.extend_from_slice(b"\x0110=000\x01");
                            if dict::frames(&v).0.iter().any(|&(a, b)| dict::sound(&v[a..b])) {
                                return Op::Sleep(1);
                            }
                        }
                        Op::Send(self.drop_msg(v, "damaged"))
                    }
                    None => Op::Sleep(1),
                }
            }
            12 => {
                // text that is no UTF-8, in an otherwise right message: no claim on its fate
                let m = self.spec(si, true, ANY_SEQ, SMALL);
                let mut rest = vec![];
                for (t, v) in dict::raw_fields(&m) {
                    rest.extend_from_slice(format!("{}={}\x01", t, v).as_bytes());
                }
                rest.extend_from_slice(b"58=\xff\xfe\x80\x01");
                Op::Raw(Bytes(dict::wrap(&s.begin, &rest)))
            }
            _ => {
                // a very long field
                let n = 200 + self.r.idx(3000);
                let mut v = vec![b'z'; n];
                v.extend_from_slice(b"\x0110=000\x01");
                Op::Raw(Bytes(v))
            }
        }
    }
    /// A group that claims an absurd number of instances.
    fn msg_wire_huge_group(&mut self, sess: usize) -> Option<u32> {
        let s = self.p.sessions[sess].clone();
        let (d, _) = dict_of(&s.dict);
        for _ in 0..40 {
            let seq = SEQ0 + self.p.msgs.len() as u32;
            let m = self.spec(sess, true, seq, Size { opt: 70, ..RICH });
            let mut f = dict::raw_fields(&m);
            let mut gs: Vec<u32> = vec![];
            fn tags(v: &[Item], o: &mut Vec<u32>) {
                for i in v {
                    if let Some(g) = &i.grp {
                        o.push(i.tag);
                        for x in &g.inst {
                            tags(x, o);
                        }
                    }
                }
            }
            tags(&m.body, &mut gs);
            tags(&m.header, &mut gs);
            if gs.is_empty() {
                continue;
            }
            let t = self.r.pick(&gs).to_string();
            let c = *self.r.pick(&["4294967295", "100000000", "20000000", "1000000", "2147483648", "65535"]);
            for x in f.iter_mut() {
                if x.0 == t {
                    x.1 = c.to_string();
                }
            }
            let w = dict::raw_wire(&m.begin, &f);
            if dict::parse(&w, d).is_err() && dict::sound(&w) {
                return Some(self.drop_msg(w, "struct-huge-group-count"));
            }
        }
        None
    }

    // -------------------------------------------------------------- profiles
    fn c01(&mut self) {
        self.std_setup();
        let n = 1 + self.r.idx(5);
        let ans = *self.r.pick(&[0, 0, 50]);
        for _ in 0..n {
            let k = 1 + self.r.idx(10);
            self.plain_client(k, ans, false);
        }
        let p = *self.r.pick(&[0, 10, 40]);
        self.slow_app(p);
        if self.r.pct(20) {
            let n = self.r.idx(4);
            self.app_sends(1, n + 1, SMALL);
        }
    }
    fn c02(&mut self) {
        self.std_setup();
        for _ in 0..1 + self.r.idx(4) {
            let port = self.any_port();
            let on = self.sess_on(port);
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..1 + self.r.idx(8) {
                let s = *self.r.pick(&on);
                let sz = self.size();
                self.pause(&mut ops);
                match self.r.below(10) {
                    0..=3 => {
                        let m = self.msg(s, sz);
                        ops.push(Op::Send(m));
                    }
                    4..=7 => {
                        let seq = SEQ0 + self.p.msgs.len() as u32;
                        let m = self.spec(s, true, seq, sz);
                        let w = dict::encode(&m);
                        if let Some(v) = self.damage(&w) {
                            let i = self.drop_msg(v, "damaged");
                            ops.push(Op::Send(i));
                        }
                    }
                    _ => {
                        // cut short; the peer goes away or (rarely) talks on
                        let m = self.msg(s, sz);
                        let l = self.p.msgs[m as usize].wire.0.len();
                        let cut = if self.r.pct(50) { l - 1 - self.r.idx(9.min(l - 1)) } else { 1 + self.r.idx(l - 1) };
                        ops.push(Op::Cut(m, cut as u32));
                        match self.r.below(8) {
                            0 => continue,
                            1..=3 => ops.push(Op::Close),
                            4 => ops.push(Op::ShutWr),
                            5 => {
                                ops.push(Op::WaitRead);
                                ops.push(Op::Close);
                            }
                            _ => ops.push(Op::Reset),
                        }
                        ops.push(Op::Connect(port));
                        if self.r.pct(50) {
                            // sent again, whole
                            ops.push(Op::Send(m));
                        }
                    }
                }
                if self.r.pct(5) {
                    ops.push(Op::Reset);
                    ops.push(Op::Connect(port));
                }
            }
            self.end(&mut ops, true);
            self.p.clients.push(ClientPlan { ops });
        }
        self.slow_app(10);
        if self.r.pct(50) {
            self.probes();
        }
    }
    fn c03(&mut self) {
        if self.r.pct(10) {
            self.p.mode = "main".into();
        }
        self.std_setup();
        // honest peers
        for _ in 0..1 + self.r.idx(3) {
            let n = 1 + self.r.idx(6);
            let port = self.any_port();
            let on = self.sess_on(port);
            let s = *self.r.pick(&on);
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..n {
                self.pause(&mut ops);
                let m = self.msg(s, SMALL);
                ops.push(Op::Send(m));
                if self.r.pct(70) && self.answer(m, SMALL) && self.r.pct(60) {
                    ops.push(Op::WaitReplies(1));
                }
            }
            self.p.clients.push(ClientPlan { ops });
        }
        // hostile ones
        for _ in 0..1 + self.r.idx(3) {
            let mut port = self.any_port();
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..1 + self.r.idx(7) {
                self.pause(&mut ops);
                let e = self.evil();
                ops.push(e);
                let on = self.sess_on(port);
                if self.r.pct(40) {
                    let s = *self.r.pick(&on);
                    let m = self.msg(s, SMALL);
                    ops.push(Op::Send(m));
                    if self.r.pct(50) {
                        self.answer(m, SMALL);
                    }
                }
                if self.r.pct(10) {
                    ops.push(Op::StallRead);
                }
                if self.r.pct(25) {
                    let m = self.msg(on[0], SMALL);
                    let l = self.p.msgs[m as usize].wire.0.len();
                    if self.r.pct(50) {
                        ops.push(Op::Cut(m, 1 + self.r.idx(l - 1) as u32));
                    }
                    let e = self.r.pick(&[Op::Close, Op::Reset, Op::Reset, Op::ShutWr]).clone();
                    ops.push(e);
                    port = self.any_port();
                    ops.push(Op::Connect(port));
                }
            }
            self.end(&mut ops, true);
            self.p.clients.push(ClientPlan { ops });
        }
        if self.r.pct(40) {
            let t = 1 + self.r.idx(2);
            self.app_sends(t, 4, SMALL);
        }
        self.probes();
    }
    fn outbound(&mut self) {
        // C04 and C05
        let c05 = self.p.prop == "C05";
        let n = if c05 { 2 + self.r.idx(4) } else { 1 + self.r.idx(3) };
        let p = 1 + self.r.idx(n.min(3));
        self.setup(n, p, 0);
        let burst = *self.r.pick(&[1, 3, 10, 45]);
        for _ in 0..1 + self.r.idx(5) {
            let port = self.any_port();
            let on = self.sess_on(port);
            let mut ops = vec![Op::Connect(port)];
            let quiet = c05 && self.r.pct(25);
            if self.r.pct(20) {
                ops.push(Op::StallRead);
            }
            for _ in 0..1 + self.r.idx(5) {
                self.pause(&mut ops);
                if quiet {
                    // never identifies: silent, or a stranger, or only damaged words
                    match self.r.below(4) {
                        0 => {
                            let w = self.unknown_session();
                            let i = self.drop_msg(w, "unknown-session");
                            ops.push(Op::Send(i));
                        }
                        1 => {
                            let s = *self.r.pick(&on);
                            let seq = SEQ0 + self.p.msgs.len() as u32;
                            let m = self.spec(s, true, seq, SMALL);
                            let w = dict::encode(&m);
                            if let Some(v) = self.damage(&w) {
                                let i = self.drop_msg(v, "damaged");
                                ops.push(Op::Send(i));
                            }
                        }
                        2 => {
                            let s = *self.r.pick(&on);
                            if let Some(i) = self.broken(s) {
                                ops.push(Op::Send(i));
                            }
                        }
                        _ => ops.push(Op::Sleep(10_000)),
                    }
                    continue;
                }
                let s = if self.r.pct(80) { on[0] } else { *self.r.pick(&on) };
                let m = self.msg(s, SMALL);
                ops.push(Op::Send(m));
                for _ in 0..self.r.idx(burst + 1) {
                    let to = if self.r.pct(75) { s } else { self.r.idx(self.p.sessions.len()) };
                    let sz = if self.r.pct(10) { RICH } else { SMALL };
                    let o = self.out(to, sz);
                    self.p.msgs[m as usize].acts.push(Act::Send(o));
                }
                if self.r.pct(30) {
                    ops.push(Op::WaitReplies(1));
                }
                match self.r.below(14) {
                    0 => ops.push(Op::StallRead),
                    1 | 2 => ops.push(Op::ResumeRead),
                    3 => ops.push(Op::Partition(200_000)),
                    4 => {
                        self.end(&mut ops, true);
                        ops.push(Op::Connect(port));
                    }
                    _ => {}
                }
            }
            if self.r.pct(60) {
                ops.push(Op::Sleep(300_000));
                ops.push(Op::ResumeRead);
            }
            if self.r.pct(50) {
                self.end(&mut ops, true);
            }
            self.p.clients.push(ClientPlan { ops });
        }
        let t = self.r.idx(4);
        let per = *self.r.pick(&[3, 10, 25]);
        self.app_sends(t, per, SMALL);
    }
    fn c06(&mut self) {
        let main = self.r.pct(15);
        if main {
            self.p.mode = "main".into();
        }
        let n = 1 + self.r.idx(4);
        let p = 1 + self.r.idx(n.min(3));
        self.setup(n, p, 0);
        let segs = 1 + self.r.idx(4);
        let n_cl = 1 + self.r.idx(5);
        let mut cl: Vec<(u16, usize, Vec<Op>, bool)> = vec![];
        for _ in 0..n_cl {
            let s = self.r.idx(n);
            cl.push((self.p.sessions[s].port, s, vec![], false));
        }
        for seg in 0..segs {
            self.used.clear();
            for i in 0..n_cl {
                let (port, s, mut ops, mut open) = std::mem::take(&mut cl[i]);
                if seg > 0 {
                    ops.push(Op::WaitIdle);
                }
                for _ in 0..1 + self.r.idx(4) {
                    if !open {
                        ops.push(Op::Connect(port));
                        open = true;
                    }
                    let win = 1 + self.r.idx(4);
                    let mut got = 0;
                    for _ in 0..win {
                        let sz = self.size();
                        let m = self.msg(s, sz);
                        if self.answer(m, sz) {
                            got += 1;
                        }
                        ops.push(Op::Send(m));
                    }
                    if self.r.pct(70) {
                        ops.push(Op::WaitReplies(got));
                    }
                    self.pause(&mut ops);
                    if self.r.pct(25) {
                        let e = self.r.pick(&[Op::Close, Op::Close, Op::Reset, Op::ShutWr]).clone();
                        if matches!(e, Op::ShutWr) {
                            ops.push(Op::ShutWr);
                            ops.push(Op::Close);
                        } else {
                            ops.push(e);
                        }
                        open = false;
                    }
                }
                cl[i] = (port, s, ops, open);
            }
            if seg == 0 && !main && self.r.pct(30) {
                self.app_sends(1, 3, SMALL);
            }
        }
        for c in cl {
            self.p.clients.push(ClientPlan { ops: c.2 });
        }
        self.slow_app(8);
        if self.r.pct(50) {
            self.probes();
        }
    }
    fn c07(&mut self) {
        if self.r.pct(10) {
            self.p.mode = "main".into();
        }
        let n = 1 + self.r.idx(4);
        let p = 1 + self.r.idx(n.min(3));
        self.setup(n, p, 0);
        if self.r.pct(40) {
            self.p.sched.workers = 1;
        }
        let ports = self.ports();
        for &port in &ports {
            if self.r.pct(30) {
                let k = *self.r.pick(&[1, 2, 5, 30, u32::MAX]);
                self.p.faults.bind_fail.push((port, k));
            }
        }
        const E: [i32; 5] = [libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM];
        if self.r.pct(40) {
            let base = 1 + self.r.below(4) as u32;
            for k in 0..1 + self.r.below(6) as u32 {
                let e = *self.r.pick(&E);
                self.p.faults.accept_fail.push((base + k, e));
            }
        } else if self.r.pct(10) {
            let e = *self.r.pick(&E[1..]);
            self.p.faults.accept_fail.push((0, e));
        }
        for seg in 0..1 + self.r.idx(3) {
            self.used.clear();
            let n_cl = 1 + self.r.idx(8);
            for _ in 0..n_cl {
                let port = *self.r.pick(&ports);
                let on = self.sess_on(port);
                let s = *self.r.pick(&on);
                let mut ops = vec![];
                for _ in 0..seg {
                    ops.push(Op::WaitIdle);
                }
                if self.r.pct(30) {
                    let d = self.r.below(3000);
                    ops.push(Op::Sleep(d));
                }
                for _ in 0..1 + self.r.idx(3) {
                    ops.push(Op::Connect(port));
                    match self.r.below(6) {
                        0 => {}
                        1 => {
                            let m = self.msg(s, SMALL);
                            ops.push(Op::Send(m));
                        }
                        _ => {
                            let m = self.msg(s, SMALL);
                            ops.push(Op::Send(m));
                            if self.answer(m, SMALL) {
                                ops.push(Op::WaitReplies(1));
                            }
                        }
                    }
                    if self.r.pct(50) {
                        let e = self.r.pick(&[Op::Close, Op::Reset]).clone();
                        ops.push(e);
                    }
                }
                self.p.clients.push(ClientPlan { ops });
            }
        }
        self.probes();
    }
    fn c08(&mut self) {
        let n = 1 + self.r.idx(3);
        let p = 1 + self.r.idx(n.min(2));
        self.setup(n, p, 0);
        for _ in 0..1 + self.r.idx(4) {
            let port = self.any_port();
            let on = self.sess_on(port);
            let mut ops = vec![];
            for _ in 0..1 + self.r.idx(8) {
                ops.push(Op::Connect(port));
                if self.r.pct(15) {
                    ops.push(Op::StallRead);
                }
                for _ in 0..self.r.idx(4) {
                    let s = *self.r.pick(&on);
                    let m = self.msg(s, SMALL);
                    ops.push(Op::Send(m));
                    for _ in 0..self.r.idx(3) {
                        if self.r.pct(60) {
                            let o = self.out(s, SMALL);
                            self.p.msgs[m as usize].acts.push(Act::Send(o));
                        }
                    }
                    self.pause(&mut ops);
                }
                if self.r.pct(30) {
                    let m = self.msg(on[0], SMALL);
                    let l = self.p.msgs[m as usize].wire.0.len();
                    ops.push(Op::Cut(m, 1 + self.r.idx(l - 1) as u32));
                }
                match self.r.below(8) {
                    0 | 1 => ops.push(Op::Close),
                    2 | 3 => ops.push(Op::Reset),
                    4 => {
                        ops.push(Op::WaitRead);
                        ops.push(Op::Close);
                    }
                    5 => {
                        ops.push(Op::ShutWr);
                        ops.push(Op::Sleep(5000));
                        ops.push(Op::Close);
                    }
                    6 => {
                        ops.push(Op::WaitRead);
                        ops.push(Op::Reset);
                    }
                    // left open: the next connect abandons it until the end of the run
                    _ => ops.push(Op::Sleep(10)),
                }
                if self.r.pct(15) {
                    ops.push(Op::WaitIdle);
                }
            }
            self.p.clients.push(ClientPlan { ops });
        }
        let t = self.r.idx(2);
        self.app_sends(t, 5, SMALL);
        self.slow_app(8);
    }
    fn c09(&mut self) {
        let n = 1 + self.r.idx(3);
        let f = if self.r.pct(30) { 60 } else { 0 };
        self.setup(n, 1, f);
        for _ in 0..1 + self.r.idx(3) {
            let s = self.r.idx(n);
            let port = self.p.sessions[s].port;
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..1 + self.r.idx(4) {
                let m = self.msg(s, RICH);
                ops.push(Op::Send(m));
                let mut k = 0;
                for _ in 0..1 + self.r.idx(3) {
                    if !self.spend(port, 1) {
                        break;
                    }
                    let sz = Size { opt: *self.r.pick(&[20, 50, 80]), max_fields: 16, max_inst: 3, nasty: true, long: 40 };
                    let o = self.out(s, sz);
                    if self.r.pct(25) {
                        self.p.outs[o as usize].reparse = true;
                    }
                    if self.r.pct(25) {
                        self.p.outs[o as usize].redo = true;
                    }
                    if self.r.pct(15) {
                        self.p.outs[o as usize].stamps = 1;
                    }
                    self.p.msgs[m as usize].acts.push(Act::Send(o));
                    k += 1;
                }
                if self.r.pct(30) && self.spend(port, 1) {
                    self.p.msgs[m as usize].acts.push(Act::Echo);
                    k += 1;
                }
                ops.push(Op::WaitReplies(k));
            }
            self.p.clients.push(ClientPlan { ops });
        }
    }
    fn c10(&mut self) {
        let n = 1 + self.r.idx(2);
        self.setup(n, 1, 0);
        self.p.net.seg = *self.r.pick(&[0, 2]);
        self.p.net.chunk = *self.r.pick(&[64, 200, 1000]);
        self.p.net.rx_cap = *self.r.pick(&[512, 4096, 65536]);
        self.p.sched.alloc_gap = *self.r.pick(&[0, 0, 300]);
        let flood = self.r.pct(60);
        let tiny = Size { opt: 5, max_fields: 1, max_inst: 1, nasty: false, long: 0 };
        if flood {
            let total = 700 + self.r.idx(900);
            let k = 1 + self.r.idx(3);
            for _ in 0..k {
                let s = self.r.idx(n);
                let mut ops = vec![Op::Connect(self.p.sessions[s].port)];
                for _ in 0..total / k {
                    let m = self.msg(s, tiny);
                    ops.push(Op::Send(m));
                }
                if self.r.pct(50) {
                    ops.push(Op::Close);
                }
                self.p.clients.push(ClientPlan { ops });
            }
            // one long stall, or every message slow, or many short ones
            let how = self.r.below(10);
            if how < 3 {
                for i in 0..self.p.msgs.len() {
                    self.p.msgs[i].acts.push(Act::Sleep(5_000_000));
                }
            } else if how < 8 {
                let at = self.r.idx(3.min(self.p.msgs.len()));
                for c in 0..k {
                    let i = at + c * (total / k);
                    self.p.msgs[i].acts.push(Act::Sleep(3_000_000_000));
                }
            } else {
                self.slow_app(5);
            }
        } else {
            for _ in 0..1 + self.r.idx(3) {
                let s = self.r.idx(n);
                let mut ops = vec![Op::Connect(self.p.sessions[s].port)];
                for _ in 0..2 + self.r.idx(8) {
                    if self.r.pct(60) {
                        if let Some(i) = self.msg_wire_huge_group(s) {
                            ops.push(Op::Send(i));
                        }
                    }
                    let m = self.msg(s, SMALL);
                    ops.push(Op::Send(m));
                }
                self.p.clients.push(ClientPlan { ops });
            }
        }
    }
    fn c11(&mut self) {
        self.setup(1, 1, 0);
        self.p.faults.jumps.clear();
        let zones = zones();
        for _ in 0..2 + self.r.idx(4) {
            let w = self.window(&zones);
            self.p.windows.push(w);
        }
        // begin near something interesting for one of the windows
        let w = self.r.pick(&self.p.windows).clone();
        let day = 86_400_000_000_000i64;
        let mut t = self.p.wall_start_ns;
        match self.r.below(5) {
            0 | 1 => {
                if let Some(tr) = transition(&w.tz, t, &mut self.r) {
                    t = tr + self.r.range(-2 * 3600, 2 * 3600) * 1_000_000_000;
                    if self.r.pct(50) {
                        // the transition day itself, at any hour
                        t = tr + self.r.range(-20 * 3600, 20 * 3600) * 1_000_000_000;
                    }
                }
            }
            2 => t = t.div_euclid(day) * day + self.r.range(-5, 5) * 1_000_000,
            _ => {}
        }
        self.p.wall_start_ns = t;
        let mut acts = vec![];
        let step = *self.r.pick(&[20u64, 600, 1800, 3600, 3 * 3600, 11 * 3600]);
        let n = 20 + self.r.idx(60);
        for _ in 0..n {
            let w = self.r.idx(self.p.windows.len()) as u32;
            acts.push(Act::SchedCheck(w));
            if self.r.pct(70) {
                acts.push(Act::Sleep((self.r.below(step) + 1) * 1_000_000));
            }
        }
        // jumps right to the edges of a window, a tick before, at and after
        let mut cur = t;
        let mut reads = 0u32;
        for _ in 0..self.r.idx(14) {
            let w = self.r.pick(&self.p.windows).clone();
            let (s, e) = match (&w.start, &w.end) {
                (Some(s), Some(e)) => (s.clone(), e.clone()),
                _ => continue,
            };
            let edge = if self.r.pct(50) { s } else { e };
            let local_day = (cur.div_euclid(day) + self.r.range(-4, 4)) * day;
            let off = crate::oracle::offset_ns(&w.tz, local_day);
            let at = local_day + hms(&edge) - off + *self.r.pick(&[-1_000_000_000, -1_000_000, -1, 0, 0, 0, 1, 1_000_000, 1_000_000_000, 500_000]);
            reads += 1 + self.r.below(6) as u32;
            self.p.faults.jumps.push(Jump { at_read: reads, delta_ns: 0, to_ns: Some(at) });
            cur = at;
        }
        let m = self.msg(0, SMALL);
        self.p.clients.push(ClientPlan { ops: vec![Op::Connect(self.p.sessions[0].port), Op::Send(m)] });
        if self.r.pct(40) {
            self.p.msgs[m as usize].acts = acts;
        } else {
            self.p.threads.push(acts);
        }
    }
    fn window(&mut self, zones: &[&str]) -> Window {
        let r = &mut self.r;
        let time = |r: &mut Rng| match r.below(5) {
            0 => r.pick(&["00:00:00", "23:59:59", "12:00:00", "01:30:00", "02:30:00", "02:00:00", "03:00:00"]).to_string(),
            _ => format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60)),
        };
        let mut w = Window { tz: if r.pct(10) { String::new() } else { r.pick(zones).to_string() }, ..Default::default() };
        if r.pct(5) {
            return w;
        }
        let (mut s, mut e) = (time(r), time(r));
        let weekly = r.pct(55);
        if weekly && r.pct(10) {
            e = s.clone();
        }
        while s == e && !weekly {
            e = time(r);
        }
        let cross = r.pct(if weekly { 50 } else { 35 });
        if (s > e) != cross {
            std::mem::swap(&mut s, &mut e);
        }
        let s_eq = s == e;
        w.start = Some(s);
        w.end = Some(e);
        if weekly {
            w.start_day = Some(r.pick(&DAYS).to_string());
            w.end_day = Some(r.pick(&DAYS).to_string());
            while s_eq && w.start_day == w.end_day {
                w.end_day = Some(r.pick(&DAYS).to_string());
            }
        }
        w.via = r.below(6) as u8;
        w
    }
    fn c12(&mut self) {
        let n = 1 + self.r.idx(2);
        self.setup(n, 1, 0);
        self.p.faults.jumps.clear();
        // any day, with the boundaries of days, months, years and leap days favoured
        let day = 86_400_000_000_000i64;
        let d = match self.r.below(6) {
            0 => days_from(2000 + self.r.range(0, 60), 12, 31),
            1 => days_from(*self.r.pick(&[2000, 2004, 2020, 2023, 2024, 2028, 2100]), 2, 28),
            2 => days_from(2000 + self.r.range(0, 90), 1 + self.r.range(0, 11), 28),
            _ => self.r.range(10_000, 40_000),
        };
        self.p.wall_start_ns = match self.r.below(3) {
            0 => (d + 1) * day - self.r.range(1, 3_000_000_000),
            1 => d * day + self.r.range(0, day - 1),
            _ => d * day + self.r.range(0, 999) * 1_000_000 * self.r.range(1, 86_399),
        };
        if self.r.pct(70) {
            self.jumps(8, 40);
        }
        if self.r.pct(20) {
            self.p.faults.jumps.push(Jump { at_read: 1 + self.r.below(20) as u32, delta_ns: day * 31, to_ns: None });
        }
        for _ in 0..1 + self.r.idx(3) {
            let s = self.r.idx(n);
            let port = self.p.sessions[s].port;
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..1 + self.r.idx(4) {
                let m = self.msg(s, SMALL);
                ops.push(Op::Send(m));
                let mut k = 0;
                for _ in 0..1 + self.r.idx(3) {
                    if !self.spend(port, 1) {
                        break;
                    }
                    let sz = self.size();
                    let o = self.out(s, sz);
                    let op = &mut self.p.outs[o as usize];
                    op.stamps = 1 + self.r.idx(3) as u8;
                    op.hold_us = *self.r.pick(&[0, 0, 1000, 400_000, 70_000_000]);
                    op.reparse = self.r.pct(20);
                    op.redo = self.r.pct(15);
                    if self.r.pct(20) {
                        op.spec.header.retain(|i| i.tag != 52);
                        if self.r.pct(60) {
                        op.spec.header.push(Item { tag: 52, val: self.r.pick(&["19700101-00:00:00", "x"]).to_string(), grp: None });
                        }
                    }
                    self.p.msgs[m as usize].acts.push(Act::Send(o));
                    k += 1;
                }
                ops.push(Op::WaitReplies(k));
                if self.r.pct(30) {
                    ops.push(Op::Sleep(*self.r.pick(&[1000, 700_000, 100_000_000])));
                }
            }
            self.p.clients.push(ClientPlan { ops });
        }
        if self.r.pct(40) {
            let s = self.r.idx(n);
            let port = self.p.sessions[s].port;
            let mut acts = vec![];
            for _ in 0..4 {
                if self.spend(port, 1) {
                    let o = self.out(s, SMALL);
                    self.p.outs[o as usize].stamps = 1;
                    acts.push(Act::Send(o));
                    acts.push(Act::Sleep(300_000));
                }
            }
            self.p.threads.push(acts);
        }
    }
    fn c13(&mut self) {
        if self.r.pct(15) {
            self.p.mode = "main".into();
        }
        let n = 1 + self.r.idx(6);
        let p = 1 + self.r.idx(n.min(3));
        let f = *self.r.pick(&[0, 20, 50]);
        self.setup(n, p, f);
        let fatal = self.r.pct(25);
        let nf = self.p.files.len();
        let bad = self.r.idx(nf);
        for i in 0..nf {
            let r = &mut self.r;
            let f = &mut self.p.files[i];
            if r.pct(50) {
                f.max_read = *r.pick(&[1, 7, 64, 500, 4096]);
                if f.path == SIM43 && f.max_read < 64 {
                    f.max_read = 500;
                }
            }
            if r.pct(60) {
                for _ in 0..r.below(12) {
                    let x = match r.below(4) {
                        0 => ReadFault::Eintr,
                        1 => ReadFault::Slow(1),
                        _ => ReadFault::Short(1 + r.below(200) as u32),
                    };
                    f.faults.push(x);
                }
            }
            if fatal && i == bad {
                if r.pct(25) {
                    f.missing = true;
                } else {
                    let at = r.idx(f.faults.len() + 4);
                    if at < f.faults.len() {
                        f.faults.truncate(at);
                    }
                    while f.faults.len() < at {
                        f.faults.push(ReadFault::Short(1 + r.below(300) as u32));
                    }
                    f.faults.push(ReadFault::Eio);
                }
            }
        }
        self.p.startup_fails = fatal;
        for s in 0..n {
            let port = self.p.sessions[s].port;
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..1 + self.r.idx(3) {
                if self.r.pct(30) {
                    let w = self.unknown_session();
                    let i = self.drop_msg(w, "unknown-session");
                    ops.push(Op::Send(i));
                }
                let sz = if self.p.mode == "main" { SMALL } else { RICH };
                let m = self.msg(s, sz);
                ops.push(Op::Send(m));
                if self.answer(m, SMALL) {
                    ops.push(Op::WaitReplies(1));
                }
            }
            self.p.clients.push(ClientPlan { ops });
        }
    }
    fn reg_act(&mut self, v: &mut u32) -> Act {
        let k = self.r.below(REG_KEYS as u64) as u32;
        *v += 1;
        let real = REAL_KEY + self.r.idx(self.p.sessions.len()) as u32;
        Act::Reg(match self.r.below(10) {
            0 | 1 => RegOp::Get(k),
            2 | 3 | 4 => RegOp::Insert(k, *v),
            5 | 6 => RegOp::Modify(k, *v),
            7 => RegOp::List,
            8 => RegOp::Get(real),
            _ => RegOp::Modify(real, *v),
        })
    }
    fn c14(&mut self) {
        let n = 1 + self.r.idx(4);
        let p = 1 + self.r.idx(n.min(2));
        self.setup(n, p, 0);
        if self.r.pct(60) {
            self.p.sched.alloc_gap = *self.r.pick(&[5, 20, 60]);
            self.p.sched.stay = *self.r.pick(&[0, 30, 70]);
        }
        let mut v = 0;
        let mut left = 30;
        for _ in 0..1 + self.r.idx(4) {
            let mut acts = vec![];
            for _ in 0..2 + self.r.idx(8) {
                match self.r.below(10) {
                    0..=5 if left > 0 => {
                        left -= 1;
                        let a = self.reg_act(&mut v);
                        acts.push(a);
                    }
                    6 => acts.push(Act::Yield),
                    7 => acts.push(Act::Sleep(*self.r.pick(&[1, 2000, 100_000]))),
                    _ => {
                        let s = self.r.idx(n);
                        if self.spend(self.p.sessions[s].port, 1) {
                            let o = self.out(s, SMALL);
                            acts.push(Act::Send(o));
                        }
                    }
                }
            }
            self.p.threads.push(acts);
        }
        for _ in 0..1 + self.r.idx(4) {
            let port = self.any_port();
            let on = self.sess_on(port);
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..1 + self.r.idx(5) {
                let s = *self.r.pick(&on);
                let m = self.msg(s, SMALL);
                ops.push(Op::Send(m));
                self.answer(m, SMALL);
                for _ in 0..self.r.idx(3) {
                    if left > 0 {
                        left -= 1;
                        let a = self.reg_act(&mut v);
                        let at = self.r.idx(self.p.msgs[m as usize].acts.len() + 1);
                        self.p.msgs[m as usize].acts.insert(at, a);
                    }
                }
                self.pause(&mut ops);
                if self.r.pct(15) {
                    self.end(&mut ops, true);
                    ops.push(Op::Connect(port));
                }
            }
            self.p.clients.push(ClientPlan { ops });
        }
        self.slow_app(5);
    }
    fn c15(&mut self) {
        let n = 1 + self.r.idx(3);
        let p = 1 + self.r.idx(n.min(2));
        let f = if self.r.pct(15) { 60 } else { 0 };
        self.setup(n, p, f);
        for _ in 0..1 + self.r.idx(4) {
            let port = self.any_port();
            let on = self.sess_on(port);
            let mut ops = vec![Op::Connect(port)];
            for _ in 0..2 + self.r.idx(10) {
                let s = *self.r.pick(&on);
                self.pause(&mut ops);
                if self.r.pct(60) {
                    if let Some(i) = self.broken(s) {
                        ops.push(Op::Send(i));
                    }
                } else {
                    let m = self.msg(s, RICH);
                    ops.push(Op::Send(m));
                }
            }
            self.end(&mut ops, false);
            self.p.clients.push(ClientPlan { ops });
        }
    }
}

fn fields(v: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut a = 0;
    for i in 0..v.len() {
        if v[i] == 1 {
            out.push((a, i + 1));
            a = i + 1;
        }
    }
    if out.is_empty() {
        out.push((0, v.len()));
    }
    out
}
fn hms(t: &str) -> i64 {
    let v: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
    (v[0] * 3600 + v[1] * 60 + v[2]) * 1_000_000_000
}
fn days_from(y: i64, m: i64, d: i64) -> i64 {
    // search, so that `civil` stays the only calendar here
    let mut z = (y - 1970) * 365 + (y - 1969) / 4 + (m - 1) * 30 + d - 1;
    for _ in 0..400 {
        let c = civil(z);
        if c == (y, m, d) {
            return z;
        }
        z += if c < (y, m, d) { 1 } else { -1 };
    }
    z
}
/// Zones whose clocks change, and a few that never do.
pub fn zones() -> Vec<&'static str> {
    const Z: [&str; 16] = ["UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "Australia/Lord_Howe", "Asia/Tokyo",
        "America/Sao_Paulo", "Asia/Tehran", "Pacific/Auckland", "America/Los_Angeles", "Europe/Moscow", "Africa/Cairo", "Asia/Kathmandu",
        "Pacific/Apia", "America/St_Johns"];
    Z.iter().copied().filter(|z| z.parse::<chrono_tz::Tz>().is_ok()).collect()
}
/// An instant near `t` at which the zone's clocks change.
fn transition(tz: &str, t: i64, r: &mut Rng) -> Option<i64> {
    let h = 3_600_000_000_000i64;
    let from = t.div_euclid(h) * h;
    let mut all = vec![];
    let mut d = 0;
    while d < 400 * 24 {
        let (a, b) = (from + d * h, from + (d + 24) * h);
        if crate::oracle::offset_ns(tz, a) != crate::oracle::offset_ns(tz, b) {
            let (mut lo, mut hi) = (a, b);
            while hi - lo > 1_000_000_000 {
                let m = lo + (hi - lo) / 2;
                if crate::oracle::offset_ns(tz, m) == crate::oracle::offset_ns(tz, a) {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            all.push(hi);
        }
        d += 24;
    }
    if all.is_empty() {
        None
    } else {
        Some(*r.pick(&all))
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut b = B::new(prop, seed);
    match prop {
        "C01" => b.c01(),
        "C02" => b.c02(),
        "C03" => b.c03(),
        "C04" | "C05" => b.outbound(),
        "C06" => b.c06(),
        "C07" => b.c07(),
        "C08" => b.c08(),
        "C09" => b.c09(),
        "C10" => b.c10(),
        "C11" => b.c11(),
        "C12" => b.c12(),
        "C13" => b.c13(),
        "C14" => b.c14(),
        _ => b.c15(),
    }
    b.p
}

// ------------------------------------------------------------------ per-property facts
/// (runs, seconds) a check may take.
pub fn budget(_prop: &str, quick: bool) -> (u64, u64) {
    if quick {
        (20_000, 55)
    } else {
        (3_000_000, 780)
    }
}
pub fn nontrivial(prop: &str, o: &crate::run::Outcome) -> bool {
    let st = |k: &str| o.stats.get(k).copied().unwrap_or(0);
    match prop {
        "C13" => o.conns > 0 || st("file_missing") + st("file_eio") > 0,
        "C11" => st("schedule_evaluations") > 0,
        "C14" => st("registry_ops") > 0,
        "C04" | "C05" | "C06" | "C09" | "C12" => o.frames_out > 0,
        _ => o.deliveries > 0,
    }
}
pub fn rule(prop: &str) -> String {
    let (how, counts) = match prop {
        "C01" => ("1-5 peers on 1-3 ports send up to 10 valid messages each (1-4 sessions, 1-2 dictionaries, nested groups, awkward values), pipelined and segmented at random, while the application is slow now and then", "at least one message reached the application"),
        "C02" => ("peers send valid messages, messages with one damaged byte run (altered, deleted, inserted, length or checksum rewritten), and messages cut at a random offset followed by close, half-close, reset or resumption", "at least one message reached the application"),
        "C03" => ("honest peers share the ports with hostile ones (garbage, too few fields, strangers, absurd group counts, long fields, non-text, cut messages, resets); fresh probe peers must be served at the end", "at least one message reached the application"),
        "C04" => ("application threads and callbacks send bursts of 1-45 messages to 1-3 sessions whose peers stall, resume, are partitioned, close, reset and reconnect, with send buffers down to a few bytes", "at least one message reached a peer"),
        "C05" => ("as C04 with 2-5 sessions sharing ports, and peers that stay silent, name unknown sessions or send only damaged or ill-formed messages", "at least one message reached a peer"),
        "C06" => ("peers send windows of requests, wait for answers, leave and come back; per port at most 32 answers are outstanding between two rests of the whole system; 15 % of the runs drive the shipped main() and its own application", "at least one answer reached a peer"),
        "C07" => ("bursts of connection attempts at start-up and later while bind and accept fail for a while or until a fault phase ends (EADDRINUSE, ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM), with 1-4 worker threads; probes afterwards", "at least one message reached the application"),
        "C08" => ("peers connect, talk, fall silent, are cut mid-message and leave in every way (close, half-close, reset, with unread answers) up to 8 times each; descriptors and activity are checked whenever everything rests", "at least one message reached the application"),
        "C09" => ("callbacks build messages from random specifications through the public API (fields, nested groups, signed trailers, values rewritten, groups set again), optionally re-parse them, and send them; a third of the sessions use the large FIX43 dictionary; hash seeds differ from run to run", "at least one message reached a peer"),
        "C10" => ("700-1600 messages from 1-3 peers against an application stalled for 50 simulated minutes or slow throughout, or messages whose group counts claim up to billions of instances; memory and bytes read ahead are metered", "at least one message reached the application"),
        "C11" => ("2-5 random windows (daily or weekly, crossing midnight or the week, none; 16 zones) stated as session or default settings, through the builder or constructor, asked 20-80 times from a callback or thread while the wall clock jumps, mostly onto window edges (to the nanosecond) and around clock changes", "at least one schedule was evaluated; about fifty are per run"),
        "C12" => ("callbacks stamp messages 1-3 times, hold them and send them while the wall clock jumps by nanoseconds to decades, across leap days, month, year and day ends", "at least one stamped message reached a peer"),
        "C13" => ("start-up from generated configurations (1-4 sessions, inherited and own settings, two dictionaries) with reads shortened, interrupted, slowed, failing (EIO) at a random point or files missing; every session is then exercised", "a port was served, or a file fault made start-up fail"),
        "C14" => ("1-4 application threads and callbacks look up, insert, modify and list registry entries and send to sessions while connections come and go; a per-key atomicity check over the recorded calls", "at least one registry operation completed"),
        _ => ("valid messages and messages broken in one structural way each (twenty kinds, at any nesting depth, length and checksum correct) interleaved on several connections", "at least one message reached the application"),
    };
    format!("One seed is one run: {}. Scheduler policy, segmentation, delays, buffer sizes, preemption points inside allocations and hash seeds are drawn from the same seed. Non-trivial: {}. Distinct: the 64-bit trace hashes differ (every context switch, network and file event, wake-up, callback and peer step goes into it).", how, counts)
}
pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "Threads are interleaved at system calls (all the engine's futex, epoll, socket, file, clock and thread calls) and at allocations, not at every instruction; weak memory orderings are not explored.",
        "The simulated kernel (TCP over loopback, epoll edge semantics, futex, files) behaves like Linux where the engine can tell.",
        "Seeded search: absence of a violation in the runs made, not a proof.",
    ];
    match prop {
        "C01" | "C15" => v.push("Values are UTF-8 text without SOH; data-type fields containing SOH are out of scope."),
        "C02" => v.push("Damage that leaves BodyLength and CheckSum consistent is not damage the protocol can detect and is not generated."),
        "C04" | "C05" | "C06" => v.push("A connection that is more than 32 messages behind (the engine's queue per port) is closed for writing; what it then misses is not counted as lost."),
        "C07" | "C08" | "C10" => v.push("Within a bounded number of steps means: before the whole system comes to rest, in runs capped at 4 million scheduling steps."),
        "C09" => v.push("The application states the member order of group instances with more than two members (set_field_order); delimiter first needs no statement."),
        "C14" => v.push("A listing of all sessions must show each session with a value it held at some point during the listing; it need not be one instant for all."),
        _ => {}
    }
    v.into_iter().map(|s| s.to_string()).collect()
}
