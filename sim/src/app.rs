//! The recording application: it uses the engine only through its public API, records
//! every callback and call, and compares each delivery with what the peer sent.
use crate::kernel::*;
use crate::klog;
use crate::oracle::{same_zone_window, short};
use crate::plan::*;
use crate::world::*;
use fix_rs::sim_hooks::*;
use std::sync::Arc;

pub struct SimApp;

/// Counts a thread or callback as being inside application code until dropped.
struct Busy {
    callback: bool,
    what: &'static str,
}
impl Busy {
    fn new(callback: bool) -> Busy {
        if callback {
            with_k(|k| {
                k.w.app_busy += 1;
                k.w.in_callback += 1;
            });
        }
        Busy { callback, what: "" }
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        let panicking = std::thread::panicking();
        with_k(|k| {
            k.w.app_busy -= 1;
            if self.callback {
                k.w.in_callback -= 1;
            }
            if panicking {
                let d = format!("{} panicked inside the engine's API: {:?}", if self.callback { "callback" } else { "application thread" }, k.w.panics.last());
                let p = k.plan.prop.clone();
                let mut v = vec!["C14"];
                if ["C03", "C05", "C06", "C09", "C11", "C12"].contains(&p.as_str()) {
                    v.push(&p);
                }
                let _ = self.what;
                k.w.viol(&v, "call-panicked", d);
            }
        });
    }
}

pub fn sid_of(s: &Sess) -> SessionId {
    let mut b = SessionIdBuilder::default();
    b.begin_string(s.begin.as_str()).sender_compid(s.sender.as_str()).target_compid(s.target.as_str());
    if let Some(x) = &s.sender_sub {
        b.sender_subid(x.as_str());
    }
    if let Some(x) = &s.sender_loc {
        b.sender_locationid(x.as_str());
    }
    if let Some(x) = &s.target_sub {
        b.target_subid(x.as_str());
    }
    if let Some(x) = &s.target_loc {
        b.target_locationid(x.as_str());
    }
    b.build().unwrap()
}
fn sid_parts(s: &SessionId) -> (String, String, String, String, String, String, String) {
    let o = |x: &Option<String>| x.clone().unwrap_or_default();
    (s.begin_string().clone(), s.sender_compid().clone(), o(s.sender_subid()), o(s.sender_locationid()),
        s.target_compid().clone(), o(s.target_subid()), o(s.target_locationid()))
}
fn sess_parts(s: &Sess) -> (String, String, String, String, String, String, String) {
    let o = |x: &Option<String>| x.clone().unwrap_or_default();
    (s.begin.clone(), s.sender.clone(), o(&s.sender_sub), o(&s.sender_loc), s.target.clone(), o(&s.target_sub), o(&s.target_loc))
}

// ------------------------------------------------------------------ comparing content
fn diff_items(m: &FieldMap, want: &[Item]) -> Option<String> {
    for i in want {
        match m.get_field::<String>(i.tag) {
            Ok(v) if v == i.val => {}
            other => return Some(format!("field {} is {:?}, was sent as {:?}", i.tag, other, i.val)),
        }
        match (&i.grp, m.get_group(i.tag)) {
            (None, None) => {}
            (None, Some(_)) => return Some(format!("field {} became a group", i.tag)),
            (Some(g), None) => {
                if !g.inst.is_empty() {
                    return Some(format!("group {} is missing", i.tag));
                }
            }
            (Some(g), Some(h)) => {
                if h.size() as usize != g.inst.len() {
                    return Some(format!("group {} has {} instances, was sent with {}", i.tag, h.size(), g.inst.len()));
                }
                for (n, inst) in g.inst.iter().enumerate() {
                    if let Some(d) = diff_items(&h[n], inst) {
                        return Some(format!("group {} instance {}: {}", i.tag, n, d));
                    }
                }
            }
        }
    }
    let mut have: Vec<(u32, String)> = m.iter().into_iter().map(|f| (f.tag(), f.value().clone())).collect();
    let mut exp = vec![];
    crate::dict::flat(want, &mut exp);
    have.sort();
    exp.sort();
    if have != exp {
        return Some(format!("fields {:?}, was sent as {:?}", have, exp));
    }
    None
}
fn raw_value(wire: &[u8], tag: &str) -> String {
    for f in wire.split(|b| *b == 1) {
        if let Ok(s) = std::str::from_utf8(f) {
            if let Some(v) = s.strip_prefix(tag) {
                if let Some(v) = v.strip_prefix('=') {
                    return v.to_string();
                }
            }
        }
    }
    String::new()
}
fn diff_message(m: &Message, spec: &MSpec, wire: &[u8]) -> Option<String> {
    let it = |tag: u32, v: &str| Item { tag, val: v.to_string(), grp: None };
    let mut h = vec![it(8, &spec.begin), it(9, &raw_value(wire, "9")), it(35, &spec.mtype)];
    h.extend(spec.header.iter().cloned());
    let mut t = spec.trailer.clone();
    let n = wire.len();
    t.push(it(10, std::str::from_utf8(&wire[n - 4..n - 1]).unwrap_or("")));
    if let Some(d) = diff_items(m.header(), &h) {
        return Some(format!("header: {}", d));
    }
    if let Some(d) = diff_items(m.body(), &spec.body) {
        return Some(format!("body: {}", d));
    }
    diff_items(m.trailer(), &t).map(|d| format!("trailer: {}", d))
}

// ------------------------------------------------------------------ recording a delivery
fn damage_in(p: &Plan) -> bool {
    p.msgs.iter().any(|m| m.expect == Expect::Drop) || p.clients.iter().any(|c| c.ops.iter().any(|o| matches!(o, Op::Cut(..) | Op::Raw(_) | Op::Reset)))
}
impl Kernel {
    fn deliver(&mut self, sid: &SessionId, msg: &Message) -> Option<u32> {
        self.w.progress = self.step;
        self.w.callbacks += 1;
        let stamp = self.w.stamp();
        let seq = msg.header().get_field::<u32>(34).ok();
        let idx = seq.and_then(|s| s.checked_sub(SEQ0)).filter(|i| (*i as usize) < self.plan.msgs.len());
        self.h(40, idx.map_or(u64::MAX, |i| i as u64));
        klog!(self, "from_app {} seq {:?}", sid, seq);
        if seq == Some(crate::profiles::ANY_SEQ) {
            return None;
        }
        let mut base = vec!["C01"];
        if damage_in(&self.plan) {
            base.push("C02");
        }
        if self.plan.prop == "C15" {
            base.push("C15");
        }
        let base = &base[..];
        let i = match idx {
            Some(i) => i,
            None => {
                let d = format!("a message no peer sent was delivered to session {} (seq {:?}): {}", sid, seq, short(msg.to_string().as_bytes()));
                self.w.viol(base, "unknown-delivered", d);
                self.w.deliveries.push(Delivery { msg: None, conn: None, stamp });
                return None;
            }
        };
        let conn = self.w.msg_conn.get(&i).copied();
        let mp = self.plan.msgs[i as usize].clone();
        let first = !self.w.deliveries.iter().any(|d| d.msg == Some(i));
        self.w.deliveries.push(Delivery { msg: Some(i), conn, stamp });
        if mp.expect == Expect::Drop {
            let p: Vec<&str> = if mp.kind.starts_with("struct") {
                vec!["C15"]
            } else if mp.kind.starts_with("unknown") {
                vec!["C01", "C13"]
            } else {
                vec!["C02"]
            };
            let d = format!("msg {} ({}) must not be delivered but was, to session {}: {}", i, mp.kind, sid, short(&mp.wire.0));
            self.w.viol(&p, "bad-message-delivered", d);
            return None;
        }
        let c = match conn {
            Some(c) => c,
            None => {
                let d = format!("msg {} was delivered to session {} although it was never sent whole: {}", i, sid, short(&mp.wire.0));
                self.w.viol(&["C02"], "torn-delivered", d);
                return None;
            }
        };
        if !first {
            let d = format!("msg {} was delivered twice", i);
            self.w.viol(&["C01"], "duplicate", d);
            return None;
        }
        let pos = self.w.conns[c].marks.iter().position(|m| m.1 == i).unwrap_or(0);
        if let Some(&l) = self.w.last_pos.get(&c) {
            if pos < l {
                let d = format!("msg {} (number {} on conn {}) was delivered after number {}", i, pos, c, l);
                self.w.viol(&["C01"], "out-of-order-inbound", d);
            }
        }
        self.w.last_pos.insert(c, pos);
        if let Some(s) = mp.sess {
            let s = &self.plan.sessions[s as usize];
            if sid_parts(sid) != sess_parts(s) {
                let d = format!("msg {} for session {:?} was delivered to session {}", i, sess_parts(s), sid);
                self.w.viol(&["C01", "C13"], "wrong-session", d);
                return None;
            }
        }
        if let Some(spec) = &mp.spec {
            if let Some(df) = diff_message(msg, spec, &mp.wire.0) {
                let d = format!("msg {} was delivered altered: {}; sent: {}", i, df, short(&mp.wire.0));
                let mut b = base.to_vec();
                if self.plan.prop == "C13" {
                    b.push("C13");
                }
                self.w.viol(&b, "content-altered", d);
            }
        }
        Some(i)
    }
}

// ------------------------------------------------------------------ acting
fn sleep_us(us: u64) {
    std::thread::sleep(std::time::Duration::from_micros(us));
}
fn fill(m: &mut FieldMap, items: &[Item]) {
    for i in items {
        match &i.grp {
            None => m.set_field(StringField::new(i.tag, &i.val)),
            Some(g) => {
                let h = m.set_group(i.tag, g.inst.len() as u32, g.delim);
                for (n, inst) in g.inst.iter().enumerate() {
                    // the engine puts the delimiter first by itself; the order of further
                    // members is the application's to state
                    if inst.len() > 2 {
                        h[n].set_field_order(&inst.iter().map(|x| x.tag).collect::<Vec<_>>());
                    }
                    fill(&mut h[n], inst);
                }
            }
        }
    }
}
/// An earlier version of the same fields, to be replaced by the real ones.
fn draft(m: &mut FieldMap, items: &[Item]) {
    for i in items {
        match &i.grp {
            None => m.set_field(StringField::new(i.tag, "draft")),
            Some(g) => {
                let n = (g.inst.len() + i.tag as usize) % 4;
                let h = m.set_group(i.tag, n as u32, g.delim);
                for x in 0..n {
                    h[x].set_field(StringField::new(g.delim, "draft"));
                }
            }
        }
    }
}
pub fn build(spec: &MSpec, redo: bool) -> Message {
    let mut m = Message::new();
    if redo {
        draft(m.header_mut(), &spec.header);
        draft(m.body_mut(), &spec.body);
        draft(m.trailer_mut(), &spec.trailer);
        m.set_sending_time();
        m.set_body_len();
        m.set_checksum();
    }
    m.header_mut().set_field(StringField::new(8, &spec.begin));
    m.header_mut().set_field(StringField::new(35, &spec.mtype));
    fill(m.header_mut(), &spec.header);
    fill(m.body_mut(), &spec.body);
    fill(m.trailer_mut(), &spec.trailer);
    m
}
fn do_send(m: Message, sess: u32, sid: &SessionId, sessions: &SessionMap, from_msg: Option<u32>, out: Option<u32>, stamps: Vec<i64>, spec: Option<MSpec>) {
    let text = m.to_string();
    let id = with_k(|k| {
        let start = k.w.stamp();
        k.w.progress = k.step;
        k.h(41, sess as u64);
        klog!(k, "application sends to session {}: {}", sess, short(text.as_bytes()));
        let tid = k.cur;
        k.w.sends.push(SendRec { sess, bytes: text.as_bytes().to_vec(), tid, start, end: 0, epoch: k.w.epoch, from_msg, out, stamps, spec });
        k.stats.inc("sends");
        k.w.sends.len() - 1
    });
    drop(text);
    Session::sync_send_to_target(sid, sessions, m);
    with_k(|k| {
        let end = k.w.stamp();
        k.w.sends[id].end = end;
        klog!(k, "send {} returned", id);
    });
}
fn send_out(o: u32, sessions: &SessionMap, from_msg: Option<u32>) {
    let (out, sess) = with_k(|k| {
        let o = k.plan.outs[o as usize].clone();
        let s = k.plan.sessions[o.sess as usize].clone();
        (o, s)
    });
    let sid = sid_of(&sess);
    let mut m = build(&out.spec, out.redo);
    let mut stamps = vec![];
    for n in 0..out.stamps {
        let from = with_k(|k| k.w.wall_log.len());
        m.set_sending_time();
        stamps = with_k(|k| {
            let me = k.cur;
            k.w.wall_log[from..].iter().filter(|x| x.0 == me).map(|x| x.1).collect()
        });
        if n + 1 < out.stamps {
            m.set_body_len();
            m.set_checksum();
            sleep_us(out.hold_us / 2 + 1);
        }
    }
    m.set_body_len();
    m.set_checksum();
    if out.hold_us > 0 {
        sleep_us(out.hold_us);
    }
    if out.reparse {
        let dd = sessions.get_session(&sid).map(|s| Arc::clone(s.data_dictionary()));
        if let Some(dd) = dd {
            let text = m.to_string();
            match Message::from_str(&text, &dd) {
                Ok(x) => m = x,
                Err(e) => with_k(|k| {
                    let d = format!("the engine rejects its own message ({:?}): {}", e, short(text.as_bytes()));
                    k.w.viol(&["C09"], "own-message-rejected", d);
                }),
            }
        }
    }
    do_send(m, out.sess, &sid, sessions, from_msg, Some(o), stamps, Some(out.spec));
}

fn reg_sid(k: u32) -> SessionId {
    if k >= REAL_KEY {
        return sid_of(&with_k(|kk| kk.plan.sessions[(k - REAL_KEY) as usize].clone()));
    }
    SessionIdBuilder::new("FIX.4.4".to_string(), format!("REG{}", k), "X".to_string()).build().unwrap()
}
fn reg_val(v: u32) -> Session {
    let mut s = Session::default();
    s.session_id = SessionIdBuilder::new("FIX.4.4".to_string(), "VAL".to_string(), v.to_string()).build().unwrap();
    s
}
fn reg_num(s: &SessionId) -> u32 {
    s.target_compid().parse().unwrap_or(u32::MAX)
}
fn reg_begin() -> u64 {
    with_k(|k| {
        k.w.progress = k.step;
        k.w.stamp()
    })
}
fn reg_done(key: u32, kind: u8, arg: u32, res: Option<u32>, start: u64) {
    with_k(|k| {
        let end = k.w.stamp();
        k.stats.inc("registry_ops");
        k.w.regs.push(RegRec { key, kind, arg, res, start, end });
    });
}
fn real_bad(key: u32, what: &str, got: String) {
    with_k(|k| {
        let d = format!("{} of configured session {} gave {}", what, key - REAL_KEY, got);
        k.w.viol(&["C14"], "session-lost", d);
    });
}
fn reg(op: &RegOp, sessions: &SessionMap) {
    match op {
        RegOp::Get(key) => {
            let id = reg_sid(*key);
            let t = reg_begin();
            let r = sessions.get_session(&id).map(|s| s.session_id.clone());
            if *key >= REAL_KEY {
                if r.as_ref() != Some(&id) {
                    real_bad(*key, "looking up", format!("{:?}", r));
                }
                reg_done(*key, 9, 0, None, t);
            } else {
                reg_done(*key, 0, 0, r.map(|r| reg_num(&r)), t);
            }
        }
        RegOp::Insert(key, v) => {
            let id = reg_sid(*key);
            let val = reg_val(*v);
            let t = reg_begin();
            sessions.insert_session(id, val);
            reg_done(*key, 1, *v, None, t);
        }
        RegOp::Modify(key, v) => {
            let id = reg_sid(*key);
            let val = reg_val(*v).session_id;
            let t = reg_begin();
            if *key >= REAL_KEY {
                let mut old = None;
                sessions.entry(&id).and_modify(|s| old = Some(s.session_id.clone()));
                if old.as_ref() != Some(&id) {
                    real_bad(*key, "modifying", format!("{:?}", old));
                }
                reg_done(*key, 9, 0, None, t);
            } else {
                let mut old = None;
                sessions.entry(&id).and_modify(|s| old = Some(reg_num(&std::mem::replace(&mut s.session_id, val))));
                reg_done(*key, 2, *v, old, t);
            }
        }
        RegOp::List => {
            let t = reg_begin();
            let m = sessions.key_values_map();
            let n = with_k(|k| k.plan.sessions.len());
            for i in 0..n as u32 {
                let id = reg_sid(REAL_KEY + i);
                match m.get(&id) {
                    Some(s) if s.session_id == id => {}
                    x => real_bad(REAL_KEY + i, "listing", format!("{:?}", x.map(|s| s.session_id.clone()))),
                }
            }
            for key in 0..REG_KEYS {
                let r = m.get(&reg_sid(key)).map(|s| reg_num(&s.session_id));
                reg_done(key, 0, 0, r, t);
            }
        }
    }
}

fn sched_check(wi: u32, sessions: &SessionMap) {
    let _ = sessions;
    let w = with_k(|k| k.plan.windows[wi as usize].clone());
    // the window as settings text, as a deployment states it
    let (mut default, mut session) = (String::new(), String::new());
    let named = [("default_timezone", Some(&w.tz).filter(|t| !t.is_empty())), ("start_time", w.start.as_ref()), ("end_time", w.end.as_ref()),
        ("start_day", w.start_day.as_ref()), ("end_day", w.end_day.as_ref())];
    for (i, (n, v)) in named.iter().enumerate() {
        if let Some(v) = v {
            let own = match w.via {
                0 => true,
                1 => false,
                _ => (w.via as usize + i) % 2 == 0,
            };
            let decoy = [("default_timezone", "Asia/Tokyo"), ("start_time", "03:04:05"), ("end_time", "16:17:18"), ("start_day", "Tue"), ("end_day", "Thu")][i].1;
            if own {
                session.push_str(&format!("{} = \"{}\"\n", n, v));
                if w.via == 2 {
                    default.push_str(&format!("{} = \"{}\"\n", n, decoy));
                }
            } else {
                default.push_str(&format!("{} = \"{}\"\n", n, v));
            }
        }
    }
    let cfg = format!("[Default]\nconnection_type = \"acceptor\"\n{}[Session]\nbegin_string = FIX.4.3\nsender_comp_id = S\ntarget_comp_id = T\nsocket_accept_port = 9\n{}", default, session);
    let from = with_k(|k| {
        k.w.progress = k.step;
        k.w.wall_log.len()
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let tz = if w.tz.is_empty() { chrono_tz::UTC } else { w.tz.parse::<chrono_tz::Tz>().unwrap() };
        let time = |t: &Option<String>| t.as_ref().map(|t| t.parse::<chrono::NaiveTime>().unwrap());
        let wday = |d: &Option<String>| d.as_ref().map(|d| d.parse::<chrono::Weekday>().unwrap());
        let (st, en) = (time(&w.start), time(&w.end));
        let s = match (w.via, st, en) {
            (3, Some(st), Some(en)) => {
                let mut b = SessionScheduleBuilder::default();
                b.start_time(st).end_time(en).time_zone(tz);
                if let (Some(a), Some(z)) = (wday(&w.start_day), wday(&w.end_day)) {
                    b.start_day(a).end_day(z);
                }
                b.build().unwrap()
            }
            (4, _, _) => SessionSchedule::new(st.unwrap_or_default(), wday(&w.start_day), en.unwrap_or_default(), wday(&w.end_day), tz, st.is_none()),
            (5, Some(st), Some(en)) if w.start_day.is_none() && st <= en => {
                let f = || is_current_time_between(tz, w.start.as_ref().unwrap(), w.end.as_ref().unwrap());
                return (f(), f());
            }
            _ => {
                let p = Properties::from_str(&cfg);
                let ids: Vec<SessionId> = p.session_ids().into_iter().cloned().collect();
                SessionSchedule::create_schedule(&ids[0], &p)
            }
        };
        let a = s.is_session_time();
        let b = s.is_session_time();
        (a, b)
    }));
    with_k(|k| {
        k.w.sched_evals += 1;
        k.stats.inc("schedule_evaluations");
        let me = k.cur;
        let mut read: Vec<i64> = k.w.wall_log[from..].iter().filter(|x| x.0 == me).map(|x| x.1).collect();
        if read.is_empty() {
            read.push(k.wall());
        }
        klog!(k, "schedule {:?} at {:?} gives {:?}", w, read.iter().map(|r| crate::oracle::fmt_utc(*r)).collect::<Vec<_>>(), r.as_ref().ok());
        match r {
            Err(_) => {
                let d = format!("schedule {:?} failed at {:?}: {:?}", w, read.iter().map(|r| crate::oracle::fmt_utc(*r)).collect::<Vec<_>>(), k.w.panics.last());
                k.w.viol(&["C11"], "schedule-panicked", d);
            }
            Ok((a, b)) => {
                let ok: Vec<bool> = read.iter().map(|t| same_zone_window(&w, *t)).collect();
                if ok.iter().any(|o| *o) {
                    k.stats.inc("schedule_open");
                }
                for x in [a, b] {
                    if !ok.contains(&x) {
                        let d = format!("schedule {:?} reports {} at {:?} UTC", w, if x { "open" } else { "closed" }, read.iter().map(|r| crate::oracle::fmt_utc(*r)).collect::<Vec<_>>());
                        k.w.viol(&["C11"], "wrong-window", d);
                    }
                }
            }
        }
    });
}

fn run_acts(acts: &[Act], sessions: &SessionMap, cur: Option<(u32, Message)>) {
    let mut cur = cur;
    for a in acts {
        with_k(|k| k.w.progress = k.step);
        match a {
            Act::Send(o) => send_out(*o, sessions, cur.as_ref().map(|c| c.0)),
            Act::Echo => {
                if let Some((i, m)) = cur.take() {
                    let (s, sess, spec) = with_k(|k| {
                        let s = k.plan.msgs[i as usize].sess.unwrap();
                        (s, k.plan.sessions[s as usize].clone(), k.plan.msgs[i as usize].spec.clone())
                    });
                    let mut m = m;
                    m.set_body_len();
                    m.set_checksum();
                    do_send(m, s, &sid_of(&sess), sessions, Some(i), None, vec![], spec);
                    cur = Some((i, Message::new()));
                }
            }
            Act::Sleep(us) => sleep_us(*us),
            Act::Reg(op) => reg(op, sessions),
            Act::Yield => std::thread::yield_now(),
            Act::SchedCheck(w) => sched_check(*w, sessions),
        }
    }
}

fn start_threads(sessions: &SessionMap) {
    let plans = with_k(|k| {
        if k.w.threads_started {
            return vec![];
        }
        k.w.threads_started = true;
        k.w.app_busy += k.plan.threads.len();
        k.plan.threads.clone()
    });
    for acts in plans {
        let sessions = sessions.clone();
        std::thread::Builder::new()
            .name("app".into())
            .spawn(move || {
                let _b = Busy::new(false);
                run_acts(&acts, &sessions, None);
            })
            .unwrap();
    }
}

impl Application for SimApp {
    fn to_app(_msg: String) {}
    fn from_app(&self, session_id: &SessionId, sessions: &SessionMap, msg: Message) {
        let _b = Busy::new(true);
        start_threads(sessions);
        let got = with_k(|k| {
            let i = k.deliver(session_id, &msg)?;
            Some((i, k.plan.msgs[i as usize].acts.clone()))
        });
        if let Some((i, acts)) = got {
            run_acts(&acts, sessions, Some((i, msg)));
            // only now is the application done with it
            with_k(|k| k.w.delivered_bytes += k.plan.msgs[i as usize].wire.0.len() as u64);
        }
        with_k(|k| k.w.progress = k.step);
    }
}
