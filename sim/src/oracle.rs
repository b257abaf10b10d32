//! Judging the recorded history.
use crate::dict;
use crate::kernel::*;
use crate::plan::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn short(b: &[u8]) -> String {
    let s = esc(b);
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

impl Kernel {
    fn with_prop<'a>(&'a self, base: &'a str, extra: &[&str]) -> Vec<&'a str> {
        let mut v = vec![base];
        if extra.contains(&self.plan.prop.as_str()) {
            v.push(&self.plan.prop);
        }
        v
    }

    /// Messages the engine received whole and undamaged on this connection and that
    /// nothing in front of them can have swallowed.
    fn must(&self, x: usize) -> Vec<u32> {
        let cn = &self.w.conns[x];
        if cn.cl_reset_sent || self.w.aborted.contains(&x) {
            return vec![];
        }
        let mut out = vec![];
        for (a, b) in dict::frames(&cn.sent).0 {
            if let Some(m) = cn.marks.iter().find(|m| m.0 == b) {
                let p = &self.plan.msgs[m.1 as usize];
                if p.expect == Expect::Deliver && p.wire.0 == cn.sent[a..b] {
                    out.push(m.1);
                }
            }
        }
        out
    }

    /// Split what the peer received into the messages that were sent.
    pub fn matched(&self, x: usize) -> (Vec<(usize, usize)>, usize) {
        let by: HashMap<&[u8], usize> = self.w.sends.iter().enumerate().map(|(i, s)| (&s.bytes[..], i)).collect();
        let r = &self.w.conns[x].recv;
        let mut p = 0;
        let mut out = vec![];
        'o: while p < r.len() {
            let (f, _) = dict::frames(&r[p..]);
            if let Some((_, e)) = f.first() {
                if let Some(i) = by.get(&r[p..p + e]) {
                    p += e;
                    out.push((*i, p));
                    continue;
                }
            }
            for (i, s) in self.w.sends.iter().enumerate() {
                if !s.bytes.is_empty() && r[p..].starts_with(&s.bytes) {
                    p += s.bytes.len();
                    out.push((i, p));
                    continue 'o;
                }
            }
            break;
        }
        (out, p)
    }

    /// Called when everything is at rest: a reply made in a callback must have reached
    /// the (open, reading) connection its request came from.
    pub fn check_replies(&mut self, x: usize) {
        let cn = &self.w.conns[x];
        if self.plan.mode == "main" {
            return self.check_main_replies(x);
        }
        if cn.cl_closed || cn.cl_shut || cn.stalled || self.w.in_callback > 0 {
            return;
        }
        if self.overrun(x) {
            return;
        }
        let (got, _) = self.matched(x);
        let got: BTreeSet<usize> = got.into_iter().map(|g| g.0).collect();
        let msgs: Vec<u32> = self.w.deliveries.iter().filter(|d| d.conn == Some(x)).filter_map(|d| d.msg).collect();
        let props: Vec<String> = self.with_prop("C06", &["C03", "C07", "C13", "C14"]).iter().map(|s| s.to_string()).collect();
        let props: Vec<&str> = props.iter().map(|s| s.as_str()).collect();
        for m in msgs {
            if !self.w.reply_checks.insert((x, m)) {
                continue;
            }
            let mp = self.plan.msgs[m as usize].clone();
            for a in &mp.acts {
                let out = match a {
                    Act::Send(o) if Some(self.plan.outs[*o as usize].sess) == mp.sess => Some(*o),
                    Act::Echo => None,
                    _ => continue,
                };
                let rec = self.w.sends.iter().position(|s| s.from_msg == Some(m) && s.out == out);
                match rec {
                    Some(i) if self.w.sends[i].end > 0 => {
                        if !got.contains(&i) {
                            let d = format!("msg {} on conn {} was answered, but the answer {} never reached the peer (fin seen: {}, rst seen: {}); panics: {:?}",
                                m, x, short(&self.w.sends[i].bytes), self.w.conns[x].saw_fin, self.w.conns[x].saw_rst, self.w.panics);
                            self.w.viol(&props, "reply-missing", d);
                        }
                    }
                    _ => {
                        let d = format!("answering msg {} did not succeed (send {}); panics: {:?}", m, if rec.is_some() { "never returned" } else { "never began" }, self.w.panics);
                        self.w.viol(&props, "reply-failed", d);
                    }
                }
            }
        }
    }
    /// The connection was closed for writing and may have fallen behind by more messages
    /// than the engine's queue holds (some workloads overrun it on purpose; others do when
    /// peers that gave up waiting leave their requests in a backlog).
    fn overrun(&self, x: usize) -> bool {
        let cn = &self.w.conns[x];
        if !cn.saw_fin {
            return false;
        }
        if self.plan.mode == "main" {
            return self.w.conns.iter().filter(|c| c.port == cn.port).map(|c| c.marks.len()).sum::<usize>() >= 32;
        }
        let mut per: BTreeMap<u32, u32> = BTreeMap::new();
        for s in self.w.sends.iter().filter(|s| self.plan.sessions[s.sess as usize].port == cn.port) {
            let e = if matches!(self.plan.prop.as_str(), "C04" | "C05") { 0 } else { s.epoch };
            *per.entry(e).or_default() += 1;
        }
        per.values().any(|n| *n >= 32)
    }
    /// The shipped application answers every message with one Logon.
    fn check_main_replies(&mut self, x: usize) {
        let cn = &self.w.conns[x];
        if cn.cl_closed || cn.cl_shut || cn.stalled || !cn.accepted || self.overrun(x) || !self.w.reply_checks.insert((x, 0)) {
            return;
        }
        let want = self.must(x).len();
        let got = dict::frames(&cn.recv).0.len();
        if got < want {
            let props: Vec<String> = self.with_prop("C06", &["C03", "C07", "C13"]).iter().map(|s| s.to_string()).collect();
            let props: Vec<&str> = props.iter().map(|s| s.as_str()).collect();
            let d = format!("conn {} sent {} messages but got {} replies; panics: {:?}", x, want, got, self.w.panics);
            self.w.viol(&props, "reply-missing", d);
        }
    }
    /// At rest, an open and reading connection holds whole messages only.
    pub fn check_tail(&mut self, x: usize) {
        let cn = &self.w.conns[x];
        if self.plan.mode == "main" || cn.stalled || cn.saw_fin || cn.saw_rst || cn.cl_shut {
            return;
        }
        let (_, p) = self.matched(x);
        let cn = &self.w.conns[x];
        if p < cn.recv.len() {
            let d = format!("conn {}: {} bytes at the end of the stream are no whole message sent: {}", x, cn.recv.len() - p, short(&cn.recv[p..]));
            self.w.viol(&["C04"], "partial-message", d);
        }
    }

    pub fn judge(&mut self) {
        if self.w.eio || self.stats.get("file_missing") > 0 {
            if !self.w.ports_open.is_empty() {
                let d = format!("a file could not be read completely, yet ports {:?} were opened", self.w.ports_open.keys().collect::<Vec<_>>());
                self.w.viol(&["C13"], "partial-start", d);
            }
            return;
        }
        if self.w.startup_failed {
            let d = format!("start-up failed although every file could be read: {:?}", self.w.panics);
            let p = self.plan.prop.clone();
            self.w.viol(&["C13", &p], "startup-failed", d);
            return;
        }
        self.judge_inbound();
        if self.plan.mode != "main" {
            for x in 0..self.w.conns.len() {
                self.judge_outbound(x);
            }
            self.judge_sends();
            self.judge_registry();
        }
        if self.w.backlog_resets > 0 {
            let d = format!("{} established connections were reset because their listener was closed", self.w.backlog_resets);
            self.w.viol(&["C07"], "backlog-reset", d);
        }
        if self.w.app_busy > 0 {
            let d = format!("{} application threads or callbacks are still inside a call; panics: {:?}", self.w.app_busy, self.w.panics);
            let p: Vec<String> = self.with_prop("C14", &["C03", "C06", "C10", "C11"]).iter().map(|s| s.to_string()).collect();
            let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            self.w.viol(&p, "call-never-returned", d);
        }
        self.judge_ports();
        self.judge_load();
    }

    fn judge_ports(&mut self) {
        let want: BTreeSet<u16> = self.plan.sessions.iter().map(|s| s.port).collect();
        let got: BTreeSet<u16> = self.w.ports_open.keys().copied().collect();
        if !got.is_subset(&want) {
            let d = format!("configured ports {:?}, opened {:?}", want, got);
            self.w.viol(&["C13"], "wrong-ports", d);
        }
        if self.plan.prop == "C13" && want != got {
            let d = format!("configured ports {:?}, opened {:?}", want, got);
            self.w.viol(&["C13"], "port-missing", d);
        }
    }

    fn judge_inbound(&mut self) {
        let seen: BTreeSet<u32> = self.w.deliveries.iter().filter_map(|d| d.msg).collect();
        if self.plan.mode == "main" {
            return;
        }
        for x in 0..self.w.conns.len() {
            for m in self.must(x) {
                if !seen.contains(&m) {
                    let cn = &self.w.conns[x];
                    let d = format!("msg {} on conn {} (engine read {} of {} bytes sent, socket {}) was never delivered; {} of {} delivered; panics: {:?}",
                        m, x, cn.read_bytes, cn.sent.len(), if cn.fd >= 0 { "open" } else { "closed" }, seen.len(), self.w.msg_conn.len(), self.w.panics);
                    let p: Vec<String> = self.with_prop("C01", &["C03", "C07", "C10", "C13", "C15"]).iter().map(|s| s.to_string()).collect();
                    let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
                    self.w.viol(&p, "message-lost", d);
                }
            }
        }
    }

    fn judge_outbound(&mut self, x: usize) {
        let (got, p) = self.matched(x);
        self.w.frames_seen += got.len() as u64;
        let recv = self.w.conns[x].recv.clone();
        if p < recv.len() {
            // only the beginning of one sent message may remain
            let rest = &recv[p..];
            if !self.w.sends.iter().any(|s| s.bytes.starts_with(rest)) {
                let d = format!("conn {} received bytes that are no message sent: {}", x, short(rest));
                self.w.viol(&["C04"], "garbled", d);
            } else if let Some(i) = self.w.sends.iter().position(|s| s.bytes.starts_with(rest)) {
                // the cut tail must belong to this peer too, unless it fits several
                let fits: Vec<usize> = (0..self.w.sends.len()).filter(|&j| self.w.sends[j].bytes.starts_with(rest)).collect();
                let _ = i;
                if fits.iter().all(|&j| !self.identified(x, self.w.sends[j].sess, u64::MAX)) {
                    let d = format!("conn {} received part of a message for another session: {}", x, short(rest));
                    self.w.viol(&["C05"], "foreign-message", d);
                }
            }
        }
        let mut seen = BTreeSet::new();
        let mut last: BTreeMap<(usize, u32), (u64, usize)> = BTreeMap::new();
        for (k, &(i, endpos)) in got.iter().enumerate() {
            if !seen.insert(i) {
                let d = format!("conn {} received the same message twice: {}", x, short(&self.w.sends[i].bytes));
                self.w.viol(&["C04"], "duplicate-outbound", d);
                continue;
            }
            let s = &self.w.sends[i];
            if let Some(&(t, j)) = last.get(&(s.tid, s.sess)) {
                if s.start < t {
                    let d = format!("conn {} received {} after {}, but the same thread sent it before", x, short(&s.bytes), short(&self.w.sends[j].bytes));
                    self.w.viol(&["C04"], "out-of-order", d);
                }
            }
            let s = &self.w.sends[i];
            last.insert((s.tid, s.sess), (s.start, i));
            let at = self.w.conns[x].recv_at.iter().find(|r| r.0 >= endpos).map_or(u64::MAX, |r| r.1);
            let sess = s.sess;
            if !self.identified(x, sess, at) {
                let d = format!("conn {} received message {} of session {}, which had not identified itself there: {}", x, k, sess, short(&self.w.sends[i].bytes));
                self.w.viol(&["C05"], "foreign-message", d);
            }
        }
        // gaps: a sent strictly between two received ones must have been received
        let mut by: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
        for i in &seen {
            by.entry(self.w.sends[*i].sess).or_default().push(*i);
        }
        for (sess, v) in by {
            let first_end = v.iter().map(|&i| self.w.sends[i].end).filter(|e| *e > 0).min().unwrap_or(u64::MAX);
            let last_start = v.iter().map(|&i| self.w.sends[i].start).max().unwrap_or(0);
            let cn = &self.w.conns[x];
            let closed = cn.cl_closed && !cn.open_at_quiesce;
            for i in 0..self.w.sends.len() {
                let s = &self.w.sends[i];
                if s.sess != sess || seen.contains(&i) || s.end == 0 || s.start <= first_end {
                    continue;
                }
                if s.end < last_start {
                    let d = format!("conn {} missed {} although it received messages sent before and after it", x, short(&s.bytes));
                    self.w.viol(&["C04"], "gap", d);
                } else if !closed && !self.w.conns[x].saw_fin && !self.w.conns[x].saw_rst && !self.w.conns[x].stalled && !self.w.conns[x].cl_shut
                    && self.w.conns[x].closed_step.map_or(true, |c| s.end < c)
                {
                    let d = format!("conn {} stayed open for writing but never got {}", x, short(&self.w.sends[i].bytes));
                    self.w.viol(&["C04"], "silent-gap", d);
                }
            }
        }
    }

    /// Had this session's peer sent a whole valid message on the connection by then?
    fn identified(&self, x: usize, sess: u32, at: u64) -> bool {
        let cn = &self.w.conns[x];
        cn.marks.iter().zip(&cn.mark_step).any(|(m, st)| {
            let p = &self.plan.msgs[m.1 as usize];
            p.sess == Some(sess) && p.expect == Expect::Deliver && *st < at
        }) || self.maybe_identified(x, sess)
    }
    /// A message of the kind that may or may not be accepted named the session.
    fn maybe_identified(&self, x: usize, sess: u32) -> bool {
        let cn = &self.w.conns[x];
        let any = format!("\x0134={}\x01", crate::profiles::ANY_SEQ);
        if !cn.sent.windows(any.len()).any(|w| w == any.as_bytes()) {
            return false;
        }
        let s = &self.plan.sessions[sess as usize];
        dict::frames(&cn.sent).0.into_iter().any(|(a, b)| {
            let f = String::from_utf8_lossy(&cn.sent[a..b]);
            f.contains(&any) && f.contains(&format!("\x0149={}\x01", s.target)) && f.contains(&format!("\x0156={}\x01", s.sender))
        })
    }

    /// Every message handed to the engine: well-formed, parses back, right stamp.
    fn judge_sends(&mut self) {
        let mut dicts: BTreeMap<String, dict::Dict> = BTreeMap::new();
        let reached: BTreeSet<usize> = (0..self.w.conns.len()).flat_map(|x| self.matched(x).0).map(|g| g.0).collect();
        for i in reached {
            let s = &self.w.sends[i];
            let spec = match &s.spec {
                Some(m) => m.clone(),
                None => continue,
            };
            let b = s.bytes.clone();
            let sess = self.plan.sessions[s.sess as usize].clone();
            if !dicts.contains_key(&sess.dict) {
                dicts.insert(sess.dict.clone(), dict::Dict::parse(&dict::text_of(&sess.dict)));
            }
            let d = &dicts[&sess.dict];
            let stamped = !s.stamps.is_empty();
            match dict::parse(&b, d) {
                Err(e) => {
                    let m = format!("not a well-formed message ({}): {}", e, short(&b));
                    self.w.viol(&["C09"], "malformed", m);
                }
                Ok(p) => {
                    let mut want = spec.clone();
                    let mut have = p.clone();
                    if stamped {
                        want.header.retain(|x| x.tag != 52);
                        have.header.retain(|x| x.tag != 52);
                    }
                    let same = want.begin == have.begin
                        && want.mtype == have.mtype
                        && same_items(&want.header, &have.header)
                        && same_items(&want.body, &have.body)
                        && same_items(&want.trailer, &have.trailer);
                    if !same {
                        let m = format!("parses back to different fields: {}", short(&b));
                        self.w.viol(&["C09"], "content-changed", m);
                    }
                    let s = &self.w.sends[i];
                    if stamped {
                        let t52: Vec<&Item> = p.header.iter().filter(|x| x.tag == 52).collect();
                        let ok = t52.len() == 1 && s.stamps.iter().any(|v| fmt_utc(*v) == t52[0].val);
                        if !ok {
                            let m = format!("SendingTime {:?}, but the clock read {:?} when stamping", t52.iter().map(|x| &x.val).collect::<Vec<_>>(),
                                s.stamps.iter().map(|v| fmt_utc(*v)).collect::<Vec<_>>());
                            self.w.viol(&["C12"], "wrong-sending-time", m);
                        }
                    }
                }
            }
            if !dict::sound(&b) {
                let m = format!("BodyLength or CheckSum do not match: {}", short(&b));
                let p: &[&str] = if stamped { &["C09", "C12"] } else { &["C09"] };
                self.w.viol(p, "bad-length-or-checksum", m);
            } else if !strict_tail(&b) {
                let m = format!("CheckSum is not three digits: {}", short(&b));
                self.w.viol(&["C09"], "bad-checksum-form", m);
            }
        }
    }

    /// Linearizability of the per-key registry histories (get / insert / modify).
    fn judge_registry(&mut self) {
        let mut keys: BTreeMap<u32, Vec<RegRec>> = BTreeMap::new();
        for r in &self.w.regs {
            keys.entry(r.key).or_default().push(r.clone());
        }
        for (k, h) in keys {
            if k >= REAL_KEY {
                continue;
            }
            // an operation that never returned may or may not have taken effect
            let h: Vec<RegRec> = h.into_iter().filter(|r| r.end > 0 || r.kind != 0).collect();
            if h.len() > 40 {
                continue;
            }
            if !linearizable(&h) {
                let d = format!("registry key {}: no order of these operations explains their results: {:?}", k, h);
                self.w.viol(&["C14"], "not-linearizable", d);
            }
        }
    }

    fn judge_load(&mut self) {
        if self.plan.prop != "C10" {
            return;
        }
        let sent: i64 = self.w.conns.iter().map(|c| c.sent.len() as i64).sum();
        let grown = self.peak_mem - self.w.mem_base;
        self.stats.add("peak_mem_grown", grown.max(0) as u64);
        if self.w.started && grown > (6 << 20) + 600 * sent {
            let d = format!("memory grew by {} bytes for {} bytes of input", grown, sent);
            self.w.viol(&["C10"], "memory", d);
        }
        let avg = (sent as u64 / (self.w.msg_conn.len() as u64).max(1)).max(1);
        let bound = 300 * avg + self.w.conns.len() as u64 * 20_000;
        self.stats.add("max_unhanded_bytes", self.w.max_unhanded);
        if self.w.max_unhanded > bound && self.plan.msgs.iter().all(|m| m.expect == Expect::Deliver) {
            let d = format!("{} bytes (~{} messages) were read off the sockets beyond what the application had been handed (bound {})", self.w.max_unhanded, self.w.max_unhanded / avg, bound);
            self.w.viol(&["C10"], "unbounded-read-ahead", d);
        }
    }
}

fn strict_tail(b: &[u8]) -> bool {
    let n = b.len();
    n > 8 && b[n - 1] == 1 && b[n - 7..n - 4] == *b"10=" && b[n - 4..n - 1].iter().all(|c| c.is_ascii_digit())
}
/// Delimiters are implied by the dictionary, so only tags, values and nesting count.
pub fn same_items(a: &[Item], b: &[Item]) -> bool {
    let (a, b) = (dict::canon(a), dict::canon(b));
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| {
            x.tag == y.tag
                && x.val == y.val
                && match (&x.grp, &y.grp) {
                    (None, None) => true,
                    (Some(g), Some(h)) => g.inst.len() == h.inst.len() && g.inst.iter().zip(&h.inst).all(|(p, q)| same_items(p, q)),
                    _ => false,
                }
        })
}
/// YYYYMMDD-HH:MM:SS.sss in UTC, computed here from first principles.
pub fn fmt_utc(ns: i64) -> String {
    let secs = ns.div_euclid(1_000_000_000);
    let ms = ns.rem_euclid(1_000_000_000) / 1_000_000;
    let days = secs.div_euclid(86400);
    let s = secs.rem_euclid(86400);
    let (y, m, d) = civil(days);
    format!("{:04}{:02}{:02}-{:02}:{:02}:{:02}.{:03}", y, m, d, s / 3600, s / 60 % 60, s % 60, ms)
}
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

fn linearizable(h: &[RegRec]) -> bool {
    fn go(h: &[RegRec], done: u64, val: Option<u32>, memo: &mut BTreeSet<(u64, Option<u32>)>) -> bool {
        if (0..h.len()).all(|i| done >> i & 1 == 1 || h[i].end == 0) {
            return true;
        }
        if !memo.insert((done, val)) {
            return false;
        }
        let min_end = (0..h.len()).filter(|i| done >> i & 1 == 0 && h[*i].end > 0).map(|i| h[i].end).min().unwrap_or(u64::MAX);
        for i in 0..h.len() {
            if done >> i & 1 == 1 || h[i].start > min_end {
                continue;
            }
            let r = &h[i];
            let (ok, nv) = match r.kind {
                0 => (r.res == val, val),
                1 => (true, Some(r.arg)),
                _ => (r.end == 0 || r.res == val, if val.is_some() { Some(r.arg) } else { None }),
            };
            if ok && go(h, done | 1 << i, nv, memo) {
                return true;
            }
        }
        false
    }
    go(h, 0, None, &mut BTreeSet::new())
}

// ------------------------------------------------------------------ session windows
fn secs(t: &str) -> i64 {
    let v: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
    (v[0] * 3600 + v[1] * 60 + v.get(2).copied().unwrap_or(0)) * 1_000_000_000
}
pub const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
fn day_no(d: &str) -> i64 {
    DAYS.iter().position(|x| d.to_ascii_lowercase().starts_with(&x.to_ascii_lowercase())).unwrap() as i64
}
/// The zone's offset from UTC at an instant, in nanoseconds.
pub fn offset_ns(tz: &str, utc_ns: i64) -> i64 {
    use chrono::{Offset, TimeZone};
    let z: chrono_tz::Tz = if tz.is_empty() { chrono_tz::UTC } else { tz.parse().unwrap() };
    let n = chrono::DateTime::from_timestamp(utc_ns.div_euclid(1_000_000_000), 0).unwrap().naive_utc();
    z.offset_from_utc_datetime(&n).fix().local_minus_utc() as i64 * 1_000_000_000
}
/// Does the zone's wall clock lie inside the window at this instant?
pub fn same_zone_window(w: &Window, utc_ns: i64) -> bool {
    let (s, e) = match (&w.start, &w.end) {
        (Some(s), Some(e)) => (secs(s), secs(e)),
        _ => return true,
    };
    const DAY: i64 = 86_400_000_000_000;
    let local = utc_ns + offset_ns(&w.tz, utc_ns);
    let t = local.rem_euclid(DAY);
    let within = |p: i64, a: i64, b: i64| if a <= b { a <= p && p <= b } else { p >= a || p <= b };
    match (&w.start_day, &w.end_day) {
        (Some(sd), Some(ed)) => {
            // 1970-01-01 was a Thursday
            let wd = (local.div_euclid(DAY) + 3).rem_euclid(7);
            within(wd * DAY + t, day_no(sd) * DAY + s, day_no(ed) * DAY + e)
        }
        _ => within(t, s, e),
    }
}
