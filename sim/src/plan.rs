//! A Plan is the complete, serialisable description of one simulated run; together
//! with the scheduler's deviation list it is the replay file.
use serde::{Deserialize, Serialize};

/// Bytes shown in JSON as text with \xNN escapes.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Bytes(pub Vec<u8>);

pub fn esc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() + 16);
    for &c in b {
        if c == 1 {
            s.push('|');
        } else if c < 0x20 || c >= 0x7f || c == b'\\' || c == b'|' {
            s.push_str(&format!("\\x{:02x}", c));
        } else {
            s.push(c as char);
        }
    }
    s
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'|' {
            v.push(1);
            i += 1;
        } else if b[i] == b'\\' && i + 3 < b.len() && b[i + 1] == b'x' {
            v.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
            i += 4;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&esc(&self.0))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Bytes(unesc(&String::deserialize(d)?)))
    }
}

/// One field, or a repeating group (its count field plus instances).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Item {
    pub tag: u32,
    pub val: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub grp: Option<Grp>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Grp {
    pub delim: u32,
    pub inst: Vec<Vec<Item>>,
}

/// A message as its sender means it.  Header excludes 8, 9 and 35; trailer excludes 10.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct MSpec {
    pub begin: String,
    pub mtype: String,
    pub header: Vec<Item>,
    pub body: Vec<Item>,
    pub trailer: Vec<Item>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Sess {
    pub begin: String,
    pub sender: String,
    pub sender_sub: Option<String>,
    pub sender_loc: Option<String>,
    pub target: String,
    pub target_sub: Option<String>,
    pub target_loc: Option<String>,
    pub port: u16,
    pub dict: String,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Expect {
    /// Valid: must be delivered, intact.
    Deliver,
    /// Must never be delivered.
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RegOp {
    Get(u32),
    Insert(u32, u32),
    Modify(u32, u32),
    List,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Build and send outs[i] to its session.
    Send(u32),
    /// Send the delivered message back, re-serialised, to its session.
    Echo,
    Sleep(u64),
    Reg(RegOp),
    Yield,
    SchedCheck(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MsgPlan {
    pub sess: Option<u32>,
    pub wire: Bytes,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub spec: Option<MSpec>,
    pub expect: Expect,
    #[serde(default)]
    pub kind: String,
    #[serde(default)]
    pub acts: Vec<Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutPlan {
    pub sess: u32,
    pub spec: MSpec,
    /// How often to stamp SendingTime before sending (0: the spec's own fields only).
    pub stamps: u8,
    /// Sim-microseconds slept between stamping and sending.
    #[serde(default)]
    pub hold_us: u64,
    /// Re-parse the serialised form and send the re-serialisation of that.
    #[serde(default)]
    pub reparse: bool,
    /// Set every field and group to something else (and length and checksum) first.
    #[serde(default)]
    pub redo: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Connect to the port, waiting until it has been open at least once.
    Connect(u16),
    Send(u32),
    /// Only the first n bytes of the message.
    Cut(u32, u32),
    /// Raw bytes that are no message (leading garbage etc.).
    Raw(Bytes),
    /// Wait until n more outbound messages have arrived on this connection.
    WaitReplies(u32),
    /// Wait until everything sent on this connection so far was read by the engine.
    WaitRead,
    /// Wait until the whole system has come to rest.
    WaitIdle,
    Sleep(u64),
    StallRead,
    ResumeRead,
    /// Network partition of this connection (both ways) for n microseconds.
    Partition(u64),
    ShutWr,
    Close,
    Reset,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ClientPlan {
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ReadFault {
    Short(u32),
    Eintr,
    Eio,
    Slow(u64),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FileSpec {
    pub path: String,
    pub text: Bytes,
    /// Content comes from this real file instead of `text`.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub real: Option<String>,
    /// faults[i] applies to the i-th read call on the file.
    #[serde(default)]
    pub faults: Vec<ReadFault>,
    #[serde(default)]
    pub missing: bool,
    /// Reads never return more than this many bytes (0: no limit).
    #[serde(default)]
    pub max_read: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Jump {
    /// Applies when the n-th wall-clock read happens (before it).
    pub at_read: u32,
    pub delta_ns: i64,
    /// Jump to this instant exactly instead of by delta_ns.
    #[serde(default)]
    pub to_ns: Option<i64>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Faults {
    /// (port, number of bind attempts that fail with EADDRINUSE)
    pub bind_fail: Vec<(u16, u32)>,
    /// (accept call number, errno)
    pub accept_fail: Vec<(u32, i32)>,
    pub jumps: Vec<Jump>,
    /// Probability (percent) that a futex wait wakes spuriously.
    pub spurious_pct: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Sched {
    pub seed: u64,
    pub hash_seed: u64,
    pub workers: u32,
    /// Percent chance that the running thread keeps running at a yield point.
    pub stay: u32,
    /// Threads get random speeds, redrawn now and then.
    pub weights: bool,
    /// Mean number of allocations between preemption points (0: none).
    pub alloc_gap: u32,
    pub step_cap: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Net {
    /// 0: whole bursts; 1: byte by byte; 2: random chunks up to `chunk`.
    pub seg: u32,
    pub chunk: u32,
    pub lat_us: u64,
    pub rx_cap: u32,
    pub tx_cap: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Window {
    pub tz: String,
    pub start: Option<String>,
    pub end: Option<String>,
    pub start_day: Option<String>,
    pub end_day: Option<String>,
    /// How the application states the window: as settings (of the session, of the default
    /// section, of both), through the builder, the constructor or the plain time check.
    #[serde(default)]
    pub via: u8,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// "engine" (SocketAcceptor with the recording application) or "main" (the shipped main()).
    pub mode: String,
    pub sched: Sched,
    pub net: Net,
    pub files: Vec<FileSpec>,
    pub config: String,
    pub wall_start_ns: i64,
    pub tz_env: String,
    pub sessions: Vec<Sess>,
    pub msgs: Vec<MsgPlan>,
    pub outs: Vec<OutPlan>,
    pub clients: Vec<ClientPlan>,
    /// Run after the main traffic went quiet: fresh peers proving the engine still serves.
    pub probes: Vec<ClientPlan>,
    pub threads: Vec<Vec<Act>>,
    pub faults: Faults,
    pub windows: Vec<Window>,
    /// Start-up is expected to fail (unreadable file).
    pub startup_fails: bool,
}
