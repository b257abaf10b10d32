//! The harness's own reading of a FIX XML specification, its own encoder, framer and
//! strict parser (the reference the engine is compared with), and message generators.
use crate::plan::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub tag: u32,
    pub ty: String,
    pub enums: Vec<String>,
}
#[derive(Clone, Debug)]
pub enum Mem {
    F(u32, bool),
    G(u32, bool, GroupDef),
}
impl Mem {
    pub fn tag(&self) -> u32 {
        match self {
            Mem::F(t, _) | Mem::G(t, _, _) => *t,
        }
    }
    fn req(&self) -> bool {
        match self {
            Mem::F(_, r) | Mem::G(_, r, _) => *r,
        }
    }
}
#[derive(Clone, Debug)]
pub struct GroupDef {
    pub delim: u32,
    pub members: Vec<Mem>,
}
#[derive(Clone, Debug)]
pub struct Dict {
    pub header: Vec<Mem>,
    pub trailer: Vec<Mem>,
    pub msgs: BTreeMap<String, Vec<Mem>>,
    pub fields: BTreeMap<u32, FieldDef>,
}

fn expand(n: roxmltree::Node, names: &BTreeMap<String, u32>, comps: &BTreeMap<String, roxmltree::Node>, out: &mut Vec<Mem>) {
    for c in n.children().filter(|c| c.is_element()) {
        let name = c.attribute("name").unwrap_or("");
        let req = c.attribute("required") == Some("Y");
        match c.tag_name().name() {
            "field" => out.push(Mem::F(names[name], req)),
            "component" => expand(comps[name], names, comps, out),
            "group" => {
                let mut m = vec![];
                expand(c, names, comps, &mut m);
                out.push(Mem::G(names[name], req, GroupDef { delim: m[0].tag(), members: m }));
            }
            _ => {}
        }
    }
}

impl Dict {
    pub fn parse(xml: &str) -> Dict {
        let doc = roxmltree::Document::parse(xml).expect("dictionary xml");
        let root = doc.root_element();
        let sect = |n: &str| root.children().find(|c| c.has_tag_name(n)).unwrap();
        let mut names = BTreeMap::new();
        let mut fields = BTreeMap::new();
        for f in sect("fields").children().filter(|c| c.is_element()) {
            let tag: u32 = f.attribute("number").unwrap().parse().unwrap();
            names.insert(f.attribute("name").unwrap().to_string(), tag);
            fields.insert(tag, FieldDef {
                tag,
                ty: f.attribute("type").unwrap().to_string(),
                enums: f.children().filter_map(|v| v.attribute("enum").map(|s| s.to_string())).collect(),
            });
        }
        let mut comps = BTreeMap::new();
        for c in sect("components").children().filter(|c| c.is_element()) {
            comps.insert(c.attribute("name").unwrap().to_string(), c);
        }
        let get = |n| {
            let mut v = vec![];
            expand(n, &names, &comps, &mut v);
            v
        };
        let header = get(sect("header"));
        let trailer = get(sect("trailer"));
        let mut msgs = BTreeMap::new();
        for m in sect("messages").children().filter(|c| c.is_element()) {
            msgs.insert(m.attribute("msgtype").unwrap().to_string(), get(m));
        }
        Dict { header, trailer, msgs, fields }
    }
    fn has(v: &[Mem], t: u32) -> bool {
        v.iter().any(|m| m.tag() == t)
    }
    pub fn is_header(&self, t: u32) -> bool {
        Self::has(&self.header, t)
    }
    pub fn is_trailer(&self, t: u32) -> bool {
        Self::has(&self.trailer, t)
    }
    fn data_type(&self, t: u32) -> bool {
        self.fields.get(&t).map_or(true, |f| f.ty == "DATA" || f.ty == "LENGTH" || f.ty == "XMLDATA")
    }
    /// Tags whose place in a message of this type is unambiguous.
    fn usable(&self, body: &[Mem]) -> BTreeSet<u32> {
        fn count(v: &[Mem], c: &mut BTreeMap<u32, u32>) {
            for m in v {
                *c.entry(m.tag()).or_insert(0) += 1;
                if let Mem::G(_, _, g) = m {
                    count(&g.members, c);
                }
            }
        }
        let mut c = BTreeMap::new();
        count(body, &mut c);
        count(&self.header, &mut c);
        count(&self.trailer, &mut c);
        c.into_iter().filter(|(t, n)| *n == 1 && !self.data_type(*t)).map(|(t, _)| t).collect()
    }
    /// Message types the generator can build without raw-data or ambiguous required fields.
    pub fn buildable(&self) -> Vec<String> {
        fn ok(v: &[Mem], u: &BTreeSet<u32>) -> bool {
            v.iter().all(|m| !m.req() || (u.contains(&m.tag()) && match m {
                Mem::G(_, _, g) => u.contains(&g.delim) && ok(&g.members, u),
                _ => true,
            }))
        }
        self.msgs.iter().filter(|(_, b)| ok(b, &self.usable(b))).map(|(k, _)| k.clone()).collect()
    }
}

// ------------------------------------------------------------------ encoding
pub fn flat(items: &[Item], out: &mut Vec<(u32, String)>) {
    for i in items {
        out.push((i.tag, i.val.clone()));
        if let Some(g) = &i.grp {
            for inst in &g.inst {
                flat(inst, out);
            }
        }
    }
}
pub fn checksum(b: &[u8]) -> u32 {
    b.iter().map(|x| *x as u32).sum::<u32>() % 256
}
/// begin, then the fields after BodyLength up to CheckSum, encoded with right length and sum.
pub fn wrap(begin: &str, rest: &[u8]) -> Vec<u8> {
    let mut v = format!("8={}\x019={}\x01", begin, rest.len()).into_bytes();
    v.extend_from_slice(rest);
    let s = checksum(&v);
    v.extend_from_slice(format!("10={:03}\x01", s).as_bytes());
    v
}
pub fn encode(m: &MSpec) -> Vec<u8> {
    let mut f = vec![(35, m.mtype.clone())];
    flat(&m.header, &mut f);
    flat(&m.body, &mut f);
    flat(&m.trailer, &mut f);
    let mut rest = vec![];
    for (t, v) in f {
        rest.extend_from_slice(format!("{}={}\x01", t, v).as_bytes());
    }
    wrap(&m.begin, &rest)
}
pub fn find_item<'a>(v: &'a [Item], tag: u32) -> Option<&'a Item> {
    v.iter().find(|i| i.tag == tag)
}

// ------------------------------------------------------------------ framing
/// Split a stream at the end of every segment that starts with `10=`; the second
/// value is where the unterminated rest begins.
pub fn frames(s: &[u8]) -> (Vec<(usize, usize)>, usize) {
    let mut out = vec![];
    let (mut start, mut seg) = (0, 0);
    for i in 0..s.len() {
        if s[i] == 1 {
            if s[seg..=i].starts_with(b"10=") {
                out.push((start, i + 1));
                start = i + 1;
            }
            seg = i + 1;
        }
    }
    (out, start)
}
/// BodyLength and CheckSum agree with the content (lenient about zero padding).
pub fn sound(f: &[u8]) -> bool {
    if !f.starts_with(b"8=") || f.last() != Some(&1) {
        return false;
    }
    let e1 = match f.iter().position(|b| *b == 1) {
        Some(e) => e + 1,
        None => return false,
    };
    if !f[e1..].starts_with(b"9=") {
        return false;
    }
    let e2 = match f[e1..].iter().position(|b| *b == 1) {
        Some(e) => e1 + e + 1,
        None => return false,
    };
    let num = |b: &[u8]| std::str::from_utf8(b).ok().and_then(|s| s.trim().parse::<usize>().ok());
    let len = num(&f[e1 + 2..e2 - 1]);
    let mut seg = f.len() - 1;
    while seg > 0 && f[seg - 1] != 1 {
        seg -= 1;
    }
    if !f[seg..].starts_with(b"10=") || seg < e2 {
        return false;
    }
    len == Some(seg - e2) && num(&f[seg + 3..f.len() - 1]) == Some(checksum(&f[..seg]) as usize)
}

// ------------------------------------------------------------------ strict parser
type Fl = (u32, String);
fn parse_group(f: &[Fl], i: &mut usize, g: &GroupDef, count: &str) -> Result<Grp, String> {
    if !count.bytes().all(|b| b.is_ascii_digit()) {
        return Err("group count not a number".to_string());
    }
    let n: usize = count.parse().map_err(|_| "group count not a number".to_string())?;
    let mut inst: Vec<Vec<Item>> = vec![];
    let mut pos = 0usize;
    while *i < f.len() {
        let (t, v) = &f[*i];
        let k = match g.members.iter().position(|m| m.tag() == *t) {
            Some(k) => k,
            None => break,
        };
        if *t == g.delim {
            inst.push(vec![]);
        } else if inst.is_empty() {
            return Err(format!("group instance starts with {} not {}", t, g.delim));
        } else if k <= pos {
            return Err(format!("tag {} out of order or repeated in group", t));
        }
        pos = k;
        *i += 1;
        let grp = match &g.members[k] {
            Mem::G(_, _, sub) => Some(parse_group(f, i, sub, v)?),
            _ => None,
        };
        inst.last_mut().unwrap().push(Item { tag: *t, val: v.clone(), grp });
    }
    if inst.len() != n {
        return Err(format!("group count {} but {} instances", n, inst.len()));
    }
    Ok(Grp { delim: g.delim, inst })
}
/// Parse a frame under a dictionary, enforcing every structural rule of property C15.
pub fn parse(frame: &[u8], d: &Dict) -> Result<MSpec, String> {
    let s = std::str::from_utf8(frame).map_err(|_| "not text".to_string())?;
    let mut f: Vec<Fl> = vec![];
    for seg in s.strip_suffix('\x01').ok_or("unterminated")?.split('\x01') {
        let (t, v) = seg.split_once('=').ok_or("field without =")?;
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) || v.is_empty() {
            return Err(format!("bad field {:?}", seg));
        }
        f.push((t.parse().map_err(|_| "tag too large".to_string())?, v.to_string()));
    }
    if f.len() < 4 || f[0].0 != 8 || f[1].0 != 9 || f[2].0 != 35 || f[f.len() - 1].0 != 10 {
        return Err("must start 8, 9, 35 and end 10".into());
    }
    let mut m = MSpec { begin: f[0].1.clone(), mtype: f[2].1.clone(), ..Default::default() };
    let body = d.msgs.get(&m.mtype);
    let mut seen: BTreeSet<u32> = [8, 9, 35, 10].into();
    let end = f.len() - 1;
    let mut i = 3;
    let mut sect = 0;
    while i < end {
        let (t, v) = f[i].clone();
        let s = if d.is_header(t) {
            0
        } else if d.is_trailer(t) {
            2
        } else {
            1
        };
        if s < sect {
            return Err(format!("tag {} in the wrong section", t));
        }
        sect = s;
        if !seen.insert(t) {
            return Err(format!("tag {} repeated", t));
        }
        i += 1;
        let mems: &[Mem] = match s {
            0 => &d.header,
            1 => body.map_or(&[], |b| &b[..]),
            _ => &d.trailer,
        };
        let grp = match mems.iter().find(|x| x.tag() == t) {
            Some(Mem::G(_, _, g)) => Some(parse_group(&f[..end], &mut i, g, &v)?),
            _ => None,
        };
        [&mut m.header, &mut m.body, &mut m.trailer][s].push(Item { tag: t, val: v, grp });
    }
    Ok(m)
}
/// Field order does not matter between the fields of one section or instance.
pub fn canon(v: &[Item]) -> Vec<Item> {
    let mut o: Vec<Item> = v
        .iter()
        .map(|i| Item {
            tag: i.tag,
            val: i.val.clone(),
            grp: i.grp.as_ref().map(|g| Grp { delim: g.delim, inst: g.inst.iter().map(|x| canon(x)).collect() }),
        })
        .collect();
    o.sort_by_key(|i| i.tag);
    o
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Copy)]
pub struct Size {
    /// Percent chance of each optional field.
    pub opt: u32,
    pub max_fields: usize,
    pub max_inst: usize,
    pub nasty: bool,
    pub long: usize,
}
pub const SMALL: Size = Size { opt: 25, max_fields: 6, max_inst: 2, nasty: false, long: 0 };
pub const RICH: Size = Size { opt: 40, max_fields: 12, max_inst: 3, nasty: true, long: 40 };

fn text(r: &mut Rng, sz: Size) -> String {
    const NASTY: &[&str] = &[
        "10=123", "8=FIX.4.3", "a=b", "=", "==x", "caf\u{e9}", "\u{65e5}\u{672c}", " lead", "trail ", "x10=",
        "-", "0", "35=D", "\u{1f600}", "a\tb", "49=EVIL", "|", "\"q\"", "%s", "\n", "\u{80}", "\u{ff}\u{fe}",
    ];
    if sz.nasty && r.pct(30) {
        return r.pick(NASTY).to_string();
    }
    let n = if sz.long > 0 && r.pct(10) { 1 + r.idx(sz.long * 8) } else { 1 + r.idx(8) };
    (0..n).map(|_| (b'A' + r.idx(26) as u8) as char).collect()
}
pub fn value(r: &mut Rng, d: &Dict, tag: u32, sz: Size) -> String {
    let f = &d.fields[&tag];
    if !f.enums.is_empty() {
        return r.pick(&f.enums).clone();
    }
    match f.ty.as_str() {
        "INT" | "SEQNUM" | "NUMINGROUP" | "TAGNUM" => r.below(100000).to_string(),
        "DAYOFMONTH" => (1 + r.below(28)).to_string(),
        "FLOAT" | "QTY" | "PRICE" | "PRICEOFFSET" | "AMT" | "PERCENTAGE" | "PERCENT" => {
            format!("{}.{:02}", r.below(10000), r.below(100))
        }
        "CHAR" => ((b'a' + r.idx(26) as u8) as char).to_string(),
        "BOOLEAN" => if r.pct(50) { "Y" } else { "N" }.to_string(),
        "UTCTIMESTAMP" => format!("2022{:02}{:02}-{:02}:{:02}:{:02}.{:03}", 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60), r.below(1000)),
        "UTCTIMEONLY" => format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60)),
        "UTCDATE" | "UTCDATEONLY" | "LOCALMKTDATE" => format!("2022{:02}{:02}", 1 + r.below(12), 1 + r.below(28)),
        "MONTHYEAR" => format!("2022{:02}", 1 + r.below(12)),
        "CURRENCY" => "USD".into(),
        "COUNTRY" => "US".into(),
        "EXCHANGE" => "N".into(),
        _ => text(r, sz),
    }
}
fn members(r: &mut Rng, d: &Dict, ms: &[Mem], delim: Option<u32>, u: &BTreeSet<u32>, sz: Size, left: &mut usize) -> Vec<Item> {
    let mut out = vec![];
    for m in ms {
        let t = m.tag();
        let must = m.req() || Some(t) == delim;
        if !u.contains(&t) || !(must || (*left > 0 && r.pct(sz.opt))) {
            continue;
        }
        *left = left.saturating_sub(1);
        match m {
            Mem::F(..) => out.push(Item { tag: t, val: value(r, d, t, sz), grp: None }),
            Mem::G(_, _, g) => {
                if !u.contains(&g.delim) {
                    continue;
                }
                let lo = if must { 1 } else { 0 };
                let n = lo.max(r.idx(sz.max_inst + 1));
                let inst: Vec<_> = (0..n).map(|_| members(r, d, &g.members, Some(g.delim), u, sz, left)).collect();
                out.push(Item { tag: t, val: n.to_string(), grp: Some(Grp { delim: g.delim, inst }) });
            }
        }
    }
    out
}
pub fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.idx(i + 1));
    }
}
fn it(tag: u32, v: &str) -> Item {
    Item { tag, val: v.to_string(), grp: None }
}
/// Header items naming a session; `inbound`: as its peer would write them.
pub fn ids(s: &Sess, inbound: bool) -> Vec<Item> {
    let (a, b) = if inbound {
        ((&s.target, &s.target_sub, &s.target_loc), (&s.sender, &s.sender_sub, &s.sender_loc))
    } else {
        ((&s.sender, &s.sender_sub, &s.sender_loc), (&s.target, &s.target_sub, &s.target_loc))
    };
    let mut v = vec![it(49, a.0), it(56, b.0)];
    for (t, x) in [(50, a.1), (142, a.2), (57, b.1), (143, b.2)] {
        if let Some(x) = x {
            v.push(it(t, x));
        }
    }
    v
}
pub fn message(r: &mut Rng, d: &Dict, mtype: &str, s: &Sess, inbound: bool, seq: u32, sz: Size) -> MSpec {
    let body = &d.msgs[mtype];
    let u = d.usable(body);
    let mut left = sz.max_fields;
    let mut m = MSpec { begin: s.begin.clone(), mtype: mtype.to_string(), ..Default::default() };
    m.header = ids(s, inbound);
    m.header.push(it(34, &seq.to_string()));
    m.header.push(it(52, "20221006-08:43:36.522"));
    let own: BTreeSet<u32> = [8, 9, 35, 49, 56, 50, 142, 57, 143, 34, 52].into();
    let hm: Vec<Mem> = d.header.iter().filter(|x| !own.contains(&x.tag())).cloned().collect();
    let mut hl = if r.pct(30) { 3 } else { 0 };
    m.header.extend(members(r, d, &hm, None, &u, Size { opt: 25, ..sz }, &mut hl).into_iter().filter(|_| true));
    if inbound || r.pct(50) {
        shuffle(r, &mut m.header);
    }
    m.body = members(r, d, body, None, &u, sz, &mut left);
    if r.pct(60) {
        shuffle(r, &mut m.body);
    }
    if d.is_trailer(93) && d.is_trailer(89) && r.pct(25) {
        let sig: String = (0..1 + r.idx(6)).map(|_| (b'a' + r.idx(26) as u8) as char).collect();
        m.trailer = vec![it(93, &sig.len().to_string()), it(89, &sig)];
    }
    m
}

// ------------------------------------------------------------------ dictionaries
pub const FIX43: &str = "/repo/resources/FIX43.xml";
pub const D1: &str = "/simfs/d1.xml";
pub const D2: &str = "/simfs/d2.xml";
pub const SIM43: &str = "resources/FIX43.xml";
const FIELDS: &str = r#"<fields>
<field number="8" name="BeginString" type="STRING"/><field number="9" name="BodyLength" type="LENGTH"/>
<field number="35" name="MsgType" type="STRING"/><field number="49" name="SenderCompID" type="STRING"/>
<field number="56" name="TargetCompID" type="STRING"/><field number="50" name="SenderSubID" type="STRING"/>
<field number="142" name="SenderLocationID" type="STRING"/><field number="57" name="TargetSubID" type="STRING"/>
<field number="143" name="TargetLocationID" type="STRING"/><field number="34" name="MsgSeqNum" type="SEQNUM"/>
<field number="52" name="SendingTime" type="UTCTIMESTAMP"/><field number="97" name="PossResend" type="BOOLEAN"/>
<field number="627" name="NoHops" type="NUMINGROUP"/><field number="628" name="HopCompID" type="STRING"/>
<field number="629" name="HopSendingTime" type="UTCTIMESTAMP"/><field number="630" name="HopRefID" type="SEQNUM"/>
<field number="93" name="SignatureLength" type="LENGTH"/><field number="89" name="Signature" type="DATA"/>
<field number="10" name="CheckSum" type="STRING"/><field number="112" name="TestReqID" type="STRING"/>
<field number="11" name="ClOrdID" type="STRING"/><field number="55" name="Symbol" type="STRING"/>
<field number="54" name="Side" type="CHAR"><value enum="1" description="BUY"/><value enum="2" description="SELL"/></field>
<field number="38" name="OrderQty" type="QTY"/><field number="44" name="Price" type="PRICE"/>
<field number="58" name="Text" type="STRING"/><field number="1" name="Account" type="STRING"/>
<field number="453" name="NoPartyIDs" type="NUMINGROUP"/><field number="448" name="PartyID" type="STRING"/>
<field number="447" name="PartyIDSource" type="CHAR"/><field number="452" name="PartyRole" type="INT"/>
<field number="802" name="NoPartySubIDs" type="NUMINGROUP"/><field number="523" name="PartySubID" type="STRING"/>
<field number="803" name="PartySubIDType" type="INT"/><field number="66" name="ListID" type="STRING"/>
<field number="73" name="NoOrders" type="NUMINGROUP"/><field number="67" name="ListSeqNo" type="INT"/>
<field number="78" name="NoAllocs" type="NUMINGROUP"/><field number="79" name="AllocAccount" type="STRING"/>
<field number="80" name="AllocQty" type="QTY"/><field number="262" name="MDReqID" type="STRING"/>
<field number="268" name="NoMDEntries" type="NUMINGROUP"/><field number="269" name="MDEntryType" type="CHAR"/>
<field number="270" name="MDEntryPx" type="PRICE"/><field number="271" name="MDEntrySize" type="QTY"/>
<field number="278" name="MDEntryID" type="STRING"/><field number="98" name="EncryptMethod" type="INT"/>
<field number="108" name="HeartBtInt" type="INT"/><field number="141" name="ResetSeqNumFlag" type="BOOLEAN"/>
</fields>"#;
const HEADER: &str = r#"<header><field name="BeginString" required="Y"/><field name="BodyLength" required="Y"/>
<field name="MsgType" required="Y"/><field name="SenderCompID" required="Y"/><field name="TargetCompID" required="Y"/>
<field name="SenderSubID" required="N"/><field name="SenderLocationID" required="N"/><field name="TargetSubID" required="N"/>
<field name="TargetLocationID" required="N"/><field name="MsgSeqNum" required="Y"/><field name="SendingTime" required="Y"/>
<field name="PossResend" required="N"/><group name="NoHops" required="N"><field name="HopCompID" required="N"/>
<field name="HopSendingTime" required="N"/><field name="HopRefID" required="N"/></group></header>
<trailer><field name="SignatureLength" required="N"/><field name="Signature" required="N"/><field name="CheckSum" required="Y"/></trailer>"#;
/// The small dictionaries: same tags, different message and group structure.
pub fn small(which: u32) -> String {
    let (msgs, comps) = if which == 1 {
        (r#"<message name="Heartbeat" msgtype="0" msgcat="admin"><field name="TestReqID" required="N"/></message>
<message name="Logon" msgtype="A" msgcat="admin"><field name="EncryptMethod" required="Y"/><field name="HeartBtInt" required="Y"/><field name="ResetSeqNumFlag" required="N"/></message>
<message name="NewOrderSingle" msgtype="D" msgcat="app"><field name="ClOrdID" required="Y"/><component name="Parties" required="N"/>
<field name="Symbol" required="N"/><field name="Side" required="Y"/><field name="OrderQty" required="N"/><field name="Price" required="N"/><field name="Text" required="N"/></message>
<message name="NewOrderList" msgtype="E" msgcat="app"><field name="ListID" required="Y"/><group name="NoOrders" required="Y"><field name="ClOrdID" required="Y"/>
<field name="ListSeqNo" required="N"/><group name="NoAllocs" required="N"><field name="AllocAccount" required="N"/><field name="AllocQty" required="N"/></group>
<component name="Parties" required="N"/><field name="Symbol" required="N"/><field name="Text" required="N"/></group></message>
<message name="MarketData" msgtype="W" msgcat="app"><field name="MDReqID" required="N"/><field name="Symbol" required="N"/><group name="NoMDEntries" required="Y"><field name="MDEntryType" required="Y"/>
<field name="MDEntryPx" required="N"/><field name="MDEntrySize" required="N"/><field name="MDEntryID" required="N"/></group></message>"#,
         r#"<component name="Parties"><group name="NoPartyIDs" required="N"><field name="PartyID" required="N"/><field name="PartyIDSource" required="N"/>
<field name="PartyRole" required="N"/><group name="NoPartySubIDs" required="N"><field name="PartySubID" required="N"/><field name="PartySubIDType" required="N"/></group></group></component>"#)
    } else {
        (r#"<message name="Heartbeat" msgtype="0" msgcat="admin"><field name="TestReqID" required="N"/><field name="Text" required="N"/></message>
<message name="NewOrderSingle" msgtype="D" msgcat="app"><field name="ClOrdID" required="Y"/><field name="Account" required="N"/>
<field name="NoPartyIDs" required="N"/><group name="NoAllocs" required="N"><field name="AllocQty" required="N"/><field name="AllocAccount" required="N"/><field name="PartyID" required="N"/></group>
<field name="Symbol" required="N"/><field name="Side" required="Y"/></message>
<message name="NewOrderList" msgtype="E" msgcat="app"><field name="ListID" required="Y"/><group name="NoOrders" required="Y"><field name="ListSeqNo" required="Y"/>
<field name="ClOrdID" required="N"/><field name="Symbol" required="N"/></group></message>
<message name="MarketData" msgtype="W" msgcat="app"><field name="MDReqID" required="N"/><group name="NoMDEntries" required="Y"><field name="MDEntryID" required="Y"/>
<field name="MDEntryType" required="N"/><field name="MDEntryPx" required="N"/></group></message>"#,
         r#"<component name="Unused"><field name="Text" required="N"/></component>"#)
    };
    format!("<fix type=\"FIX\" major=\"4\" minor=\"3\" servicepack=\"0\">{}<messages>{}</messages><components>{}</components>{}</fix>", HEADER, msgs, comps, FIELDS)
}
pub fn text_of(path: &str) -> String {
    match path {
        D1 => small(1),
        D2 => small(2),
        _ => std::fs::read_to_string(FIX43).expect("FIX43.xml"),
    }
}

// ------------------------------------------------------------------ deviations
/// The fields between BodyLength and CheckSum, as raw tag/value text.
pub fn raw_fields(m: &MSpec) -> Vec<(String, String)> {
    let mut f = vec![(35, m.mtype.clone())];
    flat(&m.header, &mut f);
    flat(&m.body, &mut f);
    flat(&m.trailer, &mut f);
    f.into_iter().map(|(t, v)| (t.to_string(), v)).collect()
}
pub fn raw_wire(begin: &str, f: &[(String, String)]) -> Vec<u8> {
    let mut rest = vec![];
    for (t, v) in f {
        if t == "-" {
            rest.extend_from_slice(format!("{}\x01", v).as_bytes());
        } else {
            rest.extend_from_slice(format!("{}={}\x01", t, v).as_bytes());
        }
    }
    wrap(begin, &rest)
}
fn walk(items: &mut Vec<Item>, f: &mut dyn FnMut(&mut Vec<Item>, usize) -> bool) -> bool {
    for i in 0..items.len() {
        if f(items, i) {
            return true;
        }
        if let Some(g) = items[i].grp.as_mut() {
            for inst in g.inst.iter_mut() {
                if walk(inst, f) {
                    return true;
                }
            }
        }
    }
    false
}
fn n_sites(items: &mut Vec<Item>, f: &dyn Fn(&[Item], usize) -> bool) -> usize {
    let mut n = 0;
    walk(items, &mut |v, i| {
        if f(v, i) {
            n += 1;
        }
        false
    });
    n
}
/// A message with right length and checksum whose structure is broken; None if this
/// kind does not apply to the message.  The caller confirms with `parse`.
pub fn deviate(r: &mut Rng, d: &Dict, m: &MSpec, kind: u32) -> Option<(Vec<u8>, &'static str)> {
    let mut m = m.clone();
    let mut f = raw_fields(&m);
    let begin = m.begin.clone();
    let how = r.below(64) as u32;
    let how4 = how % 8;
    // choose among all places at every depth where the predicate holds
    macro_rules! site {
        ($pred:expr, $edit:expr) => {{
            let pred = $pred;
            let nb = n_sites(&mut m.body, &pred);
            let nh = n_sites(&mut m.header, &pred);
            if nb + nh == 0 {
                return None;
            }
            let mut k = r.idx(nb + nh) as i64;
            let in_body = (k as usize) < nb;
            if !in_body {
                k -= nb as i64;
            }
            let part = if in_body { &mut m.body } else { &mut m.header };
            let mut edit = $edit;
            walk(part, &mut |v: &mut Vec<Item>, i: usize| {
                if pred(v, i) {
                    if k == 0 {
                        edit(v, i);
                        return true;
                    }
                    k -= 1;
                }
                false
            });
            f = raw_fields(&m);
        }};
    }
    let own = |m: &MSpec| {
        let mut b = vec![];
        flat(&m.body, &mut b);
        (b.len(), m.trailer.len())
    };
    let name = match kind % 24 {
        0 => {
            // MsgType not third
            let n = f.len();
            if n < 2 {
                return None;
            }
            let x = f.remove(0);
            f.insert(1 + r.idx(n - 1), x);
            "msgtype-not-third"
        }
        1 => {
            let i = 1 + r.idx(f.len() - 1);
            f[i].0 = r.pick(&["abc", "", "1x", "-5", "4.4", "99999999999", " ", "+58", "+", " 58", "58 ", "5 8", "0x3A", "4294967354", "\u{0665}"]).to_string();
            "tag-not-numeric"
        }
        2 => {
            let i = 1 + r.idx(f.len() - 1);
            f[i].1 = String::new();
            "empty-value"
        }
        3 => {
            let i = 1 + r.idx(f.len() - 1);
            f.insert(i, ("-".into(), r.pick(&["junk", "58", "x"]).to_string()));
            "no-equals"
        }
        4 => {
            // a header field after the body began
            let nb = {
                let mut v = vec![];
                flat(&m.body, &mut v);
                v.len()
            };
            let nt = m.trailer.len();
            if nb == 0 {
                return None;
            }
            let t = *r.pick(&[97u32, 34, 52, 49]);
            let hl = f.len() - nb - nt;
            let p = if t == 97 {
                ("97".to_string(), "Y".to_string())
            } else {
                let i = f[..hl].iter().position(|x| x.0 == t.to_string())?;
                f.remove(i)
            };
            let hl = f.len() - nb - nt;
            let at = hl + 1 + r.idx(nb);
            f.insert(at.min(f.len() - nt), p);
            "header-field-in-body"
        }
        5 => {
            // a body field after the trailer began
            m.trailer = vec![it(93, "3"), it(89, "abc")];
            f = raw_fields(&m);
            let at = f.len() - r.idx(2);
            f.insert(at, ("112".into(), "late".into()));
            "body-field-in-trailer"
        }
        6 | 7 => {
            let up = kind % 24 == 6;
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| up || !g.inst.is_empty()),
                |v: &mut Vec<Item>, i: usize| {
                    let n = v[i].grp.as_ref().unwrap().inst.len();
                    v[i].val = if up { n + 1 } else { n - 1 }.to_string();
                });
            if up { "group-too-few-instances" } else { "group-too-many-instances" }
        }
        8 => {
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| g.inst.iter().any(|x| x.len() > 1)),
                |v: &mut Vec<Item>, i: usize| {
                    let g = v[i].grp.as_mut().unwrap();
                    let j = g.inst.iter().position(|x| x.len() > 1).unwrap();
                    g.inst[j].remove(0);
                });
            "group-delimiter-missing"
        }
        9 => {
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| g.inst.iter().any(|x| x.len() > 2)),
                |v: &mut Vec<Item>, i: usize| {
                    let g = v[i].grp.as_mut().unwrap();
                    let j = g.inst.iter().position(|x| x.len() > 2).unwrap();
                    let n = g.inst[j].len();
                    g.inst[j].swap(n - 2, n - 1);
                });
            "group-member-out-of-order"
        }
        10 => {
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| g.inst.iter().any(|x| x.len() > 1)),
                |v: &mut Vec<Item>, i: usize| {
                    let g = v[i].grp.as_mut().unwrap();
                    let j = g.inst.iter().position(|x| x.len() > 1).unwrap();
                    let mut x = g.inst[j].last().unwrap().clone();
                    x.grp = x.grp.map(|g| Grp { delim: g.delim, inst: g.inst });
                    g.inst[j].push(x);
                });
            "tag-repeated-in-group"
        }
        11 => {
            let c: Vec<usize> = (0..m.body.len()).filter(|&i| m.body[i].grp.is_none()).collect();
            if c.is_empty() {
                return None;
            }
            let mut x = m.body[*r.pick(&c)].clone();
            if r.pct(50) && d.fields.contains_key(&x.tag) {
                x.val = value(r, d, x.tag, SMALL);
            }
            let at = r.idx(m.body.len() + 1);
            m.body.insert(at, x);
            f = raw_fields(&m);
            "tag-repeated-in-body"
        }
        12 => {
            let mut x = m.header[r.idx(m.header.len())].clone();
            if x.grp.is_none() && r.pct(50) && d.fields.contains_key(&x.tag) && x.tag != 49 && x.tag != 56 {
                x.val = value(r, d, x.tag, SMALL);
            }
            // keep the session's own first occurrence in front
            m.header.push(x);
            f = raw_fields(&m);
            "tag-repeated-in-header"
        }
        13 => {
            let i = m.body.iter().position(|x| x.grp.is_some())?;
            let x = m.body[i].clone();
            m.body.push(x);
            f = raw_fields(&m);
            "group-repeated"
        }
        14 => {
            site!(|v: &[Item], i: usize| v[i].grp.is_some(), |v: &mut Vec<Item>, i: usize| {
                let n = v[i].grp.as_ref().unwrap().inst.len();
                v[i].val = match how4 {
                    0 => "x".into(),
                    1 => format!("+{}", n),
                    2 => format!(" {}", n),
                    3 => format!("{}.0", n),
                    4 => format!("-{}", n.max(1)),
                    5 => format!("{} ", n),
                    6 => format!("{}", n as u64 + (1 << 32)),
                    _ => format!("{}", n as u64 + (1 << 31)),
                };
            });
            "group-count-not-numeric"
        }
        15 => {
            // a whole header group after the body began
            let g = d.header.iter().find_map(|x| match x {
                Mem::G(t, _, g) => Some((*t, g.delim)),
                _ => None,
            })?;
            let (nb, nt) = own(&m);
            if nb == 0 || f.iter().any(|x| x.0 == g.0.to_string()) {
                return None;
            }
            let at = f.len() - nt - nb + 1 + r.idx(nb);
            f.insert(at, (g.0.to_string(), "1".into()));
            f.insert(at + 1, (g.1.to_string(), "HOP".into()));
            "header-group-in-body"
        }
        16 => {
            // a whole header or body group, or a header field, after the trailer began
            m.trailer = vec![it(93, "3"), it(89, "abc")];
            let moved = match r.below(3) {
                0 => match m.body.iter().position(|x| x.grp.is_some()) {
                    Some(i) => m.body.remove(i),
                    None => return None,
                },
                1 => match m.header.iter().position(|x| x.grp.is_some()) {
                    Some(i) => m.header.remove(i),
                    None => it(97, "Y"),
                },
                _ => {
                    let i = m.header.iter().position(|x| x.tag == 52 || x.tag == 34)?;
                    m.header.remove(i)
                }
            };
            f = raw_fields(&m);
            let mut v = vec![];
            flat(&[moved], &mut v);
            let at = f.len() - r.idx(2);
            for (k, (t, x)) in v.into_iter().enumerate() {
                f.insert(at + k, (t.to_string(), x));
            }
            "other-fields-in-trailer"
        }
        17 => {
            // the trailer begins too early
            let (nb, nt) = own(&m);
            if nb == 0 || nt > 0 {
                return None;
            }
            let at = f.len() - nb + r.idx(nb);
            f.insert(at, ("93".into(), "3".into()));
            f.insert(at + 1, ("89".into(), "abc".into()));
            "trailer-before-body"
        }
        18 => {
            // BeginString, BodyLength or MsgType a second time, anywhere
            let t = *r.pick(&["8", "9", "35"]);
            let v = match t {
                "8" => begin.clone(),
                "9" => "120".into(),
                _ => m.mtype.clone(),
            };
            let at = 1 + r.idx(f.len());
            f.insert(at, (t.into(), v));
            "first-fields-repeated"
        }
        19 => {
            // a group's count without its instances, or its instances without their count
            let mut zero = r.pct(50);
            if r.pct(50) {
                zero = !zero;
            }
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| !g.inst.is_empty()),
                |v: &mut Vec<Item>, i: usize| {
                    if zero {
                        v[i].val = "0".into();
                    } else {
                        v[i].grp.as_mut().unwrap().inst.clear();
                    }
                });
            "group-count-and-instances-apart"
        }
        20 => {
            // any two members of an instance exchanged
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| g.inst.iter().any(|x| x.len() > 1)),
                |v: &mut Vec<Item>, i: usize| {
                    let g = v[i].grp.as_mut().unwrap();
                    let c: Vec<usize> = (0..g.inst.len()).filter(|&j| g.inst[j].len() > 1).collect();
                    let j = c[(how as usize) % c.len()];
                    let n = g.inst[j].len();
                    let a = (how as usize * 7 + 3) % n;
                    let b = (a + 1 + (how as usize / 3) % (n - 1)) % n;
                    g.inst[j].swap(a, b);
                });
            "group-members-exchanged"
        }
        21 => {
            // any member of an instance again, at any later place of the instance
            site!(|v: &[Item], i: usize| v[i].grp.as_ref().map_or(false, |g| g.inst.iter().any(|x| x.len() > 1)),
                |v: &mut Vec<Item>, i: usize| {
                    let g = v[i].grp.as_mut().unwrap();
                    let c: Vec<usize> = (0..g.inst.len()).filter(|&j| g.inst[j].len() > 1).collect();
                    let j = c[(how as usize) % c.len()];
                    let n = g.inst[j].len();
                    let a = 1 + (how as usize * 5 + 1) % (n - 1);
                    let x = g.inst[j][a].clone();
                    let at = a + 1 + (how as usize / 2) % (n - a);
                    g.inst[j].insert(at, x);
                });
            "group-member-repeated"
        }
        22 => {
            // anything at all happens to the list of fields
            for _ in 0..1 + r.idx(3) {
                let n = f.len();
                let (a, b) = (r.idx(n), r.idx(n));
                match r.below(6) {
                    0 | 1 => {
                        let x = f.remove(a);
                        f.insert(b.min(f.len()), x);
                    }
                    2 => {
                        let x = f[a].clone();
                        f.insert(b, x);
                    }
                    3 => f.swap(a, b),
                    4 if n > 6 => {
                        f.remove(a);
                    }
                    _ => {
                        let t = f[b].0.clone();
                        f[a].0 = t;
                    }
                }
            }
            "fields-scrambled"
        }
        _ => {
            m.trailer = vec![it(93, "3"), it(89, "abc"), it(89, "abc")];
            f = raw_fields(&m);
            "tag-repeated-in-trailer"
        }
    };
    // framing must stay intact: no field may start a 10= segment
    if f.iter().any(|x| x.0 == "10") {
        return None;
    }
    Some((raw_wire(&begin, &f), name))
}
