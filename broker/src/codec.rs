//! The monitors' own MQTT codec (client side), written from the standards and
//! sharing nothing with the code under test.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ver {
    V31,
    V311,
    V5,
}
impl Ver {
    pub fn v5(self) -> bool {
        self == Ver::V5
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum PV {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Bin(Vec<u8>),
    Str(String),
    Pair(String, String),
}
pub type Props = Vec<(u8, PV)>;

pub const P_PFI: u8 = 0x01;
pub const P_EXPIRY: u8 = 0x02;
pub const P_CTYPE: u8 = 0x03;
pub const P_RTOPIC: u8 = 0x08;
pub const P_CORR: u8 = 0x09;
pub const P_SUBID: u8 = 0x0b;
pub const P_SEI: u8 = 0x11;
pub const P_ACID: u8 = 0x12;
pub const P_SKA: u8 = 0x13;
pub const P_AMETH: u8 = 0x15;
pub const P_ADATA: u8 = 0x16;
pub const P_RPI: u8 = 0x17;
pub const P_WDELAY: u8 = 0x18;
pub const P_RRI: u8 = 0x19;
pub const P_REASON: u8 = 0x1f;
pub const P_RMAX: u8 = 0x21;
pub const P_TAMAX: u8 = 0x22;
pub const P_ALIAS: u8 = 0x23;
pub const P_MAXQOS: u8 = 0x24;
pub const P_RETAIN: u8 = 0x25;
pub const P_USER: u8 = 0x26;
pub const P_MPS: u8 = 0x27;
pub const P_WILD: u8 = 0x28;
pub const P_SUBIDA: u8 = 0x29;
pub const P_SHARED: u8 = 0x2a;

pub fn kind(id: u8) -> Option<u8> {
    Some(match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => 1,
        0x13 | 0x21 | 0x22 | 0x23 => 2,
        0x02 | 0x11 | 0x18 | 0x27 => 4,
        0x0b => 0,
        0x09 | 0x16 => 5,
        0x03 | 0x08 | 0x12 | 0x15 | 0x1a | 0x1c | 0x1f => 6,
        0x26 => 7,
        _ => return None,
    })
}

pub fn u32p(p: &Props, id: u8) -> Option<u32> {
    p.iter().find(|x| x.0 == id).map(|x| match &x.1 {
        PV::U8(v) => *v as u32,
        PV::U16(v) => *v as u32,
        PV::U32(v) | PV::Var(v) => *v,
        _ => panic!("not a number"),
    })
}
pub fn strp(p: &Props, id: u8) -> Option<String> {
    p.iter().find(|x| x.0 == id).and_then(|x| match &x.1 {
        PV::Str(s) => Some(s.clone()),
        _ => None,
    })
}
pub fn binp(p: &Props, id: u8) -> Option<Vec<u8>> {
    p.iter().find(|x| x.0 == id).and_then(|x| match &x.1 {
        PV::Bin(s) => Some(s.clone()),
        _ => None,
    })
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Pub {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub pid: u16,
    pub props: Props,
    pub payload: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Will {
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub payload: Vec<u8>,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Connect {
    pub ver: Ver,
    pub id: String,
    pub clean: bool,
    pub keep_alive: u16,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub will: Option<Will>,
    pub props: Props,
}
impl Connect {
    pub fn new(ver: Ver, id: &str, clean: bool) -> Connect {
        Connect { ver, id: id.into(), clean, keep_alive: 0, user: None, pass: None, will: None, props: vec![] }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Connack { sp: bool, code: u8, props: Props },
    Publish(Pub),
    Puback { pid: u16, code: u8, props: Props },
    Pubrec { pid: u16, code: u8, props: Props },
    Pubrel { pid: u16, code: u8, props: Props },
    Pubcomp { pid: u16, code: u8, props: Props },
    Suback { pid: u16, codes: Vec<u8>, props: Props },
    Unsuback { pid: u16, codes: Vec<u8>, props: Props },
    Pingresp,
    Disconnect { code: u8, props: Props },
    Auth { code: u8, props: Props },
}

// ---------- encoding ----------
pub fn var(mut n: usize, out: &mut Vec<u8>) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n > 0 {
            out.push(b | 0x80);
        } else {
            out.push(b);
            break;
        }
    }
}
pub fn bin(b: &[u8], out: &mut Vec<u8>) {
    out.extend((b.len() as u16).to_be_bytes());
    out.extend(b);
}
pub fn props(p: &Props, out: &mut Vec<u8>) {
    let mut b = Vec::new();
    for (id, v) in p {
        b.push(*id);
        match v {
            PV::U8(x) => b.push(*x),
            PV::U16(x) => b.extend(x.to_be_bytes()),
            PV::U32(x) => b.extend(x.to_be_bytes()),
            PV::Var(x) => var(*x as usize, &mut b),
            PV::Bin(x) => bin(x, &mut b),
            PV::Str(x) => bin(x.as_bytes(), &mut b),
            PV::Pair(k, v) => {
                bin(k.as_bytes(), &mut b);
                bin(v.as_bytes(), &mut b);
            }
        }
    }
    var(b.len(), out);
    out.extend(b);
}
pub fn frame(head: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![head];
    var(body.len(), &mut o);
    o.extend(body);
    o
}
pub fn connect(c: &Connect) -> Vec<u8> {
    let mut b = Vec::new();
    match c.ver {
        Ver::V31 => {
            bin(b"MQIsdp", &mut b);
            b.push(3);
        }
        Ver::V311 => {
            bin(b"MQTT", &mut b);
            b.push(4);
        }
        Ver::V5 => {
            bin(b"MQTT", &mut b);
            b.push(5);
        }
    }
    let mut f = if c.clean { 2 } else { 0 };
    if let Some(w) = &c.will {
        f |= 4 | w.qos << 3 | if w.retain { 0x20 } else { 0 };
    }
    if c.pass.is_some() {
        f |= 0x40;
    }
    if c.user.is_some() {
        f |= 0x80;
    }
    b.push(f);
    b.extend(c.keep_alive.to_be_bytes());
    if c.ver.v5() {
        props(&c.props, &mut b);
    }
    bin(c.id.as_bytes(), &mut b);
    if let Some(w) = &c.will {
        if c.ver.v5() {
            props(&w.props, &mut b);
        }
        bin(w.topic.as_bytes(), &mut b);
        bin(&w.payload, &mut b);
    }
    if let Some(u) = &c.user {
        bin(u.as_bytes(), &mut b);
    }
    if let Some(p) = &c.pass {
        bin(p, &mut b);
    }
    frame(0x10, &b)
}
pub fn publish(v: Ver, p: &Pub) -> Vec<u8> {
    let mut b = Vec::new();
    bin(p.topic.as_bytes(), &mut b);
    if p.qos > 0 {
        b.extend(p.pid.to_be_bytes());
    }
    if v.v5() {
        props(&p.props, &mut b);
    }
    b.extend(&p.payload);
    frame(0x30 | (p.dup as u8) << 3 | p.qos << 1 | p.retain as u8, &b)
}
/// 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
pub fn ack(ty: u8, pid: u16) -> Vec<u8> {
    frame(ty << 4 | if ty == 6 { 2 } else { 0 }, &pid.to_be_bytes())
}
pub fn ack_code(ty: u8, pid: u16, code: u8) -> Vec<u8> {
    let p = pid.to_be_bytes();
    frame(ty << 4 | if ty == 6 { 2 } else { 0 }, &[p[0], p[1], code])
}
/// options: qos | no-local << 2 | retain-as-published << 3 | retain-handling << 4
pub fn subscribe(v: Ver, pid: u16, pr: &Props, t: &[(String, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    if v.v5() {
        props(pr, &mut b);
    }
    for (f, o) in t {
        bin(f.as_bytes(), &mut b);
        b.push(*o);
    }
    frame(0x82, &b)
}
pub fn unsubscribe(v: Ver, pid: u16, t: &[String]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    if v.v5() {
        b.push(0);
    }
    for f in t {
        bin(f.as_bytes(), &mut b);
    }
    frame(0xa2, &b)
}
pub fn disconnect(v: Ver, code: u8, pr: &Props) -> Vec<u8> {
    if !v.v5() || (code == 0 && pr.is_empty()) {
        return vec![0xe0, 0];
    }
    let mut b = vec![code];
    props(pr, &mut b);
    frame(0xe0, &b)
}
pub fn auth(code: u8, pr: &Props) -> Vec<u8> {
    let mut b = vec![code];
    props(pr, &mut b);
    frame(0xf0, &b)
}

// ---------- decoding ----------
#[derive(Debug, Clone)]
pub struct Bad(pub String);
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
type R<T> = Result<T, Bad>;
fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Bad(s.into()))
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return bad("packet ends inside a field");
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn var(&mut self) -> R<u32> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    return bad("over-long variable byte integer");
                }
                return Ok(v);
            }
        }
        bad("variable byte integer too long")
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        match String::from_utf8(self.bin()?) {
            Ok(s) if !s.contains('\0') => Ok(s),
            _ => bad("string is not valid UTF-8"),
        }
    }
    fn props(&mut self, allowed: &[u8]) -> R<Props> {
        let n = self.var()? as usize;
        let mut r = Rd(self.take(n)?);
        let mut out: Props = vec![];
        while !r.0.is_empty() {
            let id = r.var()?;
            if id > 255 || !allowed.contains(&(id as u8)) {
                return bad(format!("property {id:#x} not allowed here"));
            }
            let id = id as u8;
            if id != P_USER && id != P_SUBID && out.iter().any(|x| x.0 == id) {
                return bad(format!("property {id:#x} twice"));
            }
            let v = match kind(id).unwrap() {
                0 => PV::Var(r.var()?),
                1 => PV::U8(r.u8()?),
                2 => PV::U16(r.u16()?),
                4 => PV::U32(r.u32()?),
                5 => PV::Bin(r.bin()?),
                6 => PV::Str(r.str()?),
                _ => PV::Pair(r.str()?, r.str()?),
            };
            out.push((id, v));
        }
        Ok(out)
    }
}

/// Takes one whole packet off the front: its bytes, or None when incomplete.
pub fn split(buf: &[u8]) -> R<Option<usize>> {
    let (mut n, mut i) = (0usize, 1);
    loop {
        if i >= buf.len() {
            return Ok(None);
        }
        n |= ((buf[i] & 0x7f) as usize) << (7 * (i - 1));
        if buf[i] & 0x80 == 0 {
            break;
        }
        i += 1;
        if i > 4 {
            return bad("remaining length too long");
        }
    }
    let total = i + 1 + n;
    Ok(if buf.len() >= total { Some(total) } else { None })
}

pub fn decode(v: Ver, pkt: &[u8]) -> R<S> {
    let head = pkt[0];
    let mut i = 1;
    while pkt[i] & 0x80 != 0 {
        i += 1;
    }
    let mut r = Rd(&pkt[i + 1..]);
    let ty = head >> 4;
    let fl = head & 15;
    if ty != 3 && fl != if ty == 6 { 2 } else { 0 } {
        return bad(format!("reserved flags {fl:#x} in packet type {ty}"));
    }
    const ACKP: [u8; 2] = [P_REASON, P_USER];
    let out = match ty {
        2 => {
            let f = r.u8()?;
            if f > 1 {
                return bad("connack flags");
            }
            let code = r.u8()?;
            let props = if v.v5() {
                r.props(&[0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1f, 0x26, 0x28, 0x29, 0x2a, 0x13, 0x1a, 0x1c, 0x15, 0x16])?
            } else {
                vec![]
            };
            S::Connack { sp: f == 1, code, props }
        }
        3 => {
            let qos = fl >> 1 & 3;
            if qos == 3 {
                return bad("QoS 3");
            }
            let dup = fl & 8 != 0;
            if qos == 0 && dup {
                return bad("dup on QoS 0");
            }
            let topic = r.str()?;
            if topic.contains(['+', '#']) {
                return bad("wildcard in a topic name");
            }
            let pid = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && pid == 0 {
                return bad("packet identifier 0");
            }
            let props = if v.v5() { r.props(&[0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x23, 0x26])? } else { vec![] };
            let payload = r.take(r.0.len())?.to_vec();
            S::Publish(Pub { dup, qos, retain: fl & 1 == 1, topic, pid, props, payload })
        }
        4..=7 => {
            let pid = r.u16()?;
            let (mut code, mut props) = (0, vec![]);
            if v.v5() && !r.0.is_empty() {
                code = r.u8()?;
                if !r.0.is_empty() {
                    props = r.props(&ACKP)?;
                }
            }
            if pid == 0 {
                return bad("packet identifier 0");
            }
            match ty {
                4 => S::Puback { pid, code, props },
                5 => S::Pubrec { pid, code, props },
                6 => S::Pubrel { pid, code, props },
                _ => S::Pubcomp { pid, code, props },
            }
        }
        9 | 11 => {
            let pid = r.u16()?;
            let props = if v.v5() { r.props(&ACKP)? } else { vec![] };
            let codes = r.take(r.0.len())?.to_vec();
            if ty == 9 {
                S::Suback { pid, codes, props }
            } else {
                S::Unsuback { pid, codes, props }
            }
        }
        13 => S::Pingresp,
        14 if v.v5() => {
            let (mut code, mut props) = (0, vec![]);
            if !r.0.is_empty() {
                code = r.u8()?;
                if !r.0.is_empty() {
                    props = r.props(&[0x1f, 0x26, 0x1c])?;
                }
            }
            S::Disconnect { code, props }
        }
        15 if v.v5() => {
            let (mut code, mut props) = (0, vec![]);
            if !r.0.is_empty() {
                code = r.u8()?;
                if !r.0.is_empty() {
                    props = r.props(&[0x15, 0x16, 0x1f, 0x26])?;
                }
            }
            S::Auth { code, props }
        }
        t => return bad(format!("packet type {t} is not for a client")),
    };
    if !r.0.is_empty() {
        return bad("trailing bytes in packet");
    }
    Ok(out)
}

/// The standards' matching of a topic against a filter (no share prefix).
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (Some(&"#"), _) => true,
            (None, None) => true,
            (Some(&"+"), Some(_)) => go(&f[1..], &t[1..]),
            (Some(a), Some(b)) if a == b => go(&f[1..], &t[1..]),
            _ => false,
        }
    }
    go(&f, &t)
}
/// `$share/group/filter` → (group, filter)
pub fn share(filter: &str) -> Option<(&str, &str)> {
    filter.strip_prefix("$share/").and_then(|r| r.split_once('/'))
}
