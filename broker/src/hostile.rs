//! Hostile input (C24): attackers send garbage, damaged packet sequences,
//! packets that break the protocol and broken transport framing, while other
//! clients go about their business and must not notice.
use crate::codec::*;
use crate::model::report;
use crate::net::Policy;
use crate::tp::{Kind, Ws};
use crate::world::*;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

// ---------------------------------------------------------------- a strict reader of what clients send

/// What the broker may make of a stream of client bytes.
#[derive(Default, Debug)]
pub struct Reading {
    /// topic and payload of messages, wills included
    pub messages: BTreeSet<(String, Vec<u8>)>,
    pub filters: BTreeSet<String>,
    pub id: Option<String>,
    /// complete, well-formed packets
    pub packets: usize,
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn n(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.n(1).map(|b| b[0])
    }
    fn u16(&mut self) -> Option<u16> {
        self.n(2).map(|b| u16::from_be_bytes([b[0], b[1]]))
    }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()?;
        self.n(n as usize)
    }
    fn str(&mut self) -> Option<String> {
        String::from_utf8(self.bin()?.to_vec()).ok()
    }
    fn var(&mut self) -> Option<usize> {
        let mut n = 0usize;
        for i in 0..4 {
            let b = self.u8()?;
            n |= ((b & 0x7f) as usize) << (7 * i);
            if b & 0x80 == 0 {
                return Some(n);
            }
        }
        None
    }
    /// → topic alias
    fn props(&mut self) -> Option<Option<u16>> {
        let n = self.var()?;
        let mut r = Rd(self.n(n)?);
        let mut alias = None;
        while !r.0.is_empty() {
            let id = r.u8()?;
            match kind(id)? {
                0 => drop(r.var()?),
                1 => drop(r.u8()?),
                2 => {
                    let v = r.u16()?;
                    if id == P_ALIAS {
                        alias = Some(v);
                    }
                }
                4 => drop(r.n(4)?),
                5 => drop(r.bin()?),
                6 => drop(r.str()?),
                _ => {
                    r.str()?;
                    r.str()?;
                }
            }
        }
        Some(alias)
    }
}

/// Deliberately generous where it does not matter: whatever it does not
/// accept, no broker may act on.
pub fn read(bytes: &[u8]) -> Reading {
    let mut out = Reading::default();
    let mut rd = Rd(bytes);
    let mut v5 = false;
    let mut aliases: BTreeMap<u16, String> = BTreeMap::new();
    let mut first = true;
    while !rd.0.is_empty() {
        let ok = (|| {
            let head = rd.u8()?;
            let n = rd.var()?;
            if first != (head == 0x10) {
                return None;
            }
            // the packet crate reads a CONNECT field by field, whatever length it claims
            let mut b = if first { Rd(rd.0) } else { Rd(rd.n(n)?) };
            match head >> 4 {
                1 => {
                    let name = b.bin()?;
                    let level = b.u8()?;
                    v5 = match (name, level) {
                        (b"MQIsdp", 3) | (b"MQTT", 4) => false,
                        (b"MQTT", 5) => true,
                        _ => return None,
                    };
                    let f = b.u8()?;
                    b.u16()?;
                    if v5 {
                        b.props()?;
                    }
                    out.id = Some(b.str()?);
                    if f & 4 != 0 {
                        if v5 {
                            b.props()?;
                        }
                        let t = b.str()?;
                        let p = b.bin()?.to_vec();
                        out.messages.insert((t, p));
                    }
                    if f & 0x80 != 0 {
                        b.bin()?;
                    }
                    if f & 0x40 != 0 {
                        b.bin()?;
                    }
                    rd.0 = b.0;
                }
                3 => {
                    let mut t = b.str()?;
                    if head & 6 != 0 {
                        b.u16().filter(|p| *p > 0)?;
                    }
                    if v5 && let Some(a) = b.props()? {
                        if t.is_empty() {
                            t = aliases.get(&a)?.clone();
                        } else {
                            aliases.insert(a, t.clone());
                        }
                    }
                    out.messages.insert((t, b.0.to_vec()));
                }
                8 if head == 0x82 => {
                    b.u16().filter(|p| *p > 0)?;
                    if v5 {
                        b.props()?;
                    }
                    let mut f = vec![];
                    while !b.0.is_empty() {
                        f.push(b.str()?);
                        b.u8()?;
                    }
                    out.filters.extend(f);
                }
                4..=7 | 10 | 12 | 14 | 15 => {}
                _ => return None,
            }
            Some(())
        })();
        if ok.is_none() {
            break;
        }
        first = false;
        out.packets += 1;
    }
    out
}

// ---------------------------------------------------------------- packets that break the protocol

#[derive(Clone, Debug, PartialEq)]
enum Effect {
    None,
    /// a message with this payload
    Message,
    Subscription(String),
    /// removes the subscription made before
    Unsubscription(String),
    /// a normal end, were it well-formed
    Farewell,
}

struct Breaker {
    name: &'static str,
    bytes: Vec<u8>,
    effect: Effect,
}

fn raw_publish(head: u8, topic: &[u8], pid: Option<u16>, props: Option<&[u8]>, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    bin(topic, &mut b);
    if let Some(p) = pid {
        b.extend(p.to_be_bytes());
    }
    if let Some(p) = props {
        var(p.len(), &mut b);
        b.extend(p);
    }
    b.extend(payload);
    frame(head, &b)
}

fn raw_sub(head: u8, pid: u16, props: Option<&[u8]>, t: &[(&[u8], u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    if let Some(p) = props {
        var(p.len(), &mut b);
        b.extend(p);
    }
    for (f, o) in t {
        bin(f, &mut b);
        b.push(*o);
    }
    frame(head, &b)
}

fn raw_unsub(head: u8, pid: u16, props: Option<&[u8]>, t: &[&[u8]]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    if let Some(p) = props {
        var(p.len(), &mut b);
        b.extend(p);
    }
    for f in t {
        bin(f, &mut b);
    }
    frame(head, &b)
}

struct Limits {
    max_qos: u8,
    alias_max: u16,
    retain: bool,
    max_packet: u32,
}

/// Packets no connected client may send.
fn breakers(ver: Ver, tok: &str, sub: &str, lim: &Limits, rng: &mut Rng) -> Vec<Breaker> {
    let v5 = ver.v5();
    let no: Option<&[u8]> = if v5 { Some(&[]) } else { None };
    let p = tok.as_bytes();
    let f = format!("evil/f/{tok}");
    let fb = f.as_bytes();
    let mut v: Vec<Breaker> = vec![];
    let mut add = |name: &'static str, bytes: Vec<u8>, effect: Effect| v.push(Breaker { name, bytes, effect });
    let m = || Effect::Message;
    let s = || Effect::Subscription(f.clone());
    // PUBLISH
    let retain = if lim.retain { rng.below(2) as u8 } else { 0 };
    add("publish of qos 3", raw_publish(0x36 | retain, b"evil/x", Some(7), no, p), m());
    add("publish of qos 0 with dup", raw_publish(0x38 | retain, b"evil/x", None, no, p), m());
    add("publish with packet identifier 0", raw_publish(0x32 | retain, b"evil/x", Some(0), no, p), m());
    add("publish to +", raw_publish(0x30 | retain, b"evil/+", None, no, p), m());
    add("publish to #", raw_publish(0x30 | retain, b"evil/#", None, no, p), m());
    add("publish to $", raw_publish(0x30 | retain, b"$evil/x", None, no, p), m());
    add("publish to an empty topic", raw_publish(0x30 | retain, b"", None, no, p), m());
    add("publish to a topic that is no utf-8", raw_publish(0x30 | retain, b"evil/\xff", None, no, p), m());
    add("publish to a topic with a null", raw_publish(0x30 | retain, b"evil/\0", None, no, p), m());
    add("publish shorter than its topic", vec![0x30, 4, 0, 9, b'e', b'v'], Effect::None);
    if v5 {
        add("publish with topic alias 0", raw_publish(0x30, b"evil/x", None, Some(&[0x23, 0, 0]), p), m());
        if lim.alias_max < 65535 {
            let a = (lim.alias_max + 1).to_be_bytes();
            add("publish with a topic alias too large", raw_publish(0x30, b"evil/x", None, Some(&[0x23, a[0], a[1]]), p), m());
        }
        if lim.alias_max > 0 {
            add("publish with an unbound topic alias", raw_publish(0x30, b"", None, Some(&[0x23, 0, 1]), p), m());
        }
        add("publish with a subscription identifier", raw_publish(0x30, b"evil/x", None, Some(&[0x0b, 1]), p), m());
        add("publish with an unknown property", raw_publish(0x30, b"evil/x", None, Some(&[0x7d, 1]), p), m());
        add("publish with a property of connect", raw_publish(0x30, b"evil/x", None, Some(&[0x11, 0, 0, 0, 1]), p), m());
        add("publish with a property given twice", raw_publish(0x30, b"evil/x", None, Some(&[0x01, 0, 0x01, 0]), p), m());
        add("publish with a boolean of 2", raw_publish(0x30, b"evil/x", None, Some(&[0x01, 2]), p), m());
        add("publish with a response topic that is a filter", raw_publish(0x30, b"evil/x", None, Some(&[0x08, 0, 1, b'#']), p), m());
        {
            let mut b = vec![];
            bin(b"evil/x", &mut b);
            var(200, &mut b);
            b.extend(p);
            add("publish with properties past its end", frame(0x30, &b), m());
        }
        if lim.max_qos < 2 {
            add("publish above the maximum qos", raw_publish(0x30 | (lim.max_qos + 1) << 1, b"evil/x", Some(9), no, p), m());
        }
        add("utf-8 payload that is none", raw_publish(0x30, b"evil/x", None, Some(&[0x01, 1]), &[p, b"\xff\xfe"].concat()), Effect::None);
    }
    if (lim.max_packet as usize) < 100_000 {
        let mut q = p.to_vec();
        q.resize(lim.max_packet as usize + 1, b'.');
        add("publish larger than the broker takes", raw_publish(0x30 | retain, b"evil/x", None, no, &q), m());
    }
    // SUBSCRIBE
    add("subscribe with the wrong flags", raw_sub(0x80, 8, no, &[(fb, 1)]), s());
    add("subscribe with packet identifier 0", raw_sub(0x82, 0, no, &[(fb, 1)]), s());
    add("subscribe with nothing", raw_sub(0x82, 8, no, &[]), Effect::None);
    add("subscribe with qos 3", raw_sub(0x82, 8, no, &[(fb, 3)]), s());
    add("subscribe with reserved options", raw_sub(0x82, 8, no, &[(fb, 0x81)]), s());
    add("subscribe with a filter and one that is none", raw_sub(0x82, 8, no, &[(fb, 1), (b"a/#/b", 1)]), s());
    add("subscribe with a filter and an empty one", raw_sub(0x82, 8, no, &[(fb, 1), (b"", 1)]), s());
    add("subscribe with a filter that is no utf-8", raw_sub(0x82, 8, no, &[(fb, 1), (b"\xc0\x80", 1)]), s());
    add("subscribe cut short", { let mut b = raw_sub(0x82, 8, no, &[(fb, 1), (b"evil/y", 1)]); b.truncate(b.len() - 3); b[1] -= 3; b }, s());
    if v5 {
        add("subscribe with identifier 0", raw_sub(0x82, 8, Some(&[0x0b, 0]), &[(fb, 1)]), s());
        add("subscribe with retain handling 3", raw_sub(0x82, 8, no, &[(fb, 0x31)]), s());
        add("subscribe no-local to a shared filter", raw_sub(0x82, 8, no, &[(fb, 1), (b"$share/g/evil/q", 0x05)]), s());
        add("subscribe with a property of publish", raw_sub(0x82, 8, Some(&[0x23, 0, 1]), &[(fb, 1)]), s());
        add("subscribe to a share without a name", raw_sub(0x82, 8, no, &[(fb, 1), (b"$share//evil/q", 1)]), s());
    } else {
        add("subscribe with options of version 5", raw_sub(0x82, 8, no, &[(fb, 0x21)]), s());
    }
    // UNSUBSCRIBE of a subscription that is there
    let u = || Effect::Unsubscription(sub.to_string());
    let sb = sub.as_bytes();
    add("unsubscribe with the wrong flags", raw_unsub(0xa0, 8, no, &[sb]), u());
    add("unsubscribe with packet identifier 0", raw_unsub(0xa2, 0, no, &[sb]), u());
    add("unsubscribe with nothing", raw_unsub(0xa2, 8, no, &[]), Effect::None);
    add("unsubscribe with a filter that is none", raw_unsub(0xa2, 8, no, &[sb, b"x#"]), u());
    // what only a broker sends
    add("connack", if v5 { vec![0x20, 3, 0, 0, 0] } else { vec![0x20, 2, 0, 0] }, Effect::None);
    add("suback", if v5 { vec![0x90, 4, 0, 1, 0, 0] } else { vec![0x90, 3, 0, 1, 0] }, Effect::None);
    add("unsuback", if v5 { vec![0xb0, 4, 0, 1, 0, 0] } else { vec![0xb0, 2, 0, 1] }, Effect::None);
    add("pingresp", vec![0xd0, 0], Effect::None);
    // another CONNECT
    {
        let mut c = Connect::new(ver, if rng.bool() { "evil-second" } else { "h0" }, true);
        c.will = Some(Will { qos: 0, retain: false, topic: "evil/w2".into(), payload: p.to_vec(), props: vec![] });
        add("second connect", connect(&c), m());
    }
    // acknowledgements
    add("puback with identifier 0", vec![0x40, 2, 0, 0], Effect::None);
    add("puback with flags", vec![0x42, 2, 0, 1], Effect::None);
    add("pubrel with the wrong flags", vec![0x60, 2, 0, 1], Effect::None);
    add("puback cut short", vec![0x40, 1, 0], Effect::None);
    // the rest
    add("packet type 0", vec![0x00, 0], Effect::None);
    add("pingreq with flags", vec![0xc1, 0], Effect::None);
    add("length without end", vec![0x30, 0x80, 0x80, 0x80, 0x80, 0x01, 0, 1, b'x'], Effect::None);
    add("disconnect with flags", vec![0xe1, 0], Effect::Farewell);
    if v5 {
        add("disconnect of an unknown reason", vec![0xe0, 2, 0x03, 0], Effect::Farewell);
        add("disconnect with a property of publish", vec![0xe0, 5, 0, 3, 0x23, 0, 1], Effect::Farewell);
        add("auth without a method", vec![0xf0, 2, 0x18, 0], Effect::None);
        add("auth of nothing", vec![0xf0, 0], Effect::None);
        add("re-authentication never agreed upon", auth(0x19, &vec![(P_AMETH, PV::Str("SCRAM-SHA-256".into())), (P_ADATA, PV::Bin(b"n,,n=u,r=x".to_vec()))]), Effect::None);
    } else {
        add("auth", vec![0xf0, 0], Effect::None);
    }
    v
}

/// First packets that must not connect anybody. `id` may be a healthy client's.
fn first_breakers(ver: Ver, id: &str, tok: &str, lim: &Limits) -> Vec<Breaker> {
    let v5 = ver.v5();
    let p = tok.as_bytes();
    let mut v: Vec<Breaker> = vec![];
    let mut add = |name: &'static str, bytes: Vec<u8>, effect: Effect| v.push(Breaker { name, bytes, effect });
    let no: Option<&[u8]> = if v5 { Some(&[]) } else { None };
    add("publish first", raw_publish(0x31, b"evil/x", None, no, p), Effect::Message);
    add("subscribe first", raw_sub(0x82, 8, no, &[(format!("evil/f/{tok}").as_bytes(), 1)]), Effect::None);
    add("pingreq first", vec![0xc0, 0], Effect::None);
    add("disconnect first", vec![0xe0, 0], Effect::None);
    add("auth first", vec![0xf0, 2, 0x18, 0], Effect::None);
    add("connack first", vec![0x20, 2, 0, 0], Effect::None);
    let base = || {
        let mut c = Connect::new(ver, id, true);
        c.will = Some(Will { qos: 0, retain: lim.retain, topic: "evil/w".into(), payload: p.to_vec(), props: vec![] });
        c
    };
    let raw = connect(&base());
    // protocol name and level
    let n = if ver == Ver::V31 { 6 } else { 4 };
    let at = 2 + 2 + n; // level
    let mut b = raw.clone();
    b[at] = 9;
    add("unknown protocol level", b, Effect::Message);
    let mut b = raw.clone();
    b[4] = b'X';
    add("unknown protocol name", b, Effect::Message);
    let mut b = raw.clone();
    b[at + 1] |= 1;
    add("reserved connect flag", b, Effect::Message);
    let mut b = raw.clone();
    b[at + 1] |= 0x18;
    add("will of qos 3", b, Effect::Message);
    let mut b = raw.clone();
    b[0] = 0x11;
    add("connect with flags", b, Effect::Message);
    let with = |f: &dyn Fn(&mut Connect)| {
        let mut c = base();
        f(&mut c);
        connect(&c)
    };
    add("will without a topic", with(&|c| c.will.as_mut().unwrap().topic.clear()), Effect::Message);
    add("will to $", with(&|c| c.will.as_mut().unwrap().topic = "$evil/w".into()), Effect::Message);
    add("will to +", with(&|c| c.will.as_mut().unwrap().topic = "evil/+".into()), Effect::Message);
    add("will to #", with(&|c| c.will.as_mut().unwrap().topic = "#".into()), Effect::Message);
    add("identifier with a null", { let mut c = base(); c.id = format!("{id}\0"); connect(&c) }, Effect::Message);
    if v5 {
        add("receive maximum 0", with(&|c| c.props.push((P_RMAX, PV::U16(0)))), Effect::Message);
        add("maximum packet size 0", with(&|c| c.props.push((P_MPS, PV::U32(0)))), Effect::Message);
        add("authentication data without a method", with(&|c| c.props.push((P_ADATA, PV::Bin(vec![1])))), Effect::Message);
        add("unknown authentication method", with(&|c| c.props.push((P_AMETH, PV::Str("FOO".into())))), Effect::Message);
        add("property given twice", with(&|c| c.props.extend([(P_RMAX, PV::U16(3)), (P_RMAX, PV::U16(4))])), Effect::Message);
        add("property of publish", with(&|c| c.props.push((P_ALIAS, PV::U16(3)))), Effect::Message);
        add("boolean of 2", with(&|c| c.props.push((P_RPI, PV::U8(2)))), Effect::Message);
        add("unknown property", with(&|c| c.props.push((0x7d, PV::U8(2)))), Effect::Message);
        if !lim.retain {
            add("retained will where nothing is retained", with(&|c| c.will.as_mut().unwrap().retain = true), Effect::Message);
        }
        if lim.max_qos < 2 {
            add("will above the maximum qos", with(&|c| c.will.as_mut().unwrap().qos = lim.max_qos + 1), Effect::Message);
        }
    } else {
        add("password without a user", { let mut c = base(); c.pass = Some(b"p".to_vec()); connect(&c) }, Effect::Message);
        if ver == Ver::V311 {
            add("no identifier, session kept", { let mut c = base(); c.id.clear(); c.clean = false; connect(&c) }, Effect::Message);
        } else {
            add("no identifier", { let mut c = base(); c.id.clear(); connect(&c) }, Effect::Message);
        }
    }
    v
}

// ---------------------------------------------------------------- the world

/// A client that must not notice anything.
struct Healthy {
    conn: Connect,
    cli: usize,
    filter: String,
    sub_qos: u8,
    /// topic, payload → qos, once each
    want: BTreeMap<(String, Vec<u8>), u8>,
    acks: usize,
    pings: usize,
    online: bool,
}

struct Attacker {
    cli: usize,
    sent: Vec<u8>,
    /// bytes still to come
    queue: Vec<Vec<u8>>,
    wild: bool,
}

/// A session whose subscriptions are looked at once the attack is over.
struct Probe {
    conn: Connect,
    cli: usize,
    /// must not be subscribed to
    never: Vec<String>,
    /// must still be subscribed to
    still: Vec<String>,
    what: String,
}

struct Siege {
    w: World,
    rng: Rng,
    lim: Limits,
    healthy: Vec<Healthy>,
    attackers: Vec<Attacker>,
    probes: Vec<Probe>,
    /// payloads of packets that broke the protocol → what it was
    forbidden: BTreeMap<Vec<u8>, String>,
    allowed: BTreeSet<(String, Vec<u8>)>,
    /// wills that must have come
    owed: BTreeMap<Vec<u8>, String>,
    seen: BTreeSet<Vec<u8>>,
    seq: u32,
    stats: BTreeMap<String, u64>,
    deliveries: u64,
    /// broken framing still to be sent: connection, bytes, around TLS
    later: Vec<(usize, Vec<u8>, bool)>,
    said: Vec<usize>,
}

impl Siege {
    fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.into()).or_default() += n;
    }
    fn tok(&mut self, p: &str) -> String {
        self.seq += 1;
        format!("{p}{}_", self.seq)
    }
    fn kind(&mut self) -> Kind {
        self.rng.pick(&[Kind::Plain, Kind::Plain, Kind::Plain, Kind::Ws, Kind::Tls, Kind::Wss]).possible()
    }
    fn ver(&mut self) -> Ver {
        *self.rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5])
    }

    async fn setup(&mut self) {
        let n = self.rng.range(2, 4);
        for i in 0..n {
            let ver = if i == 0 { *self.rng.pick(&[Ver::V311, Ver::V5]) } else { self.ver() };
            // the first sees everything
            let filter = if i == 0 { "#" } else { *self.rng.pick(&["h/#", "h/+/+", "h/#"]) }.to_string();
            let mut conn = Connect::new(ver, &format!("h{i}"), false);
            if ver.v5() {
                conn.props.push((P_SEI, PV::U32(100_000)));
            }
            self.w.kind = self.kind();
            let cli = self.w.connect(conn.clone()).await;
            self.w.settle().await;
            let sub_qos = self.rng.below(self.lim.max_qos as usize + 1) as u8;
            self.w.clis[cli].subscribe(&vec![], &[(filter.clone(), sub_qos)]);
            self.w.settle().await;
            let got = self.w.clis[cli].take();
            if !self.w.clis[cli].live() || !got.iter().any(|p| matches!(p, S::Suback { .. })) {
                self.w.issue("C24", "healthy-client-not-served", format!("h{i}: {:?} {got:?}", self.w.clis[cli].connack));
            }
            self.healthy.push(Healthy { conn, cli, filter, sub_qos, want: BTreeMap::new(), acks: 0, pings: 0, online: true });
        }
    }

    /// A healthy client publishes something.
    fn chat(&mut self, i: usize) {
        let h = &self.healthy[i];
        if !h.online {
            return;
        }
        let qos = self.rng.below(self.lim.max_qos as usize + 1) as u8;
        let topic = format!("h/{i}/{}", self.rng.below(2));
        let payload = format!("{}{}", self.tok("m"), "-".repeat(*self.rng.pick(&[0, 0, 3, 40]))).into_bytes();
        let h = &mut self.healthy[i];
        let cli = h.cli;
        if qos > 0 {
            h.acks += 1;
        }
        let c = &mut self.w.clis[cli];
        let pid = if qos > 0 { c.pid() } else { 0 };
        self.w.clis[cli].publish(&Pub { qos, topic: topic.clone(), pid, payload: payload.clone(), ..Pub::default() });
        for g in &mut self.healthy {
            // QoS 0 is not kept for the absent
            let q = qos.min(g.sub_qos);
            if matches(&g.filter, &topic) && (g.online || q > 0) {
                g.want.insert((topic.clone(), payload.clone()), q);
            }
        }
        self.stat("healthy-publishes", 1);
    }

    fn ping(&mut self, i: usize) {
        if self.healthy[i].online {
            self.healthy[i].pings += 1;
            self.w.clis[self.healthy[i].cli].ping();
        }
    }

    /// Everybody at rest: what the healthy clients have seen is judged.
    async fn judge(&mut self, what: &str) {
        for _ in 0..5 {
            self.w.settle().await;
            self.dismiss();
            self.w.pass(Duration::from_millis(500), Duration::from_millis(500)).await;
            // complete QoS 2
            for h in &mut self.healthy {
                let c = &mut self.w.clis[h.cli];
                let mut rel = vec![];
                c.inbox.retain(|p| match p {
                    S::Pubrec { pid, code, .. } if *code < 0x80 => {
                        rel.push(*pid);
                        false
                    }
                    S::Puback { code, .. } if *code < 0x80 => {
                        h.acks = h.acks.wrapping_sub(1);
                        false
                    }
                    S::Pubcomp { .. } => {
                        h.acks = h.acks.wrapping_sub(1);
                        false
                    }
                    S::Pingresp => {
                        h.pings = h.pings.wrapping_sub(1);
                        false
                    }
                    _ => true,
                });
                for pid in rel {
                    c.send(&ack(6, pid));
                }
            }
        }
        self.w.settle().await;
        self.learn();
        for k in 0..self.healthy.len() {
            let h = &mut self.healthy[k];
            if !h.online {
                continue;
            }
            let c = &mut self.w.clis[h.cli];
            let app = c.take_app();
            let rest: Vec<S> = c.take().into_iter().filter(|p| !matches!(p, S::Publish(_) | S::Pubrel { .. } | S::Connack { .. } | S::Suback { .. } | S::Puback { .. } | S::Pubcomp { .. } | S::Pingresp)).collect();
            let mut bad: Vec<(&'static str, &str, String)> = vec![];
            if !c.live() {
                bad.push(("C24", "healthy-connection-closed", format!("{:?} {:?}", c.outcome, c.server_disc)));
            }
            if !rest.is_empty() {
                bad.push(("C24", "healthy-client-told-off", format!("{rest:?}")));
            }
            for p in app {
                self.deliveries += 1;
                let key = (p.topic.clone(), p.payload.clone());
                if p.topic.starts_with("h/") {
                    match h.want.remove(&key) {
                        Some(q) if q == p.qos => {}
                        Some(q) => bad.push(("C24", "healthy-message-altered", format!("QoS {} instead of {q}: {p:?}", p.qos))),
                        None => bad.push(("C24", "message-out-of-nowhere", format!("{p:?}"))),
                    }
                    continue;
                }
                if let Some(b) = self.forbidden.iter().find(|(f, _)| p.payload.starts_with(f)) {
                    bad.push(("C24", "broken-packet-acted-on", format!("{}: its message came out: {p:?}", b.1)));
                } else if !self.allowed.contains(&key) {
                    bad.push(("C24", "message-out-of-nowhere", format!("{p:?}")));
                }
                self.seen.insert(p.payload);
            }
            if !h.want.is_empty() {
                bad.push(("C24", "healthy-message-lost", format!("{:?}", h.want.keys().map(|(t, p)| format!("{t} {}", String::from_utf8_lossy(p))).collect::<Vec<_>>())));
            }
            if h.acks != 0 || h.pings != 0 {
                bad.push(("C24", "healthy-client-not-answered", format!("{} publishes and {} pings unanswered", h.acks as isize, h.pings as isize)));
            }
            for (p, s, d) in bad {
                self.w.issue(p, s, format!("{what}: h{k}: {d}"));
            }
        }
        let owed: Vec<_> = self.owed.iter().filter(|(p, _)| !self.seen.contains(*p)).map(|(p, w)| format!("{} of {w}", String::from_utf8_lossy(p))).collect();
        if !owed.is_empty() {
            self.w.issue("C24", "broken-farewell-acted-on", format!("{what}: the connection ended, its will did not come: {owed:?}"));
        }
        self.owed.clear();
        self.stat("judgements", 1);
    }

    /// Told to go, an attacker closes.
    fn dismiss(&mut self) {
        for c in &mut self.w.clis {
            if c.server_disc.is_some() && !c.gone {
                c.end.eof();
                c.gone = true;
            }
        }
    }

    /// What the streams of the wild attackers entitle them to.
    fn learn(&mut self) {
        for a in &self.attackers {
            if a.wild {
                self.allowed.extend(read(&a.sent).messages);
            }
        }
    }

    fn fresh(&mut self, ver: Ver) -> usize {
        let kind = self.kind();
        self.w.policy = Policy {
            read_chunk: if matches!(kind, Kind::Ws | Kind::Wss) { 0 } else { *self.rng.pick(&[0, 0, 1, 5, 50]) },
            write_chunk: *self.rng.pick(&[0, 0, 3, 100]),
            pending: *self.rng.pick(&[0, 0, 3]),
            ..Policy::default()
        };
        let i = self.w.open_raw(ver, kind);
        self.w.policy = Policy::default();
        i
    }

    // ---- packets that break the protocol
    async fn structured(&mut self) {
        let ver = self.ver();
        let tok = self.tok("x");
        let name = self.tok("evil");
        let sub = format!("evil/s/{tok}");
        let all = breakers(ver, &tok, &sub, &self.lim, &mut self.rng);
        let k = self.rng.below(all.len());
        let b = all.into_iter().nth(k).unwrap();
        let i = self.fresh(ver);
        let mut conn = Connect::new(ver, &name, false);
        if ver.v5() {
            conn.props.push((P_SEI, PV::U32(100_000)));
        }
        let will = self.rng.chance(2, 3).then(|| self.tok("will"));
        if let Some(t) = &will {
            conn.will = Some(Will { qos: 0, retain: false, topic: "evil/w".into(), payload: t.clone().into_bytes(), props: vec![] });
            self.allowed.insert(("evil/w".into(), t.clone().into_bytes()));
        }
        let what = format!("{} by {name} ({ver:?}, {:?}, connection {i})", b.name, self.w.clis[i].tp.kind());
        self.w.log(format!("{what}: {:02x?}", &b.bytes[..b.bytes.len().min(60)]));
        self.w.clis[i].become_client(conn.clone());
        let cb = connect(&conn);
        self.w.clis[i].send(&cb);
        let no: Option<&[u8]> = if ver.v5() { Some(&[]) } else { None };
        self.w.settle().await;
        if !self.w.clis[i].live() {
            self.w.issue("C24", "newcomer-not-served", format!("{what}: {:?} {:?}", self.w.clis[i].connack, self.w.clis[i].outcome));
            return;
        }
        self.w.clis[i].send(&raw_sub(0x82, 5, no, &[(sub.as_bytes(), 1)]));
        self.w.settle().await;
        // something proper before, in the same breath
        let mut bytes = vec![];
        for _ in 0..self.rng.below(3) {
            let t = self.tok("ok");
            self.allowed.insert(("evil/ok".into(), t.clone().into_bytes()));
            bytes.extend(raw_publish(0x30, b"evil/ok", None, no, t.as_bytes()));
        }
        bytes.extend(&b.bytes);
        self.forbidden.insert(tok.clone().into_bytes(), what.clone());
        if b.effect == Effect::None || b.effect == Effect::Farewell {
            self.forbidden.remove(tok.as_bytes());
        }
        // and more after it, which is too late
        if self.rng.bool() {
            let t = self.tok("late");
            self.forbidden.insert(t.clone().into_bytes(), format!("publish after {what}"));
            bytes.extend(raw_publish(0x30, b"evil/late", None, no, t.as_bytes()));
        }
        self.w.clis[i].take();
        self.burst(i, &bytes).await;
        self.w.settle().await;
        let c = &mut self.w.clis[i];
        let refusal = c.take().iter().any(|p| match p {
            S::Puback { code, .. } | S::Pubrec { code, .. } | S::Disconnect { code, .. } => *code >= 0x80,
            S::Suback { codes, .. } | S::Unsuback { codes, .. } => codes.iter().any(|c| *c >= 0x80),
            _ => false,
        });
        if !c.closed() && !refusal {
            self.w.issue("C24", "broken-packet-tolerated", format!("{what}: no error, no end of the connection"));
        }
        self.dismiss();
        self.w.settle().await;
        if !self.w.clis[i].closed() {
            // an error for this packet only
            self.w.clis[i].end.eof();
            self.w.clis[i].gone = true;
            self.w.settle().await;
        }
        if let Some(t) = will {
            self.owed.insert(t.into_bytes(), what.clone());
        }
        let mut pr = Probe { conn, cli: i, never: vec![], still: vec![sub], what };
        if let Effect::Subscription(f) = b.effect {
            pr.never.push(f);
        }
        pr.conn.will = None;
        self.probes.push(pr);
        self.stat("broken-packets", 1);
        self.stat(&format!("broken: {}", b.name), 1);
    }

    /// QoS 2 identifiers used again while in use; more of them than allowed.
    async fn reuse(&mut self) {
        if self.lim.max_qos < 2 {
            return;
        }
        let ver = self.ver();
        let (t1, t2, name) = (self.tok("ok"), self.tok("x"), self.tok("evil"));
        let i = self.fresh(ver);
        let conn = Connect::new(ver, &name, true);
        let no: Option<&[u8]> = if ver.v5() { Some(&[]) } else { None };
        self.w.clis[i].become_client(conn.clone());
        self.w.clis[i].send(&connect(&conn));
        let dup = if self.rng.bool() { 8 } else { 0 };
        let what = format!("identifier of an unreleased QoS 2 message used for another (dup {}) by {name} ({ver:?})", dup > 0);
        self.w.log(what.clone());
        self.allowed.insert(("evil/ok".into(), t1.clone().into_bytes()));
        self.forbidden.insert(t2.clone().into_bytes(), what.clone());
        let mut b = raw_publish(0x34, b"evil/ok", Some(3), no, t1.as_bytes());
        b.extend(raw_publish(0x34 | dup, b"evil/ok", Some(3), no, t2.as_bytes()));
        self.w.settle().await;
        self.w.clis[i].take();
        self.burst(i, &b).await;
        self.w.settle().await;
        let c = &mut self.w.clis[i];
        let refusal = c.take().iter().any(|p| matches!(p, S::Pubrec { code: 0x91, .. } | S::Disconnect { .. }));
        if !c.closed() && !refusal {
            self.w.issue("C24", "broken-packet-tolerated", what);
        }
        self.dismiss();
        self.w.clis[i].end.eof();
        self.w.clis[i].gone = true;
        self.stat("broken-packets", 1);
    }

    /// A session that was to end with its connection cannot be kept after all.
    async fn late_expiry(&mut self) {
        let (name, t) = (self.tok("evil"), self.tok("will"));
        let i = self.fresh(Ver::V5);
        let mut conn = Connect::new(Ver::V5, &name, true);
        conn.will = Some(Will { qos: 0, retain: false, topic: "evil/w".into(), payload: t.clone().into_bytes(), props: vec![] });
        self.allowed.insert(("evil/w".into(), t.clone().into_bytes()));
        self.w.clis[i].become_client(conn.clone());
        self.w.clis[i].send(&connect(&conn));
        self.w.settle().await;
        let what = format!("farewell that asks for a session expiry never agreed upon, by {name}");
        self.w.log(what.clone());
        let b = disconnect(Ver::V5, 0, &vec![(P_SEI, PV::U32(100))]);
        self.burst(i, &b).await;
        self.w.settle().await;
        let c = &mut self.w.clis[i];
        if !c.closed() && c.server_disc.is_none() {
            self.w.issue("C24", "broken-packet-tolerated", what.clone());
        }
        self.dismiss();
        self.w.clis[i].end.eof();
        self.w.clis[i].gone = true;
        self.owed.insert(t.into_bytes(), what);
        self.stat("broken-packets", 1);
    }

    async fn first(&mut self) {
        let ver = self.ver();
        let tok = self.tok("x");
        // broken, it cannot take anybody's place
        let id = if self.rng.bool() { let k = self.rng.below(self.healthy.len()); self.healthy[k].conn.id.clone() } else { self.tok("evil") };
        let all = first_breakers(ver, &id, &tok, &self.lim);
        let k = self.rng.below(all.len());
        let b = all.into_iter().nth(k).unwrap();
        let i = self.fresh(ver);
        let what = format!("{} with identifier {id} ({ver:?}, {:?}, connection {i})", b.name, self.w.clis[i].tp.kind());
        self.w.log(format!("{what}: {:02x?}", &b.bytes[..b.bytes.len().min(60)]));
        self.forbidden.insert(tok.into_bytes(), what.clone());
        let mut bytes = b.bytes.clone();
        if self.rng.bool() {
            let t = self.tok("late");
            let no: Option<&[u8]> = if ver.v5() { Some(&[]) } else { None };
            self.forbidden.insert(t.clone().into_bytes(), format!("publish after {what}"));
            bytes.extend(raw_publish(0x30, b"evil/late", None, no, t.as_bytes()));
        }
        self.burst(i, &bytes).await;
        self.w.settle().await;
        let c = &mut self.w.clis[i];
        let sent = c.take();
        if matches!(c.connack, Some((_, 0, _))) {
            self.w.issue("C24", "broken-connect-accepted", what.clone());
        } else if !c.closed() && !sent.iter().any(|p| matches!(p, S::Connack { code, .. } | S::Disconnect { code, .. } if *code > 0)) {
            self.w.issue("C24", "broken-packet-tolerated", format!("{what}: no error, no end of the connection: {sent:?}"));
        }
        self.w.clis[i].end.eof();
        self.w.clis[i].gone = true;
        self.stat("broken-first-packets", 1);
        self.stat(&format!("broken first: {}", b.name), 1);
    }

    /// A well-formed CONNECT of the other generation for an identifier in use.
    async fn impostor(&mut self) {
        let k = self.rng.below(self.healthy.len());
        let h = self.healthy[k].conn.clone();
        let ver = if h.ver.v5() { *self.rng.pick(&[Ver::V31, Ver::V311]) } else { Ver::V5 };
        let tok = self.tok("x");
        let mut c = Connect::new(ver, &h.id, true);
        c.will = Some(Will { qos: 0, retain: false, topic: "evil/w".into(), payload: tok.clone().into_bytes(), props: vec![] });
        let i = self.fresh(ver);
        let what = format!("{} of the other generation {ver:?}", c.id);
        self.w.log(what.clone());
        self.forbidden.insert(tok.into_bytes(), what.clone());
        let b = connect(&c);
        self.burst(i, &b).await;
        self.w.settle().await;
        if !self.w.clis[i].closed() && !matches!(self.w.clis[i].connack, Some((_, 1.., _))) {
            self.w.issue("C24", "impostor-not-refused", what);
        }
        self.w.clis[i].end.eof();
        self.w.clis[i].gone = true;
    }

    // ---- bytes
    /// A valid sequence of client packets, all of it about evil/….
    fn script(&mut self, ver: Ver, name: &str) -> Vec<Vec<u8>> {
        let mut c = Connect::new(ver, name, self.rng.bool());
        if self.rng.bool() {
            let t = self.tok("w");
            c.will = Some(Will { qos: self.rng.below(3) as u8, retain: self.rng.bool(), topic: "evil/w".into(), payload: t.into_bytes(), props: vec![] });
        }
        if self.rng.chance(1, 4) {
            (c.user, c.pass) = (Some("u".into()), Some(b"pw".to_vec()));
        }
        c.keep_alive = *self.rng.pick(&[0, 1, 100, 65535]);
        if ver.v5() {
            for (p, v) in [(P_SEI, PV::U32(3)), (P_RMAX, PV::U16(2)), (P_MPS, PV::U32(60)), (P_TAMAX, PV::U16(1)), (P_RRI, PV::U8(1)), (P_USER, PV::Pair("k".into(), "v".into()))] {
                if self.rng.chance(1, 4) {
                    c.props.push((p, v));
                }
            }
        }
        let mut out = vec![connect(&c)];
        for _ in 0..self.rng.range(1, 10) {
            let pid = self.rng.range(1, 4) as u16;
            let b = match self.rng.below(12) {
                0 | 1 => {
                    let f = self.rng.pick(&["evil/#", "evil/+", "evil/x", "evil/+/y", "+/evil", "$share/g/evil/x"]).to_string();
                    let o = self.rng.below(if ver.v5() { 64 } else { 3 }) as u8;
                    let pr = if ver.v5() && self.rng.bool() { vec![(P_SUBID, PV::Var(self.rng.range(1, 200) as u32))] } else { vec![] };
                    subscribe(ver, pid, &pr, &[(f, o)])
                }
                2 => unsubscribe(ver, pid, &["evil/#".into(), "evil/x".into()]),
                3 => vec![0xc0, 0],
                4 => ack(*self.rng.pick(&[4, 5, 6, 7]), pid),
                5 => ack_code(*self.rng.pick(&[4, 5, 6, 7]), pid, *self.rng.pick(&[0, 0x10, 0x80, 0x92])),
                6 if self.rng.chance(1, 3) => disconnect(ver, if ver.v5() { 4 } else { 0 }, &vec![]),
                _ => {
                    let qos = self.rng.below(3) as u8;
                    let mut pr = vec![];
                    if ver.v5() {
                        for (p, v) in [(P_ALIAS, PV::U16(1)), (P_EXPIRY, PV::U32(9)), (P_CTYPE, PV::Str("c".into())), (P_RTOPIC, PV::Str("evil/r".into())), (P_CORR, PV::Bin(vec![1, 2])), (P_USER, PV::Pair("k".into(), "v".into())), (P_PFI, PV::U8(1))] {
                            if self.rng.chance(1, 5) {
                                pr.push((p, v));
                            }
                        }
                    }
                    let payload = self.tok("e").into_bytes();
                    let topic = self.rng.pick(&["evil/x", "evil/y", "evil/x/y", "evil"]).to_string();
                    publish(ver, &Pub { dup: qos > 0 && self.rng.chance(1, 4), qos, retain: self.rng.chance(1, 4), topic, pid, payload, props: pr })
                }
            };
            out.push(b);
        }
        out
    }

    fn mutate(&mut self, packets: Vec<Vec<u8>>) -> Vec<u8> {
        let mut p = packets;
        // sometimes the CONNECT stays whole, so that what follows is read
        let lo = if p.len() > 1 && self.rng.chance(2, 3) { 1 } else { 0 };
        let head: Vec<u8> = p.drain(..lo).flatten().collect();
        match self.rng.below(4) {
            0 => self.rng.shuffle(&mut p),
            1 => {
                let k = self.rng.below(p.len());
                let x = p[k].clone();
                p.insert(k, x);
            }
            _ => {}
        }
        let mut b: Vec<u8> = p.concat();
        for _ in 0..self.rng.range(0, 4) {
            if b.is_empty() {
                break;
            }
            let k = self.rng.below(b.len());
            match self.rng.below(9) {
                0 | 1 => b[k] ^= 1 << self.rng.below(8),
                2 => b[k] = *self.rng.pick(&[0, 1, 0x7f, 0x80, 0xff]),
                3 => {
                    b.remove(k);
                }
                4 => b.insert(k, self.rng.u64() as u8),
                5 => b.truncate(k),
                6 => {
                    let e = (k + self.rng.range(1, 20)).min(b.len());
                    b.drain(k..e);
                }
                7 => {
                    let e = (k + self.rng.range(1, 20)).min(b.len());
                    let x = b[k..e].to_vec();
                    let at = self.rng.below(b.len());
                    b.splice(at..at, x);
                }
                _ => {
                    let n = self.rng.range(1, 10);
                    let x = self.rng.bytes(n);
                    b.splice(k..k, x);
                }
            }
        }
        [head, b].concat()
    }

    fn wild(&mut self) {
        let ver = self.ver();
        let name = if self.rng.bool() { format!("evil-{}", self.rng.below(3)) } else { self.tok("evil") };
        let i = self.fresh(ver);
        self.w.clis[i].wild = true;
        let bytes = match self.rng.below(8) {
            0 => {
                let n = self.rng.range(1, 300);
                self.rng.bytes(n)
            }
            1 => {
                let n = self.rng.range(1, 60);
                let mut b = vec![0x10];
                b.extend(self.rng.bytes(n));
                b
            }
            2 => {
                // the greeting of something else
                self.rng.pick(&[&b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"[..], b"\x16\x03\x01\x02\x00\x01\x00", b"PROXY TCP4 1.2.3.4 1.2.3.4 1 2\r\n", b"\x0d\x0a\x0d\x0a\x00\x0d\x0a\x51\x55\x49\x54\x0a\x21\x11\x00\x0c", b"\x10\xff\xff\xff\x7f\x00\x04MQTT\x05"]).to_vec()
            }
            _ => {
                let p = self.script(ver, &name);
                self.mutate(p)
            }
        };
        let mut queue = vec![];
        let mut at = 0;
        while at < bytes.len() {
            let n = *self.rng.pick(&[1usize, 3, 10, 40, 1000]);
            let e = (at + n).min(bytes.len());
            queue.push(bytes[at..e].to_vec());
            at = e;
        }
        queue.reverse();
        self.w.log(format!("wild {name} ({ver:?}, {:?}, connection {i}): {:02x?}", self.w.clis[i].tp.kind(), &bytes[..bytes.len().min(400)]));
        self.attackers.push(Attacker { cli: i, sent: vec![], queue, wild: true });
        self.stat("wild-streams", 1);
    }

    /// The transport itself is broken.
    fn framing(&mut self) {
        let ver = self.ver();
        let i = self.fresh(ver);
        let kind = self.w.clis[i].tp.kind();
        self.w.clis[i].wild = true;
        let tok = self.tok("x");
        let mut c = Connect::new(ver, "evil-f", true);
        c.will = Some(Will { qos: 0, retain: false, topic: "evil/w".into(), payload: tok.clone().into_bytes(), props: vec![] });
        let cb = connect(&c);
        self.allowed.insert(("evil/w".into(), tok.into_bytes()));
        let mut raw: Vec<u8> = match kind {
            Kind::Plain => vec![],
            Kind::Ws | Kind::Wss => match self.rng.below(16) {
                0 => Ws::raw(1, &cb),
                1 => Ws::raw(3, &cb),
                2 => Ws::raw(8, &[]),
                3 => Ws::raw(8, &[3]),
                4 => Ws::raw(9, &[0; 126]),
                5 => [&[0x82, cb.len() as u8][..], &cb].concat(),
                6 => vec![0x82, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4],
                7 => vec![0x82, 0xff, 0, 0, 0, 0, 0x7f, 0xff, 0xff, 0xff, 1, 2, 3, 4],
                8 => vec![0xf2, 0x81, 1, 2, 3, 4, 5],
                9 => Ws::raw(0, &cb),
                10 => [vec![0x02, 0x81, 0, 0, 0, 0, 0x10], Ws::raw(2, &cb)].concat(),
                11 => [Ws::raw(2, &cb), Ws::raw(8, &1000u16.to_be_bytes()), Ws::raw(2, &[0xc0, 0])].concat(),
                12 => [Ws::raw(2, &cb), Ws::raw(1, b"text")].concat(),
                13 => [Ws::raw(2, &cb), Ws::raw(10, b"pong")].concat(),
                14 => [vec![0x09, 0x80, 0, 0, 0, 0], Ws::raw(2, &cb)].concat(),
                _ => {
                    let mut b = [Ws::raw(2, &cb), Ws::raw(2, &[0xc0, 0])].concat();
                    for _ in 0..3 {
                        // the frame headers only
                        let n = b.len();
                        let k = *self.rng.pick(&[0, 1, n - 8, n - 7]);
                        b[k] ^= 1 << self.rng.below(8);
                    }
                    b
                }
            },
            Kind::Tls => cb.clone(),
        };
        if raw.is_empty() {
            raw = self.rng.bytes(30);
        }
        // around the TLS session, or within it, before the greeting is over or after it
        let early = self.rng.chance(1, 3);
        let around = matches!(kind, Kind::Tls | Kind::Wss) && self.rng.bool();
        self.w.log(format!("framing ({kind:?}, connection {i}) early {early} around {around}: {:02x?}", &raw[..raw.len().min(80)]));
        self.attackers.push(Attacker { cli: i, sent: vec![], queue: vec![], wild: false });
        self.stat("broken-framing", 1);
        if early {
            self.shove(i, &raw, around);
        } else {
            self.later.push((i, raw, around));
        }
    }
    fn shove(&mut self, i: usize, raw: &[u8], around: bool) {
        let c = &mut self.w.clis[i];
        let b = if around { raw.to_vec() } else { c.tp.below_ws(raw) };
        c.end.send(&b);
    }

    /// Replies are not read; requests are many.
    async fn flood(&mut self) {
        let ver = self.ver();
        let i = self.fresh(ver);
        let name = self.tok("evil");
        let what = format!("flood by {name} ({ver:?}, connection {i})");
        self.w.log(what.clone());
        let conn = Connect::new(ver, &name, true);
        self.w.clis[i].become_client(conn.clone());
        self.w.clis[i].wild = true;
        self.w.clis[i].send(&connect(&conn));
        self.w.settle().await;
        self.w.clis[i].end.set_window(Some(self.rng.below(100)));
        let no: Option<&[u8]> = if ver.v5() { Some(&[]) } else { None };
        let mut b = vec![];
        for _ in 0..self.rng.range(100, 1500) {
            match self.rng.below(8) {
                0 => {
                    let t = self.tok("ok");
                    self.allowed.insert(("evil/flood".into(), t.clone().into_bytes()));
                    b.extend(raw_publish(if self.lim.max_qos > 0 { 0x32 } else { 0x30 }, b"evil/flood", (self.lim.max_qos > 0).then_some(1), no, t.as_bytes()));
                }
                _ => b.extend([0xc0, 0]),
            }
        }
        self.w.clis[i].send(&b);
        self.attackers.push(Attacker { cli: i, sent: vec![], queue: vec![], wild: false });
        self.stat("floods", 1);
    }

    /// Sends some bytes, at once or bit by bit while others go on.
    async fn burst(&mut self, i: usize, bytes: &[u8]) {
        if self.rng.bool() {
            self.w.clis[i].send(bytes);
            return;
        }
        self.w.clis[i].hold();
        let mut at = 0;
        while at < bytes.len() {
            let n = *self.rng.pick(&[1usize, 2, 7, 30, 1000]);
            let e = (at + n).min(bytes.len());
            self.w.clis[i].send(&bytes[at..e]);
            at = e;
            if self.rng.chance(1, 3) {
                self.aside();
            }
            match self.rng.below(6) {
                0 => self.w.settle().await,
                _ => {
                    let n = self.rng.range(0, 5);
                    self.w.step(n).await
                }
            }
        }
        self.w.clis[i].release();
    }

    /// Something a healthy client does meanwhile.
    fn aside(&mut self) {
        let k = self.rng.below(self.healthy.len());
        if self.rng.chance(1, 4) {
            self.ping(k);
        } else if self.said[k] < 6 {
            self.said[k] += 1;
            self.chat(k);
        }
    }

    /// The wild ones go on, piece by piece.
    async fn advance(&mut self) {
        let ready: Vec<usize> = (0..self.attackers.len()).filter(|k| !self.attackers[*k].queue.is_empty()).collect();
        if !ready.is_empty() {
            let k = *self.rng.pick(&ready);
            let a = &mut self.attackers[k];
            let b = a.queue.pop().unwrap();
            a.sent.extend(&b);
            let i = a.cli;
            self.w.clis[i].send(&b);
            self.stat("pieces", 1);
        }
        let n = self.rng.range(0, 4);
        self.w.step(n).await;
        if self.rng.chance(1, 8) {
            self.w.settle().await;
            self.dismiss();
        }
    }

    fn end(&mut self, i: usize) {
        let c = &mut self.w.clis[i];
        if c.gone {
            return;
        }
        match self.rng.below(3) {
            0 => c.end.eof(),
            1 => c.end.abort(false),
            _ => c.end.abort(true),
        }
        c.gone = true;
    }

    async fn run(&mut self) {
        self.setup().await;
        let rounds = self.rng.range(1, 4);
        for r in 0..rounds {
            if !self.w.issues.is_empty() {
                return;
            }
            self.said = vec![0; self.healthy.len()];
            // healthy clients may come and go, too
            for k in 1..self.healthy.len() {
                if self.rng.chance(1, 6) {
                    let cli = self.healthy[k].cli;
                    if self.healthy[k].online {
                        let c = &mut self.w.clis[cli];
                        if self.rng.bool() { c.disconnect(0, &vec![]) } else { c.drop_conn(false) }
                        self.healthy[k].online = false;
                        self.w.settle().await;
                        self.w.log(format!("h{k} leaves"));
                    } else {
                        self.w.log(format!("h{k} returns"));
                        let conn = self.healthy[k].conn.clone();
                        self.w.reopen(cli, conn);
                        self.healthy[k].online = true;
                        self.w.settle().await;
                    }
                }
            }
            for _ in 0..self.rng.range(2, 8) {
                match self.rng.below(14) {
                    0..=3 => self.structured().await,
                    4 | 5 => self.first().await,
                    6 => self.impostor().await,
                    7 if self.rng.chance(1, 3) => self.late_expiry().await,
                    7 => self.reuse().await,
                    8 => self.framing(),
                    9 if self.rng.chance(1, 3) => self.flood().await,
                    _ => self.wild(),
                }
                self.aside();
                for _ in 0..self.rng.below(6) {
                    self.advance().await;
                    if self.rng.chance(1, 4) {
                        self.aside();
                    }
                }
                if self.rng.chance(1, 3) {
                    self.w.settle().await;
                    self.dismiss();
                    for (i, raw, around) in std::mem::take(&mut self.later) {
                        self.shove(i, &raw, around);
                    }
                }
                if self.rng.chance(1, 5) && !self.attackers.is_empty() {
                    let k = self.rng.below(self.attackers.len());
                    if self.attackers[k].queue.is_empty() {
                        self.end(self.attackers[k].cli);
                    }
                }
            }
            while self.attackers.iter().any(|a| !a.queue.is_empty()) {
                self.advance().await;
                if self.rng.chance(1, 10) {
                    self.aside();
                }
            }
            for (i, raw, around) in std::mem::take(&mut self.later) {
                self.shove(i, &raw, around);
            }
            self.judge(&format!("round {r}")).await;
        }
        if !self.w.issues.is_empty() {
            return;
        }
        for k in 0..self.attackers.len() {
            self.end(self.attackers[k].cli);
        }
        self.judge("after the attacks").await;
        self.aftermath().await;
    }

    /// What is left of the attacks: retained messages and subscriptions.
    async fn aftermath(&mut self) {
        self.w.kind = Kind::Plain;
        let conn = Connect::new(Ver::V5, "late", true);
        let l = self.w.connect(conn).await;
        self.w.clis[l].subscribe(&vec![], &[("#".into(), 2)]);
        self.w.settle().await;
        for p in self.w.clis[l].take_app() {
            if let Some(b) = self.forbidden.iter().find(|(f, _)| p.payload.starts_with(f)) {
                let d = format!("{}: its message is retained: {p:?}", b.1);
                self.w.issue("C24", "broken-packet-acted-on", d);
            } else if !self.allowed.contains(&(p.topic.clone(), p.payload.clone())) {
                self.w.issue("C24", "message-out-of-nowhere", format!("retained {p:?}"));
            }
            self.stat("retained-judged", 1);
        }
        self.w.clis[l].disconnect(0, &vec![]);
        self.w.settle().await;
        let probes = std::mem::take(&mut self.probes);
        for p in &probes {
            self.w.reopen(p.cli, p.conn.clone());
        }
        self.w.settle().await;
        let from = self.healthy[0].cli;
        let q = 1.min(self.lim.max_qos);
        for p in &probes {
            let c = &mut self.w.clis[p.cli];
            if !matches!(c.connack, Some((true, 0, _))) {
                let d = format!("{}: {:?} {:?}", p.what, c.connack, c.outcome);
                self.w.issue("C07", "session-lost", d);
                continue;
            }
            for f in p.never.iter().chain(&p.still) {
                let payload = self.tok("probe").into_bytes();
                self.allowed.insert((f.clone(), payload.clone()));
                let pid = if q > 0 { self.w.clis[from].pid() } else { 0 };
                self.healthy[0].acks += q as usize;
                self.w.clis[from].publish(&Pub { qos: q, topic: f.clone(), pid, payload: payload.clone(), ..Pub::default() });
                self.w.settle().await;
                let got = self.w.clis[p.cli].take_app().iter().any(|m| m.payload == payload);
                let want = p.still.contains(f);
                if got && !want {
                    self.w.issue("C24", "broken-packet-acted-on", format!("{}: it subscribed to {f}", p.what));
                }
                if !got && want {
                    self.w.issue("C24", "broken-packet-acted-on", format!("{}: the subscription to {f} is gone", p.what));
                }
                self.stat("subscriptions-probed", 1);
            }
        }
        self.judge("in the end").await;
    }
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut rng = Rng::fork(run.seed, n ^ 0x2424);
        let (issues, trace, stats, deliveries) = case(|| async {
            let mut k = config();
            let lim = Limits {
                max_qos: *rng.pick(&[2, 2, 2, 1, 0]),
                alias_max: *rng.pick(&[0, 1, 10, 65535]),
                retain: rng.chance(4, 5),
                max_packet: *rng.pick(&[400, 2000, u32::MAX]),
            };
            k.max_allowed_qos = lim.max_qos;
            k.topic_alias_max = lim.alias_max;
            k.retain_available = lim.retain;
            k.max_packet_size_server = lim.max_packet;
            if rng.chance(1, 4) {
                k.hook.enable_publish = true;
                k.hook.enable_subscribe = true;
                k.hook.enable_unsubscribe = true;
                k.hook.enable_before_connect = true;
                k.hook.enable_after_connect = true;
                k.hook.enable_after_disconnect = true;
            }
            let mut w = World::new(k, Rng::fork(run.seed, n));
            w.tls = if cfg!(miri) { None } else { Some(crate::tls::pair()) };
            let mut s = Siege {
                w,
                rng,
                lim,
                healthy: vec![],
                attackers: vec![],
                probes: vec![],
                forbidden: BTreeMap::new(),
                allowed: BTreeSet::new(),
                owed: BTreeMap::new(),
                seen: BTreeSet::new(),
                seq: 0,
                stats: BTreeMap::new(),
                deliveries: 0,
                later: vec![],
                said: vec![0; 8],
            };
            s.run().await;
            (s.w.issues.clone(), s.w.trace.clone(), s.stats.clone(), s.deliveries)
        });
        report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.count("deliveries-judged", deliveries);
        run.case(deliveries > 0, &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}
