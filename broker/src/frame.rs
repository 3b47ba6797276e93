//! Transports (C27): one script of client bytes, run over a smooth plain stream
//! and again over cut, delayed, buffered, wrapped and blocked ones; what every
//! client receives must be the same, and nothing may lie about that the
//! transport would take.
use crate::codec::*;
use crate::model::report;
use crate::net::Policy;
use crate::tp::{Kind, Tp};
use crate::world::*;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum How {
    Disconnect,
    Eof,
    /// the first bytes of one more packet, then end of file
    Partial(Vec<u8>),
    /// bytes that are no packet
    Garbage(Vec<u8>),
}

#[derive(Clone, Debug)]
enum Step {
    Open { slot: usize, conn: Connect },
    Send { slot: usize, packets: Vec<Vec<u8>> },
    /// part of a packet; the rest follows in `Rest`
    Half { slot: usize, bytes: Vec<u8> },
    Rest { slot: usize, head: Vec<u8>, tail: Vec<u8> },
    End { slot: usize, packets: Vec<Vec<u8>>, how: How },
}

fn tag(s: &Step) -> String {
    match s {
        Step::Open { slot, conn } => format!("open s{slot} {:?} clean {} will {} props {:?}", conn.ver, conn.clean, conn.will.is_some(), conn.props),
        Step::Send { slot, packets } => format!("s{slot} sends {} packets, {} bytes", packets.len(), packets.iter().map(Vec::len).sum::<usize>()),
        Step::Half { slot, bytes } => format!("s{slot} sends the first {} bytes of a packet", bytes.len()),
        Step::Rest { slot, tail, .. } => format!("s{slot} sends the other {} bytes", tail.len()),
        Step::End { slot, packets, how } => format!("s{slot} sends {} packets and ends: {how:?}", packets.len()),
    }
}

struct Gen {
    rng: Rng,
    steps: Vec<Step>,
    ver: Vec<Ver>,
    live: Vec<bool>,
    keep: Vec<bool>,
    pid: Vec<u16>,
    unreleased: Vec<Vec<u16>>,
    seq: u32,
    /// short messages only: many quick executions
    small: bool,
}

impl Gen {
    fn topic(&mut self) -> String {
        self.rng.pick(&["a", "a/b", "a/c", "b", "b/b/b", "c"]).to_string()
    }
    fn next_pid(&mut self, s: usize) -> u16 {
        self.pid[s] += 1;
        self.pid[s]
    }
    fn open(&mut self, s: usize) {
        let mut c = Connect::new(self.ver[s], &format!("s{s}"), self.rng.chance(1, 2));
        c.keep_alive = 0;
        if c.ver.v5() {
            if self.rng.bool() {
                c.props.push((P_SEI, PV::U32(100_000)));
            }
            if self.rng.chance(1, 3) {
                c.props.push((P_RMAX, PV::U16(self.rng.range(1, 4) as u16)));
            }
            if self.rng.chance(1, 3) {
                c.props.push((P_TAMAX, PV::U16(self.rng.range(1, 4) as u16)));
            }
        }
        if !self.keep[s] || c.clean {
            self.unreleased[s].clear();
        }
        self.keep[s] = if c.ver.v5() { u32p(&c.props, P_SEI).is_some() } else { !c.clean };
        if self.rng.chance(1, 3) {
            self.seq += 1;
            c.will = Some(Will { qos: self.rng.below(3) as u8, retain: self.rng.chance(1, 4), topic: format!("will/{s}"), payload: format!("w{}", self.seq).into_bytes(), props: vec![] });
        }
        self.live[s] = true;
        self.steps.push(Step::Open { slot: s, conn: c });
    }
    fn publish(&mut self, s: usize) -> Vec<u8> {
        let mut qos = self.rng.below(3) as u8;
        if qos == 2 && self.unreleased[s].len() >= 7 {
            qos = 1;
        }
        let pid = if qos > 0 { self.next_pid(s) } else { 0 };
        if qos == 2 {
            self.unreleased[s].push(pid);
        }
        self.seq += 1;
        let mut payload = format!("m{}:", self.seq).into_bytes();
        let n = if self.small {
            *self.rng.pick(&[0usize, 0, 0, 1, 20, 118, 121, 124])
        } else if self.rng.chance(1, 12) {
            *self.rng.pick(&[5000, 16_370, 16_380, 16_390, 40_000])
        } else {
            *self.rng.pick(&[0usize, 0, 1, 20, 110, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 300, 2000, 2040, 2048])
        };
        payload.extend((0..n).map(|i| (i as u32 * 31 + self.seq) as u8));
        let retain = self.rng.chance(1, 8);
        let mut props = vec![];
        if self.ver[s].v5() && self.rng.chance(1, 4) {
            props.push((P_USER, PV::Pair("k".repeat(self.rng.range(1, 200)), "v".into())));
        }
        let topic = self.topic();
        publish(self.ver[s], &Pub { qos, retain, topic, pid, payload, props, ..Pub::default() })
    }
    /// `alone`: nothing else is sent along. A subscription made while messages
    /// are on their way may or may not get them, so beside other packets only
    /// a topic nobody publishes to is subscribed to or unsubscribed from.
    fn packet(&mut self, s: usize, alone: bool) -> Vec<u8> {
        let ver = self.ver[s];
        match self.rng.below(14) {
            0 if !alone => {
                let pid = self.next_pid(s);
                let f = format!("u/{s}/{}", self.rng.below(3));
                subscribe(ver, pid, &vec![], &[(f, self.rng.below(3) as u8)])
            }
            1 if !alone => {
                let pid = self.next_pid(s);
                let f = format!("u/{s}/{}", self.rng.below(3));
                unsubscribe(ver, pid, &[f])
            }
            0 => {
                let pid = self.next_pid(s);
                let n = self.rng.range(1, 3);
                let t: BTreeMap<String, u8> = (0..n)
                    .map(|_| {
                        let f = self.rng.pick(&["#", "a/#", "a/+", "a", "b", "+", "will/#", "c", "b/b/b"]).to_string();
                        let o = self.rng.below(3) as u8 | if ver.v5() { (self.rng.below(4) << 2) as u8 } else { 0 };
                        (f, o)
                    })
                    .collect();
                let pr = if ver.v5() && self.rng.chance(1, 3) { vec![(P_SUBID, PV::Var(self.rng.range(1, 300) as u32))] } else { vec![] };
                subscribe(ver, pid, &pr, &t.into_iter().collect::<Vec<_>>())
            }
            1 => {
                let pid = self.next_pid(s);
                let f = self.rng.pick(&["#", "a/#", "a/+", "a", "b"]).to_string();
                unsubscribe(ver, pid, &[f])
            }
            2 => vec![0xc0, 0],
            3 | 4 if !self.unreleased[s].is_empty() => {
                let k = self.rng.below(self.unreleased[s].len());
                let pid = self.unreleased[s].remove(k);
                ack(6, pid)
            }
            _ => self.publish(s),
        }
    }
    fn packets(&mut self, s: usize) -> Vec<Vec<u8>> {
        let n = *self.rng.pick(&[1, 1, 2, 3, 5, 9, 20, 40]);
        (0..n).map(|_| self.packet(s, n == 1)).collect()
    }
    fn build(seed: Rng) -> Vec<Step> {
        let mut rng = seed;
        let n = rng.range(2, 4);
        let ver: Vec<Ver> = (0..n).map(|_| *rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5])).collect();
        let small = rng.chance(2, 3);
        let mut g = Gen { small, rng, steps: vec![], ver, live: vec![false; n], keep: vec![false; n], pid: vec![0; n], unreleased: vec![vec![]; n], seq: 0 };
        for s in 0..n {
            g.open(s);
            let pid = g.next_pid(s);
            let f = g.rng.pick(&["#", "a/#", "+", "b"]).to_string();
            let q = g.rng.below(3) as u8;
            let b = subscribe(g.ver[s], pid, &vec![], &[(f, q)]);
            g.steps.push(Step::Send { slot: s, packets: vec![b] });
        }
        let steps = g.rng.range(4, 14);
        for _ in 0..steps {
            let s = g.rng.below(n);
            if !g.live[s] {
                g.open(s);
                continue;
            }
            match g.rng.below(16) {
                0 => g.open(s),
                1 | 2 if !g.keep[s] => {
                    let packets = g.packets(s);
                    let how = match g.rng.below(4) {
                        0 => How::Disconnect,
                        1 => How::Eof,
                        2 => {
                            let mut p = g.packet(s, true);
                            let k = g.rng.below(p.len());
                            p.truncate(k);
                            How::Partial(p)
                        }
                        // a reserved packet type; a PUBLISH of QoS 3; flags SUBSCRIBE may not have; a packet length without end
                        _ => How::Garbage(g.rng.pick(&[vec![0x00, 0x00], vec![0x36, 2, 0, 0], vec![0x80, 5, 0, 1, 0, 1, b'x'], vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f]]).clone()),
                    };
                    g.live[s] = false;
                    g.steps.push(Step::End { slot: s, packets, how });
                }
                3 => {
                    let how = if g.rng.bool() { How::Disconnect } else { How::Eof };
                    g.live[s] = false;
                    g.steps.push(Step::End { slot: s, packets: vec![], how });
                }
                4 | 5 => {
                    let p = g.packet(s, true);
                    let k = g.rng.below(p.len());
                    let (head, tail) = (p[..k].to_vec(), p[k..].to_vec());
                    g.steps.push(Step::Half { slot: s, bytes: head.clone() });
                    for _ in 0..g.rng.below(3) {
                        let o = g.rng.below(n);
                        if o != s && g.live[o] {
                            let packets = g.packets(o);
                            g.steps.push(Step::Send { slot: o, packets });
                        }
                    }
                    g.steps.push(Step::Rest { slot: s, head, tail });
                }
                _ => {
                    let packets = g.packets(s);
                    g.steps.push(Step::Send { slot: s, packets });
                }
            }
        }
        g.steps
    }
}

/// What one connection received in one step, in the order that is promised.
#[derive(Clone, Default, PartialEq, Debug)]
struct Got {
    acks: Vec<String>,
    pubs: BTreeMap<(String, u8, bool), Vec<(Vec<u8>, Props)>>,
    closed: bool,
}

fn brief(g: &Got) -> String {
    let p: Vec<String> = g
        .pubs
        .iter()
        .map(|((t, q, r), v)| format!("{t} qos {q} retain {r}: {:?}", v.iter().map(|x| format!("{}+{}{}", String::from_utf8_lossy(x.0.split(|b| *b == b':').next().unwrap()), x.0.len(), if x.1.is_empty() { String::new() } else { format!("{:?}", x.1).chars().take(60).collect() })).collect::<Vec<_>>()))
        .collect();
    format!("closed {} acks {:?} publishes {{{}}}", g.closed, g.acks, p.join("; "))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    Whole,
    /// each packet by itself
    Each,
    /// anywhere, a few scheduler rounds apart
    Step,
    /// anywhere, all else at rest in between
    Settle,
}

/// How one connection of a variant is carried.
#[derive(Clone, Debug)]
struct Carry {
    kind: Kind,
    policy: Policy,
    cut: Cut,
    ws_cut: usize,
    ws_ping: usize,
    /// the broker can write only what is granted, bit by bit
    drip: bool,
}

struct Runner {
    w: World,
    base: bool,
    rng: Rng,
    carry: Vec<Carry>,
    /// slot → current connection
    cur: Vec<Option<usize>>,
    of: Vec<usize>,
    stats: BTreeMap<&'static str, u64>,
}

impl Runner {
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    fn carriage(rng: &mut Rng) -> Carry {
        let kind = rng.pick(&[Kind::Plain, Kind::Plain, Kind::Ws, Kind::Tls, Kind::Wss]).possible();
        let policy = Policy {
            read_chunk: *rng.pick(&[0, 0, 1, 2, 7, 100]),
            write_chunk: *rng.pick(&[0, 0, 1, 3, 50, 1000, 2048]),
            pending: *rng.pick(&[0, 0, 2, 5]),
            buffered: rng.chance(1, 3),
            flush_pending: *rng.pick(&[0, 0, 2, 3, 5]),
        };
        Carry {
            kind,
            policy,
            cut: *rng.pick(&[Cut::Whole, Cut::Each, Cut::Step, Cut::Settle]),
            ws_cut: *rng.pick(&[0, 0, 1, 3, 100, 1000]),
            ws_ping: *rng.pick(&[0, 0, 1, 3]),
            drip: rng.chance(1, 3),
        }
    }
    fn issue(&mut self, sig: &str, d: String) {
        self.w.issue("C27", sig, d);
    }

    /// At rest nothing lies about that could have moved on.
    async fn rest(&mut self, what: &str) {
        self.w.settle().await;
        // pending flushes and granted bytes until everybody is served
        for round in 0.. {
            let mut more = false;
            for i in 0..self.w.clis.len() {
                let c = &mut self.w.clis[i];
                if c.server_disc.is_some() && !c.gone {
                    // told to go, a client closes
                    c.end.eof();
                    c.gone = true;
                    more = true;
                }
                more |= c.end.kick();
                if self.w.clis[i].end.blocked() {
                    more = true;
                    let n = *self.rng.pick(&[1usize, 2, 10, 100, 3000, 100_000]);
                    let end = self.w.clis[i].end.clone();
                    let before = end.lock().total_s2c;
                    end.grant(n);
                    self.w.settle().await;
                    self.stat("grants", 1);
                    if end.lock().total_s2c == before && !end.closed() {
                        self.issue("writable-stream-not-written", format!("{what}: connection {i} of s{} was waiting to write, may write {n} bytes, writes none", self.of[i]));
                        end.set_window(None);
                    }
                }
            }
            self.w.settle().await;
            if !more {
                break;
            }
            if round > 20_000 {
                self.issue("never-quiet", format!("{what}: still waiting for grants and flushes"));
                break;
            }
        }
        for i in 0..self.w.clis.len() {
            let end = self.w.clis[i].end.clone();
            if end.closed() {
                continue;
            }
            if end.held() > 0 {
                self.issue("written-data-not-flushed", format!("{what}: {} bytes to s{} written and never flushed", end.held(), self.of[i]));
            }
            if end.unread() > 0 {
                self.issue("readable-data-not-read", format!("{what}: {} bytes of s{} unread at rest", end.unread(), self.of[i]));
            }
            if let Tp::Ws(x) | Tp::Wss(_, x) = &self.w.clis[i].tp
                && x.pings > 0
                && x.pongs == 0
            {
                let d = format!("{what}: {} pings of s{} unanswered", x.pings, self.of[i]);
                self.issue("ping-unanswered", d);
            }
            self.stat("rest-points", 1);
        }
    }

    /// Puts MQTT bytes on the wire of one connection as its carriage has it.
    async fn put(&mut self, i: usize, packets: &[Vec<u8>]) {
        let cut = self.carry[i].cut;
        let ws = matches!(self.carry[i].kind, Kind::Ws | Kind::Wss);
        let all: Vec<u8> = packets.concat();
        if all.is_empty() {
            return;
        }
        let parts: Vec<Vec<u8>> = match cut {
            Cut::Whole => vec![all],
            Cut::Each => packets.to_vec(),
            _ => {
                let n = self.rng.range(1, 6);
                let mut at: BTreeSet<usize> = (0..n).map(|_| self.rng.below(all.len())).collect();
                at.insert(0);
                at.insert(all.len());
                let at: Vec<usize> = at.into_iter().collect();
                at.windows(2).map(|w| all[w[0]..w[1]].to_vec()).collect()
            }
        };
        let held = self.w.clis[i].holding();
        if matches!(cut, Cut::Step | Cut::Settle) {
            self.w.clis[i].hold();
        }
        for p in parts {
            if ws && self.rng.chance(1, 12) {
                // an empty message carries nothing
                self.w.clis[i].send(&[]);
            }
            let wire = self.w.clis[i].tp.encode(&p);
            if matches!(cut, Cut::Step | Cut::Settle) && self.rng.chance(1, 3) && wire.len() > 1 {
                let k = self.rng.range(1, wire.len() - 1);
                self.w.clis[i].end.send(&wire[..k]);
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                self.w.clis[i].end.send(&wire[k..]);
            } else {
                self.w.clis[i].end.send(&wire);
            }
            self.stat("pieces-sent", 1);
            match cut {
                Cut::Settle => self.w.settle().await,
                Cut::Step => {
                    let n = self.rng.range(0, 6);
                    self.w.step(n).await
                }
                Cut::Each if self.rng.chance(1, 4) => self.w.settle().await,
                _ => {}
            }
        }
        if !held {
            self.w.clis[i].release();
        }
    }

    async fn step(&mut self, s: &Step) {
        let what = tag(s);
        match s {
            Step::Open { slot, conn } => {
                let c = if self.base {
                    Carry { kind: Kind::Plain, policy: Policy::default(), cut: Cut::Whole, ws_cut: 0, ws_ping: 0, drip: false }
                } else {
                    Runner::carriage(&mut self.rng)
                };
                self.w.log(format!("{what}; carried {c:?}"));
                self.w.kind = c.kind;
                self.w.policy = c.policy.clone();
                // the WebSocket library takes a greeting in tiny reads for an attack
                let gently = matches!(c.kind, Kind::Ws | Kind::Wss) && c.policy.read_chunk > 0;
                if gently {
                    self.w.policy.read_chunk = 0;
                }
                let policy = c.policy.clone();
                let i = self.w.open_raw(conn.ver, c.kind);
                let cli = &mut self.w.clis[i];
                cli.become_client(conn.clone());
                if let Tp::Ws(w) | Tp::Wss(_, w) = &mut cli.tp {
                    w.cut = c.ws_cut;
                    w.ping_every = c.ws_ping;
                }
                let drip = c.drip;
                self.carry.push(c);
                self.of.push(*slot);
                self.cur[*slot] = Some(i);
                // the greetings of the transport first
                if gently || self.rng.bool() {
                    self.rest(&what).await;
                }
                self.w.clis[i].end.set_policy(policy);
                if drip {
                    self.w.clis[i].end.set_window(Some(self.rng.below(30)));
                }
                let b = connect(conn);
                self.put(i, &[b]).await;
            }
            Step::Send { slot, packets } => {
                self.w.log(what.clone());
                self.limit();
                self.put(self.cur[*slot].unwrap(), packets).await;
            }
            Step::Half { slot, bytes } => {
                self.w.log(what.clone());
                let i = self.cur[*slot].unwrap();
                self.w.clis[i].hold();
                if !self.base {
                    self.put(i, std::slice::from_ref(bytes)).await;
                }
            }
            Step::Rest { slot, head, tail } => {
                self.w.log(what.clone());
                self.limit();
                let i = self.cur[*slot].unwrap();
                if self.base {
                    self.put(i, &[head.clone(), tail.clone()]).await;
                } else {
                    self.put(i, std::slice::from_ref(tail)).await;
                }
                self.w.clis[i].release();
            }
            Step::End { slot, packets, how } => {
                self.w.log(what.clone());
                self.limit();
                let i = self.cur[*slot].unwrap();
                let ver = self.w.clis[i].ver;
                let mut p = packets.clone();
                match how {
                    How::Disconnect => p.push(disconnect(ver, 0, &vec![])),
                    How::Partial(b) | How::Garbage(b) => p.push(b.clone()),
                    How::Eof => {}
                }
                // what comes last stays last
                self.w.clis[i].hold();
                self.put(i, &p).await;
                if !matches!(how, How::Garbage(_)) {
                    self.w.clis[i].end.eof();
                    self.w.clis[i].gone = true;
                }
                self.rest(&what).await;
                if !self.w.clis[i].closed() {
                    self.issue("connection-left-open", what.clone());
                }
                self.w.clis[i].end.eof();
                self.w.clis[i].gone = true;
                self.cur[*slot] = None;
            }
        }
        self.rest(&what).await;
        for c in &self.w.clis {
            if !c.end.closed() {
                c.end.set_window(None);
            }
        }
        self.rest(&what).await;
    }
    fn limit(&mut self) {
        for i in 0..self.w.clis.len() {
            if self.carry[i].drip && self.rng.bool() {
                let n = self.rng.below(60);
                self.w.clis[i].end.set_window(Some(n));
            }
        }
    }

    fn collect(&mut self) -> Vec<Got> {
        let mut out = vec![];
        let mut n = 0;
        for c in &mut self.w.clis {
            let mut g = Got { closed: c.closed(), ..Got::default() };
            for p in c.take_app() {
                let props: Props = p.props.iter().filter(|x| x.0 != P_ALIAS).cloned().collect();
                g.pubs.entry((p.topic, p.qos, p.retain)).or_default().push((p.payload, props));
                n += 1;
            }
            for p in c.take() {
                match p {
                    S::Publish(_) | S::Pubrel { .. } => {}
                    S::Disconnect { code, .. } => g.acks.push(format!("Disconnect {code}")),
                    p => {
                        g.acks.push(format!("{p:?}"));
                        n += 1;
                    }
                }
            }
            if let Some(e) = c.tls_err.take() {
                g.acks.push(format!("transport error {e}"));
            }
            out.push(g);
        }
        self.stat("packets-compared", n);
        out
    }
}

struct Outcome {
    got: Vec<Vec<Got>>,
    issues: Vec<Issue>,
    trace: Vec<String>,
    stats: BTreeMap<&'static str, u64>,
}

fn perform(steps: &[Step], slots: usize, base: bool, hooks: bool, rng: Rng) -> Outcome {
    let own = rng.clone();
    case(|| async move {
        let mut k = config();
        if hooks {
            k.hook.enable_publish = true;
            k.hook.enable_subscribe = true;
            k.hook.enable_unsubscribe = true;
            k.hook.enable_before_connect = true;
            k.hook.enable_after_connect = true;
        }
        let mut w = World::new(k, rng);
        w.tls = if cfg!(miri) { None } else { Some(crate::tls::pair()) };
        let mut r = Runner { w, base, rng: own, carry: vec![], cur: vec![None; slots], of: vec![], stats: BTreeMap::new() };
        if hooks && !base {
            let n = r.rng.range(0, 4);
            r.w.hook.st().delay = n;
        }
        let mut got = vec![];
        for s in steps {
            if !r.w.issues.is_empty() {
                break;
            }
            r.step(s).await;
            got.push(r.collect());
        }
        for c in &r.w.clis {
            let p = c.end.lock();
            *r.stats.entry("partial-writes").or_default() += p.partial_writes;
            *r.stats.entry("pendings").or_default() += p.pendings;
        }
        Outcome { got, issues: r.w.issues.clone(), trace: r.w.trace.clone(), stats: r.stats.clone() }
    })
}

fn compare(steps: &[Step], a: &Outcome, b: &Outcome) -> Option<(String, String)> {
    // connections that ended before
    let mut over: BTreeSet<usize> = BTreeSet::new();
    let mut cur: BTreeMap<usize, usize> = BTreeMap::new();
    let mut n = 0;
    for (k, s) in steps.iter().enumerate() {
        let (Some(x), Some(y)) = (a.got.get(k), b.got.get(k)) else { break };
        let mut ending = None;
        match s {
            Step::Open { slot, .. } => {
                // the connection that is taken over
                ending = cur.insert(*slot, n);
                n += 1;
            }
            Step::End { slot, .. } => ending = cur.remove(slot),
            _ => {}
        }
        for i in 0..n {
            let (mut p, mut q) = (x[i].clone(), y[i].clone());
            if over.contains(&i) {
                continue;
            }
            // refused for what it sent: what was on its way to it may be lost
            if p.closed && q.closed {
                ending.get_or_insert(i);
            }
            if ending == Some(i) {
                // its last answers may be lost with the connection
                let pre = |a: &[String], b: &[String]| a.starts_with(b) || b.starts_with(a);
                let strip = |v: &[String]| v.iter().filter(|s| !s.starts_with("Disconnect")).cloned().collect::<Vec<_>>();
                if pre(&strip(&p.acks), &strip(&q.acks)) && p.closed == q.closed {
                    continue;
                }
                p.pubs.clear();
                q.pubs.clear();
            }
            if p != q {
                let sig = if p.closed != q.closed {
                    "connection-state-differs"
                } else if p.acks != q.acks {
                    "answers-differ"
                } else {
                    "deliveries-differ"
                };
                return Some((sig.into(), format!("step {k} ({}), connection {i}\n    smooth:  {}\n    carried: {}", tag(s), brief(&p), brief(&q))));
            }
        }
        over.extend(ending);
    }
    None
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut rng = Rng::fork(run.seed, n ^ 0x2727);
        let hooks = rng.chance(1, 4);
        let steps = Gen::build(rng.clone());
        rng.u64();
        let slots = 5;
        let base = perform(&steps, slots, true, hooks, Rng::fork(run.seed, n));
        let mut issues = base.issues.clone();
        let mut trace = base.trace.clone();
        for v in 0..2 {
            if !issues.is_empty() {
                break;
            }
            let o = perform(&steps, slots, false, hooks, Rng::fork(rng.u64(), v));
            issues = o.issues.clone();
            trace = o.trace.clone();
            if issues.is_empty()
                && let Some((sig, detail)) = compare(&steps, &base, &o)
            {
                issues.push(Issue { prop: "C27", sig, detail });
            }
            for (k, x) in &o.stats {
                run.count(k, *x);
            }
            run.case(o.stats.get("packets-compared").is_some_and(|x| *x > 0), &o.trace);
        }
        report(run, n, &prop, issues, &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}
