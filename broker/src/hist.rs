//! Concurrent histories: clients publish, acknowledge, stall, drop, reconnect and
//! take each other over without ever waiting for the broker to come to rest. At
//! the end everything is let through and the recorded history is judged.
use crate::codec::*;
use crate::net::Policy;
use crate::tp::Kind;
use crate::world::*;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::Duration;

#[derive(Clone)]
pub struct HProf {
    pub clients: (usize, usize),
    pub steps: (usize, usize),
    pub max_msgs: usize,
    /// weights out of 100 per step
    pub publish: usize,
    pub drop: usize,
    pub takeover: usize,
    pub stall: usize,
    pub dups: usize,
    pub time: usize,
    pub group: usize,
    pub qos: Vec<u8>,
    pub sub_qos: Vec<u8>,
    pub one_topic: bool,
    pub small_window: usize,
    pub manual: usize,
    pub alias: usize,
}
impl HProf {
    pub fn base() -> HProf {
        HProf {
            clients: (2, 5),
            steps: if cfg!(miri) { (8, 30) } else { (40, 220) },
            max_msgs: 160,
            publish: 55,
            drop: 6,
            takeover: 3,
            stall: 10,
            dups: 6,
            time: 2,
            group: 15,
            qos: vec![0, 1, 1, 2, 2],
            sub_qos: vec![0, 1, 2, 2],
            one_topic: false,
            small_window: 50,
            manual: 50,
            alias: 30,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stage {
    Sent,
    Rec,
}

#[derive(Clone, Debug)]
struct Flight {
    m: usize,
    qos: u8,
    stage: Stage,
    rels: usize,
}

#[derive(Clone, Debug)]
struct Msg {
    from: usize,
    topic: usize,
    qos: u8,
    /// transmissions by the publisher
    sends: u32,
    acked: bool,
    /// refused or otherwise not accepted
    refused: bool,
    seq: u64,
    payload: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Recv {
    m: usize,
    qos: u8,
    dup: bool,
    pid: u16,
}

struct HC {
    cli: usize,
    name: String,
    ver: Ver,
    /// topic → QoS of its exact subscription
    subs: BTreeMap<usize, u8>,
    all: Option<u8>,
    group: bool,
    flights: BTreeMap<u16, Flight>,
    order: Vec<u16>,
    aliases: HashMap<usize, u16>,
    alias_max: u16,
    limit: usize,
    /// the CONNACK of this connection has been read
    greeted: bool,
    /// an earlier connection had not been answered when this one was opened:
    /// whichever the broker serves last stays
    raced: bool,
    got: Vec<Recv>,
    stalled: bool,
    up: bool,
    acks_in_order: bool,
    expected_close: bool,
}

const TOPICS: [&str; 4] = ["t/0", "t/1", "t/2/x", "u"];

pub struct Hist {
    pub w: World,
    prof: HProf,
    hc: Vec<HC>,
    msgs: Vec<Msg>,
    pub stats: BTreeMap<&'static str, u64>,
    pub kinds: Vec<Kind>,
}

fn topic_ix(t: &str) -> Option<usize> {
    TOPICS.iter().position(|x| *x == t)
}

impl Hist {
    pub fn new(prof: HProf, mut rng: Rng, kinds: &[Kind]) -> Hist {
        let mut k = config();
        k.hook.enable_publish = rng.chance(1, 4);
        k.max_inflight_client = *rng.pick(&[1, 2, 3, 10]);
        k.max_in_mem_pending_messages = 100_000;
        k.max_inflight_server = *rng.pick(&[1, 3, 10, 50]);
        let mut w = World::new(k, rng);
        w.policy = match w.rng.below(4) {
            0 => Policy::default(),
            1 => Policy { read_chunk: 3, write_chunk: 5, ..Policy::default() },
            2 => Policy { read_chunk: 40, write_chunk: 60, pending: 3, ..Policy::default() },
            _ => Policy { pending: 2, ..Policy::default() },
        };
        Hist { w, prof, hc: vec![], msgs: vec![], stats: BTreeMap::new(), kinds: kinds.to_vec() }
    }
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    fn pct(&mut self, p: usize) -> bool {
        self.w.rng.chance(p, 100)
    }
    fn conn(&mut self, i: usize) -> Connect {
        let (ver, name) = (self.hc[i].ver, self.hc[i].name.clone());
        let mut c = Connect::new(ver, &name, false);
        c.keep_alive = 60_000;
        if ver.v5() {
            c.props.push((P_SEI, PV::U32(100_000)));
            if self.pct(self.prof.small_window) {
                c.props.push((P_RMAX, PV::U16(self.w.rng.range(1, 4) as u16)));
            }
            if self.pct(self.prof.alias) {
                c.props.push((P_TAMAX, PV::U16(self.w.rng.range(1, 3) as u16)));
            }
        }
        c
    }

    async fn start(&mut self) {
        let n = self.w.rng.range(self.prof.clients.0, self.prof.clients.1);
        let topics = if self.prof.one_topic { 1 } else { TOPICS.len() };
        for i in 0..n {
            let ver = *self.w.rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5]);
            let mut h = HC {
                cli: 0,
                name: format!("c{i}"),
                ver,
                subs: BTreeMap::new(),
                all: None,
                group: false,
                flights: BTreeMap::new(),
                order: vec![],
                aliases: HashMap::new(),
                alias_max: 0,
                limit: 8,
                greeted: false,
                raced: false,
                got: vec![],
                stalled: false,
                up: true,
                acks_in_order: true,
                expected_close: false,
            };
            let r = &mut self.w.rng;
            h.acks_in_order = r.chance(2, 3);
            if r.chance(1, 5) {
                h.all = Some(*r.pick(&self.prof.sub_qos));
            } else if r.chance(3, 4) {
                for t in 0..topics {
                    if r.bool() {
                        h.subs.insert(t, *r.pick(&self.prof.sub_qos));
                    }
                }
            }
            h.group = ver.v5() && r.chance(self.prof.group, 100);
            self.hc.push(h);
            let c = self.conn(i);
            if !self.kinds.is_empty() {
                self.w.kind = *self.w.rng.pick(&self.kinds);
            }
            let (subs, all, group) = (self.hc[i].subs.clone(), self.hc[i].all, self.hc[i].group);
            let cli = self.w.connect(c).await;
            self.hc[i].cli = cli;
            self.opened(i);
            let mut f: Vec<(String, u8)> = subs.iter().map(|(t, q)| (TOPICS[*t].to_string(), *q)).collect();
            if let Some(q) = all {
                f.push(("#".into(), q));
            }
            if group {
                f.push(("$share/g/#".into(), 2));
            }
            self.w.log(format!("{} {:?} subscribes {f:?} rmax {}", self.hc[i].name, self.hc[i].ver, self.w.clis[cli].rmax));
            if !f.is_empty() {
                self.w.clis[cli].subscribe(&vec![], &f);
            }
            self.w.settle().await;
            self.hc[i].limit = 8;
            for p in self.w.clis[cli].take() {
                if let S::Connack { props, .. } = p {
                    self.greeted(i, &props);
                }
            }
            if self.pct(self.prof.manual) {
                self.w.clis[cli].auto = Auto::None;
            }
        }
    }

    /// A connection has just been opened: what the client knows about it.
    fn opened(&mut self, i: usize) {
        self.hc[i].aliases.clear();
        self.hc[i].alias_max = 0;
        self.hc[i].greeted = false;
        self.hc[i].up = true;
        self.hc[i].expected_close = false;
        self.hc[i].stalled = false;
    }

    fn greeted(&mut self, i: usize, props: &Props) {
        self.hc[i].greeted = true;
        self.hc[i].alias_max = u32p(props, P_TAMAX).unwrap_or(0) as u16;
        if self.hc[i].ver.v5() {
            self.hc[i].limit = 8.min(u32p(props, P_RMAX).unwrap_or(65535) as usize);
        }
    }

    fn publish(&mut self, i: usize) {
        let topics = if self.prof.one_topic { 1 } else { TOPICS.len() };
        let c = self.hc[i].cli;
        let qos = *self.w.rng.pick(&self.prof.qos);
        if qos > 0 && self.hc[i].flights.len() >= self.hc[i].limit {
            return;
        }
        let t = self.w.rng.below(topics);
        let m = self.msgs.len();
        let mut payload = format!("m{m}:").into_bytes();
        if self.pct(4) {
            let n = self.w.rng.range(500, 6000);
            payload.extend(self.w.rng.bytes(n));
        }
        let mut p = Pub { qos, topic: TOPICS[t].into(), payload, ..Pub::default() };
        if qos > 0 {
            loop {
                p.pid = self.w.clis[c].pid();
                if !self.hc[i].flights.contains_key(&p.pid) {
                    break;
                }
            }
            self.hc[i].flights.insert(p.pid, Flight { m, qos, stage: Stage::Sent, rels: 0 });
            self.hc[i].order.push(p.pid);
        }
        if self.hc[i].alias_max > 0 && self.pct(self.prof.alias) {
            let n = self.hc[i].alias_max.min(3) as usize;
            match self.hc[i].aliases.get(&t) {
                Some(a) => {
                    p.props.push((P_ALIAS, PV::U16(*a)));
                    p.topic = String::new();
                }
                None => {
                    let a = self.w.rng.range(1, n) as u16;
                    self.hc[i].aliases.retain(|_, v| *v != a);
                    self.hc[i].aliases.insert(t, a);
                    p.props.push((P_ALIAS, PV::U16(a)));
                }
            }
        }
        self.msgs.push(Msg { from: i, topic: t, qos, sends: 1, acked: false, refused: false, seq: m as u64, payload: p.payload.clone() });
        self.w.log(format!("{} publishes m{m} q{qos} {} pid {} {:?}", self.hc[i].name, TOPICS[t], p.pid, p.props));
        self.w.clis[c].publish(&p);
    }

    /// Everything the broker answered since the last look.
    fn collect(&mut self) {
        for i in 0..self.hc.len() {
            let c = self.hc[i].cli;
            for p in self.w.clis[c].take() {
                match p {
                    S::Connack { sp, code, props } => {
                        if code != 0 {
                            self.w.issue("C07 C09", "reconnect-refused", format!("{}: code {code}", self.hc[i].name));
                        } else if !sp {
                            self.w.issue("C07 C09", "kept-session-lost", format!("{}: session present is false", self.hc[i].name));
                        }
                        self.greeted(i, &props);
                        self.resend(i);
                    }
                    S::Puback { pid, code, .. } => match self.hc[i].flights.get(&pid) {
                        Some(f) if f.qos == 1 => {
                            let m = f.m;
                            self.hc[i].flights.remove(&pid);
                            self.hc[i].order.retain(|x| *x != pid);
                            if code < 0x80 { self.msgs[m].acked = true } else { self.msgs[m].refused = true }
                            self.w.log(format!("{} got PUBACK {pid} (m{m}) {code}", self.hc[i].name));
                        }
                        _ => {
                            let known = self.msgs.iter().any(|m| m.from == i && m.sends > 1);
                            if !known {
                                self.w.issue("C04", "acknowledgement-of-nothing", format!("{}: PUBACK {pid}", self.hc[i].name))
                            }
                        }
                    },
                    S::Pubrec { pid, code, .. } => match self.hc[i].flights.get_mut(&pid) {
                        Some(f) if f.qos == 2 => {
                            let m = f.m;
                            if code >= 0x80 {
                                self.hc[i].flights.remove(&pid);
                                self.hc[i].order.retain(|x| *x != pid);
                                self.msgs[m].refused = true;
                                self.w.log(format!("{} got PUBREC {pid} (m{m}) refused {code}", self.hc[i].name));
                                self.w.issue("C04", "publish-refused", format!("{}: PUBREC {pid} code {code:#x} for m{m}", self.hc[i].name));
                            } else {
                                f.stage = Stage::Rec;
                                f.rels += 1;
                                self.msgs[m].acked = true;
                                self.w.log(format!("{} got PUBREC {pid} (m{m})", self.hc[i].name));
                                let v = self.hc[i].ver;
                                let _ = v;
                                self.w.clis[c].ack(6, pid);
                            }
                        }
                        _ => {
                            // an extra PUBREC for a message sent twice
                            if !self.msgs.iter().any(|m| m.from == i && m.sends > 1) {
                                self.w.issue("C04", "acknowledgement-of-nothing", format!("{}: PUBREC {pid}", self.hc[i].name))
                            }
                        }
                    },
                    S::Pubrel { pid, code, .. } if code != 0 => {
                        self.w.issue("C04 C14", "exchange-forgotten", format!("{}: PUBREL {pid} code {code:#x} in answer to a PUBREC of an exchange not yet completed", self.hc[i].name));
                    }
                    S::Pubcomp { pid, code, .. } => {
                        if code != 0 && self.hc[i].flights.get(&pid).is_some_and(|f| f.stage == Stage::Rec && f.rels == 1 && self.msgs[f.m].sends == 1) {
                            self.w.issue("C04 C14", "exchange-forgotten", format!("{}: PUBCOMP {pid} code {code:#x} in answer to a first PUBREL", self.hc[i].name));
                        }
                        if self.hc[i].flights.get(&pid).is_some_and(|f| f.stage == Stage::Rec) {
                            self.hc[i].flights.remove(&pid);
                            self.hc[i].order.retain(|x| *x != pid);
                        }
                    }
                    S::Disconnect { code, .. } => {
                        if !self.hc[i].expected_close && !self.hc[i].raced {
                            self.w.issue("C24 C03", "closed-without-cause", format!("{}: DISCONNECT {code:#x}", self.hc[i].name));
                        }
                    }
                    _ => {}
                }
            }
            for p in self.w.clis[c].take_app() {
                let s = String::from_utf8_lossy(&p.payload).into_owned();
                let m = s.strip_prefix('m').and_then(|x| x.split(':').next().and_then(|x| x.parse::<usize>().ok()));
                match m {
                    Some(m) if m < self.msgs.len() && topic_ix(&p.topic) == Some(self.msgs[m].topic) => {
                        self.hc[i].got.push(Recv { m, qos: p.qos, dup: p.dup, pid: p.pid });
                        self.w.trace.push(format!("{} receives m{m} q{} pid {} dup {}", self.hc[i].name, p.qos, p.pid, p.dup));
                    }
                    _ => self.w.issue("C33 C16", "message-altered", format!("{}: {} {:?}", self.hc[i].name, p.topic, s.chars().take(40).collect::<String>())),
                }
            }
            if self.w.clis[c].closed() && self.hc[i].up && !self.hc[i].expected_close {
                self.hc[i].up = false;
                if self.hc[i].raced {
                    self.hc[i].greeted = true;
                    continue;
                }
                self.w.issue("C24 C03", "closed-without-cause", format!("{}: connection closed by the broker, {:?}", self.hc[i].name, self.w.clis[c].outcome));
            }
        }
    }

    /// After a reconnect the publisher repeats what was not acknowledged.
    fn resend(&mut self, i: usize) {
        let c = self.hc[i].cli;
        for pid in self.hc[i].order.clone() {
            let f = self.hc[i].flights[&pid].clone();
            match f.stage {
                Stage::Sent => {
                    let m = &mut self.msgs[f.m];
                    m.sends += 1;
                    let t = TOPICS[m.topic];
                    let payload = m.payload.clone();
                    let p = Pub { dup: true, qos: f.qos, topic: t.into(), pid, payload, ..Pub::default() };
                    self.w.log(format!("{} repeats m{} pid {pid}", self.hc[i].name, f.m));
                    self.w.clis[c].publish(&p);
                }
                Stage::Rec => {
                    self.w.log(format!("{} repeats PUBREL {pid}", self.hc[i].name));
                    self.hc[i].flights.get_mut(&pid).unwrap().rels += 1;
                    self.w.clis[c].ack(6, pid);
                }
            }
        }
    }

    fn ack_some(&mut self, i: usize, all: bool) {
        let c = self.hc[i].cli;
        let mut pids: Vec<u16> = self.w.clis[c].out.iter().filter(|(_, o)| !o.rec).map(|(p, _)| *p).collect();
        if !self.hc[i].acks_in_order {
            self.w.rng.shuffle(&mut pids);
        }
        let n = if all { pids.len() } else { self.w.rng.range(0, pids.len().min(3)) };
        for p in pids.into_iter().take(n) {
            self.w.clis[c].ack_out(p);
            if self.pct(self.prof.dups) {
                // repeated PUBREC
                if let Some(o) = self.w.clis[c].out.get(&p) {
                    if o.qos == 2 {
                        self.w.clis[c].ack(5, p);
                    }
                }
            }
        }
    }

    fn reconnect(&mut self, i: usize) {
        let conn = self.conn(i);
        let c = self.hc[i].cli;
        self.w.clis[c].lossy = true;
        if !self.hc[i].greeted {
            self.hc[i].raced = true;
            self.stat("racing-connects", 1);
        }
        self.w.log(format!("{} connects again", self.hc[i].name));
        self.w.reopen(c, conn);
        self.opened(i);
        if self.pct(self.prof.manual) {
            self.w.clis[c].auto = Auto::None;
        } else {
            self.w.clis[c].auto = Auto::All;
        }
    }

    pub async fn run(&mut self) {
        self.start().await;
        let steps = self.w.rng.range(self.prof.steps.0, self.prof.steps.1);
        for _ in 0..steps {
            let i = self.w.rng.below(self.hc.len());
            let c = self.hc[i].cli;
            let pr = self.prof.clone();
            let x = self.w.rng.below(100);
            let ready = self.hc[i].up && self.hc[i].greeted && self.w.clis[c].live();
            if !self.hc[i].up {
                if self.pct(30) {
                    self.reconnect(i);
                }
            } else if x < pr.publish {
                if ready && self.msgs.len() < pr.max_msgs {
                    let n = if self.pct(15) { self.w.rng.range(2, 12) } else { 1 };
                    for _ in 0..n {
                        self.publish(i);
                    }
                }
            } else if x < pr.publish + pr.drop {
                if self.pct(70) {
                    let reset = self.pct(50);
                    self.w.pump();
                    self.collect();
                    self.w.log(format!("{} drops (reset {reset})", self.hc[i].name));
                    self.w.clis[c].drop_conn(reset);
                } else {
                    self.w.log(format!("{} disconnects", self.hc[i].name));
                    self.w.clis[c].disconnect(0, &vec![]);
                }
                self.hc[i].up = false;
                self.stat("connections-lost", 1);
            } else if x < pr.publish + pr.drop + pr.takeover {
                self.stat("takeovers", 1);
                self.reconnect(i);
            } else if x < pr.publish + pr.drop + pr.takeover + pr.stall {
                if self.hc[i].stalled {
                    let n = self.w.rng.range(1, 60);
                    self.w.clis[c].end.grant(n);
                    if self.pct(50) {
                        self.w.clis[c].end.set_window(None);
                        self.hc[i].stalled = false;
                    }
                } else if self.hc[i].greeted {
                    let n = self.w.rng.below(30);
                    self.w.log(format!("{} stalls after {n} bytes", self.hc[i].name));
                    self.w.clis[c].end.set_window(Some(n));
                    self.hc[i].stalled = true;
                    self.stat("stalls", 1);
                }
            } else if x < pr.publish + pr.drop + pr.takeover + pr.stall + pr.dups {
                // a repeated PUBLISH or PUBREL on the live connection
                if ready {
                    let pids: Vec<u16> = self.hc[i].order.iter().copied().filter(|p| self.hc[i].flights[p].qos == 2).collect();
                    if !pids.is_empty() {
                        let pid = *self.w.rng.pick(&pids);
                        let f = self.hc[i].flights[&pid].clone();
                        self.stat("repeats", 1);
                        if f.stage == Stage::Rec {
                            self.w.clis[c].ack(6, pid);
                        }
                    }
                    self.w.clis[c].ping();
                }
            } else if x < pr.publish + pr.drop + pr.takeover + pr.stall + pr.dups + pr.time {
                crate::clock::advance(Duration::from_secs(self.w.rng.range(1, 20) as u64));
            } else if ready && self.w.clis[c].auto == Auto::None {
                self.ack_some(i, false);
            }
            let r = *self.w.rng.pick(&[0, 0, 1, 1, 2, 3, 6, 12, 40]);
            self.w.step(r).await;
            self.collect();
        }
        self.finale().await;
    }

    async fn finale(&mut self) {
        self.w.log("--- everything is let through".into());
        for i in 0..self.hc.len() {
            let c = self.hc[i].cli;
            self.w.clis[c].end.set_window(None);
        }
        self.w.settle().await;
        self.collect();
        for h in &mut self.hc {
            h.raced = false;
            h.greeted = true;
        }
        for round in 0..2 {
            for i in 0..self.hc.len() {
                let c = self.hc[i].cli;
                self.w.clis[c].end.set_window(None);
                self.hc[i].stalled = false;
                if !self.hc[i].up || round == 1 && !self.w.clis[c].live() {
                    self.reconnect(i);
                }
                self.w.clis[c].auto = Auto::All;
            }
            for _ in 0..6 {
                self.w.settle().await;
                self.collect();
                for i in 0..self.hc.len() {
                    self.ack_some(i, true);
                }
            }
        }
        // a last reconnect makes the broker repeat whatever it still holds
        for i in 0..self.hc.len() {
            let c = self.hc[i].cli;
            if self.w.clis[c].live() {
                self.w.clis[c].disconnect(0, &vec![]);
            }
            self.hc[i].up = false;
        }
        self.w.settle().await;
        self.collect();
        for i in 0..self.hc.len() {
            self.reconnect(i);
            let c = self.hc[i].cli;
            self.w.clis[c].auto = Auto::All;
        }
        for _ in 0..3 {
            self.w.settle().await;
            self.collect();
        }
        self.judge();
    }

    fn judge(&mut self) {
        let msgs = self.msgs.clone();
        // unfinished exchanges at rest
        for i in 0..self.hc.len() {
            let c = self.hc[i].cli;
            if !self.hc[i].flights.is_empty() {
                let f: Vec<_> = self.hc[i].flights.iter().map(|(p, f)| format!("pid {p} m{} {:?}", f.m, f.stage)).collect();
                self.w.issue("C03 C27", "publisher-never-answered", format!("{}: {f:?}", self.hc[i].name));
            }
            if !self.w.clis[c].out.is_empty() {
                let o: Vec<_> = self.w.clis[c].out.keys().collect();
                self.w.issue("C04 C14", "exchange-never-finished", format!("{}: {o:?}", self.hc[i].name));
            }
            if self.w.clis[c].carry.values().any(|o| !o.late) {
                let o: Vec<_> = self.w.clis[c].carry.iter().filter(|(_, o)| !o.late).map(|(p, o)| format!("pid {p} {} QoS {} PUBREC sent {}", o.topic, o.qos, o.rec)).collect();
                self.w.issue("C14", "unfinished-exchange-not-resumed", format!("{}: nothing was sent again after the session was resumed: {o:?}", self.hc[i].name));
            }
        }
        let mut ev = 0u64;
        // the share group as a whole
        let members: Vec<usize> = (0..self.hc.len()).filter(|i| self.hc[*i].group).collect();
        let mut in_group: HashMap<usize, Vec<usize>> = HashMap::new();
        for i in 0..self.hc.len() {
            let own = |m: &Msg| self.hc[i].subs.get(&m.topic).copied().or(self.hc[i].all);
            let mut firsts: HashMap<(usize, usize, u8), (u64, usize)> = HashMap::new();
            let mut seen: HashMap<usize, Vec<Recv>> = HashMap::new();
            let mut issues: Vec<(&'static str, &'static str, String)> = vec![];
            for r in &self.hc[i].got {
                ev += 1;
                let m = &msgs[r.m];
                let q = own(m);
                if self.hc[i].group {
                    in_group.entry(r.m).or_default().push(i);
                }
                if q.is_none() && !self.hc[i].group {
                    issues.push(("C01", "message-without-subscription", format!("{} received m{} ({})", self.hc[i].name, r.m, TOPICS[m.topic])));
                    continue;
                }
                if let (Some(q), false) = (q, self.hc[i].group) {
                    if r.qos != q.min(m.qos) {
                        issues.push(("C06", "wrong-qos", format!("{} received m{} at QoS {}, published {} subscribed {}", self.hc[i].name, r.m, r.qos, m.qos, q)));
                    }
                }
                let first = !seen.contains_key(&r.m);
                seen.entry(r.m).or_default().push(r.clone());
                // a repeated QoS 1 message may have been lost at QoS 0 the first time
                let again = r.qos == 0 && m.qos == 1 && m.sends > 1;
                if first && !again && !self.hc[i].group {
                    let k = (m.from, m.topic, r.qos);
                    if let Some((s, pm)) = firsts.get(&k) {
                        if *s > m.seq {
                            issues.push(("C05", "out-of-order", format!("{} received m{pm} before m{} (both from c{} to {}, QoS {})", self.hc[i].name, r.m, m.from, TOPICS[m.topic], r.qos)));
                        }
                    }
                    let e = firsts.entry(k).or_insert((m.seq, r.m));
                    if m.seq > e.0 {
                        *e = (m.seq, r.m);
                    }
                }
            }
            for (mi, rs) in &seen {
                let m = &msgs[*mi];
                if self.hc[i].group && own(m).is_some() {
                    continue;
                }
                match rs[0].qos {
                    0 => {
                        let allowed = if m.qos == 1 { m.sends as usize } else { 1 };
                        if rs.len() > allowed {
                            issues.push(("C04", "qos0-delivered-twice", format!("{} received m{mi} {} times: {rs:?}", self.hc[i].name, rs.len())));
                        }
                    }
                    1 => {
                        let pids: BTreeSet<u16> = rs.iter().map(|r| r.pid).collect();
                        let fresh = rs.iter().filter(|r| !r.dup).count();
                        let allowed = if m.qos == 1 { m.sends as usize } else { 1 };
                        if fresh > allowed || pids.len() > allowed {
                            issues.push((if m.qos == 2 { "C04" } else { "C14 C04" }, "delivered-more-often-than-published", format!("{} received m{mi} (published at QoS {} {} times): {rs:?}", self.hc[i].name, m.qos, m.sends)));
                        }
                    }
                    _ => {
                        if rs.len() > 1 {
                            issues.push(("C04", "qos2-delivered-twice", format!("{} received m{mi} {} times: {rs:?}", self.hc[i].name, rs.len())));
                        }
                    }
                }
            }
            for (mi, m) in msgs.iter().enumerate() {
                if !m.acked {
                    continue;
                }
                if own(m).is_some_and(|q| q > 0) && !seen.contains_key(&mi) {
                    issues.push(("C03", "acknowledged-message-lost", format!("{} never received m{mi} (from c{} to {}, QoS {}, transmissions {})", self.hc[i].name, m.from, TOPICS[m.topic], m.qos, m.sends)));
                }
            }
            for (p, s, d) in issues {
                self.w.issue(p, s, d);
            }
        }
        if !members.is_empty() {
            for (mi, m) in msgs.iter().enumerate() {
                let direct = members.iter().filter(|i| self.hc[**i].subs.contains_key(&m.topic) || self.hc[**i].all.is_some()).count();
                if direct > 0 {
                    continue;
                }
                let who: HashSet<usize> = in_group.get(&mi).map(|v| v.iter().copied().collect()).unwrap_or_default();
                if m.acked && who.is_empty() {
                    self.w.issue("C12 C03", "shared-message-lost", format!("m{mi} (QoS {}) reached no member of the group", m.qos));
                }
                if who.len() > if m.qos == 1 { m.sends as usize } else { 1 } {
                    self.w.issue("C12", "shared-message-duplicated", format!("m{mi} reached {who:?}"));
                }
            }
        }
        let acked = msgs.iter().filter(|m| m.acked).count() as u64;
        self.stat("messages-published", msgs.len() as u64);
        self.stat("messages-acknowledged", acked);
        self.stat("receptions-judged", ev);
        let redel: u64 = self.hc.iter().map(|h| h.got.iter().filter(|r| r.dup).count() as u64).sum();
        self.stat("redeliveries", redel);
    }
}

pub fn drive(run: &mut Run, prof: HProf, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats) = case(|| async {
            let mut h = Hist::new(prof.clone(), Rng::fork(run.seed, n ^ 0x5151), &[]);
            h.run().await;
            (h.w.issues.clone(), h.w.trace.clone(), h.stats.clone())
        });
        crate::model::report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.case(stats.get("receptions-judged").is_some_and(|x| *x > 0), &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}
