//! Real parallelism: the broker on several worker threads, every client driven by
//! an operating-system thread of its own, no waiting for rest. Each client notes
//! with a global stamp when it asked for something and when it was answered; the
//! merged log is judged afterwards.
use crate::clock;
use crate::codec::*;
use crate::net::{ClientEnd, Policy};
use crate::tp::Kind;
use crate::world::*;
use akasa_core::mqtt_proto::{v3, v5};
use akasa_core::*;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static STAMP: AtomicU64 = AtomicU64::new(1);
fn stamp() -> u64 {
    STAMP.fetch_add(1, Ordering::SeqCst)
}

/// A hook that gives way while it holds a packet and looks at everything it was
/// handed before and after.
#[derive(Clone, Default)]
pub struct StormHook {
    n: Arc<AtomicU64>,
    pub bad: Arc<Mutex<Vec<String>>>,
    pub held: Arc<AtomicU64>,
}

impl StormHook {
    async fn give_way<T: PartialEq + std::fmt::Debug>(&self, look: impl Fn() -> T) {
        let n = self.n.fetch_add(1, Ordering::Relaxed);
        let mut r = Rng::new(n ^ 0x5707);
        let before = look();
        match r.below(8) {
            0..4 => {}
            4..6 => {
                for _ in 0..r.range(1, 4) {
                    tokio::task::yield_now().await;
                }
            }
            6 => tokio::time::sleep(Duration::from_micros(r.range(50, 1200) as u64)).await,
            _ => {
                let _ = tokio::task::spawn_blocking(|| std::thread::yield_now()).await;
            }
        }
        self.held.fetch_add(1, Ordering::Relaxed);
        clock::bump();
        let after = look();
        if before != after {
            self.bad.lock().unwrap().push(format!("a hook saw its data change while it waited: {before:?} then {after:?}"));
        }
    }
}

macro_rules! sess {
    ($s:expr) => {
        ($s.client_identifier.to_string(), format!("{:?}", $s.client_id()))
    };
}

impl Hook for StormHook {
    async fn v5_before_connect(&self, _: SocketAddr, c: &v5::Connect) -> HookResult<HookConnectCode> {
        self.give_way(|| c.client_id.to_string()).await;
        Ok(HookConnectCode::Success)
    }
    async fn v5_after_connect(&self, s: &SessionV5, _: bool) -> HookResult<Vec<HookAction>> {
        self.give_way(|| sess!(s)).await;
        Ok(vec![])
    }
    async fn v5_before_publish(&self, s: &SessionV5, _: usize, b: &[u8], p: &mut v5::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        let p: &v5::Publish = p;
        self.give_way(|| (sess!(s), b.to_vec(), p.payload.to_vec())).await;
        if !b.ends_with(&p.payload) {
            self.bad.lock().unwrap().push(format!("body {b:02x?} does not end with the payload {:02x?}", &p.payload[..]));
        }
        Ok(HookPublishCode::Success)
    }
    async fn v5_after_publish(&self, s: &SessionV5, _: usize, b: &[u8], p: &v5::Publish, _: bool) -> HookResult<Vec<HookAction>> {
        self.give_way(|| (sess!(s), b.to_vec(), p.payload.to_vec())).await;
        Ok(vec![])
    }
    async fn v5_before_subscribe(&self, s: &SessionV5, _: usize, b: &[u8], _: &mut v5::Subscribe, _: &mut bool) -> HookResult<HookSubscribeCode> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(HookSubscribeCode::Success)
    }
    async fn v5_after_subscribe(&self, s: &SessionV5, _: usize, b: &[u8], _: &v5::Subscribe, _: bool, _: Option<Vec<v5::SubscribeReasonCode>>) -> HookResult<Vec<HookAction>> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(vec![])
    }
    async fn v5_before_unsubscribe(&self, s: &SessionV5, _: usize, b: &[u8], _: &mut v5::Unsubscribe, _: &mut bool) -> HookResult<HookUnsubscribeCode> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(HookUnsubscribeCode::Success)
    }
    async fn v5_after_unsubscribe(&self, s: &SessionV5, _: usize, b: &[u8], _: &v5::Unsubscribe, _: bool) -> HookResult<Vec<HookAction>> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(vec![])
    }
    async fn v5_after_disconnect(&self, s: &SessionV5, _: bool) -> HookResult<()> {
        self.give_way(|| sess!(s)).await;
        Ok(())
    }
    async fn v3_before_connect(&self, _: SocketAddr, c: &v3::Connect) -> HookResult<HookConnectCode> {
        self.give_way(|| c.client_id.to_string()).await;
        Ok(HookConnectCode::Success)
    }
    async fn v3_after_connect(&self, s: &SessionV3, _: bool) -> HookResult<Vec<HookAction>> {
        self.give_way(|| sess!(s)).await;
        Ok(vec![])
    }
    async fn v3_before_publish(&self, s: &SessionV3, _: usize, b: &[u8], p: &mut v3::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        let p: &v3::Publish = p;
        self.give_way(|| (sess!(s), b.to_vec(), p.payload.to_vec())).await;
        if !b.ends_with(&p.payload) {
            self.bad.lock().unwrap().push(format!("body {b:02x?} does not end with the payload {:02x?}", &p.payload[..]));
        }
        Ok(HookPublishCode::Success)
    }
    async fn v3_after_publish(&self, s: &SessionV3, _: usize, b: &[u8], p: &v3::Publish, _: bool) -> HookResult<Vec<HookAction>> {
        self.give_way(|| (sess!(s), b.to_vec(), p.payload.to_vec())).await;
        Ok(vec![])
    }
    async fn v3_before_subscribe(&self, s: &SessionV3, _: usize, b: &[u8], _: &mut v3::Subscribe, _: &mut bool) -> HookResult<HookSubscribeCode> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(HookSubscribeCode::Success)
    }
    async fn v3_after_subscribe(&self, s: &SessionV3, _: usize, b: &[u8], _: &v3::Subscribe, _: bool, _: Option<Vec<v3::SubscribeReturnCode>>) -> HookResult<Vec<HookAction>> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(vec![])
    }
    async fn v3_before_unsubscribe(&self, s: &SessionV3, _: usize, b: &[u8], _: &mut v3::Unsubscribe, _: &mut bool) -> HookResult<HookUnsubscribeCode> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(HookUnsubscribeCode::Success)
    }
    async fn v3_after_unsubscribe(&self, s: &SessionV3, _: usize, b: &[u8], _: &v3::Unsubscribe, _: bool) -> HookResult<Vec<HookAction>> {
        self.give_way(|| (sess!(s), b.to_vec())).await;
        Ok(vec![])
    }
    async fn v3_after_disconnect(&self, s: &SessionV3, _: bool) -> HookResult<()> {
        self.give_way(|| sess!(s)).await;
        Ok(())
    }
}

const TOPICS: [&str; 4] = ["t/0", "t/1", "t/2/x", "u"];

#[derive(Clone, Debug)]
struct Msg {
    from: usize,
    topic: String,
    qos: u8,
    retain: bool,
    clear: bool,
    sends: u32,
    sent: u64,
    acked: Option<u64>,
    payload: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stage {
    Sent,
    Rec,
}

#[derive(Clone, Debug)]
struct Flight {
    m: usize,
    qos: u8,
    stage: Stage,
}

#[derive(Clone, Debug)]
struct Recv {
    from: usize,
    seq: usize,
    qos: u8,
    dup: bool,
    pid: u16,
    at: u64,
    topic: String,
    payload: Vec<u8>,
}

/// One life of a dynamic subscription, as its owner saw it.
#[derive(Clone, Debug)]
struct Iv {
    filter: String,
    qos: u8,
    sub_sent: u64,
    sub_ack: Option<u64>,
    unsub_sent: Option<u64>,
    unsub_ack: Option<u64>,
    open_pid: u16,
}

struct Drv {
    w: World,
    i: usize,
    ver: Ver,
    name: String,
    subs: BTreeMap<usize, u8>,
    all: Option<u8>,
    group: bool,
    /// filters this client comes and goes from
    dynamic: Vec<(String, u8)>,
    ivs: Vec<Iv>,
    msgs: Vec<Msg>,
    flights: BTreeMap<u16, Flight>,
    order: Vec<u16>,
    limit: usize,
    greeted: bool,
    up: bool,
    got: Vec<Recv>,
    olds: Vec<ClientEnd>,
    manual: bool,
    stats: BTreeMap<&'static str, u64>,
    writers: usize,
    acks: Vec<u64>,
    /// few connections are lost in this storm
    calm: bool,
}

impl Drv {
    fn log(&mut self, s: String) {
        let n = stamp();
        self.w.trace.push(format!("{n} {} {s}", self.name));
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn conn(&mut self) -> Connect {
        let mut c = Connect::new(self.ver, &self.name, false);
        c.keep_alive = 60_000;
        if self.ver.v5() {
            c.props.push((P_SEI, PV::U32(100_000)));
            if self.w.rng.bool() {
                c.props.push((P_RMAX, PV::U16(self.w.rng.range(1, 6) as u16)));
            }
        }
        c
    }
    fn cli(&mut self) -> &mut Cli {
        &mut self.w.clis[0]
    }

    fn send_pub(&mut self, topic: String, qos: u8, retain: bool, clear: bool) {
        let m = self.msgs.len();
        let mut payload = vec![];
        if !clear {
            payload = format!("m{}.{m}:", self.i).into_bytes();
            if self.w.rng.chance(1, 25) {
                let n = self.w.rng.range(500, 6000);
                payload.extend(self.w.rng.bytes(n));
            }
        }
        let mut p = Pub { qos, topic: topic.clone(), retain, payload, ..Pub::default() };
        if qos > 0 {
            loop {
                p.pid = self.cli().pid();
                if !self.flights.contains_key(&p.pid) {
                    break;
                }
            }
            self.flights.insert(p.pid, Flight { m, qos, stage: Stage::Sent });
            self.order.push(p.pid);
        }
        self.log(format!("publishes m{}.{m} q{qos} {topic} pid {} retain {retain} clear {clear}", self.i, p.pid));
        self.msgs.push(Msg { from: self.i, topic, qos, retain, clear, sends: 1, sent: stamp(), acked: None, payload: p.payload.clone() });
        self.cli().publish(&p);
    }
    fn publish(&mut self) {
        if self.flights.len() >= self.limit {
            return;
        }
        match self.w.rng.below(10) {
            0..5 => {
                let qos = *self.w.rng.pick(&[0, 1, 1, 2, 2]);
                let t = TOPICS[self.w.rng.below(4)].to_string();
                self.send_pub(t, qos, false, false);
            }
            5..8 => {
                let qos = *self.w.rng.pick(&[1, 2]);
                let t = format!("d/{}", self.w.rng.below(3));
                self.send_pub(t, qos, false, false);
            }
            _ => {
                let t = format!("r/{}/{}", self.i, self.w.rng.below(2));
                let busy = self.flights.values().any(|f| self.msgs[f.m].topic == t);
                if !busy {
                    let clear = self.w.rng.chance(1, 4);
                    self.send_pub(t, 1, true, clear);
                }
            }
        }
    }
    /// Subscribes to or leaves one of the dynamic filters.
    fn churn(&mut self) {
        if self.dynamic.is_empty() {
            return;
        }
        let (f, q) = self.w.rng.pick(&self.dynamic.clone()).clone();
        match self.ivs.iter().rposition(|x| x.filter == f) {
            Some(k) if self.ivs[k].unsub_ack.is_none() => {
                let iv = &self.ivs[k];
                if iv.sub_ack.is_none() || iv.unsub_sent.is_some() {
                    return;
                }
                self.log(format!("unsubscribes {f}"));
                self.ivs[k].unsub_sent = Some(stamp());
                let pid = self.cli().unsubscribe(&[f]);
                self.ivs[k].open_pid = pid;
            }
            _ => {
                self.log(format!("subscribes {f} q{q}"));
                let s = stamp();
                let pid = self.cli().subscribe(&vec![], &[(f.clone(), q)]);
                self.ivs.push(Iv { filter: f, qos: q, sub_sent: s, sub_ack: None, unsub_sent: None, unsub_ack: None, open_pid: pid });
            }
        }
    }
    fn resend(&mut self) {
        for pid in self.order.clone() {
            let f = self.flights[&pid].clone();
            match f.stage {
                Stage::Sent => {
                    let m = &mut self.msgs[f.m];
                    m.sends += 1;
                    let p = Pub { dup: true, qos: f.qos, retain: m.retain, topic: m.topic.clone(), pid, payload: m.payload.clone(), ..Pub::default() };
                    self.log(format!("repeats m{}.{} pid {pid}", self.i, f.m));
                    self.cli().publish(&p);
                }
                Stage::Rec => self.cli().ack(6, pid),
            }
        }
        for k in 0..self.ivs.len() {
            let iv = self.ivs[k].clone();
            if iv.sub_ack.is_none() {
                self.log(format!("repeats subscribe {}", iv.filter));
                let pid = self.cli().subscribe(&vec![], &[(iv.filter, iv.qos)]);
                self.ivs[k].open_pid = pid;
            } else if iv.unsub_sent.is_some() && iv.unsub_ack.is_none() {
                self.log(format!("repeats unsubscribe {}", iv.filter));
                let pid = self.cli().unsubscribe(&[iv.filter]);
                self.ivs[k].open_pid = pid;
            }
        }
    }
    fn collect(&mut self) {
        self.w.pump();
        for p in self.cli().take() {
            match p {
                S::Connack { sp, code, props } => {
                    if code != 0 || !sp && self.greeted_once() {
                        self.w.issue("C07 C09", "kept-session-lost", format!("{}: code {code}, session present {sp}", self.name));
                    }
                    self.acks.push(stamp());
                    self.greeted = true;
                    if self.ver.v5() {
                        self.limit = 8.min(u32p(&props, P_RMAX).unwrap_or(65535) as usize);
                    }
                    self.resend();
                }
                S::Puback { pid, code, .. } => {
                    if let Some(f) = self.flights.get(&pid).filter(|f| f.qos == 1).cloned() {
                        self.flights.remove(&pid);
                        self.order.retain(|x| *x != pid);
                        if code < 0x80 {
                            self.msgs[f.m].acked = Some(stamp());
                        }
                        self.log(format!("got PUBACK {pid} (m{}.{}) {code}", self.i, f.m));
                    } else if !self.msgs.iter().any(|m| m.sends > 1) {
                        self.w.issue("C04", "acknowledgement-of-nothing", format!("{}: PUBACK {pid}", self.name));
                    }
                }
                S::Pubrec { pid, code, .. } => match self.flights.get_mut(&pid) {
                    Some(f) if f.qos == 2 => {
                        let m = f.m;
                        if code >= 0x80 {
                            self.w.issue("C04", "publish-refused", format!("{}: PUBREC {pid} code {code:#x}", self.name));
                        }
                        f.stage = Stage::Rec;
                        if self.msgs[m].acked.is_none() {
                            self.msgs[m].acked = Some(stamp());
                        }
                        self.log(format!("got PUBREC {pid} (m{}.{m})", self.i));
                        self.cli().ack(6, pid);
                    }
                    _ if self.msgs.iter().any(|m| m.sends > 1) => {}
                    _ => self.w.issue("C04", "acknowledgement-of-nothing", format!("{}: PUBREC {pid}", self.name)),
                },
                S::Pubcomp { pid, .. } => {
                    if self.flights.get(&pid).is_some_and(|f| f.stage == Stage::Rec) {
                        self.flights.remove(&pid);
                        self.order.retain(|x| *x != pid);
                    }
                }
                S::Suback { pid, codes, .. } => {
                    if let Some(k) = self.ivs.iter().position(|x| x.open_pid == pid && x.sub_ack.is_none()) {
                        if codes.len() != 1 || codes[0] >= 0x80 {
                            self.w.issue("C01", "subscription-refused", format!("{}: {codes:?}", self.name));
                        }
                        self.ivs[k].sub_ack = Some(stamp());
                        let f = self.ivs[k].filter.clone();
                        self.log(format!("got SUBACK for {f}"));
                    }
                }
                S::Unsuback { pid, .. } => {
                    if let Some(k) = self.ivs.iter().position(|x| x.open_pid == pid && x.unsub_sent.is_some() && x.unsub_ack.is_none()) {
                        self.ivs[k].unsub_ack = Some(stamp());
                        let f = self.ivs[k].filter.clone();
                        self.log(format!("got UNSUBACK for {f}"));
                    }
                }
                S::Disconnect { code, .. } => self.w.issue("C24 C03 C09", "closed-without-cause", format!("{}: DISCONNECT {code:#x}", self.name)),
                _ => {}
            }
        }
        for p in self.cli().take_app() {
            if p.payload.is_empty() && p.topic.starts_with("r/") {
                continue;
            }
            let s = String::from_utf8_lossy(&p.payload).into_owned();
            let key = s.strip_prefix('m').and_then(|x| x.split(':').next()).and_then(|x| x.split_once('.')).and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)));
            match key {
                Some((from, seq)) => {
                    self.log(format!("receives m{from}.{seq} q{} pid {} dup {}", p.qos, p.pid, p.dup));
                    self.got.push(Recv { from, seq, qos: p.qos, dup: p.dup, pid: p.pid, at: stamp(), topic: p.topic, payload: p.payload });
                }
                // the other clients' noise
                None if p.topic.starts_with("z/") || p.payload.starts_with(b"will") => {}
                None => self.w.issue("C33 C29", "message-altered", format!("{}: {} {:?}", self.name, p.topic, s.chars().take(40).collect::<String>())),
            }
        }
        if self.up && self.cli().closed() {
            self.up = false;
            let o = self.cli().outcome.clone();
            self.w.issue("C24 C03 C09", "closed-without-cause", format!("{}: connection closed by the broker, {o:?}", self.name));
        }
    }
    fn greeted_once(&self) -> bool {
        !self.acks.is_empty()
    }
    fn ack_some(&mut self, all: bool) {
        let mut pids: Vec<u16> = self.cli().out.iter().filter(|(_, o)| !o.rec).map(|(p, _)| *p).collect();
        if pids.is_empty() {
            return;
        }
        if !all {
            self.w.rng.shuffle(&mut pids);
            let n = self.w.rng.range(0, pids.len().min(3));
            pids.truncate(n);
        }
        for p in pids {
            self.cli().ack_out(p);
        }
    }
    fn reconnect(&mut self) {
        let conn = self.conn();
        self.cli().lossy = true;
        let end = self.cli().end.clone();
        self.olds.push(end);
        self.log("connects again".into());
        self.w.reopen(0, conn);
        self.greeted = false;
        self.up = true;
        self.manual = self.w.rng.chance(1, 3);
        self.cli().auto = if self.manual { Auto::None } else { Auto::All };
    }
    fn pause(&mut self) {
        match self.w.rng.below(8) {
            0..4 => {}
            4 | 5 => {
                for _ in 0..self.w.rng.below(2000) {
                    std::hint::spin_loop();
                }
            }
            6 => std::thread::yield_now(),
            _ => std::thread::sleep(Duration::from_micros(self.w.rng.below(300) as u64)),
        }
    }
    fn storm(&mut self, steps: usize) {
        let calm = self.calm;
        let (mut done, t) = (0, Instant::now());
        while done < steps && t.elapsed() < Duration::from_secs(20) {
            self.collect();
            let mut x = self.w.rng.below(100);
            if calm && (61..80).contains(&x) && !self.w.rng.chance(1, 10) {
                x = 0;
            }
            if !self.up {
                if x < 40 {
                    self.reconnect();
                }
            } else if self.greeted {
                done += 1;
                match x {
                    0..47 => {
                        for _ in 0..*self.w.rng.pick(&[1, 1, 1, 4]) {
                            self.publish();
                        }
                    }
                    47..61 => self.churn(),
                    61..66 => {
                        self.stat("connections-lost");
                        let reset = self.w.rng.bool();
                        self.log(format!("drops (reset {reset})"));
                        self.collect();
                        if self.up {
                            self.cli().drop_conn(reset);
                            self.up = false;
                        }
                    }
                    66..68 => {
                        self.stat("connections-left");
                        self.log("disconnects".into());
                        self.cli().disconnect(0, &vec![]);
                        self.up = false;
                    }
                    68..75 => {
                        self.stat("take-overs");
                        self.reconnect();
                    }
                    75..80 => {
                        let n = self.w.rng.below(40);
                        self.cli().end.set_window(Some(n));
                        self.pause();
                        self.cli().end.set_window(None);
                    }
                    80..84 => self.cli().ping(),
                    _ => {
                        if self.manual {
                            self.ack_some(false);
                        }
                    }
                }
            }
            self.pause();
        }
    }
    fn settled(&mut self) -> bool {
        self.flights.is_empty()
            && self.up
            && self.greeted
            && self.cli().out.is_empty()
            && self.ivs.iter().all(|x| x.sub_ack.is_some() && (x.unsub_sent.is_none() || x.unsub_ack.is_some()))
    }
}

/// Threads that fight over identifiers and stir the same routes as the others.
struct Rogue {
    w: World,
    id: String,
    ver: Ver,
}

impl Rogue {
    fn storm(&mut self, steps: usize) {
        for _ in 0..steps {
            self.w.pump();
            let r = &mut self.w.rng;
            let n = self.w.clis.len();
            match r.below(10) {
                0..3 => {
                    let mut c = Connect::new(self.ver, &self.id, r.bool());
                    c.keep_alive = 60_000;
                    if self.ver.v5() && r.bool() {
                        c.props.push((P_SEI, PV::U32(*r.pick(&[0, 1, 100_000]))));
                    }
                    if r.chance(1, 3) {
                        c.will = Some(Will { qos: r.below(3) as u8, retain: r.bool(), topic: "z/will".into(), payload: b"will".to_vec(), props: vec![] });
                    }
                    self.w.open(c);
                    let k = self.w.clis.len() - 1;
                    self.w.clis[k].lossy = true;
                }
                3..7 if n > 0 && self.w.clis[n - 1].connack.is_some() => {
                    let f = r.pick(&["t/#", "t/0", "t/+", "d/+", "d/1", "z/#", "z/will", "r/0/0", "r/+/+", "u/+/v"]).to_string();
                    let f = if self.ver.v5() && r.chance(1, 3) { format!("$share/x/{f}") } else { f };
                    let q = r.below(3) as u8;
                    let sub = r.chance(2, 3);
                    let c = &mut self.w.clis[n - 1];
                    if sub {
                        c.subscribe(&vec![], &[(f, q)]);
                    } else {
                        c.unsubscribe(&[f]);
                    }
                }
                7 if n > 0 && self.w.clis[n - 1].connack.is_some() => {
                    let p = Pub { qos: 0, retain: r.bool(), topic: format!("z/{}", r.below(3)), payload: if r.bool() { b"noise".to_vec() } else { vec![] }, ..Pub::default() };
                    self.w.clis[n - 1].publish(&p);
                }
                8 if n > 0 => {
                    let k = r.range(n.saturating_sub(3), n - 1);
                    let reset = r.bool();
                    if !self.w.clis[k].gone {
                        if r.bool() {
                            self.w.clis[k].drop_conn(reset);
                        } else {
                            self.w.clis[k].disconnect(0, &vec![]);
                        }
                    }
                }
                _ => {
                    if r.chance(1, 4) {
                        std::thread::sleep(Duration::from_micros(r.below(300) as u64));
                    }
                }
            }
        }
    }
}

/// The rules that need everybody's log.
fn judge(ds: &[Drv]) -> (Vec<Issue>, u64) {
    let mut out: Vec<Issue> = vec![];
    let mut issue = |p: &'static str, s: &str, d: String| out.push(Issue { prop: p, sig: s.into(), detail: d });
    let mut judged = 0u64;
    let nm = |a: usize, b: usize| format!("m{a}.{b}");
    let mut in_group: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    // single writer per retained topic: writes in order
    let mut writes: BTreeMap<String, Vec<(u64, Option<u64>, bool, usize, usize)>> = BTreeMap::new();
    for d in ds {
        for (k, m) in d.msgs.iter().enumerate().filter(|(_, m)| m.retain) {
            writes.entry(m.topic.clone()).or_default().push((m.sent, m.acked, m.clear, m.from, k));
        }
    }
    for d in ds {
        let name = &d.name;
        let stat = |t: &str| TOPICS.iter().position(|x| *x == t).and_then(|k| d.subs.get(&k).copied()).or(d.all);
        let ivs = |t: &str| d.ivs.iter().filter(|x| matches(&x.filter, t)).collect::<Vec<_>>();
        let mut last: HashMap<(usize, String, u8), (usize, u64)> = HashMap::new();
        let mut seen: BTreeMap<(usize, usize), Vec<&Recv>> = BTreeMap::new();
        for r in &d.got {
            judged += 1;
            let Some(m) = ds.get(r.from).and_then(|x| x.msgs.get(r.seq)) else {
                issue("C33 C29", "message-altered", format!("{name} received {} which nobody sent", nm(r.from, r.seq)));
                continue;
            };
            if m.topic != r.topic || m.payload != r.payload {
                issue("C33 C29", "message-altered", format!("{name} received {} on {} with {} bytes, sent on {} with {}", nm(r.from, r.seq), r.topic, r.payload.len(), m.topic, m.payload.len()));
                continue;
            }
            let q = stat(&r.topic);
            if d.group && m.topic.starts_with("t/") {
                in_group.entry((r.from, r.seq)).or_default().push(d.i);
            }
            let first = !seen.contains_key(&(r.from, r.seq));
            seen.entry((r.from, r.seq)).or_default().push(r);
            if d.group {
                continue;
            }
            let again = r.qos == 0 && m.qos == 1 && m.sends > 1;
            match q {
                Some(q) => {
                    if r.qos != q.min(m.qos) {
                        issue("C06", "wrong-qos", format!("{name} received {} at QoS {}, published {} subscribed {q}", nm(r.from, r.seq), r.qos, m.qos));
                    }
                    if first && !again {
                        let k = (r.from, r.topic.clone(), r.qos);
                        match last.get(&k) {
                            Some((s, _)) if *s > r.seq => issue("C05", "out-of-order", format!("{name} received {} before {} ({}, QoS {})", nm(r.from, *s), nm(r.from, r.seq), r.topic, r.qos)),
                            _ => {
                                last.insert(k, (r.seq, r.at));
                            }
                        }
                    }
                }
                None => {
                    let ivs = ivs(&r.topic);
                    if ivs.is_empty() {
                        issue("C01", "message-without-subscription", format!("{name} received {} ({})", nm(r.from, r.seq), r.topic));
                        continue;
                    }
                    if r.qos != ivs[0].qos.min(m.qos) {
                        issue("C06", "wrong-qos", format!("{name} received {} at QoS {}, published {} subscribed {}", nm(r.from, r.seq), r.qos, m.qos, ivs[0].qos));
                    }
                    // published while a subscription may have been in force
                    let end = m.acked.unwrap_or(u64::MAX);
                    let live = ivs.iter().any(|x| x.sub_sent < end && x.unsub_ack.is_none_or(|u| u > m.sent));
                    // or held as the retained message when one was made
                    let kept = m.retain && {
                        let later = writes[&m.topic].iter().filter(|w| w.4 > r.seq).filter_map(|w| w.1).min();
                        ivs.iter().any(|x| m.sent < x.sub_ack.unwrap_or(u64::MAX) && later.is_none_or(|l| x.sub_sent < l) && x.sub_sent < r.at)
                    };
                    if m.retain && !live && !kept {
                        issue("C02", "stale-retained-message", format!("{name} received {} ({}) although a later write had been acknowledged before any of its subscriptions: {ivs:?}", nm(r.from, r.seq), r.topic));
                    }
                    if !m.retain && !live {
                        issue("C01", "message-outside-subscription", format!("{name} received {} ({}, sent {} acked {:?}) outside {ivs:?}", nm(r.from, r.seq), r.topic, m.sent, m.acked));
                    }
                }
            }
        }
        for ((from, seq), rs) in &seen {
            let m = &ds[*from].msgs[*seq];
            let own = stat(&m.topic);
            if d.group || m.retain && own.is_none() {
                continue;
            }
            let allowed = if m.qos == 1 { m.sends as usize } else { 1 };
            match rs[0].qos {
                0 if rs.len() > allowed => issue("C04", "qos0-delivered-twice", format!("{name} received {} {} times", nm(*from, *seq), rs.len())),
                1 => {
                    let pids: BTreeSet<u16> = rs.iter().map(|r| r.pid).collect();
                    let fresh = rs.iter().filter(|r| !r.dup).count();
                    if fresh > allowed || pids.len() > allowed {
                        issue("C14 C04", "delivered-more-often-than-published", format!("{name} received {} (QoS {}, sent {} times): {:?}", nm(*from, *seq), m.qos, m.sends, rs.iter().map(|r| (r.pid, r.dup)).collect::<Vec<_>>()));
                    }
                }
                2 if rs.len() > 1 => issue("C04", "qos2-delivered-twice", format!("{name} received {} {} times", nm(*from, *seq), rs.len())),
                _ => {}
            }
        }
        for x in ds {
            for (k, m) in x.msgs.iter().enumerate() {
                let Some(ack) = m.acked else { continue };
                if m.clear || d.group || seen.contains_key(&(x.i, k)) {
                    continue;
                }
                if let Some(q) = stat(&m.topic) {
                    if q > 0 {
                        issue("C03", "acknowledged-message-lost", format!("{name} never received {} (to {}, QoS {}, sent {} times)", nm(x.i, k), m.topic, m.qos, m.sends));
                    }
                } else if ivs(&m.topic).iter().any(|v| {
                    // what still waits to be handled when its subscription goes may go too: a
                    // later one of the same kind received before shows that it had been
                    let handled = |u: u64| {
                        let later = |r: &Recv| ds.get(r.from).and_then(|x| x.msgs.get(r.seq)).is_some_and(|n| !n.retain && n.sent > ack && r.from == x.i && n.topic == m.topic && n.qos == m.qos);
                        d.got.iter().any(|r| r.at < u && later(r))
                    };
                    v.qos > 0 && v.sub_ack.is_some_and(|a| a < m.sent) && v.unsub_sent.is_none_or(|u| u > ack && handled(u))
                }) {
                    issue("C01 C03", "subscriber-missed", format!("{name} never received {} (to {}, sent {}, acknowledged {ack}) although subscribed throughout: {:?}", nm(x.i, k), m.topic, m.sent, ivs(&m.topic)));
                }
            }
        }
        // a new subscription gets the retained message
        for v in &d.ivs {
            let Some(w) = writes.get(&v.filter) else { continue };
            let Some(a) = v.sub_ack else { continue };
            judged += 1;
            let Some(k) = w.iter().rposition(|x| x.1.is_some_and(|t| t < v.sub_sent)) else { continue };
            let undisturbed = w[k + 1..].iter().all(|x| x.0 > a);
            if undisturbed && !w[k].2 && v.qos > 0 && v.unsub_sent.is_none_or(|u| u > a) {
                let (f, s) = (w[k].3, w[k].4);
                if !d.got.iter().any(|r| r.from == f && r.seq == s && r.at > v.sub_sent) {
                    issue("C02", "retained-message-missing", format!("{name} subscribed to {} ({}..{a}) and never received {} written before", v.filter, v.sub_sent, nm(f, s)));
                }
            }
        }
    }
    let members: Vec<usize> = ds.iter().filter(|d| d.group).map(|d| d.i).collect();
    if !members.is_empty() {
        for d in ds {
            for (k, m) in d.msgs.iter().enumerate().filter(|(_, m)| m.topic.starts_with("t/")) {
                let mut who = in_group.get(&(d.i, k)).cloned().unwrap_or_default();
                who.sort();
                who.dedup();
                if m.acked.is_some() && who.is_empty() {
                    issue("C12 C03", "shared-message-lost", format!("{} (QoS {}) reached no member of the group", nm(d.i, k), m.qos));
                }
                if who.len() > if m.qos == 1 { m.sends as usize } else { 1 } {
                    issue("C12", "shared-message-duplicated", format!("{} reached {who:?}", nm(d.i, k)));
                }
            }
        }
    }
    (out, judged)
}

pub struct Outcome {
    pub issues: Vec<Issue>,
    pub trace: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
}

/// How much of everything; a sanitizer makes each step dearer.
#[derive(Clone, Copy)]
pub struct Size {
    pub clients: (usize, usize),
    pub rogues: usize,
    pub steps: (usize, usize),
    pub patience: Duration,
}
impl Size {
    pub fn full() -> Size {
        Size { clients: (3, 6), rogues: 4, steps: (60, 260), patience: Duration::from_secs(20) }
    }
    /// for an interpreter
    pub fn tiny() -> Size {
        Size { clients: (2, 2), rogues: 1, steps: (6, 14), patience: Duration::from_secs(600) }
    }
}

pub fn one(seed: u64, size: Size) -> Outcome {
    let mut rng = Rng::new(seed);
    let workers = rng.range(2, 6);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap();
    let guard = rt.enter();
    let mut k = config();
    k.max_in_mem_pending_messages = 100_000;
    k.max_inflight_server = *rng.pick(&[2, 10, 50]);
    k.max_inflight_client = *rng.pick(&[2, 10]);
    let hooked = rng.chance(1, 2);
    if hooked {
        k.hook.enable_publish = true;
        k.hook.enable_subscribe = true;
        k.hook.enable_unsubscribe = true;
        k.hook.enable_before_connect = rng.bool();
        k.hook.enable_after_connect = rng.bool();
        k.hook.enable_after_disconnect = rng.bool();
    }
    let global = Arc::new(GlobalState::new(k.clone()));
    let hook = StormHook::default();
    let n = rng.range(size.clients.0, size.clients.1);
    let grouped = rng.chance(1, 3);
    let calm = rng.chance(1, 2);
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let world = |r: Rng| {
        let mut w = World::new(k.clone(), r);
        w.global = global.clone();
        w.storm = Some(hook.clone());
        let chunky = Policy { read_chunk: 40, write_chunk: 60, ..Policy::default() };
        w.kind = *w.rng.pick(&[Kind::Plain, Kind::Plain, Kind::Ws]);
        w.policy = if w.kind == Kind::Ws || w.rng.bool() { Policy::default() } else { chunky };
        w
    };
    let mut issues: Vec<Issue> = vec![];
    let mut ds: Vec<Drv> = vec![];
    for i in 0..n {
        let ver = *rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5]);
        let mut d = Drv {
            w: world(Rng::new(rng.u64())),
            i,
            ver,
            name: format!("c{i}"),
            subs: BTreeMap::new(),
            all: None,
            group: false,
            dynamic: vec![],
            ivs: vec![],
            msgs: vec![],
            flights: BTreeMap::new(),
            order: vec![],
            limit: 8,
            greeted: false,
            up: true,
            got: vec![],
            olds: vec![],
            manual: false,
            stats: BTreeMap::new(),
            writers: n,
            acks: vec![],
            calm,
        };
        let mut filters: Vec<(String, u8)> = vec![];
        if grouped && ver.v5() && i % 2 == 1 {
            d.group = true;
            filters.push(("$share/g/t/#".into(), 2));
        } else if rng.chance(1, 4) {
            d.all = Some(rng.below(3) as u8);
            filters.push(("#".into(), d.all.unwrap()));
        } else {
            for t in 0..TOPICS.len() {
                if rng.chance(2, 3) {
                    let q = rng.below(3) as u8;
                    d.subs.insert(t, q);
                    filters.push((TOPICS[t].into(), q));
                }
            }
            let q = rng.range(1, 2) as u8;
            match rng.below(3) {
                0 => d.dynamic.push(("d/+".into(), q)),
                1 => d.dynamic.push(("d/#".into(), q)),
                _ => (0..3).for_each(|k| d.dynamic.push((format!("d/{k}"), q))),
            }
            for _ in 0..3 {
                let f = (format!("r/{}/{}", rng.below(d.writers), rng.below(2)), 1);
                if !d.dynamic.contains(&f) {
                    d.dynamic.push(f);
                }
            }
        }
        let c = d.conn();
        d.w.open(c);
        d.log(format!("{:?} subscribes {filters:?}", d.ver));
        let t = Instant::now();
        if !filters.is_empty() {
            d.w.clis[0].subscribe(&vec![], &filters);
        }
        let done = |d: &Drv| d.w.clis[0].connack.is_some() && (filters.is_empty() || d.w.clis[0].inbox.iter().any(|p| matches!(p, S::Suback { .. })));
        while !done(&d) && t.elapsed() < size.patience {
            d.w.pump();
            std::thread::yield_now();
        }
        if !done(&d) {
            issues.push(Issue { prop: "C27 C09", sig: "connect-never-answered".into(), detail: format!("{}: {:?}", d.name, d.w.clis[0].inbox) });
        }
        d.collect();
        d.manual = d.w.rng.chance(1, 3);
        d.w.clis[0].auto = if d.manual { Auto::None } else { Auto::All };
        ds.push(d);
    }
    let mut rs: Vec<Rogue> = (0..size.rogues).map(|j| Rogue { w: world(Rng::new(rng.u64())), id: format!("x{}", j % 2), ver: if j % 2 == 0 { Ver::V5 } else { Ver::V311 } }).collect();
    let steps = rng.range(size.steps.0, size.steps.1) * if calm { 2 } else { 1 };
    let barrier = std::sync::Barrier::new(n + rs.len());
    let handle = rt.handle().clone();
    std::thread::scope(|s| {
        for d in &mut ds {
            let (b, h) = (&barrier, handle.clone());
            s.spawn(move || {
                let _g = h.enter();
                b.wait();
                d.storm(steps);
            });
        }
        for r in &mut rs {
            let (b, h) = (&barrier, handle.clone());
            s.spawn(move || {
                let _g = h.enter();
                b.wait();
                r.storm(steps);
            });
        }
    });
    // everything is let through
    let mut wrong: Vec<Issue> = vec![];
    let mut judged = 0;
    for round in 0..2 {
        if round == 1 {
            for d in &mut ds {
                d.cli().disconnect(0, &vec![]);
                d.up = false;
            }
        }
        for d in &mut ds {
            d.cli().end.set_window(None);
            if !d.up {
                d.reconnect();
            }
            d.manual = false;
            d.cli().auto = Auto::All;
        }
        let t = Instant::now();
        let mut calm = Instant::now();
        let mut act = clock::activity();
        loop {
            for d in &mut ds {
                d.collect();
                d.ack_some(true);
            }
            for r in &mut rs {
                r.w.pump();
            }
            let settled = ds.iter_mut().all(|d| d.settled());
            let quiet = if cfg!(miri) { 400 } else { 12 };
            if clock::activity() != act {
                act = clock::activity();
                calm = Instant::now();
            }
            if settled && calm.elapsed() > Duration::from_millis(quiet) {
                (wrong, judged) = judge(&ds);
                if wrong.is_empty() || calm.elapsed() > size.patience / 4 {
                    break;
                }
            }
            if t.elapsed() > size.patience && calm.elapsed() > size.patience / 4 || t.elapsed() > size.patience * 8 {
                for d in &mut ds {
                    if !d.settled() {
                        let x = format!("{}: up {} greeted {} flights {:?} unacknowledged {:?} subscriptions {:?}", d.name, d.up, d.greeted, d.flights, d.w.clis[0].out, d.ivs.last());
                        let p = if !d.greeted { "C09 C27" } else if !d.flights.is_empty() { "C03 C27" } else { "C04 C14" };
                        wrong.push(Issue { prop: p, sig: "exchange-never-finished".into(), detail: x });
                    }
                }
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        if !wrong.is_empty() {
            break;
        }
    }
    let clean = wrong.is_empty();
    issues.extend(wrong);
    // one live connection per identifier; the counts agree
    let mut rest = |what: &'static str, prop: &'static str, f: &mut dyn FnMut() -> Option<String>| {
        let t = Instant::now();
        loop {
            match f() {
                None => return,
                Some(why) if t.elapsed() > size.patience => {
                    issues.push(Issue { prop, sig: what.into(), detail: why });
                    return;
                }
                _ => std::thread::sleep(Duration::from_micros(300)),
            }
        }
    };
    if clean {
        rest("old-connection-left-open", "C09", &mut || {
            for d in &ds {
                if let Some(k) = d.olds.iter().position(|e| !e.closed()) {
                    return Some(format!("{}: connection {k} of {} is still open", d.name, d.olds.len()));
                }
            }
            None
        });
        let open = |rs: &mut [Rogue], id: &str| {
            let mut n = 0;
            for r in rs.iter_mut().filter(|r| r.id == id) {
                r.w.pump();
                n += r.w.clis.iter().filter(|c| !c.closed()).count();
            }
            n
        };
        rest("two-live-connections", "C09", &mut || {
            for id in ["x0", "x1"] {
                let n = open(&mut rs, id);
                if n > 1 {
                    return Some(format!("{id}: {n} connections open"));
                }
            }
            None
        });
        rest("online-count-wrong", "C23", &mut || {
            let want = ds.len() + open(&mut rs, "x0") + open(&mut rs, "x1");
            let got = global.online_clients_count();
            (got != want as u64).then(|| format!("{got} online, {want} connections open"))
        });
        // everybody leaves for good
        let mut last: Vec<World> = vec![];
        for (id, ver) in ds.iter().map(|d| (d.name.clone(), d.ver)).chain([("x0".to_string(), Ver::V5), ("x1".to_string(), Ver::V311)]) {
            let mut w = world(Rng::new(seed));
            let mut c = Connect::new(ver, &id, true);
            c.keep_alive = 60_000;
            w.open(c);
            rest("identifier-unusable", "C09", &mut || {
                w.pump();
                match &w.clis[0].connack {
                    Some((_, 0, _)) => None,
                    x => Some(format!("{id}: a new connection gets {x:?}, {:?}", w.clis[0].outcome)),
                }
            });
            w.clis[0].disconnect(0, &vec![]);
            last.push(w);
        }
        rest("clients-left-behind", "C23", &mut || {
            let c = (global.online_clients_count(), global.clients_count());
            (c != (0, 0)).then(|| format!("{} online and {} known after every session ended", c.0, c.1))
        });
        // what the retained store and the routes hold now
        let mut w = world(Rng::new(seed));
        let mut c = Connect::new(Ver::V5, "probe", true);
        c.keep_alive = 60_000;
        w.open(c);
        w.clis[0].subscribe(&vec![], &[("r/#".into(), 1)]);
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for d in &ds {
            for m in d.msgs.iter().filter(|m| m.retain) {
                if m.clear {
                    want.remove(&m.topic);
                } else {
                    want.insert(m.topic.clone(), m.payload.clone());
                }
            }
        }
        let mut got: Vec<(String, Vec<u8>)> = vec![];
        rest("retained-store-wrong", "C02", &mut || {
            w.pump();
            got.extend(w.clis[0].take_app().into_iter().map(|p| (p.topic, p.payload)));
            let g: BTreeMap<_, _> = got.iter().cloned().collect();
            (g != want || got.len() != want.len()).then(|| format!("writers left {:?}, a new subscription receives {:?}", show(&want), got.iter().map(|x| (x.0.clone(), String::from_utf8_lossy(&x.1[..x.1.len().min(12)]).into_owned())).collect::<Vec<_>>()))
        });
        // a left-over subscription of a group would take its share
        for (f, t) in [("$share/x/t/0", "t/0"), ("$share/x/t/#", "t/1"), ("$share/x/t/+", "t/1"), ("$share/g/t/#", "t/0"), ("$share/x/d/1", "d/1"), ("$share/x/d/+", "d/1")] {
            w.clis[0].take();
            w.clis[0].subscribe(&vec![], &[(f.into(), 1)]);
            rest("subscribe-never-answered", "C27", &mut || {
                w.pump();
                (!w.clis[0].inbox.iter().any(|p| matches!(p, S::Suback { .. }))).then(|| "no SUBACK".into())
            });
            for k in 0..6 {
                let pid = w.clis[0].pid();
                w.clis[0].publish(&Pub { qos: 1, topic: t.into(), pid, payload: vec![k], ..Pub::default() });
            }
            let mut n = 0;
            rest("subscription-left-behind", "C23 C12", &mut || {
                w.pump();
                n += w.clis[0].take_app().len();
                (n != 6).then(|| format!("the only member of {f} received {n} of 6 messages"))
            });
            w.clis[0].unsubscribe(&[f.into()]);
            rest("unsubscribe-never-answered", "C27", &mut || {
                w.pump();
                (!w.clis[0].inbox.iter().any(|p| matches!(p, S::Unsuback { .. }))).then(|| "no UNSUBACK".into())
            });
        }
        last.push(w);
        for w in &mut last {
            issues.append(&mut w.issues);
        }
        stats.insert("storms-ended-clean", 1);
    }
    for b in hook.bad.lock().unwrap().drain(..) {
        issues.push(Issue { prop: "C25 C29", sig: "hook-data-changed".into(), detail: b });
    }
    let mut trace: Vec<(u64, String)> = vec![];
    for d in &mut ds {
        issues.append(&mut d.w.issues);
        for l in d.w.trace.drain(..) {
            let n = l.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
            trace.push((n, l));
        }
        for (k, v) in &d.stats {
            *stats.entry(k).or_default() += v;
        }
        *stats.entry("messages-published").or_default() += d.msgs.len() as u64;
        *stats.entry("messages-acknowledged").or_default() += d.msgs.iter().filter(|m| m.acked.is_some()).count() as u64;
        *stats.entry("subscriptions-churned").or_default() += d.ivs.len() as u64;
    }
    for r in &mut rs {
        issues.append(&mut r.w.issues);
        *stats.entry("racing-connects").or_default() += r.w.clis.len() as u64;
    }
    // how often two clients' publishes overlapped in time
    let mut iv: Vec<(u64, u64)> = ds.iter().flat_map(|d| d.msgs.iter().filter_map(|m| m.acked.map(|a| (m.sent, a)))).collect();
    iv.sort();
    let overlaps = iv.windows(2).filter(|w| w[1].0 < w[0].1).count() as u64;
    *stats.entry("overlapping-publishes").or_default() += overlaps;
    *stats.entry("hook-calls").or_default() += hook.held.load(Ordering::Relaxed);
    *stats.entry("deliveries-judged").or_default() += judged;
    *stats.entry("storms").or_default() += 1;
    trace.sort();
    drop(guard);
    rt.shutdown_timeout(Duration::from_secs(2));
    Outcome { issues, trace: trace.into_iter().map(|x| x.1).collect(), stats }
}

fn show(m: &BTreeMap<String, Vec<u8>>) -> Vec<(String, String)> {
    m.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(&v[..v.len().min(12)]).into_owned())).collect()
}

/// Storms for about `secs` seconds; what they show for this property counts.
pub fn phase(run: &mut Run, secs: u64) {
    let prop = run.prop.clone();
    let t = Instant::now();
    let mut n = 0u64;
    while t.elapsed() < Duration::from_secs(secs) && !run.violated() {
        let size = if cfg!(miri) { Size::tiny() } else { Size::full() };
        if !cfg!(miri) {
            crate::noise::level([0, 200, 1000, 3000][(n % 4) as usize]);
        }
        let seed = run.seed.wrapping_mul(1_000_003).wrapping_add(n);
        let alive = monlib::Alive::within(300);
        let o = if n / 4 % 2 == 0 { one(seed, size) } else { crate::duel::one(seed, size) };
        crate::noise::level(0);
        drop(alive);
        crate::model::report(run, 1_000_000 + n, &prop, o.issues, &o.trace);
        for (k, v) in &o.stats {
            run.count(&format!("parallel-{k}"), *v);
        }
        run.case(o.stats["deliveries-judged"] > 0, &o.trace);
        n += 1;
    }
}
