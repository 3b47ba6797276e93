//! Racing connects, take-overs, aborted handshakes, refusals and expiries; at
//! every point of rest the tables of the broker and the open connections are
//! compared, and every identifier is tried out.
use crate::codec::*;
use crate::model::report;
use crate::net::Policy;
use crate::world::*;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

struct Conn {
    cli: usize,
    id: usize,
    v5: bool,
    keep: bool,
    sei: u32,
    /// the client side gave up on it
    aborted: bool,
    /// the whole CONNECT was sent, and it is a valid one
    whole: bool,
    accepted: bool,
}

pub struct Life {
    pub w: World,
    ids: Vec<String>,
    conns: Vec<Conn>,
    /// connections opened since the last point of rest, per identifier
    fresh: Vec<Vec<usize>>,
    /// what is known to be kept for an identifier: None unknown,
    /// Some(None) nothing, Some(Some(expires at)) a session
    kept: Vec<Option<Option<u64>>>,
    now: u64,
    pub stats: BTreeMap<&'static str, u64>,
    monitor: usize,
    seq: u32,
    deny: bool,
    extra: usize,
}

impl Life {
    fn new(mut rng: Rng, deny: bool) -> Life {
        let mut k = config();
        // the queued refusals are meant for connects
        k.hook.enable_publish = !deny && rng.chance(1, 4);
        k.hook.enable_subscribe = !deny;
        let mut w = World::new(k, rng);
        if w.rng.chance(1, 3) {
            w.policy = Policy { read_chunk: 7, pending: 3, ..Policy::default() };
        }
        if w.rng.chance(1, 3) {
            let n = w.rng.range(1, 6);
            w.hook.st().delay = n;
        }
        Life { w, ids: vec![], conns: vec![], fresh: vec![], kept: vec![], now: 0, stats: BTreeMap::new(), monitor: 0, seq: 0, deny, extra: 0 }
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }

    fn build(&mut self, id: usize, v5: bool) -> (Connect, bool, u32) {
        let ver = if v5 { Ver::V5 } else { *self.w.rng.pick(&[Ver::V31, Ver::V311]) };
        let clean = self.w.rng.chance(1, 3);
        let mut c = Connect::new(ver, &self.ids[id], clean);
        c.keep_alive = 60_000;
        let mut sei = 0;
        if v5 {
            sei = *self.w.rng.pick(&[0u32, 0, 30, 200, 100_000]);
            if sei > 0 || self.w.rng.bool() {
                c.props.push((P_SEI, PV::U32(sei)));
            }
        }
        if self.w.rng.chance(1, 4) {
            c.will = Some(Will { qos: 0, retain: false, topic: "will".into(), payload: b"w".to_vec(), props: vec![] });
        }
        let keep = if v5 { sei > 0 } else { !clean };
        (c, keep, sei)
    }

    fn open(&mut self, id: usize) {
        let v5 = if self.w.rng.chance(1, 8) { self.w.rng.bool() } else { id % 2 == 0 };
        let (c, keep, sei) = self.build(id, v5);
        let x = self.w.rng.below(10);
        let ver = c.ver;
        let cli = if x == 0 {
            // part of a CONNECT only
            let b = connect(&c);
            let n = self.w.rng.range(0, b.len() - 1);
            let k = self.w.kind;
            let i = self.w.open_raw(ver, k);
            self.w.clis[i].send(&b[..n]);
            self.w.log(format!("{} opens with {n} of {} bytes", self.ids[id], b.len()));
            self.stat("partial-connects");
            i
        } else {
            self.w.log(format!("{} connects #{} v5 {v5} clean {} sei {sei}", self.ids[id], self.conns.len(), c.clean));
            if self.deny && self.w.rng.chance(1, 5) {
                use akasa_core::{HookConnectCode as H, HookError};
                let r = match self.w.rng.below(3) {
                    0 => Ok(H::NotAuthorized),
                    1 => Err(HookError::Internal),
                    _ => Ok(H::ServerUnavailable),
                };
                self.w.hook.st().connect.push_back(r);
                self.stat("hook-refusals-queued");
            }
            if self.deny && self.w.rng.chance(1, 8) {
                self.w.hook.st().actions.push_back(Err(akasa_core::HookError::Internal));
                self.stat("after-connect-failures-queued");
            }
            let i = self.w.open(c);
            self.w.clis[i].lossy = true;
            i
        };
        self.fresh[id].push(self.conns.len());
        self.conns.push(Conn { cli, id, v5, keep, sei, aborted: false, whole: x != 0, accepted: false });
    }

    fn collect(&mut self) {
        for k in 0..self.conns.len() {
            let (cli, id) = (self.conns[k].cli, self.conns[k].id);
            for p in self.w.clis[cli].take() {
                if let S::Connack { code, .. } = p {
                    if code == 0 {
                        self.conns[k].accepted = true;
                        if !self.conns[k].aborted {
                            let mut f = vec![(format!("p/{}", self.ids[id]), 1)];
                            if self.conns[k].v5 {
                                f.push((format!("$share/g/s/{}", self.ids[id]), 1));
                            }
                            self.w.clis[cli].subscribe(&vec![], &f);
                        }
                    }
                }
            }
            if self.w.clis[cli].closed() && !self.conns[k].aborted {
                // a real client closes its side as well
                self.w.clis[cli].end.eof();
            }
        }
    }

    async fn steps(&mut self) {
        let n = self.w.rng.range(3, 25);
        for _ in 0..n {
            match self.w.rng.below(10) {
                0..=4 => {
                    let id = self.w.rng.below(self.ids.len());
                    self.open(id);
                    if self.w.rng.chance(1, 4) {
                        self.open(id);
                    }
                }
                5 | 6 => {
                    // abort one, often one that is still being served
                    if self.conns.is_empty() {
                        continue;
                    }
                    let lo = self.conns.len().saturating_sub(6);
                    let k = self.w.rng.range(lo, self.conns.len() - 1);
                    let cli = self.conns[k].cli;
                    if !self.conns[k].aborted && !self.w.clis[cli].closed() {
                        let reset = self.w.rng.bool();
                        let early = !self.conns[k].accepted;
                        self.conns[k].aborted = true;
                        self.w.log(format!("#{k} aborted, reset {reset}, before CONNACK {early}"));
                        self.w.clis[cli].drop_conn(reset);
                        self.stat(if early { "aborted-in-handshake" } else { "aborted-later" });
                        let id = self.conns[k].id;
                        self.touch(id, k);
                    }
                }
                7 => {
                    let open: Vec<usize> = (0..self.conns.len()).filter(|k| self.conns[*k].accepted && !self.conns[*k].aborted && self.w.clis[self.conns[*k].cli].live()).collect();
                    if !open.is_empty() {
                        let k = *self.w.rng.pick(&open);
                        let cli = self.conns[k].cli;
                        self.w.log(format!("#{k} disconnects"));
                        self.conns[k].aborted = true;
                        self.w.clis[cli].disconnect(0, &vec![]);
                        let id = self.conns[k].id;
                        self.touch(id, k);
                    }
                }
                _ => {}
            }
            let r = *self.w.rng.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 6, 9, 15]);
            self.w.step(r).await;
            self.collect();
        }
    }
    fn touch(&mut self, id: usize, k: usize) {
        if !self.fresh[id].contains(&k) {
            self.fresh[id].push(k);
        }
    }

    async fn pass(&mut self, s: u64) {
        self.w.pass(Duration::from_secs(s), Duration::from_secs(2)).await;
        self.now += s;
        self.collect();
        self.w.settle().await;
    }

    fn open_of(&self, id: usize) -> Vec<usize> {
        (0..self.conns.len())
            .filter(|k| {
                let c = &self.conns[*k];
                c.id == id && c.accepted && !c.aborted && !self.w.clis[c.cli].closed()
            })
            .collect()
    }

    async fn rest(&mut self) {
        for _ in 0..3 {
            self.w.settle().await;
            self.collect();
        }
        // unfinished handshakes run into their limit
        self.pass(14).await;
        for _ in 0..2 {
            self.w.settle().await;
            self.collect();
        }
        self.w.log(format!("--- at rest, {:?}", self.w.counts()));
        self.stat("points-of-rest");
        let mut open = 0;
        let mut maybe = 0usize;
        let mut certain = 0usize;
        for id in 0..self.ids.len() {
            let o = self.open_of(id);
            let name = self.ids[id].clone();
            open += o.len() as u64;
            if o.len() > 1 {
                self.w.issue("C09", "two-live-connections", format!("{name}: {o:?}"));
            }
            for k in (0..self.conns.len()).filter(|k| self.conns[*k].id == id) {
                let c = &self.conns[k];
                if !c.accepted && !c.aborted && !self.w.clis[c.cli].closed() {
                    let what = if c.whole { "C09" } else { "C26" };
                    let d = format!("{name}: connection #{k} got neither an answer nor an end");
                    self.w.issue(what, "connection-left-hanging", d);
                }
            }
            let f = std::mem::take(&mut self.fresh[id]);
            let racers: Vec<&Conn> = f.iter().map(|k| &self.conns[*k]).collect();
            // with only whole, persisting connections of one generation one must win
            if !self.deny && o.is_empty() && !f.is_empty() && racers.iter().all(|c| c.whole && !c.aborted) && racers.iter().map(|c| c.v5).collect::<BTreeSet<_>>().len() == 1 && self.kept[id] == Some(None) {
                self.w.issue("C09", "no-connection-served", format!("{name}: {f:?}"));
            }
            if !f.is_empty() {
                // what is kept is certain only if one attempt was made on a known past
                let one = if f.len() == 1 { Some(f[0]) } else { None };
                self.kept[id] = match (one, self.kept[id]) {
                    (Some(k), Some(_)) if self.conns[k].accepted && self.conns[k].aborted && o.is_empty() => {
                        let c = &self.conns[k];
                        // a normal end keeps the session of this connection; the
                        // clock moved by up to 16 s since
                        Some(if c.keep { Some(if c.v5 { self.now + c.sei as u64 } else { u64::MAX }) } else { None })
                    }
                    _ => None,
                };
                if !o.is_empty() {
                    self.kept[id] = Some(None);
                }
            }
            match (o.is_empty(), self.kept[id]) {
                (false, _) => {
                    certain += 1;
                    maybe += 1;
                }
                (true, Some(None)) => {}
                (true, Some(Some(t))) => {
                    if t > self.now + 40 {
                        certain += 1;
                        maybe += 1;
                    } else if t + 40 > self.now {
                        maybe += 1;
                    } else {
                        self.kept[id] = Some(None);
                    }
                }
                (true, None) => maybe += 1,
            }
        }
        let (online, known) = self.w.counts();
        let extra = self.extra as u64;
        if online != open + extra {
            self.w.issue("C23", "online-count-wrong", format!("{online} online, {} connections open", open + extra));
        }
        if known < certain + self.extra || known > maybe + self.extra {
            self.w.issue("C23", "client-count-wrong", format!("{known} known clients, expected {}..{}", certain + self.extra, maybe + self.extra));
        }
        self.probe().await;
    }

    /// Every identifier's messages reach its one open connection, and only that.
    async fn probe(&mut self) {
        for id in 0..self.ids.len() {
            let o = self.open_of(id);
            for c in &mut self.w.clis {
                c.take_app();
            }
            self.seq += 1;
            let topic = format!("p/{}", self.ids[id]);
            let payload = format!("probe{}", self.seq).into_bytes();
            let m = self.monitor;
            let pid = self.w.clis[m].pid();
            self.w.clis[m].publish(&Pub { qos: 1, topic: topic.clone(), pid, payload: payload.clone(), ..Pub::default() });
            self.w.settle().await;
            self.stat("probes");
            let mut got: Vec<usize> = vec![];
            for k in 0..self.conns.len() {
                let cli = self.conns[k].cli;
                let n = self.w.clis[cli].take_app().iter().filter(|p| p.payload == payload).count();
                for _ in 0..n {
                    got.push(k);
                }
            }
            if got != o {
                let sig = if got.is_empty() { "open-connection-receives-nothing" } else { "message-went-elsewhere" };
                self.w.issue("C09", sig, format!("{}: message to {topic} reached connections {got:?}, open is {o:?}", self.ids[id]));
            }
        }
    }

    /// All sessions end; nothing may be left.
    async fn finale(&mut self) {
        self.w.hook.st().connect.clear();
        self.w.hook.st().actions.clear();
        self.w.log("--- every identifier is tried, then given up".into());
        for id in 0..self.ids.len() {
            let mut served = vec![];
            for v5 in [id % 2 == 0, id % 2 != 0] {
                let (mut c, _, _) = self.build(id, v5);
                c.clean = true;
                c.will = None;
                c.props.clear();
                let cli = self.w.connect(c).await;
                let ok = self.w.clis[cli].live();
                self.conns.push(Conn { cli, id, v5, keep: false, sei: 0, aborted: false, whole: true, accepted: ok });
                if ok {
                    served.push(cli);
                    break;
                }
                if !self.w.clis[cli].closed() {
                    self.w.issue("C09", "connection-left-hanging", format!("{}: a new connection is neither served nor refused", self.ids[id]));
                }
            }
            if served.is_empty() {
                self.w.issue("C09", "identifier-unusable", format!("{}: no new connection is accepted", self.ids[id]));
            }
            if self.open_of(id).len() > 1 {
                self.w.issue("C09", "two-live-connections", format!("{}: {:?}", self.ids[id], self.open_of(id)));
            }
            for cli in served {
                self.w.clis[cli].disconnect(0, &vec![]);
            }
            self.w.settle().await;
            self.stat("identifiers-tried");
        }
        let (online, known) = self.w.counts();
        if (online, known) != (self.extra as u64, self.extra) {
            self.w.issue("C23", "clients-left-behind", format!("{online} online and {known} known after every session ended, expected {}", self.extra));
        }
        // a left-over subscription would take its share of these
        let m = self.monitor;
        for id in 0..self.ids.len() {
            let f = format!("$share/g/s/{}", self.ids[id]);
            self.w.clis[m].subscribe(&vec![], &[(f, 1)]);
            self.w.settle().await;
            self.w.clis[m].take_app();
            for _ in 0..4 {
                let pid = self.w.clis[m].pid();
                let topic = format!("s/{}", self.ids[id]);
                self.w.clis[m].publish(&Pub { qos: 1, topic, pid, payload: b"share".to_vec(), ..Pub::default() });
            }
            self.w.settle().await;
            let n = self.w.clis[m].take_app().len();
            if n != 4 {
                self.w.issue("C23", "subscription-left-behind", format!("a member of the group of s/{} received {n} of 4 messages", self.ids[id]));
            }
            self.stat("groups-tried");
        }
    }

    async fn run(&mut self) {
        let mut c = Connect::new(Ver::V5, "monitor", true);
        c.keep_alive = 60_000;
        self.monitor = self.w.connect(c).await;
        self.extra = 1;
        let n = self.w.rng.range(1, 3);
        for i in 0..n {
            self.ids.push(format!("i{i}"));
            self.fresh.push(vec![]);
            self.kept.push(Some(None));
        }
        let rounds = self.w.rng.range(1, 4);
        for _ in 0..rounds {
            self.steps().await;
            self.rest().await;
            if self.w.rng.chance(1, 3) {
                let s = *self.w.rng.pick(&[40u64, 100, 300]);
                self.w.log(format!("{s} s pass"));
                self.pass(s).await;
                self.stat("time-passed");
                self.rest().await;
            }
        }
        self.finale().await;
    }
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats) = case(|| async {
            let mut h = Life::new(Rng::fork(run.seed, n ^ 0x7171), n % 3 == 1);
            h.run().await;
            (h.w.issues.clone(), h.w.trace.clone(), h.stats.clone())
        });
        report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.case(stats.get("probes").is_some_and(|x| *x > 0), &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}
