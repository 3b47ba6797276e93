//! Duels: many clients on threads of their own create and remove the same nodes
//! of the shared tables all the time. Each one waits for its own answers only and
//! looks only at what it published itself: a message to a filter it has
//! subscribed comes back, one to a filter it left does not; its retained messages
//! are there until it clears them; its session is there when it returns.
use crate::codec::*;
use crate::storm::{Outcome, Size};
use crate::tp::Kind;
use crate::world::*;
use crate::net::Policy;
use akasa_core::GlobalState;
use monlib::Rng;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

struct Duellist {
    w: World,
    name: String,
    ver: Ver,
    n: u64,
    /// own payloads that must not arrive any more, and why
    barred: HashSet<String>,
    got: Vec<Pub>,
    acks: HashSet<(u8, u16)>,
    greeted: Option<bool>,
    pongs: u64,
    keep: bool,
    patience: Duration,
    failed: bool,
    stats: BTreeMap<&'static str, u64>,
}

/// Pairs of a filter and a topic it matches, in a thicket shared with all others.
const SHAPES: [(&str, &str); 10] = [
    ("K", "K"),
    ("K/@", "K/@"),
    ("K/+", "K/@"),
    ("K/#", "K/@"),
    ("K/#", "K"),
    ("K/a/@", "K/a/@"),
    ("K/a/+", "K/a/@"),
    ("K/+/@", "K/a/@"),
    ("K/a/#", "K/a/b/@"),
    ("+/@", "K/@"),
];

impl Duellist {
    fn log(&mut self, s: String) {
        if self.w.trace.len() >= 40 {
            self.w.trace.remove(0);
        }
        let l = format!("{}: {s}", self.name);
        self.w.trace.push(l);
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn fail(&mut self, prop: &'static str, sig: &str, d: String) {
        self.failed = true;
        let d = format!("{} ({:?}): {d}", self.name, self.ver);
        self.w.issue(prop, sig, d);
    }
    fn cli(&mut self) -> &mut Cli {
        &mut self.w.clis[0]
    }
    fn collect(&mut self) {
        self.w.pump();
        for p in self.cli().take() {
            match p {
                S::Connack { sp, code: 0, .. } => self.greeted = Some(sp),
                S::Connack { code, .. } => self.fail("C09", "connect-refused", format!("code {code}")),
                S::Puback { pid, code, .. } if code < 0x80 => drop(self.acks.insert((4, pid))),
                S::Suback { pid, codes, .. } if codes.iter().all(|c| *c < 3) => drop(self.acks.insert((9, pid))),
                S::Unsuback { pid, .. } => drop(self.acks.insert((11, pid))),
                S::Pingresp => self.pongs += 1,
                S::Publish(_) => {}
                p => self.fail("C24 C03 C09", "unexpected-answer", format!("{p:?}")),
            }
        }
        for p in self.cli().take_app() {
            let s = String::from_utf8_lossy(&p.payload).into_owned();
            if s.split(':').next() != Some(&self.name) {
                continue;
            }
            if self.barred.contains(&s) {
                let l = format!("{s} ({}, retain {}) arrived after its subscription had gone or it had been cleared", p.topic, p.retain);
                self.fail(if p.retain { "C02 C01" } else { "C01 C12 C08" }, "message-without-subscription", l);
            }
            self.got.push(p);
        }
        if !self.failed && self.cli().closed() && !self.cli().gone {
            let o = self.cli().outcome.clone();
            self.fail("C24 C03 C09", "closed-without-cause", format!("{o:?}"));
        }
    }
    /// Until `f` holds; false if it never does.
    fn wait(&mut self, mut f: impl FnMut(&mut Self) -> bool) -> bool {
        let t = Instant::now();
        loop {
            self.collect();
            if self.failed {
                return false;
            }
            if f(self) {
                return true;
            }
            if t.elapsed() > self.patience {
                return false;
            }
            std::thread::yield_now();
        }
    }
    fn answered(&mut self, ty: u8, pid: u16, what: &str) -> bool {
        let ok = self.wait(|s| s.acks.remove(&(ty, pid)));
        if !ok && !self.failed {
            self.fail("C27 C03", "never-answered", what.to_string());
        }
        ok
    }
    fn connect(&mut self, keep: bool) -> Connect {
        let mut c = Connect::new(self.ver, &self.name, !keep);
        c.keep_alive = 60_000;
        if keep && self.ver.v5() {
            c.props.push((P_SEI, PV::U32(100_000)));
        }
        c
    }
    /// Connects; `keep`: the session is to be the earlier one.
    fn enter(&mut self, keep: bool, present: bool) -> bool {
        let c = self.connect(keep);
        self.greeted = None;
        self.acks.clear();
        if self.w.clis.is_empty() {
            self.w.open(c);
        } else {
            self.w.reopen(0, c);
        }
        self.keep = keep;
        let ok = self.wait(|s| s.greeted.is_some());
        if !ok {
            if !self.failed {
                self.fail("C09 C27", "connect-never-answered", String::new());
            }
        } else if self.greeted != Some(present) {
            self.fail("C07 C08", "session-present-wrong", format!("session present {:?}, should be {present}", self.greeted));
            return false;
        }
        ok
    }
    fn subscribe(&mut self, f: &str, q: u8) -> bool {
        self.log(format!("subscribes {f}"));
        let pid = self.cli().subscribe(&vec![], &[(f.to_string(), q)]);
        self.answered(9, pid, "subscribe")
    }
    fn unsubscribe(&mut self, f: &str) -> bool {
        self.log(format!("unsubscribes {f}"));
        let pid = self.cli().unsubscribe(&[f.to_string()]);
        self.answered(11, pid, "unsubscribe")
    }
    /// Publishes and waits for the acknowledgement; the payload sent.
    fn publish(&mut self, t: &str, retain: bool, empty: bool) -> Option<String> {
        self.n += 1;
        let s = format!("{}:{}", self.name, self.n);
        self.log(format!("publishes {s} to {t} retain {retain} empty {empty}"));
        let payload = if empty { vec![] } else { s.clone().into_bytes() };
        let pid = self.cli().pid();
        self.cli().publish(&Pub { qos: 1, retain, topic: t.into(), payload, pid, ..Pub::default() });
        self.answered(4, pid, "publish").then_some(s)
    }
    fn arrived(&mut self, s: &str) -> bool {
        self.wait(|d| d.got.iter().any(|p| p.payload == s.as_bytes()))
    }
    fn once(&mut self, s: &str) {
        let n = self.got.iter().filter(|p| p.payload == s.as_bytes() && !p.dup).count();
        if n > 1 {
            self.fail("C04 C12", "delivered-twice", format!("{s} arrived {n} times"));
        }
    }
    fn round(&mut self) {
        self.got.clear();
        let r = &mut self.w.rng;
        let (f, t) = *r.pick(&SHAPES);
        let k = *r.pick(&["p", "q"]);
        let (kind, leave, q) = (r.below(10), r.below(10), r.range(1, 2) as u8);
        let fill = |s: &str| s.replace('K', k).replace('@', &self.name);
        let (mut f, t) = (fill(f), fill(t));
        let mut group = false;
        if kind < 4 && self.ver.v5() && r.chance(1, 4) {
            group = true;
            f = format!("$share/{}/{f}", self.name);
        }
        let own = t.contains(&self.name);
        if kind < 7 || !own {
            if !self.subscribe(&f, q) {
                return;
            }
            for _ in 0..self.w.rng.range(1, 2) {
                let Some(s) = self.publish(&t, false, false) else { return };
                if !self.arrived(&s) {
                    if !self.failed {
                        self.fail(if group { "C12 C03" } else { "C01 C03" }, "subscriber-missed", format!("{s} to {t} never arrived for {f}"));
                    }
                    return;
                }
                self.once(&s);
                self.stat("own-messages-received");
            }
            if leave < 2 && self.keep {
                // away and back: the session still has the subscription
                self.log("drops".into());
                self.cli().lossy = true;
                self.cli().drop_conn(leave == 0);
                if !self.enter(true, true) {
                    return;
                }
                self.cli().lossy = true;
                let Some(s) = self.publish(&t, false, false) else { return };
                if !self.arrived(&s) {
                    if !self.failed {
                        self.fail("C07 C01", "subscriber-missed-after-return", format!("{s} to {t} never arrived for {f}"));
                    }
                    return;
                }
                self.stat("returns-judged");
            }
            if leave < 5 {
                // away for good: the next session starts from nothing
                self.log("leaves".into());
                self.cli().lossy = true;
                if leave % 2 == 0 {
                    self.cli().disconnect(0, &vec![]);
                } else {
                    self.cli().drop_conn(leave == 3);
                }
                if !self.enter(false, false) {
                    return;
                }
                let keep = self.w.rng.bool();
                if keep {
                    // the session just made ends with this connection
                    self.cli().disconnect(0, &vec![]);
                    if !self.enter(true, false) {
                        return;
                    }
                }
            } else if !self.unsubscribe(&f) {
                return;
            }
            let Some(s) = self.publish(&t, false, false) else { return };
            self.barred.insert(s);
        } else {
            let Some(s) = self.publish(&t, true, false) else { return };
            for _ in 0..self.w.rng.range(1, 2) {
                self.got.clear();
                if !self.subscribe(&f, q) {
                    return;
                }
                if !self.arrived(&s) {
                    if !self.failed {
                        self.fail("C02", "retained-message-missing", format!("{s} on {t} never arrived for {f}"));
                    }
                    return;
                }
                self.stat("own-retained-received");
                if !self.unsubscribe(&f) {
                    return;
                }
            }
            // a topic of its own: nobody else could have replaced it
            if self.publish(&t, true, true).is_none() {
                return;
            }
            self.barred.insert(s);
            if !self.subscribe(&f, q) {
                return;
            }
            let n = self.pongs;
            self.cli().ping();
            if !self.wait(|d| d.pongs > n) {
                return;
            }
            self.unsubscribe(&f);
        }
    }
}

pub fn one(seed: u64, size: Size) -> Outcome {
    let mut rng = Rng::new(seed);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(rng.range(2, 6)).enable_all().build().unwrap();
    let guard = rt.enter();
    let k = config();
    let global = Arc::new(GlobalState::new(k.clone()));
    let n = if cfg!(miri) { 2 } else { rng.range(3, 7) };
    let rounds = if cfg!(miri) { 3 } else { rng.range(30, 80) };
    let mut ds: Vec<Duellist> = (0..n)
        .map(|i| {
            let mut w = World::new(k.clone(), Rng::new(rng.u64()));
            w.global = global.clone();
            w.kind = Kind::Plain;
            w.policy = Policy::default();
            let ver = *rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5]);
            Duellist { w, name: format!("d{i}"), ver, n: 0, barred: HashSet::new(), got: vec![], acks: HashSet::new(), greeted: None, pongs: 0, keep: false, patience: size.patience, failed: false, stats: BTreeMap::new() }
        })
        .collect();
    let barrier = std::sync::Barrier::new(n);
    let handle = rt.handle().clone();
    let over = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for d in &mut ds {
            let (b, h, over) = (&barrier, handle.clone(), &over);
            s.spawn(move || {
                let _g = h.enter();
                let keep = d.w.rng.bool();
                let mut ok = d.enter(keep, false);
                b.wait();
                for _ in 0..rounds {
                    ok = ok && !d.failed && over.load(Ordering::Relaxed) == 0;
                    if ok {
                        d.round();
                    }
                }
                if d.failed {
                    over.fetch_add(1, Ordering::Relaxed);
                    return;
                }
                // leaves nothing behind
                d.cli().lossy = true;
                d.cli().disconnect(0, &vec![]);
                if d.keep && d.enter(false, false) {
                    d.cli().disconnect(0, &vec![]);
                }
            });
        }
    });
    let mut issues: Vec<Issue> = vec![];
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut trace = vec![];
    ds.sort_by_key(|d| d.failed);
    for d in &mut ds {
        issues.append(&mut d.w.issues);
        trace.append(&mut d.w.trace);
        for (k, v) in &d.stats {
            *stats.entry(k).or_default() += v;
        }
    }
    if issues.is_empty() {
        let t = Instant::now();
        loop {
            let c = (global.online_clients_count(), global.clients_count());
            if c == (0, 0) {
                break;
            }
            if t.elapsed() > size.patience {
                issues.push(Issue { prop: "C23", sig: "clients-left-behind".into(), detail: format!("{} online and {} known after every session ended", c.0, c.1) });
                break;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        stats.insert("duels-ended-clean", 1);
    }
    let judged = stats.get("own-messages-received").copied().unwrap_or(0) + stats.get("own-retained-received").copied().unwrap_or(0);
    stats.insert("deliveries-judged", judged);
    stats.insert("duels", 1);
    drop(guard);
    rt.shutdown_timeout(Duration::from_secs(2));
    Outcome { issues, trace, stats }
}
