//! Sequential scenarios judged against a model of what MQTT prescribes. After
//! every operation the broker settles and everything each client received is
//! compared with the model.
use crate::clock;
use crate::codec::*;
use crate::tp::Kind;
use crate::world::*;
use akasa_core::{Config, HookAction, PublishAction, SharedSubscriptionMode, mqtt_proto};
use monlib::{Rng, Run};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// How likely each ingredient of a scenario is, out of 100.
#[derive(Clone)]
pub struct Prof {
    pub vers: Vec<Ver>,
    pub share: usize,
    pub retain: usize,
    pub will: usize,
    pub persist: usize,
    pub props: usize,
    pub nolocal: usize,
    pub subid: usize,
    pub dollar: usize,
    pub reconnect: usize,
    pub takeover: usize,
    pub depth: usize,
    pub ops: (usize, usize),
    pub max_qos: Vec<u8>,
    pub mixed_gen: bool,
    pub bad_end: usize,
    /// time passing between operations, and messages that do not live for long
    pub time: usize,
}
impl Prof {
    pub fn base() -> Prof {
        Prof {
            vers: vec![Ver::V31, Ver::V311, Ver::V5, Ver::V5],
            share: 0,
            retain: 10,
            will: 5,
            persist: 25,
            props: 10,
            nolocal: 10,
            subid: 25,
            dollar: 0,
            reconnect: 12,
            takeover: 4,
            depth: 3,
            ops: (25, 50),
            max_qos: vec![2],
            mixed_gen: false,
            bad_end: 40,
            time: 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Sub {
    filter: String,
    qos: u8,
    nl: bool,
    rap: bool,
    rh: u8,
    id: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Live,
    Stored,
    Queued,
    Will,
}

#[derive(Clone, Debug)]
struct Expect {
    what: What,
    topic: String,
    payload: Vec<u8>,
    props: Props,
    qos: u8,
    retain: bool,
    subs: Vec<Sub>,
    /// shared subscriptions that may have been chosen for this message
    maybe: Vec<(String, Sub)>,
    optional: bool,
    /// published at this (virtual) time, give or take `slack` milliseconds
    at: i64,
    slack: i64,
    /// its life is over: nobody may receive it any more
    gone: bool,
}

#[derive(PartialEq)]
enum Life {
    Alive,
    Unsure,
    Gone,
}
/// Whether a message published at `at` is still to be delivered. The broker counts whole seconds.
fn life(props: &Props, at: i64, slack: i64) -> Life {
    let Some(x) = u32p(props, P_EXPIRY) else { return Life::Alive };
    let (passed, x) = (clock::virtual_ms() - at, x as i64 * 1000);
    if passed <= x - 1100 - slack {
        Life::Alive
    } else if passed >= x + 1100 + slack {
        Life::Gone
    } else {
        Life::Unsure
    }
}

#[derive(Clone, Debug)]
struct Group {
    exp: Expect,
    members: Vec<(usize, Sub)>,
    name: String,
}

struct Sess {
    ver: Ver,
    subs: BTreeMap<String, Sub>,
    keep: bool,
    queue: Vec<Expect>,
    will: Option<Will>,
    /// share-group messages that may be waiting here (member, message)
    epoch: u64,
}

#[derive(Clone)]
struct Stored {
    payload: Vec<u8>,
    qos: u8,
    props: Props,
    owner: String,
    at: i64,
    slack: i64,
}

struct Ident {
    name: String,
    ver: Ver,
    cli: Option<usize>,
    sess: Option<Sess>,
    last: Option<usize>,
}

pub struct Model {
    pub w: World,
    prof: Prof,
    ids: Vec<Ident>,
    stored: BTreeMap<String, Stored>,
    /// payload → topic and what was said about it, for diagnosis
    known: HashMap<Vec<u8>, String>,
    removed: BTreeSet<(usize, String)>,
    counter: u64,
    max_qos: u8,
    pub stats: BTreeMap<&'static str, u64>,
    queued_groups: Vec<Group>,
    hook: bool,
    /// which offline member of a group a shared message turned up at
    went: HashMap<(String, Vec<u8>), usize>,
    /// when the current operation began
    began: i64,
    aged: i64,
}

const SEG: [&str; 5] = ["a", "b", "c", "", "dd"];

impl Model {
    pub fn new(mut k: Config, prof: Prof, mut rng: Rng) -> Model {
        let max_qos = *rng.pick(&prof.max_qos);
        k.max_allowed_qos = max_qos;
        k.shared_subscription_mode = *rng.pick(&[SharedSubscriptionMode::Random, SharedSubscriptionMode::HashClientId, SharedSubscriptionMode::HashTopicName]);
        let hook = prof.dollar > 0;
        k.hook.enable_publish = hook;
        let n = rng.range(2, 5);
        let ids = (0..n)
            .map(|i| Ident { name: format!("c{i}"), ver: *rng.pick(&prof.vers), cli: None, sess: None, last: None })
            .collect();
        Model {
            w: World::new(k, rng),
            prof,
            ids,
            stored: BTreeMap::new(),
            known: HashMap::new(),
            removed: BTreeSet::new(),
            counter: 0,
            max_qos,
            stats: BTreeMap::new(),
            queued_groups: vec![],
            hook,
            went: HashMap::new(),
            began: 0,
            aged: 0,
        }
    }
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    fn topic(&mut self) -> String {
        let d = self.w.rng.range(1, self.prof.depth);
        loop {
            let t = (0..d).map(|_| *self.w.rng.pick(&SEG)).collect::<Vec<_>>().join("/");
            if !t.is_empty() {
                return t;
            }
        }
    }
    fn filter(&mut self) -> String {
        loop {
            let d = self.w.rng.range(1, self.prof.depth);
            let mut v: Vec<&str> = (0..d).map(|_| if self.w.rng.chance(1, 4) { "+" } else { *self.w.rng.pick(&SEG) }).collect();
            if self.w.rng.chance(1, 4) {
                if self.w.rng.chance(1, 2) {
                    v.push("#");
                } else {
                    *v.last_mut().unwrap() = "#";
                }
            }
            if self.prof.dollar > 0 && self.w.rng.chance(1, 6) {
                v[0] = "$x";
            }
            let f = v.join("/");
            if !f.is_empty() {
                return f;
            }
        }
    }
    fn payload(&mut self) -> Vec<u8> {
        self.counter += 1;
        let n = if self.w.rng.chance(1, 30) { self.w.rng.range(100, 5000) } else { self.w.rng.range(0, 12) };
        let mut p = format!("m{}:", self.counter).into_bytes();
        p.extend(self.w.rng.bytes(n));
        p
    }
    fn msg_props(&mut self) -> Props {
        let r = &mut self.w.rng;
        let mut p: Props = vec![];
        if r.chance(1, 2) {
            p.push((P_CTYPE, PV::Str(format!("type/{}é", r.below(9)))));
        }
        if r.chance(1, 2) {
            p.push((P_RTOPIC, PV::Str(format!("re/{}", r.below(9)))));
        }
        if r.chance(1, 2) {
            let n = r.below(6);
            p.push((P_CORR, PV::Bin(r.bytes(n))));
        }
        for _ in 0..r.below(4) {
            p.push((P_USER, PV::Pair(format!("k{}", r.below(3)), format!("v{}", r.below(100)))));
        }
        if r.chance(1 + (self.prof.time > 0) as usize, 4) {
            let long = 1000 + r.below(100000) as u32;
            let short = *r.pick(&[2, 3, 5, 10, 20, 30, 60]);
            p.push((P_EXPIRY, PV::U32(if self.prof.time > 0 && r.chance(2, 3) { short } else { long })));
        }
        p
    }
    fn chance(&mut self, pct: usize) -> bool {
        self.w.rng.chance(pct, 100)
    }

    // ---- what a message is expected to cause ----
    fn route(&mut self, from: Option<usize>, topic: &str, payload: &[u8], props: &Props, qos: u8, retain: bool, what: What) -> (Vec<(usize, Expect)>, Vec<Group>) {
        let slack = if what == What::Will { 2000 } else { 0 };
        if retain {
            if payload.is_empty() {
                self.stored.remove(topic);
            } else {
                let owner = from.map(|i| self.ids[i].name.clone()).unwrap_or_default();
                self.stored.insert(topic.into(), Stored { payload: payload.into(), qos, props: props.clone(), owner, at: clock::virtual_ms(), slack });
            }
        }
        let base = Expect { what, topic: topic.into(), payload: payload.into(), props: props.clone(), qos, retain, subs: vec![], maybe: vec![], optional: false, at: clock::virtual_ms(), slack, gone: false };
        let mut direct = vec![];
        let mut groups: BTreeMap<(String, String), Group> = BTreeMap::new();
        for (i, id) in self.ids.iter().enumerate() {
            let Some(s) = &id.sess else { continue };
            let mut subs = vec![];
            for sub in s.subs.values() {
                if let Some((g, f)) = share(&sub.filter) {
                    if matches(f, topic) {
                        groups
                            .entry((g.to_string(), f.to_string()))
                            .or_insert_with(|| Group { exp: base.clone(), members: vec![], name: sub.filter.clone() })
                            .members
                            .push((i, sub.clone()));
                    }
                    continue;
                }
                if matches(&sub.filter, topic) && !(sub.nl && from == Some(i)) {
                    subs.push(sub.clone());
                }
            }
            if !subs.is_empty() {
                direct.push((i, Expect { subs, ..base.clone() }));
            }
        }
        (direct, groups.into_values().collect())
    }

    fn publish_and_judge<'a>(&'a mut self, direct: Vec<(usize, Expect)>, groups: Vec<Group>) -> BTreeMap<usize, Vec<Expect>> {
        let mut now: BTreeMap<usize, Vec<Expect>> = BTreeMap::new();
        for (i, mut e) in direct {
            if self.ids[i].cli.is_some() {
                now.entry(i).or_default().push(e);
            } else {
                e.optional = e.subs.iter().all(|s| s.qos.min(e.qos) == 0);
                e.what = What::Queued;
                self.ids[i].sess.as_mut().unwrap().queue.push(e);
                self.stat("queued", 1);
            }
        }
        self.queued_groups.extend(groups);
        now
    }

    // ---- checking ----
    fn issue(&mut self, prop: &'static str, sig: &str, detail: String) {
        self.w.issue(prop, sig, detail);
    }

    /// Compares what arrived with what the model expects, for every client.
    fn check(&mut self, mut want: BTreeMap<usize, Vec<Expect>>) {
        let mut got: BTreeMap<usize, Vec<Pub>> = BTreeMap::new();
        for i in 0..self.ids.len() {
            if let Some(c) = self.ids[i].cli.or(self.ids[i].last) {
                let v = self.w.clis[c].take_app();
                self.w.clis[c].take();
                got.insert(i, v);
            }
        }
        // share groups: each message to exactly one member. Find an assignment of groups to
        // members under which what every client received is explained.
        let mut by_key: BTreeMap<(String, Vec<u8>), Vec<Group>> = BTreeMap::new();
        for g in std::mem::take(&mut self.queued_groups) {
            by_key.entry((g.exp.topic.clone(), g.exp.payload.clone())).or_default().push(g);
        }
        for (key, groups) in by_key {
            self.assign(&key, &groups, &mut want, &got);
        }
        for (i, g) in got {
            let e = want.remove(&i).unwrap_or_default();
            self.judge(i, e, g);
        }
    }
    fn assign(&mut self, key: &(String, Vec<u8>), groups: &[Group], want: &mut BTreeMap<usize, Vec<Expect>>, got: &BTreeMap<usize, Vec<Pub>>) {
        let online: Vec<usize> = (0..self.ids.len()).filter(|i| self.ids[*i].cli.is_some()).collect();
        // what each online client got of this message and what its own subscriptions explain
        let have = |i: usize| -> Vec<&Pub> { got.get(&i).map(|v| v.iter().filter(|p| p.topic == key.0 && p.payload == key.1).collect()).unwrap_or_default() };
        let own = |i: usize| -> Vec<Sub> { want.get(&i).map(|v| v.iter().filter(|e| e.topic == key.0 && e.payload == key.1).flat_map(|e| e.subs.clone()).collect()).unwrap_or_default() };
        let fits = |i: usize, extra: &[Sub]| -> bool {
            let ps = have(i);
            let mut subs = own(i);
            subs.extend(extra.iter().cloned());
            let refs: Vec<&Sub> = subs.iter().collect();
            if refs.is_empty() || ps.is_empty() { refs.is_empty() && ps.is_empty() } else { copies_ok(&refs, &ps, groups[0].exp.qos, self.ids[i].ver.v5()).is_none() }
        };
        // choice per group: owner index into members, None = nobody, Some(two) = duplicated
        let explained = |choice: &[Vec<usize>]| -> bool {
            online.iter().all(|i| {
                let mut extra = vec![];
                for (g, c) in groups.iter().zip(choice) {
                    for m in c {
                        if g.members[*m].0 == *i {
                            extra.push(g.members[*m].1.clone());
                        }
                    }
                }
                fits(*i, &extra)
            })
        };
        fn search(groups: &[Group], options: &dyn Fn(usize, &Group) -> Vec<Vec<usize>>, acc: &mut Vec<Vec<usize>>, ok: &dyn Fn(&[Vec<usize>]) -> bool) -> bool {
            if acc.len() == groups.len() {
                return ok(acc);
            }
            for c in options(acc.len(), &groups[acc.len()]) {
                acc.push(c);
                if search(groups, options, acc, ok) {
                    return true;
                }
                acc.pop();
            }
            false
        }
        let one = |_: usize, g: &Group| -> Vec<Vec<usize>> { (0..g.members.len()).map(|m| vec![m]).collect() };
        let loose = |_: usize, g: &Group| -> Vec<Vec<usize>> {
            let mut v = vec![vec![]];
            for a in 0..g.members.len() {
                v.push(vec![a]);
                for b in a + 1..g.members.len() {
                    v.push(vec![a, b]);
                }
            }
            v.push((0..g.members.len()).collect());
            v
        };
        let mut choice = vec![];
        let good = search(groups, &one, &mut choice, &explained);
        // The message of a group may wait at a member that is not connected now: at any of
        // them, if what the connected clients got allows that.
        let can_wait: Vec<bool> = (0..groups.len())
            .map(|k| {
                let at_k_away = |n: usize, g: &Group| -> Vec<Vec<usize>> { (0..g.members.len()).filter(|m| n != k || self.ids[g.members[*m].0].cli.is_none()).map(|m| vec![m]).collect() };
                search(groups, &at_k_away, &mut vec![], &explained)
            })
            .collect();
        let mut verdict = None;
        if !good {
            choice.clear();
            if search(groups, &loose, &mut choice, &explained) {
                verdict = Some(if choice.iter().any(|c| c.is_empty()) { "shared-message-skipped" } else { "shared-message-to-several-members" });
            } else {
                // something else is wrong with these copies: let the ordinary comparison say what
                choice = groups.iter().map(|g| g.members.iter().position(|(i, _)| self.ids[*i].cli.is_some() && !have(*i).is_empty()).into_iter().collect()).collect();
            }
        }
        let sees: Vec<(usize, usize)> = online.iter().map(|i| (*i, have(*i).len())).filter(|x| x.1 > 0).collect();
        for (g, c) in groups.iter().zip(&choice) {
            for m in c {
                let (i, sub) = g.members[*m].clone();
                if self.ids[i].cli.is_some() {
                    if good {
                        self.stat("shared-delivered", 1);
                    }
                    let v = want.entry(i).or_default();
                    match v.iter_mut().find(|e| e.topic == key.0 && e.payload == key.1) {
                        Some(e) => e.subs.push(sub),
                        None => v.push(Expect { subs: vec![sub], ..g.exp.clone() }),
                    }
                }
            }
        }
        for (g, w) in groups.iter().zip(can_wait) {
            if !w {
                continue;
            }
            self.stat("shared-to-an-offline-member", 1);
            for (i, sub) in &g.members {
                if self.ids[*i].cli.is_none() && self.ids[*i].sess.is_some() {
                    let q = &mut self.ids[*i].sess.as_mut().unwrap().queue;
                    let m = (g.name.clone(), sub.clone());
                    match q.iter_mut().find(|e| e.topic == key.0 && e.payload == key.1) {
                        Some(e) => e.maybe.push(m),
                        None => q.push(Expect { subs: vec![], maybe: vec![m], optional: true, what: What::Queued, ..g.exp.clone() }),
                    }
                }
            }
        }
        if let Some(sig) = verdict {
            let d = format!(
                "message {} {:?}; groups {:?}; copies per connected client {sees:?}",
                key.0,
                String::from_utf8_lossy(&key.1),
                groups.iter().map(|g| (&g.name, g.members.iter().map(|m| m.0).collect::<Vec<_>>())).collect::<Vec<_>>()
            );
            self.issue("C12", sig, d);
        }
    }
    fn v5(&self, i: usize) -> bool {
        self.ids[i].ver.v5()
    }

    fn judge(&mut self, i: usize, want: Vec<Expect>, got: Vec<Pub>) {
        let v5 = self.v5(i);
        let mut keys: Vec<(String, Vec<u8>)> = vec![];
        for k in want.iter().map(|e| (e.topic.clone(), e.payload.clone())).chain(got.iter().map(|p| (p.topic.clone(), p.payload.clone()))) {
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        for key in keys {
            let es: Vec<&Expect> = want.iter().filter(|e| (&e.topic, &e.payload) == (&key.0, &key.1)).collect();
            let ps: Vec<&Pub> = got.iter().filter(|p| (&p.topic, &p.payload) == (&key.0, &key.1)).collect();
            let (nm, vr) = (self.ids[i].name.clone(), self.ids[i].ver);
            let ctx = |x: &str| format!("client {nm} ({vr:?}): {x}\n  expected {es:?}\n  received {ps:?}");
            if es.is_empty() {
                let who = self.known.get(&key.1).cloned().unwrap_or_default();
                let by_removed = self.removed.iter().any(|(j, f)| *j == i && matches(share(f).map(|x| x.1).unwrap_or(f), &key.0));
                let nl = self.ids[i].sess.as_ref().is_some_and(|s| s.subs.values().any(|s| s.nl && matches(&s.filter, &key.0)));
                let sh = self.ids[i].sess.as_ref().is_some_and(|s| s.subs.values().any(|s| share(&s.filter).is_some_and(|x| matches(x.1, &key.0))));
                let (prop, sig) = if ps[0].retain {
                    ("C02 C13", "unexpected-stored-message")
                } else if who.starts_with("will") {
                    ("C10", "unexpected-will")
                } else if nl {
                    ("C13 C01", "no-local-message-delivered")
                } else if sh {
                    ("C12", "shared-message-to-several-members")
                } else if by_removed {
                    ("C01 C08", "delivered-through-a-removed-subscription")
                } else {
                    ("C01", "delivered-without-a-matching-subscription")
                };
                let d = ctx(&format!("nothing was expected; the message: {who}"));
                self.issue(prop, sig, d);
                continue;
            }
            if key.1.is_empty() && es.len() > 1 {
                continue;
            }
            if es[0].gone {
                self.stat("expired", 1);
                if !ps.is_empty() {
                    let d = ctx("its expiry interval had passed");
                    self.issue(if es[0].what == What::Stored { "C33 C02" } else { "C33 C07" }, "expired-message-delivered", d);
                }
                continue;
            }
            if es[0].what == What::Stored {
                // one copy for each expectation
                let mut left: Vec<&Pub> = ps.clone();
                let mut problems: Vec<(&'static str, &str, String)> = vec![];
                let mut miss = 0;
                for e in &es {
                    let s = &e.subs[0];
                    let ids: Vec<u32> = s.id.into_iter().collect();
                    let q = s.qos.min(e.qos);
                    if let Some(n) = left.iter().position(|p| p.qos == q && (p.retain || v5 && !s.rap) && subids(p) == ids) {
                        left.remove(n);
                        self.stat("stored-delivered", 1);
                    } else if !e.optional {
                        miss += 1;
                    }
                }
                if ps.len() > es.len() {
                    problems.push(("C02", "stored-message-repeated", String::new()));
                } else if ps.len() < es.iter().filter(|e| !e.optional).count() {
                    problems.push(("C02", "stored-message-missing", String::new()));
                } else if miss > 0 && !left.is_empty() {
                    let (e, s, p) = (es[0], &es[0].subs[0], left[0]);
                    if !p.retain && !(v5 && !s.rap) {
                        problems.push(("C02", "stored-message-without-retain-flag", String::new()));
                    } else if es.len() == 1 && p.qos != s.qos.min(e.qos) {
                        problems.push(("C06", "stored-message-wrong-qos", String::new()));
                    } else if es.len() == 1 {
                        problems.push(("C13", "stored-message-wrong-subscription-identifier", String::new()));
                    } else {
                        problems.push(("C06 C13", "stored-message-wrong-qos-or-identifier", String::new()));
                    }
                }
                for p in &ps {
                    if let Some(x) = self.props_differ(es[0], p, v5) {
                        problems.push(("C33 C02", "stored-message-altered", x));
                    }
                }
                for (prop, sig, d) in problems {
                    let d = ctx(&d);
                    self.issue(prop, sig, d);
                }
                continue;
            }
            let e = es[0];
            let missing = match e.what {
                What::Live => ("C01", "matching-subscriber-not-served"),
                What::Queued if u32p(&e.props, P_EXPIRY).is_some() => ("C07 C03 C33", "queued-message-lost"),
                What::Queued => ("C07 C03", "queued-message-lost"),
                What::Will => ("C10", "will-not-published"),
                What::Stored => unreachable!(),
            };
            if ps.is_empty() {
                if !e.optional {
                    let d = ctx("missing");
                    self.issue(missing.0, missing.1, d);
                }
                continue;
            }
            self.stat(
                match e.what {
                    What::Live => "live-delivered",
                    What::Queued => "queue-delivered",
                    _ => "will-delivered",
                },
                ps.len() as u64,
            );
            let sets: Vec<Vec<&Sub>> = if e.what == What::Queued {
                // QoS 0 copies need not be kept; a shared copy may have gone to this member
                let mut sets = vec![];
                for base in [e.subs.iter().collect::<Vec<_>>(), e.subs.iter().filter(|s| s.qos.min(e.qos) > 0).collect()] {
                    for mask in 0..1u32 << e.maybe.len().min(4) {
                        let mut set = base.clone();
                        set.extend(e.maybe.iter().enumerate().filter(|(n, _)| mask >> n & 1 == 1).map(|x| &x.1.1));
                        sets.push(set);
                    }
                }
                sets.retain(|s| !s.is_empty());
                sets
            } else {
                vec![e.subs.iter().collect()]
            };
            if let ([(group, _)], true) = (&e.maybe[..], e.subs.is_empty()) {
                // this member had the message from its group: no other may
                let other = *self.went.entry((group.clone(), key.1.clone())).or_insert(i);
                if other != i {
                    let d = ctx(&format!("{group}: client {} had it already", self.ids[other].name));
                    self.issue("C12", "shared-message-to-several-members", d);
                    continue;
                }
            }
            let mut best: Option<(&'static str, &'static str)> = None;
            for set in sets {
                match copies_ok(&set, &ps, e.qos, v5) {
                    None => {
                        best = None;
                        break;
                    }
                    Some(x) => best = best.or(Some(x)),
                }
            }
            if let Some((prop, sig)) = best {
                let d = ctx("");
                self.issue(prop, sig, d);
                continue;
            }
            for p in &ps {
                let raps: Vec<bool> = e.subs.iter().chain(e.maybe.iter().map(|m| &m.1)).map(|s| s.rap).collect();
                let ok = if !v5 {
                    !p.retain
                } else if raps.iter().all(|x| *x) {
                    p.retain == e.retain
                } else if raps.iter().any(|x| *x) {
                    true
                } else {
                    !p.retain
                };
                if !ok {
                    let d = ctx("");
                    self.issue(if e.what == What::Will { "C13 C10" } else { "C13" }, "live-message-wrong-retain-flag", d);
                }
                if let Some(x) = self.props_differ(e, p, v5) {
                    let d = ctx(&x);
                    self.issue(if e.what == What::Will { "C33 C10" } else { "C33" }, "message-altered", d);
                }
            }
        }
    }

    fn props_differ(&self, e: &Expect, p: &Pub, v5: bool) -> Option<String> {
        let want = &e.props;
        if !v5 {
            return None;
        }
        let strip = |x: &Props| -> Vec<(u8, PV)> { x.iter().filter(|x| ![P_SUBID, P_ALIAS, P_EXPIRY].contains(&x.0)).cloned().collect() };
        let user = |x: &Props| -> Vec<(u8, PV)> { x.iter().filter(|x| x.0 == P_USER).cloned().collect() };
        let rest = |x: &Props| -> Vec<(u8, PV)> {
            let mut v: Vec<(u8, PV)> = strip(x).into_iter().filter(|x| x.0 != P_USER).collect();
            v.sort_by_key(|x| x.0);
            v
        };
        if user(want) != user(&p.props) || rest(want) != rest(&p.props) {
            return Some(format!("properties {:?}, published {:?}", strip(&p.props), strip(want)));
        }
        match (u32p(want, P_EXPIRY), u32p(&p.props, P_EXPIRY)) {
            (None, None) => None,
            (Some(a), Some(b)) => {
                let (a, b, now) = (a as i64 * 1000, b as i64 * 1000, clock::virtual_ms());
                let least = a - (now - e.at) - 1100 - e.slack;
                let most = (a - (self.began - e.at).max(0) + 1100 + e.slack).min(a);
                (b < least || b > most).then(|| format!("message expiry {} s; of the {} s it was given, {:.1} to {:.1} s had passed", b / 1000, a / 1000, (self.began - e.at).max(0) as f64 / 1000.0, (now - e.at) as f64 / 1000.0))
            }
            (a, b) => Some(format!("message expiry {b:?}, published {a:?}")),
        }
    }

    /// Connection states and counters, after every operation.
    fn invariants(&mut self) {
        for i in 0..self.ids.len() {
            if let Some(c) = self.ids[i].cli
                && !self.w.clis[c].live()
            {
                let cl = &self.w.clis[c];
                let d = format!("client {} did nothing wrong and was disconnected: connack {:?}, disconnect {:?}, outcome {:?}", self.ids[i].name, cl.connack, cl.server_disc, cl.outcome);
                self.issue("*", "valid-client-disconnected", d);
            }
        }
        let on = self.ids.iter().filter(|x| x.cli.is_some()).count() as u64;
        let all = self.ids.iter().filter(|x| x.cli.is_some() || x.sess.is_some()).count();
        let (o, a) = self.w.counts();
        if (o, a) != (on, all) {
            self.issue("C23", "client-counts-wrong", format!("broker says online {o}, known {a}; actually {on} and {all}"));
        }
    }

    // ---- operations ----
    async fn connect(&mut self, i: usize) {
        let ver = if self.prof.mixed_gen && self.chance(30) { *self.w.rng.pick(&[Ver::V31, Ver::V311, Ver::V5]) } else { self.ids[i].ver };
        let persist = self.prof.persist;
        let keep = self.chance(persist);
        let clean = if ver.v5() { self.chance(35) } else { !keep };
        let mut c = Connect::new(ver, &self.ids[i].name.clone(), clean);
        let want_sei;
        if ver.v5() && keep {
            want_sei = self.w.rng.range(if self.prof.time > 0 { 10000 } else { 100 }, 100000) as u32;
            c.props.push((P_SEI, PV::U32(want_sei)));
        }
        if ver.v5() && self.chance(20) {
            c.props.push((P_TAMAX, PV::U16(self.w.rng.range(0, 3) as u16)));
        }
        c.keep_alive = self.w.rng.range((self.prof.time > 0) as usize, 2) as u16 * 600;
        let pw = self.prof.will;
        if self.chance(pw) {
            let topic = self.topic();
            let payload = self.payload();
            let retain = self.chance(30);
            let qos = self.w.rng.below(self.max_qos as usize + 1) as u8;
            let mut props = if ver.v5() && self.chance(60) { self.msg_props() } else { vec![] };
            if self.prof.time == 0 {
                props.retain(|p| p.0 != P_EXPIRY);
            }
            self.known.insert(payload.clone(), format!("will of {}", self.ids[i].name));
            c.will = Some(Will { qos, retain, topic, payload, props });
        }
        if self.ids[i].sess.as_ref().is_some_and(|s| s.ver.v5() != ver.v5()) {
            // The broker keeps the generations apart: the attempt is turned away and changes nothing.
            self.w.log(format!("connect {} {ver:?} while its session is of the other generation", self.ids[i].name));
            let ci = self.w.open(c);
            self.w.settle().await;
            if self.w.clis[ci].connack.as_ref().is_some_and(|x| x.1 == 0) {
                self.issue("C08 C09", "other-generation-accepted", format!("client {} was accepted although its session of the other generation exists", self.ids[i].name));
            } else if !self.w.clis[ci].closed() {
                self.issue("C09", "other-generation-left-hanging", format!("client {}: the refused connection stays open", self.ids[i].name));
            }
            self.stat("other-generation-refused", 1);
            self.check(BTreeMap::new());
            return;
        }
        let will = c.will.clone();
        let resumed = self.ids[i].sess.as_ref().is_some_and(|s| s.ver == ver && s.keep) && !clean;
        // the connection being replaced ends without a normal disconnect
        let mut expect = BTreeMap::new();
        let old_will = if self.ids[i].cli.is_some() { self.ids[i].sess.as_mut().and_then(|s| s.will.take()) } else { None };
        self.w.log(format!("connect {} {ver:?} clean={clean} keep={keep} will={:?} expected session-present={resumed}", self.ids[i].name, will.as_ref().map(|w| (&w.topic, w.qos, w.retain))));
        let old_cli = self.ids[i].cli.take();
        let same_obj = self.ids[i].last;
        let ci = match same_obj {
            Some(l) if old_cli.is_none() => {
                self.w.reopen(l, c);
                l
            }
            _ => self.w.open(c),
        };
        if resumed && old_cli.is_some() {
            self.w.clis[ci].lossy = true;
        }
        self.ids[i].ver = ver;
        let queue = if resumed {
            let mut q = std::mem::take(&mut self.ids[i].sess.as_mut().unwrap().queue);
            for e in &mut q {
                match life(&e.props, e.at, e.slack) {
                    Life::Alive => {}
                    // a client of an older version need not be spared expired messages
                    Life::Gone if ver.v5() => e.gone = true,
                    _ => e.optional = true,
                }
            }
            q
        } else {
            if let Some(s) = &self.ids[i].sess {
                for f in s.subs.keys() {
                    self.removed.insert((i, f.clone()));
                }
            }
            self.ids[i].sess = Some(Sess { ver, subs: BTreeMap::new(), keep, queue: vec![], will: None, epoch: 0 });
            vec![]
        };
        {
            let s = self.ids[i].sess.as_mut().unwrap();
            s.keep = keep;
            s.will = will;
            s.epoch += 1;
        }
        self.ids[i].cli = Some(ci);
        self.ids[i].last = Some(ci);
        if let Some(ow) = old_will {
            self.stat("wills-due-on-takeover", 1);
            let (d, g) = self.route(Some(i), &ow.topic, &ow.payload, &ow.props, ow.qos, ow.retain, What::Will);
            expect = self.publish_and_judge(d, g);
        }
        expect.entry(i).or_default().extend(queue);
        self.w.settle().await;
        if let Some(o) = old_cli
            && o != ci
        {
            if !self.w.clis[o].closed() {
                self.issue("C09", "old-connection-still-open", format!("client {} connected again and its first connection stays open", self.ids[i].name));
            }
            self.stat("takeovers", 1);
        }
        match self.w.clis[ci].connack.clone() {
            Some((sp, 0, _)) => {
                if sp != resumed {
                    let sig = if sp { "session-present-claimed-wrongly" } else { "session-present-denied-wrongly" };
                    self.issue("C07 C08", sig, format!("client {}: session present {sp}, expected {resumed}", self.ids[i].name));
                }
                if resumed {
                    self.stat("sessions-resumed", 1);
                }
            }
            x => {
                let o = self.w.clis[ci].outcome.clone();
                self.issue("* C09", "valid-connect-refused", format!("client {}: connack {x:?}, outcome {o:?}", self.ids[i].name))
            }
        }
        if !self.w.issues.is_empty() {
            return;
        }
        self.check(expect);
    }

    async fn end(&mut self, i: usize) {
        let ci = self.ids[i].cli.take().unwrap();
        let v5 = self.v5(i);
        let bad_end = self.prof.bad_end;
        let bad = self.chance(bad_end);
        let how;
        if bad {
            match self.w.rng.below(if v5 { 4 } else { 3 }) {
                0 => {
                    how = "drop";
                    self.w.clis[ci].drop_conn(false);
                }
                1 => {
                    how = "reset";
                    self.w.clis[ci].drop_conn(true);
                }
                2 => {
                    // a second CONNECT, a server-only packet, an unknown packet type, or garbage
                    how = "protocol error";
                    let b: Vec<u8> = match self.w.rng.below(4) {
                        0 => connect(&Connect::new(self.ids[i].ver, "zz", true)),
                        1 => frame(0x20, &[0, 0]),
                        2 => frame(0x00, &[]),
                        _ => frame(0x36, &[0, 1, b'a', 0, 1]),
                    };
                    self.w.clis[ci].send(&b);
                    self.w.clis[ci].gone = true;
                }
                _ => {
                    how = "disconnect with will";
                    let p = vec![];
                    self.w.clis[ci].disconnect(4, &p);
                }
            }
        } else {
            how = "disconnect";
            self.w.clis[ci].disconnect(0, &vec![]);
        }
        self.w.log(format!("{how} {}", self.ids[i].name));
        let (keep, will) = {
            let s = self.ids[i].sess.as_mut().unwrap();
            (s.keep, s.will.take())
        };
        let mut expect = BTreeMap::new();
        if let Some(wl) = will {
            if bad {
                self.stat("wills-due", 1);
                // routed while the session may still exist or be gone: both are legal for its own subscriptions
                let (mut d, g) = self.route(Some(i), &wl.topic, &wl.payload, &wl.props, wl.qos, wl.retain, What::Will);
                if !keep {
                    d.retain(|x| x.0 != i);
                }
                expect = self.publish_and_judge(d, g);
                if keep
                    && let Some(s) = &mut self.ids[i].sess
                    && let Some(e) = s.queue.last_mut()
                    && e.payload == wl.payload
                {
                    e.optional = e.subs.iter().all(|s| s.qos.min(e.qos) == 0);
                }
            } else {
                self.stat("wills-cancelled", 1);
            }
        }
        if !keep {
            if let Some(s) = self.ids[i].sess.take() {
                for f in s.subs.keys() {
                    self.removed.insert((i, f.clone()));
                }
            }
        }
        self.w.settle().await;
        if !self.w.clis[ci].closed() || how == "protocol error" {
            let drain = std::time::Duration::from_millis(1500);
            self.w.pass(drain, drain).await;
            if !self.w.clis[ci].closed() {
                self.issue("C24 C10", "connection-not-closed", format!("{how} of {} leaves the connection open", self.ids[i].name));
            }
        }
        self.check(expect);
    }

    async fn subscribe(&mut self, i: usize) {
        let v5 = self.v5(i);
        let n = if self.chance(25) { self.w.rng.range(2, 3) } else { 1 };
        let sid = self.prof.subid;
        let id = if v5 && self.chance(sid) { Some(*self.w.rng.pick(&[1u32, 2, 127, 128, 300, 268_435_455])) } else { None };
        let mut t: Vec<(String, u8)> = vec![];
        let mut subs: Vec<Sub> = vec![];
        for _ in 0..n {
            let existing: Vec<String> = self.ids[i].sess.as_ref().unwrap().subs.keys().cloned().collect();
            let mut f = if !existing.is_empty() && self.chance(25) { self.w.rng.pick(&existing).clone() } else { self.filter() };
            let sh = self.prof.share;
            if v5 && self.chance(sh) && share(&f).is_none() {
                f = format!("$share/{}/{}", self.w.rng.pick(&["g", "h"]), f);
            }
            if t.iter().any(|x| x.0 == f) {
                continue;
            }
            let q = self.w.rng.below(3) as u8;
            let pnl = self.prof.nolocal;
            let nl = v5 && share(&f).is_none() && self.chance(pnl);
            let rap = v5 && self.w.rng.chance(1, 3);
            let rh = if v5 { *self.w.rng.pick(&[0u8, 0, 0, 1, 1, 2]) } else { 0 };
            t.push((f.clone(), q | (nl as u8) << 2 | (rap as u8) << 3 | rh << 4));
            subs.push(Sub { filter: f, qos: q.min(self.max_qos), nl, rap, rh, id });
        }
        self.w.log(format!("subscribe {} {t:?} id={id:?}", self.ids[i].name));
        let ci = self.ids[i].cli.unwrap();
        let pr: Props = id.map(|x| (P_SUBID, PV::Var(x))).into_iter().collect();
        let pid = self.w.clis[ci].subscribe(&pr, &t);
        let mut expect: BTreeMap<usize, Vec<Expect>> = BTreeMap::new();
        for s in &subs {
            self.removed.remove(&(i, s.filter.clone()));
            let new = self.ids[i].sess.as_mut().unwrap().subs.insert(s.filter.clone(), s.clone()).is_none();
            if share(&s.filter).is_some() || s.rh == 2 || (s.rh == 1 && !new) {
                continue;
            }
            for (topic, st) in &self.stored {
                if matches(&s.filter, topic) {
                    let l = life(&st.props, st.at, st.slack);
                    expect.entry(i).or_default().push(Expect {
                        what: What::Stored,
                        topic: topic.clone(),
                        payload: st.payload.clone(),
                        props: st.props.clone(),
                        qos: st.qos,
                        retain: true,
                        subs: vec![s.clone()],
                        maybe: vec![],
                        optional: s.nl && st.owner == self.ids[i].name || l == Life::Unsure,
                        at: st.at,
                        slack: st.slack,
                        gone: l == Life::Gone,
                    });
                }
            }
        }
        self.w.settle().await;
        let codes: Vec<u8> = subs.iter().map(|s| s.qos).collect();
        let ack = self.w.clis[ci].inbox.iter().filter(|p| matches!(p, S::Suback { .. })).cloned().collect::<Vec<_>>();
        match ack.as_slice() {
            [S::Suback { pid: p, codes: cs, .. }] if *p == pid => {
                if *cs != codes {
                    self.issue("C06", "granted-qos-misreported", format!("asked {t:?} (maximum {}), suback {cs:?}", self.max_qos));
                }
            }
            x => self.issue("C06 C04", "suback-missing-or-misnamed", format!("subscribe {pid}: {x:?}")),
        }
        self.check(expect);
    }

    async fn unsubscribe(&mut self, i: usize) {
        let existing: Vec<String> = self.ids[i].sess.as_ref().unwrap().subs.keys().cloned().collect();
        let n = self.w.rng.range(1, 2);
        let mut t: Vec<String> = vec![];
        for _ in 0..n {
            let f = if !existing.is_empty() && self.chance(80) { self.w.rng.pick(&existing).clone() } else { self.filter() };
            if !t.contains(&f) {
                t.push(f);
            }
        }
        self.w.log(format!("unsubscribe {} {t:?}", self.ids[i].name));
        let ci = self.ids[i].cli.unwrap();
        let pid = self.w.clis[ci].unsubscribe(&t);
        let mut codes = vec![];
        for f in &t {
            let had = self.ids[i].sess.as_mut().unwrap().subs.remove(f).is_some();
            codes.push(if had { 0u8 } else { 0x11 });
            self.removed.insert((i, f.clone()));
        }
        self.w.settle().await;
        let ack = self.w.clis[ci].inbox.iter().filter(|p| matches!(p, S::Unsuback { .. })).cloned().collect::<Vec<_>>();
        match ack.as_slice() {
            [S::Unsuback { pid: p, codes: cs, .. }] if *p == pid => {
                if self.v5(i) && *cs != codes {
                    self.issue("C01 C06", "unsuback-codes-wrong", format!("unsubscribe {t:?}: {cs:?}, expected {codes:?}"));
                }
            }
            x => self.issue("C04 C01", "unsuback-missing-or-misnamed", format!("unsubscribe {pid}: {x:?}")),
        }
        self.check(BTreeMap::new());
    }

    async fn publish(&mut self, i: usize) {
        let v5 = self.v5(i);
        let topic = self.topic();
        let pr = self.prof.retain;
        let retain = self.chance(pr);
        let payload = if retain && self.chance(20) { vec![] } else { self.payload() };
        let qos = self.w.rng.below(self.max_qos as usize + 1) as u8;
        let pp = self.prof.props;
        let props = if v5 && self.chance(pp) { self.msg_props() } else { vec![] };
        let ci = self.ids[i].cli.unwrap();
        let pid = if qos > 0 { self.w.clis[ci].pid() } else { 0 };
        let pd = self.prof.dollar;
        if self.hook && self.chance(pd) {
            // an extra message under $x, which only a hook can publish
            let t2 = format!("$x/{}", self.topic());
            let pay2 = self.payload();
            self.known.insert(pay2.clone(), format!("hook publish {t2}"));
            self.w.log(format!("publish {} with a hook publishing {t2}", self.ids[i].name));
            self.w.hook.st().actions.push_back(Ok(vec![HookAction::Publish(PublishAction {
                retain: false,
                qos: mqtt_proto::QoS::try_from(qos).unwrap(),
                topic_name: mqtt_proto::TopicName::try_from(t2.clone()).unwrap(),
                payload: pay2.clone().into(),
                payload_is_utf8: None,
                message_expiry_interval: None,
                content_type: None,
            })]));
            let (d, g) = self.route(Some(i), &t2, &pay2, &vec![], qos, false, What::Live);
            let mut e1 = self.publish_and_judge(d, g);
            let (d, g) = self.route(Some(i), &topic, &payload, &props, qos, retain, What::Live);
            for (k, v) in self.publish_and_judge(d, g) {
                e1.entry(k).or_default().extend(v);
            }
            self.stat("hook-publishes", 1);
            self.send_publish(i, ci, qos, retain, topic, pid, props, payload, e1).await;
            return;
        }
        let (d, g) = self.route(Some(i), &topic, &payload, &props, qos, retain, What::Live);
        let e = self.publish_and_judge(d, g);
        self.send_publish(i, ci, qos, retain, topic, pid, props, payload, e).await;
    }

    #[allow(clippy::too_many_arguments)]
    async fn send_publish(&mut self, i: usize, ci: usize, qos: u8, retain: bool, topic: String, pid: u16, props: Props, payload: Vec<u8>, e: BTreeMap<usize, Vec<Expect>>) {
        self.known.insert(payload.clone(), format!("published by {} on {topic}", self.ids[i].name));
        self.w.log(format!("publish {} {topic} qos={qos} retain={retain} {:?}", self.ids[i].name, String::from_utf8_lossy(&payload[..payload.len().min(12)])));
        self.w.clis[ci].publish(&Pub { dup: false, qos, retain, topic, pid, props, payload });
        self.w.settle().await;
        if qos > 0 {
            let acks: Vec<S> = self.w.clis[ci].inbox.iter().filter(|p| matches!(p, S::Puback { .. } | S::Pubrec { .. })).cloned().collect();
            let ok = match acks.as_slice() {
                [S::Puback { pid: p, code, .. }] => qos == 1 && *p == pid && *code < 0x80,
                [S::Pubrec { pid: p, code, .. }] => qos == 2 && *p == pid && *code < 0x80,
                _ => false,
            };
            if !ok {
                self.issue("C04 C03", "publish-acknowledged-wrongly", format!("QoS {qos} publish {pid} answered by {acks:?}"));
            }
            if qos == 2 {
                self.w.clis[ci].ack(6, pid);
                let before: Vec<Pub> = self.w.clis[ci].take_app();
                self.w.clis[ci].take();
                self.w.settle().await;
                let comp: Vec<S> = self.w.clis[ci].inbox.iter().filter(|p| matches!(p, S::Pubcomp { .. })).cloned().collect();
                if !matches!(comp.as_slice(), [S::Pubcomp { pid: p, code: 0, .. }] if *p == pid) {
                    self.issue("C04", "pubrel-answered-wrongly", format!("PUBREL {pid} answered by {comp:?}"));
                }
                let mut b = before;
                b.append(&mut self.w.clis[ci].app);
                self.w.clis[ci].app = b;
            }
        }
        self.check(e);
    }

    /// Time passes, and nothing may come of it.
    async fn age(&mut self) {
        let d = *self.w.rng.pick(&[1i64, 2, 3, 4, 7, 12, 25, 40, 65]);
        self.aged += d;
        let d = std::time::Duration::from_millis((d * 1000) as u64 + self.w.rng.below(1000) as u64);
        self.w.log(format!("{d:?} pass"));
        let step = if self.w.rng.chance(1, 2) { d } else { std::time::Duration::from_millis(1500) };
        self.w.pass(d, step).await;
        self.stat("seconds-passed", d.as_secs());
        self.check(BTreeMap::new());
    }

    pub async fn run(&mut self) {
        let n = self.ids.len();
        for i in 0..n {
            self.connect(i).await;
            if !self.w.issues.is_empty() {
                return;
            }
        }
        let ops = self.w.rng.range(self.prof.ops.0, self.prof.ops.1);
        for _ in 0..ops {
            self.began = clock::virtual_ms();
            let pt = self.prof.time;
            if self.aged < 400 && self.chance(pt) {
                self.age().await;
                if self.w.issues.is_empty() {
                    self.invariants();
                }
                if !self.w.issues.is_empty() {
                    return;
                }
                continue;
            }
            let i = self.w.rng.below(n);
            let (tk, rc) = (self.prof.takeover, self.prof.reconnect);
            if self.ids[i].cli.is_none() {
                if self.chance(50) {
                    self.connect(i).await;
                } else {
                    continue;
                }
            } else if self.chance(tk) {
                self.connect(i).await;
            } else if self.chance(rc) {
                self.end(i).await;
            } else {
                match self.w.rng.below(10) {
                    0..=3 => self.subscribe(i).await,
                    4 => self.unsubscribe(i).await,
                    _ => self.publish(i).await,
                }
            }
            self.stat("operations", 1);
            if self.w.issues.is_empty() {
                self.invariants();
            }
            if !self.w.issues.is_empty() {
                return;
            }
        }
    }
}

fn subids(p: &Pub) -> Vec<u32> {
    let mut v: Vec<u32> = p.props.iter().filter(|x| x.0 == P_SUBID).map(|x| if let PV::Var(v) = x.1 { v } else { 0 }).collect();
    v.sort();
    v
}

/// Do these copies of one message fit these matching subscriptions?
fn copies_ok(subs: &[&Sub], ps: &[&Pub], qos: u8, v5: bool) -> Option<(&'static str, &'static str)> {
    if subs.is_empty() {
        return None;
    }
    if ps.len() > subs.len() {
        return Some(("C01 C04", "message-delivered-twice"));
    }
    let want_max = subs.iter().map(|s| s.qos.min(qos)).max().unwrap();
    let all_ids: BTreeSet<u32> = if v5 { subs.iter().filter_map(|s| s.id).collect() } else { BTreeSet::new() };
    let got_ids: BTreeSet<u32> = ps.iter().flat_map(|p| subids(p)).collect();
    if ps.len() == subs.len() {
        let mut a: Vec<(u8, Vec<u32>)> = subs.iter().map(|s| (s.qos.min(qos), if v5 { s.id.into_iter().collect() } else { vec![] })).collect();
        let mut b: Vec<(u8, Vec<u32>)> = ps.iter().map(|p| (p.qos, subids(p))).collect();
        a.sort();
        b.sort();
        if a == b {
            return None;
        }
        let (qa, qb): (Vec<u8>, Vec<u8>) = (a.iter().map(|x| x.0).collect(), b.iter().map(|x| x.0).collect());
        return Some(if qa != qb { ("C06", "delivered-at-the-wrong-qos") } else { ("C13", "wrong-subscription-identifiers") });
    }
    if ps.iter().map(|p| p.qos).max().unwrap() != want_max {
        return Some(("C06", "delivered-at-the-wrong-qos"));
    }
    if got_ids != all_ids || ps.iter().any(|p| { let v = subids(p); let s: BTreeSet<u32> = v.iter().cloned().collect(); s.len() != v.len() }) {
        return Some(("C13", "wrong-subscription-identifiers"));
    }
    None
}

pub fn drive(run: &mut Run, prof: Prof, cases: (u64, u64), kinds: &[Kind]) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    let _ = kinds;
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats) = case(|| async {
            let mut m = Model::new(config(), prof.clone(), Rng::fork(run.seed, n));
            m.run().await;
            (m.w.issues.clone(), m.w.trace.clone(), m.stats.clone())
        });
        report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.case(stats.get("live-delivered").is_some_and(|x| *x > 0), &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}

/// Turns a case's observations into verdicts on the property being checked.
pub fn report(run: &mut Run, n: u64, prop: &str, issues: Vec<Issue>, trace: &[String]) {
    let keep = std::env::var("MON_TAIL").ok().and_then(|x| x.parse().ok()).unwrap_or(60usize);
    let tail = |t: &[String]| t[t.len().saturating_sub(keep)..].join("\n  ");
    let panics = monlib::take_panics();
    if let Some(p) = panics.first() {
        run.violation("panic", format!("case {n}: {p}\n  {}", tail(trace)));
        return;
    }
    let mut seen: Vec<String> = vec![];
    for i in issues {
        if std::env::var_os("MON_ALL").is_some() || i.prop.contains(prop) || i.prop.contains('*') {
            if !seen.contains(&i.sig) {
                seen.push(i.sig.clone());
                run.violation(&i.sig, format!("case {n}: {}\nhistory:\n  {}", i.detail, tail(trace)));
            }
        } else {
            run.count("abandoned-for-another-property", 1);
        }
    }
}
