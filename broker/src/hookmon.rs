//! Hooks (C25): every request is reported once before and once after, with the
//! packet it concerns; refusals, edits and actions take effect as returned; a
//! hook that takes its time delays its own client only.
use crate::codec::*;
use crate::hooks::Call;
use crate::model::report;
use crate::net::Policy;
use crate::world::*;
use akasa_core::mqtt_proto::{QoS, TopicFilter, TopicName};
use akasa_core::{
    HookAction, HookConnectCode, HookError, HookPublishCode, HookSubscribeCode, HookUnsubscribeCode, PublishAction,
    SubscribeAction, UnsubscribeAction,
};
use monlib::{Rng, Run};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Dec {
    Ok,
    Refuse(usize),
    Fail,
}

#[derive(Clone, Debug)]
enum Act {
    Pub(Msg),
    Sub(Vec<(String, u8)>),
    Unsub(Vec<String>),
}

#[derive(Clone, Debug)]
enum After {
    Acts(Vec<Act>),
    Fail,
}

#[derive(Clone, Debug)]
enum Req {
    Pub { p: Pub, edit: Option<(String, Vec<u8>)>, before: Dec, after: After },
    Sub { t: Vec<(String, u8)>, edit: Option<Vec<(String, u8)>>, before: Dec, after: After },
    Unsub { t: Vec<String>, edit: Option<Vec<String>>, before: Dec, after: After },
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Msg {
    topic: String,
    payload: Vec<u8>,
    qos: u8,
    retain: bool,
    pfi: Option<bool>,
    expiry: Option<u32>,
    ctype: Option<String>,
}

struct Slot {
    id: String,
    ver: Ver,
    cli: Option<usize>,
    /// the connection that has the client's side of the session
    last: Option<usize>,
    keep: bool,
    session: bool,
    subs: BTreeMap<String, u8>,
    queue: Vec<Msg>,
    will: Option<Will>,
    /// deliveries to come
    due: Vec<Msg>,
    got: Vec<Msg>,
    /// deliveries may be missing: the connection broke under them
    broken: bool,
    /// on their way when their subscription was taken away
    maybe: Vec<Msg>,
    /// the same, the connection having ended before they were heard
    perhaps: Vec<Msg>,
    /// everything ever received
    seen: std::collections::BTreeSet<(Vec<u8>, String)>,
    /// received with the duplicate flag, after the same had been received before
    again: Vec<Msg>,
}
impl Slot {
    fn unsubscribe(&mut self, f: &str) -> bool {
        let (gone, due) = std::mem::take(&mut self.due).into_iter().partition(|m| m.topic == f);
        self.due = due;
        self.maybe.extend::<Vec<Msg>>(gone);
        self.subs.remove(f).is_some()
    }
}

#[derive(Clone, Copy, Default, Debug)]
struct En {
    bc: bool,
    ac: bool,
    ad: bool,
    publish: bool,
    subscribe: bool,
    unsubscribe: bool,
}

struct Mon {
    w: World,
    en: En,
    slots: Vec<Slot>,
    retained: BTreeMap<String, Msg>,
    mark: usize,
    stats: BTreeMap<&'static str, u64>,
    seq: u32,
    pids: u16,
}

const PUB_CODES: [(HookPublishCode, u8); 4] = [
    (HookPublishCode::UnspecifiedError, 0x80),
    (HookPublishCode::NotAuthorized, 0x87),
    (HookPublishCode::TopicNameInvalid, 0x90),
    (HookPublishCode::QuotaExceeded, 0x97),
];
const SUB_CODES: [(HookSubscribeCode, u8); 4] = [
    (HookSubscribeCode::UnspecifiedError, 0x80),
    (HookSubscribeCode::NotAuthorized, 0x87),
    (HookSubscribeCode::TopicFilterInvalid, 0x8f),
    (HookSubscribeCode::QuotaExceeded, 0x97),
];
const UNSUB_CODES: [(HookUnsubscribeCode, u8); 3] =
    [(HookUnsubscribeCode::UnspecifiedError, 0x80), (HookUnsubscribeCode::NotAuthorized, 0x87), (HookUnsubscribeCode::TopicFilterInvalid, 0x8f)];
// (code, MQTT 5 reason, MQTT 3 return codes that say so)
const CONN_CODES: [(HookConnectCode, u8, &[u8]); 7] = [
    (HookConnectCode::UnspecifiedError, 0x80, &[1, 2, 3, 4, 5]),
    (HookConnectCode::ClientIdentifierNotValid, 0x85, &[2]),
    (HookConnectCode::BadUserNameOrPassword, 0x86, &[4]),
    (HookConnectCode::NotAuthorized, 0x87, &[5]),
    (HookConnectCode::ServerUnavailable, 0x88, &[3]),
    (HookConnectCode::QuotaExceeded, 0x97, &[1, 2, 3, 4, 5]),
    (HookConnectCode::ConnectionRateExceeded, 0x9f, &[1, 2, 3, 4, 5]),
];

fn q(n: u8) -> QoS {
    QoS::try_from(n).unwrap()
}
fn call(what: &'static str, id: &str, detail: String, flag: bool, raw: &[u8]) -> Call {
    let body = if raw.is_empty() { vec![] } else { raw[1 + raw[1..].iter().position(|b| b & 0x80 == 0).unwrap() + 1..].to_vec() };
    Call { what, id: id.into(), detail, flag, body, len: raw.len() }
}
fn filters(t: &[(String, u8)]) -> String {
    t.iter().map(|(f, q)| format!("{f}:{q}")).collect::<Vec<_>>().join(",")
}
fn show(c: &Call) -> String {
    format!("{} {} [{}] flag {} body {} len {}", c.id, c.what, c.detail, c.flag, c.body.len(), c.len)
}
fn to_action(a: &Act) -> HookAction {
    let tf = |f: &String| TopicFilter::try_from(f.clone()).unwrap();
    match a {
        Act::Pub(m) => HookAction::Publish(PublishAction {
            retain: m.retain,
            qos: q(m.qos),
            topic_name: TopicName::try_from(m.topic.clone()).unwrap(),
            payload: m.payload.clone().into(),
            payload_is_utf8: m.pfi,
            message_expiry_interval: m.expiry,
            content_type: m.ctype.as_deref().map(Into::into),
        }),
        Act::Sub(t) => HookAction::Subscribe(SubscribeAction(t.iter().map(|(f, n)| (tf(f), q(*n))).collect())),
        Act::Unsub(t) => HookAction::Unsubscribe(UnsubscribeAction(t.iter().map(tf).collect())),
    }
}

/// What one batch of requests must lead to.
#[derive(Default, Debug)]
struct Exp {
    calls: Vec<Call>,
    acks: Vec<S>,
    /// accepted QoS 2 publishes to be released
    rel: Vec<u16>,
    closed: bool,
    /// the broker said why with a DISCONNECT
    told: bool,
}

impl Mon {
    fn new(mut rng: Rng) -> Mon {
        let mut k = config();
        let mut on = || rng.chance(5, 6);
        let en = En { bc: on(), ac: on(), ad: on(), publish: on(), subscribe: on(), unsubscribe: on() };
        // keep-alive is another matter (C17)
        k.min_keep_alive = 0;
        k.hook.enable_before_connect = en.bc;
        k.hook.enable_after_connect = en.ac;
        k.hook.enable_after_disconnect = en.ad;
        k.hook.enable_publish = en.publish;
        k.hook.enable_subscribe = en.subscribe;
        k.hook.enable_unsubscribe = en.unsubscribe;
        let mut w = World::new(k, rng);
        if w.rng.chance(1, 3) {
            w.policy = Policy { read_chunk: 9, write_chunk: 5, pending: 3, ..Policy::default() };
        }
        if w.rng.chance(1, 2) {
            let n = w.rng.range(1, 5);
            w.hook.st().delay = n;
        }
        w.log(format!("{en:?}"));
        Mon { w, en, slots: vec![], retained: BTreeMap::new(), mark: 0, stats: BTreeMap::new(), seq: 0, pids: 0 }
    }
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    fn issue(&mut self, sig: &str, d: String) {
        self.w.issue("C25", sig, d);
    }
    fn topic(&mut self) -> String {
        format!("t{}", self.w.rng.below(4))
    }
    fn payload(&mut self) -> Vec<u8> {
        self.seq += 1;
        format!("m{}", self.seq).into_bytes()
    }
    fn dec(&mut self, codes: usize) -> Dec {
        match self.w.rng.below(12) {
            0 | 1 => Dec::Refuse(self.w.rng.below(codes)),
            2 => Dec::Fail,
            _ => Dec::Ok,
        }
    }
    fn some_filters(&mut self) -> Vec<(String, u8)> {
        let mut all: Vec<_> = (0..4).map(|i| format!("t{i}")).collect();
        self.w.rng.shuffle(&mut all);
        let n = self.w.rng.range(1, 3);
        all.truncate(n);
        all.into_iter().map(|f| (f, self.w.rng.below(3) as u8)).collect()
    }
    fn msg(&mut self) -> Msg {
        let mut m = Msg {
            topic: self.topic(),
            payload: self.payload(),
            qos: self.w.rng.below(3) as u8,
            retain: self.w.rng.chance(1, 4),
            pfi: None,
            expiry: None,
            ctype: None,
        };
        if m.retain && self.w.rng.chance(1, 4) {
            m.payload.clear();
        }
        if self.w.rng.chance(1, 3) {
            m.pfi = Some(self.w.rng.bool());
        }
        if self.w.rng.chance(1, 3) {
            m.expiry = Some(5000 + self.w.rng.below(100) as u32).filter(|_| !m.payload.is_empty());
        }
        if self.w.rng.chance(1, 3) {
            m.ctype = Some("text/x".into());
        }
        m
    }
    fn after(&mut self) -> After {
        match self.w.rng.below(10) {
            0 => After::Fail,
            1..=3 => {
                let n = self.w.rng.range(1, 3);
                After::Acts(
                    (0..n)
                        .map(|_| match self.w.rng.below(4) {
                            0 | 1 => Act::Pub(self.msg()),
                            2 => Act::Sub(self.some_filters()),
                            _ => Act::Unsub(self.some_filters().into_iter().map(|x| x.0).collect()),
                        })
                        .collect(),
                )
            }
            _ => After::Acts(vec![]),
        }
    }

    // ------------------------------------------------------------- model

    fn route(&mut self, m: &Msg) {
        if m.retain {
            if m.payload.is_empty() {
                self.retained.remove(&m.topic);
            } else {
                self.retained.insert(m.topic.clone(), m.clone());
            }
        }
        for s in &mut self.slots {
            let hit = s.subs.iter().find(|(f, _)| matches(f, &m.topic)).map(|(_, q)| *q);
            let Some(sq) = hit else { continue };
            let mut d = m.clone();
            d.qos = d.qos.min(sq);
            d.retain = false;
            if !s.ver.v5() {
                (d.pfi, d.expiry, d.ctype) = (None, None, None);
            }
            if s.cli.is_some() {
                s.due.push(d);
            } else if s.session && d.qos > 0 {
                s.queue.push(d);
            }
        }
    }
    fn give_retained(&mut self, i: usize, f: &str, sq: u8) {
        let Some(m) = self.retained.get(f) else { return };
        let mut d = m.clone();
        d.qos = d.qos.min(sq);
        d.retain = !self.slots[i].ver.v5();
        if !self.slots[i].ver.v5() {
            (d.pfi, d.expiry, d.ctype) = (None, None, None);
        }
        self.slots[i].due.push(d);
    }
    fn act(&mut self, i: usize, a: &After) -> bool {
        let After::Acts(v) = a else { return false };
        for a in v {
            self.stat("actions-carried-out", 1);
            match a {
                Act::Pub(m) => self.route(m),
                Act::Sub(t) => self.slots[i].subs.extend(t.iter().cloned()),
                Act::Unsub(t) => {
                    for f in t {
                        self.slots[i].unsubscribe(f);
                    }
                }
            }
        }
        true
    }
    fn drop_session(s: &mut Slot) {
        s.session = false;
        s.subs.clear();
        s.queue.clear();
    }
    /// The connection of slot i ended.
    fn ends(&mut self, i: usize, will: bool, calls: &mut Vec<Call>) {
        self.slots[i].cli = None;
        if !self.slots[i].keep {
            Mon::drop_session(&mut self.slots[i]);
        }
        let id = self.slots[i].id.clone();
        if self.en.ad {
            calls.push(call("after_disconnect", &id, String::new(), false, &[]));
        }
        if let Some(w) = self.slots[i].will.take()
            && will
        {
            self.route(&Msg { topic: w.topic, payload: w.payload, qos: w.qos, retain: w.retain, pfi: None, expiry: None, ctype: None });
        }
    }

    // ------------------------------------------------------------- requests

    fn request(&mut self, i: usize, single: bool) -> Req {
        let v5 = self.slots[i].ver.v5();
        let after = self.after();
        match self.w.rng.below(5) {
            0..=2 => {
                let mut p = Pub { qos: self.w.rng.below(3) as u8, retain: self.w.rng.chance(1, 4), topic: self.topic(), payload: self.payload(), ..Pub::default() };
                if single && self.w.rng.chance(1, 12) {
                    p.topic = "$bad/t".into();
                }
                let edit = if self.w.rng.chance(1, 4) { Some((self.topic(), self.payload())) } else { None };
                Req::Pub { p, edit, before: self.dec(PUB_CODES.len()), after }
            }
            3 => {
                let mut t = self.some_filters();
                if !v5 && single && self.w.rng.chance(1, 10) {
                    t.push(("$share/g/t0".into(), 1));
                }
                let edit = if self.w.rng.chance(1, 4) { Some(self.some_filters()) } else { None };
                Req::Sub { t, edit, before: self.dec(SUB_CODES.len()), after }
            }
            _ => {
                let t: Vec<String> = self.some_filters().into_iter().map(|x| x.0).collect();
                let edit = if self.w.rng.chance(1, 4) { Some(self.some_filters().into_iter().map(|x| x.0).collect()) } else { None };
                Req::Unsub { t, edit, before: self.dec(UNSUB_CODES.len()), after }
            }
        }
    }

    /// Queues the answers the hook will give to this request.
    fn prime(&self, r: &Req, v5: bool) {
        let mut h = self.w.hook.st();
        let (en, edited, before, after) = match r {
            Req::Pub { edit, before, after, .. } => (self.en.publish, edit.is_some(), before, after),
            Req::Sub { edit, before, after, .. } => (self.en.subscribe, edit.is_some(), before, after),
            Req::Unsub { edit, before, after, .. } => (self.en.unsubscribe, edit.is_some(), before, after),
        };
        if !en {
            return;
        }
        match r {
            Req::Pub { edit, p, .. } => {
                // an untouched packet is an edit to what it already is not: queue nothing
                if let Some(e) = edit {
                    h.edit_publish.push_back(Some(e.clone()));
                } else {
                    h.edit_publish.push_back(None);
                }
                h.publish.push_back(match before {
                    Dec::Ok => Ok(HookPublishCode::Success),
                    Dec::Refuse(n) => Ok(PUB_CODES[*n].0),
                    Dec::Fail => Err(HookError::Internal),
                });
                let topic = edit.as_ref().map(|e| &e.0).unwrap_or(&p.topic);
                if *before != Dec::Ok || topic.starts_with('$') {
                    return;
                }
            }
            Req::Sub { edit, t, .. } => {
                h.edit_subscribe.push_back(edit.clone());
                h.subscribe.push_back(match before {
                    Dec::Ok => Ok(HookSubscribeCode::Success),
                    Dec::Refuse(n) => Ok(SUB_CODES[*n].0),
                    Dec::Fail => Err(HookError::Internal),
                });
                let _ = (t, v5);
                if *before != Dec::Ok {
                    return;
                }
            }
            Req::Unsub { edit, .. } => {
                h.edit_unsubscribe.push_back(edit.clone());
                h.unsubscribe.push_back(match before {
                    Dec::Ok => Ok(HookUnsubscribeCode::Success),
                    Dec::Refuse(n) => Ok(UNSUB_CODES[*n].0),
                    Dec::Fail => Err(HookError::Internal),
                });
                if *before != Dec::Ok {
                    return;
                }
            }
        }
        let _ = edited;
        h.actions.push_back(match after {
            After::Fail => Err(HookError::Internal),
            After::Acts(v) => Ok(v.iter().map(to_action).collect()),
        });
    }

    /// Steps the model through one request of slot i. False: the connection ended.
    fn expect(&mut self, i: usize, r: &Req, pid: u16, raw: &[u8], e: &mut Exp) -> bool {
        let id = self.slots[i].id.clone();
        let v5 = self.slots[i].ver.v5();
        let none: Props = vec![];
        let (en, before, after) = match r {
            Req::Pub { before, after, .. } => (self.en.publish, before, after),
            Req::Sub { before, after, .. } => (self.en.subscribe, before, after),
            Req::Unsub { before, after, .. } => (self.en.unsubscribe, before, after),
        };
        let (what, detail) = match r {
            Req::Pub { p, .. } => ("before_publish", format!("{}={}", p.topic, String::from_utf8_lossy(&p.payload))),
            Req::Sub { t, .. } => ("before_subscribe", filters(t)),
            Req::Unsub { t, .. } => ("before_unsubscribe", t.join(",")),
        };
        if en {
            e.calls.push(call(what, &id, detail, false, raw));
            match before {
                Dec::Ok => {}
                Dec::Fail => {
                    self.stat("hook-failures", 1);
                    self.ends(i, true, &mut e.calls);
                    e.closed = true;
                    return false;
                }
                Dec::Refuse(_) if !v5 => {
                    self.stat("refusals", 1);
                    self.ends(i, true, &mut e.calls);
                    e.closed = true;
                    return false;
                }
                Dec::Refuse(n) => {
                    self.stat("refusals", 1);
                    match r {
                        Req::Pub { p, .. } => match p.qos {
                            0 => {}
                            1 => e.acks.push(S::Puback { pid, code: PUB_CODES[*n].1, props: none }),
                            _ => e.acks.push(S::Pubrec { pid, code: PUB_CODES[*n].1, props: none }),
                        },
                        Req::Sub { t, edit, .. } => {
                            let n_t = edit.as_ref().unwrap_or(t).len();
                            e.acks.push(S::Suback { pid, codes: vec![SUB_CODES[*n].1; n_t], props: none })
                        }
                        Req::Unsub { t, edit, .. } => {
                            let n_t = edit.as_ref().unwrap_or(t).len();
                            e.acks.push(S::Unsuback { pid, codes: vec![UNSUB_CODES[*n].1; n_t], props: none })
                        }
                    }
                    return true;
                }
            }
        }
        let edited;
        let (what, detail) = match r {
            Req::Pub { p, edit, .. } => {
                edited = en && edit.is_some();
                let (topic, payload) = if edited { edit.clone().unwrap() } else { (p.topic.clone(), p.payload.clone()) };
                if topic.starts_with('$') {
                    e.closed = true;
                    if v5 {
                        e.told = true;
                        e.acks.push(S::Disconnect { code: 0x90, props: none });
                    }
                    self.ends(i, true, &mut e.calls);
                    return false;
                }
                let detail = format!("{topic}={}", String::from_utf8_lossy(&payload));
                self.route(&Msg { topic, payload, qos: p.qos, retain: p.retain, pfi: None, expiry: None, ctype: None });
                match p.qos {
                    0 => {}
                    1 => e.acks.push(S::Puback { pid, code: 0, props: none }),
                    _ => {
                        e.acks.push(S::Pubrec { pid, code: 0, props: none });
                        e.rel.push(pid);
                    }
                }
                ("after_publish", detail)
            }
            Req::Sub { t, edit, .. } => {
                edited = en && edit.is_some();
                let t = if edited { edit.clone().unwrap() } else { t.clone() };
                for (f, n) in &t {
                    if f.starts_with("$share") {
                        if en {
                            e.calls.push(call("after_subscribe", &id, format!("{} -", filters(&t)), edited, raw));
                        }
                        // what came before it in the packet may or may not count
                        self.slots[i].broken = true;
                        self.ends(i, true, &mut e.calls);
                        e.closed = true;
                        return false;
                    }
                    self.slots[i].subs.insert(f.clone(), *n);
                    self.give_retained(i, f, *n);
                }
                let codes: Vec<u8> = t.iter().map(|x| x.1).collect();
                let c = codes.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("/");
                e.acks.push(S::Suback { pid, codes, props: none });
                ("after_subscribe", format!("{} {c}", filters(&t)))
            }
            Req::Unsub { t, edit, .. } => {
                edited = en && edit.is_some();
                let t = if edited { edit.clone().unwrap() } else { t.clone() };
                let codes: Vec<u8> = t.iter().map(|f| if self.slots[i].unsubscribe(f) { 0 } else { 17 }).collect();
                e.acks.push(S::Unsuback { pid, codes: if v5 { codes } else { vec![] }, props: none });
                ("after_unsubscribe", t.join(","))
            }
        };
        if edited {
            self.stat("edits-taken-over", 1);
        }
        if en {
            e.calls.push(call(what, &id, detail, edited, raw));
            if !self.act(i, after) {
                self.stat("hook-failures", 1);
                self.ends(i, true, &mut e.calls);
                e.closed = true;
                return false;
            }
        }
        true
    }

    // ------------------------------------------------------------- judging

    fn drain(&mut self) -> HashMap<usize, Vec<S>> {
        let mut acks = HashMap::new();
        for k in 0..self.w.clis.len() {
            let c = &mut self.w.clis[k];
            let pubs = c.take_app();
            let other: Vec<S> = c.take().into_iter().filter(|p| !matches!(p, S::Publish(_) | S::Pubrel { .. })).collect();
            let id = c.id.clone();
            if let Some(s) = self.slots.iter_mut().find(|s| s.id == id) {
                for p in pubs {
                    let fresh = s.seen.insert((p.payload.clone(), p.topic.clone()));
                    let pr = &p.props;
                    let again = p.dup && p.qos == 1 && !fresh;
                    let to = if again { &mut s.again } else { &mut s.got };
                    to.push(Msg {
                        pfi: u32p(pr, P_PFI).map(|x| x == 1),
                        expiry: u32p(pr, P_EXPIRY),
                        ctype: strp(pr, P_CTYPE),
                        topic: p.topic,
                        payload: p.payload,
                        qos: p.qos,
                        retain: p.retain,
                    });
                }
            }
            acks.insert(k, other);
        }
        acks
    }

    /// Lets everything finish, the clients closing what the broker closed.
    async fn finish(&mut self) {
        self.w.settle().await;
        for c in &mut self.w.clis {
            if c.closed() && !c.gone {
                c.end.eof();
                c.gone = true;
            }
        }
        self.w.settle().await;
    }

    fn judge_calls(&mut self, mut want: Vec<Call>, ctx: &str, ordered: bool) {
        let mut got: Vec<Call> = self.w.hook.st().calls[self.mark..].to_vec();
        self.mark += got.len();
        self.stat("hook-calls-judged", got.len() as u64);
        if !ordered {
            let key = |c: &Call| (c.id.clone(), c.what, c.detail.clone(), c.flag);
            want.sort_by_key(key);
            got.sort_by_key(key);
        }
        for c in &mut got {
            if c.what == "before_connect" {
                c.detail.clear();
            }
        }
        if got == want {
            return;
        }
        let (w, g): (Vec<_>, Vec<_>) = (want.iter().map(show).collect(), got.iter().map(show).collect());
        let names = |v: &[Call]| v.iter().map(|c| c.what).collect::<Vec<_>>();
        let sig = if got.len() < want.len() {
            "call-missing"
        } else if got.len() > want.len() {
            "call-too-many"
        } else if names(&got) != names(&want) {
            "calls-differ"
        } else {
            "call-content"
        };
        self.issue(sig, format!("{ctx}\n    expected calls:\n      {}\n    observed:\n      {}", w.join("\n      "), g.join("\n      ")));
    }

    fn judge_deliveries(&mut self, ctx: &str) {
        for i in 0..self.slots.len() {
            let mut due = std::mem::take(&mut self.slots[i].due);
            let mut got = std::mem::take(&mut self.slots[i].got);
            let broken = std::mem::take(&mut self.slots[i].broken);
            self.stat("deliveries-judged", got.len() as u64);
            let mut again = std::mem::take(&mut self.slots[i].again);
            for m in got.iter_mut().chain(&mut again) {
                // seconds remaining (C11 and C33 have them exactly)
                if let Some(x) = m.expiry
                    && let Some(d) = due.iter().chain(&self.slots[i].maybe).chain(&self.slots[i].perhaps).find(|d| d.payload == m.payload)
                    && let Some(dx) = d.expiry
                    && x <= dx
                    && dx - x < 400
                {
                    m.expiry = d.expiry;
                }
            }
            let mut maybe = std::mem::take(&mut self.slots[i].maybe);
            let old = std::mem::take(&mut self.slots[i].perhaps);
            let (n_new, mut left) = (maybe.len(), vec![]);
            maybe.extend(old);
            for (k, m) in maybe.into_iter().enumerate() {
                let n = |v: &[Msg]| v.iter().filter(|x| **x == m).count();
                if n(&got) > n(&due) {
                    got.remove(got.iter().position(|x| *x == m).unwrap());
                } else if m.qos > 0 && (broken || k >= n_new) && self.slots[i].session {
                    left.push(m);
                }
            }
            self.slots[i].perhaps = left;
            // given again because the acknowledgement was lost with the connection
            for m in again {
                let n = |v: &[Msg]| v.iter().filter(|x| **x == m).count();
                if n(&got) < n(&due) {
                    got.push(m);
                }
            }
            due.sort();
            got.sort();
            if due == got {
                continue;
            }
            let minus = |a: &[Msg], b: &[Msg]| {
                let mut b = b.to_vec();
                a.iter().filter(|m| b.iter().position(|x| x == *m).map(|k| b.remove(k)).is_none()).cloned().collect::<Vec<_>>()
            };
            let missing = minus(&due, &got);
            let extra = minus(&got, &due);
            if broken && extra.is_empty() {
                // the rest is lost with the connection (QoS 0) or comes back with the session
                let s = &mut self.slots[i];
                if s.session && s.cli.is_none() {
                    s.queue.extend(missing.into_iter().filter(|m| m.qos > 0));
                }
                continue;
            }
            let id = self.slots[i].id.clone();
            self.issue(
                if !extra.is_empty() { "effect-not-allowed" } else { "effect-missing" },
                format!("{ctx}\n    client {id} expected {due:?}\n    received {got:?}\n    missing {missing:?}\n    unexpected {extra:?}"),
            );
        }
    }

    fn strip(p: &S) -> S {
        let n: Props = vec![];
        match p.clone() {
            S::Puback { pid, code, .. } => S::Puback { pid, code: if code == 16 { 0 } else { code }, props: n },
            S::Pubrec { pid, code, .. } => S::Pubrec { pid, code: if code == 16 { 0 } else { code }, props: n },
            S::Pubcomp { pid, code, .. } => S::Pubcomp { pid, code, props: n },
            S::Suback { pid, codes, .. } => S::Suback { pid, codes, props: n },
            S::Unsuback { pid, codes, .. } => S::Unsuback { pid, codes, props: n },
            S::Disconnect { code, .. } => S::Disconnect { code, props: n },
            o => o,
        }
    }

    fn queues_empty(&mut self, ctx: &str) {
        let left = {
            let h = self.w.hook.st();
            (h.connect.len(), h.publish.len(), h.subscribe.len(), h.unsubscribe.len(), h.actions.len(), h.edit_publish.len() + h.edit_subscribe.len() + h.edit_unsubscribe.len())
        };
        if left != (0, 0, 0, 0, 0, 0) {
            // every miss shows as a missing call as well; keep the next steps clean
            self.w.log(format!("answers left {left:?} after {ctx}"));
            let mut h = self.w.hook.st();
            h.connect.clear();
            h.publish.clear();
            h.subscribe.clear();
            h.unsubscribe.clear();
            h.actions.clear();
            h.edit_publish.clear();
            h.edit_subscribe.clear();
            h.edit_unsubscribe.clear();
        }
    }

    // ------------------------------------------------------------- operations

    async fn op_requests(&mut self, i: usize) {
        let cli = self.slots[i].cli.unwrap();
        let v5 = self.slots[i].ver.v5();
        let ver = self.slots[i].ver;
        let n = if self.w.rng.chance(2, 3) { 1 } else { self.w.rng.range(2, 5) };
        let mut plan = vec![];
        let mut bytes = vec![];
        for _ in 0..n {
            let r = self.request(i, n == 1);
            let pid = self.w.clis[cli].pid();
            let raw = match &r {
                Req::Pub { p, .. } => {
                    let mut p = p.clone();
                    p.pid = if p.qos > 0 { pid } else { 0 };
                    publish(ver, &p)
                }
                Req::Sub { t, .. } => subscribe(ver, pid, &vec![], t),
                Req::Unsub { t, .. } => unsubscribe(ver, pid, t),
            };
            bytes.extend(&raw);
            plan.push((r, pid, raw));
        }
        let id = self.slots[i].id.clone();
        let ctx = format!("{id} sends {:?}", plan.iter().map(|p| &p.0).collect::<Vec<_>>());
        self.w.log(ctx.clone());
        self.w.hook.st().only = Some(id.clone());
        let mut e = Exp::default();
        for (r, pid, raw) in &plan {
            self.prime(r, v5);
            if !self.expect(i, r, *pid, raw, &mut e) {
                break;
            }
        }
        let ours = e.calls.iter().filter(|c| c.what != "after_disconnect").count();
        let gated = ours > 0 && self.w.rng.chance(1, 3);
        // a request whose kind is not hooked needs no leave
        let first_hooked = match &plan[0].0 {
            Req::Pub { .. } => self.en.publish,
            Req::Sub { .. } => self.en.subscribe,
            Req::Unsub { .. } => self.en.unsubscribe,
        };
        let mut early = vec![];
        let mut extra_close = false;
        let mut lost = false;
        if gated {
            let k = self.w.rng.below(ours);
            self.w.hook.st().gate_in = Some(k);
            self.w.clis[cli].send(&bytes);
            self.finish().await;
            self.stat("slow-hooks", 1);
            let seen = self.w.hook.st().calls.len() - self.mark;
            if self.w.hook.st().gate.is_none() || seen != k + 1 {
                self.issue("slow-hook-overtaken", format!("{ctx}: call {k} of {ours} waits, {seen} calls seen"));
            }
            if self.w.clis[cli].closed() {
                self.issue("closed-during-hook", ctx.clone());
            }
            if k == 0 && first_hooked {
                // nothing has been allowed yet
                let acks = self.drain();
                early = acks[&cli].clone();
                if !acks[&cli].is_empty() {
                    self.issue("acknowledged-before-the-hook-decided", format!("{ctx}: {:?}", acks[&cli]));
                }
                let got: Vec<_> = self.slots.iter().flat_map(|s| s.got.clone()).collect();
                if !got.is_empty() {
                    self.issue("effect-before-the-hook-decided", format!("{ctx}: {got:?}"));
                }
            }
            self.others_alive(i, &ctx).await;
            match self.w.rng.below(4) {
                0 => {
                    self.w.log(format!("{id} half-closes while the hook waits"));
                    self.w.clis[cli].end.eof();
                    self.w.clis[cli].gone = true;
                    extra_close = !e.closed;
                }
                1 if n == 1 => {
                    self.w.log(format!("{id} breaks off while the hook waits"));
                    self.w.clis[cli].drop_conn(true);
                    extra_close = !e.closed;
                    lost = true;
                }
                2 => {
                    let d = Duration::from_millis(self.w.rng.range(1, 12_000) as u64);
                    self.w.log(format!("{d:?} pass while the hook waits"));
                    self.w.pass(d, Duration::from_millis(500)).await;
                }
                _ => {}
            }
            self.w.settle().await;
            self.w.hook.open_gate();
        } else {
            self.w.clis[cli].send(&bytes);
        }
        self.finish().await;
        if extra_close {
            // the connection is found closed only after the requests are dealt with
            self.slots[i].broken = true;
            self.ends(i, true, &mut e.calls);
        }
        if e.closed || lost {
            self.slots[i].broken = true;
        }
        let acks = self.drain();
        let got: Vec<S> = early.iter().chain(&acks[&cli]).map(Mon::strip).collect();
        let want: Vec<S> = e.acks.iter().map(Mon::strip).collect();
        let ok = if e.told && !lost {
            got == want
        } else if e.closed || extra_close {
            want.starts_with(&got)
        } else {
            got == want
        };
        self.stat("answers-judged", got.len() as u64);
        if !ok {
            self.issue("wrong-answer", format!("{ctx}\n    expected {want:?}\n    received {got:?}"));
        }
        if (e.closed || extra_close) && !self.w.clis[cli].closed() {
            self.issue("refused-connection-left-open", ctx.clone());
        }
        if !(e.closed || extra_close) && self.w.clis[cli].closed() {
            self.issue("connection-closed", ctx.clone());
            self.slots[i].cli = None;
        }
        self.judge_calls(e.calls, &ctx, true);
        self.judge_deliveries(&ctx);
        self.queues_empty(&ctx);
        if !e.closed && !extra_close {
            for pid in e.rel {
                self.w.clis[cli].ack(6, pid);
                self.finish().await;
                let acks = self.drain();
                let got: Vec<S> = acks[&cli].iter().map(Mon::strip).collect();
                if got != [S::Pubcomp { pid, code: 0, props: vec![] }] {
                    self.issue("wrong-answer", format!("{ctx}\n    released {pid}, received {got:?}"));
                }
            }
            self.judge_calls(vec![], &ctx, true);
        }
    }

    /// While one client's hook takes its time, the others are served.
    async fn others_alive(&mut self, i: usize, ctx: &str) {
        let Some(o) = (0..self.slots.len()).find(|o| *o != i && self.slots[*o].cli.is_some()) else { return };
        let cli = self.slots[o].cli.unwrap();
        self.w.clis[cli].ping();
        self.w.settle().await;
        let got = self.w.clis[cli].take();
        let pong = got.iter().any(|p| matches!(p, S::Pingresp));
        let keep: Vec<S> = got.into_iter().filter(|p| !matches!(p, S::Pingresp)).collect();
        self.w.clis[cli].inbox = keep;
        if !pong {
            self.issue("slow-hook-stalls-another-client", format!("{ctx}: {} got no answer to a ping", self.slots[o].id));
        }
        self.stat("others-served-meanwhile", 1);
    }

    fn will(&mut self) -> Option<Will> {
        if !self.w.rng.chance(1, 3) {
            return None;
        }
        Some(Will { qos: self.w.rng.below(3) as u8, retain: false, topic: self.topic(), payload: self.payload(), props: vec![] })
    }

    async fn op_connect(&mut self, i: usize, plain: bool) {
        let (id, ver) = (self.slots[i].id.clone(), self.slots[i].ver);
        let old = self.slots[i].cli;
        let mut c = Connect::new(ver, &id, !plain && self.w.rng.chance(1, 3));
        let keep = if ver.v5() {
            let sei = *self.w.rng.pick(&[0u32, 100_000]);
            if sei > 0 || self.w.rng.bool() {
                c.props.push((P_SEI, PV::U32(sei)));
            }
            sei > 0
        } else {
            !c.clean
        };
        c.will = if plain { None } else { self.will() };
        let before = if plain || !self.en.bc { Dec::Ok } else { self.dec(CONN_CODES.len()) };
        let after = if plain || !self.en.ac { After::Acts(vec![]) } else { self.after() };
        let ctx = format!("{id} connects clean {} keep {keep} will {:?} over a live connection {}; hook says {before:?}, then {after:?}", c.clean, c.will, old.is_some());
        self.w.log(ctx.clone());
        let mut e = Exp::default();
        {
            let mut h = self.w.hook.st();
            h.only = Some(id.clone());
            if self.en.bc {
                h.connect.push_back(match &before {
                    Dec::Ok => Ok(HookConnectCode::Success),
                    Dec::Refuse(n) => Ok(CONN_CODES[*n].0),
                    Dec::Fail => Err(HookError::Internal),
                });
            }
            if self.en.ac && before == Dec::Ok {
                h.actions.push_back(match &after {
                    After::Fail => Err(HookError::Internal),
                    After::Acts(v) => Ok(v.iter().map(to_action).collect()),
                });
            }
        }
        if self.en.bc {
            e.calls.push(call("before_connect", &id, String::new(), c.clean, &[]));
        }
        let mut sp = false;
        if before == Dec::Ok {
            // the old connection goes first
            let s = &mut self.slots[i];
            sp = s.session && s.keep && !c.clean;
            let old_will = if old.is_some() { s.will.take() } else { None };
            if !sp {
                Mon::drop_session(s);
            }
            s.session = true;
            s.keep = keep;
            if old.is_some() && self.en.ad {
                e.calls.push(call("after_disconnect", &id, String::new(), true, &[]));
            }
            // while it is being taken over, its queued messages wait for the new one
            self.slots[i].cli = Some(usize::MAX);
            let q = std::mem::take(&mut self.slots[i].queue);
            self.slots[i].due.extend(q);
            if let Some(w) = old_will {
                self.route(&Msg { topic: w.topic, payload: w.payload, qos: w.qos, retain: w.retain, pfi: None, expiry: None, ctype: None });
            }
            self.slots[i].will = c.will.clone();
            if self.en.ac {
                e.calls.push(call("after_connect", &id, String::new(), sp, &[]));
                if !self.act(i, &after) {
                    e.closed = true;
                    self.ends(i, true, &mut e.calls);
                }
            }
        } else {
            self.stat("refusals", 1);
            e.closed = true;
        }
        let ours = e.calls.iter().filter(|c| c.what != "after_disconnect").count();
        let gated = ours > 0 && !plain && old.is_none() && self.w.rng.chance(1, 3);
        if gated {
            let k = self.w.rng.below(ours);
            self.w.hook.st().gate_in = Some(k);
        }
        // the session state of the old connection goes with the client
        let prior = self.slots[i].last;
        let cli = match prior {
            Some(k) if old.is_none() => {
                self.w.reopen(k, c);
                k
            }
            _ => self.w.open(c),
        };
        if let (Some(k), Some(_)) = (prior, old) {
            // taken over: hand the client's state on
            let rec = self.w.clis[k].rec.clone();
            self.w.clis[cli].rec = rec;
        }
        if before == Dec::Ok || old.is_none() {
            self.slots[i].last = Some(cli);
        }
        // identifiers an earlier connection left unreleased are not used again
        self.pids += 100;
        self.w.clis[cli].next_pid = self.pids;
        self.w.clis[cli].lossy = true;
        let mut gone = false;
        if gated {
            self.finish().await;
            self.stat("slow-hooks", 1);
            if self.w.hook.st().gate.is_none() {
                self.issue("slow-hook-overtaken", format!("{ctx}: no call waits"));
            }
            self.others_alive(i, &ctx).await;
            if self.w.rng.chance(1, 3) {
                self.w.log(format!("{id} half-closes while the hook waits"));
                self.w.clis[cli].end.eof();
                self.w.clis[cli].gone = true;
                gone = true;
            }
            self.w.hook.open_gate();
        }
        self.finish().await;
        if before == Dec::Ok {
            if self.slots[i].cli.is_some() {
                self.slots[i].cli = Some(cli);
            }
            if gone && !e.closed {
                self.slots[i].broken = true;
                self.ends(i, true, &mut e.calls);
            }
        }
        if e.closed && before == Dec::Ok {
            self.slots[i].broken = true;
        }
        let acks = self.drain();
        let got = &acks[&cli];
        let connack = got.iter().find_map(|p| if let S::Connack { sp, code, .. } = p { Some((*sp, *code)) } else { None });
        self.stat("answers-judged", 1);
        let ok = match &before {
            Dec::Ok => connack == Some((sp, 0)) || (gone && connack.is_none()),
            Dec::Fail => connack.is_none_or(|(s, c)| !s && c != 0),
            Dec::Refuse(n) => match connack {
                Some((s, c)) => !s && if ver.v5() { c == CONN_CODES[*n].1 } else { CONN_CODES[*n].2.contains(&c) },
                None => gone,
            },
        };
        if !ok {
            self.issue("wrong-answer", format!("{ctx}\n    session present should be {sp}, received {got:?}"));
        }
        if (e.closed || gone) && !self.w.clis[cli].closed() {
            self.issue("refused-connection-left-open", ctx.clone());
        }
        if !e.closed && !gone && self.w.clis[cli].closed() {
            self.issue("connection-closed", ctx.clone());
            self.slots[i].cli = None;
        }
        if let Some(o) = old {
            let c = self.w.clis[o].closed();
            if before == Dec::Ok && !c {
                self.issue("old-connection-left-open", ctx.clone());
            } else if before != Dec::Ok && c {
                self.issue("refused-connect-closed-the-old-connection", ctx.clone());
            }
        }
        self.judge_calls(e.calls, &ctx, old.is_none());
        self.judge_deliveries(&ctx);
        self.queues_empty(&ctx);
    }

    async fn op_end(&mut self, i: usize) {
        let cli = self.slots[i].cli.unwrap();
        let id = self.slots[i].id.clone();
        let ver = self.slots[i].ver;
        let how = self.w.rng.below(5);
        let ctx = format!("{id} ends: {}", ["disconnect", "disconnect with will", "half-close", "reset", "second connect"][how]);
        self.w.log(ctx.clone());
        if self.en.ad && self.w.rng.chance(1, 4) {
            let mut h = self.w.hook.st();
            h.only = Some(id.clone());
            h.disconnect.push_back(Err(HookError::Internal));
        }
        let mut calls = vec![];
        let mut will = true;
        match how {
            0 => {
                self.w.clis[cli].disconnect(0, &vec![]);
                will = false;
            }
            1 => {
                let v5 = ver.v5();
                self.w.clis[cli].disconnect(if v5 { 4 } else { 0 }, &vec![]);
                will = v5;
            }
            2 => {
                self.w.clis[cli].end.eof();
                self.w.clis[cli].gone = true;
            }
            3 => self.w.clis[cli].drop_conn(true),
            _ => {
                let b = connect(&Connect::new(ver, &id, false));
                self.w.clis[cli].send(&b);
            }
        }
        self.ends(i, will, &mut calls);
        self.finish().await;
        self.drain();
        if !self.w.clis[cli].closed() {
            self.issue("connection-left-open", ctx.clone());
        }
        self.judge_calls(calls, &ctx, true);
        self.judge_deliveries(&ctx);
        self.w.hook.st().disconnect.clear();
    }

    /// A client that leaves the choice of its identifier to the broker.
    async fn op_anonymous(&mut self) {
        self.w.hook.st().only = None;
        let ver = *self.w.rng.pick(&[Ver::V311, Ver::V5]);
        let mut c = Connect::new(ver, "", true);
        c.keep_alive = 0;
        self.w.log(format!("a {ver:?} client without identifier comes and goes"));
        let k = self.w.open(c);
        self.finish().await;
        let acks = self.drain();
        let id = acks[&k].iter().find_map(|p| if let S::Connack { code: 0, props, .. } = p { strp(props, P_ACID) } else { None });
        self.w.clis[k].disconnect(0, &vec![]);
        self.finish().await;
        self.drain();
        let calls: Vec<Call> = self.w.hook.st().calls[self.mark..].to_vec();
        self.mark += calls.len();
        let want: Vec<&str> =
            [("before_connect", self.en.bc), ("after_connect", self.en.ac), ("after_disconnect", self.en.ad)].iter().filter(|x| x.1).map(|x| x.0).collect();
        let got: Vec<&str> = calls.iter().map(|c| c.what).collect();
        if got != want {
            self.issue("calls-differ", format!("anonymous client: expected {want:?}, observed {got:?}"));
        }
        let later: Vec<&Call> = calls.iter().filter(|c| c.what != "before_connect").collect();
        if later.iter().any(|c| c.id.is_empty() || c.id != later[0].id || id.as_ref().is_some_and(|i| *i != c.id)) {
            self.issue("call-content", format!("anonymous client assigned {id:?}: {:?}", calls.iter().map(show).collect::<Vec<_>>()));
        }
        self.judge_deliveries("anonymous client");
        self.stat("anonymous-clients", 1);
    }

    async fn run(&mut self) {
        // an observer of everything, itself an ordinary client
        let n = self.w.rng.range(1, 3);
        for i in 0..=n {
            let ver = if i == 0 { Ver::V5 } else { *self.w.rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5]) };
            let id = if i == 0 { "obs".to_string() } else { format!("c{i}") };
            self.slots.push(Slot {
                id,
                ver,
                cli: None,
                last: None,
                keep: false,
                session: false,
                subs: BTreeMap::new(),
                queue: vec![],
                will: None,
                due: vec![],
                got: vec![],
                broken: false,
                maybe: vec![],
                perhaps: vec![],
                seen: Default::default(),
                again: vec![],
            });
        }
        self.op_connect(0, true).await;
        let raw = subscribe(Ver::V5, 1, &vec![], &[("#".into(), 2)]);
        let obs = self.slots[0].cli.unwrap();
        self.w.hook.st().only = Some("nobody".into());
        self.w.clis[obs].pid();
        self.w.clis[obs].send(&raw);
        self.finish().await;
        self.drain();
        self.slots[0].subs.insert("#".into(), 2);
        let calls = if self.en.subscribe {
            vec![call("before_subscribe", "obs", "#:2".into(), false, &raw), call("after_subscribe", "obs", "#:2 2".into(), false, &raw)]
        } else {
            vec![]
        };
        self.judge_calls(calls, "observer subscribes", true);
        let ops = self.w.rng.range(4, 14);
        for _ in 0..ops {
            if !self.w.issues.is_empty() {
                return;
            }
            let i = self.w.rng.range(1, n);
            if self.w.rng.chance(1, 20) {
                self.op_anonymous().await;
            } else if self.slots[i].cli.is_none() {
                self.op_connect(i, false).await;
            } else {
                match self.w.rng.below(10) {
                    0 => self.op_connect(i, false).await,
                    1 => self.op_end(i).await,
                    _ => self.op_requests(i).await,
                }
            }
        }
    }
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats) = case(|| async {
            let mut h = Mon::new(Rng::fork(run.seed, n ^ 0x2525));
            h.run().await;
            (h.w.issues.clone(), h.w.trace.clone(), h.stats.clone())
        });
        report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.case(stats.get("hook-calls-judged").is_some_and(|x| *x > 0), &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}
