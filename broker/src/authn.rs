//! The authentication gate (C18) and the password store behind it (C21).
use crate::codec::*;
use crate::creds::{self, Scram};
use crate::model::report;
use crate::net::Policy;
use crate::tp::Kind;
use crate::world::*;
use akasa_core::{AuthConfig, AuthPassword, Config, MIN_SALT_LEN, SaslMechanism, ScramPasswordInfo, dump_passwords, hash_password, load_passwords};
use dashmap::DashMap;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

const METHOD: &str = "SCRAM-SHA-256";

struct Gate {
    w: World,
    k: Config,
    users: Vec<(String, Vec<u8>)>,
    scram: Vec<(String, Vec<u8>)>,
    watcher: usize,
    victim: usize,
    serial: u32,
    accepted: u64,
    refused: u64,
    stats: BTreeMap<&'static str, u64>,
}

fn name(rng: &mut Rng) -> String {
    let special = ["a:b", "x,y", "p=q", "ü", "日本", "a b", "sha256", "=2C"];
    if rng.chance(1, 3) { special[rng.below(special.len())].to_string() } else { format!("u{}", rng.below(1000)) }
}
fn secret(rng: &mut Rng) -> Vec<u8> {
    match rng.below(5) {
        0 => vec![],
        1 => rng.bytes(1),
        2 => b"password".to_vec(),
        _ => {
            let n = rng.range(2, 40);
            rng.bytes(n)
        }
    }
}
/// A different secret, often a close one.
fn other(rng: &mut Rng, p: &[u8], salt: &[u8], hash: &[u8]) -> Vec<u8> {
    let mut q = p.to_vec();
    match rng.below(9) {
        0 => q.push(0),
        1 if !q.is_empty() => {
            q.pop();
        }
        2 if !q.is_empty() => {
            let i = rng.below(q.len());
            q[i] ^= 1 << rng.below(8);
        }
        3 => q.clear(),
        4 => q.extend(salt),
        5 => q = hash.to_vec(),
        6 => q.make_ascii_uppercase(),
        7 => {
            let n = rng.range(1, salt.len().max(1));
            q.extend(&salt[..n.min(salt.len())]);
        }
        _ => q = rng.bytes(12),
    }
    q
}

impl Gate {
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn good(&mut self, mut c: Connect) -> Connect {
        if self.k.auth.enable {
            let (u, p) = self.w.rng.pick(&self.users).clone();
            c.user = Some(u);
            c.pass = Some(p);
        }
        c
    }
    fn knows(&self, u: &Option<String>, p: &Option<Vec<u8>>) -> bool {
        match (u, p) {
            (Some(u), Some(p)) => {
                let g = self.w.global.clone();
                g.auth_passwords.get(u).is_some_and(|e| creds::hash(e.hash_algorithm, &e.salt, p) == e.hashed_password)
            }
            _ => false,
        }
    }
    async fn ordinary(&mut self, id: &str, ver: Ver, keep: bool) -> Option<usize> {
        let mut c = Connect::new(ver, id, !keep);
        c.keep_alive = 0xffff;
        if keep && ver.v5() {
            c.props.push((P_SEI, PV::U32(100_000)));
        }
        let c = self.good(c);
        let i = self.w.connect(c).await;
        match self.w.clis[i].connack {
            Some((_, 0, _)) => Some(i),
            _ => {
                self.w.issue("C18 C21", "right-password-refused", format!("{id}: {:?}", self.w.clis[i].connack));
                None
            }
        }
    }

    async fn setup(&mut self) -> bool {
        let ver = *self.w.rng.pick(&[Ver::V5, Ver::V311]);
        let Some(i) = self.ordinary("watcher", Ver::V5, false).await else { return false };
        let Some(v) = self.ordinary("victim", ver, true).await else { return false };
        self.watcher = i;
        self.victim = v;
        self.w.clis[i].subscribe(&vec![], &[("#".into(), 0)]);
        self.w.clis[v].subscribe(&vec![], &[("v/#".into(), 1)]);
        self.w.settle().await;
        true
    }

    /// What an intruder may want to achieve while it is not let in.
    fn cargo(&mut self, ver: Ver) -> Vec<u8> {
        let mut b = vec![];
        for _ in 0..self.w.rng.range(1, 3) {
            self.serial += 1;
            match self.w.rng.below(5) {
                0 | 1 => {
                    let qos = self.w.rng.below(3) as u8;
                    let retain = self.w.rng.bool();
                    b.extend(publish(ver, &Pub { qos, retain, pid: 7, topic: "v/evil".into(), payload: format!("evil{}", self.serial).into_bytes(), ..Pub::default() }));
                }
                2 => b.extend(subscribe(ver, 9, &vec![], &[("#".into(), 1)])),
                3 => b.extend(unsubscribe(ver, 11, &["v/#".into()])),
                _ => b.extend([0xc0, 0]),
            }
        }
        b
    }

    async fn attempt(&mut self) {
        let ver = *self.w.rng.pick(&[Ver::V5, Ver::V5, Ver::V5, Ver::V311, Ver::V31]);
        let same_gen = ver.v5() == self.w.clis[self.victim].v5();
        self.serial += 1;
        let n = self.serial;
        let id = match self.w.rng.below(5) {
            0 | 1 if same_gen => "victim".to_string(),
            2 if ver != Ver::V31 => String::new(),
            _ => format!("c{n}"),
        };
        let mut c = Connect::new(ver, &id, id.is_empty() || self.w.rng.bool());
        c.keep_alive = 0xffff;
        if self.w.rng.chance(1, 4) {
            c.will = Some(Will { qos: 1, retain: self.w.rng.bool(), topic: "v/evil".into(), payload: format!("evilwill{n}").into_bytes(), props: vec![] });
        }
        // credentials
        let (u, p) = self.w.rng.pick(&self.users).clone();
        let (salt, hash) = self.w.global.auth_passwords.get(&u).map(|e| (e.salt.clone(), e.hashed_password.clone())).unwrap_or((vec![1; 12], vec![2; 32]));
        match self.w.rng.below(if ver.v5() { 14 } else { 9 }).saturating_sub(if ver.v5() { 5 } else { 0 }) {
            0..=3 => (c.user, c.pass) = (Some(u), Some(p)),
            4 => (c.user, c.pass) = (Some(u), Some(other(&mut self.w.rng, &p, &salt, &hash))),
            5 => {
                let v = format!("{u}{}", self.w.rng.pick(&["", " ", "\u{1}", "x"]));
                (c.user, c.pass) = (Some(v), Some(secret(&mut self.w.rng)));
            }
            6 => c.user = Some(u),
            7 => {
                // a password of somebody else
                let (_, q) = self.w.rng.pick(&self.users).clone();
                (c.user, c.pass) = (Some(u), Some(q));
            }
            _ => {
                if ver.v5() {
                    c.pass = Some(p);
                }
            }
        }
        let pw = !self.k.auth.enable || self.knows(&c.user, &c.pass);
        // enhanced authentication
        let mut ex: Option<Scram> = None;
        let mut doomed = "";
        let mut method = None;
        if ver.v5() && self.w.rng.chance(11, 20) {
            let (su, sp) = self.w.rng.pick(&self.scram).clone();
            let mut s = Scram::new(&mut self.w.rng, &su, &sp);
            let mut m = METHOD.to_string();
            let mut data = Some(s.first().into_bytes());
            match self.w.rng.below(16) {
                0 => {
                    m = self.w.rng.pick(&["SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "PLAIN", "", "scram-sha-256", "SCRAM-SHA-256 "]).to_string();
                    doomed = "method";
                }
                1 => {
                    data = None;
                    doomed = "no data";
                }
                2 => {
                    data = Some(self.w.rng.pick(&[&b""[..], b"n", b"n,,", b"n,,n=", b"\xff\xfe", b"n,,r=abc", b"n,,n=user"]).to_vec());
                    doomed = "bad first message";
                }
                3 => {
                    s.user = format!("{su}x");
                    if self.scram.iter().all(|(u, _)| u != &s.user) {
                        data = Some(s.first().into_bytes());
                        doomed = "unknown SCRAM user";
                    }
                }
                4 => {
                    let q = other(&mut self.w.rng, &sp, b"salt", b"hash");
                    if !creds::same_key(&q, &sp) {
                        s.password = q;
                        doomed = "wrong SCRAM password";
                    }
                }
                5 => {
                    m.clear();
                    doomed = "data without method";
                }
                _ => {}
            }
            if !self.k.sasl_mechanisms.contains(&SaslMechanism::ScramSha256) && doomed.is_empty() {
                doomed = "mechanism not configured";
            }
            if !(doomed == "data without method") {
                c.props.push((P_AMETH, PV::Str(m.clone())));
            }
            if let Some(d) = data {
                c.props.push((P_ADATA, PV::Bin(d)));
            }
            method = Some(m);
            ex = Some(s);
        }
        let odd = self.w.rng.chance(1, 8);
        let trailing = self.w.rng.chance(1, if ver.v5() { 6 } else { 3 });
        let mut bytes = vec![];
        let mut judge = true;
        if odd {
            // something else comes first
            bytes = match self.w.rng.below(3) {
                0 => self.cargo(ver),
                1 => auth(0x18, &vec![(P_AMETH, PV::Str(METHOD.into())), (P_ADATA, PV::Bin(b"n,,n=a,r=b".to_vec()))]),
                _ => vec![0x20, 0x03, 0, 0, 0],
            };
            doomed = "not a CONNECT";
        }
        bytes.extend(connect(&c));
        // the client's own acknowledgements must not land inside a packet of the cargo
        let whole = bytes.len();
        if trailing {
            bytes.extend(self.cargo(ver));
        }
        self.w.log(format!(
            "{ver:?} {id:?} clean {} user {:?} ({}) method {method:?} doomed {doomed:?} first {odd} trailing {trailing} will {}",
            c.clean,
            c.user,
            if pw { "right" } else { "wrong" },
            c.will.is_some()
        ));
        self.w.clis[self.watcher].take_app();
        self.w.clis[self.victim].take_app();
        let before = self.w.counts();
        let mark = self.w.hook.st().calls.len();
        let i = self.w.open_raw(ver, Kind::Plain);
        self.w.clis[i].alias_max = 0;
        let cut = if self.w.rng.chance(1, 4) { self.w.rng.below(whole + 1) } else { 0 };
        if cut > 0 {
            self.w.clis[i].send(&bytes[..cut]);
            self.w.settle().await;
        }
        self.w.clis[i].send(&bytes[cut..]);
        self.w.settle().await;
        let mut scram_ok = false;
        let mut silent = odd;
        if let Some(mut s) = ex {
            let challenge = self.w.clis[i].inbox.iter().find_map(|p| match p {
                S::Auth { code, props } => Some((*code, strp(props, P_AMETH), binp(props, P_ADATA))),
                _ => None,
            });
            if let Some((code, m, data)) = challenge {
                let text = data.and_then(|d| String::from_utf8(d).ok()).unwrap_or_default();
                if code != 0x18 || m.as_deref() != Some(METHOD) {
                    self.w.issue("C18 C19", "malformed-challenge", format!("code {code} method {m:?}"));
                    return;
                }
                self.stat("scram-challenges-received");
                if !trailing {
                    match s.last(&text) {
                        Ok(last) => {
                            (scram_ok, silent) = self.answer(i, ver, &last, doomed).await;
                            if scram_ok {
                                self.stat("scram-exchanges-completed");
                                let sent = self.w.clis[i].connack.clone();
                                if let Some((_, 0, props)) = &sent
                                    && binp(props, P_ADATA) != Some(s.server_final().into_bytes())
                                {
                                    self.w.issue("C18 C19", "server-not-authenticated", format!("{props:?} instead of {}", s.server_final()));
                                }
                            }
                        }
                        Err(e) => {
                            self.w.issue("C18 C19", "malformed-challenge", e);
                            return;
                        }
                    }
                }
            } else if doomed.is_empty() && pw && !odd && !trailing {
                self.w.issue("C18", "configured-scram-exchange-refused", format!("{:?}", self.w.clis[i].connack));
                return;
            }
        } else {
            scram_ok = true;
        }
        let by_method = method.is_some();
        if by_method && !pw && scram_ok {
            judge = false; // either answer follows the rule
        }
        let want = doomed.is_empty() && pw && scram_ok;
        let code = self.w.clis[i].connack.as_ref().map(|c| c.1);
        let is = code == Some(0);
        if judge && want != is {
            let sig = if is { "accepted-without-authentication" } else { "right-credentials-refused" };
            self.w.issue("C18", sig, format!("connack {code:?} disconnect {:?}", self.w.clis[i].server_disc));
            return;
        }
        if is {
            self.accepted += 1;
            let shown = self.w.clis[i].inbox.iter().filter(|p| matches!(p, S::Connack { .. })).count();
            if shown != 1 {
                self.w.issue("C18", "accepted-twice", format!("{shown}"));
            }
            // it may do as it likes; put things back in order
            if !self.w.clis[i].closed() {
                self.w.clis[i].disconnect(0, &vec![]);
            }
            self.w.settle().await;
            let (wt, vi) = (self.watcher, self.victim);
            if self.w.clis[vi].closed() {
                // somebody else may have had the session in between
                self.w.clis[vi].lossy = true;
                let keep = self.w.clis[vi].conn.clone();
                self.w.reopen(vi, keep);
                self.w.settle().await;
                self.w.clis[vi].subscribe(&vec![], &[("v/#".into(), 1)]);
            } else {
                self.w.clis[vi].subscribe(&vec![], &[("v/#".into(), 1)]);
            }
            let ver = self.w.clis[wt].ver;
            let clear = publish(ver, &Pub { retain: true, topic: "v/evil".into(), ..Pub::default() });
            self.w.clis[wt].send(&clear);
            self.w.settle().await;
            return;
        }
        self.refused += 1;
        // an answer with an error, unless nothing of an exchange was understood
        let refused = code.is_some_and(|c| c != 0) || self.w.clis[i].server_disc.is_some_and(|c| c >= 0x80);
        if !silent && !refused && !self.w.clis[i].closed() {
            self.w.issue("C18", "neither-accepted-nor-refused", "no answer".into());
        }
        if !silent && !refused && !trailing && doomed != "data without method" {
            self.w.issue("C18", "refused-without-an-error", format!("closed {}", self.w.clis[i].closed()));
        }
        if !self.w.clis[i].closed() {
            // it tries to go on
            let more = self.cargo(ver);
            self.w.clis[i].send(&more);
            self.w.settle().await;
            if !self.w.clis[i].closed() {
                self.w.pass(Duration::from_secs(7), Duration::from_millis(500)).await;
            }
            if !self.w.clis[i].closed() {
                self.w.issue("C18", "refused-connection-left-open", format!("connack {code:?}"));
            }
        }
        self.untouched(i, before, mark).await;
    }

    /// The second step of the exchange: (completed as it must be, no answer expected).
    async fn answer(&mut self, i: usize, ver: Ver, last: &str, doomed: &str) -> (bool, bool) {
        let p = |m: &str, d: &[u8]| vec![(P_AMETH, PV::Str(m.into())), (P_ADATA, PV::Bin(d.to_vec()))];
        let what = self.w.rng.below(18);
        let right = auth(0x18, &p(METHOD, last.as_bytes()));
        self.w.log(format!("  answers {what}"));
        let mut ok = false;
        let mut silent = false;
        let b = match what {
            0 => {
                // the proof altered in one place
                let at = last.len() - 2 - self.w.rng.below(40);
                let mut l = last.as_bytes().to_vec();
                l[at] = if l[at] == b'A' { b'B' } else { b'A' };
                auth(0x18, &p(METHOD, &l))
            }
            1 => auth(0x18, &p(METHOD, b"")),
            2 => auth(0x18, &vec![(P_AMETH, PV::Str(METHOD.into()))]),
            3 => auth(0x18, &p("SCRAM-SHA-1", last.as_bytes())),
            4 => auth(0x00, &p(METHOD, last.as_bytes())),
            5 => auth(0x19, &p(METHOD, last.as_bytes())),
            6 => auth(0x18, &p(METHOD, b"\xff\xfe")),
            7 => {
                let mut b = self.cargo(ver);
                b.extend(&right);
                b
            }
            8 => {
                // a second CONNECT instead
                let mut c = Connect::new(ver, "c2", true);
                c = self.good(c);
                connect(&c)
            }
            9 => {
                // no proof, or an empty one
                let cut = last.find(",p=").unwrap();
                let l = match self.w.rng.below(3) {
                    0 => last[..cut].to_string(),
                    1 => format!("{},p=", &last[..cut]),
                    _ => {
                        let k = self.w.rng.range(4, 40);
                        last[..cut + k].to_string()
                    }
                };
                auth(0x18, &p(METHOD, l.as_bytes()))
            }
            10 => {
                // another nonce
                let l = last.replacen("r=", "r=x", 1);
                auth(0x18, &p(METHOD, l.as_bytes()))
            }
            11 => {
                // again from the start
                let mut b = auth(0x18, &p(METHOD, b"n,,n=a,r=b"));
                b.extend(&right);
                b
            }
            12 => {
                self.w.pass(Duration::from_secs(7), Duration::from_millis(500)).await;
                silent = true;
                right.clone()
            }
            _ => {
                ok = doomed.is_empty();
                right.clone()
            }
        };
        self.w.clis[i].send(&b);
        self.w.settle().await;
        (ok, silent)
    }

    /// Nothing of a refused attempt is left.
    async fn untouched(&mut self, i: usize, before: (u64, usize), mark: usize) {
        let (wt, vi) = (self.watcher, self.victim);
        let id = self.w.clis[i].id.clone();
        let seen: Vec<Pub> = self.w.clis[wt].take_app();
        if !seen.is_empty() {
            self.w.issue("C18", "message-from-unauthenticated-connection", format!("{id}: {seen:?}"));
        }
        let calls: Vec<_> = self.w.hook.st().calls[mark..].iter().filter(|c| c.what != "before_connect").cloned().collect();
        if !calls.is_empty() {
            self.w.issue("C18", "request-of-unauthenticated-connection-processed", format!("{calls:?}"));
        }
        let now = self.w.counts();
        if now != before {
            self.w.issue("C18", "refused-connection-changes-the-sessions", format!("online/all {before:?} then {now:?}"));
        }
        if self.w.clis[vi].closed() || self.w.clis[wt].closed() {
            self.w.issue("C18", "refused-connection-closes-another", String::new());
            return;
        }
        let got = self.w.clis[i].inbox.iter().any(|p| matches!(p, S::Publish(_) | S::Suback { .. } | S::Unsuback { .. } | S::Pingresp | S::Puback { .. } | S::Pubrec { .. }));
        if got {
            self.w.issue("C18", "request-of-unauthenticated-connection-answered", format!("{:?}", self.w.clis[i].inbox));
        }
        // the others are still served, with what they had
        self.serial += 1;
        let payload = format!("ok{}", self.serial).into_bytes();
        self.w.clis[wt].publish(&Pub { topic: "v/x".into(), payload: payload.clone(), ..Pub::default() });
        self.w.settle().await;
        let a = self.w.clis[vi].take_app();
        let b = self.w.clis[wt].take_app();
        if a.len() != 1 || b.len() != 1 || a[0].payload != payload || b[0].payload != payload {
            self.w.issue("C18", "refused-connection-disturbs-others", format!("victim {a:?} watcher {b:?}"));
        }
        self.stat("refused-attempts-examined");
        if self.w.rng.chance(1, 3) {
            // and nothing was stored
            self.w.clis[wt].subscribe(&vec![], &[("#".into(), 0)]);
            self.w.settle().await;
            let r = self.w.clis[wt].take_app();
            if !r.is_empty() {
                self.w.issue("C18", "message-from-unauthenticated-connection", format!("{id}: retained {r:?}"));
            }
        }
    }
}

pub fn gate_drive(run: &mut Run, cases: (u64, u64)) {
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats, acc, refu) = case(|| async {
            let mut rng = Rng::fork(run.seed, n ^ 0xa07);
            let mut k = config();
            let on = rng.chance(5, 6);
            k.auth = AuthConfig { enable: on, password_file: Some("/nonexistent".into()) };
            let mut users: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            for _ in 0..rng.range(1, 3) {
                users.insert(name(&mut rng), secret(&mut rng));
            }
            let mut scram: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            k.scram_users = HashMap::new();
            for _ in 0..rng.range(1, 2) {
                let (u, p) = (name(&mut rng), secret(&mut rng));
                let salt = rng.bytes(16);
                let iterations = *rng.pick(&[4096, 4097, 5000]);
                let hashed_password = creds::pbkdf2(ring::hmac::HMAC_SHA256, &p, &salt, iterations as u32);
                k.scram_users.insert(u.clone(), ScramPasswordInfo { hashed_password, iterations, salt });
                scram.insert(u, p);
            }
            if rng.chance(1, 8) {
                k.sasl_mechanisms.clear();
            }
            let store: DashMap<String, AuthPassword> = DashMap::new();
            for (u, p) in &users {
                store.insert(u.clone(), creds::entry(&mut rng, p));
            }
            let mut w = World::new(k.clone(), rng.clone());
            std::sync::Arc::get_mut(&mut w.global).unwrap().auth_passwords = store;
            w.rounds = 16;
            if w.rng.chance(1, 4) {
                w.policy = Policy { read_chunk: 7, write_chunk: 11, pending: 8, ..Policy::default() };
            }
            let mut g = Gate {
                w,
                k,
                users: users.into_iter().collect(),
                scram: scram.into_iter().collect(),
                watcher: 0,
                victim: 0,
                serial: 0,
                accepted: 0,
                refused: 0,
                stats: BTreeMap::new(),
            };
            if g.setup().await {
                for _ in 0..g.w.rng.range(2, 6) {
                    g.attempt().await;
                    if !g.w.issues.is_empty() {
                        break;
                    }
                }
            }
            (g.w.issues.clone(), g.w.trace.clone(), g.stats.clone(), g.accepted, g.refused)
        });
        report(run, n, "C18", issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.count("attempts-accepted", acc);
        run.count("attempts-refused", refu);
        run.case(refu > 0, &trace);
        if n < 2 {
            run.sample(trace.iter().take(8).collect::<Vec<_>>());
        }
    }
}

// ---------------------------------------------------------------- C21

type Store = BTreeMap<String, creds::Flat>;

fn of(map: &DashMap<String, AuthPassword>) -> Store {
    map.iter().map(|e| (e.key().clone(), creds::flat(e.value()))).collect()
}
fn user_name(rng: &mut Rng) -> String {
    const BITS: [&str; 22] = ["a", "b", "Z", "0", ":", ",", " ", "\t", "é", "日", "=", "\\", "\"", "#", "sha256", ":sha512,", "\r", "\u{feff}", "\u{a0}", "\u{85}", "\u{2028}", "/"];
    let n = *rng.pick(&[0, 1, 2, 3, 3, 5, 9]);
    let mut s: String = (0..n).map(|_| *rng.pick(&BITS)).collect();
    if rng.chance(1, 20) {
        s.insert(rng.below(1) * s.len(), '\n');
    }
    s
}
fn full(rng: &mut Rng) -> String {
    let p = secret(rng);
    let e = creds::entry(rng, &p);
    creds::line(&user_name(rng).replace(['\n', '\r'], "."), &e)
}
fn wreck(rng: &mut Rng, l: &str) -> String {
    let mut c: Vec<char> = l.chars().collect();
    let at = rng.below(c.len());
    match rng.below(9) {
        0 => {
            c.remove(at);
        }
        1 => c.truncate(at),
        2 => c.insert(at, *rng.pick(&[',', ':', '=', ' ', '+', '/', 'A', '0', '-', '_'])),
        3 => c[at] = *rng.pick(&[',', ':', '=', ' ', '+', '/', 'A', '0', '-', '_']),
        4 => {
            let f: String = c.iter().collect();
            return f.replacen("sha", rng.pick(&["SHA", "sha ", "md", "sha-", ""]), 1);
        }
        5 => {
            // a field more or less
            let f: String = c.iter().collect();
            let mut v: Vec<&str> = f.split(',').collect();
            if rng.bool() {
                v.pop();
            } else {
                let x = v[rng.below(v.len())];
                v.insert(rng.below(v.len()), x);
            }
            return v.join(",");
        }
        6 => {
            // iterations out of range
            let f: String = c.iter().collect();
            return f.replacen("pkbdf2,", rng.pick(&["pkbdf2,0", "pkbdf2,-", "pkbdf2,4294967296,", "pkbdf2,0,", "pkbdf2,,", "pkbdf2,x"]), 1);
        }
        7 => {
            // a shorter hash or salt
            let f: String = c.iter().collect();
            let cut = 4 * rng.range(1, 8);
            return f[..f.len().saturating_sub(cut)].to_string().replace('\u{fffd}', "");
        }
        _ => c.extend("=".repeat(rng.range(1, 2)).chars()),
    }
    c.into_iter().collect()
}

fn dump(map: &DashMap<String, AuthPassword>) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    dump_passwords(&mut b, map).map_err(|e| e.to_string())?;
    Ok(b)
}

pub fn store_drive(run: &mut Run, cases: (u64, u64)) {
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut rng = Rng::fork(run.seed, n ^ 0x5703e);
        let mut trace = vec![];
        let mut issues = vec![];
        let mut bad = |sig: &str, detail: String| issues.push(Issue { prop: "C21", sig: sig.into(), detail });
        // the hash is the documented function
        for _ in 0..3 {
            let a = creds::algorithm(&mut rng);
            let n = rng.below(40);
            let (salt, p) = (rng.bytes(n), secret(&mut rng));
            if hash_password(a, &salt, &p) != creds::hash(a, &salt, &p) {
                bad("hash-differs-from-its-definition", format!("{a:?} salt {salt:02x?} password {p:02x?}"));
            }
            run.count("hashes-compared", 1);
        }
        if MIN_SALT_LEN != 12 {
            bad("salt-length", format!("{MIN_SALT_LEN}"));
        }
        // writing and reading back
        let map = DashMap::new();
        let mut secrets: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for _ in 0..*rng.pick(&[0, 1, 1, 2, 3, 6]) {
            let (u, p) = (user_name(&mut rng), secret(&mut rng));
            let mut e = creds::entry(&mut rng, &p);
            secrets.remove(&u);
            if let (_, Some(_)) = creds::parts(e.hash_algorithm)
                && rng.chance(1, 6)
            {
                // stored, not computed: any count must survive
                let i = *rng.pick(&[u32::MAX, 1_000_000, 65_536]);
                let it = std::num::NonZeroU32::new(i).unwrap();
                e.hash_algorithm = if e.hashed_password.len() == 32 { akasa_core::HashAlgorithm::Sha256Pkbdf2 { iterations: it } } else { akasa_core::HashAlgorithm::Sha512Pkbdf2 { iterations: it } };
            } else {
                secrets.insert(u.clone(), p);
            }
            map.insert(u, e);
        }
        let want = of(&map);
        trace.push(format!("store of {:?}", want.keys().collect::<Vec<_>>()));
        match dump(&map) {
            Ok(b) => {
                match load_passwords(&b[..]) {
                    Ok(back) if of(&back) == want => {}
                    Ok(back) => bad("store-not-read-back-as-written", format!("wrote {want:?}\nfile {:?}\nread {:?}", String::from_utf8_lossy(&b), of(&back))),
                    Err(e) => bad("own-file-unreadable", format!("wrote {:?}: {e}", String::from_utf8_lossy(&b))),
                }
                // the documented lines, in any order
                let mut lines: Vec<&str> = std::str::from_utf8(&b).unwrap_or("?").split('\n').filter(|l| !l.is_empty()).collect();
                let mut expect: Vec<String> = map.iter().map(|e| creds::line(e.key(), e.value())).collect();
                lines.sort();
                expect.sort();
                if lines != expect.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
                    bad("file-format", format!("{lines:?} instead of {expect:?}"));
                }
                run.count("stores-written-and-read", 1);
            }
            Err(e) => {
                if !want.keys().any(|u| u.contains('\n')) {
                    bad("store-not-written", format!("{want:?}: {e}"));
                }
                run.count("stores-refused", 1);
            }
        }
        // reading what was written by other hands
        let mut file = String::new();
        let mut expect: Result<Store, String> = Ok(Store::new());
        for _ in 0..rng.range(1, 4) {
            let l = full(&mut rng);
            let l = if rng.chance(2, 5) { wreck(&mut rng, &l) } else { l };
            let l = if rng.chance(1, 8) { String::new() } else { l };
            let l = l.replace('\n', "");
            match (creds::read_line(&l), &mut expect) {
                (Ok(Some((u, f))), Ok(m)) => {
                    m.insert(u, f);
                }
                (Err(()), Ok(_)) => expect = Err(l.clone()),
                _ => {}
            }
            file += &l;
            file += rng.pick(&["\n", "\n", "\n", "\r\n", " \n", "\n\n"]);
        }
        if rng.chance(1, 4) {
            file = file.trim_end_matches('\n').to_string();
        }
        let mut raw = file.clone().into_bytes();
        if rng.chance(1, 12) {
            let at = rng.below(raw.len() + 1);
            raw.insert(at, 0xff);
            expect = Err("not UTF-8".into());
        }
        match (load_passwords(&raw[..]), &expect) {
            (Ok(got), Ok(want)) => {
                if &of(&got) != want {
                    bad("file-read-as-different-entries", format!("{file:?}\nread {:?}", of(&got)));
                }
                run.count("good-files-read", 1);
            }
            (Err(_), Err(_)) => run.count("bad-files-refused", 1),
            (Ok(got), Err(l)) => bad("malformed-line-accepted", format!("{l:?} in {file:?} read as {:?}", of(&got))),
            (Err(e), Ok(_)) => bad("good-file-refused", format!("{file:?}: {e}")),
        }
        trace.push(file);
        // an entry accepts its password and no other
        let usable: Vec<String> = secrets.keys().filter(|u| !u.contains('\0')).cloned().collect();
        if !usable.is_empty() && !want.keys().any(|u| u.contains('\n')) {
            let loaded = dump(&map).ok().and_then(|b| load_passwords(&b[..]).ok());
            let (iss, tried) = case(|| async {
                let mut k = config();
                k.auth = AuthConfig { enable: true, password_file: Some("/nonexistent".into()) };
                let mut w = World::new(k, rng.clone());
                w.rounds = 12;
                if let Some(l) = loaded {
                    std::sync::Arc::get_mut(&mut w.global).unwrap().auth_passwords = l;
                }
                let mut out = vec![];
                let mut tried = 0u64;
                for _ in 0..4 {
                    let u = w.rng.pick(&usable).clone();
                    let (salt, hash) = w.global.auth_passwords.get(&u).map(|e| (e.salt.clone(), e.hashed_password.clone())).unwrap_or_default();
                    let right = secrets[&u].clone();
                    let p = if w.rng.bool() { right.clone() } else { other(&mut w.rng, &right, &salt, &hash) };
                    let padded = p != right && creds::same_key(&p, &right);
                    let ver = *w.rng.pick(&[Ver::V311, Ver::V5]);
                    let mut c = Connect::new(ver, &format!("x{tried}"), true);
                    // control characters are refused by the packet decoder
                    if u.chars().any(|c| c.is_control() || c == '\u{feff}') {
                        continue;
                    }
                    (c.user, c.pass) = (Some(u.clone()), Some(p.clone()));
                    let i = w.connect(c).await;
                    let ok = matches!(w.clis[i].connack, Some((_, 0, _)));
                    tried += 1;
                    if padded {
                        continue;
                    }
                    if ok && p != right {
                        out.push(("wrong-password-accepted", format!("user {u:?} stored {right:02x?} given {p:02x?}")));
                    }
                    if !ok && p == right {
                        out.push(("right-password-refused", format!("user {u:?} password {p:02x?} {:?}", w.clis[i].connack)));
                    }
                }
                (out, tried)
            });
            run.count("passwords-tried-on-the-broker", tried);
            for (s, d) in iss {
                bad(s, d);
            }
        }
        report(run, n, "C21", issues, &trace);
        run.case(true, &trace);
        if n < 2 {
            run.sample(&trace);
        }
    }
}
