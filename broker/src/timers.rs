//! Everything that happens by the clock: session expiry and will delay (C11),
//! keep-alive (C17), the handshake limit (C26). All on virtual time.
use crate::codec::*;
use crate::model::report;
use crate::net::Policy;
use crate::tp::Kind;
use crate::world::*;
use monlib::{Rng, Run};
use std::collections::BTreeMap;
use std::time::Duration;

pub struct T {
    w: World,
    now_ms: u64,
    /// these clients are kept alive by a ping every so often
    pingers: Vec<usize>,
    ping_ms: u64,
    pinged: u64,
    pub stats: BTreeMap<&'static str, u64>,
}

impl T {
    fn new(k: akasa_core::Config, rng: Rng) -> T {
        let mut w = World::new(k, rng);
        w.rounds = 16;
        T { w, now_ms: 0, pingers: vec![], ping_ms: 0, pinged: 0, stats: BTreeMap::new() }
    }
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    async fn tick(&mut self, ms: u64) {
        crate::clock::advance(Duration::from_millis(ms));
        self.now_ms += ms;
        if self.ping_ms > 0 && self.now_ms - self.pinged >= self.ping_ms {
            self.pinged = self.now_ms;
            for i in self.pingers.clone() {
                if i < self.w.clis.len() && self.w.clis[i].live() {
                    self.w.clis[i].ping();
                }
            }
        }
        self.w.settle().await;
    }
    async fn pass(&mut self, ms: u64, step: u64) {
        let mut left = ms;
        while left > 0 {
            let s = left.min(step);
            self.tick(s).await;
            left -= s;
        }
    }
}

// ---------------------------------------------------------------- C11

struct Plan {
    sei: u64,
    delay: Option<u64>,
    will: bool,
}

async fn expiry_case(t: &mut T) {
    let mut c = Connect::new(Ver::V5, "observer", true);
    c.keep_alive = 0xffff;
    let ob = t.w.connect(c).await;
    t.w.clis[ob].subscribe(&vec![], &[("will/#".into(), 1)]);
    t.w.settle().await;
    t.w.clis[ob].take();
    let big = t.w.rng.chance(1, 6);
    t.pingers = (0..64).collect();
    t.ping_ms = 20_000_000;
    // 1 s resolution normally; large intervals are judged at a coarser one
    let (unit, step) = if big { (2000u64, 400_000u64) } else { (1u64, 500u64) };
    let slack = 3 * step + 1500;
    let mut cli: Option<usize> = None;
    // what the broker holds: until when (ms), None: no session
    let mut held: Option<u64> = None;
    let mut serial = 0u32;
    // a will waiting for its delay while the next connection is made
    let mut pending: Option<Vec<u8>> = None;
    let cycles = t.w.rng.range(1, 6);
    for cyc in 0..cycles {
        let sei = *t.w.rng.pick(&[0u64, 4, 10, 20, 45, u32::MAX as u64]);
        let sei = if sei < 1000 { sei * unit } else { sei };
        let plan = Plan { sei, delay: *t.w.rng.pick(&[None, Some(0), Some(3 * unit), Some(8 * unit), Some(30 * unit)]), will: t.w.rng.chance(3, 4) };
        let clean = t.w.rng.chance(1, 6);
        let mut c = Connect::new(Ver::V5, "x", clean);
        c.keep_alive = 0xffff;
        if plan.sei > 0 || t.w.rng.bool() {
            c.props.push((P_SEI, PV::U32(plan.sei as u32)));
        }
        serial += 1;
        let payload = format!("will{serial}").into_bytes();
        if plan.will {
            let mut props = vec![];
            if let Some(d) = plan.delay {
                props.push((P_WDELAY, PV::U32(d as u32)));
            }
            c.will = Some(Will { qos: 1, retain: false, topic: "will/x".into(), payload: payload.clone(), props });
        }
        // connect (the earlier connection is gone or still open)
        let taking = cli.is_some_and(|i| t.w.clis[i].live());
        t.w.log(format!("t={} connects sei {} will {} delay {:?} clean {clean} taking over {taking}", t.now_ms, plan.sei, plan.will, plan.delay));
        let i = t.w.connect(c).await;
        let Some((sp, code, _)) = t.w.clis[i].connack.clone() else {
            t.w.issue("C11", "connect-not-answered", format!("cycle {cyc}"));
            return;
        };
        if code != 0 {
            t.w.issue("C11", "connect-refused", format!("code {code:#x}"));
            return;
        }
        let expect = if taking { Some(true) } else { held.map(|u| if t.now_ms + 1 < u { Some(true) } else if t.now_ms > u + slack { Some(false) } else { None }).unwrap_or(Some(false)) };
        let expect = if clean { Some(false) } else { expect };
        if let Some(p) = pending.take() {
            t.w.settle().await;
            let got: Vec<_> = t.w.clis[ob].take_app().into_iter().filter(|x| x.topic.starts_with("will")).map(|x| x.payload).collect();
            // a clean start ends the session, and with it the delay
            let want = if clean { vec![p] } else { vec![] };
            t.stat("delays-cut-by-a-connect", 1);
            if got != want {
                let sig = if clean { "will-not-published-at-session-end" } else { "will-although-reconnected" };
                t.w.issue("C11 C10", sig, format!("t={} clean {clean}: {} wills", t.now_ms, got.len()));
                return;
            }
        }
        // a connection that keeps nothing ends with its take-over
        if let Some(e) = expect {
            t.stat("resumptions-judged", 1);
            if sp != e && !(taking && held.is_none()) {
                let sig = if sp { "session-outlived-its-expiry" } else { "session-gone-before-its-expiry" };
                t.w.issue("C11", sig, format!("t={} expiry due at {held:?}: session present {sp}", t.now_ms));
                return;
            }
        }
        let subbed = sp;
        if sp {
            // what was sent meanwhile must be there
        }
        if !subbed {
            t.w.clis[i].subscribe(&vec![], &[("q/x".into(), 1)]);
        }
        t.w.settle().await;
        t.w.clis[i].take();
        t.w.clis[i].take_app();
        cli = Some(i);
        // stay for a while; timers of earlier connections may fire meanwhile
        let stay = *t.w.rng.pick(&[0u64, 0, 700, 3000, 12_000, 50_000]) * unit;
        t.pass(stay, step).await;
        if t.w.clis[i].closed() {
            t.w.issue("C11 C17", "open-connection-ended-by-an-old-timer", format!("t={} {:?} disconnect {:?}", t.now_ms, t.w.clis[i].outcome, t.w.clis[i].server_disc));
            return;
        }
        let stray: Vec<_> = t.w.clis[ob].take_app().into_iter().map(|p| String::from_utf8_lossy(&p.payload).into_owned()).collect();
        // wills of taken over connections are judged elsewhere (C10); a will of
        // an earlier connection that ended was judged at its own end
        let stray: Vec<_> = stray.into_iter().filter(|p| !taking || *p == format!("will{serial}")).collect();
        if !stray.is_empty() {
            t.w.issue("C11 C10", "will-although-reconnected", format!("t={}: {stray:?}", t.now_ms));
            return;
        }
        t.w.clis[i].take_app();
        // still served?
        let pid = t.w.clis[ob].pid();
        t.w.clis[ob].publish(&Pub { qos: 1, topic: "q/x".into(), pid, payload: b"alive".to_vec(), ..Pub::default() });
        t.w.settle().await;
        if t.w.clis[i].take_app().len() != 1 {
            t.w.issue("C11", "subscription-of-open-session-lost", format!("t={}", t.now_ms));
            return;
        }
        // how it ends
        let mut sei = plan.sei;
        let mut will = plan.will;
        match t.w.rng.below(5) {
            0 => {
                let pr = if plan.sei > 0 && t.w.rng.bool() {
                    sei = *t.w.rng.pick(&[0, 6 * unit, 15 * unit]);
                    vec![(P_SEI, PV::U32(sei as u32))]
                } else {
                    vec![]
                };
                t.w.log(format!("t={} normal disconnect {pr:?}", t.now_ms));
                t.w.clis[i].disconnect(0, &pr);
                will = false;
            }
            1 => {
                t.w.log(format!("t={} disconnect with will", t.now_ms));
                t.w.clis[i].disconnect(4, &vec![]);
            }
            2 if cyc + 1 < cycles => {
                // the next connection takes over
                held = if sei > 0 { Some(u64::MAX) } else { None };
                continue;
            }
            n => {
                t.w.log(format!("t={} connection lost", t.now_ms));
                t.w.clis[i].drop_conn(n == 3);
            }
        }
        t.w.settle().await;
        let end = t.now_ms;
        held = if sei == u32::MAX as u64 { Some(u64::MAX - 10_000_000_000) } else if sei > 0 { Some(end + sei * 1000) } else { None };
        let due = if will { Some(end + plan.delay.unwrap_or(0).min(sei) * 1000) } else { None };
        // queued meanwhile
        let pid = t.w.clis[ob].pid();
        t.w.clis[ob].publish(&Pub { qos: 1, topic: "q/x".into(), pid, payload: b"queued".to_vec(), ..Pub::default() });
        t.w.settle().await;
        // wait: sometimes short of a deadline, sometimes far beyond
        let mut marks: Vec<u64> = vec![end, end + 60_000 * unit];
        for d in [due, held].into_iter().flatten().filter(|d| *d < end + 10_000_000 * unit) {
            marks.push(d.saturating_sub(2 * step + 600));
            marks.push(d.saturating_sub(step / 2 + 300));
            marks.push(d + slack + 100);
        }
        let until = (*t.w.rng.pick(&marks)).max(end);
        let mut seen: Option<u64> = None;
        let mut died: Option<u64> = None;
        while t.now_ms < until {
            let s = step.min(until - t.now_ms);
            t.tick(s).await;
            for p in t.w.clis[ob].take_app() {
                if p.payload == payload {
                    if seen.is_some() {
                        t.w.issue("C11 C10", "will-published-twice", format!("t={}", t.now_ms));
                    }
                    seen = Some(t.now_ms);
                } else if p.topic.starts_with("will") {
                    t.w.issue("C11 C10", "will-of-another-connection", format!("t={} {:?}", t.now_ms, String::from_utf8_lossy(&p.payload)));
                }
            }
            if died.is_none() && t.w.counts().1 < 2 {
                died = Some(t.now_ms);
            }
            t.w.clis[ob].take();
        }
        // the will may be out at once
        for p in t.w.clis[ob].take_app() {
            if p.payload == payload {
                seen = seen.or(Some(t.now_ms));
            }
        }
        t.stat("ends-watched", 1);
        t.w.log(format!("t={} waited; will due {due:?} seen {seen:?}; session due {held:?} gone {died:?}", t.now_ms));
        match (due, seen) {
            (None, Some(_)) => t.w.issue("C11 C10", "will-not-due-published", format!("ended {end}, seen {seen:?}")),
            (Some(d), Some(s)) if s + 10 < d => t.w.issue("C11", "will-before-its-delay", format!("ended {end}, due {d}, seen {s}")),
            (Some(d), Some(s)) if s > d + slack => t.w.issue("C11", "will-late", format!("ended {end}, due {d}, seen {s}")),
            (Some(d), None) if t.now_ms > d + slack => t.w.issue("C11 C10", "will-never-published", format!("ended {end}, due {d}, now {}", t.now_ms)),
            (Some(_), Some(_)) => t.stat("delayed-wills-seen", 1),
            _ => {}
        }
        match (held, died) {
            (Some(h), Some(d)) if d + 10 < h => t.w.issue("C11", "session-gone-before-its-expiry", format!("ended {end}, due {h}, gone at {d}")),
            (Some(h), None) if t.now_ms > h + slack => t.w.issue("C11 C23", "session-outlived-its-expiry", format!("ended {end}, due {h}, now {}", t.now_ms)),
            (None, None) if t.now_ms > end + slack => t.w.issue("C11 C23", "session-kept-without-expiry", format!("ended {end}, now {}", t.now_ms)),
            (Some(_), Some(_)) => t.stat("expiries-seen", 1),
            _ => {}
        }
        // a pending will of a client that now comes back must not appear; the
        // exception is a clean start, which ends the session and with it the delay
        if due.is_some() && seen.is_none() && t.w.rng.chance(2, 3) && cyc + 1 < cycles && t.now_ms + 1 < held.unwrap_or(0) && due.unwrap() > t.now_ms + 1 {
            // the timers of this connection run on
            pending = Some(payload);
        } else if due.is_some() && seen.is_none() {
            t.stat("wills-cancelled-by-reconnect", 1);
            // come back now, unclean
            if t.now_ms + 1 < held.unwrap_or(0) && due.unwrap() > t.now_ms + 1 {
                let mut c = Connect::new(Ver::V5, "x", false);
                c.keep_alive = 0xffff;
                c.props.push((P_SEI, PV::U32(100_000_000)));
                let j = t.w.connect(c).await;
                let sp = t.w.clis[j].connack.as_ref().map(|c| c.0);
                if sp != Some(true) {
                    t.w.issue("C11", "session-gone-before-its-expiry", format!("t={} due {held:?}: {sp:?}", t.now_ms));
                    return;
                }
                let got = t.w.clis[j].take_app();
                if got.iter().filter(|p| p.payload == b"queued").count() != 1 {
                    t.w.issue("C11 C03", "queued-message-lost", format!("t={}: {got:?}", t.now_ms));
                }
                t.pass((due.unwrap() - t.now_ms) + slack, step.max((due.unwrap() - t.now_ms) / 50)).await;
                let w: Vec<_> = t.w.clis[ob].take_app();
                if w.iter().any(|p| p.payload == payload) {
                    t.w.issue("C11 C10", "will-although-reconnected", format!("t={} due {due:?}", t.now_ms));
                }
                if t.w.clis[j].closed() || t.w.counts().1 != 2 {
                    t.w.issue("C11", "reconnect-did-not-cancel-the-expiry", format!("t={} {:?}", t.now_ms, t.w.counts()));
                    return;
                }
                cli = Some(j);
                held = Some(u64::MAX);
            } else {
                return;
            }
        }
        if !t.w.issues.is_empty() {
            return;
        }
    }
}

// ---------------------------------------------------------------- C17

async fn keepalive_case(t: &mut T) {
    let mut subs = vec![];
    let n = t.w.rng.range(2, 5);
    let mut c = Connect::new(Ver::V5, "observer", true);
    c.keep_alive = 0xffff;
    let ob = t.w.connect(c).await;
    t.w.clis[ob].subscribe(&vec![], &[("gone/#".into(), 0)]);
    t.w.settle().await;
    t.pingers = vec![ob];
    t.ping_ms = 4000;
    struct K {
        name: String,
        ver: Ver,
        ka: u64,
        cli: usize,
        /// None: lively
        silent: bool,
        opened: u64,
        last: u64,
        next: u64,
        done: bool,
        reopen: Option<u64>,
        gap: u64,
        owed: Option<u64>,
    }
    let mut ks: Vec<K> = vec![];
    for i in 0..n {
        let ver = *t.w.rng.pick(&[Ver::V31, Ver::V311, Ver::V5, Ver::V5]);
        let ka = *t.w.rng.pick(&[0u64, 1, 2, 3, 5, 10, 12, 20, 40]);
        ks.push(K { name: format!("k{i}"), ver, ka, cli: 0, silent: t.w.rng.chance(2, 5), opened: 0, last: 0, next: 0, done: false, reopen: None, gap: 0, owed: None });
    }
    async fn open(t: &mut T, k: &mut K) {
        let mut c = Connect::new(k.ver, &k.name, !t.w.rng.chance(1, 2));
        c.keep_alive = k.ka as u16;
        if k.ver.v5() {
            c.props.push((P_SEI, PV::U32(10_000)));
        }
        c.will = Some(Will { qos: 0, retain: false, topic: format!("gone/{}", k.name), payload: vec![], props: vec![] });
        let cli = t.w.connect(c).await;
        k.cli = cli;
        k.done = false;
        k.opened = t.now_ms;
        k.last = t.now_ms;
        match t.w.clis[cli].connack.clone() {
            Some((_, 0, pr)) => {
                if let Some(s) = u32p(&pr, P_SKA) {
                    k.ka = s as u64;
                }
            }
            o => t.w.issue("C17 C09", "connect-refused", format!("{}: {o:?}", k.name)),
        }
        k.gap = if k.ka == 0 { 100_000 } else { k.ka * 1000 };
        let first = t.w.rng.below(3) as u64;
        k.next = t.now_ms + k.gap * first / 2;
        t.w.log(format!("t={} {} {:?} open, keep-alive {} silent {}", t.now_ms, k.name, k.ver, k.ka, k.silent));
    }
    for k in &mut ks {
        open(t, k).await;
        subs.push(k.name.clone());
    }
    let end = *t.w.rng.pick(&[60_000u64, 200_000, 400_000]);
    let step = 250;
    let hooked = t.w.global.config.hook.enable_publish;
    // a hook at work on a client's packet: who, until when
    let mut slow: Option<(String, u64)> = None;
    while t.now_ms < end && t.w.issues.is_empty() {
        if slow.as_ref().is_some_and(|s| t.now_ms >= s.1) {
            slow = None;
            t.w.hook.open_gate();
        }
        t.tick(step).await;
        let gone: Vec<String> = t.w.clis[ob].take_app().into_iter().map(|p| p.topic).collect();
        for k in &mut ks {
            if gone.contains(&format!("gone/{}", k.name)) {
                k.owed = None;
            }
            if k.owed.is_some_and(|o| t.now_ms > o) {
                k.owed = None;
                t.w.issue("C17 C10", "no-will-of-a-removed-client", k.name.clone());
            }
            let closed = t.w.clis[k.cli].closed();
            if closed && !k.done {
                k.done = true;
                let idle = t.now_ms - k.last;
                t.w.log(format!("t={} {} closed, {idle} ms after its last packet, disconnect {:?}", t.now_ms, k.name, t.w.clis[k.cli].server_disc));
                if k.ka == 0 {
                    t.w.issue("C17", "closed-with-keep-alive-zero", format!("{} after {idle} ms", k.name));
                } else if !k.silent {
                    t.w.issue("C17", "lively-client-disconnected", format!("{} keep-alive {} s, last packet {idle} ms ago, open for {} ms", k.name, k.ka, t.now_ms - k.opened));
                } else if idle + step + 10 < k.ka * 1500 {
                    t.w.issue("C17", "disconnected-too-early", format!("{} keep-alive {} s, last packet {idle} ms ago", k.name, k.ka));
                } else {
                    t.stat("silent-clients-removed", 1);
                    if !gone.contains(&format!("gone/{}", k.name)) {
                        k.owed = Some(t.now_ms + 2000);
                    }
                    if t.w.rng.bool() {
                        k.reopen = Some(t.now_ms + t.w.rng.below(8000) as u64);
                    }
                }
            } else if !closed && k.silent && k.ka > 0 && t.now_ms - k.last > k.ka * 3000 + 1500 {
                t.w.issue("C17", "silent-client-never-removed", format!("{} keep-alive {} s, last packet {} ms ago", k.name, k.ka, t.now_ms - k.last));
            }
            if k.done {
                if k.reopen.is_some_and(|r| t.now_ms >= r) {
                    k.reopen = None;
                    k.silent = t.w.rng.bool();
                    t.stat("reopened", 1);
                    open(t, k).await;
                }
                continue;
            }
            if !k.silent && t.now_ms >= k.next {
                // never more than one interval between two packets
                let cli = k.cli;
                let kind = t.w.rng.below(5);
                let wait = hooked && kind >= 2 && slow.is_none() && k.ka >= 2 && t.w.rng.bool();
                if wait {
                    let until = t.now_ms + k.gap * t.w.rng.range(50, 84) as u64 / 100;
                    t.w.log(format!("t={} the hook takes until {until} over a packet of {}", t.now_ms, k.name));
                    let mut h = t.w.hook.st();
                    h.only = Some(k.name.clone());
                    h.gate_in = Some(0);
                    slow = Some((k.name.clone(), until));
                    drop(h);
                    t.stat("slow-hooks", 1);
                }
                match kind {
                    0 | 1 => t.w.clis[cli].ping(),
                    2 => t.w.clis[cli].publish(&Pub { topic: "x/y".into(), payload: b"1".to_vec(), ..Pub::default() }),
                    3 => {
                        t.w.clis[cli].subscribe(&vec![], &[("a/b".into(), 0)]);
                    }
                    _ => {
                        let pid = t.w.clis[cli].pid();
                        t.w.clis[cli].publish(&Pub { qos: 1, topic: "x/z".into(), pid, payload: b"1".to_vec(), ..Pub::default() });
                    }
                }
                k.last = t.now_ms;
                t.stat("packets-in-time", 1);
                let f = if wait { 98 } else { *t.w.rng.pick(&[50u64, 90, 98, 98, 98]) };
                k.next = t.now_ms + (k.gap * f / 100).saturating_sub(step).max(1);
            }
            if !k.silent && t.w.rng.chance(1, 300) && slow.as_ref().is_none_or(|s| s.0 != k.name) {
                // once in a while the client comes again, or falls silent
                if t.w.rng.bool() {
                    t.stat("taken-over", 1);
                    if t.w.rng.bool() {
                        t.w.clis[k.cli].drop_conn(true);
                        t.w.settle().await;
                        let d = t.w.rng.below(20_000) as u64;
                        k.done = true;
                        k.reopen = Some(t.now_ms + d);
                    } else {
                        open(t, k).await;
                    }
                } else {
                    k.silent = true;
                    t.w.log(format!("t={} {} falls silent", t.now_ms, k.name));
                }
            }
        }
    }
    if slow.is_some() {
        t.w.hook.open_gate();
    }
    t.stat("clients-watched", n as u64);
}

// ---------------------------------------------------------------- C26

async fn handshake_case(t: &mut T) {
    if t.w.rng.chance(1, 3) {
        t.w.policy = Policy { read_chunk: 9, pending: 4, ..Policy::default() };
    }
    t.w.tls = Some(crate::tls::pair());
    let n = t.w.rng.range(1, 5);
    struct H {
        cli: usize,
        kind: Kind,
        bytes: Vec<u8>,
        at: usize,
        finish: Option<u64>,
        end_at: usize,
        opened: u64,
        closed: Option<u64>,
        accepted: Option<u64>,
        v5auth: bool,
        ver: Ver,
        fin_bytes_ms: Option<u64>,
    }
    let mut hs: Vec<H> = vec![];
    let mut gaps: Vec<u64> = vec![];
    for i in 0..n {
        let kind = *t.w.rng.pick(&[Kind::Plain, Kind::Plain, Kind::Ws, Kind::Tls, Kind::Wss]);
        let ver = *t.w.rng.pick(&[Ver::V31, Ver::V311, Ver::V5]);
        let mut c = Connect::new(ver, &format!("h{i}"), true);
        c.keep_alive = 0xffff;
        if t.w.rng.chance(1, 4) {
            c.id = format!("h{i}-{}", "x".repeat(300));
        }
        let v5auth = ver.v5() && t.w.rng.chance(1, 5);
        if v5auth {
            c.props.push((P_AMETH, PV::Str("SCRAM-SHA-256".into())));
            c.props.push((P_ADATA, PV::Bin(b"n,,n=user,r=abcdefgh".to_vec())));
        }
        let mut bytes = connect(&c);
        bytes.extend([0xc0, 0]);
        let clen = bytes.len() - 2;
        // finish after this long, or never
        let finish = if t.w.rng.bool() { Some(*t.w.rng.pick(&[0u64, 1000, 3000, 4500])) } else { None };
        let end_at = if finish.is_some() { clen } else { t.w.rng.below(clen) };
        let slow = t.w.rng.bool();
        gaps.push(if slow { *t.w.rng.pick(&[50u64, 300, 900]) } else { 0 });
        let cli = if finish == Some(0) || t.w.rng.chance(1, 2) || kind == Kind::Plain { t.w.open_raw(ver, kind) } else { t.w.open_raw(ver, kind) };
        hs.push(H { cli, kind, bytes, at: 0, finish, end_at, opened: t.now_ms, closed: None, accepted: None, v5auth, ver, fin_bytes_ms: None });
        t.w.log(format!("h{i} {kind:?} {ver:?} auth {v5auth}: {end_at} of {clen} bytes, finishing {finish:?}, slow {slow}"));
    }
    let step = 100;
    while t.now_ms < 70_000 && t.w.issues.is_empty() {
        for (k, h) in hs.iter_mut().enumerate() {
            let age = t.now_ms - h.opened;
            if h.closed.is_some() || h.at >= h.end_at {
                continue;
            }
            // dribble
            let want = match h.finish {
                Some(f) => {
                    if age >= f {
                        h.end_at
                    } else if gaps[k] > 0 {
                        h.at + 1
                    } else {
                        h.at
                    }
                }
                None => {
                    if gaps[k] == 0 {
                        h.end_at
                    } else if age % gaps[k] < step {
                        h.at + 1
                    } else {
                        h.at
                    }
                }
            };
            let want = want.min(h.end_at);
            if want > h.at {
                let b = h.bytes[h.at..want].to_vec();
                t.w.clis[h.cli].send(&b);
                h.at = want;
            }
            if h.at == h.end_at && h.finish.is_some() {
                h.fin_bytes_ms.get_or_insert(age);
            }
        }
        t.tick(step).await;
        for (k, h) in hs.iter_mut().enumerate() {
            let age = t.now_ms - h.opened;
            for p in t.w.clis[h.cli].take() {
                if let S::Connack { code: 0, .. } = p {
                    h.accepted.get_or_insert(age);
                }
            }
            if t.w.clis[h.cli].closed() && h.closed.is_none() {
                h.closed = Some(age);
                t.w.clis[h.cli].end.eof();
                let done = h.finish.is_some() && !h.v5auth;
                if h.accepted.is_some() {
                    t.w.issue("C26", "finished-handshake-cut-off", format!("h{k} {:?} {:?}: accepted at {:?} ms, closed at {age} ms", h.kind, h.ver, h.accepted));
                } else if done {
                    t.w.issue("C26", "finished-handshake-refused", format!("h{k} {:?} {:?}: CONNECT complete at {:?} ms, closed at {age} ms", h.kind, h.ver, h.fin_bytes_ms));
                } else if age < 4500 {
                    t.w.issue("C26", "cut-off-too-early", format!("h{k} {:?} {:?}: at {age} ms", h.kind, h.ver));
                } else {
                    t.stat("handshakes-cut-off", 1);
                }
            }
            if h.accepted.is_none() && h.closed.is_none() && age > 8000 {
                t.w.issue("C26", "unfinished-handshake-stays", format!("h{k} {:?} {:?} auth {}: {} of {} bytes sent, {age} ms", h.kind, h.ver, h.v5auth, h.at, h.bytes.len() - 2));
            }
        }
    }
    let up = hs.iter().filter(|h| h.accepted.is_some()).count();
    t.stat("handshakes-finished", up as u64);
    if t.w.issues.is_empty() && t.w.counts() != (up as u64, up) {
        let c = t.w.counts();
        t.w.issue("C26 C23", "unfinished-handshake-leaves-a-client", format!("{c:?}, {up} accepted"));
    }
    // the finished ones are served
    for h in &hs {
        if h.accepted.is_some() {
            t.w.clis[h.cli].ping();
            t.w.settle().await;
            if !t.w.clis[h.cli].take().iter().any(|p| *p == S::Pingresp) {
                t.w.issue("C26", "finished-handshake-not-served", format!("{:?} {:?}", h.kind, h.ver));
            }
        }
    }
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats) = case(|| async {
            let mut k = config();
            let mut rng = Rng::fork(run.seed, n ^ 0x9191);
            match prop.as_str() {
                "C17" => {
                    k.min_keep_alive = *rng.pick(&[0, 1, 10]);
                    k.max_keep_alive = *rng.pick(&[15, u16::MAX]);
                    if rng.bool() {
                        k.hook.enable_publish = true;
                        k.hook.enable_subscribe = true;
                    }
                }
                "C26" => k.hook.enable_before_connect = rng.bool(),
                _ => {}
            }
            let mut t = T::new(k, rng);
            match prop.as_str() {
                "C11" => expiry_case(&mut t).await,
                "C17" => keepalive_case(&mut t).await,
                _ => handshake_case(&mut t).await,
            }
            (t.w.issues.clone(), t.w.trace.clone(), t.stats.clone())
        });
        report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.case(!trace.is_empty(), &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}
