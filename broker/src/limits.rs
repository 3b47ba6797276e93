//! Sizes, aliases and announced capabilities (C15, C16, C30).
use crate::codec::*;
use crate::model::report;
use crate::net::Policy;
use crate::tp::Kind;
use crate::world::*;
use akasa_core::Config;
use monlib::{Rng, Run};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

pub struct L {
    w: World,
    k: Config,
    serial: u32,
    pub stats: BTreeMap<&'static str, u64>,
}

impl L {
    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    fn serial(&mut self) -> Vec<u8> {
        self.serial += 1;
        format!("m{:06}", self.serial).into_bytes()
    }
    /// Accepted, or an issue.
    async fn up(&mut self, c: Connect) -> Option<usize> {
        let i = self.w.connect(c).await;
        match self.w.clis[i].connack.clone() {
            Some((_, 0, _)) => Some(i),
            o => {
                let id = self.w.clis[i].id.clone();
                self.w.issue("C30 C15 C16", "ordinary-connect-refused", format!("{id}: {o:?}"));
                None
            }
        }
    }
    async fn watcher(&mut self) -> Option<usize> {
        let mut c = Connect::new(Ver::V5, "watcher", true);
        c.keep_alive = 0xffff;
        let i = self.up(c).await?;
        self.w.clis[i].subscribe(&vec![], &[("t/#".into(), 0), ("u/+/a".into(), 0), ("plain".into(), 0)]);
        self.w.settle().await;
        self.w.clis[i].take();
        Some(i)
    }
}

fn head(p: &[u8]) -> String {
    String::from_utf8_lossy(&p[..p.len().min(7)]).into_owned()
}

fn filler(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
}

/// Message properties of random size.
fn msg_props(rng: &mut Rng) -> Props {
    let mut p: Props = vec![];
    if rng.chance(1, 4) {
        p.push((P_PFI, PV::U8(1)));
    }
    if rng.chance(1, 5) {
        p.push((P_EXPIRY, PV::U32(100_000)));
    }
    if rng.chance(1, 4) {
        let n = rng.below(20);
        p.push((P_CTYPE, PV::Str(filler(rng, n))));
    }
    if rng.chance(1, 5) {
        let n = rng.range(1, 12);
        p.push((P_RTOPIC, PV::Str(filler(rng, n))));
    }
    if rng.chance(1, 5) {
        let n = rng.below(16);
        p.push((P_CORR, PV::Bin(rng.bytes(n))));
    }
    for _ in 0..*rng.pick(&[0, 0, 1, 2, 3]) {
        let (a, b) = (rng.below(6), rng.below(9));
        p.push((P_USER, PV::Pair(filler(rng, a), filler(rng, b))));
    }
    p
}

// ---------------------------------------------------------------- C15

struct Recv {
    name: String,
    cli: usize,
    ver: Ver,
    max: usize,
    alias: u16,
    qos: u8,
    rap: bool,
    subid: Option<u32>,
    keep: bool,
    /// queued while away: (head, size as delivered)
    queue: Vec<(String, usize)>,
    on: bool,
}

impl Recv {
    fn connect(&self, clean: bool) -> Connect {
        let mut c = Connect::new(self.ver, &self.name, clean);
        c.keep_alive = 0xffff;
        if self.ver.v5() {
            if self.max < usize::MAX {
                c.props.push((P_MPS, PV::U32(self.max as u32)));
            }
            if self.alias > 0 {
                c.props.push((P_TAMAX, PV::U16(self.alias)));
            }
            if self.keep {
                c.props.push((P_SEI, PV::U32(100_000)));
            }
            c.props.push((P_RMAX, PV::U16(200)));
        }
        c
    }
    fn size(&self, m: &Pub, retained: bool) -> usize {
        let mut p = m.clone();
        p.qos = m.qos.min(self.qos);
        p.pid = 1;
        // a byte of the fixed header either way
        p.retain = retained || (m.retain && self.rap);
        if let Some(s) = self.subid {
            p.props.push((P_SUBID, PV::Var(s)));
        }
        publish(self.ver, &p).len()
    }
}

async fn size_case(l: &mut L) {
    let server = l.k.max_packet_size_server as usize;
    let Some(ob) = l.watcher().await else { return };
    let n = l.w.rng.range(1, 4);
    let mut rs: Vec<Recv> = vec![];
    for i in 0..n {
        let ver = *l.w.rng.pick(&[Ver::V5, Ver::V5, Ver::V5, Ver::V311]);
        let max = if ver.v5() { *l.w.rng.pick(&[24, 30, 45, 64, 90, 128, 129, 131, 150, 200, usize::MAX]) } else { usize::MAX };
        let r = Recv {
            name: format!("r{i}"),
            cli: 0,
            ver,
            max,
            alias: if ver.v5() { *l.w.rng.pick(&[0, 0, 0, 1, 5]) } else { 0 },
            qos: l.w.rng.below(3) as u8,
            rap: ver.v5() && l.w.rng.bool(),
            subid: if ver.v5() && l.w.rng.chance(1, 3) { Some(*l.w.rng.pick(&[1, 127, 128, 20_000])) } else { None },
            keep: l.w.rng.bool(),
            queue: vec![],
            on: true,
        };
        rs.push(r);
    }
    for r in &mut rs {
        let c = r.connect(!r.keep && !r.ver.v5());
        let Some(i) = l.up(c).await else { return };
        r.cli = i;
        let pr = r.subid.map(|s| vec![(P_SUBID, PV::Var(s))]).unwrap_or_default();
        l.w.clis[i].subscribe(&pr, &[("t/#".into(), r.qos | if r.rap { 8 } else { 0 })]);
        let s = format!("{} {:?} max {} alias {} qos {} subid {:?} keep {}", r.name, r.ver, r.max, r.alias, r.qos, r.subid, r.keep);
        l.w.log(s);
    }
    l.w.settle().await;
    for r in &rs {
        l.w.clis[r.cli].take();
    }
    let mut snd = None;
    let mut sver = Ver::V5;
    // retained per topic
    let mut kept: BTreeMap<String, Pub> = BTreeMap::new();
    for op in 0..l.w.rng.range(6, 26) {
        if !l.w.issues.is_empty() {
            return;
        }
        let s = match snd {
            Some(s) => s,
            None => {
                sver = *l.w.rng.pick(&[Ver::V5, Ver::V5, Ver::V311, Ver::V31]);
                let mut c = Connect::new(sver, &format!("s{op}"), true);
                c.keep_alive = 0xffff;
                let Some(i) = l.up(c).await else { return };
                snd = Some(i);
                i
            }
        };
        let x = l.w.rng.below(100);
        if x < 62 {
            // a publish whose size is near the limit of some receiver, or of the broker
            let payload = l.serial();
            let tl = *l.w.rng.pick(&[1, 1, 3, 10, 30, 60]);
            let topic = format!("t/{}", filler(&mut l.w.rng, tl));
            let mut m = Pub { qos: l.w.rng.below(3) as u8, retain: l.w.rng.chance(1, 5), topic, pid: 1, payload, ..Pub::default() };
            if sver.v5() && l.w.rng.chance(2, 3) {
                m.props = msg_props(&mut l.w.rng);
            }
            let k = l.w.rng.below(rs.len());
            let d = l.w.rng.range(0, 6);
            let target = if server < 10_000 && l.w.rng.chance(1, 3) {
                server.saturating_sub(publish(sver, &m).len()) + d
            } else if rs[k].max < usize::MAX {
                rs[k].max.saturating_sub(rs[k].size(&m, false)) + d
            } else {
                d + l.w.rng.below(300)
            };
            let pad = filler(&mut l.w.rng, target.saturating_sub(3));
            m.payload.extend(pad.bytes());
            let will = op % 7 == 3 && sver.v5() && l.w.rng.bool();
            if will {
                // the same message as a will
                let mut c = Connect::new(sver, &format!("w{op}"), true);
                c.will = Some(Will { qos: m.qos, retain: m.retain, topic: m.topic.clone(), payload: m.payload.clone(), props: m.props.clone() });
                // there is no error for a will that is too large
                if server < 10_000 {
                    continue;
                }
                let Some(i) = l.up(c).await else { return };
                l.w.clis[i].drop_conn(true);
                l.w.log(format!("will {} qos {} retain {}", head(&m.payload), m.qos, m.retain));
                l.stat("wills", 1);
            } else {
                m.pid = l.w.clis[s].pid();
                l.w.clis[s].publish(&m);
                l.w.log(format!("{sver:?} publishes {} {} qos {} retain {} props {} in {} bytes", head(&m.payload), m.topic.len(), m.qos, m.retain, m.props.len(), publish(sver, &m).len()));
            }
            l.w.settle().await;
            let sent = if will { 0 } else { publish(sver, &m).len() };
            let refused = sent > server;
            if refused {
                l.stat("client-packets-over-the-limit", 1);
                if !l.w.clis[s].closed() {
                    l.w.issue("C15", "oversized-packet-accepted", format!("{sent} bytes, maximum {server}"));
                }
                if sver.v5() && l.w.clis[s].server_disc != Some(0x95) {
                    let d = l.w.clis[s].server_disc;
                    l.w.issue("C15", "oversized-packet-without-error", format!("disconnect code {d:x?}"));
                }
                snd = None;
            } else if !will {
                if l.w.clis[s].closed() {
                    let d = l.w.clis[s].server_disc;
                    l.w.issue("C15", "packet-within-the-limit-refused", format!("{sent} bytes, maximum {server}, disconnect {d:x?}"));
                    return;
                }
                let got = l.w.clis[s].take();
                let acks = got.iter().filter(|p| matches!(p, S::Puback { .. } | S::Pubrec { .. })).count();
                if acks != (m.qos > 0) as usize {
                    l.w.issue("C15", "publish-not-acknowledged", format!("{got:?}"));
                }
                if m.qos == 2 {
                    l.w.clis[s].ack(6, m.pid);
                    l.w.settle().await;
                    l.w.clis[s].take();
                }
            }
            let h = head(&m.payload);
            let seen = l.w.clis[ob].take_app();
            if seen.iter().filter(|p| p.payload == m.payload).count() != !refused as usize || seen.len() != !refused as usize {
                l.w.issue("C15 C01", "observer-without-limit-disturbed", format!("{h}: refused {refused}, received {}", seen.len()));
            }
            if !refused && m.retain {
                kept.insert(m.topic.clone(), m.clone());
            }
            for k in 0..rs.len() {
                if !rs[k].on {
                    if rs[k].keep && !refused && m.qos.min(rs[k].qos) > 0 {
                        let z = rs[k].size(&m, false);
                        rs[k].queue.push((h.clone(), z));
                    }
                    continue;
                }
                let r = &rs[k];
                let got = l.w.clis[r.cli].take_app();
                l.w.clis[r.cli].take();
                let size = r.size(&m, false);
                if l.w.clis[r.cli].closed() {
                    l.w.issue("C15", "receiver-disturbed", format!("{}: closed on {h} of {size} bytes", r.name));
                    continue;
                }
                let n = got.iter().filter(|p| p.payload == m.payload).count();
                if n > 1 || got.len() != n || (refused && n > 0) {
                    l.w.issue("C15 C01", "unexpected-delivery", format!("{}: {n} of {} for {h}", r.name, got.len()));
                } else if n == 0 && !refused && size <= r.max {
                    l.w.issue("C15", "message-within-the-limit-withheld", format!("{}: {h} takes {size} bytes, maximum {}", r.name, r.max));
                }
                if refused {
                } else if n == 0 {
                    l.stat("messages-withheld", 1);
                } else {
                    l.stat("messages-delivered", 1);
                    if r.max < usize::MAX && size + 3 > r.max {
                        l.stat("delivered-within-3-bytes-of-the-limit", 1);
                    }
                }
            }
        } else if x < 72 {
            // another kind of client packet near the broker's limit
            let tl = if server < 10_000 { server.saturating_sub(10) + l.w.rng.below(8) } else { l.w.rng.below(300) };
            let f = format!("t/{}", filler(&mut l.w.rng, tl));
            let un = l.w.rng.bool();
            let pid = l.w.clis[s].pid();
            let b = if un { unsubscribe(sver, pid, &[f]) } else { subscribe(sver, pid, &vec![], &[(f, 0)]) };
            l.w.clis[s].send(&b);
            l.w.log(format!("{sver:?} {} in {} bytes", if un { "unsubscribes" } else { "subscribes" }, b.len()));
            l.w.settle().await;
            let over = b.len() > server;
            if over != l.w.clis[s].closed() {
                let d = l.w.clis[s].server_disc;
                l.w.issue("C15", if over { "oversized-packet-accepted" } else { "packet-within-the-limit-refused" }, format!("{} bytes, maximum {server}, disconnect {d:x?}", b.len()));
            }
            if over {
                l.stat("client-packets-over-the-limit", 1);
                snd = None;
            } else {
                let ok = l.w.clis[s].take().iter().any(|p| matches!(p, S::Suback { pid: q, .. } | S::Unsuback { pid: q, .. } if *q == pid));
                if !ok {
                    l.w.issue("C15", "request-not-answered", format!("{} bytes", b.len()));
                }
            }
        } else if x < 84 {
            // a receiver goes or comes back, possibly with another limit
            let k = l.w.rng.below(rs.len());
            if rs[k].on {
                rs[k].on = false;
                let i = rs[k].cli;
                if l.w.rng.bool() {
                    l.w.clis[i].drop_conn(false);
                } else {
                    l.w.clis[i].disconnect(0, &vec![]);
                }
                l.w.settle().await;
                l.w.log(format!("{} leaves", rs[k].name));
            } else {
                if rs[k].ver.v5() && l.w.rng.bool() {
                    rs[k].max = *l.w.rng.pick(&[24, 30, 45, 64, 90, 128, 129, 131, 150, 200, usize::MAX]);
                }
                rs[k].on = true;
                let i = rs[k].cli;
                let c = rs[k].connect(!rs[k].keep && !rs[k].ver.v5());
                l.w.log(format!("{} is back, max {}", rs[k].name, rs[k].max));
                l.w.reopen(i, c);
                l.w.settle().await;
                let sp = l.w.clis[i].connack.as_ref().map(|c| c.0);
                if sp != Some(rs[k].keep) {
                    l.w.issue("C15 C07", "session-lost", format!("{}: {sp:?}", rs[k].name));
                    return;
                }
                let got: Vec<String> = l.w.clis[i].take_app().iter().map(|p| head(&p.payload)).collect();
                let q = std::mem::take(&mut rs[k].queue);
                for (h, z) in &q {
                    let n = got.iter().filter(|g| *g == h).count();
                    if n == 0 && *z <= rs[k].max {
                        l.w.issue("C15", "queued-message-within-the-limit-withheld", format!("{}: {h} takes {z} bytes, maximum {}", rs[k].name, rs[k].max));
                    }
                    l.stat(if n > 0 { "queued-delivered" } else { "queued-withheld" }, 1);
                }
                if got.iter().any(|g| !q.iter().any(|(h, _)| h == g)) {
                    l.w.issue("C15 C03", "unexpected-delivery", format!("{}: {got:?}", rs[k].name));
                }
                if !rs[k].keep {
                    let pr = rs[k].subid.map(|s| vec![(P_SUBID, PV::Var(s))]).unwrap_or_default();
                    let o = rs[k].qos | if rs[k].rap { 8 } else { 0 } | if rs[k].ver.v5() { 0x20 } else { 0 };
                    l.w.clis[i].subscribe(&pr, &[("t/#".into(), o)]);
                    l.w.settle().await;
                    l.w.clis[i].take();
                    l.w.clis[i].take_app();
                }
            }
        } else if x < 93 {
            // retained messages on a new subscription
            let k = l.w.rng.below(rs.len());
            if !rs[k].on {
                continue;
            }
            let i = rs[k].cli;
            let pr = rs[k].subid.map(|s| vec![(P_SUBID, PV::Var(s))]).unwrap_or_default();
            l.w.clis[i].subscribe(&pr, &[("t/#".into(), rs[k].qos | if rs[k].rap { 8 } else { 0 })]);
            l.w.log(format!("{} subscribes again, {} retained", rs[k].name, kept.len()));
            l.w.settle().await;
            let got = l.w.clis[i].take_app();
            l.w.clis[i].take();
            for m in kept.values() {
                let z = rs[k].size(m, true);
                let n = got.iter().filter(|p| p.payload == m.payload).count();
                if n == 0 && z <= rs[k].max {
                    l.w.issue("C15", "retained-message-within-the-limit-withheld", format!("{}: {} takes {z} bytes, maximum {}", rs[k].name, head(&m.payload), rs[k].max));
                }
                l.stat(if n > 0 { "retained-delivered" } else { "retained-withheld" }, 1);
            }
            if l.w.clis[i].closed() {
                l.w.issue("C15", "receiver-disturbed", format!("{} closed on its retained messages", rs[k].name));
            }
        } else if x < 95 {
            // a client that hardly accepts anything
            let m = l.w.rng.range(6, 26);
            let mut c = Connect::new(Ver::V5, &format!("tiny{op}"), true);
            c.keep_alive = *l.w.rng.pick(&[0, 100, 0xffff]);
            c.props.push((P_MPS, PV::U32(m as u32)));
            if l.w.rng.bool() {
                c.id.clear();
            }
            l.w.log(format!("a client with maximum {m}"));
            // sizes are judged as the packets arrive
            let i = l.w.connect(c).await;
            l.stat("tiny-maxima", 1);
            match l.w.clis[i].connack {
                Some((_, 0, _)) => l.w.clis[i].disconnect(0, &vec![]),
                _ if l.w.clis[i].closed() => {
                    l.stat("tiny-maxima-refused", 1);
                    l.w.clis[i].end.eof();
                }
                _ => l.w.issue("C15", "connect-not-answered", format!("maximum {m}")),
            }
            l.w.settle().await;
            l.w.clis[ob].take_app();
        } else {
            // many filters, so that the acknowledgement is large
            let k = l.w.rng.below(rs.len());
            if !rs[k].on || !rs[k].ver.v5() {
                continue;
            }
            let i = rs[k].cli;
            let base = rs[k].max.min(220);
            let n = (base + l.w.rng.below(6)).saturating_sub(8).max(1);
            let fs: Vec<(String, u8)> = (0..n).map(|j| (format!("z/{j}"), 0)).collect();
            let names: Vec<String> = fs.iter().map(|f| f.0.clone()).collect();
            let un = l.w.rng.bool();
            let b = if un { unsubscribe(Ver::V5, 999, &names) } else { subscribe(Ver::V5, 999, &vec![], &fs) };
            if b.len() > server {
                continue;
            }
            l.w.log(format!("{} {} {n} filters", rs[k].name, if un { "unsubscribes" } else { "subscribes" }));
            l.w.clis[i].send(&b);
            l.w.settle().await;
            l.stat("large-acknowledgements", 1);
            let got = l.w.clis[i].take();
            let size = n + 3 + 1 + if n + 3 > 127 { 2 } else { 1 };
            let answered = got.iter().any(|p| matches!(p, S::Suback { pid: 999, .. } | S::Unsuback { pid: 999, .. }));
            if size <= rs[k].max && !answered {
                l.w.issue("C15", "acknowledgement-withheld", format!("{size} bytes, maximum {}", rs[k].max));
            }
            if l.w.clis[i].closed() {
                if size <= rs[k].max {
                    l.w.issue("C15", "receiver-disturbed", format!("{} closed on an acknowledgement of {size} bytes", rs[k].name));
                }
                rs[k].on = false;
                l.w.clis[i].end.eof();
                l.w.clis[i].gone = true;
                l.w.settle().await;
            }
        }
    }
}

// ---------------------------------------------------------------- C16

async fn alias_case(l: &mut L) {
    let amax = l.k.topic_alias_max;
    let topics: Vec<String> = (0..l.w.rng.range(1, 6)).map(|i| format!("t/{}", "x".repeat(i) + &i.to_string())).collect();
    struct R {
        cli: usize,
        on: bool,
        name: String,
        limit: u16,
        ver: Ver,
        qos: u8,
        lossy: bool,
    }
    let mut rs: Vec<R> = vec![];
    let build = |r: &R, rng: &mut Rng| {
        let mut c = Connect::new(r.ver, &r.name, false);
        c.keep_alive = 0xffff;
        if r.ver.v5() {
            if r.limit > 0 || rng.bool() {
                c.props.push((P_TAMAX, PV::U16(r.limit)));
            }
            c.props.push((P_SEI, PV::U32(100_000)));
            c.props.push((P_RMAX, PV::U16(*rng.pick(&[1, 2, 5, 100]))));
        }
        c
    };
    for i in 0..l.w.rng.range(1, 4) {
        let ver = *l.w.rng.pick(&[Ver::V5, Ver::V5, Ver::V5, Ver::V311]);
        let mut r = R { cli: 0, on: true, name: format!("r{i}"), limit: if ver.v5() { *l.w.rng.pick(&[0, 1, 2, 3, 8, 65535]) } else { 0 }, ver, qos: l.w.rng.below(3) as u8, lossy: false };
        let c = build(&r, &mut l.w.rng);
        let Some(cli) = l.up(c).await else { return };
        r.cli = cli;
        l.w.clis[cli].subscribe(&vec![], &[("t/#".into(), r.qos)]);
        l.w.log(format!("{} {ver:?} limit {} qos {}", r.name, r.limit, r.qos));
        rs.push(r);
    }
    l.w.settle().await;
    struct P {
        cli: usize,
        bound: HashMap<u16, String>,
        n: u32,
        name: String,
    }
    let mut ps: Vec<P> = vec![];
    for i in 0..l.w.rng.range(1, 2) {
        ps.push(P { cli: usize::MAX, bound: HashMap::new(), n: 0, name: format!("p{i}") });
    }
    for _ in 0..l.w.rng.range(5, 50) {
        if !l.w.issues.is_empty() {
            return;
        }
        let k = l.w.rng.below(ps.len());
        if ps[k].cli == usize::MAX || l.w.clis[ps[k].cli].closed() {
            ps[k].n += 1;
            ps[k].bound.clear();
            let mut c = Connect::new(Ver::V5, &ps[k].name, false);
            c.keep_alive = 0xffff;
            c.props.push((P_SEI, PV::U32(*l.w.rng.pick(&[0, 100_000]))));
            if l.w.rng.bool() {
                // the client's own limit, for the other direction
                c.props.push((P_TAMAX, PV::U16(7)));
            }
            let Some(i) = l.up(c).await else { return };
            l.w.clis[i].next_pid = (ps[k].n * 100) as u16;
            ps[k].cli = i;
            let ann = l.w.clis[i].connack.as_ref().and_then(|c| u32p(&c.2, P_TAMAX)).unwrap_or(0);
            if ann != amax as u32 {
                l.w.issue("C16 C30", "announced-alias-maximum-differs", format!("{ann}, configured {amax}"));
            }
        }
        let s = ps[k].cli;
        let x = l.w.rng.below(100);
        let topic = l.w.rng.pick(&topics).clone();
        // small pool of aliases so that they are used again
        let pool: Vec<u16> = [1u16, 2, 3, 5, 9, 300, 65535].into_iter().filter(|a| *a <= amax).collect();
        let known: Vec<u16> = {
            let mut v: Vec<u16> = ps[k].bound.keys().copied().collect();
            v.sort();
            v
        };
        let mut alias = None;
        let mut sent_topic = topic.clone();
        let mut effect = Some(topic.clone());
        if x < 25 && !pool.is_empty() {
            let a = *l.w.rng.pick(&pool);
            alias = Some(a);
            ps[k].bound.insert(a, topic.clone());
            l.stat("bindings", 1);
        } else if x < 60 && !known.is_empty() {
            let a = *l.w.rng.pick(&known);
            alias = Some(a);
            sent_topic.clear();
            effect = Some(ps[k].bound[&a].clone());
            l.stat("resolutions", 1);
        } else if x < 72 {
            // no alias
        } else if x < 82 {
            // a receiver leaves or returns
            let j = l.w.rng.below(rs.len());
            let i = rs[j].cli;
            if rs[j].on {
                rs[j].on = false;
                let reset = l.w.rng.bool();
                l.w.clis[i].drop_conn(reset);
                l.w.settle().await;
            } else {
                rs[j].on = true;
                if rs[j].ver.v5() && l.w.rng.bool() {
                    rs[j].limit = *l.w.rng.pick(&[0, 1, 2, 3, 8]);
                }
                l.w.clis[i].lossy |= rs[j].lossy;
                let c = build(&rs[j], &mut l.w.rng);
                l.w.reopen(i, c);
                l.w.settle().await;
                l.stat("receivers-returned", 1);
            }
            effect = None;
        } else if x < 90 {
            // the sender's connection ends; its bindings end with it
            let reset = l.w.rng.bool();
            l.w.log(format!("{} connection ends", ps[k].name));
            if reset {
                l.w.clis[s].drop_conn(true);
            } else {
                l.w.clis[s].disconnect(0, &vec![]);
            }
            l.w.settle().await;
            ps[k].cli = usize::MAX;
            // and an alias-only publish on the next one is not resolved
            if !known.is_empty() && l.w.rng.bool() {
                let mut c = Connect::new(Ver::V5, &ps[k].name, false);
                c.keep_alive = 0xffff;
                let Some(i) = l.up(c).await else { return };
                l.w.clis[i].next_pid = 30_000;
                ps[k].cli = i;
                ps[k].bound.clear();
                alias = Some(*l.w.rng.pick(&known));
                sent_topic.clear();
                effect = None;
                l.stat("bindings-tried-on-another-connection", 1);
            } else {
                continue;
            }
        } else {
            effect = None;
            match l.w.rng.below(5) {
                0 => alias = Some(0),
                1 if amax < u16::MAX => alias = Some(amax + 1 + l.w.rng.below((u16::MAX - amax) as usize) as u16),
                2 => {
                    // empty and no alias
                    sent_topic.clear();
                }
                3 => {
                    alias = Some(0);
                    sent_topic.clear();
                }
                _ => {
                    let a = l.w.rng.range(1, 65535) as u16;
                    if ps[k].bound.contains_key(&a) {
                        continue;
                    }
                    alias = Some(a);
                    sent_topic.clear();
                }
            }
            l.stat("invalid-aliases", 1);
        }
        if x >= 72 && x < 82 {
            // what the returned one received is judged below
        } else {
            let s = ps[k].cli;
            let mut payload = l.serial();
            payload.push(b'|');
            payload.extend(effect.clone().unwrap_or("none".into()).bytes());
            let props = alias.map(|a| vec![(P_ALIAS, PV::U16(a))]).unwrap_or_default();
            let m = Pub { qos: l.w.rng.below(3) as u8, retain: l.w.rng.chance(1, 8), topic: sent_topic, pid: l.w.clis[s].pid(), props, payload, dup: false };
            l.w.log(format!("{} publishes {} topic {:?} alias {alias:?} qos {} meaning {effect:?}", ps[k].name, head(&m.payload), m.topic, m.qos));
            l.w.clis[s].publish(&m);
            l.w.settle().await;
            let got = l.w.clis[s].take();
            if effect.is_some() {
                if l.w.clis[s].closed() {
                    let d = l.w.clis[s].server_disc;
                    l.w.issue("C16", "valid-alias-refused", format!("{} disconnect {d:x?}", head(&m.payload)));
                    return;
                }
                if m.qos == 2 {
                    if l.w.rng.chance(1, 3) {
                        // repeated before release: with the alias as now bound
                        let mut d = m.clone();
                        d.dup = true;
                        l.w.clis[s].publish(&d);
                        l.w.settle().await;
                        l.stat("repeats-by-alias", 1);
                    }
                    l.w.clis[s].ack(6, m.pid);
                    l.w.settle().await;
                    l.w.clis[s].take();
                }
            } else {
                if !l.w.clis[s].closed() {
                    l.w.issue("C16", "invalid-alias-accepted", format!("{} alias {alias:?} topic {:?}: {got:?}", head(&m.payload), m.topic));
                    return;
                }
                let d = l.w.clis[s].server_disc;
                if d.is_none_or(|d| d < 0x80) {
                    l.w.issue("C16", "invalid-alias-without-error", format!("alias {alias:?}: disconnect {d:x?}"));
                }
                l.w.clis[s].gone = true;
                ps[k].cli = usize::MAX;
            }
            for r in &mut rs {
                if !r.on {
                    continue;
                }
                let got = l.w.clis[r.cli].take_app();
                l.w.clis[r.cli].take();
                let n = got.iter().filter(|p| p.payload == m.payload).count();
                if effect.is_some() && n != 1 {
                    l.w.issue("C16", "message-by-alias-not-delivered", format!("{}: {} arrived {n} times", r.name, head(&m.payload)));
                }
                for p in &got {
                    judge_topic(&mut l.w, &r.name, p);
                }
                *l.stats.entry("deliveries-resolved").or_default() += got.len() as u64;
            }
            continue;
        }
        for r in &mut rs {
            let got = l.w.clis[r.cli].take_app();
            l.w.clis[r.cli].take();
            for p in &got {
                judge_topic(&mut l.w, &r.name, p);
            }
            *l.stats.entry("deliveries-resolved").or_default() += got.len() as u64;
        }
    }
}

fn judge_topic(w: &mut World, name: &str, p: &Pub) {
    let text = String::from_utf8_lossy(&p.payload).into_owned();
    let want = text.split('|').nth(1).unwrap_or("");
    if want == "none" {
        w.issue("C16", "refused-publish-delivered", format!("{name}: {text}"));
    } else if p.topic != want {
        w.issue("C16", "delivered-under-another-topic", format!("{name}: {text} arrived as {}", p.topic));
    }
}

// ---------------------------------------------------------------- C30

async fn limits_case(l: &mut L) {
    let k = l.k.clone();
    let Some(ob) = l.watcher_for(&k).await else { return };
    let n = l.w.rng.range(2, 10);
    for i in 0..n {
        if !l.w.issues.is_empty() {
            return;
        }
        let v5 = l.w.rng.chance(3, 4);
        if v5 { v5_client(l, &k, ob, i).await } else { v3_client(l, &k, ob, i).await }
        l.w.settle().await;
        for c in &mut l.w.clis {
            c.take();
            c.take_app();
        }
    }
}

impl L {
    /// Observes exact topics only, so that it never needs what may be unavailable.
    async fn watcher_for(&mut self, _k: &Config) -> Option<usize> {
        let mut c = Connect::new(Ver::V311, "watcher", true);
        c.keep_alive = 0xffff;
        let i = self.up(c).await?;
        let o = self.k.max_allowed_qos.min(2);
        self.w.clis[i].subscribe(&vec![], &[("a/b".into(), o), ("a/c".into(), o)]);
        self.w.settle().await;
        self.w.clis[i].take();
        Some(i)
    }
    /// Publishes as another client and tells whether client `i` receives it.
    async fn reaches(&mut self, ob: usize, i: usize, topic: &str, qos: u8) -> Vec<Pub> {
        self.w.clis[i].take_app();
        let payload = self.serial();
        let pid = self.w.clis[ob].pid();
        self.w.clis[ob].publish(&Pub { qos, topic: topic.into(), pid, payload: payload.clone(), ..Pub::default() });
        self.w.settle().await;
        if qos == 2 {
            self.w.clis[ob].ack(6, pid);
            self.w.settle().await;
        }
        self.w.clis[ob].take_app();
        self.w.clis[ob].take();
        self.w.clis[i].take_app().into_iter().filter(|p| p.payload == payload).collect()
    }
    /// Nothing retained under `topic`, seen by a fresh subscription.
    async fn retained(&mut self, topic: &str) -> usize {
        let mut c = Connect::new(Ver::V311, "fresh", true);
        c.keep_alive = 0xffff;
        let Some(i) = self.up(c).await else { return 0 };
        self.w.clis[i].subscribe(&vec![], &[(topic.into(), 0)]);
        self.w.settle().await;
        let n = self.w.clis[i].take_app().len();
        self.w.clis[i].disconnect(0, &vec![]);
        self.w.settle().await;
        n
    }
}

async fn v5_client(l: &mut L, k: &Config, ob: usize, round: usize) {
    let mut id = if l.w.rng.chance(1, 4) { String::new() } else { format!("c{}", l.w.rng.below(3)) };
    let mut c = Connect::new(Ver::V5, &id, l.w.rng.bool());
    let ka = *l.w.rng.pick(&[0u16, 1, 9, 10, 11, 30, 100, 600, 65535]);
    c.keep_alive = ka;
    let sei = *l.w.rng.pick(&[None, Some(0u32), Some(10), Some(1000), Some(u32::MAX)]);
    if let Some(s) = sei {
        c.props.push((P_SEI, PV::U32(s)));
    }
    let wq = l.w.rng.below(3) as u8;
    let wr = l.w.rng.bool();
    let with_will = l.w.rng.chance(1, 3);
    if with_will {
        c.will = Some(Will { qos: wq, retain: wr, topic: "a/c".into(), payload: b"will".to_vec(), props: vec![] });
    }
    let had = id.is_empty();
    let present_before = l.w.counts().1;
    l.w.log(format!("v5 {id:?} keep-alive {ka} expiry {sei:?} will {with_will} qos {wq} retain {wr}"));
    let i = l.w.connect(c).await;
    let Some((_, code, pr)) = l.w.clis[i].connack.clone() else {
        l.w.issue("C30", "connect-not-answered", format!("round {round}"));
        return;
    };
    let bad_will = with_will && (wq > k.max_allowed_qos || (wr && !k.retain_available));
    if bad_will {
        l.stat("wills-beyond-the-limits", 1);
        let ok = match code {
            0x9a => wr && !k.retain_available,
            0x9b => wq > k.max_allowed_qos,
            _ => false,
        };
        if !ok || !l.w.clis[i].closed() {
            l.w.issue("C30", "will-beyond-the-limits-accepted", format!("CONNACK {code:#x}"));
        }
        if l.w.counts().1 != present_before {
            l.w.issue("C30 C23", "refused-connect-leaves-a-client", format!("{:?}", l.w.counts()));
        }
        l.w.clis[i].end.eof();
        return;
    }
    if code != 0 {
        l.w.issue("C30", "ordinary-connect-refused", format!("CONNACK {code:#x}"));
        return;
    }
    // what is announced
    let flag = |p| u32p(&pr, p).unwrap_or(1) == 1;
    let a_qos = u32p(&pr, P_MAXQOS).unwrap_or(2) as u8;
    let a_retain = flag(P_RETAIN);
    let a_wild = flag(P_WILD);
    let a_subid = flag(P_SUBIDA);
    let a_shared = flag(P_SHARED);
    let a_alias = u32p(&pr, P_TAMAX).unwrap_or(0);
    let a_rmax = u32p(&pr, P_RMAX).unwrap_or(65535);
    let a_mps = u32p(&pr, P_MPS).unwrap_or(u32::MAX);
    let a_ka = u32p(&pr, P_SKA).map(|x| x as u16).unwrap_or(ka);
    let a_sei = u32p(&pr, P_SEI).unwrap_or(sei.unwrap_or(0));
    let want_ka = ka.clamp(k.min_keep_alive.min(k.max_keep_alive), k.max_keep_alive);
    let want_sei = sei.unwrap_or(0).min(k.max_session_expiry_interval);
    let table: [(&str, u64, u64); 10] = [
        ("maximum-qos", a_qos as u64, k.max_allowed_qos as u64),
        ("retain-available", a_retain as u64, k.retain_available as u64),
        ("wildcards-available", a_wild as u64, k.wildcard_subscription_available as u64),
        ("subscription-identifiers-available", a_subid as u64, k.subscription_id_available as u64),
        ("shared-subscriptions-available", a_shared as u64, k.shared_subscription_available as u64),
        ("alias-maximum", a_alias as u64, k.topic_alias_max as u64),
        ("receive-maximum", a_rmax as u64, k.max_inflight_server as u64),
        ("maximum-packet-size", a_mps as u64, k.max_packet_size_server as u64),
        ("server-keep-alive", a_ka as u64, want_ka as u64),
        ("session-expiry", a_sei as u64, want_sei as u64),
    ];
    for (what, announced, configured) in table {
        if announced != configured {
            l.w.issue("C30", &format!("announced-{what}-differs"), format!("announced {announced}, configured {configured}"));
        }
    }
    let acid = strp(&pr, P_ACID);
    if had != acid.is_some() {
        l.w.issue("C30", "assigned-identifier-announcement-wrong", format!("{acid:?} for {id:?}"));
        return;
    }
    l.stat("announcements-compared", 1);
    if let Some(a) = acid {
        if a.is_empty() {
            l.w.issue("C30", "assigned-identifier-empty", String::new());
            return;
        }
        id = a;
    }
    // try it
    let steps = l.w.rng.range(1, 6);
    for _ in 0..steps {
        l.w.clis[i].take();
        l.w.clis[i].take_app();
        l.w.clis[ob].take_app();
        if l.w.clis[i].closed() {
            l.w.issue("C30", "connection-ended-within-the-limits", format!("disconnect {:x?}", l.w.clis[i].server_disc));
            return;
        }
        let mut end: Option<(&str, Vec<u8>)> = None;
        let x = l.w.rng.below(9);
        match x {
            0 | 1 => {
                let qos = l.w.rng.below(3) as u8;
                let retain = l.w.rng.bool();
                let payload = l.serial();
                let pid = l.w.clis[i].pid();
                l.w.log(format!("publishes qos {qos} retain {retain}"));
                l.w.clis[i].publish(&Pub { qos, retain, topic: "a/b".into(), pid, payload: payload.clone(), ..Pub::default() });
                l.w.settle().await;
                let seen = l.w.clis[ob].take_app();
                let n = seen.iter().filter(|p| p.payload == payload).count();
                if qos > a_qos {
                    if n > 0 {
                        l.w.issue("C30", "publish-above-maximum-qos-takes-effect", format!("qos {qos}"));
                    }
                    end = Some(("publish-above-maximum-qos", vec![0x9b]));
                } else if retain && !a_retain {
                    // ends the connection, or is delivered without being kept
                    if l.retained("a/b").await > 0 {
                        l.w.issue("C30", "retained-although-unavailable", format!("qos {qos}"));
                    }
                    if l.w.clis[i].closed() {
                        end = Some(("retained-publish", vec![0x9a]));
                    }
                } else if n != 1 {
                    l.w.issue("C30 C01", "publish-within-the-limits-not-delivered", format!("qos {qos} retain {retain}: {n} times"));
                } else if retain {
                    if l.retained("a/b").await != 1 {
                        l.w.issue("C30 C02", "retained-message-missing", format!("qos {qos}"));
                    }
                    // clear it
                    l.w.clis[ob].publish(&Pub { retain: true, topic: "a/b".into(), ..Pub::default() });
                    l.w.settle().await;
                }
                if qos == 2 && end.is_none() {
                    l.w.clis[i].ack(6, pid);
                    l.w.settle().await;
                }
            }
            2 | 3 | 4 => {
                let wild = l.w.rng.bool();
                let share = l.w.rng.chance(1, 3);
                let sid = l.w.rng.chance(1, 3);
                let qos = l.w.rng.below(3) as u8;
                let base = if wild { *l.w.rng.pick(&["q/+", "q/#", "+/1"]) } else { "q/1" };
                let f = if share { format!("$share/grp/{base}") } else { base.to_string() };
                let pr = if sid { vec![(P_SUBID, PV::Var(7))] } else { vec![] };
                l.w.log(format!("subscribes {f} qos {qos} identifier {sid}"));
                let pid = l.w.clis[i].subscribe(&pr, &[(f.clone(), qos)]);
                l.w.settle().await;
                let code = l.w.clis[i].take().into_iter().find_map(|p| match p {
                    S::Suback { pid: q, codes, .. } if q == pid => codes.first().copied(),
                    _ => None,
                });
                let mut allowed = vec![];
                if sid && !a_subid {
                    allowed.push(0xa1u8);
                }
                if share && !a_shared {
                    allowed.push(0x9e);
                }
                if wild && !a_wild {
                    allowed.push(0xa2);
                }
                let got = l.reaches(ob, i, "q/1", k.max_allowed_qos.min(2)).await;
                if allowed.is_empty() {
                    if code != Some(qos.min(a_qos)) {
                        l.w.issue("C30 C06", "subscription-within-the-limits-refused", format!("{f} qos {qos} identifier {sid}: {code:x?}"));
                    } else if got.len() != 1 || got[0].qos != qos.min(k.max_allowed_qos) {
                        l.w.issue("C30 C06", "granted-subscription-not-served", format!("{f} qos {qos}: {got:?}"));
                    } else if sid != (u32p(&got[0].props, P_SUBID) == Some(7)) {
                        l.w.issue("C30 C13", "subscription-identifier-missing", format!("{f}: {got:?}"));
                    }
                    l.stat("subscriptions-within-the-limits", 1);
                } else {
                    l.stat("subscriptions-beyond-the-limits", 1);
                    if !got.is_empty() {
                        l.w.issue("C30", "unavailable-subscription-takes-effect", format!("{f} identifier {sid}: {got:?}"));
                    }
                    match code {
                        Some(c) if allowed.contains(&c) => {}
                        None if l.w.clis[i].closed() && l.w.clis[i].server_disc.is_some_and(|d| allowed.contains(&d)) => {
                            l.w.clis[i].gone = true;
                            l.w.clis[i].end.eof();
                            return;
                        }
                        c => l.w.issue("C30", "unavailable-subscription-not-refused", format!("{f} identifier {sid}: {c:x?}, prescribed {allowed:x?}")),
                    }
                }
                let pid = l.w.clis[i].unsubscribe(&[f.clone()]);
                let _ = pid;
                l.w.settle().await;
            }
            5 => {
                // aliases around the announced maximum
                let a = *l.w.rng.pick(&[1u32, a_alias.max(1), a_alias + 1, 65535]);
                if a > 65535 {
                    continue;
                }
                let payload = l.serial();
                l.w.log(format!("alias {a}"));
                l.w.clis[i].publish(&Pub { topic: "a/b".into(), payload: payload.clone(), props: vec![(P_ALIAS, PV::U16(a as u16))], ..Pub::default() });
                l.w.settle().await;
                let n = l.w.clis[ob].take_app().iter().filter(|p| p.payload == payload).count();
                if a > a_alias {
                    if n > 0 {
                        l.w.issue("C30 C16", "alias-above-maximum-takes-effect", format!("{a} of {a_alias}"));
                    }
                    end = Some(("alias-above-maximum", vec![0x94]));
                } else if n != 1 {
                    l.w.issue("C30 C16", "alias-within-maximum-refused", format!("{a} of {a_alias}: {n} deliveries"));
                }
            }
            6 if a_qos == 2 && a_rmax < 60 => {
                // more exchanges at once than announced
                let over = l.w.rng.bool();
                let n = a_rmax as usize + over as usize;
                l.w.log(format!("{n} QoS 2 publishes at once, receive maximum {a_rmax}"));
                let pids: Vec<u16> = (0..n).map(|_| l.w.clis[i].pid()).collect();
                for p in &pids {
                    let payload = l.serial();
                    l.w.clis[i].publish(&Pub { qos: 2, topic: "a/b".into(), pid: *p, payload, ..Pub::default() });
                    if l.w.rng.chance(1, 3) {
                        l.w.settle().await;
                    }
                }
                l.w.settle().await;
                let seen = l.w.clis[ob].take_app().iter().filter(|p| p.topic == "a/b").count();
                if seen > a_rmax as usize {
                    l.w.issue("C30", "more-than-receive-maximum-taken", format!("{seen} of {a_rmax}"));
                }
                if over {
                    end = Some(("more-than-receive-maximum", vec![0x93]));
                } else {
                    if seen != n || l.w.clis[i].closed() {
                        l.w.issue("C30", "receive-maximum-not-granted", format!("{seen} of {n} taken, disconnect {:x?}", l.w.clis[i].server_disc));
                        return;
                    }
                    for p in &pids {
                        l.w.clis[i].ack(6, *p);
                    }
                    l.w.settle().await;
                }
            }
            7 if a_ka > 0 && a_ka <= 700 => {
                // the announced keep-alive is the one that counts
                let under = l.w.rng.bool();
                let ms = a_ka as u64 * if under { 1400 } else { 2600 } + if under { 0 } else { 1500 };
                l.w.log(format!("silent for {ms} ms, keep-alive {a_ka}"));
                l.w.clis[i].ping();
                l.w.settle().await;
                l.w.pass(Duration::from_millis(ms), Duration::from_millis((ms / 40).max(100))).await;
                l.w.clis[ob].ping();
                l.w.settle().await;
                if l.w.clis[i].closed() == under {
                    l.w.issue("C30 C17", "announced-keep-alive-not-applied", format!("keep-alive {a_ka}, silent {ms} ms, closed {}", !under));
                }
                l.stat("keep-alives-tried", 1);
                if !under {
                    l.w.clis[i].gone = true;
                    l.w.clis[i].end.eof();
                    l.w.settle().await;
                    return;
                }
            }
            8 if a_mps < 5000 => {
                let over = l.w.rng.bool();
                let mut m = Pub { topic: "a/b".into(), payload: l.serial(), ..Pub::default() };
                let pad = (a_mps as usize + over as usize).saturating_sub(publish(Ver::V5, &m).len());
                m.payload.extend(vec![b'.'; pad]);
                // a longer length field
                while publish(Ver::V5, &m).len() > a_mps as usize + over as usize {
                    m.payload.pop();
                }
                if over && publish(Ver::V5, &m).len() <= a_mps as usize {
                    continue;
                }
                l.w.log(format!("{} bytes, maximum {a_mps}", publish(Ver::V5, &m).len()));
                l.w.clis[i].publish(&m);
                l.w.settle().await;
                let n = l.w.clis[ob].take_app().iter().filter(|p| p.payload == m.payload).count();
                if over {
                    if n > 0 {
                        l.w.issue("C30 C15", "packet-above-maximum-size-takes-effect", String::new());
                    }
                    end = Some(("packet-above-maximum-size", vec![0x95]));
                } else if n != 1 {
                    l.w.issue("C30 C15", "packet-of-maximum-size-refused", format!("{:x?}", l.w.clis[i].server_disc));
                }
            }
            _ => continue,
        }
        l.stat("requests-tried", 1);
        if let Some((what, codes)) = end {
            l.stat("requests-beyond-the-limits", 1);
            if !l.w.clis[i].closed() {
                l.w.issue("C30", &format!("{what}-not-refused"), String::new());
            } else if !l.w.clis[i].server_disc.is_some_and(|d| codes.contains(&d)) {
                l.w.issue("C30", &format!("{what}-without-prescribed-error"), format!("{:x?}, prescribed {codes:x?}", l.w.clis[i].server_disc));
            }
            l.w.clis[i].gone = true;
            l.w.clis[i].end.eof();
            l.w.settle().await;
            // exchanges may be unfinished: the session is not continued
            let Some(j) = l.up(Connect::new(Ver::V5, &id, true)).await else { return };
            l.w.clis[j].disconnect(0, &vec![]);
            l.w.settle().await;
            return;
        }
        if !l.w.issues.is_empty() {
            return;
        }
    }
    if with_will {
        l.w.clis[ob].take_app();
    }
    if l.w.clis[i].closed() {
        return;
    }
    // the announced session expiry is the one that counts
    l.w.clis[i].drop_conn(false);
    l.w.settle().await;
    l.w.clis[ob].take_app();
    let wait = match a_sei {
        0 => 0,
        u32::MAX => *l.w.rng.pick(&[0, 5_000, 100_000u64]),
        s if l.w.rng.bool() => s as u64 * 1000 * 8 / 10,
        s => s as u64 * 1000 * 12 / 10 + 3000,
    };
    if wait > 0 {
        // the observer stays
        let mut left = wait;
        while left > 0 {
            let s = left.min(10_000_000);
            l.w.pass(Duration::from_millis(s), Duration::from_millis((s / 30).max(100))).await;
            l.w.clis[ob].ping();
            left -= s;
        }
    }
    let due = if a_sei == u32::MAX { u64::MAX } else { a_sei as u64 * 1000 };
    let mut c = Connect::new(Ver::V5, &id, false);
    c.keep_alive = 60;
    l.w.log(format!("{id} returns after {wait} ms, announced expiry {a_sei}"));
    let j = l.w.connect(c).await;
    let sp = l.w.clis[j].connack.as_ref().map(|c| c.0);
    l.stat("expiries-tried", 1);
    if sp != Some(wait < due) {
        l.w.issue("C30 C11", "announced-session-expiry-not-applied", format!("announced {a_sei} s, back after {wait} ms: session present {sp:?}"));
    }
    l.w.clis[j].disconnect(0, &vec![(P_SEI, PV::U32(0))].into_iter().filter(|_| false).collect());
    l.w.settle().await;
}

async fn v3_client(l: &mut L, k: &Config, ob: usize, round: usize) {
    let ver = *l.w.rng.pick(&[Ver::V31, Ver::V311]);
    let mut c = Connect::new(ver, &format!("v{round}"), true);
    c.keep_alive = 600;
    let wq = l.w.rng.below(3) as u8;
    let wr = l.w.rng.bool();
    let with_will = l.w.rng.chance(1, 3);
    if with_will {
        c.will = Some(Will { qos: wq, retain: wr, topic: "a/c".into(), payload: b"will3".to_vec(), props: vec![] });
    }
    l.w.log(format!("{ver:?} will {with_will} qos {wq} retain {wr}"));
    let i = l.w.connect(c).await;
    match l.w.clis[i].connack {
        Some((_, 0, _)) => {}
        _ if with_will && (wq > k.max_allowed_qos || (wr && !k.retain_available)) => {
            l.w.clis[i].end.eof();
            return;
        }
        _ => {
            l.w.issue("C30", "ordinary-connect-refused", format!("{ver:?} {:?}", l.w.clis[i].connack));
            return;
        }
    }
    for _ in 0..l.w.rng.range(1, 4) {
        if l.w.clis[i].closed() {
            break;
        }
        l.w.clis[i].take();
        l.w.clis[ob].take_app();
        if l.w.rng.bool() {
            let qos = l.w.rng.below(3) as u8;
            let retain = l.w.rng.bool();
            let payload = l.serial();
            let pid = l.w.clis[i].pid();
            l.w.log(format!("publishes qos {qos} retain {retain}"));
            l.w.clis[i].publish(&Pub { qos, retain, topic: "a/b".into(), pid, payload: payload.clone(), ..Pub::default() });
            l.w.settle().await;
            let seen: Vec<Pub> = l.w.clis[ob].take_app().into_iter().filter(|p| p.payload == payload).collect();
            if qos > k.max_allowed_qos {
                l.stat("requests-beyond-the-limits", 1);
                if seen.iter().any(|p| p.qos > k.max_allowed_qos) {
                    l.w.issue("C30", "publish-above-maximum-qos-takes-effect", format!("{ver:?} qos {qos}: {seen:?}"));
                }
            } else if !(retain && !k.retain_available) && seen.len() != 1 {
                l.w.issue("C30 C01", "publish-within-the-limits-not-delivered", format!("{ver:?} qos {qos} retain {retain}: {} times", seen.len()));
            }
            let kept = l.retained("a/b").await;
            if retain && !k.retain_available {
                if kept > 0 {
                    l.w.issue("C30", "retained-although-unavailable", format!("{ver:?} qos {qos}"));
                }
            } else if retain && qos <= k.max_allowed_qos && kept != 1 {
                l.w.issue("C30 C02", "retained-message-missing", format!("{ver:?} qos {qos}"));
            }
            if kept > 0 {
                l.w.clis[ob].publish(&Pub { retain: true, topic: "a/b".into(), ..Pub::default() });
                l.w.settle().await;
            }
            if qos == 2 && !l.w.clis[i].closed() {
                l.w.clis[i].ack(6, pid);
                l.w.settle().await;
            }
        } else {
            let qos = l.w.rng.below(3) as u8;
            l.w.log(format!("subscribes q/1 qos {qos}"));
            let pid = l.w.clis[i].subscribe(&vec![], &[("q/1".into(), qos)]);
            l.w.settle().await;
            let code = l.w.clis[i].take().into_iter().find_map(|p| match p {
                S::Suback { pid: q, codes, .. } if q == pid => codes.first().copied(),
                _ => None,
            });
            let got = l.reaches(ob, i, "q/1", k.max_allowed_qos.min(2)).await;
            let want = qos.min(k.max_allowed_qos);
            if code != Some(want) || got.len() != 1 || got[0].qos != want {
                l.w.issue("C30 C06", "granted-subscription-not-served", format!("{ver:?} qos {qos}: {code:?} {got:?}"));
            }
        }
        if !l.w.issues.is_empty() {
            return;
        }
    }
    if with_will && !l.w.clis[i].closed() {
        // an unavailable will never takes its effect
        l.w.clis[ob].take_app();
        l.w.clis[i].drop_conn(true);
        l.w.settle().await;
        let seen = l.w.clis[ob].take_app();
        if seen.iter().any(|p| p.payload == b"will3" && p.qos > k.max_allowed_qos) {
            l.w.issue("C30", "will-above-maximum-qos-takes-effect", format!("{ver:?} {seen:?}"));
        }
        let kept = l.retained("a/c").await;
        if kept > 0 && !k.retain_available {
            l.w.issue("C30", "retained-although-unavailable", format!("{ver:?} will"));
        }
        if kept > 0 {
            l.w.clis[ob].publish(&Pub { retain: true, topic: "a/c".into(), ..Pub::default() });
            l.w.settle().await;
        }
    } else if !l.w.clis[i].closed() {
        l.w.clis[i].disconnect(0, &vec![]);
    }
    l.w.settle().await;
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let prop = run.prop.clone();
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let (issues, trace, stats) = case(|| async {
            let mut k = config();
            let mut rng = Rng::fork(run.seed, n ^ 0x11f7);
            if rng.bool() {
                k.hook.enable_publish = false;
                k.hook.enable_subscribe = false;
            }
            match prop.as_str() {
                "C15" => {
                    if rng.bool() {
                        k.max_packet_size_server = *rng.pick(&[100, 120, 130, 131, 200, 300]);
                    }
                    k.multiple_subscription_id_in_publish = rng.bool();
                }
                "C16" => k.topic_alias_max = *rng.pick(&[0, 1, 3, 10, 65535]),
                _ => {
                    k.max_allowed_qos = *rng.pick(&[0, 1, 2, 2]);
                    k.retain_available = rng.bool();
                    k.wildcard_subscription_available = rng.bool();
                    k.subscription_id_available = rng.bool();
                    k.shared_subscription_available = rng.bool();
                    k.topic_alias_max = *rng.pick(&[0, 1, 10, 65535]);
                    k.max_inflight_server = *rng.pick(&[1, 2, 10, 40, u16::MAX]);
                    k.max_packet_size_server = *rng.pick(&[150, 1000, akasa_core_default(), u32::MAX]);
                    k.min_keep_alive = *rng.pick(&[0, 1, 10, 10, 60]);
                    k.max_keep_alive = *rng.pick(&[100, 600, u16::MAX, u16::MAX]);
                    k.max_session_expiry_interval = *rng.pick(&[0, 5, 500, u32::MAX, u32::MAX]);
                    k.multiple_subscription_id_in_publish = rng.bool();
                }
            }
            let mut w = World::new(k.clone(), rng.clone());
            w.rounds = 16;
            if w.rng.chance(1, 4) {
                w.policy = Policy { read_chunk: 17, write_chunk: 23, pending: 5, ..Policy::default() };
            }
            if w.rng.chance(1, 6) {
                w.kind = Kind::Ws;
            }
            let mut l = L { w, k, serial: 0, stats: BTreeMap::new() };
            match prop.as_str() {
                "C15" => size_case(&mut l).await,
                "C16" => alias_case(&mut l).await,
                _ => limits_case(&mut l).await,
            }
            (l.w.issues.clone(), l.w.trace.clone(), l.stats.clone())
        });
        report(run, n, &prop, issues, &trace);
        for (k, v) in &stats {
            run.count(k, *v);
        }
        run.case(trace.len() > 1, &trace);
        if n < 2 {
            run.sample(trace.iter().take(12).collect::<Vec<_>>());
        }
    }
}

fn akasa_core_default() -> u32 {
    Config::default().max_packet_size_server
}
