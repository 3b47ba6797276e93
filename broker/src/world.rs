//! A broker, its simulated clients and the monitors that watch every connection.
use crate::clock;
use crate::codec::{self as c, *};
use crate::hooks::RecHook;
use crate::net::{self, ClientEnd, Policy};
use crate::tp::{Kind, Tp, Ws};
use akasa_core::server::{ConnectionArgs, handle_accept};
use akasa_core::{AuthConfig, Config, GlobalState};
use monlib::Rng;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::sync::Arc;
use std::time::Duration;
use tokio::task::JoinHandle;

pub fn config() -> Config {
    let mut k = Config::default();
    k.auth = AuthConfig { enable: false, password_file: None };
    k
}

#[derive(Clone, Debug)]
pub struct Issue {
    /// every property this observation contradicts
    pub prop: &'static str,
    pub sig: String,
    pub detail: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Auto {
    /// acknowledge everything at once
    All,
    /// answer PUBREL only; PUBLISH and PUBREC are left to the monitor
    None,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub qos: u8,
    pub rec: bool,
    /// repeated by the broker before it could know of our acknowledgement
    pub late: bool,
    pub topic: String,
    pub payload: Vec<u8>,
}

pub struct Cli {
    pub ver: Ver,
    pub id: String,
    pub conn: Connect,
    pub end: ClientEnd,
    pub tp: Tp,
    buf: Vec<u8>,
    pub inbox: Vec<S>,
    /// publishes handed to the application (QoS 2 duplicates suppressed)
    pub app: Vec<Pub>,
    pub connack: Option<(bool, u8, Props)>,
    pub auto: Auto,
    aliases: HashMap<u16, String>,
    pub alias_max: u16,
    pub rmax: usize,
    pub max_packet: usize,
    /// QoS 2 identifiers received and not yet released (session state)
    pub rec: HashSet<u16>,
    /// unacknowledged on this connection
    pub out: BTreeMap<u16, Out>,
    /// unacknowledged from earlier connections of the session
    pub carry: BTreeMap<u16, Out>,
    /// packets may have been lost on their way to this client
    pub lossy: bool,
    /// acknowledged, but not known to have reached the broker: until then the
    /// broker may still be repeating it
    pub done: BTreeMap<u16, Out>,
    hold: Option<Vec<u8>>,
    pub next_pid: u16,
    pub peak: usize,
    pub task: Option<JoinHandle<std::io::Result<()>>>,
    pub outcome: Option<Result<Result<(), String>, String>>,
    pub gone: bool,
    pub server_disc: Option<u8>,
    pub wire_in: usize,
    pub tls_err: Option<String>,
    /// may send anything: what it receives is not judged
    pub wild: bool,
}

impl Cli {
    pub fn v5(&self) -> bool {
        self.ver.v5()
    }
    /// accepted, and the broker has not closed it
    pub fn live(&self) -> bool {
        !self.gone && !self.end.closed() && matches!(&self.connack, Some((_, 0, _)))
    }
    pub fn closed(&self) -> bool {
        self.end.closed()
    }
    pub fn pid(&mut self) -> u16 {
        self.next_pid = if self.next_pid == u16::MAX { 1 } else { self.next_pid + 1 };
        self.next_pid
    }
    pub fn send(&mut self, b: &[u8]) {
        let w = self.tp.encode(b);
        if !w.is_empty() {
            self.end.send(&w);
        }
    }
    pub fn take(&mut self) -> Vec<S> {
        std::mem::take(&mut self.inbox)
    }
    pub fn take_app(&mut self) -> Vec<Pub> {
        std::mem::take(&mut self.app)
    }
    pub fn publish(&mut self, p: &Pub) {
        let b = c::publish(self.ver, p);
        self.send(&b);
    }
    pub fn subscribe(&mut self, pr: &Props, t: &[(String, u8)]) -> u16 {
        let pid = self.pid();
        let b = c::subscribe(self.ver, pid, pr, t);
        self.send(&b);
        pid
    }
    pub fn unsubscribe(&mut self, t: &[String]) -> u16 {
        let pid = self.pid();
        let b = c::unsubscribe(self.ver, pid, t);
        self.send(&b);
        pid
    }
    pub fn disconnect(&mut self, code: u8, pr: &Props) {
        let b = c::disconnect(self.ver, code, pr);
        self.send(&b);
        self.end.eof();
        self.gone = true;
    }
    pub fn drop_conn(&mut self, reset: bool) {
        self.end.abort(reset);
        self.gone = true;
    }
    /// Turns a connection that has sent nothing into this client's.
    pub fn become_client(&mut self, conn: Connect) {
        let p = &conn.props;
        self.alias_max = u32p(p, P_TAMAX).unwrap_or(0) as u16;
        self.rmax = u32p(p, P_RMAX).map(|x| x as usize).unwrap_or(self.rmax);
        self.max_packet = u32p(p, P_MPS).map(|x| x as usize).unwrap_or(usize::MAX);
        (self.ver, self.id) = (conn.ver, conn.id.clone());
        self.conn = conn;
    }
    pub fn ping(&mut self) {
        self.send(&[0xc0, 0]);
    }
    pub fn ack(&mut self, ty: u8, pid: u16) {
        let b = c::ack(ty, pid);
        match &mut self.hold {
            Some(h) => h.extend(b),
            None => self.send(&b),
        }
    }
    /// From now on answers wait: a packet of this client is half sent.
    pub fn hold(&mut self) {
        self.hold.get_or_insert_default();
    }
    pub fn holding(&self) -> bool {
        self.hold.is_some()
    }
    pub fn release(&mut self) {
        if let Some(b) = self.hold.take()
            && !b.is_empty()
        {
            self.send(&b);
        }
    }
    /// Acknowledge one unacknowledged publish (its first or its final step).
    pub fn ack_out(&mut self, pid: u16) {
        let (qos, rec) = match self.out.get(&pid) {
            Some(o) => (o.qos, o.rec),
            None => return,
        };
        if qos == 1 {
            if let Some(o) = self.out.remove(&pid) {
                self.done.insert(pid, o);
            }
            self.carry.remove(&pid);
            self.ack(4, pid);
        } else if !rec {
            self.out.get_mut(&pid).unwrap().rec = true;
            self.ack(5, pid);
        }
    }

    /// Reads what the broker sent, watching the rules every connection obeys.
    fn pump(&mut self, issues: &mut Vec<Issue>) -> bool {
        let w = self.end.recv();
        if w.is_empty() {
            return false;
        }
        self.wire_in += w.len();
        match self.tp.decode(&w) {
            Ok((app, reply)) => {
                if !reply.is_empty() {
                    self.end.send(&reply);
                }
                self.buf.extend(app);
            }
            Err(e) => self.tls_err = Some(e),
        }
        if self.wild {
            while let Ok(Some(n)) = c::split(&self.buf) {
                if self.buf[0] == 0xe0 {
                    self.server_disc = Some(self.buf.get(2).copied().unwrap_or(0));
                }
                self.buf.drain(..n);
            }
            return true;
        }
        let id = self.id.clone();
        let mut issue = |prop: &'static str, sig: &str, detail: String| {
            issues.push(Issue { prop, sig: sig.into(), detail: format!("client {id}: {detail}") })
        };
        loop {
            let n = match c::split(&self.buf) {
                Ok(Some(n)) => n,
                Ok(None) => break,
                Err(e) => {
                    issue("C24", "malformed-packet-from-broker", format!("{e}: {:02x?}", &self.buf[..self.buf.len().min(40)]));
                    self.buf.clear();
                    break;
                }
            };
            let raw: Vec<u8> = self.buf.drain(..n).collect();
            if raw.len() > self.max_packet {
                let sig = if raw[0] == 0x20 { "connack-larger-than-announced-maximum" } else { "packet-larger-than-announced-maximum" };
                issue("C15", sig, format!("{} bytes, maximum {}: {:02x?}", raw.len(), self.max_packet, &raw[..raw.len().min(30)]));
            }
            let pkt = match c::decode(self.ver, &raw) {
                Ok(p) => p,
                Err(e) => {
                    issue("C24", "malformed-packet-from-broker", format!("{e}: {:02x?}", &raw[..raw.len().min(60)]));
                    continue;
                }
            };
            if self.connack.is_none() && !matches!(pkt, S::Connack { .. } | S::Auth { .. } | S::Disconnect { .. }) {
                issue("C24", "packet-before-connack", format!("{pkt:?}"));
            }
            match &pkt {
                S::Connack { sp, code, props } => {
                    if self.connack.is_some() {
                        issue("C24", "second-connack", format!("{pkt:?}"));
                    }
                    if *code != 0 && *sp {
                        issue("C07", "session-present-on-refusal", format!("{pkt:?}"));
                    }
                    if !sp && *code == 0 {
                        self.rec.clear();
                        self.carry.clear();
                    }
                    self.connack = Some((*sp, *code, props.clone()));
                }
                S::Publish(p) => {
                    let mut p = p.clone();
                    if let Some(a) = u32p(&p.props, P_ALIAS) {
                        let a = a as u16;
                        if a == 0 || a > self.alias_max {
                            issue("C16", "alias-outside-the-client-limit", format!("alias {a}, limit {}", self.alias_max));
                        }
                        if p.topic.is_empty() {
                            match self.aliases.get(&a) {
                                Some(t) => p.topic = t.clone(),
                                None => issue("C16", "alias-never-bound", format!("alias {a}: {p:?}")),
                            }
                        } else {
                            self.aliases.insert(a, p.topic.clone());
                        }
                    } else if p.topic.is_empty() {
                        issue("C16", "empty-topic-without-alias", format!("{p:?}"));
                    }
                    if p.qos > 0 {
                        let mut o = Out { qos: p.qos, rec: false, late: false, topic: p.topic.clone(), payload: p.payload.clone() };
                        let same = |x: &Out| x.qos == o.qos && x.topic == o.topic && x.payload == o.payload;
                        let late = p.dup && self.done.get(&p.pid).is_some_and(same);
                        if !p.dup {
                            self.done.remove(&p.pid);
                        }
                        if late {
                            // crossed our acknowledgement on the way
                            if p.qos == 1 {
                                o.late = true;
                                self.out.insert(p.pid, o);
                            }
                        } else if let Some(old) = self.out.get(&p.pid) {
                            if !p.dup {
                                issue("C14", "packet-identifier-reused-while-in-use", format!("pid {} still unacknowledged ({old:?}), now {p:?}", p.pid));
                            } else if !same(old) {
                                issue("C14", "retransmission-differs", format!("pid {}: first {old:?}, now {p:?}", p.pid));
                            }
                        } else if let Some(old) = self.carry.remove(&p.pid) {
                            if !p.dup && !self.lossy {
                                if same(&old) {
                                    issue("C14", "retransmission-without-dup", format!("pid {}: {p:?}", p.pid));
                                } else {
                                    issue("C14", "packet-identifier-reused-while-in-use", format!("pid {} unacknowledged from the last connection ({old:?}), now {p:?}", p.pid));
                                }
                            } else if p.dup && !same(&old) && !self.lossy {
                                issue("C14", "retransmission-differs", format!("pid {}: first {old:?}, now {p:?}", p.pid));
                            }
                            self.out.insert(p.pid, o);
                        } else {
                            if p.dup && !self.lossy {
                                issue("C14", "first-transmission-with-dup", format!("{p:?}"));
                            }
                            self.out.insert(p.pid, o);
                        }
                        let n = self.out.values().filter(|o| !o.late).count();
                        self.peak = self.peak.max(n);
                        if n > self.rmax {
                            issue("C14", "more-in-flight-than-receive-maximum", format!("{n} unacknowledged, receive maximum {}: {:?}", self.rmax, self.out.keys().collect::<Vec<_>>()));
                        }
                    }
                    if p.qos == 2 {
                        if self.rec.insert(p.pid) {
                            self.app.push(p.clone());
                        }
                    } else {
                        self.app.push(p.clone());
                    }
                    if self.auto == Auto::All {
                        match p.qos {
                            1 => {
                                if let Some(o) = self.out.remove(&p.pid) {
                                    self.done.insert(p.pid, o);
                                }
                                self.ack(4, p.pid);
                            }
                            2 => {
                                if let Some(o) = self.out.get_mut(&p.pid) {
                                    o.rec = true;
                                }
                                self.ack(5, p.pid);
                            }
                            _ => {}
                        }
                    }
                    self.inbox.push(S::Publish(p));
                    continue;
                }
                S::Pubrel { pid, .. } => {
                    let known = self.rec.remove(pid);
                    if !known && !self.lossy && !self.out.contains_key(pid) && !self.carry.contains_key(pid) && !self.done.contains_key(pid) {
                        issue("C04", "pubrel-for-unknown-identifier", format!("{pkt:?}"));
                    }
                    if let Some(o) = self.out.remove(pid) {
                        self.done.insert(*pid, o);
                    }
                    self.carry.remove(pid);
                    self.ack(7, *pid);
                }
                S::Disconnect { code, .. } => self.server_disc = Some(*code),
                _ => {}
            }
            self.inbox.push(pkt);
        }
        true
    }

    fn poll_task(&mut self) {
        if self.task.as_ref().is_some_and(|t| t.is_finished()) {
            let mut t = self.task.take().unwrap();
            let w = std::task::Waker::noop();
            if let std::task::Poll::Ready(r) = std::pin::Pin::new(&mut t).poll(&mut std::task::Context::from_waker(w)) {
                self.outcome = Some(match r {
                    Ok(r) => Ok(r.map_err(|e| e.to_string())),
                    Err(e) => Err(e.to_string()),
                });
            }
        }
    }
}

pub struct World {
    pub global: Arc<GlobalState>,
    pub hook: RecHook,
    pub clis: Vec<Cli>,
    pub rng: Rng,
    pub trace: Vec<String>,
    pub issues: Vec<Issue>,
    pub policy: Policy,
    pub kind: Kind,
    pub rounds: usize,
    pub settles: u64,
    pub next_port: u16,
    pub tls: Option<(tokio_rustls::TlsAcceptor, Arc<rustls::ClientConfig>)>,
    pub default_rmax: usize,
    /// used in place of the recording hook
    pub storm: Option<crate::storm::StormHook>,
}

impl World {
    pub fn new(k: Config, rng: Rng) -> World {
        let default_rmax = k.max_inflight_client as usize;
        World {
            global: Arc::new(GlobalState::new(k)),
            hook: RecHook::default(),
            clis: vec![],
            rng,
            trace: vec![],
            issues: vec![],
            policy: Policy::default(),
            kind: Kind::Plain,
            rounds: if cfg!(miri) { 5 } else { 24 },
            settles: 0,
            next_port: 1000,
            tls: None,
            default_rmax,
            storm: None,
        }
    }
    pub fn issue(&mut self, prop: &'static str, sig: &str, detail: String) {
        self.issues.push(Issue { prop, sig: sig.into(), detail });
    }
    pub fn log(&mut self, s: String) {
        log::info!("STEP {s}");
        self.trace.push(s);
    }

    pub fn args(&self, kind: Kind) -> ConnectionArgs {
        ConnectionArgs {
            addr: ([127, 0, 0, 1], 1883).into(),
            reuse_port: false,
            proxy: false,
            proxy_tls_termination: false,
            websocket: matches!(kind, Kind::Ws | Kind::Wss),
            tls_acceptor: if matches!(kind, Kind::Tls | Kind::Wss) { Some(self.tls.as_ref().unwrap().0.clone()) } else { None },
        }
    }

    pub fn accept(&mut self, args: ConnectionArgs, policy: Policy) -> (ClientEnd, JoinHandle<std::io::Result<()>>) {
        let (ce, se) = net::pair(policy, self.rng.clone());
        self.rng.u64();
        self.next_port += 1;
        let peer = ([127, 0, 0, 1], self.next_port).into();
        let task = match &self.storm {
            Some(h) => tokio::spawn(handle_accept(se, args, peer, h.clone(), self.global.clone())),
            None => tokio::spawn(handle_accept(se, args, peer, self.hook.clone(), self.global.clone())),
        };
        (ce, task)
    }

    fn tp(&self, kind: Kind) -> Tp {
        let tls = || {
            let cc = self.tls.as_ref().unwrap().1.clone();
            let mut c = rustls::ClientConnection::new(cc, "localhost".try_into().unwrap()).unwrap();
            c.set_buffer_limit(None);
            Box::new(c)
        };
        match kind {
            Kind::Plain => Tp::Plain,
            Kind::Ws => Tp::Ws(Ws::default()),
            Kind::Tls => Tp::Tls(tls()),
            Kind::Wss => Tp::Wss(tls(), Ws::default()),
        }
    }

    fn blank(&mut self, conn: Connect, kind: Kind) -> Cli {
        let (end, task) = self.accept(self.args(kind), self.policy.clone());
        let mut tp = self.tp(kind);
        let hello = tp.start();
        if !hello.is_empty() {
            end.send(&hello);
        }
        let p = &conn.props;
        Cli {
            ver: conn.ver,
            id: conn.id.clone(),
            alias_max: u32p(p, P_TAMAX).unwrap_or(0) as u16,
            rmax: u32p(p, P_RMAX).map(|x| x as usize).unwrap_or(if conn.ver.v5() { self.default_rmax.max(1) } else { 65535 }),
            max_packet: u32p(p, P_MPS).map(|x| x as usize).unwrap_or(usize::MAX),
            conn,
            end,
            tp,
            buf: vec![],
            inbox: vec![],
            app: vec![],
            connack: None,
            auto: Auto::All,
            aliases: HashMap::new(),
            rec: HashSet::new(),
            out: BTreeMap::new(),
            carry: BTreeMap::new(),
            lossy: false,
            done: BTreeMap::new(),
            hold: None,
            next_pid: 0,
            peak: 0,
            task: Some(task),
            outcome: None,
            gone: false,
            server_disc: None,
            wire_in: 0,
            tls_err: None,
            wild: false,
        }
    }

    /// A new connection; the CONNECT packet is on its way.
    pub fn open(&mut self, conn: Connect) -> usize {
        let k = self.kind;
        let bytes = c::connect(&conn);
        let mut cli = self.blank(conn, k);
        cli.send(&bytes);
        self.clis.push(cli);
        self.clis.len() - 1
    }
    /// A new connection that has sent nothing.
    pub fn open_raw(&mut self, ver: Ver, kind: Kind) -> usize {
        let cli = self.blank(Connect::new(ver, "raw", true), kind);
        self.clis.push(cli);
        self.clis.len() - 1
    }
    /// The same client connects again, carrying its session state along.
    pub fn reopen(&mut self, i: usize, conn: Connect) {
        let k = self.clis[i].tp.kind();
        let bytes = c::connect(&conn);
        let mut n = self.blank(conn, k);
        let old = &mut self.clis[i];
        n.rec = std::mem::take(&mut old.rec);
        n.carry = std::mem::take(&mut old.carry);
        n.carry.append(&mut old.out);
        n.auto = old.auto;
        n.lossy = old.lossy;
        n.next_pid = old.next_pid;
        n.send(&bytes);
        self.clis[i] = n;
    }

    pub fn pump(&mut self) -> bool {
        let mut any = false;
        for i in 0..self.clis.len() {
            any |= self.clis[i].pump(&mut self.issues);
            self.clis[i].poll_task();
        }
        any
    }

    /// Runs the broker until nothing moves any more.
    pub async fn settle(&mut self) {
        self.settles += 1;
        let mut quiet = 0;
        let mut last = clock::activity();
        let mut guard = 0u64;
        while quiet < self.rounds {
            tokio::task::yield_now().await;
            let any = self.pump();
            let now = clock::activity();
            if any || now != last {
                quiet = 0;
                last = now;
            } else {
                quiet += 1;
            }
            guard += 1;
            if guard > 3_000_000 {
                self.issue("C27", "never-quiet", "the broker and its clients keep exchanging data without end".into());
                return;
            }
        }
        // whatever was acknowledged has arrived by now
        if self.clis.iter().all(|c| c.end.lock().window.is_none()) {
            for c in &mut self.clis {
                c.done.clear();
            }
        }
    }
    /// Lets the broker run for a few scheduler rounds only.
    pub async fn step(&mut self, rounds: usize) {
        for _ in 0..rounds {
            tokio::task::yield_now().await;
        }
        self.pump();
    }
    /// Virtual time passes, in steps short enough for timers to stay in order.
    pub async fn pass(&mut self, d: Duration, step: Duration) {
        let mut left = d;
        while !left.is_zero() {
            let s = left.min(step);
            clock::advance(s);
            left -= s;
            self.settle().await;
        }
    }
    pub async fn connect(&mut self, conn: Connect) -> usize {
        let i = self.open(conn);
        self.settle().await;
        i
    }
    pub fn counts(&self) -> (u64, usize) {
        (self.global.online_clients_count(), self.global.clients_count())
    }
}

/// Runs one case on a fresh single-threaded runtime with virtual time.
pub fn case<F, Fut, T>(f: F) -> T
where
    F: FnOnce() -> Fut,
    Fut: Future<Output = T>,
{
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    clock::freeze();
    let alive = monlib::Alive::awake();
    let mut fut = Box::pin(f());
    let r = rt.block_on(std::future::poll_fn(|cx| {
        monlib::beat();
        fut.as_mut().poll(cx)
    }));
    drop(fut);
    drop(rt);
    drop(alive);
    clock::reset();
    r
}
