//! Whole brokers on real sockets: TLS policy (C28) and HTTP endpoints (C31).
use crate::codec::*;
use crate::hooks::RecHook;
use crate::tls;
use crate::tp::{Kind, Tp, Ws};
use crate::world::{Issue, config};
use akasa_core::server::rt;
use akasa_core::{AuthConfig, Config, GlobalState, Http, Listener, Listeners, TlsListener};
use monlib::{Rng, Run};
use rustls::ClientConnection;
use rustls::client::ResolvesClientCert;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, mpsc};
use std::time::{Duration, Instant};

fn free_port() -> SocketAddr {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}

pub struct Server {
    pub global: Arc<GlobalState>,
    dead: mpsc::Receiver<String>,
}

impl Server {
    /// `Err` if the broker refuses to start with this configuration.
    pub fn start(k: Config, probe: Option<SocketAddr>) -> Result<Server, String> {
        let global = Arc::new(GlobalState::new(k));
        let (tx, dead) = mpsc::channel();
        let g = global.clone();
        std::thread::spawn(move || {
            let r = rt::start(RecHook::default(), g);
            let _ = tx.send(format!("{r:?}"));
        });
        let s = Server { global, dead };
        let until = Instant::now() + Duration::from_secs(20);
        loop {
            if let Ok(e) = s.dead.try_recv() {
                return Err(e);
            }
            if let Some(a) = probe
                && TcpStream::connect_timeout(&a, Duration::from_secs(1)).is_ok()
            {
                return Ok(s);
            }
            if Instant::now() > until {
                return Err("not listening".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
}

/// A blocking client over any transport.
pub struct Real {
    sock: TcpStream,
    tp: Tp,
    ver: Ver,
    buf: Vec<u8>,
    pub inbox: Vec<S>,
    pub over: Option<String>,
}

impl Real {
    pub fn open(addr: SocketAddr, tp: Tp, ver: Ver) -> std::io::Result<Real> {
        let sock = TcpStream::connect_timeout(&addr, Duration::from_secs(10))?;
        sock.set_nodelay(true)?;
        sock.set_read_timeout(Some(Duration::from_millis(20)))?;
        sock.set_write_timeout(Some(Duration::from_secs(5)))?;
        let mut r = Real { sock, tp, ver, buf: vec![], inbox: vec![], over: None };
        let h = r.tp.start();
        r.put(&h);
        Ok(r)
    }
    fn put(&mut self, b: &[u8]) {
        if !b.is_empty()
            && let Err(e) = self.sock.write_all(b)
        {
            self.over.get_or_insert(e.to_string());
        }
    }
    pub fn send(&mut self, b: &[u8]) {
        let w = self.tp.encode(b);
        self.put(&w);
    }
    /// Reads once, for at most 20 ms.
    pub fn pump(&mut self) {
        let mut b = [0; 8192];
        match self.sock.read(&mut b) {
            Ok(0) => {
                self.over.get_or_insert("end of file".into());
            }
            Ok(n) => match self.tp.decode(&b[..n]) {
                Ok((app, reply)) => {
                    self.put(&reply);
                    self.buf.extend(app);
                    while let Ok(Some(n)) = split(&self.buf) {
                        let raw: Vec<u8> = self.buf.drain(..n).collect();
                        match decode(self.ver, &raw) {
                            Ok(p) => self.inbox.push(p),
                            Err(e) => {
                                self.over.get_or_insert(format!("{e:?}"));
                            }
                        }
                    }
                }
                Err(e) => {
                    self.over.get_or_insert(e);
                }
            },
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {}
            Err(e) => {
                self.over.get_or_insert(e.to_string());
            }
        }
    }
    pub fn wait(&mut self, secs: u64, mut f: impl FnMut(&Real) -> bool) -> bool {
        let until = Instant::now() + Duration::from_secs(secs);
        loop {
            if f(self) {
                return true;
            }
            if self.over.is_some() || Instant::now() > until {
                return false;
            }
            self.pump();
        }
    }
    pub fn connack(&self) -> Option<u8> {
        self.inbox.iter().find_map(|p| match p {
            S::Connack { code, .. } => Some(*code),
            _ => None,
        })
    }
}

// ---------------------------------------------------------------- C28

#[derive(Debug)]
struct Presents(Arc<rustls::sign::CertifiedKey>);
impl ResolvesClientCert for Presents {
    fn resolve(&self, _: &[&[u8]], _: &[rustls::SignatureScheme]) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
    fn has_certs(&self) -> bool {
        true
    }
}

/// A client that presents a chain and signs with a key, matching or not.
fn client(chain: &[&str], key: Option<&str>) -> Arc<rustls::ClientConfig> {
    let mut roots = rustls::RootCertStore::empty();
    for c in tls::certs("ca") {
        roots.add(c).unwrap();
    }
    let b = rustls::ClientConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
        .with_safe_default_protocol_versions()
        .unwrap()
        .with_root_certificates(roots);
    Arc::new(match key {
        None => b.with_no_client_auth(),
        Some(k) => {
            let signer = rustls::crypto::ring::sign::any_supported_type(&tls::key(k)).unwrap();
            let chain = chain.iter().flat_map(|c| tls::certs(c)).collect();
            b.with_client_cert_resolver(Arc::new(Presents(Arc::new(rustls::sign::CertifiedKey::new(chain, signer)))))
        }
    })
}

#[derive(Clone, Debug)]
struct Policy {
    verify: bool,
    required: bool,
    ca: &'static str,
}

/// name, chain, key
const SITUATIONS: [(&str, &[&str], Option<&str>); 10] = [
    ("none", &[], None),
    ("issued", &["client"], Some("client")),
    ("issued by the other authority", &["stranger"], Some("stranger")),
    ("self-signed", &["selfs"], Some("selfs")),
    ("issued by an impostor of the same name", &["forged", "imposter"], Some("forged")),
    ("issued, chain of the other", &["client", "otherca"], Some("client")),
    ("somebody's certificate without its key", &["client"], Some("stranger")),
    ("expired", &["expired"], Some("expired")),
    ("not for clients", &["wrongeku"], Some("wrongeku")),
    ("the authority's own certificate", &["ca"], Some("client")),
];

fn allowed(p: &Policy, situation: &str) -> bool {
    if !p.verify {
        return true;
    }
    match situation {
        "none" => !p.required,
        "issued" | "issued, chain of the other" => p.ca == "ca" || p.ca == "both",
        "issued by the other authority" => p.ca == "otherca" || p.ca == "both",
        _ => false,
    }
}

fn listener(p: &Policy, addr: SocketAddr, reuse_port: bool, proxy: bool) -> TlsListener {
    let d = tls::dir();
    TlsListener {
        addr,
        reuse_port,
        proxy,
        ca_file: match p.ca {
            "" => None,
            "both" => Some(scratch().join("both.pem")),
            "empty" => Some(scratch().join("empty.pem")),
            "garbage" => Some(scratch().join("garbage.pem")),
            "missing" => Some(scratch().join("missing.pem")),
            n => Some(d.join(format!("{n}.pem"))),
        },
        key_file: d.join("server.key"),
        cert_file: d.join("server.pem"),
        verify_peer: p.verify,
        fail_if_no_peer_cert: p.required,
    }
}

fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("akasa-mon-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn proxy_header(rng: &mut Rng) -> Vec<u8> {
    let mut h = b"\r\n\r\n\0\r\nQUIT\n\x21\x11\0\x0c".to_vec();
    h.extend(rng.bytes(12));
    h
}

pub fn tls_drive(run: &mut Run) {
    let d = scratch();
    let pem = |n: &str| std::fs::read_to_string(tls::dir().join(format!("{n}.pem"))).unwrap();
    std::fs::write(d.join("both.pem"), pem("ca") + &pem("otherca")).unwrap();
    std::fs::write(d.join("empty.pem"), "").unwrap();
    std::fs::write(d.join("garbage.pem"), "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n").unwrap();
    let mut rng = Rng::fork(run.seed, 0x715);
    // every usable policy on either listener, in an order of its own
    let mut usable = vec![];
    for verify in [false, true] {
        for required in [false, true] {
            for ca in ["ca", "otherca", "both"] {
                usable.push(Policy { verify, required, ca });
            }
        }
        if !verify {
            usable.push(Policy { verify, required: true, ca: "" });
            usable.push(Policy { verify, required: false, ca: "" });
        }
    }
    let broken: Vec<Policy> = ["", "empty", "garbage", "missing"].iter().flat_map(|ca| [true, false].map(|required| Policy { verify: true, required, ca })).collect();
    let rounds = if run.quick() { 1 } else { 20 };
    for round in 0..rounds {
        let (mut a, mut b) = (usable.clone(), usable.clone());
        rng.shuffle(&mut a);
        rng.shuffle(&mut b);
        let pairs: Vec<(Policy, Policy)> = a.into_iter().zip(b).collect();
        for (n, (pm, pw)) in pairs.into_iter().enumerate() {
            if !run.more() {
                break;
            }
            serve(run, &mut rng, round * 100 + n as u64, pm, pw);
        }
        for (n, p) in broken.iter().enumerate() {
            unusable(run, &mut rng, round * 100 + 50 + n as u64, p);
        }
    }
    let _ = std::fs::remove_dir_all(d);
}

fn tls_config(p: &Policy, q: &Policy, rng: &mut Rng) -> (Config, SocketAddr, SocketAddr, bool) {
    let (am, aw) = (free_port(), free_port());
    let mut k = config();
    let proxy = rng.chance(1, 4);
    let reuse = rng.chance(1, 4);
    k.listeners = Listeners {
        mqtt: None,
        mqtts: Some(listener(p, am, reuse, proxy)),
        ws: None,
        wss: Some(listener(q, aw, reuse, proxy)),
        http: None,
    };
    (k, am, aw, proxy)
}

/// A client's fate: served (accepted and answered) or not.
fn try_client(addr: SocketAddr, tp: Tp, ver: Ver, head: &[u8], id: &str, patience: u64) -> Result<bool, String> {
    let mut c = match Real::open(addr, Tp::Plain, ver) {
        Ok(c) => c,
        Err(e) => return Err(e.to_string()),
    };
    c.put(head);
    c.tp = tp;
    let h = c.tp.start();
    c.put(&h);
    let con = Connect { keep_alive: 100, ..Connect::new(ver, id, true) };
    c.send(&connect(&con));
    c.wait(patience, |c| c.connack().is_some());
    if c.connack() != Some(0) {
        return if c.over.is_some() || c.connack().is_some() { Ok(false) } else { Err("neither served nor closed".into()) };
    }
    c.send(&[0xc0, 0]);
    if !c.wait(patience, |c| c.inbox.contains(&S::Pingresp)) {
        return Err(format!("accepted but not answered: {:?}", c.over));
    }
    c.send(&[0xe0, 0]);
    Ok(true)
}

fn serve(run: &mut Run, rng: &mut Rng, n: u64, pm: Policy, pw: Policy) {
    let (k, am, aw, proxy) = tls_config(&pm, &pw, rng);
    let mut trace = vec![format!("mqtts {pm:?} wss {pw:?} proxy {proxy}")];
    let mut issues: Vec<(String, String)> = vec![];
    let s = match Server::start(k, Some(am)) {
        Ok(s) => s,
        Err(e) => {
            run.violation("usable-tls-configuration-refused", format!("{trace:?}: {e}"));
            return;
        }
    };
    // the second listener
    let until = Instant::now() + Duration::from_secs(10);
    while TcpStream::connect_timeout(&aw, Duration::from_secs(1)).is_err() && Instant::now() < until {
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut jobs: Vec<(bool, usize)> = (0..SITUATIONS.len()).flat_map(|i| [(false, i), (true, i)]).collect();
    rng.shuffle(&mut jobs);
    let mut reused: BTreeMap<usize, Arc<rustls::ClientConfig>> = BTreeMap::new();
    for (i, (wss, sit)) in jobs.into_iter().enumerate() {
        let (name, chain, key) = SITUATIONS[sit];
        let p = if wss { &pw } else { &pm };
        let ver = *rng.pick(&[Ver::V311, Ver::V5]);
        let want = allowed(p, name);
        // the same configuration twice: the second time it may resume its TLS session
        let cc = reused.entry(sit).or_insert_with(|| client(chain, key)).clone();
        for again in 0..if rng.chance(1, 3) { 2 } else { 1 } {
            let conn = Box::new(ClientConnection::new(cc.clone(), "localhost".try_into().unwrap()).unwrap());
            let tp = if wss { Tp::Wss(conn, Ws::default()) } else { Tp::Tls(conn) };
            let head = if proxy { proxy_header(rng) } else { vec![] };
            let r = try_client(if wss { aw } else { am }, tp, ver, &head, &format!("c{i}-{again}"), 15);
            let t = format!("{} client with certificate {name:?}, visit {again}: {r:?}", if wss { "wss" } else { "mqtts" });
            trace.push(t.clone());
            match r {
                Ok(got) if got != want => {
                    let sig = if got { "client-served-against-the-policy" } else { "client-refused-against-the-policy" };
                    issues.push((sig.into(), t));
                }
                Ok(true) => run.count("tls-clients-served", 1),
                Ok(false) => run.count("tls-clients-refused", 1),
                Err(e) if want => issues.push(("client-refused-against-the-policy".into(), format!("{t} {e}"))),
                Err(_) => run.count("tls-clients-left-without-an-answer", 1),
            }
        }
        if rng.chance(1, 4) {
            // no TLS at all
            let ver = *rng.pick(&[Ver::V311, Ver::V5]);
            let tp = if wss && rng.bool() { Tp::Ws(Ws::default()) } else { Tp::Plain };
            let head = if proxy { proxy_header(rng) } else { vec![] };
            let r = try_client(if wss { aw } else { am }, tp, ver, &head, "plain", 7);
            trace.push(format!("plain-text client: {r:?}"));
            if r == Ok(true) {
                issues.push(("plain-text-client-served-on-a-tls-listener".into(), trace.last().unwrap().clone()));
            }
            run.count("plain-text-clients-refused", 1);
        }
    }
    let _ = s.global.online_clients_count();
    finish(run, n, "C28", trace, issues);
}

fn unusable(run: &mut Run, rng: &mut Rng, n: u64, p: &Policy) {
    let ok = Policy { verify: false, required: false, ca: "" };
    let wss = rng.bool();
    let (k, am, aw, proxy) = if wss { tls_config(&ok, p, rng) } else { tls_config(p, &ok, rng) };
    let addr = if wss { aw } else { am };
    let mut trace = vec![format!("{} {p:?}", if wss { "wss" } else { "mqtts" })];
    let mut issues = vec![];
    match Server::start(k, Some(addr)) {
        Err(_) => run.count("unusable-configurations-refused", 1),
        Ok(_s) => {
            // then nobody may pass who could not be verified
            for (name, chain, key) in SITUATIONS {
                if name == "none" && !p.required {
                    continue;
                }
                let conn = Box::new(ClientConnection::new(client(chain, key), "localhost".try_into().unwrap()).unwrap());
                let tp = if wss { Tp::Wss(conn, Ws::default()) } else { Tp::Tls(conn) };
                let head = if proxy { proxy_header(rng) } else { vec![] };
                let r = try_client(addr, tp, Ver::V311, &head, "x", 7);
                trace.push(format!("{name}: {r:?}"));
                if r == Ok(true) {
                    issues.push(("client-served-although-it-can-not-be-verified".to_string(), trace.last().unwrap().clone()));
                }
            }
        }
    }
    finish(run, n, "C28", trace, issues);
}

fn finish(run: &mut Run, n: u64, prop: &'static str, trace: Vec<String>, issues: Vec<(String, String)>) {
    let issues = issues.into_iter().map(|(sig, detail)| Issue { prop, sig, detail }).collect();
    crate::model::report(run, n, prop, issues, &trace);
    run.case(trace.len() > 1, &trace);
    if n < 2 {
        run.sample(trace.iter().take(8).collect::<Vec<_>>());
    }
}

// ---------------------------------------------------------------- C31

fn get(addr: SocketAddr, path: &str) -> Result<(u16, Vec<(String, String)>, Vec<u8>), String> {
    let mut s = TcpStream::connect_timeout(&addr, Duration::from_secs(10)).map_err(|e| format!("connect: {e}"))?;
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    s.write_all(format!("GET {path} HTTP/1.1\r\nHost: {addr}\r\nConnection: close\r\n\r\n").as_bytes()).map_err(|e| e.to_string())?;
    let mut b = vec![];
    s.read_to_end(&mut b).map_err(|e| format!("read: {e}"))?;
    let at = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no header")?;
    let head = String::from_utf8(b[..at].to_vec()).map_err(|e| e.to_string())?;
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("");
    let code = first.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or(format!("status line {first:?}"))?;
    let hs: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
    let body = b[at + 4..].to_vec();
    if let Some((_, n)) = hs.iter().find(|(k, _)| k == "content-length")
        && n.parse() != Ok(body.len())
    {
        return Err(format!("content-length {n}, body of {}", body.len()));
    }
    Ok((code, hs, body))
}

/// The samples of a text exposition, each with a declared type.
fn exposition(body: &[u8]) -> Result<BTreeMap<String, f64>, String> {
    let t = std::str::from_utf8(body).map_err(|e| e.to_string())?;
    if !t.ends_with('\n') {
        return Err("does not end with a line feed".into());
    }
    let mut types: BTreeMap<&str, &str> = BTreeMap::new();
    let mut out = BTreeMap::new();
    for l in t.lines() {
        if l.is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix('#') {
            let w: Vec<&str> = r.split_whitespace().collect();
            if w.first() == Some(&"TYPE") {
                if w.len() != 3 || !["counter", "gauge", "histogram", "summary", "untyped"].contains(&w[2]) || types.insert(w[1], w[2]).is_some() {
                    return Err(format!("line {l:?}"));
                }
            }
            continue;
        }
        let mut w = l.split(' ');
        let (name, value) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
        let bare = name.split('{').next().unwrap();
        let fine = !bare.is_empty() && bare.chars().enumerate().all(|(i, c)| c.is_ascii_alphabetic() || c == '_' || c == ':' || (i > 0 && c.is_ascii_digit()));
        if !fine || w.next().is_some() || !types.contains_key(bare) {
            return Err(format!("line {l:?}"));
        }
        let v: f64 = value.parse().map_err(|_| format!("line {l:?}"))?;
        if out.insert(name.to_string(), v).is_some() {
            return Err(format!("{name} twice"));
        }
    }
    Ok(out)
}

fn online(addr: SocketAddr) -> Result<f64, String> {
    let (code, _, body) = get(addr, "/metrics")?;
    if code != 200 {
        return Err(format!("status {code}"));
    }
    exposition(&body)?.get("ONLINE_CLIENTS").copied().ok_or("no ONLINE_CLIENTS".into())
}

fn health(addr: SocketAddr) -> Result<(), String> {
    let (code, _, body) = get(addr, "/health")?;
    let v: serde_json::Value = serde_json::from_slice(&body).map_err(|e| e.to_string())?;
    if code != 200 || v["status"] != "ok" {
        return Err(format!("status {code} {v}"));
    }
    Ok(())
}

pub fn http_drive(run: &mut Run) {
    let total = if run.quick() { 100 } else { 2000 };
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut rng = Rng::fork(run.seed, n ^ 0x3170);
        let (am, ah) = (free_port(), free_port());
        let mut k = config();
        let prometheus = n % 4 != 3;
        let auth = rng.chance(1, 3);
        k.auth = AuthConfig { enable: auth, password_file: Some("/nonexistent".into()) };
        k.listeners = Listeners {
            mqtt: Some(Listener { addr: am, reuse_port: rng.bool(), proxy_mode: None }),
            mqtts: None,
            ws: None,
            wss: None,
            http: Some(Http { addr: ah, reuse_port: rng.bool(), prometheus }),
        };
        let mut trace = vec![format!("prometheus {prometheus} authentication {auth}")];
        let mut issues: Vec<(String, String)> = vec![];
        let s = match Server::start(k, Some(ah)) {
            Ok(s) => s,
            Err(e) => {
                run.violation("http-endpoint-not-served", e);
                continue;
            }
        };
        let until = Instant::now() + Duration::from_secs(10);
        while TcpStream::connect_timeout(&am, Duration::from_secs(1)).is_err() && Instant::now() < until {
            std::thread::sleep(Duration::from_millis(5));
        }
        if auth {
            let salt = vec![7; 12];
            let hashed_password = crate::creds::hash(akasa_core::HashAlgorithm::Sha256, &salt, b"secret");
            s.global.auth_passwords.insert("user".into(), akasa_core::AuthPassword { hash_algorithm: akasa_core::HashAlgorithm::Sha256, hashed_password, salt });
        }
        if !prometheus {
            for path in ["/metrics", "/metrics/"] {
                match get(ah, path) {
                    Ok((404, ..)) => {}
                    r => issues.push(("metrics-served-although-disabled".into(), format!("{path}: {r:?}"))),
                }
            }
            trace.push("metrics absent".into());
        }
        // others keep reading while clients come and go
        let stop = Arc::new(AtomicBool::new(false));
        let range = Arc::new(Mutex::new((0usize, 0usize)));
        let found: Arc<Mutex<Vec<(String, String)>>> = Arc::default();
        let reads = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let readers: Vec<_> = (0..2)
            .map(|_| {
                let (stop, range, found, reads) = (stop.clone(), range.clone(), found.clone(), reads.clone());
                std::thread::spawn(move || {
                    while !stop.load(Ordering::SeqCst) {
                        if let Err(e) = health(ah) {
                            found.lock().unwrap().push(("health-not-ok".into(), e));
                        }
                        if prometheus {
                            let before = *range.lock().unwrap();
                            let r = online(ah);
                            let after = *range.lock().unwrap();
                            match r {
                                // one operation at a time moves the count by one, a take-over by one for a moment
                                Ok(v) => {
                                    let (lo, hi) = (before.0.min(after.0).saturating_sub(1), before.1.max(after.1) + 1);
                                    if before == after && (v < lo as f64 || v > hi as f64) {
                                        found.lock().unwrap().push(("metric-far-from-the-count".into(), format!("{v} not in {lo}..={hi}")));
                                    }
                                }
                                Err(e) => found.lock().unwrap().push(("metrics-malformed".into(), e)),
                            }
                        }
                        reads.fetch_add(1, Ordering::Relaxed);
                    }
                })
            })
            .collect();
        let mut clis: Vec<(String, Real)> = vec![];
        let mut idle: Vec<Real> = vec![];
        let steps = if run.quick() { 30 } else { 60 };
        for step in 0..steps {
            let expect;
            let before = clis.len();
            match rng.below(10) {
                0..=4 => {
                    // a client comes, maybe one that is there already
                    let ver = *rng.pick(&[Ver::V311, Ver::V5]);
                    let id = format!("{}{}", if ver.v5() { "v" } else { "t" }, rng.below(12));
                    let right = !auth || rng.chance(3, 4);
                    let mut c = Connect::new(ver, &id, rng.bool());
                    c.keep_alive = 600;
                    if ver.v5() && !c.clean {
                        c.props.push((P_SEI, PV::U32(600)));
                    }
                    if auth {
                        c.user = Some("user".into());
                        c.pass = Some(if right { b"secret".to_vec() } else { b"other".to_vec() });
                    }
                    trace.push(format!("{id} connects, {}", if right { "right" } else { "wrong" }));
                    let old = clis.iter().position(|(i, _)| *i == id);
                    let up = before + if right && old.is_none() { 1 } else { 0 };
                    *range.lock().unwrap() = (before.min(up), before.max(up));
                    let Ok(mut r) = Real::open(am, Tp::Plain, ver) else {
                        issues.push(("listener-not-served".into(), id));
                        break;
                    };
                    r.send(&connect(&c));
                    r.wait(15, |r| r.connack().is_some());
                    if right != (r.connack() == Some(0)) {
                        issues.push(("unexpected-connack".into(), format!("{id}: {:?} {:?}", r.connack(), r.over)));
                        break;
                    }
                    if right {
                        if let Some(o) = old {
                            clis.remove(o);
                        }
                        clis.push((id, r));
                    }
                    expect = clis.len();
                }
                5 | 6 if !clis.is_empty() => {
                    let at = rng.below(clis.len());
                    *range.lock().unwrap() = (before - 1, before);
                    let (id, mut r) = clis.remove(at);
                    trace.push(format!("{id} disconnects"));
                    r.send(&[0xe0, 0]);
                    expect = clis.len();
                }
                7 if !clis.is_empty() => {
                    let at = rng.below(clis.len());
                    *range.lock().unwrap() = (before - 1, before);
                    let (id, _) = clis.remove(at);
                    trace.push(format!("{id} is gone"));
                    expect = clis.len();
                }
                8 => {
                    // connections that never become clients
                    *range.lock().unwrap() = (before, before);
                    trace.push("an idle connection".into());
                    if let Ok(mut r) = Real::open(am, Tp::Plain, Ver::V5) {
                        let b = rng.below(3);
                        r.send(&[0x10, 0x20, 0, 4][..b]);
                        idle.push(r);
                    }
                    expect = before;
                }
                _ => {
                    *range.lock().unwrap() = (before, before);
                    trace.push("garbage".into());
                    if let Ok(mut r) = Real::open(am, Tp::Plain, Ver::V5) {
                        let n = rng.range(1, 60);
                        let b = rng.bytes(n);
                        r.send(&b);
                    }
                    if !clis.is_empty() {
                        let at = rng.below(clis.len());
                        let ver = clis[at].1.ver;
                        let p = Pub { topic: "a/b".into(), payload: b"x".to_vec(), ..Pub::default() };
                        clis[at].1.send(&publish(ver, &p));
                        clis[at].1.send(&subscribe(ver, 1, &vec![], &[("a/#".into(), 0)]));
                    }
                    expect = before;
                }
            }
            // the count settles on the right value and stays there
            let until = Instant::now() + Duration::from_secs(20);
            let mut last;
            loop {
                last = if prometheus { online(ah) } else { Ok(s.global.online_clients_count() as f64) };
                if last == Ok(expect as f64) || Instant::now() > until {
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            if last != Ok(expect as f64) {
                issues.push(("metric-differs-from-the-clients-online".into(), format!("step {step}: {expect} clients are connected, {last:?} reported, the broker counts {}", s.global.online_clients_count())));
                break;
            }
            *range.lock().unwrap() = (expect, expect);
            run.count("counts-compared", 1);
        }
        stop.store(true, Ordering::SeqCst);
        for r in readers {
            let _ = r.join();
        }
        issues.extend(std::mem::take(&mut *found.lock().unwrap()));
        run.count("concurrent-reads", reads.load(Ordering::Relaxed));
        // they are not served by accident on other paths
        for path in ["/", "/healthz", "/metric"] {
            if let Err(e) = get(ah, path) {
                issues.push(("http-endpoint-broken".into(), format!("{path}: {e}")));
            }
        }
        finish(run, n, "C31", trace, issues);
    }
}

#[allow(dead_code)]
fn kinds(_: Kind) {}
