//! Configuration validity and its way through serialisation (C32).
use crate::model::report;
use crate::world::Issue;
use akasa_core::*;
use monlib::{Rng, Run};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::path::PathBuf;

fn addr(rng: &mut Rng) -> SocketAddr {
    let p = *rng.pick(&[0, 1, 1883, 65535]);
    if rng.bool() {
        SocketAddr::from(([127, 0, 0, rng.below(256) as u8], p))
    } else {
        SocketAddr::from(([0u16, 0xfe80, 0, 0, 0, 0, rng.below(65536) as u16, 1], p))
    }
}
fn path(rng: &mut Rng) -> PathBuf {
    rng.pick(&["", "/", "rel/ative", "/with space/ü", "C:\\x", "a:b #c"]).into()
}
fn opt<T>(rng: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if rng.chance(1, 3) { Some(f(rng)) } else { None }
}
fn plain(rng: &mut Rng) -> Listener {
    Listener { addr: addr(rng), reuse_port: rng.bool(), proxy_mode: *rng.pick(&[None, Some(ProxyMode::Normal), Some(ProxyMode::TlsTermination)]) }
}
fn tls(rng: &mut Rng) -> TlsListener {
    TlsListener {
        addr: addr(rng),
        reuse_port: rng.bool(),
        proxy: rng.bool(),
        // a TLS listener that verifies has an authority
        ca_file: Some(path(rng)),
        key_file: path(rng),
        cert_file: path(rng),
        verify_peer: rng.bool(),
        fail_if_no_peer_cert: rng.bool(),
    }
}
fn u16s(rng: &mut Rng) -> u16 {
    *rng.pick(&[0, 1, 2, 255, 256, 65534, 65535])
}
fn u32s(rng: &mut Rng) -> u32 {
    *rng.pick(&[1, 2, 127, 128, 65535, 65536, 268_435_455, 268_435_460, u32::MAX - 1, u32::MAX])
}

fn random(rng: &mut Rng) -> Config {
    let mut k = Config::default();
    // few faults each, so that every constraint decides alone often enough
    let fault = rng.chance(1, 2);
    let mut bad = |rng: &mut Rng| fault && rng.chance(1, 4);
    k.auth = AuthConfig { enable: rng.bool(), password_file: None };
    if k.auth.enable != bad(rng) {
        k.auth.password_file = Some(path(rng));
    }
    k.max_allowed_qos = if bad(rng) { *rng.pick(&[3, 4, 127, 128, 255]) } else { rng.below(3) as u8 };
    k.max_packet_size_client = if bad(rng) { 0 } else { u32s(rng) };
    k.max_packet_size_server = if bad(rng) { 0 } else { u32s(rng) };
    k.sasl_mechanisms = HashSet::new();
    if rng.chance(2, 3) {
        k.sasl_mechanisms.insert(SaslMechanism::ScramSha256);
    }
    if bad(rng) {
        k.sasl_mechanisms.insert(SaslMechanism::ScramSha256Plus);
    }
    k.scram_users = HashMap::new();
    for _ in 0..rng.below(4) {
        let u: String = (0..rng.below(6)).map(|_| *rng.pick(&['a', 'b', ':', ' ', 'é', '\n', '"', '\u{0}'])).collect();
        let (a, b) = (rng.below(40), rng.below(20));
        let iterations = if bad(rng) { *rng.pick(&[0, 1, 4095, 1024]) } else { *rng.pick(&[4096, 4097, 10000, 65535]) };
        k.scram_users.insert(u, ScramPasswordInfo { hashed_password: rng.bytes(a), iterations, salt: rng.bytes(b) });
    }
    k.listeners = Listeners { mqtt: None, mqtts: None, ws: None, wss: None, http: None };
    if !bad(rng) {
        k.listeners = Listeners {
            mqtt: opt(rng, plain),
            mqtts: opt(rng, tls),
            ws: opt(rng, plain),
            wss: opt(rng, tls),
            http: opt(rng, |r| Http { addr: addr(r), reuse_port: r.bool(), prometheus: r.bool() }),
        };
    }
    k.check_v310_client_id_length = rng.bool();
    k.shared_subscription_mode = *rng.pick(&[SharedSubscriptionMode::Random, SharedSubscriptionMode::HashClientId, SharedSubscriptionMode::HashTopicName]);
    k.inflight_timeout = *rng.pick(&[1, 15, u64::MAX / 2, u32::MAX as u64 + 7]);
    k.max_inflight_client = u16s(rng).max(1);
    k.max_inflight_server = u16s(rng).max(1);
    k.max_in_mem_pending_messages = *rng.pick(&[1, 256, 1 << 20]);
    k.max_in_db_pending_messages = *rng.pick(&[1, 65536, 1 << 40]);
    k.min_keep_alive = *rng.pick(&[0, 1, 10]);
    k.max_keep_alive = *rng.pick(&[10, 600, 65535]);
    k.multiple_subscription_id_in_publish = rng.bool();
    k.max_session_expiry_interval = u32s(rng);
    k.topic_alias_max = u16s(rng);
    k.retain_available = rng.bool();
    k.shared_subscription_available = rng.bool();
    k.subscription_id_available = rng.bool();
    k.wildcard_subscription_available = rng.bool();
    k.hook = HookConfig {
        enable_before_connect: rng.bool(),
        enable_after_connect: rng.bool(),
        enable_after_disconnect: rng.bool(),
        enable_publish: rng.bool(),
        enable_subscribe: rng.bool(),
        enable_unsubscribe: rng.bool(),
    };
    k
}

/// The documented constraints this configuration does not satisfy.
fn faults(k: &Config) -> Vec<&'static str> {
    let mut f = vec![];
    if k.auth.enable && k.auth.password_file.is_none() {
        f.push("authentication without a password file");
    }
    if ![0, 1, 2].contains(&k.max_allowed_qos) {
        f.push("maximum QoS");
    }
    if k.max_packet_size_client == 0 {
        f.push("client packet size");
    }
    if k.max_packet_size_server == 0 {
        f.push("server packet size");
    }
    if k.sasl_mechanisms.contains(&SaslMechanism::ScramSha256Plus) {
        f.push("mechanism");
    }
    if k.scram_users.values().any(|u| u.iterations < 4096) {
        f.push("iterations");
    }
    let l = &k.listeners;
    if !(l.mqtt.is_some() || l.mqtts.is_some() || l.ws.is_some() || l.wss.is_some() || l.http.is_some()) {
        f.push("no listener");
    }
    f
}

fn differences(a: &Config, b: &Config) -> Vec<String> {
    let mut d = vec![];
    macro_rules! cmp {
        ($($f:ident).+) => {
            if a.$($f).+ != b.$($f).+ {
                d.push(format!("{}: {:?} then {:?}", stringify!($($f).+), a.$($f).+, b.$($f).+));
            }
        };
    }
    cmp!(listeners);
    cmp!(auth);
    cmp!(scram_users);
    cmp!(sasl_mechanisms);
    cmp!(check_v310_client_id_length);
    cmp!(shared_subscription_mode);
    cmp!(max_allowed_qos);
    cmp!(inflight_timeout);
    cmp!(max_inflight_client);
    cmp!(max_inflight_server);
    cmp!(max_in_mem_pending_messages);
    cmp!(max_in_db_pending_messages);
    cmp!(min_keep_alive);
    cmp!(max_keep_alive);
    cmp!(multiple_subscription_id_in_publish);
    cmp!(max_session_expiry_interval);
    cmp!(max_packet_size_client);
    cmp!(max_packet_size_server);
    cmp!(topic_alias_max);
    cmp!(retain_available);
    cmp!(shared_subscription_available);
    cmp!(subscription_id_available);
    cmp!(wildcard_subscription_available);
    cmp!(hook.enable_before_connect);
    cmp!(hook.enable_after_connect);
    cmp!(hook.enable_after_disconnect);
    cmp!(hook.enable_publish);
    cmp!(hook.enable_subscribe);
    cmp!(hook.enable_unsubscribe);
    d
}

/// The example of docs/english/config.md, field by field, in another notation.
const DOCUMENTED: &str = r#"{
"listeners": {"mqtt": {"addr": "127.0.0.1:1883", "reuse_port": false, "proxy_mode": null},
 "mqtts": {"addr": "127.0.0.1:8883", "reuse_port": false, "proxy": false, "ca_file": "/path/to/mqtts.ca", "key_file": "/path/to/mqtts.key", "cert_file": "/path/to/mqtts.cert", "verify_peer": true, "fail_if_no_peer_cert": true},
 "ws": null, "wss": null, "http": {"addr": "127.0.0.1:8881", "reuse_port": false, "prometheus": true}},
"auth": {"enable": true, "password_file": "/path/to/passwords/file"},
"scram_users": {"user": {"hashed_password": "2a2a2a", "iterations": 4096, "salt": "73616c74"}},
"sasl_mechanisms": ["SCRAM-SHA-256"], "check_v310_client_id_length": false, "shared_subscription_mode": "Random",
"max_allowed_qos": 2, "inflight_timeout": 15, "max_inflight_client": 10, "max_inflight_server": 10,
"max_in_mem_pending_messages": 256, "max_in_db_pending_messages": 65536, "min_keep_alive": 10, "max_keep_alive": 65535,
"multiple_subscription_id_in_publish": false, "max_session_expiry_interval": 4294967295,
"max_packet_size_client": 268435460, "max_packet_size_server": 268435460, "topic_alias_max": 65535,
"retain_available": true, "shared_subscription_available": true, "subscription_id_available": true, "wildcard_subscription_available": true,
"hook": {"enable_before_connect": true, "enable_after_connect": true, "enable_after_disconnect": true, "enable_publish": true, "enable_subscribe": true, "enable_unsubscribe": true}}"#;

fn documented() -> Config {
    let mut k = Config::default();
    k.listeners.mqtt = Some(Listener { addr: "127.0.0.1:1883".parse().unwrap(), reuse_port: false, proxy_mode: None });
    k.listeners.mqtts = Some(TlsListener {
        addr: "127.0.0.1:8883".parse().unwrap(),
        reuse_port: false,
        proxy: false,
        ca_file: Some("/path/to/mqtts.ca".into()),
        key_file: "/path/to/mqtts.key".into(),
        cert_file: "/path/to/mqtts.cert".into(),
        verify_peer: true,
        fail_if_no_peer_cert: true,
    });
    k.listeners.http = Some(Http { addr: "127.0.0.1:8881".parse().unwrap(), reuse_port: false, prometheus: true });
    k
}

pub fn drive(run: &mut Run, cases: (u64, u64)) {
    let total = run.cases(cases.0, cases.1);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let judged = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut rng = Rng::fork(run.seed, n ^ 0xc0f);
        let mut issues = vec![];
        let mut bad = |sig: &str, detail: String| issues.push(Issue { prop: "C32", sig: sig.into(), detail });
        let k = match n {
            0 => Config::default(),
            1 => Config::new_allow_anonymous(),
            2 => match serde_json::from_str::<Config>(DOCUMENTED) {
                Ok(k) => {
                    let d = differences(&documented(), &k);
                    if !d.is_empty() {
                        bad("documented-configuration-read-differently", d.join("\n"));
                    }
                    k
                }
                Err(e) => {
                    bad("documented-configuration-unreadable", e.to_string());
                    Config::default()
                }
            },
            _ => random(&mut rng),
        };
        let f = faults(&k);
        let ok = k.is_valid();
        if ok != f.is_empty() {
            bad(if ok { "unusable-configuration-accepted" } else { "usable-configuration-refused" }, format!("{f:?}\n{k:?}"));
        }
        if n == 1 && k.auth.enable {
            bad("anonymous-configuration-wants-passwords", format!("{:?}", k.auth));
        }
        if ok {
            match serde_json::to_string(&k) {
                Ok(t) => match serde_json::from_str::<Config>(&t) {
                    Ok(b) => {
                        let d = differences(&k, &b);
                        if !d.is_empty() {
                            bad("configuration-changed-by-serialisation", d.join("\n"));
                        }
                        if !b.is_valid() {
                            bad("configuration-invalid-after-serialisation", t);
                        }
                    }
                    Err(e) => bad("own-serialisation-unreadable", format!("{e}: {t}")),
                },
                Err(e) => bad("configuration-not-serialisable", format!("{e}: {k:?}")),
            }
            if k.max_allowed_qos() as u8 != k.max_allowed_qos {
                bad("maximum-qos-differs", format!("{:?} for {}", k.max_allowed_qos(), k.max_allowed_qos));
            }
            run.count("configurations-accepted", 1);
        } else {
            run.count(&format!("refused: {}", if f.len() == 1 { f[0] } else { "several reasons" }), 1);
        }
            (issues, vec![format!("{f:?} {k:?}")])
        }));
        let (issues, key) = judged.unwrap_or_else(|p| {
            let why = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned());
            let i = Issue { prop: "C32", sig: "configuration-code-panics".into(), detail: why.unwrap_or_default() };
            (vec![i], vec![format!("panicked {n}")])
        });
        report(run, n, "C32", issues, &key);
        run.case(true, &key);
        if n < 2 {
            run.sample(&key);
        }
    }
}
