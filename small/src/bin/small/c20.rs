//! C20: the SCRAM client, driven by a reference server and by hostile servers.
use super::refscram::*;
use mon_small::protocols::scram::client::ScramClient;
use mon_small::protocols::scram::{Error, Kind};
use monlib::{Rng, Run};
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn run() -> ! {
    selftest();
    let mut run = Run::new(
        "C20",
        "one case = one handshake of the real client (random names, authorization ids, passwords) with a reference \
         server that is honest or tampers with one server message, plus out-of-order calls; non-trivial: all; \
         distinct: by tampering kind, name class, salt/iteration/password size",
        (20, 400),
    );
    let mut nonces = HashSet::new();
    let total = run.cases(150_000, 4_000_000);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut r = Rng::fork(run.seed, n);
        if catch_unwind(AssertUnwindSafe(|| one(&mut run, &mut r, n, &mut nonces))).is_err() {
            run.case(false, &0);
        }
        run.check_panics(&format!("case {n} (MON_CASE={n})"));
    }
    run.finish()
}

fn one(run: &mut Run, r: &mut Rng, n: u64, nonces: &mut HashSet<String>) {
    let name = name(r);
    let authz = if r.chance(1, 3) { Some(super::refscram::name(r)).filter(|a| !a.is_empty()) } else { None };
    let pw = password(r);
    let mut c = ScramClient::new(&name, &pw, authz.as_deref());
    let ctx = format!("name={name:?} authz={authz:?} password={pw:?}");
    let bad = |run: &mut Run, sig: &str, what: String| run.violation(sig, format!("case {n}: {what}\n{ctx}"));

    let order = r.chance(1, 4);
    if order {
        let a = c.decode_server_first("r=x,s=AAAA,i=1");
        let b = c.decode_server_final("v=AAAA");
        if a != Err(Error::InvalidState) || b != Err(Error::InvalidState) {
            bad(run, "order-before-first", format!("calls before client-first gave {a:?} / {b:?}"));
        }
    }
    let first = match c.encode_client_first() {
        Ok(f) => f,
        Err(e) => return bad(run, "no-client-first", format!("{e:?}")),
    };
    let gs2 = match &authz {
        Some(a) => format!("n,a={},", escape(a)),
        None => "n,,".into(),
    };
    let head = format!("{gs2}n={},r=", escape(&name));
    let Some(cn) = first.strip_prefix(&head) else {
        return bad(run, "client-first", format!("client-first {first:?}, expected {head:?}<nonce>"));
    };
    if cn.len() < 16 || !nonce_ok(cn) {
        return bad(run, "client-nonce-form", format!("client nonce {cn:?}"));
    }
    if !nonces.insert(cn.to_string()) {
        bad(run, "client-nonce-reuse", format!("client nonce {cn:?} used before"));
    }
    if order {
        let a = c.encode_client_first();
        let b = c.decode_server_final("v=AAAA");
        if a != Err(Error::InvalidState) || b != Err(Error::InvalidState) {
            bad(run, "order-after-first", format!("out-of-order calls gave {a:?} / {b:?}"));
        }
    }
    let salt = { let k = *r.pick(&[0usize, 1, 16, 16, 40]); r.bytes(k) };
    let iter = *r.pick(&[1u32, 2, 33, 200]);
    let full = { let k = r.range(1, 30); format!("{cn}{}", nonce(r, k)) };
    let good_first = format!("r={full},s={},i={iter}", b64(&salt));
    let kind = r.below(16);
    // (message, must the client refuse it)
    let (sf, refuse) = match kind {
        0 => {
            let mut f: Vec<char> = full.chars().collect();
            let i = r.below(cn.len());
            f[i] = if f[i] == 'A' { 'B' } else { 'A' };
            (format!("r={},s={},i={iter}", f.into_iter().collect::<String>(), b64(&salt)), Some("nonce"))
        }
        1 => {
            let other = match r.below(6) {
                0 => nonce(r, 48),
                1 => format!("x{full}"),
                2 => format!("{}{cn}", nonce(r, 12)),
                3 => cn.chars().rev().collect::<String>() + &nonce(r, 9),
                4 => full.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                _ => String::new(),
            };
            (format!("r={other},s={},i={iter}", b64(&salt)), Some(if other.starts_with(cn) { "accept" } else if other.is_empty() { "other" } else { "nonce" }))
        }
        2 => (format!("r={},s={},i={iter}", &cn[..cn.len() - 1], b64(&salt)), Some("nonce")),
        3 => (format!("r={full},s=!*,i={iter}"), Some("other")),
        4 => (format!("r={full},s={},i={}", b64(&salt), r.pick(&["0", "", "-1", "x", "99999999999", "1.5", " 4096"])), Some("other")),
        5 => (format!("m=ext,{good_first}"), Some("other")),
        6 => (format!("s={},r={full},i={iter}", b64(&salt)), Some("other")),
        7 => (format!("r={full},s={}", b64(&salt)), Some("other")),
        8 => (r.pick(&["", "r", "é", "名", "😀", ",", "r=", "e=other-error"]).to_string(), Some("other")),
        9 => {
            let d = damage(r, &good_first);
            (d, None)
        }
        _ => (good_first.clone(), Some("accept")),
    };
    let res = c.decode_server_first(&sf);
    let mut key = (kind, 99, name.contains([',', '=']), authz.is_some(), salt.len(), iter, pw.len().min(80) / 8);
    match refuse {
        Some("accept") => {}
        Some(k) => {
            run.case(true, &key);
            run.count("tampered_server_first", 1);
            match res {
                Ok(m) => bad(run, "bad-server-first-accepted", format!("server-first {sf:?} answered with {m:?}")),
                Err(e) => {
                    if k == "nonce" && e != Error::Protocol(Kind::InvalidNonce) {
                        bad(run, "nonce-error", format!("wrong nonce reported as {e:?}"));
                    }
                }
            }
            if c.decode_server_final("v=AAAA").is_ok() {
                bad(run, "final-after-error", "server-final accepted after a refused server-first".into());
            }
            return;
        }
        None => {
            run.case(true, &key);
            run.count("damaged_server_first", 1);
            return;
        }
    }
    let fin = match res {
        Ok(f) => f,
        Err(e) => return bad(run, "good-server-first-refused", format!("server-first {sf:?} refused: {e:?}")),
    };
    let salted = hi(pw.as_bytes(), &salt, iter);
    let wo = format!("c={},r={full}", b64(gs2.as_bytes()));
    let p = proofs(&salted, &format!("{},{sf},{wo}", &first[gs2.len()..]));
    let want = format!("{wo},p={}", b64(&p.proof));
    if fin != want {
        return bad(run, "client-final", format!("client-final {fin:?}, RFC value {want:?}"));
    }
    run.count("client_finals_compared", 1);
    if order && (c.encode_client_first().is_ok() || c.decode_server_first(&sf).is_ok()) {
        bad(run, "order-after-final", "out-of-order call accepted after client-final".into());
    }
    let k2 = r.below(9);
    key.1 = k2;
    run.case(true, &key);
    let sig = b64(&p.server_sig);
    let (msg, expect) = match k2 {
        0 => {
            let mut s = p.server_sig.clone();
            let i = r.below(32);
            s[i] ^= 1 << r.below(8);
            (format!("v={}", b64(&s)), 'x')
        }
        1 => (format!("v={}", b64(&p.server_sig[..r.below(32)])), 'x'),
        2 => (format!("v={}", b64(&p.proof)), 'x'),
        3 => ("v=!!".into(), 'x'),
        4 => ("e=invalid-proof".into(), 'e'),
        5 => (r.pick(&["", "v", "é", "名", "😀x", "aé", "x=1", "v=", "vé="]).to_string(), 'x'),
        6 => {
            let d = damage(r, &format!("v={sig}"));
            let same = d == format!("v={sig}");
            // extensions after the signature may be ignored or refused
            (d.clone(), if same { 'k' } else if d.starts_with(&format!("v={sig},")) { '?' } else { 'x' })
        }
        _ => (format!("v={sig}"), 'k'),
    };
    let res = c.decode_server_final(&msg);
    if n < 4 {
        run.sample(format!("{first} | {sf} | {fin} | {msg} -> {res:?}"));
    }
    match expect {
        'k' => {
            run.count("honest_server_final", 1);
            if let Err(e) = res {
                bad(run, "honest-server-refused", format!("right server signature refused: {e:?}"))
            }
        }
        'e' => {
            run.count("server_error_final", 1);
            if res != Err(Error::Authentication("invalid-proof".into())) {
                bad(run, "server-error", format!("{msg:?} gave {res:?}"))
            }
        }
        'x' => {
            run.count("tampered_server_final", 1);
            if res.is_ok() {
                bad(run, "bad-server-accepted", format!("server-final {msg:?} accepted, right one is v={sig}"))
            }
        }
        _ => {}
    }
    if c.decode_server_final(&format!("v={sig}")).is_ok() {
        bad(run, "second-final", "a second server-final was accepted".into());
    }
}
