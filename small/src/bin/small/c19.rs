//! C19: the SCRAM server, driven by a reference client and by hostile clients.
use super::refscram::*;
use mon_small::protocols::scram::server::ScramServer;
use mon_small::protocols::scram::{AuthenticationStatus as St, Error, hash_password};
use monlib::{Rng, Run};
use std::collections::HashSet;
use std::num::NonZeroU32;
use std::panic::{AssertUnwindSafe, catch_unwind};

struct Hs {
    flag: &'static str,
    name: String,
    authz: Option<String>,
    cnonce: String,
    ext: String,
    password: String,
    salt: Vec<u8>,
    iter: u16,
}
impl Hs {
    fn gen_(r: &mut Rng) -> Hs {
        let name = if r.chance(1, 3) { name(r) } else { plain_name(r) };
        let authz = match r.below(6) {
            0 | 1 | 2 => None,
            3 | 4 => Some(name.clone()),
            _ => Some(super::refscram::name(r)),
        };
        let cl = *r.pick(&[1usize, 8, 24, 24, 64]);
        let sl = *r.pick(&[0usize, 1, 12, 16, 16, 33, 64]);
        Hs {
            flag: if r.chance(1, 4) { "y" } else { "n" },
            name,
            authz: authz.filter(|a| !a.is_empty()),
            cnonce: nonce(r, cl),
            ext: if r.chance(1, 10) { ",x=ext".into() } else { String::new() },
            password: password(r),
            salt: r.bytes(sl),
            iter: *r.pick(&[1u16, 2, 7, 64, 300]),
        }
    }
    fn gs2(&self) -> String {
        match &self.authz {
            Some(a) => format!("{},a={},", self.flag, escape(a)),
            None => format!("{},,", self.flag),
        }
    }
    fn bare(&self) -> String {
        format!("n={},r={}{}", escape(&self.name), self.cnonce, self.ext)
    }
    fn first(&self) -> String {
        self.gs2() + &self.bare()
    }
    fn salted(&self) -> Vec<u8> {
        hi(self.password.as_bytes(), &self.salt, self.iter as u32)
    }
    fn show(&self) -> String {
        format!("client-first={:?} password={:?} salt={:?} i={}", self.first(), self.password, self.salt, self.iter)
    }
}

#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
enum Attack {
    None,
    FlipProofBit,
    WrongPassword,
    WrongSalt,
    ShortProof,
    LongProof,
    EmptyProof,
    BadBase64,
    ZeroProof,
    ServerSigAsProof,
    ClientNonceOnly,
    OtherNonce,
    NonceSuffix,
    OtherChannel,
    StripChannel,
    SwapFields,
    DropField,
    Damage,
    ReplayOther,
}
const ATTACKS: &[Attack] = &[
    Attack::FlipProofBit,
    Attack::WrongPassword,
    Attack::WrongSalt,
    Attack::ShortProof,
    Attack::LongProof,
    Attack::EmptyProof,
    Attack::BadBase64,
    Attack::ZeroProof,
    Attack::ServerSigAsProof,
    Attack::ClientNonceOnly,
    Attack::OtherNonce,
    Attack::NonceSuffix,
    Attack::OtherChannel,
    Attack::StripChannel,
    Attack::SwapFields,
    Attack::DropField,
    Attack::Damage,
    Attack::ReplayOther,
];

pub fn run() -> ! {
    selftest();
    let mut run = Run::new(
        "C19",
        "one case = one handshake of a reference RFC 5802 client (random names, passwords, salts, flags) against \
         the real server, honest or with one of 18 attacks on the final message, or a sequence of malformed/out-of-order \
         messages; non-trivial: the server reached the stage under test; distinct: by attack, flag, name class, lengths",
        (25, 600),
    );
    let mut server_nonces: HashSet<String> = HashSet::new();
    let mut last_final = String::new();
    let total = run.cases(150_000, 4_000_000);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut r = Rng::fork(run.seed, n);
        let out = catch_unwind(AssertUnwindSafe(|| {
            if n % 4 == 3 {
                grammar(&mut run, &mut r, n)
            } else {
                handshake(&mut run, &mut r, n, &mut server_nonces, &mut last_final)
            }
        }));
        if out.is_err() {
            run.case(false, &0);
        }
        run.check_panics(&format!("case {n} (MON_CASE={n})"));
    }
    run.count("server_nonces_distinct", server_nonces.len() as u64);
    run.finish()
}

fn handshake(run: &mut Run, r: &mut Rng, n: u64, nonces: &mut HashSet<String>, last_final: &mut String) {
    let hs = Hs::gen_(r);
    let attack = if r.chance(2, 5) { Attack::None } else { *r.pick(ATTACKS) };
    let mut s = ScramServer::new();
    let bad = |run: &mut Run, sig: &str, what: String| {
        run.violation(sig, format!("case {n}: {what}\nattack {attack:?}\n{}", hs.show()));
    };
    // out-of-order calls first: refused, and without effect on the handshake that follows
    if r.chance(1, 5) {
        if s.decode_client_final("c=biws,r=x,p=AAAA").is_ok() {
            bad(run, "final-before-first", "client-final accepted before client-first".into());
        }
        if s.encode_server_first(vec![0; 32], b"s", 1, &mut rand::rng()).is_ok() {
            bad(run, "server-first-before-first", "server-first produced before client-first".into());
        }
        run.count("out_of_order_calls", 2);
    }
    if let Err(e) = s.decode_client_first(&hs.first()) {
        bad(run, "valid-first-refused", format!("well-formed client-first refused: {e:?}"));
        return;
    }
    if s.authcid() != Some(hs.name.as_str()) {
        bad(run, "authcid", format!("user name reported as {:?}, expected {:?}", s.authcid(), hs.name));
    }
    if s.authzid() != Some(hs.authz.as_deref()) {
        bad(run, "authzid", format!("authorization id reported as {:?}, expected {:?}", s.authzid(), hs.authz));
    }
    if r.chance(1, 6) && s.decode_client_final("c=biws,r=x,p=AAAA").is_ok() {
        bad(run, "final-before-challenge", "client-final accepted before the challenge was sent".into());
    }
    let salted = hs.salted();
    if n % 64 == 0 {
        let own = hash_password(&hs.password, NonZeroU32::new(hs.iter as u32).unwrap(), &hs.salt);
        if own.as_slice() != salted {
            bad(run, "salted-password", format!("salted password {own:?} differs from RFC value {salted:?}"));
        }
        run.count("salted_passwords_compared", 1);
    }
    let first = match s.encode_server_first(salted.clone(), &hs.salt, hs.iter, &mut rand::rng()) {
        Ok(f) => f,
        Err(e) => return bad(run, "no-server-first", format!("no challenge produced: {e:?}")),
    };
    // r=<client nonce><fresh part>,s=..,i=..
    let parts: Vec<&str> = first.split(',').collect();
    let ok = parts.len() == 3
        && parts[0].starts_with("r=")
        && parts[1] == format!("s={}", b64(&hs.salt))
        && parts[2] == format!("i={}", hs.iter);
    if !ok {
        return bad(run, "server-first-form", format!("challenge {first:?} is not r=,s=,i= of the configured values"));
    }
    let full = parts[0][2..].to_string();
    if !full.starts_with(&hs.cnonce) || full.len() < hs.cnonce.len() + 8 || !nonce_ok(&full) {
        return bad(run, "server-nonce-form", format!("nonce {full:?} does not extend {:?} properly", hs.cnonce));
    }
    if !nonces.insert(full[hs.cnonce.len()..].to_string()) {
        bad(run, "server-nonce-reuse", format!("server nonce part of {full:?} used before"));
    }
    if s.authcid() != Some(hs.name.as_str()) {
        bad(run, "authcid-later", format!("after the challenge the user name is {:?}, expected {:?}", s.authcid(), hs.name));
    }
    let honest_c = format!("c={}", b64(hs.gs2().as_bytes()));
    let am = |c: &str, nn: &str| format!("{},{first},{c},r={nn}", hs.bare());
    let honest = proofs(&salted, &am(&honest_c, &full));
    let honest_final = format!("{honest_c},r={full},p={}", b64(&honest.proof));
    let with_proof = |p: &[u8]| format!("{honest_c},r={full},p={}", b64(p));
    let mut uncertain = false;
    let msg = match attack {
        Attack::None => honest_final.clone(),
        Attack::FlipProofBit => {
            let mut p = honest.proof.clone();
            let i = r.below(p.len());
            p[i] ^= 1 << r.below(8);
            with_proof(&p)
        }
        Attack::WrongPassword => {
            let mut pw = hs.password.clone();
            if r.bool() {
                pw.push('x')
            } else {
                pw = damage(r, &pw);
            }
            // HMAC pads short keys with zero bytes: such passwords are the same key
            uncertain = pw.trim_end_matches('\0') == hs.password.trim_end_matches('\0');
            with_proof(&proofs(&hi(pw.as_bytes(), &hs.salt, hs.iter as u32), &am(&honest_c, &full)).proof)
        }
        Attack::WrongSalt => {
            let mut sa = hs.salt.clone();
            sa.push(1);
            with_proof(&proofs(&hi(hs.password.as_bytes(), &sa, hs.iter as u32), &am(&honest_c, &full)).proof)
        }
        Attack::ShortProof => {
            let k = r.below(honest.proof.len());
            with_proof(&honest.proof[..k])
        }
        Attack::LongProof => {
            let mut p = honest.proof.clone();
            p.extend(r.bytes(1));
            with_proof(&p)
        }
        Attack::EmptyProof => with_proof(b""),
        Attack::BadBase64 => format!("{honest_c},r={full},p={}", r.pick(&["!!!!", "A", "=====", "é"])),
        Attack::ZeroProof => with_proof(&[0; 32]),
        Attack::ServerSigAsProof => with_proof(&honest.server_sig),
        Attack::ClientNonceOnly => {
            let nn = &hs.cnonce;
            format!("{honest_c},r={nn},p={}", b64(&proofs(&salted, &am(&honest_c, nn)).proof))
        }
        Attack::OtherNonce => {
            let nn = format!("{}{}", hs.cnonce, nonce(r, full.len() - hs.cnonce.len()));
            uncertain = nn == full;
            format!("{honest_c},r={nn},p={}", b64(&proofs(&salted, &am(&honest_c, &nn)).proof))
        }
        Attack::NonceSuffix => {
            let k = hs.cnonce.len();
            let nn = match r.below(8) {
                0 => format!("{full}x"),
                1 => full[..full.len() - 1].to_string(),
                2 => full[..r.below(full.len())].to_string(),
                3 => full[r.range(1, full.len() - 1)..].to_string(),
                4 => format!("x{full}"),
                5 => format!("{}{}", &full[k..], &full[..k]),
                6 => full.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                _ => format!("{full}{full}"),
            };
            uncertain = nn == full;
            // a server may sign what it sent or what it received
            let signed = if r.chance(1, 3) { &full } else { &nn };
            format!("{honest_c},r={nn},p={}", b64(&proofs(&salted, &am(&honest_c, signed)).proof))
        }
        Attack::OtherChannel => {
            let g = match r.below(4) {
                0 => format!("{},a=other,", hs.flag),
                1 => if hs.flag == "n" { hs.gs2().replacen('n', "y", 1) } else { hs.gs2().replacen('y', "n", 1) },
                2 => "p=tls-unique,,data".to_string(),
                _ => hs.gs2() + "x",
            };
            let c = format!("c={}", b64(g.as_bytes()));
            uncertain = c == honest_c;
            format!("{c},r={full},p={}", b64(&proofs(&salted, &am(&c, &full)).proof))
        }
        Attack::StripChannel => {
            let c = "c=".to_string();
            format!("{c},r={full},p={}", b64(&proofs(&salted, &am(&c, &full)).proof))
        }
        Attack::SwapFields => {
            let p = b64(&honest.proof);
            match r.below(3) {
                0 => format!("r={full},{honest_c},p={p}"),
                1 => format!("{honest_c},p={p},r={full}"),
                _ => format!("p={p},r={full},{honest_c}"),
            }
        }
        Attack::DropField => {
            let mut f: Vec<String> = vec![honest_c.clone(), format!("r={full}"), format!("p={}", b64(&honest.proof))];
            f.remove(r.below(3));
            f.join(",")
        }
        Attack::Damage => {
            let d = damage(r, &honest_final);
            // text after the proof field is not part of what the statement constrains
            uncertain = d == honest_final || d.starts_with(&(honest_final.clone() + ","));
            d
        }
        Attack::ReplayOther => {
            uncertain = last_final.is_empty();
            last_final.clone()
        }
    };
    let res = s.decode_client_final(&msg);
    let class = (
        attack,
        hs.flag,
        hs.name.contains([',', '=']),
        hs.name.is_ascii(),
        hs.authz.as_ref().map(|a| *a == hs.name),
        hs.ext.is_empty(),
        (hs.salt.len(), hs.iter),
        hs.password.len().min(80) / 8,
    );
    run.case(true, &format!("{class:?}"));
    run.count(if attack == Attack::None { "honest_finals" } else { "attacked_finals" }, 1);
    if n < 4 {
        run.sample(format!("{attack:?}: {} -> {first} -> {msg} -> {res:?}", hs.first()));
    }
    let self_az = hs.authz.as_deref().is_none_or(|a| a == hs.name);
    match (attack, &res) {
        (Attack::None, Ok((St::Authenticated, m))) if self_az => {
            if *m != format!("v={}", b64(&honest.server_sig)) {
                bad(run, "server-signature", format!("server-final {m:?} is not the RFC server signature"));
            }
            run.count("authenticated", 1);
        }
        (Attack::None, Ok((St::NotAuthorized, m))) if !self_az => {
            if !m.starts_with("e=") {
                bad(run, "not-authorized-message", format!("refusal is {m:?}, expected e=..."));
            }
            run.count("not_authorized", 1);
        }
        (Attack::None, other) => bad(
            run,
            "honest-refused",
            format!("right password, acting as self={self_az}, but the outcome was {other:?}\nclient-final {msg:?}"),
        ),
        (_, _) if uncertain => {}
        (_, Ok((St::Authenticated, m))) => {
            bad(run, "attack-accepted", format!("attacked final {msg:?} was authenticated ({m:?}); honest {honest_final:?}"))
        }
        (_, Ok((_, m))) => {
            if !m.starts_with("e=") {
                bad(run, "refusal-message", format!("refusal carries {m:?}"));
            }
            if m.contains(&b64(&honest.server_sig)) {
                bad(run, "signature-leak", format!("refusal {m:?} contains the server signature"));
            }
            run.count("refused", 1);
        }
        (_, Err(_)) => run.count("refused", 1),
    }
    *last_final = honest_final.clone();
    // whatever happened, the handshake is over: the right final must not succeed now
    if let Ok((St::Authenticated, _)) = s.decode_client_final(&honest_final) {
        bad(run, "second-final", "a second client-final on the same handshake was accepted".into());
    }
    if s.encode_server_first(salted, &hs.salt, hs.iter, &mut rand::rng()).is_ok() {
        bad(run, "second-challenge", "a second challenge was produced on a finished handshake".into());
    }
}

/// Well-formedness of client-first by an independent grammar: must-accept, must-refuse, or free.
fn grammar(run: &mut Run, r: &mut Rng, n: u64) {
    let hs = Hs::gen_(r);
    let kind = r.below(11);
    let msg = match kind {
        0 => format!("p=tls-unique,,{}", hs.bare()),
        1 => format!("{}{},{}", r.pick(&["nn", "yy", "x", "N", "", "np", "名"]), ",", hs.bare()),
        2 => format!("{},n={}", hs.flag.to_string() + ",", escape(&hs.name)),
        3 => format!("{},,r={}", hs.flag, hs.cnonce),
        4 => format!("{},{}", hs.flag, hs.bare()),
        5 => format!("{},b=zz,{}", hs.flag, hs.bare()),
        6 => format!("{},,m=ext,{}", hs.flag, hs.bare()),
        7 => String::new(),
        8 => format!("{},,r={},n={}", hs.flag, hs.cnonce, escape(&hs.name)),
        _ => damage(r, &hs.first()),
    };
    let mut s = ScramServer::new();
    let res = s.decode_client_first(&msg);
    run.case(true, &(kind, msg.len() / 4, res.is_ok()));
    run.count(if res.is_ok() { "malformed_first.parsed" } else { "malformed_first.refused" }, 1);
    if kind <= 8 && res.is_ok() {
        run.violation("malformed-first-accepted", format!("case {n}: client-first {msg:?} accepted"));
    }
    if kind == 0 && !matches!(res, Err(Error::UnsupportedExtension)) {
        run.violation("channel-binding-request", format!("case {n}: channel-binding request {msg:?} gave {res:?}"));
    }
    // whatever was parsed, following stages neither panic nor authenticate garbage
    let ok = s.encode_server_first(r.bytes(32), &r.bytes(8), 4096, &mut rand::rng());
    if res.is_err() && ok.is_ok() {
        run.violation("challenge-after-error", format!("case {n}: challenge after refused client-first {msg:?}"));
    }
    let fin = match r.below(3) {
        0 => String::from_utf8_lossy(&{ let k = r.below(30); r.bytes(k) }).into_owned(),
        1 => damage(r, "c=biws,r=abcdef,p=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="),
        _ => String::from(*r.pick(&["", ",", ",,", "c=", "é", "c=,r=,p=", "c", "=", "c=biws,r=é,p=名"])),
    };
    if let Ok((St::Authenticated, _)) = s.decode_client_final(&fin) {
        run.violation("garbage-final", format!("case {n}: garbage final {fin:?} authenticated"));
    }
}
