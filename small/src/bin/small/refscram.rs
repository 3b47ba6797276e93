//! Independent RFC 5802 / RFC 7677 reference. PBKDF2 and the message arithmetic are written out
//! from the RFC over the HMAC and SHA-256 primitives; checked against the RFC 7677 test vector.
use base64::Engine;
use base64::engine::general_purpose::STANDARD;
use monlib::Rng;
use ring::{digest, hmac};

pub fn hmac256(key: &[u8], msg: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, key), msg).as_ref().to_vec()
}
pub fn h(msg: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, msg).as_ref().to_vec()
}
pub fn hi(password: &[u8], salt: &[u8], iterations: u32) -> Vec<u8> {
    let mut first = salt.to_vec();
    first.extend([0, 0, 0, 1]);
    let mut u = hmac256(password, &first);
    let mut out = u.clone();
    for _ in 1..iterations {
        u = hmac256(password, &u);
        for (o, x) in out.iter_mut().zip(&u) {
            *o ^= x;
        }
    }
    out
}
pub struct Proofs {
    pub proof: Vec<u8>,
    pub server_sig: Vec<u8>,
}
pub fn proofs(salted: &[u8], auth_message: &str) -> Proofs {
    let ck = hmac256(salted, b"Client Key");
    let sk = hmac256(salted, b"Server Key");
    let cs = hmac256(&h(&ck), auth_message.as_bytes());
    Proofs {
        proof: ck.iter().zip(&cs).map(|(a, b)| a ^ b).collect(),
        server_sig: hmac256(&sk, auth_message.as_bytes()),
    }
}
/// saslname escaping
pub fn escape(name: &str) -> String {
    name.chars()
        .map(|c| match c {
            '=' => "=3D".to_string(),
            ',' => "=2C".to_string(),
            c => c.to_string(),
        })
        .collect()
}
pub fn b64(b: &[u8]) -> String {
    STANDARD.encode(b)
}

pub fn selftest() {
    // RFC 7677 section 3
    let salt = STANDARD.decode("W22ZaJ0SNY7soEsUEjb6gQ==").unwrap();
    let salted = hi(b"pencil", &salt, 4096);
    let am = "n=user,r=rOprNGfwEbeRWgbNEkqO,r=rOprNGfwEbeRWgbNEkqO%hvYDpWUa2RaTCAfuxFIlj)hNlF$k0,\
              s=W22ZaJ0SNY7soEsUEjb6gQ==,i=4096,c=biws,r=rOprNGfwEbeRWgbNEkqO%hvYDpWUa2RaTCAfuxFIlj)hNlF$k0";
    let p = proofs(&salted, am);
    assert_eq!(b64(&p.proof), "dHzbZapWIk4jUhN+Ute9ytag9zjfMHgsqmmiz7AndVQ=");
    assert_eq!(b64(&p.server_sig), "6rriTRBi23WpRR/wtup+mMhUZUn/dB5nLTJRsjl95G4=");
}

pub fn name(r: &mut Rng) -> String {
    const CH: &[&str] = &[
        "a", "b", "Z", "0", "9", "user", " ", "-", "_", "é", "ß", "名", "😀", "=", ",", "=2C", "=3D", "n=", "r=", "\"",
        "a=", ";", "/", "%",
    ];
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 8, 30]);
    (0..n).map(|_| *r.pick(CH)).collect()
}
pub fn plain_name(r: &mut Rng) -> String {
    name(r).replace(['=', ','], "x")
}
pub fn password(r: &mut Rng) -> String {
    const CH: &[&str] = &["p", "W", "1", " ", ",", "=", "é", "名", "😀", "'", "\\", "\n", "secret"];
    let n = *r.pick(&[0usize, 1, 4, 8, 20, 70, 140]);
    (0..n).map(|_| *r.pick(CH)).collect()
}
/// printable nonce without ','
pub fn nonce(r: &mut Rng, len: usize) -> String {
    (0..len)
        .map(|_| loop {
            let c = r.range(0x21, 0x7e) as u8 as char;
            if c != ',' {
                break c;
            }
        })
        .collect()
}
pub fn nonce_ok(s: &str) -> bool {
    s.bytes().all(|b| (0x21..=0x7e).contains(&b) && b != b',')
}
/// random damage to a textual message, staying valid UTF-8
pub fn damage(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(c.len() + 1);
        match r.below(6) {
            0 if !c.is_empty() => {
                c.remove(i.min(c.len() - 1));
            }
            1 => c.insert(i, *r.pick(&[',', '=', 'é', '\0', 'x', 'n', 'r', 'a', '名', 'p'])),
            2 if !c.is_empty() => {
                let k = i.min(c.len() - 1);
                c[k] = *r.pick(&[',', '=', 'A', '+', 'é', '😀', '1'])
            }
            3 => c.truncate(i),
            4 => {
                let rest = c.split_off(i);
                c.splice(0..0, rest);
            }
            _ => {
                if !c.is_empty() {
                    let j = r.below(c.len());
                    let k = i.min(c.len() - 1);
                    c.swap(j, k)
                }
            }
        }
    }
    c.into_iter().collect()
}
