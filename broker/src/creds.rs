//! Reference for passwords and SCRAM, written from the documented formats.
use akasa_core::{AuthPassword, HashAlgorithm};
use base64::Engine;
use base64::engine::general_purpose::{STANDARD, STANDARD_NO_PAD};
use monlib::Rng;
use ring::{digest, hmac};
use std::num::NonZeroU32;

fn sha(alg: &'static digest::Algorithm, parts: &[&[u8]]) -> Vec<u8> {
    let all: Vec<u8> = parts.concat();
    digest::digest(alg, &all).as_ref().to_vec()
}
fn mac(alg: hmac::Algorithm, key: &[u8], data: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(alg, key), data).as_ref().to_vec()
}
/// RFC 8018, one block: the output is as long as the hash.
pub fn pbkdf2(alg: hmac::Algorithm, password: &[u8], salt: &[u8], iterations: u32) -> Vec<u8> {
    let mut u = mac(alg, password, &[salt, &[0, 0, 0, 1]].concat());
    let mut out = u.clone();
    for _ in 1..iterations {
        u = mac(alg, password, &u);
        for (o, x) in out.iter_mut().zip(&u) {
            *o ^= x;
        }
    }
    out
}
/// HMAC pads its key with zeros, so PBKDF2 can not tell such passwords apart.
pub fn same_key(a: &[u8], b: &[u8]) -> bool {
    let pad = |x: &[u8]| {
        let mut v = x.to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    a.len() <= 128 && b.len() <= 128 && pad(a) == pad(b)
}
pub fn hash(a: HashAlgorithm, salt: &[u8], password: &[u8]) -> Vec<u8> {
    match a {
        HashAlgorithm::Sha256 => sha(&digest::SHA256, &[password, salt]),
        HashAlgorithm::Sha512 => sha(&digest::SHA512, &[password, salt]),
        HashAlgorithm::Sha256Pkbdf2 { iterations } => pbkdf2(hmac::HMAC_SHA256, password, salt, iterations.get()),
        HashAlgorithm::Sha512Pkbdf2 { iterations } => pbkdf2(hmac::HMAC_SHA512, password, salt, iterations.get()),
    }
}
pub fn algorithm(rng: &mut Rng) -> HashAlgorithm {
    let iterations = NonZeroU32::new(*rng.pick(&[1u32, 2, 3, 10, 57, 300])).unwrap();
    match rng.below(4) {
        0 => HashAlgorithm::Sha256,
        1 => HashAlgorithm::Sha512,
        2 => HashAlgorithm::Sha256Pkbdf2 { iterations },
        _ => HashAlgorithm::Sha512Pkbdf2 { iterations },
    }
}
pub fn entry(rng: &mut Rng, password: &[u8]) -> AuthPassword {
    let hash_algorithm = algorithm(rng);
    let n = *rng.pick(&[12, 12, 13, 16, 31, 64]);
    let salt = rng.bytes(n);
    let hashed_password = hash(hash_algorithm, &salt, password);
    AuthPassword { hash_algorithm, hashed_password, salt }
}
/// (name, iterations) of an algorithm as written in the file.
pub fn parts(a: HashAlgorithm) -> (&'static str, Option<u32>) {
    match a {
        HashAlgorithm::Sha256 => ("sha256", None),
        HashAlgorithm::Sha512 => ("sha512", None),
        HashAlgorithm::Sha256Pkbdf2 { iterations } => ("sha256-pkbdf2", Some(iterations.get())),
        HashAlgorithm::Sha512Pkbdf2 { iterations } => ("sha512-pkbdf2", Some(iterations.get())),
    }
}
pub type Flat = (&'static str, Option<u32>, Vec<u8>, Vec<u8>);
pub fn flat(p: &AuthPassword) -> Flat {
    let (n, i) = parts(p.hash_algorithm);
    (n, i, p.salt.clone(), p.hashed_password.clone())
}
pub fn line(user: &str, p: &AuthPassword) -> String {
    let (n, i) = parts(p.hash_algorithm);
    let mut s = format!("{user}:{n},");
    if let Some(i) = i {
        s += &format!("{i},");
    }
    s += &STANDARD_NO_PAD.encode(&p.salt);
    s.push(',');
    s += &STANDARD_NO_PAD.encode(&p.hashed_password);
    s
}
/// One line of the store; `Err` when it is not well formed.
pub fn read_line(line: &str) -> Result<Option<(String, Flat)>, ()> {
    let t = line.trim_end();
    if t.trim().is_empty() {
        return Ok(None);
    }
    let (user, rest) = t.rsplit_once(':').ok_or(())?;
    let f: Vec<&str> = rest.split(',').collect();
    let (name, len, iterated): (&'static str, usize, bool) = match f[0] {
        "sha256" => ("sha256", 32, false),
        "sha512" => ("sha512", 64, false),
        "sha256-pkbdf2" => ("sha256-pkbdf2", 32, true),
        "sha512-pkbdf2" => ("sha512-pkbdf2", 64, true),
        _ => return Err(()),
    };
    if f.len() != if iterated { 4 } else { 3 } {
        return Err(());
    }
    let iter = if iterated {
        let n: u32 = f[1].parse().map_err(|_| ())?;
        if n == 0 {
            return Err(());
        }
        Some(n)
    } else {
        None
    };
    let salt = STANDARD_NO_PAD.decode(f[f.len() - 2]).map_err(|_| ())?;
    let hash = STANDARD_NO_PAD.decode(f[f.len() - 1]).map_err(|_| ())?;
    if salt.len() < 12 || hash.len() != len {
        return Err(());
    }
    Ok(Some((user.to_string(), (name, iter, salt, hash))))
}

/// The client's side of SCRAM-SHA-256 (RFC 5802, RFC 7677).
pub struct Scram {
    pub user: String,
    pub password: Vec<u8>,
    pub nonce: String,
    server_sig: Vec<u8>,
}
impl Scram {
    pub fn new(rng: &mut Rng, user: &str, password: &[u8]) -> Scram {
        let nonce = (0..18).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
        Scram { user: user.into(), password: password.to_vec(), nonce, server_sig: vec![] }
    }
    fn bare(&self) -> String {
        format!("n={},r={}", self.user.replace('=', "=3D").replace(',', "=2C"), self.nonce)
    }
    pub fn first(&self) -> String {
        format!("n,,{}", self.bare())
    }
    pub fn last(&mut self, server_first: &str) -> Result<String, String> {
        let mut nonce = "";
        let mut salt = vec![];
        let mut iter = 0;
        for f in server_first.split(',') {
            match f.split_at(f.len().min(2)) {
                ("r=", x) => nonce = x,
                ("s=", x) => salt = STANDARD.decode(x).map_err(|e| e.to_string())?,
                ("i=", x) => iter = x.parse().map_err(|_| "iterations".to_string())?,
                _ => return Err(format!("unexpected {f}")),
            }
        }
        if !nonce.starts_with(&self.nonce) || nonce.len() == self.nonce.len() || iter == 0 {
            return Err(server_first.to_string());
        }
        let salted = pbkdf2(hmac::HMAC_SHA256, &self.password, &salt, iter);
        let client_key = mac(hmac::HMAC_SHA256, &salted, b"Client Key");
        let stored = sha(&digest::SHA256, &[&client_key]);
        let plain = format!("c=biws,r={nonce}");
        let auth = format!("{},{server_first},{plain}", self.bare());
        let sig = mac(hmac::HMAC_SHA256, &stored, auth.as_bytes());
        let proof: Vec<u8> = client_key.iter().zip(&sig).map(|(a, b)| a ^ b).collect();
        let server_key = mac(hmac::HMAC_SHA256, &salted, b"Server Key");
        self.server_sig = mac(hmac::HMAC_SHA256, &server_key, auth.as_bytes());
        Ok(format!("{plain},p={}", STANDARD.encode(proof)))
    }
    pub fn server_final(&self) -> String {
        format!("v={}", STANDARD.encode(&self.server_sig))
    }
}
