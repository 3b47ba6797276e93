//! C22: the PROXY v2 parser against an independent reference parser, under random fragmentation.
use mon_small::server::proxy::{Addresses, Header, Protocol, parse_header};
use monlib::{Rng, Run};
use std::io;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, ReadBuf};

const SIG: [u8; 12] = [0x0d, 0x0a, 0x0d, 0x0a, 0, 0x0d, 0x0a, b'Q', b'U', b'I', b'T', 0x0a];

/// Delivers the bytes in random pieces, with random "not ready" answers.
struct Frag {
    data: Vec<u8>,
    pos: usize,
    r: Rng,
    mode: usize,
    pub reads: usize,
}
impl AsyncRead for Frag {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.mode > 0 && self.r.chance(1, 3) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.reads += 1;
        let left = self.data.len() - self.pos;
        let want = buf.remaining().min(left);
        let k = match self.mode {
            0 => want,
            1 => want.min(1),
            _ => {
                let m = self.r.range(1, 9);
                want.min(m)
            }
        };
        let p = self.pos;
        buf.put_slice(&self.data[p..p + k]);
        self.pos += k;
        Poll::Ready(Ok(()))
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
enum Want {
    /// value and number of bytes belonging to the header
    Local,
    Proxy { protocol: Protocol, addresses: Addresses, sni: Vec<Option<String>>, used: usize },
    Refuse,
    /// not settled by the specification: only "no panic"
    Free,
}

// bitwise CRC-32C (Castagnoli), written out here so that it does not depend on the crate in use
fn crc32c(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    !c
}

fn reference(d: &[u8], tls: bool) -> Want {
    if d.len() < 16 || d[..12] != SIG {
        return Want::Refuse;
    }
    let (ver, cmd) = (d[12] >> 4, d[12] & 15);
    let (fam, proto) = (d[13] >> 4, d[13] & 15);
    let len = u16::from_be_bytes([d[14], d[15]]) as usize;
    if ver != 2 || cmd > 1 {
        return Want::Refuse;
    }
    if cmd == 0 {
        // LOCAL: the specification lets the receiver discard a block; this one documents refusing it
        return if d[13] == 0 && len == 0 { Want::Local } else { Want::Free };
    }
    if fam == 0 || proto == 0 {
        // UNSPEC: address information is not usable; must not crash, must not invent an address
        return Want::Refuse;
    }
    if fam > 3 || proto > 2 {
        return Want::Refuse;
    }
    let alen = [0, 12, 36, 216][fam as usize];
    if len < alen {
        return Want::Refuse;
    }
    if len - alen > 256 || d.len() < 16 + len {
        return Want::Refuse;
    }
    let a = &d[16..16 + alen];
    let be = |i: usize| u16::from_be_bytes([a[i], a[i + 1]]);
    let addresses = match fam {
        1 => Addresses::IPv4 {
            source_address: Ipv4Addr::from(<[u8; 4]>::try_from(&a[0..4]).unwrap()),
            destination_address: Ipv4Addr::from(<[u8; 4]>::try_from(&a[4..8]).unwrap()),
            source_port: be(8),
            destination_port: be(10),
        },
        2 => Addresses::IPv6 {
            source_address: Ipv6Addr::from(<[u8; 16]>::try_from(&a[0..16]).unwrap()),
            destination_address: Ipv6Addr::from(<[u8; 16]>::try_from(&a[16..32]).unwrap()),
            source_port: be(32),
            destination_port: be(34),
        },
        _ => Addresses::Unix { source: a[..108].try_into().unwrap(), destination: a[108..].try_into().unwrap() },
    };
    let t = &d[16 + alen..16 + len];
    let mut o = 0;
    let (mut ssl, mut crcs) = (false, 0);
    let mut snis: Vec<String> = vec![];
    while o < t.len() {
        if t.len() - o < 3 {
            return Want::Refuse;
        }
        let (ty, l) = (t[o], u16::from_be_bytes([t[o + 1], t[o + 2]]) as usize);
        o += 3;
        if t.len() - o < l {
            return Want::Refuse;
        }
        let v = &t[o..o + l];
        match ty {
            2 => match std::str::from_utf8(v) {
                Ok(s) if l > 0 => snis.push(s.into()),
                _ => return Want::Refuse,
            },
            3 => {
                if l != 4 {
                    return Want::Refuse;
                }
                let mut whole = d[..16 + len].to_vec();
                whole[16 + alen + o..16 + alen + o + 4].fill(0);
                if crc32c(&whole) != u32::from_be_bytes(v.try_into().unwrap()) {
                    return if crcs > 0 { Want::Free } else { Want::Refuse };
                }
                crcs += 1;
            }
            0x20 => {
                if l < 5 || v[1..5] != [0; 4] {
                    return Want::Refuse;
                }
                ssl = true;
            }
            _ => {}
        }
        o += l;
    }
    if crcs > 1 {
        return Want::Free;
    }
    if tls != ssl || tls != !snis.is_empty() {
        return Want::Refuse;
    }
    let sni = if snis.is_empty() { vec![None] } else { snis.into_iter().map(Some).collect() };
    Want::Proxy { protocol: if proto == 1 { Protocol::Stream } else { Protocol::Datagram }, addresses, sni, used: 16 + len }
}

fn tlv(out: &mut Vec<u8>, ty: u8, v: &[u8]) {
    out.push(ty);
    out.extend((v.len() as u16).to_be_bytes());
    out.extend(v);
}

fn generate(r: &mut Rng, tls: bool) -> Vec<u8> {
    let mut d = SIG.to_vec();
    if r.chance(1, 12) {
        d.extend([0x20, 0, 0, 0]);
        return d;
    }
    let fam = *r.pick(&[1u8, 1, 1, 2, 2, 3, 3]);
    d.push(0x21);
    d.push(fam << 4 | if r.chance(1, 4) { 2 } else { 1 });
    d.extend([0, 0]);
    let alen = [0, 12, 36, 216][fam as usize];
    // distinct bytes so that exchanged fields are seen
    let a = r.bytes(alen);
    d.extend(a);
    let mut blocks: Vec<Vec<u8>> = vec![];
    let blk = |ty: u8, v: &[u8]| {
        let mut b = vec![];
        tlv(&mut b, ty, v);
        b
    };
    if tls != r.chance(1, 12) {
        let mut v = vec![r.u64() as u8, 0, 0, 0, 0];
        if r.bool() {
            let mut sub = vec![];
            tlv(&mut sub, 0x21, b"TLSv1.3");
            v.extend(sub);
        }
        if r.chance(1, 10) {
            let i = r.range(1, 4);
            v[i] = *r.pick(&[1u8, 0x80]);
        }
        blocks.push(blk(0x20, &v));
    }
    if tls != r.chance(1, 12) {
        let names: [&[u8]; 6] = [b"mymacpro", b"a", "名.example".as_bytes(), b"host.example.org", b"", b"\xff\xfe"];
        let i = if r.chance(1, 8) { r.below(6) } else { r.below(4) };
        blocks.push(blk(2, names[i]));
        if r.chance(1, 20) {
            blocks.push(blk(2, b"second.example"));
        }
    }
    for _ in 0..r.below(3) {
        let ty = *r.pick(&[0x01u8, 0x04, 0x05, 0x30, 0xe0, 0xff, 0x00]);
        let k = *r.pick(&[0usize, 1, 4, 20, 60]);
        let v = r.bytes(k);
        blocks.push(blk(ty, &v));
    }
    let crc = r.chance(1, 2);
    if crc {
        blocks.push(blk(3, &[0; 4]));
        if r.chance(1, 25) {
            blocks.push(blk(3, &[0; 4]));
        }
    }
    r.shuffle(&mut blocks);
    // bring the TLV block to just below, at or above its size limit now and then
    if r.chance(1, 8) {
        let used: usize = blocks.iter().map(|b| b.len()).sum();
        let target = *r.pick(&[255usize, 256, 257, 258, 300]);
        if target >= used + 3 {
            blocks.push(blk(4, &vec![7; target - used - 3]));
        }
    }
    let mut crc_at = vec![];
    for b in &blocks {
        if b[0] == 3 {
            crc_at.push(d.len() + 3);
        }
        d.extend(b);
    }
    let n = (d.len() - 16) as u16;
    d[14..16].copy_from_slice(&n.to_be_bytes());
    if crc {
        let v = crc32c(&d).to_be_bytes();
        for at in &crc_at[..1] {
            d[*at..*at + 4].copy_from_slice(&v);
        }
    }
    d
}

fn mutate(r: &mut Rng, d: &mut Vec<u8>) -> &'static str {
    match r.below(9) {
        0 => {
            let i = r.below(d.len().min(16));
            d[i] ^= 1 << r.below(8);
            "prefix bit"
        }
        1 => {
            let i = r.below(d.len());
            d[i] ^= 1 << r.below(8);
            "any bit"
        }
        2 => {
            d.truncate(r.below(d.len()));
            "truncated"
        }
        3 => {
            let v = r.below(300) as u16;
            d[14..16].copy_from_slice(&v.to_be_bytes());
            "length"
        }
        4 => {
            d[13] = (r.below(6) << 4 | r.below(5)) as u8;
            "family"
        }
        5 => {
            d[12] = (*r.pick(&[0usize, 1, 2, 3, 15]) << 4 | r.below(4)) as u8;
            "version"
        }
        6 => {
            if d.len() > 20 {
                let i = r.range(16, d.len() - 1);
                d[i] = r.u64() as u8;
            }
            "byte"
        }
        7 => {
            let n = u16::from_be_bytes([d[14], d[15]]).wrapping_add(*r.pick(&[1u16, 2, 0xffff, 0xfffe]));
            d[14..16].copy_from_slice(&n.to_be_bytes());
            "length off by a little"
        }
        _ => {
            let k = r.below(80);
            *d = r.bytes(k);
            if r.bool() && d.len() > 12 {
                d[..12].copy_from_slice(&SIG);
            }
            "random"
        }
    }
}

pub fn run() -> ! {
    assert_eq!(crc32c(b"123456789"), 0xe306_9283);
    let mut run = Run::new(
        "C22",
        "one case = one header (structured generator over families, TLVs, checksum, sizes around the limit; two in three \
         then damaged) x TLS mode x fragmentation, compared with a reference parser; non-trivial: signature intact; \
         distinct: by header bytes 12..16, verdict, mode and damage",
        (25, 500),
    );
    // every 13th/14th byte value, exhaustively, over a well-formed body
    for cmd in 0..=255u8 {
        for fam in 0..=255u8 {
            let mut d = SIG.to_vec();
            d.extend([cmd, fam, 0, 216]);
            d.extend((0..216).map(|i| i as u8));
            check(&mut run, 1 << 40 | (cmd as u64) << 8 | fam as u64, &d, false, 0, "exhaustive byte 13/14", Rng::new(1));
        }
    }
    let total = run.cases(1_500_000, 60_000_000);
    for n in 0..total {
        if !run.more() {
            break;
        }
        if !run.selected(n) {
            continue;
        }
        let mut r = Rng::fork(run.seed, n);
        let tls = r.bool();
        let mut d = generate(&mut r, tls);
        let how = if r.chance(2, 3) && d.len() >= 16 { mutate(&mut r, &mut d) } else { "none" };
        if r.bool() {
            // bytes of the protocol that follows
            let k = r.below(20);
            d.extend(r.bytes(k));
        }
        let mode = r.below(3);
        check(&mut run, n, &d, tls, mode, how, r);
    }
    run.finish()
}

fn check(run: &mut Run, n: u64, d: &[u8], tls: bool, mode: usize, how: &str, r: Rng) {
    let want = reference(d, tls);
    let mut f = Frag { data: d.to_vec(), pos: 0, r, mode, reads: 0 };
    let got: Option<io::Result<Option<Header>>> =
        catch_unwind(AssertUnwindSafe(|| futures_lite::future::block_on(parse_header(&mut f, tls)))).ok();
    let ctx = || format!("case {n}: tls_termination={tls} fragmentation={mode} damage={how}\nbytes {}", hex(d));
    let verdict = match &want {
        Want::Local => "local",
        Want::Proxy { .. } => "proxy",
        Want::Refuse => "refuse",
        Want::Free => "free",
    };
    run.case(d.len() >= 16 && d[..12] == SIG, &(d.get(12..16).map(|x| x.to_vec()), verdict, tls, mode, how));
    run.count(&format!("expected_{verdict}"), 1);
    run.count("reads", f.reads as u64);
    if n < 3 {
        run.sample(format!("{} -> {want:?}", hex(d)));
    }
    let Some(got) = got else {
        let p = monlib::take_panics().join("; ");
        run.violation("panic", format!("the parser panicked: {p}\n{}", ctx()));
        return;
    };
    match (&want, &got) {
        (Want::Free, _) => {}
        (Want::Refuse, Err(_)) => {}
        (Want::Local, Ok(None)) => {
            if f.pos != 16 {
                run.violation("consumed", format!("consumed {} bytes, the header has 16\n{}", f.pos, ctx()));
            }
        }
        (Want::Proxy { protocol, addresses, sni, used }, Ok(Some(h))) => {
            if h.protocol != *protocol || h.addresses != *addresses || !sni.contains(&h.tls_sni) {
                run.violation("value", format!("got {h:?}\nwant {want:?}\n{}", ctx()));
            }
            if f.pos != *used {
                run.violation("consumed", format!("consumed {} bytes, the header has {used}\n{}", f.pos, ctx()));
            }
        }
        (Want::Refuse, Ok(_)) => run.violation("accepted-malformed", format!("got {got:?}\n{}", ctx())),
        _ => run.violation("refused-wellformed", format!("got {got:?}\nwant {want:?}\n{}", ctx())),
    }
}

fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
