//! A tiny MQTT client talking to the broker through an in-memory pipe.
#![allow(dead_code)]
use akasa_core::server::{ConnectionArgs, handle_accept};
use akasa_core::*;
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};

pub struct Broker(pub Arc<GlobalState>, u16);
impl Broker {
    pub fn new(f: impl FnOnce(&mut Config)) -> Broker {
        let mut k = Config::default();
        k.auth = AuthConfig { enable: false, password_file: None };
        f(&mut k);
        Broker(Arc::new(GlobalState::new(k)), 1000)
    }
    pub fn raw(&mut self) -> DuplexStream {
        let (a, b) = tokio::io::duplex(1 << 20);
        let args = ConnectionArgs {
            addr: ([127, 0, 0, 1], 1883).into(),
            reuse_port: false,
            proxy: false,
            proxy_tls_termination: false,
            websocket: false,
            tls_acceptor: None,
        };
        self.1 += 1;
        tokio::spawn(handle_accept(b, args, ([127, 0, 0, 1], self.1).into(), DefaultHook, self.0.clone()));
        a
    }
    /// ver 4 or 5; `props`: raw MQTT 5 connect properties
    pub async fn connect(&mut self, ver: u8, id: &str, clean: bool, props: &[u8], will: Option<(&str, &str)>) -> Cli {
        let mut c = Cli { s: self.raw(), buf: vec![], stash: Default::default(), v5: ver == 5, ack: vec![] };
        let mut b = str_("MQTT");
        b.push(ver);
        b.push((clean as u8) << 1 | if will.is_some() { 4 } else { 0 });
        b.extend([0, 0]);
        if ver == 5 {
            b.push(props.len() as u8);
            b.extend(props);
        }
        b.extend(str_(id));
        if let Some((t, p)) = will {
            if ver == 5 {
                b.push(0);
            }
            b.extend(str_(t));
            b.extend(str_(p));
        }
        c.send(0x10, &b).await;
        c.ack = c.recv().await.expect("connack");
        assert_eq!(c.ack[0], 0x20);
        c
    }
}
pub struct DefaultHook;
impl Clone for DefaultHook {
    fn clone(&self) -> Self {
        DefaultHook
    }
}
impl Hook for DefaultHook {}

pub fn str_(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend(s.as_bytes());
    v
}
pub fn expiry(secs: u32) -> Vec<u8> {
    let mut v = vec![0x11];
    v.extend(secs.to_be_bytes());
    v
}

pub struct Cli {
    pub s: DuplexStream,
    buf: Vec<u8>,
    stash: std::collections::VecDeque<Vec<u8>>,
    v5: bool,
    pub ack: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Msg {
    pub topic: String,
    pub payload: String,
    pub qos: u8,
    pub retain: bool,
    pub dup: bool,
    pub pid: u16,
    pub props: Vec<u8>,
}
impl Cli {
    pub async fn send(&mut self, first: u8, body: &[u8]) {
        let mut p = vec![first];
        let mut n = body.len();
        loop {
            let b = (n % 128) as u8;
            n /= 128;
            p.push(b | if n > 0 { 128 } else { 0 });
            if n == 0 {
                break;
            }
        }
        p.extend(body);
        let _ = self.s.write_all(&p).await;
    }
    /// Next packet (first byte and body), None after 400 ms of silence or end of stream.
    pub async fn recv(&mut self) -> Option<Vec<u8>> {
        if let Some(p) = self.stash.pop_front() {
            return Some(p);
        }
        self.read().await
    }
    /// Keeps what arrives before the packet waited for.
    pub async fn wait(&mut self, first: u8) -> Vec<u8> {
        let mut early = std::collections::VecDeque::new();
        loop {
            match self.read().await {
                Some(p) if p[0] == first => {
                    self.stash.append(&mut early);
                    return p;
                }
                Some(p) => early.push_back(p),
                None => {
                    println!("no answer {first:#x}, got {early:?}");
                    std::process::exit(1)
                }
            }
        }
    }
    async fn read(&mut self) -> Option<Vec<u8>> {
        loop {
            if self.buf.len() >= 2 {
                let (mut n, mut i) = (0usize, 1);
                while i < self.buf.len() {
                    n |= ((self.buf[i] & 127) as usize) << (7 * (i - 1));
                    i += 1;
                    if self.buf[i - 1] < 128 {
                        break;
                    }
                }
                if self.buf[i - 1] < 128 && self.buf.len() >= i + n {
                    let mut p = vec![self.buf[0]];
                    p.extend(&self.buf[i..i + n]);
                    self.buf.drain(..i + n);
                    return Some(p);
                }
            }
            let mut b = [0; 4096];
            match tokio::time::timeout(Duration::from_millis(400), self.s.read(&mut b)).await {
                Ok(Ok(n)) if n > 0 => self.buf.extend(&b[..n]),
                _ => return None,
            }
        }
    }
    pub fn session_present(&self) -> bool {
        self.ack[1] & 1 == 1
    }
    pub async fn sub(&mut self, filter: &str, opts: u8) -> Vec<u8> {
        self.sub_p(filter, opts, &[]).await
    }
    pub async fn sub_p(&mut self, filter: &str, opts: u8, props: &[u8]) -> Vec<u8> {
        let mut b = vec![0, 77];
        if self.v5 {
            b.push(props.len() as u8);
            b.extend(props);
        }
        b.extend(str_(filter));
        b.push(opts);
        self.send(0x82, &b).await;
        self.wait(0x90).await
    }
    pub async fn unsub(&mut self, filter: &str) -> Vec<u8> {
        let mut b = vec![0, 78];
        if self.v5 {
            b.push(0);
        }
        b.extend(str_(filter));
        self.send(0xa2, &b).await;
        self.wait(0xb0).await
    }
    pub async fn publish(&mut self, topic: &str, payload: &str, qos: u8, retain: bool, pid: u16, props: &[u8]) {
        let mut b = str_(topic);
        if qos > 0 {
            b.extend(pid.to_be_bytes());
        }
        if self.v5 {
            b.push(props.len() as u8);
            b.extend(props);
        }
        b.extend(payload.as_bytes());
        self.send(0x30 | qos << 1 | retain as u8, &b).await;
    }
    pub fn parse(&self, p: &[u8]) -> Msg {
        let n = u16::from_be_bytes([p[1], p[2]]) as usize;
        let topic = String::from_utf8(p[3..3 + n].to_vec()).unwrap();
        let mut i = 3 + n;
        let qos = p[0] >> 1 & 3;
        let mut pid = 0;
        if qos > 0 {
            pid = u16::from_be_bytes([p[i], p[i + 1]]);
            i += 2;
        }
        let mut props = vec![];
        if self.v5 {
            let l = p[i] as usize;
            props = p[i + 1..i + 1 + l].to_vec();
            i += 1 + l;
        }
        Msg { topic, payload: String::from_utf8_lossy(&p[i..]).into(), qos, retain: p[0] & 1 == 1, dup: p[0] & 8 == 8, pid, props }
    }
    /// Every packet until silence; publishes are acknowledged and returned.
    pub async fn drain(&mut self) -> Vec<Msg> {
        let mut v = vec![];
        while let Some(p) = self.recv().await {
            match p[0] >> 4 {
                3 => {
                    let m = self.parse(&p);
                    match m.qos {
                        1 => self.send(0x40, &m.pid.to_be_bytes()).await,
                        2 => self.send(0x50, &m.pid.to_be_bytes()).await,
                        _ => {}
                    }
                    v.push(m);
                }
                5 => self.send(0x62, &p[1..3]).await,
                6 => self.send(0x70, &p[1..3]).await,
                _ => {}
            }
        }
        v
    }
    pub async fn payloads(&mut self) -> Vec<String> {
        self.drain().await.into_iter().map(|m| m.payload).collect()
    }
    pub async fn disconnect(mut self) {
        self.send(0xe0, &[]).await;
        let _ = self.s.shutdown().await;
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
}

/// Report and exit 1 when the property does not hold.
pub fn check(ok: bool, what: impl std::fmt::Debug) {
    if !ok {
        println!("property does not hold: {what:?}");
        std::process::exit(1);
    }
}
pub async fn pause() {
    tokio::time::sleep(Duration::from_millis(100)).await;
}
