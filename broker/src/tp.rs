//! What lies between a client's MQTT bytes and the simulated wire.
use rustls::ClientConnection;
use std::io::{Read, Write};

pub enum Tp {
    Plain,
    Ws(Ws),
    Tls(Box<ClientConnection>),
    Wss(Box<ClientConnection>, Ws),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Plain,
    Ws,
    Tls,
    Wss,
}

impl Kind {
    /// An interpreter cannot run the assembly TLS needs.
    pub fn possible(self) -> Kind {
        match self {
            Kind::Tls if cfg!(miri) => Kind::Plain,
            Kind::Wss if cfg!(miri) => Kind::Ws,
            k => k,
        }
    }
}

#[derive(Default)]
pub struct Ws {
    pub open: bool,
    buf: Vec<u8>,
    queued: Vec<Vec<u8>>,
    /// cut each client message into frames of at most this many bytes (0: whole)
    pub cut: usize,
    /// send a ping before every n-th message (0: never)
    pub ping_every: usize,
    sent: usize,
    pub closed: bool,
    pub pongs: usize,
    pub pings: usize,
    pub bad: Option<String>,
}

fn frame(op: u8, fin: bool, data: &[u8], out: &mut Vec<u8>) {
    out.push(op | if fin { 0x80 } else { 0 });
    match data.len() {
        n if n < 126 => out.push(0x80 | n as u8),
        n if n < 65536 => {
            out.push(0x80 | 126);
            out.extend((n as u16).to_be_bytes());
        }
        n => {
            out.push(0x80 | 127);
            out.extend((n as u64).to_be_bytes());
        }
    }
    let key = [0x37u8, 0xfa, 0x21, 0x3d];
    out.extend(key);
    out.extend(data.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
}

impl Ws {
    pub fn hello() -> Vec<u8> {
        b"GET /mqtt HTTP/1.1\r\nHost: broker\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n".to_vec()
    }
    fn encode_now(&mut self, data: &[u8], out: &mut Vec<u8>) {
        self.sent += 1;
        if self.ping_every > 0 && self.sent % self.ping_every == 0 {
            frame(9, true, b"hi", out);
            self.pings += 1;
        }
        if self.cut == 0 || data.len() <= self.cut {
            frame(2, true, data, out);
        } else {
            let n = data.chunks(self.cut).count();
            for (i, c) in data.chunks(self.cut).enumerate() {
                frame(if i == 0 { 2 } else { 0 }, i + 1 == n, c, out);
            }
        }
    }
    pub fn encode(&mut self, data: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        if self.open {
            self.encode_now(data, &mut out);
        } else {
            self.queued.push(data.to_vec());
        }
        out
    }
    /// → (application bytes, bytes to send)
    pub fn decode(&mut self, wire: &[u8]) -> (Vec<u8>, Vec<u8>) {
        self.buf.extend(wire);
        let (mut app, mut send) = (vec![], vec![]);
        if !self.open {
            let Some(p) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") else { return (app, send) };
            let head = String::from_utf8_lossy(&self.buf[..p]).to_string();
            self.buf.drain(..p + 4);
            if !head.starts_with("HTTP/1.1 101") {
                self.bad = Some(format!("handshake answered {}", head.lines().next().unwrap_or("")));
                self.closed = true;
                return (app, send);
            }
            self.open = true;
            for q in std::mem::take(&mut self.queued) {
                self.encode_now(&q, &mut send);
            }
        }
        loop {
            let b = &self.buf;
            if b.len() < 2 {
                break;
            }
            let (op, fin) = (b[0] & 15, b[0] & 0x80 != 0);
            if b[1] & 0x80 != 0 || b[0] & 0x70 != 0 {
                self.bad = Some("masked or reserved bits in a server frame".into());
            }
            let (n, h) = match b[1] & 0x7f {
                126 if b.len() >= 4 => (u16::from_be_bytes([b[2], b[3]]) as usize, 4),
                127 if b.len() >= 10 => (u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize, 10),
                126 | 127 => break,
                n => (n as usize, 2),
            };
            if b.len() < h + n {
                break;
            }
            let data = self.buf[h..h + n].to_vec();
            self.buf.drain(..h + n);
            match op {
                0 | 2 => app.extend(data),
                8 => {
                    if !self.closed {
                        frame(8, true, &data, &mut send);
                    }
                    self.closed = true;
                }
                9 => frame(10, true, &data, &mut send),
                10 => self.pongs += 1,
                _ => self.bad = Some(format!("server frame opcode {op} fin {fin}")),
            }
        }
        (app, send)
    }
    pub fn close(&mut self) -> Vec<u8> {
        let mut o = vec![];
        frame(8, true, &1000u16.to_be_bytes(), &mut o);
        o
    }
    pub fn raw(op: u8, data: &[u8]) -> Vec<u8> {
        let mut o = vec![];
        frame(op, true, data, &mut o);
        o
    }
}

fn tls_out(c: &mut ClientConnection) -> Vec<u8> {
    let mut o = vec![];
    while c.wants_write() {
        if c.write_tls(&mut o).is_err() {
            break;
        }
    }
    o
}
fn tls_in(c: &mut ClientConnection, wire: &[u8]) -> Result<Vec<u8>, String> {
    let mut rd = wire;
    let mut app = vec![];
    while !rd.is_empty() {
        c.read_tls(&mut rd).map_err(|e| e.to_string())?;
        let st = c.process_new_packets().map_err(|e| e.to_string())?;
        let mut b = vec![0; st.plaintext_bytes_to_read()];
        if !b.is_empty() {
            c.reader().read_exact(&mut b).map_err(|e| e.to_string())?;
            app.extend(b);
        }
    }
    Ok(app)
}

impl Tp {
    pub fn kind(&self) -> Kind {
        match self {
            Tp::Plain => Kind::Plain,
            Tp::Ws(_) => Kind::Ws,
            Tp::Tls(_) => Kind::Tls,
            Tp::Wss(..) => Kind::Wss,
        }
    }
    pub fn start(&mut self) -> Vec<u8> {
        match self {
            Tp::Plain => vec![],
            Tp::Ws(_) => Ws::hello(),
            Tp::Tls(c) => tls_out(c),
            Tp::Wss(c, _) => {
                c.writer().write_all(&Ws::hello()).unwrap();
                tls_out(c)
            }
        }
    }
    /// Bytes in place of WebSocket frames.
    pub fn below_ws(&mut self, data: &[u8]) -> Vec<u8> {
        match self {
            Tp::Plain | Tp::Ws(_) => data.to_vec(),
            Tp::Tls(c) | Tp::Wss(c, _) => {
                c.writer().write_all(data).unwrap();
                tls_out(c)
            }
        }
    }
    pub fn encode(&mut self, data: &[u8]) -> Vec<u8> {
        match self {
            Tp::Plain => data.to_vec(),
            Tp::Ws(w) => w.encode(data),
            Tp::Tls(c) => {
                c.writer().write_all(data).unwrap();
                tls_out(c)
            }
            Tp::Wss(c, w) => {
                let d = w.encode(data);
                c.writer().write_all(&d).unwrap();
                tls_out(c)
            }
        }
    }
    pub fn decode(&mut self, wire: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
        match self {
            Tp::Plain => Ok((wire.to_vec(), vec![])),
            Tp::Ws(w) => {
                let r = w.decode(wire);
                match w.bad.take() {
                    Some(b) => Err(b),
                    None => Ok(r),
                }
            }
            Tp::Tls(c) => {
                let a = tls_in(c, wire)?;
                Ok((a, tls_out(c)))
            }
            Tp::Wss(c, w) => {
                let a = tls_in(c, wire)?;
                let (app, send) = w.decode(&a);
                if !send.is_empty() {
                    c.writer().write_all(&send).unwrap();
                }
                match w.bad.take() {
                    Some(b) => Err(b),
                    None => Ok((app, tls_out(c))),
                }
            }
        }
    }
}
