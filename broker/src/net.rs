//! Simulated byte streams between a monitor's client and the broker.
use crate::clock::bump;
use monlib::Rng;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// How the broker's side of the stream behaves.
#[derive(Clone, Debug, Default)]
pub struct Policy {
    /// at most this many bytes per read (0: no limit), varied at random up to it
    pub read_chunk: usize,
    /// at most this many bytes per write (0: no limit)
    pub write_chunk: usize,
    /// one in n polls answers Pending and wakes itself (0: never)
    pub pending: usize,
    /// written bytes reach the client only through a completed flush
    pub buffered: bool,
    /// one in n flushes of a buffered stream stays Pending until `kick` (0: never)
    pub flush_pending: usize,
}

pub struct Pipe {
    c2s: VecDeque<u8>,
    c2s_eof: bool,
    c2s_err: bool,
    s2c: Vec<u8>,
    held: Vec<u8>,
    /// bytes the broker may still write (None: any number)
    pub window: Option<usize>,
    write_err: bool,
    shutdown: bool,
    dropped: bool,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    flush_waker: Option<Waker>,
    policy: Policy,
    rng: Rng,
    pub total_s2c: u64,
    pub total_c2s: u64,
    pub partial_writes: u64,
    pub pendings: u64,
}

#[derive(Clone)]
pub struct ClientEnd(Arc<Mutex<Pipe>>);
pub struct ServerEnd(Arc<Mutex<Pipe>>);

pub fn pair(policy: Policy, rng: Rng) -> (ClientEnd, ServerEnd) {
    let p = Arc::new(Mutex::new(Pipe {
        c2s: VecDeque::new(),
        c2s_eof: false,
        c2s_err: false,
        s2c: Vec::new(),
        held: Vec::new(),
        window: None,
        write_err: false,
        shutdown: false,
        dropped: false,
        read_waker: None,
        write_waker: None,
        flush_waker: None,
        policy,
        rng,
        total_s2c: 0,
        total_c2s: 0,
        partial_writes: 0,
        pendings: 0,
    }));
    (ClientEnd(p.clone()), ServerEnd(p))
}

impl ClientEnd {
    pub fn lock(&self) -> MutexGuard<'_, Pipe> {
        self.0.lock().unwrap()
    }
    pub fn send(&self, b: &[u8]) {
        let w = {
            let mut p = self.lock();
            p.c2s.extend(b);
            p.total_c2s += b.len() as u64;
            bump();
            p.read_waker.take()
        };
        w.map(Waker::wake);
    }
    /// Everything the broker has made visible since the last call.
    pub fn recv(&self) -> Vec<u8> {
        std::mem::take(&mut self.lock().s2c)
    }
    pub fn unread(&self) -> usize {
        self.lock().c2s.len()
    }
    /// Half-close: the broker reads end of file.
    pub fn eof(&self) {
        let w = {
            let mut p = self.lock();
            p.c2s_eof = true;
            bump();
            p.read_waker.take()
        };
        w.map(Waker::wake);
    }
    /// Abrupt loss: reads fail (or hit end of file), writes fail.
    pub fn abort(&self, reset: bool) {
        let ws = {
            let mut p = self.lock();
            p.c2s_eof = true;
            p.c2s_err = reset;
            if reset {
                p.c2s.clear();
            }
            p.write_err = true;
            bump();
            [p.read_waker.take(), p.write_waker.take(), p.flush_waker.take()]
        };
        for w in ws.into_iter().flatten() {
            w.wake();
        }
    }
    pub fn fail_writes(&self) {
        let ws = {
            let mut p = self.lock();
            p.write_err = true;
            [p.write_waker.take(), p.flush_waker.take()]
        };
        for w in ws.into_iter().flatten() {
            w.wake();
        }
    }
    pub fn set_window(&self, n: Option<usize>) {
        let w = {
            let mut p = self.lock();
            p.window = n;
            bump();
            p.write_waker.take()
        };
        w.map(Waker::wake);
    }
    pub fn grant(&self, n: usize) {
        let w = {
            let mut p = self.lock();
            if let Some(x) = &mut p.window {
                *x += n;
            }
            bump();
            p.write_waker.take()
        };
        w.map(Waker::wake);
    }
    /// Lets a buffered stream's pending flush go on.
    pub fn kick(&self) -> bool {
        let w = self.lock().flush_waker.take();
        let any = w.is_some();
        w.map(Waker::wake);
        any
    }
    pub fn set_policy(&self, pol: Policy) {
        self.lock().policy = pol;
    }
    /// Bytes accepted from the broker that a flush has not released yet.
    pub fn held(&self) -> usize {
        self.lock().held.len()
    }
    /// The broker shut the stream down or let go of it.
    pub fn closed(&self) -> bool {
        let p = self.lock();
        p.shutdown || p.dropped
    }
    pub fn dropped(&self) -> bool {
        self.lock().dropped
    }
    pub fn blocked(&self) -> bool {
        self.lock().write_waker.is_some()
    }
}

impl Drop for ServerEnd {
    fn drop(&mut self) {
        let mut p = self.0.lock().unwrap();
        p.dropped = true;
        p.held.clear();
        bump();
    }
}

impl AsyncRead for ServerEnd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        let p = &mut *g;
        if p.policy.pending > 0 && p.rng.below(p.policy.pending) == 0 {
            p.pendings += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if p.c2s.is_empty() {
            if p.c2s_err {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if p.c2s_eof {
                return Poll::Ready(Ok(()));
            }
            p.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.remaining().min(p.c2s.len());
        if p.policy.read_chunk > 0 && n > 0 {
            n = n.min(p.rng.range(1, p.policy.read_chunk));
        }
        for b in p.c2s.drain(..n) {
            buf.put_slice(&[b]);
        }
        bump();
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for ServerEnd {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        let p = &mut *g;
        if p.write_err || p.shutdown {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.policy.pending > 0 && p.rng.below(p.policy.pending) == 0 {
            p.pendings += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = data.len();
        if let Some(w) = p.window {
            n = n.min(w);
            if n == 0 {
                p.pendings += 1;
                p.write_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            p.window = Some(w - n);
        } else if p.policy.write_chunk > 0 {
            n = n.min(p.rng.range(1, p.policy.write_chunk));
        }
        if n < data.len() {
            p.partial_writes += 1;
        }
        if p.policy.buffered {
            p.held.extend(&data[..n]);
        } else {
            p.s2c.extend(&data[..n]);
        }
        p.total_s2c += n as u64;
        bump();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        flush(&mut self.0.lock().unwrap(), cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        match flush(&mut g, cx) {
            Poll::Ready(Ok(())) => {}
            r => return r,
        }
        g.shutdown = true;
        bump();
        Poll::Ready(Ok(()))
    }
}

fn flush(p: &mut Pipe, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    if p.write_err {
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    if !p.held.is_empty() {
        if p.policy.flush_pending > 0 && p.rng.below(p.policy.flush_pending) == 0 {
            p.pendings += 1;
            p.flush_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let h = std::mem::take(&mut p.held);
        p.s2c.extend(h);
        bump();
    }
    Poll::Ready(Ok(()))
}
