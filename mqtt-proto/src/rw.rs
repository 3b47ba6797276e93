//! Async primitives; a `&[u8]` is an `AsyncRead` that is always ready, so the synchronous decoders
//! run the same code through `now`.
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt};

use crate::error::Error;

pub async fn read_u8<T: AsyncRead + Unpin>(r: &mut T) -> Result<u8, Error> {
    Ok(r.read_u8().await?)
}
pub async fn read_u16<T: AsyncRead + Unpin>(r: &mut T) -> Result<u16, Error> {
    Ok(r.read_u16().await?)
}
pub async fn read_u32<T: AsyncRead + Unpin>(r: &mut T) -> Result<u32, Error> {
    Ok(r.read_u32().await?)
}
pub async fn read_vec<T: AsyncRead + Unpin>(r: &mut T) -> Result<Vec<u8>, Error> {
    let len = read_u16(r).await? as usize;
    let mut data = vec![0u8; len];
    r.read_exact(&mut data).await?;
    Ok(data)
}
pub async fn read_bytes<T: AsyncRead + Unpin>(r: &mut T) -> Result<Bytes, Error> {
    Ok(Bytes::from(read_vec(r).await?))
}
pub async fn read_string<T: AsyncRead + Unpin>(r: &mut T) -> Result<String, Error> {
    let s = String::from_utf8(read_vec(r).await?).map_err(|_| Error::InvalidString)?;
    if s.contains('\0') {
        return Err(Error::InvalidString);
    }
    Ok(s)
}
pub async fn read_arc_str<T: AsyncRead + Unpin>(r: &mut T) -> Result<Arc<str>, Error> {
    Ok(Arc::from(read_string(r).await?))
}
pub async fn read_var<T: AsyncRead + Unpin>(r: &mut T) -> Result<(u32, usize), Error> {
    let mut value = 0u32;
    for i in 0..4 {
        let b = read_u8(r).await?;
        value |= ((b & 0x7f) as u32) << (7 * i);
        if b & 0x80 == 0 {
            return Ok((value, i + 1));
        }
    }
    Err(Error::InvalidVarByteInt)
}

/// Poll a future over an in-memory reader; it can never be pending.
pub fn now<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let mut cx = Context::from_waker(Waker::noop());
    match fut.as_mut().poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => unreachable!("in-memory read pending"),
    }
}

pub fn put_u16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&v.to_be_bytes());
}
pub fn put_u32(out: &mut Vec<u8>, v: u32) {
    out.extend_from_slice(&v.to_be_bytes());
}
pub fn put_bin(out: &mut Vec<u8>, data: &[u8]) -> Result<(), Error> {
    if data.len() > u16::MAX as usize {
        return Err(Error::InvalidString);
    }
    put_u16(out, data.len() as u16);
    out.extend_from_slice(data);
    Ok(())
}
pub fn put_var(out: &mut Vec<u8>, mut v: usize) -> Result<(), Error> {
    if v >= 268_435_456 {
        return Err(Error::InvalidVarByteInt);
    }
    loop {
        let mut b = (v & 0x7f) as u8;
        v >>= 7;
        if v > 0 {
            b |= 0x80;
        }
        out.push(b);
        if v == 0 {
            return Ok(());
        }
    }
}
