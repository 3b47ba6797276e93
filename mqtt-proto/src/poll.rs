use std::future::Future;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};

use tokio::io::{AsyncRead, ReadBuf};

use crate::error::{Error, IoErrorKind};

pub trait PollHeader {
    type Error;
    type Packet;

    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Self::Error>
    where
        Self: Sized;
    fn build_empty_packet(&self) -> Option<Self::Packet>;
    fn block_decode(self, reader: &mut &[u8]) -> Result<Self::Packet, Self::Error>;
    fn remaining_len(&self) -> usize;
}

#[derive(Debug)]
pub enum GenericPollPacketState<H> {
    Header {
        control_byte: Option<u8>,
        var_idx: u32,
        var_int: u32,
    },
    Body {
        header: H,
        total: usize,
        idx: usize,
        buf: Vec<MaybeUninit<u8>>,
    },
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState::Header {
            control_byte: None,
            var_idx: 0,
            var_int: 0,
        }
    }
}

pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}
impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

impl<'a, T, H> Future for GenericPollPacket<'a, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Unpin,
    H::Error: From<std::io::Error> + From<Error>,
{
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let GenericPollPacket { state, reader } = self.get_mut();
        loop {
            match &mut **state {
                GenericPollPacketState::Header {
                    control_byte,
                    var_idx,
                    var_int,
                } => {
                    let mut byte = [0u8; 1];
                    let mut rb = ReadBuf::new(&mut byte);
                    match Pin::new(&mut **reader).poll_read(cx, &mut rb) {
                        Poll::Ready(Ok(())) => {
                            if rb.filled().is_empty() {
                                return Poll::Ready(Err(
                                    Error::IoError(IoErrorKind::UnexpectedEof).into()
                                ));
                            }
                        }
                        Poll::Ready(Err(err)) => return Poll::Ready(Err(err.into())),
                        Poll::Pending => return Poll::Pending,
                    }
                    let b = byte[0];
                    let Some(hd) = *control_byte else {
                        *control_byte = Some(b);
                        continue;
                    };
                    *var_int |= ((b & 0x7f) as u32) << (7 * *var_idx);
                    *var_idx += 1;
                    if b & 0x80 != 0 {
                        if *var_idx == 4 {
                            return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                        }
                        continue;
                    }
                    let total = 1 + *var_idx as usize + *var_int as usize;
                    let header = H::new_with(hd, *var_int, total as u32)?;
                    if let Some(packet) = header.build_empty_packet() {
                        return Poll::Ready(Ok((total, Vec::new(), packet)));
                    }
                    let len = header.remaining_len();
                    if len == 0 {
                        return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                    }
                    let mut buf: Vec<MaybeUninit<u8>> = Vec::with_capacity(len);
                    // SAFETY: MaybeUninit needs no initialisation
                    unsafe { buf.set_len(len) };
                    **state = GenericPollPacketState::Body {
                        header,
                        total,
                        idx: 0,
                        buf,
                    };
                }
                GenericPollPacketState::Body {
                    header,
                    total,
                    idx,
                    buf,
                } => {
                    let mut rb = ReadBuf::uninit(&mut buf[*idx..]);
                    match Pin::new(&mut **reader).poll_read(cx, &mut rb) {
                        Poll::Ready(Ok(())) => {
                            let n = rb.filled().len();
                            if n == 0 {
                                return Poll::Ready(Err(
                                    Error::IoError(IoErrorKind::UnexpectedEof).into()
                                ));
                            }
                            *idx += n;
                        }
                        Poll::Ready(Err(err)) => return Poll::Ready(Err(err.into())),
                        Poll::Pending => return Poll::Pending,
                    }
                    if *idx < buf.len() {
                        continue;
                    }
                    // SAFETY: every byte up to buf.len() was filled by poll_read
                    let body: &[u8] =
                        unsafe { std::slice::from_raw_parts(buf.as_ptr() as *const u8, buf.len()) };
                    let mut reader = body;
                    let packet = header.block_decode(&mut reader)?;
                    if !reader.is_empty() {
                        return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                    }
                    let total = *total;
                    let body = std::mem::take(buf);
                    return Poll::Ready(Ok((total, body, packet)));
                }
            }
        }
    }
}
