//! Offline stand-in for the `mqtt-proto` crate, written from the MQTT 3.1, 3.1.1 and 5.0
//! specifications and from the way akasa-core uses the crate.  The original is a git dependency of
//! /repo and is not available in the sandbox; without it most of akasa-core cannot be compiled.
#![allow(clippy::all)]

mod error;
mod poll;
mod rw;
mod types;
pub mod v3;
pub mod v5;

pub use error::{Error, IoErrorKind};
pub use poll::{GenericPollPacket, GenericPollPacketState, PollHeader};
pub use types::*;

use tokio::io::AsyncRead;

/// Read the fixed header: (first byte, remaining length, total packet length).
pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u8, u32, usize), Error> {
    let typ = rw::read_u8(reader).await?;
    let (len, bytes) = rw::read_var(reader).await?;
    Ok((typ, len, 1 + bytes + len as usize))
}

/// Total packet length given the remaining length.
pub fn total_len(remaining_len: usize) -> Result<usize, Error> {
    if remaining_len < 128 {
        Ok(2 + remaining_len)
    } else if remaining_len < 16384 {
        Ok(3 + remaining_len)
    } else if remaining_len < 2_097_152 {
        Ok(4 + remaining_len)
    } else if remaining_len < 268_435_456 {
        Ok(5 + remaining_len)
    } else {
        Err(Error::InvalidVarByteInt)
    }
}
