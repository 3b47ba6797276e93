use std::fmt;
use std::io;

pub use std::io::ErrorKind as IoErrorKind;

use crate::types::Protocol;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidRemainingLength,
    EmptySubscription,
    ZeroPid,
    InvalidQos(u8),
    InvalidConnectFlags(u8),
    InvalidConnackFlags(u8),
    InvalidConnectReturnCode(u8),
    InvalidProtocol(String, u8),
    UnexpectedProtocol(Protocol),
    InvalidHeader,
    InvalidVarByteInt,
    InvalidTopicName(String),
    InvalidTopicFilter(String),
    InvalidString,
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        matches!(self, Error::IoError(IoErrorKind::UnexpectedEof))
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::EmptySubscription => f.write_str("empty subscription"),
            e => write!(f, "{:?}", e),
        }
    }
}
impl std::error::Error for Error {}

impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::IoError(err.kind())
    }
}
impl From<Error> for io::Error {
    fn from(err: Error) -> io::Error {
        match err {
            Error::IoError(kind) => kind.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}
