use std::convert::TryFrom;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::{Add, AddAssign, Deref, Sub, SubAssign};
use std::sync::Arc;

use tokio::io::AsyncRead;

use crate::error::Error;
use crate::rw;

pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ONE_STR: &str = "+";
pub const SHARED_PREFIX: &str = "$share/";
pub const SYS_PREFIX: &str = "$SYS/";

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Protocol {
    V310 = 3,
    V311 = 4,
    V500 = 5,
}

impl Protocol {
    pub fn new(name: &str, level: u8) -> Result<Protocol, Error> {
        match (name, level) {
            ("MQIsdp", 3) => Ok(Protocol::V310),
            ("MQTT", 4) => Ok(Protocol::V311),
            ("MQTT", 5) => Ok(Protocol::V500),
            _ => Err(Error::InvalidProtocol(name.into(), level)),
        }
    }
    pub fn to_pair(self) -> (&'static str, u8) {
        match self {
            Protocol::V310 => ("MQIsdp", 3),
            Protocol::V311 => ("MQTT", 4),
            Protocol::V500 => ("MQTT", 5),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Protocol, Error> {
        let name = rw::read_string(reader).await?;
        let level = rw::read_u8(reader).await?;
        Protocol::new(&name, level)
    }
    pub(crate) fn put(self, out: &mut Vec<u8>) {
        let (name, level) = self.to_pair();
        rw::put_bin(out, name.as_bytes()).expect("protocol name");
        out.push(level);
    }
}
impl Default for Protocol {
    fn default() -> Self {
        Protocol::V311
    }
}
impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Protocol::V310 => "v3.1",
            Protocol::V311 => "v3.1.1",
            Protocol::V500 => "v5.0",
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum QoS {
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}
impl QoS {
    pub fn from_u8(b: u8) -> Result<QoS, Error> {
        match b {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            n => Err(Error::InvalidQos(n)),
        }
    }
}
impl TryFrom<u8> for QoS {
    type Error = Error;
    fn try_from(b: u8) -> Result<QoS, Error> {
        QoS::from_u8(b)
    }
}
impl Default for QoS {
    fn default() -> Self {
        QoS::Level0
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pid(u16);
impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl Default for Pid {
    fn default() -> Self {
        Pid(1)
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(v: u16) -> Result<Pid, Error> {
        if v == 0 { Err(Error::ZeroPid) } else { Ok(Pid(v)) }
    }
}
impl Add<u16> for Pid {
    type Output = Pid;
    fn add(self, u: u16) -> Pid {
        let n = match self.0.overflowing_add(u) {
            (n, false) => n,
            (n, true) => n + 1,
        };
        Pid(n)
    }
}
impl AddAssign<u16> for Pid {
    fn add_assign(&mut self, u: u16) {
        *self = *self + u;
    }
}
impl Sub<u16> for Pid {
    type Output = Pid;
    fn sub(self, u: u16) -> Pid {
        let n = match self.0.overflowing_sub(u) {
            (0, _) => u16::MAX,
            (n, false) => n,
            (n, true) => n - 1,
        };
        Pid(n)
    }
}
impl SubAssign<u16> for Pid {
    fn sub_assign(&mut self, u: u16) {
        *self = *self - u;
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}
impl QosPid {
    pub fn new(qos: QoS, pid: u16) -> QosPid {
        match qos {
            QoS::Level0 => QosPid::Level0,
            QoS::Level1 => QosPid::Level1(Pid::try_from(pid).expect("pid")),
            QoS::Level2 => QosPid::Level2(Pid::try_from(pid).expect("pid")),
        }
    }
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) | QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TopicName(Arc<str>);
impl TopicName {
    /// True when the name is NOT a legal topic name.
    pub fn is_invalid(value: &str) -> bool {
        value.len() > u16::MAX as usize
            || value.contains(|c: char| c == MATCH_ONE_CHAR || c == MATCH_ALL_CHAR || c == '\0')
    }
    pub fn is_shared(&self) -> bool {
        self.0.starts_with(SHARED_PREFIX)
    }
    pub fn is_sys(&self) -> bool {
        self.0.starts_with(SYS_PREFIX)
    }
}
impl TryFrom<String> for TopicName {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        if TopicName::is_invalid(&v) {
            Err(Error::InvalidTopicName(v))
        } else {
            Ok(TopicName(Arc::from(v)))
        }
    }
}
impl TryFrom<&str> for TopicName {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        TopicName::try_from(v.to_owned())
    }
}
impl Deref for TopicName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for TopicName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug, Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    // byte offset of the level separator after the share name, 0: not a shared filter
    shared_sep: usize,
}
impl TopicFilter {
    /// Err: not a legal topic filter; Ok(offset of the separator after the share name or 0)
    fn check(value: &str) -> Result<usize, ()> {
        if value.is_empty() || value.len() > u16::MAX as usize || value.contains('\0') {
            return Err(());
        }
        let (sep, filter) = if let Some(rest) = value.strip_prefix(SHARED_PREFIX) {
            let idx = rest.find(LEVEL_SEP).ok_or(())?;
            let group = &rest[..idx];
            if group.is_empty() || group.contains([MATCH_ALL_CHAR, MATCH_ONE_CHAR]) {
                return Err(());
            }
            let filter = &rest[idx + 1..];
            if filter.is_empty() {
                return Err(());
            }
            (SHARED_PREFIX.len() + idx, filter)
        } else {
            if value == "$share" {
                return Err(());
            }
            (0, value)
        };
        let levels: Vec<&str> = filter.split(LEVEL_SEP).collect();
        for (i, level) in levels.iter().enumerate() {
            if level.contains(MATCH_ALL_CHAR) && (*level != MATCH_ALL_STR || i + 1 != levels.len()) {
                return Err(());
            }
            if level.contains(MATCH_ONE_CHAR) && *level != MATCH_ONE_STR {
                return Err(());
            }
        }
        Ok(sep)
    }
    pub fn is_shared(&self) -> bool {
        self.shared_sep > 0
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(SYS_PREFIX)
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|(g, _)| g)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|(_, f)| f)
    }
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        (self.shared_sep > 0).then(|| {
            (
                &self.inner[SHARED_PREFIX.len()..self.shared_sep],
                &self.inner[self.shared_sep + 1..],
            )
        })
    }
}
impl TryFrom<String> for TopicFilter {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        match TopicFilter::check(&v) {
            Ok(shared_sep) => Ok(TopicFilter {
                inner: Arc::from(v),
                shared_sep,
            }),
            Err(()) => Err(Error::InvalidTopicFilter(v)),
        }
    }
}
impl TryFrom<&str> for TopicFilter {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        TopicFilter::try_from(v.to_owned())
    }
}
impl PartialEq for TopicFilter {
    fn eq(&self, o: &Self) -> bool {
        self.inner == o.inner
    }
}
impl Eq for TopicFilter {}
impl PartialOrd for TopicFilter {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TopicFilter {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&o.inner)
    }
}
impl Hash for TopicFilter {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.inner.hash(h)
    }
}
impl Deref for TopicFilter {
    type Target = str;
    fn deref(&self) -> &str {
        &self.inner
    }
}
impl fmt::Display for TopicFilter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.inner)
    }
}

/// Encoded packet bytes.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl VarBytes {
    pub fn as_slice(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(v) => v,
            VarBytes::Fixed2(v) => v,
            VarBytes::Fixed4(v) => v,
        }
    }
    pub(crate) fn new(data: Vec<u8>) -> VarBytes {
        match data.len() {
            2 => VarBytes::Fixed2([data[0], data[1]]),
            4 => VarBytes::Fixed4([data[0], data[1], data[2], data[3]]),
            _ => VarBytes::Dynamic(data),
        }
    }
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        self.as_slice()
    }
}

/// The length of the encoded form (for a packet body: without the fixed header).
pub trait Encodable {
    fn encode_len(&self) -> usize;
}
