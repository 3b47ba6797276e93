//! MQTT 3.1 / 3.1.1 packets.
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::error::Error;
use crate::poll::{GenericPollPacket, GenericPollPacketState, PollHeader};
use crate::rw::*;
use crate::types::*;
use crate::{decode_raw_header_async, total_len};

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}

impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        const FLAGS_0: u8 = 0;
        const FLAGS_2: u8 = 0b10;
        let (typ, flags) = match hd >> 4 {
            1 => (PacketType::Connect, Some(FLAGS_0)),
            2 => (PacketType::Connack, Some(FLAGS_0)),
            3 => (PacketType::Publish, None),
            4 => (PacketType::Puback, Some(FLAGS_0)),
            5 => (PacketType::Pubrec, Some(FLAGS_0)),
            6 => (PacketType::Pubrel, Some(FLAGS_2)),
            7 => (PacketType::Pubcomp, Some(FLAGS_0)),
            8 => (PacketType::Subscribe, Some(FLAGS_2)),
            9 => (PacketType::Suback, Some(FLAGS_0)),
            10 => (PacketType::Unsubscribe, Some(FLAGS_2)),
            11 => (PacketType::Unsuback, Some(FLAGS_0)),
            12 => (PacketType::Pingreq, Some(FLAGS_0)),
            13 => (PacketType::Pingresp, Some(FLAGS_0)),
            14 => (PacketType::Disconnect, Some(FLAGS_0)),
            _ => return Err(Error::InvalidHeader),
        };
        let (mut dup, mut qos, mut retain) = (false, QoS::Level0, false);
        match flags {
            Some(f) if hd & 0x0f != f => return Err(Error::InvalidHeader),
            Some(_) => {}
            None => {
                dup = hd & 8 != 0;
                qos = QoS::from_u8((hd >> 1) & 3)?;
                retain = hd & 1 != 0;
            }
        }
        let header = Header { typ, dup, qos, retain, remaining_len, total_len };
        if matches!(typ, PacketType::Pingreq | PacketType::Pingresp | PacketType::Disconnect)
            && remaining_len != 0
        {
            return Err(Error::InvalidRemainingLength);
        }
        Ok(header)
    }
}

impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Error> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(Packet::Disconnect),
            _ => None,
        }
    }
    fn block_decode(self, reader: &mut &[u8]) -> Result<Packet, Error> {
        now(Packet::decode_body(reader, self))
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}

macro_rules! from_packet {
    ($($name:ident),*) => {$(
        impl From<$name> for Packet { fn from(p: $name) -> Packet { Packet::$name(p) } }
    )*}
}
from_packet!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}
impl LastWill {
    pub fn new(topic_name: TopicName, message: Bytes) -> LastWill {
        LastWill { qos: QoS::Level0, retain: false, topic_name, message }
    }
}

impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Connect {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    /// The protocol name and level were already read.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        protocol: Protocol,
    ) -> Result<Connect, Error> {
        if (protocol as u8) > 4 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = read_u8(reader).await?;
        let bad = || Error::InvalidConnectFlags(flags);
        if flags & 1 != 0 {
            return Err(bad());
        }
        let has_will = flags & 0b100 != 0;
        if !has_will && flags & 0b11_1000 != 0 {
            return Err(bad());
        }
        if flags & 0x80 == 0 && flags & 0x40 != 0 {
            return Err(bad());
        }
        let keep_alive = read_u16(reader).await?;
        let client_id = read_arc_str(reader).await?;
        let last_will = if has_will {
            let qos = QoS::from_u8((flags >> 3) & 3)?;
            let topic_name = TopicName::try_from(read_string(reader).await?)?;
            let message = read_bytes(reader).await?;
            Some(LastWill { qos, retain: flags & 0x20 != 0, topic_name, message })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(read_arc_str(reader).await?) } else { None };
        let password = if flags & 0x40 != 0 { Some(read_bytes(reader).await?) } else { None };
        Ok(Connect {
            protocol,
            clean_session: flags & 2 != 0,
            keep_alive,
            client_id,
            last_will,
            username,
            password,
        })
    }
    fn put(&self, out: &mut Vec<u8>) -> Result<(), Error> {
        self.protocol.put(out);
        let mut flags = 0u8;
        if self.clean_session {
            flags |= 2;
        }
        if let Some(w) = &self.last_will {
            flags |= 4 | ((w.qos as u8) << 3);
            if w.retain {
                flags |= 0x20;
            }
        }
        if self.username.is_some() {
            flags |= 0x80;
        }
        if self.password.is_some() {
            flags |= 0x40;
        }
        out.push(flags);
        put_u16(out, self.keep_alive);
        put_bin(out, self.client_id.as_bytes())?;
        if let Some(w) = &self.last_will {
            put_bin(out, w.topic_name.as_bytes())?;
            put_bin(out, &w.message)?;
        }
        if let Some(u) = &self.username {
            put_bin(out, u.as_bytes())?;
        }
        if let Some(p) = &self.password {
            put_bin(out, p)?;
        }
        Ok(())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Connack {
        Connack { session_present, code }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum ConnectReturnCode {
    Accepted = 0,
    UnacceptableProtocolVersion = 1,
    IdentifierRejected = 2,
    ServerUnavailable = 3,
    BadUserNameOrPassword = 4,
    NotAuthorized = 5,
}
impl ConnectReturnCode {
    pub fn from_u8(b: u8) -> Result<ConnectReturnCode, Error> {
        use ConnectReturnCode::*;
        Ok(match b {
            0 => Accepted,
            1 => UnacceptableProtocolVersion,
            2 => IdentifierRejected,
            3 => ServerUnavailable,
            4 => BadUserNameOrPassword,
            5 => NotAuthorized,
            _ => return Err(Error::InvalidConnectReturnCode(b)),
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
// The duplicate flag is not part of the message identity: a re-delivered packet hashes like the
// original one.
impl Hash for Publish {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.retain.hash(h);
        self.qos_pid.hash(h);
        self.topic_name.hash(h);
        self.payload.hash(h);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Publish {
        Publish { dup: false, retain: false, qos_pid, topic_name, payload }
    }
}
impl Encodable for Publish {
    fn encode_len(&self) -> usize {
        let pid = if self.qos_pid == QosPid::Level0 { 0 } else { 2 };
        2 + self.topic_name.len() + pid + self.payload.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Subscribe {
        Subscribe { pid, topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Suback {
        Suback { pid, topics }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum SubscribeReturnCode {
    MaxLevel0 = 0,
    MaxLevel1 = 1,
    MaxLevel2 = 2,
    Failure = 0x80,
}
impl SubscribeReturnCode {
    pub fn from_u8(b: u8) -> Result<Self, Error> {
        Ok(match b {
            0 => Self::MaxLevel0,
            1 => Self::MaxLevel1,
            2 => Self::MaxLevel2,
            0x80 => Self::Failure,
            _ => return Err(Error::InvalidQos(b)),
        })
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(q: QoS) -> Self {
        match q {
            QoS::Level0 => Self::MaxLevel0,
            QoS::Level1 => Self::MaxLevel1,
            QoS::Level2 => Self::MaxLevel2,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Unsubscribe {
        Unsubscribe { pid, topics }
    }
}

async fn read_pid<T: AsyncRead + Unpin>(r: &mut T) -> Result<Pid, Error> {
    Pid::try_from(read_u16(r).await?)
}

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect => PacketType::Disconnect,
        }
    }

    async fn decode_body<T: AsyncRead + Unpin>(r: &mut T, h: Header) -> Result<Packet, Error> {
        let remaining = h.remaining_len as usize;
        Ok(match h.typ {
            PacketType::Connect => {
                let protocol = Protocol::decode_async(r).await?;
                Connect::decode_stream_with_protocol(r, protocol).await?.into()
            }
            PacketType::Connack => {
                let flags = read_u8(r).await?;
                if flags > 1 {
                    return Err(Error::InvalidConnackFlags(flags));
                }
                Connack::new(flags == 1, ConnectReturnCode::from_u8(read_u8(r).await?)?).into()
            }
            PacketType::Publish => {
                let topic_name = TopicName::try_from(read_string(r).await?)?;
                let mut used = 2 + topic_name.len();
                let qos_pid = match h.qos {
                    QoS::Level0 => QosPid::Level0,
                    q => {
                        used += 2;
                        let pid = read_pid(r).await?;
                        if q == QoS::Level1 { QosPid::Level1(pid) } else { QosPid::Level2(pid) }
                    }
                };
                let len = remaining.checked_sub(used).ok_or(Error::InvalidRemainingLength)?;
                let mut payload = vec![0u8; len];
                r.read_exact(&mut payload).await?;
                Publish {
                    dup: h.dup,
                    retain: h.retain,
                    qos_pid,
                    topic_name,
                    payload: Bytes::from(payload),
                }
                .into()
            }
            PacketType::Puback => Packet::Puback(read_pid(r).await?),
            PacketType::Pubrec => Packet::Pubrec(read_pid(r).await?),
            PacketType::Pubrel => Packet::Pubrel(read_pid(r).await?),
            PacketType::Pubcomp => Packet::Pubcomp(read_pid(r).await?),
            PacketType::Unsuback => Packet::Unsuback(read_pid(r).await?),
            PacketType::Subscribe => {
                let pid = read_pid(r).await?;
                let mut left = remaining.checked_sub(2).ok_or(Error::InvalidRemainingLength)?;
                let mut topics = Vec::new();
                while left > 0 {
                    let filter = TopicFilter::try_from(read_string(r).await?)?;
                    let qos = QoS::from_u8(read_u8(r).await?)?;
                    left = left
                        .checked_sub(3 + filter.len())
                        .ok_or(Error::InvalidRemainingLength)?;
                    topics.push((filter, qos));
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Subscribe { pid, topics }.into()
            }
            PacketType::Suback => {
                let pid = read_pid(r).await?;
                let mut topics = Vec::new();
                for _ in 2..remaining {
                    topics.push(SubscribeReturnCode::from_u8(read_u8(r).await?)?);
                }
                Suback { pid, topics }.into()
            }
            PacketType::Unsubscribe => {
                let pid = read_pid(r).await?;
                let mut left = remaining.checked_sub(2).ok_or(Error::InvalidRemainingLength)?;
                let mut topics = Vec::new();
                while left > 0 {
                    let filter = TopicFilter::try_from(read_string(r).await?)?;
                    left = left
                        .checked_sub(2 + filter.len())
                        .ok_or(Error::InvalidRemainingLength)?;
                    topics.push(filter);
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Unsubscribe { pid, topics }.into()
            }
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => Packet::Disconnect,
        })
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Packet, Error> {
        let (hd, remaining, total) = decode_raw_header_async(reader).await?;
        let header = Header::new_with(hd, remaining, total as u32)?;
        Packet::decode_body(reader, header).await
    }

    /// `Ok(None)`: more bytes are needed.
    pub fn decode(bytes: &[u8]) -> Result<Option<Packet>, Error> {
        let mut reader = bytes;
        match now(Packet::decode_async(&mut reader)) {
            Ok(p) => Ok(Some(p)),
            Err(e) if e.is_eof() => Ok(None),
            Err(e) => Err(e),
        }
    }

    pub fn encode(&self) -> Result<VarBytes, Error> {
        let mut body = Vec::new();
        let mut flags = 0u8;
        match self {
            Packet::Connect(p) => p.put(&mut body)?,
            Packet::Connack(p) => body.extend([p.session_present as u8, p.code as u8]),
            Packet::Publish(p) => {
                flags = ((p.dup as u8) << 3) | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8;
                put_bin(&mut body, p.topic_name.as_bytes())?;
                if let Some(pid) = p.qos_pid.pid() {
                    put_u16(&mut body, pid.value());
                }
                body.extend_from_slice(&p.payload);
            }
            Packet::Puback(pid)
            | Packet::Pubrec(pid)
            | Packet::Pubcomp(pid)
            | Packet::Unsuback(pid) => put_u16(&mut body, pid.value()),
            Packet::Pubrel(pid) => {
                flags = 2;
                put_u16(&mut body, pid.value())
            }
            Packet::Subscribe(p) => {
                flags = 2;
                put_u16(&mut body, p.pid.value());
                for (filter, qos) in &p.topics {
                    put_bin(&mut body, filter.as_bytes())?;
                    body.push(*qos as u8);
                }
            }
            Packet::Suback(p) => {
                put_u16(&mut body, p.pid.value());
                body.extend(p.topics.iter().map(|c| *c as u8));
            }
            Packet::Unsubscribe(p) => {
                flags = 2;
                put_u16(&mut body, p.pid.value());
                for filter in &p.topics {
                    put_bin(&mut body, filter.as_bytes())?;
                }
            }
            Packet::Pingreq | Packet::Pingresp | Packet::Disconnect => {}
        }
        let typ = self.get_type() as u8 + 1;
        let mut out = Vec::with_capacity(total_len(body.len())?);
        out.push((typ << 4) | flags);
        put_var(&mut out, body.len())?;
        out.extend_from_slice(&body);
        Ok(VarBytes::new(out))
    }

    pub fn encode_len(&self) -> Result<usize, Error> {
        Ok(self.encode()?.as_ref().len())
    }

    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), Error> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        Ok(())
    }
}
