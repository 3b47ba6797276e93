//! MQTT 5.0 packets.
use std::convert::TryFrom;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::error::Error;
use crate::poll::{GenericPollPacket, GenericPollPacketState, PollHeader};
use crate::rw::*;
use crate::types::*;
use crate::{decode_raw_header_async, total_len};

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorV5 {
    Common(Error),
    InvalidReasonCode(PacketType, u8),
    InvalidSubscriptionOption(u8),
    InvalidByteProperty(u8, u8),
    InvalidPropertyId(u8),
    InvalidProperty(PacketType, u8),
    DuplicatedProperty(u8),
    InvalidPropertyLength(u32),
    InvalidPayloadFormat,
    EmptySubscription,
    InvalidResponseTopic,
}
impl ErrorV5 {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrorV5::Common(e) if e.is_eof())
    }
}
impl fmt::Display for ErrorV5 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ErrorV5::InvalidPayloadFormat => f.write_str("invalid payload format, utf8 expected"),
            ErrorV5::EmptySubscription => f.write_str("empty subscription"),
            ErrorV5::Common(e) => write!(f, "{}", e),
            e => write!(f, "{:?}", e),
        }
    }
}
impl std::error::Error for ErrorV5 {}
impl From<Error> for ErrorV5 {
    fn from(e: Error) -> Self {
        ErrorV5::Common(e)
    }
}
impl From<io::Error> for ErrorV5 {
    fn from(e: io::Error) -> Self {
        ErrorV5::Common(e.into())
    }
}
impl From<ErrorV5> for io::Error {
    fn from(e: ErrorV5) -> io::Error {
        match e {
            ErrorV5::Common(e) => e.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
    Auth,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}

impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, ErrorV5> {
        let (typ, flags) = match hd >> 4 {
            1 => (PacketType::Connect, Some(0)),
            2 => (PacketType::Connack, Some(0)),
            3 => (PacketType::Publish, None),
            4 => (PacketType::Puback, Some(0)),
            5 => (PacketType::Pubrec, Some(0)),
            6 => (PacketType::Pubrel, Some(2)),
            7 => (PacketType::Pubcomp, Some(0)),
            8 => (PacketType::Subscribe, Some(2)),
            9 => (PacketType::Suback, Some(0)),
            10 => (PacketType::Unsubscribe, Some(2)),
            11 => (PacketType::Unsuback, Some(0)),
            12 => (PacketType::Pingreq, Some(0)),
            13 => (PacketType::Pingresp, Some(0)),
            14 => (PacketType::Disconnect, Some(0)),
            15 => (PacketType::Auth, Some(0)),
            _ => return Err(Error::InvalidHeader.into()),
        };
        let (mut dup, mut qos, mut retain) = (false, QoS::Level0, false);
        match flags {
            Some(f) if hd & 0x0f != f => return Err(Error::InvalidHeader.into()),
            Some(_) => {}
            None => {
                dup = hd & 8 != 0;
                qos = QoS::from_u8((hd >> 1) & 3)?;
                retain = hd & 1 != 0;
            }
        }
        if matches!(typ, PacketType::Pingreq | PacketType::Pingresp) && remaining_len != 0 {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}

impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, ErrorV5> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect if self.remaining_len == 0 => {
                Some(Disconnect::new(DisconnectReasonCode::NormalDisconnect).into())
            }
            PacketType::Auth if self.remaining_len == 0 => {
                Some(Auth::new(AuthReasonCode::Success).into())
            }
            _ => None,
        }
    }
    fn block_decode(self, reader: &mut &[u8]) -> Result<Packet, ErrorV5> {
        now(Packet::decode_body(reader, self))
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
}

// ==== variable byte integer, user property ====

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v < 268_435_456 { Ok(VarByteInt(v)) } else { Err(Error::InvalidVarByteInt) }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}

// ==== properties ====

trait Prop {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error>;
    /// returns the number of value bytes
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5>;
}

fn single<V>(slot: &mut Option<V>, id: u8, v: V) -> Result<(), ErrorV5> {
    if slot.is_some() {
        return Err(ErrorV5::DuplicatedProperty(id));
    }
    *slot = Some(v);
    Ok(())
}

impl Prop for Option<bool> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.extend([id, *v as u8]);
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let v = match now(read_u8(r))? {
            0 => false,
            1 => true,
            n => return Err(ErrorV5::InvalidByteProperty(id, n)),
        };
        single(self, id, v)
    }
}
impl Prop for Option<QoS> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.extend([id, *v as u8]);
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let n = now(read_u8(r))?;
        let v = QoS::from_u8(n).map_err(|_| ErrorV5::InvalidByteProperty(id, n))?;
        single(self, id, v)
    }
}
impl Prop for Option<u16> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.push(id);
            put_u16(out, *v);
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let v = now(read_u16(r))?;
        single(self, id, v)
    }
}
impl Prop for Option<u32> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.push(id);
            put_u32(out, *v);
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let v = now(read_u32(r))?;
        single(self, id, v)
    }
}
impl Prop for Option<VarByteInt> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.push(id);
            put_var(out, v.0 as usize)?;
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let (v, _) = now(read_var(r))?;
        single(self, id, VarByteInt(v))
    }
}
impl Prop for Vec<VarByteInt> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        for v in self {
            out.push(id);
            put_var(out, v.0 as usize)?;
        }
        Ok(())
    }
    fn prop_take(&mut self, _id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let (v, _) = now(read_var(r))?;
        self.push(VarByteInt(v));
        Ok(())
    }
}
impl Prop for Option<Arc<str>> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.push(id);
            put_bin(out, v.as_bytes())?;
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let v = now(read_arc_str(r))?;
        single(self, id, v)
    }
}
impl Prop for Option<TopicName> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.push(id);
            put_bin(out, v.as_bytes())?;
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let v = TopicName::try_from(now(read_string(r))?)
            .map_err(|_| ErrorV5::InvalidResponseTopic)?;
        single(self, id, v)
    }
}
impl Prop for Option<Bytes> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        if let Some(v) = self {
            out.push(id);
            put_bin(out, v)?;
        }
        Ok(())
    }
    fn prop_take(&mut self, id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let v = now(read_bytes(r))?;
        single(self, id, v)
    }
}
impl Prop for Vec<UserProperty> {
    fn prop_put(&self, id: u8, out: &mut Vec<u8>) -> Result<(), Error> {
        for p in self {
            out.push(id);
            put_bin(out, p.name.as_bytes())?;
            put_bin(out, p.value.as_bytes())?;
        }
        Ok(())
    }
    fn prop_take(&mut self, _id: u8, r: &mut &[u8]) -> Result<(), ErrorV5> {
        let name = now(read_arc_str(r))?;
        let value = now(read_arc_str(r))?;
        self.push(UserProperty { name, value });
        Ok(())
    }
}

const KNOWN_IDS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c,
    0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a,
];

trait Properties: Default {
    fn put_all(&self, out: &mut Vec<u8>) -> Result<(), Error>;
    fn take_one(&mut self, id: u8, r: &mut &[u8], typ: PacketType) -> Result<(), ErrorV5>;

    fn put(&self, out: &mut Vec<u8>) -> Result<(), Error> {
        let mut body = Vec::new();
        self.put_all(&mut body)?;
        put_var(out, body.len())?;
        out.extend_from_slice(&body);
        Ok(())
    }
    fn is_empty(&self) -> bool {
        let mut body = Vec::new();
        self.put_all(&mut body).is_ok() && body.is_empty()
    }
}

/// Returns the properties and the number of bytes they took (length field included).
async fn read_props<P: Properties, T: AsyncRead + Unpin>(
    r: &mut T,
    typ: PacketType,
) -> Result<(P, usize), ErrorV5> {
    let (len, n) = read_var(r).await?;
    if len > 16 * 1024 * 1024 {
        return Err(ErrorV5::InvalidPropertyLength(len));
    }
    let mut data = vec![0u8; len as usize];
    r.read_exact(&mut data).await?;
    let mut slice = &data[..];
    let mut props = P::default();
    while !slice.is_empty() {
        let id = slice[0];
        slice = &slice[1..];
        props.take_one(id, &mut slice, typ).map_err(|e| {
            if e.is_eof() { ErrorV5::InvalidPropertyLength(len) } else { e }
        })?;
    }
    Ok((props, n + len as usize))
}

macro_rules! props {
    ($name:ident { $($field:ident : $ty:ty = $id:expr),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
        pub struct $name { $(pub $field: $ty),* }
        impl Properties for $name {
            fn put_all(&self, out: &mut Vec<u8>) -> Result<(), Error> {
                $( Prop::prop_put(&self.$field, $id, out)?; )*
                Ok(())
            }
            fn take_one(&mut self, id: u8, r: &mut &[u8], typ: PacketType) -> Result<(), ErrorV5> {
                match id {
                    $( $id => Prop::prop_take(&mut self.$field, id, r), )*
                    id if KNOWN_IDS.contains(&id) => Err(ErrorV5::InvalidProperty(typ, id)),
                    id => Err(ErrorV5::InvalidPropertyId(id)),
                }
            }
        }
    };
}

props!(ConnectProperties {
    session_expiry_interval: Option<u32> = 0x11,
    receive_max: Option<u16> = 0x21,
    max_packet_size: Option<u32> = 0x27,
    topic_alias_max: Option<u16> = 0x22,
    request_response_info: Option<bool> = 0x19,
    request_problem_info: Option<bool> = 0x17,
    user_properties: Vec<UserProperty> = 0x26,
    auth_method: Option<Arc<str>> = 0x15,
    auth_data: Option<Bytes> = 0x16,
});
props!(WillProperties {
    delay_interval: Option<u32> = 0x18,
    payload_is_utf8: Option<bool> = 0x01,
    message_expiry_interval: Option<u32> = 0x02,
    content_type: Option<Arc<str>> = 0x03,
    response_topic: Option<TopicName> = 0x08,
    correlation_data: Option<Bytes> = 0x09,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(ConnackProperties {
    session_expiry_interval: Option<u32> = 0x11,
    receive_max: Option<u16> = 0x21,
    max_qos: Option<QoS> = 0x24,
    retain_available: Option<bool> = 0x25,
    max_packet_size: Option<u32> = 0x27,
    assigned_client_id: Option<Arc<str>> = 0x12,
    topic_alias_max: Option<u16> = 0x22,
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
    wildcard_subscription_available: Option<bool> = 0x28,
    subscription_id_available: Option<bool> = 0x29,
    shared_subscription_available: Option<bool> = 0x2a,
    server_keep_alive: Option<u16> = 0x13,
    response_info: Option<Arc<str>> = 0x1a,
    server_reference: Option<Arc<str>> = 0x1c,
    auth_method: Option<Arc<str>> = 0x15,
    auth_data: Option<Bytes> = 0x16,
});
props!(PublishProperties {
    payload_is_utf8: Option<bool> = 0x01,
    message_expiry_interval: Option<u32> = 0x02,
    topic_alias: Option<u16> = 0x23,
    response_topic: Option<TopicName> = 0x08,
    correlation_data: Option<Bytes> = 0x09,
    user_properties: Vec<UserProperty> = 0x26,
    subscription_ids: Vec<VarByteInt> = 0x0b,
    content_type: Option<Arc<str>> = 0x03,
});
props!(PubackProperties {
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(PubrecProperties {
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(PubrelProperties {
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(PubcompProperties {
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(SubscribeProperties {
    subscription_id: Option<VarByteInt> = 0x0b,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(SubackProperties {
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(UnsubscribeProperties {
    user_properties: Vec<UserProperty> = 0x26,
});
props!(UnsubackProperties {
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});
props!(DisconnectProperties {
    session_expiry_interval: Option<u32> = 0x11,
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
    server_reference: Option<Arc<str>> = 0x1c,
});
props!(AuthProperties {
    auth_method: Option<Arc<str>> = 0x15,
    auth_data: Option<Bytes> = 0x16,
    reason_string: Option<Arc<str>> = 0x1f,
    user_properties: Vec<UserProperty> = 0x26,
});

// ==== reason codes ====

macro_rules! codes {
    ($name:ident { $($variant:ident = $value:expr),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum $name { $($variant = $value),* }
        impl $name {
            pub fn from_u8(b: u8) -> Option<$name> {
                match b { $($value => Some($name::$variant),)* _ => None }
            }
        }
    };
}

codes!(ConnectReasonCode {
    Success = 0x00,
    UnspecifiedError = 0x80,
    MalformedPacket = 0x81,
    ProtocolError = 0x82,
    ImplementationSpecificError = 0x83,
    UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85,
    BadUserNameOrPassword = 0x86,
    NotAuthorized = 0x87,
    ServerUnavailable = 0x88,
    ServerBusy = 0x89,
    Banned = 0x8a,
    BadAuthMethod = 0x8c,
    TopicNameInvalid = 0x90,
    PacketTooLarge = 0x95,
    QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
    RetainNotSupported = 0x9a,
    QoSNotSupported = 0x9b,
    UseAnotherServer = 0x9c,
    ServerMoved = 0x9d,
    ConnectionRateExceeded = 0x9f,
});
codes!(PubackReasonCode {
    Success = 0x00,
    NoMatchingSubscribers = 0x10,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
});
codes!(PubrecReasonCode {
    Success = 0x00,
    NoMatchingSubscribers = 0x10,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
});
codes!(PubrelReasonCode {
    Success = 0x00,
    PacketIdentifierNotFound = 0x92,
});
codes!(PubcompReasonCode {
    Success = 0x00,
    PacketIdentifierNotFound = 0x92,
});
codes!(SubscribeReasonCode {
    GrantedQoS0 = 0x00,
    GrantedQoS1 = 0x01,
    GrantedQoS2 = 0x02,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97,
    SharedSubscriptionNotSupported = 0x9e,
    SubscriptionIdentifiersNotSupported = 0xa1,
    WildcardSubscriptionsNotSupported = 0xa2,
});
codes!(UnsubscribeReasonCode {
    Success = 0x00,
    NoSubscriptionExisted = 0x11,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91,
});
codes!(DisconnectReasonCode {
    NormalDisconnect = 0x00,
    DisconnectWithWillMessage = 0x04,
    UnspecifiedError = 0x80,
    MalformedPacket = 0x81,
    ProtocolError = 0x82,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    ServerBusy = 0x89,
    ServerShuttingDown = 0x8b,
    KeepAliveTimeout = 0x8d,
    SessionTakenOver = 0x8e,
    TopicFilterInvalid = 0x8f,
    TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93,
    TopicAliasInvalid = 0x94,
    PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96,
    QuotaExceeded = 0x97,
    AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99,
    RetainNotSupported = 0x9a,
    QoSNotSupported = 0x9b,
    UserAnotherServer = 0x9c,
    ServerMoved = 0x9d,
    SharedSubscriptionNotSupported = 0x9e,
    ConnectionRateExceeded = 0x9f,
    MaximumConnectTime = 0xa0,
    SubscriptionIdentifiersNotSupported = 0xa1,
    WildcardSubscriptionsNotSupported = 0xa2,
});
codes!(AuthReasonCode {
    Success = 0x00,
    ContinueAuthentication = 0x18,
    ReAuthentication = 0x19,
});

// ==== packets ====

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> LastWill {
        LastWill { qos, retain: false, topic_name, payload, properties: Default::default() }
    }
}

impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Connect {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: Default::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    /// The protocol name and level were already read.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        header: Header,
        protocol: Protocol,
    ) -> Result<Connect, ErrorV5> {
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        let flags = read_u8(reader).await?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        }
        let has_will = flags & 4 != 0;
        if !has_will && flags & 0b11_1000 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        }
        let keep_alive = read_u16(reader).await?;
        let (properties, _) =
            read_props::<ConnectProperties, _>(reader, header.typ).await?;
        let client_id = read_arc_str(reader).await?;
        let last_will = if has_will {
            let qos = QoS::from_u8((flags >> 3) & 3)?;
            let (properties, _) = read_props::<WillProperties, _>(reader, header.typ).await?;
            let topic_name = TopicName::try_from(read_string(reader).await?)?;
            let payload = read_bytes(reader).await?;
            if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Some(LastWill { qos, retain: flags & 0x20 != 0, topic_name, payload, properties })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(read_arc_str(reader).await?) } else { None };
        let password = if flags & 0x40 != 0 { Some(read_bytes(reader).await?) } else { None };
        Ok(Connect {
            protocol,
            clean_start: flags & 2 != 0,
            keep_alive,
            properties,
            client_id,
            last_will,
            username,
            password,
        })
    }
    fn put(&self, out: &mut Vec<u8>) -> Result<(), Error> {
        self.protocol.put(out);
        let mut flags = 0u8;
        if self.clean_start {
            flags |= 2;
        }
        if let Some(w) = &self.last_will {
            flags |= 4 | ((w.qos as u8) << 3);
            if w.retain {
                flags |= 0x20;
            }
        }
        if self.username.is_some() {
            flags |= 0x80;
        }
        if self.password.is_some() {
            flags |= 0x40;
        }
        out.push(flags);
        put_u16(out, self.keep_alive);
        self.properties.put(out)?;
        put_bin(out, self.client_id.as_bytes())?;
        if let Some(w) = &self.last_will {
            w.properties.put(out)?;
            put_bin(out, w.topic_name.as_bytes())?;
            put_bin(out, &w.payload)?;
        }
        if let Some(u) = &self.username {
            put_bin(out, u.as_bytes())?;
        }
        if let Some(p) = &self.password {
            put_bin(out, p)?;
        }
        Ok(())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Connack {
        Connack { session_present, reason_code, properties: Default::default() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
// See v3::Publish: the duplicate flag is not part of the message identity.
impl Hash for Publish {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.retain.hash(h);
        self.qos_pid.hash(h);
        self.topic_name.hash(h);
        self.payload.hash(h);
        self.properties.hash(h);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Publish {
        Publish {
            dup: false,
            retain: false,
            qos_pid,
            topic_name,
            payload,
            properties: Default::default(),
        }
    }
}
impl Encodable for Publish {
    fn encode_len(&self) -> usize {
        let pid = if self.qos_pid == QosPid::Level0 { 0 } else { 2 };
        let mut props = Vec::new();
        let _ = self.properties.put(&mut props);
        2 + self.topic_name.len() + pid + props.len() + self.payload.len()
    }
}

macro_rules! ack {
    ($name:ident, $props:ident, $code:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(pid: Pid, reason_code: $code) -> $name {
                $name { pid, reason_code, properties: Default::default() }
            }
            pub fn new_success(pid: Pid) -> $name {
                $name::new(pid, $code::Success)
            }
            fn put(&self, out: &mut Vec<u8>) -> Result<(), Error> {
                put_u16(out, self.pid.value());
                if !self.properties.is_empty() {
                    out.push(self.reason_code as u8);
                    self.properties.put(out)?;
                } else if self.reason_code != $code::Success {
                    out.push(self.reason_code as u8);
                }
                Ok(())
            }
            async fn take<T: AsyncRead + Unpin>(r: &mut T, h: Header) -> Result<$name, ErrorV5> {
                let mut pkt = $name::new_success(read_pid(r).await?);
                if h.remaining_len > 2 {
                    let b = read_u8(r).await?;
                    pkt.reason_code =
                        $code::from_u8(b).ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?;
                }
                if h.remaining_len > 3 {
                    let (props, _) = read_props(r, h.typ).await?;
                    pkt.properties = props;
                }
                Ok(pkt)
            }
        }
    };
}
ack!(Puback, PubackProperties, PubackReasonCode);
ack!(Pubrec, PubrecProperties, PubrecReasonCode);
ack!(Pubrel, PubrelProperties, PubrelReasonCode);
ack!(Pubcomp, PubcompProperties, PubcompReasonCode);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> SubscriptionOptions {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(self) -> u8 {
        self.max_qos as u8
            | ((self.no_local as u8) << 2)
            | ((self.retain_as_published as u8) << 3)
            | ((self.retain_handling as u8) << 4)
    }
    pub fn from_u8(b: u8) -> Result<Self, ErrorV5> {
        let err = ErrorV5::InvalidSubscriptionOption(b);
        if b & 0xc0 != 0 {
            return Err(err);
        }
        Ok(SubscriptionOptions {
            max_qos: QoS::from_u8(b & 3).map_err(|_| err.clone())?,
            no_local: b & 4 != 0,
            retain_as_published: b & 8 != 0,
            retain_handling: match (b >> 4) & 3 {
                0 => RetainHandling::SendAtSubscribe,
                1 => RetainHandling::SendAtSubscribeIfNotExist,
                2 => RetainHandling::DoNotSend,
                _ => return Err(err),
            },
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Subscribe {
        Subscribe { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub properties: SubackProperties,
    pub topics: Vec<SubscribeReasonCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReasonCode>) -> Suback {
        Suback { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Unsubscribe {
        Unsubscribe { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsuback {
    pub pid: Pid,
    pub properties: UnsubackProperties,
    pub topics: Vec<UnsubscribeReasonCode>,
}
impl Unsuback {
    pub fn new(pid: Pid, topics: Vec<UnsubscribeReasonCode>) -> Unsuback {
        Unsuback { pid, properties: Default::default(), topics }
    }
}

macro_rules! reason_packet {
    ($name:ident, $props:ident, $code:ident, $default:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(reason_code: $code) -> $name {
                $name { reason_code, properties: Default::default() }
            }
            fn put(&self, out: &mut Vec<u8>) -> Result<(), Error> {
                if !self.properties.is_empty() {
                    out.push(self.reason_code as u8);
                    self.properties.put(out)?;
                } else if self.reason_code != $code::$default {
                    out.push(self.reason_code as u8);
                }
                Ok(())
            }
            async fn take<T: AsyncRead + Unpin>(r: &mut T, h: Header) -> Result<$name, ErrorV5> {
                let mut pkt = $name::new($code::$default);
                if h.remaining_len > 0 {
                    let b = read_u8(r).await?;
                    pkt.reason_code =
                        $code::from_u8(b).ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?;
                }
                if h.remaining_len > 1 {
                    let (props, _) = read_props(r, h.typ).await?;
                    pkt.properties = props;
                }
                Ok(pkt)
            }
        }
    };
}
reason_packet!(Disconnect, DisconnectProperties, DisconnectReasonCode, NormalDisconnect);
reason_packet!(Auth, AuthProperties, AuthReasonCode, Success);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}
macro_rules! from_packet {
    ($($name:ident),*) => {$(
        impl From<$name> for Packet { fn from(p: $name) -> Packet { Packet::$name(p) } }
    )*}
}
from_packet!(
    Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
    Unsuback, Disconnect, Auth
);

async fn read_pid<T: AsyncRead + Unpin>(r: &mut T) -> Result<Pid, Error> {
    Pid::try_from(read_u16(r).await?)
}

fn left(remaining: usize, used: usize) -> Result<usize, ErrorV5> {
    remaining.checked_sub(used).ok_or(ErrorV5::Common(Error::InvalidRemainingLength))
}

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect(_) => PacketType::Disconnect,
            Packet::Auth(_) => PacketType::Auth,
        }
    }

    async fn decode_body<T: AsyncRead + Unpin>(r: &mut T, h: Header) -> Result<Packet, ErrorV5> {
        let remaining = h.remaining_len as usize;
        Ok(match h.typ {
            PacketType::Connect => {
                let protocol = Protocol::decode_async(r).await?;
                Connect::decode_stream_with_protocol(r, h, protocol).await?.into()
            }
            PacketType::Connack => {
                let flags = read_u8(r).await?;
                if flags > 1 {
                    return Err(Error::InvalidConnackFlags(flags).into());
                }
                let b = read_u8(r).await?;
                let reason_code = ConnectReasonCode::from_u8(b)
                    .ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?;
                let (properties, _) = read_props(r, h.typ).await?;
                Connack { session_present: flags == 1, reason_code, properties }.into()
            }
            PacketType::Publish => {
                let topic_name = TopicName::try_from(read_string(r).await?)?;
                let mut used = 2 + topic_name.len();
                let qos_pid = match h.qos {
                    QoS::Level0 => QosPid::Level0,
                    q => {
                        used += 2;
                        let pid = read_pid(r).await?;
                        if q == QoS::Level1 { QosPid::Level1(pid) } else { QosPid::Level2(pid) }
                    }
                };
                let (properties, n) =
                    read_props::<PublishProperties, _>(r, h.typ).await?;
                let len = left(remaining, used + n)?;
                let mut payload = vec![0u8; len];
                r.read_exact(&mut payload).await?;
                if properties.payload_is_utf8 == Some(true)
                    && std::str::from_utf8(&payload).is_err()
                {
                    return Err(ErrorV5::InvalidPayloadFormat);
                }
                Publish {
                    dup: h.dup,
                    retain: h.retain,
                    qos_pid,
                    topic_name,
                    payload: Bytes::from(payload),
                    properties,
                }
                .into()
            }
            PacketType::Puback => Puback::take(r, h).await?.into(),
            PacketType::Pubrec => Pubrec::take(r, h).await?.into(),
            PacketType::Pubrel => Pubrel::take(r, h).await?.into(),
            PacketType::Pubcomp => Pubcomp::take(r, h).await?.into(),
            PacketType::Subscribe => {
                let pid = read_pid(r).await?;
                let (properties, n) = read_props(r, h.typ).await?;
                let mut rest = left(remaining, 2 + n)?;
                let mut topics = Vec::new();
                while rest > 0 {
                    let filter = TopicFilter::try_from(read_string(r).await?)?;
                    let options = SubscriptionOptions::from_u8(read_u8(r).await?)?;
                    rest = left(rest, 3 + filter.len())?;
                    if filter.is_shared() && options.no_local {
                        // [MQTT-3.8.3-4]
                        return Err(ErrorV5::InvalidSubscriptionOption(options.to_u8()));
                    }
                    topics.push((filter, options));
                }
                if topics.is_empty() {
                    return Err(ErrorV5::EmptySubscription);
                }
                Subscribe { pid, properties, topics }.into()
            }
            PacketType::Suback => {
                let pid = read_pid(r).await?;
                let (properties, n) = read_props(r, h.typ).await?;
                let mut topics = Vec::new();
                for _ in 0..left(remaining, 2 + n)? {
                    let b = read_u8(r).await?;
                    topics.push(
                        SubscribeReasonCode::from_u8(b)
                            .ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?,
                    );
                }
                Suback { pid, properties, topics }.into()
            }
            PacketType::Unsubscribe => {
                let pid = read_pid(r).await?;
                let (properties, n) = read_props(r, h.typ).await?;
                let mut rest = left(remaining, 2 + n)?;
                let mut topics = Vec::new();
                while rest > 0 {
                    let filter = TopicFilter::try_from(read_string(r).await?)?;
                    rest = left(rest, 2 + filter.len())?;
                    topics.push(filter);
                }
                if topics.is_empty() {
                    return Err(ErrorV5::EmptySubscription);
                }
                Unsubscribe { pid, properties, topics }.into()
            }
            PacketType::Unsuback => {
                let pid = read_pid(r).await?;
                let (properties, n) = read_props(r, h.typ).await?;
                let mut topics = Vec::new();
                for _ in 0..left(remaining, 2 + n)? {
                    let b = read_u8(r).await?;
                    topics.push(
                        UnsubscribeReasonCode::from_u8(b)
                            .ok_or(ErrorV5::InvalidReasonCode(h.typ, b))?,
                    );
                }
                Unsuback { pid, properties, topics }.into()
            }
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => Disconnect::take(r, h).await?.into(),
            PacketType::Auth => Auth::take(r, h).await?.into(),
        })
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Packet, ErrorV5> {
        let (hd, remaining, total) = decode_raw_header_async(reader).await?;
        let header = Header::new_with(hd, remaining, total as u32)?;
        Packet::decode_body(reader, header).await
    }

    /// `Ok(None)`: more bytes are needed.
    pub fn decode(bytes: &[u8]) -> Result<Option<Packet>, ErrorV5> {
        let mut reader = bytes;
        match now(Packet::decode_async(&mut reader)) {
            Ok(p) => Ok(Some(p)),
            Err(e) if e.is_eof() => Ok(None),
            Err(e) => Err(e),
        }
    }

    pub fn encode(&self) -> Result<VarBytes, ErrorV5> {
        let mut body = Vec::new();
        let mut flags = 0u8;
        match self {
            Packet::Connect(p) => p.put(&mut body)?,
            Packet::Connack(p) => {
                body.extend([p.session_present as u8, p.reason_code as u8]);
                p.properties.put(&mut body)?;
            }
            Packet::Publish(p) => {
                flags = ((p.dup as u8) << 3) | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8;
                put_bin(&mut body, p.topic_name.as_bytes())?;
                if let Some(pid) = p.qos_pid.pid() {
                    put_u16(&mut body, pid.value());
                }
                p.properties.put(&mut body)?;
                body.extend_from_slice(&p.payload);
            }
            Packet::Puback(p) => p.put(&mut body)?,
            Packet::Pubrec(p) => p.put(&mut body)?,
            Packet::Pubrel(p) => {
                flags = 2;
                p.put(&mut body)?
            }
            Packet::Pubcomp(p) => p.put(&mut body)?,
            Packet::Subscribe(p) => {
                flags = 2;
                put_u16(&mut body, p.pid.value());
                p.properties.put(&mut body)?;
                for (filter, options) in &p.topics {
                    put_bin(&mut body, filter.as_bytes())?;
                    body.push(options.to_u8());
                }
            }
            Packet::Suback(p) => {
                put_u16(&mut body, p.pid.value());
                p.properties.put(&mut body)?;
                body.extend(p.topics.iter().map(|c| *c as u8));
            }
            Packet::Unsubscribe(p) => {
                flags = 2;
                put_u16(&mut body, p.pid.value());
                p.properties.put(&mut body)?;
                for filter in &p.topics {
                    put_bin(&mut body, filter.as_bytes())?;
                }
            }
            Packet::Unsuback(p) => {
                put_u16(&mut body, p.pid.value());
                p.properties.put(&mut body)?;
                body.extend(p.topics.iter().map(|c| *c as u8));
            }
            Packet::Pingreq | Packet::Pingresp => {}
            Packet::Disconnect(p) => p.put(&mut body)?,
            Packet::Auth(p) => p.put(&mut body)?,
        }
        let typ = self.get_type() as u8 + 1;
        let mut out = Vec::with_capacity(total_len(body.len())?);
        out.push((typ << 4) | flags);
        put_var(&mut out, body.len())?;
        out.extend_from_slice(&body);
        Ok(VarBytes::new(out))
    }

    pub fn encode_len(&self) -> Result<usize, ErrorV5> {
        Ok(self.encode()?.as_ref().len())
    }

    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), ErrorV5> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        Ok(())
    }
}

impl Disconnect {
    pub fn new_normal() -> Disconnect {
        Disconnect::new(DisconnectReasonCode::NormalDisconnect)
    }
}
