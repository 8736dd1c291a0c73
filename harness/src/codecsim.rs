//! C01/C02: the real codec at both ends of a simulated byte stream. A writer emits packets
//! (bytes made by the independent codec, or by the repository's own builders and encoder), the
//! stream is fragmented, and, in some runs, cut, corrupted, spliced or re-ordered by faults; a
//! reader accumulates and decodes as the broker's connections do. Every decoder call is judged
//! against `strict::classify`.
use crate::codec::{self, hex, PVal, Pkt, Props, WillSpec};
use crate::gen;
use crate::run::Outcome;
use crate::strict::{self, Class};
use crate::world::Violation;
use apiformes_packet::prelude::*;
use bytes::{Buf, Bytes, BytesMut};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unit {
    #[serde(with = "crate::codec::hexser")]
    pub bytes: Vec<u8>,
    /// encode with the repository's builders instead of sending `bytes`
    pub built: bool,
    /// a packet known to be valid
    pub valid: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FKind {
    Flip(u8),
    Set(u8),
    Drop(u32),
    Dup(u32),
    Insert(u8),
    Cut,
    /// exchange with the byte run that follows
    Swap(u32),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub at: u32,
    pub kind: FKind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CScen {
    pub units: Vec<Unit>,
    pub faults: Vec<Fault>,
    /// sizes of the pieces the stream arrives in, used cyclically
    pub frags: Vec<u32>,
    /// sizes of the chunks of a non-contiguous buffer, used cyclically
    pub chunks: Vec<u32>,
    /// extra look: bytes put after the data the reader has
    #[serde(with = "crate::codec::hexser")]
    pub tail: Vec<u8>,
}

/// a buffer made of several chunks
pub struct Chunked {
    q: VecDeque<Bytes>,
    left: usize,
}
impl Chunked {
    pub fn new(b: &[u8], sizes: &[u32]) -> Chunked {
        let mut q = VecDeque::new();
        let mut i = 0;
        let mut k = 0;
        while i < b.len() {
            // no more than about 3000 chunks
            let n = (sizes[k % sizes.len()].max(1) as usize).max(b.len() / 3000).min(b.len() - i);
            q.push_back(Bytes::copy_from_slice(&b[i..i + n]));
            i += n;
            k += 1;
        }
        Chunked { q, left: b.len() }
    }
}
impl Buf for Chunked {
    fn remaining(&self) -> usize {
        self.left
    }
    fn chunk(&self) -> &[u8] {
        self.q.front().map(|b| &b[..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        assert!(n <= self.left, "advance past the end");
        self.left -= n;
        while n > 0 {
            let f = self.q.front_mut().unwrap();
            if f.len() > n {
                f.advance(n);
                return;
            }
            n -= f.len();
            self.q.pop_front();
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok(Pkt, usize, usize),
    Wait,
    Err,
    Panic(String),
}

fn decode_with<B: Buf>(mut b: B) -> (Res, Option<Packet>) {
    let n = b.remaining();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let r = Packet::from_bytes(&mut b);
        (r, b.remaining())
    }));
    match r {
        Err(_) => {
            let p = simrt::with(|s| std::mem::take(&mut s.panics));
            (Res::Panic(p.join("; ")), None)
        }
        Ok((Ok(p), left)) => {
            let f = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (fields(&p), p.frame_len())));
            match f {
                Ok((f, l)) => (Res::Ok(f.norm(), n - left, l), Some(p)),
                Err(_) => {
                    let p = simrt::with(|s| std::mem::take(&mut s.panics));
                    (Res::Panic(format!("reading a decoded packet: {}", p.join("; "))), None)
                }
            }
        }
        Ok((Err(DataParseError::InsufficientBuffer { .. }), _)) => (Res::Wait, None),
        Ok((Err(_), _)) => (Res::Err, None),
    }
}

fn layout(b: &[u8], which: u64, chunks: &[u32]) -> (Res, Option<Packet>) {
    match which % 4 {
        0 => decode_with(b),
        1 => decode_with(Bytes::copy_from_slice(b)),
        2 => decode_with(BytesMut::from(b)),
        _ => decode_with(Chunked::new(b, chunks)),
    }
}
const LAYOUT: [&str; 4] = ["a slice", "Bytes", "BytesMut", "a chunked buffer"];

pub fn pval(k: Property, v: &MqttPropValue) -> PVal {
    match k as u32 {
        0x17 | 0x19 | 0x28 | 0x29 | 0x2a => PVal::Byte(v.into_bool().map(|b| b as u8).unwrap_or(0xee)),
        0x01 | 0x24 | 0x25 => PVal::Byte(v.into_u8().unwrap_or(0xee)),
        0x13 | 0x21 | 0x22 | 0x23 => PVal::U16(v.into_u16().unwrap_or(0xeeee)),
        0x02 | 0x11 | 0x18 | 0x27 => PVal::U32(v.into_u32().unwrap_or(0xeeee_eeee)),
        0x0b => PVal::Var(v.into_u32().unwrap_or(0xeeee_eeee)),
        0x09 | 0x16 => PVal::Bin(v.into_data().map(|b| b.to_vec()).unwrap_or(b"?".to_vec())),
        _ => PVal::Str(v.into_str().unwrap_or("?").to_string()),
    }
}
pub fn props<'a>(i: impl Iterator<Item = (&'a Property, &'a MqttPropValue)>) -> Props {
    let mut p: Props = i.map(|(k, v)| (*k as u32 as u8, pval(*k, v))).collect();
    p.sort_by_key(|x| x.0);
    p
}

/// what the repository's accessors say about a packet
pub fn fields(p: &Packet) -> Pkt {
    match p {
        Packet::Connect(c) => {
            let f = c.flags().bits();
            Pkt::Connect {
                clean: f & 2 != 0,
                keep_alive: c.keep_alive(),
                props: props(c.props_iter()),
                id: c.clientid().to_string(),
                will: c.will().map(|w| {
                    let mut w = w.clone();
                    WillSpec {
                        qos: (f >> 3) & 3,
                        retain: f & 32 != 0,
                        props: props(w.props_iter()),
                        topic: w.topic().to_string(),
                        payload: w.payload().to_vec(),
                    }
                }),
                user: c.username().map(|s| s.to_string()),
                pass: c.password().map(|s| s.to_vec()),
            }
        }
        Packet::ConnAck(c) => Pkt::ConnAck { flags: c.flags().bits(), code: c.reason_code() as u8, props: props(c.props_iter()) },
        Packet::Publish(c) => {
            let f = c.flags().bits();
            Pkt::Publish {
                dup: f & 8 != 0,
                qos: match c.qos() {
                    QoS::QoS0 => 0,
                    QoS::QoS1 => 1,
                    QoS::QoS2 => 2,
                },
                retain: f & 1 != 0,
                topic: c.topic_name().to_string(),
                pid: c.packet_identifier(),
                props: props(c.props_iter()),
                payload: c.payload().to_vec(),
            }
        }
        Packet::PubAck(c) => Pkt::Ack { ty: 4, pid: c.identifier(), code: c.reason_code() as u8, props: props(c.props_iter()) },
        Packet::PubRec(c) => Pkt::Ack { ty: 5, pid: c.identifier(), code: c.reason_code() as u8, props: props(c.props_iter()) },
        Packet::PubRel(c) => Pkt::Ack { ty: 6, pid: c.identifier(), code: c.reason_code() as u8, props: props(c.props_iter()) },
        Packet::PubComp(c) => Pkt::Ack { ty: 7, pid: c.identifier(), code: c.reason_code() as u8, props: props(c.props_iter()) },
        Packet::Subscribe(c) => Pkt::Subscribe {
            pid: c.packet_identifier(),
            props: props(c.props_iter()),
            filters: c.topics_iter().map(|(t, o)| (t.to_string(), o.bits())).collect(),
        },
        Packet::SubAck(c) => {
            Pkt::Codes { ty: 9, pid: c.identifier(), props: props(c.props_iter()), codes: c.reason_codes().iter().map(|r| *r as u8).collect() }
        }
        Packet::Unsubscribe(c) => Pkt::Unsubscribe {
            // there is no accessor for the identifier
            pid: {
                let mut b = BytesMut::new();
                p.to_bytes(&mut b);
                match codec::decode(&b) {
                    Ok(Some((Pkt::Unsubscribe { pid, .. }, _))) => pid,
                    _ => 0,
                }
            },
            props: props(c.props_iter()),
            filters: c.topics_iter().map(|t| t.to_string()).collect(),
        },
        Packet::UnsubAck(c) => {
            Pkt::Codes { ty: 11, pid: c.identifier(), props: props(c.props_iter()), codes: c.reason_codes().iter().map(|r| *r as u8).collect() }
        }
        Packet::PingReq(_) => Pkt::PingReq,
        Packet::PingRes(_) => Pkt::PingResp,
        Packet::Disconnect(c) => Pkt::Disconnect { code: c.reason_code() as u8, props: props(c.props_iter()) },
        Packet::Auth(c) => Pkt::Auth { code: c.reason_code() as u8, props: props(c.props_iter()) },
    }
}

pub fn prop_key(id: u8) -> Property {
    use Property::*;
    match id {
        0x1 => PayloadFormatIndicator,
        0x2 => MessageExpiryInterval,
        0x3 => ContentType,
        0x8 => ResponseTopic,
        0x9 => CorrelationData,
        0xb => SubscriptionIdentifier,
        0x11 => SessionExpiryInterval,
        0x12 => AssignedClientIdentifier,
        0x13 => ServerKeepAlive,
        0x15 => AuthenticationMethod,
        0x16 => AuthenticationData,
        0x17 => RequestProblemInformation,
        0x18 => WillDelayInterval,
        0x19 => RequestResponseInformation,
        0x1a => ResponseInformation,
        0x1c => ServerReference,
        0x1f => ReasonString,
        0x21 => ReceiveMaximum,
        0x22 => TopicAliasMaximum,
        0x23 => TopicAlias,
        0x24 => MaximumQoS,
        0x25 => RetainAvailable,
        0x26 => UserProperty,
        0x27 => MaximumPacketSize,
        0x28 => WildcardSubscriptionAvailable,
        0x29 => SubscriptionIdentifierAvailable,
        _ => SharedSubscriptionAvailable,
    }
}
fn prop_val(id: u8, v: &PVal) -> Result<MqttPropValue, DataParseError> {
    Ok(match v {
        PVal::Byte(b) => match id {
            0x17 | 0x19 | 0x28 | 0x29 | 0x2a => MqttPropValue::new_bool(*b != 0),
            _ => MqttPropValue::new_u8(*b),
        },
        PVal::U16(x) => MqttPropValue::new_u16(*x),
        PVal::U32(x) => MqttPropValue::new_u32(*x),
        PVal::Var(x) => MqttPropValue::new_varint(*x)?,
        PVal::Str(s) => MqttPropValue::new_string(Arc::from(s.as_str()))?,
        PVal::Bin(b) => MqttPropValue::new_data(&b[..])?,
    })
}
pub fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
macro_rules! code {
    ($t:ident, $c:expr, [$($v:ident),*]) => { [$($t::$v),*].into_iter().find(|x| *x as u8 == $c) };
}

pub fn connack_code(c: u8) -> Option<ConnAckReasonCode> {
    code!(ConnAckReasonCode, c, [
                    Success, UnspecifiedError, MalformedPacket, ProtocolError, ImplementationSpecificError, UnsupportedProtocolVersion,
                    ClientIdentifierNotValid, BadUserNameOrPassword, NotAuthorized, ServerUnavailable, ServerBusy, Banned,
                    BadAuthenicationMethod, TopicNameInvalid, PacketTooLarge, QuotaExceeded, PayloadFormatInvalid, RetainNotSupported,
                    QoSNotSupported, UseAnotherServer, ServerMoved, ConnectionRateExceeded
                ])
}
pub fn suback_code(c: u8) -> Option<SubAckReasonCode> {
    code!(SubAckReasonCode, c, [
                        GrantedQoS0, GrantedQoS1, GrantedQoS2, UnspecifiedError, ImplementationSpecificError, NotAuthorized, TopicFilterInvalid,
                        PacketIdentifierInUse, QuotaExceeded, SharedSubscriptionsNotSupported, SubscriptionIdentifiersNotSupported,
                        WildcardSubscriptionsNotSupported
                    ])
}
pub fn unsuback_code(c: u8) -> Option<UnsubAckReasonCode> {
    code!(UnsubAckReasonCode, c, [
                        Success, NoSubscriptionExisted, UnspecifiedError, ImplementationSpecificError, NotAuthorized, TopicFilterInvalid,
                        PacketIdentifierInUse
                    ])
}
pub fn disconnect_code(c: u8) -> Option<DisconnectReasonCode> {
    code!(DisconnectReasonCode, c, [
                    NormalDisconnection, DisconnectWithWillMessage, UnspecifiedError, MalformedPacket, ProtocolError,
                    ImplementationSpecificError, NotAuthorized, ServerBusy, ServerShuttingDown, KeepAliveTimeout, SessionTakenOver,
                    TopicFilterInvalid, TopicNameInvalid, ReceiveMaximumExceeded, TopicAliasInvalid, PacketTooLarge, MessageRateTooHigh,
                    QuotaExceeded, AdministrativeAction, PayloadFormatInvalid, RetainNotSupported, QoSNotSupported, UseAnotherServer,
                    ServerMoved, SharedSubscriptionsNotSupported, ConnectionRateExceeded, MaximumConnectTime,
                    SubscriptionIdentifiersNotSupported, WildcardSubscriptionsNotSupported
                ])
}
pub fn puback_code(c: u8) -> Option<PubAckReasonCode> {
    code!(PubAckReasonCode, c, [
                    Success, NoMatchingSubscribers, UnspecifiedError, ImplementationSpecificError, NotAuthorized, TopicNameInvalid,
                    PacketIdentifierInUse, QuotaExceeded, PayloadFormatInvalid
                ])
}
pub fn pubrel_code(c: u8) -> Option<PubRelReasonCode> {
    code!(PubRelReasonCode, c, [Success, PacketIdentifierNotFound])
}
pub fn auth_code(c: u8) -> Option<AuthReasonCode> {
    code!(AuthReasonCode, c, [Success, ContinueAuthentication, ReAuthenticate])
}

/// the packet through the repository's own builders; None: no builder for this value
fn build(p: &Pkt) -> Result<Option<Packet>, DataParseError> {
    macro_rules! props {
        ($o:ident, $p:expr) => {
            for (id, v) in $p {
                $o.add_prop(prop_key(*id), prop_val(*id, v)?)?;
            }
        };
    }
    Ok(Some(match p {
        Pkt::Connect { clean, keep_alive, props, id, will, user, pass } => {
            let mut c = Connect::new(Arc::from(id.as_str()))?;
            if let Some(w) = will {
                let mut x = Will::new(Arc::from(w.topic.as_str()), &w.payload[..])?;
                props!(x, &w.props);
                c.set_will(x);
                c.set_will_qos(qos(w.qos))?;
                if w.retain {
                    c.set_will_retain()?;
                }
            }
            if let Some(u) = user {
                c.set_username(Arc::from(u.as_str()))?;
            }
            if let Some(u) = pass {
                c.set_password(&u[..])?;
            }
            if *clean {
                c.set_clean_start();
            }
            c.set_keep_alive(*keep_alive);
            props!(c, props);
            c.build()
        }
        Pkt::ConnAck { flags, code, props } => {
            let mut c = ConnAck::new();
            if flags & 1 != 0 {
                c.set_session_present();
            }
            let Some(r) = connack_code(*code) else {
                return Ok(None);
            };
            c.set_reason_code(r);
            props!(c, props);
            c.build()
        }
        Pkt::Publish { dup, qos: q, retain, topic, pid, props, payload } => {
            let mut c = Publish::new(Arc::from(topic.as_str()), Bytes::copy_from_slice(payload))?;
            c.set_qos(qos(*q));
            if *dup {
                c.set_dup();
            }
            if *retain {
                c.set_retain();
            }
            if let Some(p) = pid {
                c.set_packet_identifier(*p)?;
            }
            props!(c, props);
            c.build()
        }
        Pkt::Ack { ty, pid, code, props } => {
            macro_rules! ack {
                ($t:ident, $r:expr) => {{
                    let mut c = $t::new(*pid);
                    let Some(r) = $r else { return Ok(None) };
                    c.set_reason_code(r);
                    props!(c, props);
                    c.build()
                }};
            }
            let a = puback_code(*code);
            let b = pubrel_code(*code);
            match ty {
                4 => ack!(PubAck, a),
                5 => ack!(PubRec, a),
                6 => ack!(PubRel, b),
                _ => ack!(PubComp, b),
            }
        }
        Pkt::Subscribe { pid, props, filters } => {
            let mut c = Subscribe::new(*pid);
            for (f, o) in filters {
                let Some(o) = SubscriptionOptions::from_bits(*o) else { return Ok(None) };
                c.add_topic(Arc::from(f.as_str()), o)?;
            }
            props!(c, props);
            c.build()
        }
        Pkt::Codes { ty: 9, pid, props, codes } => {
            let mut c = SubAck::new(*pid);
            for k in codes {
                let Some(r) = suback_code(*k) else {
                    return Ok(None);
                };
                c.add_reason_code(r);
            }
            props!(c, props);
            c.build()
        }
        Pkt::Codes { pid, props, codes, .. } => {
            let mut c = UnsubAck::new(*pid);
            for k in codes {
                let Some(r) = unsuback_code(*k) else {
                    return Ok(None);
                };
                c.add_reason_code(r);
            }
            props!(c, props);
            c.build()
        }
        Pkt::Unsubscribe { pid, props, filters } => {
            let mut c = Unsubscribe::new(*pid);
            for f in filters {
                c.add_topic(Arc::from(f.as_str()))?;
            }
            props!(c, props);
            c.build()
        }
        Pkt::PingReq => Ping::new().build_req(),
        Pkt::PingResp => Ping::new().build_res(),
        Pkt::Disconnect { code, props } => {
            let Some(r) = disconnect_code(*code) else {
                return Ok(None);
            };
            let mut c = Disconnect::new(r);
            props!(c, props);
            c.build()
        }
        Pkt::Auth { code, props } => {
            let Some(r) = auth_code(*code) else { return Ok(None) };
            let mut c = Auth::new(r);
            props!(c, props);
            c.build()
        }
    }))
}

// ---------------------------------------------------------------------------
// generator

const STR: &[u32] = &[0, 1, 2, 5, 12];
fn text(r: &mut Rng) -> String {
    let n = *r.pick(STR);
    let n = if r.chance(15) { *r.pick(&[127, 128, 300, 65_535]) } else { n };
    let mut s = String::new();
    let plain = r.chance(500);
    while s.len() < n as usize {
        let c = if plain { *r.pick(&['a', 'Z', '7']) } else { *r.pick(&['a', 'b', 'Z', '9', ' ', 'é', '€', '𝄞', '\u{feff}', '~']) };
        if s.len() + c.len_utf8() > n as usize {
            s.push_str(&"x".repeat(n as usize - s.len()));
        } else {
            s.push(c);
        }
    }
    s
}
fn data(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(STR) as usize;
    let n = if r.chance(15) { *r.pick(&[127, 128, 300, 65_535]) } else { n };
    (0..n).map(|_| r.next() as u8).collect()
}
fn topic_name(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let v: Vec<&str> = (0..n).map(|_| *r.pick(&["a", "b", "", "é", "$s", "long-level", "x y"])).collect();
    let s = v.join("/");
    if s.is_empty() {
        "t".into()
    } else {
        s
    }
}
fn filter(r: &mut Rng) -> String {
    let t = topic_name(r);
    let mut v: Vec<String> = t.split('/').map(|s| s.to_string()).collect();
    for x in v.iter_mut() {
        if r.chance(250) {
            *x = "+".into();
        }
    }
    if r.chance(300) {
        v.push("#".into());
    }
    v.join("/")
}
/// all properties but the user property
const IDS: [u8; 26] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x27, 0x28,
    0x29, 0x2a,
];

fn gval(r: &mut Rng, id: u8) -> PVal {
    match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => PVal::Byte(r.below(2) as u8),
        0x21 | 0x23 => PVal::U16(*r.pick(&[1, 2, 255, 256, 65_535])),
        0x13 | 0x22 => PVal::U16(*r.pick(&[0, 1, 255, 256, 65_535])),
        0x27 => PVal::U32(*r.pick(&[1, 256, 65_536, u32::MAX])),
        0x02 | 0x11 | 0x18 => PVal::U32(*r.pick(&[0, 1, 256, 65_536, u32::MAX])),
        0x0b => PVal::Var(*r.pick(&[1, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455])),
        0x09 | 0x16 => PVal::Bin(data(r)),
        0x08 => PVal::Str(topic_name(r)),
        _ => PVal::Str(text(r)),
    }
}

/// one more property: of any kind, or one that is there already
fn spoil(r: &mut Rng, p: &mut Pkt) {
    let will = r.chance(300);
    let props = match p {
        Pkt::Connect { will: Some(w), .. } if will => &mut w.props,
        Pkt::Connect { props, .. }
        | Pkt::ConnAck { props, .. }
        | Pkt::Publish { props, .. }
        | Pkt::Ack { props, .. }
        | Pkt::Subscribe { props, .. }
        | Pkt::Codes { props, .. }
        | Pkt::Unsubscribe { props, .. }
        | Pkt::Disconnect { props, .. }
        | Pkt::Auth { props, .. } => props,
        Pkt::PingReq | Pkt::PingResp => return,
    };
    let id = if !props.is_empty() && r.chance(300) { r.pick(&props[..]).0 } else { *r.pick(&IDS) };
    let v = if id == 0x26 { PVal::Str(text(r)) } else { gval(r, id) };
    let at = r.below(props.len() as u64 + 1) as usize;
    props.insert(at, (id, v));
}

fn gprops(r: &mut Rng, owner: u8) -> Props {
    let mut p: Props = vec![];
    let d = *r.pick(&[0, 150, 150, 400, 1000]);
    for id in IDS {
        if !strict::owned(id, owner) || !r.chance(d) {
            continue;
        }
        p.push((id, gval(r, id)));
    }
    if p.iter().any(|x| x.0 == 0x16) && !p.iter().any(|x| x.0 == 0x15) {
        p.push((0x15, PVal::Str("m".into())));
    }
    if d > 0 {
        for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) {
            p.push((0x26, PVal::Str(text(r))));
        }
    }
    for i in (1..p.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        p.swap(i, j);
    }
    p
}

/// a valid packet of any of the fifteen types
pub fn valid(r: &mut Rng) -> Pkt {
    let pid = *r.pick(&[1, 2, 255, 256, 65_535]);
    match r.below(18) {
        0 | 1 => Pkt::Connect {
            clean: r.chance(500),
            keep_alive: *r.pick(&[0, 1, 300, 65_535]),
            props: gprops(r, 1),
            id: text(r),
            will: if r.chance(400) {
                Some(WillSpec { qos: r.below(3) as u8, retain: r.chance(500), props: gprops(r, 0), topic: topic_name(r), payload: data(r) })
            } else {
                None
            },
            user: if r.chance(400) { Some(text(r)) } else { None },
            pass: if r.chance(400) { Some(data(r)) } else { None },
        },
        2 => {
            let code = *r.pick(&[0, 0x80, 0x83, 0x85, 0x8a, 0x9f]);
            Pkt::ConnAck { flags: if code == 0 { r.below(2) as u8 } else { 0 }, code, props: gprops(r, 2) }
        }
        3..=5 => {
            let qos = r.below(3) as u8;
            let topic = topic_name(r);
            let props = gprops(r, 3);
            let payload = if r.chance(60) {
                // sizes at which the length field grows
                let base = 2 + topic.len() + if qos > 0 { 2 } else { 0 } + 1;
                let want = *r.pick(&[127, 128, 16_383, 16_384]);
                vec![0x5a; if props.is_empty() { want - base.min(want) } else { want }]
            } else {
                data(r)
            };
            Pkt::Publish { dup: qos > 0 && r.chance(400), qos, retain: r.chance(300), topic, pid: if qos > 0 { Some(pid) } else { None }, props, payload }
        }
        6 => Pkt::Ack { ty: 4, pid, code: *r.pick(&[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99]), props: gprops(r, 4) },
        7 => Pkt::Ack { ty: 5, pid, code: *r.pick(&[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99]), props: gprops(r, 5) },
        8 => Pkt::Ack { ty: 6, pid, code: *r.pick(&[0, 0x92]), props: gprops(r, 6) },
        9 => Pkt::Ack { ty: 7, pid, code: *r.pick(&[0, 0x92]), props: gprops(r, 7) },
        10 | 11 => Pkt::Subscribe {
            pid,
            props: gprops(r, 8),
            filters: (0..r.range(1, 4)).map(|_| (filter(r), (r.below(3) | r.below(4) << 2 | r.below(3) << 4) as u8)).collect(),
        },
        12 => Pkt::Codes {
            ty: 9,
            pid,
            props: gprops(r, 9),
            codes: (0..r.range(1, 4)).map(|_| *r.pick(&[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2])).collect(),
        },
        13 => Pkt::Unsubscribe { pid, props: gprops(r, 10), filters: (0..r.range(1, 4)).map(|_| filter(r)).collect() },
        14 => Pkt::Codes {
            ty: 11,
            pid,
            props: gprops(r, 11),
            codes: (0..r.range(1, 4)).map(|_| *r.pick(&[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91])).collect(),
        },
        15 => {
            if r.chance(500) {
                Pkt::PingReq
            } else {
                Pkt::PingResp
            }
        }
        16 => Pkt::Disconnect {
            code: *r.pick(&[
                0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c,
                0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
            ]),
            props: gprops(r, 14),
        },
        _ => Pkt::Auth { code: *r.pick(&[0, 0x18, 0x19]), props: gprops(r, 15) },
    }
}

/// one packet's bytes with something wrong inside; the frame length is kept right most of the time
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let Ok(Some((_, n))) = codec::decode(&b) else { return b };
    let mut h = 1;
    while b[h] & 128 != 0 {
        h += 1;
    }
    h += 1;
    let mut body = b[h..n].to_vec();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let l = body.len() as u64;
        match r.below(12) {
            0..=2 if l > 0 => {
                let i = r.below(l.min(40)) as usize;
                body[i] ^= 1 << r.below(8);
            }
            3 if l > 0 => {
                let i = r.below(l.min(40)) as usize;
                body[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x26, 0xc0, 0xed]);
            }
            4 if l > 0 => {
                let k = r.below(l) as usize;
                body.truncate(k);
            }
            5 if l > 0 => {
                let k = r.below(l.min(60)) as usize;
                body.remove(k);
            }
            6 => {
                let k = r.below(l.min(60) + 1) as usize;
                body.insert(k, *r.pick(&[0, 1, 0x80, 0xff, b'#', b'+', b'/', b'a']));
            }
            7 => body.extend_from_slice(&[0x26, 0, 1, b'a'][..r.range(1, 4) as usize]),
            8 => b[0] ^= 1 << r.below(4),
            9 => b[0] = (b[0] & 15) | (r.below(16) as u8) << 4,
            10 => b[0] = [0u8, 0x10, 0x20, 0x30, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0][r.below(16) as usize],
            _ if l > 3 => {
                // repeat a part
                let i = r.below(l.min(40)) as usize;
                let j = (i + r.range(1, 12) as usize).min(body.len());
                let part = body[i..j].to_vec();
                for (k, x) in part.into_iter().enumerate() {
                    body.insert(j + k, x);
                }
            }
            _ => (),
        }
    }
    let mut out = codec::frame(b[0], &body);
    if r.chance(60) {
        // overlong length
        let k = out.len() - body.len() - 1;
        if k < 4 {
            out[k] |= 0x80;
            out.insert(k + 1, 0);
        }
    }
    out
}

pub fn generate(prop: &str, seed: u64) -> CScen {
    let mut r = Rng::new(seed ^ 0xc0dec);
    let c01 = if r.chance(100) { prop != "C01" } else { prop == "C01" };
    let n = if c01 { r.range(1, 12) } else { r.range(1, 6) };
    let mut units = vec![];
    for _ in 0..n {
        let p = valid(&mut r);
        let bytes = p.encode();
        if !c01 && r.chance(550) {
            let m = match r.below(10) {
                0 => {
                    let k = if r.chance(300) { 100 + r.below(10) } else { r.below(45) };
                    gen::malformed_k(&mut r, k).0
                }
                1 => {
                    let n = r.range(1, 24);
                    (0..n).map(|_| r.next() as u8).collect()
                }
                2 => {
                    let n = r.range(0, 24);
                    let body: Vec<u8> = (0..n).map(|_| if r.chance(400) { r.next() as u8 } else { *r.pick(&[0, 0, 1, 2, 4, 0x26, b'a', 0x80]) }).collect();
                    codec::frame(*r.pick(&[0x10, 0x20, 0x30, 0x32, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0]), &body)
                }
                3 | 4 => {
                    let mut p = p;
                    spoil(&mut r, &mut p);
                    p.encode()
                }
                _ => mutate(&mut r, &bytes),
            };
            units.push(Unit { bytes: m, built: false, valid: false });
        } else {
            units.push(Unit { bytes, built: c01 && r.chance(350), valid: true });
        }
    }
    if c01 && r.chance(8) {
        // the length field's largest steps
        let n = *r.pick(&[2_097_151usize, 2_097_152, 2_097_153]) - 4;
        let p = Pkt::Publish { dup: false, qos: 0, retain: false, topic: "t".into(), pid: None, props: vec![], payload: vec![7; n] };
        units = vec![Unit { bytes: p.encode(), built: r.chance(500), valid: true }];
    }
    let total: usize = units.iter().map(|u| u.bytes.len()).sum();
    let faults = if c01 || r.chance(500) {
        vec![]
    } else {
        (0..r.range(1, 3))
            .map(|_| Fault {
                at: r.below(total as u64 + 1) as u32,
                kind: match r.below(8) {
                    0 | 1 => FKind::Flip(r.below(8) as u8),
                    2 => FKind::Set(*r.pick(&[0, 1, 0x7f, 0x80, 0xff])),
                    3 => FKind::Drop(r.range(1, 9) as u32),
                    4 => FKind::Dup(r.range(1, 9) as u32),
                    5 => FKind::Insert(r.next() as u8),
                    6 => FKind::Cut,
                    _ => FKind::Swap(r.range(1, 6) as u32),
                },
            })
            .collect()
    };
    let small = |r: &mut Rng, total: usize| -> Vec<u32> {
        let m = if total > 60_000 { 30_000 } else if total > 2000 { 700 } else { 1 };
        match r.below(5) {
            0 => vec![m],
            1 => vec![u32::MAX],
            2 => (0..8).map(|_| m * r.range(1, 3) as u32).collect(),
            3 => (0..8).map(|_| m * r.range(1, 20) as u32).collect(),
            _ => (0..8).map(|_| if r.chance(500) { m } else { m * r.range(1, 200) as u32 }).collect(),
        }
    };
    let frags = small(&mut r, total);
    let chunks = if r.chance(400) { vec![1] } else { (0..7).map(|_| r.range(1, if total > 5000 { 900 } else { 9 }) as u32).collect() };
    let n = r.range(1, 12);
    let tail = (0..n).map(|_| r.next() as u8).collect();
    CScen { units, faults, frags, chunks, tail }
}

// ---------------------------------------------------------------------------
// run

pub struct Run {
    viol: Vec<Violation>,
    trace: Vec<String>,
    want: bool,
    digest: u64,
    pub calls: u64,
    hits: BTreeMap<&'static str, u64>,
    faults: BTreeMap<&'static str, u64>,
}
impl Run {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            self.trace.push(f());
        }
    }
    pub fn viol(&mut self, tags: &[&'static str], msg: String) {
        self.note(|| format!("VIOLATION {:?} {}", tags, msg));
        if self.viol.len() < 5 {
            self.viol.push(Violation { tags: tags.to_vec(), msg });
        }
    }
    pub fn hit(&mut self, p: &'static str) {
        *self.hits.entry(p).or_default() += 1;
    }
    pub fn fault(&mut self, f: &'static str) {
        *self.faults.entry(f).or_default() += 1;
    }
    pub fn mix(&mut self, v: u64) {
        self.digest = (self.digest ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
}
pub fn sh(b: &[u8]) -> String {
    let mut s = hex(&b[..b.len().min(48)]);
    if b.len() > 48 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}
fn shp(p: &Pkt) -> String {
    let s = format!("{:?}", p);
    if s.len() > 260 {
        format!("{}... ({} characters)", s.chars().take(260).collect::<String>(), s.len())
    } else {
        s
    }
}

pub fn run(sc: &CScen, seed: u64, want: bool) -> Outcome {
    let sc = sc.clone();
    in_sim(seed, want, move |r| stream(&sc, r))
}

pub fn in_sim(seed: u64, want: bool, f: impl FnOnce(&mut Run) + Send + 'static) -> Outcome {
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || run_here(f, seed, want)).unwrap().join().unwrap_or_else(|_| {
        let mut o = Outcome::empty();
        o.harness_error = Some("the codec simulation panicked".into());
        o
    })
}

fn run_here(f: impl FnOnce(&mut Run), seed: u64, want: bool) -> Outcome {
    simrt::install(seed, simrt::Params::default(), None, 0);
    let mut r = Run { viol: vec![], trace: vec![], want, digest: 7, calls: 0, hits: BTreeMap::new(), faults: BTreeMap::new() };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
    let panics = simrt::with(|s| std::mem::take(&mut s.panics));
    simrt::uninstall();
    let mut o = Outcome::empty();
    if res.is_err() {
        o.harness_error = Some(format!("codec simulation panicked: {:?}", panics));
    }
    o.violations = r.viol;
    o.trace = r.trace;
    o.digest = r.digest;
    o.polls = r.calls;
    o.hits = r.hits;
    o.faults = r.faults;
    o
}

fn stream(sc: &CScen, r: &mut Run) {
    // the writer
    let mut bytes: Vec<u8> = vec![];
    let mut sent: Vec<(Pkt, usize)> = vec![]; // with the offset of the end
    let mut all_valid = true;
    for u in &sc.units {
        if u.valid {
            let (p, n) = codec::decode(&u.bytes).expect("harness: a valid packet does not decode").expect("harness: a valid packet is short");
            assert_eq!(n, u.bytes.len(), "harness");
            if u.built {
                let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    build(&p).map(|o| {
                        o.map(|k| {
                            let mut b = BytesMut::new();
                            k.to_bytes(&mut b);
                            (b.to_vec(), k.frame_len(), fields(&k).norm())
                        })
                    })
                }));
                match b {
                    Err(_) => {
                        let m = simrt::with(|s| std::mem::take(&mut s.panics));
                        r.viol(&["C01", "C02"], format!("building or encoding {} panicked: {}", shp(&p), m.join("; ")));
                        return;
                    }
                    Ok(Err(e)) => {
                        r.viol(&["C01"], format!("the builder refuses {}: {:?}", shp(&p), e));
                        return;
                    }
                    Ok(Ok(None)) => bytes.extend_from_slice(&u.bytes),
                    Ok(Ok(Some((b, fl, f)))) => {
                        *r.hits.entry("C01").or_default() += 1;
                        r.note(|| format!("writer: {} built and encoded as {}", shp(&p), sh(&b)));
                        if f != p.clone().norm() {
                            r.viol(&["C01"], format!("built {}, the accessors say {}", shp(&p.clone().norm()), shp(&f)));
                        }
                        if fl != b.len() || b.len() != u.bytes.len() {
                            r.viol(&["C01"], format!("{} is encoded in {} bytes, takes {}, reported frame length {}", shp(&p), b.len(), u.bytes.len(), fl));
                        }
                        match strict::classify(&b) {
                            Class::Valid(q, n) if n == b.len() && q.clone().norm() == p.clone().norm() => (),
                            c => {
                                r.viol(&["C01"], format!("{} is encoded as {}, which reads {:?}", shp(&p), sh(&b), c).chars().take(900).collect());
                                return;
                            }
                        }
                        bytes.extend_from_slice(&b);
                    }
                }
            } else {
                r.note(|| format!("writer: {} as {}", shp(&p), sh(&u.bytes)));
                bytes.extend_from_slice(&u.bytes);
            }
            if all_valid {
                sent.push((p.norm(), bytes.len()));
            }
        } else {
            all_valid = false;
            *r.faults.entry("malformed_or_random_packets").or_default() += 1;
            r.note(|| format!("writer: bytes {}", sh(&u.bytes)));
            bytes.extend_from_slice(&u.bytes);
        }
    }
    // the network's faults
    let mut intact = if all_valid { bytes.len() } else { sent.last().map_or(0, |x| x.1) };
    for f in &sc.faults {
        let at = (f.at as usize).min(bytes.len());
        intact = intact.min(at);
        r.note(|| format!("network: {:?} at {}", f.kind, at));
        let left = bytes.len() - at;
        let name = match f.kind {
            FKind::Flip(b) => {
                if left > 0 {
                    bytes[at] ^= 1 << (b & 7);
                }
                "flipped_bits"
            }
            FKind::Set(b) => {
                if left > 0 {
                    bytes[at] = b;
                }
                "overwritten_bytes"
            }
            FKind::Drop(n) => {
                bytes.drain(at..at + (n as usize).min(left));
                "lost_bytes"
            }
            FKind::Dup(n) => {
                let part = bytes[at..at + (n as usize).min(left)].to_vec();
                bytes.splice(at..at, part);
                "repeated_bytes"
            }
            FKind::Insert(b) => {
                bytes.insert(at, b);
                "inserted_bytes"
            }
            FKind::Cut => {
                bytes.truncate(at);
                "cut_streams"
            }
            FKind::Swap(n) => {
                let n = (n as usize).min(left / 2);
                for i in 0..n {
                    bytes.swap(at + i, at + n + i);
                }
                "reordered_bytes"
            }
        };
        *r.faults.entry(name).or_default() += 1;
    }
    // delivery and the reader
    let mut base = 0usize; // start of the unread bytes
    let mut have = 0usize; // delivered so far
    let mut fi = 0usize;
    let mut got = 0usize;
    let mut lay = 0u64;
    let mut dead = false;
    while have < bytes.len() && !dead {
        let n = (sc.frags[fi % sc.frags.len()].max(1) as usize).min(bytes.len() - have);
        fi += 1;
        have += n;
        if n < bytes.len() {
            *r.faults.entry("fragments").or_default() += 1;
        }
        r.note(|| format!("network: delivers {} bytes", n));
        loop {
            let cur = &bytes[base..have];
            if cur.is_empty() {
                break;
            }
            let class = strict::classify(cur);
            // all layouts for small ones, a rotating one for the rest
            lay += 1;
            let which: Vec<u64> = match (cur.len(), &class) {
                (0..=64, _) => vec![0, 1, 2, 3],
                (65_000.., Class::Incomplete(_)) => vec![lay % 4],
                _ => vec![lay % 4, 3],
            };
            let mut first: Option<(Res, Option<Packet>)> = None;
            for k in which {
                let x = layout(cur, k, &sc.chunks);
                r.calls += 1;
                if let Some((f, _)) = &first {
                    if *f != x.0 {
                        r.viol(
                            &["C01", "C02"],
                            format!("{} decodes to {:?} here, but {:?} when it lies in {}", sh(cur), cutr(f), cutr(&x.0), LAYOUT[(k % 4) as usize]),
                        );
                        return;
                    }
                } else {
                    first = Some(x);
                }
            }
            let (res, packet) = first.unwrap();
            r.note(|| format!("reader: has {} -> {}", sh(cur), cutr(&res)));
            r.mix(match &res {
                Res::Ok(_, n, _) => 10 + *n as u64,
                Res::Wait => 1,
                Res::Err => 2,
                Res::Panic(_) => 3,
            });
            r.mix(cur.len() as u64);
            r.mix(cur[0] as u64);
            if let Res::Panic(m) = &res {
                r.viol(&["C02", "C01"], format!("decoding {} panicked: {}", sh(cur), m));
                return;
            }
            // bytes behind the frame change nothing
            if !matches!(class, Class::Incomplete(_)) {
                let mut longer = cur.to_vec();
                longer.extend_from_slice(&sc.tail);
                let end = match &class {
                    Class::Valid(_, n) | Class::Unclear(n, _) => *n,
                    _ => frame_end(cur).unwrap_or(cur.len()),
                };
                let exact = &cur[..end.min(cur.len())];
                for (b, what) in [(&longer[..], "more bytes behind it"), (exact, "nothing behind it")] {
                    r.calls += 1;
                    let x = layout(b, lay, &sc.chunks).0;
                    if x != res && same_frame(cur, b) {
                        r.viol(&["C02"], format!("{} decodes to {:?}, with {} to {:?}", sh(cur), cutr(&res), what, cutr(&x)));
                        return;
                    }
                }
                *r.hits.entry("C02").or_default() += 1;
            }
            match (&class, &res) {
                (Class::Valid(p, n), Res::Ok(q, m, fl)) => {
                    *r.hits.entry("C01").or_default() += 1;
                    if m != n {
                        r.viol(&["C02", "C01"], format!("{}: the packet has {} bytes, {} were consumed", sh(cur), n, m));
                        return;
                    }
                    if p.clone().norm() != *q {
                        r.viol(&["C01"], format!("{} decodes to {}, not {}", sh(cur), shp(q), shp(&p.clone().norm())));
                        return;
                    }
                    if !encoded_same(r, packet.as_ref().unwrap(), q, *m, *fl, cur) {
                        return;
                    }
                }
                (Class::Unclear(n, _), Res::Ok(q, m, fl)) => {
                    if m != n {
                        r.viol(&["C02"], format!("{}: the frame has {} bytes, {} were consumed", sh(cur), n, m));
                        return;
                    }
                    if !encoded_same(r, packet.as_ref().unwrap(), q, *m, *fl, cur) {
                        return;
                    }
                }
                (Class::Unclear(_, _), Res::Err) => (),
                (Class::Malformed(_), Res::Err) => (),
                (Class::Incomplete(_), Res::Wait) => (),
                (Class::Incomplete(true), Res::Err) if have > intact => (),
                (Class::Incomplete(_), Res::Ok(q, m, _)) => {
                    r.viol(&["C02"], format!("{} is no complete packet, but decodes to {} from {} bytes", sh(cur), shp(q), m));
                    return;
                }
                (Class::Incomplete(_), Res::Err) => {
                    r.viol(&["C02", "C01"], format!("{}, the beginning of a packet, is rejected instead of waiting for more", sh(cur)));
                    return;
                }
                (Class::Valid(p, _), Res::Err) => {
                    r.viol(&["C01", "C02"], format!("{} is rejected: {}", sh(cur), shp(p)));
                    return;
                }
                (Class::Valid(_, _) | Class::Unclear(_, _) | Class::Malformed(_), Res::Wait) => {
                    r.viol(&["C02", "C01"][..if matches!(class, Class::Valid(..)) { 2 } else { 1 }], format!("{} is a complete frame, but more bytes are asked for", sh(cur)));
                    return;
                }
                (Class::Malformed(why), Res::Ok(q, m, _)) => {
                    r.viol(&["C02"], format!("{} is malformed ({}), but decodes to {} from {} bytes", sh(cur), why, shp(q), m));
                    return;
                }
                (_, Res::Panic(_)) => unreachable!(),
            }
            match res {
                Res::Ok(q, m, _) => {
                    if base + m <= intact {
                        match sent.get(got) {
                            Some((p, e)) if *p == q && *e == base + m => (),
                            x => {
                                r.viol(&["C01"], format!("packet {} of the stream came out as {}, sent {:?}", got, shp(&q), x.map(|x| shp(&x.0))));
                                return;
                            }
                        }
                    }
                    got += 1;
                    base += m;
                }
                Res::Wait => break,
                _ => {
                    dead = true;
                    break;
                }
            }
        }
    }
    if all_valid && sc.faults.is_empty() && (got != sent.len() || base != bytes.len()) {
        r.viol(&["C01"], format!("{} packets were sent, {} came out, {} bytes are left", sent.len(), got, bytes.len() - base));
    }
}

fn cutr(r: &Res) -> String {
    format!("{:?}", r).chars().take(300).collect()
}
pub fn frame_end(b: &[u8]) -> Option<usize> {
    let mut len = 0usize;
    for i in 1..5 {
        let x = *b.get(i)?;
        len |= ((x & 127) as usize) << (7 * (i - 1));
        if x & 128 == 0 {
            return Some(i + 1 + len);
        }
    }
    None
}
fn same_frame(a: &[u8], b: &[u8]) -> bool {
    match (frame_end(a), frame_end(b)) {
        (Some(x), Some(y)) => x == y && x <= b.len() && x <= a.len(),
        _ => false,
    }
}

/// A boolean that is neither 0 nor 1 is a protocol error the broker may overlook: what it is read
/// as is not judged.
fn lax_bools(mut x: Pkt, q: &Pkt) -> Pkt {
    let fix = |a: &mut Props, b: &Props| {
        for (i, p) in a.iter_mut().enumerate() {
            if let (0x17 | 0x19 | 0x28 | 0x29 | 0x2a, PVal::Byte(2..=255)) = (p.0, &p.1) {
                if let Some(y) = b.get(i) {
                    *p = y.clone();
                }
            }
        }
    };
    match (&mut x, q) {
        (Pkt::Connect { props, .. }, Pkt::Connect { props: q, .. }) | (Pkt::ConnAck { props, .. }, Pkt::ConnAck { props: q, .. }) => fix(props, q),
        _ => (),
    }
    x
}

fn encoded_same(r: &mut Run, p: &Packet, q: &Pkt, len: usize, fl: usize, cur: &[u8]) -> bool {
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut b = BytesMut::new();
        p.to_bytes(&mut b);
        let c = p.clone();
        let mut b2 = BytesMut::new();
        c.to_bytes(&mut b2);
        (b.to_vec(), b2.len())
    }));
    let Ok((b, l2)) = e else {
        let m = simrt::with(|s| std::mem::take(&mut s.panics));
        r.viol(&["C01", "C02"], format!("encoding what {} decodes to panicked: {}", sh(cur), m.join("; ")));
        return false;
    };
    if fl != len || b.len() != len || l2 != len {
        r.viol(&["C01"], format!("{}: {} bytes decoded, frame length {}, encoded again {} bytes", sh(cur), len, fl, b.len()));
        return false;
    }
    match codec::decode(&b) {
        Ok(Some((x, n))) if n == b.len() && lax_bools(x.clone().norm(), q) == *q => true,
        x => {
            r.viol(&["C01"], format!("{} decodes to {}, encoded again it is {}: {:?}", sh(cur), shp(q), sh(&b), x).chars().take(900).collect());
            false
        }
    }
}

