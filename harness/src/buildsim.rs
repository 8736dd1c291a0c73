//! C03: histories of calls of the packet API. A packet (or a will, or a bare property list) is
//! made or decoded, then set up by a seeded sequence of calls in which some have bad arguments,
//! come in a bad order or are repeated; in between it is copied, encoded into buffers of several
//! shapes, and decoded again. After every call the accessors are compared with a model that knows
//! which results MQTT 5 leaves open.
use crate::codec::{self, PVal, Pkt, Props, WillSpec};
use crate::codecsim::{self, fields, prop_key, props, Run};
use crate::run::Outcome;
use crate::strict::{self, Class};
use apiformes_packet::prelude::*;
use bytes::{buf::UninitSlice, BufMut, Bytes, BytesMut};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::convert::TryInto;
use std::sync::Arc;

/// a text: `s` and then `pad` times 'x' (short in a replay file)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Txt {
    pub s: String,
    pub pad: u32,
}
impl Txt {
    fn get(&self) -> String {
        let mut s = self.s.clone();
        s.push_str(&"x".repeat(self.pad as usize));
        s
    }
    fn arc(&self) -> Arc<str> {
        Arc::from(self.get())
    }
    fn bin(&self) -> Vec<u8> {
        self.get().into_bytes()
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Bool(bool),
    Byte(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(Txt),
    Pair(Txt, Txt),
    Bin(Txt),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    // CONNECT
    CleanStart,
    KeepAlive(u16),
    User(Txt),
    Pass(Txt),
    /// with properties of its own
    Will { topic: Txt, payload: Txt, props: Vec<(u8, Val)> },
    WillQos(u8),
    WillRetain,
    // CONNACK
    SessionPresent,
    // PUBLISH
    Qos(u8),
    Pid(u16),
    Retain,
    Dup,
    Payload(Txt, bool),
    // a will by itself
    WillTopic(Txt),
    WillPayload(Txt),
    // SUBSCRIBE, UNSUBSCRIBE
    Filter(Txt, u8),
    // acknowledgements: a reason code
    Code(u8),
    // everything with properties
    Prop(u8, Val),
    // a property list by itself: with the owner, or without
    Insert(u8, Val, Option<u8>),
    // the topic type and the flag conversions
    Topic(Txt),
    Flags(u8),
    /// leave a copy behind that must stay as it is
    Copy,
    /// encode into a buffer of kind k
    Encode(u8),
    /// encode, decode, and go on with what came out
    Reload,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum From_ {
    /// a packet of this type with the arguments its constructor takes
    New { ty: u8, text: Txt, payload: Txt, pid: u16, code: u8 },
    /// decoded from these bytes
    Bytes(#[serde(with = "crate::codec::hexser")] Vec<u8>),
    Will { topic: Txt, payload: Txt },
    Props,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BScen {
    pub from: From_,
    pub calls: Vec<Call>,
}

#[derive(Clone)]
enum Obj {
    P(Packet),
    W(Will),
    L(Properties),
}
#[derive(Clone, Debug, PartialEq)]
enum Model {
    P(Pkt),
    W(WillSpec),
    L(Props),
}
fn sorted(mut p: Props) -> Props {
    p.sort_by_key(|x| x.0);
    p
}
impl Model {
    fn norm(self) -> Model {
        match self {
            Model::P(p) => Model::P(p.norm()),
            Model::W(mut w) => {
                w.props = sorted(w.props);
                Model::W(w)
            }
            Model::L(l) => Model::L(sorted(l)),
        }
    }
    fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            Model::P(p) => pkt_props(p),
            Model::W(w) => Some(&mut w.props),
            Model::L(l) => Some(l),
        }
    }
    /// 0 stands for a will
    fn owner(&self) -> u8 {
        match self {
            Model::P(p) => p.encode()[0] >> 4,
            Model::W(_) => 0,
            Model::L(_) => 99,
        }
    }
}
fn pkt_props(p: &mut Pkt) -> Option<&mut Props> {
    match p {
        Pkt::Connect { props, .. }
        | Pkt::ConnAck { props, .. }
        | Pkt::Publish { props, .. }
        | Pkt::Ack { props, .. }
        | Pkt::Subscribe { props, .. }
        | Pkt::Codes { props, .. }
        | Pkt::Unsubscribe { props, .. }
        | Pkt::Disconnect { props, .. }
        | Pkt::Auth { props, .. } => Some(props),
        _ => None,
    }
}
const OWNERS: [(u8, PropOwner); 14] = [
    (0, PropOwner::WILL),
    (1, PropOwner::CONNECT),
    (2, PropOwner::CONNACK),
    (3, PropOwner::PUBLISH),
    (4, PropOwner::PUBACK),
    (5, PropOwner::PUBREC),
    (6, PropOwner::PUBREL),
    (7, PropOwner::PUBCOMP),
    (8, PropOwner::SUBSCRIBE),
    (9, PropOwner::SUBACK),
    (10, PropOwner::UNSUBSCRIBE),
    (11, PropOwner::UNSUBACK),
    (14, PropOwner::DISCONNECT),
    (15, PropOwner::AUTH),
];
const IDS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28,
    0x29, 0x2a,
];

/// what the accessors say
fn look(o: &Obj) -> Model {
    match o {
        Obj::P(p) => Model::P(fields(p)),
        Obj::W(w) => {
            let mut w = w.clone();
            Model::W(WillSpec { qos: 0, retain: false, props: props(w.props_iter()), topic: w.topic().to_string(), payload: w.payload().to_vec() })
        }
        Obj::L(l) => Model::L(props(l.iter())),
    }
    .norm()
}
/// the values `get_prop` gives must be those the iteration gives
fn get_prop(o: &Obj, k: Property) -> Option<Vec<PVal>> {
    macro_rules! g {
        ($x:expr) => {
            $x.get_prop(k).map(|v| v.iter().map(|v| codecsim::pval(k, v)).collect())
        };
    }
    match o {
        Obj::W(w) => g!(w),
        Obj::L(l) => l.get(k).map(|v| v.iter().map(|v| codecsim::pval(k, v)).collect()),
        Obj::P(p) => match p {
            Packet::Connect(x) => g!(x),
            Packet::ConnAck(x) => g!(x),
            Packet::Publish(x) => g!(x),
            Packet::PubAck(x) => g!(x),
            Packet::PubRec(x) => g!(x),
            Packet::PubRel(x) => g!(x),
            Packet::PubComp(x) => g!(x),
            Packet::Subscribe(x) => g!(x),
            Packet::SubAck(x) => g!(x),
            Packet::Unsubscribe(x) => g!(x),
            Packet::UnsubAck(x) => g!(x),
            Packet::Disconnect(x) => g!(x),
            Packet::Auth(x) => g!(x),
            Packet::PingReq(_) | Packet::PingRes(_) => None,
        },
    }
}

/// None: must be refused; Some(false): may be refused
fn text_rule(s: &str) -> Option<bool> {
    if s.len() > 65_535 || s.contains('\0') {
        None
    } else {
        Some(!s.chars().any(|c| c.is_control() || (c as u32) & 0xfffe == 0xfffe || (0xfdd0..=0xfdef).contains(&(c as u32))))
    }
}
fn filter_rule(s: &str) -> Option<bool> {
    let l: Vec<&str> = s.split('/').collect();
    if l.iter().enumerate().any(|(i, s)| s.contains('#') && (*s != "#" || i + 1 != l.len()) || s.contains('+') && *s != "+") {
        return None;
    }
    text_rule(s).map(|c| c && !s.is_empty() && !s.starts_with("$share/"))
}
fn topic_rule(s: &str) -> Option<bool> {
    if s.contains(['#', '+']) {
        return None;
    }
    text_rule(s).map(|c| c && !s.is_empty())
}
/// a property's value: the model's, and whether it must be accepted
fn val_rule(id: u8, v: &Val) -> Option<(PVal, bool)> {
    let kind = match id {
        0x17 | 0x19 | 0x28 | 0x29 | 0x2a => 0,
        0x01 | 0x24 | 0x25 => 1,
        0x13 | 0x21 | 0x22 | 0x23 => 2,
        0x02 | 0x11 | 0x18 | 0x27 => 3,
        0x0b => 4,
        0x09 | 0x16 => 5,
        _ => 6,
    };
    Some(match (kind, v) {
        // a boolean and a byte are the same in MQTT
        (0, Val::Bool(b)) => (PVal::Byte(*b as u8), true),
        (1, Val::Byte(b)) => (PVal::Byte(*b), *b < 2),
        (0, Val::Byte(b)) => (PVal::Byte(*b), false),
        (1, Val::Bool(b)) => (PVal::Byte(*b as u8), false),
        (2, Val::U16(x)) => (PVal::U16(*x), *x != 0 || !matches!(id, 0x21 | 0x23)),
        (3, Val::U32(x)) => (PVal::U32(*x), *x != 0 || id != 0x27),
        (4, Val::Var(x)) if *x <= 268_435_455 => (PVal::Var(*x), *x != 0),
        (5, Val::Bin(t)) => {
            let b = t.bin();
            if b.len() > 65_535 {
                return None;
            }
            (PVal::Bin(b), true)
        }
        (6, Val::Str(t)) => {
            let s = t.get();
            let c = text_rule(&s)? && !(id == 0x08 && s.contains(['+', '#']));
            (PVal::Str(s), c)
        }
        _ => return None,
    })
}
fn make(v: &Val) -> Result<MqttPropValue, DataParseError> {
    Ok(match v {
        Val::Bool(b) => MqttPropValue::new_bool(*b),
        Val::Byte(b) => MqttPropValue::new_u8(*b),
        Val::U16(x) => MqttPropValue::new_u16(*x),
        Val::U32(x) => MqttPropValue::new_u32(*x),
        Val::Var(x) => MqttPropValue::new_varint(*x)?,
        Val::Str(t) => MqttPropValue::new_string(t.arc())?,
        Val::Pair(a, b) => MqttPropValue::new_string_pair(a.arc(), b.arc())?,
        Val::Bin(t) => MqttPropValue::new_data(Bytes::from(t.bin()))?,
    })
}
/// the models that may result from adding a property to a list
fn with_prop(m: &Props, id: u8, v: &PVal, publish: bool) -> Vec<Props> {
    let mut add = m.clone();
    add.push((id, v.clone()));
    let mut rep: Props = m.iter().filter(|x| x.0 != id).cloned().collect();
    rep.push((id, v.clone()));
    if id == 0x26 {
        vec![add]
    } else if id == 0x0b && publish {
        vec![rep, add]
    } else {
        vec![rep]
    }
}

/// the results a call may have: (accepted, state afterwards); None: not a call for this object
fn allowed(m: &Model, c: &Call) -> Option<Vec<(bool, Model)>> {
    let no = (false, m.clone());
    // Some(true): accepted; Some(false): either; None: refused
    let judge = |rule: Option<bool>, after: Vec<Model>| -> Vec<(bool, Model)> {
        let mut v: Vec<(bool, Model)> = vec![];
        if rule.is_some() {
            v.extend(after.into_iter().map(|m| (true, m)));
        }
        if rule != Some(true) {
            v.push(no.clone());
        }
        v
    };
    macro_rules! set {
        ($rule:expr, $p:pat => $b:block) => {{
            let mut n = m.clone();
            match &mut n {
                Model::P($p) => $b,
                _ => return None,
            }
            judge($rule, vec![n])
        }};
    }
    Some(match c {
        Call::CleanStart => set!(Some(true), Pkt::Connect { clean, .. } => { *clean = true }),
        Call::KeepAlive(k) => set!(Some(true), Pkt::Connect { keep_alive, .. } => { *keep_alive = *k }),
        Call::User(t) => set!(text_rule(&t.get()), Pkt::Connect { user, .. } => { *user = Some(t.get()) }),
        Call::Pass(t) => set!(if t.bin().len() > 65_535 { None } else { Some(true) }, Pkt::Connect { pass, .. } => { *pass = Some(t.bin()) }),
        Call::Will { topic, payload, props } => {
            let Model::P(Pkt::Connect { will, .. }) = m else { return None };
            let t = topic.get();
            let mut rule = text_rule(&t).map(|c| c && !t.is_empty() && !t.contains(['+', '#']));
            if payload.bin().len() > 65_535 {
                rule = None;
            }
            let mut l: Props = vec![];
            for (id, v) in props {
                match val_rule(*id, v) {
                    Some((v, clear)) if strict::owned(*id, 0) => {
                        // a repeated one is refused or put in the other's place
                        if !clear || *id != 0x26 && l.iter().any(|x| x.0 == *id) {
                            rule = rule.map(|_| false);
                        }
                        l = with_prop(&l, *id, &v, false).remove(0);
                    }
                    _ => rule = None,
                }
            }
            // the quality of service and the retain flag of a will that was there stay or go
            let mut after = vec![];
            let old = will.as_ref().map_or((0, false), |w| (w.qos, w.retain));
            for q in if old == (0, false) { vec![old] } else { vec![old, (0, false)] } {
                let mut n = m.clone();
                if let Model::P(Pkt::Connect { will, .. }) = &mut n {
                    *will = Some(WillSpec { qos: q.0, retain: q.1, props: l.clone(), topic: t.clone(), payload: payload.bin() });
                }
                after.push(n);
            }
            judge(rule, after)
        }
        Call::WillQos(q) => {
            let Model::P(Pkt::Connect { will, .. }) = m else { return None };
            let rule = if will.is_some() { Some(true) } else { None };
            set!(rule, Pkt::Connect { will, .. } => { if let Some(w) = will { w.qos = *q % 3 } })
        }
        Call::WillRetain => {
            let Model::P(Pkt::Connect { will, .. }) = m else { return None };
            let rule = if will.is_some() { Some(true) } else { None };
            set!(rule, Pkt::Connect { will, .. } => { if let Some(w) = will { w.retain = true } })
        }
        Call::SessionPresent => set!(Some(true), Pkt::ConnAck { flags, .. } => { *flags |= 1 }),
        Call::Qos(q) => {
            let Model::P(Pkt::Publish { pid: old, .. }) = m else { return None };
            let old = *old;
            let mut after = vec![];
            for keep in [true, false] {
                let mut n = m.clone();
                if let Model::P(Pkt::Publish { qos, pid, .. }) = &mut n {
                    *qos = q % 3;
                    // without acknowledgement there is no identifier
                    *pid = if keep && *qos > 0 { old } else { None };
                }
                after.push(n);
            }
            judge(Some(true), after)
        }
        Call::Pid(i) => {
            let Model::P(Pkt::Publish { qos, .. }) = m else { return None };
            let rule = if *qos == 0 { None } else { Some(*i != 0) };
            set!(rule, Pkt::Publish { pid, .. } => { *pid = Some(*i) })
        }
        Call::Retain => set!(Some(true), Pkt::Publish { retain, .. } => { *retain = true }),
        Call::Dup => set!(Some(true), Pkt::Publish { dup, .. } => { *dup = true }),
        Call::Payload(t, _) => set!(Some(true), Pkt::Publish { payload, .. } => { *payload = t.bin() }),
        Call::WillTopic(t) => {
            let Model::W(w) = m else { return None };
            let mut w = w.clone();
            w.topic = t.get();
            judge(text_rule(&w.topic).map(|c| c && topic_rule(&w.topic) == Some(true)), vec![Model::W(w)])
        }
        Call::WillPayload(t) => {
            let Model::W(w) = m else { return None };
            let mut w = w.clone();
            w.payload = t.bin();
            judge(if w.payload.len() > 65_535 { None } else { Some(true) }, vec![Model::W(w)])
        }
        Call::Filter(t, o) => match m {
            Model::P(Pkt::Subscribe { .. }) => {
                let t = t.get();
                let o = *o & 0x3f;
                let rule = if o & 3 == 3 || o & 0x30 == 0x30 { None } else { filter_rule(&t) };
                set!(rule, Pkt::Subscribe { filters, .. } => { filters.push((t, o)) })
            }
            _ => set!(filter_rule(&t.get()), Pkt::Unsubscribe { filters, .. } => { filters.push(t.get()) }),
        },
        Call::Code(k) => {
            let mut n = m.clone();
            match &mut n {
                Model::P(Pkt::ConnAck { code, .. }) => *code = *k,
                Model::P(Pkt::Ack { code, .. }) => *code = *k,
                Model::P(Pkt::Codes { codes, .. }) => codes.push(*k),
                _ => return None,
            }
            judge(Some(true), vec![n])
        }
        Call::Prop(id, v) => {
            let owner = m.owner();
            if owner == 99 || m.clone().props_mut().is_none() {
                return None;
            }
            prop_rule(m, *id, v, owner, judge)
        }
        Call::Insert(id, v, owner) => {
            if !matches!(m, Model::L(_)) {
                return None;
            }
            prop_rule(m, *id, v, owner.unwrap_or(99), judge)
        }
        Call::Topic(_) | Call::Flags(_) | Call::Copy | Call::Encode(_) | Call::Reload => return None,
    })
}
fn prop_rule(m: &Model, id: u8, v: &Val, owner: u8, judge: impl Fn(Option<bool>, Vec<Model>) -> Vec<(bool, Model)>) -> Vec<(bool, Model)> {
    let Some((pv, clear)) = val_rule(id, v) else { return judge(None, vec![]) };
    if owner != 99 && !strict::owned(id, owner) {
        return judge(None, vec![]);
    }
    let mut n = m.clone();
    let l = n.props_mut().unwrap().clone();
    let again = id != 0x26 && l.iter().any(|x| x.0 == id);
    let after = with_prop(&l, id, &pv, owner == 3 || owner == 99)
        .into_iter()
        .map(|l| {
            let mut n = m.clone();
            *n.props_mut().unwrap() = l;
            n
        })
        .collect();
    judge(Some(clear && !again), after)
}

/// the call on the real object
fn apply(o: &mut Obj, c: &Call) -> Result<(), DataParseError> {
    macro_rules! prop {
        ($x:expr, $id:expr, $v:expr) => {
            $x.add_prop(prop_key(*$id), make($v)?)
        };
    }
    match (o, c) {
        (Obj::P(Packet::Connect(x)), c) => match c {
            Call::CleanStart => x.set_clean_start(),
            Call::KeepAlive(k) => x.set_keep_alive(*k),
            Call::User(t) => x.set_username(t.arc())?,
            Call::Pass(t) => x.set_password(Bytes::from(t.bin()))?,
            Call::Will { topic, payload, props } => {
                let mut w = Will::new(topic.arc(), &payload.bin()[..])?;
                for (id, v) in props {
                    prop!(w, id, v)?;
                }
                x.set_will(w);
            }
            Call::WillQos(q) => x.set_will_qos(codecsim::qos(*q % 3))?,
            Call::WillRetain => x.set_will_retain()?,
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::ConnAck(x)), c) => match c {
            Call::SessionPresent => x.set_session_present(),
            Call::Code(k) => x.set_reason_code(codecsim::connack_code(*k).unwrap()),
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::Publish(x)), c) => match c {
            Call::Qos(q) => x.set_qos(codecsim::qos(*q % 3)),
            Call::Pid(i) => x.set_packet_identifier(*i)?,
            Call::Retain => x.set_retain(),
            Call::Dup => x.set_dup(),
            Call::Payload(t, true) => x.set_payload_bytes(Bytes::from(t.bin())),
            Call::Payload(t, false) => x.set_payload(codecsim::Chunked::new(&t.bin(), &[3, 1, 7])),
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::Subscribe(x)), c) => match c {
            Call::Filter(t, o) => x.add_topic(t.arc(), SubscriptionOptions::from_bits(*o & 0x3f).unwrap())?,
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::Unsubscribe(x)), c) => match c {
            Call::Filter(t, _) => x.add_topic(t.arc())?,
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::SubAck(x)), c) => match c {
            Call::Code(k) => x.add_reason_code(codecsim::suback_code(*k).unwrap()),
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::UnsubAck(x)), c) => match c {
            Call::Code(k) => x.add_reason_code(codecsim::unsuback_code(*k).unwrap()),
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::P(Packet::PubAck(x)), Call::Code(k)) => x.set_reason_code(codecsim::puback_code(*k).unwrap()),
        (Obj::P(Packet::PubRec(x)), Call::Code(k)) => x.set_reason_code(codecsim::puback_code(*k).unwrap()),
        (Obj::P(Packet::PubRel(x)), Call::Code(k)) => x.set_reason_code(codecsim::pubrel_code(*k).unwrap()),
        (Obj::P(Packet::PubComp(x)), Call::Code(k)) => x.set_reason_code(codecsim::pubrel_code(*k).unwrap()),
        (Obj::P(Packet::PubAck(x)), Call::Prop(id, v)) => prop!(x, id, v)?,
        (Obj::P(Packet::PubRec(x)), Call::Prop(id, v)) => prop!(x, id, v)?,
        (Obj::P(Packet::PubRel(x)), Call::Prop(id, v)) => prop!(x, id, v)?,
        (Obj::P(Packet::PubComp(x)), Call::Prop(id, v)) => prop!(x, id, v)?,
        (Obj::P(Packet::Disconnect(x)), Call::Prop(id, v)) => prop!(x, id, v)?,
        (Obj::P(Packet::Auth(x)), Call::Prop(id, v)) => prop!(x, id, v)?,
        (Obj::W(x), c) => match c {
            Call::WillTopic(t) => x.set_topic(t.arc())?,
            Call::WillPayload(t) => x.set_payload(Bytes::from(t.bin()))?,
            Call::Prop(id, v) => prop!(x, id, v)?,
            _ => (),
        },
        (Obj::L(x), Call::Insert(id, v, None)) => x.insert(prop_key(*id), make(v)?)?,
        (Obj::L(x), Call::Insert(id, v, Some(w))) => {
            x.checked_insert(prop_key(*id), make(v)?, OWNERS.iter().find(|x| x.0 == *w).unwrap().1)?
        }
        _ => (),
    }
    Ok(())
}

/// a growing buffer that offers its room in small pieces
struct Pieces {
    out: Vec<u8>,
    piece: Box<[u8]>,
    used: usize,
}
impl Pieces {
    fn new(n: usize) -> Pieces {
        Pieces { out: vec![], piece: vec![0; n].into(), used: 0 }
    }
    fn done(mut self) -> Vec<u8> {
        self.out.extend_from_slice(&self.piece[..self.used]);
        self.out
    }
}
unsafe impl BufMut for Pieces {
    fn remaining_mut(&self) -> usize {
        usize::MAX - self.out.len()
    }
    unsafe fn advance_mut(&mut self, n: usize) {
        assert!(self.used + n <= self.piece.len());
        self.used += n;
        if self.used == self.piece.len() {
            self.out.extend_from_slice(&self.piece);
            self.used = 0;
        }
    }
    fn chunk_mut(&mut self) -> &mut UninitSlice {
        let p = &mut self.piece[self.used..];
        unsafe { UninitSlice::from_raw_parts_mut(p.as_mut_ptr(), p.len()) }
    }
}
const SHAPE: [&str; 5] = ["a BytesMut", "a Vec", "a slice of the reported length", "a buffer in pieces", "a BytesMut that holds something"];
fn encode(p: &Packet, k: u8) -> Vec<u8> {
    match k % 5 {
        0 => {
            let mut b = BytesMut::new();
            p.to_bytes(&mut b);
            b.to_vec()
        }
        1 => {
            let mut b = vec![];
            p.to_bytes(&mut b);
            b
        }
        2 => {
            let n = p.frame_len();
            let mut b = vec![0xee; n];
            let mut s = &mut b[..];
            p.to_bytes(&mut s);
            let left = s.len();
            b.truncate(n - left);
            b
        }
        3 => {
            let mut b = Pieces::new(1 + k as usize % 7);
            p.to_bytes(&mut b);
            b.done()
        }
        _ => {
            let mut b = BytesMut::from(&b"before"[..]);
            p.to_bytes(&mut b);
            assert!(b.starts_with(b"before"), "what was in the buffer is gone");
            b.to_vec().split_off(6)
        }
    }
}
/// whatever a packet of its kind must have is there
fn complete(p: &Pkt) -> bool {
    match p {
        Pkt::Publish { qos, pid, .. } => *qos == 0 || pid.is_some(),
        Pkt::Subscribe { filters, .. } => !filters.is_empty(),
        Pkt::Unsubscribe { filters, .. } => !filters.is_empty(),
        Pkt::Codes { codes, .. } => !codes.is_empty(),
        _ => true,
    }
}
fn rebuild(p: Packet) -> Packet {
    match p {
        Packet::Connect(x) => x.build(),
        Packet::ConnAck(x) => x.build(),
        Packet::Publish(x) => x.build(),
        Packet::PubAck(x) => x.build(),
        Packet::PubRec(x) => x.build(),
        Packet::PubRel(x) => x.build(),
        Packet::PubComp(x) => x.build(),
        Packet::Subscribe(x) => x.build(),
        Packet::SubAck(x) => x.build(),
        Packet::Unsubscribe(x) => x.build(),
        Packet::UnsubAck(x) => x.build(),
        Packet::PingReq(x) => x.build_req(),
        Packet::PingRes(x) => x.build_res(),
        Packet::Disconnect(x) => x.build(),
        Packet::Auth(x) => x.build(),
    }
}

// ---------------------------------------------------------------------------
// run

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| simrt::with(|s| std::mem::take(&mut s.panics)).join("; "))
}
fn shm(m: &Model) -> String {
    let s = match m {
        Model::P(p) => format!("{:?}", p),
        Model::W(w) => format!("{:?}", w),
        Model::L(l) => format!("{:?}", l),
    };
    cut(s)
}
fn cut(s: String) -> String {
    if s.len() > 500 {
        format!("{}... ({} bytes)", s.chars().take(400).collect::<String>(), s.len())
    } else {
        s
    }
}
fn call_text(c: &Call) -> String {
    cut(format!("{:?}", c))
}

pub fn run(sc: &BScen, seed: u64, want: bool) -> Outcome {
    let sc = sc.clone();
    codecsim::in_sim(seed, want, move |r| history(&sc, r))
}

fn start(f: &From_) -> Option<(Result<Obj, String>, Vec<(bool, Model)>)> {
    let none = Model::L(vec![]);
    Some(match f {
        From_::Bytes(b) => {
            let Ok(Some((p, n))) = codec::decode(b) else { panic!("harness: a packet does not decode") };
            assert_eq!(n, b.len(), "harness");
            (Packet::from_bytes(&mut &b[..]).map(Obj::P).map_err(|e| format!("{:?}", e)), vec![(true, Model::P(p.norm()))])
        }
        From_::Props => (Ok(Obj::L(Properties::new())), vec![(true, none)]),
        From_::Will { topic, payload } => {
            let t = topic.get();
            let m = Model::W(WillSpec { qos: 0, retain: false, props: vec![], topic: t.clone(), payload: payload.bin() });
            let mut rule = text_rule(&t).map(|_| topic_rule(&t) == Some(true));
            if payload.bin().len() > 65_535 {
                rule = None;
            }
            (Will::new(topic.arc(), Bytes::from(payload.bin())).map(Obj::W).map_err(|e| format!("{:?}", e)), both(rule, m))
        }
        From_::New { ty, text, payload, pid, code } => {
            let (t, l) = (text.get(), vec![]);
            let mut rule = Some(true);
            let (o, m) = match ty {
                1 => {
                    rule = text_rule(&t);
                    let m = Pkt::Connect { clean: false, keep_alive: 0, props: l, id: t, will: None, user: None, pass: None };
                    (Connect::new(text.arc()).map(Packet::Connect), m)
                }
                2 => (Ok(Packet::ConnAck(ConnAck::new())), Pkt::ConnAck { flags: 0, code: 0, props: l }),
                3 => {
                    rule = topic_rule(&t);
                    let m = Pkt::Publish { dup: false, qos: 0, retain: false, topic: t, pid: None, props: l, payload: payload.bin() };
                    (Publish::new(text.arc(), Bytes::from(payload.bin())).map(Packet::Publish), m)
                }
                4 => (Ok(Packet::PubAck(PubAck::new(*pid))), Pkt::Ack { ty: 4, pid: *pid, code: 0, props: l }),
                5 => (Ok(Packet::PubRec(PubRec::new(*pid))), Pkt::Ack { ty: 5, pid: *pid, code: 0, props: l }),
                6 => (Ok(Packet::PubRel(PubRel::new(*pid))), Pkt::Ack { ty: 6, pid: *pid, code: 0, props: l }),
                7 => (Ok(Packet::PubComp(PubComp::new(*pid))), Pkt::Ack { ty: 7, pid: *pid, code: 0, props: l }),
                8 => (Ok(Packet::Subscribe(Subscribe::new(*pid))), Pkt::Subscribe { pid: *pid, props: l, filters: vec![] }),
                9 => (Ok(Packet::SubAck(SubAck::new(*pid))), Pkt::Codes { ty: 9, pid: *pid, props: l, codes: vec![] }),
                10 => (Ok(Packet::Unsubscribe(Unsubscribe::new(*pid))), Pkt::Unsubscribe { pid: *pid, props: l, filters: vec![] }),
                11 => (Ok(Packet::UnsubAck(UnsubAck::new(*pid))), Pkt::Codes { ty: 11, pid: *pid, props: l, codes: vec![] }),
                12 => (Ok(Ping::new().build_req()), Pkt::PingReq),
                13 => (Ok(Ping::new().build_res()), Pkt::PingResp),
                14 => (Ok(Packet::Disconnect(Disconnect::new(codecsim::disconnect_code(*code)?))), Pkt::Disconnect { code: *code, props: l }),
                _ => (Ok(Packet::Auth(Auth::new(codecsim::auth_code(*code)?))), Pkt::Auth { code: *code, props: l }),
            };
            (o.map(Obj::P).map_err(|e| format!("{:?}", e)), both(rule, Model::P(m)))
        }
    })
}
fn both(rule: Option<bool>, m: Model) -> Vec<(bool, Model)> {
    match rule {
        None => vec![(false, m)],
        Some(false) => vec![(false, m.clone()), (true, m)],
        Some(true) => vec![(true, m)],
    }
}

const TAG: &[&str] = &["C03"];

fn history(sc: &BScen, r: &mut Run) {
    let Some((o, ok)) = (match guard(|| start(&sc.from)) {
        Ok(x) => x,
        Err(m) => {
            r.viol(TAG, format!("{} panicked: {}", cut(format!("{:?}", sc.from)), m));
            return;
        }
    }) else {
        return;
    };
    r.hit("C03");
    r.note(|| format!("{} -> {:?}", cut(format!("{:?}", sc.from)), o.as_ref().map(|_| ()).map_err(|e| e.clone())));
    r.mix(o.is_ok() as u64);
    let mut obj = match o {
        Err(e) => {
            r.fault("refused_calls");
            if !ok.iter().any(|x| !x.0) {
                r.viol(TAG, format!("{} is refused: {}", cut(format!("{:?}", sc.from)), e));
            }
            return;
        }
        Ok(o) => o,
    };
    let Some(m) = ok.into_iter().find(|x| x.0) else {
        r.viol(TAG, format!("{} is accepted", cut(format!("{:?}", sc.from))));
        return;
    };
    let mut model = m.1.norm();
    let mut copies: Vec<(Obj, Model)> = vec![];
    match guard(|| look(&obj)) {
        Err(m) => return r.viol(TAG, format!("reading it panicked: {}", m)),
        Ok(l) if l != model => return r.viol(TAG, format!("made {}, the accessors say {}", shm(&model), shm(&l))),
        _ => (),
    }
    for (i, c) in sc.calls.iter().enumerate() {
        r.calls += 1;
        match c {
            Call::Copy => {
                copies.push((obj.clone(), model.clone()));
                r.fault("copies");
                r.note(|| format!("{}: a copy is left behind", i));
                continue;
            }
            Call::Topic(t) => {
                if !topic(t, r) {
                    return;
                }
                continue;
            }
            Call::Flags(b) => {
                if !flags(*b, r) {
                    return;
                }
                continue;
            }
            Call::Encode(k) => {
                if !encoded(&obj, &model, *k, r) {
                    return;
                }
                continue;
            }
            Call::Reload => {
                if let (Obj::P(p), Model::P(m)) = (&obj, &model) {
                    if !complete(m) {
                        continue;
                    }
                    let x = guard(|| Packet::from_bytes(&mut &encode(p, 0)[..]));
                    match x {
                        Err(e) => return r.viol(TAG, format!("encoding and decoding {} panicked: {}", shm(&model), e)),
                        // judged by Encode
                        Ok(Err(_)) => continue,
                        Ok(Ok(p)) => {
                            r.fault("reloads");
                            r.note(|| format!("{}: encoded, decoded, going on with that", i));
                            obj = Obj::P(p);
                        }
                    }
                }
                continue;
            }
            _ => (),
        }
        let Some(ok) = allowed(&model, c) else { continue };
        r.hit("C03");
        let before = shm(&model);
        let res = match guard(|| apply(&mut obj, c)) {
            Ok(x) => x,
            Err(m) => return r.viol(TAG, format!("call {} ({}) on {} panicked: {}", i, call_text(c), before, m)),
        };
        let now = match guard(|| look(&obj)) {
            Ok(x) => x,
            Err(m) => return r.viol(TAG, format!("reading after call {} ({}) panicked: {}", i, call_text(c), m)),
        };
        r.note(|| format!("{}: {} -> {:?}, now {}", i, call_text(c), res.as_ref().map_err(|e| format!("{:?}", e)), shm(&now)));
        r.mix(2 + res.is_ok() as u64);
        if res.is_err() {
            r.fault("refused_calls");
        }
        let hit = ok.into_iter().find(|(a, m)| *a == res.is_ok() && m.clone().norm() == now);
        match hit {
            Some((_, m)) => model = m.norm(),
            None => {
                let how = match (&res, allowed(&model, c).unwrap().iter().any(|x| x.0 == res.is_ok())) {
                    (Ok(()), true) => "accepted call leaves something else than it said".to_string(),
                    (Ok(()), false) => "call must be refused but is accepted".to_string(),
                    (Err(e), true) => format!("refused call ({:?}) changes the object", e),
                    (Err(e), false) => format!("call must be accepted but is refused ({:?})", e),
                };
                return r.viol(TAG, format!("{}: call {} ({}) on {}, the accessors now say {}", how, i, call_text(c), before, shm(&now)));
            }
        }
        // the other way to read a property
        for id in IDS {
            let want: Vec<PVal> = model.props_mut().map_or(vec![], |l| l.iter().filter(|x| x.0 == id).map(|x| x.1.clone()).collect());
            let got = match guard(|| get_prop(&obj, prop_key(id))) {
                Ok(x) => x,
                Err(m) => return r.viol(TAG, format!("reading property 0x{:02x} panicked: {}", id, m)),
            };
            if got.clone().unwrap_or_default() != want {
                return r.viol(TAG, format!("after call {} ({}) property 0x{:02x} reads {}, not {}", i, call_text(c), id, cut(format!("{:?}", got)), cut(format!("{:?}", want))));
            }
        }
        if let (Obj::L(l), Model::L(m)) = (&obj, &model) {
            for (k, w) in OWNERS {
                let want = m.iter().all(|x| strict::owned(x.0, k));
                if l.is_valid_for(w) != want {
                    return r.viol(TAG, format!("after call {} ({}) {} is {} for packet type {}", i, call_text(c), shm(&model), if want { "refused as invalid" } else { "taken as valid" }, k));
                }
            }
        }
    }
    if !encoded(&obj, &model, sc.calls.len() as u8, r) {
        return;
    }
    for (o, m) in &copies {
        match guard(|| look(o)) {
            Err(e) => return r.viol(TAG, format!("reading a copy panicked: {}", e)),
            Ok(l) if l != *m => return r.viol(TAG, format!("the copy of {} now reads {}", shm(m), shm(&l))),
            _ => (),
        }
        if !encoded(o, m, 0, r) {
            return;
        }
    }
}

fn encoded(o: &Obj, m: &Model, k: u8, r: &mut Run) -> bool {
    let (Obj::P(p), Model::P(m)) = (o, m) else { return true };
    if !complete(m) {
        return true;
    }
    r.hit("C03");
    let shape = SHAPE[k as usize % 5];
    let x = guard(|| {
        let b = encode(p, k);
        let again = encode(&rebuild(p.clone()), 0);
        (b, again, p.frame_len())
    });
    let (b, again, fl) = match x {
        Ok(x) => x,
        Err(e) => {
            r.viol(TAG, format!("encoding {} into {} panicked: {}", shm(&Model::P(m.clone())), shape, e));
            return false;
        }
    };
    r.note(|| format!("encoded into {}: {}", shape, codecsim::sh(&b)));
    r.mix(b.len() as u64);
    let want = m.encode();
    let what = || shm(&Model::P(m.clone()));
    if b.len() != want.len() || fl != want.len() || again.len() != want.len() {
        r.viol(TAG, format!("{} takes {} bytes, is encoded into {} in {} ({}), a copy in {}, reported length {}", what(), want.len(), shape, b.len(), codecsim::sh(&b), again.len(), fl));
        return false;
    }
    for (b, who) in [(&b, "it"), (&again, "a copy")] {
        let clear = match strict::classify(b) {
            Class::Valid(_, n) if n == b.len() => true,
            Class::Unclear(n, _) if n == b.len() => false,
            c => {
                r.viol(TAG, cut(format!("{} is encoded as {}: {:?}", what(), codecsim::sh(b), c)));
                return false;
            }
        };
        match codec::decode(b) {
            Ok(Some((q, n))) if n == b.len() && q.clone().norm() == *m => (),
            x => {
                r.viol(TAG, cut(format!("{} is encoded as {}, in which {} says {:?}", what(), codecsim::sh(b), who, x)));
                return false;
            }
        }
        match guard(|| Packet::from_bytes(&mut &b[..]).map(|p| fields(&p).norm())) {
            Err(e) => {
                r.viol(TAG, format!("decoding what {} was encoded to panicked: {}", what(), e));
                return false;
            }
            Ok(Ok(q)) if q == *m => (),
            Ok(Err(_)) if !clear => (),
            Ok(x) => {
                r.viol(TAG, cut(format!("{} is encoded as {}, which decodes to {:?}", what(), codecsim::sh(b), x)));
                return false;
            }
        }
    }
    true
}

fn topic(t: &Txt, r: &mut Run) -> bool {
    r.hit("C03");
    let s = t.get();
    let rule = filter_rule(&s);
    let x = guard(|| MqttTopic::new(t.arc()).map(|t| (t.is_wildcard(), t.is_system(), t.inner().to_string(), t.unwrap().to_string())));
    r.note(|| format!("topic {} -> {}", cut(format!("{:?}", t)), cut(format!("{:?}", x))));
    let m = match (x, rule) {
        (Err(e), _) => format!("panicked: {}", e),
        (Ok(Ok(_)), None) => "is accepted".into(),
        (Ok(Err(e)), Some(true)) => format!("is refused: {:?}", e),
        (Ok(Err(_)), _) => {
            r.fault("refused_calls");
            return true;
        }
        (Ok(Ok((w, y, a, b))), _) => {
            if w == s.contains(['+', '#']) && y == s.starts_with('$') && a == s && b == s {
                return true;
            }
            format!("has wildcards: {}, is a system topic: {}, reads {:?} and {:?}", w, y, a, b)
        }
    };
    r.viol(TAG, cut(format!("the topic {:?} {}", s, m)));
    false
}

/// the conversions between flag bits and what they stand for
fn flags(b: u8, r: &mut Run) -> bool {
    r.hit("C03");
    let q = |x: Result<QoS, DataParseError>| -> Option<u8> {
        x.ok().map(|q| match q {
            QoS::QoS0 => 0,
            QoS::QoS1 => 1,
            QoS::QoS2 => 2,
        })
    };
    let two = |v: u8| if v & 3 == 3 { None } else { Some(v & 3) };
    let x = guard(|| -> Result<(), String> {
        let f = PublishFlags::from_bits_truncate(b);
        let c = ConnectFlags::from_bits_truncate(b);
        let s = SubscriptionOptions::from_bits_truncate(b);
        let h: Result<RetainHandling, DataParseError> = s.try_into();
        for (what, got, want) in [
            ("PUBLISH flags", q(f.try_into()), two(b >> 1)),
            ("CONNECT flags", q(c.try_into()), two(b >> 3)),
            ("subscription options", q(s.try_into()), two(b)),
            ("retain handling", h.ok().map(|h| h as u8), two(b >> 4)),
        ] {
            if got != want {
                return Err(format!("{} 0x{:02x}: {:?} instead of {:?}", what, b, got, want));
            }
        }
        let k = b % 3;
        let all = [PublishFlags::from(codecsim::qos(k)).bits() >> 1, ConnectFlags::from(codecsim::qos(k)).bits() >> 3, SubscriptionOptions::from(codecsim::qos(k)).bits()];
        if all != [k; 3] {
            return Err(format!("QoS {} becomes {:?}", k, all));
        }
        let h = SubscriptionOptions::from(match k {
            0 => RetainHandling::Send,
            1 => RetainHandling::SendIfNotExisting,
            _ => RetainHandling::DoNotSend,
        });
        if h.bits() != k << 4 {
            return Err(format!("retain handling {} becomes 0x{:02x}", k, h.bits()));
        }
        Ok(())
    });
    match x {
        Ok(Ok(())) => true,
        Ok(Err(m)) => {
            r.viol(TAG, m);
            false
        }
        Err(m) => {
            r.viol(TAG, format!("converting flags 0x{:02x} panicked: {}", b, m));
            false
        }
    }
}

// ---------------------------------------------------------------------------
// generator

fn pad(r: &mut Rng, s: String) -> Txt {
    let n = s.len() as u32;
    let pad = if r.chance(60) {
        // around the sizes at which length fields grow or overflow
        let want: u32 = *r.pick(&[119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 255, 256, 16_370, 16_383, 16_384, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072]);
        want.saturating_sub(n)
    } else {
        0
    };
    Txt { s, pad }
}
fn txt(r: &mut Rng) -> Txt {
    let n = *r.pick(&[0, 1, 1, 3, 8]);
    let mut s = String::new();
    for _ in 0..n {
        s.push(*r.pick(&['a', 'b', 'Z', '9', ' ', 'é', '€', '𝄞', '\u{feff}', '~', '/', '+', '#', '$']));
    }
    if r.chance(60) {
        let c = *r.pick(&['\0', '\0', '\u{1}', '\n', '\u{7f}', '\u{85}', '\u{fffe}', '\u{fdd0}', '\u{10ffff}']);
        let at = r.below(s.chars().count() as u64 + 1) as usize;
        let mut v: Vec<char> = s.chars().collect();
        v.insert(at, c);
        s = v.into_iter().collect();
    }
    pad(r, s)
}
fn topic_txt(r: &mut Rng, wild: u32) -> Txt {
    let n = r.range(1, 5);
    let mut v: Vec<String> = (0..n).map(|_| r.pick(&["a", "b", "", "é", "$s", "long level", "$share", "\u{feff}"]).to_string()).collect();
    for x in v.iter_mut() {
        if r.chance(wild) {
            *x = r.pick(&["+", "+", "+", "a+", "+a", "++", "+#"]).to_string();
        }
    }
    if r.chance(wild) {
        v.push(r.pick(&["#", "#", "#", "a#", "#a", "##", "#+"]).to_string());
    }
    if r.chance(wild / 6) {
        let i = r.below(v.len() as u64) as usize;
        v.insert(i, "#".into());
    }
    let mut s = v.join("/");
    if r.chance(25) {
        s.push(*r.pick(&['\0', '\t', '\u{fffe}']));
    }
    if s.is_empty() && r.chance(700) {
        s.push('t');
    }
    pad(r, s)
}
fn val(r: &mut Rng, id: u8) -> Val {
    let k = if r.chance(80) {
        r.below(8)
    } else {
        match id {
            0x17 | 0x19 | 0x28 | 0x29 | 0x2a => 0,
            0x01 | 0x24 | 0x25 => 1,
            0x13 | 0x21 | 0x22 | 0x23 => 2,
            0x02 | 0x11 | 0x18 | 0x27 => 3,
            0x0b => 4,
            0x09 | 0x16 => 7,
            _ => 5,
        }
    };
    match k {
        0 => Val::Bool(r.chance(500)),
        1 => Val::Byte(*r.pick(&[0, 1, 1, 0, 2, 255])),
        2 => Val::U16(*r.pick(&[0, 1, 255, 256, 65_535])),
        3 => Val::U32(*r.pick(&[0, 1, 65_536, 0x0fff_ffff, u32::MAX])),
        4 => Val::Var(*r.pick(&[0, 1, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455, 268_435_456, u32::MAX])),
        5 => Val::Str(txt(r)),
        6 if id != 0x26 => Val::Pair(txt(r), txt(r)),
        6 => Val::Str(txt(r)),
        _ => Val::Bin(txt(r)),
    }
}
fn prop(r: &mut Rng, owner: u8) -> (u8, Val) {
    let id = if owner == 99 || r.chance(120) {
        *r.pick(&IDS)
    } else {
        let v: Vec<u8> = IDS.iter().copied().filter(|i| strict::owned(*i, owner)).collect();
        if v.is_empty() {
            *r.pick(&IDS)
        } else if r.chance(200) {
            0x26
        } else {
            *r.pick(&v)
        }
    };
    (id, val(r, id))
}
fn codes(ty: u8) -> &'static [u8] {
    match ty {
        2 => &[0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f],
        4 | 5 => &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        6 | 7 => &[0, 0x92],
        9 => &[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2],
        11 => &[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91],
        14 => &[
            0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e,
            0x9f, 0xa0, 0xa1, 0xa2,
        ],
        _ => &[0, 0x18, 0x19],
    }
}

pub fn generate(seed: u64) -> BScen {
    let mut r = Rng::new(seed ^ 0xb01d);
    let r = &mut r;
    let mut ty;
    let from = match r.below(20) {
        0 => {
            ty = 98;
            From_::Props
        }
        1 => {
            ty = 0;
            From_::Will { topic: topic_txt(r, 60), payload: txt(r) }
        }
        2..=5 => {
            let p = codecsim::valid(r);
            let b = p.encode();
            ty = b[0] >> 4;
            From_::Bytes(b)
        }
        _ => {
            ty = *r.pick(&[1, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 10, 11, 12, 13, 14, 15]);
            if matches!(ty, 12 | 13) && r.chance(800) {
                ty = 3;
            }
            From_::New {
                ty,
                text: if ty == 3 { topic_txt(r, 30) } else { txt(r) },
                payload: pad(r, "p".into()),
                pid: *r.pick(&[1, 2, 255, 256, 65_535, 0]),
                code: *r.pick(codes(ty)),
            }
        }
    };
    let n = *r.pick(&[0, 2, 4, 8, 14, 30]);
    let mut calls = vec![];
    for _ in 0..n {
        let c = match r.below(12) {
            0 => match r.below(6) {
                0 => Call::Copy,
                1 => Call::Topic(topic_txt(r, 250)),
                2 => Call::Flags(r.next() as u8),
                3 => Call::Reload,
                _ => Call::Encode(r.below(35) as u8),
            },
            1..=5 => match ty {
                98 => {
                    let (id, v) = prop(r, 99);
                    let w = if r.chance(500) { None } else { Some(r.pick(&OWNERS).0) };
                    let (id, v) = match w {
                        Some(w) => prop(r, w),
                        None => (id, v),
                    };
                    Call::Insert(id, v, w)
                }
                _ => {
                    let (id, v) = prop(r, ty);
                    Call::Prop(id, v)
                }
            },
            _ => match ty {
                1 => match r.below(10) {
                    0 => Call::CleanStart,
                    1 => Call::KeepAlive(*r.pick(&[0, 1, 300, 65_535])),
                    2 | 3 => Call::User(txt(r)),
                    4 | 5 => Call::Pass(txt(r)),
                    6 | 7 => {
                        let k = r.below(4);
                        Call::Will { topic: topic_txt(r, 60), payload: txt(r), props: (0..k).map(|_| prop(r, 0)).collect() }
                    }
                    8 => Call::WillQos(r.below(3) as u8),
                    _ => Call::WillRetain,
                },
                2 => {
                    if r.chance(300) {
                        Call::SessionPresent
                    } else {
                        Call::Code(*r.pick(codes(2)))
                    }
                }
                3 => match r.below(7) {
                    0 | 1 => Call::Qos(r.below(3) as u8),
                    2 | 3 => Call::Pid(*r.pick(&[1, 2, 255, 256, 65_535, 0])),
                    4 => Call::Retain,
                    5 => Call::Dup,
                    _ => Call::Payload(txt(r), r.chance(500)),
                },
                0 => {
                    if r.chance(500) {
                        Call::WillTopic(topic_txt(r, 60))
                    } else {
                        Call::WillPayload(txt(r))
                    }
                }
                8 | 10 => Call::Filter(topic_txt(r, 150), if r.chance(150) { r.below(64) as u8 } else { (r.below(3) | r.below(4) << 2 | r.below(3) << 4) as u8 }),
                4..=7 | 9 | 11 => Call::Code(*r.pick(codes(ty))),
                _ => Call::Encode(r.below(35) as u8),
            },
        };
        calls.push(c);
    }
    BScen { from, calls }
}
