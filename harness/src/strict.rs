//! Independent judgement of arbitrary bytes at the start of a buffer, from the text of
//! MQTT 5 (with the dialect notes of codec.rs). Shares no code with /repo.
use crate::codec::{self, PVal, Pkt, Props};

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    /// bytes are missing; true: what is there is already beyond repair or unclear
    /// (the decoder may report an error early), false: a prefix of a valid packet as far as one can see
    Incomplete(bool),
    Valid(Pkt, usize),
    Malformed(String),
    /// a complete frame on which the standard leaves room, or the repository's dialect differs
    Unclear(usize, String),
}

fn owners(id: u8) -> &'static [u8] {
    // packet types; 0 stands for the will properties
    match id {
        0x01 | 0x02 | 0x03 | 0x08 | 0x09 => &[3, 0],
        0x0b => &[3, 8],
        0x11 => &[1, 2, 14],
        0x12 | 0x13 | 0x1a | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => &[2],
        0x15 | 0x16 => &[1, 2, 15],
        0x17 | 0x19 => &[1],
        0x18 => &[0],
        0x1c => &[2, 14],
        0x1f => &[2, 4, 5, 6, 7, 9, 11, 14, 15],
        0x21 | 0x22 | 0x27 => &[1, 2],
        0x23 => &[3],
        0x26 => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15],
        _ => &[],
    }
}
/// (clearly legal, unclear)
fn code_ok(ty: u8, c: u8) -> Result<(), bool> {
    let (ok, maybe): (&[u8], &[u8]) = match ty {
        2 => (
            &[
                0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
            ],
            &[],
        ),
        4 | 5 => (&[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99], &[]),
        6 | 7 => (&[0, 0x92], &[]),
        9 => (&[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2], &[]),
        11 => (&[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91], &[]),
        14 => (
            &[
                0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c,
                0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
            ],
            &[0x8c],
        ),
        15 => (&[0, 0x18, 0x19], &[]),
        _ => (&[], &[]),
    };
    if ok.contains(&c) {
        Ok(())
    } else {
        Err(maybe.contains(&c))
    }
}

struct J {
    unclear: Option<String>,
}
type R = Result<(), String>;
impl J {
    fn maybe(&mut self, s: &str) {
        if self.unclear.is_none() {
            self.unclear = Some(s.to_string())
        }
    }
    fn string(&mut self, s: &str) -> R {
        if s.contains('\0') {
            return Err("NUL in a string".into());
        }
        if s.chars().any(|c| c.is_control() || (c as u32) & 0xfffe == 0xfffe || (0xfdd0..=0xfdef).contains(&(c as u32))) {
            self.maybe("control or non-character in a string");
        }
        Ok(())
    }
    fn props(&mut self, p: &Props, owner: u8) -> R {
        let mut seen = std::collections::BTreeSet::new();
        for (id, v) in p {
            if !owners(*id).contains(&owner) {
                return Err(format!("property 0x{:02x} does not belong here", id));
            }
            if !seen.insert(*id) && *id != 0x26 {
                if *id == 0x0b && owner == 3 {
                    self.maybe("several subscription identifiers");
                } else {
                    return Err(format!("property 0x{:02x} twice", id));
                }
            }
            match (id, v) {
                (_, PVal::Str(s)) => {
                    self.string(s)?;
                    if *id == 0x08 && s.contains(['+', '#']) {
                        self.maybe("wildcard in a response topic");
                    }
                }
                (0x21, PVal::U16(0)) | (0x27, PVal::U32(0)) | (0x23, PVal::U16(0)) | (0x0b, PVal::Var(0)) => self.maybe("value out of range"),
                (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a, PVal::Byte(b)) if *b > 1 => self.maybe("value out of range"),
                _ => (),
            }
        }
        if p.iter().any(|x| x.0 == 0x16) && !p.iter().any(|x| x.0 == 0x15) {
            self.maybe("authentication data without a method");
        }
        Ok(())
    }
    fn filter(&mut self, f: &str) -> R {
        self.string(f)?;
        if f.is_empty() {
            self.maybe("empty filter");
        }
        let l: Vec<&str> = f.split('/').collect();
        for (i, s) in l.iter().enumerate() {
            if s.contains('#') && (*s != "#" || i + 1 != l.len()) || s.contains('+') && *s != "+" {
                return Err("illegal topic filter".into());
            }
        }
        Ok(())
    }
    fn code(&mut self, ty: u8, c: u8) -> R {
        match code_ok(ty, c) {
            Ok(()) => Ok(()),
            Err(true) => {
                self.maybe("reason code");
                Ok(())
            }
            Err(false) => Err(format!("reason code 0x{:02x}", c)),
        }
    }
    fn pid(&mut self, p: u16) {
        if p == 0 {
            self.maybe("packet identifier 0");
        }
    }
    fn judge(&mut self, p: &Pkt, body: &[u8], b0: u8) -> R {
        match p {
            Pkt::Connect { props, id, will, user, .. } => {
                let f = body[7];
                if f & 1 != 0 {
                    return Err("reserved connect flag".into());
                }
                if f & 4 == 0 && f & 0x38 != 0 {
                    return Err("will flags without a will".into());
                }
                if f & 0x18 == 0x18 {
                    return Err("will qos 3".into());
                }
                self.props(props, 1)?;
                self.string(id)?;
                if let Some(w) = will {
                    self.props(&w.props, 0)?;
                    self.string(&w.topic)?;
                    if w.topic.is_empty() || w.topic.contains(['+', '#']) {
                        self.maybe("will topic");
                    }
                }
                if let Some(u) = user {
                    self.string(u)?;
                }
            }
            Pkt::ConnAck { flags, code, props } => {
                if flags & 0xfe != 0 {
                    return Err("reserved connack flags".into());
                }
                if flags & 1 != 0 && *code != 0 {
                    self.maybe("session present in a refusal");
                }
                self.code(2, *code)?;
                self.props(props, 2)?;
            }
            Pkt::Publish { dup, qos, topic, pid, props, .. } => {
                self.string(topic)?;
                if topic.contains(['+', '#']) {
                    return Err("wildcard in a topic name".into());
                }
                if topic.is_empty() {
                    self.maybe("empty topic");
                }
                if *dup && *qos == 0 {
                    self.maybe("DUP with QoS 0");
                }
                if let Some(p) = pid {
                    self.pid(*p);
                }
                self.props(props, 3)?;
            }
            Pkt::Ack { ty, pid, code, props } => {
                self.pid(*pid);
                self.code(*ty, *code)?;
                self.props(props, *ty)?;
            }
            Pkt::Subscribe { pid, props, filters } => {
                self.pid(*pid);
                self.props(props, 8)?;
                if filters.is_empty() {
                    return Err("no filters".into());
                }
                for (f, o) in filters {
                    self.filter(f)?;
                    if o & 0xc0 != 0 || o & 3 == 3 || o & 0x30 == 0x30 {
                        return Err("subscription options".into());
                    }
                    if o & 4 != 0 && f.starts_with("$share/") {
                        self.maybe("no local on a shared subscription");
                    }
                }
            }
            Pkt::Codes { ty, pid, props, codes } => {
                self.pid(*pid);
                self.props(props, *ty)?;
                if codes.is_empty() {
                    return Err("no reason codes".into());
                }
                for c in codes {
                    self.code(*ty, *c)?;
                }
            }
            Pkt::Unsubscribe { pid, props, filters } => {
                self.pid(*pid);
                self.props(props, 10)?;
                if filters.is_empty() {
                    return Err("no filters".into());
                }
                for f in filters {
                    self.filter(f)?;
                }
            }
            Pkt::PingReq | Pkt::PingResp => (),
            Pkt::Disconnect { code, props } => {
                self.code(14, *code)?;
                self.props(props, 14)?;
            }
            Pkt::Auth { code, props } => {
                self.code(15, *code)?;
                self.props(props, 15)?;
            }
        }
        let _ = b0;
        Ok(())
    }
}

fn first_byte_ok(b: u8) -> bool {
    let f = b & 15;
    match b >> 4 {
        0 => false,
        3 => f & 6 != 6,
        6 | 8 | 10 => f == 2,
        _ => f == 0,
    }
}

pub fn classify(b: &[u8]) -> Class {
    if b.is_empty() {
        return Class::Incomplete(false);
    }
    let bad0 = !first_byte_ok(b[0]);
    let mut len = 0usize;
    let mut i = 1;
    loop {
        let Some(x) = b.get(i) else { return Class::Incomplete(bad0) };
        len |= ((x & 127) as usize) << (7 * (i - 1));
        i += 1;
        if x & 128 == 0 {
            if i > 2 && *x == 0 {
                return Class::Malformed("remaining length not minimal".into());
            }
            break;
        }
        if i > 4 {
            return Class::Malformed("remaining length longer than 4 bytes".into());
        }
    }
    let end = i + len;
    if b.len() < end {
        // what the length or the body begin say may already rule out every completion
        return Class::Incomplete(true);
    }
    if bad0 {
        return Class::Malformed("fixed header".into());
    }
    let ty = b[0] >> 4;
    match codec::decode(&b[..end]) {
        Ok(Some((p, n))) if n == end => {
            let mut j = J { unclear: None };
            match j.judge(&p, &b[i..end], b[0]) {
                Err(e) => Class::Malformed(e),
                Ok(()) => match j.unclear {
                    Some(u) => Class::Unclear(end, u),
                    None => Class::Valid(p, end),
                },
            }
        }
        Ok(_) => Class::Malformed("frame length".into()),
        Err(e) => {
            // MQTT 5 lets these end early; the repository's dialect does not
            let short = match ty {
                4..=7 => len == 2 || len == 3,
                14 | 15 => len <= 1,
                _ => false,
            };
            if short {
                Class::Unclear(end, "short form".into())
            } else if let Some(u) = pair_user_property(&b[..end]) {
                Class::Unclear(end, u)
            } else {
                Class::Malformed(e)
            }
        }
    }
}

/// MQTT 5 defines a user property as a pair of strings, the repository as one string
/// (a packet with pairs is valid MQTT 5): such frames are not judged.
fn pair_user_property(b: &[u8]) -> Option<String> {
    if b.contains(&0x26) {
        Some("may hold a user property pair".into())
    } else {
        None
    }
}

pub fn owned(id: u8, owner: u8) -> bool {
    owners(id).contains(&owner)
}
