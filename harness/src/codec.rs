//! Independent, minimal MQTT 5 codec used by the simulated clients and as the
//! reference for the repository's codec. Shares no code with /repo.
//! Dialect note: a User Property is one UTF-8 string (as the repository defines it).

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum PVal {
    Byte(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    #[serde(with = "hexser")]
    Bin(Vec<u8>),
}
pub type Props = Vec<(u8, PVal)>;

pub mod hexser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::codec::hex(v))
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        crate::codec::unhex(&s).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}
pub fn hex(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 2);
    for b in v {
        s.push_str(&format!("{:02x}", b));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct WillSpec {
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
    pub topic: String,
    #[serde(with = "hexser")]
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pkt {
    Connect {
        clean: bool,
        keep_alive: u16,
        props: Props,
        id: String,
        will: Option<WillSpec>,
        user: Option<String>,
        pass: Option<Vec<u8>>,
    },
    ConnAck { flags: u8, code: u8, props: Props },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pid: Option<u16>, props: Props, payload: Vec<u8> },
    /// 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack { ty: u8, pid: u16, code: u8, props: Props },
    Subscribe { pid: u16, props: Props, filters: Vec<(String, u8)> },
    /// 9 SUBACK, 11 UNSUBACK
    Codes { ty: u8, pid: u16, props: Props, codes: Vec<u8> },
    Unsubscribe { pid: u16, props: Props, filters: Vec<String> },
    PingReq,
    PingResp,
    Disconnect { code: u8, props: Props },
    Auth { code: u8, props: Props },
}

pub fn put_var(out: &mut Vec<u8>, mut v: u32) {
    loop {
        let mut b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            b |= 128;
        }
        out.push(b);
        if v == 0 {
            break;
        }
    }
}
pub fn put_str(out: &mut Vec<u8>, s: &str) {
    put_bin(out, s.as_bytes());
}
pub fn put_bin(out: &mut Vec<u8>, s: &[u8]) {
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}
pub fn put_props(out: &mut Vec<u8>, p: &Props) {
    let mut b = Vec::new();
    for (id, v) in p {
        b.push(*id);
        match v {
            PVal::Byte(x) => b.push(*x),
            PVal::U16(x) => b.extend_from_slice(&x.to_be_bytes()),
            PVal::U32(x) => b.extend_from_slice(&x.to_be_bytes()),
            PVal::Var(x) => put_var(&mut b, *x),
            PVal::Str(x) => put_str(&mut b, x),
            PVal::Bin(x) => put_bin(&mut b, x),
        }
    }
    put_var(out, b.len() as u32);
    out.extend_from_slice(&b);
}
pub fn frame(b0: u8, body: &[u8]) -> Vec<u8> {
    let mut out = vec![b0];
    put_var(&mut out, body.len() as u32);
    out.extend_from_slice(body);
    out
}

impl Pkt {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = Vec::new();
        let b0 = match self {
            Pkt::Connect { clean, keep_alive, props, id, will, user, pass } => {
                put_str(&mut b, "MQTT");
                b.push(5);
                let mut f = 0u8;
                if *clean {
                    f |= 2;
                }
                if let Some(w) = will {
                    f |= 4 | (w.qos << 3);
                    if w.retain {
                        f |= 32;
                    }
                }
                if pass.is_some() {
                    f |= 64;
                }
                if user.is_some() {
                    f |= 128;
                }
                b.push(f);
                b.extend_from_slice(&keep_alive.to_be_bytes());
                put_props(&mut b, props);
                put_str(&mut b, id);
                if let Some(w) = will {
                    put_props(&mut b, &w.props);
                    put_str(&mut b, &w.topic);
                    put_bin(&mut b, &w.payload);
                }
                if let Some(u) = user {
                    put_str(&mut b, u);
                }
                if let Some(p) = pass {
                    put_bin(&mut b, p);
                }
                0x10
            }
            Pkt::ConnAck { flags, code, props } => {
                b.push(*flags);
                b.push(*code);
                put_props(&mut b, props);
                0x20
            }
            Pkt::Publish { dup, qos, retain, topic, pid, props, payload } => {
                put_str(&mut b, topic);
                if let Some(p) = pid {
                    b.extend_from_slice(&p.to_be_bytes());
                }
                put_props(&mut b, props);
                b.extend_from_slice(payload);
                0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8
            }
            Pkt::Ack { ty, pid, code, props } => {
                b.extend_from_slice(&pid.to_be_bytes());
                b.push(*code);
                put_props(&mut b, props);
                ty << 4 | if *ty == 6 { 2 } else { 0 }
            }
            Pkt::Subscribe { pid, props, filters } => {
                b.extend_from_slice(&pid.to_be_bytes());
                put_props(&mut b, props);
                for (f, o) in filters {
                    put_str(&mut b, f);
                    b.push(*o);
                }
                0x82
            }
            Pkt::Codes { ty, pid, props, codes } => {
                b.extend_from_slice(&pid.to_be_bytes());
                put_props(&mut b, props);
                b.extend_from_slice(codes);
                ty << 4
            }
            Pkt::Unsubscribe { pid, props, filters } => {
                b.extend_from_slice(&pid.to_be_bytes());
                put_props(&mut b, props);
                for f in filters {
                    put_str(&mut b, f);
                }
                0xa2
            }
            Pkt::PingReq => 0xc0,
            Pkt::PingResp => 0xd0,
            Pkt::Disconnect { code, props } => {
                b.push(*code);
                put_props(&mut b, props);
                0xe0
            }
            Pkt::Auth { code, props } => {
                b.push(*code);
                put_props(&mut b, props);
                0xf0
            }
        };
        frame(b0, &b)
    }
    /// canonical form: properties sorted (order of different properties carries no meaning;
    /// repeated ones keep their relative order)
    pub fn norm(mut self) -> Pkt {
        match &mut self {
            Pkt::Connect { props, will, .. } => {
                props.sort_by_key(|p| p.0);
                if let Some(w) = will {
                    w.props.sort_by_key(|p| p.0);
                }
            }
            Pkt::ConnAck { props, .. }
            | Pkt::Publish { props, .. }
            | Pkt::Ack { props, .. }
            | Pkt::Subscribe { props, .. }
            | Pkt::Codes { props, .. }
            | Pkt::Unsubscribe { props, .. }
            | Pkt::Disconnect { props, .. }
            | Pkt::Auth { props, .. } => props.sort_by_key(|p| p.0),
            _ => (),
        }
        self
    }
}

pub struct Rd<'a> {
    b: &'a [u8],
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b }
    }
    pub fn left(&self) -> usize {
        self.b.len()
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() < n {
            return Err(format!("field of {} bytes runs past the packet ({} left)", n, self.b.len()));
        }
        let (a, r) = self.b.split_at(n);
        self.b = r;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        let t = self.take(2)?;
        Ok(u16::from_be_bytes([t[0], t[1]]))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        let t = self.take(4)?;
        Ok(u32::from_be_bytes([t[0], t[1], t[2], t[3]]))
    }
    pub fn var(&mut self) -> Result<u32, String> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 127) as u32) << (7 * i);
            if b & 128 == 0 {
                if i > 0 && b == 0 {
                    return Err("overlong variable byte integer".into());
                }
                return Ok(v);
            }
        }
        Err("variable byte integer longer than 4 bytes".into())
    }
    pub fn bin(&mut self) -> Result<Vec<u8>, String> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn str(&mut self) -> Result<String, String> {
        String::from_utf8(self.bin()?).map_err(|_| "bad utf-8".to_string())
    }
    pub fn props(&mut self) -> Result<Props, String> {
        let n = self.var()? as usize;
        let mut r = Rd::new(self.take(n)?);
        let mut out = Vec::new();
        while r.left() > 0 {
            let id = r.u8()?;
            let v = match id {
                0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => PVal::Byte(r.u8()?),
                0x13 | 0x21 | 0x22 | 0x23 => PVal::U16(r.u16()?),
                0x02 | 0x11 | 0x18 | 0x27 => PVal::U32(r.u32()?),
                0x0b => PVal::Var(r.var()?),
                0x03 | 0x08 | 0x12 | 0x15 | 0x1a | 0x1c | 0x1f | 0x26 => PVal::Str(r.str()?),
                0x09 | 0x16 => PVal::Bin(r.bin()?),
                _ => return Err(format!("unknown property 0x{:02x}", id)),
            };
            out.push((id, v));
        }
        Ok(out)
    }
}

/// Ok(None): more bytes needed.
pub fn decode(buf: &[u8]) -> Result<Option<(Pkt, usize)>, String> {
    if buf.len() < 2 {
        return Ok(None);
    }
    let b0 = buf[0];
    let mut len = 0usize;
    let mut i = 1;
    loop {
        if i > 4 {
            return Err("bad remaining length".into());
        }
        let Some(b) = buf.get(i) else { return Ok(None) };
        len |= ((b & 127) as usize) << (7 * (i - 1));
        i += 1;
        if b & 128 == 0 {
            if i > 2 && *b == 0 {
                return Err("overlong remaining length".into());
            }
            break;
        }
    }
    if buf.len() < i + len {
        return Ok(None);
    }
    let mut r = Rd::new(&buf[i..i + len]);
    let ty = b0 >> 4;
    let fl = b0 & 15;
    let need = |want: u8| -> Result<(), String> {
        if fl != want {
            Err(format!("bad fixed header flags 0x{:02x}", b0))
        } else {
            Ok(())
        }
    };
    let p = match ty {
        1 => {
            need(0)?;
            if r.str()? != "MQTT" || r.u8()? != 5 {
                return Err("bad protocol".into());
            }
            let f = r.u8()?;
            let keep_alive = r.u16()?;
            let props = r.props()?;
            let id = r.str()?;
            let will = if f & 4 != 0 {
                Some(WillSpec {
                    qos: (f >> 3) & 3,
                    retain: f & 32 != 0,
                    props: r.props()?,
                    topic: r.str()?,
                    payload: r.bin()?,
                })
            } else {
                None
            };
            let user = if f & 128 != 0 { Some(r.str()?) } else { None };
            let pass = if f & 64 != 0 { Some(r.bin()?) } else { None };
            Pkt::Connect { clean: f & 2 != 0, keep_alive, props, id, will, user, pass }
        }
        2 => {
            need(0)?;
            Pkt::ConnAck { flags: r.u8()?, code: r.u8()?, props: r.props()? }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            if qos == 3 {
                return Err("qos 3".into());
            }
            let topic = r.str()?;
            let pid = if qos > 0 { Some(r.u16()?) } else { None };
            let props = r.props()?;
            let n = r.left();
            Pkt::Publish { dup: fl & 8 != 0, qos, retain: fl & 1 != 0, topic, pid, props, payload: r.take(n)?.to_vec() }
        }
        4..=7 => {
            need(if ty == 6 { 2 } else { 0 })?;
            Pkt::Ack { ty, pid: r.u16()?, code: r.u8()?, props: r.props()? }
        }
        8 => {
            need(2)?;
            let pid = r.u16()?;
            let props = r.props()?;
            let mut filters = Vec::new();
            while r.left() > 0 {
                filters.push((r.str()?, r.u8()?));
            }
            Pkt::Subscribe { pid, props, filters }
        }
        9 | 11 => {
            need(0)?;
            let pid = r.u16()?;
            let props = r.props()?;
            let n = r.left();
            Pkt::Codes { ty, pid, props, codes: r.take(n)?.to_vec() }
        }
        10 => {
            need(2)?;
            let pid = r.u16()?;
            let props = r.props()?;
            let mut filters = Vec::new();
            while r.left() > 0 {
                filters.push(r.str()?);
            }
            Pkt::Unsubscribe { pid, props, filters }
        }
        12 => {
            need(0)?;
            Pkt::PingReq
        }
        13 => {
            need(0)?;
            Pkt::PingResp
        }
        14 => {
            need(0)?;
            Pkt::Disconnect { code: r.u8()?, props: r.props()? }
        }
        15 => {
            need(0)?;
            Pkt::Auth { code: r.u8()?, props: r.props()? }
        }
        _ => return Err("reserved packet type".into()),
    };
    if r.left() > 0 {
        return Err(format!("{} bytes left over in packet type {}", r.left(), ty));
    }
    Ok(Some((p, i + len)))
}

/// MQTT 5 section 4.7: does `filter` match `topic`?
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('#') || filter.starts_with('+')) {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i < f.len() && f[i] == "#" {
            return true;
        }
        if i == f.len() && i == t.len() {
            return true;
        }
        if i == f.len() {
            return false;
        }
        if i == t.len() {
            return false;
        }
        if f[i] != "+" && f[i] != t[i] {
            return false;
        }
        i += 1;
    }
}
