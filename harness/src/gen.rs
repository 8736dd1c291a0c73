//! Seeded scenario generator. A profile (one per property) only shifts weights;
//! every operation kind can appear under most profiles.
use crate::codec::{frame, put_bin, put_str, PVal, Pkt, Props, WillSpec};
use crate::scen::*;
use simrt::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum A {
    Conn,
    Anon,
    Takeover,
    Race,
    Sub,
    SubOdd,
    Pub,
    Burst,
    Flood,
    Close,
    Stall,
    Unstall,
    Hold,
    Refuse,
    Malformed,
    Unsup,
    Incomplete,
    Announce,
    Oversize,
    Boundary,
    SmallClient,
    AcceptErr,
    Tamper,
    BadHs,
    Idle,
    Late,
    Trickle,
    Pause,
    List,
    Restart,
    Table,
    SoftBarrier,
    NotConnect,
    Deep,
    SubPubRace,
    Wait,
    ManySubs,
    AckLimit,
    Crowd,
    Deluge,
}
use A::*;

fn base() -> Vec<(A, u32)> {
    vec![
        (Conn, 10),
        (Anon, 2),
        (Takeover, 2),
        (Race, 1),
        (Sub, 12),
        (SubOdd, 2),
        (Pub, 16),
        (Burst, 4),
        (Flood, 0),
        (Close, 3),
        (Stall, 2),
        (Unstall, 2),
        (Hold, 1),
        (Refuse, 1),
        (Malformed, 1),
        (Unsup, 1),
        (Incomplete, 1),
        (Announce, 1),
        (Oversize, 1),
        (Boundary, 1),
        (SmallClient, 1),
        (AcceptErr, 1),
        (Tamper, 1),
        (BadHs, 1),
        (Idle, 1),
        (Late, 0),
        (Trickle, 0),
        (Pause, 0),
        (List, 1),
        (Restart, 0),
        (Table, 0),
        (SoftBarrier, 2),
        (NotConnect, 1),
        (Deep, 0),
        (SubPubRace, 2),
        (Wait, 1),
        (ManySubs, 0),
        (AckLimit, 0),
    ]
}

fn weights(p: &str) -> Vec<(A, u32)> {
    let over: &[(A, u32)] = match p {
        "B01" => &[(Burst, 10), (Pub, 24), (Close, 4), (Stall, 3), (Takeover, 2), (SubPubRace, 3), (Boundary, 2), (Wait, 3)],
        "B02" => &[(ManySubs, 1), (Takeover, 5), (Race, 3), (Refuse, 4), (Malformed, 3), (SubOdd, 6), (SubPubRace, 5), (Close, 5), (NotConnect, 3), (Restart, 2), (Oversize, 3), (Unsup, 3)],
        "B03" => &[(ManySubs, 1), (Sub, 24), (Pub, 30), (Deep, 1), (Takeover, 3), (Close, 4), (Conn, 6)],
        "B04" => &[(Burst, 14), (Sub, 14), (Stall, 4), (Unstall, 4), (Hold, 3), (Wait, 3)],
        "B05" => &[(ManySubs, 1), (AckLimit, 1), (Sub, 14), (SubOdd, 16), (SubPubRace, 8), (Takeover, 3), (Burst, 3)],
        "B06" => &[(Sub, 26), (Pub, 26), (SubPubRace, 5), (Takeover, 2)],
        "B07" => &[(Conn, 20), (Anon, 8), (Refuse, 4), (NotConnect, 6), (Takeover, 4), (SubPubRace, 6), (Race, 3), (SmallClient, 4)],
        "B08" => &[(List, 4), (Refuse, 24), (Conn, 12), (Takeover, 3)],
        "B09" => &[(Idle, 16), (Late, 12), (Trickle, 8), (BadHs, 8), (Wait, 8), (Incomplete, 4), (Pub, 6), (Sub, 5), (Restart, 1), (Pause, 1)],
        "B10" => &[(Anon, 30), (Conn, 5), (Close, 5), (Restart, 1)],
        "B11" => &[(ManySubs, 1), (List, 3), (Takeover, 20), (Race, 12), (Stall, 4), (Close, 5), (Hold, 3), (Burst, 5), (SubPubRace, 3), (Wait, 3)],
        "B12" => &[(ManySubs, 3), (Close, 18), (Takeover, 14), (SubPubRace, 6), (Sub, 18), (Malformed, 3), (Unsup, 3), (Stall, 4), (Burst, 4)],
        "B13" => &[(List, 12), (Close, 12), (Takeover, 10), (Race, 6), (Refuse, 6), (Idle, 4), (Anon, 5), (BadHs, 3), (Restart, 1), (SmallClient, 3), (Late, 2), (NotConnect, 3)],
        "B14" => &[
            (AckLimit, 1), (Close, 10), (Stall, 8), (Hold, 5), (Malformed, 8), (Unsup, 8), (Oversize, 5), (Tamper, 6), (BadHs, 6), (AcceptErr, 8), (Flood, 2),
            (Refuse, 5), (NotConnect, 4), (Takeover, 5), (Race, 3), (Idle, 4), (Deep, 1), (SmallClient, 4), (Incomplete, 4), (Pause, 1), (Restart, 1),
        ],
        "B15" => &[(Unsup, 26), (Conn, 14), (Takeover, 2), (Burst, 4)],
        "B16" => &[(Oversize, 20), (Boundary, 18), (Conn, 14), (SmallClient, 2)],
        "B17" => &[(AckLimit, 6), (SmallClient, 18), (Boundary, 16), (Burst, 6), (Pub, 16), (Oversize, 2)],
        "B18" => &[(Restart, 9), (Idle, 4), (BadHs, 4), (Stall, 4), (Takeover, 3), (Race, 2), (Burst, 6), (Late, 1), (Conn, 14), (Anon, 4), (Hold, 2), (AcceptErr, 1)],
        "B19" => &[(Takeover, 8), (Race, 3), (Pub, 24), (Burst, 6), (Close, 4)],
        "B21" => &[(Tamper, 20), (BadHs, 16), (Conn, 14), (Pub, 14), (Malformed, 2), (Oversize, 2), (Takeover, 3)],
        "B22" => &[(Table, 30), (Conn, 2), (Sub, 3), (Pub, 3), (Close, 1)],
        "B23" => &[(Burst, 18), (Flood, 4), (Sub, 12), (SubOdd, 4), (Stall, 3), (Conn, 12), (Pause, 1)],
        "B24" => &[(Malformed, 26), (Conn, 14), (NotConnect, 3), (Incomplete, 3)],
        "B25" => &[(Anon, 4), (Takeover, 4), (Race, 2), (BadHs, 2), (Unsup, 2), (AcceptErr, 2), (SubPubRace, 4), (Close, 5), (SmallClient, 2), (Boundary, 1)],
        "B26" => &[(Anon, 4), (Takeover, 4), (Race, 2), (BadHs, 2), (Unsup, 2), (AcceptErr, 1), (SubPubRace, 4), (Close, 5), (SmallClient, 2), (Pub, 20), (Burst, 1)],
        "B27" => &[(Announce, 30), (BadHs, 6), (Tamper, 6), (Malformed, 8), (Oversize, 8), (Boundary, 3), (Conn, 14), (Incomplete, 3), (NotConnect, 4)],
        "S01" => &[(Wait, 8), (Idle, 3), (BadHs, 3), (Boundary, 6), (Oversize, 4), (Pause, 1), (Close, 5)],
        _ => &[],
    };
    // some profiles work better when everything else is quiet
    let focus = matches!(p, "B03" | "B05" | "B06" | "B10" | "B19" | "B22" | "B04" | "B23" | "B09");
    let mut b = base();
    if focus {
        for x in b.iter_mut() {
            if !matches!(x.0, Conn | Sub | Pub | SoftBarrier) {
                x.1 = x.1.min(1);
            }
        }
    }
    for (a, w) in over {
        for x in b.iter_mut() {
            if x.0 == *a {
                x.1 = *w;
            }
        }
    }
    b
}

#[derive(Clone)]
struct GC {
    c: u32,
    noise: bool,
    id: String,
    dead: bool,
    stalled: bool,
    wait: bool,
    lim: usize,
}

struct G {
    r: Rng,
    ops: Vec<OpT>,
    cfg: Cfg,
    prop: String,
    conns: Vec<GC>,
    next_c: u32,
    next_m: u32,
    next_pid: u16,
    ids: Vec<String>,
    topics: Vec<String>,
    filters: Vec<String>,
    rawc: u32,
    budget: i64,
    table_used: bool,
}

const LEVELS: &[&str] = &["a", "b", "c", "", "é", "x y", "$s", "A", "ab"];

fn gen_topic(r: &mut Rng, rich: bool) -> String {
    let n = if rich { r.range(1, 4) } else { r.range(1, 3) };
    let set: &[&str] = if rich { LEVELS } else { &["a", "b", "c", "d"] };
    let mut v: Vec<&str> = (0..n).map(|_| *r.pick(set)).collect();
    if rich && r.chance(80) {
        v[0] = "$SYS";
    }
    let s = v.join("/");
    if s.is_empty() {
        return "a".into();
    }
    if rich && r.chance(40) {
        // levels that look alike
        let k = *r.pick(&[1, 15, 31, 32, 63, 64, 127, 128, 255, 256, 1000]);
        let e = *r.pick(&["x", "X", "y", "yx", " ", "x ", "\u{e9}", "e\u{301}", ""]);
        return format!("{}/{}{}", s, "l".repeat(k), e);
    }
    s
}
fn gen_filter(r: &mut Rng, topics: &[String]) -> String {
    let t = r.pick(topics).clone();
    let mut v: Vec<String> = t.split('/').map(|s| s.to_string()).collect();
    match r.below(10) {
        0..=2 => (),
        3..=5 => {
            let k = r.below(v.len() as u64) as usize;
            v[k] = "+".into();
            if r.chance(300) {
                let k = r.below(v.len() as u64) as usize;
                v[k] = "+".into();
            }
        }
        6..=7 => {
            let k = r.below(v.len() as u64 + 1) as usize;
            v.truncate(k);
            v.push("#".into());
            if v.len() > 1 && r.chance(300) {
                v[0] = "+".into();
            }
        }
        8 => {
            v = vec![if r.chance(700) { "#".into() } else { "+".into() }];
        }
        _ => {
            if r.chance(500) {
                v.push(r.pick(&["+", "#", ""]).to_string());
            } else {
                v.pop();
                if v.is_empty() {
                    v.push("+".into());
                }
            }
        }
    }
    let s = v.join("/");
    if s.is_empty() {
        "+".into()
    } else {
        s
    }
}

fn gen_str(r: &mut Rng, max: u64) -> String {
    let n = r.range(0, max);
    (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '9', ' ', 'é', '€', '𝄞', '/', '+', '#'])).collect()
}
fn gen_bin(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = r.range(0, max);
    (0..n).map(|_| r.next() as u8).collect()
}
pub fn pub_props(r: &mut Rng) -> Props {
    let mut p: Props = vec![];
    if r.chance(700) {
        return p;
    }
    if r.chance(400) {
        p.push((0x01, PVal::Byte(r.below(2) as u8)));
    }
    if r.chance(400) {
        p.push((0x08, PVal::Str(format!("r{}", gen_str(r, 8).replace(['+', '#'], "x")))));
    }
    if r.chance(400) {
        p.push((0x09, PVal::Bin(gen_bin(r, 20))));
    }
    if r.chance(400) {
        p.push((0x03, PVal::Str(gen_str(r, 10))));
    }
    let n = if r.chance(40) { r.range(4, 40) } else { r.below(4) };
    for _ in 0..n {
        p.push((0x26, PVal::Str(gen_str(r, 12))));
    }
    if r.chance(50) && !p.is_empty() {
        // a long one
        let k = r.below(p.len() as u64) as usize;
        let n = *r.pick(&[127, 128, 255, 256, 300, 1000, 5000]);
        match &mut p[k].1 {
            PVal::Str(s) => *s = format!("l{}", "x".repeat(n - 1)),
            PVal::Bin(b) => *b = (0..n).map(|k| k as u8).collect(),
            _ => (),
        }
    }
    shuffle(r, &mut p);
    p
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

fn conn_props(r: &mut Rng) -> Props {
    let mut p: Props = vec![];
    if r.chance(650) {
        return p;
    }
    if r.chance(400) {
        let x = r.next() as u32;
        p.push((0x11, PVal::U32(*r.pick(&[0, 1, 77, u32::MAX, x, x >> 10, x >> 20]))));
    }
    if r.chance(400) {
        let x = r.range(1, 65535) as u16;
        p.push((0x21, PVal::U16(*r.pick(&[1, 2, 100, 65535, x]))));
    }
    if r.chance(300) {
        let x = r.next() as u16;
        p.push((0x22, PVal::U16(*r.pick(&[0, 1, 9, 65535, x]))));
    }
    if r.chance(300) {
        p.push((0x19, PVal::Byte(r.below(2) as u8)));
    }
    if r.chance(300) {
        p.push((0x17, PVal::Byte(r.below(2) as u8)));
    }
    let n = if r.chance(50) { r.range(3, 30) } else { r.below(3) };
    for _ in 0..n {
        p.push((0x26, PVal::Str(gen_str(r, 12))));
    }
    shuffle(r, &mut p);
    p
}

/// a complete packet (or a prefix that is already beyond repair) that MQTT 5 calls malformed
pub fn malformed(r: &mut Rng, first: bool) -> (Vec<u8>, String) {
    if r.chance(350) {
        // a valid packet, damaged until MQTT 5 calls the result malformed
        for _ in 0..40 {
            let p = crate::codecsim::valid(r).encode();
            if p.len() > 150 {
                continue;
            }
            let b = crate::codecsim::mutate(r, &p);
            if b.len() > 200 || b.len() < 2 || crate::codecsim::frame_end(&b) != Some(b.len()) {
                continue;
            }
            if let crate::strict::Class::Malformed(why) = crate::strict::classify(&b) {
                return (b, format!("mutated: {}", why));
            }
        }
    }
    let k = if first && r.chance(400) { 100 + r.below(10) } else { r.below(45) };
    malformed_k(r, k)
}

/// the `k`th kind of malformed packet: 0..45 for any moment, 100..110 for CONNECT packets
pub fn malformed_k(r: &mut Rng, k: u64) -> (Vec<u8>, String) {
    let t = "a/b";
    let publish = |flags: u8, topic: &[u8], props: &[u8], tail: &[u8]| {
        let mut b = vec![];
        put_bin(&mut b, topic);
        b.extend_from_slice(props);
        b.extend_from_slice(tail);
        frame(0x30 | flags, &b)
    };
    let sub = |opts: u8, filter: &str, props: &[u8]| {
        let mut b = vec![0, 9];
        b.extend_from_slice(props);
        put_str(&mut b, filter);
        b.push(opts);
        frame(0x82, &b)
    };
    let connect = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut b = vec![];
        put_str(&mut b, "MQTT");
        b.push(5);
        b.push(2);
        b.extend_from_slice(&[0, 60, 0]);
        put_str(&mut b, "mal");
        f(&mut b);
        frame(0x10, &b)
    };
    let (b, s): (Vec<u8>, &str) = match k {
        0 => (vec![0, 0], "reserved packet type 0"),
        1 => (publish(6, t.as_bytes(), &[0, 1, 0], b"x"), "PUBLISH with QoS 3"),
        2 => {
            let mut b = sub(0x20, "a/#", &[0]);
            b[0] = 0x80 | *r.pick(&[0, 1, 3, 10]);
            (b, "SUBSCRIBE with wrong flags")
        }
        3 => {
            let mut b = Pkt::Unsubscribe { pid: 3, props: vec![], filters: vec!["a".into()] }.encode();
            b[0] = 0xa0;
            (b, "UNSUBSCRIBE with wrong flags")
        }
        4 => (vec![0xc0 | r.range(1, 15) as u8, 0], "PINGREQ with flags"),
        5 => {
            let mut b = Pkt::Disconnect { code: 0, props: vec![] }.encode();
            b[0] |= 1 + r.below(15) as u8;
            (b, "DISCONNECT with flags")
        }
        6 => {
            let mut b = Pkt::Ack { ty: 6, pid: 1, code: 0, props: vec![] }.encode();
            b[0] = 0x60;
            (b, "PUBREL with wrong flags")
        }
        7 => {
            let mut b = Pkt::Ack { ty: 4, pid: 1, code: 0, props: vec![] }.encode();
            b[0] = 0x42;
            (b, "PUBACK with wrong flags")
        }
        8 => (vec![0x30, 0x80, 0x80, 0x80, 0x80, 0x01], "remaining length of five bytes"),
        9 => (vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f], "remaining length of five bytes"),
        10 => (vec![0xc0, 0x80, 0x00], "remaining length not minimal"),
        11 => {
            let b = publish(0, t.as_bytes(), &[0], b"hello");
            let mut v = vec![b[0], b[1] | 0x80, 0];
            v.extend_from_slice(&b[2..]);
            (v, "remaining length not minimal")
        }
        12 => (publish(0, &[b'a', 0xff], &[0], b"x"), "topic not UTF-8"),
        13 => (publish(0, &[0xed, 0xa0, 0x80], &[0], b"x"), "topic with a surrogate"),
        14 => (publish(0, &[b'a', 0, b'b'], &[0], b"x"), "topic with NUL"),
        15 => (publish(0, &[0xc0, 0xaf], &[0], b"x"), "topic with overlong UTF-8"),
        16 => (publish(0, r.pick(&["a/+", "+", "+/a", "a/+/b", "+a", "a+", "a/b+c/d", "/+", "+/"]).as_bytes(), &[0], b"x"), "PUBLISH topic with '+'"),
        17 => (publish(0, r.pick(&["a/#", "#", "#/a", "a/#/b", "#a", "a#", "a/b#c/d", "/#", "#/"]).as_bytes(), &[0], b"x"), "PUBLISH topic with '#'"),
        18 => (publish(0, t.as_bytes(), &[2, 0x7e, 1], b"x"), "unknown property"),
        19 => (publish(0, t.as_bytes(), &[2, 0x24, 1], b"x"), "property of another packet type"),
        20 => (publish(0, t.as_bytes(), &[5, 0x11, 0, 0, 0, 1], b"x"), "property of another packet type"),
        21 => (sub(0x20, "a/#", &[2, 0x01, 1]), "property of another packet type"),
        22 => (publish(0, t.as_bytes(), &[4, 0x01, 1, 0x01, 1], b"x"), "repeated property"),
        23 => (publish(0, t.as_bytes(), &[8, 0x03, 0, 1, b'a', 0x03, 0, 1, b'b'], b"x"), "repeated property"),
        24 => (publish(0, t.as_bytes(), &[50, 0x01, 1], b"x"), "property length past the packet"),
        25 => (publish(0, t.as_bytes(), &[0x80, 0x80, 0x80, 0x80, 0x01], b"x"), "property length of five bytes"),
        26 => (publish(0, t.as_bytes(), &[0x82, 0x00, 0x01, 0x01], b"x"), "property length not minimal"),
        27 => (publish(0, t.as_bytes(), &[4, 0x03, 0, 9, b'a'], b"xyzxyzxyz"), "property string past the properties"),
        28 => (publish(0, t.as_bytes(), &[1, 0x01], b"\x01x"), "property value past the properties"),
        29 => (sub(0x20 | *r.pick(&[0x40, 0x80, 0xc0]), "a/#", &[0]), "SUBSCRIBE with reserved option bits"),
        30 => (sub(0x23, "a/#", &[0]), "SUBSCRIBE with QoS 3"),
        31 => (sub(0x30, "a/#", &[0]), "SUBSCRIBE with retain handling 3"),
        32 => (frame(0x82, &[0, 9, 0]), "SUBSCRIBE without a filter"),
        33 => {
            let mut b = vec![0, 9, 0];
            put_str(&mut b, "a/#");
            (frame(0x82, &b), "SUBSCRIBE without options")
        }
        34 => (sub(0x20, *r.pick(&["a#", "a/#/b", "+a", "a/b+", "#/a", "a/##", "+b/c", "a/+b/c", "a/#b", "a/++", "a+/b", "a/b#/c", "##", "++"]), &[0]), "illegal topic filter"),
        35 => (frame(0xc0, &[0]), "PINGREQ with a body"),
        36 => {
            let ty = *r.pick(&[4u8, 5, 6, 7]);
            let b = Pkt::Ack { ty, pid: 1, code: 0, props: vec![] }.encode();
            let mut body = b[2..].to_vec();
            body.extend_from_slice(&[0, 7]);
            (frame(b[0], &body), "acknowledgement with trailing bytes")
        }
        37 => (frame(0xe0, &[0, 0, 9, 9]), "DISCONNECT with trailing bytes"),
        38 => (frame(0x30, &[0, 16, b'a']), "topic longer than the packet"),
        39 => (frame(0x30, &[0]), "PUBLISH cut inside the topic length"),
        40 => (frame(0x30, &[]), "empty PUBLISH"),
        41 => (frame(0x82, &[0]), "SUBSCRIBE cut inside the packet identifier"),
        42 => {
            let mut b = vec![0, 9, 0];
            put_str(&mut b, "a/#");
            b.push(0x20);
            b.extend_from_slice(&[0, 5, b'b']);
            (frame(0x82, &b), "SUBSCRIBE with a filter longer than the packet")
        }
        43 => {
            let mut b = vec![0, 9, 0];
            put_str(&mut b, "a/b");
            b.push(0);
            (frame(0xa2, &b), "UNSUBSCRIBE with a trailing byte")
        }
        44 => (frame(0xa2, &[0, 9, 0]), "UNSUBSCRIBE without a filter"),
        100 => (connect(&|b| b[4] = b'X'), "wrong protocol name"),
        101 => (connect(&|b| b[6] = 4), "protocol version 4"),
        102 => (connect(&|b| b[7] |= 1), "reserved CONNECT flag"),
        103 => (connect(&|b| b[7] |= 8), "will QoS without a will"),
        104 => (connect(&|b| b[7] |= 32), "will retain without a will"),
        105 => (
            connect(&|b| {
                b[7] |= 4 | 24;
                b.extend_from_slice(&[0, 0, 1, b'w', 0, 1, b'x'])
            }),
            "will QoS 3",
        ),
        106 => (connect(&|b| b.push(0)), "CONNECT with a trailing byte"),
        107 => (connect(&|b| b[7] |= 128), "CONNECT without its user name"),
        108 => {
            let mut b = vec![];
            put_str(&mut b, "MQTT");
            b.extend_from_slice(&[5, 2, 0, 60, 10, 0x11, 0, 0, 0, 1, 0x11, 0, 0, 0, 1]);
            put_str(&mut b, "mal");
            (frame(0x10, &b), "repeated CONNECT property")
        }
        _ => (frame(0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2]), "CONNECT cut short"),
    };
    (b, s.to_string())
}

/// a valid packet the broker does not support
pub fn unsupported(r: &mut Rng) -> (Vec<u8>, String) {
    let rs = |r: &mut Rng| -> Props {
        let mut p = vec![];
        if r.chance(200) {
            p.push((0x1f, PVal::Str("why".into())));
        }
        if r.chance(200) {
            p.push((0x26, PVal::Str("up".into())));
        }
        p
    };
    let p = match r.below(13) {
        0 => Pkt::Ack { ty: 4, pid: 7, code: *r.pick(&[0, 0x10, 0x80, 0x97]), props: rs(r) },
        1 => Pkt::Ack { ty: 5, pid: 7, code: 0, props: rs(r) },
        2 => Pkt::Ack { ty: 6, pid: 7, code: 0, props: rs(r) },
        3 => Pkt::Ack { ty: 7, pid: 7, code: *r.pick(&[0, 0x92]), props: rs(r) },
        4 | 5 => Pkt::Unsubscribe { pid: 7, props: vec![], filters: vec!["#".into(), "a/+".into()] },
        6 => Pkt::PingReq,
        7 => Pkt::PingResp,
        8 => Pkt::Disconnect { code: *r.pick(&[0, 4, 0x81]), props: rs(r) },
        9 => Pkt::Auth { code: 0x18, props: vec![(0x15, PVal::Str("m".into()))] },
        10 => Pkt::ConnAck { flags: 0, code: 0, props: vec![] },
        11 => Pkt::Codes { ty: 9, pid: 7, props: rs(r), codes: vec![0] },
        _ => Pkt::Codes { ty: 11, pid: 7, props: rs(r), codes: vec![0] },
    };
    let s = format!("{:?}", p);
    (p.encode(), s.chars().take(60).collect())
}

impl G {
    fn push(&mut self, op: Op) {
        let r = &mut self.r;
        let dt = match r.below(100) {
            0..=44 => 0,
            45..=74 => r.below(120),
            75..=93 => r.below(4000),
            _ => r.below(60_000),
        };
        self.ops.push(OpT { dt, op });
        self.budget -= 1;
    }
    fn push_at(&mut self, dt: u64, op: Op) {
        self.ops.push(OpT { dt, op });
        self.budget -= 1;
    }
    fn is_noise(&mut self) -> bool {
        if self.cfg.noise && self.cfg.mqtt {
            self.r.chance(450)
        } else {
            self.cfg.noise
        }
    }
    fn fresh_id(&mut self) -> String {
        let used: Vec<&String> = self.conns.iter().map(|c| &c.id).collect();
        let free: Vec<String> = self.ids.iter().filter(|i| !used.contains(i)).cloned().collect();
        if !free.is_empty() && self.r.chance(900) {
            return self.r.pick(&free).clone();
        }
        let s = format!("n{}", self.next_c);
        s
    }
    fn spec(&mut self, id: String) -> ConnSpec {
        let mut s = ConnSpec {
            id,
            clean: true,
            keep_alive: if self.r.chance(700) { *self.r.pick(&[0, 1, 60, 65535]) } else { self.r.next() as u16 },
            props: conn_props(&mut self.r),
            user: None,
            pass: None,
            will: None,
        };
        // it has to fit, with a little more to come
        while !s.props.is_empty() && s.pkt().encode().len() + 40 > self.cfg.max_packet as usize {
            s.props.pop();
        }
        s
    }
    fn open(&mut self, noise: bool, wait: bool, bad: u8) -> u32 {
        let c = self.next_c;
        self.next_c += 1;
        self.push(Op::Open { c, noise, wait, bad });
        c
    }
    fn conn_as(&mut self, id: String, extra: Props) -> u32 {
        let noise = self.is_noise();
        let wait = self.r.chance(600);
        let c = self.open(noise, wait, 0);
        let mut spec = self.spec(id.clone());
        let mut lim = self.cfg.max_packet as usize;
        for e in extra {
            if let (0x27, PVal::U32(x)) = (&e.0, &e.1) {
                lim = lim.min(*x as usize);
            }
            spec.props.push(e);
        }
        self.push(Op::Connect { c, spec });
        self.conns.push(GC { c, noise, id, dead: false, stalled: false, wait, lim });
        c
    }
    fn live(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.conns.len()).filter(|&i| !self.conns[i].dead).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn ensure(&mut self) -> usize {
        match self.live() {
            Some(i) => i,
            None => {
                let id = self.fresh_id();
                self.conn_as(id, vec![]);
                self.conns.len() - 1
            }
        }
    }
    fn opts(&mut self) -> u8 {
        let mut o = 0x20;
        if self.r.chance(if self.prop == "B06" { 450 } else { 200 }) {
            o |= 4;
        }
        if self.r.chance(150) {
            o |= 8;
        }
        o
    }
    fn sub(&mut self, i: usize, odd: bool) {
        let n = if self.r.chance(600) { 1 } else { self.r.range(1, 4) };
        let mut f = vec![];
        for _ in 0..n {
            let flt = if self.r.chance(750) { self.r.pick(&self.filters).clone() } else { gen_filter(&mut self.r, &self.topics) };
            let mut o = self.opts();
            if odd && self.r.chance(600) {
                o = match self.r.chance(500) {
                    true => *self.r.pick(&[0x00, 0x10, 0x21, 0x22, 0x01, 0x02, 0x12, 0x24, 0x04, 0x29, 0x25, 0x08]),
                    // any that are well-formed
                    false => (self.r.below(3) + 4 * self.r.below(4) + 16 * self.r.below(3)) as u8,
                };
            }
            f.push((flt, o));
        }
        if odd && self.r.chance(150) {
            let d = f[0].clone();
            f.push(d);
        }
        let pid = if self.r.chance(900) {
            self.next_pid = self.next_pid % 65535 + 1;
            self.next_pid
        } else {
            *self.r.pick(&[1, 255, 256, 65535])
        };
        let mut props = vec![];
        if self.r.chance(60) {
            props.push((0x26, PVal::Str("s".into())));
        }
        let c = self.conns[i].c;
        self.push(Op::Sub { c, pid, filters: f, props });
    }
    fn topic(&mut self) -> String {
        if self.r.chance(900) {
            self.r.pick(&self.topics).clone()
        } else {
            let rich = self.r.chance(500);
            gen_topic(&mut self.r, rich)
        }
    }
    fn publ(&mut self, i: usize, size: u32) {
        let m = self.next_m;
        self.next_m += 1;
        let mut topic = self.topic();
        let empty = size == 0 && self.r.chance(60);
        if empty {
            topic = format!("{}/e{}", topic, m);
        }
        let props = pub_props(&mut self.r);
        let size = if size == 0 && self.r.chance(120) {
            let hi = (self.cfg.max_packet as u64).min(if self.r.chance(100) { 70_000 } else { 3000 });
            self.r.range(30, hi) as u32
        } else {
            size
        };
        let size = size.min(self.cfg.max_packet);
        let c = self.conns[i].c;
        // the smallest form must fit the broker's limit
        let min = crate::world::pub_packet(m, &topic, &props, 0, 0, empty).encode().len();
        let props = if min > self.cfg.max_packet as usize { vec![] } else { props };
        self.push(Op::Pub { c, m, topic, props, size, flags: 0, empty });
    }
    fn raw(&mut self, c: u32, class: RawClass, bytes: Vec<u8>, why: String) {
        self.rawc += 1;
        self.push(Op::Raw { c, class, bytes, why });
    }
    fn after_noise(&mut self, i: usize) {
        // packets behind a fatal one, which must be ignored
        for _ in 0..self.r.below(3) {
            if self.r.chance(500) {
                self.sub(i, false)
            } else {
                self.publ(i, 0)
            }
        }
    }
    /// a connection that is certainly accepted
    fn settled(&mut self) -> usize {
        if self.r.chance(600) {
            let v: Vec<usize> = (0..self.conns.len()).filter(|&i| !self.conns[i].dead && self.conns[i].wait && !self.conns[i].stalled).collect();
            if !v.is_empty() {
                return *self.r.pick(&v);
            }
        }
        let id = self.fresh_id();
        self.conn_as(id, vec![]);
        let k = self.conns.len() - 1;
        if self.r.chance(500) {
            self.sub(k, false);
        }
        k
    }

    /// swarm: each run leaves some kinds of operation out entirely
    fn swarm(&mut self) -> Vec<(A, u32)> {
        weights(&self.prop.clone())
            .into_iter()
            .filter(|(a, w)| *w > 0 && (matches!(a, Conn | Sub | Pub) || *w >= 12 || self.r.chance(650)))
            .collect()
    }
    fn choose(&mut self, ws: &[(A, u32)]) -> A {
        let total: u64 = ws.iter().map(|x| x.1 as u64).sum();
        let mut x = self.r.below(total);
        for (k, w) in ws {
            if x < *w as u64 {
                return *k;
            }
            x -= *w as u64;
        }
        Pub
    }
    /// the same, or another, workload again and again, with nobody left in between
    fn cycles(&mut self) {
        let n = self.r.range(10, 32);
        let ws = self.swarm();
        let same = self.r.chance(700);
        let names = self.r.chance(750);
        let template = self.r.next();
        let (ids, topics, filters) = (self.ids.clone(), self.topics.clone(), self.filters.clone());
        let acts = self.r.range(2, 14);
        if self.r.chance(100) {
            return self.churn(&ws);
        }
        for k in 0..n {
            let keep = self.r.clone();
            if same {
                self.r = Rng::new(template);
            }
            if names {
                self.ids = ids.iter().map(|i| format!("{}~{}", i, k)).collect();
                self.topics = topics.iter().map(|t| format!("{:02}/{}", k, t)).collect();
                self.filters = filters.iter().map(|f| format!("{:02}/{}", k, f)).collect();
            }
            self.conns.clear();
            let from = self.next_c;
            for _ in 0..acts {
                let a = self.choose(&ws);
                self.act(a);
            }
            for c in from..self.next_c {
                if self.r.chance(600) {
                    let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                    self.push(Op::Close { c, how });
                }
            }
            if self.r.chance(500) {
                self.push(Op::Barrier { heal: true });
            }
            for c in from..self.next_c {
                self.push(Op::Close { c, how: How::Rst });
            }
            if same {
                self.r = keep;
                let _ = self.r.next();
            }
            if self.r.chance(60) {
                self.push(Op::Shutdown);
                self.push(Op::Start);
            }
            self.push(Op::Barrier { heal: true });
        }
    }

    /// clients that stay while the same things happen around them, and by them, again and again
    fn residents(&mut self) {
        let n = self.r.range(6, 16);
        let ws = self.swarm();
        let same = self.r.chance(500);
        let names = self.r.chance(600);
        let template = self.r.next();
        let acts = self.r.range(1, 10);
        for _ in 0..self.r.range(1, 3) {
            let a = if self.r.chance(800) { Conn } else { Anon };
            self.act(a);
        }
        let mut perm = vec![];
        for i in 0..self.conns.len() {
            for _ in 0..self.r.range(0, 3) {
                self.sub(i, false);
            }
        }
        for o in &self.ops {
            if let Op::Sub { c, filters, .. } = &o.op {
                perm.extend(filters.iter().map(|f| (*c, f.0.clone())));
            }
        }
        self.push(Op::Barrier { heal: true });
        let stay = std::mem::take(&mut self.conns);
        let (ids, topics, filters) = (self.ids.clone(), self.topics.clone(), self.filters.clone());
        for k in 0..n {
            let keep = self.r.clone();
            if same {
                self.r = Rng::new(template);
            }
            let far = names && self.r.chance(500);
            self.ids = ids.iter().map(|i| format!("{}~{}", i, if names { k } else { 0 })).collect();
            if far {
                self.topics = topics.iter().map(|t| format!("{:02}/{}", k, t)).collect();
                self.filters = filters.iter().map(|f| format!("{:02}/{}", k, f)).collect();
            } else {
                self.topics = topics.clone();
                self.filters = filters.clone();
            }
            self.conns.clear();
            let from = self.next_c;
            let own = self.r.below(101);
            for _ in 0..acts {
                if self.r.below(100) >= own {
                    let a = self.choose(&ws);
                    self.act(a);
                    continue;
                }
                // the residents themselves
                let away = std::mem::replace(&mut self.conns, stay.clone());
                let i = self.r.below(stay.len() as u64) as usize;
                match self.r.below(10) {
                    0..=3 => self.publ(i, 0),
                    4 | 5 => {
                        for _ in 0..self.r.range(2, 8) {
                            self.publ(i, 0)
                        }
                    }
                    6 => {
                        let (c, m, n) = (stay[i].c, self.next_m, self.r.range(10, 50) as u32);
                        self.next_m += n;
                        let topic = self.topic();
                        self.push(Op::PubMany { c, m, n, topic, size: 0 });
                    }
                    _ if !perm.is_empty() => {
                        for _ in 0..self.r.range(1, 12) {
                            let (c, f) = self.r.pick(&perm).clone();
                            let o = self.opts();
                            self.next_pid = self.next_pid % 65535 + 1;
                            self.push(Op::Sub { c, pid: self.next_pid, filters: vec![(f, o)], props: vec![] });
                        }
                    }
                    _ => (),
                }
                self.conns = away;
            }
            if self.r.chance(300) {
                self.push(Op::Barrier { heal: true });
            }
            for c in from..self.next_c {
                let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                self.push(Op::Close { c, how });
            }
            for c in from..self.next_c {
                self.push(Op::Close { c, how: How::Rst });
            }
            if same {
                self.r = keep;
                let _ = self.r.next();
            }
            self.push(Op::Barrier { heal: true });
        }
    }

    /// very many short connections
    fn churn(&mut self, ws: &[(A, u32)]) {
        let ws: Vec<(A, u32)> = ws.iter().filter(|(a, _)| matches!(a, Conn | Anon | Takeover | Refuse | BadHs | NotConnect | Sub | Malformed | Close)).cloned().collect();
        let ids = self.ids.clone();
        let mut first = self.next_c;
        for k in 0..self.r.range(4, 8) {
            for j in 0..self.r.range(60, 400) {
                self.ids = ids.iter().map(|i| format!("{}~{}~{}", i, k, j)).collect();
                self.conns.clear();
                let from = self.next_c;
                self.act(Conn);
                for _ in 0..self.r.below(3) {
                    let a = self.choose(&ws);
                    self.act(a);
                }
                for c in from..self.next_c {
                    let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                    self.push(Op::Close { c, how });
                }
            }
            self.push(Op::Barrier { heal: true });
            for c in std::mem::replace(&mut first, self.next_c)..self.next_c {
                self.push(Op::Close { c, how: How::Rst });
            }
            self.push(Op::Barrier { heal: true });
        }
    }

    fn act(&mut self, a: A) {
        match a {
            Conn => {
                if self.conns.iter().filter(|c| !c.dead).count() < 10 {
                    let id = self.fresh_id();
                    self.conn_as(id, vec![]);
                    if self.r.chance(500) {
                        let k = self.conns.len() - 1;
                        self.sub(k, false);
                    }
                }
            }
            Anon => {
                if self.conns.iter().filter(|c| !c.dead).count() < 14 {
                    let id = if self.r.chance(100) { format!("@+{}", self.r.range(1, 3)) } else { String::new() };
                    self.conn_as(id, vec![]);
                    if self.r.chance(500) {
                        let k = self.conns.len() - 1;
                        self.sub(k, false);
                    }
                }
            }
            Takeover => {
                let v: Vec<usize> = (0..self.conns.len()).filter(|&i| !self.conns[i].id.is_empty()).collect();
                if v.is_empty() {
                    return self.act(Conn);
                }
                let i = *self.r.pick(&v);
                let (id, oc, was_dead) = (self.conns[i].id.clone(), self.conns[i].c, self.conns[i].dead);
                if !was_dead {
                    match self.r.below(8) {
                        0 => self.push(Op::Stall { c: oc }),
                        1 => {
                            let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                            self.push(Op::Close { c: oc, how });
                        }
                        2 => {
                            // requests of the old session still on their way
                            for _ in 0..self.r.range(1, 4) {
                                if self.r.chance(500) {
                                    self.sub(i, false)
                                } else {
                                    self.publ(i, 0)
                                }
                            }
                        }
                        3 => self.push(Op::Barrier { heal: true }),
                        _ => (),
                    }
                }
                for c in self.conns.iter_mut() {
                    if c.id == id {
                        c.dead = true;
                    }
                }
                self.conn_as(id, vec![]);
                if self.r.chance(400) {
                    let k = self.conns.len() - 1;
                    self.sub(k, false);
                }
                if !was_dead && self.r.chance(200) {
                    let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                    self.push(Op::Close { c: oc, how });
                }
            }
            Race => {
                let id = if self.r.chance(500) {
                    self.fresh_id()
                } else {
                    let v: Vec<String> = self.conns.iter().filter(|c| !c.id.is_empty()).map(|c| c.id.clone()).collect();
                    if v.is_empty() {
                        self.fresh_id()
                    } else {
                        self.r.pick(&v).clone()
                    }
                };
                for c in self.conns.iter_mut() {
                    if c.id == id {
                        c.dead = true;
                    }
                }
                let n = self.r.range(2, 4);
                for _ in 0..n {
                    self.conn_as(id.clone(), vec![]);
                    let k = self.conns.len() - 1;
                    if self.r.chance(500) {
                        self.sub(k, false);
                    }
                }
            }
            Sub => {
                let i = self.ensure();
                self.sub(i, false)
            }
            SubOdd => {
                let i = self.ensure();
                self.sub(i, true)
            }
            Pub => {
                let i = self.ensure();
                self.publ(i, 0)
            }
            Burst => {
                let k = self.r.range(1, 3);
                let who: Vec<usize> = (0..k).map(|_| self.ensure()).collect();
                for _ in 0..self.r.range(3, 14) {
                    let i = *self.r.pick(&who);
                    self.publ(i, 0);
                }
            }
            Flood => {
                let k = self.r.range(1, 3);
                let who: Vec<usize> = (0..k).map(|_| self.ensure()).collect();
                let n = self.r.range(30, 150);
                let sz = if self.r.chance(500) { 0 } else { self.r.range(50, 2000) as u32 };
                for _ in 0..n {
                    let i = *self.r.pick(&who);
                    self.publ(i, sz);
                }
                self.budget += n as i64 * 3 / 4;
            }
            Close => {
                if let Some(i) = self.live() {
                    let c = self.conns[i].c;
                    match self.r.below(6) {
                        0 => self.sub(i, false),
                        1 => self.publ(i, 0),
                        2 if self.r.chance(300) => self.push(Op::Stall { c }),
                        _ => (),
                    }
                    self.conns[i].dead = true;
                    let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                    self.push(Op::Close { c, how });
                }
            }
            Stall => {
                if let Some(i) = self.live() {
                    self.conns[i].stalled = true;
                    let c = self.conns[i].c;
                    self.push(Op::Stall { c });
                }
            }
            Unstall => {
                let v: Vec<usize> = (0..self.conns.len()).filter(|&i| self.conns[i].stalled).collect();
                if !v.is_empty() {
                    let i = *self.r.pick(&v);
                    self.conns[i].stalled = false;
                    let c = self.conns[i].c;
                    self.push(Op::Unstall { c });
                }
            }
            Hold => {
                if let Some(i) = self.live() {
                    let c = self.conns[i].c;
                    let ms = *self.r.pick(&[0, 1, 20, 300]);
                    self.push(Op::Hold { c, ms });
                }
            }
            Refuse => {
                let id = match self.r.below(4) {
                    0 | 1 if !self.conns.is_empty() => {
                        let v: Vec<String> = self.conns.iter().map(|c| c.id.clone()).collect();
                        self.r.pick(&v).clone()
                    }
                    2 => String::new(),
                    _ => format!("r{}", self.next_c),
                };
                let noise = self.is_noise();
                let wait = self.r.chance(400);
                let c = self.open(noise, wait, 0);
                let mut s = self.spec(id);
                let k = if self.r.chance(600) { 1 << self.r.below(6) } else { self.r.range(1, 63) };
                if k & 1 != 0 {
                    s.user = Some(gen_str(&mut self.r, 8));
                }
                if k & 2 != 0 {
                    s.pass = Some(gen_str(&mut self.r, 5));
                }
                if k & 4 != 0 {
                    let mut p: Props = vec![];
                    if self.r.chance(300) {
                        p.push((0x18, PVal::U32(3)));
                    }
                    if self.r.chance(300) {
                        p.push((0x01, PVal::Byte(1)));
                    }
                    if self.r.chance(200) {
                        p.push((0x02, PVal::U32(9)));
                    }
                    if self.r.chance(200) {
                        p.push((0x03, PVal::Str("t".into())));
                    }
                    if self.r.chance(200) {
                        p.push((0x08, PVal::Str("r/t".into())));
                    }
                    if self.r.chance(200) {
                        p.push((0x26, PVal::Str("u".into())));
                    }
                    s.will = Some(WillSpec {
                        qos: self.r.below(3) as u8,
                        retain: self.r.chance(300),
                        props: p,
                        topic: self.topic(),
                        payload: gen_bin(&mut self.r, 6),
                    });
                }
                if k & 8 != 0 {
                    s.props.push((0x15, PVal::Str(gen_str(&mut self.r, 5))));
                }
                if k & 16 != 0 {
                    s.props.push((0x16, PVal::Bin(gen_bin(&mut self.r, 5))));
                }
                if k & 32 != 0 {
                    s.clean = false;
                }
                shuffle(&mut self.r, &mut s.props);
                self.push(Op::Connect { c, spec: s });
                let lim = self.cfg.max_packet as usize;
                self.conns.push(GC { c, noise, id: String::new(), dead: true, stalled: false, wait, lim });
                let k = self.conns.len() - 1;
                if !wait {
                    self.after_noise(k);
                    if self.r.chance(200) {
                        // and a second, supported, CONNECT
                        let spec = self.spec(format!("r{}", c));
                        self.push(Op::Connect { c, spec });
                    }
                }
                if self.r.chance(150) {
                    self.push(Op::Close { c, how: How::Fin });
                }
            }
            Malformed => {
                let first = self.r.chance(200);
                let i = if first {
                    let noise = self.is_noise();
                    let c = self.open(noise, false, 0);
                    let lim = self.cfg.max_packet as usize;
                    self.conns.push(GC { c, noise, id: String::new(), dead: true, stalled: false, wait: false, lim });
                    self.conns.len() - 1
                } else {
                    self.settled()
                };
                if !first && self.r.chance(400) {
                    self.publ(i, 0);
                }
                let (mut b, why) = malformed(&mut self.r, first);
                let noise = self.conns[i].noise;
                if noise && self.r.chance(100) {
                    b = if self.r.chance(300) { vec![] } else { gen_bin(&mut self.r, 1) };
                }
                self.conns[i].dead = true;
                let c = self.conns[i].c;
                self.raw(c, RawClass::Malformed, b, why);
                self.after_noise(i);
            }
            Unsup => {
                let i = self.settled();
                let c = self.conns[i].c;
                if self.r.chance(300) {
                    self.publ(i, 0);
                }
                self.conns[i].dead = true;
                match self.r.below(10) {
                    0..=3 => {
                        let (b, why) = unsupported(&mut self.r);
                        self.raw(c, RawClass::Unsup, b, why);
                    }
                    4..=6 => {
                        let m = self.next_m;
                        self.next_m += 1;
                        let topic = self.topic();
                        let flags = *self.r.pick(&[1u8, 2, 3, 4, 5, 10, 12, 13, 11]);
                        self.push(Op::Pub { c, m, topic, props: vec![], size: 0, flags, empty: false });
                    }
                    7 => {
                        let m = self.next_m;
                        self.next_m += 1;
                        let topic = self.topic();
                        let p = match self.r.below(3) {
                            0 => (0x02, PVal::U32(*self.r.pick(&[0, 1, 100, u32::MAX]))),
                            1 => (0x23, PVal::U16(*self.r.pick(&[0, 1, 10, 255, 256, 65535]))),
                            _ => (0x0b, PVal::Var(*self.r.pick(&[1, 200, 268_435_455]))),
                        };
                        let mut props = if self.r.chance(300) { pub_props(&mut self.r) } else { vec![] };
                        let k = self.r.below(props.len() as u64 + 1) as usize;
                        props.insert(k, p.clone());
                        if crate::world::pub_packet(m, &topic, &props, 0, 0, false).encode().len() > self.cfg.max_packet as usize {
                            props = vec![p];
                        }
                        self.push(Op::Pub { c, m, topic, props, size: 0, flags: 0, empty: false });
                    }
                    8 => {
                        let f = self.r.pick(&self.filters).clone();
                        let o = self.opts();
                        let sid = *self.r.pick(&[1, 300]);
                        self.push(Op::Sub { c, pid: 77, filters: vec![(f, o)], props: vec![(0x0b, PVal::Var(sid))] });
                    }
                    _ => {
                        let id = if self.r.chance(500) { self.conns[i].id.clone() } else { format!("s{}", c) };
                        let mut spec = self.spec(id);
                        if self.r.chance(200) {
                            spec.clean = false;
                        }
                        self.push(Op::Connect { c, spec });
                    }
                }
                if self.r.chance(400) {
                    self.after_noise(i);
                }
                if self.r.chance(100) {
                    let how = *self.r.pick(&[How::Fin, How::Rst]);
                    self.push(Op::Close { c, how });
                }
            }
            Announce => {
                if self.cfg.max_packet < 64 {
                    return;
                }
                if self.cfg.noise && self.r.chance(300) {
                    let (bad, wait) = (self.r.range(6, 7) as u8, self.r.chance(500));
                    let c = self.open(true, wait, bad);
                    let spec = self.spec(format!("n{}", c));
                    return self.push(Op::Connect { c, spec });
                }
                let i = self.settled();
                let c = self.conns[i].c;
                self.conns[i].dead = true;
                if self.conns[i].noise {
                    let kind = TamperKind::Announce(*self.r.pick(&crate::world::ANNOUNCED));
                    self.push(Op::Tamper { c, kind });
                    return self.publ(i, 0);
                }
                let over = self.cfg.max_packet as u64 + 1;
                let n = match self.r.below(3) {
                    0 => 268_435_455,
                    1 => over + self.r.below(9_000_000),
                    _ => over * 20,
                };
                let mut b = vec![*self.r.pick(&[0x30, 0x82, 0x10, 0xa2])];
                let mut left = n.min(268_435_455);
                while left > 127 {
                    b.push(left as u8 | 0x80);
                    left >>= 7;
                }
                b.push(left as u8);
                for _ in 0..self.r.below(40) {
                    b.push(self.r.below(4) as u8);
                }
                self.raw(c, RawClass::Announce, b, format!("the beginning of a packet of {} bytes", n));
            }
            Incomplete => {
                let i = self.settled();
                if self.conns[i].noise {
                    return;
                }
                let c = self.conns[i].c;
                let t = self.topic();
                let full = if self.r.chance(500) {
                    Pkt::Publish { dup: false, qos: 0, retain: false, topic: t, pid: None, props: vec![], payload: vec![b'i'; 40] }.encode()
                } else {
                    Pkt::Subscribe { pid: 5, props: vec![], filters: vec![(t, 0x20)] }.encode()
                };
                let n = self.r.range(1, full.len() as u64 - 1) as usize;
                self.raw(c, RawClass::Incomplete, full[..n].to_vec(), format!("{} of {} bytes", n, full.len()));
                if self.r.chance(500) {
                    self.conns[i].dead = true;
                    let how = *self.r.pick(&[How::Fin, How::Half, How::Rst]);
                    self.push(Op::Close { c, how });
                }
            }
            Oversize => {
                let i = self.settled();
                let c = self.conns[i].c;
                if self.r.chance(400) {
                    self.publ(i, 0);
                }
                self.conns[i].dead = true;
                let max = self.cfg.max_packet;
                let by = match self.r.below(6) {
                    0 | 1 => 1,
                    2 => 2,
                    3 => self.r.range(1, 40) as u32,
                    4 => self.r.range(1, max as u64) as u32,
                    _ => 128,
                };
                match self.r.below(10) {
                    0 => {
                        // an oversized SUBSCRIBE
                        let f = self.r.pick(&self.filters).clone();
                        let mut filters = vec![];
                        let one = f.len() as u32 + 3;
                        for _ in 0..(max / one + 2).min(30_000) {
                            filters.push((f.clone(), 0x20));
                        }
                        if filters.len() < 3000 {
                            self.push(Op::Sub { c, pid: 99, filters, props: vec![] });
                        }
                    }
                    1 => {
                        // an oversized first packet
                        let noise = self.is_noise();
                        let c = self.open(noise, false, 0);
                        let mut s = self.spec(format!("o{}", c));
                        let n = (max as usize + 1).min(60_000) / 1000 + 1;
                        for _ in 0..n {
                            s.props.push((0x26, PVal::Str("x".repeat(1000))));
                        }
                        if s.pkt().encode().len() > max as usize {
                            self.push(Op::Connect { c, spec: s });
                        }
                    }
                    _ => {
                        let m = self.next_m;
                        self.next_m += 1;
                        let topic = self.topic();
                        let props = pub_props(&mut self.r);
                        self.push(Op::Pub { c, m, topic, props, size: max.saturating_add(by), flags: 0, empty: false });
                    }
                }
                self.after_noise(i);
            }
            Boundary => {
                let i = self.ensure();
                let mut lims: Vec<u32> = self.conns.iter().map(|c| c.lim as u32).collect();
                lims.push(self.cfg.max_packet);
                lims.push(self.cfg.max_packet);
                if self.cfg.noise {
                    lims.push(65519);
                    lims.push(65519);
                }
                if self.cfg.max_packet > 2_097_160 && self.r.chance(500) {
                    lims = vec![2_097_154, 2_097_155, 2_097_156, 2_097_157];
                }
                lims.extend([128, 129, 130, 131, 16384, 16385, 16386, 16387, 255, 256]);
                let l = *self.r.pick(&lims);
                let d = self.r.below(5) as i64 - 2;
                let d = if self.r.chance(400) { 0 } else { d };
                let sz = (l as i64 + d).clamp(1, self.cfg.max_packet as i64) as u32;
                if sz as usize > 65519 && self.conns[i].noise {
                    return;
                }
                self.publ(i, sz);
                if sz > 10_000 {
                    self.budget -= if sz > 200_000 { 20 } else { 2 };
                }
            }
            SmallClient => {
                let l = match self.r.below(8) {
                    0 => self.r.range(1, 40),
                    1 => self.r.range(20, 90),
                    2 => self.r.range(1, 5),
                    3 | 4 => self.r.range(60, 200),
                    5 => *self.r.pick(&[65519, 65520, 65535, 65536, u32::MAX as u64]),
                    _ => self.r.range(60, 70_000),
                };
                let id = if self.r.chance(700) { self.fresh_id() } else { String::new() };
                let c = self.conn_as(id, vec![(0x27, PVal::U32(l as u32))]);
                let k = self.conns.len() - 1;
                if l < 90 {
                    self.conns[k].dead = true;
                }
                let _ = c;
                self.sub(k, false);
            }
            Crowd => {
                let n = *self.r.pick(&[20, 36, 68, 110, 140]);
                let anon = self.r.below(1000) as u32;
                let f = self.topic();
                let first = self.conns.len();
                for k in 0..n {
                    let id = if self.r.chance(anon) { String::new() } else { format!("w{}-{}", self.next_c, k) };
                    let i = self.conns.len();
                    self.conn_as(id, vec![]);
                    match self.r.below(4) {
                        0 => (),
                        1 => self.sub(i, false),
                        _ => {
                            let c = self.conns[i].c;
                            let o = self.opts();
                            self.push(Op::Sub { c, pid: 9, filters: vec![(f.clone(), o)], props: vec![] });
                        }
                    }
                }
                self.push(Op::Barrier { heal: true });
                for round in 0..2 {
                    for _ in 0..self.r.range(1, 4) {
                        let i = first + self.r.below(n) as usize;
                        if self.conns[i].dead {
                            continue;
                        }
                        let c = self.conns[i].c;
                        let m = self.next_m;
                        self.next_m += 1;
                        self.push(Op::Pub { c, m, topic: f.clone(), props: vec![], size: 0, flags: 0, empty: false });
                    }
                    self.push(Op::Barrier { heal: true });
                    let some = self.r.below(1001) as u32;
                    for i in first..first + n as usize {
                        if round == 1 || self.r.chance(some) {
                            if !self.conns[i].dead {
                                self.conns[i].dead = true;
                                let c = self.conns[i].c;
                                let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                                self.push(Op::Close { c, how });
                            }
                        }
                    }
                    if self.r.chance(500) {
                        self.push(Op::Barrier { heal: true });
                    }
                }
                self.budget += 3 * n as i64;
            }
            Deluge => {
                // far more messages than any queue has been made for
                let i = self.ensure();
                let j = if self.r.chance(700) { self.settled() } else { i };
                let t = self.topic();
                let c = self.conns[i].c;
                self.push(Op::Sub { c, pid: 11, filters: vec![(t.clone(), 0x20)], props: vec![] });
                self.push(Op::Barrier { heal: false });
                let stall = self.r.chance(700);
                if stall {
                    self.push(Op::Stall { c });
                }
                let n = *self.r.pick(&[300, 600, 1100, 1100, 2100, 4200]);
                let size = if self.r.chance(800) { 0 } else { 60 };
                let m = self.next_m;
                self.next_m += n;
                let c = self.conns[j].c;
                self.push(Op::PubMany { c, m, n, topic: t, size });
                self.push(Op::Barrier { heal: false });
                if stall {
                    let k = self.settled();
                    self.publ(k, 0);
                    if self.r.chance(500) {
                        self.push(Op::Barrier { heal: false });
                    }
                }
                self.push(Op::Barrier { heal: true });
                for c in self.conns.iter_mut() {
                    c.stalled = false;
                }
            }
            ManySubs => {
                // one session with many filters, then what becomes of them
                let i = self.ensure();
                let c = self.conns[i].c;
                let n = *self.r.pick(&[17, 33, 40, 65, 70, 100, 130, 260, 300]);
                let whole = self.r.chance(if self.prop == "B05" { 400 } else { 150 });
                let mut k = 0;
                while k < n {
                    let m = if whole { n - k } else { self.r.range(1, 20).min(n - k) };
                    let mut f = vec![];
                    for j in k..k + m {
                        let s = match self.r.below(6) {
                            0 => format!("m/{}/+", j),
                            1 => format!("m/{}/#", j),
                            _ => format!("m/{}", j),
                        };
                        let o = self.opts();
                        f.push((s, o));
                    }
                    k += m;
                    self.next_pid = self.next_pid % 65535 + 1;
                    let pid = self.next_pid;
                    let len = Pkt::Subscribe { pid, props: vec![], filters: f.clone() }.encode().len();
                    if len <= self.cfg.max_packet as usize {
                        self.push(Op::Sub { c, pid, filters: f, props: vec![] });
                    }
                }
                if self.r.chance(500) {
                    self.push(Op::Barrier { heal: true });
                }
                for _ in 0..self.r.range(0, 4) {
                    let j = self.ensure();
                    let c = self.conns[j].c;
                    let m = self.next_m;
                    self.next_m += 1;
                    let k = self.r.below(n);
                    let topic = if self.r.chance(600) { format!("m/{}", k) } else { format!("m/{}/x", k) };
                    self.push(Op::Pub { c, m, topic, props: vec![], size: 0, flags: 0, empty: false });
                }
                match self.r.below(3) {
                    0 => {
                        self.conns[i].dead = true;
                        let how = *self.r.pick(&[How::Fin, How::Half, How::Rst, How::Purge]);
                        self.push(Op::Close { c, how });
                        self.push(Op::Barrier { heal: true });
                    }
                    1 if !self.conns[i].id.is_empty() => {
                        let id = self.conns[i].id.clone();
                        for c in self.conns.iter_mut() {
                            if c.id == id {
                                c.dead = true;
                            }
                        }
                        self.conn_as(id, vec![]);
                        self.push(Op::Barrier { heal: true });
                    }
                    _ => (),
                }
                self.budget += n as i64 / 12;
            }
            AckLimit => {
                // a SUBACK around the most the client takes
                let l = self.r.range(60, 240);
                let id = if self.r.chance(700) { self.fresh_id() } else { String::new() };
                let c = self.conn_as(id, vec![(0x27, PVal::U32(l as u32))]);
                let k = self.conns.len() - 1;
                if l < 100 {
                    self.conns[k].dead = true;
                }
                if self.r.chance(500) {
                    self.sub(k, false);
                }
                let d = *self.r.pick(&[0u64, 0, 1, 1, 2, 3, 10, 60]);
                let n = if self.r.chance(500) { l.saturating_sub(5 + d).max(1) } else { l - 5 + d };
                let mut f = vec![];
                for j in 0..n {
                    f.push((["a", "b", "c", "+"][(j % 4) as usize].to_string(), if self.r.chance(900) { 0x20 } else { 0 }));
                }
                if (Pkt::Subscribe { pid: 1, props: vec![], filters: f.clone() }).encode().len() > self.cfg.max_packet as usize {
                    return;
                }
                if n + 5 > l {
                    self.conns[k].dead = true;
                }
                self.push(Op::Sub { c, pid: 300, filters: f, props: vec![] });
                if self.r.chance(500) {
                    self.publ(k, 0);
                }
            }
            AcceptErr => {
                let noise = self.is_noise();
                let kind = self.r.below(7) as u8;
                if self.r.chance(250) {
                    let ms = *self.r.pick(&[3, 100, 900, 3000]);
                    let kind = *self.r.pick(&[1, 3]);
                    self.push(Op::AcceptErr { noise, kind, ms });
                    for _ in 0..self.r.range(1, 4) {
                        self.act(Conn);
                    }
                    return;
                }
                for _ in 0..self.r.range(1, 3) {
                    self.push(Op::AcceptErr { noise, kind, ms: 0 });
                }
                // make the listener look
                if self.r.chance(600) {
                    self.act(Conn)
                }
            }
            Tamper => {
                if !self.cfg.noise {
                    return;
                }
                let i = self.settled();
                if !self.conns[i].noise {
                    return;
                }
                let c = self.conns[i].c;
                if self.r.chance(500) {
                    self.publ(i, 0);
                }
                let x = self.r.next() as u32 >> 1;
                let kind = match self.r.below(10) {
                    0..=2 => TamperKind::Flip(x),
                    8 => TamperKind::Announce(*self.r.pick(&crate::world::ANNOUNCED)),
                    3 => TamperKind::Replay,
                    4 => TamperKind::Swap,
                    5 => TamperKind::Cut(x),
                    9 => TamperKind::Extend(x),
                    6 => TamperKind::Plain,
                    _ => TamperKind::Drop,
                };
                self.conns[i].dead = true;
                self.push(Op::Tamper { c, kind });
                for _ in 0..self.r.range(1, 4) {
                    if self.r.chance(400) {
                        self.sub(i, false)
                    } else {
                        self.publ(i, 0)
                    }
                }
            }
            BadHs => {
                if !self.cfg.noise {
                    return;
                }
                let bad = self.r.range(1, 9) as u8;
                let wait = self.r.chance(500);
                let c = self.open(true, wait, bad);
                let id = if self.r.chance(300) && !self.conns.is_empty() {
                    let v: Vec<String> = self.conns.iter().map(|c| c.id.clone()).collect();
                    self.r.pick(&v).clone()
                } else {
                    format!("h{}", c)
                };
                let spec = self.spec(id);
                self.push(Op::Connect { c, spec });
                if self.r.chance(300) {
                    let how = *self.r.pick(&[How::Fin, How::Rst, How::Half]);
                    self.push(Op::Close { c, how });
                }
            }
            Idle => {
                let noise = self.is_noise();
                let bad = if noise && self.r.chance(500) { *self.r.pick(&[3, 4]) } else { 0 };
                let c = self.open(noise, false, bad);
                if !noise && self.r.chance(400) {
                    let spec = self.spec(format!("i{}", c));
                    let b = spec.pkt().encode();
                    let n = self.r.range(1, b.len() as u64 - 1) as usize;
                    self.raw(c, RawClass::Incomplete, b[..n].to_vec(), "part of a CONNECT".into());
                }
                if self.r.chance(150) {
                    let how = *self.r.pick(&[How::Fin, How::Rst]);
                    self.push(Op::Close { c, how });
                }
            }
            Late => {
                // a CONNECT around the end of its time
                let noise = self.is_noise();
                let c = self.open(noise, false, 0);
                let ka = self.cfg.keep_alive as u64 * 1_000_000;
                let dt = match self.r.below(3) {
                    0 => self.r.below(ka.saturating_sub(1_050_000).max(1)),
                    1 => ka + 1_050_000 + self.r.below(2_000_000),
                    _ => ka.saturating_sub(1_200_000),
                };
                let id = self.fresh_id();
                let spec = self.spec(id.clone());
                self.push_at(dt, Op::Connect { c, spec });
                if dt < ka {
                    let lim = self.cfg.max_packet as usize;
                    self.conns.push(GC { c, noise, id, dead: false, stalled: false, wait: false, lim });
                    let k = self.conns.len() - 1;
                    self.sub(k, false);
                }
            }
            Trickle => {
                if !self.cfg.mqtt {
                    return;
                }
                let c = self.open(false, false, 0);
                let spec = self.spec(format!("t{}", c));
                let b = spec.pkt().encode();
                let ka = self.cfg.keep_alive as u64 * 1_000_000;
                let parts = self.r.range(3, 6) as usize;
                // more than the time allowed in all, less than it between two pieces
                let gap = ka * (10 + self.r.below(8)) / 10 / (parts as u64 - 1) + 300_000;
                let mut at = 0;
                for k in 0..parts {
                    // never complete: a pause of the process could make the last byte count
                    let end = if k == parts - 1 { b.len() - 1 } else { at + 1 + self.r.below(3) as usize };
                    let dt = if k == 0 { 0 } else { gap };
                    self.rawc += 1;
                    self.push_at(dt, Op::Raw { c, class: RawClass::Piece(at as u32), bytes: b[at..end].to_vec(), why: "piece of a CONNECT".into() });
                    at = end;
                }
            }
            List => self.push(Op::List),
            Pause => {
                let ms = *self.r.pick(&[5, 100, 700, 2500]);
                self.push(Op::Pause { ms });
            }
            Restart => {
                if self.r.chance(300) {
                    for _ in 0..self.r.range(1, 6) {
                        let i = self.ensure();
                        self.publ(i, 0);
                    }
                }
                self.push(Op::Shutdown);
                for c in self.conns.iter_mut() {
                    c.dead = true;
                }
                if self.r.chance(300) {
                    // something arrives while it shuts down
                    let noise = self.is_noise();
                    let c = self.open(noise, false, 0);
                    let spec = self.spec(format!("z{}", c));
                    self.push(Op::Connect { c, spec });
                }
                self.push(Op::Barrier { heal: true });
                if self.r.chance(350) {
                    let noise = self.cfg.noise && (!self.cfg.mqtt || self.r.chance(600));
                    self.push(Op::BindErr { noise });
                    self.push(Op::Start);
                    self.push(Op::Barrier { heal: true });
                }
                self.push(Op::Start);
                for c in self.conns.iter_mut() {
                    c.stalled = false;
                }
            }
            Table => {
                self.table_used = true;
                let nt = self.r.range(2, 5);
                let nk = self.r.range(1, 4);
                let nf = self.r.range(1, 4);
                let fs: Vec<String> = (0..nf).map(|_| self.r.pick(&self.filters).clone()).collect();
                let mut tasks = vec![];
                let calm = self.r.chance(300);
                for _ in 0..nt {
                    let n = self.r.range(1, 10);
                    let mut v = vec![];
                    for _ in 0..n {
                        let k = self.r.below(nk) as u8;
                        let f = self.r.pick(&fs).clone();
                        let x = self.r.below(100);
                        v.push(if x < 40 {
                            TOp::Sub { k, f, nl: self.r.chance(300) }
                        } else if x < 55 && !calm {
                            TOp::Unsub { k, f }
                        } else if x < 62 && !calm {
                            TOp::UnsubAll { k }
                        } else {
                            TOp::Look { t: self.r.pick(&self.topics).clone() }
                        });
                    }
                    tasks.push(v);
                }
                // a look at everything at the end, by one more call sequence
                self.push(Op::Table { tasks });
                self.budget -= 3;
            }
            SoftBarrier => self.push(Op::Barrier { heal: false }),
            NotConnect => {
                let noise = self.is_noise();
                let wait = false;
                let c = self.open(noise, wait, 0);
                let lim = self.cfg.max_packet as usize;
                self.conns.push(GC { c, noise, id: String::new(), dead: true, stalled: false, wait, lim });
                let k = self.conns.len() - 1;
                match self.r.below(3) {
                    0 => self.sub(k, false),
                    1 => self.publ(k, 0),
                    _ => {
                        let (b, why) = unsupported(&mut self.r);
                        self.raw(c, RawClass::Unsup, b, why);
                    }
                }
                if self.r.chance(500) {
                    let spec = self.spec(format!("q{}", c));
                    self.push(Op::Connect { c, spec });
                    self.after_noise(k);
                }
            }
            Deep => {
                let i = self.ensure();
                let max = (self.cfg.max_packet as u64).min(65_000).saturating_sub(60).max(40);
                let n = match self.r.below(3) {
                    0 => 20,
                    1 => max.min(2000),
                    _ if self.r.chance(700) => max.min(12_000),
                    _ => max,
                } as usize;
                let f = match self.r.below(3) {
                    0 => "/".repeat(n),
                    1 => format!("{}#", "a/".repeat(n / 2)),
                    _ => format!("{}a", "+/".repeat(n / 2)),
                };
                let c = self.conns[i].c;
                self.push(Op::Sub { c, pid: 4, filters: vec![(f.clone(), 0x20)], props: vec![] });
                let j = self.ensure();
                let c = self.conns[j].c;
                let m = self.next_m;
                self.next_m += 1;
                let topic = if f.starts_with('/') { f } else { format!("{}a", "a/".repeat(n / 2)) };
                self.push(Op::Pub { c, m, topic, props: vec![], size: 0, flags: 0, empty: false });
            }
            SubPubRace => {
                let i = self.ensure();
                for _ in 0..self.r.range(2, 6) {
                    if self.r.chance(450) {
                        self.sub(i, false)
                    } else {
                        let j = if self.r.chance(600) { i } else { self.ensure() };
                        self.publ(j, 0)
                    }
                }
            }
            Wait => {
                let ka = self.cfg.keep_alive as u64 * 1_000_000;
                let dt = match self.r.below(4) {
                    _ if self.cfg.program && self.r.chance(500) => self.r.range(1, 200) * *self.r.pick(&[1, 60, 600, 3600]) * 1_000_000,
                    0 => 2_000_000,
                    1 => ka + 1_100_000,
                    2 => 3 * ka + 1_500_000,
                    _ => self.r.below(4 * ka),
                };
                self.push_at(dt, Op::Barrier { heal: false });
                if self.r.chance(400) {
                    if let Some(i) = self.live() {
                        self.publ(i, 0)
                    }
                }
            }
        }
    }
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed ^ 0x5ce0_a710);
    // now and then another profile, so that every check also sees what it did not expect
    const ALL: &[&str] = &[
        "B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B09", "B10", "B11", "B12", "B13", "B14", "B15", "B16", "B17", "B18", "B19", "B21", "B22",
        "B23", "B24", "B25", "B26", "B27",
    ];
    let prof = if prop != "S01" && r.chance(80) { *r.pick(ALL) } else { prop };
    let noise_only = matches!(prof, "B21");
    let (mqtt, noise) = match r.below(10) {
        _ if noise_only => {
            if r.chance(300) {
                (false, true)
            } else {
                (true, true)
            }
        }
        0..=3 => (true, false),
        4 => (false, true),
        _ => (true, true),
    };
    let (mqtt, noise) = if prof == "B19" { (true, true) } else { (mqtt, noise) };
    let queue = match r.below(if prof == "B23" { 6 } else { 10 }) {
        0 => *r.pick(&[0, 1, 50, 100, 150, 200]),
        1 => r.below(300) as usize,
        2 => r.range(200, 2000) as usize,
        3 => r.range(1000, 20_000) as usize,
        4 => 65_536,
        _ => 1 << 20,
    };
    let big = matches!(prof, "B16" | "B17");
    let max_packet = match r.below(if big { 8 } else { 12 }) {
        0 => r.range(256, 700) as u32,
        1 => r.range(256, 5000) as u32,
        2 => 65_535,
        3 => *r.pick(&[65_519, 65_520, 65_536, 66_000]),
        4 => *r.pick(&[300, 16_386, 16_387, 20_000]),
        _ => 100_000,
    };
    // packets with four bytes of length: nothing else is large then
    let huge = r.chance(match prof {
        "B01" | "B16" | "B17" => 8,
        _ => 1,
    });
    let max_packet = if huge { *r.pick(&[2_097_150, 2_097_156, 2_200_000, 3_000_000]) } else { max_packet };
    let cfg = Cfg {
        keep_alive: match r.below(20) {
            0..=14 => r.range(2, 10) as u16,
            15 | 16 => *r.pick(&[30, 60, 3, 2]),
            17 | 18 => *r.pick(&[127, 128, 255, 256, 257, 258, 260, 300, 511, 512, 514]),
            _ => r.range(200, 65_535) as u16,
        },
        queue,
        max_packet,
        strict: r.chance(if prof == "B19" { 700 } else { 300 }),
        mqtt,
        noise,
        program: false,
    };
    let (cfg, huge) = match prof {
        "S01" => (Cfg { keep_alive: 50, queue: 1 << 20, max_packet: 1 << 16, strict: true, mqtt: true, noise: true, program: true }, false),
        _ => (cfg, huge),
    };
    let calm = r.chance(150);
    let slow = r.chance(150);
    let sim = SimP {
        sched: if calm { 0 } else { r.below(6) as u32 },
        preempt: if calm { 0 } else { *r.pick(&[0, 50, 200, 500]) },
        latency_us: *r.pick(&[0, 10, 100, 100, 1000]),
        jitter_us: if calm { 0 } else { *r.pick(&[0, 50, 500, 5000]) },
        short_read: if calm { 0 } else { *r.pick(&[0, 0, 100, 500, if slow { 1000 } else { 300 }]) },
        short_write: if calm { 0 } else { *r.pick(&[0, 0, 100, 500]) },
        seg: if calm { 0 } else { *r.pick(&[0, 0, 200, 600]) },
        edge: if calm { 0 } else { *r.pick(&[0, 0, 0, 100, 400, 800]) },
        window: *r.pick(&[64, 512, 4096, 65_536, 65_536, 65_536]),
        // seldom, as time is a means of other faults, too
        cost: if !calm && r.chance(100) { *r.pick(&[10, 50, 200, 1000]) } else { 0 },
    };
    let sim = if huge { SimP { short_read: 0, short_write: 0, seg: 0, window: 65_536, cost: 0, ..sim } } else { sim };
    let rich = matches!(prof, "B03") || r.chance(250);
    let nt = r.range(2, if rich { 6 } else { 4 });
    let mut topics: Vec<String> = (0..nt).map(|_| gen_topic(&mut r, rich)).collect();
    if rich && r.chance(80) {
        let t = topics[0].clone();
        let p = "l".repeat(*r.pick(&[1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000]));
        for e in [("x", "y"), ("x", "X"), ("", " "), ("\u{e9}", "e\u{301}"), ("x", "xx")].get(r.below(5) as usize).map(|e| [e.0, e.1]).unwrap() {
            topics.push(format!("{}/{}{}", t, p, e));
            if r.chance(500) {
                topics.push(format!("{}/{}{}/z", t, p, e));
            }
        }
    }
    let nf = r.range(2, if prof == "B03" { 12 } else { 7 });
    let mut filters: Vec<String> = (0..nf).map(|_| gen_filter(&mut r, &topics)).collect();
    filters.sort();
    filters.dedup();
    let mut ids: Vec<String> = (0..r.range(2, 7)).map(|k| format!("c{}", k)).collect();
    if r.chance(150) {
        ids.extend(["C0".into(), "c".into(), "c00".into(), "c0 ".into(), "c1/".into()]);
    }
    if r.chance(100) {
        ids.push("é€ 𝄞/#".into());
        ids.push("x".repeat(60));
    }
    if r.chance(100) {
        let n = *r.pick(&[22, 23, 24, 64, 65, 127, 128, 255, 256, 1000]);
        // for the smallest packet there is room for
        let n = n.min(cfg.max_packet as usize / 2);
        ids.push("y".repeat(n));
        ids.push(format!("{}z", "y".repeat(n - 1)));
    }
    // names of characters of several bytes, cut anywhere by whoever counts in bytes
    let wide = r.chance(100);
    if wide {
        for _ in 0..2 {
            let n = r.range(3, 40).min(cfg.max_packet as u64 / 16) as usize;
            let w: String = (0..n).map(|_| *r.pick(&['é', '€', '𝄞', '字', 'a'])).collect();
            if prof != "B26" {
                topics.push(w.clone());
                filters.push(if r.chance(700) { w.clone() } else { format!("{}/#", w) });
            }
            ids.push(w);
        }
    }
    let budget = match r.below(4) {
        0 => r.range(4, 20),
        1 | 2 => r.range(15, 60),
        _ => r.range(40, 150),
    } as i64;
    let loglevel = match r.chance(if wide { 600 } else { 150 }) {
        true if r.chance(500) => 5,
        true => r.range(1, 5) as u8,
        false => 0,
    };
    let mut g = G {
        r,
        ops: vec![],
        cfg,
        prop: prof.to_string(),
        conns: vec![],
        next_c: 0,
        next_m: 1,
        next_pid: 0,
        ids,
        topics,
        filters,
        rawc: 0,
        budget,
        table_used: false,
    };
    if prof == "B18" && g.r.chance(100) {
        let noise = g.cfg.noise && (!g.cfg.mqtt || g.r.chance(600));
        g.push(Op::BindErr { noise });
        g.push(Op::Start);
        g.push(Op::Barrier { heal: true });
    }
    if prof == "S01" && g.r.chance(40) {
        let noise = g.r.chance(500);
        g.push(Op::BindErr { noise });
    }
    g.push(Op::Start);
    if prof == "B26" {
        g.residents();
        return Scenario { profile: prof.to_string(), cfg: g.cfg, sim, loglevel, ops: g.ops };
    }
    if prof == "B25" {
        g.cycles();
        return Scenario { profile: prof.to_string(), cfg: g.cfg, sim, loglevel, ops: g.ops };
    }
    if prof != "B22" {
        for _ in 0..g.r.range(1, 4) {
            g.act(Conn);
        }
        if g.r.chance(500) {
            g.push(Op::Barrier { heal: true });
        }
    }
    let ws = g.swarm();
    let mut round = g.r.range(3, 25);
    let crowd = match prof {
        "B10" | "B13" | "B14" => 20,
        "B22" => 0,
        _ => 6,
    };
    let deluge = match prof {
        "B01" | "B04" | "B14" | "B23" => 6,
        "B22" => 0,
        _ => 1,
    };
    let mut special = vec![];
    if g.r.chance(crowd) {
        special.push(Crowd);
    }
    if g.r.chance(deluge) {
        special.push(Deluge);
    }
    while g.budget > 0 {
        let a = match special.last() {
            Some(a) if g.r.chance(100) => {
                let a = *a;
                special.pop();
                a
            }
            _ => g.choose(&ws),
        };
        g.act(a);
        if round == 0 {
            g.push(Op::Barrier { heal: true });
            for c in g.conns.iter_mut() {
                c.stalled = false;
            }
            round = g.r.range(3, 25);
        } else {
            round -= 1;
        }
    }
    if prof == "S01" && g.r.chance(300) {
        // and after a long time
        let dt = g.r.range(1, 100) * 3_600_000_000;
        g.push_at(dt, Op::Barrier { heal: true });
        for c in g.conns.iter_mut() {
            c.stalled = false;
        }
        for a in [Conn, Conn, Sub, Sub, Pub, Pub] {
            g.act(a);
        }
    }
    Scenario { profile: prof.to_string(), cfg: g.cfg, sim, loglevel, ops: g.ops }
}
