//! Scenario: everything a run does that is not a scheduling/network decision.
use crate::codec::{Pkt, Props, WillSpec};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub keep_alive: u16,
    pub queue: usize,
    pub max_packet: u32,
    pub strict: bool,
    pub mqtt: bool,
    pub noise: bool,
    /// the broker is started by the server program, with the settings of that
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub program: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimP {
    pub sched: u32,
    pub preempt: u32,
    pub latency_us: u32,
    pub jitter_us: u32,
    pub short_read: u32,
    pub short_write: u32,
    pub seg: u32,
    /// per mille of packets that travel together with the first bytes of the next one
    #[serde(default)]
    pub edge: u32,
    pub window: u32,
    /// µs that one poll of a task takes (0: one)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub cost: u32,
}
fn is_zero(n: &u32) -> bool {
    *n == 0
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ConnSpec {
    /// "@+n": whatever comes n after the identifier assigned last
    pub id: String,
    pub clean: bool,
    pub keep_alive: u16,
    pub props: Props,
    pub user: Option<String>,
    pub pass: Option<String>,
    pub will: Option<WillSpec>,
}
impl ConnSpec {
    pub fn supported(&self) -> bool {
        self.clean
            && self.user.is_none()
            && self.pass.is_none()
            && self.will.is_none()
            && !self.props.iter().any(|p| p.0 == 0x15 || p.0 == 0x16)
    }
    pub fn pkt(&self) -> Pkt {
        Pkt::Connect {
            clean: self.clean,
            keep_alive: self.keep_alive,
            props: self.props.clone(),
            id: self.id.clone(),
            will: self.will.clone(),
            user: self.user.clone(),
            pass: self.pass.clone().map(|p| p.into_bytes()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum RawClass {
    /// definitely malformed, complete frame
    Malformed,
    /// a valid packet the broker does not support
    Unsup,
    /// a proper prefix of a packet; nothing follows on this connection
    Incomplete,
    /// the same, but cut in pieces: this one starts at the given offset
    Piece(u32),
    /// the beginning of a packet far above the limit; nothing follows on this connection
    Announce,
    /// not usable as noise/mqtt at all (garbage on the encrypted port)
    Garbage,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    Fin,
    Half,
    Rst,
    Purge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TamperKind {
    /// flip a bit of the next encrypted frame
    Flip(u32),
    /// send the previous frame again
    Replay,
    /// send the next two frames swapped: the second first
    Swap,
    /// cut the frame short (with a matching length prefix)
    Cut(u32),
    /// add bytes to the frame (with a matching length prefix)
    Extend(u32),
    /// send a plain MQTT packet where a frame is expected
    Plain,
    /// drop the next frame
    Drop,
    /// the length of a frame of that size instead of the next frame, and hardly anything of it
    Announce(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Sub { k: u8, f: String, nl: bool },
    Unsub { k: u8, f: String },
    UnsubAll { k: u8 },
    Look { t: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Start,
    Shutdown,
    /// bad: 0 correct key, 1 wrong server key, 2 garbage instead of a handshake,
    /// 3 stop after the first handshake message, 4 say nothing, 5 tampered last handshake message,
    /// 6, 7 a first or last handshake message of which hardly more than its huge length is sent,
    /// 8 tampered first handshake message, 9 all that an earlier connection sent once again
    Open { c: u32, noise: bool, wait: bool, bad: u8 },
    Connect { c: u32, spec: ConnSpec },
    Sub { c: u32, pid: u16, filters: Vec<(String, u8)>, props: Props },
    /// m: unique message number; size: wanted total packet size (0: minimal)
    Pub { c: u32, m: u32, topic: String, props: Props, size: u32, flags: u8, empty: bool },
    /// n publishes one after another, numbered from m
    PubMany { c: u32, m: u32, n: u32, topic: String, size: u32 },
    Raw { c: u32, class: RawClass, #[serde(with = "crate::codec::hexser")] bytes: Vec<u8>, why: String },
    Tamper { c: u32, kind: TamperKind },
    Close { c: u32, how: How },
    Stall { c: u32 },
    Unstall { c: u32 },
    /// ms 0: until the next healing barrier
    Hold { c: u32, ms: u32 },
    /// accepting fails once (ms 0), or for so long as long as there is anything to accept
    AcceptErr {
        noise: bool,
        kind: u8,
        #[serde(default)]
        ms: u32,
    },
    BindErr { noise: bool },
    Pause { ms: u32 },
    /// ask for the client list while anything may be going on
    List,
    Barrier { heal: bool },
    Table { tasks: Vec<Vec<TOp>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpT {
    /// µs after the previous operation
    pub dt: u64,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub profile: String,
    pub cfg: Cfg,
    pub sim: SimP,
    pub loglevel: u8,
    pub ops: Vec<OpT>,
}
