//! The simulated deployment: clients, operator and network faults around the real broker,
//! the recorded history, and the oracles over it.
use crate::codec::{self, matches, Pkt, Props, PVal};
use crate::noise::{self, Noise};
use crate::scen::*;
use simrt::{DriverEv, Sock};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::SocketAddr;
use std::task::Waker;

thread_local! {
    /// the broker is the server program
    pub static PROGRAM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn addr(port: u16) -> SocketAddr {
    // the program promises its service on every address
    let ip = if PROGRAM.with(|p| p.get()) { [192, 0, 2, 9] } else { [127, 0, 0, 1] };
    (ip, port).into()
}
pub fn mqtt_addr() -> SocketAddr {
    addr(1883)
}
pub fn noise_addr() -> SocketAddr {
    addr(8883)
}
const SEC: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;
const NOISE_MAX: usize = 65519;

pub enum Cmd {
    Start,
    Shutdown,
    Snapshot(Vec<String>),
    /// the sessions that are established now
    List(Vec<usize>),
    Table(Vec<Vec<TOp>>),
    Finish,
}

#[derive(Clone, Debug)]
pub enum Item {
    Connect(ConnSpec),
    Sub { pid: u16, filters: Vec<(String, u8)>, props: Props },
    Pub { m: u32, pkt: Pkt, unsup: bool },
    Raw { class: RawClass, bytes: Vec<u8>, why: String },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Eff {
    Normal,
    /// after an unsupported request: may or may not be looked at
    May,
    Never,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fatal {
    Malformed,
    Oversize,
    Unsup,
    NotConnect,
    Refused,
    BadHandshake,
    Tamper,
    TooSmall,
}
impl Fatal {
    fn tag(self) -> &'static str {
        match self {
            Fatal::Malformed => "B24",
            Fatal::Oversize => "B16",
            Fatal::Unsup => "B15",
            Fatal::NotConnect => "B07",
            Fatal::Refused => "B08",
            Fatal::BadHandshake | Fatal::Tamper => "B21",
            Fatal::TooSmall => "B17",
        }
    }
}

pub struct Sent {
    pub seq: u64,
    pub item: Item,
    pub eff: Eff,
    pub len: usize,
}
pub struct Rx {
    pub seq: u64,
    pub pkt: Pkt,
}

pub struct Conn {
    pub c: u32,
    pub noise: bool,
    wait: bool,
    bad: u8,
    /// the broker may end it or leave it
    vague: bool,
    /// something was sent beyond which nothing can be read
    unreadable: bool,
    sock: Sock,
    up: bool,
    failed: bool,
    pub nz: Option<Noise>,
    life: u32,
    t_open: u64,
    t_up: u64,
    t_hs: u64,
    outq: VecDeque<Item>,
    pub sent: Vec<Sent>,
    fatal: Option<(u64, Fatal)>,
    first_fatal_idx: usize,
    incomplete: bool,
    pieces: u32,
    inbuf: Vec<u8>,
    pub rx: Vec<Rx>,
    pub spec: Option<(u64, u64, ConnSpec)>,
    connack: Option<u64>,
    id: Option<String>,
    eof: Option<(u64, u64)>,
    closed: Option<(u64, How)>,
    stalled: bool,
    held: bool,
    ever_held: bool,
    raw_in: Vec<u8>,
    tamper: VecDeque<TamperKind>,
    swap_hold: Option<Vec<u8>>,
    /// bytes written by the client that leave together with the next ones
    tail: Vec<u8>,
    /// everything the client has sent on an encrypted connection
    wire_log: Vec<u8>,
    client_bad: bool,
    suback_n: usize,
    got_disc: bool,
    clean_dead_barrier: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    ClientClose,
    Shutdown,
    Fatal(Fatal),
    Timeout,
    Takeover,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Healthy,
    Dead(Why),
    /// still allowed to finish connecting
    Pending,
    Unknown,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Phase {
    Run,
    /// waiting for quiescence
    Quiesce,
    Settle,
    Settled,
    Cmds,
    Snapshot,
    StartWait,
    TableWait,
    Done,
}

#[derive(Clone, Debug)]
pub struct TRec {
    pub inv: u64,
    pub ret: u64,
    pub op: TOp,
    pub res: Vec<(String, bool)>,
    pub task: usize,
}

#[derive(Default)]
pub struct Snap {
    pub clients: Option<Vec<String>>,
    pub lookups: Vec<(String, Vec<(String, bool)>)>,
}

pub struct World {
    pub sc: Scenario,
    ops: Vec<OpT>,
    next_op: usize,
    pub conns: Vec<Conn>,
    by_c: HashMap<u32, usize>,
    by_sock: HashMap<u32, usize>,
    seq: u64,
    pub cmds: VecDeque<Cmd>,
    pub waker: Option<Waker>,
    pub cmd_busy: u32,
    phase: Phase,
    heal: bool,
    for_start: bool,
    pub life: u32,
    pub running: bool,
    shutdown_seq: BTreeMap<u32, u64>,
    shutdown_done: BTreeSet<u32>,
    heal_barriers: Vec<u64>,
    pubs: HashMap<u32, (usize, usize)>, // m -> conn, sent idx
    by_topic: HashMap<String, u32>,
    topics: Vec<String>,
    pause_total: u64,
    /// how much later than usual connections may be accepted
    accept_total: u64,
    accept_failed: bool,
    pub violations: Vec<Violation>,
    pub hits: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub want_trace: bool,
    pub tlog: Vec<TRec>,
    pub tseq: u64,
    assigned: BTreeMap<u32, BTreeSet<String>>,
    last_assigned: Option<String>,
    pub start_err_expected: bool,
    pub finished: bool,
    faults_present: bool,
    pub op_faults: BTreeMap<&'static str, u64>,
    /// what an idle broker without connections held: at first, and the most seen later
    idle_base: Option<simrt::mem::Held>,
    pub idle_max: Option<simrt::mem::Held>,
    idle_reported: bool,
    resident_base: BTreeMap<String, (u32, simrt::mem::Held)>,
    pub resident_max: Option<simrt::mem::Held>,
    resident_reported: bool,
    pub big_max: u64,
    big_reported: bool,
    program_late: bool,
}

thread_local! {
    pub static W: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
}
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _o = simrt::mem::outside();
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

pub struct Drv;
impl simrt::Driver for Drv {
    fn on_event(&mut self, ev: DriverEv) {
        w(|w| w.on_event(ev))
    }
    fn on_quiescent(&mut self) -> bool {
        let wk = w(|w| {
            let r = w.on_quiescent();
            (r, w.waker.take())
        });
        if let Some(k) = wk.1 {
            k.wake();
        }
        wk.0
    }
}

/// what may remain of anything that was served: tables and queues keep the room they once needed
const IDLE_BLOCKS: i64 = 16;
const IDLE_BYTES: i64 = 49_152;
const IDLE_TASKS: i64 = 4;

const T_OP: u64 = 1;
const T_SETTLE: u64 = 2;
const T_CMDS: u64 = 3;
const T_NOTHING: u64 = 4;
/// how long a listener may wait after a failure to accept
const ACCEPT_RETRY: u64 = 2 * SEC;
const T_TAIL: u64 = 1000;

pub const ANNOUNCED: [u32; 8] = [65_536, 300_000, 1 << 20, 4 << 20, (8 << 20) - 1, 8 << 20, (8 << 20) + 1, u32::MAX];
/// the head of a frame of n bytes
fn announce(n: u32) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend([0x5a; 16]);
    v
}

/// the size of the packet that begins like this, as far as it can be told
fn announced(b: &[u8]) -> usize {
    let mut n = 0;
    for k in 0..4 {
        let Some(&x) = b.get(1 + k) else { return 0 };
        n |= ((x & 0x7f) as usize) << (7 * k);
        if x < 0x80 {
            return 2 + k + n;
        }
    }
    0
}

/// the identifier n after this one, in the sense of its last number
fn successor(id: &str, n: u64) -> String {
    let b = id.as_bytes();
    let Some(e) = b.iter().rposition(|c| c.is_ascii_digit()) else { return format!("{}{}", id, n) };
    let s = b[..e].iter().rposition(|c| !c.is_ascii_digit()).map_or(0, |k| k + 1).max((e + 1).saturating_sub(15));
    let num: u64 = id[s..=e].parse().unwrap_or(0);
    format!("{}{:0w$}{}", &id[..s], num + n, &id[e + 1..], w = e + 1 - s)
}

pub fn connack_expected(cfg: &Cfg, spec: &ConnSpec, assigned: Option<&str>) -> Pkt {
    let mut exp = 0u32;
    let mut rm = 65535u16;
    for (k, v) in &spec.props {
        match (k, v) {
            (0x11, PVal::U32(x)) => exp = *x,
            (0x21, PVal::U16(x)) => rm = *x,
            _ => (),
        }
    }
    let mut p: Props = vec![
        (0x11, PVal::U32(exp)),
        (0x21, PVal::U16(rm)),
        (0x24, PVal::Byte(0)),
        (0x22, PVal::U16(0)),
        (0x28, PVal::Byte(0)),
        (0x29, PVal::Byte(0)),
        (0x2a, PVal::Byte(0)),
        (0x13, PVal::U16(cfg.keep_alive)),
    ];
    if let Some(a) = assigned {
        p.push((0x12, PVal::Str(a.to_string())));
    }
    Pkt::ConnAck { flags: 0, code: 0, props: p }.norm()
}

pub fn pub_packet(m: u32, topic: &str, props: &Props, size: u32, flags: u8, empty: bool) -> Pkt {
    let qos = (flags >> 1) & 3;
    let pid = if qos > 0 { Some((m as u16).max(1)) } else { None };
    let mut p = Pkt::Publish {
        dup: flags & 8 != 0,
        qos,
        retain: flags & 1 != 0,
        topic: topic.to_string(),
        pid,
        props: props.clone(),
        payload: if empty { vec![] } else { format!("<<{:08x}>>", m).into_bytes() },
    };
    let base = p.encode().len();
    if let Pkt::Publish { payload, .. } = &mut p {
        if !empty && size as usize > base {
            let mut r = simrt::Rng::new(m as u64);
            let mut fill = size as usize - base;
            loop {
                payload.truncate(12);
                payload.extend((0..fill).map(|_| (r.next() >> 11) as u8));
                // account for a longer length field
                let body = topic.len() + 2 + pid.map_or(0, |_| 2) + prop_len(props) + payload.len();
                let total = 1 + var_len(body) + body;
                if total <= size as usize || fill == 0 {
                    break;
                }
                fill -= (total - size as usize).min(fill);
            }
        }
    }
    p
}
fn var_len(n: usize) -> usize {
    let mut v = Vec::new();
    codec::put_var(&mut v, n as u32);
    v.len()
}
fn prop_len(p: &Props) -> usize {
    let mut v = Vec::new();
    codec::put_props(&mut v, p);
    v.len()
}

impl Item {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Item::Connect(s) => s.pkt().encode(),
            Item::Sub { pid, filters, props } => {
                Pkt::Subscribe { pid: *pid, props: props.clone(), filters: filters.clone() }.encode()
            }
            Item::Pub { pkt, .. } => pkt.encode(),
            Item::Raw { bytes, .. } => bytes.clone(),
        }
    }
}
pub fn grant(opts: u8) -> u8 {
    if opts & 3 == 0 && (opts >> 4) & 3 == 2 {
        0
    } else {
        0x83
    }
}

impl Conn {
    fn lim(&self, cfg: &Cfg) -> usize {
        let mut l = cfg.max_packet as usize;
        if let Some((_, _, s)) = &self.spec {
            for (k, v) in &s.props {
                if let (0x27, PVal::U32(x)) = (k, v) {
                    l = l.min(*x as usize);
                }
            }
        }
        if self.noise {
            l = l.min(NOISE_MAX);
        }
        l
    }
    fn connected_ok(&self) -> bool {
        self.connack.is_some()
    }
    fn ready(&self) -> bool {
        self.up && (!self.noise || self.nz.as_ref().map_or(false, |n| n.ready()))
    }
    /// granted requests for each filter: filter -> [(sent seq, acked seq, options, eff)]
    fn requests(&self) -> BTreeMap<&str, Vec<(u64, Option<u64>, u8, Eff)>> {
        let mut out: BTreeMap<&str, Vec<_>> = BTreeMap::new();
        let mut acks = self.rx.iter().filter(|r| matches!(r.pkt, Pkt::Codes { ty: 9, .. }));
        for s in &self.sent {
            if let Item::Sub { filters, props, .. } = &s.item {
                if props.iter().any(|p| p.0 == 0x0b) || s.eff == Eff::Never {
                    continue;
                }
                let ack = acks.next().map(|r| r.seq);
                for (f, o) in filters {
                    if grant(*o) == 0 {
                        out.entry(f.as_str()).or_default().push((s.seq, ack, *o, s.eff));
                    }
                }
            }
        }
        out
    }
    pub fn name(&self) -> String {
        format!(
            "conn {}{}{}",
            self.c,
            if self.noise { " (encrypted)" } else { "" },
            match &self.id {
                Some(i) => format!(" id {:?}", i),
                None => String::new(),
            }
        )
    }
}

/// a handshake message that has been altered on its way
fn deface(m: &mut Vec<u8>, c: u32) {
    let n = m.len() - 4;
    match c % 5 {
        0 => m[4 + n - 3] ^= 4,
        1 => {
            let x = vec![c as u8; 1 + (c as usize / 5) % 40];
            *m = noise::lframe(&[&m[4..], &x].concat());
        }
        2 => m[4 + (c as usize / 5) % n] ^= 1,
        3 => *m = noise::lframe(&m[4..4 + n - 1 - (c as usize / 5) % 20]),
        _ => m[4 + 16] ^= 0x40,
    }
}

impl World {
    pub fn new(sc: Scenario, want_trace: bool) -> World {
        let mut ops = sc.ops.clone();
        ops.push(OpT { dt: 1000, op: Op::Barrier { heal: true } });
        if !sc.cfg.program {
            ops.push(OpT { dt: 1000, op: Op::Shutdown });
            ops.push(OpT { dt: 1000, op: Op::Barrier { heal: true } });
        }
        let faults_present = ops.iter().any(|o| {
            matches!(
                o.op,
                Op::Raw { .. } | Op::Tamper { .. } | Op::Close { .. } | Op::Stall { .. } | Op::Hold { .. } | Op::AcceptErr { .. }
            )
        });
        World {
            sc,
            ops,
            next_op: 0,
            conns: vec![],
            by_c: HashMap::new(),
            by_sock: HashMap::new(),
            seq: 0,
            cmds: VecDeque::new(),
            waker: None,
            cmd_busy: 0,
            phase: Phase::Run,
            heal: false,
            for_start: false,
            life: 0,
            running: false,
            shutdown_seq: BTreeMap::new(),
            shutdown_done: BTreeSet::new(),
            heal_barriers: vec![],
            pubs: HashMap::new(),
            by_topic: HashMap::new(),
            topics: vec![],
            pause_total: 0,
            accept_total: 0,
            accept_failed: false,
            violations: vec![],
            hits: BTreeMap::new(),
            trace: vec![],
            want_trace,
            tlog: vec![],
            tseq: 0,
            assigned: BTreeMap::new(),
            last_assigned: None,
            start_err_expected: false,
            finished: false,
            faults_present,
            idle_base: None,
            idle_max: None,
            idle_reported: false,
            resident_base: BTreeMap::new(),
            resident_max: None,
            resident_reported: false,
            big_max: 0,
            big_reported: false,
            program_late: false,
            op_faults: BTreeMap::new(),
        }
    }
    pub fn kick(&mut self) {
        let dt = self.ops.first().map_or(0, |o| o.dt);
        simrt::timer_after(dt * 1000, T_OP);
    }
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace {
            let t = (simrt::now_ns() - 1_000_000_000_000) / 1000;
            let s = f();
            self.trace.push(format!("{:>10}us  {}", t, s));
        }
    }
    pub fn viol(&mut self, tags: &[&'static str], msg: String) {
        let mut tags = tags.to_vec();
        if self.sc.cfg.program {
            tags.push("S01");
        }
        tags.sort();
        tags.dedup();
        self.note(|| format!("VIOLATION {:?} {}", tags, msg));
        if self.violations.len() < 40 {
            self.violations.push(Violation { tags, msg });
        }
    }
    fn hit(&mut self, tag: &'static str) {
        *self.hits.entry(tag).or_default() += 1;
    }
    pub fn cmd_done(&mut self) {
        self.cmd_busy -= 1;
    }
    fn post(&mut self, c: Cmd) {
        self.cmd_busy += 1;
        self.cmds.push_back(c);
        if let Some(k) = self.waker.take() {
            k.wake();
        }
    }
    fn sched_next(&mut self) {
        self.phase = Phase::Run;
        if self.next_op < self.ops.len() {
            let dt = self.ops[self.next_op].dt;
            simrt::timer_after(dt * 1000, T_OP);
        } else {
            self.phase = Phase::Done;
            self.finished = true;
            self.post(Cmd::Finish);
        }
    }

    // ------------------------------------------------------------ events

    fn on_event(&mut self, ev: DriverEv) {
        match ev {
            DriverEv::Timer(T_OP) => self.run_op(),
            DriverEv::Timer(T_SETTLE) => self.phase = Phase::Settled,
            DriverEv::Timer(T_CMDS) => {
                if self.cmd_busy > 0 && self.phase == Phase::Cmds {
                    let life = self.life;
                    self.viol(
                        &["B18", "B14"],
                        format!("shutdown of broker {} does not complete: nothing left to run for 1 s and MqttServer::shutdown has not returned", life),
                    );
                    simrt::abort(simrt::Abort::Stuck);
                } else if self.phase == Phase::Cmds {
                    self.phase = Phase::Settled;
                }
            }
            DriverEv::Timer(t) if t >= T_TAIL => self.flush_tail((t - T_TAIL) as usize),
            DriverEv::Timer(_) => (),
            DriverEv::Connected(k) => {
                let i = self.by_sock[&k.conn];
                self.conns[i].up = true;
                self.conns[i].t_up = simrt::now_ns();
                let c = self.conns[i].c;
                self.note(|| format!("conn {} established", c));
                if self.conns[i].closed.is_some() {
                    return;
                }
                if self.conns[i].noise {
                    self.start_handshake(i);
                }
                self.flush(i);
            }
            DriverEv::ConnectFailed(k) => {
                let i = self.by_sock[&k.conn];
                self.conns[i].failed = true;
                let c = self.conns[i].c;
                self.note(|| format!("conn {} refused", c));
                let life = self.conns[i].life;
                if self.running && self.conns[i].closed.is_none() && !self.shutdown_seq.contains_key(&life) {
                    let on = if self.conns[i].noise { self.sc.cfg.noise } else { self.sc.cfg.mqtt };
                    if on {
                        self.viol(&["B14", "B18"], format!("conn {}: a running broker refuses connections", c));
                    }
                }
            }
            DriverEv::Data(k) => {
                let i = self.by_sock[&k.conn];
                let b = simrt::client_take(k);
                self.on_bytes(i, &b);
            }
            DriverEv::Eof(k) => self.on_closed(self.by_sock[&k.conn], false),
            DriverEv::Reset(k) => self.on_closed(self.by_sock[&k.conn], true),
        }
    }

    fn on_closed(&mut self, i: usize, reset: bool) {
        let s = self.tick();
        let now = simrt::now_ns();
        if self.conns[i].eof.is_some() {
            return;
        }
        self.conns[i].eof = Some((s, now));
        let n = self.conns[i].name();
        self.note(|| format!("{} closed by the broker ({})", n, if reset { "reset" } else { "eof" }));
        let left = self.conns[i].inbuf.len() + self.conns[i].nz.as_ref().map_or(0, |n| n.residue());
        if !reset && left > 0 && self.conns[i].closed.is_none() && !self.conns[i].client_bad {
            // a broker that closes mid-packet: only a shutdown, a takeover or the sender's own
            // fault may cut a packet short
            let st = self.status(i, true);
            if st == Status::Healthy {
                self.viol(&["B01", "B14"], format!("{}: connection closed in the middle of a packet", n));
            }
        }
        self.check_early_close(i);
    }

    fn start_handshake(&mut self, i: usize) {
        let salt = (self.conns[i].c + 1) as u8;
        let bad = self.conns[i].bad;
        let k = self.conns[i].sock;
        match bad {
            2 => {
                self.set_fatal(i, Fatal::BadHandshake);
                let b = ConnSpec { id: "plain".into(), clean: true, keep_alive: 0, props: vec![], user: None, pass: None, will: None };
                let mut v = b.pkt().encode();
                v.extend(Pkt::Subscribe { pid: 1, props: vec![], filters: vec![("#".into(), 0x20)] }.encode());
                simrt::client_send(k, &v);
                return;
            }
            4 => return,
            6 => return self.announce(i),
            _ => (),
        }
        if bad == 9 {
            if let Some(d) = (0..i).rev().find(|&d| self.conns[d].bad == 0 && self.conns[d].t_hs != 0 && !self.conns[d].wire_log.is_empty()) {
                let log = self.conns[d].wire_log.clone();
                let (c, o) = (self.conns[i].c, self.conns[d].c);
                self.set_fatal(i, Fatal::BadHandshake);
                self.conns[i].client_bad = true;
                self.note(|| format!("conn {} sends the {} bytes that conn {} has sent", c, log.len(), o));
                simrt::with(|s| s.stats.tamper += 1);
                simrt::client_send(k, &log);
                return;
            }
        }
        let mut n = Noise::new(bad == 1, salt);
        let mut m = n.first();
        if bad >= 8 {
            deface(&mut m, self.conns[i].c);
            self.set_fatal(i, Fatal::BadHandshake);
            self.conns[i].client_bad = true;
            simrt::with(|s| s.stats.tamper += 1);
            simrt::client_send(k, &m);
            return;
        }
        self.conns[i].wire_log.extend_from_slice(&m);
        self.conns[i].nz = Some(n);
        if bad == 1 {
            self.set_fatal(i, Fatal::BadHandshake);
        }
        simrt::client_send(k, &m);
    }

    fn announce(&mut self, i: usize) {
        self.set_fatal(i, Fatal::BadHandshake);
        self.conns[i].vague = true;
        let n = ANNOUNCED[self.conns[i].c as usize % ANNOUNCED.len()];
        simrt::client_send(self.conns[i].sock, &announce(n));
        self.conns[i].nz = None;
        self.conns[i].client_bad = true;
        let c = self.conns[i].c;
        self.note(|| format!("conn {} announces a frame of {} bytes and sends 20", c, n));
    }

    fn set_fatal(&mut self, i: usize, f: Fatal) {
        let s = self.tick();
        if self.conns[i].fatal.is_none() {
            self.conns[i].fatal = Some((s, f));
            self.conns[i].first_fatal_idx = self.conns[i].sent.len();
        }
    }

    fn on_bytes(&mut self, i: usize, b: &[u8]) {
        if self.conns[i].client_bad || self.conns[i].closed.map_or(false, |c| c.1 != How::Half) {
            return;
        }
        if self.conns[i].noise {
            self.conns[i].raw_in.extend_from_slice(b);
            let Some(mut n) = self.conns[i].nz.take() else {
                let nm = self.conns[i].name();
                self.viol(&["B21", "B07"], format!("{}: broker sent {} bytes to a peer that never started a handshake", nm, b.len()));
                self.conns[i].client_bad = true;
                return;
            };
            n.feed(b);
            let mut err = None;
            let mut msgs = vec![];
            if !n.ready() {
                if self.conns[i].bad == 1 {
                    err = Some("broker answered a handshake made with a wrong key".to_string());
                } else {
                    match n.handshake_step() {
                        Some(Ok(mut third)) => {
                            let k = self.conns[i].sock;
                            self.conns[i].t_hs = simrt::now_ns();
                            match self.conns[i].bad {
                                3 => {
                                    // stay silent: keep the session unusable
                                    self.conns[i].nz = None;
                                    self.conns[i].client_bad = true;
                                    return;
                                }
                                7 => return self.announce(i),
                                5 => {
                                    deface(&mut third, self.conns[i].c);
                                    simrt::with(|s| s.stats.tamper += 1);
                                    simrt::client_send(k, &third);
                                    self.conns[i].client_bad = true;
                                    self.set_fatal(i, Fatal::BadHandshake);
                                    return;
                                }
                                _ => {
                                    self.conns[i].wire_log.extend_from_slice(&third);
                                    simrt::client_send(k, &third)
                                }
                            }
                            let c = self.conns[i].c;
                            self.note(|| format!("conn {} handshake complete", c));
                        }
                        Some(Err(e)) => err = Some(e),
                        None => (),
                    }
                }
            }
            if err.is_none() {
                while let Some(r) = n.next() {
                    match r {
                        Ok(m) => msgs.push(m),
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
            }
            self.conns[i].nz = Some(n);
            if let Some(e) = err {
                let nm = self.conns[i].name();
                self.conns[i].client_bad = true;
                self.viol(&["B21"], format!("{}: {}", nm, e));
                return;
            }
            for m in msgs {
                match codec::decode(&m) {
                    Ok(Some((p, n))) if n == m.len() => self.on_pkt(i, p, n),
                    other => {
                        let nm = self.conns[i].name();
                        self.conns[i].client_bad = true;
                        self.viol(
                            &["B07", "B01", "B05"],
                            format!("{}: encrypted frame does not hold exactly one well-formed packet: {:?} in {}", nm, other.err(), codec::hex(&m[..m.len().min(60)])),
                        );
                        return;
                    }
                }
            }
            self.flush(i);
        } else {
            self.conns[i].inbuf.extend_from_slice(b);
            loop {
                match codec::decode(&self.conns[i].inbuf) {
                    Ok(Some((p, n))) => {
                        self.conns[i].inbuf.drain(..n);
                        self.on_pkt(i, p, n);
                    }
                    Ok(None) => break,
                    Err(e) => {
                        let nm = self.conns[i].name();
                        let h = codec::hex(&self.conns[i].inbuf[..self.conns[i].inbuf.len().min(60)]);
                        self.conns[i].client_bad = true;
                        self.viol(&["B07", "B01", "B05"], format!("{}: broker sent a malformed packet ({}): {}", nm, e, h));
                        break;
                    }
                }
            }
            self.flush(i);
        }
    }

    // ------------------------------------------------------------ sending

    fn flush(&mut self, i: usize) {
        loop {
            let c = &self.conns[i];
            if !c.ready() || c.closed.is_some() || c.outq.is_empty() || c.client_bad {
                return;
            }
            // after part of a packet only more pieces of it may follow
            let fits = match c.outq[0] {
                Item::Raw { class: RawClass::Piece(off), .. } => off == c.pieces,
                _ => !c.incomplete,
            };
            if !fits {
                if c.incomplete {
                    return;
                }
                self.conns[i].outq.pop_front();
                continue;
            }
            if c.wait && c.spec.is_some() && c.connack.is_none() {
                return;
            }
            let it = self.conns[i].outq.pop_front().unwrap();
            self.send_item(i, it);
        }
    }

    fn send_item(&mut self, i: usize, item: Item) {
        let bytes = item.bytes();
        let len = bytes.len();
        let seq = self.tick();
        let now = simrt::now_ns();
        let max = self.sc.cfg.max_packet as usize;
        let first = self.conns[i].spec.is_none();
        let prior = self.conns[i].fatal;
        // what kind of trouble is this item?
        let mut f: Option<Fatal> = None;
        match &item {
            Item::Connect(s) => {
                if !first {
                    f = Some(Fatal::Unsup);
                } else if len > max {
                    f = Some(Fatal::Oversize);
                } else if !s.supported() {
                    f = Some(Fatal::Refused);
                }
            }
            Item::Sub { props, .. } => {
                if first {
                    f = Some(Fatal::NotConnect);
                } else if len > max {
                    f = Some(Fatal::Oversize);
                } else if props.iter().any(|p| p.0 == 0x0b) {
                    f = Some(Fatal::Unsup);
                }
            }
            Item::Pub { unsup, .. } => {
                if len > max {
                    f = Some(Fatal::Oversize);
                } else if first {
                    f = Some(Fatal::NotConnect);
                } else if *unsup {
                    f = Some(Fatal::Unsup);
                }
            }
            Item::Raw { class, .. } => match class {
                RawClass::Malformed | RawClass::Garbage => f = Some(Fatal::Malformed),
                RawClass::Unsup => f = Some(if first { Fatal::NotConnect } else { Fatal::Unsup }),
                RawClass::Announce => {
                    // refused right away or waited for in vain
                    self.conns[i].incomplete = true;
                    self.conns[i].pieces = u32::MAX;
                    self.conns[i].vague = true;
                }
                RawClass::Incomplete => {
                    self.conns[i].incomplete = true;
                    self.conns[i].pieces = u32::MAX;
                    // the beginning of a packet that is above the limit may be refused right away
                    self.conns[i].vague |= announced(&bytes) > max;
                }
                RawClass::Piece(off) => {
                    self.conns[i].incomplete = true;
                    self.conns[i].pieces += len as u32;
                    self.conns[i].vague |= *off == 0 && announced(&bytes) > max;
                }
            },
        }
        if len > max && f.is_none() && !self.conns[i].incomplete {
            f = Some(Fatal::Oversize);
        }
        // encrypted frames: tampering
        let mut tampered = false;
        let k = self.conns[i].sock;
        let mut wire: Vec<Vec<u8>> = vec![];
        let mut dropped = false;
        if self.conns[i].noise {
            let tk = self.conns[i].tamper.pop_front();
            if let Some(TamperKind::Plain) = tk {
                wire.push(bytes.clone());
                tampered = true;
            } else if let Some(TamperKind::Announce(n)) = tk {
                wire.push(announce(n));
                tampered = true;
                self.conns[i].vague = true;
            } else {
                let sealed = self.conns[i].nz.as_mut().unwrap().seal(&bytes);
                match sealed {
                    None => {
                        // larger than any encrypted message: send a frame that claims it
                        let mut fr = bytes.clone();
                        fr.resize(len.max(65536), 0x5a);
                        wire.push(noise::lframe(&fr));
                        f = Some(Fatal::Oversize);
                    }
                    Some(mut fr) => {
                        match tk {
                            Some(TamperKind::Flip(b)) => {
                                let n = fr.len() - 4;
                                let p = 4 + (b as usize / 8) % n;
                                fr[p] ^= 1 << (b % 8);
                                tampered = true;
                            }
                            Some(TamperKind::Cut(b)) => {
                                let n = fr.len() - 4;
                                let cut = 1 + (b as usize) % n;
                                fr = noise::lframe(&fr[4..4 + n - cut]);
                                tampered = true;
                            }
                            Some(TamperKind::Extend(b)) => {
                                fr = noise::lframe(&[&fr[4..], &vec![b as u8; 1 + (b as usize >> 8) % 20]].concat());
                                tampered = true;
                            }
                            _ => (),
                        }
                        match tk {
                            Some(TamperKind::Drop) => dropped = true,
                            Some(TamperKind::Swap) => {
                                dropped = true;
                                self.conns[i].swap_hold = Some(fr.clone());
                            }
                            Some(TamperKind::Replay) => {
                                wire.push(fr.clone());
                                wire.push(fr.clone());
                            }
                            _ => wire.push(fr.clone()),
                        }
                        if let (false, Some(h)) = (dropped, self.conns[i].swap_hold.take()) {
                            wire.push(h);
                        }
                    }
                }
            }
            if tampered || matches!(tk, Some(TamperKind::Replay)) {
                simrt::with(|s| {
                    s.stats.tamper += 1;
                    if matches!(tk, Some(TamperKind::Replay)) {
                        s.stats.replayed_frames += 1;
                    }
                });
            }
            if dropped {
                // the frame never reaches the wire; the next one will not verify
                simrt::with(|s| s.stats.tamper += 1);
                self.conns[i].tamper.clear();
                self.conns[i].unreadable = true;
                self.conns[i].sent.push(Sent { seq, item: item.clone(), eff: Eff::Never, len });
                if let Item::Connect(s) = &item {
                    if first {
                        // never arrives
                        let _ = s;
                    }
                }
                let nm = self.conns[i].name();
                self.note(|| format!("{} frame withheld: {:?}", nm, short(&item)));
                self.conns[i].tamper.push_front(TamperKind::Flip(u32::MAX)); // marker: next frame is out of sequence
                return;
            }
            if let Some(TamperKind::Flip(u32::MAX)) = tk {
                // out of sequence: already corrupt through the nonce; undo the flip is not needed
            }
        } else {
            wire.push(bytes.clone());
        }
        if tampered {
            f = Some(Fatal::Tamper);
        }
        let eff = match prior {
            None => {
                if f.is_some() {
                    Eff::Never
                } else {
                    Eff::Normal
                }
            }
            // after an unsupported request, or one whose answer the client cannot take, what was
            // already on its way may still be looked at
            Some((_, x)) if x == Fatal::Unsup || x == Fatal::TooSmall && self.conns[i].first_fatal_idx > 0 => {
                let hard = self.conns[i].unreadable;
                self.conns[i].unreadable |= matches!(f, Some(f) if f != Fatal::Unsup);
                if f.is_some() || hard {
                    Eff::Never
                } else {
                    Eff::May
                }
            }
            Some(_) => Eff::Never,
        };
        if prior.is_none() {
            if let Some(f) = f {
                self.conns[i].fatal = Some((seq, f));
                self.conns[i].first_fatal_idx = self.conns[i].sent.len();
            }
        }
        if let Item::Connect(s) = &item {
            if first && !tampered {
                self.conns[i].spec = Some((seq, now, s.clone()));
                if !s.id.is_empty() {
                    self.conns[i].id = Some(s.id.clone());
                }
                if f.is_none() && prior.is_none() {
                    let e = connack_expected(&self.sc.cfg, s, if s.id.is_empty() { Some("xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx") } else { None });
                    if e.encode().len() > self.conns[i].lim(&self.sc.cfg) {
                        self.conns[i].fatal = Some((seq, Fatal::TooSmall));
                        self.conns[i].first_fatal_idx = self.conns[i].sent.len();
                    }
                }
            }
        }
        if let Item::Sub { filters, .. } = &item {
            // very deep filters make every walk over the subscription tree long
            let deep: usize = filters.iter().map(|f| f.0.bytes().filter(|b| *b == b'/').count()).sum();
            simrt::with(|s| s.allowance += 40 * deep as u64);
        }
        if let (Item::Sub { filters, .. }, false) = (&item, first) {
            for (flt, _) in filters {
                let many = flt.starts_with("m/");
                let t = flt.replace('+', "q").replace('#', "w");
                let lim = if many { 160 } else { 20 };
                if t.len() < 60 && self.topics.len() < lim && !self.topics.contains(&t) {
                    self.topics.push(t);
                }
            }
        }
        if let Item::Sub { filters, .. } = &item {
            // an acknowledgement the client could not take
            let l = Pkt::Codes { ty: 9, pid: 1, props: vec![], codes: vec![0; filters.len()] }.encode().len();
            if l > self.conns[i].lim(&self.sc.cfg) && self.conns[i].fatal.is_none() {
                self.conns[i].fatal = Some((seq, Fatal::TooSmall));
                self.conns[i].first_fatal_idx = self.conns[i].sent.len();
            }
        }
        if let Item::Pub { m, pkt, .. } = &item {
            let idx = self.conns[i].sent.len();
            self.pubs.insert(*m, (i, idx));
            if let Pkt::Publish { topic, payload, .. } = pkt {
                if payload.is_empty() {
                    self.by_topic.insert(topic.clone(), *m);
                }
                if !self.topics.contains(topic) && self.topics.len() < 12 {
                    self.topics.push(topic.clone());
                }
            }
        }
        let nm = self.conns[i].name();
        self.note(|| format!("{} sends {} ({} bytes){}", nm, short(&item), len, f.map_or(String::new(), |f| format!(" [{:?}]", f))));
        self.conns[i].sent.push(Sent { seq, item, eff, len });
        let replay = wire.len() > 1;
        let piece = matches!(self.conns[i].sent.last().map(|s| &s.item), Some(Item::Raw { class: RawClass::Piece(_), .. }));
        for b in wire {
            self.wire_out(i, b, piece);
        }
        if replay && self.conns[i].fatal.is_none() {
            let s = self.tick();
            self.conns[i].fatal = Some((s, Fatal::Tamper));
            self.conns[i].first_fatal_idx = self.conns[i].sent.len();
        }
    }

    fn wire_out(&mut self, i: usize, b: Vec<u8>, plain: bool) {
        let k = self.conns[i].sock;
        if self.conns[i].noise && self.conns[i].wire_log.len() < 40_000 {
            self.conns[i].wire_log.extend_from_slice(&b);
        }
        let p = self.sc.sim.edge;
        if p == 0 {
            simrt::client_send(k, &b);
            return;
        }
        let n = b.len();
        // how many bytes of this packet go out now
        let cut = if plain || self.phase != Phase::Run {
            n
        } else {
            simrt::with(|s| {
                if s.chance(simrt::K::Seg, p) {
                    s.stats.glued += 1;
                    match s.uniform(simrt::K::Seg, 8) {
                        0..=2 => 0,
                        3 => 1,
                        4 => 2,
                        5 => n - 1,
                        6 => 5,
                        _ => s.uniform(simrt::K::Seg, n as u32) as usize,
                    }
                } else {
                    n
                }
            })
        }
        .min(n);
        let mut out = std::mem::take(&mut self.conns[i].tail);
        out.extend_from_slice(&b[..cut]);
        if !out.is_empty() && cut > 0 {
            simrt::client_send(k, &out);
            out.clear();
        }
        out.extend_from_slice(&b[cut..]);
        if !out.is_empty() {
            self.conns[i].tail = out;
            simrt::timer_after(300_000, T_TAIL + i as u64);
        }
    }
    fn flush_tail(&mut self, i: usize) {
        let t = std::mem::take(&mut self.conns[i].tail);
        if !t.is_empty() {
            simrt::client_send(self.conns[i].sock, &t);
        }
    }
    fn flush_tails(&mut self) {
        for i in 0..self.conns.len() {
            self.flush_tail(i);
        }
    }

    // ------------------------------------------------------------ operations

    fn ci(&self, c: u32) -> Option<usize> {
        self.by_c.get(&c).copied()
    }

    fn run_op(&mut self) {
        let op = self.ops[self.next_op].op.clone();
        self.next_op += 1;
        let mut cont = true;
        match op {
            Op::Start => {
                if self.running && !self.shutdown_seq.contains_key(&self.life) {
                    // already running
                } else {
                    self.phase = Phase::Quiesce;
                    self.heal = true;
                    self.for_start = true;
                    self.flush_tails();
                    self.do_heal();
                    cont = false;
                }
            }
            Op::Shutdown => {
                if self.running && !self.shutdown_seq.contains_key(&self.life) {
                    let s = self.tick();
                    let life = self.life;
                    self.shutdown_seq.insert(life, s);
                    self.note(|| format!("shutdown of broker {}", life));
                    self.post(Cmd::Shutdown);
                }
            }
            Op::Open { c, noise, wait, bad } => {
                if self.by_c.contains_key(&c) {
                    // ignore
                } else {
                    let a = if noise { noise_addr() } else { mqtt_addr() };
                    let k = simrt::client_connect(a);
                    let i = self.conns.len();
                    let now = simrt::now_ns();
                    self.conns.push(Conn {
                        c,
                        noise,
                        wait,
                        bad,
                        sock: k,
                        up: false,
                        failed: false,
                        nz: None,
                        life: self.life,
                        t_open: now,
                        t_up: 0,
                        t_hs: 0,
                        outq: VecDeque::new(),
                        sent: vec![],
                        fatal: None,
                        first_fatal_idx: 0,
                        incomplete: false,
                        pieces: 0,
                        inbuf: vec![],
                        wire_log: vec![],
                        rx: vec![],
                        spec: None,
                        connack: None,
                        id: None,
                        eof: None,
                        closed: None,
                        stalled: false,
                        held: false,
                        ever_held: false,
                        raw_in: vec![],
                        tamper: VecDeque::new(),
                        swap_hold: None,
                        tail: vec![],
                        client_bad: false,
                        vague: false,
                        unreadable: false,
                        suback_n: 0,
                        got_disc: false,
                        clean_dead_barrier: false,
                    });
                    self.by_c.insert(c, i);
                    self.by_sock.insert(k.conn, i);
                    self.note(|| format!("conn {} opens to the {} port", c, if noise { "encrypted" } else { "plain" }));
                }
            }
            Op::Connect { c, mut spec } => {
                if let Some(n) = spec.id.strip_prefix("@+").and_then(|n| n.parse::<u64>().ok()) {
                    spec.id = successor(self.last_assigned.as_deref().unwrap_or("0"), n);
                    self.note(|| format!("conn {} guesses the identifier {:?}", c, spec.id));
                }
                self.queue(c, Item::Connect(spec))
            }
            Op::Sub { c, pid, filters, props } => self.queue(c, Item::Sub { pid, filters, props }),
            Op::Pub { c, m, topic, props, size, flags, empty } => {
                let unsup = flags & 0xf != 0 || props.iter().any(|p| matches!(p.0, 0x02 | 0x23 | 0x0b));
                let pkt = pub_packet(m, &topic, &props, size, flags, empty);
                self.queue(c, Item::Pub { m, pkt, unsup })
            }
            Op::PubMany { c, m, n, topic, size } => {
                for k in 0..n {
                    let pkt = pub_packet(m + k, &topic, &vec![], size, 0, false);
                    self.queue(c, Item::Pub { m: m + k, pkt, unsup: false })
                }
            }
            Op::Raw { c, class, bytes, why } => self.queue(c, Item::Raw { class, bytes, why }),
            Op::Tamper { c, kind } => {
                if let Some(i) = self.ci(c) {
                    if self.conns[i].noise {
                        self.conns[i].tamper.push_back(kind);
                    }
                }
            }
            Op::Close { c, how } => {
                if let Some(i) = self.ci(c) {
                    if self.conns[i].closed.is_none() && !self.conns[i].failed {
                        let s = self.tick();
                        let k = self.conns[i].sock;
                        let nm = self.conns[i].name();
                        self.flush_tail(i);
                        self.note(|| format!("{} client {:?}", nm, how));
                        self.conns[i].closed = Some((s, how));
                        match how {
                            How::Fin => simrt::client_close(k),
                            How::Half => simrt::client_half_close(k),
                            How::Rst => simrt::client_abort(k, false),
                            How::Purge => simrt::client_abort(k, true),
                        }
                    }
                }
            }
            Op::Stall { c } => {
                if let Some(i) = self.ci(c) {
                    if !self.conns[i].stalled && !self.conns[i].failed {
                        self.conns[i].stalled = true;
                        if self.conns[i].connack.is_none() && self.sc.sim.window < 512 {
                            // not even the CONNACK fits in the buffers: the time to connect may run out
                            self.conns[i].ever_held = true;
                        }
                        simrt::client_set_reading(self.conns[i].sock, false);
                        self.note(|| format!("conn {} stops reading", c));
                    }
                }
            }
            Op::Unstall { c } => {
                if let Some(i) = self.ci(c) {
                    self.unstall(i);
                }
            }
            Op::Hold { c, ms } => {
                if let Some(i) = self.ci(c) {
                    let k = self.conns[i].sock;
                    self.conns[i].ever_held = true;
                    if ms == 0 {
                        self.conns[i].held = true;
                        simrt::hold(k, u64::MAX);
                    } else if !self.conns[i].held {
                        simrt::hold(k, ms as u64 * MS);
                    }
                    self.note(|| format!("conn {} partitioned ({} ms)", c, ms));
                }
            }
            Op::AcceptErr { noise, kind, ms } => {
                let a = if noise { noise_addr() } else { mqtt_addr() };
                let kinds = [
                    std::io::ErrorKind::ConnectionAborted,
                    std::io::ErrorKind::Other,
                    std::io::ErrorKind::ConnectionReset,
                    std::io::ErrorKind::OutOfMemory,
                    std::io::ErrorKind::PermissionDenied,
                    std::io::ErrorKind::Interrupted,
                    std::io::ErrorKind::InvalidInput,
                ];
                let k = kinds[kind as usize % kinds.len()];
                let port = if noise { "encrypted" } else { "plain" };
                self.accept_failed = true;
                self.accept_total += ms as u64 * MS + ACCEPT_RETRY;
                if ms == 0 {
                    simrt::inject_accept_error(a, k);
                    self.note(|| format!("accept error on the {} port", port));
                } else {
                    simrt::fail_accepts(a, k, ms as u64 * MS);
                    simrt::timer_after(ms as u64 * MS, T_NOTHING);
                    self.note(|| format!("accepting on the {} port fails for {} ms", port, ms));
                }
            }
            Op::BindErr { noise } => {
                let a = if noise { noise_addr() } else { mqtt_addr() };
                let used = if noise { self.sc.cfg.noise } else { self.sc.cfg.mqtt };
                if used {
                    simrt::inject_bind_error(a, std::io::ErrorKind::AddrInUse);
                    self.start_err_expected = true;
                }
            }
            Op::Pause { ms } => {
                self.pause_total += ms as u64 * MS;
                self.note(|| format!("process paused for {} ms", ms));
                simrt::pause_process(ms as u64 * MS);
            }
            Op::List => {
                if self.running && !self.shutdown_seq.contains_key(&self.life) {
                    let v = self.used_sessions();
                    self.note(|| "client list asked for".into());
                    self.post(Cmd::List(v));
                }
            }
            Op::Barrier { heal } => {
                self.phase = Phase::Quiesce;
                self.heal = heal;
                self.for_start = false;
                self.flush_tails();
                if heal {
                    self.do_heal();
                }
                cont = false;
            }
            Op::Table { tasks } => {
                if self.running && !self.shutdown_seq.contains_key(&self.life) {
                    self.phase = Phase::TableWait;
                    self.post(Cmd::Table(tasks));
                    cont = false;
                }
            }
        }
        if cont {
            self.sched_next();
        }
    }

    fn queue(&mut self, c: u32, it: Item) {
        if let Some(i) = self.ci(c) {
            if self.conns[i].closed.is_none() && self.conns[i].outq.len() < 20_000 {
                self.conns[i].outq.push_back(it);
                self.flush(i);
            }
        }
    }

    fn unstall(&mut self, i: usize) {
        if self.conns[i].stalled {
            self.conns[i].stalled = false;
            for ev in simrt::client_set_reading(self.conns[i].sock, true) {
                self.on_event(ev);
            }
        }
    }

    fn do_heal(&mut self) {
        for i in 0..self.conns.len() {
            self.unstall(i);
            if self.conns[i].ever_held {
                self.conns[i].held = false;
                simrt::release(self.conns[i].sock);
            }
        }
    }

    fn on_quiescent(&mut self) -> bool {
        match self.phase {
            Phase::Quiesce => {
                self.phase = Phase::Settle;
                let retry = if std::mem::take(&mut self.accept_failed) { ACCEPT_RETRY } else { 0 };
                simrt::timer_after(20 * MS + retry, T_SETTLE);
                true
            }
            Phase::Settled => {
                if self.cmd_busy > 0 {
                    self.phase = Phase::Cmds;
                    simrt::timer_after(SEC, T_CMDS);
                    return true;
                }
                if self.for_start {
                    self.for_start = false;
                    self.phase = Phase::StartWait;
                    self.post(Cmd::Start);
                    return true;
                }
                self.phase = Phase::Snapshot;
                let t = self.topics.clone();
                self.post(Cmd::Snapshot(t));
                true
            }
            Phase::Snapshot => {
                self.viol(&["B13", "B14"], "deadlock: the client list or subscriber lookup never returns on an idle broker".into());
                false
            }
            Phase::StartWait if self.sc.cfg.program && !std::mem::replace(&mut self.program_late, true) => {
                simrt::timer_after(20 * SEC, T_NOTHING);
                true
            }
            Phase::StartWait if self.sc.cfg.program => {
                self.viol(&[], "the server program runs and starts no broker".into());
                false
            }
            Phase::StartWait => {
                self.viol(&["B18", "B14"], "deadlock: MqttServer::new never returns".into());
                false
            }
            Phase::TableWait => {
                self.viol(&["B22", "B14"], "deadlock: calls on the subscription table never return".into());
                false
            }
            _ => false,
        }
    }

    /// before the first step of the program's main
    pub fn program_begins(&mut self) {
        if let Some(Op::BindErr { noise }) = self.ops.first().map(|o| o.op.clone()) {
            let a = if noise { noise_addr() } else { mqtt_addr() };
            simrt::inject_bind_error(a, std::io::ErrorKind::AddrInUse);
            self.start_err_expected = true;
        }
    }
    /// by itself; true if that is what it should have done
    pub fn program_ended(&mut self, how: Option<bool>) -> bool {
        let t = (simrt::now_ns() - 1_000_000_000_000) / SEC;
        if self.start_err_expected {
            self.hit("S01");
            if how == Some(true) {
                self.viol(&[], "the server program ends with success although it could not bind one of its addresses".into());
            }
            return true;
        }
        self.viol(&[], format!("the server program ends by itself after {} s", t));
        false
    }

    // called by the main future
    pub fn started(&mut self, err: Option<String>) {
        let expect = std::mem::take(&mut self.start_err_expected);
        simrt::clear_bind_errors();
        match err {
            None => {
                self.life += 1;
                self.running = true;
                let l = self.life;
                self.note(|| format!("broker {} started", l));
                self.hit("B18");
                if self.sc.cfg.program {
                    self.hit("S01");
                }
                if expect {
                    self.viol(&["B18"], "start succeeded although an address could not be bound".into());
                }
                let (m, n) = (self.sc.cfg.mqtt, self.sc.cfg.noise);
                if (m && !simrt::is_listening(mqtt_addr())) || (n && !simrt::is_listening(noise_addr())) {
                    self.viol(&["B18", "B14"], "start succeeded but a configured address is not listening".into());
                }
            }
            Some(e) => {
                self.note(|| format!("start failed: {}", e));
                if self.sc.cfg.program {
                    self.viol(&[], format!("the server program goes on without a broker: {}", e));
                } else if !expect {
                    self.viol(&["B18", "B23"], format!("start failed although every address is free: {}", e));
                } else {
                    self.hit("B18");
                }
                self.running = false;
            }
        }
        self.sched_next();
    }
    /// some time after a failed start: nothing may be left
    pub fn after_failed_start(&mut self) {
        if simrt::is_listening(mqtt_addr()) || simrt::is_listening(noise_addr()) {
            self.viol(&["B18"], "start failed but an address is still being listened on".into());
        }
    }
    pub fn shut_down(&mut self) {
        let l = self.life;
        self.shutdown_done.insert(l);
        self.running = false;
        self.note(|| format!("shutdown of broker {} returned", l));
        self.hit("B18");
        if simrt::is_listening(mqtt_addr()) || simrt::is_listening(noise_addr()) {
            self.viol(&["B18"], "shutdown returned but an address is still being listened on".into());
        }
        let open: Vec<String> = (0..self.conns.len())
            .filter(|&i| self.conns[i].life == l && self.conns[i].connack.is_some() && !simrt::server_end_closed(self.conns[i].sock.conn))
            .map(|i| self.conns[i].name())
            .collect();
        if !open.is_empty() {
            self.viol(&["B18"], format!("shutdown returned but the sessions of {:?} still hold their connections open", open));
        }
    }
    pub fn table_done(&mut self, recs: Vec<TRec>, leak: Vec<String>) {
        crate::table::check(self, &recs, &leak);
        for _ in 0..recs.len() {
            self.hit("B22");
        }
        self.tlog.extend(recs);
        self.sched_next();
    }

    // ------------------------------------------------------------ receiving

    fn on_pkt(&mut self, i: usize, p: Pkt, len: usize) {
        let seq = self.tick();
        let nm = self.conns[i].name();
        self.note(|| format!("{} receives {}", nm, short_pkt(&p)));
        let lim = self.conns[i].lim(&self.sc.cfg);
        if self.conns[i].spec.is_none() {
            self.viol(&["B07"], format!("{}: broker sent {} before any CONNECT", nm, short_pkt(&p)));
        }
        if len > lim && self.conns[i].spec.is_some() {
            self.viol(&["B17"], format!("{}: received a packet of {} bytes, the limit is {}", nm, len, lim));
        }
        self.hit("B17");
        if self.conns[i].got_disc {
            self.viol(&["B15"], format!("{}: received {} after DISCONNECT", nm, short_pkt(&p)));
        }
        let first = self.conns[i].rx.is_empty();
        match &p {
            Pkt::ConnAck { .. } => self.rx_connack(i, &p, first),
            _ if first => {
                self.viol(&["B07"], format!("{}: first packet from the broker is {}, not CONNACK", nm, short_pkt(&p)));
            }
            _ => (),
        }
        match &p {
            Pkt::ConnAck { .. } => (),
            Pkt::Publish { .. } => {
                if self.conns[i].connack.is_none() {
                    self.viol(&["B08", "B02", "B07"], format!("{}: received a PUBLISH without an accepted session", nm));
                }
                self.rx_publish(i, &p, seq, len)
            }
            Pkt::Codes { ty: 9, pid, codes, props } => {
                let (pid, codes, np) = (*pid, codes.clone(), props.len());
                self.rx_suback(i, pid, codes, np);
            }
            Pkt::Disconnect { code, .. } => {
                let asked = self.conns[i].sent.iter().any(|s| is_unsup(&s.item));
                let second_connect = self.conns[i].sent.iter().filter(|s| matches!(s.item, Item::Connect(_))).count() > 1;
                if !asked && !second_connect {
                    self.viol(&["B15", "B14"], format!("{}: DISCONNECT 0x{:02x} without an unsupported request", nm, code));
                } else if *code != 0x83 {
                    self.viol(&["B15"], format!("{}: DISCONNECT with reason 0x{:02x} instead of 0x83", nm, code));
                }
                self.conns[i].got_disc = true;
            }
            other => {
                self.viol(&["B07", "B15", "B05"], format!("{}: unexpected {}", nm, short_pkt(other)));
            }
        }
        self.conns[i].rx.push(Rx { seq, pkt: p });
        if self.conns[i].noise {
            self.hit("B21");
        }
    }

    fn rx_connack(&mut self, i: usize, p: &Pkt, first: bool) {
        let nm = self.conns[i].name();
        if !first {
            self.viol(&["B07"], format!("{}: CONNACK is not the first or not the only one", nm));
            return;
        }
        let Some((_, _, spec)) = self.conns[i].spec.clone() else { return };
        let Pkt::ConnAck { code, props, .. } = p else { return };
        if !spec.supported() {
            self.hit("B08");
            let want = Pkt::ConnAck { flags: 0, code: 0x83, props: vec![] };
            if *p != want {
                self.viol(&["B08"], format!("{}: unsupported CONNECT answered with {:?}", nm, p));
                if *code == 0 {
                    self.conns[i].connack = Some(self.seq);
                }
            }
            return;
        }
        self.hit("B07");
        if *code != 0 {
            self.viol(&["B07", "B14"], format!("{}: supported CONNECT refused with 0x{:02x}", nm, code));
            return;
        }
        let assigned = props.iter().find_map(|p| match p {
            (0x12, PVal::Str(s)) => Some(s.clone()),
            _ => None,
        });
        if spec.id.is_empty() {
            self.hit("B10");
            match &assigned {
                None => self.viol(&["B07", "B10"], format!("{}: no identifier assigned to an anonymous client", nm)),
                Some(a) => {
                    let life = self.conns[i].life;
                    let explicit = self.conns.iter().any(|c| c.life == life && c.spec.as_ref().map_or(false, |s| !s.2.id.is_empty() && s.2.id == *a));
                    let fresh = self.assigned.entry(life).or_default().insert(a.clone());
                    if a.is_empty() || !fresh || explicit {
                        self.viol(&["B10"], format!("{}: assigned identifier {:?} is empty or already in use", nm, a));
                    }
                    self.conns[i].id = Some(a.clone());
                    self.last_assigned = Some(a.clone());
                }
            }
        } else if assigned.is_some() {
            self.viol(&["B07", "B10"], format!("{}: an identifier was assigned although the client has one", nm));
        }
        let want = connack_expected(&self.sc.cfg, &spec, if spec.id.is_empty() { assigned.as_deref() } else { None });
        if assigned.is_some() == spec.id.is_empty() && p.clone().norm() != want {
            self.viol(&["B07"], format!("{}: CONNACK {:?}, expected {:?}", nm, p, want));
        }
        self.conns[i].connack = Some(self.seq);
    }

    fn rx_suback(&mut self, i: usize, pid: u16, codes: Vec<u8>, nprops: usize) {
        let nm = self.conns[i].name();
        let n = self.conns[i].suback_n;
        self.conns[i].suback_n += 1;
        let want = self
            .conns[i]
            .sent
            .iter()
            .filter(|s| s.eff != Eff::Never)
            .filter_map(|s| match &s.item {
                Item::Sub { pid, filters, .. } => Some((*pid, filters.iter().map(|f| grant(f.1)).collect::<Vec<u8>>())),
                _ => None,
            })
            .nth(n);
        self.hit("B05");
        match want {
            None => self.viol(&["B05", "B15"], format!("{}: SUBACK {} answers no SUBSCRIBE", nm, pid)),
            Some((wp, wc)) => {
                if wp != pid || wc != codes || nprops != 0 {
                    self.viol(
                        &["B05"],
                        format!("{}: SUBACK number {} is id {} codes {:02x?}, expected id {} codes {:02x?}", nm, n, pid, codes, wp, wc),
                    );
                }
            }
        }
    }

    fn pub_of(&self, p: &Pkt) -> Option<u32> {
        if let Pkt::Publish { topic, payload, .. } = p {
            if payload.len() >= 12 && &payload[..2] == b"<<" && &payload[10..12] == b">>" {
                if let Ok(s) = std::str::from_utf8(&payload[2..10]) {
                    return u32::from_str_radix(s, 16).ok();
                }
            }
            if payload.is_empty() {
                return self.by_topic.get(topic).copied();
            }
        }
        None
    }

    fn rx_publish(&mut self, i: usize, p: &Pkt, seq: u64, _len: usize) {
        let nm = self.conns[i].name();
        let m = self.pub_of(p);
        let rec = m.and_then(|m| self.pubs.get(&m).copied().map(|r| (m, r)));
        let Some((m, (pc, si))) = rec else {
            self.viol(&["B02", "B01"], format!("{}: received a PUBLISH nobody sent: {}", nm, short_pkt(p)));
            return;
        };
        let (want, topic, eff, fatal_item, psize) = {
            let s = &self.conns[pc].sent[si];
            let Item::Pub { pkt, unsup, .. } = &s.item else { return };
            let Pkt::Publish { topic, .. } = pkt else { return };
            (pkt.clone(), topic.clone(), s.eff, *unsup, s.len)
        };
        self.hit("B02");
        if p.clone().norm() != want.norm() {
            self.viol(&["B01"], format!("{}: message {} arrived altered: {}", nm, m, diff_pub(&self.conns[pc].sent[si].item, p)));
        }
        // duplicates
        let dup = self.conns[i].rx.iter().any(|r| matches!(r.pkt, Pkt::Publish { .. }) && self.pub_of(&r.pkt) == Some(m));
        if dup {
            let mut t = vec!["B01", "B02", "B23"];
            if self.conns[i].requests().keys().filter(|f| matches(f, &topic)).count() > 1 {
                t.push("B06");
            }
            self.viol(&t, format!("{}: message {} delivered more than once", nm, m));
        }
        // was it something that may be delivered at all?
        if eff == Eff::Never || fatal_item {
            let f = self.conns[pc].fatal.map(|f| f.1);
            let mut t = vec!["B02"];
            if let Some(f) = f {
                t.push(f.tag());
            }
            if fatal_item {
                t.push("B15");
            }
            self.viol(
                &t,
                format!("{}: received message {} of {}, which must have no effect ({:?}, {} bytes)", nm, m, self.conns[pc].name(), f, psize),
            );
        }
        if self.conns[pc].life != self.conns[i].life {
            self.viol(&["B18", "B02"], format!("{}: received message {} sent to an earlier broker", nm, m));
        }
        if self.sc.cfg.noise {
            self.hit("B19");
        }
        if self.sc.cfg.strict && self.conns[pc].noise && !self.conns[i].noise {
            self.viol(&["B19", "B02"], format!("{}: received message {} published over an encrypted connection of a strict broker", nm, m));
        }
        if !self.may_deliver(i, pc, si, seq) {
            let mut t = vec!["B02"];
            let reqs = self.conns[i].requests();
            let any_match = reqs.keys().any(|f| matches(f, &topic));
            let refused_match = self.conns[i].sent.iter().any(
                |s| matches!(&s.item, Item::Sub { filters, .. } if filters.iter().any(|f| grant(f.1) != 0 && matches(&f.0, &topic))),
            );
            if pc == i && any_match {
                t.push("B06");
                t.push("B05");
            }
            if !reqs.is_empty() && !any_match {
                t.push("B03");
            }
            if refused_match {
                t.push("B05");
            }
            if self.conns[i].sent.iter().any(|s| is_unsup(&s.item) || s.eff == Eff::Never) {
                t.push("B15");
            }
            let id = self.conns[i].id.clone();
            if self.conns.iter().enumerate().any(|(j, c)| j != i && c.id.is_some() && c.id == id) {
                t.extend(["B12", "B11"]);
            }
            if self.conns[i].life > 1 {
                t.push("B18");
            }
            let fs: Vec<String> = reqs.keys().map(|s| s.to_string()).collect();
            self.viol(
                &t,
                format!("{}: received message {} on {:?} from {} without a matching subscription (its filters: {:?})", nm, m, topic, self.conns[pc].name(), fs),
            );
        }
    }

    /// the possible option bytes of filter f of connection i when message (pc,si) is processed
    /// (None = possibly not subscribed yet), looking at requests sent before `upto`
    fn states(&self, i: usize, reqs: &[(u64, Option<u64>, u8, Eff)], pc: usize, si: usize, upto: u64) -> (bool, Vec<u8>) {
        let ps = self.conns[pc].sent[si].seq;
        if pc == i {
            // same connection: strict order
            let mut last: Option<(u8, Eff)> = None;
            let mut v = vec![];
            let mut none = true;
            for (s, _, o, e) in reqs {
                if *s < ps {
                    last = Some((*o, *e));
                    if *e == Eff::Normal {
                        v.clear();
                        none = false;
                    }
                    v.push(*o);
                }
            }
            return (none || last.is_none(), v);
        }
        let mut base = None;
        for (n, (_, a, _, e)) in reqs.iter().enumerate() {
            if a.map_or(false, |a| a < ps) && *e == Eff::Normal {
                base = Some(n);
            }
        }
        let mut v = vec![];
        let start = base.unwrap_or(0);
        for (n, (s, _, o, _)) in reqs.iter().enumerate() {
            if n >= start && *s < upto {
                v.push(*o);
            }
        }
        (base.is_none(), v)
    }

    fn may_deliver(&self, i: usize, pc: usize, si: usize, upto: u64) -> bool {
        let Item::Pub { pkt: Pkt::Publish { topic, .. }, .. } = &self.conns[pc].sent[si].item else { return false };
        for (f, r) in self.conns[i].requests() {
            if !matches(f, topic) {
                continue;
            }
            let (_, st) = self.states(i, &r, pc, si, upto);
            for o in st {
                if !(o & 4 != 0 && pc == i) {
                    return true;
                }
            }
        }
        false
    }
    fn must_deliver(&self, i: usize, pc: usize, si: usize) -> bool {
        let s = &self.conns[pc].sent[si];
        let Item::Pub { pkt, .. } = &s.item else { return false };
        let Pkt::Publish { topic, .. } = pkt else { return false };
        if s.eff != Eff::Normal {
            return false;
        }
        if self.sc.cfg.strict && self.conns[pc].noise && !self.conns[i].noise {
            return false;
        }
        let lim = self.conns[i].lim(&self.sc.cfg);
        if s.len > lim {
            return false;
        }
        let same_id = pc == i || self.conns[pc].id == self.conns[i].id;
        for (f, r) in self.conns[i].requests() {
            if !matches(f, topic) {
                continue;
            }
            let (none, st) = self.states(i, &r, pc, si, u64::MAX);
            if !none && !st.is_empty() && st.iter().all(|o| !(o & 4 != 0 && same_id)) {
                return true;
            }
        }
        false
    }

    // ------------------------------------------------------------ status

    fn slack(&self) -> u64 {
        // what the tasks themselves may have taken
        let busy = simrt::poll_number() * 1000 * self.sc.sim.cost as u64;
        SEC + self.pause_total + self.accept_total + busy
    }

    /// `(earliest, latest)` time at which the broker may give up on this connection while it is connecting
    fn deadline(&self, i: usize) -> (u64, u64) {
        let ka = self.sc.cfg.keep_alive as u64 * SEC;
        let c = &self.conns[i];
        if c.noise {
            if c.t_hs != 0 && c.bad == 0 {
                (c.t_hs + ka, c.t_hs + ka)
            } else {
                (c.t_open + 3 * ka, c.t_up + 3 * ka)
            }
        } else {
            (c.t_open + ka, c.t_up + ka)
        }
    }

    fn check_early_close(&mut self, i: usize) {
        let c = &self.conns[i];
        if c.closed.is_some() || c.fatal.is_some() || c.vague || c.spec.is_some() || !c.up {
            return;
        }
        if self.shutdown_seq.contains_key(&c.life) {
            return;
        }
        let (lo, _) = self.deadline(i);
        let now = simrt::now_ns();
        self.hit("B09");
        if now + 2 * MS < lo {
            let nm = self.conns[i].name();
            self.viol(&["B09"], format!("{}: closed {} ms before its time to connect was over", nm, (lo - now) / MS));
        }
    }

    /// Is a connection with a supported CONNECT certainly/possibly accepted, seen from its timing?
    fn in_time(&self, i: usize) -> Option<bool> {
        let c = &self.conns[i];
        let (_, t, _) = c.spec.as_ref()?;
        let (lo, hi) = self.deadline(i);
        let slack = self.slack();
        if c.ever_held {
            return None;
        }
        if c.noise && c.t_hs + slack > c.t_open + 3 * self.sc.cfg.keep_alive as u64 * SEC {
            return None;
        }
        if *t + slack < lo {
            Some(true)
        } else if *t > hi + slack {
            Some(false)
        } else {
            None
        }
    }

    fn settled_before(&self, x: usize, seq: u64) -> bool {
        // x was registered (or gone) before `seq`
        let Some((cs, _, _)) = &self.conns[x].spec else { return true };
        if *cs > seq {
            return false;
        }
        if self.heal_barriers.iter().any(|b| *b > *cs && *b < seq) {
            return true;
        }
        self.conns[x].rx.iter().any(|r| r.seq < seq && !matches!(r.pkt, Pkt::ConnAck { .. }))
    }

    pub fn status(&self, i: usize, ignore_self: bool) -> Status {
        let c = &self.conns[i];
        if c.failed || c.vague || !c.up {
            return Status::Unknown;
        }
        if self.shutdown_seq.contains_key(&c.life) {
            return Status::Dead(Why::Shutdown);
        }
        if !ignore_self {
            if c.closed.is_some() {
                return Status::Dead(Why::ClientClose);
            }
            if let Some((_, f)) = c.fatal {
                return Status::Dead(Why::Fatal(f));
            }
        }
        let now = simrt::now_ns();
        if c.spec.is_none() {
            if c.ever_held {
                return Status::Unknown;
            }
            let (_, hi) = self.deadline(i);
            return if now > hi + self.slack() {
                Status::Dead(Why::Timeout)
            } else {
                Status::Pending
            };
        }
        match self.in_time(i) {
            Some(true) => (),
            Some(false) => return Status::Dead(Why::Timeout),
            None => {
                if c.connack.is_none() {
                    return Status::Unknown;
                }
            }
        }
        // takeover
        let my = c.spec.as_ref().unwrap();
        if my.2.id.is_empty() {
            return Status::Healthy;
        }
        let mut unknown = false;
        for (j, o) in self.conns.iter().enumerate() {
            if j == i || o.life != c.life {
                continue;
            }
            let Some((oseq, _, os)) = &o.spec else { continue };
            if os.id != my.2.id || !os.supported() {
                continue;
            }
            if matches!(o.fatal, Some((_, Fatal::TooSmall | Fatal::Oversize | Fatal::BadHandshake))) && o.connack.is_none() && o.first_fatal_idx == 0 {
                continue;
            }
            if o.sent.first().map_or(true, |s| !matches!(s.item, Item::Connect(_)) || s.eff == Eff::Never) && o.connack.is_none() {
                continue;
            }
            if self.settled_before(j, my.0) {
                continue; // older
            }
            if self.settled_before(i, *oseq) && o.connack.is_some() {
                return Status::Dead(Why::Takeover);
            }
            unknown = true;
        }
        if unknown {
            Status::Unknown
        } else {
            Status::Healthy
        }
    }

    fn ctx_tags(&self, i: usize, t: &mut Vec<&'static str>) {
        let id = self.conns[i].id.clone();
        if self.conns.iter().enumerate().any(|(j, c)| j != i && c.id.is_some() && c.id == id) {
            t.extend(["B11", "B12"]);
        }
        if self.conns[i].spec.as_ref().map_or(false, |s| s.2.id.is_empty()) {
            t.push("B10");
        }
        if self.conns[i].life > 1 {
            t.push("B18");
        }
        if self.faults_present {
            t.push("B14");
        }
        for c in &self.conns {
            if let Some((_, f)) = c.fatal {
                t.push(f.tag());
            }
        }
    }

    // ------------------------------------------------------------ barrier

    pub fn snapshot(&mut self, snap: Snap) {
        let n = self.conns.len();
        let seq = self.tick();
        let heal = self.heal;
        self.note(|| format!("-- barrier (heal {}) clients {:?}", heal, snap.clients));
        let st: Vec<Status> = (0..n).map(|i| self.status(i, false)).collect();
        let blocked: Vec<bool> = (0..n).map(|i| self.conns[i].stalled || self.conns[i].held).collect();

        // connections
        for i in 0..n {
            if blocked[i] || self.conns[i].client_bad && st[i] == Status::Healthy {
                continue;
            }
            let nm = self.conns[i].name();
            let srv_closed = simrt::server_end_closed(self.conns[i].sock.conn);
            match st[i] {
                Status::Healthy => {
                    self.hit("B14");
                    if self.conns[i].connack.is_none() {
                        let mut t = vec!["B07", "B14"];
                        self.ctx_tags(i, &mut t);
                        if self.conns[i].noise {
                            t.push("B21");
                        }
                        self.viol(&t, format!("{}: supported CONNECT sent in time was not accepted", nm));
                    } else if self.conns[i].eof.is_some() || srv_closed {
                        let mut t = vec!["B14", "B09"];
                        self.ctx_tags(i, &mut t);
                        // what it sent, or would have been sent, is lost
                        let sent = &self.conns[i].sent;
                        if sent.iter().any(|s| matches!(s.item, Item::Pub { .. })) || !self.conns[i].requests().is_empty() {
                            t.push("B01");
                            self.inflight_tags(&mut t);
                        }
                        if sent.iter().filter(|s| matches!(s.item, Item::Sub { .. })).count() > self.conns[i].suback_n {
                            t.push("B05");
                        }
                        if sent.iter().any(|s| s.len * 2 > self.sc.cfg.max_packet as usize) {
                            t.push("B16");
                        }
                        if self.conns[i].noise {
                            t.push("B21");
                        }
                        if self.conns.iter().enumerate().any(|(p, c)| {
                            c.sent.iter().enumerate().any(|(k, s)| {
                                matches!(s.item, Item::Pub { .. }) && s.len > self.conns[i].lim(&self.sc.cfg) && self.may_deliver(i, p, k, u64::MAX)
                            })
                        }) {
                            t.push("B17");
                        }
                        self.viol(&t, format!("{}: the broker closed a well-behaved connected client", nm));
                    } else {
                        let want = self.conns[i].sent.iter().filter(|s| matches!(s.item, Item::Sub { .. }) && s.eff == Eff::Normal).count();
                        if self.conns[i].suback_n < want {
                            let mut t = vec!["B05", "B14"];
                            self.ctx_tags(i, &mut t);
                            self.inflight_tags(&mut t);
                            let got = self.conns[i].suback_n;
                            self.viol(&t, format!("{}: {} SUBSCRIBE sent, {} SUBACK received", nm, want, got));
                        }
                    }
                }
                Status::Dead(w) => {
                    let tags: Vec<&'static str> = match w {
                        Why::ClientClose => vec!["B12", "B13"],
                        Why::Shutdown => vec!["B18"],
                        Why::Fatal(f) => vec![f.tag(), "B12"],
                        Why::Timeout => vec!["B09"],
                        Why::Takeover => vec!["B11"],
                    };
                    if !(w == Why::Shutdown && !heal) {
                        self.hit(tags[0]);
                        if !srv_closed && !simrt::unaccepted(self.conns[i].sock.conn) {
                            self.viol(&tags, format!("{}: the broker still holds the connection open although it must have ended ({:?})", nm, w));
                        }
                    }
                    self.check_refusals(i, w);
                    self.conns[i].clean_dead_barrier = true;
                }
                Status::Pending | Status::Unknown => {
                    if self.conns[i].spec.as_ref().map_or(false, |s| !s.2.supported()) && st[i] == Status::Pending {
                        // cannot happen: refused is Dead
                    }
                }
            }
            // one survivor among sessions that raced for an identifier
        }
        if heal {
            self.check_groups(&st);
        }

        // registry
        if let Some(cl) = &snap.clients {
            self.check_registry(cl, &st, &blocked);
        }
        // deliveries
        self.check_deliveries(&st, &blocked);
        // lookups
        if heal && snap.clients.is_some() {
            self.check_lookups(&snap, &st);
        }
        if heal && !self.running {
            let open = simrt::open_server_ends();
            if !open.is_empty() {
                self.viol(&["B18"], format!("{} connections are still held open by a broker that has shut down", open.len()));
            }
            if simrt::is_listening(mqtt_addr()) || simrt::is_listening(noise_addr()) {
                self.viol(&["B18"], "an address is still being listened on although no broker runs".into());
            }
        }
        if heal {
            self.heal_barriers.push(seq);
            self.check_idle();
            self.check_residents(&st);
        }
        if self.running {
            self.check_biggest();
        }
        self.sched_next();
    }

    /// who is connected, and what they subscribe to, with the levels of the topics in it;
    /// nothing if that is not certain
    fn residents(&self, st: &[Status]) -> Option<(String, i64)> {
        let mut v = vec![];
        let mut levels = 0;
        for (i, c) in self.conns.iter().enumerate() {
            if c.life != self.life || simrt::server_end_closed(c.sock.conn) {
                continue;
            }
            if st[i] != Status::Healthy || c.connack.is_none() || c.incomplete || c.sent.iter().any(|s| s.eff != Eff::Normal) {
                return None;
            }
            let req = c.requests();
            levels += req.keys().map(|f| f.split('/').count() as i64).sum::<i64>();
            v.push(format!("{:?} {} {:?}", c.id, c.noise, req.keys().collect::<Vec<_>>()));
        }
        v.sort();
        (!v.is_empty()).then(|| (v.join(", "), levels))
    }

    /// what the broker holds for those it serves does not depend on how long it has served them
    fn check_residents(&mut self, st: &[Status]) {
        let Some((key, levels)) = self.residents(st) else { return };
        let h = simrt::mem::held();
        let n = simrt::open_server_ends().len() as i64;
        let base = self.resident_base.entry(key).or_default();
        if base.0 < 2 {
            base.0 += 1;
            base.1.blocks = base.1.blocks.max(h.blocks);
            base.1.bytes = base.1.bytes.max(h.bytes);
            base.1.tasks = base.1.tasks.max(h.tasks);
            return;
        }
        let b = base.1;
        self.hit("B26");
        let room = 2 * self.sc.cfg.max_packet as i64 + 300_000;
        let m = self.resident_max.get_or_insert_with(Default::default);
        m.blocks = m.blocks.max(h.blocks - b.blocks);
        m.bytes = m.bytes.max(h.bytes - b.bytes);
        m.tasks = m.tasks.max(h.tasks - b.tasks);
        self.note(|| format!("{} residents: {:?} at first {:?}", n, h, b));
        let mut what = vec![];
        // the tables that name the subscribers of a level keep their room when others leave them
        if h.blocks - b.blocks > IDLE_BLOCKS + 4 * n + 3 * levels {
            what.push("allocations");
        }
        if h.bytes - b.bytes > IDLE_BYTES + room * n + 512 * levels {
            what.push("memory");
        }
        if h.tasks - b.tasks > IDLE_TASKS {
            what.push("tasks");
        }
        if !what.is_empty() && !self.resident_reported {
            self.resident_reported = true;
            let msg = format!("the broker has grown: with the same {} clients, the same subscriptions and nothing left to deliver it holds more {} than before", n, what.join(", "));
            self.viol(&["B26"], msg);
        }
    }

    /// no block is much bigger than the biggest packet that could be allowed or has been sent
    fn check_biggest(&mut self) {
        let big = simrt::mem::biggest() as u64;
        let sent = self.conns.iter().flat_map(|c| c.sent.iter().map(|s| s.len as u64)).max().unwrap_or(0);
        let subs: u64 = self.conns.iter().map(|c| c.sent.iter().map(|s| if let Item::Sub { filters, .. } = &s.item { filters.len() as u64 } else { 1 }).sum::<u64>() + 1).sum();
        self.hit("B27");
        let room = 4 * self.sc.cfg.max_packet as u64 + 300_000 + 64 * sent + 512 * subs;
        self.big_max = self.big_max.max(big * 1000 / room);
        if big > room && !self.big_reported {
            self.big_reported = true;
            let kb = big / 1024;
            self.viol(&["B27"], format!("the broker sets aside {} KiB in one piece, although no packet of more than {} bytes was sent and the limit is {}", kb, sent, self.sc.cfg.max_packet));
        }
    }

    /// an idle broker that serves nobody holds no more than it did the first time
    fn check_idle(&mut self) {
        if self.life == 0 || !simrt::open_server_ends().is_empty() {
            return;
        }
        if (0..self.conns.len()).any(|i| simrt::unaccepted(self.conns[i].sock.conn) && self.conns[i].life == self.life && self.conns[i].closed.is_none()) {
            return;
        }
        let h = simrt::mem::held();
        let Some(b) = self.idle_base else {
            if self.running {
                self.idle_base = Some(h);
            }
            return;
        };
        self.hit("B25");
        let m = self.idle_max.get_or_insert_with(Default::default);
        m.blocks = m.blocks.max(h.blocks - b.blocks);
        m.bytes = m.bytes.max(h.bytes - b.bytes);
        m.tasks = m.tasks.max(h.tasks - b.tasks);
        let m = *m;
        self.note(|| format!("idle: {:?} at first {:?}", h, b));
        if !self.idle_reported && (m.blocks > IDLE_BLOCKS || m.bytes > IDLE_BYTES || m.tasks > IDLE_TASKS) {
            self.idle_reported = true;
            // what the process allocated once and for all depends on what it ran before, so there are no exact numbers here
            let mut what = vec![];
            if m.blocks > IDLE_BLOCKS {
                what.push("allocations");
            }
            if m.bytes > IDLE_BYTES {
                what.push("memory");
            }
            if m.tasks > IDLE_TASKS {
                what.push("tasks");
            }
            let msg = format!("the idle broker has grown: after {} connections, with none left, it holds more {} than the first time it was idle", self.conns.len(), what.join(", "));
            self.viol(&["B25"], msg);
        }
    }

    fn inflight_tags(&self, t: &mut Vec<&'static str>) {
        if self.sc.cfg.queue < 20_000 {
            t.push("B23");
        }
    }

    fn check_refusals(&mut self, i: usize, w: Why) {
        let nm = self.conns[i].name();
        if self.conns[i].closed.is_some() || self.conns[i].client_bad {
            return;
        }
        let nothing_after = self.conns[i].sent.len() <= self.conns[i].first_fatal_idx + 1;
        match w {
            Why::Fatal(Fatal::Refused) if nothing_after && self.in_time(i) == Some(true) => {
                if self.conns[i].rx.len() != 1 {
                    let got: Vec<String> = self.conns[i].rx.iter().map(|r| short_pkt(&r.pkt)).collect();
                    self.viol(&["B08"], format!("{}: unsupported CONNECT must be answered with one CONNACK 0x83, got {:?}", nm, got));
                }
            }
            Why::Fatal(Fatal::Unsup) if nothing_after => {
                if self.status(i, true) == Status::Healthy {
                    let n = self.conns[i].rx.iter().filter(|r| matches!(r.pkt, Pkt::Disconnect { .. })).count();
                    self.hit("B15");
                    if n != 1 {
                        let what = short(&self.conns[i].sent[self.conns[i].first_fatal_idx].item);
                        self.viol(&["B15"], format!("{}: unsupported {} answered with {} DISCONNECT packets", nm, what, n));
                    }
                }
            }
            Why::Fatal(Fatal::NotConnect) | Why::Fatal(Fatal::BadHandshake) | Why::Fatal(Fatal::TooSmall) | Why::Timeout
                if self.conns[i].connack.is_none() && !self.conns[i].rx.is_empty() =>
            {
                let tag = match w {
                    Why::Fatal(f) => f.tag(),
                    _ => "B09",
                };
                self.viol(&[tag], format!("{}: received {} on a connection that was never accepted", nm, short_pkt(&self.conns[i].rx[0].pkt)));
            }
            Why::Timeout if self.conns[i].connack.is_some() && self.in_time(i) == Some(false) => {
                self.viol(&["B09"], format!("{}: CONNECT accepted after the time to connect was over", nm));
            }
            _ => (),
        }
    }

    fn check_groups(&mut self, st: &[Status]) {
        let mut groups: BTreeMap<(u32, String), Vec<usize>> = BTreeMap::new();
        for (i, c) in self.conns.iter().enumerate() {
            if let Some((_, _, s)) = &c.spec {
                if !s.id.is_empty() && s.supported() && c.connack.is_some() && !c.failed {
                    groups.entry((c.life, s.id.clone())).or_default().push(i);
                }
            }
        }
        for ((life, id), g) in groups {
            if g.len() < 2 || self.shutdown_seq.contains_key(&life) {
                continue;
            }
            // the winner may be a connection that never saw its CONNACK
            let silent = self.conns.iter().any(|c| {
                c.life == life && c.connack.is_none() && matches!(&c.spec, Some((_, _, s)) if s.id == id)
            });
            self.hit("B11");
            let open: Vec<u32> = g.iter().filter(|&&i| !simrt::server_end_closed(self.conns[i].sock.conn)).map(|&i| self.conns[i].c).collect();
            if open.len() > 1 {
                self.viol(&["B11", "B13"], format!("connections {:?} with identifier {:?} are all open", open, id));
            }
            let all_unknown_clean = g.iter().all(|&i| self.conns[i].closed.is_none() && self.conns[i].fatal.is_none() && !self.conns[i].vague);
            if open.is_empty() && !silent && all_unknown_clean && g.iter().any(|&i| st[i] == Status::Unknown) {
                let v: Vec<u32> = g.iter().map(|&i| self.conns[i].c).collect();
                self.viol(&["B11"], format!("no connection of {:?} with identifier {:?} survived the takeover", v, id));
            }
        }
    }

    /// connections that the broker has carried out requests of, and has no reason to end
    fn used_sessions(&self) -> Vec<usize> {
        (0..self.conns.len())
            .filter(|&i| {
                let c = &self.conns[i];
                c.life == self.life
                    && c.id.is_some()
                    && c.connack.is_some()
                    && c.suback_n > 0
                    && c.eof.is_none()
                    && !c.client_bad
                    && !c.incomplete
                    && self.status(i, false) == Status::Healthy
            })
            .collect()
    }

    /// the answer to a question asked while anything may have been going on
    pub fn listed(&mut self, life: u32, used: &[usize], cl: &[String]) {
        self.note(|| format!("client list: {:?}", cl));
        if life != self.life || self.shutdown_seq.contains_key(&life) {
            return;
        }
        self.hit("B13");
        let mut seen = BTreeSet::new();
        for id in cl {
            if !seen.insert(id.as_str()) {
                self.viol(&["B13"], format!("client list names {:?} twice", id));
            }
        }
        let still = self.used_sessions();
        for &i in used {
            if still.contains(&i) && !seen.contains(self.conns[i].id.as_deref().unwrap_or_default()) {
                let mut t = vec!["B13"];
                self.ctx_tags(i, &mut t);
                t.retain(|x| *x != "B14");
                let nm = self.conns[i].name();
                self.viol(&t, format!("{}: in use all the time but missing from the client list {:?}", nm, cl));
            }
        }
        // identifiers the broker made up may not have been read yet
        let anon = self.conns.iter().any(|c| c.life == life && c.connack.is_none() && matches!(&c.spec, Some((_, _, s)) if s.id.is_empty()));
        for id in cl {
            let mut tags = vec!["B13"];
            let mut ok = false;
            let mut known = false;
            for c in self.conns.iter().filter(|c| c.life == life && c.id.as_ref() == Some(id)) {
                known = true;
                if c.sent.first().map_or(false, |s| matches!(&s.item, Item::Connect(s) if s.supported()) && s.eff != Eff::Never) {
                    ok = true;
                } else if let Some((_, f)) = c.fatal {
                    tags.push(f.tag());
                }
            }
            if !ok && (known || !anon) {
                self.viol(&tags, format!("client list names {:?}, for which there has been no session", id));
            }
        }
    }

    fn check_registry(&mut self, cl: &[String], st: &[Status], blocked: &[bool]) {
        self.hit("B13");
        let mut seen = BTreeSet::new();
        for id in cl {
            if !seen.insert(id.clone()) {
                self.viol(&["B13"], format!("client list names {:?} twice", id));
            }
        }
        for i in 0..self.conns.len() {
            if st[i] == Status::Healthy && !blocked[i] && self.conns[i].connack.is_some() {
                let id = self.conns[i].id.clone().unwrap_or_default();
                if !seen.contains(&id) {
                    let mut t = vec!["B13"];
                    self.ctx_tags(i, &mut t);
                    t.retain(|x| *x != "B14");
                    let nm = self.conns[i].name();
                    self.viol(&t, format!("{}: connected but missing from the client list {:?}", nm, cl));
                }
            }
        }
        // identifiers the broker made up for clients that have not read their CONNACK
        let mut unread = self
            .conns
            .iter()
            .filter(|c| c.life == self.life && c.connack.is_none() && matches!(&c.spec, Some((_, _, s)) if s.id.is_empty()))
            .count();
        for id in &seen {
            let mut ok = false;
            let mut tags = vec!["B13"];
            if unread > 0 && self.conns.iter().all(|c| c.id.as_ref() != Some(id)) {
                unread -= 1;
                continue;
            }
            for i in 0..self.conns.len() {
                if self.conns[i].id.as_ref() != Some(id) || self.conns[i].life != self.life {
                    continue;
                }
                match st[i] {
                    Status::Healthy => ok = true,
                    Status::Unknown => {
                        if !simrt::server_end_closed(self.conns[i].sock.conn) {
                            ok = true
                        }
                    }
                    Status::Dead(w) => {
                        if blocked[i] {
                            ok = true;
                        }
                        tags.push(match w {
                            Why::Fatal(f) => f.tag(),
                            Why::ClientClose => "B12",
                            Why::Takeover => "B11",
                            Why::Timeout => "B09",
                            Why::Shutdown => "B18",
                        })
                    }
                    Status::Pending => (),
                }
            }
            if !ok {
                self.viol(&tags, format!("client list names {:?}, which has no live session", id));
            }
        }
    }

    fn check_deliveries(&mut self, st: &[Status], blocked: &[bool]) {
        let n = self.conns.len();
        let healthy: Vec<usize> = (0..n)
            .filter(|&i| st[i] == Status::Healthy && !blocked[i] && self.conns[i].connack.is_some() && self.conns[i].eof.is_none() && !self.conns[i].client_bad)
            .collect();
        for &s in &healthy {
            if self.conns[s].requests().is_empty() {
                continue;
            }
            let got: BTreeSet<u32> = self.conns[s].rx.iter().filter_map(|r| self.pub_of(&r.pkt)).collect();
            for &p in &healthy {
                if self.conns[p].life != self.conns[s].life {
                    continue;
                }
                for si in 0..self.conns[p].sent.len() {
                    let Item::Pub { m, pkt: Pkt::Publish { topic, .. }, .. } = &self.conns[p].sent[si].item else { continue };
                    let (m, topic) = (*m, topic.clone());
                    if !self.must_deliver(s, p, si) {
                        continue;
                    }
                    self.hit("B01");
                    if self.sc.cfg.queue < 20_000 {
                        self.hit("B23");
                    }
                    if got.contains(&m) {
                        continue;
                    }
                    let mut t = vec!["B01", "B23"];
                    let reqs = self.conns[s].requests();
                    let fs: Vec<String> = reqs.keys().filter(|f| matches(f, &topic)).map(|f| f.to_string()).collect();
                    let nfs = fs.len();
                    if fs.iter().all(|f| *f != topic) || topic.split('/').any(|l| l.is_empty()) || topic.starts_with('$') {
                        t.push("B03");
                    }
                    let repl = reqs.iter().any(|(f, r)| matches(f, &topic) && r.len() > 1);
                    if nfs > 1 || p == s || reqs.iter().any(|(f, r)| matches(f, &topic) && r.iter().any(|x| x.2 & 4 != 0)) {
                        t.push("B06");
                    }
                    if nfs > 1 || repl || self.conns[s].suback_n > 0 {
                        t.push("B05");
                    }
                    if self.sc.cfg.noise && (self.conns[p].noise || self.conns[s].noise || self.sc.cfg.strict) {
                        t.push("B19");
                    }
                    let plen = self.conns[p].sent[si].len;
                    if (0..n).any(|k| plen > self.conns[k].lim(&self.sc.cfg)) || self.conns[s].lim(&self.sc.cfg) < self.sc.cfg.max_packet as usize {
                        t.push("B17");
                    }
                    if plen * 2 > self.sc.cfg.max_packet as usize {
                        t.push("B16");
                    }
                    self.ctx_tags(s, &mut t);
                    self.ctx_tags(p, &mut t);
                    drop(reqs);
                    let (a, b) = (self.conns[s].name(), self.conns[p].name());
                    self.viol(&t, format!("{}: message {} on {:?} from {} was not delivered (matching filters {:?})", a, m, topic, b, fs));
                }
            }
        }
    }

    fn check_lookups(&mut self, snap: &Snap, st: &[Status]) {
        for (topic, res) in &snap.lookups {
            self.hit("B12");
            self.hit("B03");
            let mut explained: BTreeSet<&str> = BTreeSet::new();
            let n = self.conns.len();
            let mut want: Vec<(String, Option<bool>, usize)> = vec![];
            let mut may: Vec<String> = vec![];
            for i in 0..n {
                if self.conns[i].life != self.life {
                    continue;
                }
                let Some(id) = self.conns[i].id.clone() else { continue };
                if self.conns[i].spec.as_ref().map_or(true, |s| !s.2.supported()) {
                    continue;
                }
                match st[i] {
                    Status::Healthy if self.conns[i].connack.is_some() => {
                        let mut nl = true;
                        let mut any = false;
                        for (f, r) in self.conns[i].requests() {
                            if matches(f, topic) {
                                any = true;
                                let last = r.last().unwrap().2;
                                if last & 4 == 0 {
                                    nl = false;
                                }
                            }
                        }
                        if any {
                            want.push((id, Some(nl), i));
                        }
                    }
                    Status::Unknown => {
                        if !simrt::server_end_closed(self.conns[i].sock.conn) {
                            may.push(id)
                        }
                    }
                    _ => (),
                }
            }
            for (id, nl, i) in &want {
                match res.iter().find(|r| r.0 == *id) {
                    None => {
                        let mut t = vec!["B03", "B05"];
                        self.ctx_tags(*i, &mut t);
                        t.retain(|x| *x != "B14");
                        let nm = self.conns[*i].name();
                        self.viol(&t, format!("{}: subscriber lookup of {:?} does not name it although it holds a matching subscription", nm, topic));
                    }
                    Some((_, got)) => {
                        if Some(*got) != *nl {
                            let nm = self.conns[*i].name();
                            self.viol(&["B06", "B05"], format!("{}: subscriber lookup of {:?} says no-local {}, expected {:?}", nm, topic, got, nl));
                        }
                    }
                }
            }
            for (id, _, _) in &want {
                explained.insert(id);
            }
            for id in &may {
                explained.insert(id);
            }
            let bad: Vec<&String> = res.iter().map(|r| &r.0).filter(|r| !explained.contains(r.as_str())).collect();
            for id in bad {
                if id.starts_with("tbl-") {
                    continue;
                }
                let owner = (0..n).rev().find(|&i| self.conns[i].id.as_ref() == Some(id));
                let alive = (0..n).any(|i| self.conns[i].id.as_ref() == Some(id) && st[i] == Status::Healthy && self.conns[i].life == self.life);
                let mut t = vec![];
                if alive {
                    t.push("B03");
                    t.push("B05");
                    if owner.map_or(false, |o| (0..n).any(|j| j != o && self.conns[j].id.as_ref() == Some(id))) {
                        t.push("B12");
                        t.push("B11");
                    }
                    if self.conns.iter().any(|c| c.id.as_ref() == Some(id) && c.sent.iter().any(|s| is_unsup(&s.item))) {
                        t.push("B15");
                    }
                } else {
                    t.push("B12");
                    if let Some(o) = owner {
                        if let Some((_, f)) = self.conns[o].fatal {
                            t.push(f.tag());
                        }
                        if self.conns[o].life != self.life {
                            t.push("B18");
                        }
                    }
                }
                self.viol(&t, format!("subscriber lookup of {:?} names {:?}, which holds no matching subscription in a live session", topic, id));
            }
        }
    }

    // ------------------------------------------------------------ end of run

    pub fn on_end(&mut self, panics: &[String], ab: Option<simrt::Abort>) {
        let mut ctx: Vec<&'static str> = vec![];
        for c in &self.conns {
            if let Some((_, f)) = c.fatal {
                ctx.push(f.tag());
            }
            if c.closed.is_some() {
                ctx.push("B12");
            }
        }
        if !self.shutdown_seq.is_empty() {
            ctx.push("B18");
        }
        self.inflight_tags(&mut ctx);
        for p in panics {
            let mut t = ctx.clone();
            t.push("B14");
            if self.conns.iter().any(|c| c.spec.is_some() && c.connack.is_none() && c.fatal.is_none()) {
                t.push("B07");
            }
            self.viol(&t, format!("the broker panicked: {}", p));
        }
        if let Some(a) = ab {
            let explained = a == simrt::Abort::Stuck && !self.violations.is_empty();
            if !explained {
                let mut t = ctx.clone();
                t.extend(["B14", "B01", "B05", "B13"]);
                if a == simrt::Abort::Stuck {
                    t.push("B23");
                }
                self.viol(&t, crate::run::abort_msg(a).to_string());
            }
        }
        for c in &self.conns {
            if let Some((_, f)) = c.fatal {
                *self.op_faults.entry(match f {
                    Fatal::Malformed => "malformed_packets",
                    Fatal::Oversize => "oversized_packets",
                    Fatal::Unsup => "unsupported_requests",
                    Fatal::NotConnect => "first_packet_not_connect",
                    Fatal::Refused => "refused_connects",
                    Fatal::BadHandshake => "bad_handshakes",
                    Fatal::Tamper => "tampered_connections",
                    Fatal::TooSmall => "too_small_client_limits",
                }).or_default() += 1;
            }
        }
        if self.life > 1 {
            *self.op_faults.entry("broker_restarts").or_default() += self.life as u64 - 1;
        }
        self.check_order();
        self.check_wire();
    }

    /// one total order of messages: receivers' orders, senders' orders and real time must not form a cycle
    fn check_order(&mut self) {
        let mut ids: Vec<u32> = self.pubs.keys().copied().collect();
        ids.sort();
        let idx: HashMap<u32, usize> = ids.iter().enumerate().map(|(a, b)| (*b, a)).collect();
        let n = ids.len();
        let mut edges: Vec<(usize, usize, String)> = vec![];
        let mut first_rx: Vec<u64> = vec![u64::MAX; n];
        let mut nrx = 0u64;
        for c in &self.conns {
            let mut prev: Option<usize> = None;
            for r in &c.rx {
                if let Some(m) = self.pub_of(&r.pkt) {
                    if let Some(&k) = idx.get(&m) {
                        nrx += 1;
                        first_rx[k] = first_rx[k].min(r.seq);
                        if let Some(p) = prev {
                            if p != k {
                                edges.push((p, k, format!("{} received {} before {}", c.name(), ids[p], ids[k])));
                            }
                        }
                        prev = Some(k);
                    }
                }
            }
            let mut prev: Option<usize> = None;
            for s in &c.sent {
                if let Item::Pub { m, .. } = &s.item {
                    if let Some(&k) = idx.get(m) {
                        if s.eff == Eff::Never {
                            continue;
                        }
                        if let Some(p) = prev {
                            edges.push((p, k, format!("{} sent {} before {}", c.name(), ids[p], ids[k])));
                        }
                        prev = Some(k);
                    }
                }
            }
        }
        *self.hits.entry("B04").or_default() += nrx;
        for a in 0..n {
            if first_rx[a] == u64::MAX {
                continue;
            }
            for b in 0..n {
                if a == b {
                    continue;
                }
                let (pc, si) = self.pubs[&ids[b]];
                if first_rx[a] < self.conns[pc].sent[si].seq {
                    edges.push((a, b, format!("{} was received before {} was sent", ids[a], ids[b])));
                }
            }
        }
        // Kahn
        let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
        let mut indeg = vec![0usize; n];
        for (k, (a, b, _)) in edges.iter().enumerate() {
            adj[*a].push(k);
            indeg[*b] += 1;
        }
        let mut q: Vec<usize> = (0..n).filter(|&i| indeg[i] == 0).collect();
        let mut done = 0;
        let mut alive = vec![true; n];
        while let Some(x) = q.pop() {
            done += 1;
            alive[x] = false;
            for &k in &adj[x] {
                let b = edges[k].1;
                indeg[b] -= 1;
                if indeg[b] == 0 {
                    q.push(b);
                }
            }
        }
        if done < n {
            // find one short cycle by BFS from each alive node
            let mut best: Option<Vec<usize>> = None;
            for s in (0..n).filter(|&i| alive[i]) {
                let mut from: Vec<Option<usize>> = vec![None; n];
                let mut dq = VecDeque::from([s]);
                'bfs: while let Some(x) = dq.pop_front() {
                    for &k in &adj[x] {
                        let b = edges[k].1;
                        if b == s {
                            let mut path = vec![k];
                            let mut y = x;
                            while y != s {
                                let e = from[y].unwrap();
                                path.push(e);
                                y = edges[e].0;
                            }
                            path.reverse();
                            if best.as_ref().map_or(true, |p| path.len() < p.len()) {
                                best = Some(path);
                            }
                            break 'bfs;
                        }
                        if from[b].is_none() && b != s {
                            from[b] = Some(k);
                            dq.push_back(b);
                        }
                    }
                }
            }
            let why: Vec<String> = best.unwrap_or_default().iter().map(|k| edges[*k].2.clone()).collect();
            let mut t = vec!["B04"];
            self.inflight_tags(&mut t);
            self.viol(&t, format!("no single order of messages explains the history: {}", why.join("; ")));
        }
    }

    /// nothing readable may appear on an encrypted connection
    fn check_wire(&mut self) {
        let mut bad = vec![];
        for c in &self.conns {
            if c.noise && c.raw_in.len() >= 12 {
                for w in c.raw_in.windows(12) {
                    if &w[..2] == b"<<" && &w[10..] == b">>" && w[2..10].iter().all(|b| b.is_ascii_hexdigit()) {
                        bad.push(c.name());
                        break;
                    }
                }
            }
        }
        for b in bad {
            self.viol(&["B21"], format!("{}: a published payload appears in clear on the wire", b));
        }
    }
}

fn is_unsup(it: &Item) -> bool {
    match it {
        Item::Raw { class: RawClass::Unsup, .. } => true,
        Item::Pub { unsup, .. } => *unsup,
        Item::Sub { props, .. } => props.iter().any(|p| p.0 == 0x0b),
        _ => false,
    }
}

pub fn short(it: &Item) -> String {
    match it {
        Item::Connect(s) => format!("CONNECT id {:?} clean {} props {:?}{}", s.id, s.clean, s.props, if s.supported() { "" } else { " (unsupported)" }),
        Item::Sub { pid, filters, props } => format!("SUBSCRIBE {} {:?} {:?}", pid, filters, props),
        Item::Pub { m, pkt, .. } => format!("message {} {}", m, short_pkt(pkt)),
        Item::Raw { class, bytes, why } => format!("{:?} {} ({})", class, why, codec::hex(&bytes[..bytes.len().min(40)])),
    }
}
pub fn short_pkt(p: &Pkt) -> String {
    match p {
        Pkt::Publish { topic, payload, qos, retain, dup, props, .. } => {
            let id = String::from_utf8_lossy(&payload[..payload.len().min(12)]).to_string();
            let pr = format!("{:?}", props);
            let pr: String = pr.chars().take(120).collect();
            format!(
                "PUBLISH {:?} {} ({} bytes){}{}{} {}",
                topic,
                id,
                payload.len(),
                if *qos > 0 { format!(" qos{}", qos) } else { String::new() },
                if *retain { " retain" } else { "" },
                if *dup { " dup" } else { "" },
                pr
            )
        }
        o => {
            let s = format!("{:?}", o);
            s.chars().take(300).collect()
        }
    }
}
fn diff_pub(sent: &Item, got: &Pkt) -> String {
    let Item::Pub { pkt, .. } = sent else { return String::new() };
    if let (
        Pkt::Publish { dup, qos, retain, topic, props, payload, .. },
        Pkt::Publish { dup: d2, qos: q2, retain: r2, topic: t2, props: p2, payload: pl2, .. },
    ) = (pkt.clone().norm(), got.clone().norm())
    {
        let mut v = vec![];
        if topic != t2 {
            v.push(format!("topic {:?} became {:?}", topic, t2));
        }
        if props != p2 {
            v.push(format!("properties {:?} became {:?}", props, p2));
        }
        if payload != pl2 {
            let at = payload.iter().zip(pl2.iter()).position(|(a, b)| a != b).unwrap_or(payload.len().min(pl2.len()));
            v.push(format!("payload differs (length {} -> {}, first difference at {})", payload.len(), pl2.len(), at));
        }
        if (dup, qos, retain) != (d2, q2, r2) {
            v.push(format!("flags dup/qos/retain {:?} became {:?}", (dup, qos, retain), (d2, q2, r2)));
        }
        return v.join(", ");
    }
    String::new()
}
