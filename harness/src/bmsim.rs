//! The benchmark client (`bm`): its real `main`, from the command line to the printed report, against the real
//! broker, both on the simulated runtime, network and clock.
//! D01: a run against a broker that stays up ends and its report says what happened on the wire.
//! D02: a run whose broker is away, goes away or drops a subscriber ends with a failure.
use crate::codec::{self, Pkt};
use crate::run::{params, Outcome};
use crate::scen::SimP;
use crate::world::{self, Violation};
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use serde::{Deserialize, Serialize};
use simrt::{Abort, Driver, DriverEv, Rng, Tap, TapEv};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::Duration;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pace {
    /// nothing said: 1 ms
    Default,
    NoDelay,
    /// microseconds
    Const(u64),
    MinMax(u64, u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Away {
    /// nothing ever listens
    Never,
    /// the broker shuts down
    Shutdown(u64),
    /// every connection there is breaks
    Break(u64),
    /// the connection of one subscriber breaks
    BreakOne(u64, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MScen {
    pub sim: SimP,
    pub queue: usize,
    pub strict: bool,
    pub subs: Option<u32>,
    pub pubs: Option<u32>,
    pub msgs: u32,
    pub topic: Option<String>,
    pub pace: Pace,
    /// how the command line is written
    pub form: u32,
    /// connection, at (ns), for (ns): nothing gets through
    pub holds: Vec<(u32, u64, u64)>,
    pub away: Option<Away>,
}
impl MScen {
    fn nsubs(&self) -> u64 {
        self.subs.unwrap_or(10) as u64
    }
    fn npubs(&self) -> u64 {
        self.pubs.unwrap_or(10) as u64
    }
    fn topic(&self) -> &str {
        self.topic.as_deref().unwrap_or("/benchmark/stress_test")
    }
    /// shortest and longest pause before a message, in ns
    fn pause(&self) -> (u64, u64) {
        match self.pace {
            Pace::Default => (MS, MS),
            Pace::NoDelay => (0, 0),
            Pace::Const(u) => (u * 1000, u * 1000),
            Pace::MinMax(a, b) => (a * 1000, b * 1000),
        }
    }
    pub fn size(&self) -> usize {
        let (a, b) = match self.pace {
            Pace::Default | Pace::NoDelay => (0, 0),
            Pace::Const(a) => (a, 0),
            Pace::MinMax(a, b) => (a, b),
        };
        let at = match self.away {
            Some(Away::Shutdown(t)) | Some(Away::Break(t)) | Some(Away::BreakOne(t, _)) => t,
            _ => 0,
        };
        (self.nsubs() + self.npubs() + self.msgs as u64) as usize
            + 3 * self.holds.len()
            + self.topic.is_some() as usize
            + (a + b > 0) as usize
            + (at > 0) as usize
            + (self.sim.window != 65_536) as usize
            + (self.sim.latency_us != 0) as usize
            + (self.sim.jitter_us != 0) as usize
            + (self.queue != 1 << 20) as usize
    }
    /// candidates for minimisation
    pub fn smaller(&self) -> Vec<MScen> {
        let mut v = vec![];
        let mut add = |f: &dyn Fn(&mut MScen)| {
            let mut t = self.clone();
            f(&mut t);
            v.push(t);
        };
        for i in 0..self.holds.len() {
            add(&move |t| {
                t.holds.remove(i);
            });
        }
        for k in [1, 2, 4] {
            add(&move |t| t.msgs = (t.msgs / k).max(1));
            add(&move |t| t.subs = Some((t.nsubs() as u32 / k).max(1)));
            add(&move |t| t.pubs = Some((t.npubs() as u32 / k).max(1)));
        }
        add(&|t| t.msgs -= (t.msgs > 1) as u32);
        add(&|t| t.subs = Some(t.nsubs() as u32 - (t.nsubs() > 1) as u32));
        add(&|t| t.pubs = Some(t.npubs() as u32 - (t.npubs() > 1) as u32));
        add(&|t| t.sim.window = 65_536);
        add(&|t| t.sim.latency_us = 0);
        add(&|t| t.sim.jitter_us = 0);
        add(&|t| t.queue = 1 << 20);
        add(&|t| t.topic = None);
        add(&|t| t.pace = Pace::NoDelay);
        v
    }
    fn args(&self) -> Vec<std::ffi::OsString> {
        let mut r = Rng::new(self.form as u64);
        let mut groups: Vec<Vec<String>> = vec![];
        let mut val = |r: &mut Rng, short: Option<&str>, long: &str, v: String| {
            let g = match (r.below(4), short) {
                (0, Some(s)) => vec![format!("-{}", s), v],
                (1, Some(s)) => vec![format!("-{}{}", s, v)],
                (2, _) => vec![format!("--{}={}", long, v)],
                _ => vec![format!("--{}", long), v],
            };
            groups.push(g);
        };
        let dur = |r: &mut Rng, us: u64| -> String {
            let mut f = vec![format!("{}us", us), format!("{}µs", us)];
            if us % 1000 == 0 {
                f.push(format!("{}ms", us / 1000));
                f.push(format!("{}ms", us / 1000));
            }
            if us % 1_000_000 == 0 {
                f.push(format!("{}s", us / 1_000_000));
                f.push(format!("{}s", us / 1_000_000));
            }
            r.pick(&f).clone()
        };
        val(&mut r, Some("e"), "endpoint", world::mqtt_addr().to_string());
        val(&mut r, Some("m"), "messages", self.msgs.to_string());
        if let Some(s) = self.subs {
            val(&mut r, Some("s"), "subs", s.to_string());
        }
        if let Some(s) = self.pubs {
            val(&mut r, Some("p"), "pubs", s.to_string());
        }
        if let Some(t) = &self.topic {
            val(&mut r, Some("t"), "topic", t.clone());
        }
        match self.pace {
            Pace::Default => (),
            Pace::NoDelay => groups.push(vec!["--no-delay".into()]),
            Pace::Const(u) => {
                let d = dur(&mut r, u);
                val(&mut r, Some("c"), "const-delay", d)
            }
            Pace::MinMax(a, b) => {
                let d = format!("{}:{}", dur(&mut r, a), dur(&mut r, b));
                val(&mut r, None, "min-max-delay", d)
            }
        }
        let mut out: Vec<std::ffi::OsString> = vec!["apiformes-bm".into()];
        while !groups.is_empty() {
            let k = r.below(groups.len() as u64) as usize;
            out.extend(groups.remove(k).into_iter().map(|s| s.into()));
        }
        out
    }
}

pub fn generate(prop: &str, seed: u64) -> MScen {
    let mut r = Rng::new(seed ^ 0xbe9c);
    let calm = r.chance(150);
    let sim = SimP {
        sched: if calm { 0 } else { r.below(6) as u32 },
        preempt: if calm { 0 } else { *r.pick(&[0, 50, 200, 400]) },
        latency_us: *r.pick(&[0, 10, 100, 1000, 20_000, 300_000]),
        jitter_us: if calm { 0 } else { *r.pick(&[0, 50, 5000, 40_000, 250_000]) },
        short_read: if calm { 0 } else { *r.pick(&[0, 0, 100, 500, 900]) },
        short_write: if calm { 0 } else { *r.pick(&[0, 0, 100, 500]) },
        seg: if calm { 0 } else { *r.pick(&[0, 0, 200, 600]) },
        edge: 0,
        window: *r.pick(&[64, 256, 4096, 65_536, 65_536]),
        cost: 0,
    };
    let none = r.chance(40);
    let subs = if r.chance(60) { None } else { Some(if none && r.chance(500) { 0 } else { r.range(1, 6) as u32 }) };
    let pubs = if r.chance(60) { None } else { Some(if none && subs != Some(0) { 0 } else { r.range(1, 6) as u32 }) };
    let msgs = if none && subs != Some(0) && pubs != Some(0) {
        0
    } else {
        match r.below(10) {
            0 => 1,
            1..=5 => r.range(1, 12) as u32,
            6..=8 => r.range(10, 60) as u32,
            _ => r.range(50, 300) as u32,
        }
    };
    let msgs = if subs.is_none() || pubs.is_none() { msgs.min(20) } else { msgs };
    let pace = match r.below(6) {
        0 => Pace::Default,
        1 | 2 => Pace::NoDelay,
        3 | 4 => Pace::Const(*r.pick(&[0, 10, 700, 1000, 2000, 15_000, 50_000, 250_000, 1_000_000, 3_000_000])),
        _ => {
            let a = *r.pick(&[0, 10, 1000, 5000, 100_000, 1_000_000]);
            let b = a + *r.pick(&[1, 1000, 10_000, 30_000, 400_000, 2_000_000]);
            Pace::MinMax(a, b)
        }
    };
    let topic = if r.chance(300) {
        None
    } else {
        Some(r.pick(&["t", "/topic/path", "a/b/c", "sensor/1/temperature", "\u{e9}t\u{e9}/x", "//", "bm test/1", "x=y"]).to_string())
    };
    let mut holds = vec![];
    let horizon = {
        let p = match &pace {
            Pace::Default => MS,
            Pace::NoDelay => 0,
            Pace::Const(u) => u * 1000,
            Pace::MinMax(a, b) => (a + b) * 500,
        };
        p * msgs as u64 + (sim.latency_us + sim.jitter_us) as u64 * 1000 * (3 * subs.unwrap_or(10) as u64 + 2) + 5 * MS
    };
    let at = |r: &mut Rng| if r.chance(500) { r.below(horizon) } else { r.below(horizon / 4 + 1) };
    let nconn = subs.unwrap_or(10) + pubs.unwrap_or(10);
    if !calm && r.chance(400) {
        for _ in 0..r.range(1, 4) {
            holds.push((r.below(nconn.max(1) as u64) as u32, at(&mut r), r.range(1, 8_000) * MS));
        }
    }
    let away = (prop == "D02" || r.chance(30)).then(|| match r.below(10) {
        0 => Away::Never,
        1..=4 => Away::Shutdown(at(&mut r)),
        5..=6 => Away::Break(at(&mut r)),
        _ => Away::BreakOne(at(&mut r), r.below(subs.unwrap_or(10).max(1) as u64) as u32),
    });
    MScen {
        sim,
        queue: *r.pick(&[0, 1, 64, 1000, 1 << 20]),
        strict: r.chance(500),
        subs,
        pubs,
        msgs,
        topic,
        pace,
        form: r.next() as u32,
        holds,
        away,
    }
}

thread_local! {
    /// when the program's own code begins
    static BEGAN: Cell<u64> = const { Cell::new(0) };
    static OVERDUE: Cell<bool> = const { Cell::new(false) };
}

struct BDrv {
    sc: MScen,
}
const T_OVERDUE: u64 = 1 << 40;
const T_AWAY: u64 = 2 << 40;
impl Driver for BDrv {
    fn on_event(&mut self, ev: DriverEv) {
        let DriverEv::Timer(t) = ev else { return };
        if t == T_OVERDUE {
            OVERDUE.with(|o| o.set(true));
            simrt::abort(Abort::StepBudget);
        } else if t == T_AWAY {
            match self.sc.away {
                Some(Away::Break(_)) => (0..simrt::connections()).for_each(|c| simrt::break_conn(c as u32)),
                Some(Away::BreakOne(_, k)) => simrt::break_conn(k),
                _ => (),
            }
        } else if let Some((k, _, d)) = self.sc.holds.get(t as usize) {
            if (*k as usize) < simrt::connections() {
                simrt::hold(simrt::Sock { conn: *k, end: 0 }, *d);
            }
        }
    }
    fn on_quiescent(&mut self) -> bool {
        false
    }
}

/// what is written to file descriptor 1 while `f` runs
pub fn captured<R>(f: impl FnOnce() -> R) -> (R, String) {
    let _ = std::io::stdout().flush();
    unsafe {
        let keep = libc::dup(1);
        let fd = libc::memfd_create(c"bm".as_ptr(), 0);
        assert!(keep >= 0 && fd >= 0);
        libc::dup2(fd, 1);
        let r = f();
        let _ = std::io::stdout().flush();
        libc::dup2(keep, 1);
        libc::close(keep);
        let n = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut b = vec![0u8; n];
        let mut o = 0;
        while o < n {
            let k = libc::read(fd, b[o..].as_mut_ptr() as *mut libc::c_void, n - o);
            if k <= 0 {
                break;
            }
            o += k as usize;
        }
        libc::close(fd);
        (r, String::from_utf8_lossy(&b).into_owned())
    }
}

pub fn run(sc: &MScen, seed: u64, replay: Option<Vec<Vec<u32>>>, want_trace: bool) -> Outcome {
    let sc = sc.clone();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || run_here(sc, seed, replay, want_trace))
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            let mut o = Outcome::empty();
            o.harness_error = Some("the simulation thread panicked".into());
            o
        })
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Success,
    /// exit status 1 or a panic
    Failure(String),
    Aborted(Abort),
}

fn run_here(sc: MScen, seed: u64, replay: Option<Vec<Vec<u32>>>, want_trace: bool) -> Outcome {
    let mut p = params(&sc.sim);
    p.max_polls = 12_000_000;
    simrt::install(seed, p, replay, 0);
    simrt::set_driver(Box::new(BDrv { sc: sc.clone() }));
    simrt::with(|s| s.tap = Some(vec![]));
    let start = simrt::now_ns();
    OVERDUE.with(|o| o.set(false));
    BEGAN.with(|o| o.set(start));
    let cfg = MqttServerConfig {
        mqtt_socketaddr: Some(world::mqtt_addr()),
        noise_socketaddr: None,
        keep_alive: 600,
        dispatcher_queue_size: sc.queue,
        max_packet_size: 64 * 1024,
        channel_permeability: if sc.strict { Permeability::Strict } else { Permeability::Permissive },
        private_key: crate::noise::SERVER_PRIV,
    };
    // longest time the run may take: everything once for each hold, and the network
    let lat = (sc.sim.latency_us + sc.sim.jitter_us) as u64 * 1000 + MS;
    let bytes = 200 * (sc.msgs as u64 + 4) * sc.npubs() * (sc.nsubs() + 1);
    let windows = 2 + bytes / sc.sim.window.max(1) as u64;
    let limit = 60 * SEC
        + sc.msgs as u64 * (sc.pause().1 + 3 * MS)
        + sc.holds.iter().map(|h| h.1 + h.2).sum::<u64>()
        + lat * (40 + 6 * (sc.nsubs() + sc.npubs()) + 4 * windows)
        + lat * sc.msgs as u64 * 40;
    let s2 = sc.clone();
    simrt::set_prelude(Box::new(move || {
        Box::pin(async move {
            if s2.away != Some(Away::Never) {
                let srv = MqttServer::new(cfg).await.expect("the broker starts");
                let at = match s2.away {
                    Some(Away::Shutdown(t)) => Some(t),
                    _ => None,
                };
                tokio::spawn(async move {
                    match at {
                        Some(t) => {
                            tokio::time::sleep(Duration::from_nanos(t)).await;
                            srv.shutdown().await
                        }
                        None => futures::future::pending().await,
                    }
                });
            }
            BEGAN.with(|b| b.set(simrt::now_ns()));
            for (i, h) in s2.holds.iter().enumerate() {
                simrt::timer_after(h.1, i as u64);
            }
            match s2.away {
                Some(Away::Break(t)) | Some(Away::BreakOne(t, _)) => simrt::timer_after(t, T_AWAY),
                _ => (),
            }
            simrt::timer_after(limit, T_OVERDUE);
        })
    }));
    simrt::set_args(Some(sc.args()));
    let (r, out) = captured(|| std::panic::catch_unwind(|| apiformes_bm::dst_main()));
    simrt::set_args(None);
    let finished = simrt::now_ns();
    let panics = simrt::with(|s| std::mem::take(&mut s.panics));
    let end = match (simrt::aborted(), r) {
        (Some(Abort::Finished), _) => match simrt::take_exit() {
            Some(0) => End::Success,
            c => End::Failure(format!("exit status {}", c.unwrap_or(-1))),
        },
        (Some(a), _) => End::Aborted(a),
        (None, Ok(true)) => End::Success,
        (None, Ok(false)) => End::Failure("exit status 1".into()),
        (None, Err(_)) => End::Failure(panics.last().cloned().unwrap_or_default()),
    };
    let mut st = simrt::uninstall();
    for b in out.bytes() {
        st.mix(b as u64);
    }
    let tap = st.tap.take().unwrap_or_default();
    let mut j = Judge {
        sc: &sc,
        tap: &tap,
        out: &out,
        end: &end,
        began: BEGAN.with(|b| b.get()),
        finished,
        blocked: st.stats.backpressure > 0,
        panics: &panics,
        viol: vec![],
        hits: BTreeMap::new(),
        arrived: 0,
    };
    j.judge();
    let (viol, hits, arrived) = (j.viol, j.hits, j.arrived);
    let mut trace = vec![];
    if want_trace {
        trace.push(format!("{:?}", sc.args()));
        for t in &tap {
            let ms = (t.at - start) as f64 / 1e6;
            trace.push(match &t.what {
                TapEv::Wrote(b) => format!("{:10.3} ms conn {} wrote {}", ms, t.conn, codec::hex(b)),
                TapEv::Read(b) => format!("{:10.3} ms conn {} read {}", ms, t.conn, codec::hex(b)),
                TapEv::Blocked => format!("{:10.3} ms conn {} waits for room", ms, t.conn),
                TapEv::Closed => format!("{:10.3} ms conn {} closed by the benchmark", ms, t.conn),
            });
        }
        trace.extend(out.lines().map(|l| format!("printed: {}", l)));
        trace.extend(panics.iter().map(|l| format!("panic: {}", l.replace('\n', " "))));
        trace.push(format!("{:10.3} ms the benchmark ended: {:?}", (finished - start) as f64 / 1e6, end));
    }
    let s = &st.stats;
    let mut faults = BTreeMap::new();
    for (k, v) in [
        ("preemptions", s.preempts),
        ("non_fifo_picks", s.sched_nonfifo),
        ("select_reorders", s.select_flip),
        ("short_reads", s.short_reads),
        ("short_writes", s.short_writes),
        ("split_segments", s.segments_split),
        ("delayed_segments", s.delayed),
        ("backpressure_waits", s.backpressure),
        ("partitions", s.partitions),
        ("resets", s.rst),
        ("connects_refused", s.connect_refused),
        ("broker_shutdowns", matches!(sc.away, Some(Away::Shutdown(_))) as u64),
        ("connections", s.conns),
        ("bytes", s.bytes),
    ] {
        if v > 0 {
            faults.insert(k, v);
        }
    }
    Outcome {
        violations: viol,
        hits,
        digest: st.digest,
        faults,
        sim_ns: finished - start,
        polls: st.polls,
        trace,
        record: std::mem::take(&mut st.record),
        harness_error: None,
        delivered: arrived,
    }
}

// ------------------------------------------------------------------ oracle

/// what one connection of the benchmark did
#[derive(Default)]
struct ConnLog {
    wrote: Vec<Msg>,
    read: Vec<Msg>,
    closed: Option<u64>,
    bad: Option<String>,
}
struct Msg {
    p: Pkt,
    /// first and last byte
    from: u64,
    to: u64,
    /// number of polls at the last byte
    poll: u64,
    /// had to wait for room
    blocked: bool,
}

struct Judge<'a> {
    sc: &'a MScen,
    tap: &'a [Tap],
    out: &'a str,
    end: &'a End,
    began: u64,
    finished: u64,
    blocked: bool,
    panics: &'a [String],
    viol: Vec<Violation>,
    hits: BTreeMap<&'static str, u64>,
    arrived: u64,
}

fn cut(stream: &[(u64, u64, bool, Vec<u8>)]) -> (Vec<Msg>, Option<String>) {
    let mut out = vec![];
    let mut buf: Vec<u8> = vec![];
    // (offset of the end of a piece, at, poll)
    let mut from = 0;
    let mut blocked = false;
    for (at, poll, b, d) in stream {
        blocked |= *b;
        if buf.is_empty() && !d.is_empty() {
            from = *at;
        }
        buf.extend(d);
        loop {
            match codec::decode(&buf) {
                Ok(Some((p, n))) => {
                    buf.drain(..n);
                    out.push(Msg { p, from, to: *at, poll: *poll, blocked });
                    blocked = false;
                    from = *at;
                }
                Ok(None) => break,
                Err(e) => return (out, Some(e)),
            }
        }
    }
    let rest = (!buf.is_empty()).then(|| "an incomplete packet".to_string());
    (out, rest)
}

/// "1.5ms" as Duration's Debug writes it
fn dur(s: &str) -> Option<u64> {
    let k = s.find(|c: char| !c.is_ascii_digit() && c != '.')?;
    let v: f64 = s[..k].parse().ok()?;
    Some((v * match &s[k..] {
        "ns" => 1.0,
        "µs" | "us" => 1e3,
        "ms" => 1e6,
        "s" => 1e9,
        _ => return None,
    }) as u64)
}

impl Judge<'_> {
    fn bad(&mut self, tag: &'static str, msg: String) {
        if self.viol.len() < 5 {
            self.viol.push(Violation { tags: vec![tag], msg });
        }
    }
    fn hit(&mut self, tag: &'static str) {
        *self.hits.entry(tag).or_default() += 1;
    }
    fn conns(&self) -> BTreeMap<u32, ConnLog> {
        let mut w: BTreeMap<u32, (Vec<(u64, u64, bool, Vec<u8>)>, Vec<(u64, u64, bool, Vec<u8>)>, Option<u64>)> = BTreeMap::new();
        for t in self.tap {
            let e = w.entry(t.conn).or_default();
            match &t.what {
                TapEv::Wrote(b) => e.0.push((t.at, t.poll, false, b.clone())),
                TapEv::Blocked => e.0.push((t.at, t.poll, true, vec![])),
                TapEv::Read(b) => e.1.push((t.at, t.poll, false, b.clone())),
                TapEv::Closed => e.2 = Some(t.at),
            }
        }
        w.into_iter()
            .map(|(k, (a, b, c))| {
                let (wrote, e1) = cut(&a);
                let (read, e2) = cut(&b);
                let bad = e1.map(|e| format!("wrote {}", e)).or(e2.map(|e| format!("read {}", e)));
                (k, ConnLog { wrote, read, closed: c, bad })
            })
            .collect()
    }
    fn line(&self, key: &str) -> Option<&str> {
        self.out.lines().find_map(|l| l.strip_prefix(key)).map(|l| l.trim())
    }

    fn judge(&mut self) {
        let cs = self.conns();
        let is_sub = |c: &ConnLog| c.wrote.iter().any(|m| matches!(m.p, Pkt::Subscribe { .. }));
        let n = self.sc.msgs as u64 * self.sc.npubs();
        let pubs_read = |c: &ConnLog| c.read.iter().filter(|m| matches!(m.p, Pkt::Publish { .. })).count() as u64;
        self.arrived = cs.values().map(pubs_read).sum();
        let complete = cs.values().filter(|c| is_sub(c)).count() as u64 == self.sc.nsubs()
            && cs.values().filter(|c| is_sub(c)).all(|c| pubs_read(c) == n)
            && cs.values().map(|c| c.wrote.iter().filter(|m| matches!(m.p, Pkt::Publish { .. })).count() as u64).sum::<u64>() == n;
        if self.sc.away.is_some() {
            self.hit("D02");
            match self.end {
                End::Aborted(a) => {
                    let what = match a {
                        Abort::BusyLoop => "spins",
                        Abort::Stuck | Abort::Finished => "waits for ever",
                        Abort::StepBudget if OVERDUE.with(|o| o.get()) => "is still running long after all faults",
                        Abort::StepBudget => "does not end within its budget of task polls",
                    };
                    self.bad("D02", format!("the benchmark {} ({:?})", what, self.sc.away.as_ref().unwrap()))
                }
                End::Success if !complete => self.bad(
                    "D02",
                    format!("the benchmark reports success although only {} of {} deliveries arrived ({:?})", self.arrived, n * self.sc.nsubs(), self.sc.away.as_ref().unwrap()),
                ),
                _ => (),
            }
            if self.end == &End::Success {
                self.check_report(&cs, "D02");
            }
            return;
        }
        self.hit("D01");
        match self.end {
            End::Aborted(a) => {
                let m = match a {
                    Abort::BusyLoop => "the benchmark spins",
                    Abort::Stuck | Abort::Finished => "the benchmark waits for ever",
                    Abort::StepBudget if OVERDUE.with(|o| o.get()) => "the benchmark is still running long after it must have ended",
                    Abort::StepBudget => "the benchmark does not end within its budget of task polls",
                };
                let sent: usize = cs.values().map(|c| c.wrote.len()).sum();
                self.bad("D01", format!("{}; packets written {}, deliveries {} of {}", m, sent, self.arrived, n * self.sc.nsubs()));
                return;
            }
            End::Failure(m) => {
                let all: Vec<&String> = self.panics.iter().take(3).collect();
                self.bad("D01", format!("the benchmark failed although the broker was there: {} {:?}", m.replace('\n', " "), all));
                return;
            }
            End::Success => (),
        }
        // the wire
        if cs.len() as u64 != self.sc.nsubs() + self.sc.npubs() {
            self.bad("D01", format!("{} connections instead of {} subscribers and {} publishers", cs.len(), self.sc.nsubs(), self.sc.npubs()));
        }
        let subs: Vec<&ConnLog> = cs.values().filter(|c| is_sub(c)).collect();
        let pubs: Vec<&ConnLog> = cs.values().filter(|c| !is_sub(c)).collect();
        if subs.len() as u64 != self.sc.nsubs() {
            self.bad("D01", format!("{} connections subscribe, not {}", subs.len(), self.sc.nsubs()));
            return;
        }
        for (k, c) in &cs {
            if let Some(b) = &c.bad {
                self.bad("D01", format!("connection {} {}", k, b));
                return;
            }
        }
        let topic = self.sc.topic().to_string();
        let mut last_suback = 0;
        for c in &subs {
            match c.wrote.get(1).map(|m| &m.p) {
                Some(Pkt::Subscribe { filters, .. }) if filters.len() == 1 && filters[0].0 == topic => (),
                p => self.bad("D01", format!("a subscriber sends {:?} instead of a SUBSCRIBE for {:?}", p, topic)),
            }
            match c.read.get(1) {
                Some(Msg { p: Pkt::Codes { ty: 9, .. }, to, .. }) => last_suback = last_suback.max(*to),
                p => self.bad("D01", format!("a subscriber goes on without a SUBACK ({:?})", p.map(|m| &m.p))),
            }
            if pubs_read(c) != n {
                self.bad("D01", format!("a subscriber received {} of {} messages and the run ended with success", pubs_read(c), n));
            }
        }
        let all_received = subs.iter().filter_map(|c| c.read.last().map(|m| m.to)).max().unwrap_or(0);
        // payload -> earliest beginning and latest end of sending it
        let mut sent: BTreeMap<Vec<u8>, (u64, u64)> = BTreeMap::new();
        let mut gaps: Vec<u64> = vec![];
        let (lo, hi) = self.sc.pause();
        for c in &pubs {
            let mut prev = c.read.first().map_or(0, |m| m.to);
            let mut prevpoll = c.read.first().map_or(0, |m| m.poll);
            let mut k = 0;
            for m in c.wrote.iter().skip(1) {
                match &m.p {
                    Pkt::Publish { topic: t, payload, qos: 0, retain: false, .. } if *t == topic => {
                        k += 1;
                        if m.from < last_suback {
                            self.bad("D01", "a message is published before every subscriber has its SUBACK".into());
                        }
                        let e = sent.entry(payload.clone()).or_insert((u64::MAX, 0));
                        e.0 = e.0.min(if m.blocked { prev } else { m.from });
                        e.1 = e.1.max(m.to);
                        let gap = m.from.saturating_sub(prev);
                        if gap < lo {
                            self.bad("D01", format!("a publisher waited {:?} before a message, at least {:?} were asked for", Duration::from_nanos(gap), Duration::from_nanos(lo)));
                        }
                        if !m.blocked {
                            let late = (m.poll - prevpoll) * 1000 + 4 * MS;
                            if gap > hi + late {
                                self.bad("D01", format!("a publisher waited {:?} before a message, {:?} were asked for", Duration::from_nanos(gap), Duration::from_nanos(hi)));
                            }
                            gaps.push(gap);
                        }
                        prev = m.to;
                        prevpoll = m.poll;
                    }
                    p => self.bad("D01", format!("a publisher sends {:?}", p)),
                }
            }
            if k != self.sc.msgs {
                self.bad("D01", format!("a publisher sent {} messages instead of {}", k, self.sc.msgs));
            }
            if !subs.is_empty() && n > 0 && c.closed.map_or(false, |t| t < all_received) {
                self.bad("D01", "a publisher closed its connection before every subscriber had received everything".into());
            }
        }
        if let Pace::MinMax(a, b) = self.sc.pace {
            if b - a >= 30_000 && gaps.len() >= 30 {
                let (x, y) = (*gaps.iter().min().unwrap(), *gaps.iter().max().unwrap());
                self.hit("D01");
                if y - x < (b - a) * 1000 / 10 {
                    self.bad("D01", format!("{} pauses between {:?} and {:?} are not spread over {} to {} us", gaps.len(), Duration::from_nanos(x), Duration::from_nanos(y), a, b));
                }
            }
        }
        if self.viol.is_empty() {
            self.check_report(&cs, "D01");
        }
        let _ = sent;
    }

    /// the printed figures against what went over the wire
    fn check_report(&mut self, cs: &BTreeMap<u32, ConnLog>, tag: &'static str) {
        let is_sub = |c: &ConnLog| c.wrote.iter().any(|m| matches!(m.p, Pkt::Subscribe { .. }));
        let subs: Vec<&ConnLog> = cs.values().filter(|c| is_sub(c)).collect();
        let pubs: Vec<&ConnLog> = cs.values().filter(|c| !is_sub(c)).collect();
        for (k, v) in [
            ("Number of concurrent Publishers:", self.sc.npubs().to_string()),
            ("Number of concurrent Subscribers:", self.sc.nsubs().to_string()),
            ("Benchmarking topic:", self.sc.topic().to_string()),
            ("Number of publish messages:", self.sc.msgs.to_string()),
        ] {
            if self.line(k) != Some(&v) {
                self.bad(tag, format!("the report says \"{} {:?}\", it was {}", k, self.line(k), v));
            }
        }
        let mut sent: BTreeMap<&[u8], (u64, u64)> = BTreeMap::new();
        for c in &pubs {
            let mut prev = c.read.first().map_or(0, |m| m.to);
            for m in c.wrote.iter().skip(1) {
                if let Pkt::Publish { payload, .. } = &m.p {
                    let e = sent.entry(payload).or_insert((u64::MAX, 0));
                    e.0 = e.0.min(if m.blocked { prev } else { m.from });
                    e.1 = e.1.max(m.to);
                    prev = m.to;
                }
            }
        }
        let tol = 2 * MS;
        let (mut los, mut his) = (vec![], vec![]);
        for c in &subs {
            for m in &c.read {
                if let Pkt::Publish { payload, .. } = &m.p {
                    let Some((a, b)) = sent.get(&payload[..]) else {
                        self.bad(tag, "a subscriber received a payload nobody sent".into());
                        return;
                    };
                    los.push(m.to.saturating_sub(*b).saturating_sub(tol));
                    his.push(m.to.saturating_sub(*a) + tol);
                }
            }
        }
        los.sort();
        his.sort();
        let n = los.len();
        if n > 0 {
            let mut prev = 0;
            for (k, i) in [
                ("Minimum trip time:", 0),
                ("75th percentile trip time:", n * 75 / 100),
                ("90th percentile trip time:", n * 90 / 100),
                ("99th percentile trip time:", n * 99 / 100),
                ("Maximum trip time:", n - 1),
            ] {
                let Some(v) = self.line(k).and_then(dur) else {
                    self.bad(tag, format!("the report has no readable \"{}\": {:?}", k, self.line(k)));
                    continue;
                };
                self.hit(tag);
                // other conventions for a percentile differ by one element; the extremes are what they are
                let edge = i == 0 || k.starts_with("Max");
                let (l, h) = if edge { (los[i], his[i]) } else { (los[i.saturating_sub(1)], his[(i + 1).min(n - 1)]) };
                if v < l || v > h {
                    self.bad(
                        tag,
                        format!("\"{} {:?}\": on the wire it was {:?} to {:?} ({} trips)", k, Duration::from_nanos(v), Duration::from_nanos(l), Duration::from_nanos(h), n),
                    );
                }
                if v < prev || v > self.finished - self.began {
                    self.bad(tag, format!("\"{} {:?}\" is out of order or longer than the run", k, Duration::from_nanos(v)));
                }
                prev = v;
            }
        }
        let rate = |j: &Self, k: &str| -> Option<f64> { j.line(k)?.split(' ').next()?.parse().ok() };
        if n > 0 {
            // mean over the subscribers of messages per second of waiting for them
            let (mut lo, mut hi) = (0.0, 0.0);
            for c in &subs {
                let ack = c.read.get(1).map_or(0, |m| m.to);
                let last = c.read.last().map_or(0, |m| m.to);
                let k = (c.read.len() - 2) as f64;
                let d = (last - ack) as f64 / 1e9;
                lo += k / (d + 0.003);
                hi += if d > 0.003 { k / (d - 0.003) } else { f64::INFINITY };
            }
            let m = subs.len() as f64;
            let (lo, hi) = (lo / m, hi / m);
            match rate(self, "Mean arrival rate =") {
                Some(v) => {
                    self.hit(tag);
                    if !(v >= lo * 0.99 - 0.02 && v <= hi * 1.01 + 0.02) {
                        self.bad(tag, format!("\"Mean arrival rate = {}\": on the wire it was {:.2} to {:.2} messages per second and subscriber", v, lo, hi));
                    }
                }
                None => self.bad(tag, format!("the report has no readable mean arrival rate: {:?}", self.line("Mean arrival rate ="))),
            }
        }
        if self.sc.msgs > 0 && !pubs.is_empty() {
            // mean over the publishers of messages per second spent on sending
            let (mut lo, mut hi) = (0.0, 0.0);
            for c in &pubs {
                let k = self.sc.msgs as f64;
                let ack = c.read.first().map_or(0, |m| m.to);
                let last = c.wrote.last().map_or(0, |m| m.to);
                let d = ((last - ack) as f64 / 1e9 - k * self.sc.pause().0 as f64 / 1e9).max(0.0);
                lo += k / (d + 0.003);
                hi += if self.sc.pace == Pace::NoDelay && d > 0.003 { k / (d - 0.003) } else { f64::INFINITY };
            }
            let m = pubs.len() as f64;
            let (lo, hi) = (lo / m, hi / m);
            match rate(self, "Mean departure rate =") {
                Some(v) => {
                    self.hit(tag);
                    if !(v >= lo * 0.99 - 0.02 && v <= hi * 1.01 + 0.02) {
                        self.bad(tag, format!("\"Mean departure rate = {}\": on the wire it was {:.2} to {:.2} messages per second and publisher", v, lo, hi));
                    }
                }
                None => self.bad(tag, format!("the report has no readable mean departure rate: {:?}", self.line("Mean departure rate ="))),
            }
        }
        let _ = self.blocked;
    }
}
