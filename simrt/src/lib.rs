//! Deterministic simulation kernel: one thread = one simulated world.
//!
//! Everything nondeterministic that the broker (or any code running on the
//! patched tokio) can observe is answered here: which runnable task is polled
//! next, where a task is preempted, which `select!` arm is looked at first, the
//! clock, entropy, and a simulated TCP network.  Each choice is drawn from a
//! seeded PRNG, recorded, and can be replayed from the record.
//! In every decision stream the value 0 is the benign default.

pub mod mem;
mod net;
pub use net::*;

use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::task::Waker;
use std::time::Duration;

/// Decision kinds; each has its own recorded stream.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum K {
    Sched = 0,
    Preempt = 1,
    Select = 2,
    ReadLen = 3,
    WriteLen = 4,
    Seg = 5,
    Latency = 6,
    Misc = 7,
}
pub const NK: usize = 8;
pub const K_NAMES: [&str; NK] = [
    "sched", "preempt", "select", "read_len", "write_len", "seg", "latency", "misc",
];

/// splitmix64
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n>=1)
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, permille: u32) -> bool {
        self.below(1000) < permille as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    /// 0 fifo, 1 uniform, 2 priorities with change points, 3 lifo, 4 starve a subset, 5 mixed
    pub sched_policy: u32,
    pub preempt_permille: u32,
    pub poll_cost_ns: u64,
    pub latency_ns: u64,
    pub jitter_us: u32,
    pub short_read_permille: u32,
    pub short_write_permille: u32,
    pub seg_permille: u32,
    pub window: usize,
    /// polls between two parks after which the run is declared to be spinning
    pub max_polls_no_park: u64,
    pub max_polls: u64,
}
impl Default for Params {
    fn default() -> Self {
        Params {
            sched_policy: 0,
            preempt_permille: 0,
            poll_cost_ns: 1000,
            latency_ns: 100_000,
            jitter_us: 0,
            short_read_permille: 0,
            short_write_permille: 0,
            seg_permille: 0,
            window: 65536,
            max_polls_no_park: 30_000,
            max_polls: 1_000_000,
        }
    }
}

pub trait Driver {
    fn on_event(&mut self, ev: DriverEv);
    /// No runnable task and no pending event. Return true if something new was scheduled.
    fn on_quiescent(&mut self) -> bool;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DriverEv {
    Timer(u64),
    Connected(Sock),
    ConnectFailed(Sock),
    Data(Sock),
    Eof(Sock),
    Reset(Sock),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub(crate) enum Ev {
    Timer(u64),
    Syn(u32),
    SynAck(u32, bool),
    Deliver(u32, u8),
    PeerReset(u32, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Abort {
    BusyLoop,
    StepBudget,
    Stuck,
    /// the end of a simulated program that would go on for ever
    Finished,
}

pub struct State {
    pub params: Params,
    rngs: Vec<Rng>,
    replay: Option<Vec<Vec<u32>>>,
    replay_pos: [usize; NK],
    pub record: Vec<Vec<u32>>,
    events: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    evseq: u64,
    pub polls: u64,
    /// extra polls granted for work the driver knows to be large
    pub allowance: u64,
    pub polls_since_park: u64,
    pub parks: u64,
    pub digest: u64,
    starve_salt: u64,
    pct_low: u64,
    pub aborted: Option<Abort>,
    pub(crate) net: net::Net,
    pub stats: Stats,
    pub panics: Vec<String>,
    recent_tasks: [u64; 16],
    /// what the ends of simulated programs that connect (not the driver's clients) write and read
    pub tap: Option<Vec<Tap>>,
}

#[derive(Clone, Debug)]
pub struct Tap {
    pub at: u64,
    pub poll: u64,
    pub conn: u32,
    pub what: TapEv,
}
#[derive(Clone, Debug)]
pub enum TapEv {
    Wrote(Vec<u8>),
    /// had to wait for room
    Blocked,
    Read(Vec<u8>),
    Closed,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub preempts: u64,
    pub sched_nonfifo: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub segments_split: u64,
    pub glued: u64,
    pub delayed: u64,
    pub backpressure: u64,
    pub partitions: u64,
    pub stalls: u64,
    pub rst: u64,
    pub fin: u64,
    pub half_close: u64,
    pub accept_err: u64,
    pub bind_err: u64,
    pub tamper: u64,
    pub replayed_frames: u64,
    pub connect_refused: u64,
    pub rx_purged: u64,
    pub write_after_close: u64,
    pub clock_pause: u64,
    pub select_flip: u64,
    pub conns: u64,
    pub bytes: u64,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static SIM: RefCell<Option<Box<State>>> = const { RefCell::new(None) };
    static DRIVER: RefCell<Option<Box<dyn Driver>>> = const { RefCell::new(None) };
    static POLLS: Cell<u64> = const { Cell::new(0) };
    static NEXT_TASK: Cell<u64> = const { Cell::new(0) };
    static LOGLEVEL: Cell<u8> = const { Cell::new(0) };
    static PRELUDE: RefCell<Option<Prelude>> = const { RefCell::new(None) };
    static EXITED: Cell<Option<i32>> = const { Cell::new(None) };
    static ARGS: RefCell<Option<Vec<std::ffi::OsString>>> = const { RefCell::new(None) };
}

/// What runs on the runtime of a simulated program before its own main future.
pub type Prelude = Box<dyn FnOnce() -> std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>>;
pub fn set_prelude(p: Prelude) {
    PRELUDE.with(|x| *x.borrow_mut() = Some(p));
}
pub fn take_prelude() -> Option<Prelude> {
    if !active() {
        return None;
    }
    PRELUDE.with(|x| x.borrow_mut().take())
}
/// what a simulated program calls instead of `std::process::exit`
pub fn exit(code: i32) -> ! {
    EXITED.with(|e| e.set(Some(code)));
    abort(Abort::Finished);
    std::panic::resume_unwind(Box::new(Abort::Finished))
}
/// the status the program ended with by calling that
pub fn take_exit() -> Option<i32> {
    EXITED.with(|e| e.take())
}
/// ends a simulated program whose run was aborted
pub fn prelude_check() {
    if let Some(a) = aborted() {
        std::panic::resume_unwind(Box::new(a));
    }
}
/// the command line of a simulated program
pub fn set_args(a: Option<Vec<std::ffi::OsString>>) {
    ARGS.with(|x| *x.borrow_mut() = a);
}
pub fn args() -> Option<Vec<std::ffi::OsString>> {
    ARGS.with(|x| x.borrow().clone())
}

pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}
/// simulated nanoseconds since the start of the run
pub fn now_ns() -> u64 {
    NOW.with(|n| n.get())
}
pub fn log_level() -> u8 {
    LOGLEVEL.try_with(|l| l.get()).unwrap_or(0)
}
pub fn set_log_level(l: u8) {
    LOGLEVEL.with(|c| c.set(l));
}

pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let _o = mem::outside();
    SIM.with(|s| {
        let mut b = s.borrow_mut();
        f(b.as_mut().expect("not inside a simulation"))
    })
}
pub fn try_with<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    let _o = mem::outside();
    SIM.try_with(|s| match s.try_borrow_mut() {
        Ok(mut b) => b.as_mut().map(|b| f(b)),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

/// Install a simulated world on this (fresh) thread.
pub fn install(seed: u64, params: Params, replay: Option<Vec<Vec<u32>>>, loglevel: u8) {
    mem::reset();
    NOW.with(|n| n.set(1_000_000_000_000));
    ENTROPY.with(|e| e.set(Rng::new(seed ^ 0x656e_7472_6f70_79).next()));
    LOGLEVEL.with(|l| l.set(loglevel));
    POLLS.with(|p| p.set(0));
    NEXT_TASK.with(|p| p.set(0));
    ACTIVE.with(|a| a.set(true));
    let mut base = Rng::new(seed ^ 0x6465_6369_7369_6f6e);
    let rngs = (0..NK).map(|_| Rng::new(base.next())).collect();
    let salt = base.next();
    let st = State {
        net: net::Net::new(),
        params,
        rngs,
        replay,
        replay_pos: [0; NK],
        record: vec![Vec::new(); NK],
        events: BinaryHeap::new(),
        evseq: 0,
        polls: 0,
        allowance: 0,
        polls_since_park: 0,
        parks: 0,
        digest: 0xcbf2_9ce4_8422_2325,
        starve_salt: salt,
        pct_low: 0,
        aborted: None,
        stats: Stats::default(),
        panics: Vec::new(),
        recent_tasks: [0; 16],
        tap: None,
    };
    SIM.with(|s| *s.borrow_mut() = Some(Box::new(st)));
}
pub fn set_driver(d: Box<dyn Driver>) {
    DRIVER.with(|x| *x.borrow_mut() = Some(d));
}
/// Tear down; returns the final state for inspection.
pub fn uninstall() -> Box<State> {
    DRIVER.with(|x| *x.borrow_mut() = None);
    let st = SIM.with(|s| s.borrow_mut().take()).expect("no sim");
    ACTIVE.with(|a| a.set(false));
    LOGLEVEL.with(|l| l.set(0));
    st
}

impl State {
    pub fn mix(&mut self, v: u64) {
        self.digest = (self.digest.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    /// One recorded decision in 0..n.
    pub fn decide(&mut self, k: K, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let ki = k as usize;
        let v = match &self.replay {
            Some(r) => {
                let p = self.replay_pos[ki];
                self.replay_pos[ki] += 1;
                r[ki].get(p).copied().unwrap_or(0) % n
            }
            None => gen(&mut self.rngs[ki]) % n,
        };
        self.record[ki].push(v);
        self.mix(((ki as u64) << 32) | v as u64);
        v
    }
    pub fn uniform(&mut self, k: K, n: u32) -> u32 {
        self.decide(k, n, |r| r.below(n as u64) as u32)
    }
    pub fn chance(&mut self, k: K, permille: u32) -> bool {
        if permille == 0 {
            return false;
        }
        self.decide(k, 2, |r| r.chance(permille) as u32) == 1
    }
    pub(crate) fn push_event(&mut self, at: u64, ev: Ev) {
        self.evseq += 1;
        self.events.push(Reverse((at, self.evseq, ev)));
    }
    pub(crate) fn tap(&mut self, conn: u32, what: TapEv) {
        let (at, poll) = (now_ns(), self.polls);
        if let Some(t) = self.tap.as_mut() {
            t.push(Tap { at, poll, conn, what });
        }
    }
    pub fn panic_count(&self) -> usize {
        self.panics.len()
    }
}

pub fn note_panic(msg: String) -> bool {
    try_with(|s| s.panics.push(msg)).is_some()
}
pub fn abort(a: Abort) {
    with(|s| {
        if s.aborted.is_none() {
            s.aborted = Some(a)
        }
    });
}
pub fn aborted() -> Option<Abort> {
    try_with(|s| s.aborted).flatten()
}

/// schedule a driver timer
pub fn timer_at(at: u64, token: u64) {
    with(|s| s.push_event(at, Ev::Timer(token)));
}
pub fn timer_after(d: u64, token: u64) {
    let t = now_ns() + d;
    timer_at(t, token);
}
pub fn misc(n: u32) -> u32 {
    with(|s| s.uniform(K::Misc, n))
}

// ---------------------------------------------------------------------------
// Hooks called by the patched tokio

pub fn next_task_id() -> u64 {
    NEXT_TASK
        .try_with(|n| {
            n.set(n.get() + 1);
            n.get()
        })
        .unwrap_or(0)
}

fn hash2(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    r.next()
}

/// Choose which of the runnable tasks `(task id, poll number at which it became runnable)` runs.
pub fn sched_pick(n: usize, get: &dyn Fn(usize) -> (u64, u64)) -> usize {
    with(|s| {
        s.polls += 1;
        POLLS.with(|p| p.set(s.polls));
        s.polls_since_park += 1;
        if s.polls_since_park > s.params.max_polls_no_park + 4 * s.stats.bytes + s.allowance && s.aborted.is_none() {
            s.aborted = Some(Abort::BusyLoop);
        }
        if s.polls > s.params.max_polls + s.stats.bytes + 6 * s.allowance && s.aborted.is_none() {
            s.aborted = Some(Abort::StepBudget);
        }
        if n <= 1 {
            let id = get(0).0;
            s.mix(id);
            s.recent_tasks[(s.polls % 16) as usize] = id;
            return 0;
        }
        let polls = s.polls;
        let policy = s.params.sched_policy;
        let salt = s.starve_salt;
        // fairness: nothing waits forever
        let mut forced = None;
        for i in 0..n {
            let (_, since) = get(i);
            if polls.saturating_sub(since) > 200 + 20 * n as u64 {
                forced = Some(i as u32);
                break;
            }
        }
        let mut pct_low = s.pct_low;
        let v = s.decide(K::Sched, n as u32, |r| {
            if let Some(f) = forced {
                return f;
            }
            let policy = if policy == 5 { (r.below(4) + 1) as u32 } else { policy };
            match policy {
                0 => 0,
                1 => r.below(n as u64) as u32,
                2 => {
                    // random priorities, occasionally reshuffled
                    if r.chance(20) {
                        pct_low = pct_low.wrapping_add(1);
                    }
                    let mut best = 0;
                    let mut bp = u64::MAX;
                    for i in 0..n {
                        let p = hash2(get(i).0, salt ^ pct_low);
                        if p < bp {
                            bp = p;
                            best = i;
                        }
                    }
                    best as u32
                }
                3 => n as u32 - 1,
                _ => {
                    // starve about a third of the tasks
                    let ok: Vec<usize> =
                        (0..n).filter(|&i| hash2(get(i).0, salt) % 3 != 0).collect();
                    if ok.is_empty() {
                        r.below(n as u64) as u32
                    } else {
                        ok[r.below(ok.len() as u64) as usize] as u32
                    }
                }
            }
        });
        s.pct_low = pct_low;
        if v != 0 {
            s.stats.sched_nonfifo += 1;
        }
        let id = get(v as usize).0;
        s.mix(id);
        s.recent_tasks[(s.polls % 16) as usize] = id;
        v as usize
    })
}

pub fn poll_number() -> u64 {
    POLLS.try_with(|p| p.get()).unwrap_or(0)
}

/// Should this leaf await be preempted (return Pending and yield)?
pub fn preempt() -> bool {
    if !active() {
        return false;
    }
    try_with(|s| {
        let p = s.params.preempt_permille;
        if p == 0 || s.aborted.is_some() {
            return false;
        }
        let r = s.chance(K::Preempt, p);
        if r {
            s.stats.preempts += 1;
        }
        r
    })
    .unwrap_or(false)
}

pub fn select_start(n: u32) -> u32 {
    try_with(|s| {
        let v = s.uniform(K::Select, n);
        if v != 0 {
            s.stats.select_flip += 1;
        }
        v
    })
    .unwrap_or(0)
}

/// Advance the clock by the cost of a poll and fire everything that became due.
pub fn tick() {
    let cost = with(|s| s.params.poll_cost_ns);
    NOW.with(|n| n.set(n.get() + cost));
    fire_due();
}

/// Advance the clock without running anything (a stalled process).
pub fn pause_process(ns: u64) {
    with(|s| s.stats.clock_pause += 1);
    NOW.with(|n| n.set(n.get() + ns));
}

fn pop_due(now: u64) -> Option<Ev> {
    with(|s| match s.events.peek() {
        Some(Reverse((t, _, _))) if *t <= now => s.events.pop().map(|Reverse((_, _, e))| e),
        _ => None,
    })
}

pub fn fire_due() -> usize {
    let mut n = 0;
    let now = now_ns();
    while let Some(ev) = pop_due(now) {
        n += 1;
        dispatch(ev);
    }
    n
}

fn dispatch(ev: Ev) {
    let mut wakers: Vec<Waker> = Vec::new();
    let mut notify: Vec<DriverEv> = Vec::new();
    with(|s| {
        let d = match ev {
            Ev::Timer(t) => t ^ 0x1111,
            Ev::Syn(c) => c as u64 | 1 << 40,
            Ev::SynAck(c, _) => c as u64 | 2 << 40,
            Ev::Deliver(c, p) => c as u64 | 3 << 40 | (p as u64) << 32,
            Ev::PeerReset(c, p) => c as u64 | 4 << 40 | (p as u64) << 32,
        };
        s.mix(d);
        match ev {
            Ev::Timer(t) => notify.push(DriverEv::Timer(t)),
            e => net::handle(s, e, &mut wakers, &mut notify),
        }
    });
    for w in wakers {
        w.wake();
    }
    notify_driver(notify);
}

fn notify_driver(evs: Vec<DriverEv>) {
    for e in evs {
        let d = DRIVER.with(|d| d.borrow_mut().take());
        if let Some(mut d) = d {
            d.on_event(e);
            DRIVER.with(|x| {
                let mut x = x.borrow_mut();
                if x.is_none() {
                    *x = Some(d)
                }
            });
        }
    }
}

/// Called when the executor has nothing to run. `timeout`: time until the next tokio timer.
pub fn park(timeout: Option<Duration>) {
    if timeout == Some(Duration::ZERO) {
        fire_due();
        return;
    }
    let next = with(|s| {
        s.polls_since_park = 0;
        s.parks += 1;
        s.events.peek().map(|Reverse((t, _, _))| *t)
    });
    if aborted().is_some() {
        return;
    }
    let deadline = timeout.map(|d| now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64));
    match (next, deadline) {
        (Some(t), d) if d.map_or(true, |d| t <= d) => {
            NOW.with(|n| n.set(n.get().max(t)));
            fire_due();
        }
        (next, Some(d)) => {
            if next.is_none() && quiescent() {
                return;
            }
            NOW.with(|n| n.set(n.get().max(d)));
            fire_due();
        }
        (_, None) => {
            if !quiescent() {
                abort(Abort::Stuck);
            }
        }
    }
}

fn quiescent() -> bool {
    let d = DRIVER.with(|d| d.borrow_mut().take());
    match d {
        Some(mut d) => {
            let r = d.on_quiescent();
            DRIVER.with(|x| {
                let mut x = x.borrow_mut();
                if x.is_none() {
                    *x = Some(d)
                }
            });
            r
        }
        None => false,
    }
}

// ---------------------------------------------------------------------------
// Entropy and clock seams

pub fn fill_entropy(buf: &mut [u8]) -> bool {
    if !active() {
        return false;
    }
    ENTROPY.with(|e| {
        let mut r = Rng(e.get());
        for c in buf.chunks_mut(8) {
            let v = r.next().to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&v[..l]);
        }
        e.set(r.0);
    });
    true
}

#[no_mangle]
pub extern "C" fn simrt_getrandom(buf: *mut u8, len: usize) -> i32 {
    let s = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    if fill_entropy(s) {
        return 0;
    }
    let mut off = 0;
    while off < len {
        let r = unsafe { libc::syscall(libc::SYS_getrandom, buf.add(off), len - off, 0) };
        if r < 0 {
            return -1;
        }
        off += r as usize;
    }
    0
}

/// Interposes libc's getrandom (std's HashMap keys).
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let s = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    if fill_entropy(s) {
        return len as isize;
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize }
}

/// Interposes libc's clock_gettime (std::time::Instant / SystemTime).
#[no_mangle]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> i32 {
    if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        let mut n = NOW.with(|n| n.get());
        if clk == libc::CLOCK_REALTIME {
            n += 1_600_000_000_000_000_000;
        }
        unsafe {
            (*tp).tv_sec = (n / 1_000_000_000) as libc::time_t;
            (*tp).tv_nsec = (n % 1_000_000_000) as libc::c_long;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, tp) as i32 }
}
