//! Worker processes (crash isolation), the parent that collects, the minimiser, replay files.
use crate::bmsim::{self, MScen};
use crate::buildsim::{self, BScen};
use crate::codecsim::{self, CScen};
use crate::gen;
use crate::run::{self, Outcome};
use crate::scen::{Op, Scenario};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sc {
    Broker(Scenario),
    Codec(CScen),
    Build(BScen),
    Bench(MScen),
}
pub type Streams = Option<Vec<Vec<u32>>>;

pub fn generate(prop: &str, seed: u64) -> Sc {
    if prop == "C03" {
        Sc::Build(buildsim::generate(seed))
    } else if prop.starts_with('D') {
        Sc::Bench(bmsim::generate(prop, seed))
    } else if prop.starts_with('C') {
        Sc::Codec(codecsim::generate(prop, seed))
    } else {
        Sc::Broker(gen::generate(prop, seed))
    }
}
pub fn run_any(sc: &Sc, seed: u64, streams: Streams, trace: bool) -> Outcome {
    match sc {
        Sc::Broker(s) => run::run(s, seed, streams, trace),
        Sc::Codec(s) => codecsim::run(s, seed, trace),
        Sc::Build(s) => buildsim::run(s, seed, trace),
        Sc::Bench(s) => bmsim::run(s, seed, streams, trace),
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    /// violation, crash, hang
    pub kind: String,
    pub message: String,
    pub tags: Vec<String>,
    pub seed: u64,
    pub digest: String,
    pub minimised: bool,
    pub operations_before: usize,
    pub operations: usize,
    pub scenario: Sc,
    /// the decisions, per kind: sched, preempt, select, read_len, write_len, seg, latency, misc.
    /// Missing ones are 0, the benign default.
    pub streams: Option<Vec<Vec<u32>>>,
    /// seeds whose runs come first in the same process: the violation needs what they left in it
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub history: Vec<u64>,
    pub faults: BTreeMap<String, u64>,
    pub trace: Vec<String>,
}

/// tags of a run that kills or hangs the process
pub fn crash_tags(sc: &Sc) -> Vec<&'static str> {
    match sc {
        Sc::Codec(_) => vec!["C02", "C01"],
        Sc::Build(_) => vec!["C03"],
        Sc::Bench(s) => vec![if s.away.is_some() { "D02" } else { "D01" }],
        Sc::Broker(s) => {
            let mut t = vec!["B14", "B01", "B05", "B13"];
            if s.cfg.program {
                t.push("S01");
            }
            for o in &s.ops {
                let x = match &o.op {
                    Op::Shutdown => "B18",
                    Op::Table { .. } => "B22",
                    Op::Tamper { .. } => "B21",
                    Op::Raw { class: crate::scen::RawClass::Malformed, .. } => "B24",
                    Op::Raw { class: crate::scen::RawClass::Unsup, .. } => "B15",
                    Op::Close { .. } => "B12",
                    _ => continue,
                };
                if !t.contains(&x) {
                    t.push(x);
                }
            }
            t
        }
    }
}

fn sig(m: &str) -> String {
    m.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(400).collect::<String>().split(' ').filter(|w| w.len() > 3).take(7).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ worker

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub sim_ns: u64,
    pub polls: u64,
    pub delivered: u64,
    pub harness_errors: u64,
    pub other: BTreeMap<String, u64>,
    pub nondeterministic: u64,
    pub rechecked: u64,
    pub faults: BTreeMap<String, u64>,
    pub hits: BTreeMap<String, u64>,
    pub runs_with: BTreeMap<String, u64>,
    pub digests: Vec<u64>,
    pub all_digests: u64,
    pub first_harness_error: Option<String>,
}
#[derive(Serialize, Deserialize)]
struct Found {
    seed: u64,
    msg: String,
    tags: Vec<String>,
    /// the first seed of this process and the step to the next
    from: u64,
    step: u64,
}

fn limit() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

pub fn worker(prop: &str, from: u64, step: u64, secs: f64, max: u64) {
    limit();
    let t0 = Instant::now();
    // file descriptor 1 belongs to the simulated program
    let mut out = std::fs::File::from(std::os::fd::AsFd::as_fd(&std::io::stdout()).try_clone_to_owned().unwrap());
    let mut st = Stats::default();
    let mut all: HashSet<u64> = HashSet::new();
    let mut seed = from;
    let mut n = 0;
    let mut last = Instant::now();
    // for soaking: report whatever goes wrong
    let all_tags = std::env::var_os("DST_ALL").is_some();
    macro_rules! flush_stats {
        () => {{
            st.all_digests = all.len() as u64;
            if writeln!(out, "T {}", serde_json::to_string(&st).unwrap()).and_then(|_| out.flush()).is_err() {
                return;
            }
            st = Stats::default();
            all.clear();
            last = Instant::now();
        }};
    }
    while t0.elapsed().as_secs_f64() < secs && n < max {
        if writeln!(out, "S {}", seed).and_then(|_| out.flush()).is_err() {
            return;
        }
        let sc = generate(prop, seed);
        let o = run_any(&sc, seed, None, false);
        n += 1;
        st.runs += 1;
        st.sim_ns += o.sim_ns;
        st.polls += o.polls;
        st.delivered += o.delivered;
        all.insert(o.digest);
        for (k, v) in &o.faults {
            *st.faults.entry(k.to_string()).or_default() += v;
            *st.runs_with.entry(k.to_string()).or_default() += 1;
        }
        for (k, v) in &o.hits {
            *st.hits.entry(k.to_string()).or_default() += v;
        }
        if o.hits.get(prop).copied().unwrap_or(0) > 0 {
            st.nontrivial += 1;
            st.digests.push(o.digest);
        }
        if let Some(h) = &o.harness_error {
            st.harness_errors += 1;
            if st.first_harness_error.is_none() {
                st.first_harness_error = Some(format!("seed {}: {}", seed, h));
            }
        }
        if n % 97 == 5 {
            let o2 = run_any(&sc, seed, None, false);
            st.rechecked += 1;
            if o2.digest != o.digest || o2.violations != o.violations {
                st.nondeterministic += 1;
            }
        }
        for v in &o.violations {
            if (all_tags || v.tags.contains(&prop)) && o.harness_error.is_none() {
                flush_stats!();
                let f = Found { seed, msg: v.msg.clone(), tags: v.tags.iter().map(|s| s.to_string()).collect(), from, step };
                if writeln!(out, "V {}", serde_json::to_string(&f).unwrap()).and_then(|_| out.flush()).is_err() {
                    return;
                }
                break;
            }
            for t in &v.tags {
                *st.other.entry(t.to_string()).or_default() += 1;
            }
        }
        if last.elapsed() > Duration::from_secs(2) {
            flush_stats!();
        }
        seed += step;
    }
    flush_stats!();
    let _ = writeln!(out, "E");
}

// ------------------------------------------------------------------ parent

/// CPU time used so far by a child of this process
fn cpu_secs(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    (t(11) + t(12)) / hz
}

/// Runs one execution in a process of its own: Some("crash"), Some("hang") after `cpu` seconds of
/// computing (or a long time without any), None when it comes to an end.
fn in_process(sc: &Sc, seed: u64, st: &Streams, cpu: f64) -> Option<&'static str> {
    use std::os::unix::process::ExitStatusExt;
    let f = std::env::temp_dir().join(format!("dst-probe-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_vec(&(sc, seed, st)).unwrap()).unwrap();
    let mut c = Command::new(me()).arg("probe").arg(&f).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let r = loop {
        match c.try_wait().unwrap() {
            Some(s) => break if s.signal().is_some() || s.code() != Some(42) { Some("crash") } else { None },
            None if cpu_secs(c.id()) > cpu || t0.elapsed().as_secs_f64() > 60.0 + 2.0 * cpu => {
                let _ = c.kill();
                let _ = c.wait();
                break Some("hang");
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    };
    let _ = std::fs::remove_file(&f);
    r
}

enum Msg {
    Line(usize, u64, String),
    Gone(usize, u64),
}
struct W {
    child: Child,
    gen: u64,
    seed: Option<u64>,
    next: u64,
    /// milliseconds since the start of the search at which the last line was read
    last: Arc<AtomicU64>,
    suspect: Option<f64>,
    done: bool,
}

pub struct Summary {
    pub stats: Stats,
    pub distinct: HashSet<u64>,
    pub found: Vec<(u64, String, String, Vec<String>)>, // seed, kind, msg, tags
    /// of a seed with a violation: the first seed of its process and the step
    pub came: BTreeMap<u64, (u64, u64)>,
    pub crashes: Vec<String>,
    /// runs that looked like a crash or hang once and came to an end when repeated
    pub unconfirmed: u64,
    pub wall: f64,
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// run the search; stops soon after the first violation unless `all`
pub fn search(prop: &str, base: u64, secs: f64, workers: usize, all: bool, max_per_worker: u64) -> Summary {
    let (tx, rx) = mpsc::channel::<Msg>();
    let t0 = Instant::now();
    let step = workers as u64;
    let spawn = |i: usize, g: u64, from: u64, left: f64| -> (Child, Arc<AtomicU64>) {
        let mut c = Command::new(me())
            .args(["worker", prop, &from.to_string(), &step.to_string(), &format!("{:.2}", left), &max_per_worker.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker");
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        let last = Arc::new(AtomicU64::new(t0.elapsed().as_millis() as u64));
        let seen = last.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                seen.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                if tx.send(Msg::Line(i, g, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Gone(i, g));
        });
        (c, last)
    };
    let mut ws: Vec<W> = (0..workers)
        .map(|i| {
            let (child, last) = spawn(i, 0, base + i as u64, secs);
            W { child, gen: 0, seed: None, next: base + i as u64, last, suspect: None, done: false }
        })
        .collect();
    let mut sum = Summary { stats: Stats::default(), distinct: HashSet::new(), found: vec![], came: BTreeMap::new(), crashes: vec![], unconfirmed: 0, wall: 0.0 };
    let mut stop_at: Option<Instant> = None;
    loop {
        if ws.iter().all(|w| w.done) {
            break;
        }
        if let Some(s) = stop_at {
            if Instant::now() > s && !all {
                break;
            }
        }
        let died = |ws: &mut Vec<W>, i: usize, kind: &'static str, sum: &mut Summary, stop_at: &mut Option<Instant>| {
            let w = &mut ws[i];
            let _ = w.child.kill();
            let status = w.child.wait();
            let Some(seed) = w.seed else {
                // did not even start a run
                if w.gen > 20 {
                    w.done = true;
                } else {
                    w.gen += 1;
                    std::thread::sleep(Duration::from_millis(50));
                    (w.child, w.last) = spawn(i, w.gen, w.next, (secs - t0.elapsed().as_secs_f64()).max(0.0));
                    w.suspect = None;
                }
                return;
            };
            let sc = generate(prop, seed);
            let tags = crash_tags(&sc);
            // once more in a process of its own, so that a busy machine is not taken for a fault
            if in_process(&sc, seed, &None, 30.0) != Some(kind) {
                sum.unconfirmed += 1;
                w.seed = None;
                w.next = seed + step;
                w.gen += 1;
                w.suspect = None;
                let left = secs - t0.elapsed().as_secs_f64();
                if left > 0.5 && sum.unconfirmed < 20 {
                    (w.child, w.last) = spawn(i, w.gen, w.next, left);
                } else {
                    w.done = true;
                }
                return;
            }
            let msg = if kind == "hang" {
                "the run does not come to an end: the process computes for more than 30 seconds without yielding".to_string()
            } else {
                format!("the process was killed by the run ({})", status.map(|s| s.to_string()).unwrap_or_default())
            };
            sum.crashes.push(format!("seed {}: {}", seed, msg));
            if tags.contains(&prop) {
                sum.found.push((seed, kind.to_string(), msg, tags.iter().map(|s| s.to_string()).collect()));
                stop_at.get_or_insert(Instant::now() + Duration::from_millis(500));
            }
            w.seed = None;
            w.next = seed + step;
            w.gen += 1;
            w.suspect = None;
            let left = secs - t0.elapsed().as_secs_f64();
            if left > 0.5 && sum.crashes.len() < 40 {
                (w.child, w.last) = spawn(i, w.gen, w.next, left);
            } else {
                w.done = true;
            }
        };
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(i, g, l)) => {
                if ws[i].gen != g || ws[i].done {
                    continue;
                }
                if let Some(s) = l.strip_prefix("S ") {
                    ws[i].seed = s.parse().ok();
                } else if let Some(s) = l.strip_prefix("V ") {
                    if let Ok(f) = serde_json::from_str::<Found>(s) {
                        sum.came.insert(f.seed, (f.from, f.step));
                        sum.found.push((f.seed, "violation".into(), f.msg, f.tags));
                        stop_at.get_or_insert(Instant::now() + Duration::from_millis(500));
                    }
                } else if let Some(s) = l.strip_prefix("T ") {
                    if let Ok(s) = serde_json::from_str::<Stats>(s) {
                        add(&mut sum, s);
                    }
                } else if l == "E" {
                    ws[i].done = true;
                    let _ = ws[i].child.wait();
                }
            }
            Ok(Msg::Gone(i, g)) => {
                if ws[i].gen == g && !ws[i].done {
                    died(&mut ws, i, "crash", &mut sum, &mut stop_at);
                }
            }
            Err(_) => (),
        }
        for i in 0..ws.len() {
            if ws[i].done || stop_at.is_some() && !all {
                continue;
            }
            let quiet = t0.elapsed().as_secs_f64() - ws[i].last.load(Ordering::Relaxed) as f64 / 1000.0;
            if quiet < 10.0 {
                ws[i].suspect = None;
                continue;
            }
            let used = cpu_secs(ws[i].child.id());
            let since = *ws[i].suspect.get_or_insert(used);
            if used - since > 10.0 || quiet > 100.0 {
                if ws[i].seed.is_none() {
                    ws[i].done = true;
                    let _ = ws[i].child.kill();
                } else {
                    died(&mut ws, i, "hang", &mut sum, &mut stop_at);
                }
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    // what was still in the pipe
    while let Ok(m) = rx.try_recv() {
        if let Msg::Line(_, _, l) = m {
            if let Some(s) = l.strip_prefix("T ") {
                if let Ok(s) = serde_json::from_str::<Stats>(s) {
                    add(&mut sum, s);
                }
            }
        }
    }
    sum.wall = t0.elapsed().as_secs_f64();
    sum
}

fn add(sum: &mut Summary, s: Stats) {
    let t = &mut sum.stats;
    t.runs += s.runs;
    t.nontrivial += s.nontrivial;
    t.sim_ns += s.sim_ns;
    t.polls += s.polls;
    t.delivered += s.delivered;
    t.harness_errors += s.harness_errors;
    t.nondeterministic += s.nondeterministic;
    t.rechecked += s.rechecked;
    t.all_digests += s.all_digests;
    for (a, b) in [(&mut t.other, s.other), (&mut t.faults, s.faults), (&mut t.hits, s.hits), (&mut t.runs_with, s.runs_with)] {
        for (k, v) in b {
            *a.entry(k).or_default() += v;
        }
    }
    for d in s.digests {
        sum.distinct.insert(d);
    }
    if t.first_harness_error.is_none() {
        t.first_harness_error = s.first_harness_error;
    }
}

// ------------------------------------------------------------------ minimiser

struct Min {
    prop: String,
    sig: String,
    kind: String,
    until: Instant,
    seed: u64,
    tries: u64,
    quick: bool,
}
impl Min {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.until
    }
    /// does this still fail in the same way?
    fn fails(&mut self, sc: &Sc, st: &Streams) -> Option<Outcome> {
        self.tries += 1;
        if self.kind != "violation" {
            return if self.subprocess(sc, st) { Some(Outcome::empty()) } else { None };
        }
        let o = run_any(sc, self.seed, st.clone(), false);
        if o.harness_error.is_some() {
            return None;
        }
        if o.violations.iter().any(|v| v.tags.iter().any(|t| *t == self.prop) && sig(&v.msg) == self.sig) {
            Some(o)
        } else {
            None
        }
    }
    fn subprocess(&self, sc: &Sc, st: &Streams) -> bool {
        in_process(sc, self.seed, st, if self.quick { 3.0 } else { 8.0 }) == Some(self.kind.as_str())
    }
    fn list<T: Clone>(&mut self, v: Vec<T>, mut test: impl FnMut(&mut Min, &[T]) -> bool) -> Vec<T> {
        let mut cur = v;
        let mut n = cur.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < cur.len() {
                if self.out_of_time() {
                    return cur;
                }
                let mut c = cur.clone();
                let e = (i + n).min(c.len());
                c.drain(i..e);
                if test(self, &c) {
                    cur = c;
                    any = true;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                if !any {
                    return cur;
                }
            } else {
                n = n.div_ceil(2);
            }
        }
    }
}

fn trim(mut v: Vec<Vec<u32>>) -> Vec<Vec<u32>> {
    for s in v.iter_mut() {
        while s.last() == Some(&0) {
            s.pop();
        }
    }
    v
}

pub fn nops(sc: &Sc) -> usize {
    match sc {
        Sc::Broker(s) => s.ops.len(),
        Sc::Codec(c) => c.units.len() + c.faults.len(),
        Sc::Build(c) => c.calls.len() + 1,
        Sc::Bench(c) => c.size(),
    }
}

fn write_replay(path: &str, m: &Min, sc: &Sc, st: &Streams, before: usize, minimised: bool, first_msg: &str) {
    let (o, msg, tags) = if m.kind == "violation" {
        let o = run_any(sc, m.seed, st.clone(), true);
        let v = o.violations.iter().find(|v| v.tags.iter().any(|t| *t == m.prop) && sig(&v.msg) == m.sig).cloned();
        let Some(v) = v else { return };
        (o, v.msg, v.tags.iter().map(|t| t.to_string()).collect())
    } else {
        (Outcome::empty(), first_msg.to_string(), crash_tags(sc).iter().map(|t| t.to_string()).collect())
    };
    let r = Replay {
        property: m.prop.clone(),
        kind: m.kind.clone(),
        message: msg,
        tags,
        seed: m.seed,
        digest: format!("{:016x}", o.digest),
        minimised,
        operations_before: before,
        operations: nops(sc),
        scenario: sc.clone(),
        streams: st.clone().map(trim),
        history: vec![],
        faults: o.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        trace: o.trace,
    };
    put(path, &r);
}

fn put(path: &str, r: &Replay) {
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, serde_json::to_string_pretty(r).unwrap()).unwrap();
    std::fs::rename(&tmp, path).unwrap();
}

/// The runs of some seeds and then that of `seed` in this process: writes the replay file if it fails.
pub fn after(prop: &str, seed: u64, history: Vec<u64>, path: &str) {
    limit();
    for s in &history {
        let _ = run_any(&generate(prop, *s), *s, None, false);
    }
    let sc = generate(prop, seed);
    let o = run_any(&sc, seed, None, true);
    if o.harness_error.is_some() {
        return;
    }
    let Some(v) = o.violations.iter().find(|v| v.tags.iter().any(|t| *t == prop)).cloned() else { return };
    let r = Replay {
        property: prop.to_string(),
        kind: "violation".into(),
        message: v.msg,
        tags: v.tags.iter().map(|t| t.to_string()).collect(),
        seed,
        digest: format!("{:016x}", o.digest),
        minimised: false,
        operations_before: nops(&sc),
        operations: nops(&sc),
        scenario: sc,
        streams: None,
        history,
        faults: o.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        trace: o.trace,
    };
    put(path, &r);
}

/// for violations that depend on what is left in the process by earlier runs: `after` with more and more of them
fn in_own_process(prop: &str, seed: u64, path: &str, from: u64, step: u64) {
    let all: Vec<u64> = (from..seed).step_by(step.max(1) as usize).collect();
    let mut n = 0;
    loop {
        let n0 = all.len().saturating_sub(n);
        let l: Vec<String> = all[n0..].iter().map(|s| s.to_string()).collect();
        let _ = Command::new(me()).args(["after", prop, &seed.to_string(), path, &l.join(",")]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        if std::path::Path::new(path).exists() || n0 == 0 {
            return;
        }
        n = (n * 4).max(1);
    }
}

/// minimise seed `seed` of `prop`, keeping the best result so far in `path`
pub fn minimise(prop: &str, seed: u64, kind: &str, msg: &str, path: &str, secs: f64, from: u64, step: u64) {
    limit();
    let mut sc = generate(prop, seed);
    let before = nops(&sc);
    let mut m = Min {
        prop: prop.to_string(),
        sig: sig(msg),
        kind: kind.to_string(),
        until: Instant::now() + Duration::from_secs_f64(secs),
        seed,
        tries: 0,
        quick: true,
    };
    let mut st: Streams = None;
    if kind == "violation" {
        let o = run_any(&sc, seed, None, false);
        let mine = |v: &&crate::world::Violation| v.tags.contains(&prop);
        if !o.violations.iter().filter(mine).any(|v| sig(&v.msg) == m.sig) {
            match o.violations.iter().find(mine) {
                // the same fault seen from another side, for instance a different figure in a text
                Some(v) => m.sig = sig(&v.msg),
                None => {
                    // it needs what earlier runs left in the process
                    in_own_process(prop, seed, path, from, step);
                    return;
                }
            }
        }
        if matches!(sc, Sc::Broker(_) | Sc::Bench(_)) {
            st = Some(trim(o.record));
        }
    }
    write_replay(path, &m, &sc, &st, before, false, msg);
    if m.fails(&sc, &st).is_none() {
        // does not fail when replayed from its decisions: keep the seed itself
        write_replay(path, &m, &sc, &None, before, false, msg);
        if !std::path::Path::new(path).exists() {
            // it fails only once in a process
            in_own_process(prop, seed, path, seed, step);
        }
        return;
    }
    match sc.clone() {
        Sc::Codec(c) => {
            let mut cur = c;
            let u = m.list(cur.units.clone(), |m, l| {
                let mut t = cur.clone();
                t.units = l.to_vec();
                m.fails(&Sc::Codec(t), &None).is_some()
            });
            cur.units = u;
            let f = m.list(cur.faults.clone(), |m, l| {
                let mut t = cur.clone();
                t.faults = l.to_vec();
                m.fails(&Sc::Codec(t), &None).is_some()
            });
            cur.faults = f;
            for (fr, ch) in [(vec![u32::MAX], cur.chunks.clone()), (vec![u32::MAX], vec![u32::MAX]), (cur.frags.clone(), vec![u32::MAX])] {
                let mut t = cur.clone();
                t.frags = fr;
                t.chunks = ch;
                if m.fails(&Sc::Codec(t.clone()), &None).is_some() {
                    cur = t;
                }
            }
            sc = Sc::Codec(cur);
            write_replay(path, &m, &sc, &None, before, true, msg);
        }
        Sc::Build(mut b) => {
            b.calls = m.list(b.calls.clone(), |m, l| {
                let mut t = b.clone();
                t.calls = l.to_vec();
                m.fails(&Sc::Build(t), &None).is_some()
            });
            sc = Sc::Build(b);
            write_replay(path, &m, &sc, &None, before, true, msg);
        }
        Sc::Bench(mut b) => {
            let zero: Streams = Some(vec![vec![]; simrt::NK]);
            loop {
                let before_round = (b.size(), st.clone());
                if m.fails(&Sc::Bench(b.clone()), &zero).is_some() {
                    st = zero.clone();
                } else if let Some(mut s) = st.clone() {
                    for k in 0..s.len() {
                        let mut t = s.clone();
                        t[k] = vec![];
                        if m.fails(&Sc::Bench(b.clone()), &Some(t.clone())).is_some() {
                            s = t;
                        }
                    }
                    st = Some(s);
                }
                for t in b.smaller() {
                    if m.out_of_time() {
                        break;
                    }
                    if t.size() < b.size() && m.fails(&Sc::Bench(t.clone()), &st).is_some() {
                        b = t;
                    }
                }
                write_replay(path, &m, &Sc::Bench(b.clone()), &st, before, true, msg);
                if m.out_of_time() || (b.size(), st.clone()) == before_round {
                    break;
                }
            }
        }
        Sc::Broker(_) => {
            let zero: Streams = Some(vec![vec![]; simrt::NK]);
            let mut last = Instant::now();
            for round in 0..3 {
                if m.out_of_time() {
                    break;
                }
                let start = (nops(&sc), st.as_ref().map_or(0, |s| s.iter().map(|x| x.iter().filter(|v| **v != 0).count()).sum::<usize>()));
                if m.fails(&sc, &zero).is_some() {
                    st = zero.clone();
                } else if let Some(s) = st.clone() {
                    let mut s = s;
                    for k in 0..s.len() {
                        let mut t = s.clone();
                        t[k] = vec![];
                        if m.fails(&sc, &Some(t.clone())).is_some() {
                            s = t;
                        }
                    }
                    st = Some(s);
                }
                // operations
                let Sc::Broker(b) = sc.clone() else { return };
                let ops = m.list(b.ops.clone(), |m, l| {
                    let mut t = b.clone();
                    t.ops = l.to_vec();
                    let r = m.fails(&Sc::Broker(t.clone()), &st).is_some();
                    if r && last.elapsed() > Duration::from_secs(3) {
                        last = Instant::now();
                        write_replay(path, m, &Sc::Broker(t), &st, before, true, msg);
                    }
                    r
                });
                let mut b = b;
                b.ops = ops;
                sc = Sc::Broker(b.clone());
                // a quieter configuration
                for k in 0..3 {
                    let mut t = b.clone();
                    match k {
                        0 => t.loglevel = 0,
                        1 => t.sim.window = 65_536,
                        _ => t.cfg.queue = 1 << 20,
                    }
                    if m.fails(&Sc::Broker(t.clone()), &st).is_some() {
                        b = t;
                    }
                }
                sc = Sc::Broker(b);
                // decisions
                if let Some(mut s) = st.clone() {
                    for k in 0..s.len() {
                        let mut n = s[k].len();
                        while n >= 1 {
                            let mut i = 0;
                            while i < s[k].len() {
                                let e = (i + n).min(s[k].len());
                                if s[k][i..e].iter().any(|v| *v != 0) {
                                    if m.out_of_time() {
                                        break;
                                    }
                                    let mut t = s.clone();
                                    t[k][i..e].fill(0);
                                    if m.fails(&sc, &Some(t.clone())).is_some() {
                                        s = t;
                                    }
                                }
                                i += n;
                            }
                            n /= 2;
                        }
                    }
                    st = Some(trim(s));
                }
                write_replay(path, &m, &sc, &st, before, true, msg);
                let end = (nops(&sc), st.as_ref().map_or(0, |s| s.iter().map(|x| x.iter().filter(|v| **v != 0).count()).sum::<usize>()));
                if end == start && round > 0 {
                    break;
                }
            }
        }
    }
    eprintln!("{} runs while minimising", m.tries);
}

/// exit code 1: reproduced exactly
pub fn replay(path: &str, quiet: bool) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    if r.kind != "violation" {
        let m = Min { prop: r.property.clone(), sig: String::new(), kind: r.kind.clone(), until: Instant::now(), seed: r.seed, tries: 0, quick: false };
        let b = m.subprocess(&r.scenario, &r.streams);
        println!("{}: {}", r.kind, if b { "reproduced" } else { "NOT reproduced" });
        return if b { 1 } else { 3 };
    }
    for s in &r.history {
        let _ = run_any(&generate(&r.property, *s), *s, None, false);
    }
    let o = run_any(&r.scenario, r.seed, r.streams.clone(), true);
    if !quiet {
        for l in &o.trace {
            println!("{}", l);
        }
    }
    if let Some(h) = o.harness_error {
        println!("harness error: {}", h);
        return 2;
    }
    let d = format!("{:016x}", o.digest);
    let v = o.violations.iter().find(|v| v.msg == r.message);
    for x in &o.violations {
        println!("violation {:?}: {}", x.tags, x.msg);
    }
    if v.is_some() && d == r.digest {
        println!("reproduced exactly (digest {})", d);
        1
    } else if v.is_some() {
        println!("reproduced, but the execution differs (digest {} instead of {})", d, r.digest);
        3
    } else if o.violations.is_empty() {
        println!("NOT reproduced: no violation (digest {} instead of {})", d, r.digest);
        0
    } else {
        println!("a different violation (digest {} instead of {})", d, r.digest);
        3
    }
}

pub fn probe(path: &str) {
    limit();
    let (sc, seed, st): (Sc, u64, Streams) = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let _ = run_any(&sc, seed, st, false);
    std::process::exit(42)
}

// ------------------------------------------------------------------ check

fn rule(prop: &str) -> String {
    if prop == "C03" {
        return "one case = one seeded history of packet API calls (constructors, setters, property calls with good and bad arguments in any order, copies, encodings into several kinds of buffer, decodings) on one real packet, will or property list, compared with the model after every call; non-trivial: at least one call's result was judged; distinct: different digest of the sequence of results and encoded lengths".into();
    }
    if prop.starts_with('D') {
        return "one case = one seeded simulated execution of the benchmark client's main, from a generated command line to the printed report, against the real broker on the simulated network and clock; non-trivial: it was judged for this property; distinct: different digest over every scheduling, network and fault decision and the printed report".into();
    }
    if prop.starts_with('C') {
        "one case = one seeded simulated byte stream between a writer and a reader that decodes with the real codec (fragmentation, chunked buffers, and for some runs corruption, loss, repetition and cuts); non-trivial: at least one decoder or encoder result was judged for this property; distinct: different digest of the sequence of decoder calls and results".into()
    } else {
        format!("one case = one seeded simulated execution of the real broker with simulated clients, network, clock and scheduler; non-trivial: the oracle of {} judged at least one concrete obligation in it; distinct: different digest over every scheduling, network and fault decision taken", prop)
    }
}

fn known(prop: &str) -> Vec<(String, String)> {
    // finding: property=<id> match=<part of the message> | <what fails>
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let s = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={} match=", prop))?;
            let (a, b) = l.split_once(" | ")?;
            Some((a.to_string(), b.to_string()))
        })
        .collect()
}

pub fn check(prop: &str, tier: &str, seed: u64, secs: f64) -> i32 {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let t0 = Instant::now();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    let base = (seed + if tier == "thorough" { 5_000 } else { 0 }).wrapping_mul(1_000_000_000) % (1 << 52);
    let mut kf = known(prop);
    let mut sum = search(prop, base, secs, workers, !kf.is_empty(), u64::MAX);
    for (m, what) in kf.drain(..) {
        sum.found.retain(|f| !f.2.contains(&m));
        println!("KNOWN-FINDING: property={} {}", prop, what);
    }
    sum.found.sort();
    let mut code = 0;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut nviol = 0;
    if let Some((seed, kind, msg, tags)) = sum.found.first().cloned() {
        let dir = format!("{}/work/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, prop, seed);
        let _ = std::fs::remove_file(&path);
        let (from, step) = sum.came.get(&seed).copied().unwrap_or((seed, 1));
        let mut c = Command::new(me())
            .args(["minimise", prop, &seed.to_string(), &kind, &msg, &path, if kind == "violation" { "20" } else { "90" }])
            .args([from.to_string(), step.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let m0 = Instant::now();
        let written = || std::path::Path::new(&path).exists();
        let patience = |s| m0.elapsed() < Duration::from_secs(s);
        while patience(if kind == "violation" { 45 } else { 120 }) || !written() && patience(240) {
            if c.try_wait().unwrap().is_some() {
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        let _ = c.kill();
        let _ = c.wait();
        let rep = Command::new(me()).args(["replay", &path, "--quiet"]).output().unwrap();
        let repro = String::from_utf8_lossy(&rep.stdout).lines().last().unwrap_or("").to_string();
        println!("seed {} ({}): {}", seed, tags.join(","), msg);
        if let Ok(b) = std::fs::read(&path) {
            if let Ok(r) = serde_json::from_slice::<Replay>(&b) {
                println!("minimised from {} to {} operations: {}", r.operations_before, r.operations, r.message);
                for l in r.trace.iter().take(120) {
                    println!("    {}", l);
                }
            }
        }
        println!("replay in a fresh process: {}", repro);
        println!("replay with: bash {}/replay.sh {}", root, path);
        println!("VIOLATION property={} replay={}", prop, path);
        samples.push(serde_json::json!({"seed": seed, "violation": msg, "replay": path, "replayed": repro}));
        nviol = 1;
        code = 1;
    }
    if code == 0 && (sum.stats.runs == 0 || sum.stats.harness_errors * 20 > sum.stats.runs) {
        println!("harness: {} runs, {} harness errors: {:?}", sum.stats.runs, sum.stats.harness_errors, sum.stats.first_harness_error);
        code = 2;
    }
    // one actual case written out
    for s in base..base + 12 {
        if samples.len() >= 2 {
            break;
        }
        let sc = generate(prop, s);
        let o = if code == 0 && sum.crashes.is_empty() { run_any(&sc, s, None, true) } else { break };
        if o.hits.get(prop).copied().unwrap_or(0) == 0 {
            continue;
        }
        let mut tr: Vec<String> = o.trace.iter().take(40).cloned().collect();
        if o.trace.len() > 40 {
            tr.push(format!("... {} more lines", o.trace.len() - 40));
        }
        samples.push(serde_json::json!({
            "seed": s, "digest": format!("{:016x}", o.digest), "operations": nops(&sc), "obligations_judged": o.hits.get(prop),
            "simulated_seconds": o.sim_ns as f64 / 1e9, "task_polls": o.polls, "trace": tr
        }));
    }
    let st = &sum.stats;
    let per_h = |n: u64| (n as f64 / sum.wall.max(0.001) * 3600.0) as u64;
    let (mut real, mut stub): (Vec<&str>, Vec<&str>) = if prop.starts_with('C') {
        (
            vec!["packet crate (all of it: builders, encoder, decoder, accessors)"],
            vec!["byte stream between writer and reader (simulated: fragmentation and faults)", "reference codec and classifier (independent, harness/src/codec.rs and strict.rs)"],
        )
    } else if prop.starts_with('D') {
        (
            vec![
                "bm (main, command line, publishers, subscribers, client, report)",
                "server-lib and packet crates",
                "clap (the source of the command line replaced)",
                "tokio tasks, Notify, select!, timers (tokio 1.15.0 source with the scheduler and clock seams patched; #[tokio::main] makes the simulated current-thread runtime)",
            ],
            vec![
                "TCP sockets and listeners (simrt/src/net.rs)",
                "clock and timer driver (simulated time)",
                "run queue order (seeded scheduler)",
                "entropy (seeded)",
                "standard output (captured)",
            ],
        )
    } else {
        (
            vec![
                "server-lib (listeners, workers, handshakes, dispatcher, topic table, client table, shutdown)",
                "packet crate",
                "snow (Noise XK)",
                "tokio tasks, channels, locks, select!, timers (tokio 1.15.0 source with the scheduler and clock seams patched)",
            ],
            vec![
                "TCP sockets and listeners (simrt/src/net.rs)",
                "clock and timer driver (simulated time)",
                "run queue order (seeded scheduler)",
                "entropy (seeded)",
                "MQTT and Noise clients (simulated peers with an independent codec)",
            ],
        )
    };
    if prop.starts_with('S') {
        real.insert(0, "server (main)");
        stub.push("standard output (captured), signals (none), the process-wide subscriber of tracing (the harness's stays)");
    }
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": sum.distinct.len(),
            "rule": rule(prop),
            "samples": samples,
            "runs_per_hour": per_h(st.runs),
            "seeds_per_hour": per_h(st.runs),
            "first_seed": base,
            "workers": workers,
            "simulated_hours": st.sim_ns as f64 / 3.6e12,
            "task_polls_or_codec_calls": st.polls,
            "packets_received_by_simulated_clients": st.delivered,
            "obligations_judged_for_this_property": st.hits.get(prop).copied().unwrap_or(0),
            "obligations_judged_by_all_oracles": st.hits,
            "faults_injected": st.faults,
            "runs_with_each_fault": st.runs_with,
            "distinct_interleavings": st.all_digests,
            "interleaving_measure": "64-bit digest over every recorded decision (task picked, preemption, select order, read and write sizes, segment splits, latencies) of a run; for codec runs over the decoder calls and results; counted per worker and two-second batch",
            "violations_of_other_properties_seen": st.other,
            "determinism_rechecks": st.rechecked,
            "determinism_mismatches": st.nondeterministic,
            "harness_errors": st.harness_errors,
            "process_crashes_or_hangs": sum.crashes,
            "crashes_or_hangs_not_repeated": sum.unconfirmed,
            "components_real": real,
            "components_stubbed": stub,
        },
        "assumptions": [
            "one-thread executor: interleavings are explored at await points (and at injected preemptions before every poll of a tokio primitive), not inside synchronous code",
            "TCP is modelled as a reliable ordered byte stream per direction with arbitrary delay, segmentation, back-pressure, half-close and reset",
            "the reference codec and oracles in harness/src are right"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} runs ({} judged it, {} distinct), {:.1} simulated hours, {} obligations judged, {} determinism rechecks ({} mismatches), {:.0} s",
        prop,
        tier,
        st.runs,
        st.nontrivial,
        sum.distinct.len(),
        st.sim_ns as f64 / 3.6e12,
        st.hits.get(prop).copied().unwrap_or(0),
        st.rechecked,
        st.nondeterministic,
        t0.elapsed().as_secs_f64()
    );
    if !sum.crashes.is_empty() {
        println!("{} runs ended in a crash or hang of the process, first: {}", sum.crashes.len(), sum.crashes[0]);
    }
    code
}

/// long scan over all seeds from..from+n of several properties, reporting everything
pub fn soak(props: &[String], base: u64, secs: f64) {
    let mut seen: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
    for p in props {
        let s = search(p, base, secs, 8, true, u64::MAX);
        println!(
            "{} {} runs, harness errors {} {:?}, other {:?}, nondet {}/{}, crashes {:?}",
            p, s.stats.runs, s.stats.harness_errors, s.stats.first_harness_error, s.stats.other, s.stats.nondeterministic, s.stats.rechecked, s.crashes
        );
        for (seed, kind, msg, tags) in s.found {
            let e = seen.entry(format!("{} {:?} {} {}", p, tags, kind, sig(&msg))).or_insert((0, msg, seed));
            e.0 += 1;
        }
    }
    for (k, (n, m, s)) in seen {
        println!("{:>4} x {} (seed {}): {}", n, k, s, m.chars().take(300).collect::<String>());
    }
}
