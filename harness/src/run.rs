//! One simulated run: the real broker on the simulated runtime, on a fresh OS thread.
use crate::scen::*;
use crate::world::{self, w, Cmd, Drv, Snap, TRec, Violation, World};
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use serde::{Deserialize, Serialize};
use simrt::{Abort, Params};
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::Arc;
use std::task::Poll;
use tokio::task::JoinHandle;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Faults(pub BTreeMap<String, u64>);

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub hits: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub polls: u64,
    pub trace: Vec<String>,
    pub record: Vec<Vec<u32>>,
    pub harness_error: Option<String>,
    pub delivered: u64,
}

impl Outcome {
    pub fn empty() -> Outcome {
        Outcome {
            violations: vec![],
            hits: BTreeMap::new(),
            digest: 0,
            faults: BTreeMap::new(),
            sim_ns: 0,
            polls: 0,
            trace: vec![],
            record: vec![],
            harness_error: None,
            delivered: 0,
        }
    }
}

struct NextCmd;
impl Future for NextCmd {
    type Output = Option<Cmd>;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<Cmd>> {
        if simrt::aborted().is_some() {
            return Poll::Ready(None);
        }
        w(|w| match w.cmds.pop_front() {
            Some(c) => Poll::Ready(Some(c)),
            None => {
                w.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

enum Done<T> {
    Ok(T),
    Panicked,
    Aborted,
}
/// run broker code in its own task; give up when the simulation was aborted
async fn guard<T>(mut h: JoinHandle<T>) -> Done<T> {
    futures::future::poll_fn(|cx| {
        if simrt::aborted().is_some() {
            return Poll::Ready(Done::Aborted);
        }
        match std::pin::Pin::new(&mut h).poll(cx) {
            Poll::Ready(Ok(v)) => Poll::Ready(Done::Ok(v)),
            Poll::Ready(Err(_)) => Poll::Ready(Done::Panicked),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}

fn config(c: &Cfg) -> MqttServerConfig {
    MqttServerConfig {
        mqtt_socketaddr: if c.mqtt { Some(world::mqtt_addr()) } else { None },
        noise_socketaddr: if c.noise { Some(world::noise_addr()) } else { None },
        keep_alive: c.keep_alive,
        dispatcher_queue_size: c.queue,
        max_packet_size: c.max_packet,
        channel_permeability: if c.strict { Permeability::Strict } else { Permeability::Permissive },
        private_key: crate::noise::SERVER_PRIV,
    }
}

async fn lookup(s: &MqttServer, t: &str) -> Vec<(String, bool)> {
    let found = s.get_topics().get_all_subscribed(t).await;
    let _o = simrt::mem::outside();
    let mut v: Vec<(String, bool)> =
        found.into_iter().map(|(id, i)| (id.to_string(), format!("{:?}", i.flags).contains("NO_LOCAL"))).collect();
    v.sort();
    v
}

async fn table_op(s: &MqttServer, op: &TOp) -> Vec<(String, bool)> {
    use apiformes_packet::prelude::QoS;
    let t = s.get_topics();
    match op {
        TOp::Sub { k, f, nl } => {
            let id: Arc<str> = crate::table::cid(*k).into();
            // the flag type has no public name; its value does
            if *nl {
                let none = std::iter::empty().collect();
                let mut tmp = none;
                if false {
                    // fixes the type
                    for (_, i) in t.get_all_subscribed("").await {
                        tmp = i.flags;
                    }
                }
                t.subscribe(id, f.as_str().into(), QoS::QoS0, !tmp).await
            } else {
                t.subscribe(id, f.as_str().into(), QoS::QoS0, std::iter::empty().collect()).await
            }
            vec![]
        }
        TOp::Unsub { k, f } => {
            t.unsubscribe(crate::table::cid(*k).into(), f).await;
            vec![]
        }
        TOp::UnsubAll { k } => {
            t.unsubscribe_all(crate::table::cid(*k).into()).await;
            vec![]
        }
        TOp::Look { t } => lookup(s, t).await,
    }
}

/// what is known of the broker
#[derive(Default)]
struct Srv {
    own: Option<Arc<MqttServer>>,
    of_program: std::sync::Weak<MqttServer>,
}
impl Srv {
    fn get(&self) -> Option<Arc<MqttServer>> {
        self.own.clone().or_else(|| self.of_program.upgrade())
    }
}

async fn main_loop(cfg: Cfg) {
    let mut srv = Srv::default();
    loop {
        let Some(cmd) = NextCmd.await else { return };
        match cmd {
            Cmd::Start if cfg.program => {
                let r = futures::future::poll_fn(srvshim::poll_started).await;
                let err = r.map(|s| srv.of_program = s).err();
                if err.is_some() {
                    // the end of the program ends this, too
                    tokio::time::sleep(std::time::Duration::from_secs(10)).await;
                }
                w(|w| {
                    w.cmd_done();
                    w.started(err)
                });
            }
            Cmd::Start => {
                let c = config(&cfg);
                let r = guard(tokio::spawn(async move { MqttServer::new(c).await })).await;
                let err = match r {
                    Done::Ok(Ok(s)) => {
                        srv.own = Some(Arc::new(s));
                        None
                    }
                    Done::Ok(Err(e)) => Some(format!("{:?}", e)),
                    Done::Panicked => Some("MqttServer::new panicked".to_string()),
                    Done::Aborted => return,
                };
                w(|w| {
                    w.cmd_done();
                    w.started(err)
                });
            }
            Cmd::Shutdown => {
                if let Some(s) = srv.own.take() {
                    let s = match Arc::try_unwrap(s) {
                        Ok(s) => s,
                        Err(_) => panic!("harness: server still shared"),
                    };
                    match guard(tokio::spawn(async move { s.shutdown().await })).await {
                        Done::Aborted => return,
                        Done::Ok(()) => w(|w| w.shut_down()),
                        Done::Panicked => w(|w| {
                            w.viol(&["B18", "B14"], "MqttServer::shutdown panicked".into());
                            w.shut_down()
                        }),
                    }
                }
                w(|w| w.cmd_done());
            }
            Cmd::Snapshot(topics) => {
                let mut snap = Snap::default();
                if let Some(s) = srv.get() {
                    let h = tokio::spawn(async move {
                        let ids = s.clients().await;
                        let (mut c, mut l) = {
                            let _o = simrt::mem::outside();
                            (ids.iter().map(|x| x.to_string()).collect::<Vec<String>>(), Vec::with_capacity(topics.len()))
                        };
                        c.sort();
                        for t in topics {
                            let r = lookup(&s, &t).await;
                            l.push((t, r));
                        }
                        (c, l)
                    });
                    match guard(h).await {
                        Done::Aborted => return,
                        Done::Ok((c, l)) => {
                            snap.clients = Some(c);
                            snap.lookups = l;
                        }
                        Done::Panicked => w(|w| w.viol(&["B13", "B14"], "client list or lookup panicked".into())),
                    }
                }
                w(|w| {
                    w.cmd_done();
                    w.snapshot(snap)
                });
            }
            Cmd::List(used) => {
                if let Some(s) = srv.get() {
                    let life = w(|w| w.life);
                    let h = tokio::spawn(async move {
                        let ids = s.clients().await;
                        let _o = simrt::mem::outside();
                        ids.iter().map(|x| x.to_string()).collect::<Vec<String>>()
                    });
                    match guard(h).await {
                        Done::Aborted => return,
                        Done::Ok(c) => w(|w| w.listed(life, &used, &c)),
                        Done::Panicked => w(|w| w.viol(&["B13", "B14"], "client list panicked".into())),
                    }
                }
                w(|w| w.cmd_done());
            }
            Cmd::Table(tasks) => {
                let s = srv.get().expect("harness: table ops without broker");
                let mut hs = vec![];
                let mut ks = std::collections::BTreeSet::new();
                let mut ts = std::collections::BTreeSet::new();
                for t in &tasks {
                    for o in t {
                        match o {
                            TOp::Sub { k, f, .. } => {
                                ks.insert(*k);
                                if !f.contains('+') && !f.contains('#') {
                                    ts.insert(f.clone());
                                }
                            }
                            TOp::Look { t } => {
                                ts.insert(t.clone());
                            }
                            _ => (),
                        }
                    }
                }
                for (n, ops) in tasks.into_iter().enumerate() {
                    let s = s.clone();
                    hs.push(tokio::spawn(async move {
                        let mut out = vec![];
                        for op in ops {
                            let inv = w(|w| {
                                w.tseq += 1;
                                w.tseq
                            });
                            let res = table_op(&s, &op).await;
                            let ret = w(|w| {
                                w.tseq += 1;
                                w.tseq
                            });
                            w(|w| w.note(|| format!("table task {} [{}..{}] {:?} -> {:?}", n, inv, ret, op, res)));
                            out.push(TRec { inv, ret, op, res, task: n });
                        }
                        out
                    }));
                }
                let mut recs = vec![];
                let mut bad = false;
                for h in hs {
                    match guard(h).await {
                        Done::Aborted => return,
                        Done::Ok(v) => recs.extend(v),
                        Done::Panicked => bad = true,
                    }
                }
                if bad {
                    w(|w| w.viol(&["B22", "B14"], "a call on the subscription table panicked".into()));
                }
                let h = tokio::spawn(async move {
                    let mut leak = vec![];
                    for k in &ks {
                        s.get_topics().unsubscribe_all(crate::table::cid(*k).into()).await;
                    }
                    for t in &ts {
                        for (id, _) in lookup(&s, t).await {
                            if id.starts_with("tbl-") {
                                leak.push(format!("lookup of {:?} still names {}", t, id));
                            }
                        }
                    }
                    leak
                });
                let leak = match guard(h).await {
                    Done::Aborted => return,
                    Done::Ok(l) => l,
                    Done::Panicked => vec!["panic".into()],
                };
                w(|w| {
                    w.cmd_done();
                    w.table_done(recs, leak)
                });
            }
            Cmd::Finish => {
                if cfg.program {
                    simrt::abort(Abort::Finished);
                }
                return;
            }
        }
    }
}

pub fn params(s: &SimP) -> Params {
    Params {
        sched_policy: s.sched,
        preempt_permille: s.preempt,
        poll_cost_ns: 1000 * s.cost.max(1) as u64,
        latency_ns: s.latency_us as u64 * 1000,
        jitter_us: s.jitter_us,
        short_read_permille: s.short_read,
        short_write_permille: s.short_write,
        seg_permille: s.seg,
        window: s.window as usize,
        max_polls_no_park: 100_000,
        max_polls: 3_000_000,
    }
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        if !simrt::note_panic(msg.clone()) {
            eprintln!("{}", msg);
        }
    }));
    let _ = tracing::subscriber::set_global_default(crate::logsub::Sub);
}

pub fn run(sc: &Scenario, seed: u64, replay: Option<Vec<Vec<u32>>>, want_trace: bool) -> Outcome {
    let sc = sc.clone();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || run_here(sc, seed, replay, want_trace))
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            let mut o = Outcome::empty();
            o.harness_error = Some("the simulation thread panicked".into());
            o
        })
}

/// The server program, from its `main`. None: it panicked; true: it would have exited with status 0.
fn run_program(cfg: Cfg) -> Option<bool> {
    srvshim::reset();
    simrt::set_prelude(Box::new(move || {
        Box::pin(async move {
            w(|w| {
                w.program_begins();
                w.kick()
            });
            let mut f = Box::pin(main_loop(cfg));
            tokio::spawn(futures::future::poll_fn(move |cx| {
                let _o = simrt::mem::outside();
                f.as_mut().poll(cx)
            }));
        })
    }));
    simrt::take_exit();
    crate::bmsim::captured(|| std::panic::catch_unwind(apiformes_server::dst_main)).0.ok()
}

fn run_here(sc: Scenario, seed: u64, replay: Option<Vec<Vec<u32>>>, want_trace: bool) -> Outcome {
    simrt::install(seed, params(&sc.sim), replay, sc.loglevel);
    let cfg = sc.cfg.clone();
    world::PROGRAM.with(|p| p.set(cfg.program));
    world::W.with(|x| *x.borrow_mut() = Some(Box::new(World::new(sc, want_trace))));
    simrt::set_driver(Box::new(Drv));
    let start = simrt::now_ns();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if cfg.program {
            return Some(run_program(cfg));
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        w(|w| w.kick());
        rt.block_on(main_loop(cfg));
        drop(rt);
        None
    }));
    let mut herr = None;
    let sim_ns = simrt::now_ns() - start;
    let panics = simrt::with(|s| std::mem::take(&mut s.panics));
    for p in &panics {
        if p.contains("harness") || p.contains("/simrt/") || p.contains("vendor/tokio") && p.contains("RefCell") {
            herr = Some(p.clone());
        }
    }
    if r.is_err() && herr.is_none() {
        herr = Some(format!("the run panicked: {:?}", panics));
    }
    let ab = simrt::aborted().filter(|a| *a != Abort::Finished);
    let mut world = world::W.with(|x| x.borrow_mut().take()).unwrap();
    if herr.is_none() {
        let mut own = &panics[..];
        let end = match (&r, simrt::aborted(), simrt::take_exit()) {
            (Ok(Some(end)), None, _) => Some(*end),
            (Ok(Some(_)), Some(Abort::Finished), Some(c)) => Some(Some(c == 0)),
            _ => None,
        };
        if end.map_or(false, |e| world.program_ended(e)) {
            own = &[];
        }
        world.on_end(own, ab);
    }
    let mut st = simrt::uninstall();
    let s = &st.stats;
    let mut faults = BTreeMap::new();
    for (k, v) in [
        ("preemptions", s.preempts),
        ("non_fifo_picks", s.sched_nonfifo),
        ("select_reorders", s.select_flip),
        ("short_reads", s.short_reads),
        ("short_writes", s.short_writes),
        ("split_segments", s.segments_split),
        ("packets_glued_to_the_next", s.glued),
        ("delayed_segments", s.delayed),
        ("backpressure_waits", s.backpressure),
        ("partitions", s.partitions),
        ("client_stalls", s.stalls),
        ("resets", s.rst),
        ("resets_losing_data", s.rx_purged),
        ("closes", s.fin),
        ("half_closes", s.half_close),
        ("accept_errors", s.accept_err),
        ("bind_errors", s.bind_err),
        ("tampered_frames", s.tamper),
        ("replayed_frames", s.replayed_frames),
        ("connects_refused", s.connect_refused),
        ("writes_to_closed_peers", s.write_after_close),
        ("process_pauses", s.clock_pause),
        ("connections", s.conns),
        ("bytes", s.bytes),
    ] {
        if v > 0 {
            faults.insert(k, v);
        }
    }
    for (k, v) in &world.op_faults {
        *faults.entry(k).or_default() += *v;
    }
    let delivered = world.conns.iter().map(|c| c.rx.len() as u64).sum();
    Outcome {
        violations: std::mem::take(&mut world.violations),
        hits: std::mem::take(&mut world.hits),
        digest: st.digest,
        faults,
        sim_ns,
        polls: st.polls,
        trace: std::mem::take(&mut world.trace),
        record: std::mem::take(&mut st.record),
        harness_error: herr,
        delivered,
    }
}

pub fn abort_msg(a: Abort) -> &'static str {
    match a {
        Abort::BusyLoop => "the broker spins: far more task polls than bytes to process, without ever becoming idle or letting time pass",
        Abort::StepBudget => "the run did not finish within its budget of task polls",
        Abort::Finished => "",
        Abort::Stuck => "the run cannot make progress: nothing is runnable and no event is pending",
    }
}
