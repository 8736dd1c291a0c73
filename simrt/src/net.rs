//! Simulated TCP: reliable ordered byte pipes with latency, segmentation,
//! back-pressure, stalls, partitions, FIN, half-close, RST and accept/bind errors.

use crate::{now_ns, with, DriverEv, Ev, State, K};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

/// One end of a connection.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sock {
    pub conn: u32,
    pub end: u8,
}

enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

struct Pipe {
    q: VecDeque<(u64, Seg)>,
    inflight: usize,
    last_at: u64,
    rx: VecDeque<u8>,
    fin: bool,
    fin_sent: bool,
}
impl Pipe {
    fn new() -> Pipe {
        Pipe {
            q: VecDeque::new(),
            inflight: 0,
            last_at: 0,
            rx: VecDeque::new(),
            fin: false,
            fin_sent: false,
        }
    }
}

struct End {
    client: bool, // owned by the harness driver, not by tokio
    readers: Vec<Waker>,
    writers: Vec<Waker>,
    closed: bool,
    wr_shut: bool,
    reading: bool,
    err: Option<io::ErrorKind>,
    was_reset: bool,
    eof_told: bool,
}
impl End {
    fn new(client: bool) -> End {
        End {
            client,
            readers: Vec::new(),
            writers: Vec::new(),
            closed: false,
            wr_shut: false,
            reading: true,
            err: None,
            was_reset: false,
            eof_told: false,
        }
    }
}

struct Conn {
    ends: [End; 2],
    /// pipe[i]: bytes sent by end i
    pipes: [Pipe; 2],
    addr: [SocketAddr; 2],
    held_until: u64,
    /// connection established from the view of end 0
    state: u8, // 0 connecting, 1 established, 2 refused
    accepted: bool,
    window: usize,
}

struct Listener {
    addr: SocketAddr,
    backlog: VecDeque<u32>,
    wakers: Vec<Waker>,
    errors: VecDeque<io::ErrorKind>,
    /// every attempt to take a connection fails until then
    failing: (u64, io::ErrorKind),
    open: bool,
}

pub(crate) struct Net {
    conns: Vec<Conn>,
    listeners: Vec<Listener>,
    ports: BTreeMap<SocketAddr, usize>,
    bind_errors: BTreeMap<SocketAddr, io::ErrorKind>,
    next_port: u16,
}
impl Net {
    pub(crate) fn new() -> Net {
        Net {
            conns: Vec::new(),
            listeners: Vec::new(),
            ports: BTreeMap::new(),
            bind_errors: BTreeMap::new(),
            next_port: 40000,
        }
    }
    /// the listener that takes what is sent to this address
    fn port(&self, addr: &SocketAddr) -> Option<usize> {
        self.ports.get(addr).copied().or_else(|| {
            self.ports.iter().find(|(a, _)| a.ip().is_unspecified() && a.port() == addr.port()).map(|(_, l)| *l)
        })
    }
    fn take_bind_error(&mut self, addr: &SocketAddr) -> Option<io::ErrorKind> {
        let k = *self.bind_errors.keys().find(|a| addr.ip().is_unspecified() && a.port() == addr.port())?;
        self.bind_errors.remove(&k)
    }
}

fn reg(v: &mut Vec<Waker>, cx: &Context<'_>) {
    if !v.iter().any(|w| w.will_wake(cx.waker())) {
        v.push(cx.waker().clone());
    }
}

fn wake_all(v: Vec<Waker>) {
    for w in v {
        w.wake();
    }
}

fn latency(s: &mut State) -> u64 {
    let base = s.params.latency_ns;
    let j = s.params.jitter_us;
    let x = s.uniform(K::Latency, j + 1) as u64;
    if x > 0 {
        s.stats.delayed += 1;
    }
    base + x * 1000
}

fn enqueue(s: &mut State, c: u32, e: u8, seg: Seg) {
    let lat = latency(s);
    let now = now_ns();
    let conn = &mut s.net.conns[c as usize];
    let p = &mut conn.pipes[e as usize];
    let at = (now + lat).max(p.last_at);
    p.last_at = at;
    if let Seg::Data(d) = &seg {
        p.inflight += d.len();
    }
    p.q.push_back((at, seg));
    s.push_event(at, Ev::Deliver(c, e));
}

fn enqueue_bytes(s: &mut State, c: u32, e: u8, data: &[u8]) {
    s.stats.bytes += data.len() as u64;
    let mut rest = data;
    let p = s.params.seg_permille;
    // up to 64 extra cuts per write
    let mut cuts = 0;
    while rest.len() > 1 && cuts < 64 && s.chance(K::Seg, p) {
        let n = rest.len().min(4096) as u32 - 1;
        let k = 1 + s.uniform(K::Seg, n) as usize;
        s.stats.segments_split += 1;
        cuts += 1;
        enqueue(s, c, e, Seg::Data(rest[..k].to_vec()));
        rest = &rest[k..];
    }
    if !rest.is_empty() {
        enqueue(s, c, e, Seg::Data(rest.to_vec()));
    }
}

pub(crate) fn handle(s: &mut State, ev: Ev, wakers: &mut Vec<Waker>, notify: &mut Vec<DriverEv>) {
    match ev {
        Ev::Syn(c) => {
            let addr = s.net.conns[c as usize].addr[1];
            let li = s.net.port(&addr);
            let lat = latency(s);
            let ok = match li {
                Some(li) if s.net.listeners[li].open => {
                    s.net.conns[c as usize].accepted = false;
                    s.net.listeners[li].backlog.push_back(c);
                    wakers.append(&mut s.net.listeners[li].wakers);
                    true
                }
                _ => {
                    s.stats.connect_refused += 1;
                    false
                }
            };
            s.push_event(now_ns() + lat, Ev::SynAck(c, ok));
        }
        Ev::SynAck(c, ok) => {
            let conn = &mut s.net.conns[c as usize];
            conn.state = if ok { 1 } else { 2 };
            let end = &mut conn.ends[0];
            if end.client {
                notify.push(if ok {
                    DriverEv::Connected(Sock { conn: c, end: 0 })
                } else {
                    DriverEv::ConnectFailed(Sock { conn: c, end: 0 })
                });
            }
            wakers.append(&mut end.writers);
            wakers.append(&mut end.readers);
        }
        Ev::PeerReset(c, e) => {
            // end e learns that its peer is gone
            let end = &mut s.net.conns[c as usize].ends[e as usize];
            end.was_reset = true;
            if end.err.is_none() {
                end.err = Some(io::ErrorKind::ConnectionReset);
                if end.client && !end.closed {
                    notify.push(DriverEv::Reset(Sock { conn: c, end: e }));
                }
            }
            wakers.append(&mut end.writers);
            wakers.append(&mut end.readers);
        }
        Ev::Deliver(c, e) => {
            let now = now_ns();
            let conn = &mut s.net.conns[c as usize];
            if conn.held_until > now {
                let until = conn.held_until;
                if until != u64::MAX {
                    s.push_event(until, Ev::Deliver(c, e));
                }
                return;
            }
            let r = 1 - e;
            let mut reset_sender = false;
            while let Some((at, _)) = conn.pipes[e as usize].q.front() {
                if *at > now {
                    break;
                }
                let (_, seg) = conn.pipes[e as usize].q.pop_front().unwrap();
                let rsock = Sock { conn: c, end: r };
                match seg {
                    Seg::Data(d) => {
                        conn.pipes[e as usize].inflight -= d.len();
                        if conn.ends[r as usize].closed {
                            reset_sender = true;
                            continue;
                        }
                        if conn.ends[r as usize].err.is_some() {
                            continue;
                        }
                        conn.pipes[e as usize].rx.extend(d);
                        let end = &mut conn.ends[r as usize];
                        wakers.append(&mut end.readers);
                        if end.client && end.reading {
                            notify.push(DriverEv::Data(rsock));
                        }
                    }
                    Seg::Fin => {
                        conn.pipes[e as usize].fin = true;
                        let end = &mut conn.ends[r as usize];
                        wakers.append(&mut end.readers);
                        if end.client && end.reading && !end.closed && !end.eof_told {
                            end.eof_told = true;
                            notify.push(DriverEv::Eof(rsock));
                        }
                    }
                    Seg::Rst => {
                        let end = &mut conn.ends[r as usize];
                        end.was_reset = true;
                        if end.err.is_none() {
                            end.err = Some(io::ErrorKind::ConnectionReset);
                            if end.client && !end.closed {
                                notify.push(DriverEv::Reset(rsock));
                            }
                        }
                        wakers.append(&mut end.readers);
                        wakers.append(&mut end.writers);
                    }
                }
            }
            if reset_sender {
                s.stats.write_after_close += 1;
                let lat = s.params.latency_ns;
                s.push_event(now + lat, Ev::PeerReset(c, e));
            }
        }
        Ev::Timer(_) => {}
    }
}

// ------------------------------------------------------------------ listeners

pub fn bind(addr: SocketAddr) -> io::Result<(usize, SocketAddr)> {
    with(|s| {
        let mut addr = addr;
        if let Some(k) = s.net.bind_errors.remove(&addr).or_else(|| s.net.take_bind_error(&addr)) {
            s.stats.bind_err += 1;
            return Err(io::Error::new(k, "simulated bind failure"));
        }
        if addr.port() == 0 {
            s.net.next_port += 1;
            addr.set_port(s.net.next_port);
        }
        if s.net.ports.contains_key(&addr) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        let id = s.net.listeners.len();
        s.net.listeners.push(Listener {
            addr,
            backlog: VecDeque::new(),
            wakers: Vec::new(),
            errors: VecDeque::new(),
            failing: (0, io::ErrorKind::Other),
            open: true,
        });
        s.net.ports.insert(addr, id);
        Ok((id, addr))
    })
}
pub fn inject_bind_error(addr: SocketAddr, k: io::ErrorKind) {
    with(|s| {
        s.net.bind_errors.insert(addr, k);
    });
}
pub fn clear_bind_errors() {
    with(|s| s.net.bind_errors.clear());
}
pub fn inject_accept_error(addr: SocketAddr, k: io::ErrorKind) {
    let w = with(|s| match s.net.port(&addr) {
        Some(li) => {
            s.net.listeners[li].errors.push_back(k);
            std::mem::take(&mut s.net.listeners[li].wakers)
        }
        None => Vec::new(),
    });
    wake_all(w);
}
/// As when the process has no file descriptor left: for `d` ns accepting fails at once, and the
/// connections stay where they are.
pub fn fail_accepts(addr: SocketAddr, k: io::ErrorKind, d: u64) {
    let w = with(|s| match s.net.port(&addr) {
        Some(li) => {
            s.net.listeners[li].failing = (crate::now_ns() + d, k);
            std::mem::take(&mut s.net.listeners[li].wakers)
        }
        None => Vec::new(),
    });
    wake_all(w);
}
pub fn poll_accept(id: usize, cx: &mut Context<'_>) -> Poll<io::Result<(Sock, SocketAddr)>> {
    with(|s| {
        let l = &mut s.net.listeners[id];
        if let Some(k) = l.errors.pop_front() {
            s.stats.accept_err += 1;
            return Poll::Ready(Err(io::Error::new(k, "simulated accept failure")));
        }
        if !l.backlog.is_empty() && crate::now_ns() < l.failing.0 {
            s.stats.accept_err += 1;
            return Poll::Ready(Err(io::Error::new(l.failing.1, "simulated accept failure")));
        }
        match l.backlog.pop_front() {
            Some(c) => {
                let conn = &mut s.net.conns[c as usize];
                conn.accepted = true;
                Poll::Ready(Ok((Sock { conn: c, end: 1 }, conn.addr[0])))
            }
            None => {
                reg(&mut l.wakers, cx);
                Poll::Pending
            }
        }
    })
}
pub fn close_listener(id: usize) {
    let gone = crate::try_with(|s| {
        let l = &mut s.net.listeners[id];
        l.open = false;
        let addr = l.addr;
        let backlog: Vec<u32> = l.backlog.drain(..).collect();
        s.net.ports.remove(&addr);
        for c in backlog {
            s.net.conns[c as usize].ends[1].closed = true;
            let at = now_ns() + s.params.latency_ns;
            s.push_event(at, Ev::PeerReset(c, 0));
        }
        std::mem::take(&mut s.net.listeners[id].wakers)
    });
    drop(gone);
}
pub fn is_listening(addr: SocketAddr) -> bool {
    with(|s| s.net.port(&addr).is_some())
}
/// connections whose server end is still open: (total accepted and not closed, still in a backlog)
pub fn open_server_ends() -> Vec<u32> {
    with(|s| {
        s.net
            .conns
            .iter()
            .enumerate()
            .filter(|(_, c)| c.accepted && !c.ends[1].closed)
            .map(|(i, _)| i as u32)
            .collect()
    })
}
pub fn server_end_closed(conn: u32) -> bool {
    with(|s| s.net.conns[conn as usize].ends[1].closed)
}
pub fn unaccepted(conn: u32) -> bool {
    with(|s| !s.net.conns[conn as usize].accepted)
}
/// bytes delivered to the server end and not yet read by it
pub fn server_unread(conn: u32) -> usize {
    with(|s| s.net.conns[conn as usize].pipes[0].rx.len())
}

// ---------------------------------------------------------------- connections

fn new_conn(s: &mut State, addr: SocketAddr, client: bool) -> u32 {
    let c = s.net.conns.len() as u32;
    s.net.next_port = s.net.next_port.wrapping_add(1).max(1024);
    let local = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), s.net.next_port);
    let window = s.params.window;
    s.net.conns.push(Conn {
        ends: [End::new(client), End::new(false)],
        pipes: [Pipe::new(), Pipe::new()],
        addr: [local, addr],
        held_until: 0,
        state: 0,
        accepted: false,
        window,
    });
    s.stats.conns += 1;
    let lat = latency(s);
    s.push_event(now_ns() + lat, Ev::Syn(c));
    c
}

/// tokio side connect
pub fn connect(addr: SocketAddr) -> Sock {
    with(|s| Sock {
        conn: new_conn(s, addr, false),
        end: 0,
    })
}
pub fn poll_connected(k: Sock, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|s| {
        let c = &mut s.net.conns[k.conn as usize];
        match c.state {
            1 => Poll::Ready(Ok(())),
            2 => Poll::Ready(Err(io::ErrorKind::ConnectionRefused.into())),
            _ => {
                reg(&mut c.ends[0].writers, cx);
                Poll::Pending
            }
        }
    })
}
pub fn local_addr(k: Sock) -> SocketAddr {
    with(|s| s.net.conns[k.conn as usize].addr[k.end as usize])
}
/// like Linux: not known of a connection that the peer has reset
pub fn peer_addr(k: Sock) -> io::Result<SocketAddr> {
    with(|s| {
        let c = &s.net.conns[k.conn as usize];
        if c.ends[k.end as usize].was_reset {
            return Err(io::ErrorKind::NotConnected.into());
        }
        Ok(c.addr[1 - k.end as usize])
    })
}

fn read_inner(
    s: &mut State,
    k: Sock,
    dst: &mut dyn FnMut(&[u8]),
    want: usize,
    peek: bool,
    wk: &mut Vec<Waker>,
) -> Option<io::Result<usize>> {
    let p = s.params.short_read_permille;
    let sender = 1 - k.end as usize;
    let avail = s.net.conns[k.conn as usize].pipes[sender].rx.len();
    if avail > 0 && want > 0 {
        let mut n = avail.min(want);
        if n > 1 && s.chance(K::ReadLen, p) {
            n = 1 + s.uniform(K::ReadLen, n.min(1 << 20) as u32 - 1) as usize;
            s.stats.short_reads += 1;
        }
        {
            let conn = &mut s.net.conns[k.conn as usize];
            let pipe = &mut conn.pipes[sender];
            let (a, b) = pipe.rx.as_slices();
            let na = n.min(a.len());
            dst(&a[..na]);
            if n > na {
                dst(&b[..n - na]);
            }
            let own = !conn.ends[k.end as usize].client && k.end == 0;
            let mut got = None;
            if !peek {
                let d: Vec<u8> = pipe.rx.drain(..n).collect();
                if own {
                    got = Some(d);
                }
                wk.append(&mut conn.ends[sender].writers);
            }
            if let Some(d) = got {
                s.tap(k.conn, crate::TapEv::Read(d));
            }
        }
        s.mix(0x5ead ^ n as u64);
        return Some(Ok(n));
    }
    if want == 0 {
        return Some(Ok(0));
    }
    let conn = &mut s.net.conns[k.conn as usize];
    if let Some(e) = conn.ends[k.end as usize].err {
        return Some(Err(e.into()));
    }
    if conn.pipes[sender].fin {
        return Some(Ok(0));
    }
    None
}

pub fn poll_read(k: Sock, cx: &mut Context<'_>, dst: &mut [u8], peek: bool) -> Poll<io::Result<usize>> {
    let mut wk = Vec::new();
    let r = with(|s| {
        let want = dst.len();
        let mut off = 0;
        let mut f = |b: &[u8]| {
            dst[off..off + b.len()].copy_from_slice(b);
            off += b.len();
        };
        match read_inner(s, k, &mut f, want, peek, &mut wk) {
            Some(r) => Poll::Ready(r),
            None => {
                reg(&mut s.net.conns[k.conn as usize].ends[k.end as usize].readers, cx);
                Poll::Pending
            }
        }
    });
    wake_all(wk);
    r
}
pub fn try_read(k: Sock, dst: &mut [u8]) -> io::Result<usize> {
    let mut wk = Vec::new();
    let r = with(|s| {
        let want = dst.len();
        let mut off = 0;
        let mut f = |b: &[u8]| {
            dst[off..off + b.len()].copy_from_slice(b);
            off += b.len();
        };
        read_inner(s, k, &mut f, want, false, &mut wk)
            .unwrap_or_else(|| Err(io::ErrorKind::WouldBlock.into()))
    });
    wake_all(wk);
    r
}
pub fn poll_read_ready(k: Sock, cx: &mut Context<'_>) -> Poll<()> {
    with(|s| {
        let conn = &mut s.net.conns[k.conn as usize];
        let p = &conn.pipes[1 - k.end as usize];
        if !p.rx.is_empty() || p.fin || conn.ends[k.end as usize].err.is_some() {
            return Poll::Ready(());
        }
        reg(&mut conn.ends[k.end as usize].readers, cx);
        Poll::Pending
    })
}
fn write_inner(s: &mut State, k: Sock, buf: &[u8]) -> Option<io::Result<usize>> {
    let p = s.params.short_write_permille;
    let conn = &mut s.net.conns[k.conn as usize];
    let end = &conn.ends[k.end as usize];
    if end.wr_shut {
        return Some(Err(io::ErrorKind::BrokenPipe.into()));
    }
    if let Some(e) = end.err {
        return Some(Err(e.into()));
    }
    if buf.is_empty() {
        return Some(Ok(0));
    }
    let pipe = &conn.pipes[k.end as usize];
    let used = pipe.inflight + pipe.rx.len();
    let free = conn.window.saturating_sub(used);
    let own = k.end == 0 && !end.client;
    if free == 0 {
        s.stats.backpressure += 1;
        if own {
            s.tap(k.conn, crate::TapEv::Blocked);
        }
        return None;
    }
    let mut n = buf.len().min(free);
    if n > 1 && s.chance(K::WriteLen, p) {
        n = 1 + s.uniform(K::WriteLen, n.min(1 << 20) as u32 - 1) as usize;
        s.stats.short_writes += 1;
    }
    enqueue_bytes(s, k.conn, k.end, &buf[..n]);
    if own {
        s.tap(k.conn, crate::TapEv::Wrote(buf[..n].to_vec()));
    }
    Some(Ok(n))
}
pub fn poll_write(k: Sock, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    with(|s| match write_inner(s, k, buf) {
        Some(r) => Poll::Ready(r),
        None => {
            reg(&mut s.net.conns[k.conn as usize].ends[k.end as usize].writers, cx);
            Poll::Pending
        }
    })
}
pub fn try_write(k: Sock, buf: &[u8]) -> io::Result<usize> {
    with(|s| write_inner(s, k, buf).unwrap_or_else(|| Err(io::ErrorKind::WouldBlock.into())))
}
/// how much an end may write before its peer's window is full
pub fn write_room(k: Sock) -> usize {
    with(|s| {
        let conn = &s.net.conns[k.conn as usize];
        let p = &conn.pipes[k.end as usize];
        conn.window.saturating_sub(p.inflight + p.rx.len())
    })
}
pub fn poll_write_ready(k: Sock, cx: &mut Context<'_>) -> Poll<()> {
    with(|s| {
        let conn = &mut s.net.conns[k.conn as usize];
        let p = &conn.pipes[k.end as usize];
        let end = &mut conn.ends[k.end as usize];
        if end.err.is_some() || end.wr_shut || p.inflight + p.rx.len() < conn.window {
            return Poll::Ready(());
        }
        reg(&mut end.writers, cx);
        Poll::Pending
    })
}
pub fn shutdown_write(k: Sock) {
    crate::try_with(|s| {
        let conn = &mut s.net.conns[k.conn as usize];
        let i = k.end as usize;
        conn.ends[i].wr_shut = true;
        if !conn.pipes[i].fin_sent {
            conn.pipes[i].fin_sent = true;
            enqueue(s, k.conn, k.end, Seg::Fin);
        }
    });
}
/// full close of an end (both directions)
pub fn close(k: Sock) {
    let gone = crate::try_with(|s| {
        close_inner(s, k);
        // whoever waited on this end does not anymore
        let e = &mut s.net.conns[k.conn as usize].ends[k.end as usize];
        (std::mem::take(&mut e.readers), std::mem::take(&mut e.writers))
    });
    drop(gone);
}
fn close_inner(s: &mut State, k: Sock) {
    let conn = &mut s.net.conns[k.conn as usize];
    let i = k.end as usize;
    if conn.ends[i].closed {
        return;
    }
    conn.ends[i].closed = true;
    conn.ends[i].wr_shut = true;
    if i == 0 && !conn.ends[0].client {
        s.tap(k.conn, crate::TapEv::Closed);
    }
    let conn = &mut s.net.conns[k.conn as usize];
    let unread = !conn.pipes[1 - i].rx.is_empty();
    conn.pipes[1 - i].rx.clear();
    let fin_sent = conn.pipes[i].fin_sent;
    conn.pipes[i].fin_sent = true;
    if conn.ends[i].err.is_some() {
        return;
    }
    if unread {
        // like Linux: closing with unread data resets the connection
        enqueue(s, k.conn, k.end, Seg::Rst);
    } else if !fin_sent {
        enqueue(s, k.conn, k.end, Seg::Fin);
    }
}

// ---------------------------------------------------------------- harness side

pub fn client_connect(addr: SocketAddr) -> Sock {
    with(|s| Sock {
        conn: new_conn(s, addr, true),
        end: 0,
    })
}
pub fn client_send(k: Sock, data: &[u8]) {
    with(|s| {
        let conn = &s.net.conns[k.conn as usize];
        if conn.ends[k.end as usize].closed || conn.ends[k.end as usize].wr_shut {
            return;
        }
        enqueue_bytes(s, k.conn, k.end, data);
    });
}
/// everything that arrived and was not taken yet; frees the sender's window
pub fn client_take(k: Sock) -> Vec<u8> {
    let (v, w) = with(|s| {
        let conn = &mut s.net.conns[k.conn as usize];
        let p = &mut conn.pipes[1 - k.end as usize];
        let v: Vec<u8> = p.rx.drain(..).collect();
        let w = std::mem::take(&mut conn.ends[1 - k.end as usize].writers);
        (v, w)
    });
    wake_all(w);
    v
}
/// Stop or resume consuming at the client. Returns events the driver must handle on resume.
pub fn client_set_reading(k: Sock, on: bool) -> Vec<DriverEv> {
    with(|s| {
        if !on {
            s.stats.stalls += 1;
        }
        let conn = &mut s.net.conns[k.conn as usize];
        let i = k.end as usize;
        conn.ends[i].reading = on;
        let mut out = Vec::new();
        if on {
            if !conn.pipes[1 - i].rx.is_empty() {
                out.push(DriverEv::Data(k));
            }
            if conn.pipes[1 - i].fin && !conn.ends[i].eof_told {
                conn.ends[i].eof_told = true;
                out.push(DriverEv::Eof(k));
            }
        }
        out
    })
}
pub fn client_half_close(k: Sock) {
    with(|s| s.stats.half_close += 1);
    shutdown_write(k);
}
pub fn client_close(k: Sock) {
    with(|s| s.stats.fin += 1);
    close(k);
}
/// Abort. With `purge`, bytes still on their way (and unread ones) are lost.
pub fn client_abort(k: Sock, purge: bool) {
    let w = with(|s| {
        s.stats.rst += 1;
        let i = k.end as usize;
        let mut wk = Vec::new();
        if purge {
            s.stats.rx_purged += 1;
            let conn = &mut s.net.conns[k.conn as usize];
            conn.pipes[i].q.clear();
            conn.pipes[i].inflight = 0;
            conn.pipes[i].rx.clear();
            conn.ends[i].closed = true;
            conn.ends[i].wr_shut = true;
            let end = &mut conn.ends[1 - i];
            end.was_reset = true;
            if end.err.is_none() {
                end.err = Some(io::ErrorKind::ConnectionReset);
            }
            wk.append(&mut end.readers);
            wk.append(&mut end.writers);
        } else {
            let conn = &mut s.net.conns[k.conn as usize];
            if !conn.ends[i].closed {
                conn.ends[i].closed = true;
                conn.ends[i].wr_shut = true;
                conn.pipes[i].fin_sent = true;
                enqueue(s, k.conn, k.end, Seg::Rst);
            }
        }
        wk
    });
    wake_all(w);
}
/// Both ends learn that the connection is gone; what was under way is lost.
pub fn break_conn(conn: u32) {
    let w = with(|s| {
        let Some(c) = s.net.conns.get_mut(conn as usize) else { return Vec::new() };
        s.stats.rst += 1;
        let mut wk = Vec::new();
        for i in 0..2 {
            c.pipes[i].q.clear();
            c.pipes[i].inflight = 0;
            let end = &mut c.ends[i];
            end.was_reset = true;
            if end.err.is_none() {
                end.err = Some(io::ErrorKind::ConnectionReset);
            }
            wk.append(&mut end.readers);
            wk.append(&mut end.writers);
        }
        wk
    });
    wake_all(w);
}
pub fn connections() -> usize {
    with(|s| s.net.conns.len())
}
/// Hold all deliveries of this connection for `ns` (a partition that heals).
pub fn hold(k: Sock, ns: u64) {
    with(|s| {
        s.stats.partitions += 1;
        let c = &mut s.net.conns[k.conn as usize];
        c.held_until = c.held_until.max(now_ns().saturating_add(ns));
    });
}
/// End a partition that was started with an infinite hold.
pub fn release(k: Sock) {
    with(|s| {
        let c = &mut s.net.conns[k.conn as usize];
        if c.held_until == 0 {
            return;
        }
        c.held_until = 0;
        let now = now_ns();
        for e in 0..2u8 {
            if !s.net.conns[k.conn as usize].pipes[e as usize].q.is_empty() {
                s.push_event(now, Ev::Deliver(k.conn, e));
            }
        }
    });
}
