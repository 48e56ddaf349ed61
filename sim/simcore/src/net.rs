//! A simulated TCP network: byte pipes with windows, segments delivered in order
//! after a chosen delay, resets, half-close, refused connections, accept errors.
use crate::{with, Fault, Pid, Sim, TimerAct};
use std::{
    collections::{BTreeMap, VecDeque},
    io,
    net::{IpAddr, Ipv4Addr, SocketAddr},
    task::{Context, Poll, Waker},
};

enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

pub struct EndPt {
    pid: Pid,
    addr: SocketAddr,
    inq: VecDeque<u8>,
    flight: VecDeque<(u64, Seg)>,
    flight_bytes: usize,
    last_at: u64,
    stalled_until: u64,
    eof: bool,
    rst: bool,
    rd_w: Option<Waker>,
    wr_w: Option<Waker>,
    wr_shut: bool,
    dropped: bool,
    /// broken by an injected fault
    faulted: bool,
    pub received: u64,
    pub sent: u64,
}

impl EndPt {
    fn new(pid: Pid, addr: SocketAddr) -> Self {
        EndPt {
            pid,
            addr,
            inq: VecDeque::new(),
            flight: VecDeque::new(),
            flight_bytes: 0,
            last_at: 0,
            stalled_until: 0,
            eof: false,
            rst: false,
            rd_w: None,
            wr_w: None,
            wr_shut: false,
            dropped: false,
            faulted: false,
            received: 0,
            sent: 0,
        }
    }
    fn wake(&mut self) {
        if let Some(w) = self.rd_w.take() {
            w.wake()
        }
        if let Some(w) = self.wr_w.take() {
            w.wake()
        }
    }
}

struct Listener {
    id: u64,
    pid: Pid,
    addr: SocketAddr,
    backlog: VecDeque<usize>,
    waker: Option<Waker>,
}

#[derive(Default)]
pub struct Net {
    conns: Vec<[EndPt; 2]>,
    /// the listener each connection was made to
    made_to: Vec<u64>,
    listeners: BTreeMap<u16, Listener>,
    next_port: u16,
    next_lid: u64,
    pub accepted: u64,
}

const MS: u64 = 1_000_000;

/// Deliver everything due at connection `c`, end `e`.
pub(crate) fn deliver(s: &mut Sim, c: usize, e: usize) {
    let now = s.now;
    let ep = &mut s.net.conns[c][e];
    if now < ep.stalled_until {
        let at = ep.stalled_until;
        s.add_timer(at, TimerAct::Net(c, e));
        return;
    }
    let mut any = false;
    while let Some((at, _)) = ep.flight.front() {
        if *at > now {
            break;
        }
        let (_, seg) = ep.flight.pop_front().unwrap();
        any = true;
        match seg {
            Seg::Data(d) => {
                ep.flight_bytes -= d.len();
                if !ep.rst && !ep.dropped {
                    ep.received += d.len() as u64;
                    ep.inq.extend(d);
                }
            }
            Seg::Fin => ep.eof = true,
            Seg::Rst => {
                ep.rst = true;
                ep.inq.clear();
                ep.flight.clear();
                ep.flight_bytes = 0;
                break;
            }
        }
    }
    if any {
        let rd = ep.rd_w.take();
        let wr = ep.wr_w.take();
        if let Some(w) = rd {
            w.wake()
        }
        if let Some(w) = wr {
            w.wake()
        }
        // data arriving at a socket nobody holds any more is answered by a reset
        let dead = {
            let ep = &s.net.conns[c][e];
            ep.dropped && !ep.rst
        };
        if dead {
            let had = true;
            if had && !s.net.conns[c][1 - e].dropped {
                send(s, c, 1 - e, Seg::Rst, true);
            }
        }
    }
}

/// Put a segment in flight towards end `e`.
fn send(s: &mut Sim, c: usize, e: usize, seg: Seg, plain: bool) {
    let now = s.now;
    let mut delay = 0;
    if !plain {
        delay = match s.env_choice(Fault::Delay, 4) {
            0 => 0,
            1 => 20_000,
            2 => MS,
            3 => 20 * MS,
            _ => 300 * MS,
        };
        match s.env_choice(Fault::Stall, 2) {
            0 => {}
            v => {
                let until = now + v as u64 * 2_000 * MS;
                let ep = &mut s.net.conns[c][e];
                ep.stalled_until = ep.stalled_until.max(until);
            }
        }
    }
    let ep = &mut s.net.conns[c][e];
    if ep.rst {
        return;
    }
    let at = ep.last_at.max(now + delay).max(ep.stalled_until);
    ep.last_at = at;
    if let Seg::Data(d) = &seg {
        ep.flight_bytes += d.len();
    }
    ep.flight.push_back((at, seg));
    if at <= now {
        deliver(s, c, e);
    } else {
        s.add_timer(at, TimerAct::Net(c, e));
    }
}

fn err(k: io::ErrorKind, m: &str) -> io::Error {
    io::Error::new(k, m)
}

/// Errors of a connection that is gone, other than a reset.
fn odd(v: u32) -> io::Error {
    match v {
        1 => io::Error::from_raw_os_error(110), // timed out
        2 => io::Error::from_raw_os_error(113), // no route to host
        _ => io::Error::from_raw_os_error(32),  // broken pipe
    }
}

/// Break the connection: both ends see a reset; `drop_flight` loses what is in flight.
fn break_conn(s: &mut Sim, c: usize, drop_flight: bool) {
    s.net.conns[c][0].faulted = true;
    for e in 0..2 {
        let ep = &mut s.net.conns[c][e];
        if drop_flight {
            ep.flight.clear();
            ep.flight_bytes = 0;
            ep.inq.clear();
            ep.rst = true;
            let (a, b) = (ep.rd_w.take(), ep.wr_w.take());
            if let Some(w) = a {
                w.wake()
            }
            if let Some(w) = b {
                w.wake()
            }
        } else {
            send(s, c, e, Seg::Rst, true);
        }
    }
}

/// Harness-controlled reset of a connection.
pub fn reset_conn(c: usize, drop_flight: bool) {
    with(|s| {
        *s.counters.entry("harness_reset").or_default() += 1;
        break_conn(s, c, drop_flight)
    })
}

pub fn stall_end(c: usize, e: usize, ns: u64) {
    with(|s| {
        let until = s.now + ns;
        s.net.conns[c][e].stalled_until = until;
    })
}

pub fn conn_count() -> usize {
    with(|s| s.net.conns.len())
}

/// (bytes delivered to end, bytes accepted from end)
pub fn conn_bytes(c: usize, e: usize) -> (u64, u64) {
    with(|s| {
        let ep = &s.net.conns[c][e];
        (ep.received, ep.sent)
    })
}

pub fn end_reset(c: usize, e: usize) -> bool {
    with(|s| s.net.conns[c][e].rst)
}

/// bytes received from `e`'s peer that the process has not read yet
pub fn unread(c: usize, e: usize) -> usize {
    with(|s| s.net.conns[c][e].inq.len() + s.net.conns[c][e].flight_bytes)
}

pub fn is_dropped(c: usize, e: usize) -> bool {
    with(|s| s.net.conns[c][e].dropped)
}

/// Was the connection broken by an injected fault (not by its two ends)?
pub fn faulted(c: usize) -> bool {
    with(|s| s.net.conns[c][0].faulted)
}

/// How many connections' ends process `pid` holds open.
pub fn open_ends(pid: Pid) -> usize {
    with(|s| s.net.conns.iter().flatten().filter(|e| e.pid == pid && !e.dropped).count())
}
/// Number of the listener a connection was made to.
pub fn listener_of(c: usize) -> u64 {
    with(|s| s.net.made_to[c])
}
pub fn listener(port: u16) -> Option<u64> {
    with(|s| s.net.listeners.get(&port).map(|l| l.id))
}
/// The newest connection a process made.
pub fn last_conn(pid: Pid) -> Option<usize> {
    with(|s| (0..s.net.conns.len()).rev().find(|c| s.net.conns[*c][0].pid == pid))
}

/// The addresses process `pid` listens on.
pub fn listening_on(pid: Pid) -> Vec<SocketAddr> {
    with(|s| s.net.listeners.values().filter(|l| l.pid == pid).map(|l| l.addr).collect())
}
pub fn listening(port: u16) -> bool {
    with(|s| s.net.listeners.contains_key(&port))
}

pub fn bind(addr: SocketAddr) -> io::Result<(u64, SocketAddr)> {
    with(|s| {
        let pid = s.pid();
        let mut port = addr.port();
        if port == 0 {
            port = 20000 + s.net.next_port;
            s.net.next_port += 1;
        }
        if s.net.listeners.contains_key(&port) {
            return Err(err(io::ErrorKind::AddrInUse, "address in use"));
        }
        let id = s.net.next_lid;
        s.net.next_lid += 1;
        s.net.listeners.insert(
            port,
            Listener {
                id,
                pid,
                addr: SocketAddr::new(addr.ip(), port),
                backlog: VecDeque::new(),
                waker: None,
            },
        );
        Ok((id, SocketAddr::new(addr.ip(), port)))
    })
}

pub fn unbind(port: u16, id: u64) {
    if !crate::active() {
        return;
    }
    with(|s| {
        let same = s.net.listeners.get(&port).map(|l| l.id) == Some(id);
        if same {
            let l = s.net.listeners.remove(&port).unwrap();
            for c in l.backlog {
                break_conn(s, c, true);
            }
        }
    })
}

/// Connect to a port: returns (connection, local end).
pub fn connect(port: u16) -> io::Result<(usize, usize, SocketAddr, SocketAddr)> {
    with(|s| {
        if s.env_choice(Fault::ConnectErr, 1) != 0 {
            return Err(err(io::ErrorKind::TimedOut, "connect timed out"));
        }
        let pid = s.pid();
        let lpid = match s.net.listeners.get(&port) {
            None => return Err(err(io::ErrorKind::ConnectionRefused, "connection refused")),
            Some(l) => l.pid,
        };
        let c = s.net.conns.len();
        let la = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 30000u16.wrapping_add(c as u16));
        let ra = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), port);
        let lid = s.net.listeners[&port].id;
        s.net.made_to.push(lid);
        s.net.conns.push([EndPt::new(pid, la), EndPt::new(lpid, ra)]);
        let l = s.net.listeners.get_mut(&port).unwrap();
        l.backlog.push_back(c);
        if let Some(w) = l.waker.take() {
            w.wake()
        }
        Ok((c, 0, la, ra))
    })
}

pub fn poll_accept(
    port: u16,
    id: u64,
    cx: &mut Context<'_>,
) -> Poll<io::Result<(usize, usize, SocketAddr, SocketAddr)>> {
    with(|s| {
        match s.net.listeners.get(&port) {
            Some(l) if l.id == id => {}
            _ => return Poll::Ready(Err(err(io::ErrorKind::NotConnected, "listener closed"))),
        }
        if s.net.listeners[&port].backlog.is_empty() {
            s.net.listeners.get_mut(&port).unwrap().waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match s.env_choice(Fault::AcceptErr, 3) {
            0 => {}
            1 => return Poll::Ready(Err(io::Error::from_raw_os_error(24))),
            2 => return Poll::Ready(Err(io::Error::from_raw_os_error(23))),
            _ => {
                let c = s
                    .net
                    .listeners
                    .get_mut(&port)
                    .unwrap()
                    .backlog
                    .pop_front()
                    .unwrap();
                break_conn(s, c, true);
                s.net.conns[c][1].dropped = true;
                return Poll::Ready(Err(io::Error::from_raw_os_error(103)));
            }
        }
        let l = s.net.listeners.get_mut(&port).unwrap();
        let c = l.backlog.pop_front().unwrap();
        s.net.accepted += 1;
        let ep = &s.net.conns[c];
        Poll::Ready(Ok((c, 1, ep[1].addr, ep[0].addr)))
    })
}

pub fn peer_addr(c: usize, e: usize) -> io::Result<SocketAddr> {
    with(|s| {
        if s.net.conns[c][e].rst || s.env_choice(Fault::PeerAddrErr, 1) != 0 {
            s.net.conns[c][0].faulted = true;
            return Err(io::Error::from_raw_os_error(107));
        }
        Ok(s.net.conns[c][1 - e].addr)
    })
}

/// What `poll_read` would give next, without taking it.
pub fn poll_peek(c: usize, e: usize, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    with(|s| {
        let ep = &mut s.net.conns[c][e];
        if ep.rst {
            return Poll::Ready(Err(err(io::ErrorKind::ConnectionReset, "connection reset")));
        }
        let n = ep.inq.len().min(buf.len());
        if n == 0 && !buf.is_empty() && !ep.eof {
            ep.rd_w = Some(cx.waker().clone());
            return Poll::Pending;
        }
        for (b, x) in buf[..n].iter_mut().zip(&ep.inq) {
            *b = *x;
        }
        Poll::Ready(Ok(n))
    })
}

pub fn poll_read(c: usize, e: usize, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    with(|s| {
        if !s.net.conns[c][e].rst && !s.net.conns[c][e].dropped {
            if s.env_choice(Fault::Spurious, 1) != 0 {
                let at = s.now + 5_000;
                s.add_timer(at, TimerAct::Wake(cx.waker().clone()));
                return Poll::Pending;
            }
            match s.env_choice(Fault::Reset, 2) {
                0 => {}
                v => break_conn(s, c, v == 1),
            }
            match s.env_choice(Fault::ReadErr, 3) {
                0 => {}
                v => {
                    break_conn(s, c, true);
                    return Poll::Ready(Err(odd(v)));
                }
            }
        }
        let ep = &s.net.conns[c][e];
        if ep.rst {
            return Poll::Ready(Err(err(io::ErrorKind::ConnectionReset, "connection reset")));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let avail = ep.inq.len().min(buf.len());
        if avail == 0 {
            if ep.eof {
                return Poll::Ready(Ok(0));
            }
            s.net.conns[c][e].rd_w = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = match s.env_choice(Fault::ShortRead, 6) as usize {
            0 => avail,
            v => v.min(avail),
        };
        let ep = &mut s.net.conns[c][e];
        for b in buf[..n].iter_mut() {
            *b = ep.inq.pop_front().unwrap();
        }
        s.hash = crate::mix(s.hash, 0x1000_0000 + ((c as u64) << 16) + n as u64);
        // window opened
        if let Some(w) = s.net.conns[c][1 - e].wr_w.take() {
            w.wake()
        }
        Poll::Ready(Ok(n))
    })
}

pub fn poll_write(c: usize, e: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    with(|s| {
        if !s.net.conns[c][e].rst {
            if s.env_choice(Fault::Spurious, 1) != 0 {
                let at = s.now + 5_000;
                s.add_timer(at, TimerAct::Wake(cx.waker().clone()));
                return Poll::Pending;
            }
            match s.env_choice(Fault::Reset, 2) {
                0 => {}
                v => break_conn(s, c, v == 1),
            }
            match s.env_choice(Fault::WriteErr, 3) {
                0 => {}
                v => {
                    break_conn(s, c, true);
                    return Poll::Ready(Err(odd(v)));
                }
            }
        }
        let ep = &s.net.conns[c][e];
        if ep.rst {
            return Poll::Ready(Err(err(io::ErrorKind::ConnectionReset, "connection reset")));
        }
        if ep.wr_shut || ep.dropped {
            return Poll::Ready(Err(err(io::ErrorKind::BrokenPipe, "broken pipe")));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let peer = &s.net.conns[c][1 - e];
        let used = peer.inq.len() + peer.flight_bytes;
        let free = s.cfg.window.saturating_sub(used);
        if free == 0 {
            s.net.conns[c][e].wr_w = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = free.min(buf.len());
        match s.env_choice(Fault::ShortWrite, 6) as usize {
            0 => {}
            v => n = v.min(n),
        }
        s.net.conns[c][e].sent += n as u64;
        s.hash = crate::mix(s.hash, 0x2000_0000 + ((c as u64) << 16) + n as u64);
        send(s, c, 1 - e, Seg::Data(buf[..n].to_vec()), false);
        Poll::Ready(Ok(n))
    })
}

pub fn shutdown_write(c: usize, e: usize) {
    if !crate::active() {
        return;
    }
    with(|s| {
        if c >= s.net.conns.len() {
            return;
        }
        let ep = &mut s.net.conns[c][e];
        if ep.wr_shut || ep.rst || ep.dropped {
            return;
        }
        ep.wr_shut = true;
        send(s, c, 1 - e, Seg::Fin, false);
    })
}

/// The process closed the socket.
pub fn close(c: usize, e: usize) {
    if !crate::active() {
        return;
    }
    with(|s| {
        if c >= s.net.conns.len() {
            return;
        }
        close_in(s, c, e, false)
    })
}

fn close_in(s: &mut Sim, c: usize, e: usize, crash: bool) {
    let ep = &mut s.net.conns[c][e];
    if ep.dropped {
        return;
    }
    ep.dropped = true;
    ep.wake();
    let unread = !ep.inq.is_empty();
    if ep.rst {
        return;
    }
    ep.inq.clear();
    let shut = ep.wr_shut;
    ep.wr_shut = true;
    let hard = crash && s.env_choice(Fault::KillRst, 1) != 0;
    if hard {
        break_conn(s, c, true);
    } else if unread {
        send(s, c, 1 - e, Seg::Rst, false);
    } else if !shut {
        send(s, c, 1 - e, Seg::Fin, false);
    }
}

pub(crate) fn process_died(s: &mut Sim, pid: Pid, crash: bool) {
    let ports: Vec<u16> = s
        .net
        .listeners
        .iter()
        .filter(|(_, l)| l.pid == pid)
        .map(|(p, _)| *p)
        .collect();
    for p in ports {
        let l = s.net.listeners.remove(&p).unwrap();
        for c in l.backlog {
            break_conn(s, c, true);
        }
    }
    for c in 0..s.net.conns.len() {
        for e in 0..2 {
            if s.net.conns[c][e].pid == pid {
                close_in(s, c, e, crash);
            }
        }
    }
}
