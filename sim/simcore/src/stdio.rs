//! Simulated standard input and output, per process.
use crate::{with, Fault, Pid, TimerAct};
use std::{
    collections::{BTreeMap, VecDeque},
    io,
    task::{Context, Poll, Waker},
};

#[derive(Default)]
pub struct Pipe {
    pub input: VecDeque<u8>,
    pub eof: bool,
    pub rd_w: Option<Waker>,
    /// what has reached the terminal
    pub visible: Vec<u8>,
    /// what the standard library's line buffer holds back
    pub buffered: Vec<u8>,
    /// what a write has taken over, and when it will have been carried out
    pub flying: Vec<u8>,
    pub due: u64,
    pub in_fail: bool,
    pub waiting: bool,
    pub watch: Option<Waker>,
}

impl Pipe {
    /// Carry out the write under way: standard output is line buffered.
    fn land(&mut self) {
        self.buffered.append(&mut self.flying);
        if let Some(n) = self.buffered.iter().rposition(|b| *b == b'\n') {
            self.visible.extend(self.buffered.drain(..=n));
        }
        if self.buffered.len() > LINE_BUFFER {
            self.visible.append(&mut self.buffered);
        }
    }
}

/// Capacity of the standard library's line buffer.
const LINE_BUFFER: usize = 1024;
/// How long a write may take to be carried out after it was taken over.
pub const LANDING: u64 = 40_000;

#[derive(Default)]
pub struct Stdio {
    pub pipes: BTreeMap<Pid, Pipe>,
}

/// The user types `data`.
pub fn type_in(pid: Pid, data: &[u8]) {
    with(|s| {
        let p = s.stdio.pipes.entry(pid).or_default();
        p.input.extend(data);
        if let Some(w) = p.rd_w.take() {
            w.wake()
        }
    })
}
pub fn close_input(pid: Pid) {
    with(|s| {
        let p = s.stdio.pipes.entry(pid).or_default();
        p.eof = true;
        if let Some(w) = p.rd_w.take() {
            w.wake()
        }
    })
}
pub fn visible(pid: Pid) -> Vec<u8> {
    with(|s| {
        let now = s.now;
        let p = s.stdio.pipes.entry(pid).or_default();
        if now >= p.due {
            p.land();
        }
        p.visible.clone()
    })
}
/// The process has ended: the line buffer is flushed, but a write that was not yet
/// carried out is lost (tokio drops the blocking task). Returns the bytes lost.
pub fn ended(pid: Pid) -> usize {
    with(|s| {
        let now = s.now;
        let p = s.stdio.pipes.entry(pid).or_default();
        if now >= p.due {
            p.land();
        }
        p.visible.append(&mut p.buffered);
        std::mem::take(&mut p.flying).len()
    })
}
/// Is the process waiting for input with nothing left to read?
pub fn starved(pid: Pid) -> bool {
    with(|s| {
        let p = s.stdio.pipes.entry(pid).or_default();
        p.waiting && p.input.is_empty() && !p.eof
    })
}

/// Ready when the process waits for input with nothing left to read (or EOF was given).
pub fn poll_starved(pid: Pid, cx: &mut Context<'_>) -> Poll<()> {
    with(|s| {
        let p = s.stdio.pipes.entry(pid).or_default();
        if p.waiting && p.input.is_empty() {
            Poll::Ready(())
        } else {
            p.watch = Some(cx.waker().clone());
            Poll::Pending
        }
    })
}

pub fn poll_read(cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    with(|s| {
        let pid = s.pid();
        if s.env_choice(Fault::Spurious, 1) != 0 {
            let at = s.now + 5_000;
            s.add_timer(at, TimerAct::Wake(cx.waker().clone()));
            return Poll::Pending;
        }
        let p = s.stdio.pipes.entry(pid).or_default();
        let avail = p.input.len().min(buf.len());
        if avail == 0 {
            if p.eof || buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            p.rd_w = Some(cx.waker().clone());
            p.waiting = true;
            if let Some(w) = p.watch.take() {
                w.wake()
            }
            return Poll::Pending;
        }
        let n = match s.env_choice(Fault::ShortRead, 6) as usize {
            0 => avail,
            v => v.min(avail),
        };
        let p = s.stdio.pipes.get_mut(&pid).unwrap();
        p.waiting = false;
        for b in buf[..n].iter_mut() {
            *b = p.input.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    })
}

pub fn poll_write(cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    with(|s| {
        let pid = s.pid();
        if s.env_choice(Fault::Spurious, 1) != 0 {
            let at = s.now + 5_000;
            s.add_timer(at, TimerAct::Wake(cx.waker().clone()));
            return Poll::Pending;
        }
        let mut n = buf.len();
        match s.env_choice(Fault::ShortWrite, 6) as usize {
            0 => {}
            v => n = v.min(n),
        }
        let now = s.now;
        let p = s.stdio.pipes.entry(pid).or_default();
        p.land();
        p.flying.extend(&buf[..n]);
        p.due = now + LANDING;
        Poll::Ready(Ok(n))
    })
}

pub fn poll_flush(cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|s| {
        let pid = s.pid();
        if s.env_choice(Fault::Spurious, 1) != 0 {
            let at = s.now + 5_000;
            s.add_timer(at, TimerAct::Wake(cx.waker().clone()));
            return Poll::Pending;
        }
        let p = s.stdio.pipes.entry(pid).or_default();
        p.land();
        p.visible.append(&mut p.buffered);
        Poll::Ready(Ok(()))
    })
}
