//! Raw network clients for the simulated server: scripts of requests, garbage and
//! misbehaviour on one connection, and what came back.
use crate::{hx, model::*};
use serde::{Deserialize, Serialize};
use simcore::net;
use std::{
    cell::{Cell, RefCell},
    rc::Rc,
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::TcpStream,
};

pub const PORT: u16 = 46733;
pub const SERVER: simcore::Pid = 1;
const S: u64 = 1_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// append a request to what is to be sent
    #[serde(rename = "req")]
    Req(Req),
    /// append raw bytes
    #[serde(rename = "raw")]
    Raw(#[serde(with = "hx")] Bs),
    /// send, in pieces of these sizes
    #[serde(rename = "send")]
    Send(Vec<u32>),
    /// until every complete request has been answered
    #[serde(rename = "await")]
    Await,
    /// microseconds
    #[serde(rename = "sleep")]
    Sleep(u32),
    /// stop reading for so many milliseconds
    #[serde(rename = "deaf")]
    Deaf(u32),
    /// close the sending direction
    #[serde(rename = "fin")]
    Fin,
    /// close without waiting for anything
    #[serde(rename = "drop")]
    Drop,
    /// break the connection, losing what is under way or not
    #[serde(rename = "reset")]
    Reset(bool),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gone {
    Eof,
    Error,
}

#[derive(Default)]
pub struct Conn {
    pub id: usize,
    /// bytes accepted by the network
    pub sent: Bs,
    /// (length of `sent` after a write, event number before it)
    pub writes: Vec<(usize, u64)>,
    pub answers: Vec<(WResp, u64)>,
    /// received but not (yet) part of an answer
    pub rest: Bs,
    pub bad: Option<String>,
    pub gone: Option<Gone>,
    deaf_until: u64,
    /// the harness ended it on purpose
    pub abandoned: bool,
    pub fin: bool,
    pub connected: bool,
    pub unanswered: bool,
    pub write_failed: bool,
    pub received: u64,
    /// answers expected for so many bytes
    known: Cell<(usize, usize)>,
}

/// What a stream of bytes asks for.
pub struct Asked {
    /// request, end offset
    pub reqs: Vec<(Req, usize)>,
    /// invalid after those: error code, offset
    pub bad: Option<(u8, usize)>,
    /// bytes after the last complete request
    pub tail: usize,
}
pub fn asked(sent: &[u8]) -> Asked {
    let mut a = Asked {
        reqs: vec![],
        bad: None,
        tail: 0,
    };
    let mut at = 0;
    loop {
        match decode_req(&sent[at..]) {
            Dec::Req(r, n) => {
                at += n;
                a.reqs.push((r, at));
            }
            Dec::More => {
                a.tail = sent.len() - at;
                return a;
            }
            Dec::Bad(c) => {
                a.bad = Some((c, at));
                a.tail = sent.len() - at;
                return a;
            }
        }
    }
}

impl Conn {
    /// Event number before the byte at `end - 1` was sent.
    pub fn sent_at(&self, end: usize) -> u64 {
        self.writes.iter().find(|w| w.0 >= end).map_or(0, |w| w.1)
    }
    fn expected(&self) -> usize {
        let (at, n) = self.known.get();
        if at == self.sent.len() && at > 0 {
            return n;
        }
        let a = asked(&self.sent);
        let n = a.reqs.len() + a.bad.is_some() as usize;
        self.known.set((self.sent.len(), n));
        n
    }
}

async fn pause(ns: u64) {
    simcore::sleep(ns).await
}

async fn reader(c: Rc<RefCell<Conn>>, mut r: tokio::net::tcp::OwnedReadHalf) {
    let mut buf = vec![0u8; 512];
    loop {
        let until = c.borrow().deaf_until;
        let now = simcore::now();
        if until > now {
            pause(until - now).await;
            continue;
        }
        let n = match r.read(&mut buf).await {
            Ok(0) => {
                c.borrow_mut().gone = Some(Gone::Eof);
                return;
            }
            Err(_) => {
                c.borrow_mut().gone = Some(Gone::Error);
                return;
            }
            Ok(n) => n,
        };
        let mut c = c.borrow_mut();
        c.received += n as u64;
        c.rest.extend_from_slice(&buf[..n]);
        while c.bad.is_none() && !c.rest.is_empty() {
            match decode_resp(&c.rest) {
                DecR::More => break,
                DecR::Resp(w, n) => {
                    c.rest.drain(..n);
                    let t = simcore::stamp();
                    c.answers.push((w, t));
                }
                DecR::Bad(why) => c.bad = Some(why),
            }
        }
    }
}

/// Wait until everything asked for has been answered, or the connection is gone.
async fn settled(c: &Rc<RefCell<Conn>>, limit: u64) -> bool {
    let end = simcore::now() + limit;
    let mut nap = 10_000;
    loop {
        {
            let c = c.borrow();
            if c.gone.is_some() || c.answers.len() >= c.expected() || c.bad.is_some() {
                return true;
            }
        }
        if simcore::now() >= end {
            return false;
        }
        pause(nap).await;
        nap = (nap * 2).min(10 * S);
    }
}

/// Run one connection's script to its end.
pub async fn script(acts: Vec<Act>) -> Rc<RefCell<Conn>> {
    let c: Rc<RefCell<Conn>> = Default::default();
    let stream = match TcpStream::connect(("127.0.0.1", PORT)).await {
        Ok(s) => s,
        Err(_) => return c,
    };
    let (id, end) = stream.sim_id();
    {
        let mut c = c.borrow_mut();
        c.id = id;
        c.connected = true;
    }
    let (r, w) = stream.into_split();
    let rd = simcore::spawn_future("client reader", reader(c.clone(), r));
    let mut w = Some(w);
    let mut out: Bs = vec![];
    let mut acts = acts;
    if !matches!(acts.last(), Some(Act::Send(_) | Act::Await | Act::Fin | Act::Drop | Act::Reset(_))) {
        acts.push(Act::Send(vec![]));
    }
    for a in acts {
        match a {
            Act::Req(r) => out.extend(encode(&r)),
            Act::Raw(b) => out.extend(b),
            Act::Send(cuts) => {
                let mut cuts = cuts.iter();
                let mut at = 0;
                while at < out.len() && !c.borrow().write_failed {
                    let n = cuts.next().map_or(usize::MAX, |c| *c as usize).min(out.len() - at);
                    if n == 0 {
                        simcore::yield_point();
                        continue;
                    }
                    let t = simcore::stamp();
                    let Some(w) = w.as_mut() else { break };
                    match w.write(&out[at..at + n]).await {
                        Ok(k) => {
                            let mut c = c.borrow_mut();
                            c.sent.extend_from_slice(&out[at..at + k]);
                            let l = c.sent.len();
                            c.writes.push((l, t));
                            at += k;
                        }
                        Err(_) => c.borrow_mut().write_failed = true,
                    }
                }
                out.clear();
            }
            Act::Await => {
                if !settled(&c, 3600 * S).await {
                    c.borrow_mut().unanswered = true;
                }
            }
            Act::Sleep(us) => pause(us as u64 * 1000).await,
            Act::Deaf(ms) => {
                let t = simcore::now() + ms as u64 * 1_000_000;
                c.borrow_mut().deaf_until = t;
            }
            Act::Fin => {
                if let Some(w) = w.as_mut() {
                    c.borrow_mut().fin = true;
                    let _ = w.shutdown().await;
                }
            }
            Act::Drop => {
                c.borrow_mut().abandoned = true;
                break;
            }
            Act::Reset(lose) => {
                c.borrow_mut().abandoned = true;
                net::reset_conn(id, lose);
                break;
            }
        }
    }
    if !c.borrow().abandoned {
        if !settled(&c, 3600 * S).await {
            c.borrow_mut().unanswered = true;
        } else if c.borrow().gone.is_none() {
            // nothing more may come: say goodbye and look
            if let Some(w) = w.as_mut() {
                c.borrow_mut().fin = true;
                let _ = w.shutdown().await;
            }
            let mut nap = 10_000;
            let end = simcore::now() + 3600 * S;
            while c.borrow().gone.is_none() && simcore::now() < end {
                pause(nap).await;
                nap = (nap * 2).min(10 * S);
            }
        }
    }
    // close
    drop(w.take());
    simcore::kill_task(rd.id);
    net::close(id, end);
    c
}
