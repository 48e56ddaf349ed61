//! The same thing over and over: whatever is created is removed again, so nothing may
//! pile up: memory, tasks, connections.
use crate::{
    alloc,
    client::{self, Call},
    cli::{self, CLI},
    engine, gen,
    fw::{base_cfg, hash_bytes, report, shape, tally, Family},
    hx,
    model::*,
    netx::{self, Act, SERVER},
    server,
};
use hop::Client;
use hop_engine::{session::SessionId, Hop};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{net, rng::Rng, stdio, Config, Fault, Outcome, Pid};
use std::{cell::RefCell, rc::Rc, sync::Arc};

/// The process whose engine, or client, this is about.
const SUBJECT: Pid = 70;
const CLEANER: Pid = 71;
/// Bytes that are not worth a word.
const SLACK: isize = 4000;
/// Bytes of growth between two looks that are worth looking on.
const CREEP: isize = 256;

#[derive(Clone, Serialize, Deserialize)]
enum EOp {
    #[serde(rename = "req")]
    Req(Req),
    /// subscribe session (of this thread and round) to key
    #[serde(rename = "sub")]
    Sub(u8, u8),
    #[serde(rename = "unsub")]
    Unsub(u8, u8),
    #[serde(rename = "remove_session")]
    Leave(u8),
    /// a session that starts and ends
    #[serde(rename = "session")]
    Session,
    /// get a subscription
    #[serde(rename = "look")]
    Look(u8, u8),
    /// another handle, dropped
    #[serde(rename = "clone")]
    Clone,
}

#[derive(Clone, Serialize, Deserialize)]
enum What {
    #[serde(rename = "engine")]
    Engine { threads: Vec<Vec<EOp>>, leave: bool },
    #[serde(rename = "server")]
    Server { conns: Vec<Vec<Act>> },
    /// clients of a real server, or in-process
    #[serde(rename = "client")]
    Client {
        calls: Vec<(Call, Option<u32>)>,
        local: bool,
        /// one client for all rounds
        keep: bool,
        raw: bool,
    },
    #[serde(rename = "terminal")]
    Terminal {
        #[serde(with = "hx::list")]
        lines: Vec<Bs>,
    },
}

#[derive(Clone, Serialize, Deserialize)]
struct Plan {
    rounds: u32,
    what: What,
}

pub struct Endurance;

const BASE: [&[u8]; 4] = [b"a@", b"bb@", b"c@", b"d@"];

/// The request as made in round `r`: keys get its number.
fn of_round(q: &Req, r: u32) -> Req {
    let mut q = q.clone();
    for a in q.args.iter_mut() {
        if BASE.contains(&a.as_slice()) {
            a.extend_from_slice(format!("{:06}", r).as_bytes());
        }
    }
    q
}
fn deletes(qs: &[Req]) -> Vec<Req> {
    let mut ks: Vec<Bs> = qs.iter().flat_map(keys_of).cloned().collect();
    ks.sort();
    ks.dedup();
    ks.iter().map(|k| gen::req(DELETE, None, &[k])).collect()
}

fn small(rng: &mut Rng, ks: &[Bs]) -> Req {
    loop {
        let r = if rng.chance(1, 6) {
            gen::wild(rng, ks)
        } else {
            gen::plain(rng, ks, &ALL)
        };
        if !engine::bad_req(&r) && r.args.iter().map(|a| a.len()).sum::<usize>() < 600 {
            return r;
        }
    }
}

impl Family for Endurance {
    fn name(&self) -> &'static str {
        "endurance"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine with its session manager and subscription registry, hop-server main.rs, hop client crate, hop-cli",
            "network, terminal, tokio's scheduler and timers, dashmap's shard lock; allocator (counting)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let ks: Vec<Bs> = BASE.iter().map(|k| k.to_vec()).collect();
        let mut cfg = base_cfg(rng, 100_000);
        cfg.max_steps = 150_000_000;
        // each shard of a map keeps the memory of its first entry: soon all of them have it
        cfg.shards = *rng.pick(&[2usize, 4]);
        let (what, rounds) = match rng.below(8) {
            0..=2 => {
                let nt = rng.range(1, 3);
                let heavy = rng.below(3); // 0: requests, 1: registry, 2: both
                let threads = (0..nt)
                    .map(|_| {
                        (0..rng.range(1, 6))
                            .map(|_| {
                                let (s, k) = (rng.below(3) as u8, rng.below(3) as u8);
                                if heavy == 0 || (heavy == 2 && rng.chance(1, 2)) {
                                    EOp::Req(small(rng, &ks))
                                } else {
                                    match rng.below(10) {
                                        0..=3 => EOp::Sub(s, k),
                                        4 | 5 => EOp::Unsub(s, k),
                                        6 => EOp::Leave(s),
                                        7 => EOp::Look(s, k),
                                        8 => EOp::Clone,
                                        _ => EOp::Session,
                                    }
                                }
                            })
                            .collect()
                    })
                    .collect();
                (
                    What::Engine {
                        threads,
                        leave: rng.chance(1, 2),
                    },
                    if deep { 500 } else { 250 },
                )
            }
            3 | 4 => {
                cfg.window = *rng.pick(&[64usize, 1024, 1 << 16]);
                for (f, p) in [
                    (Fault::ShortRead, 200),
                    (Fault::ShortWrite, 200),
                    (Fault::Spurious, 100),
                    (Fault::Delay, 200),
                    (Fault::Reset, 20),
                    (Fault::AcceptErr, 100),
                    (Fault::PeerAddrErr, 50),
                    (Fault::WriteErr, 20),
                    (Fault::ReadErr, 20),
                ] {
                    if rng.chance(1, 3) {
                        cfg.rates[f as usize] = p;
                    }
                }
                let n = rng.range(1, 3);
                let conns = (0..n)
                    .map(|i| {
                        let evil = rng.chance(1, 2);
                        server::conn(rng, &ks, &format!("c{}", i), evil, false)
                    })
                    .collect();
                (What::Server { conns }, if deep { 120 } else { 60 })
            }
            5 | 6 => {
                let local = rng.chance(1, 3);
                if !local {
                    for (f, p) in [
                        (Fault::ShortRead, 200),
                        (Fault::ShortWrite, 200),
                        (Fault::Spurious, 100),
                        (Fault::Reset, 20),
                        (Fault::WriteErr, 20),
                        (Fault::ReadErr, 20),
                        (Fault::ConnectErr, 50),
                    ] {
                        if rng.chance(1, 3) {
                            cfg.rates[f as usize] = p;
                        }
                    }
                }
                let keep = local || rng.chance(1, 2);
                if keep && !local && rng.chance(3, 4) {
                    // or the client would soon be dead
                    for f in [Fault::Reset, Fault::WriteErr, Fault::ReadErr] {
                        cfg.rates[f as usize] = 0;
                    }
                }
                let raw = rng.chance(1, 3);
                let cuts = rng.chance(1, 2) && !(keep && !local);
                let calls = (0..rng.range(1, 5))
                    .map(|i| {
                        let c = loop {
                            let c = client::gen_call(rng, &ks, &format!("t{}", i), raw);
                            if c.req.args.iter().map(|a| a.len()).sum::<usize>() < 600 {
                                break c;
                            }
                        };
                        let cut = (cuts && rng.chance(1, 2)).then(|| rng.below(6) as u32);
                        (c, cut)
                    })
                    .collect();
                (
                    What::Client {
                        calls,
                        local,
                        keep,
                        raw,
                    },
                    if deep { 160 } else { 80 },
                )
            }
            _ => {
                let lines = (0..rng.range(1, 6)).map(|_| cli::line(rng, &ks)).filter(|l| l.len() < 600 && !l.contains(&b'\n')).collect();
                (What::Terminal { lines }, if deep { 200 } else { 100 })
            }
        };
        (serde_json::to_value(Plan { rounds, what }).unwrap(), cfg)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: Plan = serde_json::from_value(plan.clone()).ok()?;
        if plan.rounds < 10 || plan.rounds > 5000 {
            return None;
        }
        match &plan.what {
            What::Engine { threads, .. } => {
                if threads.is_empty() || threads.len() > 4 {
                    return None;
                }
                for o in threads.iter().flatten() {
                    if let EOp::Req(r) = o {
                        if engine::bad_req(r) {
                            return None;
                        }
                    }
                }
            }
            What::Server { conns } => {
                for a in conns.iter().flatten() {
                    if let Act::Req(r) = a {
                        if engine::bad_req(r) {
                            return None;
                        }
                    }
                }
            }
            What::Client { .. } => {}
            What::Terminal { lines } => {
                if lines.iter().any(|l| l.contains(&b'\n')) {
                    return None;
                }
            }
        }
        Some(simcore::run(cfg, move || endure(plan)))
    }
}

/// What a process holds.
#[derive(Clone, Copy, Debug)]
struct Held {
    bytes: isize,
    tasks: usize,
    conns: usize,
}
fn held(p: Pid) -> Held {
    Held {
        bytes: alloc::live_of(p),
        tasks: simcore::alive_tasks(p),
        conns: net::open_ends(p),
    }
}

/// Three stretches, of which the first doesn't count and the last one is only made when
/// the second one shows growth: a limit somewhere is reached by then.
fn stretches(rounds: u32, pids: &[(Pid, &str)], mut round: impl FnMut(u32) -> bool, mut rest: impl FnMut()) {
    let warm = rounds * 2 / 5;
    let mut r = 0;
    let mut go = |to: u32, rest: &mut dyn FnMut()| -> Option<Vec<Held>> {
        while r < to {
            if !round(r) {
                return None;
            }
            r += 1;
        }
        rest();
        simcore::panics().is_empty().then(|| pids.iter().map(|p| held(p.0)).collect())
    };
    let Some(a) = go(warm, &mut rest) else { return };
    let Some(b) = go(rounds, &mut rest) else { return };
    tally("rounds", rounds as u64);
    let grew = |x: &Held, y: &Held, k: isize| {
        y.bytes - x.bytes > k * CREEP || y.tasks > x.tasks + 3 * k as usize || y.conns > x.conns + 3 * k as usize
    };
    if !a.iter().zip(&b).any(|(x, y)| grew(x, y, 1)) {
        return;
    }
    tally("growth looked into", 1);
    let Some(c) = go(3 * rounds, &mut rest) else { return };
    let still = |i: usize| grew(&a[i], &b[i], 1) && grew(&b[i], &c[i], 2);
    if !(0..pids.len()).any(still) {
        return;
    }
    // a table that doubles now and then looks like this, too, but not for ever
    let Some(d) = go(7 * rounds, &mut rest) else { return };
    let still = |i: usize| still(i) && grew(&c[i], &d[i], 4);
    if !(0..pids.len()).any(still) {
        return;
    }
    let Some(e) = go(15 * rounds, &mut rest) else { return };
    for (i, (_, name)) in pids.iter().enumerate() {
        if still(i) && grew(&d[i], &e[i], 8) {
            let h = [a[i], b[i], c[i], d[i], e[i]];
            report(
                format!("piling up in {}", name),
                format!(
                    "after {}, {}, {}, {} and {} rounds that undo what they do it holds {:?} bytes; {:?} tasks; {:?} connections",
                    warm,
                    rounds,
                    3 * rounds,
                    7 * rounds,
                    15 * rounds,
                    h.map(|h| h.bytes),
                    h.map(|h| h.tasks),
                    h.map(|h| h.conns)
                ),
            );
        }
    }
}

fn endure(plan: Plan) {
    shape(hash_bytes(serde_json::to_string(&plan.what).unwrap().as_bytes()));
    match plan.what {
        What::Engine { threads, leave } => on_engine(plan.rounds, threads, leave),
        What::Server { conns } => on_server(plan.rounds, conns),
        What::Client {
            calls,
            local,
            keep,
            raw,
        } => on_client(plan.rounds, calls, local, keep, raw),
        What::Terminal { lines } => on_terminal(plan.rounds, lines),
    }
}

// ---- the engine ------------------------------------------------------------------

fn on_engine(rounds: u32, threads: Vec<Vec<EOp>>, leave: bool) {
    let hop = Rc::new(simcore::as_owner(SUBJECT, Hop::new));
    let threads = Rc::new(threads);
    let sid = |t: usize, r: u32, s: u8| SessionId::sim_new(r * 16 + t as u32 * 4 + s as u32);
    let kname = |r: u32, k: u8| format!("key {} of {}", k, r).into_bytes();
    // tables as large as they'll ever need to be
    simcore::as_owner(SUBJECT, || {
        for i in 0..64u32 {
            let k = format!("warm {}", i).into_bytes();
            engine::dispatch(&hop, &gen::req(SET, Some(T_STR), &[&k, b"x"]));
            hop.pubsub().subscribe(k, SessionId::sim_new(u32::MAX - i));
            hop.pubsub().subscribe(b"warm".to_vec(), SessionId::sim_new(u32::MAX - i));
        }
        let ids: Vec<u32> = (0..64).map(|_| *hop.sessions().clone().add([1; 32]).key()).collect();
        for i in ids {
            hop.sessions().remove(i);
        }
        for i in 0..64u32 {
            let k = format!("warm {}", i).into_bytes();
            engine::dispatch(&hop, &gen::req(DELETE, None, &[&k]));
            hop.pubsub().unsubscribe(&k, SessionId::sim_new(u32::MAX - i));
            hop.pubsub().remove_session(SessionId::sim_new(u32::MAX - i));
        }
    });
    let work = move |hop: &Hop, ops: &[EOp], t: usize, r: u32| {
        for o in ops {
            match o {
                EOp::Req(q) => {
                    let q = simcore::as_owner(0, || of_round(q, r));
                    engine::dispatch(hop, &q);
                    simcore::as_owner(0, || drop(q));
                }
                EOp::Sub(s, k) => {
                    hop.pubsub().subscribe(kname(r, *k), sid(t, r, *s));
                }
                EOp::Unsub(s, k) => {
                    hop.pubsub().unsubscribe(&kname(r, *k), sid(t, r, *s));
                }
                EOp::Leave(s) => {
                    hop.pubsub().remove_session(sid(t, r, *s));
                }
                EOp::Look(s, k) => {
                    hop.pubsub().get(&kname(r, *k), sid(t, r, *s));
                }
                EOp::Session => {
                    let id = *hop.sessions().clone().add([7; 32]).key();
                    hop.sessions().remove(id);
                }
                EOp::Clone => {
                    let h = hop.clone();
                    let _ = (h.pubsub().clone(), h.sessions().clone(), h.metrics());
                }
            }
        }
    };
    let h2 = hop.clone();
    stretches(
        rounds,
        &[(SUBJECT, "the engine")],
        move |r| {
            if threads.len() == 1 {
                simcore::as_owner(SUBJECT, || work(&h2, &threads[0], 0, r));
            } else {
                let hs: Vec<_> = (0..threads.len())
                    .map(|t| {
                        let (hop, threads) = (h2.clone(), threads.clone());
                        simcore::spawn_in(SUBJECT, "thread", move || work(&hop, &threads[t], t, r))
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
            }
            if !simcore::panics().is_empty() {
                return false;
            }
            // undo
            let mut qs: Vec<Req> = vec![];
            for (t, ops) in threads.iter().enumerate() {
                for o in ops {
                    match o {
                        EOp::Req(q) => qs.push(of_round(q, r)),
                        EOp::Sub(s, k) => {
                            simcore::as_owner(SUBJECT, || {
                                if leave {
                                    h2.pubsub().remove_session(sid(t, r, *s));
                                } else {
                                    h2.pubsub().unsubscribe(&kname(r, *k), sid(t, r, *s));
                                }
                            });
                        }
                        _ => {}
                    }
                }
            }
            for q in deletes(&qs) {
                simcore::as_owner(SUBJECT, || engine::dispatch(&h2, &q).is_some());
            }
            simcore::panics().is_empty()
        },
        || {},
    );
    tally("engines endured", 1);
    // it goes with its last handle
    let before = held(SUBJECT).bytes;
    let Ok(last) = Rc::try_unwrap(hop) else { return };
    drop(last);
    let left = held(SUBJECT).bytes;
    if left > SLACK {
        report(
            "left behind by an engine",
            format!("{} bytes were in use when the last handle was dropped, {} afterwards", before, left),
        );
    }
}

// ---- the server ------------------------------------------------------------------

fn quiesce(base: usize) {
    let mut nap = 1_000_000;
    let end = simcore::now() + 900_000_000_000;
    while (simcore::alive_tasks(SERVER) > base || net::open_ends(SERVER) > 0) && simcore::now() < end {
        simcore::block_on(simcore::sleep(nap));
        nap = (nap * 2).min(10_000_000_000);
    }
}

/// Undo what was asked of the server.
fn clean(qs: &[Req]) -> bool {
    simcore::set_faults(false);
    let mut acts: Vec<Act> = deletes(qs).into_iter().map(Act::Req).collect();
    acts.push(Act::Send(vec![]));
    acts.push(Act::Await);
    let c = simcore::spawn_future_in(CLEANER, "cleaner", netx::script(acts)).join();
    simcore::set_faults(true);
    match c {
        Ok(c) => {
            let c = c.borrow();
            if !c.connected || c.unanswered {
                report("not served", "the server doesn't answer a well-behaved connection");
                return false;
            }
            simcore::panics().is_empty()
        }
        Err(_) => false,
    }
}

/// The server's tables as large as they'll ever need to be.
fn warm_server() {
    let mut acts = vec![];
    for cmd in [SET, DELETE] {
        for n in 0..64 {
            let k = format!("warm-up {}", n).into_bytes();
            acts.push(Act::Req(if cmd == SET { gen::req(SET, Some(T_STR), &[&k, b"x"]) } else { gen::req(DELETE, None, &[&k]) }));
        }
        acts.extend([Act::Send(vec![]), Act::Await]);
    }
    simcore::set_faults(false);
    let _ = simcore::spawn_future_in(CLEANER, "cleaner", netx::script(acts)).join();
    simcore::set_faults(true);
}

fn on_server(rounds: u32, conns: Vec<Vec<Act>>) {
    let srv = server::start_server();
    let base = simcore::alive_tasks(SERVER);
    warm_server();
    // some connections at once
    let hs: Vec<_> = (0..6)
        .map(|i| {
            let mut acts: Vec<Act> = (0..5)
                .map(|n| Act::Req(gen::req(SET, Some(T_STR), &[format!("warm {}.{}", i, n).as_bytes(), b"x"])))
                .collect();
            acts.extend([Act::Send(vec![]), Act::Await]);
            simcore::spawn_future_in(10 + i, "early client", netx::script(acts))
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    stretches(
        rounds,
        &[(SERVER, "the server")],
        |r| {
            let hs: Vec<_> = conns
                .iter()
                .enumerate()
                .map(|(i, acts)| {
                    let acts = acts
                        .iter()
                        .map(|a| match a {
                            Act::Req(q) => Act::Req(of_round(q, r)),
                            a => a.clone(),
                        })
                        .collect();
                    simcore::spawn_future_in(10 + i as Pid, "client", netx::script(acts))
                })
                .collect();
            let mut qs = vec![];
            for h in hs {
                if let Ok(c) = h.join() {
                    qs.extend(netx::asked(&c.borrow().sent).reqs.into_iter().map(|q| q.0));
                }
            }
            if !simcore::panics().is_empty() || srv.is_finished() {
                return false;
            }
            quiesce(base);
            clean(&qs)
        },
        || quiesce(base),
    );
    tally("servers endured", 1);
    // all connections have ended by now
    let h = held(SERVER);
    if simcore::panics().is_empty() && h.conns > 0 {
        report(
            "connection kept",
            format!("{} ended connections are still held by the server 900 s later", h.conns),
        );
    }
}

// ---- clients ---------------------------------------------------------------------

async fn calls<B>(on: client::Caller<B>, ks: Rc<Vec<(Call, Option<u32>)>>)
where
    B: hop::backend::Backend + 'static,
    B::Error: client::Wrap,
{
    for (k, cut) in ks.iter() {
        let f = client::call(on.clone(), k.clone());
        match cut {
            None => {
                let _ = f.await;
            }
            Some(n) => {
                let _ = client::cut(f, *n).await;
            }
        }
    }
}

fn on_client(rounds: u32, ks: Vec<(Call, Option<u32>)>, local: bool, keep: bool, raw: bool) {
    let ks = Rc::new(ks);
    let qs: Vec<Req> = ks.iter().map(|k| k.0.req.clone()).collect();
    if local {
        let (c, dispose) = simcore::as_owner(SUBJECT, || {
            let c = Arc::new(Client::memory());
            (c.clone(), c)
        });
        let w = c.clone();
        let h = simcore::spawn_future_in(SUBJECT, "program", async move {
            for n in 0..128 {
                let k = format!("warm-up {}", n % 64).into_bytes();
                let req = if n < 64 { gen::req(SET, Some(T_STR), &[&k, b"x"]) } else { gen::req(DELETE, None, &[&k]) };
                let _ = client::call(client::Caller::Client(w.clone()), Call { req, alt: false, pad: 0 }).await;
            }
        });
        let _ = h.join();
        stretches(
            rounds,
            &[(SUBJECT, "the in-process client")],
            |_| {
                let (c, ks, qs) = (c.clone(), ks.clone(), qs.clone());
                let h = simcore::spawn_future_in(SUBJECT, "program", async move {
                    calls(client::Caller::Client(c.clone()), ks).await;
                    for q in deletes(&qs) {
                        let k = Call { req: q, alt: false, pad: 0 };
                        let _ = client::call(client::Caller::Client(c.clone()), k).await;
                    }
                });
                h.join().is_ok()
            },
            || {},
        );
        tally("in-process clients endured", 1);
        drop(c);
        let before = held(SUBJECT).bytes;
        drop(dispose);
        let left = held(SUBJECT).bytes;
        if simcore::panics().is_empty() && left > SLACK {
            report(
                "left behind by a client",
                format!("{} bytes were in use when it was dropped, {} afterwards", before, left),
            );
        }
        return;
    }
    let _srv = server::start_server();
    let base = simcore::alive_tasks(SERVER);
    warm_server();
    let kept: Rc<RefCell<Option<client::Caller<hop::backend::ServerBackend>>>> = Default::default();
    stretches(
        rounds,
        &[(SUBJECT, "the client"), (SERVER, "the server")],
        |_| {
            let (ks, kept) = (ks.clone(), kept.clone());
            let h = simcore::spawn_future_in(SUBJECT, "program", async move {
                let old = kept.borrow_mut().take();
                let c = match old {
                    Some(c) => c,
                    None => match client::connect(raw).await {
                        Ok(c) => c,
                        Err(_) => return,
                    },
                };
                calls(c.clone(), ks).await;
                if keep {
                    *kept.borrow_mut() = Some(c);
                }
            });
            if h.join().is_err() || !simcore::panics().is_empty() {
                return false;
            }
            if !keep {
                quiesce(base);
            }
            clean(&qs)
        },
        || {
            let n = kept.borrow().is_some() as usize;
            if n == 0 {
                quiesce(base)
            } else {
                simcore::block_on(simcore::sleep(10_000_000_000));
            }
        },
    );
    tally("networked clients endured", 1);
    let last = kept.borrow_mut().take();
    simcore::as_owner(SUBJECT, || drop(last));
    simcore::block_on(simcore::sleep(1_000_000_000));
    let h = held(SUBJECT);
    if simcore::panics().is_empty() && (h.conns > 0 || h.tasks > 0) {
        report(
            "left behind by a client",
            format!("after all clients were dropped {} connections and {} tasks remain", h.conns, h.tasks),
        );
    }
}

// ---- the command line -------------------------------------------------------------

fn on_terminal(rounds: u32, mut lines: Vec<Bs>) {
    // of which it can be said how to undo them
    let meant = |l: &Bs| -> Option<Req> { cli::meaning(std::str::from_utf8(l).ok()?.trim_end()).ok().map(|m| m.0) };
    let plain = |k: &Bs| !k.is_empty() && k.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'@');
    lines.retain(|l| meant(l).map_or(true, |q| keys_of(&q).into_iter().all(plain)));
    let qs: Vec<Req> = lines.iter().filter_map(meant).collect();
    let h = simcore::process(CLI, "command line client", hop_cli_bin::main);
    for what in ["set:str", "delete"] {
        for n in 0..64 {
            stdio::type_in(CLI, format!("{} warm{}{}\n", what, n, if what == "delete" { "" } else { " x" }).as_bytes());
        }
    }
    stretches(
        rounds,
        &[(CLI, "the command line client")],
        |_| {
            for l in &lines {
                stdio::type_in(CLI, l);
                stdio::type_in(CLI, b"\n");
            }
            for q in deletes(&qs) {
                stdio::type_in(CLI, b"delete ");
                stdio::type_in(CLI, &q.args[0]);
                stdio::type_in(CLI, b"\n");
            }
            cli::settle(&h) && simcore::panics().is_empty()
        },
        || {},
    );
    tally("command line sessions endured", 1);
    stdio::close_input(CLI);
    let _ = h.join();
}
