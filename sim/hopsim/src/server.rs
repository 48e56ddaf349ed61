//! The real server binary's code on the simulated network, with well-behaved and
//! badly behaved connections.
use crate::{
    fw::{self, base_cfg, report, shape, tally, Family},
    gen, hx, lin,
    lin::HOp,
    model::*,
    netx::{self, asked, Act, Conn, Gone, SERVER},
    wire,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{net, rng::Rng, Config, Fault, Outcome};
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Serialize, Deserialize)]
struct Plan {
    /// scripts of connections; each entry is a client that opens one after the other
    clients: Vec<Vec<Vec<Act>>>,
}

pub struct Server;

pub fn cuts(rng: &mut Rng) -> Vec<u32> {
    let n = rng.below(12);
    match rng.below(6) {
        0 | 1 => vec![],
        2 => vec![1; n as usize * 3],
        3 => (0..n).map(|_| rng.range(1, 6) as u32).collect(),
        4 => vec![1024, 1024, 1024],
        _ => (0..n).map(|_| rng.range(1, 1500) as u32).collect(),
    }
}

/// A request that says who sent it.
pub fn tagged(rng: &mut Rng, ks: &[Bs], tag: &str, big: bool) -> Req {
    if rng.chance(1, 4) {
        let mut args: Vec<Bs> = (0..rng.range(1, 3)).map(|i| format!("{}.{}", tag, i).into_bytes()).collect();
        if big && rng.chance(1, 2) {
            let n = *rng.pick(&[900usize, 1000, 1009, 1010, 1011, 1012, 1023, 1024, 1025, 2100, 5000]);
            args.push(vec![*rng.pick(b"##\0\xff\x01"); n]);
        }
        if rng.chance(1, 6) {
            // an argument that looks like requests
            args.push(encode(&gen::req(DELETE, None, &[&ks[0]])));
        }
        if rng.chance(1, 10) {
            args.push(vec![]);
        }
        return Req { cmd: ECHO, kt: None, args };
    }
    match rng.below(10) {
        0 => gen::wild(rng, ks),
        1 => gen::req(STATS, None, &[]),
        _ => {
            let mut r = gen::plain(rng, ks, &ALL);
            if r.cmd == SET && r.kt == Some(T_BYTES) {
                r.args[1] = tag.as_bytes().to_vec();
                if big && rng.chance(1, 4) {
                    r.args[1] = vec![*rng.pick(b"%%\0\xff"); rng.range(900, 3000) as usize];
                }
            }
            r
        }
    }
}

/// A script; `evil` ones break the rules at some point.
pub fn conn(rng: &mut Rng, ks: &[Bs], tag: &str, evil: bool, deep: bool) -> Vec<Act> {
    let mut acts = vec![];
    if rng.chance(1, 3) {
        acts.push(Act::Sleep(rng.below(3000) as u32));
    }
    let rounds = rng.range(1, if deep { 5 } else { 3 });
    for round in 0..rounds {
        let n = if rng.chance(1, 3) { rng.range(2, 6) } else { rng.range(1, 2) };
        for i in 0..n {
            let t = format!("{}/{}/{}", tag, round, i);
            let big = rng.chance(1, 5);
            acts.push(Act::Req(tagged(rng, ks, &t, big)));
        }
        if evil && rng.chance(1, 2) {
            match rng.below(9) {
                0 => acts.push(Act::Raw(wire::junk_request(rng))),
                1 => {
                    // a good request that never ends
                    let mut b = encode(&gen::plain(rng, ks, &ALL));
                    b.pop();
                    acts.push(Act::Raw(b));
                    acts.push(Act::Send(cuts(rng)));
                    acts.push(match rng.below(3) {
                        0 => Act::Fin,
                        1 => Act::Drop,
                        _ => Act::Sleep(rng.below(100_000) as u32),
                    });
                }
                2 => {
                    // promises far more than it sends
                    let mut b = vec![*rng.pick(&[SET, ECHO, APPEND, GET]), *rng.pick(&[1u8, 2, 255])];
                    let n = *rng.pick(&[u32::MAX, u32::MAX - 3, 1 << 31, 1 << 30, 1 << 28, 1 << 26, 48 << 20]);
                    b.extend((n - rng.below(2) as u32).to_be_bytes());
                    b.extend(b"abc");
                    acts.push(Act::Raw(b));
                }
                3 => {
                    acts.push(Act::Send(cuts(rng)));
                    acts.push(Act::Reset(rng.chance(1, 2)));
                }
                4 => {
                    acts.push(Act::Send(cuts(rng)));
                    acts.push(Act::Drop);
                }
                5 => {
                    acts.push(Act::Send(cuts(rng)));
                    acts.push(Act::Fin);
                }
                6 => acts.push(Act::Deaf(rng.below(5000) as u32)),
                7 => acts.push(Act::Raw(vec![*rng.pick(&[0x7fu8, 0xff, 4, 9, 99, 102, 130])])),
                _ => {
                    let n = rng.range(1, 9) as usize;
                    acts.push(Act::Raw(rng.bytes(n)))
                }
            }
        } else if rng.chance(1, 12) {
            acts.push(Act::Deaf(rng.below(50) as u32));
        }
        acts.push(Act::Send(cuts(rng)));
        match rng.below(4) {
            0 => acts.push(Act::Await),
            1 => acts.push(Act::Sleep(rng.below(2000) as u32)),
            _ => {}
        }
    }
    if rng.chance(1, 8) {
        acts.push(Act::Fin);
    }
    acts
}

pub const SIZES: [usize; 16] = [
    1022, 1023, 1024, 1025, 2048, 4096, 8191, 8192, 8193, 16_384, 65_535, 65_536, 65_537, 100_000, 300_000, 1 << 20,
];

/// Much of something: requests at a time, bytes, connections, or time.
fn volume(rng: &mut Rng, ks: &[Bs], clients: &mut Vec<Vec<Vec<Act>>>, hostile: bool) {
    match rng.below(5) {
        0 => {
            // a long pipeline on keys of its own
            let n = match rng.below(24) {
                0 => 66_000,
                1 | 2 => 17_000,
                _ => *rng.pick(&[40u64, 100, 255, 256, 257, 500, 1000, 2000]),
            };
            let own: Vec<Bs> = vec![b"i:own".to_vec(), b"l:own".to_vec(), b"b:own".to_vec()];
            let mut acts = vec![];
            for i in 0..n {
                acts.push(Act::Req(match rng.below(8) {
                    0 => tagged(rng, &own, &format!("own/{}", i), false),
                    1 | 2 => gen::req(INC, None, &[&own[0]]),
                    3 if i % 16 == 0 => gen::req(APPEND, Some(T_LIST), &[&own[1], i.to_string().as_bytes()]),
                    4 => gen::req(SET, Some(T_BYTES), &[&own[2], i.to_string().as_bytes()]),
                    5 => gen::req(GET, None, &[&own[2]]),
                    _ => gen::req(ECHO, None, &[i.to_string().as_bytes()]),
                }));
                if rng.chance(1, 200) {
                    acts.push(Act::Send(cuts(rng)));
                }
            }
            acts.push(Act::Send(cuts(rng)));
            clients.push(vec![acts]);
        }
        1 => {
            // big arguments, and answers
            let mut acts = vec![];
            let key = b"b:big".to_vec();
            for i in 0..rng.range(1, 4) {
                let n = if rng.chance(1, 12) { *rng.pick(&[(1 << 20) + 1, (4 << 20) + 1, 5 << 20]) } else { *rng.pick(&SIZES) };
                let fill = if rng.chance(1, 4) { *rng.pick(b"\0\xff") } else { b'0' + i as u8 };
                let body = vec![fill; n];
                acts.push(Act::Req(match rng.below(4) {
                    0 => gen::req(ECHO, None, &[&body, b"end"]),
                    1 => gen::req(APPEND, Some(T_BYTES), &[&key, &body]),
                    _ => gen::req(SET, Some(T_BYTES), &[&key, &body]),
                }));
                if rng.chance(2, 3) {
                    acts.push(Act::Req(gen::req(GET, None, &[&key])));
                }
                if rng.chance(1, 2) {
                    acts.push(Act::Req(gen::req(LENGTH, None, &[&key])));
                }
                if rng.chance(1, 2) {
                    acts.push(Act::Send(cuts(rng)));
                }
            }
            acts.push(Act::Send(cuts(rng)));
            clients.push(vec![acts]);
        }
        2 => {
            // many connections at once
            for c in 0..if rng.chance(1, 10) { 1030 } else { *rng.pick(&[10u64, 20, 60, 130, 260]) } {
                let mut acts = vec![];
                for i in 0..rng.range(1, 2) {
                    acts.push(Act::Req(gen::req(ECHO, None, &[format!("{}:{}", c, i).as_bytes()])));
                }
                acts.push(Act::Send(cuts(rng)));
                if rng.chance(1, 4) {
                    acts.push(Act::Sleep(rng.below(1 << 20) as u32));
                    acts.push(Act::Req(gen::req(INC, None, &[b"i:mine"])));
                }
                clients.push(vec![acts]);
            }
        }
        3 => {
            // many connections, one after the other
            let mut conns = vec![];
            for c in 0..if rng.chance(1, 10) { 1030 } else { *rng.pick(&[10u64, 20, 60, 130, 260]) } {
                let evil = hostile && rng.chance(2, 3);
                let mut acts = if evil {
                    conn(rng, ks, &format!("many{}", c), true, false)
                } else {
                    vec![Act::Req(gen::req(ECHO, None, &[c.to_string().as_bytes()])), Act::Send(cuts(rng))]
                };
                if rng.chance(1, 5) {
                    acts.push(Act::Fin);
                }
                conns.push(acts);
            }
            clients.push(conns);
        }
        _ => {
            // much time between requests
            let mut acts = vec![];
            for i in 0..rng.range(2, 4) {
                acts.push(Act::Req(gen::req(ECHO, None, &[format!("late{}", i).as_bytes()])));
                acts.push(Act::Send(cuts(rng)));
                acts.push(match rng.below(3) {
                    0 => Act::Deaf(rng.below(3_000_000) as u32),
                    _ => Act::Sleep(rng.below(u32::MAX as u64) as u32),
                });
            }
            clients.push(vec![acts]);
        }
    }
}

impl Family for Server {
    fn name(&self) -> &'static str {
        "server"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-server main.rs; hop-engine (commands, state, request decoder, response encoder); dashmap map code; hop metrics; tokio 0.2 io-util, stream, sync",
            "TCP network, tokio runtime and scheduler, timers, dashmap's shard lock (simulated); env_logger (silent); raw clients (harness)",
        )
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 4) as usize;
        let ks = gen::keys(rng, nk);
        let nc = rng.range(1, if deep { 6 } else { 4 });
        let hostile = matches!(prop, "C08" | "C17");
        let mut clients = vec![];
        for c in 0..nc {
            let evil = if hostile { c > 0 || rng.chance(1, 2) } else { rng.chance(1, 10) };
            let mut conns = vec![];
            for k in 0..if evil { rng.range(1, 3) } else { rng.range(1, 2) } {
                conns.push(conn(rng, &ks, &format!("{}.{}", c, k), evil, deep));
            }
            clients.push(conns);
        }
        let mut c = base_cfg(rng, 400);
        c.max_steps = 3_000_000;
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
            if rng.chance(1, 2) {
                c.rates[f as usize] = *rng.pick(&[10u16, 50, 200, 600]);
            }
        }
        if rng.chance(1, 4) {
            c.rates[Fault::Stall as usize] = 10;
        }
        if rng.chance(if hostile { 2 } else { 1 }, 5) {
            for f in [Fault::Reset, Fault::AcceptErr, Fault::PeerAddrErr, Fault::ReadErr, Fault::WriteErr] {
                if rng.chance(1, 2) {
                    c.rates[f as usize] = match f {
                        Fault::AcceptErr => *rng.pick(&[100u16, 300, 800, 980]),
                        Fault::PeerAddrErr => *rng.pick(&[100u16, 300]),
                        _ => *rng.pick(&[2u16, 10, 30]),
                    };
                }
            }
        }
        c.window = *rng.pick(&[1 << 16, 1 << 16, 4096, 300, 40, 7]);
        if rng.chance(1, if deep { 15 } else { 40 }) {
            clients.truncate(2);
            volume(rng, &ks, &mut clients, hostile);
            c.window = *rng.pick(&[1 << 16, 4096]);
            c.max_steps = 10_000_000;
            for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
                c.rates[f as usize] = c.rates[f as usize].min(20);
            }
        }
        (serde_json::to_value(Plan { clients }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: Plan = serde_json::from_value(plan.clone()).ok()?;
        for a in plan.clients.iter().flatten().flatten() {
            if let Act::Req(r) = a {
                if crate::engine::bad_req(r) {
                    return None;
                }
            }
        }
        Some(simcore::run(cfg, move || server(plan)))
    }
}

/// Start the server in its own process and wait until it listens.
pub fn start_server() -> simcore::JoinHandle<Result<(), String>> {
    let h = simcore::process(SERVER, "server", hop_server::main);
    for _ in 0..10_000 {
        if net::listening(netx::PORT) || h.is_finished() {
            break;
        }
        simcore::block_on(simcore::sleep(10_000));
    }
    h
}

/// Judge one connection; its operations go to `hist`.
pub fn judge(c: &Conn, who: usize, hist: &mut Vec<HOp>, counts: &mut Counts) {
    if !c.connected {
        return;
    }
    let a = asked(&c.sent);
    let broken = net::faulted(c.id);
    let clean = !broken && !c.abandoned;
    let name = || format!("connection {}", who);
    if let Some(b) = &c.bad {
        report("malformed response", format!("{}: {}", name(), b));
        return;
    }
    for (i, (w, _)) in c.answers.iter().enumerate() {
        match (a.reqs.get(i), w) {
            (Some((r, _)), WResp::Parse(e)) => {
                report(
                    "wrong answer",
                    format!("{}: {:?} is answered by parse error {}", name(), r, e),
                );
                return;
            }
            (Some(_), _) => {}
            (None, w) => {
                let first = i == a.reqs.len();
                match (a.bad, w) {
                    (Some((code, _)), WResp::Parse(e)) if first => {
                        if *e != code {
                            report(
                                "wrong answer",
                                format!("{}: parse error {} instead of {}", name(), e, code),
                            );
                            return;
                        }
                        counts.parse += 1;
                    }
                    _ => {
                        report(
                            "unasked response",
                            format!("{}: response {} to {} requests: {:?}", name(), i + 1, a.reqs.len(), w),
                        );
                        return;
                    }
                }
            }
        }
    }
    for (i, (r, end)) in a.reqs.iter().enumerate() {
        let ans = c.answers.get(i);
        hist.push(HOp {
            client: who,
            inv: c.sent_at(*end),
            ret: ans.map(|a| a.1),
            req: r.clone(),
            resp: ans.and_then(|a| a.0.as_result()),
            ordered: true,
        });
        match ans.and_then(|a| a.0.as_result()) {
            Some(Ok(_)) => counts.good += 1,
            Some(Err(_)) => counts.bad += 1,
            None => counts.unknown += 1,
        }
    }
    let total = a.reqs.len() + a.bad.is_some() as usize;
    if clean && c.answers.len() < total {
        // an error answer can be lost to the reset that closing with unread input causes
        let lost = a.bad.is_some() && c.gone == Some(Gone::Error);
        if !lost {
            let i = c.answers.len();
            report(
                "request not answered",
                format!(
                    "{}: {} of {} complete requests were answered ({}); first without: {}",
                    name(),
                    i,
                    total,
                    match c.gone {
                        None => "and the connection stays silent",
                        Some(Gone::Eof) => "and the connection was closed",
                        Some(Gone::Error) => "and the connection was reset",
                    },
                    a.reqs.get(i).map_or("invalid input".into(), |r| format!("{:?}", r.0)),
                ),
            );
            return;
        }
    }
    if clean && a.bad.is_none() && c.gone == Some(Gone::Eof) && !c.rest.is_empty() {
        report(
            "truncated response",
            format!("{}: the connection was closed within a response: {}", name(), hx::show(&c.rest)),
        );
        return;
    }
    if clean && a.bad.is_none() && !c.rest.is_empty() {
        report("unasked bytes", format!("{}: {} after the last response", name(), hx::show(&c.rest)));
        return;
    }
    if clean && a.bad.is_none() && !c.fin && c.gone.is_some() {
        report(
            "connection dropped",
            format!("{}: the server ended a connection that did nothing wrong", name()),
        );
        return;
    }
    if clean && a.bad.is_none() && c.gone == Some(Gone::Error) && a.tail == 0 {
        report(
            "connection dropped",
            format!("{}: the server reset a connection that did nothing wrong", name()),
        );
        return;
    }
    if clean && c.gone.is_none() && c.fin {
        report(
            "connection never closed",
            format!("{}: an hour after the client's end the server still holds the connection", name()),
        );
    }
    for (w, _) in &c.answers {
        shape(fw::hash_bytes(format!("{:?}", w).as_bytes()));
    }
    tally("responses received", c.answers.len() as u64);
    if broken {
        tally("connections broken by faults", 1)
    }
    if a.bad.is_some() {
        tally("connections with invalid input", 1)
    }
    if a.tail > 0 && a.bad.is_none() {
        tally("connections ending within a request", 1)
    }
}

#[derive(Default)]
pub struct Counts {
    pub good: i64,
    pub bad: i64,
    pub unknown: i64,
    pub parse: i64,
}

fn server(plan: Plan) {
    // what the clients mean to send lies in memory too
    let planned: u64 = plan
        .clients
        .iter()
        .flatten()
        .flatten()
        .map(|a| match a {
            Act::Req(r) => 64 + r.args.iter().map(|a| a.len() as u64 + 64).sum::<u64>(),
            Act::Raw(b) => b.len() as u64,
            _ => 0,
        })
        .sum();
    let before = crate::alloc::mark();
    let srv = start_server();
    let mut hs = vec![];
    let all: Rc<RefCell<Vec<Rc<RefCell<Conn>>>>> = Default::default();
    for (i, conns) in plan.clients.into_iter().enumerate() {
        let all = all.clone();
        hs.push(simcore::spawn_in(10 + i as u32, format!("client {}", i), move || {
            for acts in conns {
                let c = simcore::block_on(netx::script(acts));
                all.borrow_mut().push(c);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    simcore::set_faults(false);
    if srv.is_finished() {
        let r = srv.join();
        report(
            "server ended",
            format!("the server's main function returned: {:?}", r.map_err(|_| "panic")),
        );
        return;
    }
    // memory: simulated tasks and connections, what was sent and answered a few times over
    let used = (crate::alloc::peak() - before).max(0) as u64;
    let bytes = planned + all.borrow().iter().map(|c| c.borrow().received).sum::<u64>();
    let fair = (3 << 20) + 100_000 * all.borrow().len() as u64 + 16 * bytes;
    if used > fair {
        report(
            "memory",
            format!("{} bytes were allocated for {} bytes of requests and responses", used, bytes),
        );
    }
    let mut hist = vec![];
    let mut counts = Counts::default();
    let conns = all.borrow().iter().cloned().collect::<Vec<_>>();
    for (i, c) in conns.iter().enumerate() {
        judge(&c.borrow(), i, &mut hist, &mut counts);
    }
    // the server still works, and holds what it should
    let mut names: Vec<Bs> = hist.iter().flat_map(|o| keys_of(&o.req)).cloned().collect();
    names.retain(|k| !k.is_empty() && !k.starts_with(b"__hop__:") && k.len() < 1 << 16);
    names.sort();
    names.dedup();
    let mut acts = vec![Act::Req(gen::req(STATS, None, &[])), Act::Send(vec![]), Act::Await];
    for k in &names {
        acts.push(Act::Req(gen::req(GET, None, &[k])));
    }
    acts.push(Act::Req(gen::req(ECHO, None, &[b"still", b"there"])));
    let c = simcore::block_on(netx::script(acts));
    let c = c.borrow();
    if !c.connected {
        report("server unavailable", "a new connection was refused");
        return;
    }
    let mut final_counts = Counts::default();
    judge(&c, conns.len(), &mut hist, &mut final_counts);
    if let Some((WResp::Val(MVal::Map(m)), _)) = c.answers.first() {
        let (g, b) = (
            crate::engine::stat(m, "commands_successful"),
            crate::engine::stat(m, "commands_errored"),
        );
        // requests that were never answered, and ones after what a client was told, may count
        let lo = (counts.good, counts.bad);
        let hi = (counts.good + counts.unknown, counts.bad + counts.unknown);
        if g < lo.0 || g > hi.0 || b < lo.1 || b > hi.1 || g + b > counts.good + counts.bad + counts.unknown {
            report(
                "statistics",
                format!(
                    "{} successes and {} failures were answered, {} requests got no answer; the statistics say {} and {}",
                    counts.good, counts.bad, counts.unknown, g, b
                ),
            );
        }
    }
    tally("requests", hist.len() as u64);
    tally("connections", conns.len() as u64);
    match lin::check(&Db::new(), &hist, 100_000) {
        lin::Lin::Ok => tally("histories linearized", 1),
        lin::Lin::Unknown => tally("histories too large to decide", 1),
        lin::Lin::Bad(d) => report("not linearizable", d),
    }
}
