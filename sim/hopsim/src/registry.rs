//! The session manager, the subscription registry and the metrics under many threads.
use crate::{
    fw::{self, base_cfg, report, shape, tally, Family},
    lin::{self, Ev, Lin},
};
use hop_engine::{
    metrics::Metric,
    pubsub::{KeyUpdate, Subscription},
    session::SessionId,
    Hop,
};
use hop_internal_metrics::{Metrics, Reader, Snapshot};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{rng::Rng, Config, Outcome};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    future::Future,
    rc::Rc,
    sync::{Arc, Weak},
    task::{Context, Poll},
};

const BUDGET: usize = 60_000;

fn judge<S, O>(what: &str, init: S, ops: &[Ev<O>], step: impl Fn(&S, &O) -> Option<S>)
where
    S: Clone + Eq + std::hash::Hash + std::fmt::Debug,
    O: std::fmt::Debug,
{
    match lin::explains(init, ops, BUDGET, step) {
        Lin::Ok => tally("histories explained", 1),
        Lin::Unknown => tally("histories too long to decide", 1),
        Lin::Bad(why) => report("not linearizable", format!("{}: {}", what, why)),
    }
}

fn pauses(rng: &mut Rng) -> u8 {
    if rng.chance(1, 3) {
        rng.below(4) as u8
    } else {
        0
    }
}
fn pause(n: u8) {
    for _ in 0..n.min(20) {
        simcore::yield_point();
    }
}

// ---- sessions ----------------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
enum SOp {
    /// add a session, keep the reference for so many steps
    #[serde(rename = "add")]
    Add(u8),
    /// remove the n-th of the sessions this thread added
    #[serde(rename = "remove_own")]
    RemoveOwn(u8),
    /// remove whatever has this identifier
    #[serde(rename = "remove")]
    Remove(u32),
    /// read the statistics
    #[serde(rename = "read")]
    Read,
}

#[derive(Clone, Serialize, Deserialize)]
struct SessionPlan {
    /// sessions added (and mostly removed again) beforehand
    before: u32,
    threads: Vec<Vec<SOp>>,
}

pub struct Sessions;

impl Family for Sessions {
    fn name(&self) -> &'static str {
        "sessions"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine session manager and metrics; dashmap map and entry code",
            "threads and scheduler, dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let before = match rng.below(400) {
            0 => 65_530 + rng.below(8) as u32,
            1..=8 => 250 + rng.below(8) as u32,
            _ => rng.below(4) as u32,
        };
        let threads: Vec<Vec<SOp>> = (0..rng.range(1, if deep { 6 } else { 4 }))
            .map(|_| {
                (0..rng.range(1, if deep { 10 } else { 7 }))
                    .map(|_| match rng.below(8) {
                        0..=3 => SOp::Add(pauses(rng)),
                        4 => SOp::RemoveOwn(rng.below(4) as u8),
                        5 | 6 => SOp::Remove(before + rng.below(10) as u32),
                        _ => SOp::Read,
                    })
                    .collect()
            })
            .collect();
        let n: usize = threads.iter().map(|t| t.len()).sum();
        let mut c = base_cfg(rng, n as u32 * 6);
        c.max_steps = 3_000_000;
        (serde_json::to_value(SessionPlan { before, threads }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: SessionPlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.before > 70_000 || plan.threads.len() > 20 {
            return None;
        }
        Some(simcore::run(cfg, move || sessions(plan)))
    }
}

#[derive(Clone, Debug)]
enum SEv {
    Added(u32),
    Removed(u32, bool),
}

fn token(t: usize, i: usize) -> [u8; 32] {
    let mut b = [t as u8; 32];
    b[1] = i as u8;
    b
}

fn sessions(plan: SessionPlan) {
    let hop = crate::engine::any_engine();
    let log: Rc<RefCell<Vec<Ev<SEv>>>> = Default::default();
    // (begun, finished, started, ended)
    let reads: Rc<RefCell<Vec<(u64, u64, u64, u64)>>> = Default::default();
    let count = |hop: &Hop| {
        let m = hop.metrics();
        (
            m.counter(&Metric::SessionsStarted).unwrap_or(0),
            m.counter(&Metric::SessionsEnded).unwrap_or(0),
        )
    };
    // the same, the way a user asks for it
    let asked = |hop: &Hop| {
        let m = match crate::engine::dispatch(hop, &crate::gen::req(crate::model::STATS, None, &[])) {
            Some(Ok(crate::model::MVal::Map(m))) => m,
            other => {
                report("statistics not answered", format!("{:?}", other));
                return (0, 0);
            }
        };
        let of = |name| crate::engine::stat(&m, name) as u64;
        (of("sessions_started"), of("sessions_ended"))
    };
    let mut ids = BTreeSet::new();
    let mut live = BTreeSet::new();
    {
        let mut m = hop.sessions().clone();
        for i in 0..plan.before {
            let id = *m.add([0; 32]).key();
            if !ids.insert(id) {
                return report("identifier given twice", format!("{}, to the {}th session", id, i));
            }
            if plan.before - i > 4 {
                if !m.remove(id) {
                    return report("session lost", format!("removing session {} right after adding it finds none", id));
                }
            } else {
                live.insert(id);
            }
        }
    }
    let mut hs = vec![];
    for (t, ops) in plan.threads.iter().cloned().enumerate() {
        let (hop, log, reads) = (hop.clone(), log.clone(), reads.clone());
        hs.push(simcore::spawn(format!("thread {}", t), move || {
            let mut m = hop.sessions().clone();
            let mut own = vec![];
            for (i, o) in ops.into_iter().enumerate() {
                let inv = simcore::stamp();
                match o {
                    SOp::Add(p) => {
                        let id = {
                            let s = m.add(token(t, i));
                            pause(p);
                            if s.value().id != *s.key() || s.value().client_token != token(t, i) {
                                report(
                                    "session of another",
                                    format!("thread {} added {:?} and got {}: {:?}", t, token(t, i), s.key(), s.value()),
                                );
                            }
                            *s.key()
                        };
                        own.push(id);
                        log.borrow_mut().push((inv, simcore::stamp(), SEv::Added(id)));
                    }
                    SOp::RemoveOwn(n) => {
                        if let Some(id) = own.get(n as usize % own.len().max(1)) {
                            let r = m.remove(*id);
                            log.borrow_mut().push((inv, simcore::stamp(), SEv::Removed(*id, r)));
                        }
                    }
                    SOp::Remove(id) => {
                        let r = m.remove(id);
                        log.borrow_mut().push((inv, simcore::stamp(), SEv::Removed(id, r)));
                    }
                    SOp::Read => {
                        let e = hop.metrics();
                        let (a, b) = (
                            e.counter(&Metric::SessionsStarted).unwrap_or(0),
                            e.counter(&Metric::SessionsEnded).unwrap_or(0),
                        );
                        reads.borrow_mut().push((inv, simcore::stamp(), a, b));
                    }
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    if !simcore::panics().is_empty() {
        return;
    }
    let base = (plan.before as u64, plan.before as u64 - live.len() as u64);
    {
        let log = log.borrow();
        for (_, _, e) in log.iter() {
            if let SEv::Added(id) = e {
                if !ids.insert(*id) {
                    report("identifier given twice", format!("{}", id));
                }
            }
        }
        for (inv, ret, s, e) in reads.borrow().iter() {
            let range = |f: &dyn Fn(&SEv) -> bool| {
                (
                    log.iter().filter(|x| x.1 < *inv && f(&x.2)).count() as u64,
                    log.iter().filter(|x| x.0 < *ret && f(&x.2)).count() as u64,
                )
            };
            let (a, b) = range(&|x| matches!(x, SEv::Added(_)));
            let (c, d) = range(&|x| matches!(x, SEv::Removed(_, true)));
            if *s < base.0 + a || *s > base.0 + b || *e < base.1 + c || *e > base.1 + d {
                report(
                    "session statistics",
                    format!(
                        "between {} and {} sessions had been started and {} to {} ended; the statistics say {} and {}",
                        base.0 + a,
                        base.0 + b,
                        base.1 + c,
                        base.1 + d,
                        s,
                        e
                    ),
                );
            }
        }
        let started = log.iter().filter(|x| matches!(x.2, SEv::Added(_))).count() as u64;
        let ended = log.iter().filter(|x| matches!(x.2, SEv::Removed(_, true))).count() as u64;
        if count(&hop) != (base.0 + started, base.1 + ended) {
            report(
                "session statistics",
                format!(
                    "{} sessions were started and {} ended; the statistics say {:?}",
                    base.0 + started,
                    base.1 + ended,
                    count(&hop)
                ),
            );
        }
        if asked(&hop) != (base.0 + started, base.1 + ended) {
            report(
                "session statistics",
                format!(
                    "{} sessions were started and {} ended; the stats command says {:?}",
                    base.0 + started,
                    base.1 + ended,
                    asked(&hop)
                ),
            );
        }
    }
    // removing one session affects no other: take them away one by one
    let mut last: Vec<u32> = ids.iter().copied().filter(|i| *i >= plan.before || live.contains(i)).collect();
    last.extend([u32::MAX, u32::MAX - 1]);
    for id in last {
        for _ in 0..2 {
            let inv = simcore::stamp();
            let r = hop.sessions().remove(id);
            log.borrow_mut().push((inv, simcore::stamp(), SEv::Removed(id, r)));
        }
    }
    let log = log.borrow();
    let mut per: BTreeMap<u32, Vec<Ev<SEv>>> = BTreeMap::new();
    for e in log.iter() {
        let (SEv::Added(id) | SEv::Removed(id, _)) = e.2;
        per.entry(id).or_default().push(e.clone());
        shape(fw::hash_bytes(format!("{:?}", e.2).as_bytes()));
    }
    for (id, ops) in per {
        // 0: not there yet, 1: there, 2: gone
        let init = if live.contains(&id) {
            1
        } else if id < plan.before && ids.contains(&id) {
            2
        } else {
            0
        };
        judge(&format!("session {}", id), init, &ops, |s, o| match (s, o) {
            (0, SEv::Added(_)) => Some(1),
            (1, SEv::Removed(_, true)) => Some(2),
            (0 | 2, SEv::Removed(_, false)) => Some(*s),
            _ => None,
        });
    }
    let ended = log.iter().filter(|x| matches!(x.2, SEv::Removed(_, true))).count() as u64;
    let (a, b) = count(&hop);
    if asked(&hop) != (a, b) {
        report(
            "session statistics",
            format!("{} and {} sessions; the stats command says {:?}", a, b, asked(&hop)),
        );
    }
    if b != base.1 + ended || a != b {
        report(
            "session statistics",
            format!("all of {} sessions were ended; the statistics say {} and {}", a, a, b),
        );
    }
    tally("sessions", a);
    tally("removals", log.iter().filter(|x| matches!(x.2, SEv::Removed(..))).count() as u64);
}

// ---- subscriptions -----------------------------------------------------------

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
enum POp {
    #[serde(rename = "subscribe")]
    Sub(u8, u8),
    #[serde(rename = "unsubscribe")]
    Unsub(u8, u8),
    #[serde(rename = "get")]
    Get(u8, u8),
    #[serde(rename = "remove")]
    Remove(u8),
}

#[derive(Clone, Serialize, Deserialize)]
struct SubPlan {
    setup: Vec<POp>,
    threads: Vec<Vec<POp>>,
    /// hold receivers of these subscriptions
    listen: bool,
}

pub struct Subscriptions;

impl Family for Subscriptions {
    fn name(&self) -> &'static str {
        "subscriptions"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine subscription registry and subscriptions; dashmap map, set and entry code; futures-intrusive channels",
            "threads and scheduler, dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let (ns, nk) = if rng.chance(1, 20) { (rng.range(1, 10), rng.range(5, 10)) } else { (rng.range(1, 4), rng.range(1, 4)) };
        let turn = |rng: &mut Rng| if rng.chance(2, 3) { 0 } else { rng.below(10) };
        let (ts, tk) = (turn(rng), turn(rng));
        let op = |rng: &mut Rng| {
            let (s, k) = (((rng.below(ns) + ts) % 10) as u8, ((rng.below(nk) + tk) % 10) as u8);
            match rng.below(16) {
                0..=6 => POp::Sub(s, k),
                7..=9 => POp::Unsub(s, k),
                10..=12 => POp::Remove(s),
                _ => POp::Get(s, k),
            }
        };
        let setup = (0..if rng.chance(1, 30) { 60 } else { rng.below(6) }).map(|_| op(rng)).collect();
        let threads: Vec<Vec<POp>> = (0..rng.range(1, if deep { 5 } else { 4 }))
            .map(|_| (0..rng.range(1, if deep { 8 } else { 5 })).map(|_| op(rng)).collect())
            .collect();
        let n: usize = threads.iter().map(|t| t.len()).sum();
        let plan = SubPlan {
            setup,
            threads,
            listen: rng.chance(1, 2),
        };
        (serde_json::to_value(plan).unwrap(), base_cfg(rng, n as u32 * 12))
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: SubPlan = serde_json::from_value(plan.clone()).ok()?;
        let ops = || plan.setup.iter().chain(plan.threads.iter().flatten());
        if plan.threads.len() > 20
            || ops().any(|o| match o {
                POp::Sub(s, k) | POp::Unsub(s, k) | POp::Get(s, k) => *s > 9 || *k > 9,
                POp::Remove(s) => *s > 9,
            })
        {
            return None;
        }
        Some(simcore::run(cfg, move || subscriptions(plan)))
    }
}

const SIDS: [u32; 10] = [0, 1, 2, u32::MAX, 256, 3, 65_536, 1 << 31, 257, u32::MAX - 1];
fn sid(s: u8) -> SessionId {
    SessionId::sim_new(SIDS[s as usize])
}
fn skey(k: u8) -> Vec<u8> {
    match k {
        0 => b"a".to_vec(),
        1 => b"ab".to_vec(),
        2 => vec![],
        3 => vec![0xff, 0],
        4 => vec![b'l'; 300],
        5 => [vec![b'l'; 299], vec![b'm']].concat(),
        6 => b"__hop__:x".to_vec(),
        7 => b"aa".to_vec(),
        8 => vec![0],
        _ => b"b".to_vec(),
    }
}

enum PRes {
    Sub(Option<Weak<Subscription>>),
    Flag(bool),
    Get(Option<Weak<Subscription>>),
}

/// A registry operation with the subscription it met, numbered.
#[derive(Clone, Debug)]
enum PEv {
    Subscribed { key: u8, new: Option<usize> },
    Unsubscribed { key: u8, was: bool },
    Got { key: u8, sub: Option<usize> },
    Removed { any: bool },
}

/// Subscribers of each key as the registry's debug text tells them.
fn by_key(text: &str) -> Option<BTreeSet<(u8, u8)>> {
    let mut out = BTreeSet::new();
    let mut rest = text.split_once("keys: {")?.1;
    if rest.starts_with('}') {
        return Some(out);
    }
    loop {
        let key;
        (key, rest) = rest.strip_prefix('[')?.split_once("]: {")?;
        let bytes: Option<Vec<u8>> = key.split(", ").filter(|b| !b.is_empty()).map(|b| b.trim().parse().ok()).collect();
        let bytes = bytes?;
        let key = (0..10).find(|k| skey(*k) == bytes)?;
        let list;
        (list, rest) = rest.split_once('}')?;
        for s in list.split(", ").filter(|s| !s.is_empty()) {
            let n = s.strip_prefix("SessionId(")?;
            let n: u32 = n.split_once(')')?.0.parse().ok()?;
            let n = SIDS.iter().position(|x| *x == n)? as u8;
            out.insert((n, key));
        }
        rest = match rest.strip_prefix(", ") {
            Some(r) => r,
            None => return rest.starts_with('}').then_some(out),
        };
    }
}

fn subscriptions(plan: SubPlan) {
    let hop = crate::engine::any_engine();
    let log: Rc<RefCell<Vec<Ev<(POp, PRes)>>>> = Default::default();
    // receivers of each subscription
    let heard: Rc<RefCell<Vec<(Weak<Subscription>, Box<dyn FnMut() -> Poll<bool>>)>>> = Default::default();
    let one = |hop: &Hop, o: POp, log: &Rc<RefCell<Vec<Ev<(POp, PRes)>>>>, listen: bool, heard: &Rc<RefCell<Vec<(Weak<Subscription>, Box<dyn FnMut() -> Poll<bool>>)>>>| {
        let p = hop.pubsub();
        let inv = simcore::stamp();
        let r = match o {
            POp::Sub(s, k) => PRes::Sub(p.subscribe(skey(k), sid(s))),
            POp::Unsub(s, k) => PRes::Flag(p.unsubscribe(&skey(k), sid(s))),
            POp::Get(s, k) => PRes::Get(p.get(&skey(k), sid(s))),
            POp::Remove(s) => PRes::Flag(p.remove_session(sid(s))),
        };
        let ret = simcore::stamp();
        if let (true, PRes::Sub(Some(w))) = (listen, &r) {
            if let Some(rx) = w.upgrade().map(|s| s.receiver()) {
                heard.borrow_mut().push((
                    w.clone(),
                    Box::new(move || {
                        let f = rx.receive();
                        let mut f = std::pin::pin!(f);
                        let w = std::task::Waker::noop();
                        match f.as_mut().poll(&mut Context::from_waker(w)) {
                            Poll::Ready(v) => Poll::Ready(v.is_some()),
                            Poll::Pending => Poll::Pending,
                        }
                    }),
                ));
            }
        }
        log.borrow_mut().push((inv, ret, (o, r)));
    };
    for o in &plan.setup {
        one(&hop, *o, &log, plan.listen, &heard);
    }
    let mut hs = vec![];
    for (t, ops) in plan.threads.iter().cloned().enumerate() {
        let (hop, log, heard, listen) = (hop.clone(), log.clone(), heard.clone(), plan.listen);
        hs.push(simcore::spawn(format!("thread {}", t), move || {
            for o in ops {
                one(&hop, o, &log, listen, &heard);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    if !simcore::panics().is_empty() {
        return;
    }
    let mut pairs = BTreeSet::new();
    for o in plan.setup.iter().chain(plan.threads.iter().flatten()) {
        match o {
            POp::Sub(s, k) | POp::Unsub(s, k) | POp::Get(s, k) => {
                pairs.insert((*s, *k));
            }
            _ => {}
        }
    }
    // at rest: both sides
    let mut now = BTreeSet::new();
    for (s, k) in &pairs {
        one(&hop, POp::Get(*s, *k), &log, false, &heard);
        if let Some((_, _, (_, PRes::Get(Some(w))))) = log.borrow().last() {
            now.insert((*s, *k));
            if w.upgrade().is_none() {
                report("dead subscription", format!("session {} has a subscription of key {} that is gone", s, k));
            }
        }
    }
    let text = format!("{:?}", hop.pubsub());
    match by_key(&text) {
        Some(there) => {
            tally("registries compared from both sides", 1);
            if there != now {
                report(
                    "sides differ",
                    format!("(session, key) pairs by session: {:?}; by key: {:?}", now, there),
                );
            }
        }
        None => tally("registries whose key side can't be read", 1),
    }
    let log = log.borrow();
    // number the subscriptions
    let mut subs: Vec<Weak<Subscription>> = vec![];
    for (_, _, (_, r)) in log.iter() {
        if let PRes::Sub(Some(w)) = r {
            if subs.iter().any(|x| x.ptr_eq(w)) {
                report("subscription given twice", "two successful subscriptions share one channel");
            }
            subs.push(w.clone());
        }
    }
    let number = |w: &Weak<Subscription>| subs.iter().position(|x| x.ptr_eq(w));
    let mut per: BTreeMap<u8, Vec<Ev<PEv>>> = BTreeMap::new();
    for (inv, ret, (o, r)) in log.iter() {
        let (s, e) = match (*o, r) {
            (POp::Sub(s, key), PRes::Sub(w)) => (
                s,
                PEv::Subscribed {
                    key,
                    new: w.as_ref().and_then(number),
                },
            ),
            (POp::Unsub(s, key), PRes::Flag(was)) => (s, PEv::Unsubscribed { key, was: *was }),
            (POp::Get(s, key), PRes::Get(w)) => {
                let sub = w.as_ref().map(|w| number(w).unwrap_or(usize::MAX));
                (s, PEv::Got { key, sub })
            }
            (POp::Remove(s), PRes::Flag(any)) => (s, PEv::Removed { any: *any }),
            _ => unreachable!(),
        };
        shape(fw::hash_bytes(format!("{:?}", e).as_bytes()));
        per.entry(s).or_default().push((*inv, *ret, e));
    }
    for (s, ops) in per {
        judge(
            &format!("subscriptions of session {}", s),
            BTreeMap::<u8, usize>::new(),
            &ops,
            |m, o| {
                let mut m = m.clone();
                let ok = match o {
                    PEv::Subscribed { key, new } => match new {
                        Some(n) => m.insert(*key, *n).is_none(),
                        None => m.contains_key(key),
                    },
                    PEv::Unsubscribed { key, was } => m.remove(key).is_some() == *was,
                    PEv::Got { key, sub } => m.get(key) == sub.as_ref(),
                    PEv::Removed { any } => {
                        let had = !m.is_empty();
                        m.clear();
                        had == *any
                    }
                };
                ok.then_some(m)
            },
        );
    }
    // channels: open while subscribed, ended afterwards
    let live: BTreeSet<usize> = log
        .iter()
        .rev()
        .take(pairs.len())
        .filter_map(|e| match &e.2 .1 {
            PRes::Get(Some(w)) => number(w),
            _ => None,
        })
        .collect();
    for (i, w) in subs.iter().enumerate() {
        if w.upgrade().is_some() != live.contains(&i) {
            report(
                "subscription outlived",
                format!("subscription {} is {}", i, if live.contains(&i) { "gone but registered" } else { "kept but not registered" }),
            );
        }
    }
    for (w, f) in heard.borrow_mut().iter_mut() {
        let on = number(w).map_or(false, |n| live.contains(&n));
        let got = f();
        if got != if on { Poll::Pending } else { Poll::Ready(false) } {
            report(
                "channel state",
                format!("the channel of {} subscription is {:?}", if on { "a live" } else { "an ended" }, got),
            );
        }
        tally("channels examined", 1);
    }
    tally("registry operations", log.len() as u64);
    drop(log);
    closing(&hop, &now);
}

/// Polls something once.
fn once<T>(f: impl Future<Output = T>) -> Poll<T> {
    let mut f = std::pin::pin!(f);
    f.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop()))
}

/// With nothing else going on: what is sent on a subscription is heard on it
/// and on no other, and removing a session ends its subscriptions for those who
/// are still holding on to them, and nobody else's.
fn closing(hop: &Hop, now: &BTreeSet<(u8, u8)>) {
    let held: Vec<((u8, u8), Arc<Subscription>)> = now
        .iter()
        .filter_map(|(s, k)| Some(((*s, *k), hop.pubsub().get(&skey(*k), sid(*s))?.upgrade()?)))
        .collect();
    let hears = |sub: &Subscription| once(sub.receiver().receive()).map(|u| u.is_some());
    for (at, sub) in &held {
        let (tx, name) = (sub.sender(), format!("{:?}", at).into_bytes());
        let mut sending = std::pin::pin!(tx.send(KeyUpdate::Renamed { to: name.clone() }));
        let cx = &mut Context::from_waker(std::task::Waker::noop());
        if sending.as_mut().poll(cx).is_ready() {
            report("channel state", format!("a live subscription {:?} takes no updates", at));
            continue;
        }
        for (other, s) in &held {
            if other != at && hears(s) != Poll::Pending {
                report("heard elsewhere", format!("an update for {:?} is heard by {:?}", at, other));
            }
        }
        match once(sub.receiver().receive()) {
            Poll::Ready(Some(KeyUpdate::Renamed { to })) if to == name => {}
            _ => report("not heard", format!("an update for {:?} isn't heard there", at)),
        }
        tally("updates sent", 1);
    }
    let sessions: BTreeSet<u8> = now.iter().map(|p| p.0).collect();
    let mut gone = BTreeSet::new();
    for s in sessions {
        hop.pubsub().remove_session(sid(s));
        gone.insert(s);
        for (at, sub) in &held {
            let got = hears(sub);
            if got != if gone.contains(&at.0) { Poll::Ready(false) } else { Poll::Pending } {
                report(
                    "channel state",
                    format!("with sessions {:?} removed, the held channel of {:?} is {:?}", gone, at, got),
                );
            }
        }
        tally("sessions removed while their subscriptions were held", 1);
    }
}

// ---- metrics -----------------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
enum MOp {
    #[serde(rename = "increment")]
    Inc(u8),
    #[serde(rename = "gauge")]
    Set(u8, u64),
    #[serde(rename = "counter")]
    Counter(u8),
    #[serde(rename = "read_gauge")]
    Gauge(u8),
    #[serde(rename = "snapshot")]
    Snap,
}

#[derive(Clone, Serialize, Deserialize)]
struct MetricPlan {
    /// the first counter has been incremented so often already
    #[serde(default)]
    before: u32,
    threads: Vec<Vec<MOp>>,
    /// the metrics are dropped while their readers and writers go on
    dropped: bool,
    after: Vec<MOp>,
}

pub struct MetricsFam;

impl Family for MetricsFam {
    fn name(&self) -> &'static str {
        "metrics"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop metrics; dashmap map and entry code",
            "threads and scheduler, dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 4);
        let op = |rng: &mut Rng| {
            let k = rng.below(nk) as u8;
            match rng.below(12) {
                0..=4 => MOp::Inc(k),
                5 | 6 => MOp::Set(k, *rng.pick(&[0u64, 1, 7, 1 << 40, u64::MAX - 1, u64::MAX])),
                7 | 8 => MOp::Counter(k),
                9 => MOp::Gauge(k),
                _ => MOp::Snap,
            }
        };
        let threads: Vec<Vec<MOp>> = (0..rng.range(1, if deep { 6 } else { 4 }))
            .map(|_| (0..rng.range(1, if deep { 10 } else { 6 })).map(|_| op(rng)).collect())
            .collect();
        let n: usize = threads.iter().map(|t| t.len()).sum();
        let before = match rng.below(300) {
            0 => 65_530 + rng.below(8) as u32,
            1..=8 => 250 + rng.below(8) as u32,
            _ => 0,
        };
        let plan = MetricPlan {
            before,
            threads,
            dropped: rng.chance(1, 4),
            after: (0..rng.below(6)).map(|_| op(rng)).collect(),
        };
        let mut c = base_cfg(rng, n as u32 * 6);
        c.max_steps = 3_000_000;
        (serde_json::to_value(plan).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: MetricPlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.threads.len() > 20 || plan.before > 70_000 {
            return None;
        }
        Some(simcore::run(cfg, move || metrics(plan)))
    }
}

#[derive(Clone, Debug)]
enum MEv {
    Inc(u8, bool),
    Set(u8, u64, bool),
    Counter(u8, Option<u64>),
    Gauge(u8, Option<u64>),
}

type Shot = (BTreeMap<u8, u64>, BTreeMap<u8, u64>);

fn shot(s: &Snapshot<u8>) -> Shot {
    let read = |m: &dashmap::DashMap<u8, u64>| m.iter().map(|r| (*r.key(), *r.value())).collect();
    let all: Shot = (read(s.counters()), read(s.gauges()));
    for k in 0..8 {
        if s.counter(&k) != all.0.get(&k).copied() || s.gauge(&k) != all.1.get(&k).copied() {
            report("snapshot", format!("a snapshot holds {:?} but metric {} is {:?}, {:?}", all, k, s.counter(&k), s.gauge(&k)));
        }
    }
    all
}

fn metrics(plan: MetricPlan) {
    let m: Rc<RefCell<Option<Metrics<u8>>>> = Rc::new(RefCell::new(Some(Metrics::new())));
    let (reader, writer) = {
        let m = m.borrow();
        let m = m.as_ref().unwrap();
        (m.reader(), m.writer())
    };
    let log: Rc<RefCell<Vec<Ev<MEv>>>> = Default::default();
    let snaps: Rc<RefCell<Vec<(u64, u64, Snapshot<u8>, Shot)>>> = Default::default();
    let run = move |ops: Vec<MOp>, reader: &Reader<u8>, writer: &hop_internal_metrics::Writer<u8>, m: &Metrics<u8>, log: &Rc<RefCell<Vec<Ev<MEv>>>>, snaps: &Rc<RefCell<Vec<(u64, u64, Snapshot<u8>, Shot)>>>| {
        for o in ops {
            let inv = simcore::stamp();
            let e = match o {
                MOp::Inc(k) => MEv::Inc(k, writer.increment(k)),
                MOp::Set(k, v) => MEv::Set(k, v, writer.gauge(k, v)),
                MOp::Counter(k) => MEv::Counter(k, reader.counter(&k)),
                MOp::Gauge(k) => MEv::Gauge(k, reader.gauge(&k)),
                MOp::Snap => {
                    let s = m.snapshot();
                    let ret = simcore::stamp();
                    let first = shot(&s);
                    snaps.borrow_mut().push((inv, ret, s, first));
                    continue;
                }
            };
            log.borrow_mut().push((inv, simcore::stamp(), e));
        }
    };
    let shared = Rc::new(m.borrow_mut().take().unwrap());
    for _ in 0..plan.before {
        writer.increment(0);
    }
    let mut hs = vec![];
    for (t, ops) in plan.threads.iter().cloned().enumerate() {
        let (reader, writer, shared, log, snaps) = (reader.clone(), writer.clone(), shared.clone(), log.clone(), snaps.clone());
        hs.push(simcore::spawn(format!("thread {}", t), move || {
            run(ops, &reader, &writer, &shared, &log, &snaps)
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    if !simcore::panics().is_empty() {
        return;
    }
    run(plan.after.clone(), &reader, &writer, &shared, &log, &snaps);
    let keys: Vec<u8> = (0..8).collect();
    for k in &keys {
        run(vec![MOp::Counter(*k), MOp::Gauge(*k)], &reader, &writer, &shared, &log, &snaps);
    }
    if !reader.valid() || !writer.valid() {
        report("validity", "a reader or writer of existing metrics is not valid");
    }
    let log = log.borrow();
    let base = |k: u8| if k == 0 { plan.before as u64 } else { 0 };
    let is_inc = |e: &MEv, k: u8| matches!(e, MEv::Inc(j, true) if *j == k);
    for (inv, ret, e) in log.iter() {
        shape(fw::hash_bytes(format!("{:?}", e).as_bytes()));
        match e {
            MEv::Inc(_, false) | MEv::Set(_, _, false) => report("validity", format!("{:?} on existing metrics", e)),
            MEv::Counter(k, got) => bound(&log, *inv, *ret, *k, *got, base(*k), &is_inc, "counter"),
            _ => {}
        }
    }
    // a counter never goes back
    for k in &keys {
        let reads: Vec<(u64, u64, u64)> = log
            .iter()
            .filter_map(|(a, b, e)| match e {
                MEv::Counter(j, v) if j == k => Some((*a, *b, v.unwrap_or(0))),
                _ => None,
            })
            .collect();
        for x in &reads {
            if let Some(y) = reads.iter().find(|y| x.1 < y.0 && y.2 < x.2) {
                report("counter went back", format!("counter {} was {} and later {}", k, x.2, y.2));
            }
        }
    }
    for (inv, ret, s, first) in snaps.borrow().iter() {
        for k in &keys {
            bound(&log, *inv, *ret, *k, first.0.get(k).copied(), base(*k), &is_inc, "snapshot of counter");
        }
        let again = shot(s);
        if again != *first {
            report("snapshot changed", format!("a snapshot of {:?} became {:?}", first, again));
        }
    }
    for k in &keys {
        let mut h: Vec<Ev<MEv>> = log
            .iter()
            .filter(|e| matches!(&e.2, MEv::Set(j, ..) | MEv::Gauge(j, _) if j == k))
            .cloned()
            .collect();
        for (inv, ret, _, first) in snaps.borrow().iter() {
            h.push((*inv, *ret, MEv::Gauge(*k, first.1.get(k).copied())));
        }
        if h.len() > 2 {
            judge(&format!("gauge {}", k), None, &h, |s: &Option<u64>, o| match o {
                MEv::Set(_, v, _) => Some(Some(*v)),
                MEv::Gauge(_, v) if v == s => Some(*s),
                _ => None,
            });
        }
    }
    if plan.dropped {
        drop(shared);
        if reader.valid() || writer.valid() {
            report("validity", "a reader or writer of dropped metrics is still valid");
        }
        if writer.increment(0) || writer.gauge(0, 1) || reader.counter(&0).is_some() || reader.gauge(&0).is_some() {
            report("validity", "dropped metrics were read or written");
        }
        tally("dropped metrics", 1);
    }
    tally("metric operations", log.len() as u64);
    tally("snapshots", snaps.borrow().len() as u64);
}

fn bound(log: &[Ev<MEv>], inv: u64, ret: u64, k: u8, got: Option<u64>, base: u64, is_inc: &dyn Fn(&MEv, u8) -> bool, what: &str) {
    let done = log.iter().filter(|e| e.1 < inv && is_inc(&e.2, k)).count() as u64 + base;
    let begun = log.iter().filter(|e| e.0 < ret && is_inc(&e.2, k)).count() as u64 + base;
    let n = got.unwrap_or(0);
    if n < done || n > begun || (got.is_some() && begun == 0) {
        report(
            "counter",
            format!("{} {} is {:?} when {} increments had completed and {} had begun", what, k, got, done, begun),
        );
    }
}
