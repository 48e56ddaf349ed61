//! Engines and in-process clients that have nothing to do with each other, each used
//! through several handles by a thread of its own: as if it was alone.
use crate::{
    client::{self, Call, Caller},
    engine,
    fw::{self, base_cfg, hash_bytes, report, shape, tally, Family},
    gen,
    model::*,
};
use hop::Client;
use hop_engine::{metrics::Metric, session::SessionId, Hop};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{rng::Rng, Config, Outcome};
use std::{collections::BTreeSet, sync::Arc};

#[derive(Clone, Serialize, Deserialize)]
enum Op {
    #[serde(rename = "req")]
    Req(u8, Req),
    /// from, to
    #[serde(rename = "clone")]
    Clone(u8, u8),
    #[serde(rename = "drop")]
    Drop(u8),
    #[serde(rename = "start_session")]
    Start(u8),
    #[serde(rename = "end_session")]
    End(u8, u8),
    #[serde(rename = "sub")]
    Sub(u8, u8, u8),
    #[serde(rename = "unsub")]
    Unsub(u8, u8, u8),
    #[serde(rename = "remove_session")]
    Leave(u8, u8),
    #[serde(rename = "get_sub")]
    Look(u8, u8, u8),
    /// another engine instead, with this configuration: pubsub, most sessions
    #[serde(rename = "fresh")]
    Fresh(Option<(bool, u64)>),
}

#[derive(Clone, Serialize, Deserialize)]
enum Part {
    #[serde(rename = "engine")]
    Engine(Vec<Op>),
    #[serde(rename = "client")]
    Client(Vec<Call>),
}

#[derive(Clone, Serialize, Deserialize)]
struct Plan {
    parts: Vec<Part>,
}

pub struct Instances;
const SLOTS: usize = 4;

impl Family for Instances {
    fn name(&self) -> &'static str {
        "instances"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine (commands, state, sessions, subscriptions, metrics), hop client crate with its in-process backend; dashmap map code",
            "dashmap's shard lock (simulated reader-writer lock); hasher (seeded); OS threads (coroutines)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 4) as usize;
        let ks = gen::keys(rng, nk);
        let n = rng.range(2, 4);
        let parts = (0..n)
            .map(|i| {
                let len = rng.range(3, if deep { 30 } else { 14 });
                if rng.chance(1, 4) {
                    let raw = false;
                    return Part::Client((0..len).map(|j| client::gen_call(rng, &ks, &format!("p{}/{}", i, j), raw)).collect());
                }
                Part::Engine(
                    (0..len)
                        .map(|_| {
                            let h = rng.below(SLOTS as u64) as u8;
                            let (s, k) = (rng.below(3) as u8, rng.below(3) as u8);
                            match rng.below(20) {
                                0 => Op::Clone(h, rng.below(SLOTS as u64) as u8),
                                1 => Op::Drop(h),
                                2 | 3 => Op::Start(h),
                                4 => Op::End(h, rng.below(3) as u8),
                                5 | 6 => Op::Sub(h, s, k),
                                7 => Op::Unsub(h, s, k),
                                8 => Op::Leave(h, s),
                                9 => Op::Look(h, s, k),
                                10 if rng.chance(1, 2) => {
                                    let max = 1000 + rng.below(1 << 20);
                                    let max = *rng.pick(&[max, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX - 1]);
                                    Op::Fresh(rng.chance(2, 3).then(|| (rng.chance(2, 3), max)))
                                }
                                11 => Op::Req(h, gen::req(STATS, None, &[])),
                                12 => Op::Req(h, gen::wild(rng, &ks)),
                                _ => Op::Req(h, gen::plain(rng, &ks, &ALL)),
                            }
                        })
                        .collect(),
                )
            })
            .collect();
        let mut c = base_cfg(rng, 400);
        c.max_steps = 2_000_000;
        (serde_json::to_value(Plan { parts }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: Plan = serde_json::from_value(plan.clone()).ok()?;
        if plan.parts.len() > 8 {
            return None;
        }
        for p in &plan.parts {
            if let Part::Engine(ops) = p {
                for o in ops {
                    if let Op::Req(_, r) = o {
                        if engine::bad_req(r) {
                            return None;
                        }
                    }
                }
            }
        }
        Some(simcore::run(cfg, move || {
            let hs: Vec<_> = plan
                .parts
                .into_iter()
                .enumerate()
                .map(|(i, p)| {
                    simcore::spawn(format!("owner {}", i), move || match p {
                        Part::Engine(ops) => {
                            let ids = alone(i, &ops);
                            Some((ops, ids))
                        }
                        Part::Client(calls) => {
                            local(i, calls);
                            None
                        }
                    })
                })
                .collect();
            let done: Vec<_> = hs.into_iter().filter_map(|h| h.join().ok().flatten()).collect();
            if fw::violated() {
                return;
            }
            // What isn't predicted has to be the same without the others.
            for (i, (ops, ids)) in done.iter().enumerate() {
                if !ids.is_empty() {
                    let again = alone(i, ops);
                    if *ids != again {
                        report(
                            "identifiers depend on others",
                            format!("an engine's sessions were {:?} among other engines and are {:?} without them", ids, again),
                        );
                        return;
                    }
                    tally("engines run again by themselves", 1);
                }
            }
        }))
    }
}

#[derive(Default)]
struct Model {
    db: Db,
    good: i64,
    bad: i64,
    started: i64,
    ended: i64,
    /// identifiers of sessions
    live: Vec<u32>,
    used: BTreeSet<u32>,
    subs: BTreeSet<(u8, u8)>,
}

fn differs(m: &Model, s: [i64; 4]) -> Option<String> {
    let want = [m.good, m.bad, m.started, m.ended];
    (s != want).then(|| {
        format!(
            "successes, failures, sessions started and ended are {:?}; the statistics say {:?}",
            want, s
        )
    })
}

/// Returns the identifiers of the sessions that were started.
fn alone(who: usize, ops: &[Op]) -> Vec<u32> {
    let mut ids = Vec::new();
    let mut m = Model::default();
    let mut slots: [Option<Hop>; SLOTS] = [Some(Hop::new()), None, None, None];
    let mut pubsub = true;
    let sid = |s: u8| SessionId::sim_new(s as u32);
    let key = |k: u8| vec![b'k', k];
    let bad = |n: usize, what: &str, detail: String| report(what, format!("engine {}, step {}: {}", who, n, detail));
    for (n, o) in ops.iter().enumerate() {
        let at = |slots: &[Option<Hop>; SLOTS], h: u8| (0..SLOTS).map(|i| (i + h as usize) % SLOTS).find(|i| slots[*i].is_some()).unwrap();
        match o {
            Op::Sub(..) | Op::Unsub(..) | Op::Leave(..) | Op::Look(..) if !pubsub => {}
            Op::Req(h, r) => {
                let i = at(&slots, *h);
                let hop = slots[i].as_ref().unwrap();
                let want = apply(&mut m.db, r);
                let Some(got) = engine::dispatch(hop, r) else { return ids };
                if !matches(r, &want, &got) {
                    bad(n, "wrong answer", format!("{:?} answered {} instead of {}", r, show_r(&got), show_m(&want)));
                    return ids;
                }
                if let (STATS, Ok(MVal::Map(s))) = (r.cmd, &got) {
                    let s = ["commands_successful", "commands_errored", "sessions_started", "sessions_ended"].map(|n| engine::stat(s, n));
                    if let Some(why) = differs(&m, s) {
                        bad(n, "statistics", why);
                        return ids;
                    }
                }
                match &got {
                    Ok(_) => m.good += 1,
                    Err(_) => m.bad += 1,
                }
                shape(hash_bytes(show_r(&got).as_bytes()));
            }
            Op::Clone(from, to) => {
                let i = at(&slots, *from);
                let c = slots[i].clone();
                slots[*to as usize % SLOTS] = c;
            }
            Op::Drop(h) => {
                if slots.iter().flatten().count() > 1 {
                    slots[*h as usize % SLOTS] = None;
                    if slots.iter().flatten().count() == 0 {
                        return ids;
                    }
                }
            }
            Op::Start(h) => {
                let i = at(&slots, *h);
                let mut mgr = slots[i].as_ref().unwrap().sessions().clone();
                let id = *mgr.add([who as u8; 32]).key();
                m.started += 1;
                m.live.push(id);
                ids.push(id);
                if !m.used.insert(id) {
                    bad(n, "identifier given twice", format!("session {}", id));
                    return ids;
                }
            }
            Op::End(h, which) => {
                let i = at(&slots, *h);
                let mgr = slots[i].as_ref().unwrap().sessions();
                if m.live.is_empty() {
                    let id = m.used.iter().next().copied().unwrap_or(*which as u32);
                    if mgr.remove(id) {
                        bad(n, "session from elsewhere", format!("session {} is there, but shouldn't be", id));
                        return ids;
                    }
                } else {
                    let id = m.live.remove(*which as usize % m.live.len());
                    m.ended += 1;
                    if !mgr.remove(id) {
                        bad(n, "session lost", format!("session {} is gone", id));
                        return ids;
                    }
                }
            }
            Op::Sub(h, s, k) => {
                let i = at(&slots, *h);
                let got = slots[i].as_ref().unwrap().pubsub().subscribe(key(*k), sid(*s)).is_some();
                if got != m.subs.insert((*s, *k)) {
                    bad(n, "subscription", format!("subscribing session {} to key {} returned a new subscription: {}", s, k, got));
                    return ids;
                }
            }
            Op::Unsub(h, s, k) => {
                let i = at(&slots, *h);
                let got = slots[i].as_ref().unwrap().pubsub().unsubscribe(&key(*k), sid(*s));
                if got != m.subs.remove(&(*s, *k)) {
                    bad(n, "subscription", format!("unsubscribing session {} from key {} returned {}", s, k, got));
                    return ids;
                }
            }
            Op::Leave(h, s) => {
                let i = at(&slots, *h);
                let got = slots[i].as_ref().unwrap().pubsub().remove_session(sid(*s));
                let had = m.subs.len();
                m.subs.retain(|x| x.0 != *s);
                if got != (had != m.subs.len()) {
                    bad(n, "subscription", format!("removing session {} returned {}", s, got));
                    return ids;
                }
            }
            Op::Look(h, s, k) => {
                let i = at(&slots, *h);
                let got = slots[i].as_ref().unwrap().pubsub().get(&key(*k), sid(*s)).is_some();
                if got != m.subs.contains(&(*s, *k)) {
                    bad(n, "subscription", format!("session {} is subscribed to key {}: {}", s, k, got));
                    return ids;
                }
            }
            Op::Fresh(c) => {
                m = Model::default();
                let hop = match c {
                    Some((on, max)) => {
                        let mut b = Hop::builder();
                        b.pubsub_enabled(*on).sessions_active_max(*max as usize);
                        let _ = b.clone().build();
                        b.build()
                    }
                    None => Hop::new(),
                };
                let want = c.map_or((true, usize::MAX), |c| (c.0, c.1 as usize));
                let got = (hop.config().pubsub_enabled(), hop.config().sessions_active_max());
                if got != want {
                    bad(n, "configuration", format!("built with {:?}, has {:?}", want, got));
                    return ids;
                }
                // engines that are only looked at may have any configuration
                for (i, max) in [0, 1, want.1 % 1000, want.1 ^ 7].iter().enumerate() {
                    let mut b = hop_engine::hop::Builder::new();
                    if i != 1 {
                        b.sessions_active_max(5).sessions_active_max(*max);
                    }
                    if i != 2 {
                        b.pubsub_enabled(want.0).pubsub_enabled(!want.0);
                    }
                    let want = (i == 2 || !want.0, if i == 1 { usize::MAX } else { *max });
                    let other = b.clone();
                    b.pubsub_enabled(!want.0).sessions_active_max(9);
                    let other = other.build();
                    let got = (other.config().pubsub_enabled(), other.config().sessions_active_max());
                    if got != want {
                        bad(n, "configuration", format!("built with {:?}, has {:?}", want, got));
                        return ids;
                    }
                }
                pubsub = want.0;
                slots = [Some(hop), None, None, None];
            }
        }
        tally("operations", 1);
    }
    let mut handles = 0;
    for hop in slots.iter().flatten() {
        handles += 1;
        if !engine::compare(hop, &m.db, &[], &|| format!("the program of engine {}", who)) {
            return ids;
        }
        for s in 0..3 {
            for k in 0..3 {
                if hop.pubsub().get(&key(k), sid(s)).is_some() != m.subs.contains(&(s, k)) {
                    bad(ops.len(), "subscription", format!("session {}, key {}", s, k));
                    return ids;
                }
            }
        }
        let r = hop.metrics();
        let s = [
            Metric::CommandsSuccessful,
            Metric::CommandsErrored,
            Metric::SessionsStarted,
            Metric::SessionsEnded,
        ]
        .map(|x| r.counter(&x).unwrap_or(0) as i64);
        if let Some(why) = differs(&m, s) {
            bad(ops.len(), "statistics", why);
            return ids;
        }
    }
    tally("handles compared at the end", handles);
    ids
}

fn local(who: usize, calls: Vec<Call>) {
    let c = Caller::Client(Arc::new(Client::memory()));
    let mut db = Db::new();
    for (n, k) in calls.iter().enumerate() {
        let mut d = db.clone();
        let want = client::expect(&mut d, k);
        let got = simcore::block_on(client::call(c.clone(), k.clone()));
        if !client::fits(k, &want, &got) {
            report(
                "wrong answer",
                format!("client {}, call {}: {:?} returned {:?} instead of {}", who, n, k.req, got, show_m(&want)),
            );
            return;
        }
        if got.is_ok() {
            db = d;
        }
        shape(hash_bytes(format!("{:?}", got).as_bytes()));
        tally("operations", 1);
    }
}
