//! Commands dispatched directly at one shared engine, by many threads at once or
//! one after another.
use crate::{
    fw::{self, base_cfg, report, shape, tally, Family},
    gen, lin,
    lin::HOp,
    model::*,
};
use hop_engine::{command::request::Context, metrics::Metric, Hop};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{rng::Rng, Config, Outcome};
use std::{cell::RefCell, rc::Rc};

/// Dispatch a request given as wire bytes.
pub fn dispatch(hop: &Hop, r: &Req) -> Option<Result<MVal, u8>> {
    let bytes = encode(r);
    let mut ctx = Context::new();
    let mut resp = vec![];
    let res = match ctx.feed(&bytes) {
        Ok(Some(req)) => hop.dispatch(&req, &mut resp),
        other => {
            report("request not decoded", format!("{:?}: {:?}", r, other.map(|x| x.is_some())));
            return None;
        }
    };
    match res {
        Ok(()) => match decode_resp(&resp) {
            DecR::Resp(WResp::Val(v), n) if n == resp.len() => Some(Ok(v)),
            DecR::Resp(WResp::Val(_), n) => {
                report(
                    "malformed response",
                    format!("{:?}: {} bytes after the end of the response", r, resp.len() - n),
                );
                None
            }
            d => {
                report("malformed response", format!("{:?} succeeded and wrote {:?}", r, d));
                None
            }
        },
        Err(e) => {
            if !resp.is_empty() {
                report(
                    "malformed response",
                    format!("{:?} failed with {:?} but wrote {} bytes", r, e, resp.len()),
                );
            }
            Some(Err(e as u8))
        }
    }
}

/// What the database holds under `keys`, looked up without dispatching.
pub fn lookup(hop: &Hop, key: &[u8]) -> Option<MVal> {
    if key.is_empty() || key.starts_with(b"__hop__:") {
        return if hop.state().contains_key(key) {
            Some(MVal::Bytes(b"<present>".to_vec()))
        } else {
            None
        };
    }
    hop.state().key_ref(key).map(|r| {
        let v = MVal::from_value(r.value());
        if let Some(what) = disagrees(r.value(), &v) {
            report("value of two types", format!("{:?} (key {}): {}", v, crate::hx::show(key), what));
        }
        v
    })
}

/// What a stored value says about itself is what it is.
fn disagrees(v: &hop_engine::state::Value, m: &MVal) -> Option<&'static str> {
    let is = [
        v.is_bytes(),
        v.is_boolean(),
        v.is_float(),
        v.is_integer(),
        v.is_string(),
        v.is_list(),
        v.is_map(),
        v.is_set(),
    ];
    let of = [T_BYTES, T_BOOL, T_FLOAT, T_INT, T_STR, T_LIST, T_MAP, T_SET];
    if v.kind() as u8 != m.kind() {
        return Some("kind() names another type");
    }
    for i in 0..8 {
        if is[i] != (of[i] == m.kind()) {
            return Some("an is_ function is wrong");
        }
    }
    let seen: Vec<MVal> = [
        v.as_bytes_ref().map(|b| MVal::Bytes(b.to_vec())),
        v.as_boolean_ref().map(|b| MVal::Bool(*b)),
        v.as_float_ref().map(|b| MVal::float(*b)),
        v.as_integer_ref().map(|b| MVal::Int(*b)),
        v.as_string_ref().map(|b| MVal::Str(b.to_string())),
        v.as_list_ref().map(|b| MVal::List(b.to_vec())),
        v.as_map_ref().map(|m| MVal::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect())),
        v.as_set_ref().map(|m| MVal::Set(m.iter().map(|r| r.key().clone()).collect())),
    ]
    .into_iter()
    .flatten()
    .collect();
    if seen.len() != 1 || seen[0] != *m {
        return Some("an as_.._ref function is wrong");
    }
    None
}

/// The state's own functions agree with the model; leaves the database empty.
fn dismantle(hop: &Hop, db: &Db) {
    let s = hop.state();
    for (i, (k, v)) in db.iter().enumerate() {
        let say = |what: &str| {
            report(
                "wrong content",
                format!("State::{} of key {} which holds {:?}", what, crate::hx::show(k), v),
            )
        };
        if s.key_type(k).map(|t| t as u8) != Some(v.kind()) {
            return say("key_type is wrong");
        }
        if s.key_mut(k).map(|r| MVal::from_value(r.value())).as_ref() != Some(v) {
            return say("key_mut is wrong");
        }
        let other = MVal::Int(-(i as i64));
        if i % 2 == 0 {
            if s.insert(k.clone(), other.to_value()).map(|v| MVal::from_value(&v)).as_ref() != Some(v) {
                return say("insert does not return the value");
            }
            if MVal::from_value(s.key_or_insert_with(k, || unreachable!("the key is there")).value()) != other {
                return say("key_or_insert_with is wrong");
            }
        }
        let want = if i % 2 == 0 { &other } else { v };
        match s.remove(k) {
            Some((k2, v2)) if k2 == *k && MVal::from_value(&v2) == *want => {}
            _ => return say("remove does not return the value"),
        }
        if s.contains_key(k) || s.key_ref(k).is_some() || s.key_type(k).is_some() {
            return say("remove leaves it");
        }
    }
    if all_keys(hop).map_or(false, |k| !k.is_empty()) {
        report("wrong content", "after removing every key some are left");
    }
}

/// All keys of the database, from its debug form; None if that can't be read.
pub fn all_keys(hop: &Hop) -> Option<Vec<Bs>> {
    let text = format!("{:?}", hop.state());
    parse_keys(&text)
}

/// The keys of the outermost maps from lists of bytes to anything.
fn parse_keys(text: &str) -> Option<Vec<Bs>> {
    let mut all = None;
    let mut i = 0;
    while let Some(n) = text[i..].find('{') {
        i += n + 1;
        if let Some((keys, end)) = parse_map(text, i) {
            all.get_or_insert_with(Vec::new).extend(keys);
            i = end;
        }
    }
    all
}

/// The keys of the map that starts at `i`, and where it ends.
fn parse_map(text: &str, mut i: usize) -> Option<(Vec<Bs>, usize)> {
    let b = text.as_bytes();
    let mut out = vec![];
    loop {
        while matches!(b.get(i)?, b' ' | b',') {
            i += 1
        }
        match b[i] {
            b'}' => return Some((out, i)),
            b'[' => {}
            _ => return None,
        }
        let e = i + text[i..].find(']')?;
        let mut key = vec![];
        for n in text[i + 1..e].split(',') {
            let n = n.trim();
            if !n.is_empty() {
                key.push(n.parse::<u8>().ok()?);
            }
        }
        out.push(key);
        i = e + 1;
        if !text[i..].starts_with(": ") {
            return None;
        }
        let mut depth = 0i32;
        loop {
            match b.get(i)? {
                b'"' => {
                    i += 1;
                    while *b.get(i)? != b'"' {
                        if b[i] == b'\\' {
                            i += 1
                        }
                        i += 1
                    }
                }
                b'(' | b'[' | b'{' => depth += 1,
                b'}' if depth == 0 => break,
                b')' | b']' | b'}' => depth -= 1,
                b',' if depth == 0 => break,
                _ => {}
            }
            i += 1;
        }
    }
}

pub fn weight(v: &MVal) -> usize {
    match v {
        MVal::Bytes(b) => b.len(),
        MVal::List(l) => l.iter().map(|x| x.len() + 8).sum(),
        MVal::Set(l) => l.iter().map(|x| x.len() + 8).sum(),
        MVal::Map(m) => m.iter().map(|(k, v)| k.len() + v.len() + 16).sum(),
        _ => 8,
    }
}

/// Compare the whole database with the model.
pub fn compare(hop: &Hop, db: &Db, extra: &[&Bs], what: &dyn Fn() -> String) -> bool {
    let mut ok = true;
    for (k, v) in db {
        let got = lookup(hop, k);
        if got.as_ref() != Some(v) {
            report(
                "wrong content",
                format!(
                    "after {}: key {} holds {} instead of {:?}",
                    what(),
                    crate::hx::show(k),
                    got.map_or("nothing".into(), |g| format!("{:?}", g)),
                    v
                ),
            );
            ok = false;
        }
    }
    let mut seen: Vec<Bs> = extra.iter().map(|k| k.to_vec()).collect();
    // listing a large database takes long: only now and then
    if db.values().map(weight).sum::<usize>() < 4000 || simcore::steps() % 8 == 0 {
        match all_keys(hop) {
            Some(k) => seen.extend(k),
            None => tally("database listing unreadable", 1),
        }
    }
    for k in &seen {
        if !db.contains_key(k) && hop.state().contains_key(k) {
            report(
                "wrong content",
                format!("after {}: key {} exists but should not", what(), crate::hx::show(k)),
            );
            ok = false;
        }
    }
    ok
}

fn ok() -> bool {
    true
}

// ---- concurrent -------------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
struct Plan {
    #[serde(default)]
    setup: Vec<Req>,
    threads: Vec<Vec<Req>>,
    /// so many other keys are there from the start
    #[serde(default)]
    fill: u32,
    #[serde(default = "ok")]
    lin: bool,
}

pub struct Concurrent;

const MIX: [u8; 16] = [
    SET, SET, SET, GET, GET, GET, APPEND, APPEND, INCBY, INC, DEC, DECBY, DELETE, DELETE, TYPE, LENGTH,
];
const REN: [u8; 14] = [
    RENAME, RENAME, RENAME, RENAME, RENAME, SET, GET, GET, DELETE, EXISTS, INC, APPEND, TYPE, RENAME,
];

const WATCH: [u8; 9] = [RENAME, RENAME, RENAME, RENAME, EXISTS, EXISTS, EXISTS, IS, IS];

fn shapeup(h: &[HOp]) {
    for o in h {
        shape(fw::hash_bytes(format!("{:?}{:?}{:?}", o.client, o.req, o.resp).as_bytes()));
        shape(o.inv << 32 | o.ret.unwrap_or(0));
    }
}

impl Family for Concurrent {
    fn name(&self) -> &'static str {
        "engine"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine (commands, state, request decoder); dashmap map and entry code; hop metrics",
            "dashmap's shard lock (simulated reader-writer lock); hasher (seeded); OS threads (coroutines)",
        )
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let mut setup = vec![];
        let mut threads = vec![];
        let nk;
        let big = deep && rng.chance(1, 3);
        match prop {
            "C02" => {
                nk = rng.range(1, 2) as usize;
                let cnt: Vec<Bs> = gen::keys(rng, 1 + nk)
                    .into_iter()
                    .map(|mut k| {
                        k[0] = *rng.pick(b"iiifflsb");
                        k
                    })
                    .collect();
                let near: Vec<Bs> = (0..4).map(|i| format!("n{}", i).into_bytes()).collect();
                for k in &cnt {
                    if rng.chance(1, 2) {
                        setup.push(gen::set(k, &gen::val(rng, gen::affinity(k))));
                    }
                }
                let nt = rng.range(2, if big { 8 } else { 5 });
                for t in 0..nt {
                    let mut ops = vec![];
                    for n in 0..rng.range(1, if big { 14 } else { 8 }) {
                        let k = rng.pick(&cnt).clone();
                        let tag = format!("<{}.{}>", t, n).into_bytes();
                        ops.push(match gen::affinity(&k) {
                            T_INT => {
                                let kt = if rng.chance(1, 2) { Some(T_INT) } else { None };
                                let by = (1i64 << rng.below(40)).to_be_bytes();
                                match rng.below(4) {
                                    0 => gen::req(INC, kt, &[&k]),
                                    1 => gen::req(DEC, kt, &[&k]),
                                    2 => gen::req(INCBY, kt, &[&k, &by]),
                                    _ => gen::req(DECBY, kt, &[&k, &by]),
                                }
                            }
                            T_FLOAT => {
                                let by = (rng.below(64) as f64 * 0.5).to_be_bytes();
                                match rng.below(4) {
                                    0 => gen::req(INC, Some(T_FLOAT), &[&k]),
                                    1 => gen::req(DEC, Some(T_FLOAT), &[&k]),
                                    2 => gen::req(INCBY, Some(T_FLOAT), &[&k, &by]),
                                    _ => gen::req(DECBY, Some(T_FLOAT), &[&k, &by]),
                                }
                            }
                            T_LIST => gen::req(APPEND, Some(T_LIST), &[&k, &tag]),
                            T_STR => gen::req(APPEND, Some(T_STR), &[&k, &tag]),
                            _ => gen::req(APPEND, Some(T_BYTES), &[&k, &tag, b"."]),
                        });
                        if rng.chance(1, 4) {
                            ops.push(gen::plain(rng, &near, &[SET, DELETE, INC, RENAME, GET]));
                        }
                    }
                    threads.push(ops);
                }
                if threads.iter().map(|t| t.len()).sum::<usize>() > 100 {
                    threads.truncate(4);
                }
            }
            "C04" => {
                // some look at several keys while others move them
                let watched = rng.chance(1, 4);
                nk = rng.range(2, if watched { 3 } else { 4 }) as usize;
                let ks: Vec<Bs> = (0..nk).map(|i| vec![b'a' + i as u8]).collect();
                let mut n = 0;
                for k in &ks {
                    if rng.chance(2, 3) {
                        n += 1;
                        setup.push(gen::set(k, &MVal::Int(1000 * n)));
                    }
                }
                for _ in 0..rng.range(2, if big { 5 } else { 4 }) {
                    let mut ops = vec![];
                    for _ in 0..rng.range(1, if big { 6 } else { 4 }) {
                        let mut r = gen::plain(rng, &ks, if watched { &WATCH } else { &REN });
                        if r.cmd == IS && rng.chance(2, 3) {
                            r.kt = Some(T_INT);
                        }
                        if matches!(r.cmd, EXISTS | IS) && watched && r.args.len() < 2 {
                            r.args = ks.clone();
                            if rng.chance(1, 2) {
                                r.args.reverse();
                            }
                        }
                        if r.cmd == SET {
                            n += 1;
                            r = gen::set(&r.args[0].clone(), &MVal::Int(1000 * n));
                        }
                        if r.cmd == APPEND {
                            r.kt = None
                        }
                        ops.push(r);
                    }
                    threads.push(ops);
                }
            }
            _ => {
                nk = rng.range(1, 3) as usize;
                let ks = gen::keys(rng, nk);
                for k in &ks {
                    if rng.chance(1, 2) {
                        let t = if rng.chance(4, 5) { gen::affinity(k) } else { rng.below(8) as u8 };
                        setup.push(gen::set(k, &gen::val(rng, t)));
                    }
                }
                let cmds: Vec<u8> = if prop == "C16" || rng.chance(1, 3) { ALL.to_vec() } else { MIX.to_vec() };
                // sometimes concentrate on few commands
                let cmds: Vec<u8> = if rng.chance(1, 3) {
                    (0..3).map(|_| *rng.pick(&cmds)).collect()
                } else {
                    cmds
                };
                for _ in 0..rng.range(2, if big { 5 } else { 4 }) {
                    threads.push(
                        (0..rng.range(1, if big { 6 } else { 4 }))
                            .map(|_| {
                                if rng.chance(1, 12) {
                                    gen::wild(rng, &ks)
                                } else {
                                    gen::plain(rng, &ks, &cmds)
                                }
                            })
                            .collect(),
                    );
                }
            }
        }
        if rng.chance(1, 40) && prop != "C16" {
            // a crowd
            let ops: Vec<Req> = threads.iter().flatten().cloned().collect();
            for _ in 0..rng.range(3, if prop == "C04" { 6 } else { 12 }) {
                threads.push((0..rng.range(1, 2)).map(|_| rng.pick(&ops).clone()).collect());
            }
        }
        if rng.chance(1, 8) {
            // values that are not small
            for r in setup.iter_mut() {
                let n = *rng.pick(&[20usize, 64, 100, 128, 200, 250]);
                match r.kt {
                    Some(T_LIST | T_SET) => {
                        r.args.truncate(1);
                        r.args.extend((0..n).map(|i| format!("e{}", i).into_bytes()));
                    }
                    Some(T_MAP) => {
                        r.args.truncate(1);
                        r.args.extend((0..n / 2 * 2).map(|i| format!("e{}", i).into_bytes()));
                    }
                    Some(T_STR | T_BYTES) if r.args.len() > 1 => r.args[1] = vec![b'w'; n * n],
                    _ => {}
                }
            }
        }
        let fill = if rng.chance(1, 60) { *rng.pick(&[10u32, 30, 60, 120, 500, 2000]) } else { 0 };
        let n: usize = threads.iter().map(|t: &Vec<Req>| t.len()).sum();
        (
            serde_json::to_value(Plan {
                setup,
                fill,
                threads,
                lin: true,
            })
            .unwrap(),
            base_cfg(rng, (n * 8) as u32),
        )
    }
    fn exec(&self, prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: Plan = serde_json::from_value(plan.clone()).ok()?;
        if plan.threads.len() > 40 || plan.fill > 5000 || plan.setup.iter().chain(plan.threads.iter().flatten()).any(bad_req) {
            return None;
        }
        let prop = prop.to_string();
        Some(simcore::run(cfg, move || concurrent(&prop, plan)))
    }
}

/// An engine, however it was made.
pub fn any_engine() -> Hop {
    match simcore::hash_seed() % 5 {
        0 => Hop::builder().build(),
        1 => {
            let mut b = Hop::builder();
            b.sessions_active_max(1 << 20);
            Hop::from(b)
        }
        2 => Hop::default(),
        _ => Hop::new(),
    }
}

/// Requests that can't be put on the wire.
pub fn bad_req(r: &Req) -> bool {
    r.args.len() > 255 || !ALL.contains(&r.cmd) || r.kt.map_or(false, |k| k > 7) || (is_simple(r.cmd) && !r.args.is_empty())
}

fn concurrent(prop: &str, plan: Plan) {
    let hop = any_engine();
    let mut db = Db::new();
    let (mut good, mut bad) = (0u64, 0u64);
    for i in 0..plan.fill {
        let r = gen::req(INC, None, &[format!("fill{}", i).as_bytes()]);
        if dispatch(&hop, &r) != Some(Ok(MVal::Int(1))) {
            report("wrong answer", format!("{:?} on a new key did not answer 1", r));
        }
        good += 1;
    }
    for r in &plan.setup {
        let want = apply(&mut db, r);
        let got = dispatch(&hop, r);
        match &got {
            Some(g) if matches(r, &want, g) => {}
            g => report(
                "wrong answer",
                format!("{:?} answered {:?} instead of {}", r, g.as_ref().map(show_r), show_m(&want)),
            ),
        }
        match got {
            Some(Ok(_)) => good += 1,
            _ => bad += 1,
        }
    }
    let init = db.clone();
    let hist: Rc<RefCell<Vec<HOp>>> = Default::default();
    // (inv, ret, successes, failures read)
    let stats: Rc<RefCell<Vec<(u64, u64, i64, i64)>>> = Default::default();
    let mut hs = vec![];
    for (t, ops) in plan.threads.iter().enumerate() {
        let (hop, ops, hist, stats) = (hop.clone(), ops.clone(), hist.clone(), stats.clone());
        hs.push(simcore::spawn(format!("caller {}", t), move || {
            for r in ops {
                let inv = simcore::stamp();
                let resp = dispatch(&hop, &r);
                let ret = simcore::stamp();
                if let (STATS, Some(Ok(MVal::Map(m)))) = (r.cmd, &resp) {
                    stats.borrow_mut().push((inv, ret, stat(m, "commands_successful"), stat(m, "commands_errored")));
                }
                let Some(resp) = resp else { return };
                hist.borrow_mut().push(HOp {
                    client: t,
                    inv,
                    ret: Some(ret),
                    req: r,
                    resp: Some(resp),
                    ordered: true,
                });
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let mut hist = Rc::try_unwrap(hist).map(|h| h.into_inner()).unwrap_or_default();
    // statistics at rest and while running
    for o in &hist {
        match o.resp {
            Some(Ok(_)) => good += 1,
            _ => bad += 1,
        }
    }
    let m = hop.metrics();
    let (g, b) = (
        m.counter(&Metric::CommandsSuccessful).unwrap_or(0),
        m.counter(&Metric::CommandsErrored).unwrap_or(0),
    );
    if (g, b) != (good, bad) && simcore::panics().is_empty() {
        report(
            "statistics",
            format!("{} successes and {} failures are counted as {} and {}", good, bad, g, b),
        );
    }
    let s0 = (plan.setup.len() as i64, hist.len());
    let _ = s0;
    for (inv, ret, gs, bs) in stats.borrow().iter() {
        for (name, val, pred) in [
            ("successful", *gs, true),
            ("errored", *bs, false),
        ] {
            let base = plan.setup.len() as i64;
            let is = |o: &&HOp| matches!(o.resp, Some(Ok(_))) == pred;
            let done = hist.iter().filter(|o| o.ret.unwrap() < *inv).filter(is).count() as i64;
            let begun = hist.iter().filter(|o| o.inv < *ret).filter(is).count() as i64;
            // the setup's own share
            let sh = if pred { good } else { bad } as i64 - hist.iter().filter(is).count() as i64;
            let _ = base;
            if val < sh + done || val > sh + begun {
                report(
                    "statistics",
                    format!(
                        "statistics say {} {} commands; {} had completed and {} had begun",
                        val,
                        name,
                        sh + done,
                        sh + begun
                    ),
                );
            }
        }
    }
    // final content, read one key at a time
    let mut names: Vec<Bs> = init.keys().cloned().collect();
    for o in &hist {
        names.extend(keys_of(&o.req).into_iter().cloned());
    }
    names.extend(all_keys(&hop).unwrap_or_default());
    names.sort();
    names.dedup();
    let neighbours = (0..plan.fill).filter(|i| hop.state().contains_key(format!("fill{}", i).as_bytes())).count();
    if neighbours != plan.fill as usize {
        report(
            "wrong content",
            format!("{} of {} keys that nobody touched are left", neighbours, plan.fill),
        );
    }
    names.retain(|k| !k.starts_with(b"fill"));
    for k in &names {
        if k.is_empty() || k.starts_with(b"__hop__:") {
            if hop.state().contains_key(k) {
                report("wrong content", format!("reserved key {} was created", crate::hx::show(k)));
            }
            continue;
        }
        let r = gen::req(GET, None, &[k]);
        let inv = simcore::stamp();
        if let Some(resp) = dispatch(&hop, &r) {
            hist.push(HOp {
                client: usize::MAX,
                inv,
                ret: Some(simcore::stamp()),
                req: r,
                resp: Some(resp),
                ordered: true,
            });
        }
    }
    tally("operations", hist.len() as u64);
    shapeup(&hist);
    if prop == "C02" {
        conserve(&init, &hist);
    }
    if plan.lin {
        match lin::check(&init, &hist, 300_000) {
            lin::Lin::Ok => tally("histories linearized", 1),
            lin::Lin::Unknown => tally("histories too large to decide", 1),
            lin::Lin::Bad(d) => report("not linearizable", d),
        }
    }
}

pub fn stat(m: &std::collections::BTreeMap<Bs, Bs>, name: &str) -> i64 {
    m.get(name.as_bytes())
        .and_then(|v| v.as_slice().try_into().ok())
        .map(i64::from_be_bytes)
        .unwrap_or(0)
}

/// Nothing lost, nothing invented: sums and elements of keys that were only
/// counted or appended to.
fn conserve(init: &Db, hist: &[HOp]) {
    use std::collections::BTreeMap;
    let mut only: BTreeMap<Bs, bool> = BTreeMap::new();
    for o in hist {
        let add = matches!(o.req.cmd, INC | DEC | INCBY | DECBY | APPEND | GET);
        for k in keys_of(&o.req) {
            let e = only.entry(k.clone()).or_insert(true);
            *e &= add;
        }
    }
    for (k, v) in only {
        if !v {
            continue;
        }
        let fin = hist
            .iter()
            .filter(|o| o.client == usize::MAX && o.req.args[0] == k)
            .find_map(|o| o.resp.clone()?.ok());
        let mine: Vec<&HOp> = hist
            .iter()
            .filter(|o| o.client != usize::MAX && o.req.args.first() == Some(&k) && o.req.cmd != GET)
            .filter(|o| matches!(o.resp, Some(Ok(_))))
            .collect();
        tally("keys with conservation checked", 1);
        let bad = match (&fin, init.get(&k)) {
            (Some(MVal::Int(f)), i) => {
                let mut s = match i {
                    Some(MVal::Int(i)) => *i,
                    _ => 0,
                };
                for o in &mine {
                    let by = o.req.args.get(1).map_or(1, |a| i64::from_be_bytes(a[..8].try_into().unwrap()));
                    s = match o.req.cmd {
                        INC | INCBY => s.wrapping_add(by),
                        _ => s.wrapping_sub(by),
                    }
                }
                (s != *f).then(|| format!("sum {}", s))
            }
            (Some(MVal::List(l)), i) => {
                let mut want: Vec<Bs> = match i {
                    Some(MVal::List(i)) => i.clone(),
                    _ => vec![],
                };
                for o in &mine {
                    want.extend(o.req.args[1..].iter().cloned())
                }
                let mut l = l.clone();
                l.sort();
                want.sort();
                (l != want).then(|| format!("elements {:?}", MVal::List(want)))
            }
            _ => None,
        };
        if let Some(b) = bad {
            report(
                "not conserved",
                format!("key {} ends as {:?} instead of {}", crate::hx::show(&k), fin, b),
            );
        }
    }
}

// ---- sequential -------------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
struct Step {
    req: Req,
    #[serde(default)]
    more: u32,
}
#[derive(Clone, Serialize, Deserialize)]
struct SeqPlan {
    steps: Vec<Step>,
    /// a list, a string or bytes (key and kind) of so many items or bytes are there from the start
    #[serde(default)]
    large: Option<Large>,
}
#[derive(Clone, Serialize, Deserialize)]
struct Large {
    #[serde(with = "crate::hx")]
    key: Bs,
    kt: u8,
    n: u32,
}

pub struct Sequential;

impl Family for Sequential {
    fn name(&self) -> &'static str {
        "history"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        Concurrent.parts()
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 5) as usize;
        let mut ks = gen::keys(rng, nk);
        if rng.chance(1, 1000) {
            // a key longer than two bytes can count
            let n = *rng.pick(&[65_535usize, 65_536, 65_537, 65_800, 131_072]);
            let k = rng.pick(&ks).len();
            let i = rng.below(nk as u64) as usize;
            ks[i].extend(vec![b'k'; n - k.min(n)]);
        }
        let mut steps = vec![];
        let wildness = match prop {
            "C03" => rng.range(2, 8),
            _ => rng.range(0, 5),
        };
        for _ in 0..rng.range(4, if deep { 60 } else { 30 }) {
            let req = if rng.chance(wildness, 10) {
                gen::wild(rng, &ks)
            } else {
                gen::plain(rng, &ks, &ALL)
            };
            steps.push(Step { req, more: 0 });
        }
        if rng.chance(1, 100) {
            // over and over
            for _ in 0..rng.range(1, 3) {
                let req = gen::plain(rng, &ks, &[INC, DECBY, APPEND, INCBY, ECHO]);
                let more = *rng.pick(&[20u32, 127, 255, 256, 300]);
                let pos = rng.below(steps.len() as u64) as usize;
                steps.insert(pos, Step { req, more });
            }
        }
        if rng.chance(1, 100) {
            // a database of many keys
            let pos = rng.below(steps.len() as u64) as usize;
            for i in 0..*rng.pick(&[20u32, 60, 120]) {
                let r = gen::req(INC, None, &[format!("i{}", i).as_bytes()]);
                steps.insert(pos, Step { req: r, more: 0 });
            }
        }
        if rng.chance(1, 12_000) {
            // up to the longest representable list
            let k = b"lbig".to_vec();
            let mut args = vec![k.clone()];
            args.extend((0..254).map(|_| vec![b'x']));
            let r = Req {
                cmd: APPEND,
                kt: Some(T_LIST),
                args,
            };
            let pos = rng.below(steps.len() as u64) as usize;
            steps.insert(pos, Step { req: r, more: 257 });
            for n in [3u64, 1, 2, 1] {
                let mut args = vec![k.clone()];
                args.extend((0..n).map(|_| vec![b'y']));
                steps.insert(
                    pos + 1,
                    Step {
                        req: Req {
                            cmd: APPEND,
                            kt: if rng.chance(1, 2) { Some(T_LIST) } else { None },
                            args,
                        },
                        more: 0,
                    },
                );
            }
        }
        if rng.chance(1, 40) {
            // items at the limit of the format
            let n = *rng.pick(&[255usize, 256, 65535, 65536]);
            let kt = *rng.pick(&[T_MAP, T_SET, T_LIST, T_STR, T_BYTES]);
            let req = Req {
                cmd: SET,
                kt: Some(kt),
                args: vec![b"mbig".to_vec(), vec![b'k'; n], b"v".to_vec()],
            };
            let pos = rng.below(steps.len() as u64) as usize;
            steps.insert(pos, Step { req, more: 0 });
            let req = Req {
                cmd: SET,
                kt: None,
                args: vec![b"mbig".to_vec(), vec![b'q'; n], b"v".to_vec()],
            };
            steps.insert(pos + 1, Step { req, more: 0 });
        }
        let mut large = None;
        if rng.chance(1, 1000) {
            let (kt, c) = *rng.pick(&[(T_LIST, b'l'), (T_LIST, b'l'), (T_STR, b's'), (T_BYTES, b'b')]);
            let n = *rng.pick(&[1000u32, 1023, 4096, 32_766, 32_767, 65_533, 65_534, 65_535, 65_536, 70_000, 131_071, 1 << 20]);
            let n = if kt == T_LIST { n.min(65_535) } else { n };
            let k = vec![c, b'9'];
            let keys = [k.clone(), vec![c, b'8']];
            steps = (0..rng.range(2, 8))
                .map(|_| Step {
                    req: gen::plain(
                        rng,
                        &keys,
                        &[APPEND, APPEND, APPEND, APPEND, LENGTH, GET, TYPE, RENAME, SET, IS, DELETE],
                    ),
                    more: 0,
                })
                .collect();
            large = Some(Large { key: k, kt, n });
        }
        let mut c = base_cfg(rng, 100);
        c.max_steps = 2_000_000;
        (serde_json::to_value(SeqPlan { steps, large }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: SeqPlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.steps.iter().any(|s| bad_req(&s.req)) {
            return None;
        }
        if matches!(&plan.large, Some(l) if l.key.is_empty() || l.key.starts_with(b"__hop__:") || l.n > 1 << 21 || (l.kt == T_LIST && l.n > 65_535)) {
            return None;
        }
        Some(simcore::run(cfg, move || sequential(plan)))
    }
}

fn sequential(plan: SeqPlan) {
    let hop = any_engine();
    let mut db = Db::new();
    let (mut good, mut bad) = (0i64, 0i64);
    if let Some(Large { key, kt, n }) = plan.large {
        let n = n as usize;
        let (v, m) = match kt {
            T_LIST => (hop_engine::state::Value::List(vec![b"x".to_vec(); n]), MVal::List(vec![b"x".to_vec(); n])),
            T_STR => (hop_engine::state::Value::String("x".repeat(n)), MVal::Str("x".repeat(n))),
            _ => (hop_engine::state::Value::Bytes(vec![b'x'; n]), MVal::Bytes(vec![b'x'; n])),
        };
        hop.state().insert(key.clone(), v);
        db.insert(key, m);
    }
    for (n, s) in plan.steps.iter().enumerate() {
        let r = &s.req;
        for rep in 0..=s.more {
            let want = apply(&mut db, r);
            let Some(got) = dispatch(&hop, r) else { return };
            if !matches(r, &want, &got) {
                report(
                    "wrong answer",
                    format!("step {}: {:?} answered {} instead of {}", n, r, show_r(&got), show_m(&want)),
                );
                return;
            }
            if r.cmd == STATS {
                if let Ok(MVal::Map(m)) = &got {
                    let (g, b) = (stat(m, "commands_successful"), stat(m, "commands_errored"));
                    if (g, b) != (good, bad) {
                        report(
                            "statistics",
                            format!("{} successes and {} failures are reported as {} and {}", good, bad, g, b),
                        );
                        return;
                    }
                    for k in ["sessions_started", "sessions_ended"] {
                        if stat(m, k) != 0 {
                            report("statistics", format!("{} is {} without any session", k, stat(m, k)));
                        }
                    }
                }
            }
            match &got {
                Ok(_) => good += 1,
                Err(_) => bad += 1,
            }
            tally(if got.is_ok() { "commands accepted" } else { "commands rejected" }, 1);
            shape(fw::hash_bytes(show_r(&got).as_bytes()));
            if rep == s.more {
                let extra: Vec<&Bs> = r.args.iter().collect();
                if !compare(&hop, &db, &extra, &|| format!("step {}: {:?} -> {}", n, r, show_r(&got))) {
                    return;
                }
            }
        }
    }
    dismantle(&hop, &db);
}
