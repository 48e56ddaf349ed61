//! Linearizability of a recorded history against the model (Wing & Gong search
//! with memoisation, one connected set of keys at a time).
use crate::engine::weight;
use crate::model::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct HOp {
    pub client: usize,
    pub inv: u64,
    /// None: never answered; it may or may not have taken effect
    pub ret: Option<u64>,
    pub req: Req,
    pub resp: Option<Result<MVal, u8>>,
    /// must come after all earlier operations of the client, even if they overlap
    pub ordered: bool,
}

pub enum Lin {
    Ok,
    Bad(String),
    /// search budget exhausted
    Unknown,
}

fn find(p: &mut Vec<usize>, i: usize) -> usize {
    let mut r = i;
    while p[r] != r {
        r = p[r]
    }
    p[i] = r;
    r
}

/// Check `ops` starting from `init`.
pub fn check(init: &Db, ops: &[HOp], budget: usize) -> Lin {
    // a positive multi-key answer is one answer per key
    let mut list: Vec<HOp> = vec![];
    for o in ops {
        match (&o.resp, o.req.cmd) {
            (Some(Ok(MVal::Bool(true))), EXISTS | IS) if o.req.args.len() > 1 => {
                for k in &o.req.args {
                    let mut p = o.clone();
                    p.req.args = vec![k.clone()];
                    p.ordered = false;
                    list.push(p)
                }
            }
            (None, EXISTS | IS | GET | LENGTH | KEYS | TYPE | ECHO | STATS) => {}
            (_, ECHO | STATS) => {
                let want = apply(&mut Db::new(), &o.req);
                if let Some(got) = &o.resp {
                    if !matches(&o.req, &want, got) {
                        return Lin::Bad(format!(
                            "{:?} answered {} instead of {}",
                            o.req,
                            show_r(got),
                            show_m(&want)
                        ));
                    }
                }
            }
            _ => list.push(o.clone()),
        }
    }
    let mut ids: BTreeMap<Bs, usize> = BTreeMap::new();
    let mut par: Vec<usize> = vec![];
    let mut first = vec![];
    for o in &list {
        let mut prev: Option<usize> = None;
        let ks = keys_of(&o.req);
        for k in ks {
            let n = *ids.entry(k.clone()).or_insert_with(|| {
                par.push(par.len());
                par.len() - 1
            });
            if let Some(p) = prev {
                let (a, b) = (find(&mut par, p), find(&mut par, n));
                par[a] = b;
            }
            prev = Some(n);
        }
        first.push(prev);
    }
    let mut comps: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, f) in first.iter().enumerate() {
        let c = match f {
            Some(f) => find(&mut par, *f),
            None => usize::MAX,
        };
        comps.entry(c).or_default().push(i);
    }
    let mut unknown = false;
    for (c, idx) in comps {
        let part: Vec<HOp> = idx.iter().map(|i| list[*i].clone()).collect();
        let mut db = Db::new();
        for (k, n) in &ids {
            if c != usize::MAX && find(&mut par, *n) == c {
                if let Some(v) = init.get(k) {
                    db.insert(k.clone(), v.clone());
                }
            }
        }
        match search(db, &part, budget) {
            Lin::Ok => {}
            Lin::Unknown => unknown = true,
            b => return b,
        }
    }
    if unknown {
        Lin::Unknown
    } else {
        Lin::Ok
    }
}

/// Bytes of databases one search may keep.
const ROOM: usize = 200 << 20;

/// Bytes one search may copy, compare and hash.
const WORK: usize = 600 << 20;

fn size_of(db: &Db) -> usize {
    db.iter().map(|(k, v)| 64 + k.len() + weight(v)).sum()
}

fn search(init: Db, ops: &[HOp], budget: usize) -> Lin {
    let n = ops.len();
    if n > 128 {
        return in_order(init, ops);
    }
    // preds[i]: operations that must be linearized before i
    let mut preds = vec![0u128; n];
    let mut need = 0u128;
    for i in 0..n {
        if ops[i].resp.is_some() {
            need |= 1 << i;
        }
        for j in 0..n {
            if i == j {
                continue;
            }
            let rt = ops[j].ret.map_or(false, |r| r < ops[i].inv);
            let po = ops[i].ordered
                && ops[j].ordered
                && ops[i].client == ops[j].client
                && (ops[j].inv, j) < (ops[i].inv, i)
                && ops[j].resp.is_some();
            if rt || po {
                preds[i] |= 1 << j;
            }
        }
    }
    // operations without an answer never block others
    for p in preds.iter_mut() {
        *p &= need;
    }
    let mut seen: HashSet<(u128, Db)> = HashSet::new();
    let mut stack: Vec<(u128, Db)> = vec![(0, init)];
    let mut best = (0u32, 0u128, Db::new());
    let mut left = budget;
    let mut room = ROOM;
    let mut work = WORK;
    while let Some((done, mut db)) = stack.pop() {
        if done & need == need {
            return Lin::Ok;
        }
        if left == 0 || room == 0 || work == 0 {
            return Lin::Unknown;
        }
        left -= 1;
        let c = (done & need).count_ones();
        if c >= best.0 {
            best = (c, done, db.clone());
        }
        for i in (0..n).rev() {
            if done >> i & 1 == 1 || preds[i] & !done != 0 {
                continue;
            }
            // the operation may change no other keys
            let before: Vec<(&Bs, Option<MVal>)> =
                keys_of(&ops[i].req).into_iter().map(|k| (k, db.get(k).cloned())).collect();
            let touched: usize = before.iter().map(|(_, v)| v.as_ref().map_or(64, weight)).sum();
            let want = apply(&mut db, &ops[i].req);
            let ok = match &ops[i].resp {
                Some(got) => matches(&ops[i].req, &want, got),
                None => want.is_ok(),
            };
            work = work.saturating_sub(64 + 4 * touched);
            if ok {
                let size = size_of(&db);
                work = work.saturating_sub(2 * size);
                let nx = (done | 1 << i, db.clone());
                if !seen.contains(&nx) {
                    work = work.saturating_sub(2 * size);
                    room = room.saturating_sub(size);
                    seen.insert(nx.clone());
                    stack.push(nx);
                }
            }
            for (k, v) in before {
                match v {
                    Some(v) => db.insert(k.clone(), v),
                    None => db.remove(k),
                };
            }
        }
    }
    let mut out = String::from("no order of these operations explains the answers:");
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by_key(|i| ops[*i].inv);
    for i in v {
        out.push_str(&format!(
            "\n  [{}..{}] {}: {:?} -> {}{}",
            ops[i].inv,
            ops[i].ret.map_or("".into(), |r| r.to_string()),
            if ops[i].client == usize::MAX {
                "at the end".into()
            } else {
                format!("client {}", ops[i].client)
            },
            ops[i].req,
            ops[i].resp.as_ref().map_or("no answer".into(), show_r),
            if best.1 >> i & 1 == 1 { "" } else { "   (not explained)" }
        ));
    }
    out.push_str(&format!("\n  longest explained prefix leaves {:?}", best.2));
    Lin::Bad(out)
}

/// Long histories, decided only if there is nothing to choose.
fn in_order(mut db: Db, ops: &[HOp]) -> Lin {
    let mut v: Vec<usize> = (0..ops.len()).collect();
    v.sort_by_key(|i| (ops[*i].inv, *i));
    for w in v.windows(2) {
        let (a, b) = (&ops[w[0]], &ops[w[1]]);
        let known = (a.client == b.client && a.ordered && b.ordered) || a.ret.map_or(false, |r| r < b.inv);
        if !known || a.resp.is_none() {
            return Lin::Unknown;
        }
    }
    for i in v {
        let o = &ops[i];
        let want = apply(&mut db, &o.req);
        match &o.resp {
            Some(got) if !matches(&o.req, &want, got) => {
                return Lin::Bad(format!(
                    "operation {} of client {} in order: {:?} -> {} instead of {}",
                    i,
                    o.client,
                    o.req,
                    show_r(got),
                    show_m(&want)
                ))
            }
            _ => {}
        }
    }
    Lin::Ok
}

/// An operation of any kind: begun, finished, what happened.
pub type Ev<O> = (u64, u64, O);

/// Linearizability of a history of any object; `step` gives the state after an
/// operation, if it could have gone that way.
pub fn explains<S, O>(init: S, ops: &[Ev<O>], budget: usize, step: impl Fn(&S, &O) -> Option<S>) -> Lin
where
    S: Clone + Eq + std::hash::Hash + std::fmt::Debug,
    O: std::fmt::Debug,
{
    let n = ops.len();
    if n > 128 {
        return Lin::Unknown;
    }
    let preds: Vec<u128> = (0..n)
        .map(|i| (0..n).filter(|j| ops[*j].1 < ops[i].0).fold(0, |m, j| m | 1 << j))
        .collect();
    let all = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    let mut seen: HashSet<(u128, S)> = HashSet::new();
    let mut stack = vec![(0u128, init.clone())];
    let mut best = (0u128, init);
    let mut left = budget;
    while let Some((done, s)) = stack.pop() {
        if done == all {
            return Lin::Ok;
        }
        if left == 0 {
            return Lin::Unknown;
        }
        left -= 1;
        if done.count_ones() >= best.0.count_ones() {
            best = (done, s.clone());
        }
        for i in (0..n).rev() {
            if done >> i & 1 == 1 || preds[i] & !done != 0 {
                continue;
            }
            if let Some(t) = step(&s, &ops[i].2) {
                let nx = (done | 1 << i, t);
                if seen.insert(nx.clone()) {
                    stack.push(nx);
                }
            }
        }
    }
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by_key(|i| ops[*i].0);
    let mut out = String::from("no order of these operations explains what they returned:");
    for i in v {
        out.push_str(&format!(
            "\n  [{}..{}] {:?}{}",
            ops[i].0,
            ops[i].1,
            ops[i].2,
            if best.0 >> i & 1 == 1 { "" } else { "   (not explained)" }
        ));
    }
    out.push_str(&format!("\n  longest explained prefix leaves {:?}", best.1));
    Lin::Bad(out)
}
