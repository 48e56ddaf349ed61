//! Programs using the client crate: over simulated connections to the real server,
//! to a misbehaving one, and in-process.
use crate::{
    alloc,
    fw::{self, base_cfg, report, shape, tally, Family},
    gen, hx, lin,
    lin::HOp,
    model::*,
    netx::{self, Act, SERVER},
    server::{judge, start_server, Counts},
    wire::{self, V},
};
use hop::{
    backend::{memory, server, Backend, MemoryBackend, ServerBackend},
    model::StatsData,
    request::CommandConfigurationError,
    Client,
};
use hop_engine::state::{KeyType, Value as HVal};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{net, rng::Rng, Config, Fault, Outcome, Pid};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    convert::TryFrom,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::Arc,
    task::{Context, Poll},
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const S: u64 = 1_000_000_000;

// ---- one operation of the client API ------------------------------------------

/// A call of the client API, described by the request it stands for.
#[derive(Clone, Serialize, Deserialize)]
pub struct Call {
    pub req: Req,
    /// the other way to say the same: `keys` instead of `key`, `value` instead of a
    /// typed setter, `by(1)` instead of nothing
    #[serde(default)]
    pub alt: bool,
    /// more generated arguments
    #[serde(default)]
    pub pad: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CErr {
    Dispatch(u8),
    Parse(u8),
    Build,
    Config,
    Unsupported,
    BadResponse,
    /// connection lost, closed or never there
    Conn(String),
}

pub trait Wrap {
    fn plain(self) -> CErr;
}
impl Wrap for memory::Error {
    fn plain(self) -> CErr {
        use memory::Error::*;
        match self {
            BadRequest { source } => CErr::Parse(source as u8),
            BuildingRequest { .. } => CErr::Build,
            Dispatching { source } | RunningCommand { source } => CErr::Dispatch(source as u8),
            KeyTypeInvalid { .. } => CErr::BadResponse,
            KeyTypeUnsupported { .. } => CErr::Unsupported,
        }
    }
}
impl Wrap for server::Error {
    fn plain(self) -> CErr {
        use server::Error::*;
        let text = self.to_string();
        match self {
            BadRequest { reason } => CErr::Parse(reason as u8),
            BadResponse => CErr::BadResponse,
            BuildingRequest { .. } => CErr::Build,
            Dispatching { reason } => CErr::Dispatch(reason as u8),
            KeyTypeInvalid { .. } => CErr::BadResponse,
            KeyTypeUnsupported { .. } => CErr::Unsupported,
            Connecting { source } | ReadingMessage { source } | WritingMessage { source } => {
                CErr::Conn(format!("{}: {}", text, source))
            }
            ConnectionClosed => CErr::Conn(text),
        }
    }
}
impl Wrap for CommandConfigurationError {
    fn plain(self) -> CErr {
        CErr::Config
    }
}

pub type CRes = Result<MVal, CErr>;

/// The client API, or the backend beneath it.
pub enum Caller<B: Backend> {
    Client(Arc<Client<B>>),
    Raw(Arc<B>),
}
impl<B: Backend> Clone for Caller<B> {
    fn clone(&self) -> Self {
        match self {
            Caller::Client(c) => Caller::Client(c.clone()),
            Caller::Raw(b) => Caller::Raw(b.clone()),
        }
    }
}

/// Arguments after the key, as a value (without the rules of the server).
pub fn value_of(kt: u8, args: &[Bs]) -> MVal {
    let first = args.first().cloned().unwrap_or_default();
    let eight = || {
        let mut b = [0u8; 8];
        for (i, x) in first.iter().take(8).enumerate() {
            b[i] = *x
        }
        b
    };
    match kt {
        T_BYTES => MVal::Bytes(first),
        T_BOOL => MVal::Bool(first.first().map_or(false, |b| *b > 0)),
        T_FLOAT => MVal::float(f64::from_be_bytes(eight())),
        T_INT => MVal::Int(i64::from_be_bytes(eight())),
        T_LIST => MVal::List(args.to_vec()),
        T_MAP => MVal::Map(
            args.chunks(2)
                .map(|c| (c[0].clone(), c.get(1).cloned().unwrap_or_default()))
                .collect(),
        ),
        T_SET => MVal::Set(args.iter().cloned().collect()),
        _ => MVal::Str(String::from_utf8_lossy(&first).into_owned()),
    }
}

impl Call {
    /// The request this call stands for.
    pub fn model(&self) -> Req {
        let mut r = self.req.clone();
        if self.pad > 0 {
            let n = self.pad as u32;
            r.args.extend((0..n).map(|i| format!("p{}", i).into_bytes()));
        }
        if matches!(r.cmd, SET | APPEND) {
            let v = value_of(r.kt.unwrap_or(T_BYTES), &r.args[1..]);
            r.args.truncate(1);
            r.args.extend(v.args());
        }
        r
    }
    /// May building this request fail?
    pub fn unbuildable(&self) -> bool {
        let r = self.model();
        r.args.len() > 255 || r.args.iter().any(|a| a.is_empty()) || (matches!(r.cmd, SET | APPEND) && r.args.len() < 2)
    }
    /// Is there no call that stands for this request?
    pub fn ill_formed(&self, raw: bool) -> bool {
        let r = &self.req;
        let n = r.args.len();
        let odd = match r.cmd {
            INC | DEC => r.kt.is_some() && !raw,
            INCBY | DECBY => match r.kt {
                Some(T_INT | T_FLOAT) => false,
                k => !raw || k.is_none(),
            },
            APPEND => !raw && !matches!(r.kt, Some(T_BYTES | T_LIST | T_STR)),
            LENGTH => !raw && matches!(r.kt, Some(T_BOOL | T_FLOAT | T_INT)),
            SET | GET | IS => false,
            _ => r.kt.is_some(),
        };
        if odd {
            return true;
        }
        r.args.iter().any(|a| a.len() > 4 << 20)
            || self.pad > 600
            || r.kt.map_or(false, |k| k > 7)
            || match r.cmd {
                INC | DEC => n != 1,
                INCBY | DECBY => n != 2 || r.args[1].len() != 8,
                SET | APPEND => n < 1 || r.kt.is_none(),
                GET | DELETE | TYPE | LENGTH | KEYS | ECHO => n != 1,
                IS => r.kt.is_none() || (!self.alt && n != 1),
                EXISTS => !self.alt && n != 1,
                RENAME => n != 2,
                STATS => n != 0,
                _ => true,
            }
    }
    /// Does the client itself turn a successful answer into this error?
    pub fn local_mismatch(&self, r: &CRes) -> bool {
        self.req.cmd == GET && self.req.kt.is_some() && *r == Err(CErr::Dispatch(E_DIFF))
    }
}

fn kt(k: u8) -> KeyType {
    KeyType::try_from(k).expect("a key type")
}
fn mv(v: HVal) -> MVal {
    MVal::from_value(&v)
}
fn stats(s: StatsData) -> MVal {
    let mut m = BTreeMap::new();
    for (k, v) in [
        ("commands_errored", s.commands_errored()),
        ("commands_successful", s.commands_successful()),
        ("sessions_ended", s.sessions_ended()),
        ("sessions_started", s.sessions_started()),
    ] {
        m.insert(k.as_bytes().to_vec(), v.to_be_bytes().to_vec());
    }
    MVal::Map(m)
}

/// A number of keys that no request can carry is refused when it is configured.
fn configured(k: &Call) {
    let n = k.model().args.len();
    if n == 0 || n > 255 {
        report("unrepresentable request configured", format!("{} of {} keys", cmd_name(k.req.cmd), n));
    }
}

async fn typed<B>(c: &Client<B>, k: &Call) -> CRes
where
    B: Backend + Send + Sync + 'static,
    B::Error: Wrap,
{
    fn e<T, X: Wrap>(r: Result<T, X>, f: impl FnOnce(T) -> MVal) -> CRes {
        r.map(f).map_err(|x| x.plain())
    }
    let r = k.model();
    let key = r.args.first().cloned().unwrap_or_default();
    match r.cmd {
        INC => e(c.increment(key).await, mv),
        DEC => e(c.decrement(key).await, mv),
        INCBY | DECBY => {
            let b: [u8; 8] = r.args[1][..].try_into().unwrap();
            let (i, f) = (i64::from_be_bytes(b), f64::from_be_bytes(b));
            match (r.cmd, r.kt) {
                (INCBY, Some(T_FLOAT)) => {
                    let q = c.increment(key).float();
                    let q = if f == 1.0 && !k.alt { q } else { q.by(f) };
                    e(q.await, MVal::float)
                }
                (INCBY, _) => {
                    let q = c.increment(key).int();
                    let q = if i == 1 && !k.alt { q } else { q.by(i) };
                    e(q.await, MVal::Int)
                }
                (_, Some(T_FLOAT)) => {
                    let q = c.decrement(key).float();
                    let q = if f == 1.0 && !k.alt { q } else { q.by(f) };
                    e(q.await, MVal::float)
                }
                _ => {
                    let q = c.decrement(key).int();
                    let q = if i == 1 && !k.alt { q } else { q.by(i) };
                    e(q.await, MVal::Int)
                }
            }
        }
        SET => {
            let v = value_of(r.kt.unwrap(), &r.args[1..]);
            let q = c.set(key);
            if k.alt {
                return e(q.value(v.to_value()).await, mv);
            }
            match v {
                MVal::Bool(v) => e(q.bool(v).await, MVal::Bool),
                MVal::Bytes(v) => e(q.bytes(v).await, MVal::Bytes),
                MVal::Float(v) => e(q.float(f64::from_bits(v)).await, MVal::float),
                MVal::Int(v) => e(q.int(v).await, MVal::Int),
                MVal::List(v) => e(q.list(v).await, MVal::List),
                MVal::Map(v) => e(q.map(v).await, |m| mv(HVal::Map(m))),
                MVal::Set(v) => e(q.set(v.into_iter().collect::<Vec<_>>()).await, |m| MVal::Set(m.into_iter().collect())),
                MVal::Str(v) => e(q.str(v).await, MVal::Str),
            }
        }
        APPEND => {
            let q = c.append(key);
            match value_of(r.kt.unwrap(), &r.args[1..]) {
                MVal::Bytes(v) => e(q.bytes(v).await, MVal::Bytes),
                MVal::List(v) => e(q.list(v).await, MVal::List),
                MVal::Str(v) => e(q.str(v).await, MVal::Str),
                _ => Err(CErr::Unsupported),
            }
        }
        GET => {
            let q = c.get(key);
            match r.kt {
                None => e(q.await, mv),
                Some(T_BYTES) => e(q.bytes().await, MVal::Bytes),
                Some(T_BOOL) => e(q.bool().await, MVal::Bool),
                Some(T_FLOAT) => e(q.float().await, MVal::float),
                Some(T_INT) => e(q.int().await, MVal::Int),
                Some(T_STR) => e(q.str().await, MVal::Str),
                Some(T_LIST) => e(q.list().await, MVal::List),
                Some(T_MAP) => e(q.map().await, |m| mv(HVal::Map(m))),
                _ => e(q.set().await, |m| mv(HVal::Set(m))),
            }
        }
        DELETE => e(c.delete(key).await, MVal::Bytes),
        TYPE => e(c.key_type(key).await, |t| MVal::Int(t as u8 as i64)),
        LENGTH => {
            let q = c.length(key);
            let q = match r.kt {
                Some(T_BYTES) => q.bytes(),
                Some(T_LIST) => q.list(),
                Some(T_MAP) => q.map(),
                Some(T_SET) => q.set(),
                Some(T_STR) => q.str(),
                _ => q,
            };
            e(q.await, MVal::Int)
        }
        KEYS => e(c.keys(key).await, MVal::List),
        ECHO => e(c.echo(key).await, MVal::List),
        EXISTS if k.alt => match c.exists().keys(r.args) {
            Ok(q) => {
                configured(k);
                e(q.await, MVal::Bool)
            }
            Err(x) => Err(x.plain()),
        },
        EXISTS => e(c.exists().key(key).await, MVal::Bool),
        IS if k.alt => match c.is(kt(r.kt.unwrap())).keys(r.args) {
            Ok(q) => {
                configured(k);
                e(q.await, MVal::Bool)
            }
            Err(x) => Err(x.plain()),
        },
        IS => e(c.is(kt(r.kt.unwrap())).key(key).await, MVal::Bool),
        RENAME => e(c.rename(key, r.args[1].clone()).await, MVal::Bytes),
        _ => e(c.stats().await, stats),
    }
}

async fn raw<B>(b: &B, k: &Call) -> CRes
where
    B: Backend,
    B::Error: Wrap,
{
    fn e<T, X: Wrap>(r: Result<T, X>, f: impl FnOnce(T) -> MVal) -> CRes {
        r.map(f).map_err(|x| x.plain())
    }
    let r = k.model();
    let key = r.args.first().cloned().unwrap_or_default();
    let t = r.kt.map(kt);
    match r.cmd {
        INC => e(b.increment(&key, t).await, mv),
        DEC => e(b.decrement(&key, t).await, mv),
        INCBY | DECBY => {
            let v = value_of(r.kt.unwrap_or(T_INT), &r.args[1..]).to_value();
            if r.cmd == INCBY {
                e(b.increment_by(&key, v).await, mv)
            } else {
                e(b.decrement_by(&key, v).await, mv)
            }
        }
        SET => e(b.set(&key, value_of(r.kt.unwrap(), &r.args[1..]).to_value()).await, mv),
        APPEND => e(b.append(&key, value_of(r.kt.unwrap(), &r.args[1..]).to_value()).await, mv),
        GET => match (e(b.get(&key).await, mv), r.kt) {
            (Ok(v), Some(k)) if v.kind() != k => Err(CErr::Dispatch(E_DIFF)),
            (x, _) => x,
        },
        DELETE => e(b.delete(&key).await, MVal::Bytes),
        TYPE => e(b.key_type(&key).await, |t| MVal::Int(t as u8 as i64)),
        LENGTH => e(b.length(&key, t).await, MVal::Int),
        KEYS => e(b.keys(&key).await, MVal::List),
        ECHO => e(b.echo(&key).await, MVal::List),
        EXISTS => e(b.exists(r.args).await, MVal::Bool),
        IS => e(b.is(t.unwrap(), r.args).await, MVal::Bool),
        RENAME => e(b.rename(&key, &r.args[1]).await, MVal::Bytes),
        _ => e(b.stats().await, stats),
    }
}

pub async fn call<B>(c: Caller<B>, k: Call) -> CRes
where
    B: Backend + Send + Sync + 'static,
    B::Error: Wrap,
{
    match &c {
        Caller::Client(c) => typed(c, &k).await,
        Caller::Raw(b) => raw(&**b, &k).await,
    }
}

/// Polls a future a number of times at most and then forgets it.
struct Cut<F> {
    f: Option<Pin<Box<F>>>,
    left: u32,
}
impl<F: Future> Future for Cut<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            self.f = None;
            return Poll::Ready(None);
        }
        self.left -= 1;
        let last = self.left == 0;
        match self.f.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if last {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
        }
    }
}

/// `None` when given up after `n` polls.
pub async fn cut<F: Future>(f: F, n: u32) -> Option<F::Output> {
    Cut {
        f: Some(Box::pin(f)),
        left: n,
    }
    .await
}

/// A call on one of `ks`; `tag` makes it recognisable.
pub fn gen_call(rng: &mut Rng, ks: &[Bs], tag: &str, raw: bool) -> Call {
    let mut r = if rng.chance(1, 8) {
        gen::wild(rng, ks)
    } else {
        gen::plain(rng, ks, &ALL)
    };
    if rng.chance(1, 8) {
        r = gen::req(ECHO, None, &[tag.as_bytes()]);
    }
    let mut alt = rng.chance(1, 2);
    let key = r.args.first().cloned().unwrap_or_default();
    match r.cmd {
        INC | DEC => {
            if !raw {
                r.kt = None
            }
            r.args = vec![key];
        }
        INCBY | DECBY => {
            if r.kt.is_none() || (!(raw && rng.chance(1, 8)) && r.kt != Some(T_FLOAT)) {
                r.kt = Some(T_INT);
            }
            let mut b = r.args.get(1).cloned().unwrap_or_default();
            b.resize(8, 0);
            if rng.chance(1, 6) {
                b = if r.kt == Some(T_FLOAT) { 1f64.to_be_bytes().to_vec() } else { 1i64.to_be_bytes().to_vec() };
            }
            if r.kt == Some(T_FLOAT) && f64::from_be_bytes(b[..].try_into().unwrap()).is_nan() {
                b = 2f64.to_be_bytes().to_vec();
            }
            r.args = vec![key, b];
        }
        SET => {
            if r.args.is_empty() {
                r.args.push(vec![]);
            }
            if r.kt.is_none() {
                r.kt = Some(gen::affinity(&key));
            }
            if r.kt == Some(T_BYTES) && rng.chance(1, 2) && r.args.len() > 1 {
                r.args[1] = tag.as_bytes().to_vec();
            }
        }
        APPEND => {
            if r.args.is_empty() {
                r.args.push(vec![]);
            }
            if !raw || r.kt.is_none() {
                r.kt = Some(match gen::affinity(&key) {
                    T_LIST => T_LIST,
                    T_STR => T_STR,
                    _ => *rng.pick(&[T_BYTES, T_BYTES, T_LIST, T_STR]),
                });
            }
        }
        GET | LENGTH => {
            r.args = vec![key];
            if r.cmd == LENGTH && !raw && matches!(r.kt, Some(T_BOOL | T_FLOAT | T_INT)) {
                r.kt = None;
            }
        }
        EXISTS => {
            r.kt = None;
            if r.args.len() != 1 {
                alt = true
            }
        }
        IS => {
            if r.kt.is_none() {
                r.kt = Some(gen::affinity(&key));
            }
            if r.args.len() != 1 {
                alt = true
            }
        }
        RENAME => {
            r.kt = None;
            let to = r.args.get(1).cloned().unwrap_or_default();
            r.args = vec![key, to];
        }
        STATS => {
            r.kt = None;
            r.args = vec![]
        }
        _ => {
            r.kt = None;
            r.args = vec![key]
        }
    }
    let pad = if rng.chance(1, 60) && matches!(r.cmd, SET | APPEND | EXISTS | IS) && (r.cmd == SET || r.cmd == APPEND || alt) {
        let n = r.args.len() as u16;
        *rng.pick(&[250u16, 254 - n.min(254), 255 - n.min(255), 256 - n.min(255), 300])
    } else {
        0
    };
    if pad > 0 && matches!(r.cmd, SET) && rng.chance(2, 3) {
        r.kt = Some(*rng.pick(&[T_LIST, T_SET, T_MAP]));
    }
    if pad > 0 && r.cmd == APPEND {
        r.kt = Some(T_LIST);
    }
    if rng.chance(1, 90) {
        // more than any buffer on the way holds
        let n = match rng.below(40) {
            0 => *rng.pick(&[1usize << 20, 3 << 20]),
            _ => *rng.pick(&crate::server::SIZES[..14]),
        } + rng.below(3) as usize;
        let value = matches!(r.cmd, SET | APPEND) && matches!(r.kt, Some(T_BYTES | T_STR | T_LIST | T_MAP | T_SET));
        if value || r.cmd == ECHO || rng.chance(1, 8) {
            if let Some(a) = r.args.last_mut() {
                if !matches!(r.cmd, INCBY | DECBY) {
                    *a = vec![b'z'; n];
                }
            }
        }
    }
    Call { req: r, alt, pad }
}

/// Large values don't go through pipes of a few bytes.
fn roomy<'a>(c: &mut Config, mut calls: impl Iterator<Item = &'a Call>) {
    if calls.any(|k| k.req.args.iter().any(|a| a.len() > 100_000)) {
        c.window = c.window.max(1 << 16);
        c.max_steps = c.max_steps.max(10_000_000);
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
            c.rates[f as usize] = c.rates[f as usize].min(20);
        }
    }
}

fn calls(steps: &[Vec<Vec<Step>>]) -> impl Iterator<Item = &Call> {
    steps.iter().flatten().flatten().filter_map(|s| match s {
        Step::Call(k) | Step::Cut(k, _) => Some(k),
        _ => None,
    })
}

/// Does an observed result fit one expected from the model?
pub fn fits(k: &Call, want: &MResp, got: &CRes) -> bool {
    match got {
        Ok(v) => matches(&k.model(), want, &Ok(v.clone())),
        Err(CErr::Dispatch(e)) => matches(&k.model(), want, &Err(*e)),
        Err(CErr::Build) => k.unbuildable(),
        Err(CErr::Config) => {
            let n = k.model().args.len();
            matches!(k.req.cmd, EXISTS | IS) && (n == 0 || n > 255)
        }
        Err(CErr::Unsupported) => match k.req.cmd {
            APPEND => !matches!(k.req.kt, Some(T_BYTES | T_LIST | T_STR)),
            INCBY | DECBY => !matches!(k.req.kt, Some(T_FLOAT | T_INT)),
            _ => false,
        },
        _ => false,
    }
}

/// What a model database says about a call.
pub fn expect(db: &mut Db, k: &Call) -> MResp {
    let r = k.model();
    if k.unbuildable() {
        return apply(db, &r);
    }
    apply(db, &r)
}

/// The value a call must return has the type asked for (checked before comparing).
fn right_type(k: &Call, got: &CRes) -> bool {
    let Ok(v) = got else { return true };
    match k.req.cmd {
        GET | SET | APPEND => k.req.kt.map_or(true, |t| t == v.kind()),
        _ => true,
    }
}

// ---- in-process clients --------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
struct LocalPlan {
    raw: bool,
    init: Vec<Call>,
    tasks: Vec<Vec<Call>>,
}

/// Many threads share one in-process client.
pub struct Local;

impl Family for Local {
    fn name(&self) -> &'static str {
        "in-process client"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop client crate with its memory backend; hop-engine; dashmap map code; hop metrics",
            "threads and scheduler, dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 4) as usize;
        let ks = gen::keys(rng, nk);
        let raw = rng.chance(1, 4);
        let nt = rng.range(1, if deep { 5 } else { 4 });
        let init = (0..rng.below(4))
            .map(|i| gen_call(rng, &ks, &format!("init.{}", i), raw))
            .collect();
        let tasks = (0..nt)
            .map(|t| {
                let n = rng.range(1, if deep { 10 } else { 6 });
                (0..n).map(|i| gen_call(rng, &ks, &format!("{}.{}", t, i), raw)).collect()
            })
            .collect();
        let c = base_cfg(rng, 120);
        (serde_json::to_value(LocalPlan { raw, init, tasks }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: LocalPlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.init.iter().chain(plan.tasks.iter().flatten()).any(|c| c.ill_formed(plan.raw)) {
            return None;
        }
        Some(simcore::run(cfg, move || local(plan)))
    }
}

/// Record a finished call in a history; reports what can be judged alone.
fn note(hist: &mut Vec<HOp>, who: usize, inv: u64, ret: u64, k: &Call, got: &CRes) -> bool {
    if !right_type(k, got) {
        report("wrong type", format!("{:?} returned {:?}", k.req, got));
        return false;
    }
    match got {
        Ok(_) | Err(CErr::Dispatch(_)) => hist.push(HOp {
            client: who,
            inv,
            ret: Some(ret),
            req: k.model(),
            resp: Some(match got {
                Ok(v) => Ok(v.clone()),
                Err(CErr::Dispatch(e)) => Err(*e),
                _ => unreachable!(),
            }),
            ordered: false,
        }),
        e => {
            if !fits(k, &Err(0), e) {
                report("unexpected error", format!("{:?} returned {:?}", k.req, e));
                return false;
            }
        }
    }
    true
}

fn local(plan: LocalPlan) {
    let c: Caller<MemoryBackend> = if plan.raw {
        Caller::Raw(Arc::new(MemoryBackend::new()))
    } else {
        Caller::Client(Arc::new(Client::memory()))
    };
    let hist: Rc<RefCell<Vec<HOp>>> = Default::default();
    let count: Rc<Cell<(i64, i64)>> = Default::default();
    let all: Vec<Call> = plan.init.iter().chain(plan.tasks.iter().flatten()).cloned().collect();
    let go = |who: usize, calls: Vec<Call>, c: Caller<MemoryBackend>| {
        let hist = hist.clone();
        let count = count.clone();
        move || {
            for k in calls {
                let inv = simcore::stamp();
                let got = simcore::block_on(call(c.clone(), k.clone()));
                let ret = simcore::stamp();
                note(&mut hist.borrow_mut(), who, inv, ret, &k, &got);
                let (g, b) = count.get();
                match &got {
                    Ok(_) => count.set((g + 1, b)),
                    r if k.local_mismatch(r) => count.set((g + 1, b)),
                    Err(CErr::Dispatch(_)) => count.set((g, b + 1)),
                    _ => {}
                }
                shape(fw::hash_bytes(format!("{:?}", got).as_bytes()));
            }
        }
    };
    go(0, plan.init, c.clone())();
    let hs: Vec<_> = plan
        .tasks
        .into_iter()
        .enumerate()
        .map(|(i, t)| simcore::spawn(format!("thread {}", i), go(i + 1, t, c.clone())))
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let (g, b) = count.get();
    let k = Call {
        req: gen::req(STATS, None, &[]),
        alt: false,
        pad: 0,
    };
    if let Ok(MVal::Map(m)) = simcore::block_on(call(c.clone(), k)) {
        let s = (
            crate::engine::stat(&m, "commands_successful"),
            crate::engine::stat(&m, "commands_errored"),
        );
        if s != (g, b) {
            report(
                "statistics",
                format!("{} calls succeeded and {} failed; the statistics say {} and {}", g, b, s.0, s.1),
            );
        }
    }
    let finish = final_gets(&all);
    let mut h = hist.borrow().clone();
    for k in finish {
        let inv = simcore::stamp();
        let got = simcore::block_on(call(c.clone(), k.clone()));
        let ret = simcore::stamp();
        note(&mut h, 99, inv, ret, &k, &got);
    }
    tally("calls", h.len() as u64);
    linearize(&h);
}

/// Untyped reads of every key the calls touch.
fn final_gets(all: &[Call]) -> Vec<Call> {
    let mut names: Vec<Bs> = all.iter().flat_map(|k| keys_of(&k.req).into_iter().cloned().collect::<Vec<_>>()).collect();
    names.retain(|k| !k.is_empty() && !k.starts_with(b"__hop__:"));
    names.sort();
    names.dedup();
    names
        .into_iter()
        .map(|n| Call {
            req: gen::req(GET, None, &[&n]),
            alt: false,
            pad: 0,
        })
        .collect()
}

fn linearize(h: &[HOp]) {
    match lin::check(&Db::new(), h, 100_000) {
        lin::Lin::Ok => tally("histories linearized", 1),
        lin::Lin::Unknown => tally("histories too large to decide", 1),
        lin::Lin::Bad(d) => report("not linearizable", d),
    }
}

// ---- in-process and networked side by side ---------------------------------------

#[derive(Clone, Serialize, Deserialize)]
struct TwinPlan {
    raw: bool,
    calls: Vec<Call>,
}

/// The same calls on an in-process client and on one connected to a server.
pub struct Twins;

impl Family for Twins {
    fn name(&self) -> &'static str {
        "twins"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop client crate with both backends; hop-server main.rs; hop-engine; dashmap map code; hop metrics; tokio 0.2 io-util, stream, sync",
            "TCP network, tokio runtime and scheduler, timers, dashmap's shard lock (simulated); env_logger (silent)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 5) as usize;
        let ks = gen::keys(rng, nk);
        let raw = rng.chance(1, 3);
        let n = rng.range(1, if deep { 40 } else { 20 });
        let calls: Vec<Call> = (0..n).map(|i| gen_call(rng, &ks, &format!("t{}", i), raw)).collect();
        let mut c = base_cfg(rng, 120);
        c.max_steps = 2_000_000;
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
            if rng.chance(1, 2) {
                c.rates[f as usize] = *rng.pick(&[10u16, 50, 200]);
            }
        }
        c.window = *rng.pick(&[1 << 16, 1 << 16, 300, 40]);
        roomy(&mut c, calls.iter());
        (serde_json::to_value(TwinPlan { raw, calls }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: TwinPlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.calls.iter().any(|c| c.ill_formed(plan.raw)) {
            return None;
        }
        Some(simcore::run(cfg, move || twins(plan)))
    }
}

pub async fn connect(raw: bool) -> Result<Caller<ServerBackend>, CErr> {
    let addr = ("127.0.0.1", netx::PORT);
    if raw {
        ServerBackend::connect(addr)
            .await
            .map(|b| Caller::Raw(Arc::new(b)))
            .map_err(|e| e.plain())
    } else {
        Client::connect(addr).await.map(|c| Caller::Client(Arc::new(c))).map_err(|e| e.plain())
    }
}

fn twins(plan: TwinPlan) {
    let srv = start_server();
    let here: Caller<MemoryBackend> = if plan.raw {
        Caller::Raw(Arc::new(MemoryBackend::new()))
    } else {
        Caller::Client(Arc::new(Client::memory()))
    };
    let there = match simcore::block_on(connect(plan.raw)) {
        Ok(c) => c,
        Err(e) => {
            report("server unavailable", format!("{:?}", e));
            return;
        }
    };
    let mut db = Db::new();
    let mut calls = plan.calls;
    let n = calls.len();
    calls.extend(final_gets(&calls));
    for (i, k) in calls.iter().enumerate() {
        let a = simcore::block_on(call(here.clone(), k.clone()));
        let b = simcore::block_on(call(there.clone(), k.clone()));
        let same = match (&a, &b) {
            (Ok(MVal::List(x)), Ok(MVal::List(y))) if k.req.cmd == KEYS => {
                let (mut x, mut y) = (x.clone(), y.clone());
                x.sort();
                y.sort();
                x == y
            }
            // a call that is wrong twice may be refused for either reason
            (Err(CErr::Build | CErr::Unsupported), Err(CErr::Build | CErr::Unsupported)) => true,
            _ => a == b,
        };
        if !same {
            report(
                if i < n { "clients differ" } else { "contents differ" },
                format!("call {}: {:?}: {:?} in-process, {:?} over the network", i, k.req, a, b),
            );
            return;
        }
        if !right_type(k, &a) {
            report("wrong type", format!("{:?} returned {:?}", k.req, a));
            return;
        }
        let mut d = db.clone();
        let want = expect(&mut d, k);
        if !fits(k, &want, &a) {
            report(
                "wrong result",
                format!("call {}: {:?}: {:?} instead of {}", i, k.req, a, show_m(&want)),
            );
            return;
        }
        if a.is_ok() {
            db = d;
        }
        shape(fw::hash_bytes(format!("{:?}", a).as_bytes()));
    }
    if srv.is_finished() {
        report("server ended", "the server's main function returned");
    }
    tally("calls compared", calls.len() as u64);
}

// ---- networked clients -----------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
enum Step {
    #[serde(rename = "call")]
    Call(Call),
    /// give up after so many polls
    #[serde(rename = "cut")]
    Cut(Call, u32),
    #[serde(rename = "sleep")]
    Sleep(u32),
    /// leave the shared client for a new one
    #[serde(rename = "connect")]
    Connect,
}

#[derive(Clone, Serialize, Deserialize)]
enum Chaos {
    #[serde(rename = "sleep")]
    Sleep(u32),
    /// the server process dies and is started again after so many microseconds
    #[serde(rename = "crash")]
    Crash(u32),
    /// break the nth connection
    #[serde(rename = "reset")]
    Reset(u32, bool),
    /// the nth connection delivers nothing for so many milliseconds
    #[serde(rename = "stall")]
    Stall(u32, u32),
}

#[derive(Clone, Serialize, Deserialize)]
struct NetPlan {
    raw: bool,
    clients: Vec<Vec<Vec<Step>>>,
    chaos: Vec<Chaos>,
}

/// Programs sharing clients of the real server.
pub struct Networked;

impl Family for Networked {
    fn name(&self) -> &'static str {
        "networked clients"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop client crate with its server backend; hop-server main.rs; hop-engine; dashmap map code; hop metrics; tokio 0.2 io-util, stream, sync",
            "TCP network, tokio runtime and scheduler, timers, dashmap's shard lock, process crash and restart (simulated); env_logger (silent)",
        )
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 3) as usize;
        let ks = gen::keys(rng, nk);
        let raw = rng.chance(1, 6);
        let nc = rng.range(1, 3);
        let cuts = prop != "C12" && rng.chance(1, 2);
        let mut clients = vec![];
        for c in 0..nc {
            let nt = rng.range(1, 3);
            let mut tasks = vec![];
            for t in 0..nt {
                let mut steps = vec![];
                for i in 0..rng.range(1, if deep { 8 } else { 5 }) {
                    let k = gen_call(rng, &ks, &format!("c{}.{}.{}", c, t, i), raw);
                    let s = match rng.below(8) {
                        0 if cuts => Step::Cut(k, rng.below(12) as u32),
                        1 => {
                            steps.push(Step::Sleep(rng.below(3000) as u32));
                            Step::Call(k)
                        }
                        2 if rng.chance(1, 2) => {
                            steps.push(Step::Connect);
                            Step::Call(k)
                        }
                        _ => Step::Call(k),
                    };
                    steps.push(s);
                }
                tasks.push(steps);
            }
            clients.push(tasks);
        }
        let mut chaos = vec![];
        let mut c = base_cfg(rng, 400);
        if rng.chance(1, 2) {
            for _ in 0..rng.range(1, 3) {
                chaos.push(Chaos::Sleep(rng.below(2000) as u32));
                let n = rng.below(4) as u32;
                chaos.push(match rng.below(if prop == "C10" { 4 } else { 6 }) {
                    0 => Chaos::Reset(n, rng.chance(1, 2)),
                    1 => Chaos::Stall(n, rng.below(3000) as u32),
                    _ => Chaos::Crash(rng.below(3000) as u32),
                });
            }
            // somebody returns after the crash
            for t in clients.iter_mut().flatten() {
                if rng.chance(1, 2) {
                    t.push(Step::Sleep(rng.below(8000) as u32));
                    t.push(Step::Connect);
                    for i in 0..rng.range(1, 3) {
                        t.push(Step::Call(gen_call(rng, &ks, &format!("again.{}", i), raw)));
                    }
                }
            }
        }
        c.max_steps = 2_000_000;
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
            if rng.chance(1, 2) {
                c.rates[f as usize] = *rng.pick(&[10u16, 50, 200, 600]);
            }
        }
        if rng.chance(1, 4) {
            c.rates[Fault::Stall as usize] = 10;
        }
        if rng.chance(1, 3) {
            for f in [Fault::Reset, Fault::ReadErr, Fault::WriteErr, Fault::AcceptErr, Fault::PeerAddrErr, Fault::ConnectErr, Fault::KillRst] {
                if rng.chance(1, 2) {
                    c.rates[f as usize] = match f {
                        Fault::Reset | Fault::ReadErr | Fault::WriteErr => *rng.pick(&[5u16, 20, 50]),
                        _ => *rng.pick(&[100u16, 300, 500]),
                    };
                }
            }
        }
        c.rates[Fault::KillRst as usize] = 500;
        c.window = *rng.pick(&[1 << 16, 1 << 16, 4096, 300, 40, 7]);
        roomy(&mut c, calls(&clients));
        (serde_json::to_value(NetPlan { raw, clients, chaos }).unwrap(), c)
    }
    fn exec(&self, prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: NetPlan = serde_json::from_value(plan.clone()).ok()?;
        for s in plan.clients.iter().flatten().flatten() {
            if let Step::Call(k) | Step::Cut(k, _) = s {
                if k.ill_formed(plan.raw) {
                    return None;
                }
            }
        }
        let prop = prop.to_string();
        Some(simcore::run(cfg, move || networked(&prop, plan)))
    }
}

/// A connection as the harness sees it.
struct Link {
    conn: usize,
    epoch: usize,
    /// an operation on it was given up
    cut: Cell<bool>,
}

enum Got {
    Res(CRes),
    Cut,
}

struct Rec {
    who: usize,
    inv: u64,
    ret: u64,
    call: Call,
    got: Got,
    link: Rc<Link>,
}

#[derive(Default)]
struct World {
    recs: Vec<Rec>,
    /// listener number -> server incarnation
    epochs: Vec<u64>,
    refused: u64,
}
type W = Rc<RefCell<World>>;

fn link(w: &W, raw: bool, pid: Pid) -> Option<(Caller<ServerBackend>, Rc<Link>)> {
    let mut nap = 20_000;
    for _ in 0..12 {
        match simcore::block_on(connect(raw)) {
            Ok(c) => {
                let conn = net::last_conn(pid).expect("a connection of this process");
                let lid = net::listener_of(conn);
                let w = w.borrow();
                let epoch = w.epochs.iter().position(|e| *e == lid).unwrap_or(w.epochs.len());
                return Some((
                    c,
                    Rc::new(Link {
                        conn,
                        epoch,
                        cut: Cell::new(false),
                    }),
                ));
            }
            Err(CErr::Conn(_)) => {
                w.borrow_mut().refused += 1;
                simcore::block_on(simcore::sleep(nap));
                nap *= 2;
            }
            Err(e) => {
                report("unexpected error", format!("connecting: {:?}", e));
                return None;
            }
        }
    }
    None
}

fn steps(w: W, raw: bool, pid: Pid, who: usize, steps: Vec<Step>, mut on: Option<(Caller<ServerBackend>, Rc<Link>)>) {
    for s in steps {
        let (k, polls) = match s {
            Step::Sleep(us) => {
                simcore::block_on(simcore::sleep(us as u64 * 1000));
                continue;
            }
            Step::Connect => {
                drop(on.take());
                on = link(&w, raw, pid);
                continue;
            }
            Step::Call(k) => (k, None),
            Step::Cut(k, n) => (k, Some(n)),
        };
        let Some((c, l)) = &on else { continue };
        let inv = simcore::stamp();
        let f = call(c.clone(), k.clone());
        let got = match polls {
            None => Got::Res(simcore::block_on(f)),
            Some(n) => match simcore::block_on(Cut {
                f: Some(Box::pin(f)),
                left: n,
            }) {
                Some(r) => Got::Res(r),
                None => {
                    l.cut.set(true);
                    Got::Cut
                }
            },
        };
        let ret = simcore::stamp();
        if let Got::Res(r) = &got {
            shape(fw::hash_bytes(format!("{:?}", r).as_bytes()));
        }
        w.borrow_mut().recs.push(Rec {
            who,
            inv,
            ret,
            call: k,
            got,
            link: l.clone(),
        });
    }
}

fn networked(prop: &str, plan: NetPlan) {
    let w: W = Default::default();
    let raw = plan.raw;
    let mut srv = start_server();
    w.borrow_mut().epochs.push(net::listener(netx::PORT).unwrap_or(u64::MAX));
    let all: Vec<Call> = plan
        .clients
        .iter()
        .flatten()
        .flatten()
        .filter_map(|s| match s {
            Step::Call(k) | Step::Cut(k, _) => Some(k.clone()),
            _ => None,
        })
        .collect();
    let mut hs = vec![];
    for (c, tasks) in plan.clients.into_iter().enumerate() {
        let w = w.clone();
        let pid = 100 + c as u32 * 20;
        hs.push(simcore::spawn_in(pid, format!("client {}", c), move || {
            let on = link(&w, raw, pid);
            let mut ts = vec![];
            for (t, s) in tasks.into_iter().enumerate() {
                let (w, on) = (w.clone(), on.clone());
                let pid = pid + 1 + t as u32;
                ts.push(simcore::spawn_in(pid, format!("client {} task {}", c, t), move || {
                    steps(w, raw, pid, c * 10 + t, s, on)
                }));
            }
            drop(on);
            for t in ts {
                let _ = t.join();
            }
        }));
    }
    for ch in plan.chaos {
        match ch {
            Chaos::Sleep(us) => simcore::block_on(simcore::sleep(us as u64 * 1000)),
            Chaos::Crash(us) => {
                simcore::kill_process(SERVER);
                simcore::block_on(simcore::sleep(us as u64 * 1000));
                srv = start_server();
                w.borrow_mut().epochs.push(net::listener(netx::PORT).unwrap_or(u64::MAX));
            }
            Chaos::Reset(n, lose) => {
                let c = net::conn_count();
                if c > 0 {
                    net::reset_conn(n as usize % c, lose);
                }
            }
            Chaos::Stall(n, ms) => {
                let c = net::conn_count();
                if c > 0 {
                    net::stall_end(n as usize % c, n as usize / c % 2, ms as u64 * 1_000_000);
                }
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    simcore::set_faults(false);
    if srv.is_finished() {
        report("server ended", "the server's main function returned");
        return;
    }
    // what the server holds in the end
    let mut acts = vec![Act::Req(gen::req(STATS, None, &[])), Act::Send(vec![]), Act::Await];
    for k in final_gets(&all) {
        acts.push(Act::Req(k.req));
    }
    let c = simcore::block_on(netx::script(acts));
    let c = c.borrow();
    if !c.connected {
        report("server unavailable", "a new connection was refused");
        return;
    }
    let w = w.borrow();
    let last = w.epochs.len() - 1;
    let mut hist: Vec<Vec<HOp>> = vec![vec![]; w.epochs.len()];
    judge(&c, 99, &mut hist[last], &mut Counts::default());
    let (mut good, mut bad, mut unknown) = (0i64, 0i64, 0i64);
    let mut lost = 0;
    for r in &w.recs {
        let k = &r.call;
        let e = r.link.epoch;
        if e > last {
            continue;
        }
        let mut open = false;
        match &r.got {
            Got::Cut => open = true,
            Got::Res(Err(CErr::Conn(why))) => {
                open = true;
                lost += 1;
                if !net::faulted(r.link.conn) && !r.link.cut.get() && e == last {
                    report(
                        "connection error without cause",
                        format!("client task {}: {:?} returned {:?} though nothing happened to the connection", r.who, k.req, why),
                    );
                    return;
                }
            }
            Got::Res(got) => {
                if !note(&mut hist[e], r.who, r.inv, r.ret, k, got) {
                    return;
                }
                if e == last {
                    match got {
                        Ok(_) => good += 1,
                        g if k.local_mismatch(g) => good += 1,
                        Err(CErr::Dispatch(_)) => bad += 1,
                        _ => {}
                    }
                }
            }
        }
        if open {
            if e == last {
                unknown += 1
            }
            hist[e].push(HOp {
                client: r.who,
                inv: r.inv,
                ret: None,
                req: k.model(),
                resp: None,
                ordered: false,
            });
        }
    }
    if let Some((WResp::Val(MVal::Map(m)), _)) = c.answers.first() {
        let (g, b) = (
            crate::engine::stat(m, "commands_successful"),
            crate::engine::stat(m, "commands_errored"),
        );
        if g < good || b < bad || g + b > good + bad + unknown {
            report(
                "statistics",
                format!(
                    "{} successes and {} failures were answered, {} requests got no answer; the statistics say {} and {}",
                    good, bad, unknown, g, b
                ),
            );
        }
    }
    tally("calls", w.recs.len() as u64);
    tally("calls that lost their connection", lost);
    tally("calls given up", w.recs.iter().filter(|r| matches!(r.got, Got::Cut)).count() as u64);
    tally("server restarts", last as u64);
    tally("refused connections", w.refused);
    for (e, h) in hist.iter().enumerate() {
        if e > 0 {
            tally("operations on a restarted server", h.len() as u64);
        }
        linearize(h);
    }
    let _ = prop;
}

// ---- a misbehaving server -----------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
enum Beh {
    /// answer as a server would
    #[serde(rename = "good")]
    Good,
    #[serde(rename = "dispatch")]
    Dispatch(u8),
    #[serde(rename = "parse")]
    Parse(u8),
    /// a well-formed value of whatever type
    #[serde(rename = "value")]
    Value(V),
    /// such a value, but of the type that the answer would have
    #[serde(rename = "fitting")]
    Fit(V),
    /// anything, then the end
    #[serde(rename = "junk")]
    Junk(#[serde(with = "hx")] Bs),
    /// a message that can't be decoded, with an answer inside; the connection goes on
    #[serde(rename = "garbled")]
    Garbled,
    /// the start of an answer, then the end
    #[serde(rename = "short")]
    Short(u32),
    /// answer late (microseconds)
    #[serde(rename = "late")]
    Late(u32),
    /// the end without an answer, after so many microseconds
    #[serde(rename = "close")]
    Close(u32),
}

const STATISTICS: [&str; 4] = ["commands_errored", "commands_successful", "sessions_ended", "sessions_started"];

#[derive(Clone, Serialize, Deserialize)]
struct PeerPlan {
    clients: Vec<Vec<Vec<Step>>>,
    behaviour: Vec<Beh>,
    cuts: Vec<u32>,
}

/// Clients of a server that answers whatever it likes.
pub struct Peer;

impl Family for Peer {
    fn name(&self) -> &'static str {
        "misbehaving server"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop client crate with its server backend; hop-engine's response decoder and request builder; tokio 0.2 io-util, sync",
            "TCP network, tokio runtime and scheduler, timers (simulated); the server (harness)",
        )
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nc = rng.range(1, 2);
        let mut clients = vec![];
        for c in 0..nc {
            let mut tasks = vec![];
            for t in 0..rng.range(1, 3) {
                let mut s = vec![];
                for i in 0..rng.range(1, if deep { 10 } else { 6 }) {
                    // every request is recognisable by its key
                    let key = format!("{}{}.{}.{}", *rng.pick(b"iflsbmeo") as char, c, t, i).into_bytes();
                    let mut k = gen_call(rng, &[key.clone()], &format!("{}.{}.{}", c, t, i), false);
                    if k.req.cmd == STATS {
                        k.req = gen::req(ECHO, None, &[&key]);
                    }
                    if let Some(a) = k.req.args.first_mut() {
                        *a = key;
                    }
                    k.pad = 0;
                    match rng.below(8) {
                        0 => s.push(Step::Cut(k, rng.below(10) as u32)),
                        1 => {
                            s.push(Step::Sleep(rng.below(1000) as u32));
                            s.push(Step::Call(k))
                        }
                        2 => {
                            s.push(Step::Connect);
                            s.push(Step::Call(k))
                        }
                        _ => s.push(Step::Call(k)),
                    }
                }
                tasks.push(s);
            }
            clients.push(tasks);
        }
        let asks = rng.chance(1, 5);
        if asks {
            // one only, as these can't be told apart
            let t: &mut Vec<Step> = &mut clients[0][0];
            let i = rng.below(t.len() as u64 + 1) as usize;
            t.insert(i, Step::Call(Call { req: gen::req(STATS, None, &[]), alt: rng.chance(1, 2), pad: 0 }));
        }
        let hostile = prop == "C17";
        let behaviour = (0..rng.range(1, 12))
            .map(|_| match rng.below(if hostile { 16 } else { 22 }) {
                0 | 1 => Beh::Junk(wire::junk_response(rng)),
                2 => Beh::Short(rng.below(24) as u32),
                9 => Beh::Garbled,
                10 if asks => {
                    let mut a = vec![];
                    for name in STATISTICS {
                        a.push(name.as_bytes().to_vec());
                        let n = *rng.pick(&[0usize, 1, 7, 8, 8, 8, 9, 16]);
                        a.push(rng.bytes(n));
                    }
                    a.truncate(2 * rng.range(1, 4) as usize);
                    Beh::Value(V { t: T_MAP, a, more: 0 })
                }
                3 => Beh::Close(rng.below(1000) as u32),
                4 => Beh::Dispatch(rng.below(8) as u8),
                5 => Beh::Parse(rng.below(2) as u8),
                6 => {
                    let k = rng.below(8) as u8;
                    let mut v = V::of(&gen::val(rng, k));
                    match rng.below(3) {
                        0 => v.a.clear(),
                        1 => v.more = rng.below(40) as u32,
                        _ => {}
                    }
                    if rng.chance(1, 2) {
                        Beh::Fit(v)
                    } else {
                        Beh::Value(v)
                    }
                }
                7 => Beh::Late(rng.below(3000) as u32),
                8 if hostile => {
                    // promises far more than it sends
                    let n = *rng.pick(&[u32::MAX, 1 << 31, 1 << 30, 1 << 28, 1 << 26, 24 << 20]);
                    let big = (n - rng.below(2) as u32).to_be_bytes();
                    let mut b = if rng.chance(1, 3) { 40u32.to_be_bytes().to_vec() } else { big.to_vec() };
                    b.push(rng.below(10) as u8);
                    if rng.chance(1, 2) {
                        b.extend([0xff, 0xff]);
                    }
                    b.extend(big);
                    b.truncate(rng.range(1, 14) as usize);
                    Beh::Junk(b)
                }
                _ => Beh::Good,
            })
            .collect();
        let mut c = base_cfg(rng, 200);
        c.max_steps = 1_000_000;
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
            if rng.chance(1, 2) {
                c.rates[f as usize] = *rng.pick(&[10u16, 50, 200, 600]);
            }
        }
        let cuts = crate::server::cuts(rng);
        roomy(&mut c, calls(&clients));
        (serde_json::to_value(PeerPlan { clients, behaviour, cuts }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: PeerPlan = serde_json::from_value(plan.clone()).ok()?;
        let mut asked = 0;
        for s in plan.clients.iter().flatten().flatten() {
            if let Step::Call(k) | Step::Cut(k, _) = s {
                if k.ill_formed(false) {
                    return None;
                }
                asked += (k.req.cmd == STATS) as u32;
            }
        }
        if asked > 1 {
            return None;
        }
        if plan.behaviour.is_empty()
            || plan.behaviour.iter().any(|b| match b {
                Beh::Dispatch(e) => *e > 7,
                Beh::Parse(e) => hop_engine::command::request::ParseError::try_from(*e).is_err(),
                Beh::Value(v) | Beh::Fit(v) => v.t > 7 || v.more > 300,
                _ => false,
            })
        {
            return None;
        }
        Some(simcore::run(cfg, move || peer(plan)))
    }
}

/// What the fake server did on one connection.
#[derive(Default)]
struct Served {
    /// request, complete answer sent
    done: Vec<(Req, Option<WResp>)>,
    /// from here on it no longer answered properly
    spoiled: bool,
    /// it ended with bytes that are neither an answer nor the start of one
    junk: bool,
    bytes: u64,
}

fn peer(plan: PeerPlan) {
    let planned: u64 = plan
        .clients
        .iter()
        .flatten()
        .flatten()
        .map(|s| match s {
            Step::Call(k) | Step::Cut(k, _) => 64 + k.req.args.iter().map(|a| a.len() as u64 + 64).sum::<u64>(),
            _ => 0,
        })
        .sum();
    let before = alloc::mark();
    let served: Rc<RefCell<BTreeMap<usize, Served>>> = Default::default();
    let next: Rc<Cell<usize>> = Default::default();
    let beh = Rc::new(plan.behaviour);
    let cuts = Rc::new(plan.cuts);
    {
        let (served, next, beh, cuts) = (served.clone(), next.clone(), beh.clone(), cuts.clone());
        simcore::spawn_future_in(SERVER, "fake server", async move {
            let mut l = tokio::net::TcpListener::bind(("127.0.0.1", netx::PORT)).await.expect("bind");
            while let Ok((s, _)) = l.accept().await {
                let (served, next, beh, cuts) = (served.clone(), next.clone(), beh.clone(), cuts.clone());
                simcore::spawn_future("fake connection", fake(s, served, next, beh, cuts));
            }
        });
    }
    while !net::listening(netx::PORT) {
        simcore::block_on(simcore::sleep(10_000));
    }
    let w: W = Default::default();
    w.borrow_mut().epochs.push(net::listener(netx::PORT).unwrap());
    let mut hs = vec![];
    for (c, tasks) in plan.clients.into_iter().enumerate() {
        let w = w.clone();
        let pid = 100 + c as u32 * 20;
        hs.push(simcore::spawn_in(pid, format!("client {}", c), move || {
            let on = link(&w, false, pid);
            let mut ts = vec![];
            for (t, s) in tasks.into_iter().enumerate() {
                let (w, on) = (w.clone(), on.clone());
                let pid = pid + 1 + t as u32;
                ts.push(simcore::spawn_in(pid, format!("client {} task {}", c, t), move || {
                    steps(w, false, pid, c * 10 + t, s, on)
                }));
            }
            drop(on);
            for t in ts {
                let _ = t.join();
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let used = (alloc::peak() - before).max(0) as u64;
    let w = w.borrow();
    let served = served.borrow();
    let bytes = planned + served.values().map(|s| s.bytes).sum::<u64>();
    if used > (3 << 20) + 16 * bytes {
        report("memory", format!("{} bytes were allocated for {} bytes of messages", used, bytes));
    }
    let mut answered = 0;
    for r in &w.recs {
        let Got::Res(got) = &r.got else { continue };
        let k = &r.call;
        let m = k.model();
        let s = served.get(&r.link.conn);
        // the typed reads of the client send an untyped request
        let mut sent = m.clone();
        if m.cmd == GET {
            sent.kt = None;
        }
        let same = |q: &Req| {
            *q == sent || (q.cmd == sent.cmd && q.kt == sent.kt && matches!(m.kt, Some(T_MAP | T_SET)) && q.args.first() == sent.args.first())
        };
        let ans = s.and_then(|s| s.done.iter().find(|d| same(&d.0)));
        let fail = |what: &str| {
            report(
                "not its own response",
                format!(
                    "client task {}: {:?} returned {:?}, {} ({:?})",
                    r.who,
                    k.req,
                    got,
                    what,
                    ans.map(|a| &a.1)
                ),
            )
        };
        let spoiled = r.link.cut.get() || s.map_or(false, |s| s.spoiled) || net::faulted(r.link.conn);
        // what the client makes of junk is its own affair
        if !matches!(ans, Some((_, Some(_)))) && s.map_or(false, |s| s.junk) {
            continue;
        }
        match got {
            Ok(v) => {
                answered += 1;
                let Some((_, Some(WResp::Val(x)))) = ans else {
                    return fail("which the server did not send");
                };
                let ok = v == x
                    || match (m.cmd, v, x) {
                        // a type number outside the known ones is an error, others are truncated
                        (TYPE, MVal::Int(a), MVal::Int(b)) => *a == (*b as u8) as i64,
                        // what isn't a number is free
                        (STATS, MVal::Map(a), MVal::Map(b)) => {
                            a.iter().all(|(k, v)| b.get(k).map_or(true, |b| b.len() != 8 || b == v))
                        }
                        _ => false,
                    };
                if !ok {
                    return fail("which is not what the server sent");
                }
                if !(m.cmd == SET && k.alt) && !right_type(k, got) {
                    report("wrong type", format!("{:?} returned {:?}", k.req, got));
                    return;
                }
            }
            Err(CErr::Dispatch(e)) => {
                let ok = match ans {
                    Some((_, Some(WResp::Dispatch(x)))) => x == e,
                    // a value of another type than asked for
                    Some((_, Some(WResp::Val(x)))) => {
                        *e == E_DIFF
                            && !(matches!(m.cmd, GET | APPEND) && right_type(k, &Ok(x.clone())))
                    }
                    _ => false,
                };
                if !ok {
                    return fail("which the server did not send");
                }
            }
            Err(CErr::Parse(e)) => {
                if !matches!(ans, Some((_, Some(WResp::Parse(x)))) if x == e) {
                    return fail("which the server did not send");
                }
            }
            Err(CErr::Build | CErr::Config | CErr::Unsupported) => {
                if !fits(k, &Err(0), got) {
                    report("unexpected error", format!("{:?} returned {:?}", k.req, got));
                    return;
                }
            }
            Err(CErr::BadResponse) => {
                let wrong = matches!(ans, Some((_, Some(WResp::Val(x)))) if !natural(&m, x));
                if !wrong && !spoiled {
                    return fail("though the answer was a proper one");
                }
            }
            Err(CErr::Conn(_)) => {
                if !spoiled {
                    return fail("though the connection was in order");
                }
            }
        }
    }
    tally("calls", w.recs.len() as u64);
    tally("calls answered", answered);
    tally("answers of the fake server", next.get() as u64);
}

/// Is a value of a type the command can return?
fn natural(r: &Req, v: &MVal) -> bool {
    match r.cmd {
        INC | DEC | INCBY | DECBY => matches!(v, MVal::Int(_) | MVal::Float(_)),
        DELETE | RENAME => matches!(v, MVal::Bytes(_)),
        EXISTS | IS => matches!(v, MVal::Bool(_)),
        TYPE => matches!(v, MVal::Int(i) if (0..8).contains(i)),
        LENGTH => matches!(v, MVal::Int(_)),
        KEYS | ECHO => matches!(v, MVal::List(_)),
        STATS => matches!(v, MVal::Map(_)),
        _ => true,
    }
}

async fn fake(
    mut s: tokio::net::TcpStream,
    served: Rc<RefCell<BTreeMap<usize, Served>>>,
    next: Rc<Cell<usize>>,
    beh: Rc<Vec<Beh>>,
    cuts: Rc<Vec<u32>>,
) {
    let (id, _) = s.sim_id();
    served.borrow_mut().entry(id).or_default();
    let mut db = Db::new();
    let mut have: Bs = vec![];
    let mut buf = vec![0u8; 700];
    loop {
        let (r, n) = match decode_req(&have) {
            Dec::Req(r, n) => (r, n),
            Dec::More => {
                match s.read(&mut buf).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => have.extend_from_slice(&buf[..n]),
                }
                continue;
            }
            Dec::Bad(c) => {
                report("malformed request", format!("the client sent {} (error {})", hx::show(&have), c));
                return;
            }
        };
        have.drain(..n);
        let b = &beh[next.get() % beh.len()];
        next.set(next.get() + 1);
        let natural = match apply(&mut db, &r) {
            _ if r.cmd == STATS => WResp::Val(MVal::Map(
                STATISTICS.iter().zip(1i64..).map(|(k, v)| (k.as_bytes().to_vec(), v.to_be_bytes().to_vec())).collect(),
            )),
            Ok(v) => WResp::Val(v),
            Err(m) => WResp::Dispatch(m.trailing_zeros() as u8),
        };
        let full = match b {
            Beh::Good | Beh::Late(_) => Some(natural.clone()),
            Beh::Dispatch(e) => Some(WResp::Dispatch(*e)),
            Beh::Parse(e) => Some(WResp::Parse(*e)),
            Beh::Value(v) => Some(WResp::Val(v.val())),
            Beh::Fit(v) => {
                let t = match &natural {
                    WResp::Val(x) => x.kind(),
                    _ => r.args.first().map_or(v.t, |k| gen::affinity(k)),
                };
                let mut v = V { t, ..v.clone() };
                if t == T_MAP {
                    // the format holds no longer keys
                    v.a.iter_mut().for_each(|x| x.truncate(255));
                }
                Some(WResp::Val(v.val()))
            }
            _ => None,
        };
        let bytes = match b {
            Beh::Junk(j) => j.clone(),
            Beh::Garbled => {
                let inner = encode_resp(&natural);
                let mut b = (inner.len() as u32 + 1).to_be_bytes().to_vec();
                b.push(200);
                b.extend(inner);
                b
            }
            Beh::Short(n) => {
                let mut b = encode_resp(&natural);
                b.truncate((*n as usize).min(b.len() - 1));
                b
            }
            Beh::Close(us) => {
                simcore::sleep(*us as u64 * 1000).await;
                vec![]
            }
            _ => encode_resp(full.as_ref().unwrap()),
        };
        if let Beh::Late(us) = b {
            simcore::sleep(*us as u64 * 1000).await;
        }
        let garbled = matches!(b, Beh::Garbled);
        let end = full.is_none() && !garbled;
        {
            let mut m = served.borrow_mut();
            let e = m.entry(id).or_default();
            // junk may be a proper answer
            let said = match (&full, decode_resp(&bytes)) {
                (Some(f), _) => Some(f.clone()),
                (None, DecR::Resp(w, _)) => Some(w),
                _ => None,
            };
            e.done.push((r, said));
            e.spoiled |= end || garbled;
            e.bytes += bytes.len() as u64;
            e.junk |= end
                && match decode_resp(&bytes) {
                    DecR::Bad(..) => true,
                    DecR::Resp(_, n) => n < bytes.len(),
                    _ => false,
                };
        }
        let mut at = 0;
        let mut c = cuts.iter();
        while at < bytes.len() {
            let n = c.next().map_or(usize::MAX, |c| (*c).max(1) as usize).min(bytes.len() - at);
            match s.write(&bytes[at..at + n]).await {
                Ok(k) => at += k,
                Err(_) => return,
            }
        }
        if end {
            simcore::sleep(S / 1000).await;
            return;
        }
    }
}
