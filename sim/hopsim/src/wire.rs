//! The two decoders (requests, responses) and the request builder behind a
//! simulated link that delivers any fragmentation, and arbitrary bytes.
use crate::{
    alloc,
    fw::{self, base_cfg, report, shape, tally, Family},
    gen, hx,
    model::*,
};
use hop_engine::{
    command::{
        request::{Context, ParseError as ReqError, Request, RequestBuilder},
        response::{Context as RespContext, Instruction, ParseError as RespError, Response},
        CommandId, DispatchError,
    },
    state::KeyType,
};
use serde::{Deserialize, Serialize};
use serde_json::Value as Json;
use simcore::{rng::Rng, Config, Outcome};
use std::convert::TryFrom;

// ---- values in plans ----------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
pub struct V {
    pub t: u8,
    #[serde(with = "hx::list", default)]
    pub a: Vec<Bs>,
    /// more generated elements
    #[serde(default)]
    pub more: u32,
}
impl V {
    pub fn of(v: &MVal) -> V {
        V {
            t: v.kind(),
            a: v.args(),
            more: 0,
        }
    }
    pub fn val(&self) -> MVal {
        let first = || self.a.first().cloned().unwrap_or_default();
        let eight = || {
            let mut b = [0u8; 8];
            for (i, x) in first().iter().take(8).enumerate() {
                b[i] = *x
            }
            b
        };
        let n = self.more.min(70_000);
        let extra = (0..n).map(|i| i.to_be_bytes().to_vec());
        match self.t {
            T_BOOL => MVal::Bool(first().first().map_or(false, |b| *b != 0)),
            T_FLOAT => MVal::float(f64::from_be_bytes(eight())),
            T_INT => MVal::Int(i64::from_be_bytes(eight())),
            T_STR => MVal::Str(String::from_utf8_lossy(&first()).into_owned()),
            T_LIST => MVal::List(self.a.iter().cloned().chain(extra).collect()),
            T_MAP => MVal::Map(
                self.a
                    .chunks(2)
                    .map(|c| (c[0].clone(), c.get(1).cloned().unwrap_or_default()))
                    .chain(extra.map(|k| (k.clone(), k)))
                    .collect(),
            ),
            T_SET => MVal::Set(self.a.iter().cloned().chain(extra).collect()),
            _ => MVal::Bytes(first()),
        }
    }
}

impl V {
    /// the bits of a float
    fn bits(&self) -> Option<u64> {
        let b: [u8; 8] = self.a.first()?.as_slice().try_into().ok()?;
        (self.t == T_FLOAT).then(|| u64::from_be_bytes(b))
    }
}

/// Values of any size, including empty ones and ones at the format's limits.
fn any_val(rng: &mut Rng, deep: bool) -> V {
    let t = rng.below(8) as u8;
    let mut v = V::of(&gen::val(rng, t));
    if t == T_FLOAT && rng.chance(1, 8) {
        let b = *rng.pick(&[1 << 63, 1, 1 << 63 | 1, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 0xfff8_0000_0000_0000, u64::MAX]);
        v.a = vec![u64::to_be_bytes(b).to_vec()];
    }
    match rng.below(12) {
        0 => v.a.clear(),
        1 => {
            if !matches!(t, T_STR) && !v.a.is_empty() {
                let i = rng.below(v.a.len() as u64) as usize;
                v.a[i].clear()
            }
        }
        2 => {
            let n = *rng.pick(&[254usize, 255, 256, 257, 1023, 1024, 1025, 4096]);
            if !v.a.is_empty() && !matches!(t, T_MAP) {
                let i = rng.below(v.a.len() as u64) as usize;
                v.a[i] = vec![b'z'; n];
            } else if v.a.len() > 1 {
                v.a[0] = vec![b'q'; n.min(255)];
                v.a[1] = vec![b'z'; n];
            }
        }
        3 => v.more = *rng.pick(&[1u32, 3, 30, 60, 126, 127, 128, 253, 254, 255, 256, 257, 300]),
        4 if rng.chance(1, if deep { 30 } else { 200 }) => v.more = *rng.pick(&[65_000u32, 65_530]),
        5 if rng.chance(1, 10) => {
            if matches!(t, T_STR | T_BYTES | T_LIST | T_SET) && !v.a.is_empty() {
                v.a[0] = vec![b'y'; *rng.pick(&[65_534usize, 65_535])];
            }
            if matches!(t, T_STR | T_BYTES | T_LIST) && !v.a.is_empty() && rng.chance(1, 2) {
                v.a[0] = vec![b'y'; *rng.pick(&[65_536usize, 65_537, 200_000])];
                if rng.chance(1, 60) {
                    v.a[0] = vec![b'Y'; (1 << 24) - 1 + rng.below(3) as usize];
                }
            }
        }
        _ => {}
    }
    v
}

/// Sizes of the pieces in which bytes arrive; afterwards everything at once.
fn cuts(rng: &mut Rng) -> Vec<u32> {
    let n = rng.below(40);
    match rng.below(5) {
        0 => vec![],
        1 => vec![1; n as usize * 4],
        2 => (0..n).map(|_| rng.range(0, 3) as u32).collect(),
        3 => (0..n).map(|_| rng.range(1, 12) as u32).collect(),
        _ => (0..n).map(|_| rng.range(0, 1200) as u32).collect(),
    }
}

fn conv<T: std::fmt::Debug>(r: Result<T, impl std::fmt::Debug>) -> Option<T> {
    r.ok()
}

/// Memory used while `f` runs, beyond what was in use before.
fn used<R>(f: impl FnOnce() -> R) -> (R, isize) {
    let before = alloc::mark();
    let r = f();
    (r, alloc::peak() - before)
}

// ---- requests ----------------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
enum Item {
    #[serde(rename = "bytes")]
    Bytes(#[serde(with = "hx")] Bs),
    #[serde(rename = "value")]
    Value(V),
    /// the same small argument this many times
    #[serde(rename = "many")]
    Many(u32),
    /// turn the builder into a request and back
    #[serde(rename = "rebuild")]
    Rebuild(bool),
}
#[derive(Clone, Serialize, Deserialize)]
enum Piece {
    #[serde(rename = "build")]
    Build { cmd: u8, kt: Option<u8>, items: Vec<Item> },
    #[serde(rename = "raw")]
    Raw(#[serde(with = "hx")] Bs),
}
#[derive(Clone, Serialize, Deserialize)]
struct ReqPlan {
    pieces: Vec<Piece>,
    cuts: Vec<u32>,
    /// feed the same bytes again now and then
    #[serde(default)]
    again: bool,
}

pub struct Requests;

impl Family for Requests {
    fn name(&self) -> &'static str {
        "request link"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine request builder, request, request decoder; dashmap map code",
            "the link that fragments and delivers bytes; dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Json, Config) {
        let mut pieces = vec![];
        for _ in 0..rng.range(1, if deep { 8 } else { 5 }) {
            if prop == "C17" && rng.chance(2, 3) {
                pieces.push(Piece::Raw(junk_request(rng)));
                continue;
            }
            let mut items = vec![];
            if rng.chance(9, 10) {
                items.push(Item::Bytes(gen::keys(rng, 1).pop().unwrap()));
            }
            for _ in 0..rng.below(4) {
                items.push(match rng.below(12) {
                    0 => Item::Bytes(vec![]),
                    1 => Item::Many(*rng.pick(&[1u32, 2, 100, 200, 252, 253, 254, 255, 256, 260])),
                    2 | 3 => Item::Rebuild(rng.chance(1, 2)),
                    4 | 5 => Item::Bytes(gen::word(rng)),
                    _ => Item::Value(any_val(rng, deep)),
                });
            }
            pieces.push(Piece::Build {
                cmd: *rng.pick(&ALL),
                kt: if rng.chance(1, 2) { Some(rng.below(8) as u8) } else { None },
                items,
            });
        }
        let plan = ReqPlan {
            pieces,
            cuts: cuts(rng),
            again: rng.chance(1, 4),
        };
        (serde_json::to_value(plan).unwrap(), base_cfg(rng, 20))
    }
    fn exec(&self, _prop: &str, plan: &Json, mut cfg: Config) -> Option<Outcome> {
        let plan: ReqPlan = serde_json::from_value(plan.clone()).ok()?;
        for p in &plan.pieces {
            if let Piece::Build { cmd, kt, .. } = p {
                if !ALL.contains(cmd) || kt.map_or(false, |k| k > 7) {
                    return None;
                }
            }
        }
        cfg.max_steps = 50_000_000;
        Some(simcore::run(cfg, move || requests(plan)))
    }
}

pub fn junk_request(rng: &mut Rng) -> Bs {
    let ks = gen::keys(rng, 2);
    let mut b = match rng.below(4) {
        0 => {
            let n = rng.below(30) as usize;
            rng.bytes(n)
        }
        _ => encode(&if rng.chance(1, 2) { gen::wild(rng, &ks) } else { gen::plain(rng, &ks, &ALL) }),
    };
    for _ in 0..rng.below(4) {
        if b.is_empty() {
            break;
        }
        let i = rng.below(b.len().min(12) as u64) as usize;
        match rng.below(5) {
            0 => b[i] = rng.below(256) as u8,
            1 => b[i] ^= 1 << rng.below(8),
            2 => b.truncate(i),
            3 => {
                for k in i..(i + 4).min(b.len()) {
                    b[k] = 0xff
                }
            }
            _ => b.insert(i, *rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 10, 138, 100, 228])),
        }
    }
    b
}

/// Does a request tell exactly what the model read?
fn same_request(req: &Request, want: &Req, n: usize) -> Result<(), String> {
    if req.command_id() as u8 != want.cmd {
        return Err(format!("command {:?}", req.command_id()));
    }
    if req.key_type().map(|k| k as u8) != want.kt {
        return Err(format!("key type {:?}", req.key_type()));
    }
    if req.arg_count() != want.args.len() {
        return Err(format!("{} arguments", req.arg_count()));
    }
    for (i, a) in want.args.iter().enumerate() {
        if req.arg(i) != Some(&a[..]) {
            return Err(format!(
                "argument {} {}",
                i,
                req.arg(i).map_or("missing".into(), |a| hx::show(a))
            ));
        }
    }
    if req.arg(want.args.len()).is_some() {
        return Err("an argument after the last".into());
    }
    if req.as_bytes().len() != n {
        return Err(format!("{} bytes instead of {}", req.as_bytes().len(), n));
    }
    for from in 0..want.args.len().min(3) {
        if let Some(mut a) = req.args(from..) {
            if a.len() != want.args.len() - from {
                return Err(format!("{} arguments from {} on", a.len(), from));
            }
            let first = a.next();
            if first != want.args.get(from).map(|x| &x[..]) || a.len() != (want.args.len() - from).saturating_sub(1) {
                return Err(format!("{} arguments after number {}", a.len(), from));
            }
            let a = first.into_iter().chain(a);
            let got: Vec<Bs> = a.map(|x| x.to_vec()).collect();
            if got != want.args[from..] {
                return Err(format!("arguments from {} on: {}", from, got.len()));
            }
        } else if from < want.args.len() {
            return Err("no arguments".into());
        }
    }
    if key_notation(want.cmd) != 0 && req.key() != want.args.first().map(|k| &k[..]) {
        return Err("key".into());
    }
    if let Some(a) = want.args.get(1) {
        if req.typed_arg::<&[u8]>(1) != Some(&a[..]) {
            return Err("typed argument".into());
        }
        if req.typed_arg::<i64>(1) != a.get(..8).map(|b| i64::from_be_bytes(b.try_into().unwrap())) {
            return Err("integer argument".into());
        }
        if req.typed_arg::<f64>(1).map(f64::to_bits) != a.get(..8).map(|b| u64::from_be_bytes(b.try_into().unwrap())) {
            return Err("float argument".into());
        }
        if req.typed_arg::<&str>(1) != std::str::from_utf8(a).ok() {
            return Err("string argument".into());
        }
    }
    Ok(())
}

/// What a value adds to a request's arguments, up to the order of maps and sets.
fn adds(v: &MVal, got: &[Bs]) -> bool {
    match v {
        MVal::Map(m) => {
            let mut g: Vec<(Bs, Bs)> = got.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect();
            g.sort();
            got.len() == 2 * m.len() && g.into_iter().eq(m.clone())
        }
        MVal::Set(s) => {
            let mut g = got.to_vec();
            g.sort();
            g.into_iter().eq(s.iter().cloned())
        }
        v => v.args() == got,
    }
}

fn build(cmd: u8, kt: Option<u8>, items: &[Item]) -> Option<Bs> {
    let id = conv(CommandId::try_from(cmd)).expect("a command");
    let mut want = Req { cmd, kt, args: vec![] };
    let key_type = kt.map(|k| KeyType::try_from(k).ok().expect("a key type"));
    let mut b = match key_type {
        None if items.len() % 2 == 0 => RequestBuilder::new(id),
        k => RequestBuilder::new_with_key_type(id, k),
    };
    for item in items {
        let mut todo: Vec<(Option<Bs>, Option<MVal>)> = vec![];
        match item {
            Item::Bytes(x) => todo.push((Some(x.clone()), None)),
            Item::Value(v) => todo.push((None, Some(v.val()))),
            Item::Many(n) => todo.extend((0..*n.min(&600)).map(|_| (Some(b"x".to_vec()), None))),
            Item::Rebuild(wire) => {
                let r = b.into_request();
                if *wire {
                    // by way of a decoder, as a proxy would do
                    let bytes = r.as_bytes().to_vec();
                    let mut c = Context::new();
                    match c.feed(&bytes) {
                        Ok(Some(r)) => b = RequestBuilder::from(r),
                        other => {
                            report(
                                "request not decoded",
                                format!("{:?} ({} bytes) gives {:?}", want, bytes.len(), other.map(|o| o.is_some())),
                            );
                            return None;
                        }
                    }
                } else {
                    b = RequestBuilder::from(r);
                }
                continue;
            }
        }
        for (bytes, value) in todo {
            let (count, empty) = match (&bytes, &value) {
                (Some(x), _) => (1, x.is_empty()),
                (_, Some(v)) => (v.args().len(), v.args().is_empty() || v.args().iter().any(|a| a.is_empty())),
                _ => unreachable!(),
            };
            let fits = want.args.len() + count <= 255 && (!is_simple(cmd) || count == 0);
            let res = match (bytes.clone(), value.clone()) {
                (Some(x), _) => b.bytes(x).is_ok(),
                (_, Some(v)) => b.value(v.to_value()).is_ok(),
                _ => unreachable!(),
            };
            // what the builder holds now
            let r = b.clone().into_request();
            let now: Vec<Bs> = (0..r.arg_count()).filter_map(|i| r.arg(i).map(|a| a.to_vec())).collect();
            if now.len() != r.arg_count() || now.len() < want.args.len() || now[..want.args.len()] != want.args[..] {
                report(
                    "wrong request built",
                    format!("{:?}: earlier arguments changed when adding {:?}{:?}", want, bytes.map(|b| hx::enc(&b)), value),
                );
                return None;
            }
            let new = &now[want.args.len()..];
            let v = match (&bytes, &value) {
                (Some(x), _) => MVal::Bytes(x.clone()),
                (_, Some(v)) => v.clone(),
                _ => unreachable!(),
            };
            if res {
                if !fits {
                    report(
                        "unrepresentable request built",
                        format!("{} with {} arguments accepted {} more", cmd_name(cmd), want.args.len(), count),
                    );
                    return None;
                }
                if !adds(&v, new) {
                    report(
                        "wrong request built",
                        format!("{:?}: adding {:?} added {} arguments", want, v, new.len()),
                    );
                    return None;
                }
                // the documented refusal: there is nothing to hold
                if v.args().is_empty() || matches!(v.args().as_slice(), [a] if a.is_empty() && !matches!(v, MVal::List(_) | MVal::Set(_))) {
                    report("empty argument accepted", format!("{:?} takes {:?}", want, v));
                    return None;
                }
                tally("arguments accepted", 1);
            } else {
                tally("arguments refused", 1);
                if fits && !empty {
                    report(
                        "request refused",
                        format!("{:?} refuses {:?}, which fits", want, v),
                    );
                    return None;
                }
                if !new.is_empty() {
                    report(
                        "wrong request built",
                        format!("{:?}: refusing {:?} added {} arguments", want, v, new.len()),
                    );
                    return None;
                }
            }
            want.args = now;
        }
    }
    let r = b.into_request();
    let enc = encode(&want);
    if r.as_bytes() != &enc[..] {
        report(
            "wrong request built",
            format!("{:?} is written as {} instead of {}", want, hx::show(r.as_bytes()), hx::show(&enc)),
        );
        return None;
    }
    if let Err(e) = same_request(&r, &want, enc.len()) {
        report("wrong request built", format!("{:?}: {}", want, e));
        return None;
    }
    Some(r.into_bytes().into_owned())
}

fn requests(plan: ReqPlan) {
    let mut stream = vec![];
    for p in &plan.pieces {
        match p {
            Piece::Build { cmd, kt, items } => match build(*cmd, *kt, items) {
                Some(b) => stream.extend(b),
                None => return,
            },
            Piece::Raw(b) => stream.extend(b),
        }
    }
    let mut ctx = Context::new();
    let mut buf: Bs = vec![];
    let mut at = 0;
    let mut cuts = plan.cuts.iter();
    let (mut whole, mut waits) = (0u64, 0u64);
    let mut max_used = 0;
    let mut first = true;
    while at < stream.len() || first {
        first = false;
        let n = cuts.next().map_or(stream.len(), |c| *c as usize).min(stream.len() - at);
        // what arrives may land anywhere in memory
        buf.extend_from_slice(&stream[at..at + n]);
        buf.shrink_to_fit();
        at += n;
        let mut repeat = plan.again;
        loop {
            let want = decode_req(&buf);
            let (got, m) = used(|| ctx.feed(&buf));
            max_used = max_used.max(m);
            let consumed = match (&want, got) {
                (Dec::More, Ok(None)) => {
                    waits += 1;
                    if repeat {
                        repeat = false;
                        continue;
                    }
                    break;
                }
                (Dec::Req(w, n), Ok(Some(r))) => {
                    if let Err(e) = same_request(&r, w, *n) {
                        report("wrong request decoded", format!("{:?} is decoded with {}", w, e));
                        return;
                    }
                    whole += 1;
                    *n
                }
                (Dec::Bad(w), Err(e)) => {
                    if *w != e as u8 {
                        report("wrong request decoded", format!("{} gives {:?}", hx::show(&buf), e));
                        return;
                    }
                    let _: ReqError = e;
                    tally("invalid requests", 1);
                    // start over after the offending byte
                    1
                }
                (w, g) => {
                    let what = match &g {
                        Ok(None) => "asks for more".to_string(),
                        Ok(Some(r)) => format!("decodes {:?} of {} bytes", r.command_id(), r.as_bytes().len()),
                        Err(e) => format!("fails with {:?}", e),
                    };
                    report(
                        match (&w, &g) {
                            (Dec::More, Ok(Some(_))) => "request decoded too early",
                            (Dec::Req(..), Ok(None)) => "complete request not decoded",
                            _ => "wrong request decoded",
                        },
                        format!(
                            "with {} bytes {} (should be {}) the decoder {}",
                            buf.len(),
                            hx::show(&buf),
                            match w {
                                Dec::More => "an incomplete request".into(),
                                Dec::Req(r, n) => format!("{:?} in {} bytes", r, n),
                                Dec::Bad(_) => "invalid".into(),
                            },
                            what
                        ),
                    );
                    return;
                }
            };
            buf.drain(..consumed);
            if buf.is_empty() {
                break;
            }
        }
        if max_used > 4096 + 8 * stream.len() as isize {
            report(
                "memory",
                format!("decoding {} bytes took {} bytes of memory", stream.len(), max_used),
            );
            return;
        }
    }
    tally("requests decoded", whole);
    tally("waits for more", waits);
    tally("bytes fed", stream.len() as u64);
    shape(whole << 32 | waits << 8 | 1);
    shape(fw::hash_bytes(&stream));
}

// ---- responses ----------------------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
enum Msg {
    #[serde(rename = "value")]
    Value(V),
    #[serde(rename = "dispatch_error")]
    Dispatch(u8),
    #[serde(rename = "parse_error")]
    Parse(u8),
    #[serde(rename = "raw")]
    Raw(#[serde(with = "hx")] Bs),
}
#[derive(Clone, Serialize, Deserialize)]
struct RespPlan {
    msgs: Vec<Msg>,
    cuts: Vec<u32>,
    /// deliver exactly what the decoder asks for
    obey: bool,
}

pub struct Responses;

impl Family for Responses {
    fn name(&self) -> &'static str {
        "response link"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-engine response encoder and decoder; dashmap map code",
            "the link that fragments and delivers bytes; dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Json, Config) {
        let mut msgs = vec![];
        for _ in 0..rng.range(1, if deep { 8 } else { 5 }) {
            msgs.push(if prop == "C17" && rng.chance(2, 3) {
                Msg::Raw(junk_response(rng))
            } else {
                match rng.below(10) {
                    0 => Msg::Dispatch(rng.below(8) as u8),
                    1 => Msg::Parse(rng.below(2) as u8),
                    _ => Msg::Value(any_val(rng, deep)),
                }
            });
        }
        let plan = RespPlan {
            msgs,
            cuts: cuts(rng),
            obey: rng.chance(1, 3),
        };
        (serde_json::to_value(plan).unwrap(), base_cfg(rng, 20))
    }
    fn exec(&self, _prop: &str, plan: &Json, mut cfg: Config) -> Option<Outcome> {
        let plan: RespPlan = serde_json::from_value(plan.clone()).ok()?;
        for m in &plan.msgs {
            match m {
                Msg::Value(v) => {
                    let ok = match v.val() {
                        MVal::List(l) => l.len() <= 65535,
                        MVal::Map(m) => m.len() <= 65535 && m.keys().all(|k| k.len() <= 255),
                        MVal::Set(s) => s.len() <= 65535 && s.iter().all(|k| k.len() <= 65535),
                        _ => true,
                    };
                    if !ok {
                        return None;
                    }
                }
                Msg::Dispatch(e) if *e > 7 => return None,
                Msg::Parse(e) if *e > 1 => return None,
                _ => {}
            }
        }
        cfg.max_steps = 50_000_000;
        Some(simcore::run(cfg, move || responses(plan)))
    }
}

pub fn junk_response(rng: &mut Rng) -> Bs {
    let mut b = match rng.below(5) {
        0 => {
            let n = rng.below(30) as usize;
            rng.bytes(n)
        }
        1 => {
            let n = rng.below(24) as usize;
            let mut b = (rng.below(24) as u32).to_be_bytes().to_vec();
            b.push(rng.below(11) as u8);
            b.extend(rng.bytes(n));
            b
        }
        2 => {
            // small lengths everywhere
            let mut b = (rng.below(40) as u32).to_be_bytes().to_vec();
            b.push(rng.below(10) as u8);
            b.extend((0..rng.below(40)).map(|_| *rng.pick(&[0u8, 0, 0, 0, 1, 2, 3, 255])).collect::<Vec<_>>());
            b
        }
        _ => {
            let v = any_val(rng, false);
            encode_resp(&WResp::Val(V { more: v.more.min(300), ..v }.val()))
        }
    };
    for _ in 0..rng.below(4) {
        if b.is_empty() {
            break;
        }
        let i = rng.below(b.len().min(16) as u64) as usize;
        match rng.below(5) {
            0 => b[i] = rng.below(256) as u8,
            1 => b[i] ^= 1 << rng.below(8),
            2 => b.truncate(i),
            3 => {
                for k in i..(i + 4).min(b.len()) {
                    b[k] = 0xff
                }
            }
            _ => b.insert(i, *rng.pick(&[0u8, 1, 2, 7, 8, 9, 10, 0xff])),
        }
    }
    b
}

fn real_to_w(r: &Response) -> WResp {
    match r {
        Response::Value(v) => WResp::Val(MVal::from_value(v)),
        Response::DispatchError(e) => WResp::Dispatch(*e as u8),
        Response::ParseError(e) => WResp::Parse(*e as u8),
    }
}

fn responses(plan: RespPlan) {
    let mut ctx = RespContext::new();
    let mut cuts = plan.cuts.iter();
    let (mut done, mut waits, mut errs) = (0u64, 0u64, 0u64);
    let mut all = 0u64;
    for (i, m) in plan.msgs.iter().enumerate() {
        let mut bits = None;
        let (want, bytes) = match m {
            Msg::Raw(b) => (None, b.clone()),
            m => {
                let w = match m {
                    Msg::Value(v) => WResp::Val(v.val()),
                    Msg::Dispatch(e) => WResp::Dispatch(*e),
                    Msg::Parse(e) => WResp::Parse(*e),
                    Msg::Raw(_) => unreachable!(),
                };
                // as a model, zeroes are all the same, and so are NaNs; as bytes they aren't
                bits = match m {
                    Msg::Value(v) => v.bits(),
                    _ => None,
                };
                let real = match &w {
                    WResp::Val(_) if bits.is_some() => Response::Value(f64::from_bits(bits.unwrap()).into()),
                    WResp::Val(v) => Response::Value(v.to_value()),
                    WResp::Dispatch(e) => Response::from(DispatchError::try_from(*e).expect("a dispatch error")),
                    WResp::Parse(e) => Response::from(ReqError::try_from(*e).expect("a parse error")),
                };
                let b = real.as_bytes();
                let mut pre = b"before".to_vec();
                real.copy_to(&mut pre);
                if pre.len() != 6 + b.len() || !pre.starts_with(b"before") || decode_resp(&pre[6..]) != decode_resp(&b) {
                    report("wrong response encoded", format!("{:?} depends on what precedes it", w));
                    return;
                }
                match decode_resp(&b) {
                    DecR::Resp(g, n) if g == w && n == b.len() => {}
                    other => {
                        report(
                            "wrong response encoded",
                            format!("{:?} is written as {} ({:?})", w, hx::show(&b), other),
                        );
                        return;
                    }
                }
                if bits.map_or(false, |x| !b.ends_with(&x.to_be_bytes())) {
                    report("wrong response encoded", format!("the bits {:x?} are written as {}", bits, hx::show(&b)));
                    return;
                }
                (Some(w), b)
            }
        };
        all = fw::mix(all, fw::hash_bytes(&bytes));
        // deliver the message
        let mut have = 0usize;
        let mut ask;
        loop {
            let (got, m) = used(|| ctx.feed(&bytes[..have]));
            if m > (1 << 18) + 64 * have as isize {
                report(
                    "memory",
                    format!("decoding {} bytes took {} bytes of memory", have, m),
                );
                return;
            }
            match got {
                Ok(Instruction::ReadBytes(n)) => {
                    waits += 1;
                    if n == 0 {
                        report(
                            "decoder stalls",
                            format!("message {}: asks for 0 bytes after {} of {}", i, have, hx::show(&bytes)),
                        );
                        return;
                    }
                    if want.is_some() && have + n > bytes.len() {
                        report(
                            "decoder reads too much",
                            format!(
                                "message {} {:?}: with {} of {} bytes it asks for {} more",
                                i,
                                want,
                                have,
                                bytes.len(),
                                n
                            ),
                        );
                        return;
                    }
                    ask = n;
                }
                Ok(Instruction::Concluded(r)) => {
                    done += 1;
                    match &want {
                        Some(w) => {
                            let g = real_to_w(&r);
                            if g != *w {
                                report("wrong response decoded", format!("{:?} arrives as {:?}", w, g));
                                return;
                            }
                            if let (Some(b), Response::Value(v)) = (bits, &r) {
                                if v.as_float_ref().map(|f| f.to_bits()) != Some(b) {
                                    report("wrong response decoded", format!("the bits {:x} arrive as {:?}", b, v));
                                    return;
                                }
                            }
                            if have < bytes.len() {
                                report(
                                    "response decoded too early",
                                    format!("{:?} with {} of {} bytes", w, have, bytes.len()),
                                );
                                return;
                            }
                        }
                        None => {
                            // a strictly valid message must mean the same
                            if let DecR::Resp(w, n) = decode_resp(&bytes[..have]) {
                                if n <= have && real_to_w(&r) != w {
                                    report(
                                        "wrong response decoded",
                                        format!("{} arrives as {:?}", hx::show(&bytes), real_to_w(&r)),
                                    );
                                    return;
                                }
                            }
                        }
                    }
                    break;
                }
                Err(e) => {
                    errs += 1;
                    let _: RespError = e;
                    if let Some(w) = want {
                        report("valid response refused", format!("{:?} gives {:?}", w, e));
                        return;
                    }
                    break;
                }
            }
            if have == bytes.len() {
                // the peer sent too little: give up on this decoder
                if let Some(w) = want {
                    report(
                        "response never concluded",
                        format!("{:?}: all {} bytes arrived, more are asked for", w, bytes.len()),
                    );
                    return;
                }
                ctx = RespContext::new();
                break;
            }
            have += if plan.obey {
                ask.min(bytes.len() - have)
            } else {
                (cuts.next().map_or(usize::MAX, |c| *c as usize)).min(bytes.len() - have)
            };
        }
    }
    tally("responses decoded", done);
    tally("responses refused", errs);
    tally("waits for more", waits);
    shape(done << 32 | waits << 8 | 1);
    shape(all);
}
