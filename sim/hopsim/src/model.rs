//! The executable reference model: what the sixteen documented commands do to a
//! key-value database, and an independent codec of the wire format.
use crate::hx;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Bs = Vec<u8>;

pub const INC: u8 = 0;
pub const DEC: u8 = 1;
pub const INCBY: u8 = 2;
pub const DECBY: u8 = 3;
pub const SET: u8 = 10;
pub const GET: u8 = 11;
pub const DELETE: u8 = 12;
pub const EXISTS: u8 = 13;
pub const IS: u8 = 14;
pub const RENAME: u8 = 15;
pub const TYPE: u8 = 16;
pub const APPEND: u8 = 20;
pub const LENGTH: u8 = 21;
pub const KEYS: u8 = 22;
pub const ECHO: u8 = 100;
pub const STATS: u8 = 101;
pub const ALL: [u8; 16] = [
    INC, DEC, INCBY, DECBY, SET, GET, DELETE, EXISTS, IS, RENAME, TYPE, APPEND, LENGTH, KEYS, ECHO, STATS,
];

pub const T_BYTES: u8 = 0;
pub const T_BOOL: u8 = 1;
pub const T_FLOAT: u8 = 2;
pub const T_INT: u8 = 3;
pub const T_STR: u8 = 4;
pub const T_LIST: u8 = 5;
pub const T_MAP: u8 = 6;
pub const T_SET: u8 = 7;

pub const E_ARG: u8 = 0;
pub const E_KEY: u8 = 1;
pub const E_DIFF: u8 = 2;
pub const E_UNEXP: u8 = 3;
pub const E_PRE: u8 = 4;
pub const E_NONE: u8 = 5;
pub const E_REQ: u8 = 6;
pub const E_INV: u8 = 7;

pub fn cmd_name(c: u8) -> &'static str {
    match c {
        INC => "increment",
        DEC => "decrement",
        INCBY => "increment:by",
        DECBY => "decrement:by",
        SET => "set",
        GET => "get",
        DELETE => "delete",
        EXISTS => "exists",
        IS => "is",
        RENAME => "rename",
        TYPE => "type",
        APPEND => "append",
        LENGTH => "length",
        KEYS => "keys",
        ECHO => "echo",
        STATS => "stats",
        _ => "?",
    }
}
pub fn type_name(t: u8) -> &'static str {
    ["bytes", "bool", "float", "int", "str", "list", "map", "set"]
        .get(t as usize)
        .copied()
        .unwrap_or("?")
}
pub fn err_name(e: u8) -> &'static str {
    [
        "ArgumentRetrieval",
        "KeyUnspecified",
        "KeyTypeDifferent",
        "KeyTypeUnexpected",
        "PreconditionFailed",
        "KeyNonexistent",
        "KeyTypeRequired",
        "KeyTypeInvalid",
    ]
    .get(e as usize)
    .copied()
    .unwrap_or("?")
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Req {
    pub cmd: u8,
    #[serde(default)]
    pub kt: Option<u8>,
    #[serde(with = "hx::list", default)]
    pub args: Vec<Bs>,
}
impl std::fmt::Debug for Req {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", cmd_name(self.cmd))?;
        if let Some(k) = self.kt {
            write!(f, ":{}", type_name(k))?;
        }
        for a in &self.args {
            write!(f, " {}", hx::show(a))?;
        }
        Ok(())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MVal {
    Bool(bool),
    Bytes(Bs),
    /// canonical bits
    Float(u64),
    Int(i64),
    List(Vec<Bs>),
    Map(BTreeMap<Bs, Bs>),
    Set(BTreeSet<Bs>),
    Str(String),
}
impl std::fmt::Debug for MVal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            MVal::Bool(b) => write!(f, "bool {}", b),
            MVal::Bytes(b) => write!(f, "bytes {}", hx::show(b)),
            MVal::Float(x) => write!(f, "float {:?}", f64::from_bits(*x)),
            MVal::Int(i) => write!(f, "int {}", i),
            MVal::List(l) => {
                write!(f, "list[")?;
                for (n, x) in l.iter().enumerate() {
                    write!(f, "{}{}", if n > 0 { ", " } else { "" }, hx::show(x))?;
                    if n > 20 {
                        write!(f, ", .. {}", l.len())?;
                        break;
                    }
                }
                write!(f, "]")
            }
            MVal::Map(m) => {
                write!(f, "map{{")?;
                for (n, (k, v)) in m.iter().enumerate() {
                    write!(f, "{}{}={}", if n > 0 { ", " } else { "" }, hx::show(k), hx::show(v))?;
                    if n > 20 {
                        write!(f, ", .. {}", m.len())?;
                        break;
                    }
                }
                write!(f, "}}")
            }
            MVal::Set(m) => {
                write!(f, "set{{")?;
                for (n, x) in m.iter().enumerate() {
                    write!(f, "{}{}", if n > 0 { ", " } else { "" }, hx::show(x))?;
                    if n > 20 {
                        write!(f, ", .. {}", m.len())?;
                        break;
                    }
                }
                write!(f, "}}")
            }
            MVal::Str(s) => write!(f, "str {:?}", s.chars().take(60).collect::<String>()),
        }
    }
}

pub fn canon(f: f64) -> u64 {
    if f.is_nan() {
        f64::NAN.to_bits()
    } else if f == 0.0 {
        0
    } else {
        f.to_bits()
    }
}

impl MVal {
    pub fn float(f: f64) -> MVal {
        MVal::Float(canon(f))
    }
    pub fn kind(&self) -> u8 {
        match self {
            MVal::Bytes(_) => T_BYTES,
            MVal::Bool(_) => T_BOOL,
            MVal::Float(_) => T_FLOAT,
            MVal::Int(_) => T_INT,
            MVal::Str(_) => T_STR,
            MVal::List(_) => T_LIST,
            MVal::Map(_) => T_MAP,
            MVal::Set(_) => T_SET,
        }
    }
    pub fn from_value(v: &hop_engine::state::Value) -> MVal {
        use hop_engine::state::Value::*;
        match v {
            Boolean(b) => MVal::Bool(*b),
            Bytes(b) => MVal::Bytes(b.clone()),
            Float(f) => MVal::float(*f),
            Integer(i) => MVal::Int(*i),
            List(l) => MVal::List(l.clone()),
            Map(m) => MVal::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect()),
            Set(s) => MVal::Set(s.iter().map(|r| r.key().clone()).collect()),
            String(s) => MVal::Str(s.clone()),
        }
    }
    pub fn to_value(&self) -> hop_engine::state::Value {
        use hop_engine::state::Value::*;
        match self {
            MVal::Bool(b) => Boolean(*b),
            MVal::Bytes(b) => Bytes(b.clone()),
            MVal::Float(f) => Float(f64::from_bits(*f)),
            MVal::Int(i) => Integer(*i),
            MVal::List(l) => List(l.clone()),
            MVal::Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
            MVal::Set(s) => Set(s.iter().cloned().collect()),
            MVal::Str(s) => String(s.clone()),
        }
    }
    /// The arguments of a `set` request storing this value.
    pub fn args(&self) -> Vec<Bs> {
        match self {
            MVal::Bool(b) => vec![vec![*b as u8]],
            MVal::Bytes(b) => vec![b.clone()],
            MVal::Float(f) => vec![f.to_be_bytes().to_vec()],
            MVal::Int(i) => vec![i.to_be_bytes().to_vec()],
            MVal::List(l) => l.clone(),
            MVal::Map(m) => m.iter().flat_map(|(k, v)| vec![k.clone(), v.clone()]).collect(),
            MVal::Set(s) => s.iter().cloned().collect(),
            MVal::Str(s) => vec![s.clone().into_bytes()],
        }
    }
}

pub type Db = BTreeMap<Bs, MVal>;

/// Response: a value or a set (bit mask) of acceptable dispatch errors.
pub type MResp = Result<MVal, u16>;

fn bit(e: u8) -> u16 {
    1 << e
}

/// 0 none, 1 one, 2 two, 3 multiple
pub fn key_notation(cmd: u8) -> u8 {
    match cmd {
        ECHO | STATS => 0,
        RENAME => 2,
        EXISTS | IS => 3,
        _ => 1,
    }
}

pub fn keys_of(r: &Req) -> Vec<&Bs> {
    match key_notation(r.cmd) {
        0 => vec![],
        1 => r.args.iter().take(1).collect(),
        2 => r.args.iter().take(2).collect(),
        _ => r.args.iter().collect(),
    }
}

fn to_val(kind: u8, args: &[Bs]) -> Option<MVal> {
    let a = args.first()?;
    Some(match kind {
        T_BYTES => MVal::Bytes(a.clone()),
        T_BOOL => MVal::Bool(*a.first()? > 0),
        T_FLOAT => MVal::float(f64::from_be_bytes(a.get(..8)?.try_into().ok()?)),
        T_INT => MVal::Int(i64::from_be_bytes(a.get(..8)?.try_into().ok()?)),
        T_LIST => MVal::List(args.to_vec()),
        T_MAP => {
            let mut m = BTreeMap::new();
            for c in args.chunks(2) {
                if c.len() == 2 {
                    if c[0].len() > 255 {
                        return None;
                    }
                    m.insert(c[0].clone(), c[1].clone());
                }
            }
            MVal::Map(m)
        }
        T_SET => {
            if args.iter().any(|a| a.len() > 65535) {
                return None;
            }
            MVal::Set(args.iter().cloned().collect())
        }
        _ => MVal::Str(String::from_utf8(a.clone()).ok()?),
    })
}

/// Errors that follow from the request alone.
fn stateless(r: &Req) -> u16 {
    let mut m = 0;
    for k in keys_of(r) {
        if k.is_empty() {
            m |= bit(E_KEY);
        } else if k.starts_with(b"__hop__:") {
            m |= bit(E_PRE);
        }
    }
    let n = r.args.len();
    match key_notation(r.cmd) {
        1 if n < 1 => m |= bit(E_KEY),
        2 if n < 1 => m |= bit(E_KEY),
        2 if n < 2 => m |= bit(E_ARG),
        3 if n < 1 => m |= bit(E_ARG),
        _ => {}
    }
    match r.cmd {
        DELETE | EXISTS | RENAME | TYPE | STATS if r.kt.is_some() => m |= bit(E_UNEXP),
        IS if r.kt.is_none() => m |= bit(E_REQ),
        SET if n < 2 && n > 0 => m |= bit(E_ARG),
        SET if r.kt.is_some() && n >= 2 => {
            if to_val(r.kt.unwrap(), &r.args[1..]).is_none() {
                m |= bit(E_ARG)
            }
        }
        APPEND => match r.kt {
            None | Some(T_BYTES) | Some(T_LIST) => {}
            Some(T_STR) => {
                if r.args.iter().skip(1).any(|a| std::str::from_utf8(a).is_err()) {
                    m |= bit(E_ARG)
                }
            }
            _ => m |= bit(E_DIFF),
        },
        INCBY | DECBY => {
            if n > 0 && r.args.get(1).map_or(true, |a| a.len() < 8) {
                m |= bit(E_ARG)
            }
        }
        LENGTH => {
            if matches!(r.kt, Some(T_BOOL) | Some(T_FLOAT) | Some(T_INT)) {
                m |= bit(E_INV)
            }
        }
        KEYS => {
            if r.kt.map_or(false, |k| k != T_MAP) {
                m |= bit(E_INV)
            }
        }
        _ => {}
    }
    m
}

/// Apply a request.  `Err` leaves the database as it is.
pub fn apply(db: &mut Db, r: &Req) -> MResp {
    let pre = stateless(r);
    if pre != 0 {
        // whatever else is wrong with the request may be reported instead
        let mut probe = db.clone();
        let mut all = pre;
        if pre & (bit(E_KEY) | bit(E_PRE)) == 0 {
            if let Some(k) = r.args.first() {
                match probe.get(k) {
                    None => {
                        if matches!(r.cmd, GET | LENGTH | KEYS | TYPE | RENAME) {
                            all |= bit(E_NONE)
                        }
                        if r.cmd == DELETE {
                            all |= bit(E_PRE)
                        }
                    }
                    Some(v) => {
                        if r.kt.map_or(false, |t| t != v.kind())
                            && matches!(r.cmd, GET | LENGTH | KEYS | APPEND | INC | DEC | INCBY | DECBY)
                        {
                            all |= bit(E_DIFF)
                        }
                    }
                }
            }
        }
        probe.clear();
        return Err(all);
    }
    let a = &r.args;
    match r.cmd {
        INC | DEC | INCBY | DECBY => {
            let (i, f) = match r.cmd {
                INC => (1i64, 1f64),
                DEC => (-1, -1.0),
                _ => {
                    let b: [u8; 8] = a[1][..8].try_into().unwrap();
                    let (i, f) = (i64::from_be_bytes(b), f64::from_be_bytes(b));
                    if r.cmd == DECBY {
                        (i.wrapping_neg(), -f)
                    } else {
                        (i, f)
                    }
                }
            };
            let want_float = r.kt == Some(T_FLOAT);
            let cur = db.get(&a[0]).cloned().unwrap_or(if want_float {
                MVal::float(0.0)
            } else {
                MVal::Int(0)
            });
            let new = match cur {
                MVal::Float(x) if want_float || r.kt.is_none() => MVal::float(f64::from_bits(x) + f),
                MVal::Int(x) if !want_float => MVal::Int(x.wrapping_add(i)),
                _ => return Err(bit(E_DIFF)),
            };
            db.insert(a[0].clone(), new.clone());
            Ok(new)
        }
        SET => {
            let kind = r.kt.unwrap_or_else(|| db.get(&a[0]).map_or(T_BYTES, |v| v.kind()));
            let v = to_val(kind, &a[1..]).ok_or(bit(E_ARG))?;
            db.insert(a[0].clone(), v.clone());
            Ok(v)
        }
        GET => {
            let v = db.get(&a[0]).ok_or(bit(E_NONE))?;
            if r.kt.map_or(false, |k| k != v.kind()) {
                return Err(bit(E_DIFF));
            }
            Ok(v.clone())
        }
        DELETE => {
            db.remove(&a[0]).ok_or(bit(E_PRE))?;
            Ok(MVal::Bytes(a[0].clone()))
        }
        EXISTS => Ok(MVal::Bool(a.iter().all(|k| db.contains_key(k)))),
        IS => Ok(MVal::Bool(a.iter().all(|k| db.get(k).map(|v| v.kind()) == r.kt))),
        RENAME => {
            if !db.contains_key(&a[0]) {
                let mut e = bit(E_NONE);
                if db.contains_key(&a[1]) {
                    e |= bit(E_PRE)
                }
                return Err(e);
            }
            if db.contains_key(&a[1]) {
                return Err(bit(E_PRE));
            }
            let v = db.remove(&a[0]).unwrap();
            db.insert(a[1].clone(), v);
            Ok(MVal::Bytes(a[1].clone()))
        }
        TYPE => db.get(&a[0]).map(|v| MVal::Int(v.kind() as i64)).ok_or(bit(E_NONE)),
        APPEND => {
            let new = match (db.get(&a[0]), r.kt) {
                (None, Some(T_LIST)) => MVal::List(vec![]),
                (None, Some(T_STR)) => MVal::Str(String::new()),
                (None, _) => MVal::Bytes(vec![]),
                (Some(v), k) => {
                    if k.map_or(false, |k| k != v.kind()) {
                        return Err(bit(E_DIFF));
                    }
                    v.clone()
                }
            };
            let new = match new {
                MVal::Bytes(mut b) => {
                    for x in &a[1..] {
                        b.extend_from_slice(x)
                    }
                    MVal::Bytes(b)
                }
                MVal::List(mut l) => {
                    if l.len() + a.len() - 1 > 65535 {
                        return Err(bit(E_PRE));
                    }
                    l.extend(a[1..].iter().cloned());
                    MVal::List(l)
                }
                MVal::Str(mut s) => {
                    let mut add = String::new();
                    for x in &a[1..] {
                        add.push_str(std::str::from_utf8(x).map_err(|_| bit(E_ARG))?)
                    }
                    s.push_str(&add);
                    MVal::Str(s)
                }
                _ => return Err(bit(E_DIFF)),
            };
            db.insert(a[0].clone(), new.clone());
            Ok(new)
        }
        LENGTH => {
            let v = db.get(&a[0]).ok_or(bit(E_NONE))?;
            if r.kt.map_or(false, |k| k != v.kind()) {
                return Err(bit(E_DIFF));
            }
            Ok(MVal::Int(match v {
                MVal::Bytes(b) => b.len(),
                MVal::List(b) => b.len(),
                MVal::Map(b) => b.len(),
                MVal::Set(b) => b.len(),
                MVal::Str(b) => b.chars().count(),
                _ => return Err(bit(E_INV)),
            } as i64))
        }
        KEYS => {
            let v = db.get(&a[0]).ok_or(bit(E_NONE))?;
            match v {
                MVal::Map(m) => Ok(MVal::List(m.keys().cloned().collect())),
                _ if r.kt.is_some() => Err(bit(E_DIFF)),
                _ => Err(bit(E_INV)),
            }
        }
        ECHO => Ok(MVal::List(a.clone())),
        _ => Ok(MVal::Map(BTreeMap::new())),
    }
}

/// Does the observed answer match the expected one?
pub fn matches(r: &Req, want: &MResp, got: &Result<MVal, u8>) -> bool {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if r.cmd == STATS {
                return matches!(g, MVal::Map(_));
            }
            if r.cmd == KEYS {
                if let (MVal::List(w), MVal::List(g)) = (w, g) {
                    let mut g = g.clone();
                    g.sort();
                    return *w == g;
                }
            }
            w == g
        }
        (Err(m), Err(e)) => *e < 16 && m & bit(*e) != 0,
        _ => false,
    }
}

pub fn mask_names(m: u16) -> String {
    (0..8)
        .filter(|e| m & bit(*e) != 0)
        .map(err_name)
        .collect::<Vec<_>>()
        .join("|")
}
pub fn show_m(r: &MResp) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(m) => format!("error {}", mask_names(*m)),
    }
}
pub fn show_r(r: &Result<MVal, u8>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("error {}", err_name(*e)),
    }
}

// ---- wire format -----------------------------------------------------------

pub fn is_simple(cmd: u8) -> bool {
    cmd == STATS
}

pub fn encode(r: &Req) -> Bs {
    let mut b = vec![r.cmd | if r.kt.is_some() { 0x80 } else { 0 }];
    if let Some(k) = r.kt {
        b.push(k);
    }
    if is_simple(r.cmd) {
        return b;
    }
    b.push(r.args.len() as u8);
    for a in &r.args {
        b.extend((a.len() as u32).to_be_bytes());
        b.extend(a);
    }
    b
}

/// Outcome of decoding the head of a byte stream as one request.
#[derive(Debug, Clone, PartialEq)]
pub enum Dec {
    Req(Req, usize),
    More,
    /// 0 command, 1 key type
    Bad(u8),
}

pub fn decode_req(b: &[u8]) -> Dec {
    let Some(&h) = b.first() else { return Dec::More };
    let cmd = h & 0x7f;
    if !ALL.contains(&cmd) {
        return Dec::Bad(0);
    }
    let mut i = 1;
    let mut kt = None;
    if h & 0x80 != 0 {
        match b.get(1) {
            None => return Dec::More,
            Some(k) if *k > 7 => return Dec::Bad(1),
            Some(k) => kt = Some(*k),
        }
        i = 2;
    }
    if is_simple(cmd) {
        return Dec::Req(Req { cmd, kt, args: vec![] }, i);
    }
    let Some(&n) = b.get(i) else { return Dec::More };
    i += 1;
    let mut args = vec![];
    for _ in 0..n {
        let Some(l) = b.get(i..i + 4) else { return Dec::More };
        let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
        i += 4;
        let Some(a) = b.get(i..i + l) else { return Dec::More };
        args.push(a.to_vec());
        i += l;
    }
    Dec::Req(Req { cmd, kt, args }, i)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WResp {
    Val(MVal),
    Dispatch(u8),
    Parse(u8),
}
impl WResp {
    pub fn as_result(&self) -> Option<Result<MVal, u8>> {
        match self {
            WResp::Val(v) => Some(Ok(v.clone())),
            WResp::Dispatch(e) => Some(Err(*e)),
            WResp::Parse(_) => None,
        }
    }
}

/// Response type of a value on the wire.
pub fn wire_type(v: &MVal) -> u8 {
    match v {
        MVal::Bool(_) => W_BOOL,
        MVal::Bytes(_) => W_BYTES,
        MVal::Float(_) => W_FLOAT,
        MVal::Int(_) => W_INT,
        MVal::List(_) => W_LIST,
        MVal::Map(_) => W_MAP,
        MVal::Set(_) => W_SET,
        MVal::Str(_) => W_STR,
    }
}

pub fn encode_resp(r: &WResp) -> Bs {
    let mut p = vec![];
    match r {
        WResp::Val(v) => {
            p.push(wire_type(v));
            match v {
                MVal::Bool(b) => p.push(*b as u8),
                MVal::Bytes(b) => {
                    p.extend((b.len() as u32).to_be_bytes());
                    p.extend(b)
                }
                MVal::Str(b) => {
                    p.extend((b.len() as u32).to_be_bytes());
                    p.extend(b.as_bytes())
                }
                MVal::Float(f) => p.extend(f.to_be_bytes()),
                MVal::Int(f) => p.extend(f.to_be_bytes()),
                MVal::List(l) => {
                    p.extend((l.len() as u16).to_be_bytes());
                    for x in l {
                        p.extend((x.len() as u32).to_be_bytes());
                        p.extend(x)
                    }
                }
                MVal::Map(m) => {
                    p.extend((m.len() as u16).to_be_bytes());
                    for (k, x) in m {
                        p.push(k.len() as u8);
                        p.extend(k);
                        p.extend((x.len() as u32).to_be_bytes());
                        p.extend(x)
                    }
                }
                MVal::Set(s) => {
                    p.extend((s.len() as u16).to_be_bytes());
                    for x in s {
                        p.extend((x.len() as u16).to_be_bytes());
                        p.extend(x)
                    }
                }
            }
        }
        WResp::Dispatch(e) => p.extend([W_DISPATCH, *e]),
        WResp::Parse(e) => p.extend([W_PARSE, *e]),
    }
    let mut b = (p.len() as u32).to_be_bytes().to_vec();
    b.extend(p);
    b
}

pub const W_BOOL: u8 = 0;
pub const W_BYTES: u8 = 1;
pub const W_FLOAT: u8 = 2;
pub const W_INT: u8 = 3;
pub const W_LIST: u8 = 4;
pub const W_MAP: u8 = 5;
pub const W_SET: u8 = 6;
pub const W_STR: u8 = 7;
pub const W_PARSE: u8 = 8;
pub const W_DISPATCH: u8 = 9;

#[derive(Debug, Clone, PartialEq)]
pub enum DecR {
    Resp(WResp, usize),
    More,
    Bad(String),
}

/// Decode the head of a stream as one response (strict).
pub fn decode_resp(b: &[u8]) -> DecR {
    let Some(l) = b.get(..4) else { return DecR::More };
    let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
    let Some(p) = b.get(4..4 + l) else {
        return if l > 1 << 28 { DecR::Bad(format!("response length {}", l)) } else { DecR::More };
    };
    match decode_payload(p) {
        Ok(r) => DecR::Resp(r, 4 + l),
        Err(e) => DecR::Bad(format!("{} in {}", e, hx::show(p))),
    }
}

fn decode_payload(p: &[u8]) -> Result<WResp, String> {
    struct C<'a>(&'a [u8], usize);
    impl<'a> C<'a> {
        fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
            let r = self.0.get(self.1..self.1 + n).ok_or("truncated response")?;
            self.1 += n;
            Ok(r)
        }
        fn u(&mut self, n: usize) -> Result<usize, String> {
            Ok(self.take(n)?.iter().fold(0usize, |a, b| a << 8 | *b as usize))
        }
    }
    let mut c = C(p, 0);
    let t = c.u(1)? as u8;
    let r = match t {
        W_BYTES => {
            let n = c.u(4)?;
            WResp::Val(MVal::Bytes(c.take(n)?.to_vec()))
        }
        W_BOOL => match c.u(1)? {
            0 => WResp::Val(MVal::Bool(false)),
            1 => WResp::Val(MVal::Bool(true)),
            n => return Err(format!("boolean {}", n)),
        },
        W_FLOAT => WResp::Val(MVal::float(f64::from_be_bytes(c.take(8)?.try_into().unwrap()))),
        W_INT => WResp::Val(MVal::Int(i64::from_be_bytes(c.take(8)?.try_into().unwrap()))),
        W_STR => {
            let n = c.u(4)?;
            WResp::Val(MVal::Str(String::from_utf8(c.take(n)?.to_vec()).map_err(|_| "not UTF-8")?))
        }
        W_LIST => {
            let n = c.u(2)?;
            let mut l = vec![];
            for _ in 0..n {
                let k = c.u(4)?;
                l.push(c.take(k)?.to_vec());
            }
            WResp::Val(MVal::List(l))
        }
        W_MAP => {
            let n = c.u(2)?;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = c.u(1)?;
                let key = c.take(k)?.to_vec();
                let k = c.u(4)?;
                if m.insert(key, c.take(k)?.to_vec()).is_some() {
                    return Err("duplicate map key".into());
                }
            }
            WResp::Val(MVal::Map(m))
        }
        W_SET => {
            let n = c.u(2)?;
            let mut m = BTreeSet::new();
            for _ in 0..n {
                let k = c.u(2)?;
                if !m.insert(c.take(k)?.to_vec()) {
                    return Err("duplicate set item".into());
                }
            }
            WResp::Val(MVal::Set(m))
        }
        W_DISPATCH => match c.u(1)? {
            e if e < 8 => WResp::Dispatch(e as u8),
            e => return Err(format!("dispatch error {}", e)),
        },
        W_PARSE => match c.u(1)? {
            e if e < 2 => WResp::Parse(e as u8),
            e => return Err(format!("parse error {}", e)),
        },
        _ => return Err(format!("response type {}", t)),
    };
    if c.1 != p.len() {
        return Err(format!("{} bytes left over", p.len() - c.1));
    }
    Ok(r)
}
