//! The interactive command line client: its binary on a simulated terminal, and its
//! library on a networked client.
use crate::{
    client::{CErr, Wrap},
    fw::{self, base_cfg, report, shape, tally, Family},
    gen, hx,
    model::*,
    netx::{self, SERVER},
    server::start_server,
    wire::*,
};
use hop::{backend::ServerBackend, Client};
use hop_cli::ProcessError;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{net, rng::Rng, stdio, Config, Fault, Outcome};
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

// ---- what a line means -------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Text(String),
    /// this number, however written
    Float(u64),
    /// these lines in any order
    Lines(Vec<String>),
    /// statistics: successes, failures, sessions started and ended
    Stats([i64; 4]),
    /// an error the engine reports
    Dispatch(u16),
    /// an error found before asking the engine
    Local,
    /// the same: a word that is not of this type
    Typed(u8),
    /// whatever one answer
    Any,
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn lines(v: Vec<String>) -> Want {
    let mut v: Vec<String> = v.iter().flat_map(|s| s.split('\n')).map(String::from).collect();
    v.sort();
    Want::Lines(v)
}
fn printed(v: &MVal) -> Want {
    Want::Text(match v {
        MVal::Bool(b) => b.to_string(),
        MVal::Bytes(b) => lossy(b),
        MVal::Float(f) => return Want::Float(*f),
        MVal::Int(i) => i.to_string(),
        MVal::Str(s) => s.clone(),
        MVal::List(l) => l.iter().map(|i| lossy(i)).collect::<Vec<_>>().join("\n"),
        MVal::Map(m) => return lines(m.iter().map(|(k, v)| format!("{}={}", lossy(k), lossy(v))).collect()),
        MVal::Set(s) => return lines(s.iter().map(|i| lossy(i)).collect()),
    })
}

/// Command and key type of a line's first word.
fn command(word: &str) -> Option<(u8, Option<u8>)> {
    let named = |s: &str| ALL.iter().copied().find(|c| cmd_name(*c) == s);
    if let Some(c) = named(word) {
        return Some((c, None));
    }
    let (c, t) = word.rsplit_once(':')?;
    let t = match t {
        "boolean" | "bool" => T_BOOL,
        "bytes" => T_BYTES,
        "float" => T_FLOAT,
        "integer" | "int" => T_INT,
        "list" => T_LIST,
        "map" => T_MAP,
        "set" => T_SET,
        "string" | "str" => T_STR,
        _ => return None,
    };
    Some((named(c)?, Some(t)))
}

/// The request to the engine that a line stands for, and the type its answer must
/// have.  `Err`: the line is answered without asking the engine.
pub fn meaning(line: &str) -> Result<(Req, Option<u8>), Want> {
    let bad = Err(Want::Local);
    let mut words = line.split(' ');
    let first = words.next().unwrap_or("");
    let Some((cmd, kt)) = command(first) else { return bad };
    let words: Vec<&str> = words.collect();
    let mut args: Vec<Bs> = vec![];
    if !words.is_empty() {
        let keys = match key_notation(cmd) {
            3 => words.len(),
            n => n as usize,
        };
        if words.len() < keys {
            return bad;
        }
        args.extend(words[..keys].iter().map(|w| w.as_bytes().to_vec()));
        let rest = &words[keys..];
        for w in rest {
            args.push(match kt {
                Some(T_BOOL) => match *w {
                    "true" => vec![1],
                    "false" => vec![0],
                    _ => return Err(Want::Typed(T_BOOL)),
                },
                Some(T_INT) => match w.parse::<i64>() {
                    Ok(i) => i.to_be_bytes().to_vec(),
                    Err(_) => return Err(Want::Typed(T_INT)),
                },
                Some(T_FLOAT) => match w.parse::<f64>() {
                    Ok(f) => f.to_be_bytes().to_vec(),
                    Err(_) => return Err(Want::Typed(T_FLOAT)),
                },
                _ => w.as_bytes().to_vec(),
            });
        }
        if kt == Some(T_MAP) && rest.len() % 2 == 1 {
            return bad;
        }
        if args.len() > 255 || args.iter().any(|a| a.is_empty()) {
            return bad;
        }
        if is_simple(cmd) {
            return Err(Want::Any);
        }
    }
    if args.is_empty() && !matches!(cmd, ECHO | STATS) {
        return bad;
    }
    let amount = |args: &[Bs]| args.get(1).cloned();
    let req = |kt, args| Ok((Req { cmd, kt, args }, None));
    match cmd {
        SET | APPEND => {
            let t = kt.unwrap_or(T_BYTES);
            if args.len() < 2 || (cmd == APPEND && !matches!(t, T_BYTES | T_LIST | T_STR)) {
                return bad;
            }
            if !matches!(t, T_LIST | T_MAP | T_SET) {
                args.truncate(2);
            }
            req(Some(t), args)
        }
        INCBY | DECBY => match (kt, amount(&args)) {
            (Some(T_INT | T_FLOAT), Some(_)) => {
                args.truncate(2);
                req(kt, args)
            }
            _ => bad,
        },
        INC | DEC => {
            args.truncate(1);
            match kt {
                None => req(None, args),
                Some(T_INT) | Some(T_FLOAT) => req(kt, args),
                _ => bad,
            }
        }
        ECHO => {
            if args.is_empty() {
                return Err(Want::Text(String::new()));
            }
            req(None, vec![args.join(&b' ')])
        }
        IS if kt.is_none() => bad,
        IS => req(kt, args),
        EXISTS => req(None, args),
        LENGTH => {
            args.truncate(1);
            match kt {
                Some(T_BOOL | T_INT | T_FLOAT) => bad,
                _ => req(kt, args),
            }
        }
        RENAME => {
            args.truncate(2);
            if args.len() < 2 {
                return bad;
            }
            req(None, args)
        }
        GET => {
            args.truncate(1);
            Ok((Req { cmd, kt: None, args }, kt))
        }
        STATS => req(None, vec![]),
        _ => {
            args.truncate(1);
            req(None, args)
        }
    }
}

/// A model of a session: database and statistics.
#[derive(Default)]
struct Session {
    db: Db,
    good: i64,
    bad: i64,
    /// what a server says instead
    told: Option<[i64; 4]>,
}

impl Session {
    fn expect(&mut self, line: &[u8]) -> Want {
        let Ok(line) = std::str::from_utf8(line) else { return Want::Local };
        let (r, of) = match meaning(line.trim_end()) {
            Ok(r) => r,
            // nothing but the statistics tells what was asked of the engine
            Err(w) => return w,
        };
        if r.cmd == STATS {
            self.good += 1;
            return Want::Stats(self.told.unwrap_or([self.good - 1, self.bad, 0, 0]));
        }
        // elements that are equal are given once
        let r = match (r.cmd, r.kt) {
            (SET, Some(T_MAP | T_SET)) => {
                let v = crate::client::value_of(r.kt.unwrap(), &r.args[1..]);
                gen::set(&r.args[0], &v)
            }
            _ => r,
        };
        match apply(&mut self.db, &r) {
            Err(m) => {
                self.bad += 1;
                Want::Dispatch(m)
            }
            Ok(v) => {
                self.good += 1;
                if of.map_or(false, |k| k != v.kind()) {
                    return Want::Dispatch(1 << E_DIFF);
                }
                match (r.cmd, &v) {
                    (TYPE, MVal::Int(t)) => Want::Text(type_name(*t as u8).into()),
                    (KEYS, MVal::List(l)) => lines(l.iter().map(|i| lossy(i)).collect()),
                    (ECHO, MVal::List(l)) => Want::Text(l.iter().map(|i| lossy(i)).collect::<Vec<_>>().join(" ")),
                    _ => printed(&v),
                }
            }
        }
    }
}

/// The errors of the engine, as the client describes them today.
const TOLD: [(&str, u8); 8] = [
    ("Too few arguments were provided for this command.", E_ARG),
    ("Specifying a key is required.", E_KEY),
    ("The type of the key is different than specified by the command.", E_DIFF),
    ("A key type was specified when the command can't be given one.", E_UNEXP),
    ("A precondition failed, such as the key not existing.", E_PRE),
    ("The specified key does not exist.", E_NONE),
    ("A key type was required but one was not specified.", E_REQ),
    ("A key type was provided that isn't supported by the command.", E_INV),
];

fn describes(text: &str) -> bool {
    text.contains(' ') && text.chars().filter(|c| c.is_alphabetic()).count() > 7
}

/// Is this an answer to a line?
fn answers(want: &Want, text: &str) -> bool {
    match want {
        Want::Text(t) => t == text,
        Want::Float(f) => text.parse::<f64>().map_or(false, |x| MVal::float(x) == MVal::Float(*f)),
        Want::Lines(l) => {
            let mut g: Vec<&str> = text.split('\n').collect();
            g.sort();
            (l.is_empty() && text.is_empty()) || g.iter().eq(l.iter())
        }
        Want::Stats(n) => {
            // every number with its name, however they are laid out
            let num = |name: &str| {
                text.lines()
                    .find(|l| l.to_lowercase().contains(name))
                    .and_then(|l| l.rsplit(|c: char| !c.is_ascii_digit()).find(|w| !w.is_empty())?.parse::<i64>().ok())
            };
            ["successful", "errored", "started", "ended"].iter().zip(n).all(|(name, n)| num(name) == Some(*n))
        }
        Want::Dispatch(m) => {
            describes(text)
                && match TOLD.iter().find(|t| t.0 == text) {
                    // worded otherwise: anything that describes
                    None => true,
                    Some((_, e)) => m >> e & 1 == 1,
                }
        }
        Want::Local => describes(text),
        Want::Typed(t) => {
            // however it is worded, it does not blame another type
            let named: Vec<u8> = text
                .to_lowercase()
                .split(|c: char| !c.is_alphabetic())
                .filter_map(|w| match w {
                    "bool" | "boolean" => Some(T_BOOL),
                    "int" | "integer" => Some(T_INT),
                    "float" => Some(T_FLOAT),
                    _ => None,
                })
                .collect();
            describes(text) && (named.is_empty() || named.contains(t))
        }
        Want::Any => true,
    }
}

// ---- lines -------------------------------------------------------------------

fn shown(kt: Option<u8>, arg: &[u8]) -> String {
    let eight = <[u8; 8]>::try_from(arg);
    match (kt, eight) {
        (Some(T_INT), Ok(b)) => i64::from_be_bytes(b).to_string(),
        (Some(T_FLOAT), Ok(b)) => f64::from_be_bytes(b).to_string(),
        (Some(T_BOOL), _) => (arg.first().map_or(false, |b| *b != 0)).to_string(),
        _ => lossy(arg).replace('\n', "/"),
    }
}

/// A line as one would type a request.
fn typed(rng: &mut Rng, r: &Req) -> String {
    let mut s = cmd_name(r.cmd).to_string();
    let kt = match r.cmd {
        INCBY | DECBY => Some(r.kt.unwrap_or(T_INT)),
        _ => r.kt,
    };
    if let Some(k) = kt {
        s.push(':');
        s.push_str(match (k, rng.below(2)) {
            (T_BOOL, 0) => "boolean",
            (T_INT, 0) => "integer",
            (T_STR, 0) => "string",
            _ => type_name(k),
        });
    }
    let keys = key_notation(r.cmd) as usize;
    for (i, a) in r.args.iter().enumerate() {
        s.push(' ');
        s.push_str(&shown(if i < keys { None } else { kt }, a));
    }
    s
}

pub fn line(rng: &mut Rng, ks: &[Bs]) -> Bs {
    let mut s = match rng.below(12) {
        0 => {
            let r = gen::wild(rng, ks);
            typed(rng, &r)
        }
        1 => rng
            .pick(&[
                "",
                " ",
                "\t",
                " get a",
                "GET a",
                "get",
                "get  a",
                "set",
                "set a",
                "set:int a b",
                "set:bool a yes",
                "set:float a 1e400",
                "set:float f0 nan",
                "set:float f0 -inf",
                "set:int i0 9223372036854775807",
                "set:int i0 9223372036854775808",
                "set:map m0 a",
                "set:map m0 a b a c",
                "set:set e0 a b a",
                "set:map m0 a b c",
                "increment: a",
                "increment:by a 1",
                "increment:by:int",
                "increment:by:int i0",
                "increment:by:bool a true",
                "increment:str s0",
                "increment:int i0 7",
                "exists",
                "is",
                "is a",
                "is:int",
                "keys",
                "rename",
                "rename a",
                "rename  b",
                "echo",
                "echo a b  c",
                "echo a b c",
                "echo > a",
                "echo:int 10",
                "> ",
                "set:str s0 > x",
                "stats x",
                "stats:int",
                "length:int i0",
                "length:map m0",
                "append:int i0 1",
                "append:set e0 1",
                "set __hop__:x 1",
                "get __hop__:x",
                "nonsense",
                "quit",
                "exit",
                "q",
                "help",
                "?",
                "clear",
                "version",
                "# get a",
                "#",
                "// get a",
                "-- get a",
                "; get a",
                ".exit",
                ":q",
                "\\q",
                "\\",
                "get a \\",
                "echo \"a b\"",
                "echo 'a b'",
                "echo a # b",
                "get a; get a",
                "\u{4}",
                "\u{3}",
                "\0",
                "\u{1b}[A",
                "!!",
                "\u{feff}get a",
                "set \u{2028} \u{a0}",
                "set:str s0 \u{1F980}",
            ])
            .to_string(),
        2 if rng.chance(1, 6) => {
            let n = *rng.pick(&[253u64, 254, 255, 256, 300]);
            format!("{} l0{}", rng.pick(&["exists", "set:list", "append:list", "set:set", "is:int", "echo"]), " x".repeat(n as usize))
        }
        3 if rng.chance(1, 3) => {
            let n = *rng.pick(&[254usize, 255, 256, 257, 5000, 9000]);
            format!("{} {}", rng.pick(&["set:str s0", "get", "echo", "set:map m0 a", "set:list l0"]), "y".repeat(n))
        }
        4 => "stats".into(),
        _ => {
            let r = gen::plain(rng, ks, &ALL);
            typed(rng, &r)
        }
    };
    if rng.chance(1, 8) {
        s.push_str(*rng.pick(&[" ", "\r", "\t ", "  ", "\u{a0}"]));
    }
    let mut b = s.into_bytes();
    b.retain(|c| *c != b'\n');
    if rng.chance(1, 14) {
        let i = rng.below(b.len() as u64 + 1) as usize;
        b.insert(i, *rng.pick(&[0xff, 0xc3, 0x80, 0xf0]));
    }
    b
}

// ---- the binary on a terminal --------------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
struct TermPlan {
    #[serde(with = "hx::list")]
    lines: Vec<Bs>,
    /// wait for each answer before typing on
    wait: bool,
    /// the input comes in pieces of these sizes, with pauses (microseconds)
    pieces: Vec<(u16, u16)>,
    /// the last line ends without a line feed
    bare: bool,
}

pub struct Terminal;
pub const CLI: simcore::Pid = 50;

impl Family for Terminal {
    fn name(&self) -> &'static str {
        "terminal"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-cli main.rs and library; hop client crate with its memory backend; hop-engine; dashmap map code; hop metrics; tokio 0.2 io-util",
            "standard input and output, tokio runtime, dashmap's shard lock (simulated)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 4) as usize;
        let ks = gen::keys(rng, nk);
        let lines = (0..rng.range(1, if deep { 30 } else { 12 })).map(|_| line(rng, &ks)).collect::<Vec<_>>();
        let mut lines: Vec<Bs> = lines;
        let large = rng.chance(1, if deep { 40 } else { 150 });
        if large && rng.chance(1, 2) {
            // long lines, whose answers may be as long
            for _ in 0..rng.range(1, 4) {
                let n = match rng.below(12) {
                    0 => *rng.pick(&[(1 << 20) + 1, 3 << 20]),
                    _ => *rng.pick(&[8 << 10, (8 << 10) + 1, 16 << 10, 65_535, 65_536, 65_537, 300_000]),
                } as usize;
                let start = *rng.pick(&["set:str s0 ", "echo ", "append:str s0 ", "get ", "set:set e0 ", "nonsense "]);
                let l = [start.as_bytes(), &vec![b'z'; n - start.len() - rng.below(2) as usize]].concat();
                let at = rng.below(lines.len() as u64 + 1) as usize;
                lines.insert(at, l);
                lines.push(b"get s0".to_vec());
            }
        } else if large {
            let n = rng.range(300, 2000);
            lines.extend((0..n).map(|_| line(rng, &ks)));
        }
        let pieces = if large || rng.chance(1, 3) {
            (0..rng.below(3)).map(|_| (*rng.pick(&[4000u16, 8191, 8192, 8193]), rng.below(20) as u16)).collect()
        } else {
            (0..rng.range(1, 12))
                .map(|_| {
                    let n = *rng.pick(&[1u16, 1, 2, 3, 7, 20, 200]);
                    (n, if rng.chance(1, 3) { rng.below(2000) as u16 } else { 0 })
                })
                .collect()
        };
        let mut c = base_cfg(rng, 100);
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious] {
            if rng.chance(1, 2) {
                c.rates[f as usize] = *rng.pick(&[20u16, 100, 400]);
                if large && f != Fault::Spurious {
                    c.rates[f as usize] /= 10;
                }
            }
        }
        c.max_steps = 2_000_000;
        let plan = TermPlan {
            lines,
            wait: rng.chance(1, 2),
            pieces,
            bare: rng.chance(1, 4),
        };
        (serde_json::to_value(plan).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: TermPlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.lines.iter().any(|l| l.contains(&b'\n') || l.len() > 4 << 20) {
            return None;
        }
        Some(simcore::run(cfg, move || terminal(plan)))
    }
}

const PROMPT: &str = "> ";

/// The rest of the output after the answer to a line, or what is wrong.
fn next_answer<'a>(want: &Want, out: &'a str) -> Result<&'a str, String> {
    let upto = |text: &str| -> Option<&'a str> { out.strip_prefix(text)?.strip_prefix("\n")?.strip_prefix(PROMPT) };
    match want {
        Want::Text(t) => upto(t).ok_or_else(|| format!("expected {:?}", t)),
        Want::Lines(l) => {
            let len: usize = l.iter().map(|l| l.len() + 1).sum::<usize>().max(1) - 1;
            out.get(..len)
                .filter(|t| answers(want, t))
                .and_then(|t| upto(t))
                .ok_or_else(|| format!("expected the lines {:?}", l))
        }
        w => {
            let end = out.find("\n> ").ok_or("no answer")?;
            let t = &out[..end];
            if answers(w, t) && (matches!(w, Want::Stats(..) | Want::Any) || !t.contains('\n')) {
                Ok(&out[end + 3..])
            } else {
                Err(format!("expected {:?}", w))
            }
        }
    }
}

fn terminal(plan: TermPlan) {
    let cli = simcore::process(CLI, "command line client", hop_cli_bin::main);
    let mut model = Session::default();
    let mut pieces = plan.pieces.iter().cycle().copied();
    let some = !plan.pieces.is_empty();
    let mut wants: Vec<(Bs, Want)> = vec![];
    let mut checked = 0; // bytes of output
    let mut owed = true; // a prompt is still to come, which no line feed may have carried out yet
    let n = plan.lines.len();
    for (i, l) in plan.lines.iter().enumerate() {
        let mut data = l.clone();
        let bare = plan.bare && i + 1 == n && !plan.wait;
        if !bare {
            data.push(b'\n');
        }
        if !(bare && l.is_empty()) {
            wants.push((l.clone(), model.expect(l)));
        }
        let mut at = 0;
        while at < data.len() {
            let (k, us) = if some { pieces.next().unwrap() } else { (u16::MAX, 0) };
            let k = (k.max(1) as usize).min(data.len() - at);
            stdio::type_in(CLI, &data[at..at + k]);
            at += k;
            if us > 0 {
                simcore::block_on(simcore::sleep(us as u64 * 1000));
            }
        }
        if plan.wait {
            if !settle(&cli) {
                break;
            }
            simcore::block_on(simcore::sleep(stdio::LANDING));
            let out = stdio::visible(CLI);
            let mut out = String::from_utf8_lossy(&out).into_owned();
            let len = out.len();
            let was = owed;
            owed = out.ends_with('\n');
            if owed {
                out.push_str(PROMPT);
            }
            let mut rest = &out[checked..];
            if was {
                let Some(r) = rest.strip_prefix(PROMPT) else {
                    return report("no prompt", format!("the output goes on with {:?}", rest));
                };
                rest = r;
            }
            let (l, w) = wants.last().unwrap();
            match next_answer(w, rest) {
                Ok("") => checked = len,
                Ok(more) => return report("more than an answer", format!("line {:?}: {:?}, then {:?}", lossy(l), w, more)),
                Err(e) => {
                    return report("wrong answer", format!("line {} ({:?}) is answered {:?}; {}", i, lossy(l), rest, e))
                }
            }
        }
    }
    if cli.is_finished() && simcore::panics().is_empty() {
        return report("session ended", "the client ended before the end of its input");
    }
    stdio::close_input(CLI);
    match cli.join() {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return report("session failed", e),
        Err(_) => return,
    }
    if stdio::ended(CLI) > 0 {
        // only a prompt nobody will answer may be left behind
        tally("output lost at the end", 1);
    }
    let out = stdio::visible(CLI);
    let mut out = String::from_utf8_lossy(&out).into_owned();
    if out.is_empty() || out.ends_with('\n') {
        out.push_str(PROMPT); // the one lost
    } else if out == ">" || out.ends_with("\n>") {
        out.push(' '); // the part lost
    }
    let mut rest = &out[checked..];
    if plan.wait {
        rest = rest.strip_prefix(PROMPT).unwrap_or(rest);
    } else {
        let Some(r) = rest.strip_prefix(PROMPT) else {
            return report("no prompt", format!("the output begins with {:?}", rest));
        };
        rest = r;
        for (i, (l, w)) in wants.iter().enumerate() {
            match next_answer(w, rest) {
                Ok(r) => rest = r,
                Err(e) => {
                    return report("wrong answer", format!("line {} ({:?}) is answered {:?}; {}", i, lossy(l), rest, e))
                }
            }
        }
    }
    if !rest.is_empty() && rest != "\n" {
        report("more than the answers", format!("after the last answer: {:?}", rest));
    }
    tally("lines answered", wants.len() as u64);
    for (_, w) in &wants {
        tally(
            match w {
                Want::Dispatch(_) | Want::Local | Want::Typed(_) => "answers describing an error",
                _ => "answers giving a result",
            },
            1,
        );
    }
    shape(fw::hash_bytes(out.as_bytes()));
}

/// Wait until the client has read everything and waits for more.
pub fn settle<T>(cli: &simcore::JoinHandle<T>) -> bool {
    loop {
        if cli.is_finished() {
            return false;
        }
        if stdio::starved(CLI) {
            return true;
        }
        simcore::block_on(simcore::sleep(20_000));
    }
}

// ---- the library on a networked client ------------------------------------------

#[derive(Clone, Serialize, Deserialize)]
struct RemotePlan {
    #[serde(with = "hx::list")]
    lines: Vec<Bs>,
    /// the server crashes so many microseconds after the n-th line was given
    crash: Option<(u16, u16)>,
    /// a server of another make, with these statistics and values
    #[serde(default)]
    other: Option<Other>,
}

#[derive(Clone, Serialize, Deserialize)]
struct Other {
    stats: [i64; 4],
    #[serde(with = "hx::list")]
    keys: Vec<Bs>,
    values: Vec<V>,
}

impl Other {
    fn db(&self) -> Db {
        self.keys.iter().cloned().zip(self.values.iter().map(V::val)).collect()
    }
}

/// Answers as the model does, from a database that requests alone wouldn't make.
async fn other_make(mut s: tokio::net::TcpStream, mut db: Db, stats: [i64; 4]) {
    let mut have: Bs = vec![];
    let mut buf = vec![0u8; 700];
    loop {
        match decode_req(&have) {
            Dec::Req(r, n) => {
                have.drain(..n);
                let resp = match apply(&mut db, &r) {
                    _ if r.cmd == STATS => WResp::Val(MVal::Map(
                        ["commands_successful", "commands_errored", "sessions_started", "sessions_ended"]
                            .iter()
                            .zip(stats)
                            .map(|(k, v)| (k.as_bytes().to_vec(), v.to_be_bytes().to_vec()))
                            .collect(),
                    )),
                    Ok(v) => WResp::Val(v),
                    Err(m) => WResp::Dispatch(m.trailing_zeros() as u8),
                };
                if s.write_all(&encode_resp(&resp)).await.is_err() {
                    return;
                }
            }
            Dec::More => match s.read(&mut buf).await {
                Ok(0) | Err(_) => return,
                Ok(n) => have.extend_from_slice(&buf[..n]),
            },
            Dec::Bad(c) => {
                report("malformed request", format!("the client sent {} (error {})", hx::show(&have), c));
                return;
            }
        }
    }
}

pub struct Remote;

impl Family for Remote {
    fn name(&self) -> &'static str {
        "command line over the network"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop-cli library; hop client crate with its server backend; hop-server main.rs; hop-engine; dashmap map code; hop metrics; tokio 0.2 io-util, stream, sync",
            "TCP network, tokio runtime and scheduler, timers, dashmap's shard lock (simulated); env_logger (silent)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let nk = rng.range(1, 4) as usize;
        let ks = gen::keys(rng, nk);
        let n = rng.range(1, if deep { 20 } else { 10 });
        let lines = (0..n).map(|_| line(rng, &ks)).collect();
        let crash = rng.chance(1, 2).then(|| (rng.below(n) as u16, if rng.chance(1, 2) { 0 } else { rng.below(400) as u16 }));
        let mut c = base_cfg(rng, 100);
        for f in [Fault::ShortRead, Fault::ShortWrite, Fault::Spurious, Fault::Delay] {
            if rng.chance(1, 2) {
                c.rates[f as usize] = *rng.pick(&[10u16, 50, 200, 600]);
            }
        }
        if rng.chance(1, 3) {
            for f in [Fault::Reset, Fault::ReadErr, Fault::WriteErr] {
                if rng.chance(1, 2) {
                    c.rates[f as usize] = *rng.pick(&[5u16, 20, 50]);
                }
            }
        }
        c.rates[Fault::KillRst as usize] = 500;
        c.max_steps = 2_000_000;
        let other = rng.chance(1, 4).then(|| {
            let mut values = vec![];
            for k in &ks {
                let t = if rng.chance(1, 5) { rng.below(8) as u8 } else { gen::affinity(k) };
                let mut v = V::of(&gen::val(rng, t));
                if matches!(t, T_LIST | T_MAP | T_SET) {
                    for _ in 0..rng.below(4) {
                        let i = rng.below(v.a.len() as u64 + 1) as usize;
                        v.a.insert(i, rng.pick(&[&b""[..], b"", b"\n", b"=", b" ", b"\xff"]).to_vec());
                    }
                }
                if t == T_MAP {
                    // the format holds no longer keys
                    v.a.iter_mut().for_each(|x| x.truncate(255));
                }
                values.push(v);
            }
            let mut stats = [0i64; 4];
            for n in stats.iter_mut() {
                let most = *rng.pick(&[3, 1000, 1 << 33, 1 << 62]);
                *n = rng.below(most) as i64;
            }
            Other { stats, keys: ks.clone(), values }
        });
        let crash = crash.filter(|_| other.is_none());
        (serde_json::to_value(RemotePlan { lines, crash, other }).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: RemotePlan = serde_json::from_value(plan.clone()).ok()?;
        if plan.lines.iter().any(|l| l.contains(&b'\n') || l.len() > 4 << 20)
            || plan.other.as_ref().map_or(false, |o| {
                plan.crash.is_some()
                    || o.stats.iter().any(|n| *n < 0)
                    || o.keys.iter().any(|k| k.is_empty() || k.starts_with(b"__hop__:"))
                    || o.values.iter().any(|v| v.t > 7 || v.more > 300 || (v.t == T_MAP && v.a.iter().any(|x| x.len() > 255)))
            })
        {
            return None;
        }
        Some(simcore::run(cfg, move || remote(plan)))
    }
}

fn remote(plan: RemotePlan) {
    let _srv = match plan.other.clone() {
        None => Some(start_server()),
        Some(o) => {
            simcore::spawn_future_in(SERVER, "other server", async move {
                let mut l = tokio::net::TcpListener::bind(("127.0.0.1", netx::PORT)).await.expect("bind");
                while let Ok((s, _)) = l.accept().await {
                    simcore::spawn_future("other connection", other_make(s, o.db(), o.stats));
                }
            });
            while !net::listening(netx::PORT) {
                simcore::block_on(simcore::sleep(10_000));
            }
            None
        }
    };
    let crash = plan.crash;
    let h = simcore::spawn_in(CLI, "command line client", move || {
        let client: Arc<Client<ServerBackend>> =
            match simcore::block_on(Client::connect(("127.0.0.1", netx::PORT))) {
                Ok(c) => Arc::new(c),
                Err(_) => return,
            };
        let conn = net::last_conn(CLI).unwrap();
        let mut model = Session::default();
        if let Some(o) = &plan.other {
            model.db = o.db();
            model.told = Some(o.stats);
            tally("sessions with another server", 1);
        }
        let mut lost = false;
        let mut down = false;
        for (i, l) in plan.lines.iter().enumerate() {
            if let Some((n, us)) = crash {
                if n as usize == i {
                    down = true;
                    simcore::spawn_in(90, "operator", move || {
                        simcore::block_on(simcore::sleep(us as u64 * 1000));
                        simcore::kill_process(SERVER);
                    });
                    if us == 0 {
                        simcore::block_on(simcore::sleep(1_000_000));
                    }
                }
            }
            let Ok(text) = std::str::from_utf8(l) else { continue };
            let asks = meaning(text.trim_end()).is_ok();
            let want = model.expect(l);
            let got = simcore::block_on(hop_cli::process(&client, text.trim_end()));
            let say = |what: &str, got: &str| {
                report("wrong answer", format!("line {} ({:?}) is answered {:?}: {}; expected {:?}", i, text, got, what, want));
            };
            match got {
                Ok(t) => {
                    if lost && asks && !matches!(want, Want::Local | Want::Typed(_) | Want::Any) {
                        return say("the connection was lost before", &t);
                    }
                    if !answers(&want, &t) {
                        return say("wrong", &t);
                    }
                }
                Err(ProcessError::Backend { source }) => {
                    let told = ProcessError::<ServerBackend>::Backend { source };
                    let said = told.to_string();
                    let ProcessError::Backend { source } = told else { unreachable!() };
                    if !describes(&said) {
                        return say("no description", &said);
                    }
                    match (source.plain(), &want) {
                        (CErr::Conn(_), _) => {
                            if !(down || lost || net::faulted(conn)) {
                                return say("the connection was in order", &said);
                            }
                            if !lost {
                                tally("lost connections reported", 1);
                            }
                            lost = true;
                        }
                        (CErr::Dispatch(e), Want::Dispatch(m)) if m >> e & 1 == 1 && !lost => {}
                        (_, Want::Local | Want::Typed(_)) => {}
                        _ => return say("wrong error", &said),
                    }
                }
                Err(e) => {
                    if !matches!(want, Want::Local | Want::Typed(_) | Want::Any) || !describes(&e.to_string()) {
                        return say("wrong error", &e.to_string());
                    }
                }
            }
            tally("lines answered", 1);
            shape(fw::mix(lost as u64, fw::hash_bytes(l)));
        }
    });
    let _ = h.join();
}
