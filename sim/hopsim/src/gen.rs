//! Random requests and values.
use crate::model::*;
use simcore::rng::Rng;

pub const INTS: [i64; 10] = [0, 1, -1, 2, 7, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 40];
pub const FLOATS: [f64; 12] = [
    0.0,
    -0.0,
    1.0,
    -1.5,
    0.25,
    1e300,
    f64::MAX,
    f64::MIN_POSITIVE,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    4503599627370496.5,
];
const WORDS: [&str; 9] = ["x", "yy", "zoo", "é", "日本", "🦀", "a b", "end\n", "0"];

/// Lengths around which code may change its mind.
const LENS: [usize; 22] = [
    13, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 253, 254, 255, 256, 257, 1025,
];

pub fn word(rng: &mut Rng) -> Bs {
    if rng.chance(1, 60) {
        let n = *rng.pick(&LENS);
        return match rng.below(3) {
            0 => rng.bytes(n),
            1 => vec![rng.below(256) as u8; n],
            _ => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
        };
    }
    match rng.below(9) {
        2 => format!("v{}", rng.below(3)).into_bytes(),
        0 => {
            let n = rng.range(1, 12) as usize;
            rng.bytes(n)
        }
        1 => {
            let mut v = WORDS[rng.below(9) as usize].as_bytes().to_vec();
            v.extend(rng.below(100).to_string().bytes());
            v
        }
        _ => format!("v{}", rng.below(1000)).into_bytes(),
    }
}
pub fn text(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 3) {
        s.push_str(WORDS[rng.below(9) as usize]);
    }
    if rng.chance(1, 60) {
        let n = *rng.pick(&LENS);
        let w = *rng.pick(&WORDS);
        while s.len() < n {
            s.push_str(w);
        }
    }
    s.push_str(&rng.below(1000).to_string());
    s
}

pub fn val(rng: &mut Rng, kind: u8) -> MVal {
    let n = rng.range(1, 4);
    match kind {
        T_BYTES => MVal::Bytes(word(rng)),
        T_BOOL => MVal::Bool(rng.chance(1, 2)),
        T_FLOAT => {
            if rng.chance(1, 4) {
                MVal::float(*rng.pick(&FLOATS))
            } else {
                MVal::float(rng.below(64) as f64 * 0.25)
            }
        }
        T_INT => {
            if rng.chance(1, 4) {
                MVal::Int(*rng.pick(&INTS))
            } else {
                MVal::Int(rng.below(1000) as i64 - 500)
            }
        }
        T_STR => MVal::Str(text(rng)),
        T_LIST => {
            let mut l: Vec<Bs> = (0..n).map(|_| word(rng)).collect();
            if rng.chance(1, 6) {
                let i = rng.pick(&l).clone();
                l.push(i);
            }
            MVal::List(l)
        }
        T_MAP => MVal::Map(
            (0..n)
                .map(|_| {
                    let mut k = word(rng);
                    k.truncate(255);
                    (k, word(rng))
                })
                .collect(),
        ),
        _ => MVal::Set((0..n).map(|_| word(rng)).collect()),
    }
}

pub fn set(key: &[u8], v: &MVal) -> Req {
    let mut args = vec![key.to_vec()];
    args.extend(v.args());
    Req {
        cmd: SET,
        kt: Some(v.kind()),
        args,
    }
}
pub fn req(cmd: u8, kt: Option<u8>, args: &[&[u8]]) -> Req {
    Req {
        cmd,
        kt,
        args: args.iter().map(|a| a.to_vec()).collect(),
    }
}

/// The type a key name suggests.
pub fn affinity(key: &[u8]) -> u8 {
    match key.first() {
        Some(b'i') => T_INT,
        Some(b'f') => T_FLOAT,
        Some(b'l') => T_LIST,
        Some(b's') => T_STR,
        Some(b'm') => T_MAP,
        Some(b'e') => T_SET,
        Some(b'o') => T_BOOL,
        _ => T_BYTES,
    }
}
pub fn keys(rng: &mut Rng, n: usize) -> Vec<Bs> {
    let mut v: Vec<Bs> = vec![];
    let odd = rng.chance(1, 8);
    while v.len() < n {
        let c = *rng.pick(b"iiifllsbbmeo");
        let mut k = format!("{}{}", c as char, rng.below(4)).into_bytes();
        if odd {
            match rng.below(7) {
                // one within or before another
                0 => {
                    if !v.is_empty() {
                        k = [&rng.pick(&v)[..], b"0"].concat()
                    }
                }
                1 => k.truncate(1),
                // equal but for the last byte of many
                2 => {
                    let z = *rng.pick(&[0usize, 6, 7, 13, 14, 30, 62, 126, 252, 253, 254, 510, 2000]);
                    k.truncate(1);
                    k.extend(vec![b'k'; z]);
                    k.push(b'0' + rng.below(3) as u8);
                }
                // not text
                3 => k.extend(*rng.pick(&[&b"\xff"[..], b"\0", b"\0\0", b"\xc3", b"\r\n", b"\x80\0"])),
                // like the reserved ones
                4 => k.extend(b"__hop__:"),
                _ => {}
            }
        }
        if !v.contains(&k) {
            v.push(k)
        }
    }
    v
}

/// A mostly sensible request on one of `keys`.
pub fn plain(rng: &mut Rng, keys: &[Bs], cmds: &[u8]) -> Req {
    let cmd = *rng.pick(cmds);
    let key = rng.pick(keys).clone();
    let aff = if rng.chance(5, 6) { affinity(&key) } else { rng.below(8) as u8 };
    let typed = rng.chance(2, 3);
    let kt = if typed { Some(aff) } else { None };
    match cmd {
        INC | DEC => Req {
            cmd,
            kt: match aff {
                T_FLOAT | T_INT => kt,
                _ => None,
            },
            args: vec![key],
        },
        INCBY | DECBY => {
            let f = aff == T_FLOAT;
            let amount = match (f, rng.below(8)) {
                (true, 0) => (rng.below(64) as f64 * -0.25).to_be_bytes(),
                (true, _) => (rng.below(16) as f64 * 0.5).to_be_bytes(),
                (false, 0) => (-(rng.below(100) as i64)).to_be_bytes(),
                (false, 1) => (1i64 << rng.below(63)).to_be_bytes(),
                (false, _) => (rng.below(100) as i64 + 1).to_be_bytes(),
            };
            Req {
                cmd,
                kt: if f { Some(T_FLOAT) } else { kt.filter(|k| *k == T_INT) },
                args: vec![key, amount.to_vec()],
            }
        }
        SET => {
            let v = val(rng, aff);
            let mut r = set(&key, &v);
            if matches!(v.kind(), T_MAP | T_SET) && rng.chance(1, 8) {
                // the same key or item once more
                let i = 1 + rng.below(r.args.len() as u64 - 1) as usize;
                let again = r.args[if v.kind() == T_MAP { (i - 1) / 2 * 2 + 1 } else { i }].clone();
                r.args.push(again);
                if v.kind() == T_MAP {
                    r.args.push(word(rng));
                }
            }
            if rng.chance(1, 4) {
                r.kt = None;
            }
            r
        }
        APPEND => {
            let mut args = vec![key];
            for _ in 0..rng.range(1, 3) {
                args.push(if aff == T_STR { text(rng).into_bytes() } else { word(rng) });
            }
            Req {
                cmd,
                kt: match aff {
                    T_LIST | T_STR | T_BYTES => kt,
                    _ => None,
                },
                args,
            }
        }
        GET => Req {
            cmd,
            kt: if rng.chance(1, 3) { kt } else { None },
            args: vec![key],
        },
        LENGTH => Req {
            cmd,
            kt: if rng.chance(1, 3) { kt } else { None },
            args: vec![key],
        },
        KEYS => Req {
            cmd,
            kt: if rng.chance(1, 3) { Some(T_MAP) } else { None },
            args: vec![key],
        },
        EXISTS | IS => {
            let mut args = vec![key];
            while rng.chance(1, 3) {
                args.push(rng.pick(keys).clone());
            }
            if rng.chance(1, 24) {
                let n = *rng.pick(&[8usize, 9, 16, 17, 32, 33, 64, 100, 127, 128, 129, 254, 255]);
                while args.len() < n {
                    args.push(rng.pick(keys).clone());
                }
            }
            Req {
                cmd,
                kt: if cmd == IS { Some(aff) } else { None },
                args,
            }
        }
        RENAME => {
            let mut args = vec![key];
            args.push(rng.pick(keys).clone());
            Req { cmd, kt: None, args }
        }
        ECHO => Req {
            cmd,
            kt: None,
            args: (0..rng.below(4)).map(|_| word(rng)).collect(),
        },
        STATS => Req {
            cmd,
            kt: None,
            args: vec![],
        },
        _ => Req {
            cmd,
            kt: None,
            args: vec![key],
        },
    }
}

/// Any request at all: wrong shapes, types, sizes and names.
pub fn wild(rng: &mut Rng, keys: &[Bs]) -> Req {
    let mut r = plain(rng, keys, &ALL);
    for _ in 0..rng.range(1, 3) {
        match rng.below(11) {
            0 => r.kt = Some(rng.below(8) as u8),
            1 => r.kt = None,
            2 => {
                r.args.pop();
            }
            3 => r.args.push(word(rng)),
            4 => r.args.clear(),
            5 => {
                let n = r.args.len();
                if n > 0 {
                    r.args[rng.below(n as u64) as usize] = vec![];
                }
            }
            6 => {
                let k: &[u8] = *rng.pick(&[
                    &b"__hop__:x"[..],
                    b"__hop__:",
                    b"__hop__",
                    b"__hop_:a",
                    b"__HOP__:a",
                    b"\x00",
                    b"a__hop__:",
                ]);
                let i = if r.args.is_empty() { 0 } else { rng.below(r.args.len() as u64) as usize };
                if r.args.is_empty() {
                    r.args.push(k.to_vec())
                } else {
                    r.args[i] = k.to_vec()
                }
            }
            7 => {
                let n = r.args.len();
                if n > 1 {
                    let i = rng.range(1, n as u64 - 1) as usize;
                    let k = rng.range(1, 9) as usize;
                    r.args[i] = rng.bytes(k);
                }
            }
            8 => {
                let n = r.args.len();
                if n > 1 {
                    let i = rng.range(1, n as u64 - 1) as usize;
                    r.args[i] = if rng.chance(1, 2) {
                        rng.pick(&FLOATS).to_be_bytes().to_vec()
                    } else {
                        rng.pick(&INTS).to_be_bytes().to_vec()
                    };
                }
            }
            9 => {
                if rng.chance(1, 6) {
                    let n = *rng.pick(&[255usize, 256, 257, 300]);
                    let i = rng.below(r.args.len() as u64 + 1) as usize;
                    r.args.insert(i, vec![b'k'; n]);
                } else {
                    r.args.push(vec![0xff, 0xfe]);
                }
            }
            _ => {
                let k = rng.pick(keys).clone();
                r.args.push(k)
            }
        }
    }
    r.args.truncate(255);
    if is_simple(r.cmd) {
        r.args.clear();
    }
    r
}
