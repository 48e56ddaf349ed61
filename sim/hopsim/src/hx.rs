//! Bytes as hexadecimal text.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
/// Lenient: stops at the first odd or bad digit.  `~N:XX` repeats byte XX N times.
pub fn unhex(s: &str) -> Vec<u8> {
    if let Some(r) = s.strip_prefix('~') {
        if let Some((n, b)) = r.split_once(':') {
            let n: usize = n.parse().unwrap_or(0);
            let pat = unhex(b);
            if pat.is_empty() {
                return vec![];
            }
            return (0..n.min(1 << 25)).map(|i| pat[i % pat.len()]).collect();
        }
        return vec![];
    }
    let b = s.as_bytes();
    let mut v = vec![];
    for c in b.chunks(2) {
        if c.len() < 2 {
            break;
        }
        match ((c[0] as char).to_digit(16), (c[1] as char).to_digit(16)) {
            (Some(h), Some(l)) => v.push((h << 4 | l) as u8),
            _ => break,
        }
    }
    v
}
/// Compact form: long runs of one byte become `~N:XX`.
pub fn enc(b: &[u8]) -> String {
    if b.len() > 40 && b.iter().all(|x| *x == b[0]) {
        format!("~{}:{}", b.len(), hex(&b[..1]))
    } else {
        hex(b)
    }
}
pub fn show(b: &[u8]) -> String {
    if b.len() > 48 {
        return format!("{}..({} bytes)", show(&b[..16]), b.len());
    }
    if !b.is_empty() && b.iter().all(|c| (0x21..0x7f).contains(c) && *c != b'\'') {
        format!("'{}'", String::from_utf8_lossy(b))
    } else {
        format!("x{}", hex(b))
    }
}
pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
    enc(b).serialize(s)
}
pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    Ok(unhex(&String::deserialize(d)?))
}
pub mod list {
    use super::*;
    pub fn serialize<S: Serializer>(b: &[Vec<u8>], s: S) -> Result<S::Ok, S::Error> {
        b.iter().map(|x| enc(x)).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<Vec<u8>>, D::Error> {
        Ok(Vec::<String>::deserialize(d)?.iter().map(|x| unhex(x)).collect())
    }
}
