//! Servers with all kinds of settings in their environment.
use crate::{
    fw::{base_cfg, report, shape, tally, Family},
    gen, hx,
    model::*,
    netx::{self, SERVER},
    timer_shim,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{net, rng::Rng, Config, Outcome, Pid};
use std::{
    ffi::CString,
    net::{IpAddr, Ipv4Addr},
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[derive(Clone, Serialize, Deserialize)]
struct One {
    #[serde(with = "hx::list")]
    host: Vec<Bs>,
    #[serde(with = "hx::list")]
    port: Vec<Bs>,
    /// requests made of it
    key: u8,
    /// milliseconds to wait before starting it
    wait: u32,
}

#[derive(Clone, Serialize, Deserialize)]
struct Plan {
    servers: Vec<One>,
}

pub struct Configured;

const HOSTS: [&[u8]; 14] = [
    b"127.0.0.1", b"0.0.0.0", b"::", b"::1", b"127.0.0.2", b"localhost", b"", b" 127.0.0.1", b"127.0.0.1:80", b"127.1", b"256.0.0.1", b"[::1]",
    b"\xff\xfe", b"127.0.0.1\n",
];
const PORTS: [&[u8]; 14] = [
    b"46733", b"80", b"1", b"65535", b"65536", b"99999999999999999999", b"-1", b"", b" 80", b"80 ", b"0x50", b"abc", b"8080", b"\xff",
];

impl Family for Configured {
    fn name(&self) -> &'static str {
        "configured servers"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        ("hop-server main.rs, hop-engine", "network, tokio's scheduler, environment variables")
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, _deep: bool) -> (Value, Config) {
        let servers = (0..rng.range(1, 3))
            .map(|_| {
                let mut one = |from: &[&[u8]], odd: fn(&mut Rng) -> Bs| -> Vec<Bs> {
                    match rng.below(5) {
                        0 => vec![],
                        1 => vec![odd(rng)],
                        _ => vec![from[rng.below(from.len() as u64) as usize].to_vec()],
                    }
                };
                let host = one(&HOSTS, |r| {
                    if r.chance(1, 2) {
                        format!("127.{}.{}.{}", r.below(256), r.below(256), r.below(300)).into_bytes()
                    } else {
                        gen::word(r)
                    }
                });
                let port = one(&PORTS, |r| match r.below(3) {
                    0 => format!("{}", r.range(1, 70000)).into_bytes(),
                    1 => format!("{}", r.below(60000) as i64 - 100).into_bytes(),
                    _ => gen::word(r),
                });
                One {
                    host: host.into_iter().map(|mut h| { h.retain(|b| *b != 0); h }).collect(),
                    port: port.into_iter().map(|mut h| { h.retain(|b| *b != 0); h }).collect(),
                    key: rng.below(2) as u8,
                    wait: rng.below(3) as u32,
                }
            })
            .collect();
        let mut cfg = base_cfg(rng, 1000);
        cfg.max_steps = 500_000;
        (serde_json::to_value(Plan { servers }).unwrap(), cfg)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: Plan = serde_json::from_value(plan.clone()).ok()?;
        if plan.servers.len() > 5 || plan.servers.iter().any(|s| s.host.iter().chain(&s.port).any(|x| x.contains(&0))) {
            return None;
        }
        Some(simcore::run(cfg, move || configured(plan)))
    }
}

/// Where it must listen; `None` leaves the port to the system.
fn place(s: &One) -> (IpAddr, Option<u16>) {
    let text = |v: &Vec<Bs>| v.first().and_then(|b| std::str::from_utf8(b).ok()).map(|s| s.to_string());
    let host = text(&s.host).and_then(|t| t.parse().ok()).unwrap_or(IpAddr::V4(Ipv4Addr::UNSPECIFIED));
    let port: u16 = text(&s.port).and_then(|t| t.parse().ok()).unwrap_or(netx::PORT);
    (host, Some(port).filter(|p| *p != 0))
}

async fn ask(port: u16, r: Req) -> Result<MVal, String> {
    let mut s = tokio::net::TcpStream::connect(("127.0.0.1", port)).await.map_err(|e| e.to_string())?;
    s.write_all(&encode(&r)).await.map_err(|e| e.to_string())?;
    let mut got = vec![];
    let mut buf = [0u8; 256];
    loop {
        match decode_resp(&got) {
            DecR::Resp(WResp::Val(v), _) => return Ok(v),
            DecR::More => {}
            other => return Err(format!("{:?}", other)),
        }
        match s.read(&mut buf).await.map_err(|e| e.to_string())? {
            0 => return Err("the connection was closed".into()),
            n => got.extend_from_slice(&buf[..n]),
        }
    }
}

fn configured(plan: Plan) {
    let mut vars = vec![];
    for (i, s) in plan.servers.iter().enumerate() {
        let mut v: Vec<(&'static [u8], CString)> = vec![];
        if let Some(h) = s.host.first() {
            v.push((b"HOST", CString::new(h.clone()).unwrap()));
        }
        if let Some(p) = s.port.first() {
            v.push((b"PORT", CString::new(p.clone()).unwrap()));
        }
        vars.push((SERVER + i as Pid, v));
    }
    timer_shim::environments(vars);
    let mut taken: Vec<u16> = vec![];
    let mut up = vec![];
    for (i, s) in plan.servers.iter().enumerate() {
        let pid = SERVER + i as Pid;
        simcore::block_on(simcore::sleep(s.wait as u64 * 1_000_000));
        let h = simcore::process(pid, "server", hop_server::main);
        for _ in 0..10_000 {
            if !net::listening_on(pid).is_empty() || h.is_finished() {
                break;
            }
            simcore::block_on(simcore::sleep(10_000));
        }
        if !simcore::panics().is_empty() {
            return;
        }
        let (host, port) = place(s);
        let at = net::listening_on(pid);
        let said = format!("HOST={:?} PORT={:?}", s.host.first().map(|h| hx::show(h)), s.port.first().map(|h| hx::show(h)));
        shape(at.len() as u64);
        if port.map_or(false, |p| taken.contains(&p)) {
            if h.is_finished() {
                tally("servers without a free port", 1);
                if let Ok(Ok(())) = h.join() {
                    report("failure hidden", format!("{}: the port is in use, and the server ends as if all was well", said));
                }
            } else {
                report("not started, not ended", format!("{}: the port is in use, and the server listens on {:?}", said, at));
            }
            continue;
        }
        if at.len() != 1 || at[0].ip() != host || port.map_or(false, |p| at[0].port() != p) {
            let end = if h.is_finished() { format!(", and it ended: {:?}", h.join().ok()) } else { String::new() };
            report("listens elsewhere", format!("{}: it listens on {:?}{}", said, at, end));
            return;
        }
        tally("servers listening", 1);
        taken.push(at[0].port());
        up.push((i, at[0].port(), s.key, h));
    }
    // each is a database of its own
    for (i, port, key, _) in &up {
        let key = vec![b'k', *key];
        match simcore::block_on(ask(*port, gen::req(INC, None, &[&key]))) {
            Ok(MVal::Int(1)) => tally("servers used", 1),
            other => {
                report("wrong answer", format!("the first increment on server {} (port {}) is answered {:?}", i, port, other));
                return;
            }
        }
    }
    for (i, _, _, h) in &up {
        if h.is_finished() {
            report("server ended", format!("server {}", i));
        }
    }
}
