//! Runs, seeds, supervision, minimisation, replay files and evidence.
use serde_json::{json, Map, Value};
use simcore::{rng::Rng, Config, End, Outcome, Strategy, Traces, FAULTS, NF};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    io::{Read, Write},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Mutex,
    },
};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub kind: String,
    pub detail: String,
}

thread_local! {
    static VIOLS: RefCell<Vec<Viol>> = const { RefCell::new(Vec::new()) };
    static TALLY: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static SHAPE: RefCell<u64> = const { RefCell::new(0) };
}

/// The property does not hold in this run.
pub fn report(kind: impl Into<String>, detail: impl Into<String>) {
    let v = Viol {
        kind: kind.into(),
        detail: detail.into(),
    };
    VIOLS.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 20 {
            l.push(v)
        }
    })
}
/// Whether something was reported in this run already.
pub fn violated() -> bool {
    VIOLS.with(|l| !l.borrow().is_empty())
}
/// Count something for the evidence.
pub fn tally(name: &'static str, n: u64) {
    TALLY.with(|t| *t.borrow_mut().entry(name).or_default() += n)
}
/// Mix a fact about this run into its shape (what makes it distinct).
pub fn shape(v: u64) {
    SHAPE.with(|s| {
        let mut s = s.borrow_mut();
        *s = mix(*s, v)
    })
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x.wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 32)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x0100_0000_01b3))
}

pub trait Family: Sync {
    fn name(&self) -> &'static str;
    /// A plan and the conditions to run it under.
    fn gen(&self, prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config);
    /// `None`: not a plan.
    fn exec(&self, prop: &str, plan: &Value, cfg: Config) -> Option<Outcome>;
    /// What is real and what is a stand-in.
    fn parts(&self) -> (&'static str, &'static str);
}

#[derive(Clone)]
pub struct Case {
    pub family: String,
    pub prop: String,
    pub plan: Value,
    pub cfg: Config,
}

pub fn cfg_json(c: &Config) -> Value {
    let mut rates = Map::new();
    for (f, n) in FAULTS.iter() {
        if c.rates[*f as usize] != 0 {
            rates.insert(n.to_string(), json!(c.rates[*f as usize]));
        }
    }
    json!({
        "seed": c.seed,
        "strategy": match c.strategy {
            Strategy::Walk { permille } => json!({"walk": permille}),
            Strategy::Pct { changes, horizon } => json!({"pct": [changes, horizon]}),
        },
        "max_steps": c.max_steps,
        "fault_permille": rates,
        "shards": c.shards,
        "hash_seed": c.hash_seed,
        "window": c.window,
        "traces": c.replay.as_ref().map(|t| json!({"schedule": t.sched, "environment": t.env})),
    })
}

pub fn cfg_from(v: &Value) -> Option<Config> {
    let mut rates = [0u16; NF];
    for (f, n) in FAULTS.iter() {
        if let Some(r) = v["fault_permille"].get(*n) {
            rates[*f as usize] = r.as_u64()? as u16;
        }
    }
    let pairs = |v: &Value| -> Option<Vec<(u32, u32)>> {
        v.as_array()?
            .iter()
            .map(|p| Some((p.get(0)?.as_u64()? as u32, p.get(1)?.as_u64()? as u32)))
            .collect()
    };
    Some(Config {
        seed: v["seed"].as_u64()?,
        strategy: if let Some(w) = v["strategy"].get("walk") {
            Strategy::Walk {
                permille: w.as_u64()? as u32,
            }
        } else {
            let p = &v["strategy"]["pct"];
            Strategy::Pct {
                changes: p.get(0)?.as_u64()? as u32,
                horizon: p.get(1)?.as_u64()? as u32,
            }
        },
        replay: match &v["traces"] {
            Value::Null => None,
            t => Some(Traces {
                sched: pairs(&t["schedule"])?,
                env: pairs(&t["environment"])?,
            }),
        },
        max_steps: v["max_steps"].as_u64()?,
        rates,
        shards: v["shards"].as_u64()? as usize,
        hash_seed: v["hash_seed"].as_u64()?,
        window: v["window"].as_u64()? as usize,
    })
}

pub fn case_json(c: &Case) -> Value {
    json!({"family": c.family, "property": c.prop, "plan": c.plan, "config": cfg_json(&c.cfg)})
}
pub fn case_from(v: &Value) -> Option<Case> {
    Some(Case {
        family: v["family"].as_str()?.into(),
        prop: v["property"].as_str()?.into(),
        plan: v["plan"].clone(),
        cfg: cfg_from(&v["config"])?,
    })
}

pub struct RunRes {
    pub viols: Vec<Viol>,
    pub out: Outcome,
    pub tally: BTreeMap<&'static str, u64>,
    pub shape: u64,
}

pub fn run_case(c: &Case) -> Option<RunRes> {
    let fam = crate::family(&c.family)?;
    VIOLS.with(|v| v.borrow_mut().clear());
    TALLY.with(|v| v.borrow_mut().clear());
    SHAPE.with(|v| *v.borrow_mut() = 0);
    crate::alloc::reset();
    crate::timer_shim::environments(vec![]);
    let out = fam.exec(&c.prop, &c.plan, c.cfg.clone())?;
    let mut viols = VIOLS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    for (t, p) in &out.panics {
        viols.insert(
            0,
            Viol {
                kind: "panic".into(),
                detail: format!("task {} panicked: {}", t, p),
            },
        );
    }
    match &out.end {
        End::Done => {}
        End::RootPanic => {
            if out.panics.is_empty() {
                viols.push(Viol {
                    kind: "panic".into(),
                    detail: "the run itself panicked".into(),
                })
            }
        }
        End::Deadlock(t) => viols.push(Viol {
            kind: "deadlock".into(),
            detail: format!("nobody can ever continue: {}", t.join("; ")),
        }),
        End::StepLimit(t) => viols.push(Viol {
            kind: "no progress".into(),
            detail: format!("not finished after {} steps: {}", out.steps, t.join("; ")),
        }),
    }
    Some(RunRes {
        viols,
        out,
        tally: TALLY.with(|v| std::mem::take(&mut *v.borrow_mut())),
        shape: SHAPE.with(|v| *v.borrow()),
    })
}

/// The case of run number `idx`.
pub fn gen_case(prop: &str, base: u64, idx: u64, deep: bool) -> Case {
    let mut rng = Rng::new(mix(mix(base, hash_bytes(prop.as_bytes())), idx));
    let fams = crate::families(prop);
    let total: u64 = fams.iter().map(|f| f.1).sum();
    let mut k = rng.below(total);
    let mut pick = fams[0].0;
    for (f, w) in &fams {
        if k < *w {
            pick = f;
            break;
        }
        k -= w;
    }
    let fam = crate::family(pick).unwrap();
    let (plan, mut cfg) = fam.gen(prop, &mut rng, deep);
    cfg.seed = rng.next() >> 12;
    Case {
        family: pick.into(),
        prop: prop.into(),
        plan,
        cfg,
    }
}

// ---- statistics ------------------------------------------------------------

#[derive(Default)]
struct Stats {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    tasks: u64,
    faults: [u64; NF],
    counters: BTreeMap<String, u64>,
    by_family: BTreeMap<String, u64>,
    scheds: HashSet<u64>,
    shapes: HashSet<u64>,
    rechecked: u64,
    mismatched: u64,
}

impl Stats {
    fn add(&mut self, c: &Case, r: &RunRes) {
        self.runs += 1;
        self.steps += r.out.steps;
        self.switches += r.out.switches;
        self.sim_ns = self.sim_ns.saturating_add(r.out.now);
        self.tasks += r.out.tasks as u64;
        for i in 0..NF {
            self.faults[i] += r.out.faults[i];
        }
        for (k, v) in &r.out.counters {
            *self.counters.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &r.tally {
            *self.counters.entry(k.to_string()).or_default() += v;
        }
        *self.by_family.entry(c.family.clone()).or_default() += 1;
        if self.scheds.len() < 4_000_000 {
            self.scheds.insert(mix(r.out.sched_hash, hash_bytes(c.family.as_bytes())));
        }
        // a run is nontrivial when it did something: its shape is set by the family
        if r.shape != 0 && self.shapes.len() < 4_000_000 {
            self.shapes.insert(mix(r.shape, r.out.hash));
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns = self.sim_ns.saturating_add(o.sim_ns);
        self.tasks += o.tasks;
        for i in 0..NF {
            self.faults[i] += o.faults[i];
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.by_family {
            *self.by_family.entry(k).or_default() += v;
        }
        self.scheds.extend(o.scheds);
        self.shapes.extend(o.shapes);
        self.rechecked += o.rechecked;
        self.mismatched += o.mismatched;
    }
}

// ---- shared status of the worker, watched by the supervisor -----------------

const SLOTS: usize = 64;
struct Shared {
    idx: [AtomicU64; SLOTS],
    since: [AtomicU64; SLOTS],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

pub fn wall_ms() -> u64 {
    crate::timer_shim::real_ns(libc::CLOCK_MONOTONIC) / 1_000_000
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub secs: u64,
    pub threads: usize,
    pub verif: String,
}

/// Body of the worker process: explore, return the result as JSON.
fn worker(o: &Opts, sh: &'static Shared) -> Value {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Case, Vec<Viol>, Traces)>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let deadline = wall_ms() + o.secs * 1000;
    let deep = o.tier == "thorough";
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let slow: Option<u64> = std::env::var("HOPSIM_SLOW").ok().and_then(|s| s.parse().ok());
            let (next, stop, found, total, samples) = (&next, &stop, &found, &total, &samples);
            s.spawn(move || {
                let mut st = Stats::default();
                loop {
                    if stop.load(SeqCst) || wall_ms() > deadline {
                        break;
                    }
                    let idx = next.fetch_add(1, SeqCst);
                    if idx >= o.runs {
                        break;
                    }
                    sh.idx[t].store(idx, SeqCst);
                    sh.since[t].store(wall_ms(), SeqCst);
                    let case = gen_case(&o.prop, o.seed, idx, deep);
                    let r = run_case(&case).expect("generated plans are plans");
                    st.add(&case, &r);
                    if !r.viols.is_empty() {
                        stop.store(true, SeqCst);
                        found.lock().unwrap().push((idx, case, r.viols, r.out.traces));
                        break;
                    }
                    if idx < 3 {
                        let mut text = case.plan.to_string();
                        if text.len() > 1500 {
                            let mut n = 1500;
                            while !text.is_char_boundary(n) {
                                n -= 1
                            }
                            text.truncate(n);
                        }
                        samples.lock().unwrap().push(json!({
                            "run": idx, "family": case.family, "config": cfg_json(&case.cfg), "plan": text,
                            "steps": r.out.steps, "schedule_hash": format!("{:016x}", r.out.sched_hash)}));
                    }
                    if idx % 64 == 5 {
                        let mut again = case.clone();
                        again.cfg.replay = Some(r.out.traces.clone());
                        let r2 = run_case(&again).unwrap();
                        st.rechecked += 1;
                        if r2.out.hash != r.out.hash || r2.out.steps != r.out.steps {
                            st.mismatched += 1;
                        }
                    }
                    if let Some(ms) = slow {
                        let took = wall_ms() - sh.since[t].load(SeqCst);
                        if took >= ms {
                            eprintln!("run {} ({}) took {} ms, {} steps", idx, case.family, took, r.out.steps);
                        }
                    }
                    sh.since[t].store(0, SeqCst);
                }
                sh.since[t].store(0, SeqCst);
                total.lock().unwrap().merge(st);
            });
        }
    });
    let st = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let mut faults = Map::new();
    for (f, n) in FAULTS.iter() {
        if st.faults[*f as usize] > 0 {
            faults.insert(n.to_string(), json!(st.faults[*f as usize]));
        }
    }
    let viol = found.into_iter().next().map(|(idx, mut c, v, t)| {
        c.cfg.replay = Some(t);
        json!({"run": idx, "case": case_json(&c), "kind": v[0].kind, "detail": v[0].detail})
    });
    json!({
        "violation": viol,
        "runs": st.runs, "steps": st.steps, "switches": st.switches, "sim_ns": st.sim_ns, "tasks": st.tasks,
        "faults": faults, "counters": st.counters, "by_family": st.by_family,
        "distinct_schedules": st.scheds.len(), "distinct_shapes": st.shapes.len(),
        "rechecked": st.rechecked, "mismatched": st.mismatched,
        "samples": samples.into_inner().unwrap(),
    })
}

/// Run `f` in a forked child; its JSON result, or how it died.
pub fn forked(secs: u64, cpu: u64, f: impl FnOnce() -> Value, mut watch: impl FnMut() -> bool) -> Result<Value, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::setpgid(0, 0);
            if cpu > 0 {
                let l = libc::rlimit {
                    rlim_cur: cpu,
                    rlim_max: cpu + 1,
                };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let v = f();
            use std::os::fd::FromRawFd;
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(v.to_string().as_bytes());
            let _ = w.flush();
            drop(w);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        use std::os::fd::FromRawFd;
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let end = wall_ms() + secs * 1000;
        let mut why = None;
        loop {
            let mut p = libc::pollfd {
                fd: fds[0],
                events: libc::POLLIN,
                revents: 0,
            };
            let n = libc::poll(&mut p, 1, 200);
            if n > 0 {
                let mut tmp = [0u8; 65536];
                match r.read(&mut tmp) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => {
                        buf.extend_from_slice(&tmp[..k]);
                        continue;
                    }
                }
            }
            if wall_ms() > end {
                why = Some("hang");
                break;
            }
            if !watch() {
                why = Some("hang");
                break;
            }
        }
        if why.is_some() {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if let Some(w) = why {
            return Err(w.into());
        }
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            return Err(if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                "hang".into()
            } else {
                format!("crash (signal {})", sig)
            });
        }
        serde_json::from_slice(&buf).map_err(|_| format!("crash (exit status {})", libc::WEXITSTATUS(status)))
    }
}

const RUN_CPU: u64 = 20;

/// One case in a process of its own: violation kind, detail, traces.
fn probe_forked(c: &Case) -> Result<Option<(String, String, Option<Traces>)>, ()> {
    let c2 = c.clone();
    let r = forked(
        RUN_CPU * 8,
        RUN_CPU,
        move || match run_case(&c2) {
            None => json!({"bad": true}),
            Some(r) => json!({
                "viol": r.viols.first().map(|v| json!([v.kind, v.detail])),
                "sched": r.out.traces.sched, "env": r.out.traces.env,
                "hash": r.out.hash, "steps": r.out.steps,
            }),
        },
        || true,
    );
    match r {
        Err(e) if e == "hang" => Ok(Some((
            "hang".into(),
            format!("the run used {} s of processor time without ending", RUN_CPU),
            None,
        ))),
        Err(e) => Ok(Some((e.clone(), format!("the process died: {}", e), None))),
        Ok(v) if v.get("bad").is_some() => Err(()),
        Ok(v) => Ok(v["viol"].as_array().map(|a| {
            (
                a[0].as_str().unwrap().to_string(),
                a[1].as_str().unwrap().to_string(),
                serde_json::from_value(json!([v["sched"], v["env"]]))
                    .ok()
                    .map(|(sched, env): (Vec<(u32, u32)>, Vec<(u32, u32)>)| Traces { sched, env }),
            )
        })),
    }
}

fn probe_here(c: &Case) -> Option<(String, String, Traces)> {
    let r = run_case(c)?;
    let v = r.viols.first()?;
    Some((v.kind.clone(), v.detail.clone(), r.out.traces))
}

// ---- minimisation -----------------------------------------------------------

/// Smaller variants of a JSON plan.
fn shrinks(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut k = n;
            while k >= 1 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone();
                    b.drain(i..(i + k).min(n));
                    out.push(Value::Array(b));
                    i += k;
                }
                k /= 2;
            }
            for i in 0..n {
                for s in shrinks(&a[i]) {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                for s in shrinks(x) {
                    let mut b = m.clone();
                    b.insert(k.clone(), s);
                    out.push(Value::Object(b));
                }
            }
        }
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                if n > 0 {
                    out.push(json!(0));
                    if n > 1 {
                        out.push(json!(n / 2));
                        out.push(json!(n - 1));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::String(s) => {
            if let Some(r) = s.strip_prefix('~') {
                if let Some((n, b)) = r.split_once(':') {
                    let n: usize = n.parse().unwrap_or(0);
                    if n > 0 {
                        out.push(json!(format!("~{}:{}", n / 2, b)));
                        out.push(json!(format!("~{}:{}", n - 1, b)));
                    }
                }
            } else if s.is_ascii() && s.len() > 2 && s.len() % 2 == 0 {
                let h = s.len() / 4 * 2;
                out.push(json!(s[..h]));
                out.push(json!(s[h..]));
                if s.len() <= 24 {
                    out.push(json!(s[..s.len() - 2]));
                }
            }
        }
        _ => {}
    }
    out
}

/// Shrink plan, then schedule and fault trace, keeping the kind of violation.
fn minimise(mut c: Case, kind: &str, secs: u64) -> Case {
    let end = wall_ms() + secs * 1000;
    let mut attempts = 0u64;
    // plan
    'outer: loop {
        for s in shrinks(&c.plan) {
            if wall_ms() > end {
                break 'outer;
            }
            let mut d = c.clone();
            d.plan = s;
            // the same trace first, then a few fresh schedules
            for round in 0..6u64 {
                attempts += 1;
                if round > 0 {
                    d.cfg.replay = None;
                    d.cfg.seed = mix(c.cfg.seed, attempts) >> 12;
                }
                if let Some((k, _, t)) = probe_here(&d) {
                    if k == kind {
                        d.cfg.replay = Some(t);
                        c = d;
                        continue 'outer;
                    }
                }
            }
        }
        break;
    }
    // traces
    let end = wall_ms() + secs * 500;
    let mut t = c.cfg.replay.clone().unwrap_or_default();
    for which in 0..2 {
        let mut k = if which == 0 { t.env.len() } else { t.sched.len() };
        while k >= 1 {
            let mut i = 0;
            loop {
                let list = if which == 0 { &t.env } else { &t.sched };
                if i >= list.len() || wall_ms() > end {
                    break;
                }
                let mut u = t.clone();
                let l = if which == 0 { &mut u.env } else { &mut u.sched };
                l.drain(i..(i + k).min(l.len()));
                let mut d = c.clone();
                d.cfg.replay = Some(u.clone());
                match probe_here(&d) {
                    Some((k2, _, _)) if k2 == kind => t = u,
                    _ => i += k,
                }
            }
            k /= 2;
        }
    }
    c.cfg.replay = Some(t);
    // keep only the choices that were really taken
    if let Some((k, _, used)) = probe_here(&c) {
        if k == kind {
            c.cfg.replay = Some(used);
        }
    }
    c
}

/// As `minimise`, for runs that take their process with them (plan only).
fn minimise_forked(mut c: Case, kind: &str, secs: u64) -> Case {
    let end = wall_ms() + secs * 1000;
    'outer: loop {
        for s in shrinks(&c.plan) {
            if wall_ms() > end {
                break 'outer;
            }
            let mut d = c.clone();
            d.plan = s;
            if let Ok(Some((k, _, _))) = probe_forked(&d) {
                if k == kind {
                    c = d;
                    continue 'outer;
                }
            }
        }
        break;
    }
    c
}

// ---- the check ---------------------------------------------------------------

struct Known {
    entries: Vec<(String, String)>,
}

/// known_findings.txt: `finding: property=<id> match=<text of the violation> | <what fails>`
fn known(verif: &str) -> Known {
    let mut entries = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, rest)) = r.split_once(' ') {
                    entries.push((id.to_string(), rest.to_string()));
                }
            }
        }
    }
    Known { entries }
}

pub fn check(o: &Opts) -> i32 {
    let t0 = wall_ms();
    let sh = shared();
    let k = known(&o.verif);
    for (id, what) in &k.entries {
        if *id == o.prop {
            println!("KNOWN-FINDING: property={} {}", id, what);
        }
    }
    let stuck = || -> Vec<u64> {
        let now = wall_ms();
        (0..o.threads)
            .filter(|t| {
                let s = sh.since[*t].load(SeqCst);
                s != 0 && now.saturating_sub(s) > 30_000
            })
            .map(|t| sh.idx[t].load(SeqCst))
            .collect()
    };
    let res = forked(o.secs + 120, 0, || worker(o, sh), || stuck().is_empty());
    let mut summary = json!({});
    let mut violation: Option<(Case, String, String, u64)> = None;
    match res {
        Ok(v) => {
            if let Some(x) = v["violation"].as_object() {
                violation = Some((
                    case_from(&x["case"]).unwrap(),
                    x["kind"].as_str().unwrap().into(),
                    x["detail"].as_str().unwrap().into(),
                    x["run"].as_u64().unwrap(),
                ));
            }
            summary = v;
        }
        Err(e) => {
            eprintln!("worker ended abnormally: {}", e);
            let mut cand: Vec<u64> = stuck();
            for t in 0..o.threads {
                let i = sh.idx[t].load(SeqCst);
                if sh.since[t].load(SeqCst) != 0 && !cand.contains(&i) {
                    cand.push(i)
                }
            }
            for i in cand {
                let c = gen_case(&o.prop, o.seed, i, o.tier == "thorough");
                if let Ok(Some((kind, detail, t))) = probe_forked(&c) {
                    let mut c = c;
                    c.cfg.replay = t;
                    violation = Some((c, kind, detail, i));
                    break;
                }
            }
            if violation.is_none() {
                eprintln!("no single run explains it; no verdict");
                return 3;
            }
        }
    }
    let wall = (wall_ms() - t0) as f64 / 1000.0;
    write_evidence(o, &summary, wall, violation.as_ref().map(|v| v.1.as_str()));
    let n = |k: &str| summary[k].as_u64().unwrap_or(0);
    println!(
        "{} {}: {} runs in {:.1} s, {} steps, {} distinct schedules, {:.1} s simulated, {} of {} replays differed",
        o.prop,
        o.tier,
        n("runs"),
        wall,
        n("steps"),
        n("distinct_schedules"),
        n("sim_ns") as f64 / 1e9,
        n("mismatched"),
        n("rechecked")
    );
    let Some((case, kind, detail, run)) = violation else {
        if n("runs") == 0 {
            eprintln!("nothing was run");
            return 3;
        }
        return 0;
    };
    eprintln!("run {} violates {}: {}: {}", run, o.prop, kind, detail);
    let dies = kind == "hang" || kind.starts_with("crash");
    let min = if dies {
        minimise_forked(case.clone(), &kind, if kind == "hang" { 60 } else { 30 })
    } else {
        let (c, k) = (case.clone(), kind.clone());
        match forked(90, 0, move || case_json(&minimise(c, &k, 20)), || true) {
            Ok(v) => case_from(&v).unwrap_or(case.clone()),
            Err(_) => case.clone(),
        }
    };
    let mut fin = min;
    let mut fdetail = detail.clone();
    match probe_forked(&fin) {
        Ok(Some((k, d, t))) if k == kind => {
            fdetail = d;
            if t.is_some() {
                fin.cfg.replay = t;
            }
        }
        _ => fin = case,
    }
    let dir = format!("{}/replays", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, o.prop, o.seed, run);
    let mut v = case_json(&fin);
    v["violation"] = json!({"kind": kind, "detail": fdetail});
    v["found"] = json!({"seed": o.seed, "run": run, "tier": o.tier});
    let mut text = serde_json::to_string_pretty(&v).unwrap();
    text.push('\n');
    std::fs::write(&path, text).expect("write replay file");
    println!("{}: {}", kind, fdetail);
    println!("VIOLATION property={} replay={}", o.prop, path);
    1
}

pub fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let Some(c) = case_from(&v) else {
        eprintln!("not a replay file: {}", path);
        return 2;
    };
    match probe_forked(&c) {
        Ok(Some((k, d, _))) => {
            println!("{}: {}", k, d);
            let same = v["violation"]["kind"] == json!(k) && v["violation"]["detail"] == json!(d);
            println!("{}", if same { "exactly as recorded" } else { "differs from what was recorded" });
            println!("VIOLATION property={} replay={}", c.prop, path);
            1
        }
        Ok(None) => {
            println!("no violation");
            0
        }
        Err(()) => {
            eprintln!("the plan is not valid");
            2
        }
    }
}

fn write_evidence(o: &Opts, s: &Value, wall: f64, viol: Option<&str>) {
    let n = |k: &str| s[k].as_u64().unwrap_or(0);
    let runs = n("runs");
    let mut real = BTreeSet::new();
    let mut stub = BTreeSet::new();
    for (f, _) in crate::families(&o.prop) {
        let p = crate::family(f).unwrap().parts();
        real.extend(p.0.split("; ").map(str::to_string));
        stub.extend(p.1.split("; ").map(str::to_string));
    }
    let v = json!({
        "property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "wall_s": wall,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": n("distinct_shapes"),
            "rule": "one evaluation is one simulated run of a generated plan under a seeded scheduler and fault source; it counts as distinct and nontrivial when the property's subject was exercised in it (operations completed, bytes decoded, lines answered) and the hash of its outcome together with its whole execution (every context switch, fault and environment choice) was not seen before in this check",
            "samples": s["samples"],
            "runs_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "simulated_seconds": n("sim_ns") as f64 / 1e9,
            "scheduling_steps": n("steps"),
            "context_switches": n("switches"),
            "simulated_tasks": n("tasks"),
            "distinct_interleavings": n("distinct_schedules"),
            "distinct_interleavings_measure": "distinct sequences of context switches (hash of every task switched to, in order)",
            "faults_injected": s["faults"],
            "counts": s["counters"],
            "runs_by_scenario_family": s["by_family"],
            "determinism": {"runs_replayed_from_their_trace": n("rechecked"), "replays_that_differed": n("mismatched")},
            "real_code": real, "stand_ins": stub,
            "violation": viol,
            "threads": o.threads,
        }
    });
    let dir = format!("{}/evidence", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let mut text = serde_json::to_string_pretty(&v).unwrap();
    text.push('\n');
    std::fs::write(format!("{}/{}.json", dir, o.prop), text).expect("write evidence");
}

// ---- shared generators --------------------------------------------------------

/// Random scheduling conditions.
pub fn base_cfg(rng: &mut Rng, horizon: u32) -> Config {
    let strategy = match rng.below(10) {
        0 => Strategy::Walk { permille: 0 },
        1 | 2 => Strategy::Walk { permille: 50 },
        3 | 4 | 5 => Strategy::Walk { permille: 250 },
        6 => Strategy::Walk { permille: 600 },
        _ => Strategy::Pct {
            changes: rng.range(1, 5) as u32,
            horizon,
        },
    };
    Config {
        seed: 0,
        strategy,
        replay: None,
        max_steps: 200_000,
        rates: [0; NF],
        shards: *rng.pick(&[2usize, 2, 4, 4, 8, 16]),
        hash_seed: rng.below(1 << 20),
        window: 1 << 16,
    }
}
