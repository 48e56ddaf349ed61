//! The timer on a simulated clock: faithful, or failing in every way a clock can.
use crate::{
    fw::{self, base_cfg, report, shape, tally, Family},
    timer_shim,
};
use hop_internal_timer::Timer;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::{rng::Rng, Config, Fault, Outcome};
use std::{
    cell::{Cell, RefCell},
    rc::Rc,
    time::Duration,
};

#[derive(Clone, Serialize, Deserialize)]
enum Op {
    #[serde(rename = "start")]
    Start,
    #[serde(rename = "stop")]
    Stop,
    #[serde(rename = "duration")]
    Duration,
    #[serde(rename = "running")]
    Running,
    #[serde(rename = "reset")]
    Reset,
    /// continue with a copy of the timer
    #[serde(rename = "clone")]
    Clone,
    /// time passes (nanoseconds)
    #[serde(rename = "wait")]
    Wait(u64),
    /// the clock is set back or forth (nanoseconds)
    #[serde(rename = "jump")]
    Jump(i64),
    /// the next readings are these, whatever the time
    #[serde(rename = "reads")]
    Reads(i64, i64),
    /// the next reading fails
    #[serde(rename = "fails")]
    Fails,
}

#[derive(Clone, Serialize, Deserialize)]
struct Plan {
    /// the clock's reading at the beginning
    epoch: (i64, i64),
    /// the clock advances in steps of so many nanoseconds
    grain: u64,
    timers: Vec<Vec<Op>>,
}

pub struct Clocked;

const G: i64 = 1_000_000_000;

impl Family for Clocked {
    fn name(&self) -> &'static str {
        "timer"
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (
            "hop timer",
            "the system clock (clock_gettime answers from simulated clocks), threads and scheduler (simulated)",
        )
    }
    fn gen(&self, _prop: &str, rng: &mut Rng, deep: bool) -> (Value, Config) {
        let faulty = rng.chance(1, 2);
        let span = |rng: &mut Rng| match rng.below(7) {
            0 => 0,
            1 => 1,
            2 => rng.below(1000),
            3 => rng.below(2 * G as u64),
            4 if rng.chance(1, 50) => G as u64 * rng.below(100_000),
            5 => G as u64 - rng.below(2),
            _ => rng.below(20_000_000_000),
        };
        let timers = (0..rng.range(1, 3))
            .map(|_| {
                (0..rng.range(2, if deep { 40 } else { 16 }))
                    .map(|_| match rng.below(if faulty { 24 } else { 17 }) {
                        0..=3 => Op::Start,
                        4..=6 => Op::Stop,
                        7 | 8 => Op::Duration,
                        9 => Op::Running,
                        10 => Op::Reset,
                        11 => Op::Clone,
                        12..=16 => Op::Wait(span(rng)),
                        17..=19 => {
                            let n = span(rng) as i64;
                            Op::Jump(if rng.chance(2, 3) { -n } else { n })
                        }
                        20 | 21 => Op::Fails,
                        _ => Op::Reads(
                            *rng.pick(&[0, 1, -1, 5, i64::MAX, i64::MIN, i64::MAX - 1, 1 << 40]),
                            *rng.pick(&[0, 1, -1, G - 1, G, G + 1, 4 * G, 5 * G, i64::MAX, i64::MIN, u32::MAX as i64, u32::MAX as i64 + 1]),
                        ),
                    })
                    .collect()
            })
            .collect();
        let mut c = base_cfg(rng, 60);
        if faulty {
            if rng.chance(1, 3) {
                c.rates[Fault::ClockFail as usize] = *rng.pick(&[20u16, 100, 400]);
            }
            if rng.chance(1, 3) {
                c.rates[Fault::ClockJump as usize] = *rng.pick(&[20u16, 100, 400]);
            }
        }
        let plan = Plan {
            epoch: (
                *rng.pick(&[0i64, 0, 1, 1000, 123_456_789, (1 << 40) - 1]),
                *rng.pick(&[0i64, 1, 500_000_000, G - 1]),
            ),
            grain: *rng.pick(&[1u64, 1, 1, 1000, 4_000_000, 1_000_000_000]),
            timers,
        };
        (serde_json::to_value(plan).unwrap(), c)
    }
    fn exec(&self, _prop: &str, plan: &Value, cfg: Config) -> Option<Outcome> {
        let plan: Plan = serde_json::from_value(plan.clone()).ok()?;
        if plan.timers.len() > 20
            || plan.grain == 0
            || plan.grain > 10 * G as u64
            || !(0..=1 << 40).contains(&plan.epoch.0)
            || !(0..G).contains(&plan.epoch.1)
            || plan.timers.iter().flatten().any(|o| match o {
                Op::Wait(n) => *n > 1 << 50,
                Op::Jump(n) => n.unsigned_abs() > 1 << 50,
                _ => false,
            })
        {
            return None;
        }
        Some(simcore::run(cfg, move || clocked(plan)))
    }
}

/// A reading of the clock: what it said, if anything.
type Reading = Option<(i64, i64)>;

struct Clock {
    epoch: i128,
    grain: u64,
    /// how far it was set from the time
    skew: Cell<i128>,
    next: RefCell<Vec<Reading>>,
    /// readings of the monotonic clock since the list was emptied
    seen: RefCell<Vec<Reading>>,
    /// something other than the monotonic clock was read
    others: Cell<u64>,
}

impl Clock {
    fn time(&self) -> i128 {
        let t = self.epoch + simcore::now() as i128 + self.skew.get();
        let g = self.grain as i128;
        t.div_euclid(g) * g
    }
    fn read(&self, id: libc::clockid_t) -> Reading {
        let mut t = self.time();
        let forced = match id {
            libc::CLOCK_MONOTONIC => {
                let again = self.seen.borrow().len() > 0;
                if again {
                    // the clock stands still during one call
                    return self.seen.borrow()[0];
                }
                self.next.borrow_mut().pop()
            }
            libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => None,
            libc::CLOCK_MONOTONIC_COARSE => {
                t = t.div_euclid(4_000_000) * 4_000_000;
                None
            }
            _ => {
                // wall time is being adjusted all the while
                t = t * 3 + 1_700_000_000 * G as i128;
                None
            }
        };
        let mut r = forced.unwrap_or_else(|| {
            let t = t.max(0);
            Some(((t / G as i128) as i64, (t % G as i128) as i64))
        });
        if id == libc::CLOCK_MONOTONIC {
            if simcore::fault(Fault::ClockFail, 2) == 1 {
                r = None;
            }
            self.seen.borrow_mut().push(r);
        } else {
            self.others.set(self.others.get() + 1);
        }
        r
    }
}

/// The instant a reading means, if it is a proper one.
fn instant(r: (i64, i64)) -> Option<i128> {
    (r.0 >= 0 && (0..G).contains(&r.1)).then(|| r.0 as i128 * G as i128 + r.1 as i128)
}

/// What a timer was told, by the clock as it was read.
#[derive(Clone, Default, Debug)]
struct Told {
    start: Option<(i64, i64)>,
    stop: Option<(i64, i64)>,
}

fn clocked(plan: Plan) {
    let clock = Rc::new(Clock {
        epoch: plan.epoch.0 as i128 * G as i128 + plan.epoch.1 as i128,
        grain: plan.grain,
        skew: Cell::new(0),
        next: Default::default(),
        seen: Default::default(),
        others: Cell::new(0),
    });
    let mut hs = vec![];
    for (n, ops) in plan.timers.into_iter().enumerate() {
        let clock = clock.clone();
        hs.push(simcore::spawn(format!("timer {}", n), move || one(n, ops, &clock)));
    }
    for h in hs {
        let _ = h.join();
    }
}

/// Call into the timer with the simulated clock in place.
fn with_clock<R>(c: &Rc<Clock>, f: impl FnOnce() -> R) -> (R, Vec<Reading>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            timer_shim::uninstall()
        }
    }
    c.seen.borrow_mut().clear();
    let k = c.clone();
    timer_shim::install(move |id| k.read(id));
    let off = Off;
    let r = f();
    drop(off);
    let seen = c.seen.borrow_mut().drain(..).collect();
    (r, seen)
}

fn one(n: usize, ops: Vec<Op>, clock: &Rc<Clock>) {
    let mut t = Timer::new();
    let mut m = Told::default();
    for (i, o) in ops.into_iter().enumerate() {
        simcore::yield_point();
        let jump = simcore::fault(Fault::ClockJump, 1000);
        if jump > 0 {
            let d = (jump as i128 - 300) * 7_000_000;
            clock.skew.set(clock.skew.get() + d);
        }
        let say = |what: String| {
            report("timer", format!("timer {} operation {}: {}", n, i, what));
        };
        let reading = |seen: &[Reading]| seen.first().copied().flatten();
        match o {
            Op::Start => {
                let (r, seen) = with_clock(clock, || t.start());
                let could = m.start.is_none();
                match (could, r, reading(&seen)) {
                    (false, false, _) => {}
                    (false, true, _) => return say("started twice".into()),
                    (true, true, Some(x)) => m.start = Some(x),
                    (true, true, None) => return say(format!("started without the time ({:?})", seen)),
                    (true, false, None) if !seen.is_empty() => {}
                    (true, false, _) => return say(format!("does not start; the clock says {:?}", seen)),
                }
                tally("starts", 1);
            }
            Op::Stop => {
                let (r, seen) = with_clock(clock, || t.stop());
                let running = m.start.is_some() && m.stop.is_none();
                if !running {
                    if r.is_some() {
                        return say(format!("stopped without running, after {:?}", r));
                    }
                    continue;
                }
                match (r, reading(&seen)) {
                    (Some(_), Some(x)) => {
                        m.stop = Some(x);
                        if let Err(e) = right(&m, r) {
                            return say(e);
                        }
                        tally("durations measured", 1);
                    }
                    (None, None) if !seen.is_empty() => {}
                    _ => return say(format!("stopping returned {:?}; the clock says {:?}", r, seen)),
                }
            }
            Op::Duration => {
                let (r, _) = with_clock(clock, || t.duration());
                if let Err(e) = right(&m, r) {
                    return say(e);
                }
                tally("durations asked for", 1);
            }
            Op::Running => {
                let (r, _) = with_clock(clock, || t.is_running());
                if r != (m.start.is_some() && m.stop.is_none()) {
                    return say(format!("is_running says {} after {:?}", r, m));
                }
            }
            Op::Reset => {
                with_clock(clock, || t.reset());
                m = Told::default();
                if t != Timer::new() {
                    return say("a reset timer is not like a new one".into());
                }
            }
            Op::Clone => {
                let c = t.clone();
                if c != t {
                    return say("a copied timer differs".into());
                }
                t = c;
            }
            Op::Wait(n) => simcore::block_on(simcore::sleep(n)),
            Op::Jump(n) => {
                clock.skew.set(clock.skew.get() + n as i128);
                tally("clock set", 1);
            }
            Op::Reads(s, ns) => {
                clock.next.borrow_mut().push(Some((s, ns)));
                tally("odd readings", 1);
            }
            Op::Fails => {
                clock.next.borrow_mut().push(None);
                tally("failing readings", 1);
            }
        }
        shape(fw::hash_bytes(format!("{:?}", m).as_bytes()));
    }
    if clock.others.get() > 0 {
        tally("readings of other clocks", clock.others.get());
    }
}

/// Is this the duration between start and stop?
fn right(m: &Told, got: Option<Duration>) -> Result<(), String> {
    let (Some(a), Some(b)) = (m.start, m.stop) else {
        return match got {
            None => Ok(()),
            Some(d) => Err(format!("a duration of {:?} before the timer was stopped ({:?})", d, m)),
        };
    };
    let Some(d) = got else {
        return Err(format!("no duration though stopped ({:?})", m));
    };
    match (instant(a), instant(b)) {
        (Some(x), Some(y)) => {
            let want = (y - x).max(0);
            if d.as_nanos() as i128 != want {
                return Err(format!("measured {:?}, the clock advanced {} ns", d, y - x));
            }
        }
        // readings no clock should give: nothing absurd may come of them
        _ => {
            let far = |r: (i64, i64)| r.0.max(0) as i128 + 6;
            if d.as_secs() as i128 > far(b) {
                return Err(format!("measured {:?} between readings of {:?} and {:?}", d, a, b));
            }
        }
    }
    Ok(())
}
