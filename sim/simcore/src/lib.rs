//! Deterministic simulator core.
//!
//! Every simulated task or thread is a coroutine on one OS thread.  Exactly one
//! runs at a time; at every scheduling point the seeded scheduler decides which
//! one continues.  All choices are numbers in recorded streams, where 0 always
//! means "the plain thing" (no preemption, no delay, no fault); a run is a pure
//! function of (program, config, choice streams).

pub mod net;
pub mod rng;
pub mod stdio;

use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use rng::Rng;
use std::{
    any::Any,
    cell::{Cell, RefCell},
    cmp::Reverse,
    collections::{BTreeMap, BinaryHeap, HashMap},
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

pub type TaskId = usize;
pub type Pid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(usize)]
pub enum Fault {
    ShortRead,
    ShortWrite,
    Spurious,
    Delay,
    Stall,
    Reset,
    AcceptErr,
    PeerAddrErr,
    KillRst,
    ClockFail,
    ClockJump,
    LockBusy,
    ConnectErr,
    WriteErr,
    ReadErr,
}

pub const FAULTS: [(Fault, &str); 15] = [
    (Fault::ShortRead, "short_read"),
    (Fault::ShortWrite, "short_write"),
    (Fault::Spurious, "spurious_not_ready"),
    (Fault::Delay, "delivery_delay"),
    (Fault::Stall, "link_stall"),
    (Fault::Reset, "connection_reset"),
    (Fault::AcceptErr, "accept_error"),
    (Fault::PeerAddrErr, "peer_addr_error"),
    (Fault::KillRst, "crash_reset_vs_fin"),
    (Fault::ClockFail, "clock_failure"),
    (Fault::ClockJump, "clock_jump"),
    (Fault::LockBusy, "try_lock_busy"),
    (Fault::ConnectErr, "connect_error"),
    (Fault::WriteErr, "write_error"),
    (Fault::ReadErr, "read_error"),
];
pub const NF: usize = FAULTS.len();

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strategy {
    /// Preempt with probability permille/1000 at each scheduling point.
    Walk { permille: u32 },
    /// Random priorities with `changes` priority-change points within `horizon` steps.
    Pct { changes: u32, horizon: u32 },
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Traces {
    /// sparse (index, value), value != 0
    pub sched: Vec<(u32, u32)>,
    pub env: Vec<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    pub replay: Option<Traces>,
    pub max_steps: u64,
    pub rates: [u16; NF],
    pub shards: usize,
    pub hash_seed: u64,
    pub window: usize,
}

impl Default for Config {
    fn default() -> Self {
        Self {
            seed: 0,
            strategy: Strategy::Walk { permille: 200 },
            replay: None,
            max_steps: 200_000,
            rates: [0; NF],
            shards: 4,
            hash_seed: 0,
            window: 1 << 16,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// root can never finish: nothing runnable and no timer pending
    Deadlock(Vec<String>),
    StepLimit(Vec<String>),
    /// the root itself panicked
    RootPanic,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub panics: Vec<(String, String)>,
    pub traces: Traces,
    pub steps: u64,
    pub switches: u64,
    pub now: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub faults: [u64; NF],
    pub counters: BTreeMap<&'static str, u64>,
    pub tasks: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Parked,
    Lock(usize),
    Done,
}

type Co = Coroutine<(), (), (), DefaultStack>;

struct Task {
    name: String,
    pid: Pid,
    co: Option<Co>,
    st: St,
    notified: bool,
    prio: u64,
    /// suspended at an atomic access, where the stack cannot be unwound
    atomic: bool,
    /// suspended below frames that cannot be unwound
    foreign: bool,
    /// its process has ended
    gone: bool,
    yielder: *const Yielder<(), ()>,
}

enum TimerAct {
    Wake(Waker),
    Net(usize, usize),
}

pub struct Sim {
    gen: u64,
    cfg: Config,
    tasks: Vec<Task>,
    runnable: Vec<TaskId>,
    current: TaskId,
    in_task: bool,
    rng_sched: Rng,
    rng_env: Rng,
    n_sched: u32,
    n_env: u32,
    rp_sched: HashMap<u32, u32>,
    rp_env: HashMap<u32, u32>,
    traces: Traces,
    pct_points: Vec<u64>,
    pct_low: u64,
    /// how often in a row the running task went on though others could have
    streak: u32,
    steps: u64,
    switches: u64,
    now: u64,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    timer_acts: BTreeMap<u64, TimerAct>,
    timer_seq: u64,
    stamp: u64,
    hash: u64,
    sched_hash: u64,
    faults_on: bool,
    faults: [u64; NF],
    counters: BTreeMap<&'static str, u64>,
    panics: Vec<(String, String)>,
    limit_hit: bool,
    next_pick: Option<TaskId>,
    /// a task that is to vanish runs on to a place where its stack can be unwound
    draining: Option<u32>,
    pub net: net::Net,
    pub stdio: stdio::Stdio,
    exits: HashMap<Pid, Box<dyn FnOnce(i32)>>,
    hash_ctr: u64,
}

thread_local! {
    static CUR: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static GEN: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static WAKES: RefCell<Vec<(u64, TaskId)>> = const { RefCell::new(Vec::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

const STACK_SIZE: usize = 256 * 1024;

fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x.wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 32)
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !CUR.with(|c| c.get()).is_null() || QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".into()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            prev(info)
        }
    }));
}

/// Run `f` catching a panic and returning its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| take_panic())
}

pub fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "<unknown panic>".into())
}

#[inline]
fn ptr() -> *mut Sim {
    CUR.with(|c| c.get())
}

/// Access the running simulation.  `f` must not reach a scheduling point.
#[inline]
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let p = ptr();
    assert!(!p.is_null(), "not inside a simulation");
    let o = OWNER.with(|o| o.replace(0));
    let r = unsafe { f(&mut *p) };
    OWNER.with(|c| c.set(o));
    r
}

thread_local! {
    /// The process whose code is running, for accounting; 0 in the simulator itself.
    pub static OWNER: Cell<u32> = const { Cell::new(0) };
}
/// Account what `f` does to process `pid`.
pub fn as_owner<R>(pid: Pid, f: impl FnOnce() -> R) -> R {
    let o = OWNER.with(|o| o.replace(pid));
    let r = f();
    OWNER.with(|c| c.set(o));
    r
}

#[inline]
pub fn active() -> bool {
    !ptr().is_null()
}

/// Is this called by simulated code (not by the simulator itself)?
pub fn in_task() -> bool {
    let p = ptr();
    !p.is_null() && unsafe { (*p).in_task }
}

impl Sim {
    fn insert_runnable(&mut self, t: TaskId) {
        if let Err(i) = self.runnable.binary_search(&t) {
            self.runnable.insert(i, t);
        }
    }
    fn remove_runnable(&mut self, t: TaskId) {
        if let Ok(i) = self.runnable.binary_search(&t) {
            self.runnable.remove(i);
        }
    }
    fn set_state(&mut self, t: TaskId, st: St) {
        self.tasks[t].st = st;
        if st == St::Runnable {
            self.insert_runnable(t);
        } else {
            self.remove_runnable(t);
        }
    }

    fn sched_choice(&mut self, n: u32, current_ok: bool) -> u32 {
        if n <= 1 {
            return 0;
        }
        let idx = self.n_sched;
        self.n_sched += 1;
        // who spins, waiting for another task, does not do so forever
        let turn = if current_ok && self.streak >= STREAK { 1 + (idx as u32) % (n - 1) } else { 0 };
        if self.cfg.replay.is_some() {
            let v = self.rp_sched.get(&idx).copied().unwrap_or(0) % n;
            let v = if v == 0 { turn } else { v };
            self.streak = if current_ok && v == 0 { self.streak + 1 } else { 0 };
            return v;
        }
        let v = match self.cfg.strategy {
            _ if turn != 0 => {
                self.pct_low -= 1;
                let (c, l) = (self.current, self.pct_low);
                self.tasks[c].prio = l;
                turn
            }
            Strategy::Walk { permille } => {
                if current_ok {
                    if self.rng_sched.below(1000) < permille as u64 {
                        1 + self.rng_sched.below(n as u64 - 1) as u32
                    } else {
                        0
                    }
                } else {
                    self.rng_sched.below(n as u64) as u32
                }
            }
            Strategy::Pct { .. } => {
                while let Some(&p) = self.pct_points.last() {
                    if p <= self.steps {
                        self.pct_points.pop();
                        if current_ok {
                            self.pct_low -= 1;
                            let l = self.pct_low;
                            let c = self.current;
                            self.tasks[c].prio = l;
                        }
                    } else {
                        break;
                    }
                }
                // highest priority
                let start = self.start_pos();
                let len = self.runnable.len();
                let mut best = 0;
                let mut bp = 0;
                for k in 0..len {
                    let t = self.runnable[(start + k) % len];
                    let p = self.tasks[t].prio;
                    if k == 0 || p > bp {
                        best = k;
                        bp = p;
                    }
                }
                best as u32
            }
        };
        self.streak = if current_ok && v == 0 { self.streak + 1 } else { 0 };
        if v != 0 {
            self.traces.sched.push((idx, v));
        }
        v
    }

    fn start_pos(&self) -> usize {
        match self.runnable.binary_search(&self.current) {
            Ok(i) => i,
            Err(i) => {
                if i == self.runnable.len() {
                    0
                } else {
                    i
                }
            }
        }
    }

    fn drain_wakes(&mut self) {
        WAKES.with(|w| {
            let mut w = w.borrow_mut();
            for (gen, t) in w.drain(..) {
                if gen == self.gen {
                    self.unpark(t);
                }
            }
        })
    }

    fn pick(&mut self) -> Option<TaskId> {
        self.drain_wakes();
        let n = self.runnable.len();
        if n == 0 {
            return None;
        }
        let start = self.start_pos();
        let current_ok = self.runnable[start] == self.current;
        let v = self.sched_choice(n as u32, current_ok) as usize;
        Some(self.runnable[(start + v) % n])
    }

    fn tick(&mut self) {
        self.steps += 1;
        self.now += 1000;
        self.fire_due();
    }

    fn fire_due(&mut self) {
        while let Some(&Reverse((at, id))) = self.timers.peek() {
            if at > self.now {
                break;
            }
            self.timers.pop();
            if let Some(a) = self.timer_acts.remove(&id) {
                match a {
                    TimerAct::Wake(w) => w.wake(),
                    TimerAct::Net(c, e) => net::deliver(self, c, e),
                }
            }
        }
    }

    /// jump to the next timer; false if there is none
    fn jump(&mut self) -> bool {
        loop {
            match self.timers.peek() {
                None => return false,
                Some(&Reverse((at, id))) => {
                    if !self.timer_acts.contains_key(&id) {
                        self.timers.pop();
                        continue;
                    }
                    if at > self.now {
                        self.now = at;
                    }
                    self.fire_due();
                    return true;
                }
            }
        }
    }

    fn add_timer(&mut self, at: u64, a: TimerAct) -> u64 {
        let id = self.timer_seq;
        self.timer_seq += 1;
        self.timers.push(Reverse((at, id)));
        self.timer_acts.insert(id, a);
        id
    }

    pub(crate) fn env_choice(&mut self, f: Fault, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        let idx = self.n_env;
        self.n_env += 1;
        let v = if self.cfg.replay.is_some() {
            let v = self.rp_env.get(&idx).copied().unwrap_or(0);
            if v == 0 || !self.faults_on || self.cfg.rates[f as usize] == 0 {
                0
            } else {
                1 + (v - 1) % n
            }
        } else {
            let rate = self.cfg.rates[f as usize] as u64;
            if rate > 0 && self.faults_on && self.rng_env.below(1000) < rate {
                1 + self.rng_env.below(n as u64) as u32
            } else {
                0
            }
        };
        if v != 0 {
            self.traces.env.push((idx, v));
            self.faults[f as usize] += 1;
            self.hash = mix(self.hash, 0xF000 + f as u64 * 131 + v as u64);
        }
        v
    }

    fn unpark(&mut self, t: TaskId) {
        if self.tasks[t].st == St::Done {
            return;
        }
        self.tasks[t].notified = true;
        if self.tasks[t].st == St::Parked {
            self.set_state(t, St::Runnable);
        }
    }

    fn new_task(&mut self, name: String, pid: Pid, f: Box<dyn FnOnce()>) -> TaskId {
        let id = self.tasks.len();
        let stack = STACKS
            .with(|s| s.borrow_mut().pop())
            .unwrap_or_else(|| DefaultStack::new(STACK_SIZE).expect("stack"));
        let co = Co::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            with(|s| s.tasks[id].yielder = y as *const _);
            OWNER.with(|o| o.set(pid));
            f();
            OWNER.with(|o| o.set(0));
        });
        let prio = 1_000_000 + self.rng_sched.below(1 << 40);
        self.tasks.push(Task {
            name,
            pid,
            co: Some(co),
            st: St::Runnable,
            notified: false,
            prio,
            atomic: false,
            foreign: false,
            gone: false,
            yielder: std::ptr::null(),
        });
        self.insert_runnable(id);
        id
    }

    pub fn pid(&self) -> Pid {
        self.tasks[self.current].pid
    }
    pub fn now(&self) -> u64 {
        self.now
    }
    pub fn window(&self) -> usize {
        self.cfg.window
    }
}

/// So often in a row a task may go on though others could.
const STREAK: u32 = 5000;

fn suspend() {
    let p = ptr();
    let y = {
        let s = unsafe { &*p };
        s.tasks[s.current].yielder
    };
    let o = OWNER.with(|o| o.replace(0));
    unsafe { (*y).suspend(()) };
    OWNER.with(|c| c.set(o));
}

/// A scheduling point.
#[inline]
pub fn yield_point() {
    let p = ptr();
    if p.is_null() {
        return;
    }
    yield_slow(p);
}

/// A scheduling point at an atomic access.
#[inline]
pub fn yield_atomic() {
    let p = ptr();
    if p.is_null() {
        return;
    }
    let c = {
        let s = unsafe { &mut *p };
        if !s.in_task {
            return;
        }
        let c = s.current;
        s.tasks[c].atomic = true;
        c
    };
    yield_slow(p);
    unsafe { (&mut (*p).tasks)[c].atomic = false };
}

fn yield_slow(p: *mut Sim) {
    if std::thread::panicking() {
        return;
    }
    let owner = OWNER.with(|o| o.replace(0));
    let sw = decide(p);
    OWNER.with(|o| o.set(owner));
    if sw {
        suspend();
    }
}

/// Should another task than the running one continue?
fn decide(p: *mut Sim) -> bool {
    {
        let s = unsafe { &mut *p };
        if !s.in_task {
            return false;
        }
        if let Some(n) = s.draining.as_mut() {
            *n += 1;
            if s.tasks[s.current].atomic && *n < 10_000 {
                return false;
            }
            true
        } else if {
            s.tick();
            s.steps > s.cfg.max_steps
        } {
            s.limit_hit = true;
            true
        } else {
            match s.pick() {
                Some(t) if t == s.current => false,
                Some(t) => {
                    s.next_pick = Some(t);
                    true
                }
                None => false,
            }
        }
    }
}

/// Block the current task until it is notified.
fn park() {
    let p = ptr();
    {
        let s = unsafe { &mut *p };
        s.drain_wakes();
        let c = s.current;
        if s.tasks[c].notified {
            s.tasks[c].notified = false;
            return;
        }
        s.set_state(c, St::Parked);
        s.next_pick = None;
    }
    suspend();
    with(|s| {
        let c = s.current;
        s.tasks[c].notified = false;
    });
}

/// Called by simulated locks: wait until somebody releases `addr`.
pub fn block_on_lock(addr: usize) {
    if !in_task() {
        panic!("simulated lock contended outside a task");
    }
    if std::thread::panicking() {
        eprintln!("simulated lock contended while unwinding");
        std::process::abort();
    }
    with(|s| {
        let c = s.current;
        s.steps += 1;
        if s.steps > s.cfg.max_steps {
            s.limit_hit = true;
        }
        *s.counters.entry("lock_contention").or_default() += 1;
        s.set_state(c, St::Lock(addr));
        s.next_pick = None;
    });
    suspend();
}

/// Run `f`, called from frames that cannot be unwound: what is on the task's stack is
/// lost should it never continue.
pub fn foreign<R>(f: impl FnOnce() -> R) -> R {
    let set = |v| {
        with(|s| {
            let c = s.current;
            std::mem::replace(&mut s.tasks[c].foreign, v)
        })
    };
    let old = set(true);
    let r = f();
    set(old);
    r
}

/// Called by simulated locks on release: how many were waiting.
#[inline]
pub fn lock_released(addr: usize) -> usize {
    let p = ptr();
    if p.is_null() {
        return 0;
    }
    let s = unsafe { &mut *p };
    if s.runnable.len() == s.tasks.len() {
        return 0;
    }
    let mut n = 0;
    for t in 0..s.tasks.len() {
        if s.tasks[t].st == St::Lock(addr) {
            s.set_state(t, St::Runnable);
            n += 1;
        }
    }
    n
}

struct TaskWaker {
    gen: u64,
    task: TaskId,
    wakes: AtomicU64,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, Ordering::Relaxed);
        // applied at the next scheduling decision: the caller may hold `&mut Sim`
        WAKES.with(|w| w.borrow_mut().push((self.gen, self.task)));
    }
}

/// Drive a future on the current task.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let waker: Waker = with(|s| {
        Arc::new(TaskWaker {
            gen: s.gen,
            task: s.current,
            wakes: AtomicU64::new(0),
        })
    })
    .into();
    let mut cx = Context::from_waker(&waker);
    loop {
        yield_point();
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => park(),
        }
    }
}

struct JoinState<T> {
    value: Option<T>,
    finished: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    st: Rc<RefCell<JoinState<T>>>,
    pub id: TaskId,
}

// The simulation is single-threaded; handles never leave its OS thread.
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

/// The task panicked or its process was killed.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Gone;

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, Gone>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut st = self.st.borrow_mut();
        if st.finished {
            Poll::Ready(st.value.take().ok_or(Gone))
        } else {
            st.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        self.st.borrow().finished
    }
    pub fn join(self) -> Result<T, Gone> {
        block_on(self)
    }
}

struct Finish<T>(Rc<RefCell<JoinState<T>>>);
impl<T> Drop for Finish<T> {
    fn drop(&mut self) {
        let w = {
            let mut st = self.0.borrow_mut();
            st.finished = true;
            st.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// Start a simulated thread in process `pid`.
pub fn spawn_in<T: 'static>(
    pid: Pid,
    name: impl Into<String>,
    f: impl FnOnce() -> T + 'static,
) -> JoinHandle<T> {
    let st = Rc::new(RefCell::new(JoinState {
        value: None,
        finished: false,
        waker: None,
    }));
    let st2 = st.clone();
    let name = as_owner(0, || name.into());
    let id = with(|s| {
        s.new_task(
            name,
            pid,
            Box::new(move || {
                let fin = Finish(st2.clone());
                let v = f();
                st2.borrow_mut().value = Some(v);
                drop(fin);
            }),
        )
    });
    JoinHandle { st, id }
}

pub fn spawn<T: 'static>(name: impl Into<String>, f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
    let pid = with(|s| s.pid());
    spawn_in(pid, name, f)
}

pub fn spawn_future<F>(name: impl Into<String>, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn(name, move || block_on(f))
}

pub fn spawn_future_in<F>(pid: Pid, name: impl Into<String>, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_in(pid, name, move || block_on(f))
}

/// What a program's main function returns.
pub trait Ended {
    fn ended(self) -> Result<(), String>;
}
impl Ended for () {
    fn ended(self) -> Result<(), String> {
        Ok(())
    }
}
impl Ended for std::process::ExitCode {
    fn ended(self) -> Result<(), String> {
        if self == std::process::ExitCode::SUCCESS {
            Ok(())
        } else {
            Err("failure".into())
        }
    }
}
impl<T: Ended, E: std::fmt::Debug> Ended for Result<T, E> {
    fn ended(self) -> Result<(), String> {
        self.map_err(|e| format!("{:?}", e))?.ended()
    }
}

/// Run a program in process `pid`, which ends when `main` returns or something in it
/// calls `exit`.
pub fn process<R: Ended + 'static>(pid: Pid, name: impl Into<String>, main: fn() -> R) -> JoinHandle<Result<(), String>> {
    let h = spawn_in(pid, name, move || {
        let r = main().ended();
        end_process(pid, false);
        r
    });
    let st = h.st.clone();
    let f: Box<dyn FnOnce(i32)> = Box::new(move |code| {
        let r = if code == 0 { Ok(()) } else { Err(format!("exit status {}", code)) };
        st.borrow_mut().value = Some(r);
        drop(Finish(st));
    });
    with(|s| s.exits.insert(pid, f));
    h
}

/// `std::process::exit`, for the simulated process.
pub fn exit(code: i32) -> ! {
    if !in_task() {
        std::process::exit(code);
    }
    let pid = current_pid();
    end_process(pid, false);
    let f = with(|s| {
        let c = s.current;
        s.tasks[c].gone = true;
        s.exits.remove(&pid)
    });
    match f {
        Some(f) => f(code),
        None => with(|s| {
            let name = s.tasks[s.current].name.clone();
            s.panics.push((name, format!("exit with status {}", code)))
        }),
    }
    suspend();
    unreachable!()
}

/// Crash a process: its tasks vanish where they stand, its sockets are closed by
/// the "kernel".  Must not be called from a task of that process.
pub fn kill_process(pid: Pid) {
    with(|s| {
        assert!(s.pid() != pid, "a process cannot kill itself here");
        *s.counters.entry("process_crash").or_default() += 1;
    });
    end_process(pid, true)
}

fn end_process(pid: Pid, crash: bool) {
    with(|s| net::process_died(s, pid, crash));
    let mut t = 0;
    while t < with(|s| s.tasks.len()) {
        if with(|s| s.tasks[t].pid == pid && t != s.current && s.tasks[t].st != St::Done) {
            reap(t);
        }
        t += 1;
    }
}

/// How many tasks of process `pid` have not ended.
pub fn alive_tasks(pid: Pid) -> usize {
    with(|s| s.tasks.iter().filter(|t| t.pid == pid && t.st != St::Done).count())
}

/// Make one task vanish where it stands (not the current one).
pub fn kill_task(t: TaskId) {
    let alive = with(|s| {
        assert!(s.current != t, "a task cannot kill itself here");
        s.tasks[t].st != St::Done
    });
    if alive {
        reap(t);
    }
}

fn reap(t: TaskId) {
    let co = with(|s| {
        s.set_state(t, St::Done);
        s.tasks[t].co.take()
    });
    if let Some(mut co) = co {
        let mut stuck = false;
        if co.started() && !co.done() && with(|s| s.tasks[t].atomic && !s.tasks[t].foreign) {
            let (cur, inside, drain) = with(|s| {
                let old = (s.current, s.in_task, s.draining.replace(0));
                s.current = t;
                s.in_task = true;
                old
            });
            let _ = catch_unwind(AssertUnwindSafe(|| co.resume(())));
            with(|s| {
                s.current = cur;
                s.in_task = inside;
                s.draining = drain;
                stuck = s.tasks[t].atomic;
                s.set_state(t, St::Done);
            });
        }
        stuck |= with(|s| s.tasks[t].foreign);
        if co.started() && !co.done() && stuck {
            // what is on its stack is lost
            unsafe { co.force_reset() };
        } else if co.started() && !co.done() {
            // unwinds the coroutine, running the destructors on its stack
            co.force_unwind();
        }
        if co.done() {
            let st = co.into_stack();
            STACKS.with(|s| s.borrow_mut().push(st));
        } else {
            drop(co);
        }
    }
}

pub fn sleep(ns: u64) -> Sleep {
    Sleep {
        at: with(|s| s.now + ns),
        id: None,
        gen: with(|s| s.gen),
    }
}

pub struct Sleep {
    at: u64,
    id: Option<u64>,
    gen: u64,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        with(|s| {
            if s.now >= self.at {
                return Poll::Ready(());
            }
            if let Some(id) = self.id {
                s.timer_acts.remove(&id);
            }
            self.id = Some(s.add_timer(self.at, TimerAct::Wake(cx.waker().clone())));
            Poll::Pending
        })
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            if active() {
                with(|s| {
                    if s.gen == self.gen {
                        s.timer_acts.remove(&id);
                    }
                })
            }
        }
    }
}

pub fn now() -> u64 {
    with(|s| s.now)
}
pub fn steps() -> u64 {
    with(|s| s.steps)
}
/// Advance virtual time without running anyone.
pub fn advance(ns: u64) {
    with(|s| {
        s.now += ns;
        s.fire_due();
    })
}
/// Next global event number.
pub fn stamp() -> u64 {
    with(|s| {
        s.stamp += 1;
        s.stamp
    })
}
pub fn fault(f: Fault, n: u32) -> u32 {
    if !active() {
        return 0;
    }
    with(|s| s.env_choice(f, n))
}
pub fn set_faults(on: bool) {
    with(|s| s.faults_on = on)
}
pub fn count(name: &'static str) {
    if active() {
        with(|s| *s.counters.entry(name).or_default() += 1)
    }
}
pub fn note_hash(v: u64) {
    with(|s| s.hash = mix(s.hash, v))
}
pub fn shards() -> usize {
    if active() {
        with(|s| s.cfg.shards)
    } else {
        4
    }
}
/// Seed for the deterministic hashers; differs per map like the real one.
pub fn hash_seed() -> u64 {
    if active() {
        with(|s| {
            s.hash_ctr += 1;
            mix(s.cfg.hash_seed, s.hash_ctr)
        })
    } else {
        0x5EED
    }
}
pub fn panics() -> Vec<(String, String)> {
    with(|s| s.panics.clone())
}
pub fn current_pid() -> Pid {
    with(|s| s.pid())
}
pub fn task_name() -> String {
    with(|s| s.tasks[s.current].name.clone())
}

pub fn run(cfg: Config, root: impl FnOnce() + 'static) -> Outcome {
    assert!(ptr().is_null(), "nested simulation");
    let gen = GEN.with(|g| {
        g.set(g.get() + 1);
        g.get()
    });
    let mut rs = Rng::new(cfg.seed ^ 0x5C4E_D000);
    let pct_points = match cfg.strategy {
        Strategy::Pct { changes, horizon } => {
            let mut v: Vec<u64> = (0..changes)
                .map(|_| 1 + rs.below(horizon.max(1) as u64))
                .collect();
            v.sort_unstable_by(|a, b| b.cmp(a));
            v
        }
        _ => vec![],
    };
    let (rp_sched, rp_env) = match &cfg.replay {
        Some(t) => (
            t.sched.iter().copied().collect(),
            t.env.iter().copied().collect(),
        ),
        None => Default::default(),
    };
    let re = Rng::new(cfg.seed ^ 0xE4B1_7000_0000);
    let mut sim = Box::new(Sim {
        gen,
        tasks: Vec::with_capacity(16),
        runnable: Vec::with_capacity(16),
        current: 0,
        in_task: false,
        rng_sched: rs,
        rng_env: re,
        n_sched: 0,
        n_env: 0,
        rp_sched,
        rp_env,
        traces: Traces::default(),
        pct_points,
        pct_low: 1_000_000,
        streak: 0,
        steps: 0,
        switches: 0,
        now: 1_000_000_000,
        timers: BinaryHeap::new(),
        timer_acts: BTreeMap::new(),
        timer_seq: 0,
        stamp: 0,
        hash: 0x1234,
        sched_hash: 0x4321,
        faults_on: true,
        faults: [0; NF],
        counters: BTreeMap::new(),
        panics: vec![],
        limit_hit: false,
        next_pick: None,
        draining: None,
        net: net::Net::default(),
        stdio: stdio::Stdio::default(),
        exits: HashMap::new(),
        hash_ctr: 0,
        cfg,
    });
    let p: *mut Sim = &mut *sim;
    CUR.with(|c| c.set(p));
    let root_panicked = Rc::new(Cell::new(true));
    let rp = root_panicked.clone();
    with(|s| {
        s.new_task(
            "root".into(),
            0,
            Box::new(move || {
                root();
                rp.set(false);
            }),
        )
    });
    let end = loop {
        // choose
        let next = {
            let s = unsafe { &mut *p };
            if s.tasks[0].st == St::Done {
                break if root_panicked.get() {
                    End::RootPanic
                } else {
                    End::Done
                };
            }
            if s.limit_hit {
                break End::StepLimit(describe(s));
            }
            match s.next_pick.take() {
                Some(t) => t,
                None => {
                    s.drain_wakes();
                    if s.runnable.is_empty() {
                        if s.jump() {
                            continue;
                        }
                        break End::Deadlock(describe(s));
                    }
                    s.tick();
                    if s.steps > s.cfg.max_steps {
                        break End::StepLimit(describe(s));
                    }
                    s.pick().unwrap()
                }
            }
        };
        let mut co = {
            let s = unsafe { &mut *p };
            s.current = next;
            s.in_task = true;
            s.switches += 1;
            s.sched_hash = mix(s.sched_hash, next as u64);
            s.hash = mix(s.hash, (next as u64) << 32 | s.n_env as u64);
            s.tasks[next].co.take().expect("coroutine")
        };
        let r = catch_unwind(AssertUnwindSafe(|| co.resume(())));
        OWNER.with(|o| o.set(0));
        let s = unsafe { &mut *p };
        s.in_task = false;
        match r {
            Ok(CoroutineResult::Yield(())) if s.tasks[next].gone => {
                s.set_state(next, St::Done);
                // what is on its stack is lost
                unsafe { co.force_reset() };
                let st = co.into_stack();
                STACKS.with(|v| v.borrow_mut().push(st));
            }
            Ok(CoroutineResult::Yield(())) => {
                s.tasks[next].co = Some(co);
            }
            Ok(CoroutineResult::Return(())) => {
                s.set_state(next, St::Done);
                let st = co.into_stack();
                STACKS.with(|v| v.borrow_mut().push(st));
            }
            Err(payload) => {
                let _: Box<dyn Any + Send> = payload;
                s.set_state(next, St::Done);
                let name = s.tasks[next].name.clone();
                s.panics.push((name, take_panic()));
                if co.done() {
                    let st = co.into_stack();
                    STACKS.with(|v| v.borrow_mut().push(st));
                } else {
                    std::mem::forget(co);
                }
            }
        }
    };
    // tear everything down
    let mut t = 0;
    while t < unsafe { (*p).tasks.len() } {
        if unsafe { (&(*p).tasks)[t].st != St::Done } {
            reap(t);
        }
        t += 1;
    }
    // wakers and sockets may still reference the simulation while being dropped
    let timer_acts = with(|s| std::mem::take(&mut s.timer_acts));
    drop(timer_acts);
    let net = with(|s| std::mem::take(&mut s.net));
    drop(net);
    let stdio = with(|s| std::mem::take(&mut s.stdio));
    drop(stdio);
    CUR.with(|c| c.set(std::ptr::null_mut()));
    let s = *sim;
    Outcome {
        end,
        panics: s.panics,
        traces: s.traces,
        steps: s.steps,
        switches: s.switches,
        now: s.now - 1_000_000_000,
        hash: s.hash,
        sched_hash: s.sched_hash,
        faults: s.faults,
        counters: s.counters,
        tasks: s.tasks.len(),
    }
}

fn describe(s: &Sim) -> Vec<String> {
    s.tasks
        .iter()
        .filter(|t| t.st != St::Done)
        .map(|t| {
            format!(
                "{} {}",
                t.name,
                match t.st {
                    St::Runnable => "runnable",
                    St::Parked => "waiting",
                    St::Lock(_) => "blocked on a lock",
                    St::Done => "done",
                }
            )
        })
        .collect()
}
