//! System calls of the standard library's clocks, sleeps and locks.
//!
//! `clock_gettime` resolves to the definition here.  It answers from the run's virtual,
//! possibly faulty, clock while one is installed on this OS thread, from simulated time
//! inside a simulated task, and from the kernel otherwise.  In the same way a simulated
//! task that waits for a standard library lock (futex), sleeps or yields waits in the
//! simulator instead of stopping its OS thread.
use std::cell::{Cell, RefCell};

type Source = Box<dyn FnMut(libc::clockid_t) -> Option<(i64, i64)>>;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static SRC: RefCell<Option<Source>> = const { RefCell::new(None) };
}

pub fn install(f: impl FnMut(libc::clockid_t) -> Option<(i64, i64)> + 'static) {
    SRC.with(|s| *s.borrow_mut() = Some(Box::new(f)));
    ON.with(|o| o.set(true));
}
pub fn uninstall() {
    ON.with(|o| o.set(false));
    SRC.with(|s| *s.borrow_mut() = None);
}

fn real(c: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let r = unsafe { raw(libc::SYS_clock_gettime, c as i64, ts as i64, 0, 0, 0, 0) };
    unsafe { ret(r) as i32 }
}

pub fn real_ns(c: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    real(c, &mut t);
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        ON.with(|o| o.set(false));
        let r = SRC.with(|s| s.borrow_mut().as_mut().map(|f| f(c)));
        ON.with(|o| o.set(true));
        return match r {
            Some(Some((s, n))) => {
                (*ts).tv_sec = s;
                (*ts).tv_nsec = n;
                0
            }
            Some(None) => {
                *libc::__errno_location() = libc::EINVAL;
                -1
            }
            None => real(c, ts),
        };
    }
    if simcore::in_task() {
        let now = simcore::now();
        let base = if c == libc::CLOCK_REALTIME { 1_700_000_000 } else { 1_000_000 };
        (*ts).tv_sec = base + (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    real(c, ts)
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// Locks in static memory (such as standard output's) are shared by all OS threads and
/// never held at a scheduling point; others belong to one simulation.
unsafe fn simulated(addr: i64) -> bool {
    let a = addr as usize;
    let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
    simcore::in_task() && !(lo..hi).contains(&a)
}

fn pause(ns: u64) {
    simcore::foreign(|| simcore::block_on(simcore::sleep(ns)));
}

/// A futex wait of at most half a millisecond, reported as interrupted.
unsafe fn brief(a: i64, b: i64, c: i64, f: i64) -> i64 {
    let t = libc::timespec { tv_sec: 0, tv_nsec: 500_000 };
    let op = libc::FUTEX_WAIT | (b as i32 & libc::FUTEX_PRIVATE_FLAG);
    match raw(libc::SYS_futex, a, op as i64, c, &t as *const _ as i64, 0, f) {
        r if r == -libc::ETIMEDOUT as i64 => -libc::EINTR as i64,
        r => r,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && simcore::in_task() && !simulated(a) && matches!(b as i32 & 0x7f, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) {
        // the holder may be a task of this OS thread, which must get to run
        let r = brief(a, b, c, f);
        pause(1000);
        return ret(r);
    }
    if n == libc::SYS_futex && simulated(a) {
        match b as i32 & 0x7f {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    return ret(-libc::EAGAIN as i64);
                }
                let t = d as *const libc::timespec;
                if t.is_null() {
                    simcore::foreign(|| simcore::block_on_lock(a as usize));
                    return 0;
                }
                // a timed wait is woken late, but is woken
                let at = (*t).tv_sec as i128 * 1_000_000_000 + (*t).tv_nsec as i128;
                let left = if b as i32 & 0x7f == libc::FUTEX_WAIT {
                    at
                } else {
                    at - 1_000_000 * 1_000_000_000 - simcore::now() as i128
                };
                if left > 0 {
                    pause(left.min(1 << 60) as u64);
                }
                if word.load(std::sync::atomic::Ordering::SeqCst) == c as u32 {
                    return ret(-libc::ETIMEDOUT as i64);
                }
                return 0;
            }
            libc::FUTEX_WAKE => return simcore::lock_released(a as usize) as i64,
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simcore::in_task() {
        pause(1000);
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

unsafe fn span(t: *const libc::timespec) -> u64 {
    (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, left: *mut libc::timespec) -> i32 {
    if simcore::in_task() {
        pause(span(t));
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, t as i64, left as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, flags: i32, t: *const libc::timespec, left: *mut libc::timespec) -> i32 {
    if simcore::in_task() {
        let now = if flags & libc::TIMER_ABSTIME != 0 {
            let mut n = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            clock_gettime(c, &mut n);
            span(&n)
        } else {
            0
        };
        pause(span(t).saturating_sub(now));
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, c as i64, flags as i64, t as i64, left as i64, 0, 0) as i32
}

// ---- the environment --------------------------------------------------------------

thread_local! {
    static ENV: RefCell<Vec<(simcore::Pid, Vec<(&'static [u8], std::ffi::CString)>)>> = const { RefCell::new(vec![]) };
}

/// The environment variables of simulated processes, which have no others.
pub fn environments(e: Vec<(simcore::Pid, Vec<(&'static [u8], std::ffi::CString)>)>) {
    ENV.with(|x| *x.borrow_mut() = e);
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if simcore::in_task() {
        let pid = simcore::current_pid();
        let found = ENV.try_with(|e| {
            let e = e.borrow();
            let vars = e.iter().find(|p| p.0 == pid)?;
            Some(vars.1.iter().find(|v| v.0 == n).map_or(std::ptr::null_mut(), |v| v.1.as_ptr() as *mut _))
        });
        if let Ok(Some(p)) = found {
            return p;
        }
    }
    let mut e = environ;
    if n.is_empty() || e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        let v = *e;
        if libc::strncmp(v, name, n.len()) == 0 && *v.add(n.len()) == b'=' as libc::c_char {
            return v.add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
