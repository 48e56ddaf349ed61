//! Allocation accounting per OS thread, and a ceiling that turns runaway
//! allocation into an abort the supervisor sees.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static OWNED: [Cell<isize>; 256] = const { [const { Cell::new(0) }; 256] };
}
const CEILING: isize = 2 << 30;

pub struct Counting;

fn on(n: usize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        v < CEILING
    })
    .unwrap_or(true)
}
fn off(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

/// Every block is preceded by the process it is accounted to.
fn head(l: Layout) -> usize {
    l.align().max(16)
}
fn owner() -> u32 {
    simcore::OWNER.try_with(|o| o.get()).unwrap_or(0) & 255
}
fn owned(o: u32, n: isize) {
    if o != 0 {
        let _ = OWNED.try_with(|t| t[o as usize].set(t[o as usize].get() + n));
    }
}
unsafe fn fresh(l: Layout, zeroed: bool) -> *mut u8 {
    if !on(l.size()) {
        off(l.size());
        return std::ptr::null_mut();
    }
    let h = head(l);
    let Ok(full) = Layout::from_size_align(l.size() + h, h) else { return std::ptr::null_mut() };
    let p = if zeroed { System.alloc_zeroed(full) } else { System.alloc(full) };
    if p.is_null() {
        return p;
    }
    let o = owner();
    owned(o, l.size() as isize);
    let p = p.add(h);
    *(p.sub(8) as *mut u32) = o;
    p
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        fresh(l, false)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        off(l.size());
        owned(*(p.sub(8) as *mut u32), -(l.size() as isize));
        let h = head(l);
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        fresh(l, true)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !on(n) {
            off(n);
            return std::ptr::null_mut();
        }
        off(l.size());
        let h = head(l);
        let q = System.realloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h), n + h);
        if q.is_null() {
            return q;
        }
        let q = q.add(h);
        owned(*(q.sub(8) as *mut u32), n as isize - l.size() as isize);
        q
    }
}

/// What is live of what process `pid` allocated.
pub fn live_of(pid: u32) -> isize {
    OWNED.with(|t| t[pid as usize & 255].get())
}

pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    OWNED.with(|t| t.iter().for_each(|o| o.set(0)));
}
/// Set the peak to what is live now and return that.
pub fn mark() -> isize {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
