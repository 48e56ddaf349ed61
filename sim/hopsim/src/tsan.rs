//! Atomic accesses of the crates under test arrive here (see rustc-wrap.sh): each
//! is a scheduling point, except relaxed or release read-modify-writes, which are
//! reference counting.
#![allow(improper_ctypes_definitions)]
use std::sync::atomic::*;

const ACQ: i32 = 2;
const ACQ_REL: i32 = 4;
const SEQ: i32 = 5;

#[inline]
fn rmw_point(order: i32) {
    if order == ACQ || order == ACQ_REL || order == SEQ {
        simcore::yield_atomic();
    }
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

macro_rules! width {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _o: i32) -> $t {
            simcore::yield_atomic();
            (*(p as *const $a)).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            simcore::yield_atomic();
            (*(p as *const $a)).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t {
            simcore::yield_atomic();
            (*(p as *const $a)).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, o: i32) -> $t {
            rmw_point(o);
            (*(p as *const $a)).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, o: i32) -> $t {
            rmw_point(o);
            (*(p as *const $a)).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, o: i32) -> $t {
            rmw_point(o);
            (*(p as *const $a)).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, o: i32) -> $t {
            rmw_point(o);
            (*(p as *const $a)).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, o: i32) -> $t {
            rmw_point(o);
            (*(p as *const $a)).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, o: i32) -> $t {
            rmw_point(o);
            (*(p as *const $a)).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _o: i32, _f: i32) -> $t {
            simcore::yield_atomic();
            match (*(p as *const $a)).compare_exchange(old, new, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    };
}
width!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
width!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
width!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
width!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

/// Keeps the symbols of this module in the binary.
pub fn link() -> usize {
    __tsan_init as *const () as usize
}
