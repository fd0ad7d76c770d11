//! `__tsan_*` entry points called by instrumented code (LLVM ThreadSanitizer pass), routed to the engine.
#![allow(clippy::missing_safety_doc)]
use crate::engine::{active, eng, fuel, yield_point};
use std::sync::atomic::*;

macro_rules! atomics {
    ($t:ty, $at:ty, $sz:expr, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $casv:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, mo: i32) -> $t {
            let at = &*(a as *const $at);
            if !active() {
                return at.load(Ordering::SeqCst);
            }
            yield_point();
            eng().a_load(a as usize, $sz, at.load(Ordering::SeqCst) as u64, mo) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, mo: i32) {
            let at = &*(a as *const $at);
            if !active() {
                return at.store(v, Ordering::SeqCst);
            }
            yield_point();
            eng().a_store(a as usize, $sz, at.load(Ordering::SeqCst) as u64, v as u64, mo);
            at.store(v, Ordering::SeqCst);
        }
        atomics!(@rmw $t, $at, $sz, $xchg, |_o, v| v);
        atomics!(@rmw $t, $at, $sz, $add, |o, v| o.wrapping_add(v));
        atomics!(@rmw $t, $at, $sz, $sub, |o, v| o.wrapping_sub(v));
        atomics!(@rmw $t, $at, $sz, $and, |o, v| o & v);
        atomics!(@rmw $t, $at, $sz, $or, |o, v| o | v);
        atomics!(@rmw $t, $at, $sz, $xor, |o, v| o ^ v);
        atomics!(@rmw $t, $at, $sz, $nand, |o, v| !(o & v));
        #[no_mangle]
        pub unsafe extern "C" fn $casv(a: *mut $t, c: $t, v: $t, mo: i32, fmo: i32) -> $t {
            let at = &*(a as *const $at);
            if active() {
                eng().cas_begin(a as usize, $sz, c as u64);
                yield_point();
            }
            let old = at.load(Ordering::SeqCst);
            let ok = old == c;
            if active() {
                eng().cas_end(ok);
                eng().a_rmw(a as usize, $sz, old as u64, if ok { Some(v as u64) } else { None }, if ok { mo } else { fmo });
            }
            if ok {
                at.store(v, Ordering::SeqCst);
            }
            old
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(a: *mut $t, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            let old = $casv(a, *c, v, mo, fmo);
            let ok = old == *c;
            *c = old;
            ok as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(a: *mut $t, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            $cass(a, c, v, mo, fmo)
        }
    };
    (@rmw $t:ty, $at:ty, $sz:expr, $name:ident, $f:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *mut $t, v: $t, mo: i32) -> $t {
            let at = &*(a as *const $at);
            if active() {
                yield_point();
            }
            let old = at.load(Ordering::SeqCst);
            let f: fn($t, $t) -> $t = $f;
            let new = f(old, v);
            if active() {
                eng().a_rmw(a as usize, $sz, old as u64, Some(new as u64), mo);
            }
            at.store(new, Ordering::SeqCst);
            old
        }
    };
}
atomics!(u8, AtomicU8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if active() {
        yield_point();
        eng().fence(mo);
    }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

#[inline(always)]
fn acc(a: usize, n: usize, w: u8) {
    if active() && n > 0 {
        fuel();
        eng().shadow_access(a, n, w);
    }
}

macro_rules! plain {
    ($($name:ident $n:expr, $w:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(a: usize) { acc(a, $n, $w) }
    )* };
}
plain! {
    __tsan_read1 1, 0; __tsan_read2 2, 0; __tsan_read4 4, 0; __tsan_read8 8, 0; __tsan_read16 16, 0;
    __tsan_write1 1, 1; __tsan_write2 2, 1; __tsan_write4 4, 1; __tsan_write8 8, 1; __tsan_write16 16, 1;
    __tsan_unaligned_read2 2, 0; __tsan_unaligned_read4 4, 0; __tsan_unaligned_read8 8, 0; __tsan_unaligned_read16 16, 0;
    __tsan_unaligned_write2 2, 1; __tsan_unaligned_write4 4, 1; __tsan_unaligned_write8 8, 1; __tsan_unaligned_write16 16, 1;
    __tsan_volatile_read1 1, 0; __tsan_volatile_read2 2, 0; __tsan_volatile_read4 4, 0; __tsan_volatile_read8 8, 0; __tsan_volatile_read16 16, 0;
    __tsan_volatile_write1 1, 1; __tsan_volatile_write2 2, 1; __tsan_volatile_write4 4, 1; __tsan_volatile_write8 8, 1; __tsan_volatile_write16 16, 1;
    __tsan_read_write1 1, 1; __tsan_read_write2 2, 1; __tsan_read_write4 4, 1; __tsan_read_write8 8, 1; __tsan_read_write16 16, 1;
    __tsan_unaligned_read_write2 2, 1; __tsan_unaligned_read_write4 4, 1; __tsan_unaligned_read_write8 8, 1; __tsan_unaligned_read_write16 16, 1;
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    acc(a, n, 0)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    acc(a, n, 1)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_a: usize, _v: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_a: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    acc(s as usize, n, 0);
    acc(d as usize, n, 1);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    acc(s as usize, n, 0);
    acc(d as usize, n, 1);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    acc(d as usize, n, 1);
    std::ptr::write_bytes(d, v as u8, n);
    d
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
unsafe fn raw(num: i64, a: usize, b: usize, c: usize, d: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
/// Virtual time: a millisecond per scheduling step (a thread can be held up anywhere), and what is slept. It never runs backwards.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut Timespec) -> i32 {
    if active() {
        if let Some((s, ns)) = eng().clock_base[(clk & 1) as usize] {
            *t = Timespec { s, ns };
        } else {
            raw(228, clk as usize, t as usize, 0, 0);
            eng().clock_base[(clk & 1) as usize] = Some(((*t).s, (*t).ns));
        }
        let v = eng().virtual_ns();
        (*t).ns += (v % 1_000_000_000) as i64;
        (*t).s += (v / 1_000_000_000) as i64 + (*t).ns / 1_000_000_000;
        (*t).ns %= 1_000_000_000;
        return 0;
    }
    raw(228, clk as usize, t as usize, 0, 0) as i32
}
/// sleeping is letting the others run
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, t: *const Timespec, rem: *mut Timespec) -> i32 {
    if active() {
        let mut d = (*t).s as i128 * 1_000_000_000 + (*t).ns as i128;
        if fl != 0 {
            let mut now = Timespec { s: 0, ns: 0 };
            clock_gettime(clk, &mut now);
            d -= now.s as i128 * 1_000_000_000 + now.ns as i128;
        }
        eng().slept(d.max(0) as u64);
        yield_point();
        return 0;
    }
    match raw(230, clk as usize, fl as usize, t as usize, rem as usize) {
        0 => 0,
        _ => *__errno_location(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Timespec, rem: *mut Timespec) -> i32 {
    if active() {
        return clock_nanosleep(1, 0, t, rem);
    }
    raw(35, t as usize, rem as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        yield_point();
        return 0;
    }
    raw(24, 0, 0, 0, 0) as i32
}

/// Interposed libc `syscall`: std's futex-based locks go through it; inside fibers a futex wait becomes a
/// scheduling decision instead of blocking the only OS thread.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a1: usize, a2: usize, a3: usize, a4: usize, a5: usize, a6: usize) -> i64 {
    const SYS_FUTEX: i64 = 202;
    if num == SYS_FUTEX && active() {
        let op = a2 & 0x7f;
        if op == 0 || op == 9 {
            let cur = (*(a1 as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != a3 as u32 {
                *__errno_location() = 11;
                return -1;
            }
            if a4 != 0 {
                // timed wait: report a timeout after letting others run
                eng().futexes = true;
                eng().sync_give();
                yield_point();
                eng().sync_take();
                *__errno_location() = 110;
                return -1;
            }
            eng().futex_wait(a1);
            return 0;
        }
        if op == 1 || op == 10 {
            return eng().futex_wake(a1);
        }
    }
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") num => ret, in("rdi") a1, in("rsi") a2, in("rdx") a3,
        in("r10") a4, in("r8") a5, in("r9") a6, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&ret) {
        *__errno_location() = (-ret) as i32;
        return -1;
    }
    ret
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
