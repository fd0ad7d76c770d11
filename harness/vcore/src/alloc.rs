//! Tracking global allocator: everything allocated by the crate under test and the elements while tracking
//! is on is registered; whatever is still registered when everything was dropped has leaked. Every block ends in
//! a red zone. Freed blocks are poisoned and kept until the end of the case: a second release and writes into
//! released memory are noticed. With the engine active the events also feed the race detector.
use crate::engine::{active, eng};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct TrackAlloc;

static mut GUARD: u32 = 0;
static mut TRACK: bool = false;
static mut BYTES: usize = 0;

const CAP: usize = 1 << 13;
#[derive(Clone, Copy)]
struct Ent {
    addr: usize, // 0 empty, 1 tombstone
    size: usize,
    seq: u32,
    align: u32,
}
static mut TAB: [Ent; CAP] = [Ent { addr: 0, size: 0, seq: 0, align: 0 }; CAP];
static mut USED: usize = 0; // non-empty slots (incl. tombstones)
static mut LIVE: usize = 0;
static mut SEQ: u32 = 0;
static mut OVERFLOWED: bool = false;
static mut BAD_FREE: u32 = 0;
static mut CORRUPT: [u32; 3] = [0; 3];

/// bytes of red zone behind every block
const RZ: usize = 16;
const ZONE: u8 = 0xC3;
const QCAP: usize = 4096;
const QBYTES: usize = 8 << 20;
/// released blocks, not yet given back
static mut QUAR: [(usize, usize, usize); QCAP] = [(0, 0, 0); QCAP];
static mut QN: usize = 0;
static mut QB: usize = 0;

pub struct RtGuard(());
#[inline(never)]
pub fn rt_guard() -> RtGuard {
    unsafe { GUARD += 1 };
    RtGuard(())
}
impl Drop for RtGuard {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { GUARD -= 1 };
    }
}

pub fn track_on() {
    unsafe {
        if USED > 0 {
            let t = &raw mut TAB;
            for i in 0..CAP {
                (*t)[i].addr = 0;
            }
        }
        USED = 0;
        LIVE = 0;
        SEQ = 0;
        BYTES = 0;
        OVERFLOWED = false;
        BAD_FREE = 0;
        flush();
        CORRUPT = [0; 3];
        TRACK = true;
    }
}

pub struct Leaks {
    /// (allocation number, size)
    pub live: Vec<(u32, usize)>,
    pub allocs: u32,
    pub overflowed: bool,
    pub bad_free: u32,
    /// written behind its end; released twice; written after its release
    pub corrupt: [u32; 3],
}

#[inline]
pub fn guarded() -> bool {
    unsafe { GUARD > 0 }
}

pub fn track_off() -> Leaks {
    unsafe {
        TRACK = false;
        let _g = rt_guard();
        let mut v = Vec::new();
        let t = &raw const TAB;
        if LIVE > 0 {
            for i in 0..CAP {
                let e = (*t)[i];
                if e.addr > 1 {
                    v.push((e.seq, e.size));
                }
            }
        }
        v.sort();
        flush();
        Leaks { live: v, allocs: SEQ, overflowed: OVERFLOWED, bad_free: BAD_FREE, corrupt: CORRUPT }
    }
}

/// gives the kept blocks back
unsafe fn flush() {
    let q = &raw const QUAR;
    for i in 0..QN {
        let (p, size, align) = (*q)[i];
        let b = std::slice::from_raw_parts(p as *const u8, size);
        if b.iter().any(|x| *x != 0xDD) {
            CORRUPT[2] += 1;
        }
        System.dealloc(p as *mut u8, wide(Layout::from_size_align_unchecked(size, align)));
    }
    QN = 0;
    QB = 0;
}

#[inline(always)]
fn wide(l: Layout) -> Layout {
    // (a size that overflows fails in the system allocator)
    unsafe { Layout::from_size_align_unchecked(l.size().saturating_add(RZ).min(isize::MAX as usize & !(l.align() - 1)), l.align()) }
}
#[inline(always)]
unsafe fn zone(p: *mut u8, size: usize) {
    (p.add(size) as *mut [u8; RZ]).write_unaligned([ZONE; RZ]);
}

#[inline]
fn slot(addr: usize) -> usize {
    (addr >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 13)
}

unsafe fn insert(addr: usize, l: Layout) {
    let size = l.size();
    SEQ += 1;
    if USED * 4 > CAP * 3 {
        OVERFLOWED = true;
        return;
    }
    let t = &raw mut TAB;
    let mut h = slot(addr);
    while (*t)[h].addr > 1 {
        h = (h + 1) & (CAP - 1);
    }
    if (*t)[h].addr == 0 {
        USED += 1;
    }
    (*t)[h] = Ent { addr, size, seq: SEQ, align: l.align() as u32 };
    LIVE += 1;
    BYTES += size;
}

unsafe fn remove(addr: usize, l: Layout) -> bool {
    let t = &raw mut TAB;
    let mut h = slot(addr);
    let mut n = 0;
    while (*t)[h].addr != 0 && n < CAP {
        if (*t)[h].addr == addr {
            if (*t)[h].size != l.size() || (*t)[h].align != l.align() as u32 {
                // a block is released with another layout than it was requested with
                BAD_FREE += 1;
            }
            if ((addr + (*t)[h].size) as *const [u8; RZ]).read_unaligned() != [ZONE; RZ] {
                CORRUPT[0] += 1;
            }
            BYTES -= (*t)[h].size;
            (*t)[h].addr = 1;
            LIVE -= 1;
            return true;
        }
        h = (h + 1) & (CAP - 1);
        n += 1;
    }
    false
}

unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > isize::MAX as usize - 2 * RZ - l.align() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(wide(l));
        if p.is_null() {
            return p;
        }
        zone(p, l.size());
        if TRACK && GUARD == 0 {
            insert(p as usize, l);
            if l.size() <= 1 << 16 {
                // contents of fresh memory are unspecified
                std::ptr::write_bytes(p, 0xA5, l.size());
            }
            if active() {
                eng().clear_range(p as usize, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK && GUARD == 0 {
            if active() {
                eng().shadow_access(p as usize, l.size(), 1);
                eng().clear_range(p as usize, l.size());
            }
            let bad = BAD_FREE;
            if remove(p as usize, l) {
                if BAD_FREE == bad && l.size() <= 1 << 16 {
                    std::ptr::write_bytes(p, 0xDD, l.size());
                    if QN < QCAP && QB < QBYTES {
                        let q = &raw mut QUAR;
                        (*q)[QN] = (p as usize, l.size(), l.align());
                        QN += 1;
                        QB += l.size();
                        return;
                    }
                }
                if BAD_FREE != bad {
                    // with this layout it cannot be given back
                    return;
                }
            } else if QN > 0 && !OVERFLOWED {
                let q = &raw const QUAR;
                if (0..QN).any(|i| (*q)[i].0 == p as usize) {
                    CORRUPT[1] += 1;
                    return;
                }
            }
        }
        System.dealloc(p, wide(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if TRACK && GUARD == 0 {
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            if n > isize::MAX as usize - 2 * RZ - l.align() {
                return std::ptr::null_mut();
            }
            let q = System.realloc(p, wide(l), wide(nl).size());
            if !q.is_null() {
                zone(q, n);
            }
            q
        }
    }
}
