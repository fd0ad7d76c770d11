//! Deterministic execution engine: user-level threads ("fibers") on one OS thread, a scheduler that owns
//! every atomic step, a C11-style store-history memory model and a vector-clock race detector.
//!
//! The engine is fed by the `__tsan_*` entry points in `tsan.rs` (the crate under test and the
//! interpreter are compiled with LLVM's ThreadSanitizer pass) and by explicit yield points of the harness
//! (probe iterator, closures, clones). With the engine inactive everything degrades to the plain operation.

use crate::hist;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::arch::naked_asm;
use std::cell::UnsafeCell;

pub const MAXT: usize = 14;
/// thread id used in histories for code that runs outside of fibers
pub const MAIN: u8 = 99;
pub type Vc = [u32; MAXT];
const STACK: usize = 512 * 1024;
/// steps without progress after which scheduling becomes fair (round robin, fresh reads)
const FAIR_AFTER: u64 = 1500;
/// further steps without progress, under fair scheduling, after which the run counts as hung
const HANG_AFTER: u64 = 12_000;
/// plain accesses without progress after which a computation counts as endless
const MAX_WORK: u64 = 60_000_000;
/// consecutive loads of one fiber without any write anywhere after which it counts as waiting
const SPIN_LOADS: u32 = 4;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// uniform choice at each step, keeping the current thread with probability stay/16
    Random { stay: u8 },
    /// PCT-like: random priorities, `depth` priority change points within the first `len` steps
    Pct { depth: u8, len: u32 },
    /// explicit run-length encoded schedule (thread, steps); default policy when exhausted
    Explicit { segs: Vec<(u8, u32)>, reads: Vec<u8> },
    /// enumerate all schedules with at most `bound` preemptions, up to `cap` executions
    Dfs { bound: u8, cap: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub mode: Mode,
    /// probability (of 16) that a load that may legally be stale is stale; 0 = sequentially consistent values
    pub stale: u8,
    /// (thread, atomic operation, steps): the thread is not scheduled for that many steps of the others from
    /// that operation on, however long they wait for it
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nap: Option<(u8, u64, u32)>,
    /// this thread's compare-exchanges are held up until they fail, as long as the others keep writing
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub harass: Option<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Empty,
    Runnable,
    Blocked(usize),
    Done,
}

pub struct Fiber {
    rsp: usize,
    st: St,
    entry: Option<Box<dyn FnOnce()>>,
    pub vc: Vc,
    acq_pending: Vc,
    rel_fence: Vc,
    atomics: u64,
    loads: u32,
    loads_version: u64,
    prio: u32,
    /// thread-pointer value of the OS thread whose thread-local storage this fiber uses
    fs: usize,
    stack_lo: usize,
    stack_hi: usize,
    pub pending_start: Option<usize>,
    frozen: bool,
    /// the compare-exchange it is about to execute: address, size, expected value
    cas: Option<(usize, u8, u64)>,
}

#[derive(Clone)]
struct Store {
    val: u64,
    tid: u8, // 255: initial
    epoch: u32,
    rel: Vc,
}

struct AtomLoc {
    addr: usize,
    size: u8,
    stores: Vec<Store>,
    seen: [u32; MAXT],
}

#[derive(Clone, Copy, Default)]
struct Acc {
    mask: u8,
    tid: u8,
    flags: u8, // 1 write, 2 atomic
    epoch: u32,
}
const NACC: usize = 8;
#[derive(Clone, Copy)]
struct Cell {
    key: usize,
    gen: u32,
    n: u8,
    acc: [Acc; NACC],
}

pub struct DfsStep {
    pub choice: u8,
    pub options: Vec<u8>,
    pub preempt_before: u8,
    /// thread that was current and still enabled at this step (255: none)
    pub cur: u8,
}

pub struct Engine {
    pub active: bool,
    pub cur: usize,
    n: usize,
    fibers: Vec<Fiber>,
    main_rsp: usize,
    pub stamp: u64,
    pub steps: u64,
    last_progress: u64,
    /// further steps without progress that a run of this size may need (user code called per element)
    pub allowance: u64,
    write_version: u64,
    mode: Mode,
    seg_i: usize,
    seg_left: u32,
    rng: Rng,
    rng_reads: Rng,
    stale: u8,
    read_i: usize,
    pub trace: Vec<(u8, u32)>,
    pub trace_reads: Vec<u8>,
    change_points: Vec<u64>,
    low_prio: u32,
    // dfs
    pub dfs_prefix: Vec<u8>,
    pub dfs_steps: Vec<DfsStep>,
    dfs_preempts: u8,
    freeze: Option<(u8, u64)>,
    nap: Option<(u8, u64, u32)>,
    nap_until: Option<u64>,
    harass: Option<u8>,
    harassed: u32,
    /// compare-exchanges that failed because they were held up
    pub harass_fails: u64,
    /// steps the other threads made during the nap
    pub napped: u64,
    pub freeze_hit: bool,
    pub freeze_pending_others: bool,
    pub hung: bool,
    pub switches: u64,
    pub atomic_ops: u64,
    pub stale_reads: u64,
    atoms: Vec<AtomLoc>,
    shadow: Vec<Cell>,
    gen: u32,
    shadow_used: usize,
    chans: Vec<Vc>,
    pub fair_entered: u64,
    /// memory accesses since the last progress
    work: u64,
    main_fs: usize,
    replaced: u32,
    slept_ns: u64,
    /// some lock, condition variable or parked thread has been used in this process
    pub futexes: bool,
    pub clock_base: [Option<(i64, i64)>; 2],
}

struct Global(UnsafeCell<Option<Box<Engine>>>);
unsafe impl Sync for Global {}
static ENG: Global = Global(UnsafeCell::new(None));

static mut ACTIVE: bool = false;

#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

const SHADOW_BITS: u32 = 14;

#[allow(clippy::mut_from_ref)]
pub fn eng() -> &'static mut Engine {
    unsafe {
        let o = &mut *ENG.0.get();
        if o.is_none() {
            let _g = crate::alloc::rt_guard();
            *o = Some(Box::new(Engine {
                active: false,
                cur: 0,
                n: 0,
                fibers: Vec::new(),
                main_rsp: 0,
                stamp: 0,
                steps: 0,
                last_progress: 0,
                allowance: 0,
                write_version: 0,
                mode: Mode::Random { stay: 0 },
                seg_i: 0,
                seg_left: 0,
                rng: Rng::new(0),
                rng_reads: Rng::new(0),
                stale: 0,
                read_i: 0,
                trace: Vec::with_capacity(4096),
                trace_reads: Vec::with_capacity(4096),
                change_points: Vec::new(),
                low_prio: 0,
                dfs_prefix: Vec::new(),
                dfs_steps: Vec::new(),
                dfs_preempts: 0,
                freeze: None,
                nap: None,
                nap_until: None,
                harass: None,
                harassed: 0,
                harass_fails: 0,
                napped: 0,
                freeze_hit: false,
                freeze_pending_others: false,
                hung: false,
                switches: 0,
                atomic_ops: 0,
                stale_reads: 0,
                atoms: Vec::new(),
                shadow: vec![
                    Cell {
                        key: 0,
                        gen: 0,
                        n: 0,
                        acc: [Acc::default(); NACC]
                    };
                    1 << SHADOW_BITS
                ],
                gen: 1,
                shadow_used: 0,
                chans: vec![[0; MAXT]; 8],
                fair_entered: 0,
                work: 0,
                main_fs: 0,
                replaced: 0,
                slept_ns: 0,
                clock_base: [None; 2],
                futexes: false,
            }));
        }
        o.as_mut().unwrap()
    }
}

#[unsafe(naked)]
unsafe extern "C" fn ctx_switch(_from: *mut usize, _to: usize) {
    naked_asm!(
        "push rbp",
        "push rbx",
        "push r12",
        "push r13",
        "push r14",
        "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15",
        "pop r14",
        "pop r13",
        "pop r12",
        "pop rbx",
        "pop rbp",
        "ret",
    )
}

/// Every fiber runs with the thread-local storage of an OS thread of its own (parked for ever), so that thread
/// identities, thread-locals and panic counts are as separate as those of real threads.
fn helper_tls() -> usize {
    use std::sync::atomic::{AtomicUsize, Ordering};
    extern "C" {
        fn pause() -> i32;
        fn mallopt(p: i32, v: i32) -> i32;
    }
    static OUT: AtomicUsize = AtomicUsize::new(0);
    let _g = crate::alloc::rt_guard();
    unsafe { mallopt(-8, 1) }; // one arena for all
    OUT.store(0, Ordering::SeqCst);
    let h = std::thread::Builder::new().stack_size(1 << 16).spawn(|| {
        // materializes the handle of this thread
        let _ = std::thread::current().id();
        OUT.store(get_fs(), Ordering::SeqCst);
        loop {
            unsafe { pause() };
        }
    });
    match h {
        Ok(h) => {
            while OUT.load(Ordering::SeqCst) == 0 {
                std::thread::yield_now();
            }
            std::mem::forget(h);
            OUT.load(Ordering::SeqCst)
        }
        // no more threads: share
        Err(_) => get_fs(),
    }
}
#[inline(always)]
fn get_fs() -> usize {
    let v: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) v, options(nostack, preserves_flags)) };
    v
}
#[inline(always)]
unsafe fn set_fs(v: usize) {
    static mut WAY: u8 = 0;
    extern "C" {
        fn getauxval(t: u64) -> u64;
    }
    if WAY == 0 {
        // bit 1 of AT_HWCAP2: the instruction may be used
        WAY = if getauxval(26) & 2 != 0 { 1 } else { 2 };
    }
    if WAY == 1 {
        std::arch::asm!("wrfsbase {}", in(reg) v, options(nostack, preserves_flags));
    } else {
        let _r: i64;
        std::arch::asm!("syscall", inlateout("rax") 158i64 => _r, in("rdi") 0x1002, in("rsi") v, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
}

extern "C" fn fiber_main() -> ! {
    let e = eng();
    let f = e.fibers[e.cur].entry.take().expect("entry");
    // a panic that escapes the interpreter's own catch_unwind is a harness error
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        eprintln!("HARNESS: panic escaped a fiber");
        std::process::abort();
    }
    let e = eng();
    e.fibers[e.cur].st = St::Done;
    e.progress();
    e.leave();
    unreachable!()
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

impl Engine {
    #[inline]
    pub fn tick(&mut self) -> u64 {
        self.stamp += 1;
        self.stamp
    }

    pub fn progress(&mut self) {
        self.last_progress = self.steps;
        self.work = 0;
        if self.active {
            self.fibers[self.cur].loads = 0;
        }
    }

    pub fn thread(&self) -> u8 {
        if self.active {
            self.cur as u8
        } else {
            MAIN
        }
    }

    pub fn vc(&self) -> Vc {
        if self.active {
            self.fibers[self.cur].vc
        } else {
            [0; MAXT]
        }
    }

    pub fn fiber(&mut self) -> Option<&mut Fiber> {
        if self.active {
            let c = self.cur;
            Some(&mut self.fibers[c])
        } else {
            None
        }
    }

    fn reset(&mut self, n: usize, sched: &Sched, freeze: Option<(u8, u64)>) {
        self.n = n;
        self.cur = 0;
        self.steps = 0;
        self.last_progress = 0;
        self.write_version = 0;
        self.mode = sched.mode.clone();
        self.seg_i = 0;
        self.seg_left = match &self.mode {
            Mode::Explicit { segs, .. } => segs.first().map(|x| x.1).unwrap_or(0),
            _ => 0,
        };
        self.rng = Rng::new(sched.seed);
        self.rng_reads = Rng::new(sched.seed ^ 0xDEAD_BEEF);
        self.stale = sched.stale;
        self.read_i = 0;
        self.trace.clear();
        self.trace_reads.clear();
        self.change_points.clear();
        self.low_prio = 1000;
        self.dfs_steps.clear();
        self.dfs_preempts = 0;
        self.freeze = freeze;
        self.nap = if matches!(sched.mode, Mode::Dfs { .. }) { None } else { sched.nap };
        self.nap_until = None;
        self.harass = if matches!(sched.mode, Mode::Dfs { .. } | Mode::Explicit { .. }) { None } else { sched.harass };
        self.harassed = 0;
        self.harass_fails = 0;
        self.napped = 0;
        self.freeze_hit = false;
        self.freeze_pending_others = false;
        self.hung = false;
        self.switches = 0;
        self.atomic_ops = 0;
        self.stale_reads = 0;
        self.fair_entered = 0;
        self.work = 0;
        self.slept_ns = 0;
        self.clock_base = [None; 2];
        self.atoms.clear();
        self.new_gen();
        for c in self.chans.iter_mut() {
            *c = [0; MAXT];
        }
        if let Mode::Pct { depth, len } = self.mode {
            for _ in 0..depth {
                let p = self.rng.below(len.max(1) as u64) + 1;
                self.change_points.push(p);
            }
        }
        while self.fibers.len() < MAXT {
            let p = unsafe { mmap(std::ptr::null_mut(), STACK, 3, 0x22, -1, 0) };
            assert!(p as isize != -1, "mmap");
            self.fibers.push(Fiber {
                rsp: 0,
                st: St::Empty,
                entry: None,
                vc: [0; MAXT],
                acq_pending: [0; MAXT],
                rel_fence: [0; MAXT],
                atomics: 0,
                loads: 0,
                loads_version: 0,
                prio: 0,
                fs: helper_tls(),
                stack_lo: p as usize,
                stack_hi: p as usize + STACK,
                pending_start: None,
                frozen: false,
                cas: None,
            });
        }
    }

    fn new_gen(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            for c in self.shadow.iter_mut() {
                c.gen = 0;
            }
            self.gen = 1;
        }
        self.shadow_used = 0;
    }

    /// Runs the closures as fibers until all are done or the run is hung. Returns true if hung (then the
    /// fibers' stacks are abandoned and nothing they borrow may be touched again).
    pub fn run(
        &mut self,
        fs: Vec<Box<dyn FnOnce() + '_>>,
        sched: &Sched,
        freeze: Option<(u8, u64)>,
    ) -> bool {
        assert!(fs.len() <= MAXT);
        let n = fs.len();
        {
            let _g = crate::alloc::rt_guard();
            self.reset(n, sched, freeze);
            // lowest priorities first: a random permutation
            let mut perm: Vec<u32> = (0..n as u32).collect();
            for i in (1..n).rev() {
                let j = self.rng.usize(i + 1);
                perm.swap(i, j);
            }
            for (t, f) in fs.into_iter().enumerate() {
                let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
                let fb = &mut self.fibers[t];
                fb.entry = Some(f);
                fb.st = St::Runnable;
                fb.vc = [0; MAXT];
                fb.vc[t] = 1;
                fb.acq_pending = [0; MAXT];
                fb.rel_fence = [0; MAXT];
                fb.atomics = 0;
                fb.loads = 0;
                fb.loads_version = 0;
                fb.prio = 10_000 + perm[t];
                fb.pending_start = None;
                fb.frozen = false;
                fb.cas = None;
                let mut sp = fb.stack_hi;
                sp -= 64;
                sp &= !15;
                unsafe {
                    let p = sp as *mut usize;
                    // layout popped by ctx_switch: r15 r14 r13 r12 rbx rbp ret
                    let base = p.sub(8);
                    for i in 0..6 {
                        *base.add(i) = 0;
                    }
                    *base.add(6) = fiber_main as *const () as usize;
                    *base.add(7) = 0;
                    fb.rsp = base as usize;
                }
            }
            for t in n..MAXT {
                self.fibers[t].st = St::Empty;
            }
        }
        if n == 0 {
            return false;
        }
        if self.futexes {
            // no parking token and no parked state of an earlier execution
            let _g = crate::alloc::rt_guard();
            self.main_fs = get_fs();
            for t in 0..n {
                unsafe { set_fs(self.fibers[t].fs) };
                std::thread::park_timeout(std::time::Duration::ZERO);
                unsafe { set_fs(self.main_fs) };
            }
        }
        self.active = true;
        unsafe { ACTIVE = true };
        let first = self.pick(true);
        if let Some(t) = first {
            self.cur = t;
            self.main_fs = get_fs();
            let from = &mut self.main_rsp as *mut usize;
            unsafe { self.go(from, t) };
        }
        let e = eng();
        e.active = false;
        unsafe { ACTIVE = false };
        for t in 0..e.n {
            if e.fibers[t].st != St::Done {
                // abandoned: its thread-local storage must not remember a panic in progress
                unsafe { set_fs(e.fibers[t].fs) };
                let p = std::thread::panicking();
                unsafe { set_fs(e.main_fs) };
                if p && e.replaced < 1000 {
                    e.replaced += 1;
                    let _g = crate::alloc::rt_guard();
                    e.fibers[t].fs = helper_tls();
                }
            }
        }
        e.hung
    }

    /// current fiber cannot continue (done, blocked or hang declared)
    fn leave(&mut self) {
        let next = if self.hung { None } else { self.pick(true) };
        let me = self.cur;
        let from = &mut self.fibers[me].rsp as *mut usize;
        match next {
            Some(t) => {
                self.cur = t;
                self.switches += 1;
                unsafe { self.go(from, t) };
            }
            None => {
                if !self.hung && self.fibers[..self.n].iter().any(|f| f.st != St::Done) {
                    self.declare_hang("every unfinished thread is blocked");
                }
                unsafe { self.go_main(from) };
            }
        }
    }

    /// continues fiber `t`
    #[inline(always)]
    unsafe fn go(&self, from: *mut usize, t: usize) {
        let to = self.fibers[t].rsp;
        set_fs(self.fibers[t].fs);
        ctx_switch(from, to);
    }
    /// continues the main context
    #[inline(always)]
    unsafe fn go_main(&self, from: *mut usize) {
        let to = self.main_rsp;
        set_fs(self.main_fs);
        ctx_switch(from, to);
    }

    fn declare_hang(&mut self, why: &str) {
        self.hung = true;
        let mut waiting = Vec::new();
        for t in 0..self.n {
            let f = &self.fibers[t];
            if f.st != St::Done {
                waiting.push(format!(
                    "t{}{}{}",
                    t,
                    if f.frozen { "(frozen)" } else { "" },
                    if matches!(f.st, St::Blocked(_)) { "(blocked on a lock)" } else { "" }
                ));
            }
        }
        hist::hist().hang = Some(format!("{}; unfinished: {}", why, waiting.join(" ")));
    }

    /// would its compare-exchange succeed now?
    fn held(&self, t: usize) -> bool {
        if self.harass != Some(t as u8) {
            return false;
        }
        match self.fibers[t].cas {
            Some((a, size, want)) => unsafe {
                let now = match size {
                    1 => *(a as *const u8) as u64,
                    2 => *(a as *const u16) as u64,
                    4 => *(a as *const u32) as u64,
                    _ => *(a as *const u64),
                };
                now == want
            },
            None => false,
        }
    }

    /// before / after a compare-exchange of the current fiber
    #[inline(always)]
    pub fn cas_begin(&mut self, a: usize, size: u8, want: u64) {
        if self.harass == Some(self.cur as u8) {
            self.fibers[self.cur].cas = Some((a, size, want));
        }
    }
    #[inline(always)]
    pub fn cas_end(&mut self, ok: bool) {
        if self.fibers[self.cur].cas.take().is_some() && !ok {
            self.harass_fails += 1;
        }
    }

    fn enabled(&self, t: usize) -> bool {
        self.fibers[t].st == St::Runnable && !self.fibers[t].frozen && !self.held(t) && !(self.nap_until.is_some() && self.nap.is_some_and(|x| x.0 as usize == t))
    }

    fn spinning(&self, t: usize) -> bool {
        let f = &self.fibers[t];
        f.loads >= SPIN_LOADS && f.loads_version == self.write_version
    }

    /// chooses the fiber that makes the next step; `must_leave`: the current one cannot continue
    fn pick(&mut self, must_leave: bool) -> Option<usize> {
        let n = self.n;
        let cur = self.cur;
        if let Some((t, k)) = self.freeze {
            let t = t as usize;
            if t < n && !self.freeze_hit && self.fibers[t].st == St::Runnable && self.fibers[t].atomics >= k {
                self.fibers[t].frozen = true;
                self.freeze_hit = true;
                self.last_progress = self.steps;
                self.freeze_pending_others =
                    (0..n).any(|u| u != t && self.fibers[u].st != St::Done && self.fibers[u].st != St::Empty);
            }
        }
        match (self.nap, self.nap_until) {
            (Some((t, k, d)), None) => {
                let t = t as usize;
                if t < n && self.fibers[t].st == St::Runnable && self.fibers[t].atomics >= k {
                    self.nap_until = Some(self.steps + d as u64);
                }
            }
            (Some(_), Some(u)) if self.steps >= u => {
                self.nap = None;
                self.nap_until = None;
                self.last_progress = self.steps;
            }
            (Some(_), Some(_)) => {
                self.napped += 1;
                self.last_progress = self.steps;
                self.work = 0;
            }
            _ => {}
        }
        if let Some(v) = self.harass {
            // only as long as somebody else gets on
            let v = v as usize;
            if v >= n || self.harassed > 4000 || self.steps - self.last_progress > 60 || (self.held(v) && !(0..n).any(|t| self.enabled(t) && !self.spinning(t) && !(must_leave && t == cur && self.fibers[t].st != St::Runnable))) {
                self.harass = None;
            } else if self.held(v) {
                self.harassed += 1;
            }
        }
        let mut en = [0usize; MAXT];
        let mut m = 0;
        for t in 0..n {
            if self.enabled(t) && !(must_leave && t == cur && self.fibers[t].st != St::Runnable) {
                en[m] = t;
                m += 1;
            }
        }
        if m == 0 && self.nap_until.take().is_some() {
            let t = self.nap.take().unwrap().0 as usize;
            self.last_progress = self.steps;
            if self.enabled(t) {
                self.note(t);
                return Some(t);
            }
        }
        if m == 0 {
            // everybody else finished: thaw the frozen thread
            let mut any = None;
            if self.fibers[..n].iter().all(|f| !matches!(f.st, St::Blocked(_))) {
                for t in 0..n {
                    if self.fibers[t].frozen && self.fibers[t].st == St::Runnable {
                        self.fibers[t].frozen = false;
                        any = Some(t);
                    }
                }
            }
            if let Some(t) = any {
                self.last_progress = self.steps;
                self.note(t);
                return Some(t);
            }
            return None;
        }
        let stuck = self.steps - self.last_progress;
        if stuck > FAIR_AFTER + HANG_AFTER + self.allowance {
            self.declare_hang("no thread makes progress under a fair schedule");
            return None;
        }
        let cur_ok = !must_leave && self.enabled(cur);
        let t = if stuck > FAIR_AFTER {
            self.fair_entered += 1;
            // fair round robin
            let mut t = (cur + 1) % n;
            while !self.enabled(t) {
                t = (t + 1) % n;
            }
            t
        } else {
            // prefer threads that are not waiting
            let mut ns = [0usize; MAXT];
            let mut k = 0;
            for &t in &en[..m] {
                if !self.spinning(t) {
                    ns[k] = t;
                    k += 1;
                }
            }
            let (opts, k) = if k > 0 { (ns, k) } else { (en, m) };
            let cur_in = cur_ok && opts[..k].contains(&cur);
            if k == 1 && !matches!(self.mode, Mode::Explicit { .. }) {
                opts[0]
            } else {
                self.choose(&opts[..k], cur_in, &en[..m])
            }
        };
        self.note(t);
        Some(t)
    }

    fn note(&mut self, t: usize) {
        let _g = crate::alloc::rt_guard();
        match self.trace.last_mut() {
            Some(l) if l.0 == t as u8 => l.1 += 1,
            _ => self.trace.push((t as u8, 1)),
        }
    }

    fn choose(&mut self, opts: &[usize], cur_in: bool, en: &[usize]) -> usize {
        let cur = self.cur;
        match &self.mode {
            Mode::Random { stay } => {
                if cur_in && *stay > 0 && self.rng.chance(*stay as u64, 16) {
                    return cur;
                }
                opts[self.rng.usize(opts.len())]
            }
            Mode::Pct { .. } => {
                if self.change_points.contains(&self.steps) && cur_in {
                    self.low_prio -= 1;
                    self.fibers[cur].prio = self.low_prio;
                }
                *opts.iter().max_by_key(|t| self.fibers[**t].prio).unwrap()
            }
            Mode::Explicit { segs, .. } => {
                loop {
                    if self.seg_i >= segs.len() {
                        break;
                    }
                    if self.seg_left == 0 {
                        self.seg_i += 1;
                        self.seg_left = segs.get(self.seg_i).map(|x| x.1).unwrap_or(0);
                        continue;
                    }
                    let t = segs[self.seg_i].0 as usize;
                    if en.contains(&t) {
                        self.seg_left -= 1;
                        return t;
                    }
                    self.seg_left = 0;
                }
                if cur_in {
                    cur
                } else {
                    // next enabled after cur
                    let mut t = (cur + 1) % self.n;
                    while !opts.contains(&t) {
                        t = (t + 1) % self.n;
                    }
                    t
                }
            }
            Mode::Dfs { .. } => {
                let _g = crate::alloc::rt_guard();
                let i = self.dfs_steps.len();
                let mut options: Vec<u8> = Vec::with_capacity(opts.len());
                if cur_in {
                    options.push(cur as u8);
                }
                for &t in opts {
                    if !(cur_in && t == cur) {
                        options.push(t as u8);
                    }
                }
                let c = match self.dfs_prefix.get(i) {
                    Some(c) if options.contains(c) => *c,
                    _ => options[0],
                };
                let pb = self.dfs_preempts;
                if cur_in && c != cur as u8 {
                    self.dfs_preempts += 1;
                }
                self.dfs_steps.push(DfsStep {
                    choice: c,
                    options,
                    preempt_before: pb,
                    cur: if cur_in { cur as u8 } else { 255 },
                });
                c as usize
            }
        }
    }

    fn switch_to(&mut self, t: usize) {
        let me = self.cur;
        self.cur = t;
        self.switches += 1;
        let from = &mut self.fibers[me].rsp as *mut usize;
        unsafe { self.go(from, t) };
    }

    // ---------------------------------------------------------------- memory model

    fn atom(&mut self, addr: usize, size: u8, real: u64) -> usize {
        for i in 0..self.atoms.len() {
            if self.atoms[i].addr == addr && self.atoms[i].size == size {
                let a = &mut self.atoms[i];
                let last = a.stores.last().unwrap().val;
                if last != real {
                    // written behind our back (uninstrumented code): resynchronise conservatively
                    let mut all = [0; MAXT];
                    for f in &self.fibers[..self.n] {
                        join(&mut all, &f.vc);
                    }
                    a.stores.push(Store { val: real, tid: 255, epoch: 0, rel: all });
                    let l = (a.stores.len() - 1) as u32;
                    a.seen = [l; MAXT];
                }
                return i;
            }
        }
        let _g = crate::alloc::rt_guard();
        let mut stores = Vec::with_capacity(64);
        stores.push(Store { val: real, tid: 255, epoch: 0, rel: [0; MAXT] });
        self.atoms.push(AtomLoc { addr, size, stores, seen: [0; MAXT] });
        self.atoms.len() - 1
    }

    fn forget_atoms(&mut self, addr: usize, size: usize) {
        if self.atoms.is_empty() {
            return;
        }
        self.atoms
            .retain(|a| a.addr + a.size as usize <= addr || addr + size <= a.addr);
    }

    fn bump(&mut self) {
        let c = self.cur;
        self.fibers[c].vc[c] += 1;
    }

    fn pre_atomic(&mut self) {
        let c = self.cur;
        self.atomic_ops += 1;
        self.fibers[c].atomics += 1;
        let st = self.tick();
        if let Some(pid) = self.fibers[c].pending_start.take() {
            let vc = self.fibers[c].vc;
            hist::started(pid, st, vc);
        }
    }

    pub fn a_load(&mut self, addr: usize, size: u8, real: u64, mo: i32) -> u64 {
        self.pre_atomic();
        let t = self.cur;
        let i = self.atom(addr, size, real);
        self.shadow_access(addr, size as usize, 2);
        let latest = self.atoms[i].stores.len() - 1;
        let mut lo = self.atoms[i].seen[t] as usize;
        let vc = self.fibers[t].vc;
        let fresh = self.stale == 0 || mo == 5 || self.steps - self.last_progress > FAIR_AFTER;
        let mut k = latest;
        if !fresh && lo < latest {
            let stores = &self.atoms[i].stores;
            let mut j = latest;
            while j > lo {
                let s = &stores[j];
                if s.tid == 255 || s.epoch <= vc[s.tid as usize] {
                    lo = j;
                    break;
                }
                j -= 1;
            }
            if lo < latest {
                let back = match &self.mode {
                    Mode::Explicit { reads, .. } => {
                        let b = reads.get(self.read_i).copied().unwrap_or(0);
                        self.read_i += 1;
                        (b as usize).min(latest - lo)
                    }
                    _ => {
                        if self.rng_reads.chance(self.stale as u64, 16) {
                            1 + self.rng_reads.usize(latest - lo)
                        } else {
                            0
                        }
                    }
                };
                let _g = crate::alloc::rt_guard();
                self.trace_reads.push(back as u8);
                if back > 0 {
                    self.stale_reads += 1;
                }
                k = latest - back;
            }
        }
        self.atoms[i].seen[t] = k as u32;
        let s = &self.atoms[i].stores[k];
        let val = s.val;
        let rel = s.rel;
        let f = &mut self.fibers[t];
        if mo == 0 {
            join(&mut f.acq_pending, &rel);
        } else {
            join(&mut f.vc, &rel);
        }
        if f.loads_version == self.write_version {
            f.loads += 1;
        } else {
            f.loads_version = self.write_version;
            f.loads = 1;
        }
        self.bump();
        val
    }

    fn release_clock(&self, t: usize, mo: i32) -> Vc {
        if mo == 3 || mo == 4 || mo == 5 {
            self.fibers[t].vc
        } else {
            self.fibers[t].rel_fence
        }
    }

    pub fn a_store(&mut self, addr: usize, size: u8, real: u64, val: u64, mo: i32) {
        self.pre_atomic();
        let t = self.cur;
        let i = self.atom(addr, size, real);
        self.shadow_access(addr, size as usize, 3);
        let rel = self.release_clock(t, mo);
        let epoch = self.fibers[t].vc[t];
        let _g = crate::alloc::rt_guard();
        self.atoms[i].stores.push(Store { val, tid: t as u8, epoch, rel });
        let l = self.atoms[i].stores.len() - 1;
        self.atoms[i].seen[t] = l as u32;
        self.trim(i);
        self.wrote();
        self.bump();
    }

    /// old values nobody is going to ask for any more (a spinning thread can write without end)
    fn trim(&mut self, i: usize) {
        let a = &mut self.atoms[i];
        if a.stores.len() > 8192 {
            let d = a.stores.len() - 256;
            a.stores.drain(..d);
            for s in a.seen.iter_mut() {
                *s = s.saturating_sub(d as u32);
            }
        }
    }

    fn wrote(&mut self) {
        self.write_version += 1;
        let c = self.cur;
        self.fibers[c].loads = 0;
    }

    /// read-modify-write; `new`: None means failed compare-exchange (a load of the latest value)
    pub fn a_rmw(&mut self, addr: usize, size: u8, real: u64, new: Option<u64>, mo: i32) {
        self.pre_atomic();
        let t = self.cur;
        let i = self.atom(addr, size, real);
        self.shadow_access(addr, size as usize, if new.is_some() { 3 } else { 2 });
        let l = self.atoms[i].stores.len() - 1;
        let prev_rel = self.atoms[i].stores[l].rel;
        {
            let f = &mut self.fibers[t];
            if mo == 1 || mo == 2 || mo == 4 || mo == 5 {
                join(&mut f.vc, &prev_rel);
            } else {
                join(&mut f.acq_pending, &prev_rel);
            }
        }
        let mut seen = l;
        match new {
            Some(v) => {
                let mut rel = self.release_clock(t, mo);
                join(&mut rel, &prev_rel);
                let epoch = self.fibers[t].vc[t];
                let _g = crate::alloc::rt_guard();
                self.atoms[i].stores.push(Store { val: v, tid: t as u8, epoch, rel });
                seen = l + 1;
                if v != real {
                    self.wrote();
                } else {
                    let f = &mut self.fibers[t];
                    if f.loads_version == self.write_version {
                        f.loads += 1;
                    } else {
                        f.loads_version = self.write_version;
                        f.loads = 1;
                    }
                }
            }
            None => {
                let f = &mut self.fibers[t];
                if f.loads_version == self.write_version {
                    f.loads += 1;
                } else {
                    f.loads_version = self.write_version;
                    f.loads = 1;
                }
            }
        }
        self.atoms[i].seen[t] = seen as u32;
        if seen > l {
            let _g = crate::alloc::rt_guard();
            self.trim(i);
        }
        self.bump();
    }

    pub fn fence(&mut self, mo: i32) {
        let t = self.cur;
        if mo == 1 || mo == 2 || mo == 4 || mo == 5 {
            let p = self.fibers[t].acq_pending;
            join(&mut self.fibers[t].vc, &p);
        }
        if mo == 5 {
            // conservative: a total order of SC fences synchronises
            let c = self.chans[7];
            join(&mut self.fibers[t].vc, &c);
            let v = self.fibers[t].vc;
            join(&mut self.chans[7], &v);
        }
        if mo == 3 || mo == 4 || mo == 5 {
            self.fibers[t].rel_fence = self.fibers[t].vc;
        }
        self.bump();
    }

    /// client-level synchronisation (an AcqRel read-modify-write on a channel owned by the client)
    pub fn sync_chan(&mut self, ch: usize) {
        let t = self.cur;
        let c = self.chans[ch];
        join(&mut self.fibers[t].vc, &c);
        let v = self.fibers[t].vc;
        join(&mut self.chans[ch], &v);
        self.bump();
    }

    // ---------------------------------------------------------------- race detector

    fn cell(&mut self, key: usize) -> Option<&mut Cell> {
        if self.shadow_used * 2 > (1 << SHADOW_BITS) {
            // table too full: forget everything (loses races, never invents one)
            self.new_gen();
        }
        let mask = (1usize << SHADOW_BITS) - 1;
        let mut h = (key.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - SHADOW_BITS)) & mask;
        loop {
            let g = self.gen;
            if self.shadow[h].gen != g {
                self.shadow_used += 1;
                let c = &mut self.shadow[h];
                c.gen = g;
                c.key = key;
                c.n = 0;
                return Some(c);
            }
            if self.shadow[h].key == key {
                return Some(&mut self.shadow[h]);
            }
            h = (h + 1) & mask;
        }
    }

    /// flags: 1 write, 2 atomic
    pub fn shadow_access(&mut self, addr: usize, size: usize, flags: u8) {
        let t = self.cur;
        let f = &self.fibers[t];
        if addr >= f.stack_lo && addr < f.stack_hi {
            return;
        }
        if flags & 2 == 0 && crate::alloc::guarded() {
            // bookkeeping of the harness
            return;
        }
        let vc = f.vc;
        let epoch = vc[t];
        let mut a = addr;
        let end = addr + size;
        while a < end {
            let key = a >> 3;
            let next = ((key + 1) << 3).min(end);
            let mut mask = 0u8;
            for b in a..next {
                mask |= 1 << (b & 7);
            }
            let mut race: Option<Acc> = None;
            if let Some(c) = self.cell(key) {
                let mut i = 0;
                while i < c.n as usize {
                    let x = c.acc[i];
                    if x.mask & mask != 0 && x.tid as usize != t {
                        let conflict = (x.flags & 1 != 0 || flags & 1 != 0)
                            && !(x.flags & 2 != 0 && flags & 2 != 0);
                        if conflict && x.epoch > vc[x.tid as usize] {
                            race = Some(x);
                        }
                    }
                    // drop entries made redundant by this access
                    let same = x.tid as usize == t
                        && (x.mask & !mask) == 0
                        && (x.flags & 1 <= flags & 1)
                        && (x.flags & 2 >= flags & 2);
                    if same {
                        c.n -= 1;
                        c.acc[i] = c.acc[c.n as usize];
                        continue;
                    }
                    i += 1;
                }
                if c.n as usize == NACC {
                    // evict the first
                    for j in 1..NACC {
                        c.acc[j - 1] = c.acc[j];
                    }
                    c.n -= 1;
                }
                c.acc[c.n as usize] = Acc { mask, tid: t as u8, flags, epoch };
                c.n += 1;
            }
            if let Some(x) = race {
                hist::race(x.tid, x.flags, t as u8, flags, size as u8);
            }
            a = next;
        }
        if flags == 1 {
            self.forget_atoms(addr, size);
        }
    }

    pub fn clear_range(&mut self, addr: usize, size: usize) {
        self.forget_atoms(addr, size);
        if size > 1 << 16 {
            self.new_gen();
            return;
        }
        let g = self.gen;
        let mask = (1usize << SHADOW_BITS) - 1;
        for key in (addr >> 3)..=((addr + size.max(1) - 1) >> 3) {
            let mut h = (key.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - SHADOW_BITS)) & mask;
            while self.shadow[h].gen == g {
                if self.shadow[h].key == key {
                    self.shadow[h].n = 0;
                    break;
                }
                h = (h + 1) & mask;
            }
        }
    }

    // ---------------------------------------------------------------- futex (std locks)

    pub fn virtual_ns(&self) -> u64 {
        self.steps.saturating_mul(1_000_000).saturating_add(self.slept_ns)
    }
    pub fn slept(&mut self, ns: u64) {
        self.slept_ns = self.slept_ns.saturating_add(ns).min(1 << 60);
    }

    /// The contended paths of std's locks are precompiled: their atomic operations are not seen. Whatever they
    /// order is covered by ordering everything at the system calls they make (races may be missed, never invented).
    pub fn sync_give(&mut self) {
        let v = self.fibers[self.cur].vc;
        for t in 0..self.n {
            join(&mut self.fibers[t].vc, &v);
        }
        self.bump();
    }
    pub fn sync_take(&mut self) {
        for t in 0..self.n {
            let v = self.fibers[t].vc;
            let c = self.cur;
            join(&mut self.fibers[c].vc, &v);
        }
    }

    pub fn futex_wait(&mut self, addr: usize) {
        self.futexes = true;
        let c = self.cur;
        self.steps += 1;
        self.fibers[c].st = St::Blocked(addr);
        self.sync_give();
        self.leave();
        eng().sync_take();
    }

    pub fn futex_wake(&mut self, addr: usize) -> i64 {
        self.futexes = true;
        self.sync_give();
        let mut k = 0;
        for t in 0..self.n {
            if self.fibers[t].st == St::Blocked(addr) {
                self.fibers[t].st = St::Runnable;
                k += 1;
            }
        }
        self.write_version += 1;
        k
    }
}

/// every plain memory access of instrumented code: bounds computations that never reach an atomic operation
#[inline]
pub fn fuel() {
    let e = eng();
    e.work += 1;
    if e.work > MAX_WORK {
        e.declare_hang("a call computes without end");
        let cur = e.cur;
        let from = &mut e.fibers[cur].rsp as *mut usize;
        unsafe { e.go_main(from) };
    }
}

/// a point at which another thread may be scheduled
#[inline(never)]
pub fn yield_point() {
    if !active() {
        return;
    }
    let e = eng();
    e.steps += 1;
    let cur = e.cur;
    match e.pick(false) {
        Some(t) if t == cur => {}
        Some(t) => e.switch_to(t),
        None => {
            if e.hung {
                // abandon this execution
                let from = &mut e.fibers[cur].rsp as *mut usize;
                unsafe { e.go_main(from) };
            } else {
                // current was frozen and nobody else can run: the thaw logic returned None => only
                // possible when others are blocked on a lock the frozen thread holds
                e.leave();
            }
        }
    }
}

#[inline(never)]
pub fn progress() {
    let e = eng();
    e.progress();
}
