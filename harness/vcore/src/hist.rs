//! The recorded history of one execution: pulls, queries, skips, panics, races, the ownership ledger and
//! the fault injector. All functions are callable from instrumented code (never inlined, allocation-guarded).
use crate::alloc::rt_guard;
use crate::case::{Fault, Site};
use crate::engine::{eng, Vc, MAIN, MAXT};
use std::cell::UnsafeCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Next,
    NextId,
    Values,
    Ids,
    Chunk,
    Buf,
    ForEach,
    Enum,
    Fold,
    /// values().take(k).for_each(..)
    Batch,
    /// values().nth(k) / ids_and_values().nth(k)
    Nth,
}
impl M {
    pub fn composite(self) -> bool {
        matches!(self, M::ForEach | M::Enum | M::Fold | M::Batch)
    }
    pub fn chunked(self) -> bool {
        matches!(self, M::Chunk | M::Buf)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Res {
    Running,
    Got,
    End,
    Panicked,
}

#[derive(Clone, Copy, Debug)]
pub struct Item {
    pub idx: Option<u64>,
    pub val: Option<u64>,
    pub tok: u32, // u32::MAX: none
    pub addr: usize,
    pub stamp: u64,
    pub epoch: u32,
    pub alive: bool,
}

#[derive(Clone, Debug)]
pub struct Pull {
    pub thr: u8,
    pub phase: u8,
    pub it: u8,
    pub m: M,
    pub n: u64,
    pub start: u64,
    pub end: u64,
    pub svc: Vc,
    pub epoch: u32,
    pub res: Res,
    pub begin: Option<u64>,
    pub announced: Option<u64>,
    pub items: Vec<Item>,
    /// the chunk iterator reported its end
    pub complete: bool,
    /// first inconsistency between announced length / size_hint and what is yielded
    pub len_bad: Option<String>,
    pub fold_ok: Option<bool>,
    /// number of elements consumed without being observed (nth)
    pub skipped: u64,
    /// the chunk was consumed with jumps: its items need not be adjacent
    pub jumps: bool,
    /// the rest of the chunk was leaked by mem::forget
    pub forgot: bool,
    /// what count() of a for-loop adaptor returned
    pub counted: Option<u64>,
    /// last() of a for-loop adaptor
    pub last: bool,
    /// a composite call whose closure ran further operations on the same iterator
    pub nests: bool,
    /// executed inside the closure of a composite call
    pub nested: bool,
}

/// C19: a clone taken while other threads use the original
#[derive(Clone, Debug)]
pub struct CloneRec {
    pub parent: u8,
    pub child: u8,
    pub thr: u8,
    pub start: u64,
    pub end: u64,
    /// number of recorded events before it
    pub at: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum QRes {
    Len(Option<u64>),
    Yes(u64),
    Maybe,
    No,
}

#[derive(Clone, Debug)]
pub struct Query {
    pub thr: u8,
    pub phase: u8,
    pub it: u8,
    pub start: u64,
    pub end: u64,
    pub svc: Vc,
    pub epoch: u32,
    pub res: Option<QRes>,
}

#[derive(Clone, Debug)]
pub struct SkipRec {
    pub thr: u8,
    pub phase: u8,
    pub it: u8,
    pub start: u64,
    pub end: u64,
    pub svc: Vc,
    pub epoch: u32,
    pub done: bool,
}

/// program order of events per case (single-threaded lockstep replays it)
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Pull(usize),
    Query(usize),
    Skip(usize),
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub thr: u8,
    pub what: String,
    pub msg: String,
    pub injected: bool,
    pub stamp: u64,
}

#[derive(Clone, Debug)]
pub struct TokSt {
    pub pos: u64,
    pub val: u64,
    pub parent: u32,
    pub drops: u32,
}

#[derive(Default)]
pub struct Hist {
    pub phase: u8,
    pub it: u8,
    pub it_thr: [u8; MAXT],
    pub pulls: Vec<Pull>,
    pub queries: Vec<Query>,
    pub skips: Vec<SkipRec>,
    pub order: Vec<Ev>,
    pub panics: Vec<PanicRec>,
    pub races: Vec<String>,
    pub overlaps: Vec<String>,
    pub hang: Option<String>,
    pub seq_out: Vec<Item>,
    pub seq_done: bool,
    pub seq_hint: Option<(u64, Option<u64>)>,
    pub seq_ran: bool,
    /// number of pulls on the underlying iterator before cloned() / copied()
    pub pre_pulls: usize,
    pub toks: Vec<TokSt>,
    pub ledger_errors: Vec<String>,
    pub kept_errors: Vec<String>,
    pub zst_new: u64,
    pub zst_drop: u64,
    pub leaks: Vec<(u32, usize)>,
    pub allocs: u32,
    pub leak_overflow: bool,
    pub notes: Vec<String>,
    pub fault: Option<Fault>,
    pub fault_hits: u32,
    pub site_count: [u32; 3],
    pub probe_in: Option<u8>,
    pub probe_calls: u64,
    pub probe_none: u64,
    pub probe_vc: Option<(u8, u32)>,
    pub clones: u64,
    pub stale_reads: u64,
    pub napped: u64,
    /// compare-exchanges of one thread that failed because it was held up
    pub harass_fails: u64,
    pub switches: u64,
    pub atomic_ops: u64,
    pub freeze_hit: bool,
    pub frozen_thr: u8,
    pub hung_phase: u8,
    pub trace: Vec<(u8, u32)>,
    pub trace_reads: Vec<u8>,
    pub dfs: Vec<crate::engine::DfsStep>,
    /// address and stride of the borrowed source
    pub base: usize,
    pub stride: usize,
    pub source_errors: Vec<String>,
    /// C19: start position of every iterator
    pub it_start: Vec<u64>,
    pub it_before_threads: usize,
    pub clone_recs: Vec<CloneRec>,
    /// nesting depth of composite closures per thread (last slot: the main context)
    pub nest_thr: [u32; MAXT + 1],
    /// C19: remainder of iterator `it`
    pub it_seq: Vec<(u8, Vec<Item>, bool)>,
    pub bad_free: u32,
    pub corrupt: [u32; 3],
    pub instrumented: bool,
    pub steps: u64,
}

impl Hist {
    fn cur_it(&self) -> u8 {
        let e = eng();
        if e.active {
            self.it_thr[e.cur]
        } else {
            self.it
        }
    }
}

struct G(UnsafeCell<Option<Box<Hist>>>);
unsafe impl Sync for G {}
static H: G = G(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn hist() -> &'static mut Hist {
    unsafe {
        let o = &mut *H.0.get();
        if o.is_none() {
            let _g = rt_guard();
            *o = Some(Box::default());
        }
        o.as_mut().unwrap()
    }
}

pub fn reset() {
    let _g = rt_guard();
    *hist() = Hist::default();
}

/// marker payload of injected panics
pub struct FaultMark;
/// marker payload of the harness giving up on an endless call
pub struct LimitMark;

fn me() -> (u8, u32) {
    let e = eng();
    if e.active {
        (e.cur as u8, e.vc()[e.cur])
    } else {
        (MAIN, 0)
    }
}

/// registers that an operation is about to start; its start stamp is taken at its first atomic operation
fn begin_stamp() -> (u64, Vc) {
    let e = eng();
    (e.tick(), e.vc())
}

// pending ids: kind in the low two bits
pub fn started(pid: usize, stamp: u64, vc: Vc) {
    let h = hist();
    let i = pid >> 2;
    match pid & 3 {
        0 => {
            h.pulls[i].start = stamp;
            h.pulls[i].svc = vc;
        }
        1 => {
            h.queries[i].start = stamp;
            h.queries[i].svc = vc;
        }
        2 => {
            h.skips[i].start = stamp;
            h.skips[i].svc = vc;
        }
        _ => h.clone_recs[i].start = stamp,
    }
}

fn slot(thr: u8) -> usize {
    (thr as usize).min(MAXT)
}
/// the closure of composite pull `i` starts / stops running nested operations
#[inline(never)]
pub fn nest(i: usize, on: bool) {
    let (thr, _) = me();
    let h = hist();
    h.pulls[i].nests = true;
    let d = &mut h.nest_thr[slot(thr)];
    *d = if on { *d + 1 } else { *d - 1 };
}
#[inline(never)]
pub fn pull_forgot(i: usize) {
    hist().pulls[i].forgot = true;
}
#[inline(never)]
pub fn pull_counted(i: usize, n: u64) {
    hist().pulls[i].counted = Some(n);
    hist().pulls[i].skipped = n;
}
#[inline(never)]
pub fn pull_last(i: usize) {
    hist().pulls[i].last = true;
}
#[inline(never)]
pub fn pull_jumps(i: usize) {
    hist().pulls[i].jumps = true;
}
#[inline(never)]
pub fn clone_begin(parent: u8, child: u8) -> usize {
    let _g = rt_guard();
    let (start, _) = begin_stamp();
    let (thr, _) = me();
    let h = hist();
    let at = h.order.len() as u64;
    h.clone_recs.push(CloneRec { parent, child, thr, start, end: u64::MAX, at });
    let i = h.clone_recs.len() - 1;
    set_pending(Some((i << 2) | 3));
    i
}
#[inline(never)]
pub fn clone_end(i: usize) {
    set_pending(None);
    let e = eng();
    let end = e.tick();
    e.progress();
    hist().clone_recs[i].end = end;
}

fn set_pending(pid: Option<usize>) {
    if let Some(f) = eng().fiber() {
        f.pending_start = pid;
    }
}

#[inline(never)]
pub fn pull_begin(m: M, n: u64) -> usize {
    let _g = rt_guard();
    let h = hist();
    let (start, svc) = begin_stamp();
    let (thr, epoch) = me();
    h.pulls.push(Pull {
        thr,
        phase: h.phase,
        it: h.cur_it(),
        m,
        n,
        start,
        end: u64::MAX,
        svc,
        epoch,
        res: Res::Running,
        begin: None,
        announced: None,
        items: Vec::new(),
        complete: false,
        len_bad: None,
        fold_ok: None,
        skipped: 0,
        jumps: false,
        forgot: false,
        counted: None,
        last: false,
        nests: false,
        nested: h.nest_thr[slot(thr)] > 0,
    });
    let i = h.pulls.len() - 1;
    h.order.push(Ev::Pull(i));
    set_pending(Some(i << 2));
    i
}

#[inline(never)]
pub fn pull_end(i: usize, res: Res) {
    set_pending(None);
    let e = eng();
    let (_, epoch) = me();
    let end = e.tick();
    e.progress();
    let p = &mut hist().pulls[i];
    p.end = end;
    p.epoch = epoch;
    p.res = res;
}

#[inline(never)]
pub fn pull_chunk(i: usize, begin: u64, announced: u64) {
    let p = &mut hist().pulls[i];
    p.begin = Some(begin);
    p.announced = Some(announced);
}

#[inline(never)]
pub fn pull_item(i: usize, idx: Option<u64>, o: Obs) {
    let _g = rt_guard();
    let e = eng();
    let stamp = e.tick();
    e.progress();
    let (_, epoch) = me();
    hist().pulls[i].items.push(Item { idx, val: o.val, tok: o.tok, addr: o.addr, stamp, epoch, alive: o.alive });
}

#[inline(never)]
pub fn pull_items(i: usize) -> u64 {
    hist().pulls[i].items.len() as u64
}
#[inline(never)]
pub fn pull_skipped(i: usize, k: u64) {
    hist().pulls[i].skipped += k;
}
#[inline(never)]
pub fn pull_complete(i: usize) {
    hist().pulls[i].complete = true;
}
#[inline(never)]
pub fn pull_len_bad(i: usize, what: &str, got: u64, got_hi: u64, want: u64) {
    let _g = rt_guard();
    let p = &mut hist().pulls[i];
    if p.len_bad.is_none() {
        p.len_bad = Some(format!("{what}: reported {got}..{} where {want} elements remain", got_hi as i64));
    }
}
#[inline(never)]
pub fn pull_fold(i: usize, ok: bool) {
    hist().pulls[i].fold_ok = Some(ok);
}

#[inline(never)]
pub fn query_begin() -> usize {
    let _g = rt_guard();
    let h = hist();
    let (start, svc) = begin_stamp();
    let (thr, epoch) = me();
    h.queries.push(Query { thr, phase: h.phase, it: h.cur_it(), start, end: u64::MAX, svc, epoch, res: None });
    let i = h.queries.len() - 1;
    h.order.push(Ev::Query(i));
    set_pending(Some((i << 2) | 1));
    i
}
#[inline(never)]
pub fn query_end(i: usize, r: QRes) {
    set_pending(None);
    let e = eng();
    let end = e.tick();
    e.progress();
    let (_, epoch) = me();
    let q = &mut hist().queries[i];
    q.end = end;
    q.epoch = epoch;
    q.res = Some(r);
}
#[inline(never)]
pub fn skip_begin() -> usize {
    let _g = rt_guard();
    let h = hist();
    let (start, svc) = begin_stamp();
    let (thr, epoch) = me();
    h.skips.push(SkipRec { thr, phase: h.phase, it: h.cur_it(), start, end: u64::MAX, svc, epoch, done: false });
    let i = h.skips.len() - 1;
    h.order.push(Ev::Skip(i));
    set_pending(Some((i << 2) | 2));
    i
}
#[inline(never)]
pub fn skip_end(i: usize) {
    set_pending(None);
    let e = eng();
    let end = e.tick();
    e.progress();
    let (_, epoch) = me();
    let s = &mut hist().skips[i];
    s.end = end;
    s.epoch = epoch;
    s.done = true;
}

#[inline(never)]
pub fn panicked(what: &str, payload: Box<dyn std::any::Any + Send>) {
    set_pending(None);
    let injected;
    {
        let _g = rt_guard();
        let e = eng();
        let stamp = e.tick();
        e.progress();
        let (thr, _) = me();
        let msg;
        if payload.is::<FaultMark>() {
            injected = true;
            msg = "injected fault".to_string();
        } else {
            injected = false;
            msg = if payload.is::<LimitMark>() {
                "call does not stop delivering elements (harness limit)".to_string()
            } else if let Some(s) = payload.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = payload.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
        }
        hist().panics.push(PanicRec { thr, what: what.to_string(), msg, injected, stamp });
    }
    drop(payload);
}

pub fn race(t1: u8, f1: u8, t2: u8, f2: u8, size: u8) {
    let _g = rt_guard();
    let h = hist();
    if h.races.is_empty() && std::env::var_os("VRACE").is_some() {
        eprintln!("race observed at:\n{}", std::backtrace::Backtrace::force_capture());
    }
    if h.races.len() < 4 {
        let k = |f: u8| match f {
            0 => "read",
            1 => "write",
            2 => "atomic read",
            _ => "atomic write",
        };
        h.races.push(format!("{} by t{t1} is not ordered before {} by t{t2} ({size} bytes)", k(f1), k(f2)));
    }
}

// ------------------------------------------------------------------ observation of elements

#[derive(Clone, Copy, Debug)]
pub struct Obs {
    pub val: Option<u64>,
    pub tok: u32,
    pub addr: usize,
    pub alive: bool,
}

// ------------------------------------------------------------------ ownership ledger

pub const MAGIC: u32 = 0x70C3_5A11;

#[inline(never)]
pub fn tok_new(pos: u64, val: u64, parent: u32) -> u32 {
    let _g = rt_guard();
    let h = hist();
    h.toks.push(TokSt { pos, val, parent, drops: 0 });
    (h.toks.len() - 1) as u32
}
/// true: this is the first, legal drop
#[inline(never)]
pub fn tok_drop(id: u32, magic: u32, val: u64) -> bool {
    let _g = rt_guard();
    let h = hist();
    if magic != MAGIC || id as usize >= h.toks.len() || h.toks[id as usize].val != val {
        if h.ledger_errors.len() < 8 {
            h.ledger_errors.push("destructor ran on memory that holds no element".to_string());
        }
        return false;
    }
    let t = &mut h.toks[id as usize];
    t.drops += 1;
    if t.drops > 1 {
        let s = format!("element of position {} destroyed {} times", t.pos as i64, t.drops);
        if h.ledger_errors.len() < 8 {
            h.ledger_errors.push(s);
        }
        return false;
    }
    true
}
/// is this a live, intact element?
#[inline(never)]
pub fn tok_alive(id: u32, magic: u32, val: u64) -> bool {
    let h = hist();
    magic == MAGIC && (id as usize) < h.toks.len() && h.toks[id as usize].val == val && h.toks[id as usize].drops == 0
}
#[inline(never)]
pub fn zst_new() {
    hist().zst_new += 1;
}
#[inline(never)]
pub fn zst_drop() {
    hist().zst_drop += 1;
}
#[inline(never)]
pub fn cloned() {
    hist().clones += 1;
}
#[inline(never)]
pub fn kept_error(s: &str) {
    let _g = rt_guard();
    hist().kept_errors.push(s.to_string());
}
#[inline(never)]
pub fn note(s: &str) {
    let _g = rt_guard();
    hist().notes.push(s.to_string());
}

/// counts an execution of a fault site; panics if the injected fault is due
#[inline(never)]
pub fn site(s: Site) {
    let h = hist();
    let i = match s {
        Site::Next => 0,
        Site::Clone => 1,
        Site::Closure => 2,
    };
    let k = h.site_count[i];
    h.site_count[i] += 1;
    if let Some(f) = h.fault {
        if f.site == s && (k == f.k || (f.sticky && k > f.k)) && !std::thread::panicking() {
            h.fault_hits += 1;
            let p: Box<dyn std::any::Any + Send> = {
                let _g = rt_guard();
                Box::new(FaultMark)
            };
            std::panic::resume_unwind(p);
        }
    }
}

#[inline(never)]
pub fn limit() -> ! {
    let p: Box<dyn std::any::Any + Send> = {
        let _g = rt_guard();
        Box::new(LimitMark)
    };
    std::panic::resume_unwind(p)
}

// ------------------------------------------------------------------ probe (wrapped iterator)

#[inline(never)]
pub fn probe_enter() {
    let h = hist();
    let (thr, _) = me();
    h.probe_calls += 1;
    if let Some(t) = h.probe_in {
        let _g = rt_guard();
        if h.overlaps.len() < 4 {
            h.overlaps.push(format!("next of the wrapped iterator entered by t{thr} while t{t} is inside"));
        }
    }
    h.probe_in = Some(thr);
    // happens-after the previous execution?
    if let Some((t, ep)) = h.probe_vc {
        let e = eng();
        if e.active && thr != t && (t as usize) < MAXT && e.vc()[t as usize] < ep {
            let _g = rt_guard();
            if h.overlaps.len() < 4 {
                h.overlaps.push(format!("next of the wrapped iterator by t{thr} does not happen after the previous one by t{t}"));
            }
        }
    }
}
#[inline(never)]
pub fn probe_leave(none: bool) {
    let h = hist();
    h.probe_in = None;
    if none {
        h.probe_none += 1;
    }
    let (t, e) = me();
    h.probe_vc = if t == MAIN { None } else { Some((t, e)) };
}
pub fn phase_start(p: u8) {
    let h = hist();
    h.phase = p;
    h.probe_vc = None;
    h.probe_in = None;
}
#[inline(never)]
pub fn set_it(i: u8) {
    let h = hist();
    h.it = i;
    h.it_thr = [i; MAXT];
}
#[inline(never)]
pub fn set_it_of_thread(i: u8) {
    let e = eng();
    hist().it_thr[e.cur] = i;
}
#[inline(never)]
pub fn seq_item(o: Obs) {
    let _g = rt_guard();
    let h = hist();
    h.seq_out.push(Item { idx: None, val: o.val, tok: o.tok, addr: o.addr, stamp: 0, epoch: 0, alive: o.alive });
}

pub fn source_error(s: String) {
    let _g = rt_guard();
    let h = hist();
    if h.source_errors.len() < 4 {
        h.source_errors.push(s);
    }
}
