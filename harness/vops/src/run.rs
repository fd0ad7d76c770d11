//! Builds the source of a case, drives the phases and tears everything down.
use crate::elems::*;
use crate::interp::*;
use orx_concurrent_iter::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::alloc::{self, rt_guard};
use vcore::case::*;
use vcore::engine::eng;
use vcore::hist::{self, hist};

/// compiled with the instrumentation that feeds the engine?
pub const INSTRUMENTED: bool = cfg!(vconc);

pub fn cap(src: &Src) -> u64 {
    let len = if src.len > 100_000 { 4096 } else { src.len as u64 };
    len * 2 + 64
}

/// runs `f` alone, inside the engine when instrumented (so that an endless wait is detected)
pub fn solo(f: Box<dyn FnOnce() + '_>) -> bool {
    if INSTRUMENTED {
        let mut v: Vec<Box<dyn FnOnce() + '_>> = {
            let _g = rt_guard();
            Vec::with_capacity(1)
        };
        v.push(f);
        eng().run(v, &SEQ_SCHED, None)
    } else {
        f();
        false
    }
}

macro_rules! boxed {
    ($e:expr) => {{
        let c = $e;
        let _g = rt_guard();
        Box::new(c) as Box<dyn FnOnce() + '_>
    }};
}

fn take_seq<S>(mut s: S, fin: Fin, cap: u64)
where
    S: Iterator,
    S::Item: Obsv,
{
    let (lo, hi) = s.size_hint();
    hist().seq_hint = Some((lo as u64, hi.map(|x| x as u64)));
    hist().seq_ran = true;
    match fin {
        Fin::Seq(k) => {
            let mut n = 0;
            while n < k as u64 {
                match s.next() {
                    Some(v) => {
                        hist::seq_item(v.obs());
                        drop(v);
                    }
                    None => {
                        hist().seq_done = true;
                        break;
                    }
                }
                n += 1;
                if n > cap {
                    hist::note("runaway");
                    break;
                }
            }
            drop(s);
        }
        _ => {
            let mut n = 0;
            s.for_each(|v| {
                hist::seq_item(v.obs());
                drop(v);
                n += 1;
                if n > cap {
                    hist::limit();
                }
            });
            hist().seq_done = true;
        }
    }
}

/// operations before the adaptor is made; returns true if hung
fn pre_run<C>(case: &Case, con: &C) -> bool
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    if case.pre.is_empty() {
        return false;
    }
    let cp = cap(&case.src);
    eng().allowance = cp * 8;
    hist().instrumented = INSTRUMENTED;
    hist().fault = case.fault;
    hist::phase_start(0);
    let mut kept: Kept<C::Item> = Kept::new(case.keep, cp);
    let k = &mut kept;
    let hung = solo(boxed!(move || run_ops(con, &case.pre, k)));
    hist().pre_pulls = hist().pulls.len();
    if hung {
        hist().hung_phase = 0;
        std::mem::forget(kept);
        return true;
    }
    kept.verify("an element delivered earlier is no longer intact (before the adaptor is made)");
    kept.free();
    let _g = rt_guard();
    drop(kept);
    false
}

/// drives the adaptor made by `f`
fn drive_adapted<C, D>(case: &Case, con: C, f: impl FnOnce(C) -> D)
where
    C: ConcurrentIter,
    C::Item: Obsv,
    D: ConcurrentIter,
    D::Item: Obsv,
{
    if pre_run(case, &con) {
        std::mem::forget(con);
        return;
    }
    drive(case, f(con));
}

/// returns true if hung
pub fn drive<C>(case: &Case, con: C) -> bool
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let cp = cap(&case.src);
    eng().allowance = cp * 8;
    let mut kepts: Vec<Kept<C::Item>> = {
        let _g = rt_guard();
        (0..case.threads.len() + 2).map(|_| Kept::new(case.keep, cp)).collect()
    };
    hist().instrumented = INSTRUMENTED;
    hist().fault = case.fault;
    if !case.src.kind.adaptor() && pre_run(case, &con) {
        std::mem::forget(con);
        std::mem::forget(kepts);
        return true;
    }
    // ---- phase 0: head
    hist::phase_start(0);
    if !case.head.is_empty() {
        let k = &mut kepts[0];
        let c = &con;
        let hung = solo(boxed!(move || run_ops(c, &case.head, k)));
        if hung {
            hist().hung_phase = 0;
            std::mem::forget(con);
            std::mem::forget(kepts);
            return true;
        }
    }
    // ---- phase 1: threads
    hist::phase_start(1);
    if !case.threads.is_empty() {
        if INSTRUMENTED {
            let hung;
            {
                let mut fs: Vec<Box<dyn FnOnce() + '_>> = {
                    let _g = rt_guard();
                    Vec::with_capacity(case.threads.len())
                };
                let c = &con;
                for (ops, k) in case.threads.iter().zip(kepts[1..].iter_mut()) {
                    fs.push(boxed!(move || run_ops(c, ops, k)));
                }
                hung = eng().run(fs, &case.sched, case.freeze);
            }
            let e = eng();
            let h = hist();
            {
                let _g = rt_guard();
                h.trace = e.trace.clone();
                h.trace_reads = e.trace_reads.clone();
                h.dfs = std::mem::take(&mut e.dfs_steps);
            }
            h.stale_reads = e.stale_reads;
            h.napped = e.napped;
            h.harass_fails = e.harass_fails;
            h.switches = e.switches;
            h.atomic_ops = e.atomic_ops;
            h.steps = e.steps;
            h.freeze_hit = e.freeze_hit && e.freeze_pending_others;
            h.frozen_thr = case.freeze.map(|x| x.0).unwrap_or(255);
            if hung {
                h.hung_phase = 1;
                std::mem::forget(con);
                std::mem::forget(kepts);
                return true;
            }
        } else {
            for (ops, k) in case.threads.iter().zip(kepts[1..].iter_mut()) {
                run_ops(&con, ops, k);
            }
        }
    }
    // ---- phase 2: tail and conversion / drop
    hist::phase_start(2);
    let last = case.threads.len() + 1;
    if !case.tail.is_empty() {
        let k = &mut kepts[last];
        let c = &con;
        let hung = solo(boxed!(move || run_ops(c, &case.tail, k)));
        if hung {
            hist().hung_phase = 2;
            std::mem::forget(con);
            std::mem::forget(kepts);
            return true;
        }
    }
    for k in &kepts {
        k.verify("an element delivered earlier is no longer intact (before the iterator is gone)");
    }
    // an injected fault concerns pulls only
    hist().fault = None;
    let hung = solo(boxed!(move || match case.fin {
        Fin::Drop => {
            let r = catch_unwind(AssertUnwindSafe(move || drop(con)));
            if let Err(p) = r {
                hist::panicked("drop of the iterator", p);
            }
        }
        Fin::DropUnwind => while_unwinding(move || drop(con)),
        f => {
            let r = catch_unwind(AssertUnwindSafe(move || take_seq(con.into_seq_iter(), f, cp)));
            if let Err(p) = r {
                hist::panicked("into_seq_iter", p);
            }
        }
    }));
    if hung {
        hist().hung_phase = 2;
        std::mem::forget(kepts);
        return true;
    }
    for k in &kepts {
        k.verify("an element delivered earlier is no longer intact (after the iterator is gone)");
    }
    for k in kepts.iter_mut() {
        k.free();
    }
    let _g = rt_guard();
    drop(kepts);
    false
}

fn check_source<T: Elem>(case: &Case, s: &[T]) {
    if T::T == ElemT::Unit {
        return;
    }
    for (i, x) in s.iter().enumerate() {
        let o = x.obs();
        let want = if T::T == ElemT::Zst { None } else { Some(case.src.val(i as u64)) };
        if o.val != want || !o.alive {
            hist::source_error(format!("source element {i} changed"));
        }
    }
}

fn make_vec<T: Elem>(src: &Src) -> Vec<T> {
    if T::T == ElemT::Unit {
        // any number of zero-sized values without state fits a vector without allocation
        let mut v: Vec<T> = Vec::new();
        assert!(std::mem::size_of::<T>() == 0);
        unsafe { v.set_len(src.len) };
        return v;
    }
    let mut v = Vec::with_capacity(src.len + src.cap);
    for p in 0..src.len as u64 {
        v.push(T::make(src, p));
    }
    v
}

fn set_base<T>(s: &[T]) {
    hist().base = s.as_ptr() as usize;
    hist().stride = std::mem::size_of::<T>();
}

pub fn slice_con<'a, T: Elem>(src: &Src, v: &'a Vec<T>) -> ConIterOfSlice<'a, T> {
    match src.route {
        0 => v.as_slice().into_con_iter(),
        1 => v.con_iter(),
        2 => ConIterOfSlice::new(v.as_slice()),
        3 => ConIterOfSlice::from(v.as_slice()),
        _ => ConIterOfSlice::new(v.as_slice()).clone(),
    }
}

fn run_slice<T: Elem>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    if case.src.route == 6 {
        // through the ConcurrentIterable implementation of slices
        let s = v.as_slice();
        drive(case, s.con_iter());
    } else {
        let con = slice_con(&case.src, &v);
        drive(case, con);
    }
    check_source(case, &v);
}

/// a consumed vector of references: yields references to the elements like the slice iterators do
fn refs_con<'a, T: Elem>(v: &'a [T]) -> ConIterOfVec<&'a T> {
    let refs: Vec<&'a T> = v.iter().collect();
    refs.into_con_iter()
}
fn run_refs<T: Elem>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive(case, refs_con(&v));
    check_source(case, &v);
}
fn run_refs_cloned<T: Elem + Clone + Obsv>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive_adapted(case, refs_con(&v), |c| c.cloned());
    check_source(case, &v);
}
fn run_refs_copied<T: Elem + Copy + Obsv>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive_adapted(case, refs_con(&v), |c| c.copied());
    check_source(case, &v);
}

fn run_slice_cloned<T: Elem + Clone + Obsv>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive_adapted(case, slice_con(&case.src, &v), |c| c.cloned());
    check_source(case, &v);
}
fn run_slice_copied<T: Elem + Copy + Obsv>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive_adapted(case, slice_con(&case.src, &v), |c| c.copied());
    check_source(case, &v);
}
fn run_vec<T: Elem + Obsv>(case: &Case) {
    let v: Vec<T> = make_vec(&case.src);
    let con = match case.src.route {
        0 => v.into_con_iter(),
        1 => ConIterOfVec::new(v),
        _ => ConIterOfVec::from(v),
    };
    drive(case, con);
}
fn run_array<T: Elem + Obsv, const N: usize>(case: &Case) {
    let a: [T; N] = std::array::from_fn(|i| T::make(&case.src, i as u64));
    let con = match case.src.route {
        0 => a.into_con_iter(),
        1 => ConIterOfArray::new(a),
        _ => ConIterOfArray::from(a),
    };
    drive(case, con);
}
pub fn range_of(src: &Src) -> std::ops::Range<usize> {
    let end = src.end.unwrap_or(src.start.wrapping_add(src.len as u64));
    src.start as usize..end as usize
}
fn run_range(case: &Case) {
    let r = range_of(&case.src);
    let con = match case.src.route {
        0 => r.con_iter(),
        1 => IntoConcurrentIter::into_con_iter(r),
        2 => ConIterOfRange::new(r),
        3 => ConIterOfRange::from(r),
        _ => ConIterOfRange::new(r).clone(),
    };
    drive(case, con);
}
fn run_iter<T: Elem + Obsv>(case: &Case) {
    let p = Probe::<T>::new(&case.src);
    let con: ConIterOfIter<T, Probe<T>> = match case.src.route {
        0 => p.into_con_iter(),
        1 => ConIterOfIter::new(p),
        _ => ConIterOfIter::from(p),
    };
    drive(case, con);
}
fn ref_con<'a, T: Elem>(case: &Case, v: &'a [T]) -> ConIterOfIter<&'a T, RefProbe<'a, T>> {
    let p = RefProbe::new(&case.src, v);
    match case.src.route {
        0 => p.into_con_iter(),
        1 => ConIterOfIter::new(p),
        _ => ConIterOfIter::from(p),
    }
}
fn run_iter_ref<T: Elem>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive(case, ref_con(case, &v));
    check_source(case, &v);
}
fn run_iter_ref_cloned<T: Elem + Clone + Obsv>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive_adapted(case, ref_con(case, &v), |c| c.cloned());
    check_source(case, &v);
}
fn run_iter_ref_copied<T: Elem + Copy + Obsv>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let v: Vec<T> = make_vec(&case.src);
    set_base(&v);
    drive_adapted(case, ref_con(case, &v), |c| c.copied());
    check_source(case, &v);
}

/// (element type, N) pairs available for arrays
pub const ARRAYS: &[(ElemT, usize)] = &[
    (ElemT::Tok, 0),
    (ElemT::Tok, 1),
    (ElemT::Tok, 2),
    (ElemT::Tok, 3),
    (ElemT::Tok, 5),
    (ElemT::Tok, 8),
    (ElemT::Tok, 21),
    (ElemT::TokBox, 4),
    (ElemT::TokBox, 7),
    (ElemT::Word, 6),
    (ElemT::Small, 16),
    (ElemT::Big, 3),
    (ElemT::Zst, 5),
    (ElemT::Tok, 65),
    (ElemT::Word, 257),
    (ElemT::Tok, 1030),
];

pub fn supported(s: &Src) -> bool {
    use ElemT::*;
    use Kind::*;
    match s.kind {
        Slice => matches!(s.elem, Tok | TokBox | Word | Small | Zst | Unit),
        SliceCloned => matches!(s.elem, Tok | TokBox | Word | Zst | Unit),
        SliceCopied => matches!(s.elem, Word | Small | Big | Unit),
        Vec => true,
        Array => ARRAYS.contains(&(s.elem, s.len)),
        Range => s.elem == Word,
        Iter => matches!(s.elem, Tok | TokBox | Word | Zst),
        IterRef => matches!(s.elem, Tok | Word),
        IterRefCloned => matches!(s.elem, Tok | Word),
        IterRefCopied => matches!(s.elem, Word),
    }
}

fn dispatch(case: &Case) {
    use ElemT as E;
    use Kind as K;
    let s = &case.src;
    match (s.kind, s.elem) {
        (K::Slice, E::Tok) if s.route == 5 => run_refs::<Tok>(case),
        (K::Slice, E::Word) if s.route == 5 => run_refs::<Word>(case),
        (K::SliceCloned, E::Tok) if s.route == 5 => run_refs_cloned::<Tok>(case),
        (K::SliceCopied, E::Word) if s.route == 5 => run_refs_copied::<Word>(case),
        (K::Slice, E::Tok) => run_slice::<Tok>(case),
        (K::Slice, E::TokBox) => run_slice::<TokBox>(case),
        (K::Slice, E::Word) => run_slice::<Word>(case),
        (K::Slice, E::Small) => run_slice::<Small>(case),
        (K::Slice, E::Zst) => run_slice::<Zst>(case),
        (K::Slice, E::Unit) => run_slice::<Unit>(case),
        (K::SliceCloned, E::Unit) => run_slice_cloned::<Unit>(case),
        (K::SliceCopied, E::Unit) => run_slice_copied::<Unit>(case),
        (K::Vec, E::Unit) => run_vec::<Unit>(case),
        (K::SliceCloned, E::Tok) => run_slice_cloned::<Tok>(case),
        (K::SliceCloned, E::TokBox) => run_slice_cloned::<TokBox>(case),
        (K::SliceCloned, E::Word) => run_slice_cloned::<Word>(case),
        (K::SliceCloned, E::Zst) => run_slice_cloned::<Zst>(case),
        (K::SliceCopied, E::Word) => run_slice_copied::<Word>(case),
        (K::SliceCopied, E::Small) => run_slice_copied::<Small>(case),
        (K::SliceCopied, E::Big) => run_slice_copied::<Big>(case),
        (K::Vec, E::Tok) => run_vec::<Tok>(case),
        (K::Vec, E::TokBox) => run_vec::<TokBox>(case),
        (K::Vec, E::Word) => run_vec::<Word>(case),
        (K::Vec, E::Small) => run_vec::<Small>(case),
        (K::Vec, E::Big) => run_vec::<Big>(case),
        (K::Vec, E::Zst) => run_vec::<Zst>(case),
        (K::Array, E::Tok) => match s.len {
            0 => run_array::<Tok, 0>(case),
            1 => run_array::<Tok, 1>(case),
            2 => run_array::<Tok, 2>(case),
            3 => run_array::<Tok, 3>(case),
            5 => run_array::<Tok, 5>(case),
            8 => run_array::<Tok, 8>(case),
            21 => run_array::<Tok, 21>(case),
            65 => run_array::<Tok, 65>(case),
            1030 => run_array::<Tok, 1030>(case),
            _ => unsupported(),
        },
        (K::Array, E::TokBox) => match s.len {
            4 => run_array::<TokBox, 4>(case),
            7 => run_array::<TokBox, 7>(case),
            _ => unsupported(),
        },
        (K::Array, E::Word) => match s.len {
            257 => run_array::<Word, 257>(case),
            6 => run_array::<Word, 6>(case),
            _ => unsupported(),
        },
        (K::Array, E::Small) => match s.len {
            16 => run_array::<Small, 16>(case),
            _ => unsupported(),
        },
        (K::Array, E::Big) => match s.len {
            3 => run_array::<Big, 3>(case),
            _ => unsupported(),
        },
        (K::Array, E::Zst) => match s.len {
            5 => run_array::<Zst, 5>(case),
            _ => unsupported(),
        },
        (K::Range, _) => run_range(case),
        (K::Iter, E::Tok) => run_iter::<Tok>(case),
        (K::Iter, E::TokBox) => run_iter::<TokBox>(case),
        (K::Iter, E::Word) => run_iter::<Word>(case),
        (K::Iter, E::Zst) => run_iter::<Zst>(case),
        (K::IterRef, E::Tok) => run_iter_ref::<Tok>(case),
        (K::IterRef, E::Word) => run_iter_ref::<Word>(case),
        (K::IterRefCloned, E::Tok) => run_iter_ref_cloned::<Tok>(case),
        (K::IterRefCloned, E::Word) => run_iter_ref_cloned::<Word>(case),
        (K::IterRefCopied, E::Word) => run_iter_ref_copied::<Word>(case),
        _ => unsupported(),
    }
}
fn unsupported() {
    panic!("HARNESS: unsupported source");
}

/// executes the case; the result is in `hist()`
pub fn run_case(case: &Case) {
    hist::reset();
    alloc::track_on();
    if case.multi.is_empty() {
        dispatch(case);
    } else {
        crate::multi::run(case);
    }
    let l = alloc::track_off();
    let h = hist();
    h.leaks = l.live;
    h.allocs = l.allocs;
    h.leak_overflow = l.overflowed;
    h.bad_free = l.bad_free;
    h.corrupt = l.corrupt;
}
