//! C19: several iterators over one collection.
use crate::elems::*;
use crate::interp::*;
use crate::run::{cap, range_of, solo, INSTRUMENTED};
use orx_concurrent_iter::*;
use vcore::alloc::rt_guard;
use vcore::case::*;
use vcore::engine::eng;
use vcore::hist::{self, hist, Item};

macro_rules! boxed {
    ($e:expr) => {{
        let c = $e;
        let _g = rt_guard();
        Box::new(c) as Box<dyn FnOnce() + '_>
    }};
}

/// identifiers of iterators: 0..16 shared, 16 + 8 t + j the j-th iterator local to thread t
const LOCAL: usize = 8;

fn seq_part<C>(c: C, it: u8, k: u32)
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let mut s = c.into_seq_iter();
    let mut n = 0;
    let mut done = false;
    let mut items: Vec<Item> = Vec::new();
    while n < k {
        match s.next() {
            Some(v) => {
                let o = v.obs();
                let _g = rt_guard();
                items.push(Item { idx: None, val: o.val, tok: o.tok, addr: o.addr, stamp: 0, epoch: 0, alive: o.alive });
            }
            None => {
                done = true;
                break;
            }
        }
        n += 1;
    }
    let _g = rt_guard();
    let h = hist();
    let at = h.order.len() as u64;
    h.it_seq.push((it, items, done));
    h.notes.push(format!("seq {} {}", it, at));
}

struct Shared<'a, C, R: Fn()> {
    mk: &'a dyn Fn(u8) -> C,
    read: R,
}

/// operations of the single-threaded phases; true: hung
fn solo_phase<C, R: Fn()>(ops: &[MultiOp], its: &mut Vec<Option<C>>, kept: &mut Kept<C::Item>, sh: &Shared<C, R>) -> bool
where
    C: ConcurrentIter + Clone,
    C::Item: Obsv,
{
    let mut hung = false;
    for op in ops {
        match op {
            MultiOp::New(r) => {
                if its.len() < 16 {
                    its.push(Some((sh.mk)(*r)));
                    let _g = rt_guard();
                    hist().it_start.push(0);
                }
            }
            MultiOp::Clone(i) => {
                let j = *i as usize;
                if its.len() < 16 {
                    if let Some(Some(c)) = its.get(j) {
                        let c2 = c.clone();
                        its.push(Some(c2));
                        let _g = rt_guard();
                        // marker resolved by the oracle: clone of j taken at this point of the order
                        let h = hist();
                        let at = h.order.len() as u64;
                        h.it_start.push((1 << 63) | ((j as u64) << 32) | at);
                    }
                }
            }
            MultiOp::On(i, op) => {
                if let Some(Some(c)) = its.get(*i as usize) {
                    hist::set_it(*i);
                    let k = &mut *kept;
                    hung = solo(boxed!(move || run_op(c, op, k)));
                }
            }
            MultiOp::Drop(i) => {
                if let Some(c) = its.get_mut(*i as usize) {
                    drop(c.take());
                }
            }
            MultiOp::Seq(i, k) => {
                if let Some(o) = its.get_mut(*i as usize) {
                    if let Some(c) = o.take() {
                        seq_part(c, *i, *k);
                    }
                }
            }
            MultiOp::Read => (sh.read)(),
        }
        if hung {
            return true;
        }
    }
    false
}

/// operations of one concurrent thread: indices below the number of shared iterators address those, larger
/// ones the thread's own iterators
fn thread_phase<C, R: Fn()>(t: usize, ops: &[MultiOp], its: &[Option<C>], live: &[usize], kept: &mut Kept<C::Item>, sh: &Shared<C, R>)
where
    C: ConcurrentIter + Clone,
    C::Item: Obsv,
{
    let mut own: Vec<Option<C>> = {
        let _g = rt_guard();
        Vec::with_capacity(LOCAL)
    };
    let id = |j: usize| (16 + LOCAL * t + j) as u8;
    for op in ops {
        vcore::engine::yield_point();
        let pick = |i: u8, own: &Vec<Option<C>>| -> Option<(u8, bool, usize)> {
            let i = i as usize % (live.len() + own.len());
            if i < live.len() {
                Some((live[i] as u8, true, live[i]))
            } else {
                let j = i - live.len();
                own[j].as_ref().map(|_| (id(j), false, j))
            }
        };
        match op {
            MultiOp::New(r) => {
                if own.len() < LOCAL {
                    let c = (sh.mk)(*r);
                    let j = own.len();
                    own.push(Some(c));
                    let _g = rt_guard();
                    let h = hist();
                    let at = h.order.len();
                    h.notes.push(format!("new {} {}", id(j), at));
                }
            }
            MultiOp::Clone(i) => {
                if own.len() < LOCAL {
                    if let Some((pid, shared, j)) = pick(*i, &own) {
                        let r = hist::clone_begin(pid, id(own.len()));
                        let c = if shared { its[j].as_ref().unwrap().clone() } else { own[j].as_ref().unwrap().clone() };
                        hist::clone_end(r);
                        own.push(Some(c));
                    }
                }
            }
            MultiOp::On(i, op) => {
                if let Some((it, shared, j)) = pick(*i, &own) {
                    hist::set_it_of_thread(it);
                    let c = if shared { its[j].as_ref().unwrap() } else { own[j].as_ref().unwrap() };
                    run_op(c, op, kept);
                }
            }
            MultiOp::Drop(i) => {
                if let Some((_, false, j)) = pick(*i, &own) {
                    drop(own[j].take());
                }
            }
            MultiOp::Seq(i, k) => {
                if let Some((it, false, j)) = pick(*i, &own) {
                    seq_part(own[j].take().unwrap(), it, *k);
                }
            }
            MultiOp::Read => (sh.read)(),
        }
    }
    for c in own.iter_mut() {
        drop(c.take());
    }
    let _g = rt_guard();
    drop(own);
}

fn program<C>(case: &Case, mk: impl Fn(u8) -> C, read: impl Fn())
where
    C: ConcurrentIter + Clone,
    C::Item: Obsv,
{
    let cp = cap(&case.src);
    vcore::engine::eng().allowance = cp * 8;
    hist().instrumented = INSTRUMENTED;
    let sh = Shared { mk: &mk, read };
    let mut its: Vec<Option<C>> = {
        let _g = rt_guard();
        Vec::with_capacity(32)
    };
    let mut kept: Kept<C::Item> = Kept::new(case.keep, cp);
    hist::phase_start(0);
    if solo_phase(&case.multi, &mut its, &mut kept, &sh) {
        std::mem::forget(its);
        std::mem::forget(kept);
        return;
    }
    // concurrent part: thread t of `threads` works on iterator t % (number of live iterators)
    hist::phase_start(1);
    hist().it_before_threads = hist().it_start.len();
    let live: Vec<usize> = {
        let _g = rt_guard();
        (0..its.len()).filter(|i| its[*i].is_some()).collect()
    };
    let nt = if case.mth.is_empty() { case.threads.len() } else { case.mth.len() };
    let mut kepts: Vec<Kept<C::Item>> = {
        let _g = rt_guard();
        (0..nt).map(|_| Kept::new(case.keep, cp)).collect()
    };
    let mut hung = false;
    if INSTRUMENTED && nt > 0 && !live.is_empty() {
        {
            let mut fs: Vec<Box<dyn FnOnce() + '_>> = {
                let _g = rt_guard();
                Vec::with_capacity(nt)
            };
            if case.mth.is_empty() {
                for (t, (ops, k)) in case.threads.iter().zip(kepts.iter_mut()).enumerate() {
                    let i = live[t % live.len()];
                    let c = its[i].as_ref().unwrap();
                    fs.push(boxed!(move || {
                        for op in ops {
                            vcore::engine::yield_point();
                            hist::set_it_of_thread(i as u8);
                            run_op(c, op, k);
                        }
                    }));
                }
            } else {
                for (t, (ops, k)) in case.mth.iter().zip(kepts.iter_mut()).enumerate() {
                    let (its, live, sh) = (&its, &live, &sh);
                    fs.push(boxed!(move || thread_phase(t, ops, its, live, k, sh)));
                }
            }
            hung = eng().run(fs, &case.sched, None);
        }
        {
            let _g = rt_guard();
            hist().trace = eng().trace.clone();
            hist().trace_reads = eng().trace_reads.clone();
        }
        hist().switches = eng().switches;
        hist().atomic_ops = eng().atomic_ops;
    }
    if !hung && !case.mtail.is_empty() {
        hist::phase_start(2);
        hung = solo_phase(&case.mtail, &mut its, &mut kept, &sh);
    }
    if hung {
        std::mem::forget(its);
        std::mem::forget(kepts);
        std::mem::forget(kept);
        return;
    }
    for k in kepts.iter_mut() {
        k.verify("a delivered reference no longer shows its element");
        k.free();
    }
    drop(std::mem::take(&mut its));
    kept.verify("a delivered reference no longer shows its element");
    kept.free();
    let _g = rt_guard();
    drop(kepts);
    drop(kept);
    drop(live);
}

fn read_all<T: Elem>(src: &Src, s: &[T]) {
    for (i, x) in s.iter().enumerate() {
        let o = x.obs();
        let want = if T::T == ElemT::Zst { None } else { Some(src.val(i as u64)) };
        if o.val != want || !o.alive {
            hist::source_error(format!("element {i} of the collection changed"));
        }
    }
}

fn on_vec<T: Elem>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let mut v: Vec<T> = Vec::with_capacity(case.src.len + case.src.cap);
    for p in 0..case.src.len as u64 {
        v.push(T::make(&case.src, p));
    }
    hist().base = v.as_ptr() as usize;
    hist().stride = std::mem::size_of::<T>();
    program(
        case,
        |r| match r % 4 {
            0 => v.con_iter(),
            1 => v.as_slice().into_con_iter(),
            2 => ConIterOfSlice::new(v.as_slice()),
            _ => ConIterOfSlice::from(v.as_slice()),
        },
        || read_all(&case.src, &v),
    );
    read_all(&case.src, &v);
    // still fully usable and owned
    if v.len() != case.src.len || v.as_ptr() as usize != hist().base {
        hist::source_error("the collection was resized or moved".into());
    }
    v.truncate(case.src.len / 2);
    let w: Vec<T> = v.into_iter().collect();
    read_all(&case.src, &w);
}

fn on_array<T: Elem, const N: usize>(case: &Case)
where
    for<'a> &'a T: Obsv,
{
    let a: [T; N] = std::array::from_fn(|i| T::make(&case.src, i as u64));
    hist().base = a.as_ptr() as usize;
    hist().stride = std::mem::size_of::<T>();
    program(case, |_| a.con_iter(), || read_all(&case.src, &a));
    read_all(&case.src, &a);
}

fn on_range(case: &Case) {
    let r = range_of(&case.src);
    program(
        case,
        |k| match k % 3 {
            0 => r.con_iter(),
            1 => IntoConcurrentIter::into_con_iter(r.clone()),
            _ => ConIterOfRange::new(r.clone()),
        },
        || {},
    );
    if r != range_of(&case.src) {
        hist::source_error("the range changed".into());
    }
}

pub fn run(case: &Case) {
    use ElemT as E;
    use Kind as K;
    match (case.src.kind, case.src.elem) {
        (K::Slice, E::Tok) => on_vec::<Tok>(case),
        (K::Slice, E::Word) => on_vec::<Word>(case),
        (K::Slice, E::Small) => on_vec::<Small>(case),
        (K::Array, E::Tok) => match case.src.len {
            0 => on_array::<Tok, 0>(case),
            1 => on_array::<Tok, 1>(case),
            5 => on_array::<Tok, 5>(case),
            8 => on_array::<Tok, 8>(case),
            _ => panic!("HARNESS: unsupported source"),
        },
        (K::Range, _) => on_range(case),
        _ => panic!("HARNESS: unsupported source"),
    }
}
