//! Interpreter: executes operation lists against any `ConcurrentIter` and records what comes back.
use crate::elems::Obsv;
use orx_concurrent_iter::{ConcurrentIter, HasMore};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::alloc::rt_guard;
use vcore::case::{BufStep, Op, Site, Tail, Take};
use vcore::engine::{active, eng, yield_point};
use vcore::hist::{self, Obs, QRes, Res, M};

/// elements kept alive until the end of the case
pub struct Kept<T> {
    pub v: Vec<(T, Obs)>,
    pub on: bool,
    pub cap: u64,
}
impl<T: Obsv> Kept<T> {
    pub fn new(on: bool, cap: u64) -> Self {
        Kept { v: Vec::new(), on, cap }
    }
    #[inline(never)]
    fn put(&mut self, t: T, o: Obs) {
        if self.on {
            let _g = rt_guard();
            self.v.push((t, o));
        } else {
            drop(t);
        }
    }
    pub fn verify(&self, what: &str) {
        for (t, o) in &self.v {
            let n = t.obs();
            if n.val != o.val || n.tok != o.tok || (o.alive && !n.alive) {
                hist::kept_error(what);
            }
        }
    }
    pub fn free(&mut self) {
        let v = std::mem::take(&mut self.v);
        let n = v.len();
        let mut it = v.into_iter();
        for _ in 0..n {
            drop(it.next());
        }
        let _g = rt_guard();
        drop(it);
    }
}

/// payload of the client's own panics
struct Client;

/// runs `f` in a destructor while a panic unwinds
pub fn while_unwinding(f: impl FnOnce()) {
    struct G<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for G<F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f()
            }
        }
    }
    let r = catch_unwind(AssertUnwindSafe(move || {
        let _g = G(Some(f));
        std::panic::panic_any(Client)
    }));
    let _g = rt_guard();
    drop(r);
}

fn guarded(what: &'static str, pid: Option<usize>, f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => true,
        Err(p) => {
            if let Some(i) = pid {
                if hist::hist().pulls[i].res == Res::Running {
                    hist::pull_end(i, Res::Panicked);
                }
            }
            hist::panicked(what, p);
            false
        }
    }
}

fn consume<T: Obsv, I: ExactSizeIterator<Item = T>>(
    pid: usize,
    begin: usize,
    mut values: I,
    take: Take,
    kept: &mut Kept<T>,
    inner: impl FnOnce(&mut Kept<T>),
) -> bool {
    let announced = values.len();
    hist::pull_chunk(pid, begin as u64, announced as u64);
    hist::pull_end(pid, Res::Got);
    let (lo, hi) = values.size_hint();
    if lo != announced || hi != Some(announced) {
        hist::pull_len_bad(pid, "size_hint", lo as u64, hi.map(|x| x as u64).unwrap_or(u64::MAX), announced as u64);
    }
    let mut y = 0usize;
    let put = |y: &mut usize, v: T, kept: &mut Kept<T>| {
        let o = v.obs();
        hist::pull_item(pid, Some((begin as u64).wrapping_add(*y as u64)), o);
        kept.put(v, o);
        *y += 1;
        yield_point();
    };
    let max = match take {
        Take::All => usize::MAX,
        Take::First(k) | Take::Forget(k) | Take::Boom(k) => k as usize,
        Take::Mix(k, _) => k as usize,
        _ => 0,
    };
    match take {
        Take::Mix(..) | Take::All | Take::First(_) | Take::Forget(_) | Take::Boom(_) | Take::None => {
            while y < max {
                if values.len() != announced.wrapping_sub(y) {
                    hist::pull_len_bad(pid, "len", values.len() as u64, 0, announced.wrapping_sub(y) as u64);
                }
                match values.next() {
                    Some(v) => put(&mut y, v, kept),
                    None => {
                        hist::pull_complete(pid);
                        // the chunk is over for good
                        if let Some(v) = values.next() {
                            put(&mut y, v, kept);
                        }
                        break;
                    }
                }
                let left = announced.wrapping_sub(y);
                if values.size_hint() != (left, Some(left)) {
                    hist::pull_len_bad(pid, "size_hint", values.size_hint().0 as u64, 0, left as u64);
                }
                if y > announced && y - announced > 3 {
                    break;
                }
            }
        }
        _ => {}
    }
    inner(kept);
    // a chunk that was partly consumed goes on from there
    let before = y;
    let rest = announced.saturating_sub(before);
    let take = match take {
        Take::Mix(_, t) => match t {
            Tail::Each => Take::Each,
            Tail::Collect => Take::Collect,
            Tail::Last => Take::Last,
            Tail::Count => Take::Count,
            Tail::Nth(k) => Take::Nth(k),
            Tail::SkipEach(k) => Take::SkipEach(k),
            Tail::Try(_) => take,
        },
        t => t,
    };
    match take {
        Take::Mix(_, Tail::Try(k)) => {
            let mut left = k;
            let _ = values.try_for_each(|v| {
                put(&mut y, v, kept);
                left = left.saturating_sub(1);
                match left == 0 || y > announced {
                    true => std::ops::ControlFlow::Break(()),
                    false => std::ops::ControlFlow::Continue(()),
                }
            });
            if values.len() != announced.wrapping_sub(y) {
                hist::pull_len_bad(pid, "len after try_for_each", values.len() as u64, 0, announced.wrapping_sub(y) as u64);
            }
            while let Some(v) = values.next() {
                put(&mut y, v, kept);
                if y > announced && y - announced > 3 {
                    break;
                }
            }
            hist::pull_complete(pid);
        }
        Take::Each => {
            let cap = kept.cap;
            values.for_each(|v| {
                put(&mut y, v, kept);
                if y as u64 > cap {
                    hist::limit();
                }
            });
            hist::pull_complete(pid);
        }
        Take::Collect => {
            let v: Vec<T> = values.collect();
            for x in v {
                put(&mut y, x, kept);
            }
            hist::pull_complete(pid);
        }
        Take::Nth(k) => {
            let r = values.nth(k as usize);
            match before {
                0 => hist::pull_skipped(pid, (k as u64).min(rest as u64)),
                _ => hist::pull_jumps(pid),
            }
            if let Some(v) = r {
                y = before + k as usize;
                put(&mut y, v, kept);
            } else if (k as usize) < rest {
                hist::pull_len_bad(pid, "nth", k as u64, 0, rest as u64);
            }
        }
        Take::Step(k) => {
            hist::pull_jumps(pid);
            loop {
                match values.nth(k as usize) {
                    Some(v) => {
                        y = y.saturating_add(k as usize);
                        put(&mut y, v, kept);
                    }
                    None => {
                        if announced.saturating_sub(y) > k as usize {
                            hist::pull_len_bad(pid, "nth", k as u64, 0, (announced - y) as u64);
                        }
                        // nth(k) returning None consumed the rest
                        if values.len() != 0 {
                            hist::pull_len_bad(pid, "len after nth", values.len() as u64, 0, 0);
                        }
                        break;
                    }
                }
                if y <= announced && values.len() != announced - y {
                    hist::pull_len_bad(pid, "len", values.len() as u64, 0, (announced - y) as u64);
                }
                if y > announced && y - announced > 3 {
                    break;
                }
            }
        }
        Take::SkipEach(k) => {
            hist::pull_jumps(pid);
            let cap = kept.cap;
            y = before + (k as usize).min(rest);
            values.skip(k as usize).for_each(|v| {
                put(&mut y, v, kept);
                if y as u64 > cap {
                    hist::limit();
                }
            });
            if y != announced {
                hist::pull_len_bad(pid, "skip().for_each()", y as u64, 0, announced as u64);
            }
        }
        Take::Last => {
            hist::pull_jumps(pid);
            match values.last() {
                Some(v) => {
                    y = announced.wrapping_sub(1);
                    put(&mut y, v, kept);
                }
                None => {
                    if rest > 0 {
                        hist::pull_len_bad(pid, "last", 0, 0, announced as u64);
                    }
                }
            }
        }
        Take::Count => {
            hist::pull_jumps(pid);
            let n = values.count();
            if n != rest {
                hist::pull_len_bad(pid, "count", n as u64, n as u64, rest as u64);
            }
        }
        Take::Forget(_) => {
            hist::pull_forgot(pid);
            std::mem::forget(values);
        }
        Take::Boom(_) => while_unwinding(move || drop(values)),
        _ => drop(values),
    }
    true
}

fn single<T: Obsv>(pid: usize, r: Option<(Option<usize>, T)>, kept: &mut Kept<T>) -> bool {
    match r {
        None => {
            hist::pull_end(pid, Res::End);
            false
        }
        Some((idx, v)) => {
            let o = v.obs();
            hist::pull_item(pid, idx.map(|x| x as u64), o);
            hist::pull_end(pid, Res::Got);
            kept.put(v, o);
            true
        }
    }
}

/// the ways in which std's Iterator methods walk an iterator to its end
fn adapted<I: Iterator>(mut it: I, how: u8, mut visit: impl FnMut(I::Item)) {
    match how % 6 {
        0 => it.for_each(visit),
        1 => {
            it.position(|x| {
                visit(x);
                false
            });
        }
        2 => {
            it.any(|x| {
                visit(x);
                false
            });
        }
        3 => it.fold((), |_, x| visit(x)),
        4 => {
            while let Some(x) = it.by_ref().next() {
                visit(x);
            }
        }
        _ => it.filter_map(|x| Some(visit(x))).for_each(|_| {}),
    }
}

/// yields at operation boundaries
fn boundary() {
    if active() {
        yield_point();
    }
}

pub fn run_ops<C>(c: &C, ops: &[Op], kept: &mut Kept<C::Item>)
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    for op in ops {
        boundary();
        run_op(c, op, kept);
    }
}

fn one<C>(c: &C, m: M, kept: &mut Kept<C::Item>) -> Option<bool>
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let pid = hist::pull_begin(m, 1);
    let mut got = None;
    guarded("single pull", Some(pid), || {
        let r = match m {
            M::Next => c.next().map(|v| (None, v)),
            _ => c.next_id_and_value().map(|x| (Some(x.idx), x.value)),
        };
        got = Some(single(pid, r, kept));
    });
    got
}

fn chunk<C>(c: &C, n: u64, take: Take, inner: &[Op], kept: &mut Kept<C::Item>) -> Option<bool>
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let pid = hist::pull_begin(M::Chunk, n);
    let mut got = None;
    guarded("next_chunk", Some(pid), || match c.next_chunk(n as usize) {
        None => {
            hist::pull_end(pid, Res::End);
            got = Some(false);
        }
        Some(ch) => {
            consume(pid, ch.begin_idx, ch.values, take, kept, |k| run_ops(c, inner, k));
            got = Some(true);
        }
    });
    got
}

pub fn run_op<C>(c: &C, op: &Op, kept: &mut Kept<C::Item>)
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let cap = kept.cap;
    match op {
        Op::Next => {
            one(c, M::Next, kept);
        }
        Op::NextId => {
            one(c, M::NextId, kept);
        }
        Op::DrainNext | Op::DrainId => {
            let m = if *op == Op::DrainNext { M::Next } else { M::NextId };
            let mut k = 0;
            let mut bad = 0;
            loop {
                match one(c, m, kept) {
                    Some(true) => {}
                    Some(false) => break,
                    None => {
                        bad += 1;
                        if bad > 2 {
                            break;
                        }
                    }
                }
                k += 1;
                if k > cap {
                    hist::note("runaway");
                    break;
                }
                boundary();
            }
        }
        Op::Values(k) | Op::Ids(k) => for_loop(c, *k as u64, matches!(op, Op::Values(_)), kept),
        Op::DrainValues => for_loop(c, u64::MAX, true, kept),
        Op::DrainIds => for_loop(c, u64::MAX, false, kept),
        Op::ValuesBatch(k) | Op::IdsBatch(k) => {
            // the for-loop adaptors used through std's Iterator combinators
            let pid = hist::pull_begin(M::Batch, *k as u64);
            guarded("for-loop adaptor .take().for_each()", Some(pid), || {
                let mut n = 0u32;
                let mut visit = |i: Option<usize>, v: C::Item| {
                    let o = v.obs();
                    hist::pull_item(pid, i.map(|x| x as u64), o);
                    kept.put(v, o);
                    n += 1;
                    if n as u64 > cap {
                        hist::limit();
                    }
                    yield_point();
                };
                if matches!(op, Op::ValuesBatch(_)) {
                    c.values().take(*k as usize).for_each(|v| visit(None, v));
                } else {
                    c.ids_and_values().take(*k as usize).for_each(|(i, v)| visit(Some(i), v));
                }
                hist::pull_end(pid, if n < *k { Res::End } else { Res::Got });
            });
        }
        Op::Chunk { n, take, inner } => {
            chunk(c, *n, *take, inner, kept);
        }
        Op::DrainChunk(n) => {
            let mut k = 0;
            let mut bad = 0;
            loop {
                match chunk(c, *n, Take::All, &[], kept) {
                    Some(true) => {}
                    Some(false) => break,
                    None => {
                        bad += 1;
                        if bad > 2 {
                            break;
                        }
                    }
                }
                k += 1;
                if k > cap {
                    hist::note("runaway");
                    break;
                }
                boundary();
            }
        }
        Op::Buf { n, body } => {
            guarded(if *n == 0 { "zero:buffered_iter" } else { "buffered_iter" }, None, || {
                let mut b = c.buffered_iter(*n as usize);
                if *n == 0 {
                    hist::note("zero:buffered_iter(0) was accepted");
                    return;
                }
                for step in body {
                    boundary();
                    match step {
                        BufStep::Do(op) => run_op(c, op, kept),
                        BufStep::Pull { take, inner } => {
                            let pid = hist::pull_begin(M::Buf, *n);
                            guarded("buffered next", Some(pid), || match b.next() {
                                None => hist::pull_end(pid, Res::End),
                                Some(ch) => {
                                    consume(pid, ch.begin_idx, ch.values, *take, kept, |k| run_ops(c, inner, k));
                                }
                            });
                        }
                        BufStep::Drain => {
                            let mut k = 0;
                            let mut bad = 0;
                            loop {
                                let pid = hist::pull_begin(M::Buf, *n);
                                let mut go = false;
                                let ok = guarded("buffered next", Some(pid), || match b.next() {
                                    None => hist::pull_end(pid, Res::End),
                                    Some(ch) => {
                                        consume(pid, ch.begin_idx, ch.values, Take::All, kept, |_| {});
                                        go = true;
                                    }
                                });
                                if !ok {
                                    bad += 1;
                                    go = bad < 3;
                                }
                                k += 1;
                                if k > cap {
                                    hist::note("runaway");
                                    break;
                                }
                                if !go {
                                    break;
                                }
                                boundary();
                            }
                        }
                    }
                }
            });
        }
        Op::ForEach(n) => composite(c, M::ForEach, *n, None, kept),
        Op::Enum(n) => composite(c, M::Enum, *n, None, kept),
        Op::Fold(n) => composite(c, M::Fold, *n, None, kept),
        Op::Nest { m, n, at, inner } => {
            let m = [M::ForEach, M::Enum, M::Fold][*m as usize % 3];
            composite(c, m, *n, Some((*at as u64, inner)), kept)
        }
        Op::AdaptNth { ids, k } => {
            let pid = hist::pull_begin(M::Nth, 1);
            guarded("for-loop adaptor", Some(pid), || {
                hist::pull_skipped(pid, *k as u64);
                let r = if *ids {
                    c.ids_and_values().nth(*k as usize).map(|(i, v)| (Some(i), v))
                } else {
                    c.values().nth(*k as usize).map(|v| (None, v))
                };
                single(pid, r, kept);
            });
        }
        Op::AdaptAll { ids, how } => {
            let pid = hist::pull_begin(M::Batch, u64::MAX);
            guarded("for-loop adaptor, consumed to the end", Some(pid), || {
                let mut n = 0u64;
                let mut visit = |i: Option<usize>, v: C::Item| {
                    let o = v.obs();
                    hist::pull_item(pid, i.map(|x| x as u64), o);
                    kept.put(v, o);
                    n += 1;
                    if n > cap {
                        hist::limit();
                    }
                    yield_point();
                };
                if *ids {
                    adapted(c.ids_and_values(), *how, |(i, v)| visit(Some(i), v));
                } else {
                    adapted(c.values(), *how, |v| visit(None, v));
                }
                hist::pull_end(pid, Res::End);
            });
        }
        Op::AdaptEnd { ids, last } => {
            let pid = hist::pull_begin(M::Nth, 1);
            guarded("for-loop adaptor", Some(pid), || {
                if *last {
                    hist::pull_last(pid);
                    let r = if *ids {
                        c.ids_and_values().last().map(|(i, v)| (Some(i), v))
                    } else {
                        c.values().last().map(|v| (None, v))
                    };
                    single(pid, r, kept);
                } else {
                    let n = if *ids { c.ids_and_values().count() } else { c.values().count() };
                    hist::pull_counted(pid, n as u64);
                    hist::pull_end(pid, Res::End);
                }
            });
        }
        Op::Skip => {
            let i = hist::skip_begin();
            if guarded("skip_to_end", None, || c.skip_to_end()) {
                hist::skip_end(i);
            }
        }
        Op::Len => {
            let i = hist::query_begin();
            guarded("try_get_len", None, || {
                let r = c.try_get_len();
                hist::query_end(i, QRes::Len(r.map(|x| x as u64)));
            });
        }
        Op::More => {
            let i = hist::query_begin();
            guarded("has_more", None, || {
                let r = match c.has_more() {
                    HasMore::Yes(n) => QRes::Yes(n as u64),
                    HasMore::Maybe => QRes::Maybe,
                    HasMore::No => QRes::No,
                };
                hist::query_end(i, r);
            });
        }
        Op::Unwind(inner) => while_unwinding(|| run_ops(c, inner, kept)),
        Op::Sync => {
            if active() {
                eng().sync_chan(0);
            }
        }
    }
}

/// ends the nesting also when the nested operations panic
struct Nesting(usize);
impl Drop for Nesting {
    fn drop(&mut self) {
        hist::nest(self.0, false);
    }
}

fn composite<C>(c: &C, m: M, n: u64, nest: Option<(u64, &Vec<Op>)>, kept: &mut Kept<C::Item>)
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let cap = kept.cap;
    let pid = hist::pull_begin(m, n);
    let name = match (m, n == 0) {
        (M::ForEach, false) => "for_each",
        (M::ForEach, true) => "zero:for_each",
        (M::Enum, false) => "enumerate_for_each",
        (M::Enum, true) => "zero:enumerate_for_each",
        (_, false) => "fold",
        (_, true) => "zero:fold",
    };
    let mut visit = |idx: Option<usize>, v: C::Item| {
        let o = v.obs();
        let k = hist::pull_items(pid);
        hist::pull_item(pid, idx.map(|i| i as u64), o);
        kept.put(v, o);
        hist::site(Site::Closure);
        if k + 1 > cap {
            hist::limit();
        }
        yield_point();
        if let Some((at, inner)) = nest {
            if at == k {
                hist::nest(pid, true);
                let _n = Nesting(pid);
                run_ops(c, inner, kept);
            }
        }
        o
    };
    guarded(name, Some(pid), || {
        match m {
            M::ForEach => c.for_each(n as usize, |v| {
                visit(None, v);
            }),
            M::Enum => c.enumerate_for_each(n as usize, |i, v| {
                visit(Some(i), v);
            }),
            _ => {
                // order-sensitive accumulation from a start value that is not neutral
                let mut own = (3u64, 5u64);
                let r = c.fold(n as usize, own, |a, v| {
                    let o = visit(None, v);
                    let x = vcore::rng::mix(o.val.unwrap_or(1));
                    let f = |a: (u64, u64)| (a.0 + 1, a.1.wrapping_mul(0x9E37_79B9).wrapping_add(x));
                    own = f(own);
                    f(a)
                });
                hist::pull_fold(pid, r == own);
            }
        }
        hist::pull_end(pid, Res::End);
    });
}

fn for_loop<C>(c: &C, k: u64, values: bool, kept: &mut Kept<C::Item>)
where
    C: ConcurrentIter,
    C::Item: Obsv,
{
    let cap = kept.cap;
    let mut vals = c.values();
    let mut ids = c.ids_and_values();
    let mut i = 0;
    let mut bad = 0;
    while i < k {
        let pid = hist::pull_begin(if values { M::Values } else { M::Ids }, 1);
        let mut go = false;
        let ok = guarded("for-loop adaptor", Some(pid), || {
            let r = if values {
                vals.next().map(|v| (None, v))
            } else {
                ids.next().map(|(i, v)| (Some(i), v))
            };
            go = single(pid, r, kept);
        });
        if !ok {
            bad += 1;
            go = bad < 3;
        }
        i += 1;
        if i > cap {
            hist::note("runaway");
            break;
        }
        if !go {
            break;
        }
        boundary();
    }
}
