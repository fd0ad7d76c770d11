//! Random sequences of *safe* low-level public calls on consuming iterators, with an ownership ledger.
//! cfg(low_get) / cfg(low_store) / cfg(low_pull) are set iff the respective call compiles without `unsafe`.
#![allow(unused, unexpected_cfgs)]
use orx_concurrent_iter::iter::atomic_iter::*;
use orx_concurrent_iter::*;
use std::cell::RefCell;

thread_local! { static LEDGER: RefCell<Vec<i32>> = RefCell::new(vec![]); static BAD: RefCell<Option<String>> = RefCell::new(None); }
struct Tok(usize);
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.0;
        let n = LEDGER.with(|l| { let mut l = l.borrow_mut(); if id < l.len() { l[id] += 1; l[id] } else { 99 } });
        if n != 1 {
            BAD.with(|b| { b.borrow_mut().get_or_insert(format!("element {id} is dropped {n} times")); });
        }
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
}

#[cfg(low_pull)]
fn pull_at<C: ConcurrentIter<Item = Tok> + AtomicIter<Tok>>(c: &C, n: usize, at: usize) -> Vec<Tok> where C::BufferedIter: Sized {
    let mut b = <C::BufferedIter>::new(n);
    let v = b.pull(c, at).map(|x| x.collect()).unwrap_or_default();
    v
}
#[cfg(not(low_pull))]
fn pull_at<C>(_c: &C, _n: usize, _at: usize) -> Vec<Tok> { vec![] }

fn drive<C>(c: C, len: usize, rng: &mut Rng, wrapped: bool, log: &mut Vec<String>, low: &mut u32) where C: ConcurrentIter<Item = Tok> + AtomicIter<Tok> {
    let mut kept: Vec<Tok> = vec![];
    let n_ops = 1 + rng.below(9);
    for _ in 0..n_ops {
        let n = rng.below(5) as usize;
        let at = rng.below(len as u64 + 2) as usize;
        match rng.below(14) {
            0 => { log.push("next".into()); kept.extend(c.next()); }
            1 => { log.push("fetch_one".into()); *low += 1; kept.extend(c.fetch_one().map(|x| x.value)); }
            2 => { log.push(format!("next_chunk {n}")); if let Some(x) = c.next_chunk(n) { kept.extend(x.values) } }
            3 => { log.push(format!("fetch_n {n}")); *low += 1; if let Some(x) = c.fetch_n(n) { let k = rng.below(3) as usize; kept.extend(x.values.take(k)) } }
            4 => { log.push(format!("buffered {n}")); let mut b = c.buffered_iter(n + 1); if let Some(x) = b.next() { kept.extend(x.values) }; }
            5 if !wrapped => { log.push(format!("progress_and_get_begin_idx {n}")); *low += 1; let _ = c.progress_and_get_begin_idx(n); }
            6 if !wrapped => { log.push(format!("counter().fetch_and_add {n}")); *low += 1; c.counter().fetch_and_add(n); }
            7 if !wrapped => { log.push("counter().fetch_and_increment".into()); *low += 1; c.counter().fetch_and_increment(); }
            8 if rng.below(4) == 0 => { log.push("early_exit".into()); *low += 1; c.early_exit(); }
            9 if rng.below(4) == 0 => { log.push("skip_to_end".into()); c.skip_to_end(); }
            10 if !wrapped => {
                #[cfg(low_get)] { log.push(format!("get {at}")); *low += 1; kept.extend(c.get(at)); }
            }
            11 if !wrapped => {
                #[cfg(low_store)] { log.push(format!("counter().store {at}")); *low += 1; c.counter().store(at); }
            }
            12 if !wrapped => {
                #[cfg(low_pull)] { log.push(format!("BufferedIter::pull {n} at {at}")); *low += 1; kept.extend(pull_at(&c, n + 1, at)); }
            }
            13 => { log.push("counter().clone()/current()".into()); *low += 1; let k = c.counter().clone(); k.fetch_and_add(n); let _ = c.counter().current(); }
            _ => {}
        }
        if BAD.with(|b| b.borrow().is_some()) { std::mem::forget(kept); std::mem::forget(c); return; }
        let mut ids: Vec<usize> = kept.iter().map(|t| t.0).collect();
        ids.sort();
        if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
            BAD.with(|b| *b.borrow_mut() = Some(format!("element {} has two owners", w[0])));
            std::mem::forget(kept); std::mem::forget(c);
            return;
        }
        if let Some(id) = ids.iter().find(|i| **i >= len) {
            BAD.with(|b| *b.borrow_mut() = Some(format!("element {id} does not exist")));
            std::mem::forget(kept); std::mem::forget(c);
            return;
        }
        if rng.below(3) == 0 { kept.clear(); }
    }
    if rng.below(2) == 0 {
        log.push("into_seq_iter".into());
        let k = rng.below(3) as usize;
        let mut s = c.into_seq_iter();
        for _ in 0..k { kept.extend(s.next()); }
        drop(s);
    } else {
        drop(c);
    }
    drop(kept);
}

fn toks(n: usize) -> Vec<Tok> {
    LEDGER.with(|l| *l.borrow_mut() = vec![0; n]);
    (0..n).map(Tok).collect()
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (seed, from, to) = (a[0], a[1], a[2]);
    let mut nontriv = 0u64;
    let mut low_total = 0u64;
    let mut sample = String::new();
    for i in from..to {
        println!("case {i}");
        let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ i);
        rng.next();
        let mut log = vec![];
        let mut low = 0;
        let kind = rng.below(4);
        match kind {
            0 => { let n = rng.below(9) as usize; log.push(format!("vec of {n}")); drive(toks(n).into_con_iter(), n, &mut rng, false, &mut log, &mut low) }
            1 => { log.push("array of 4".into()); let v: [Tok; 4] = toks(4).try_into().ok().unwrap(); drive(v.into_con_iter(), 4, &mut rng, false, &mut log, &mut low) }
            2 => { log.push("array of 0".into()); let v: [Tok; 0] = toks(0).try_into().ok().unwrap(); drive(v.into_con_iter(), 0, &mut rng, false, &mut log, &mut low) }
            _ => { let n = rng.below(9) as usize; log.push(format!("iterator of {n}")); let v = toks(n); drive(IterIntoConcurrentIter::into_con_iter(v.into_iter()), n, &mut rng, true, &mut log, &mut low) }
        }
        if low > 0 && log.len() > 2 { nontriv += 1; }
        low_total += low as u64;
        if sample.is_empty() && low > 2 { sample = log.join("; "); }
        if let Some(b) = BAD.with(|b| b.borrow_mut().take()) {
            println!("BAD {i}: {b}: {}", log.join("; "));
            std::process::exit(1);
        }
    }
    println!("DONE {nontriv} {low_total} {sample}");
}
