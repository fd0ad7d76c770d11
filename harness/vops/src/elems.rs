//! Element types of the generated sources and the probe (wrapped) iterators.
use std::mem::ManuallyDrop;
use vcore::case::{ElemT, Hint, Site, Src};
use vcore::engine::yield_point;
use vcore::hist::{self, Obs, MAGIC};

pub trait Elem: Send + Sync + Sized + 'static {
    const T: ElemT;
    fn make(src: &Src, pos: u64) -> Self;
    fn obs(&self) -> Obs;
}
/// anything a concurrent iterator can deliver in this harness
pub trait Obsv {
    fn obs(&self) -> Obs;
}

const NOTOK: u32 = u32::MAX;

// ---- Tok
pub struct Tok {
    id: u32,
    magic: u32,
    val: u64,
}
impl Tok {
    fn new(pos: u64, val: u64, parent: u32) -> Self {
        Tok { id: hist::tok_new(pos, val, parent), magic: MAGIC, val }
    }
}
impl Elem for Tok {
    const T: ElemT = ElemT::Tok;
    fn make(src: &Src, pos: u64) -> Self {
        Tok::new(pos, src.val(pos), NOTOK)
    }
    fn obs(&self) -> Obs {
        Obs {
            val: Some(self.val),
            tok: self.id,
            addr: self as *const _ as usize,
            alive: hist::tok_alive(self.id, self.magic, self.val),
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        hist::tok_drop(self.id, self.magic, self.val);
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        yield_point();
        hist::site(Site::Clone);
        if !hist::tok_alive(self.id, self.magic, self.val) {
            hist::kept_error("clone of an element that is not alive");
        }
        hist::cloned();
        Tok::new(vcore_pos(self.id), self.val, self.id)
    }
}
fn vcore_pos(id: u32) -> u64 {
    let h = hist::hist();
    h.toks.get(id as usize).map(|t| t.pos).unwrap_or(u64::MAX)
}

// ---- TokBox
pub struct TokBox {
    tok: ManuallyDrop<Tok>,
    b: ManuallyDrop<Box<u64>>,
}
impl Elem for TokBox {
    const T: ElemT = ElemT::TokBox;
    fn make(src: &Src, pos: u64) -> Self {
        let v = src.val(pos);
        TokBox { tok: ManuallyDrop::new(Tok::new(pos, v, NOTOK)), b: ManuallyDrop::new(Box::new(v)) }
    }
    fn obs(&self) -> Obs {
        let mut o = Elem::obs(&*self.tok);
        o.addr = self as *const _ as usize;
        if o.alive && **self.b != self.tok.val {
            o.alive = false;
        }
        o
    }
}
impl Drop for TokBox {
    fn drop(&mut self) {
        // an illegal second drop is recorded, not executed on the heap block
        if hist::tok_drop(self.tok.id, self.tok.magic, self.tok.val) {
            unsafe { ManuallyDrop::drop(&mut self.b) };
        }
    }
}
impl Clone for TokBox {
    fn clone(&self) -> Self {
        let t = (*self.tok).clone();
        TokBox { b: ManuallyDrop::new(Box::new(t.val)), tok: ManuallyDrop::new(t) }
    }
}

// ---- Word
#[derive(Clone, Copy)]
pub struct Word(pub u64);
impl Elem for Word {
    const T: ElemT = ElemT::Word;
    fn make(src: &Src, pos: u64) -> Self {
        Word(src.val(pos))
    }
    fn obs(&self) -> Obs {
        Obs { val: Some(self.0), tok: NOTOK, addr: self as *const _ as usize, alive: true }
    }
}

// ---- Small
#[derive(Clone, Copy)]
pub struct Small(pub u8);
impl Elem for Small {
    const T: ElemT = ElemT::Small;
    fn make(src: &Src, pos: u64) -> Self {
        Small(src.val(pos) as u8)
    }
    fn obs(&self) -> Obs {
        Obs { val: Some(self.0 as u64), tok: NOTOK, addr: self as *const _ as usize, alive: true }
    }
}

// ---- Big
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Big([u64; 9]);
impl Elem for Big {
    const T: ElemT = ElemT::Big;
    fn make(src: &Src, pos: u64) -> Self {
        let v = src.val(pos);
        let mut a = [v; 9];
        for (i, x) in a.iter_mut().enumerate() {
            *x = v.wrapping_add(i as u64);
        }
        Big(a)
    }
    fn obs(&self) -> Obs {
        let v = self.0[0];
        let ok = (0..9).all(|i| self.0[i] == v.wrapping_add(i as u64));
        Obs { val: Some(v), tok: NOTOK, addr: self as *const _ as usize, alive: ok }
    }
}

// ---- Zst
pub struct Zst(());
impl Elem for Zst {
    const T: ElemT = ElemT::Zst;
    fn make(_: &Src, _: u64) -> Self {
        hist::zst_new();
        Zst(())
    }
    fn obs(&self) -> Obs {
        Obs { val: None, tok: NOTOK, addr: 0, alive: true }
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        hist::zst_drop();
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        yield_point();
        hist::site(Site::Clone);
        hist::cloned();
        hist::zst_new();
        Zst(())
    }
}

// ---- Unit
#[derive(Clone, Copy)]
pub struct Unit(());
impl Elem for Unit {
    const T: ElemT = ElemT::Unit;
    fn make(_: &Src, _: u64) -> Self {
        Unit(())
    }
    fn obs(&self) -> Obs {
        Obs { val: None, tok: NOTOK, addr: 0, alive: true }
    }
}

macro_rules! obsv {
    ($($t:ty),*) => { $(
        impl Obsv for $t { fn obs(&self) -> Obs { Elem::obs(self) } }
        impl<'a> Obsv for &'a $t { fn obs(&self) -> Obs { Elem::obs(*self) } }
    )* };
}
obsv!(Tok, TokBox, Word, Small, Big, Zst, Unit);
impl Obsv for usize {
    fn obs(&self) -> Obs {
        Obs { val: Some(*self as u64), tok: NOTOK, addr: 0, alive: true }
    }
}

// ------------------------------------------------------------------ probes

pub struct Inside(bool);
pub fn enter() -> Inside {
    hist::probe_enter();
    yield_point();
    Inside(false)
}
impl Drop for Inside {
    fn drop(&mut self) {
        hist::probe_leave(self.0);
    }
}

pub fn hint(h: Hint, rem: usize) -> (usize, Option<usize>) {
    match h {
        Hint::Exact => (rem, Some(rem)),
        Hint::Inexact => (rem / 2, rem.checked_add(3)),
        Hint::LowerOnly => (rem, None),
        Hint::Unbounded => (0, None),
        Hint::Upper => (0, Some(rem.max(1))),
        Hint::Over => (rem.saturating_add(3), Some(rem.saturating_add(3))),
        Hint::Under => (rem / 2, Some(rem / 2)),
    }
}

/// owning probe
pub struct Probe<T> {
    items: std::vec::IntoIter<T>,
    /// a source too long to be stored: the elements left, made on demand
    vast: Option<(Src, std::ops::Range<usize>)>,
    hint: Hint,
    src: Option<Src>,
    extra: u64,
    ended: bool,
}
impl<T: Elem> Probe<T> {
    pub fn new(src: &Src) -> Self {
        let vast = src.len > vcore::case::VAST;
        let v: Vec<T> = if vast { vec![] } else { (0..src.len as u64).map(|p| T::make(src, p)).collect() };
        Probe {
            items: v.into_iter(),
            vast: if vast { Some((src.clone(), 0..src.len)) } else { None },
            hint: src.hint,
            src: if src.nonfused { Some(src.clone()) } else { None },
            extra: 0,
            ended: false,
        }
    }
}
impl<T: Elem> Iterator for Probe<T> {
    type Item = T;
    #[inline(never)]
    fn next(&mut self) -> Option<T> {
        let mut g = enter();
        hist::site(Site::Next);
        if self.ended {
            if let Some(s) = &self.src {
                // elements after the first None: must never be delivered
                self.extra += 1;
                if self.extra < 40 {
                    return Some(T::make(s, s.len as u64 + self.extra));
                }
            }
        }
        let r = match &mut self.vast {
            Some((s, left)) => left.next().map(|p| T::make(s, p as u64)),
            None => self.items.next(),
        };
        if r.is_none() {
            self.ended = true;
            g.0 = true;
        } else {
            // finitely many times: a long chunk is no endless wait
            vcore::engine::progress();
        }
        yield_point();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.vast.as_ref().map(|v| v.1.len()).unwrap_or(self.items.len()))
    }
}

/// reference-yielding probe
pub struct RefProbe<'a, T> {
    items: std::slice::Iter<'a, T>,
    first: Option<&'a T>,
    hint: Hint,
    nonfused: bool,
    extra: u64,
    ended: bool,
}
impl<'a, T: Elem> RefProbe<'a, T> {
    pub fn new(src: &Src, s: &'a [T]) -> Self {
        RefProbe { items: s.iter(), first: s.first(), hint: src.hint, nonfused: src.nonfused, extra: 0, ended: false }
    }
}
impl<'a, T: Elem> Iterator for RefProbe<'a, T> {
    type Item = &'a T;
    #[inline(never)]
    fn next(&mut self) -> Option<&'a T> {
        let mut g = enter();
        hist::site(Site::Next);
        if self.ended && self.nonfused && self.extra < 40 {
            self.extra += 1;
            if let Some(f) = self.first {
                return Some(f);
            }
        }
        let r = self.items.next();
        if r.is_none() {
            self.ended = true;
            g.0 = true;
        } else {
            // finitely many times: a long chunk is no endless wait
            vcore::engine::progress();
        }
        yield_point();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.items.len())
    }
}
