//! Oracles over a recorded history. Every violation carries the set of properties it breaks.
use crate::case::*;
use crate::engine::Vc;
use crate::hist::*;
use std::collections::{BTreeMap, HashMap};

pub type Mask = u32;
/// longest stretch of positions tracked one by one
const WIDE: u64 = 200_000;
/// functional misbehaviour (used to compare an adaptor with its underlying iterator)
pub const F: Mask = 1 << 31;
pub fn bit(p: &str) -> Mask {
    // "C17c": concurrent programs compared between builds; any functional misbehaviour is a candidate
    let n: u32 = p[1..].trim_end_matches('c').parse().unwrap();
    (1 << n) | if p.ends_with('c') { F } else { 0 }
}
macro_rules! m {
    ($($n:literal)*) => { 0 $(| (1u32 << $n))* };
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub mask: Mask,
    pub msg: String,
}

pub fn src_len(s: &Src) -> u64 {
    if s.kind == Kind::Range {
        let end = s.end.unwrap_or(s.start.wrapping_add(s.len as u64));
        end.saturating_sub(s.start)
    } else {
        s.len as u64
    }
}

#[derive(Clone, Copy)]
struct Pt {
    thr: u8,
    phase: u8,
    end: u64,
    epoch: u32,
}
/// does the event ending at `a` precede the event starting at (start, svc) on (thr, phase)?
fn before(a: Pt, start: u64, thr: u8, phase: u8, svc: &Vc, stale: bool) -> bool {
    if a.end == u64::MAX {
        return false;
    }
    if a.phase != phase {
        return a.phase < phase;
    }
    if a.end >= start {
        return false;
    }
    if stale && a.thr != thr && (a.thr as usize) < svc.len() {
        return svc[a.thr as usize] >= a.epoch;
    }
    true
}

/// one delivered run of positions
struct Del {
    pull: usize,
    thr: u8,
    phase: u8,
    it: u8,
    start: u64,
    svc: Vc,
    pt: Pt,
    lo: u64,
    hi: u64, // inclusive
}

pub struct Judge<'a> {
    pub case: &'a Case,
    pub h: &'a Hist,
    pub out: Vec<Viol>,
    len: u64,
    stale: bool,
}

pub fn judge(case: &Case, h: &Hist) -> Vec<Viol> {
    let mut j = Judge { case, h, out: vec![], len: src_len(&case.src), stale: case.sched.stale > 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.run()));
    if r.is_err() && j.out.is_empty() {
        // nonsensical numbers (positions beyond any source, overflowing chunk bounds) break a rule's arithmetic
        j.v(m!(1 3 4 16) | F, "the history contains numbers no iterator over this source can report".into());
    }
    j.out
}

/// a pair (x, y) that violates the real-time order, if there is one (histories without stale reads)
fn sweep(d: &[Del]) -> Option<(usize, usize)> {
    let mut ends: Vec<usize> = (0..d.len()).filter(|i| d[*i].pt.end != u64::MAX).collect();
    ends.sort_by_key(|i| (d[*i].pt.phase, d[*i].pt.end));
    let mut starts: Vec<usize> = (0..d.len()).collect();
    starts.sort_by_key(|i| (d[*i].phase, d[*i].start));
    // per iterator: the largest position that returned so far, and the largest of a different pull
    let mut top: HashMap<u8, (usize, Option<usize>)> = HashMap::new();
    let mut k = 0;
    for y in starts {
        while k < ends.len() && (d[ends[k]].pt.phase, d[ends[k]].pt.end) < (d[y].phase, d[y].start) {
            let x = ends[k];
            k += 1;
            match top.get_mut(&d[x].it) {
                None => {
                    top.insert(d[x].it, (x, None));
                }
                Some((a, b)) => {
                    if d[x].pull == d[*a].pull {
                        if d[x].hi > d[*a].hi {
                            *a = x;
                        }
                    } else if d[x].hi > d[*a].hi {
                        *b = Some(*a);
                        *a = x;
                    } else if b.map(|b| d[x].hi > d[b].hi).unwrap_or(true) {
                        *b = Some(x);
                    }
                }
            }
        }
        if let Some((a, b)) = top.get(&d[y].it) {
            for x in [Some(*a), *b].into_iter().flatten() {
                if d[x].pull != d[y].pull && d[x].hi >= d[y].lo {
                    return Some((x, y));
                }
            }
        }
    }
    None
}

fn show(h: &Hist, p: &Pull) -> String {
    let _ = h;
    let mut s = format!("t{} {:?}", p.thr, p.m);
    if p.m.chunked() || p.m.composite() {
        s += &format!("({})", p.n);
    }
    match p.res {
        Res::End => s += " -> end",
        Res::Panicked => s += " -> panicked",
        Res::Running => s += " -> (not returned)",
        Res::Got => {
            if let (Some(b), Some(a)) = (p.begin, p.announced) {
                s += &format!(" -> [{}..+{}]", b as i64, a as i64);
            } else {
                s += " -> item";
            }
        }
    }
    s
}

impl<'a> Judge<'a> {
    fn v(&mut self, mask: Mask, msg: String) {
        if self.out.len() < 40 {
            self.out.push(Viol { mask, msg });
        }
    }

    fn item_pos(&self, it: &Item) -> Option<u64> {
        match it.val {
            Some(v) => Some(self.case.src.pos(v)),
            None => it.idx,
        }
    }

    fn run(&mut self) {
        let h = self.h;
        let case = self.case;
        let hung = h.hang.is_some();
        let skipped = !h.skips.is_empty();
        let faulted = h.fault_hits > 0;
        let multi = !case.multi.is_empty();
        let unexpected: Vec<&PanicRec> =
            h.panics.iter().filter(|p| !p.injected && !p.what.starts_with("zero:")).collect();
        let only_composite = !h.pulls.is_empty() && h.pulls.iter().all(|p| p.m.composite() && p.m != M::Batch);
        let cond = |b: bool, m: Mask| if b { m } else { 0 };

        // ---- panics
        for p in &unexpected {
            let mut mask = m!(1 3 4 9 10 12 13 16 17) | F | cond(faulted || case.fault.is_some(), m!(18)) | cond(multi, m!(19));
            if p.what == "try_get_len" || p.what == "has_more" {
                mask |= m!(11);
            }
            if skipped {
                mask |= m!(6);
            }
            if p.what.starts_with("drop") || p.what.starts_with("into_seq") {
                mask |= m!(8);
            }
            self.v(mask, format!("unexpected panic in {} on t{}: {}", p.what, p.thr, p.msg));
        }
        for n in &h.notes {
            if n == "runaway" {
                self.v(m!(1 4 5 12) | F, "pulling does not reach the end (harness limit exceeded)".into());
            }
            if n.starts_with("zero:") {
                self.v(m!(16) | F, n[5..].to_string());
            }
        }

        // ---- races
        for r in &h.races {
            self.v(m!(7), format!("data race: {r}"));
        }
        for r in &h.overlaps {
            self.v(m!(7), r.clone());
        }

        // ---- deliveries
        let mut dels: Vec<Del> = Vec::new();
        // (it, pos) -> pull
        let mut seen: HashMap<(u8, u64), usize> = HashMap::new();
        let mut ranges: BTreeMap<(u8, u64), (u64, usize)> = BTreeMap::new(); // big unconsumed runs
        let mut unknown: HashMap<u8, u64> = HashMap::new();
        let mut toks: HashMap<u32, usize> = HashMap::new();
        let dupmask = m!(1 4) | F | cond(skipped, m!(6)) | cond(only_composite, m!(12)) | cond(faulted, m!(18)) | cond(multi, m!(19)) | m!(16);
        let owned = case.src.kind.consuming() || matches!(case.src.kind, Kind::SliceCloned | Kind::IterRefCloned);
        for (pi, p) in h.pulls.iter().enumerate() {
            let what = show(h, p);
            let mut prev: Option<u64> = None;
            for (k, it) in p.items.iter().enumerate() {
                if !it.alive {
                    self.v(m!(1 2 6 8 13 18) | F, format!("{what}: delivered item {k} is not an intact, live element"));
                }
                let pos = self.item_pos(it);
                match pos {
                    None => *unknown.entry(p.it).or_default() += 1,
                    Some(pos) => {
                        if pos >= self.len {
                            let mask = m!(1 16) | F | cond(!case.src.nonfused, m!(5)) | cond(it.idx.is_some(), m!(2)) | cond(only_composite, m!(12));
                            self.v(mask, format!("{what}: delivered value {:?} (index {:?}) is not an element of the source", it.val, it.idx));
                            continue;
                        }
                        if let Some(i) = it.idx {
                            if i != pos {
                                let mask = m!(2 16) | F
                                    | cond(skipped, m!(6))
                                    | cond(p.m == M::Enum, m!(12))
                                    | cond(multi, m!(19))
                                    | cond(p.m.chunked(), m!(3));
                                self.v(mask, format!("{what}: item reported at index {} is the element of position {pos}", i as i64));
                            }
                        }
                        if let Some(q) = seen.insert((p.it, pos), pi) {
                            let w2 = show(h, &h.pulls[q]);
                            self.v(dupmask, format!("position {pos} delivered twice: {w2} and {what}"));
                        }
                        if let Some(pr) = prev {
                            if pos <= pr {
                                self.v(m!(4) | F | cond(skipped, m!(6)), format!("{what}: position {pos} delivered after {pr} by the same call"));
                            }
                            if p.m.chunked() && !p.jumps && pos != pr.wrapping_add(1) {
                                self.v(m!(3) | F, format!("{what}: chunk yields position {pos} right after {pr}"));
                            }
                        } else if p.m.chunked() && p.skipped == 0 && !p.jumps {
                            if let Some(b) = p.begin {
                                if pos != b {
                                    self.v(m!(2 3) | F, format!("{what}: first element of the chunk is the element of position {pos}"));
                                }
                            }
                        }
                        prev = Some(pos);
                        if p.m.composite() {
                            dels.push(Del {
                                pull: pi,
                                thr: p.thr,
                                phase: p.phase,
                                it: p.it,
                                start: p.start,
                                svc: p.svc,
                                pt: Pt { thr: p.thr, phase: p.phase, end: it.stamp, epoch: it.epoch },
                                lo: pos,
                                hi: pos,
                            });
                        }
                    }
                }
                if owned && it.tok != u32::MAX {
                    if let Some(q) = toks.insert(it.tok, pi) {
                        let w2 = show(h, &h.pulls[q]);
                        self.v(m!(8 14) | F, format!("one element moved out twice: {w2} and {what}"));
                    }
                }
                // identity of references / parentage of clones
                if let Some(pos) = pos {
                    if pos < self.len && it.val.is_some() {
                        match case.src.kind {
                            Kind::Slice | Kind::IterRef => {
                                if h.base != 0 && h.stride > 0 && it.addr != h.base + pos as usize * h.stride {
                                    self.v(m!(19), format!("{what}: reference to position {pos} does not point at the source element"));
                                }
                            }
                            Kind::Array if multi => {
                                if it.addr != h.base + pos as usize * h.stride {
                                    self.v(m!(19), format!("{what}: reference to position {pos} does not point at the source element"));
                                }
                            }
                            Kind::SliceCloned | Kind::IterRefCloned if it.tok != u32::MAX && pi >= h.pre_pulls => {
                                let par = h.toks.get(it.tok as usize).map(|t| t.parent);
                                if par != Some(pos as u32) {
                                    self.v(m!(13), format!("{what}: delivered value is not a clone of the source element of position {pos}"));
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            if p.m.composite() {
                continue;
            }
            if p.m == M::Nth {
                // elements passed over by nth (generated for single-threaded use only)
                let (s, e) = match p.items.first().and_then(|i| self.item_pos(i)) {
                    Some(q) if p.last => {
                        let s = seen.keys().filter(|k| k.0 == p.it).map(|k| k.1 + 1).filter(|k| *k <= q).max().unwrap_or(0);
                        (s, q)
                    }
                    Some(q) => (q.saturating_sub(p.skipped), q),
                    None if p.res == Res::End && h.skips.iter().all(|s| s.start > p.start) => {
                        (seen.keys().filter(|k| k.0 == p.it).map(|k| k.1 + 1).max().unwrap_or(0), self.len)
                    }
                    None => (0, 0),
                };
                for q in s..e.min(s.saturating_add(WIDE)) {
                    if let Some(o) = seen.insert((p.it, q), pi) {
                        let w2 = show(h, &h.pulls[o]);
                        self.v(dupmask, format!("position {q} delivered twice: {w2} and {what}"));
                    }
                }
            }
            // unconsumed part of a chunk
            let mut lo = p.items.iter().filter_map(|i| self.item_pos(i)).min();
            let mut hi = p.items.iter().filter_map(|i| self.item_pos(i)).filter(|x| *x < self.len).max();
            if let (Some(b), Some(a)) = (p.begin, p.announced) {
                if a > 0 && b.checked_add(a).map(|e| e <= self.len).unwrap_or(false) {
                    lo = Some(lo.unwrap_or(b).min(b));
                    hi = Some(hi.unwrap_or(0).max(b + a - 1));
                    let consumed = p.items.len() as u64 + p.skipped;
                    if p.skipped > 0 {
                        // elements jumped over by nth
                        for q in b..b + p.skipped.min(a) {
                            if let Some(o) = seen.insert((p.it, q), pi) {
                                let w2 = show(h, &h.pulls[o]);
                                self.v(dupmask, format!("position {q} delivered twice: {w2} and {what}"));
                            }
                        }
                    }
                    if p.jumps {
                        let mine: std::collections::HashSet<u64> = p.items.iter().filter_map(|i| self.item_pos(i)).collect();
                        for q in b..b + a.min(WIDE) {
                            if mine.contains(&q) {
                                continue;
                            }
                            if let Some(o) = seen.insert((p.it, q), pi) {
                                let w2 = show(h, &h.pulls[o]);
                                self.v(dupmask, format!("position {q} handed out twice: {w2} and {what}"));
                                break;
                            }
                        }
                    } else if !p.complete && consumed < a {
                        let (s, e) = (b + consumed, b + a);
                        if e - s <= WIDE {
                            for q in s..e {
                                if let Some(o) = seen.insert((p.it, q), pi) {
                                    let w2 = show(h, &h.pulls[o]);
                                    self.v(dupmask, format!("position {q} handed out twice: {w2} and {what}"));
                                    break;
                                }
                            }
                        } else {
                            ranges.insert((p.it, s), (e, pi));
                        }
                    }
                } else {
                    self.v(m!(3 16) | F, format!("{what}: chunk exceeds the source of length {}", self.len));
                }
            }
            if let (Some(lo), Some(hi)) = (lo, hi) {
                dels.push(Del {
                    pull: pi,
                    thr: p.thr,
                    phase: p.phase,
                    it: p.it,
                    start: p.start,
                    svc: p.svc,
                    pt: Pt { thr: p.thr, phase: p.phase, end: p.end, epoch: p.epoch },
                    lo,
                    hi,
                });
            }
        }
        for (&(it, s), &(e, pi)) in &ranges {
            for (&(i2, q), &pj) in &seen {
                if i2 == it && q >= s && q < e {
                    let (a, b) = (show(h, &h.pulls[pi]), show(h, &h.pulls[pj]));
                    self.v(dupmask, format!("position {q} handed out twice: {a} and {b}"));
                    break;
                }
            }
        }

        // ---- chunk contract
        for p in h.pulls.iter().filter(|p| p.m.chunked()) {
            let what = show(h, p);
            if p.res == Res::Got {
                let (b, a) = (p.begin.unwrap_or(0), p.announced.unwrap_or(0));
                if p.n == 0 {
                    self.v(m!(16) | F, format!("{what}: a chunk pull of size zero delivered a chunk"));
                    continue;
                }
                if a == 0 {
                    self.v(m!(3 16) | F, format!("{what}: empty chunk"));
                }
                if a > p.n {
                    self.v(m!(3) | F, format!("{what}: more elements than requested"));
                }
                if a < p.n && b.wrapping_add(a) != self.len {
                    self.v(m!(3 16) | F, format!("{what}: shorter than requested although the source has {} elements", self.len));
                }
            }
            if p.complete && p.announced.is_some() && p.announced != Some(p.items.len() as u64) {
                self.v(m!(3) | F, format!("{what}: announced {} elements but yielded {}", p.announced.unwrap(), p.items.len()));
            }
            if let Some(b) = &p.len_bad {
                self.v(m!(3) | F, format!("{what}: {b}"));
            }
        }

        // ---- order
        // per thread: pulls in program order
        {
            let mut last: HashMap<(u8, u8, u8), (u64, usize)> = HashMap::new();
            let mut idx: Vec<&Del> = dels.iter().collect();
            idx.sort_by_key(|d| d.pull);
            for d in idx {
                if h.pulls[d.pull].nests || h.pulls[d.pull].nested {
                    continue; // interleaved with the visits of the enclosing call
                }
                let k = (d.phase, d.thr, d.it);
                if let Some((hi, q)) = last.get(&k).copied() {
                    if q != d.pull && d.lo <= hi {
                        let (a, b) = (show(h, &h.pulls[q]), show(h, &h.pulls[d.pull]));
                        self.v(m!(4) | F | cond(skipped, m!(6)) | cond(multi, m!(19)), format!("positions not increasing on one thread: {a} then {b} ({} after {hi})", d.lo));
                    }
                    last.insert(k, (hi.max(d.hi), d.pull));
                } else {
                    last.insert(k, (d.hi, d.pull));
                }
            }
        }
        // across threads
        let suspects = if dels.len() > 300 && !self.stale { sweep(&dels) } else { None };
        let all: Vec<&Del> = if dels.len() > 300 && !self.stale { suspects.iter().flat_map(|(x, y)| [*x, *y]).map(|i| &dels[i]).collect() } else { dels.iter().collect() };
        'o: for &x in &all {
            for &y in &all {
                if x.it == y.it && x.pull != y.pull && x.hi >= y.lo && before(x.pt, y.start, y.thr, y.phase, &y.svc, self.stale) {
                    let (a, b) = (show(h, &h.pulls[x.pull]), show(h, &h.pulls[y.pull]));
                    self.v(
                        m!(4) | F | cond(skipped, m!(6)) | cond(multi, m!(19)),
                        format!("{a} (positions up to {}) returned before {b} started, which received position {}", x.hi, y.lo),
                    );
                    break 'o;
                }
            }
        }

        // ---- the end is permanent
        let ends: Vec<&Pull> = h.pulls.iter().filter(|p| p.res == Res::End && p.n > 0).collect();
        'e: for e in &ends {
            let pt = Pt { thr: e.thr, phase: e.phase, end: e.end, epoch: e.epoch };
            let mask = m!(5) | F | cond(e.m.composite() && e.m != M::Batch, m!(12)) | cond(skipped, m!(6));
            for p in &h.pulls {
                if p.it != e.it || p.n == 0 || !before(pt, p.start, p.thr, p.phase, &p.svc, self.stale) {
                    continue;
                }
                if p.res == Res::Got || !p.items.is_empty() {
                    let (a, b) = (show(h, e), show(h, p));
                    self.v(mask, format!("{a}, but the later {b} delivered"));
                    break 'e;
                }
                if (p.res == Res::Running && hung) || (p.res == Res::Panicked && !faulted) {
                    let (a, b) = (show(h, e), show(h, p));
                    self.v(mask, format!("{a}, but the later {b} does not report the end"));
                    break 'e;
                }
            }
            for q in &h.queries {
                if q.it == e.it && before(pt, q.start, q.thr, q.phase, &q.svc, self.stale) {
                    if let Some(QRes::Len(Some(n))) | Some(QRes::Yes(n)) = q.res {
                        if n > 0 {
                            let a = show(h, e);
                            self.v(m!(5 11) | F, format!("{a}, but a later length query reports {n} remaining elements"));
                            break 'e;
                        }
                    }
                }
            }
        }

        // ---- a composite call in flight delivers at most what it had already reserved: one chunk
        let stale = self.stale;
        let tail = |p: &Pull, stamp: u64, thr: u8, inside: bool| -> Option<(usize, u64)> {
            if stale && p.thr != thr {
                return None;
            }
            let late = p.items.iter().filter(|i| i.stamp > stamp).count();
            let n = if p.m == M::Batch { 1 } else { p.n };
            let max = n - (inside && p.thr == thr) as u64;
            (late as u64 > max).then_some((late, max))
        };
        for p in h.pulls.iter().filter(|p| p.m.composite() && p.n > 0) {
            for s in h.skips.iter().filter(|s| s.done && s.it == p.it && s.start > p.start) {
                if let Some((k, max)) = tail(p, s.end, s.thr, true) {
                    let a = show(h, p);
                    self.v(m!(6) | F, format!("{a} delivered {k} elements after skip_to_end by t{} had returned; it can have reserved at most {max}", s.thr));
                    break;
                }
            }
            for e in h.pulls.iter().filter(|e| e.res == Res::End && e.n > 0 && e.it == p.it && e.start > p.start) {
                if let Some((k, max)) = tail(p, e.end, e.thr, false) {
                    let (a, b) = (show(h, p), show(h, e));
                    self.v(m!(5) | F, format!("{a} delivered {k} elements after {b}; it can have reserved at most {max}"));
                    break;
                }
            }
            for q in h.queries.iter().filter(|q| q.it == p.it && q.start > p.start && matches!(q.res, Some(QRes::No) | Some(QRes::Len(Some(0))))) {
                if let Some((k, max)) = tail(p, q.end, q.thr, false) {
                    let a = show(h, p);
                    self.v(m!(11) | F, format!("{a} delivered {k} elements after {:?} had been reported; it can have reserved at most {max}", q.res.unwrap()));
                    break;
                }
            }
        }

        // ---- skip_to_end
        for s in h.skips.iter().filter(|s| s.done) {
            let pt = Pt { thr: s.thr, phase: s.phase, end: s.end, epoch: s.epoch };
            for p in &h.pulls {
                if p.it != s.it || p.n == 0 || !before(pt, p.start, p.thr, p.phase, &p.svc, self.stale) {
                    continue;
                }
                let bad = p.res == Res::Got
                    || !p.items.is_empty()
                    || (p.res == Res::Running && hung)
                    || (p.res == Res::Panicked && !faulted);
                if bad {
                    let b = show(h, p);
                    self.v(m!(6) | F, format!("skip_to_end by t{} returned, but the later {b}", s.thr));
                }
            }
            for q in &h.queries {
                if q.it == s.it && before(pt, q.start, q.thr, q.phase, &q.svc, self.stale) {
                    let bad = match q.res {
                        Some(QRes::No) | Some(QRes::Len(None)) | Some(QRes::Len(Some(0))) | None => false,
                        _ => true,
                    };
                    if bad {
                        self.v(m!(6 11) | F, format!("skip_to_end returned, but a later query reports {:?}", q.res));
                    }
                }
            }
        }

        // ---- queries: monotone, definitive
        let num = |q: &Query| match q.res {
            Some(QRes::Len(Some(n))) | Some(QRes::Yes(n)) => Some(n),
            Some(QRes::No) => Some(0),
            _ => None,
        };
        'q: for q in &h.queries {
            let pt = Pt { thr: q.thr, phase: q.phase, end: q.end, epoch: q.epoch };
            let Some(n) = num(q) else {
                if q.res == Some(QRes::Maybe) && case.src.known() {
                    self.v(m!(11) | F, "has_more is Maybe for a source of known size".into());
                }
                if q.res == Some(QRes::Len(None)) && case.src.known() {
                    self.v(m!(11) | F, "try_get_len is None for a source of known size".into());
                }
                continue;
            };
            if q.res == Some(QRes::Yes(0)) {
                self.v(m!(11) | F, "has_more is Yes(0)".into());
            }
            if n > self.len {
                self.v(m!(11) | F, format!("reported length {n} exceeds the source length {}", self.len));
            }
            for r in &h.queries {
                if r.it == q.it && before(pt, r.start, r.thr, r.phase, &r.svc, self.stale) {
                    if let Some(k) = num(r) {
                        if k > n {
                            self.v(m!(11) | F, format!("reported length increased from {n} to {k}"));
                            break 'q;
                        }
                    }
                }
            }
            if n == 0 {
                for p in &h.pulls {
                    if p.it == q.it && (p.res == Res::Got || !p.items.is_empty()) && before(pt, p.start, p.thr, p.phase, &p.svc, self.stale) {
                        let b = show(h, p);
                        self.v(m!(11) | F, format!("{:?} was reported, but the later {b} delivered", q.res.unwrap()));
                        break 'q;
                    }
                }
            }
        }

        // ---- hang
        if let Some(w) = &h.hang {
            let delivered = seen.keys().filter(|k| k.0 == 0).count() as u64;
            let running_composite = h.pulls.iter().any(|p| p.res == Res::Running && p.m.composite());
            let mask = m!(9) | F
                | cond(case.fault.is_some() && faulted, m!(18))
                | cond(running_composite, m!(12))
                | cond(!skipped && !faulted && delivered < self.len, m!(1))
                | cond(h.hung_phase != 1, m!(4 16));
            let run: Vec<String> = h.pulls.iter().filter(|p| p.res == Res::Running).map(|p| show(h, p)).collect();
            self.v(mask, format!("call never returns ({w}): {}", run.join(", ")));
        }

        // ---- ledger, leaks, validity
        for e in &h.ledger_errors {
            self.v(m!(8 18) | cond(!h.skips.is_empty(), m!(6)), format!("ownership: {e}"));
        }
        for e in &h.kept_errors {
            self.v(m!(8 14) | cond(skipped, m!(6)) | cond(!case.src.kind.consuming(), m!(13 19)), e.clone());
        }
        for e in &h.source_errors {
            self.v(m!(13 19), e.clone());
        }
        if !hung {
            if case.src.elem.ledger() {
                for (i, t) in h.toks.iter().enumerate() {
                    let lost = || h.pulls.iter().any(|p| {
                        p.forgot && matches!((p.begin, p.announced), (Some(b), Some(a)) if t.pos >= b && t.pos - b < a)
                    });
                    if t.drops == 0 && !lost() {
                        self.v(
                            m!(8) | cond(faulted, m!(18)),
                            format!("element of position {}{} was never destroyed", t.pos, if t.parent != u32::MAX { " (clone)" } else { "" }),
                        );
                        break;
                    }
                    let _ = i;
                }
            }
            let lost: u64 = h.pulls.iter().filter(|p| p.forgot).map(|p| p.announced.unwrap_or(0).saturating_sub(p.items.len() as u64)).sum();
            if h.zst_new < h.zst_drop || h.zst_new - h.zst_drop > lost {
                self.v(m!(8) | cond(faulted, m!(18)), format!("{} zero-sized elements created, {} destroyed", h.zst_new, h.zst_drop));
            }
            for (k, w) in ["written behind their end", "released twice", "written to after their release"].iter().enumerate() {
                if h.corrupt[k] > 0 {
                    self.v(!0, format!("memory corruption: {} heap blocks {w}", h.corrupt[k]));
                }
            }
            if h.bad_free > 0 {
                self.v(m!(15 17), format!("{} heap blocks were released with a size or alignment other than the one they were allocated with", h.bad_free));
            }
            if !h.leak_overflow && !h.leaks.is_empty() && h.pulls.iter().all(|p| !p.forgot) {
                let b: usize = h.leaks.iter().map(|x| x.1).sum();
                self.v(m!(15), format!("{} heap blocks ({} bytes) still allocated after everything was dropped, e.g. allocation #{} of {} bytes", h.leaks.len(), b, h.leaks[0].0, h.leaks[0].1));
            }
        }

        if hung || multi {
            if multi && !hung {
                self.multi_model();
            }
            return;
        }
        // ---- completeness
        let mut threads: HashMap<(u8, u8), Res> = HashMap::new();
        for p in &h.pulls {
            if p.n > 0 && !p.nested {
                threads.insert((p.phase, p.thr), p.res);
            }
        }
        let tail_end = h.pulls.iter().any(|p| p.phase == 2 && p.res == Res::End && p.n > 0);
        let drained = !threads.is_empty()
            && (tail_end || (threads.iter().filter(|(k, _)| k.0 == 1).all(|(_, r)| *r == Res::End) && threads.iter().any(|(k, r)| k.0 >= threads.keys().map(|x| x.0).max().unwrap() && *r == Res::End)));
        let clean = !skipped && !faulted && unexpected.is_empty() && !h.panics.iter().any(|p| !p.what.starts_with("zero:"));
        if clean && ranges.is_empty() {
            let known = seen.keys().filter(|k| k.0 == 0).count() as u64;
            let total = known + unknown.get(&0).copied().unwrap_or(0);
            if drained && self.len <= 1 << 20 && total != self.len {
                let missing: Vec<u64> = (0..self.len).filter(|p| !seen.contains_key(&(0, *p))).take(4).collect();
                self.v(
                    m!(1) | F | cond(only_composite, m!(12)),
                    format!("every thread observed the end, but only {total} of {} positions were delivered (missing e.g. {missing:?})", self.len),
                );
            }
            // gap-free prefix at the phase boundaries
            if unknown.is_empty() {
                for ph in 0..3u8 {
                    let pos: Vec<u64> = seen.iter().filter(|(_, pi)| h.pulls[**pi].phase <= ph).map(|(k, _)| k.1).collect();
                    let mx = pos.iter().max().copied();
                    if let Some(mx) = mx {
                        if mx + 1 != pos.len() as u64 {
                            self.v(m!(4) | F, format!("no pull in flight, but the {} delivered positions are not a prefix (largest {mx})", pos.len()));
                            break;
                        }
                    }
                }
            }
        }
        // ---- fold results
        for p in &h.pulls {
            if p.fold_ok == Some(false) {
                self.v(m!(12) | F, format!("t{} fold: result differs from the fold of the elements passed to the closure", p.thr));
            }
            if p.n == 0 && p.m.composite() && p.res == Res::End {
                self.v(m!(12 16) | F, format!("{:?} with chunk size zero did not panic", p.m));
            }
        }
        // ---- single-threaded lockstep
        if !faulted && unexpected.is_empty() {
            self.lockstep();
        }
        // ---- remainder
        if h.seq_ran && !faulted && unexpected.is_empty() && !case.src.nonfused && ranges.is_empty() && self.len <= 1 << 20 {
            self.remainder(&seen, unknown.get(&0).copied().unwrap_or(0));
        }
        // elements moved out through the remainder
        if owned {
            for it in &h.seq_out {
                if it.tok != u32::MAX {
                    if let Some(q) = toks.insert(it.tok, usize::MAX) {
                        let _ = q;
                        self.v(m!(8 10 14), "an element was delivered by a pull and again by into_seq_iter".into());
                        break;
                    }
                }
            }
        }
    }

    fn remainder(&mut self, seen: &HashMap<(u8, u64), usize>, unknown: u64) {
        let h = self.h;
        let skipped = !h.skips.is_empty();
        let fin = self.case.fin;
        if h.panics.iter().any(|p| !p.what.starts_with("zero:")) {
            return;
        }
        for it in &h.seq_out {
            if !it.alive {
                self.v(m!(8 10), "into_seq_iter delivered something that is not an intact element".into());
                return;
            }
        }
        let out: Vec<Option<u64>> = h.seq_out.iter().map(|i| i.val.map(|v| self.case.src.pos(v))).collect();
        let delivered = seen.len() as u64 + unknown;
        let und: Vec<u64> = if unknown > 0 { vec![] } else { (0..self.len).filter(|p| !seen.contains_key(&(0, *p))).collect() };
        let n_und = self.len - delivered.min(self.len);
        let limit = match fin {
            Fin::Seq(k) => Some(k as u64),
            _ => None,
        };
        if !skipped {
            if let Some((lo, hi)) = h.seq_hint {
                if lo > n_und || hi.map(|x| x < n_und).unwrap_or(false) {
                    self.v(m!(10), format!("into_seq_iter announces {lo}..{hi:?} elements, {n_und} are undelivered"));
                }
            }
            let want = limit.unwrap_or(u64::MAX).min(n_und);
            if out.len() as u64 != want {
                self.v(m!(10) | F, format!("into_seq_iter yielded {} elements where {} were undelivered{}", out.len(), n_und, limit.map(|k| format!(" (taking at most {k})")).unwrap_or_default()));
                return;
            }
            for (i, o) in out.iter().enumerate() {
                if let Some(p) = o {
                    if unknown == 0 && *p != und[i] {
                        self.v(m!(10) | F, format!("into_seq_iter yielded position {} where {} was expected", *p as i64, und[i]));
                        return;
                    }
                }
            }
        } else {
            // a suffix of the undelivered elements
            if out.len() as u64 > n_und {
                self.v(m!(10), format!("into_seq_iter after skip_to_end yielded {} elements, only {n_und} were undelivered", out.len()));
                return;
            }
            let mut pv: Vec<u64> = vec![];
            for o in &out {
                match o {
                    Some(p) => pv.push(*p),
                    None => return,
                }
            }
            if pv.is_empty() {
                return;
            }
            let ok = if limit.map(|k| pv.len() as u64 == k).unwrap_or(false) && !h.seq_done {
                // only a part of the remainder was looked at: it must be a contiguous run
                match und.iter().position(|x| *x == pv[0]) {
                    Some(i) => und[i..].starts_with(&pv),
                    None => false,
                }
            } else {
                und.ends_with(&pv)
            };
            if !ok {
                self.v(m!(10) | F, format!("into_seq_iter after skip_to_end yielded positions {pv:?}, not a suffix of the undelivered ones"));
            }
        }
    }

    /// replays single-threaded parts against one sequential cursor
    fn lockstep(&mut self) {
        let h = self.h;
        let len = self.len;
        let known = self.case.src.known();
        let mut cur = 0u64;
        let mut skipped = false;
        let mut hard_end = false; // a single / one-shot chunk pull reported the end, or skip
        let multi_thread = self.case.threads.len() > 1;
        for ev in &h.order {
            let phase = match ev {
                Ev::Pull(i) => h.pulls[*i].phase,
                Ev::Query(i) => h.queries[*i].phase,
                Ev::Skip(i) => h.skips[*i].phase,
            };
            if phase == 1 && multi_thread {
                // accounted for as a whole
                match ev {
                    Ev::Pull(i) => {
                        let p = &h.pulls[*i];
                        if p.res == Res::End && p.n > 0 {
                            cur = len.max(cur);
                            if matches!(p.m, M::Next | M::NextId | M::Values | M::Ids | M::Chunk | M::Nth) {
                                hard_end = true;
                            }
                        } else if let (Some(b), Some(a)) = (p.begin, p.announced) {
                            cur = cur.max(b.saturating_add(a));
                        }
                        for it in &p.items {
                            if let Some(q) = self.item_pos(it) {
                                if q < len {
                                    cur = cur.max(q + 1);
                                }
                            } else {
                                // positions unknown (zero-sized): counted
                                return;
                            }
                        }
                    }
                    Ev::Skip(_) => {
                        skipped = true;
                        hard_end = true;
                        cur = len;
                    }
                    _ => {}
                }
                continue;
            }
            match ev {
                Ev::Skip(_) => {
                    skipped = true;
                    hard_end = true;
                    cur = len;
                }
                Ev::Query(i) => {
                    let q = &h.queries[*i];
                    let r = len.saturating_sub(cur);
                    let bad = match q.res {
                        None => false,
                        Some(QRes::Len(Some(n))) => n != r,
                        Some(QRes::Len(None)) => known,
                        Some(QRes::Yes(n)) => !known || n != r || r == 0,
                        Some(QRes::No) => r != 0,
                        Some(QRes::Maybe) => known || hard_end,
                    };
                    if bad {
                        self.v(m!(11 16) | F, format!("query answered {:?} where exactly {r} elements remain (known size: {known})", q.res.unwrap()));
                        return;
                    }
                }
                Ev::Pull(i) => {
                    let p = &h.pulls[*i];
                    let what = show(h, p);
                    let rest = len.saturating_sub(cur);
                    let mut bad = None;
                    if p.nests {
                        return; // judged by the rules for histories
                    }
                    match p.m {
                        M::Nth => {
                            if p.counted.is_some_and(|k| k != rest) {
                                bad = Some(format!("count() = {}, {rest} elements remained", p.skipped));
                            } else if p.last {
                                if (p.res == Res::Got) != (rest > 0) || p.items.iter().any(|x| self.item_pos(x).map(|q| q + 1 != len).unwrap_or(false)) {
                                    bad = Some(format!("last(): expected the last of the {rest} elements that remain"));
                                }
                                cur = len;
                                hard_end = true;
                            } else if rest > p.skipped {
                                cur += p.skipped;
                                if p.res != Res::Got || p.items.iter().any(|x| self.item_pos(x).map(|q| q != cur).unwrap_or(false)) {
                                    bad = Some(format!("nth({}): expected position {cur}", p.skipped));
                                }
                                cur += 1;
                            } else {
                                if p.res != Res::End {
                                    bad = Some(format!("nth({}): expected the end", p.skipped));
                                }
                                cur = len;
                                hard_end = true;
                            }
                        }
                        M::Next | M::NextId | M::Values | M::Ids => {
                            if rest > 0 {
                                if p.res != Res::Got {
                                    bad = Some(format!("expected position {cur}"));
                                } else if p.items.iter().any(|x| self.item_pos(x).map(|q| q != cur).unwrap_or(false)) {
                                    bad = Some(format!("delivered {:?} instead of position {cur}", p.items[0].idx.or(self.item_pos(&p.items[0]))));
                                }
                                cur += 1;
                            } else {
                                if p.res != Res::End {
                                    bad = Some("expected the end".to_string());
                                }
                                hard_end = true;
                            }
                        }
                        M::Chunk | M::Buf => {
                            let a = p.n.min(rest);
                            if a > 0 {
                                if p.res != Res::Got || p.begin != Some(cur) || p.announced != Some(a) {
                                    bad = Some(format!("expected [{cur}..+{a}]"));
                                }
                                cur += a;
                            } else {
                                if p.res != Res::End {
                                    bad = Some("expected nothing".to_string());
                                }
                                if p.n > 0 && p.m == M::Chunk {
                                    hard_end = true;
                                }
                            }
                        }
                        M::ForEach | M::Enum | M::Fold | M::Batch => {
                            if p.n == 0 {
                                continue;
                            }
                            let a = if p.m == M::Batch { rest.min(p.n) } else { rest };
                            let full = p.m != M::Batch || p.n > rest;
                            if p.items.len() as u64 != a || (p.res != Res::End) == full {
                                bad = Some(format!("visited {} elements, {a} expected", p.items.len()));
                            }
                            for (k, x) in p.items.iter().enumerate() {
                                if self.item_pos(x).map(|q| q != cur + k as u64).unwrap_or(false) {
                                    bad = Some(format!("visit {k} is not position {}", cur + k as u64));
                                    break;
                                }
                            }
                            cur += a;
                        }
                    }
                    if let Some(b) = bad {
                        let c = if skipped { m!(6) } else { 0 };
                        let d = if p.m.composite() && p.m != M::Batch { m!(12) } else { 0 };
                        self.v(m!(4 16) | F | c | d, format!("single-threaded sequence: {what}: {b}"));
                        return;
                    }
                }
            }
        }
    }

    /// C19: one cursor per iterator. The cursor of a clone taken while other threads use the original is an
    /// interval until its first operation shows it; from then on the clone is followed exactly.
    fn multi_model(&mut self) {
        let h = self.h;
        let len = self.len;
        let n = h.it_start.len();
        let mut cur: HashMap<u8, (u64, u64)> = HashMap::new();
        let mut created = vec![false; n];
        for j in 0..n {
            if h.it_start[j] >> 63 == 0 {
                created[j] = true;
                cur.insert(j as u8, (0, 0));
            }
        }
        let shared = |it: u8| it < 16;
        let mut seqs: Vec<(u8, usize, usize)> = vec![];
        let mut fresh: Vec<(u8, usize)> = vec![];
        for s in &h.notes {
            let w: Vec<&str> = s.split(' ').collect();
            if w[0] == "seq" {
                let k = seqs.len();
                seqs.push((w[1].parse().unwrap(), w[2].parse().unwrap(), k));
            }
            if w[0] == "new" {
                fresh.push((w[1].parse().unwrap(), w[2].parse().unwrap()));
            }
        }
        let phase_of = |ev: &Ev| match ev {
            Ev::Pull(i) => h.pulls[*i].phase,
            Ev::Query(i) => h.queries[*i].phase,
            Ev::Skip(i) => h.skips[*i].phase,
        };
        // clones of the single-threaded phases: before (0..n0) and after (n0..n) the threads
        let n0 = h.it_before_threads;
        let mut clones = |cur: &mut HashMap<u8, (u64, u64)>, js: std::ops::Range<usize>, k: usize| {
            for j in js {
                let s = h.it_start[j];
                if s >> 63 == 1 && (s & 0xffff_ffff) as usize == k && !created[j] {
                    let parent = ((s >> 32) & 0x7fff_ffff) as u8;
                    let c = cur[&parent];
                    cur.insert(j as u8, c);
                    created[j] = true;
                }
            }
        };
        let mut fresh_used = 0;
        let mut clone_used = 0;
        let idx2 = h.order.iter().position(|e| phase_of(e) == 2).unwrap_or(h.order.len());
        for k in 0..=h.order.len() {
            let ev = h.order.get(k);
            clones(&mut cur, 0..n0, k);
            // iterators created or cloned by the threads at this point
            while fresh_used < fresh.len() && fresh[fresh_used].1 == k {
                cur.insert(fresh[fresh_used].0, (0, 0));
                fresh_used += 1;
            }
            while clone_used < h.clone_recs.len() && h.clone_recs[clone_used].at as usize == k {
                let c = &h.clone_recs[clone_used];
                clone_used += 1;
                let iv = if shared(c.parent) { self.bounds(c, cur[&c.parent].0) } else { cur[&c.parent] };
                cur.insert(c.child, iv);
            }
            if !self.seqs_at(&seqs, k, false, &mut cur) {
                return;
            }
            if k == idx2 && !self.after_threads(&mut cur) {
                return;
            }
            clones(&mut cur, n0..n, k);
            if !self.seqs_at(&seqs, k, true, &mut cur) {
                return;
            }
            let Some(ev) = ev else { break };
            let it = match ev {
                Ev::Pull(i) => h.pulls[*i].it,
                Ev::Query(i) => h.queries[*i].it,
                Ev::Skip(i) => h.skips[*i].it,
            };
            if phase_of(ev) == 1 && shared(it) {
                continue;
            }
            let c = cur.get_mut(&it).unwrap();
            match ev {
                Ev::Skip(_) => *c = (len, len),
                Ev::Query(i) => {
                    let said = match h.queries[*i].res {
                        Some(QRes::Len(Some(n))) => Some(n),
                        Some(QRes::Yes(n)) if n > 0 => Some(n),
                        Some(QRes::No) => Some(0),
                        _ => None,
                    };
                    let (lo, hi) = *c;
                    let ok = match said {
                        Some(n) if n <= len && len - n >= lo && len - n <= hi => {
                            *c = (len - n, len - n);
                            true
                        }
                        _ => false,
                    };
                    if !ok {
                        self.v(m!(11 19), format!("iterator {it}: query answered {:?} at position {lo}..={hi} of {len}", h.queries[*i].res));
                        return;
                    }
                }
                Ev::Pull(i) => {
                    let p = &h.pulls[*i];
                    let what = show(h, p);
                    if p.n == 0 && p.m.composite() {
                        continue;
                    }
                    if p.nests {
                        return;
                    }
                    let got = match p.announced {
                        Some(a) => a,
                        None => p.items.len() as u64,
                    };
                    let jump = if p.m == M::Nth { p.skipped } else { 0 };
                    let first = p.begin.or_else(|| p.items.first().and_then(|x| self.item_pos(x))).map(|x| x.wrapping_sub(jump));
                    if c.0 < c.1 {
                        // the first observation of a concurrently taken clone
                        let at = match first {
                            Some(f) => f,
                            None if p.n == 0 => continue,
                            None if jump > 0 => {
                                *c = (len, len);
                                continue;
                            }
                            None => len,
                        };
                        if at < c.0 || at > c.1 {
                            let (lo, hi) = *c;
                            self.v(m!(19) | F, format!("iterator {it}, a clone: {what} starts at position {at}; the original was at {lo}..={hi} when it was cloned"));
                            return;
                        }
                        *c = (at, at);
                    }
                    let rest = len.saturating_sub(c.0);
                    let (want, step) = match p.m {
                        M::Next | M::NextId | M::Values | M::Ids => (rest.min(1), rest.min(1)),
                        M::Nth => ((rest > jump) as u64, rest.min(jump + 1)),
                        M::Chunk | M::Buf | M::Batch => (rest.min(p.n), rest.min(p.n)),
                        _ => (rest, rest),
                    };
                    if got != want || (want > 0 && first.is_some() && first != Some(c.0)) {
                        let c = c.0;
                        self.v(
                            m!(4 19) | F,
                            format!("iterator {it}: {what}: got {got} elements from {first:?}, expected {want} from position {c}"),
                        );
                        return;
                    }
                    let e = c.0 + step;
                    *c = (e, e);
                }
            }
        }
    }

    /// remainders taken after event k, of shared or thread-local iterators
    fn seqs_at(&mut self, seqs: &[(u8, usize, usize)], k: usize, shared: bool, cur: &mut HashMap<u8, (u64, u64)>) -> bool {
        let h = self.h;
        let len = self.len;
        for &(it, _, x) in seqs.iter().filter(|s| s.1 == k && (s.0 < 16) == shared) {
                let (_, items, done) = &h.it_seq[x];
                let c = cur.get_mut(&it).unwrap();
                let first = items.first().and_then(|x| self.item_pos(x)).unwrap_or(len);
                if (!items.is_empty() || *done) && c.0 < c.1 {
                    if first < c.0 || first > c.1 {
                        let c = *c;
                        self.v(m!(10 19), format!("into_seq_iter of iterator {it} starts at position {first}; its position was in {}..={}", c.0, c.1));
                        return false;
                    }
                    *c = (first, first);
                }
                let c = c.0;
                for (x, e) in items.iter().zip(c..) {
                    if self.item_pos(x) != Some(e) {
                        self.v(m!(10 19), format!("into_seq_iter of iterator {it} yielded {:?} where position {e} was expected", self.item_pos(x)));
                        return false;
                    }
                    if h.base != 0 && h.stride > 0 && x.addr != h.base + e as usize * h.stride {
                        self.v(m!(19), format!("into_seq_iter of iterator {it}: reference to position {e} does not point at the source element"));
                        return false;
                    }
                }
                if *done && items.len() as u64 != len.saturating_sub(c) {
                    self.v(m!(10 19), format!("into_seq_iter of iterator {it} yielded {} elements, {} remained", items.len(), len.saturating_sub(c)));
                    return false;
                }
        }
        true
    }

    /// positions at which the original can have been while it was cloned
    fn bounds(&self, c: &CloneRec, base: u64) -> (u64, u64) {
        let h = self.h;
        let len = self.len;
        let (mut lo, mut hi) = (base, base);
        for p in h.pulls.iter().filter(|p| p.phase == 1 && p.it == c.parent && p.n > 0) {
            let end_at = |p: &Pull| {
                if let (Some(b), Some(a)) = (p.begin, p.announced) {
                    Some(b + a)
                } else {
                    p.items.last().and_then(|x| self.item_pos(x)).map(|q| q + 1)
                }
            };
            if p.m.composite() {
                let n = if p.m == M::Batch { 1 } else { p.n as usize };
                let mut all = true;
                for (k, x) in p.items.iter().enumerate() {
                    let Some(q) = self.item_pos(x) else { continue };
                    if x.stamp < c.start {
                        lo = lo.max(q + 1);
                    }
                    // reserved together with its chunk, once the previous chunk was delivered
                    let first_of_chunk = k - k % n;
                    if p.start < c.end && (first_of_chunk == 0 || p.items[first_of_chunk - 1].stamp < c.end) {
                        hi = hi.max(q + 1);
                    }
                    all &= x.stamp < c.end;
                }
                if p.res == Res::End && p.end < c.start {
                    lo = len;
                }
                if p.res == Res::End && p.start < c.end && all {
                    hi = len;
                }
                continue;
            }
            if p.end < c.start {
                match p.res {
                    Res::Got => lo = lo.max(end_at(p).unwrap_or(0)),
                    Res::End => lo = len,
                    _ => {}
                }
            }
            if p.start < c.end {
                match p.res {
                    Res::Got => hi = hi.max(end_at(p).unwrap_or(0)),
                    Res::End => hi = len,
                    _ => {}
                }
            }
        }
        for q in h.queries.iter().filter(|q| q.phase == 1 && q.it == c.parent && q.end < c.start) {
            match q.res {
                Some(QRes::Len(Some(n))) | Some(QRes::Yes(n)) => lo = lo.max(len.saturating_sub(n)),
                Some(QRes::No) => lo = len,
                _ => {}
            }
        }
        for s in h.skips.iter().filter(|s| s.phase == 1 && s.it == c.parent) {
            if s.end < c.start {
                lo = len;
            }
            if s.start < c.end {
                hi = len;
            }
        }
        (lo.min(len), hi.min(len))
    }

    /// the concurrent part: each shared iterator continued from its own cursor
    fn after_threads(&mut self, cur: &mut HashMap<u8, (u64, u64)>) -> bool {
        let h = self.h;
        let len = self.len;
        let mut pos: HashMap<u8, Vec<u64>> = HashMap::new();
        let mut end: HashMap<u8, bool> = HashMap::new();
        let mut opaque: HashMap<u8, bool> = HashMap::new();
        for p in h.pulls.iter().filter(|p| p.phase == 1 && p.it < 16) {
            let v = pos.entry(p.it).or_default();
            if let (Some(b), Some(a)) = (p.begin, p.announced) {
                v.extend(b..b.saturating_add(a.min(WIDE)));
                if a > WIDE {
                    opaque.insert(p.it, true);
                }
            } else {
                v.extend(p.items.iter().filter_map(|x| self.item_pos(x)));
            }
            if p.res == Res::End && p.n > 0 {
                end.insert(p.it, true);
            }
            if p.m == M::Nth {
                opaque.insert(p.it, true);
            }
        }
        for (it, v) in &pos {
            let skips = h.skips.iter().any(|s| s.phase == 1 && s.it == *it);
            let Some(c) = cur.get(it).map(|c| c.0) else { continue };
            if opaque.contains_key(it) {
                continue;
            }
            let f = v.iter().min().copied();
            if let Some(f) = f {
                if f != c {
                    self.v(m!(19), format!("iterator {it} continued at position {f}, its own position was {c}"));
                }
                let mx = v.iter().max().copied().unwrap();
                if v.len() as u64 != mx + 1 - f {
                    self.v(m!(4 19), format!("iterator {it}: the {} positions delivered from {f} on are not consecutive (largest {mx})", v.len()));
                }
            }
            if !skips && end.contains_key(it) && v.len() as u64 != len.saturating_sub(c) {
                self.v(m!(1 19), format!("iterator {it} ended after {} elements, {} remained", v.len(), len.saturating_sub(c)));
            }
            let e = c + v.len() as u64;
            let e = if skips || end.contains_key(it) { len } else { e };
            cur.insert(*it, (e, e));
        }
        for s in h.skips.iter().filter(|s| s.phase == 1) {
            cur.insert(s.it, (len, len));
        }
        // positions no longer known one by one: the model ends here
        opaque.is_empty()
    }
}

/// observable behaviour, independent of token numbers and addresses
pub fn transcript(case: &Case, h: &Hist) -> Vec<String> {
    let mut v = vec![];
    for ev in &h.order {
        match ev {
            Ev::Pull(i) => {
                let p = &h.pulls[*i];
                let items: Vec<String> = p
                    .items
                    .iter()
                    .map(|x| format!("{:?}@{:?}{}", x.val.map(|v| case.src.pos(v) as i64), x.idx.map(|i| i as i64), if x.alive { "" } else { "!" }))
                    .collect();
                v.push(format!(
                    "{:?}({}) {:?} begin={:?} len={:?} items=[{}] complete={} {:?}",
                    p.m,
                    p.n,
                    p.res,
                    p.begin,
                    p.announced,
                    items.join(","),
                    p.complete,
                    p.len_bad
                ));
            }
            Ev::Query(i) => v.push(format!("{:?}", h.queries[*i].res)),
            Ev::Skip(i) => v.push(format!("skip {}", h.skips[*i].done)),
        }
    }
    for p in &h.panics {
        v.push(format!("panic {} injected={}", p.what, p.injected));
    }
    if h.seq_ran {
        let items: Vec<String> = h.seq_out.iter().map(|x| format!("{:?}", x.val.map(|v| case.src.pos(v) as i64))).collect();
        v.push(format!("seq [{}] done={} hint={:?}", items.join(","), h.seq_done, h.seq_hint));
    }
    v.push(format!(
        "ledger {:?} {:?} zst={}/{} kept={:?} source={:?} hang={}",
        h.toks.iter().map(|t| t.drops).collect::<Vec<_>>(),
        h.ledger_errors,
        h.zst_new,
        h.zst_drop,
        h.kept_errors,
        h.source_errors,
        h.hang.is_some()
    ));
    v
}
