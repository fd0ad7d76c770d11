//! Case generators, one profile per property. A case is a pure function of (seed, property, index).
use crate::case::*;
use crate::engine::{Mode, Sched};
use crate::rng::{mix, Rng};

pub const ARRAYS: &[(ElemT, usize)] = &[
    (ElemT::Tok, 0),
    (ElemT::Tok, 1),
    (ElemT::Tok, 2),
    (ElemT::Tok, 3),
    (ElemT::Tok, 5),
    (ElemT::Tok, 8),
    (ElemT::Tok, 21),
    (ElemT::TokBox, 4),
    (ElemT::TokBox, 7),
    (ElemT::Word, 6),
    (ElemT::Small, 16),
    (ElemT::Big, 3),
    (ElemT::Zst, 5),
    (ElemT::Tok, 65),
    (ElemT::Word, 257),
    (ElemT::Tok, 1030),
];
/// lengths around powers of two and round numbers
const BIG_LENS: &[usize] = &[
    63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095,
    4096, 4097, 5000,
];
const HUGE_LENS: &[usize] = &[8191, 8192, 8193, 10_000, 16_384, 32_768, 65_535, 65_536, 65_537, 70_000];
const KINDS: [Kind; 10] = [
    Kind::Slice,
    Kind::SliceCloned,
    Kind::SliceCopied,
    Kind::Vec,
    Kind::Array,
    Kind::Range,
    Kind::Iter,
    Kind::IterRef,
    Kind::IterRefCloned,
    Kind::IterRefCopied,
];

#[derive(Clone)]
pub struct Prof {
    pub kinds: [u32; 10],
    /// permille of cases with more than one thread
    pub conc: u32,
    pub max_len: u32,
    pub drain: u32, // percent of threads that pull until the end
    pub skip: u32,  // percent of cases with skip_to_end
    pub query: u32, // weight of length queries among the ops
    pub composite: u32,
    pub partial: u32, // percent of chunks consumed partially
    pub huge: u32,    // percent of chunk sizes that are huge
    pub zero: u32,    // percent of chunk sizes that are zero
    pub nonfused: u32,
    pub seqfin: u32, // percent ending with into_seq_iter
    pub stale: u32,  // percent of concurrent cases with weak-memory reads
    pub freeze: u32, // percent of known-size concurrent cases with a frozen thread
    /// percent of cases with an injected panic
    pub fault: u32,
    /// percent of composite calls that run further operations inside their closure
    pub nest: u32,
    /// percent of slice and vector sources that are huge collections of zero-sized elements
    pub unit: u32,
    pub zst: u32, // percent
    pub keep: u32,
    pub ledger: bool, // prefer element types with destructors
    pub tail: u32,
    pub head: u32,
    pub dfs: u32, // permille of concurrent cases explored exhaustively
    pub extreme: u32,
    pub only_composite: u32,
    pub past_end: u32,
}

pub fn prof(p: &str) -> Prof {
    let all = [10, 7, 5, 16, 12, 10, 22, 8, 6, 4];
    let base = Prof {
        kinds: all,
        conc: 850,
        max_len: 14,
        drain: 100,
        skip: 0,
        query: 1,
        composite: 3,
        partial: 10,
        huge: 2,
        zero: 0,
        nonfused: 0,
        seqfin: 10,
        stale: 0,
        freeze: 0,
        fault: 0,
        nest: 8,
        unit: 0,
        zst: 2,
        keep: 20,
        ledger: false,
        tail: 20,
        head: 15,
        dfs: 12,
        extreme: 0,
        only_composite: 0,
        past_end: 10,
    };
    match p {
        "C01" => Prof { stale: 25, fault: 3, ..base },
        "C02" => Prof { stale: 25, partial: 20, zst: 0, ..base },
        "C03" => Prof { partial: 45, conc: 600, stale: 10, huge: 6, max_len: 24, composite: 1, ..base },
        "C04" => Prof { fault: 3, conc: 600, drain: 40, partial: 20, tail: 45, zst: 0, ..base },
        "C05" => Prof { fault: 12, nest: 12, drain: 80, nonfused: 25, query: 4, past_end: 75, huge: 10, conc: 600, stale: 10, tail: 60, partial: 15, skip: 8, ..base },
        "C06" => Prof { fault: 6, nest: 20, skip: 100, query: 4, drain: 60, past_end: 50, tail: 60, keep: 70, partial: 20, stale: 10, nonfused: 5, conc: 800, ..base },
        "C07" => Prof { kinds: [4, 4, 3, 12, 9, 3, 40, 14, 8, 4], conc: 1000, stale: 50, skip: 15, drain: 50, query: 3, tail: 0, head: 0, ..base },
        "C08" => Prof { fault: 8, kinds: [2, 6, 0, 30, 26, 0, 24, 2, 6, 0], conc: 450, partial: 45, skip: 25, drain: 25, ledger: true, seqfin: 45, zst: 6, keep: 40, tail: 35, nonfused: 3, ..base },
        "C09" => Prof { fault: 8, drain: 60, skip: 35, query: 3, freeze: 55, stale: 15, nonfused: 5, partial: 20, conc: 1000, huge: 4, ..base },
        "C10" => Prof { seqfin: 100, drain: 12, skip: 15, partial: 30, conc: 500, tail: 30, ..base },
        "C11" => Prof { fault: 5, query: 14, drain: 45, skip: 12, tail: 60, past_end: 40, stale: 10, conc: 650, partial: 10, ..base },
        "C12" => Prof { nest: 14, only_composite: 70, composite: 14, conc: 850, tail: 15, ..base },
        "C13" => Prof { kinds: [0, 40, 25, 0, 0, 0, 0, 0, 20, 12], conc: 350, partial: 35, skip: 20, drain: 40, query: 4, seqfin: 40, tail: 30, zero: 3, huge: 4, dfs: 4, ..base },
        "C15" => Prof { fault: 6, kinds: [4, 6, 2, 34, 22, 2, 22, 4, 4, 2], conc: 250, partial: 45, skip: 25, drain: 25, ledger: true, seqfin: 45, tail: 30, dfs: 0, zst: 6, ..base },
        "C16" => Prof { unit: 25, nest: 0, kinds: [10, 4, 3, 12, 10, 40, 14, 6, 3, 3], conc: 150, extreme: 100, huge: 45, zero: 20, partial: 50, query: 4, seqfin: 35, skip: 15, drain: 15, dfs: 0, past_end: 40, tail: 0, head: 0, ..base },
        "C17" => Prof { unit: 12, conc: 0, extreme: 35, huge: 15, zero: 10, partial: 45, query: 4, skip: 25, seqfin: 50, drain: 20, past_end: 30, dfs: 0, ledger: true, tail: 0, ..base },
        "C17c" => Prof { conc: 1000, huge: 6, partial: 30, query: 4, skip: 25, seqfin: 30, tail: 40, past_end: 40, dfs: 0, fault: 10, ledger: true, ..base },
        "C18" => Prof { kinds: [4, 22, 0, 14, 10, 3, 34, 6, 14, 0], fault: 100, partial: 25, drain: 80, skip: 8, conc: 800, stale: 10, ledger: true, seqfin: 15, composite: 6, ..base },
        "C19" => Prof { nest: 3, kinds: [60, 0, 0, 0, 20, 20, 0, 0, 0, 0], conc: 600, skip: 15, drain: 15, partial: 40, query: 4, huge: 4, dfs: 0, ..base },
        _ => base,
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    len: u64, // true source length
    huge_len: bool,
    /// practically endless wrapped iterator: nothing may ask for all of it
    vast: bool,
    /// long source: sizes and counts are drawn at its scale
    big: bool,
    blank: bool,
    prop: String,
    deep: bool,
    /// nesting of closures
    depth: u32,
    /// several threads pull: operations whose accounting needs the cursor are left out
    shared: bool,
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x5EED);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i.wrapping_mul(0x1234_5678_9ABC_DEF1))
}

pub fn generate(seed: u64, prop: &str, i: u64, deep: bool) -> Case {
    let mut g = Gen {
        r: Rng::new(case_seed(seed, prop, i)),
        p: prof(prop),
        len: 0,
        huge_len: false,
        vast: false,
        big: false,
        blank: false,
        prop: prop.to_string(),
        deep,
        depth: 0,
        shared: false,
    };
    let mut c = if prop == "C19" { g.multi_case() } else { g.case() };
    c.id = i;
    c
}

impl Gen {
    pub fn for_schedules(k: u64) -> Gen {
        Gen { r: Rng::new(mix(k ^ 0xABCD)), p: prof(""), len: 0, huge_len: false, vast: false, big: false, blank: false, prop: String::new(), deep: false, depth: 0, shared: true }
    }
    fn pct(&mut self, p: u32) -> bool {
        self.r.chance(p as u64, 100)
    }

    fn src(&mut self) -> Src {
        let k = KINDS[self.r.weighted(&self.p.kinds.clone())];
        let zst = self.pct(self.p.zst);
        let led = self.p.ledger;
        let mut pick = |w: &[(ElemT, u32)]| {
            let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
            w[self.r.weighted(&ws)].0
        };
        use ElemT::*;
        let lw = if led { 1 } else { 6 };
        let mut elem = match k {
            Kind::Slice => pick(&[(Tok, 6), (TokBox, 3), (Word, 5), (Small, 3)]),
            Kind::SliceCloned => pick(&[(Tok, 8), (TokBox, 6), (Word, lw)]),
            Kind::SliceCopied => pick(&[(Word, 5), (Small, 4), (Big, 3)]),
            Kind::Vec => pick(&[(Tok, 9), (TokBox, 7), (Word, lw), (Small, lw / 2 + 1), (Big, lw / 2)]),
            Kind::Iter => pick(&[(Tok, 9), (TokBox, 7), (Word, lw)]),
            Kind::IterRef | Kind::IterRefCloned => pick(&[(Tok, 7), (Word, 4)]),
            Kind::IterRefCopied => Word,
            Kind::Range => Word,
            Kind::Array => Tok,
        };
        if zst && matches!(k, Kind::Slice | Kind::SliceCloned | Kind::Vec | Kind::Iter) {
            elem = Zst;
        }
        let mut len = match self.r.weighted(&[4, 8, 40, 30, 18]) {
            0 => 0,
            1 => 1,
            2 => self.r.range(2, 5),
            3 => self.r.range(5, 10.min(self.p.max_len as u64)),
            _ => self.r.range(8, self.p.max_len as u64),
        } as usize;
        if self.r.chance(1, 60) {
            len = self.r.range(15, if self.deep { 200 } else { 70 }) as usize;
        }
        self.big = false;
        if !matches!(k, Kind::Array | Kind::Range) || !self.pct(self.p.extreme) {
            if self.r.chance(1, 250) {
                len = if self.r.chance(1, 10) { *self.r.pick(HUGE_LENS) } else { *self.r.pick(BIG_LENS) };
                self.big = true;
            }
        }
        if k == Kind::Array {
            self.big = false;
            let (e, n) = loop {
                let a = *self.r.pick(ARRAYS);
                if a.1 > 60 && !self.r.chance(1, if a.1 > 1000 { 80 } else { 12 }) {
                    continue;
                }
                if a.0 != Zst || zst || self.r.chance(1, 3) {
                    if !led || a.0.ledger() || self.r.chance(1, 4) {
                        break a;
                    }
                }
            };
            elem = e;
            len = n;
            self.big = len > 60;
        }
        if elem == Small {
            len = len.min(256);
        }
        let lie = if matches!(self.prop.as_str(), "C08" | "C15") { 2 } else { 0 };
        let hint = match self.r.weighted(&[6, 3, 2, 4, 2, lie, lie]) {
            0 => Hint::Exact,
            1 => Hint::Inexact,
            2 => Hint::LowerOnly,
            3 => Hint::Unbounded,
            4 => Hint::Upper,
            5 => Hint::Over,
            _ => Hint::Under,
        };
        let mut s = Src {
            kind: k,
            elem,
            len,
            start: 0,
            end: None,
            salt: self.r.next() >> 1,
            hint: if k.wrapped() { hint } else { Hint::Exact },
            route: 0,
            cap: if k == Kind::Vec && self.r.chance(1, 3) { self.r.usize(9) } else { 0 },
            nonfused: false,
        };
        s.route = match k {
            Kind::Slice => self.r.below(7) as u8,
            Kind::SliceCloned | Kind::SliceCopied => self.r.below(6) as u8,
            Kind::Range => self.r.below(5) as u8,
            _ => self.r.below(3) as u8,
        };
        if k.wrapped() && self.pct(self.p.nonfused) {
            s.nonfused = true;
        }
        self.huge_len = false;
        self.vast = false;
        if k == Kind::Range {
            s.salt = 0;
            if !self.big && self.pct(self.p.extreme) {
                let m = u64::MAX;
                let pts = [0, 1, 2, 7, m, m - 1, m - 2, m - 9, m / 2, m / 2 + 1, 1 << 63, (1 << 63) - 1, 1 << 32, m - 40];
                let a = *self.r.pick(&pts);
                let b = match self.r.below(6) {
                    0 => *self.r.pick(&pts),
                    1 => a,
                    2 => a.wrapping_sub(self.r.below(5)),
                    _ => a.saturating_add(self.r.below(20)),
                };
                s.start = a;
                s.end = Some(b);
                let l = b.saturating_sub(a);
                self.huge_len = l > 64;
                s.len = l.min(1000) as usize;
                self.len = l;
                return s;
            }
            s.start = match self.r.below(4) {
                0 => 0,
                1 => self.r.below(10),
                2 => self.r.below(1 << 40),
                _ => self.len.wrapping_add(self.r.below(100)),
            };
        }
        if matches!(k, Kind::Slice | Kind::SliceCloned | Kind::SliceCopied | Kind::Vec) && self.pct(self.p.unit) {
            s.elem = Unit;
            s.cap = 0;
            self.big = false;
            s.len = s.len.min(40);
            if self.r.chance(3, 4) {
                let m = u64::MAX;
                let pts = [m, m - 1, m - 2, m - 7, m / 2, m / 2 + 1, m / 2 - 1, 1 << 32, (1 << 32) - 1, (1 << 63) + 5, 1 << 40];
                s.len = *self.r.pick(&pts) as usize;
                self.huge_len = true;
            }
        }
        if k == Kind::Iter && s.elem == Word && self.prop != "C19" && self.p.only_composite == 0 && self.r.chance(1, 12) {
            let m = usize::MAX;
            s.len = *self.r.pick(&[m, m, m - 1, m - 7, m / 2, m / 2 + 1, 1 << 32, 1 << 40]);
            s.nonfused = false;
            self.big = false;
            self.huge_len = true;
            self.vast = true;
        }
        self.blank = s.elem.blank();
        self.len = s.len as u64;
        s
    }

    fn size(&mut self) -> u64 {
        let l = self.len;
        if self.pct(self.p.zero) {
            return 0;
        }
        if self.vast {
            return if self.r.chance(1, 20) { self.r.range(40, 3000) } else { self.r.range(1, 20) };
        }
        if self.pct(self.p.huge) {
            let m = u64::MAX;
            let pts = [
                m,
                m - 1,
                m - 2,
                m / 2,
                m / 2 + 1,
                m / 2 + 2,
                1 << 32,
                1 << 40,
                (1 << 62) + 1,
                m - l,
                (m - l).wrapping_add(1),
                m.wrapping_sub(l).wrapping_sub(1),
            ];
            return (*self.r.pick(&pts)).max(1);
        }
        if self.r.chance(1, 40) || (self.big && self.r.chance(1, 3)) {
            // the middle of the scale
            let x = if self.r.chance(3, 4) {
                let top = if self.big { 13 } else { 31 };
                (1u64 << self.r.range(5, top)).wrapping_add(self.r.below(3)).wrapping_sub(1)
            } else {
                *self.r.pick(&[50u64, 100, 500, 1000, 10_000, 100_000, 1_000_000])
            };
            return x;
        }
        if self.big && self.r.chance(1, 2) {
            return (l / self.r.range(1, 9)).max(1);
        }
        let x = match self.r.weighted(&[3, 5, 4, 3, 2, 2, 2, 1]) {
            0 => 1,
            1 => self.r.range(2, 3),
            2 => self.r.range(2, 6),
            3 => self.r.range(1, l.clamp(1, 50)),
            4 => l,
            5 => l.saturating_add(1),
            6 => l.saturating_sub(1),
            _ => self.r.range(1, 40),
        };
        x.max(1)
    }

    fn take(&mut self) -> Take {
        if self.big && self.r.chance(1, 5) {
            let k = self.r.below(self.len + 2) as u32;
            return match self.r.below(4) {
                0 => Take::Nth(k),
                1 => Take::SkipEach(k),
                2 => Take::Step(k / 4),
                _ => Take::First(k),
            };
        }
        if self.pct(self.p.partial) || self.huge_len {
            match self.r.below(if self.huge_len { 5 } else { 7 }) {
                0 if !self.shared_freeze() && self.r.chance(1, 5) => Take::Boom(self.r.below(4) as u32),
                0 if self.prop != "C15" && self.r.chance(1, 4) => Take::Forget(self.r.below(4) as u32),
                0 => Take::None,
                1 | 2 | 3 => Take::First(self.r.range(1, 5) as u32),
                4 => Take::Nth(self.r.below(5) as u32),
                5 => Take::Step(self.r.below(4) as u32),
                _ => match self.r.below(6) {
                    0 => Take::SkipEach(self.r.below(5) as u32),
                    1 => Take::Last,
                    2 => Take::Count,
                    _ => {
                        let k = self.r.range(1, 4) as u32;
                        let j = self.r.below(4) as u32;
                        Take::Mix(
                            k,
                            match self.r.below(8) {
                                0 => Tail::Each,
                                1 => Tail::Collect,
                                2 => Tail::Last,
                                3 => Tail::Count,
                                4 | 5 => Tail::Nth(j),
                                6 => Tail::SkipEach(j),
                                _ => Tail::Try(j),
                            },
                        )
                    }
                },
            }
        } else {
            match self.r.below(6) {
                0 => Take::Each,
                1 => Take::Collect,
                _ => Take::All,
            }
        }
    }

    fn chunk(&mut self, depth: u32) -> Op {
        let n = self.size();
        let take = self.take();
        let inner = if depth == 0 && self.r.chance(1, 8) { vec![self.op(depth + 1)] } else { vec![] };
        Op::Chunk { n, take, inner }
    }

    fn buf(&mut self, depth: u32) -> Op {
        let mut n = self.size();
        if self.r.chance(1, 2) && n == 1 {
            n = 2;
        }
        let k = self.r.range(1, 3);
        let mut body = vec![];
        for _ in 0..k {
            if depth == 0 && self.r.chance(1, 6) {
                let o = self.op(depth + 1);
                body.push(BufStep::Do(o));
            } else {
                let take = self.take();
                let inner = if depth == 0 && self.r.chance(1, 10) { vec![self.op(depth + 1)] } else { vec![] };
                body.push(BufStep::Pull { take, inner });
            }
        }
        Op::Buf { n, body }
    }

    fn composite(&mut self) -> Op {
        let n = self.size();
        if n > 0 && self.depth == 0 && self.pct(self.p.nest) {
            self.depth += 1;
            let k = self.r.range(1, 2);
            let mut inner = vec![];
            let only = self.p.only_composite > 0 && self.r.chance(2, 3);
            for _ in 0..k {
                let o = if self.p.skip > 0 && self.r.chance(1, 3) {
                    Op::Skip
                } else if only || (self.p.composite > 0 && self.r.chance(1, 5)) {
                    self.composite()
                } else {
                    self.op(1)
                };
                inner.push(o);
            }
            self.depth -= 1;
            return Op::Nest { m: self.r.below(3) as u8, n, at: self.r.below(self.len.clamp(1, 8)) as u32, inner };
        }
        match self.r.below(3) {
            0 => Op::ForEach(n),
            1 => Op::Enum(n),
            _ => Op::Fold(n),
        }
    }

    /// may a thread be suspended for ever?
    fn shared_freeze(&self) -> bool {
        self.p.freeze > 0 && self.shared
    }

    /// now and then the operation is executed by a destructor while a panic unwinds
    fn unwound(&mut self, o: Op, one_in: u64) -> Op {
        if matches!(self.prop.as_str(), "C01" | "C06" | "C08" | "C18") && !self.shared_freeze() && self.r.chance(1, one_in) {
            let mut l = vec![o];
            if self.r.chance(1, 4) {
                let o = self.op(1);
                l.insert(self.r.usize(2), o);
            }
            return Op::Unwind(l);
        }
        o
    }

    fn op(&mut self, depth: u32) -> Op {
        let o = self.op_plain(depth);
        if depth == 0 && self.depth == 0 {
            return self.unwound(o, 60);
        }
        o
    }

    fn op_plain(&mut self, depth: u32) -> Op {
        let q = self.p.query;
        let comp = if depth > 0 || self.huge_len { 0 } else { self.p.composite };
        match self.r.weighted(&[6, 7, 2, 3, 9, 8, comp, q, 1]) {
            0 => Op::Next,
            1 => Op::NextId,
            2 if !self.shared && self.depth == 0 && !self.blank && !self.huge_len && self.r.chance(1, 3) => {
                if self.prop == "C19" || self.r.chance(1, 2) {
                    Op::AdaptNth { ids: self.r.chance(1, 2), k: self.r.below(4) as u32 }
                } else {
                    Op::AdaptEnd { ids: self.r.chance(1, 2), last: self.r.chance(1, 2) }
                }
            }
            2 => Op::Values(self.count(3)),
            3 => Op::Ids(self.count(3)),
            4 => self.chunk(depth),
            5 => {
                if depth > 0 {
                    self.chunk(depth)
                } else {
                    self.buf(depth)
                }
            }
            6 => self.composite(),
            7 => {
                if self.r.chance(1, 2) {
                    Op::Len
                } else {
                    Op::More
                }
            }
            _ => {
                if self.huge_len {
                    Op::Next
                } else if self.r.chance(1, 6) {
                    Op::AdaptAll { ids: self.r.chance(1, 2), how: self.r.below(6) as u8 }
                } else {
                    let k = if self.r.chance(1, 6) { 100_000 } else { self.count(4) };
                    if self.r.chance(1, 2) {
                        Op::ValuesBatch(k)
                    } else {
                        Op::IdsBatch(k)
                    }
                }
            }
        }
    }

    fn count(&mut self, top: u64) -> u32 {
        if self.big && self.r.chance(1, 2) {
            return self.r.range(1, self.len) as u32;
        }
        self.r.range(1, top) as u32
    }

    fn drain(&mut self) -> Op {
        if self.huge_len {
            return Op::NextId;
        }
        let mut n = self.size();
        if n == 0 {
            n = 1;
        }
        match self.r.weighted(&[3, 4, 2, 2, 4, 5, self.p.composite * 2, 1]) {
            0 if self.depth == 0 => self.unwound(Op::DrainNext, 12),
            0 => Op::DrainNext,
            1 => Op::DrainId,
            2 => Op::DrainValues,
            3 => Op::DrainIds,
            4 => Op::DrainChunk(n),
            5 => Op::Buf { n, body: vec![BufStep::Drain] },
            7 => Op::AdaptAll { ids: self.r.chance(1, 2), how: self.r.below(6) as u8 },
            _ => {
                // avoid size zero
                match self.r.below(3) {
                    0 => Op::ForEach(n),
                    1 => Op::Enum(n),
                    _ => Op::Fold(n),
                }
            }
        }
    }

    fn past_end(&mut self, out: &mut Vec<Op>) {
        if self.pct(self.p.past_end) {
            for _ in 0..self.r.range(1, 3) {
                let o = self.op(1);
                out.push(o);
            }
        }
    }

    fn list(&mut self, max: u64) -> Vec<Op> {
        let k = self.r.range(0, max);
        (0..k).map(|_| self.op(0)).collect()
    }

    pub fn sched(&mut self, stale: bool, waits: bool) -> Sched {
        let mode = match self.r.weighted(&[3, 5]) {
            0 => Mode::Random { stay: *self.r.pick(&[0u8, 4, 8, 12, 14]) },
            _ if self.big => Mode::Pct { depth: self.r.range(1, 40) as u8, len: (self.len * self.r.range(1, 8)) as u32 },
            _ => Mode::Pct { depth: self.r.range(1, 5) as u8, len: *self.r.pick(&[20u32, 40, 80, 160, 300]) },
        };
        let nap = if self.r.chance(if waits { 3 } else { 1 }, 80) {
            // log-uniform: a few steps up to a million
            let d = self.r.range(4, 20);
            let w = *self.r.pick(&[8u64, 16, 40]);
            Some((self.r.below(2) as u8, self.r.below(w), ((1u64 << d) + self.r.below(1 << d)) as u32))
        } else {
            None
        };
        Sched { seed: self.r.next() >> 1, mode, stale: if stale { self.r.range(2, 12) as u8 } else { 0 }, nap, harass: None }
    }

    pub fn case(&mut self) -> Case {
        let src = self.src();
        let p = self.p.clone();
        let conc = self.r.chance(p.conc as u64, 1000);
        let mut c = Case {
            prop: self.prop.clone(),
            id: 0,
            src,
            pre: vec![],
            head: vec![],
            threads: vec![],
            tail: vec![],
            fin: Fin::Drop,
            sched: SEQ_SCHED,
            fault: None,
            freeze: None,
            keep: false,
            multi: vec![],
            mth: vec![],
            mtail: vec![],
        };
        c.keep = self.pct(p.keep);
        if self.pct(p.seqfin) {
            c.fin = if self.r.chance(1, 3) || self.huge_len { Fin::Seq(self.r.below(if self.big { self.len } else { self.len.min(20) } + 2) as u32) } else { Fin::SeqAll };
        }
        if c.fin == Fin::Drop && matches!(self.prop.as_str(), "C08" | "C15" | "C18") && self.r.chance(1, 12) {
            c.fin = Fin::DropUnwind;
        }
        let only_comp = self.pct(p.only_composite);
        let skip = self.pct(p.skip);
        if conc {
            let dfs = !self.big && self.r.chance(p.dfs as u64, 1000);
            let nt = if dfs { 2 } else { 
                match self.r.weighted(&[208, 132, 52, 4, 3, 2]) {
                    5 => self.r.range(7, 12) as usize,
                    k => 2 + k,
                }
            };
            let stale = !dfs && self.len <= 300 && self.pct(p.stale);
            self.shared = true;
            if dfs && self.len > 3 && c.src.kind != Kind::Array {
                self.big = false;
                self.vast = false;
                c.src.len = self.r.range(0, 3) as usize;
                self.len = c.src.len as u64;
            }
            // a thread that loses every race for the counter, against others that pull one after the other
            let harass = !dfs && !self.big && !self.huge_len && p.freeze == 0 && self.r.chance(1, 100);
            if harass && !only_comp && c.src.kind != Kind::Array && c.src.end.is_none() && c.src.start < 1 << 60 {
                c.src.len = self.r.range(10, 70) as usize;
                self.len = c.src.len as u64;
            }
            if self.pct(p.head) {
                self.shared = false;
                c.head = self.list(2);
                self.shared = true;
            }
            for _ in 0..nt {
                let mut l = if only_comp {
                    vec![]
                } else if dfs {
                    self.list(1)
                } else {
                    self.list(4)
                };
                if only_comp {
                    l.push(self.composite());
                    if self.r.chance(1, 3) {
                        l.push(self.composite());
                    }
                } else if self.pct(p.drain) {
                    if !dfs || self.r.chance(1, 2) {
                        l.push(self.drain());
                    } else {
                        let m = if self.r.chance(1, 2) { Op::NextId } else { Op::Chunk { n: 2, take: Take::All, inner: vec![] } };
                        l.push(m);
                    }
                    self.past_end(&mut l);
                }
                if stale && self.r.chance(1, 2) {
                    let at = self.r.usize(l.len() + 1);
                    l.insert(at, Op::Sync);
                }
                c.threads.push(l);
            }
            if skip {
                let k = if self.r.chance(1, 5) { 2 } else { 1 };
                for _ in 0..k {
                    let t = self.r.usize(nt);
                    let at = self.r.usize(c.threads[t].len() + 1);
                    let o = self.unwound(Op::Skip, 20);
                    c.threads[t].insert(at, o);
                    if self.r.chance(1, 2) {
                        let o = if self.r.chance(1, 2) { Op::More } else { self.op(1) };
                        c.threads[t].insert(at + 1, o);
                    }
                }
            }
            self.shared = false;
            if self.pct(p.tail) {
                c.tail = self.list(3);
                if self.pct(p.drain) && !only_comp {
                    let d = self.drain();
                    c.tail.push(d);
                    let mut t = std::mem::take(&mut c.tail);
                    self.past_end(&mut t);
                    c.tail = t;
                }
            }
            c.sched = self.sched(stale, c.src.kind.wrapped());
            if harass {
                let v = self.r.usize(nt);
                c.sched.harass = Some(v as u8);
                if !only_comp {
                    for t in 0..nt {
                        if t != v {
                            let o = match self.r.below(5) {
                                0 | 1 => Op::DrainId,
                                2 => Op::DrainNext,
                                3 => Op::DrainIds,
                                _ => Op::DrainChunk(self.r.range(1, 2)),
                            };
                            c.threads[t].insert(0, o);
                        }
                    }
                }
            }
            if dfs {
                c.sched = Sched { seed: 0, mode: Mode::Dfs { bound: 2, cap: if self.deep { 20_000 } else { 1500 } }, stale: 0, nap: None, harass: None };
            }
            if !c.src.kind.wrapped() && self.pct(p.freeze) {
                c.freeze = Some((self.r.usize(nt) as u8, self.r.below(if self.big { self.len } else { 14 })));
            }
        } else {
            let mut l = if only_comp { vec![self.composite()] } else { self.list(8) };
            if self.pct(p.drain) {
                let d = self.drain();
                l.push(d);
                self.past_end(&mut l);
            }
            if skip {
                let at = self.r.usize(l.len() + 1);
                let o = self.unwound(Op::Skip, 20);
                l.insert(at, o);
                let mut m = l.split_off(at + 1);
                self.past_end(&mut l);
                l.append(&mut m);
            }
            c.head = l;
        }
        if c.src.kind.adaptor() && !only_comp && self.r.chance(1, 8) {
            self.shared = false;
            c.pre = self.list(3);
        }
        if p.fault > 0 && self.pct(p.fault) && !self.huge_len {
            let f = match c.src.kind {
                Kind::Iter | Kind::IterRef => {
                    if self.r.chance(1, 5) {
                        Site::Closure
                    } else {
                        Site::Next
                    }
                }
                Kind::IterRefCloned => *self.r.pick(&[Site::Next, Site::Clone, Site::Clone]),
                Kind::SliceCloned => {
                    if c.src.elem == ElemT::Word || self.r.chance(1, 6) {
                        Site::Closure
                    } else {
                        Site::Clone
                    }
                }
                _ => Site::Closure,
            };
            let f = if f == Site::Clone && c.src.elem == ElemT::Word { Site::Next } else { f };
            if f == Site::Closure {
                // make sure closures run
                let o = self.composite();
                if c.threads.is_empty() {
                    let at = self.r.usize(c.head.len() + 1);
                    c.head.insert(at, o);
                } else {
                    let t = self.r.usize(c.threads.len());
                    let at = self.r.usize(c.threads[t].len() + 1);
                    c.threads[t].insert(at, o);
                }
            }
            c.fault = Some(Fault { site: f, k: self.r.below(self.len + 2) as u32, sticky: self.r.chance(1, 8) });
            if p.fault == 100 {
                c.fin = if self.r.chance(1, 6) { Fin::SeqAll } else if c.fin == Fin::DropUnwind { c.fin } else { Fin::Drop };
            }
        }
        c
    }

    fn multi_case(&mut self) -> Case {
        let mut src = self.src();
        // restrict to what the multi runner supports
        match src.kind {
            Kind::Slice => {
                src.elem = *self.r.pick(&[ElemT::Tok, ElemT::Word, ElemT::Small]);
            }
            Kind::Array => {
                src.elem = ElemT::Tok;
                src.len = *self.r.pick(&[0usize, 1, 5, 8]);
                self.big = false;
            }
            _ => {}
        }
        if src.elem == ElemT::Small {
            src.len = src.len.min(256);
        }
        self.len = src.len as u64;
        self.blank = false;
        let p = self.p.clone();
        let mut m = vec![MultiOp::New(self.r.below(4) as u8)];
        let mut live = 1u64;
        let k = self.r.range(2, 14);
        for _ in 0..k {
            match self.r.weighted(&[3, 6, 18, 1, 2, 2]) {
                0 => {
                    if live < 14 {
                        m.push(MultiOp::New(self.r.below(4) as u8));
                        live += 1;
                    }
                }
                1 => {
                    if live < 14 {
                        m.push(MultiOp::Clone(self.r.below(live) as u8));
                        live += 1;
                    }
                }
                2 => {
                    let o = if self.r.chance(p.skip as u64, 300) {
                        Op::Skip
                    } else if self.r.chance(p.drain as u64, 300) {
                        self.drain()
                    } else {
                        self.op(0)
                    };
                    m.push(MultiOp::On(self.r.below(live) as u8, o));
                }
                3 => m.push(MultiOp::Drop(self.r.below(live) as u8)),
                4 => m.push(MultiOp::Seq(self.r.below(live) as u8, self.r.below(self.len.min(30) + 3) as u32)),
                _ => m.push(MultiOp::Read),
            }
        }
        let mut c = Case {
            prop: self.prop.clone(),
            id: 0,
            src,
            pre: vec![],
            head: vec![],
            threads: vec![],
            tail: vec![],
            fin: Fin::Drop,
            sched: SEQ_SCHED,
            fault: None,
            freeze: None,
            keep: self.r.chance(1, 2),
            multi: m,
            mth: vec![],
            mtail: vec![],
        };
        if self.r.chance(p.conc as u64, 1000) {
            self.shared = true;
            let nt = self.r.range(2, 4);
            if self.r.chance(2, 3) {
                // threads clone iterators that other threads are using
                let lv = live.min(3);
                for _ in 0..nt {
                    let mut l = vec![];
                    for _ in 0..self.r.range(1, 6) {
                        let i = if self.r.chance(1, 2) { self.r.below(lv) } else { self.r.below(live + 4) } as u8;
                        l.push(match self.r.weighted(&[1, 9, 16, 1, 3, 1]) {
                            0 => MultiOp::New(self.r.below(4) as u8),
                            1 => MultiOp::Clone(i),
                            2 => {
                                let o = if self.r.chance(p.skip as u64, 400) {
                                    Op::Skip
                                } else if self.r.chance(p.drain as u64, 400) {
                                    self.drain()
                                } else {
                                    self.op(0)
                                };
                                MultiOp::On(i, o)
                            }
                            3 => MultiOp::Drop(i),
                            4 => MultiOp::Seq(self.r.below(live + 4) as u8, self.r.below(self.len.min(30) + 3) as u32),
                            _ => MultiOp::Read,
                        });
                    }
                    c.mth.push(l);
                }
                if self.r.chance(1, 2) {
                    for _ in 0..self.r.range(1, 4) {
                        let i = self.r.below(live) as u8;
                        let m = match self.r.below(5) {
                            0 => MultiOp::Clone(i),
                            1 => MultiOp::Seq(i, self.r.below(self.len.min(30) + 3) as u32),
                            _ => MultiOp::On(i, self.op(0)),
                        };
                        c.mtail.push(m);
                    }
                }
            } else {
                for _ in 0..nt {
                    let mut l = self.list(3);
                    if self.r.chance(1, 2) {
                        let d = self.drain();
                        l.push(d);
                    }
                    c.threads.push(l);
                }
            }
            c.sched = self.sched(false, false);
        }
        c
    }
}
