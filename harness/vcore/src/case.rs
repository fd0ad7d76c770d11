//! A case: everything needed to execute one generated program against the real crate, as data.
use crate::engine::Sched;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Slice,
    SliceCloned,
    SliceCopied,
    Vec,
    Array,
    Range,
    /// wrapped iterator yielding owned elements
    Iter,
    /// wrapped iterator yielding references
    IterRef,
    IterRefCloned,
    IterRefCopied,
}
impl Kind {
    pub fn wrapped(self) -> bool {
        matches!(self, Kind::Iter | Kind::IterRef | Kind::IterRefCloned | Kind::IterRefCopied)
    }
    /// owned elements move out of the source
    pub fn consuming(self) -> bool {
        matches!(self, Kind::Vec | Kind::Array | Kind::Iter)
    }
    pub fn adaptor(self) -> bool {
        matches!(self, Kind::SliceCloned | Kind::SliceCopied | Kind::IterRefCloned | Kind::IterRefCopied)
    }
    pub fn underlying(self) -> Kind {
        match self {
            Kind::SliceCloned | Kind::SliceCopied => Kind::Slice,
            Kind::IterRefCloned | Kind::IterRefCopied => Kind::IterRef,
            k => k,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ElemT {
    /// inline token with a destructor, registered in the drop ledger
    Tok,
    /// token that also owns a heap block
    TokBox,
    /// u64, Copy
    Word,
    /// u8, Copy
    Small,
    /// 72 bytes, Copy
    Big,
    /// zero sized, with a destructor
    Zst,
    /// zero sized without destructor: collections of any length up to the largest value
    Unit,
}
impl ElemT {
    pub fn ledger(self) -> bool {
        matches!(self, ElemT::Tok | ElemT::TokBox)
    }
    /// elements carry no value
    pub fn blank(self) -> bool {
        matches!(self, ElemT::Zst | ElemT::Unit)
    }
}

/// beyond this length the elements of a wrapped iterator are made on demand
pub const VAST: usize = 1 << 30;

/// size_hint of the wrapped iterator
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Hint {
    Exact,
    /// lower < upper
    Inexact,
    LowerOnly,
    Unbounded,
    /// nothing known but an upper bound which is attained
    Upper,
    /// wrong: seemingly exact, too many (C08, C15: ownership must not depend on a hint)
    Over,
    /// wrong: seemingly exact, too few
    Under,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Src {
    pub kind: Kind,
    pub elem: ElemT,
    pub len: usize,
    /// range start (range end = start + len unless `end` is given)
    #[serde(default)]
    pub start: u64,
    /// explicit range end (allows inverted ranges)
    #[serde(default)]
    pub end: Option<u64>,
    pub salt: u64,
    #[serde(default = "dhint")]
    pub hint: Hint,
    /// construction route (meaning depends on the kind)
    #[serde(default)]
    pub route: u8,
    /// spare capacity of the consumed vector
    #[serde(default)]
    pub cap: usize,
    /// the wrapped iterator yields further elements after its first None
    #[serde(default)]
    pub nonfused: bool,
}
fn dhint() -> Hint {
    Hint::Exact
}
impl Src {
    pub fn known(&self) -> bool {
        !self.kind.wrapped() || self.hint == Hint::Exact
    }
    pub fn val(&self, pos: u64) -> u64 {
        match (self.kind, self.elem) {
            (Kind::Range, _) => self.start.wrapping_add(pos),
            (_, ElemT::Small) => (pos.wrapping_mul(167).wrapping_add(self.salt)) & 0xff,
            _ => pos.wrapping_mul(MUL).wrapping_add(self.salt),
        }
    }
    /// position that carries this value; >= len for values that never were in the source
    pub fn pos(&self, val: u64) -> u64 {
        match (self.kind, self.elem) {
            (Kind::Range, _) => {
                if val < self.start {
                    u64::MAX
                } else {
                    val - self.start
                }
            }
            (_, ElemT::Small) => (val.wrapping_sub(self.salt & 0xff) & 0xff).wrapping_mul(INV167) & 0xff,
            _ => val.wrapping_sub(self.salt).wrapping_mul(INV),
        }
    }
}
pub const MUL: u64 = 0x9E37_79B9_7F4A_7C15;
pub const INV: u64 = inv(MUL);
const INV167: u64 = inv(167) & 0xff;
const fn inv(a: u64) -> u64 {
    let mut x = a;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
        i += 1;
    }
    x
}

/// how a delivered chunk is consumed
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Take {
    /// next() until None
    All,
    /// internal iteration
    Each,
    Collect,
    First(u32),
    /// nth(k) and stop
    Nth(u32),
    None,
    /// nth(k) until None
    Step(u32),
    /// skip(k).for_each(..)
    SkipEach(u32),
    Last,
    Count,
    /// take this many, then mem::forget the rest of the chunk
    Forget(u32),
    /// take this many, then panic: the rest of the chunk is dropped by the unwinding
    Boom(u32),
    /// take this many by next(), the rest by another method
    Mix(u32, Tail),
}

/// How a partly consumed chunk goes on.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tail {
    Each,
    Collect,
    Last,
    Count,
    Nth(u32),
    SkipEach(u32),
    /// try_for_each() leaving after this many, the rest by next()
    Try(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BufStep {
    Pull {
        take: Take,
        /// executed while the chunk is alive
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        inner: Vec<Op>,
    },
    Do(Op),
    /// pull and consume until the end is reported
    Drain,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Next,
    NextId,
    /// k items through values()
    Values(u32),
    Ids(u32),
    Chunk {
        n: u64,
        take: Take,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        inner: Vec<Op>,
    },
    Buf {
        n: u64,
        body: Vec<BufStep>,
    },
    ForEach(u64),
    Enum(u64),
    Fold(u64),
    Skip,
    Len,
    More,
    /// client-level synchronisation
    Sync,
    /// repeat a pull until it reports the end
    DrainNext,
    DrainId,
    DrainValues,
    DrainIds,
    DrainChunk(u64),
    /// through the Iterator adaptor APIs of values(): by_ref().take(k), nth, etc. (k items at most)
    ValuesBatch(u32),
    /// the same with ids_and_values()
    IdsBatch(u32),
    /// values().nth(k) or ids_and_values().nth(k)
    AdaptNth { ids: bool, k: u32 },
    /// the adaptor consumed to its end by an Iterator method: 0 for_each, 1 position, 2 any, 3 fold, 4 by_ref().next(),
    /// 5 filter_map().for_each()
    AdaptAll { ids: bool, how: u8 },
    /// values().count() / ids_and_values().count(), or last()
    AdaptEnd { ids: bool, last: bool },
    /// for_each (0), enumerate_for_each (1) or fold (2) whose closure runs `inner` at its `at`-th visit
    Nest { m: u8, n: u64, at: u32, inner: Vec<Op> },
    /// executed by a destructor while a panic of the client unwinds
    Unwind(Vec<Op>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fin {
    Drop,
    /// into_seq_iter, take at most this many elements, drop the rest
    Seq(u32),
    /// into_seq_iter consumed through collect/fold
    SeqAll,
    /// dropped while a panic of the client unwinds
    DropUnwind,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Site {
    Next,
    Clone,
    Closure,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub site: Site,
    /// the k-th (from 0) execution of the site panics
    pub k: u32,
    /// every execution from the k-th on panics
    #[serde(default)]
    pub sticky: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    #[serde(default)]
    pub id: u64,
    pub src: Src,
    /// operations on the underlying iterator before cloned() / copied() is called
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub pre: Vec<Op>,
    #[serde(default)]
    pub head: Vec<Op>,
    #[serde(default)]
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub tail: Vec<Op>,
    pub fin: Fin,
    pub sched: Sched,
    #[serde(default)]
    pub fault: Option<Fault>,
    #[serde(default)]
    pub freeze: Option<(u8, u64)>,
    /// keep delivered items until the very end
    #[serde(default)]
    pub keep: bool,
    /// C19: programs for additional iterators over the same collection; C13: unused
    #[serde(default)]
    pub multi: Vec<MultiOp>,
    /// C19: programs of concurrent threads (used instead of `threads` when not empty)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub mth: Vec<Vec<MultiOp>>,
    /// C19: operations after the threads finished
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub mtail: Vec<MultiOp>,
}

/// operations over several iterators of one collection (C19)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MultiOp {
    /// a new iterator over the collection (route)
    New(u8),
    /// clone iterator i
    Clone(u8),
    /// run an operation on iterator i
    On(u8, Op),
    /// drop iterator i
    Drop(u8),
    /// into_seq_iter on iterator i, taking k
    Seq(u8, u32),
    /// use the collection directly: read all elements
    Read,
}

pub const SEQ_SCHED: Sched = Sched { seed: 0, mode: crate::engine::Mode::Random { stay: 0 }, stale: 0, nap: None, harass: None };
