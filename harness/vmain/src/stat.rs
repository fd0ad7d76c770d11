//! Coverage counters: what the generated cases actually exercised.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use vcore::case::*;
use vcore::hist::{Hist, Pull, QRes, Res, M};
use vcore::oracle::src_len;

pub struct Stats {
    prop: String,
    evals: u64,
    nontrivial: u64,
    set: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

fn h64(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "at least two threads each completed a delivering pull, and some pull reported the end",
        "C02" => "at least two indexed deliveries, from at least two threads or through at least two methods",
        "C03" => "at least one chunk was delivered, and one was shorter than requested, partly consumed, or delivered while another thread pulled",
        "C04" => "at least three deliveries with at least one pair ordered (same thread, or one returned before the other started)",
        "C05" => "a pull reported the end and a further pull or query followed it",
        "C06" => "skip_to_end ran while elements were left, and a pull or query followed it or was in flight",
        "C07" => "two threads performed atomic operations and at least three context switches happened; wrapped sources: next executed by two threads",
        "C08" => "elements with destructors, and at least two of: moved out by pulls, left in a partly consumed chunk, remainder, skip, dropped with the iterator",
        "C09" => "a thread was frozen while others had work left, or at least two threads finished under at least four context switches",
        "C10" => "into_seq_iter ran after at least one pull delivered something, with elements left or the end reached",
        "C11" => "a length query ran with a delivery before and a pull or query after it",
        "C12" => "a composite call visited at least one element, with two threads or at least two chunks",
        "C13" => "an adaptor delivered at least two elements or a chunk",
        "C15" => "the source or machinery allocated on the heap, and elements were left undelivered or partly consumed, or all consumed",
        "C16" => "a chunk size of zero or beyond 2^31, or a range with an extreme, empty or inverted bound",
        "C17" => "at least three operations executed, identical program in four builds",
        "C18" => "the injected fault fired",
        "C19" => "two iterators (or the source) used alternately, with at least one delivery from each of two",
        _ => "any",
    }
}

fn nontrivial(prop: &str, c: &Case, h: &Hist) -> bool {
    let got = |p: &&Pull| p.res == Res::Got || !p.items.is_empty();
    let deliv: Vec<&Pull> = h.pulls.iter().filter(got).collect();
    let threads = |ps: &[&Pull]| {
        let mut s: Vec<u8> = ps.iter().map(|p| p.thr).collect();
        s.sort();
        s.dedup();
        s.len()
    };
    let len = src_len(&c.src);
    let ended = h.pulls.iter().any(|p| p.res == Res::End);
    match prop {
        "C01" => threads(&deliv) >= 2 && ended,
        "C02" => {
            let v: Vec<&Pull> = deliv.iter().copied().filter(|p| p.items.iter().any(|i| i.idx.is_some())).collect();
            v.iter().map(|p| p.items.len()).sum::<usize>() >= 2 && (threads(&v) >= 2 || v.windows(2).any(|w| w[0].m != w[1].m))
        }
        "C03" => {
            let ch: Vec<&&Pull> = deliv.iter().filter(|p| p.m.chunked()).collect();
            !ch.is_empty() && (ch.iter().any(|p| p.announced.map(|a| a < p.n).unwrap_or(false) || !p.complete) || threads(&deliv) >= 2)
        }
        "C04" => deliv.iter().map(|p| p.items.len().max(1)).sum::<usize>() >= 3,
        "C05" => match h.pulls.iter().filter(|p| p.res == Res::End && p.n > 0).map(|p| p.end).min() {
            Some(e) => h.pulls.iter().any(|p| p.start > e) || h.queries.iter().any(|q| q.start > e),
            None => false,
        },
        "C06" => h.skips.iter().any(|s| {
            let before: u64 = deliv.iter().filter(|p| p.end < s.start).map(|p| p.announced.unwrap_or(p.items.len() as u64)).sum();
            before < len && (h.pulls.iter().any(|p| p.end > s.start) || h.queries.iter().any(|q| q.start > s.end))
        }),
        "C07" => {
            let mut t: Vec<u8> = h.pulls.iter().filter(|p| p.phase == 1).map(|p| p.thr).collect();
            t.sort();
            t.dedup();
            t.len() >= 2 && h.switches >= 3 && (!c.src.kind.wrapped() || h.probe_calls >= 2)
        }
        "C08" => {
            let mut k = 0;
            k += (deliv.iter().any(|p| !p.items.is_empty())) as u32;
            k += (deliv.iter().any(|p| p.announced.is_some() && !p.complete)) as u32;
            k += (h.seq_ran && !h.seq_out.is_empty()) as u32;
            k += (!h.skips.is_empty()) as u32;
            k += (!ended && matches!(c.fin, Fin::Drop | Fin::DropUnwind) && len > 0) as u32;
            k += (ended) as u32;
            (c.src.elem.ledger() || c.src.elem == ElemT::Zst) && k >= 2 && len > 0
        }
        "C09" => h.freeze_hit || (h.switches >= 4 && threads(&h.pulls.iter().collect::<Vec<_>>()) >= 2),
        "C10" => h.seq_ran && !deliv.is_empty(),
        "C11" => h.queries.iter().any(|q| deliv.iter().any(|p| p.start < q.start)) && (h.queries.len() > 1 || h.pulls.len() > 1),
        "C12" => {
            let v: Vec<&&Pull> = deliv.iter().filter(|p| p.m.composite() && p.m != M::Batch).collect();
            !v.is_empty() && (c.threads.len() >= 2 || v.iter().any(|p| (p.items.len() as u64) > p.n))
        }
        "C13" => c.src.kind.adaptor() && (deliv.iter().map(|p| p.items.len()).sum::<usize>() >= 2 || deliv.iter().any(|p| p.announced.is_some())),
        "C15" => h.allocs > 0 && len > 0,
        "C16" => {
            let big = |n: u64| n == 0 || n > 1 << 31;
            h.pulls.iter().any(|p| big(p.n) || (p.m == M::Batch && p.n == 0))
                || (c.src.kind == Kind::Range && c.src.end.is_some())
                || !h.panics.is_empty()
        }
        "C17" | "C17c" => h.order.len() >= 3,
        "C18" => h.fault_hits > 0,
        "C19" => {
            let mut its: Vec<u8> = deliv.iter().map(|p| p.it).collect();
            its.sort();
            its.dedup();
            its.len() >= 2 || c.multi.contains(&MultiOp::Read) && !deliv.is_empty()
        }
        _ => true,
    }
}

impl Stats {
    pub fn new(prop: &str) -> Self {
        Stats { prop: prop.into(), evals: 0, nontrivial: 0, set: HashSet::new(), labels: BTreeMap::new(), samples: vec![] }
    }
    pub fn bump(&mut self, l: &str) {
        self.bump_by(l, 1)
    }
    pub fn bump_by(&mut self, l: &str, k: u64) {
        if let Some(v) = self.labels.get_mut(l) {
            *v += k;
        } else {
            self.labels.insert(l.to_string(), k);
        }
    }
    pub fn add(&mut self, c: &Case, h: &Hist, label: bool) {
        self.evals += 1;
        let nt = nontrivial(&self.prop, c, h);
        if nt {
            self.nontrivial += 1;
            let mut d = c.clone();
            d.id = 0;
            d.src.salt = 0;
            d.sched = SEQ_SCHED;
            let mut x = h64(&serde_json::to_vec(&d).unwrap(), 0xcbf29ce484222325);
            for (t, k) in &h.trace {
                x = h64(&[*t], x);
                x = h64(&k.to_le_bytes(), x);
            }
            x = h64(&h.trace_reads, x);
            // memory bound of long runs: past the cap, cases no longer count as distinct
            let fresh = self.set.len() < 2_000_000 && self.set.insert(x);
            if fresh && self.samples.len() < 2 && self.evals > 20 {
                self.samples.push(serde_json::json!({"case": c, "switches": h.switches, "atomic_ops": h.atomic_ops,
                    "pulls": h.pulls.len(), "delivered": h.pulls.iter().map(|p| p.items.len()).sum::<usize>()}));
            }
        }
        if !label {
            return;
        }
        self.bump(&format!("kind:{:?}", c.src.kind));
        self.bump(&format!("elem:{:?}", c.src.elem));
        self.bump(&format!("threads:{}", c.threads.len().max(c.mth.len())));
        let cond: [(&str, bool); 40] = [
            ("empty source", src_len(&c.src) == 0),
            ("end reported", h.pulls.iter().any(|p| p.res == Res::End)),
            ("skip_to_end", !h.skips.is_empty()),
            ("stale reads taken", h.stale_reads > 0),
            ("a thread held up for > 10 steps", h.napped > 10),
            ("a thread held up for > 10000 steps while others wait", h.napped > 10_000),
            ("thread frozen with others pending", h.freeze_hit),
            ("fault fired", h.fault_hits > 0),
            ("remainder taken", h.seq_ran),
            ("chunk partly consumed", h.pulls.iter().any(|p| p.announced.is_some() && !p.complete)),
            ("short chunk", h.pulls.iter().any(|p| p.announced.map(|a| a < p.n).unwrap_or(false))),
            ("one-shot chunk", h.pulls.iter().any(|p| p.m == M::Chunk && p.res == Res::Got)),
            ("buffered chunk", h.pulls.iter().any(|p| p.m == M::Buf && p.res == Res::Got)),
            ("for_each/fold", h.pulls.iter().any(|p| p.m.composite() && p.m != M::Batch)),
            ("chunk size zero", h.pulls.iter().any(|p| p.n == 0)),
            ("huge chunk size", h.pulls.iter().any(|p| p.n > 1 << 31)),
            ("length query", !h.queries.is_empty()),
            ("query says no/zero", h.queries.iter().any(|q| matches!(q.res, Some(QRes::No) | Some(QRes::Len(Some(0)))))),
            ("clones made", h.clones > 0),
            ("wrapped next called", h.probe_calls > 0),
            ("panic observed", !h.panics.is_empty()),
            ("several iterators", h.it_start.len() > 1),
            ("clone while others pull", !h.clone_recs.is_empty()),
            ("operations inside a for_each closure", h.pulls.iter().any(|p| p.nests)),
            ("huge zero-sized collection", c.src.elem == ElemT::Unit && c.src.len > 1 << 31),
            (">=4 context switches", h.switches >= 4),
            (">=12 context switches", h.switches >= 12),
            ("practically endless wrapped iterator", c.src.kind == Kind::Iter && c.src.len > VAST),
            ("count()/last() of a for-loop adaptor", h.pulls.iter().any(|p| p.counted.is_some() || p.last)),
            ("source longer than 60", src_len(&c.src) > 60 && src_len(&c.src) < 1 << 20),
            ("a thread lost the counter more than 8 times", h.harass_fails > 8),
            ("more than 6 threads", c.threads.len() > 6),
            ("operation in a destructor while a panic unwinds", c.threads.iter().flatten().chain(&c.head).chain(&c.tail).any(|o| matches!(o, Op::Unwind(_)))),
            ("iterator dropped while a panic unwinds", c.fin == Fin::DropUnwind),
            ("source longer than 4096", src_len(&c.src) > 4096 && src_len(&c.src) < 1 << 20),
            ("chunk size 41 to 2^31", h.pulls.iter().any(|p| p.n > 40 && p.n <= 1 << 31)),
            ("one call delivered over 60", h.pulls.iter().any(|p| p.items.len() > 60)),
            ("chunk forgotten", h.pulls.iter().any(|p| p.forgot)),
            ("pulls before cloned()/copied()", !c.pre.is_empty()),
            ("more than four threads", c.threads.len() > 4),
        ];
        for (l, b) in cond {
            if b {
                self.bump(l);
            }
        }
    }
    pub fn json(&self) -> Value {
        json!({"evaluations": self.evals, "nontrivial": self.nontrivial, "distinct": self.set.len(), "rule": rule(&self.prop),
            "labels": self.labels, "samples": self.samples})
    }
    pub fn write_hashes(&self, p: &str) {
        if p.is_empty() {
            return;
        }
        let mut v = Vec::with_capacity(self.set.len() * 8);
        for x in &self.set {
            v.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(p, v).unwrap();
    }
}
