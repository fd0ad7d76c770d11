//! Candidate simplifications of a failing case.
use crate::case::*;
use crate::engine::{Mode, Sched};

fn list_cands(l: &[Op], out: &mut Vec<Vec<Op>>) {
    if l.len() > 2 {
        out.push(l[l.len() / 2..].to_vec());
        out.push(l[..l.len() / 2].to_vec());
    }
    for i in 0..l.len() {
        let mut m = l.to_vec();
        m.remove(i);
        out.push(m);
    }
    for i in 0..l.len() {
        for o in op_cands(&l[i]) {
            let mut m = l.to_vec();
            m[i] = o;
            out.push(m);
        }
    }
}

fn sizes(n: u64) -> Vec<u64> {
    let mut v = vec![];
    for c in [1, 2, 3, n / 2, n.saturating_sub(1)] {
        if c < n && c > 0 && !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn op_cands(o: &Op) -> Vec<Op> {
    let mut v = vec![];
    match o {
        Op::Values(k) if *k > 1 => v.push(Op::Values(1)),
        Op::Ids(k) if *k > 1 => v.push(Op::Ids(1)),
        Op::Values(_) | Op::ValuesBatch(_) => v.push(Op::Next),
        Op::IdsBatch(_) => v.push(Op::NextId),
        Op::Ids(_) => v.push(Op::NextId),
        Op::Chunk { n, take, inner } => {
            for i in 0..inner.len() {
                let mut m = inner.clone();
                m.remove(i);
                v.push(Op::Chunk { n: *n, take: *take, inner: m });
            }
            for s in sizes(*n) {
                v.push(Op::Chunk { n: s, take: *take, inner: inner.clone() });
            }
            if *take != Take::All && *take != Take::None {
                v.push(Op::Chunk { n: *n, take: Take::All, inner: inner.clone() });
                v.push(Op::Chunk { n: *n, take: Take::None, inner: inner.clone() });
                if let Take::Mix(k, t) = *take {
                    if k > 1 {
                        v.push(Op::Chunk { n: *n, take: Take::Mix(k - 1, t), inner: inner.clone() });
                    }
                }
            }
        }
        Op::Buf { n, body } => {
            for i in 0..body.len() {
                let mut m = body.clone();
                m.remove(i);
                v.push(Op::Buf { n: *n, body: m });
            }
            for s in sizes(*n) {
                v.push(Op::Buf { n: s, body: body.clone() });
            }
            for i in 0..body.len() {
                match &body[i] {
                    BufStep::Drain => {
                        for k in 1..3 {
                            let mut m = body.clone();
                            m.splice(i..=i, (0..k).map(|_| BufStep::Pull { take: Take::All, inner: vec![] }));
                            v.push(Op::Buf { n: *n, body: m });
                        }
                    }
                    BufStep::Pull { take, inner } => {
                        if !inner.is_empty() {
                            let mut m = body.clone();
                            m[i] = BufStep::Pull { take: *take, inner: vec![] };
                            v.push(Op::Buf { n: *n, body: m });
                        }
                        if *take != Take::All {
                            let mut m = body.clone();
                            m[i] = BufStep::Pull { take: Take::All, inner: inner.clone() };
                            v.push(Op::Buf { n: *n, body: m });
                        }
                    }
                    _ => {}
                }
            }
        }
        Op::AdaptAll { ids, how } => {
            v.push(if *ids { Op::DrainIds } else { Op::DrainValues });
            if *how > 0 {
                v.push(Op::AdaptAll { ids: *ids, how: 0 });
            }
        }
        Op::AdaptEnd { ids, .. } => v.push(if *ids { Op::NextId } else { Op::Next }),
        Op::AdaptNth { ids, k } => {
            v.push(if *ids { Op::NextId } else { Op::Next });
            if *k > 0 {
                v.push(Op::AdaptNth { ids: *ids, k: k - 1 });
            }
        }
        Op::Nest { m, n, at, inner } => {
            v.push(match m {
                0 => Op::ForEach(*n),
                1 => Op::Enum(*n),
                _ => Op::Fold(*n),
            });
            for s in sizes(*n) {
                v.push(Op::Nest { m: *m, n: s, at: *at, inner: inner.clone() });
            }
            if *at > 0 {
                v.push(Op::Nest { m: *m, n: *n, at: at - 1, inner: inner.clone() });
            }
            if inner.len() > 1 {
                for i in 0..inner.len() {
                    let mut k = inner.clone();
                    k.remove(i);
                    v.push(Op::Nest { m: *m, n: *n, at: *at, inner: k });
                }
            }
            for i in 0..inner.len() {
                for o in op_cands(&inner[i]) {
                    let mut k = inner.clone();
                    k[i] = o;
                    v.push(Op::Nest { m: *m, n: *n, at: *at, inner: k });
                }
            }
        }
        Op::Unwind(inner) => {
            v.extend(inner.iter().cloned());
            for i in 0..inner.len() {
                if inner.len() > 1 {
                    let mut k = inner.clone();
                    k.remove(i);
                    v.push(Op::Unwind(k));
                }
                for o in op_cands(&inner[i]) {
                    let mut k = inner.clone();
                    k[i] = o;
                    v.push(Op::Unwind(k));
                }
            }
        }
        Op::ForEach(n) => v.extend(sizes(*n).into_iter().map(Op::ForEach)),
        Op::Enum(n) => v.extend(sizes(*n).into_iter().map(Op::Enum)),
        Op::Fold(n) => v.extend(sizes(*n).into_iter().map(Op::Fold)),
        Op::DrainNext | Op::DrainValues => v.push(Op::Next),
        Op::DrainId | Op::DrainIds => v.push(Op::NextId),
        Op::DrainChunk(n) => {
            v.push(Op::Chunk { n: *n, take: Take::All, inner: vec![] });
            v.extend(sizes(*n).into_iter().map(Op::DrainChunk));
        }
        _ => {}
    }
    v
}

pub fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    macro_rules! with {
        (|$d:ident| $b:expr) => {{
            let mut $d = c.clone();
            $b;
            out.push($d);
        }};
    }
    if !c.threads.is_empty() && c.multi.is_empty() {
        // everything sequential in one list
        with!(|d| {
            d.head = c.head.iter().chain(c.threads.iter().flatten()).chain(c.tail.iter()).cloned().collect();
            d.threads = vec![];
            d.tail = vec![];
            d.freeze = None;
            d.sched = SEQ_SCHED;
        });
    }
    for i in 0..c.threads.len() {
        with!(|d| {
            d.threads.remove(i);
            if let Some((t, _)) = d.freeze {
                if t as usize == i {
                    d.freeze = None;
                }
            }
        });
        let mut ls = vec![];
        list_cands(&c.threads[i], &mut ls);
        for l in ls {
            with!(|d| d.threads[i] = l);
        }
    }
    let mut ls = vec![];
    list_cands(&c.pre, &mut ls);
    for l in ls {
        with!(|d| d.pre = l);
    }
    let mut ls = vec![];
    list_cands(&c.head, &mut ls);
    for l in ls {
        with!(|d| d.head = l);
    }
    let mut ls = vec![];
    list_cands(&c.tail, &mut ls);
    for l in ls {
        with!(|d| d.tail = l);
    }
    for i in 0..c.multi.len() {
        if c.multi.len() > 1 {
            with!(|d| {
                d.multi.remove(i);
            });
        }
        if let MultiOp::On(k, o) = &c.multi[i] {
            for o in op_cands(o) {
                with!(|d| d.multi[i] = MultiOp::On(*k, o));
            }
        }
    }
    for i in 0..c.mth.len() {
        with!(|d| {
            d.mth.remove(i);
        });
        for k in 0..c.mth[i].len() {
            with!(|d| {
                d.mth[i].remove(k);
            });
            if let MultiOp::On(j, o) = &c.mth[i][k] {
                for o in op_cands(o) {
                    with!(|d| d.mth[i][k] = MultiOp::On(*j, o));
                }
            }
        }
    }
    for i in 0..c.mtail.len() {
        with!(|d| {
            d.mtail.remove(i);
        });
    }
    if c.src.kind != Kind::Array && c.src.end.is_none() && c.src.len > 0 {
        for n in [0, 1, 2, c.src.len / 2, c.src.len - 1] {
            if n < c.src.len {
                with!(|d| d.src.len = n);
            }
        }
    }
    if c.src.end.is_none() && c.src.start > 1 {
        with!(|d| d.src.start = 1);
        with!(|d| d.src.start = 0);
    }
    if c.src.salt != 0 && c.src.kind != Kind::Range {
        with!(|d| d.src.salt = 0);
    }
    if c.src.cap > 0 {
        with!(|d| d.src.cap = 0);
    }
    if c.src.route > 0 {
        with!(|d| d.src.route = 0);
    }
    if c.src.nonfused {
        with!(|d| d.src.nonfused = false);
    }
    if c.keep {
        with!(|d| d.keep = false);
    }
    if c.fin != Fin::Drop {
        with!(|d| d.fin = Fin::Drop);
    }
    if c.freeze.is_some() {
        with!(|d| d.freeze = None);
    }
    if let Some((t, k)) = c.freeze {
        if k > 0 {
            with!(|d| d.freeze = Some((t, k - 1)));
        }
    }
    if let Some(f) = c.fault {
        if f.sticky {
            with!(|d| d.fault = Some(Fault { sticky: false, ..f }));
        }
        if f.k > 0 {
            with!(|d| d.fault = Some(Fault { k: 0, ..f }));
            with!(|d| d.fault = Some(Fault { k: f.k - 1, ..f }));
        }
    }
    if c.src.hint != Hint::Exact {
        with!(|d| d.src.hint = Hint::Exact);
    }
    if let Some((t, k, d)) = c.sched.nap {
        with!(|d| d.sched.nap = None);
        for q in [d / 16, d / 2, d - d / 8] {
            if q > 0 && q < d {
                with!(|e| e.sched.nap = Some((t, k, q)));
            }
        }
    }
    if c.sched.harass.is_some() {
        with!(|d| d.sched.harass = None);
    }
    if c.sched.stale > 0 && !matches!(c.sched.mode, Mode::Explicit { .. }) {
        with!(|d| d.sched.stale = 0);
    }
    if let Mode::Explicit { segs, reads } = &c.sched.mode {
        let mk = |segs: Vec<(u8, u32)>, reads: Vec<u8>| Sched { seed: 0, mode: Mode::Explicit { segs, reads }, stale: c.sched.stale, nap: c.sched.nap, harass: None };
        if segs.len() > 2 {
            let h = segs.len() / 2;
            with!(|d| d.sched = mk(segs[..h].to_vec(), reads.clone()));
        }
        if !segs.is_empty() {
            with!(|d| d.sched = mk(segs[..segs.len() - 1].to_vec(), reads.clone()));
        }
        for i in 0..segs.len() {
            // drop a segment, merging its neighbours
            let mut s = segs.clone();
            s.remove(i);
            let mut m: Vec<(u8, u32)> = vec![];
            for x in s {
                match m.last_mut() {
                    Some(l) if l.0 == x.0 => l.1 += x.1,
                    _ => m.push(x),
                }
            }
            with!(|d| d.sched = mk(m, reads.clone()));
        }
        if reads.iter().any(|x| *x > 0) {
            with!(|d| d.sched = mk(segs.clone(), vec![]));
            for i in 0..reads.len() {
                if reads[i] > 0 {
                    let mut r = reads.clone();
                    r[i] = 0;
                    with!(|d| d.sched = mk(segs.clone(), r));
                }
            }
        }
    }
    out
}

/// smaller is simpler
pub fn weight(c: &Case) -> u64 {
    let s = serde_json::to_string(c).unwrap();
    let segs = match &c.sched.mode {
        Mode::Explicit { segs, .. } => segs.len() as u64 * 3,
        _ => 200,
    };
    let nap = c.sched.nap.map(|x| 64 - (x.2 as u64).leading_zeros() as u64).unwrap_or(0);
    s.len() as u64 + segs + nap + c.src.len as u64 * 2
}
