//! Generated client programs executed under Miri: undefined behaviour and data races are the oracle, and for programs of the
//! functional modes also what is delivered ("! C01,C04 message" on stderr, exit code 7).
//!
//!   vmiri gen MODE SEED I       prints program I; MODE is seq, conc, or one of the functional ones (full, skip, own, bomb, any)
//!   vmiri run MODE SEED FROM COUNT STRIDE [PROP]   executes programs, "@I" before each
//!   vmiri prog TEXT [TIMES [PROP]]         executes one program
//!
//! Program text:  kind elem len extra ; head ; thread ; thread ... ; tail ; end
//! with operations separated by blanks:
//!   n next            i next_id_and_value     cN.U chunk of N, U taken       bN.M.U buffered(N), M pulls, U taken of each
//!   kN.U chunk kept until the thread ends     vU values()                    eU ids_and_values()
//!   fN.P for_each(N), panics at the P-th      gN.P enumerate_for_each        oN.P fold
//!   s skip_to_end     l try_get_len           h has_more                     z clone of the iterator, pulled once
//!   D next() until the end            F at the start of the head: a functional program
use orx_concurrent_iter::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::OnceLock;

// ---------------------------------------------------------------- elements
pub trait Elem: Send + Sync + Clone + Sized + 'static {
    fn make(i: usize) -> Self;
    /// reads everything there is to read; wrong contents end the process; tells the position in the source (ALL: unknown)
    fn touch(&self) -> usize;
}
impl Elem for u64 {
    fn make(i: usize) -> Self {
        i as u64 * 3 + 1
    }
    fn touch(&self) -> usize {
        assert!(*self % 3 == 1);
        *self as usize / 3
    }
}
impl Elem for usize {
    fn make(i: usize) -> Self {
        i
    }
    fn touch(&self) -> usize {
        std::hint::black_box(*self).wrapping_sub(START.load(Relaxed))
    }
}
impl Elem for u8 {
    fn make(i: usize) -> Self {
        i as u8
    }
    fn touch(&self) -> usize {
        assert!(*self < 200);
        *self as usize
    }
}
impl Elem for Box<u32> {
    fn make(i: usize) -> Self {
        Box::new(i as u32 * 5 + 2)
    }
    fn touch(&self) -> usize {
        assert!(**self % 5 == 2);
        **self as usize / 5
    }
}
#[derive(Clone)]
pub struct Pair(u8, String);
impl Elem for Pair {
    fn make(i: usize) -> Self {
        Pair(i as u8, String::from((65 + i as u8) as char))
    }
    fn touch(&self) -> usize {
        assert!(self.1.len() == 1 && self.1.as_bytes()[0] == self.0 + 65);
        self.0 as usize
    }
}
#[derive(Clone)]
pub struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        std::hint::black_box(&self);
    }
}
impl Elem for Zst {
    fn make(_: usize) -> Self {
        Zst
    }
    fn touch(&self) -> usize {
        ALL
    }
}
/// counts its destructions
pub struct Tok(usize, Box<u8>);
static DROPS: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok(self.0 + 1000, self.1.clone())
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.0 < 16 {
            DROPS[self.0].fetch_add(1, Relaxed);
        }
    }
}
impl Elem for Tok {
    fn make(i: usize) -> Self {
        Tok(i, Box::new(i as u8))
    }
    fn touch(&self) -> usize {
        assert!(self.0 % 1000 == *self.1 as usize);
        self.0 % 1000
    }
}
/// what an iterator delivers
pub trait Touch: Send + Sync {
    fn t(&self) -> usize;
}
macro_rules! touch {
    ($($t:ty)*) => {$(impl Touch for $t {
        fn t(&self) -> usize {
            self.touch()
        }
    })*};
}
touch!(usize u64 u8 Box<u32> Pair Zst Tok);

// ---------------------------------------------------------------- what a functional program observes
static START: AtomicUsize = AtomicUsize::new(0);
static FUNC: AtomicBool = AtomicBool::new(false);
static LEN: AtomicUsize = AtomicUsize::new(0);
#[derive(Default)]
struct Log {
    /// positions handed out to this thread, in order (ALL: unknown)
    items: Vec<usize>,
    /// smallest position the next item may have
    low: usize,
    ended: bool,
    skipped: bool,
    panicked: bool,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::default();
}
/// the property asked about ("": any)
static PROP: OnceLock<String> = OnceLock::new();
fn bad(props: &str, what: &str, a: usize, b: usize) {
    if !props.contains(PROP.get().map(|s| s.as_str()).unwrap_or("")) {
        return;
    }
    eprintln!("! {props} {what} ({}, {})", a as isize, b as isize);
    std::process::exit(7);
}
/// an item delivered to this thread: reported index, position (ALL: none)
fn got(idx: usize, pos: usize) {
    if !FUNC.load(Relaxed) {
        return;
    }
    let len = LEN.load(Relaxed);
    LOG.with_borrow_mut(|l| {
        if l.skipped {
            bad("C06", "delivered after skip_to_end had returned on the same thread: index, position", idx, pos);
        }
        if l.ended {
            bad("C05,C18", "delivered after the end had been reported on the same thread: index, position", idx, pos);
        }
        if idx != ALL && pos != ALL && idx != pos {
            bad("C02,C06", "an item's index is not its position: index, position", idx, pos);
        }
        let q = if pos != ALL { pos } else { idx };
        if q != ALL {
            if q >= len {
                bad("C01,C02", "a position that the source does not have", q, len);
            }
            if q < l.low {
                bad("C04,C06", "positions do not increase on one thread: position, smallest one expected", q, l.low);
            }
            l.low = q + 1;
        }
        l.items.push(q);
    })
}
/// a position handed out but not looked at
fn left_over(q: usize) {
    if FUNC.load(Relaxed) {
        LOG.with_borrow_mut(|l| {
            l.items.push(q);
            l.low = l.low.max(q + 1);
        })
    }
}
fn ended() {
    LOG.with_borrow_mut(|l| l.ended = true)
}
fn chunk_got(n: usize, begin: usize, announced: usize) {
    let len = LEN.load(Relaxed);
    if !FUNC.load(Relaxed) {
        return;
    }
    if announced == 0 || announced > n || begin.wrapping_add(announced) > len {
        bad("C01,C03", "a chunk of impossible length: begin, length", begin, announced);
    }
    if announced < n && begin + announced < len {
        bad("C03", "a chunk shorter than requested that does not end at the last element: begin, length", begin, announced);
    }
}
fn chunk_over(begin: usize, announced: usize, taken: usize, dry: bool) {
    if FUNC.load(Relaxed) && dry && taken != announced {
        bad("C03", "a chunk yields another number of elements than announced: announced, yielded", announced, taken);
    }
    for q in taken..announced {
        left_over(begin + q);
    }
}
/// after all threads are done: everything handed out, in the end also the remainder
fn settle(logs: &[Log], rest: Option<&[usize]>) {
    let len = LEN.load(Relaxed);
    let mut n = vec![0usize; len];
    let (mut total, mut unknown) = (0, 0);
    let (skipped, panicked) = (logs.iter().any(|l| l.skipped), logs.iter().any(|l| l.panicked));
    for l in logs {
        for &q in &l.items {
            total += 1;
            match q {
                ALL => unknown += 1,
                q if q < len => n[q] += 1,
                q => bad("C01", "a position that the source does not have", q, len),
            }
        }
    }
    if let Some(q) = n.iter().position(|k| *k > 1) {
        bad("C01,C04,C06,C08,C18", "a position was handed out more than once: position, times", q, n[q]);
    }
    if total > len {
        bad("C01,C06,C08,C18", "more items handed out than there are: handed out, length", total, len);
    }
    if !skipped && !panicked {
        if logs.iter().any(|l| l.ended) && total < len {
            bad("C01,C05", "the end was reported although items are missing: handed out, length", total, len);
        }
        if unknown == 0 {
            let m = n.iter().take_while(|k| **k == 1).count();
            if m != total {
                bad("C01,C04", "the positions handed out are no gap-free prefix: handed out, first missing", total, m);
            }
        }
    }
    let Some(rest) = rest else { return };
    if rest.contains(&ALL) {
        if !skipped && !panicked && total + rest.len() != len {
            bad("C10,C01", "handed out and remainder do not make up the source: handed out, remainder", total, rest.len());
        }
        return;
    }
    let from = rest.first().copied().unwrap_or(len);
    if rest.iter().enumerate().any(|(i, q)| *q != from + i) || from + rest.len() != len {
        bad("C10", "the remainder is no suffix of the source: first, length", from, rest.len());
    }
    if let Some(q) = rest.iter().find(|q| **q < len && n[**q] > 0) {
        bad("C10,C01,C08", "an item handed out before is in the remainder: position", *q, 0);
    }
    if unknown == 0 && !skipped && !panicked && total + rest.len() != len {
        bad("C10,C01", "handed out and remainder do not make up the source: handed out, remainder", total, rest.len());
    }
}

// ---------------------------------------------------------------- programs
#[derive(Clone, Debug)]
pub struct Op {
    c: char,
    a: usize,
    b: usize,
    d: usize,
}
#[derive(Clone, Debug)]
pub struct Prog {
    kind: String,
    elem: char,
    len: usize,
    extra: usize,
    head: Vec<Op>,
    threads: Vec<Vec<Op>>,
    tail: Vec<Op>,
    end: String,
}
const ALL: usize = usize::MAX;

fn num(s: &str) -> usize {
    match s {
        "" | "*" => ALL,
        _ => s.parse().expect("number"),
    }
}
fn parse_ops(s: &str) -> Vec<Op> {
    s.split_whitespace()
        .map(|w| {
            let c = w.chars().next().unwrap();
            let mut it = w[1..].split('.').map(num);
            Op { c, a: it.next().unwrap_or(ALL), b: it.next().unwrap_or(ALL), d: it.next().unwrap_or(ALL) }
        })
        .collect()
}
fn parse(s: &str) -> Prog {
    let p: Vec<&str> = s.split(';').collect();
    assert!(p.len() >= 4, "program text");
    let h: Vec<&str> = p[0].split_whitespace().collect();
    let n = p.len();
    Prog {
        kind: h[0].into(),
        elem: h[1].chars().next().unwrap(),
        len: h[2].parse().unwrap(),
        extra: h[3].parse().unwrap(),
        head: parse_ops(p[1]),
        threads: p[2..n - 2].iter().map(|x| parse_ops(x)).collect(),
        tail: parse_ops(p[n - 2]),
        end: p[n - 1].trim().into(),
    }
}
fn show_n(n: usize) -> String {
    if n == ALL {
        "*".into()
    } else {
        n.to_string()
    }
}
fn show_ops(o: &[Op]) -> String {
    let mut s = String::new();
    for x in o {
        let nargs = match x.c {
            'c' | 'k' | 'f' | 'g' | 'o' => 2,
            'b' => 3,
            'v' | 'e' => 1,
            _ => 0,
        };
        s.push(' ');
        s.push(x.c);
        for (i, v) in [x.a, x.b, x.d].iter().take(nargs).enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "." } else { "" }, show_n(*v));
        }
    }
    s
}
fn show(p: &Prog) -> String {
    let mut s = format!("{} {} {} {} ;{} ;", p.kind, p.elem, p.len, p.extra, show_ops(&p.head));
    for t in &p.threads {
        let _ = write!(s, "{} ;", show_ops(t));
    }
    let _ = write!(s, "{} ; {}", show_ops(&p.tail), p.end);
    s
}

// ---------------------------------------------------------------- generation
struct Rng(u64);
impl Rng {
    fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn n(&mut self, k: usize) -> usize {
        (self.u() % k as u64) as usize
    }
    fn p(&mut self, a: usize, b: usize) -> bool {
        self.n(b) < a
    }
}
const LENS: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 8, 13];

fn gen_op(g: &mut Rng, conc: bool, len: usize) -> Op {
    let size = |g: &mut Rng| match g.n(12) {
        0 if !conc => 0,
        1 => len.max(1),
        2 => len + 1,
        3 if !conc => ALL - g.n(3),
        _ => 1 + g.n(5),
    };
    let used = |g: &mut Rng| if g.p(1, 2) { ALL } else { g.n(4) };
    let c = ['n', 'n', 'i', 'c', 'c', 'c', 'k', 'b', 'b', 'b', 'v', 'e', 'f', 'g', 'o', 's', 'l', 'h', 'z'][g.n(19)];
    let c = if c == 's' && g.p(1, 2) { 'c' } else { c };
    let (mut a, mut b, mut d) = (ALL, ALL, ALL);
    match c {
        'c' | 'k' => {
            a = size(g);
            b = used(g);
        }
        'b' => {
            a = size(g);
            b = 1 + g.n(4);
            d = used(g);
        }
        'v' | 'e' => a = g.n(6),
        'f' | 'g' | 'o' => {
            a = size(g);
            b = if g.p(1, 4) { g.n(5) } else { ALL };
        }
        _ => {}
    }
    Op { c, a, b, d }
}

pub fn generate(mode: &str, seed: u64, i: u64) -> Prog {
    let conc = mode != "seq";
    let func = !matches!(mode, "seq" | "conc");
    let salt = match mode {
        "seq" => 0,
        "conc" => 1,
        m => m.bytes().fold(7, |h, b| h * 31 + b as u64),
    };
    let mut g = Rng(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ i.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ salt);
    g.u();
    let kinds: &[&str] = match mode {
        "own" => &["vec", "vec", "array", "array", "iter"],
        _ => &[
            "slice", "slice", "vec", "vec", "vec", "array", "array", "array", "range", "iter", "iter", "iter", "iterref", "cloned", "copied", "itercloned", "itercopied",
        ],
    };
    let kind = kinds[g.n(kinds.len())].to_string();
    let mut elem = if kind.ends_with("copied") { 'w' } else { ['b', 'b', 'p', 'w', 'u', 'z'][g.n(6)] };
    if mode == "own" && g.p(4, 5) {
        elem = 't';
    }
    let len = if conc { 1 + g.n(6) } else { LENS[g.n(LENS.len())] };
    let extra = if func { 1 + g.n(7) } else { g.n(8) };
    let op = |g: &mut Rng| {
        let mut o = gen_op(g, conc, len);
        if func {
            if o.c == 'z' || (o.c == 's' && mode != "skip" && mode != "any") {
                o = Op { c: 'n', a: ALL, b: ALL, d: ALL };
            }
            if "fgo".contains(o.c) && !(mode == "bomb" || mode == "own") {
                o.b = ALL;
            }
        }
        o
    };
    let ops = |g: &mut Rng, n: usize| (0..n).map(|_| op(g)).collect::<Vec<_>>();
    let (mut head, mut threads, mut tail): (Vec<Op>, Vec<Vec<Op>>, Vec<Op>);
    if conc {
        let k = g.n(3) / 2;
        head = ops(&mut g, k);
        let t = 2 + g.n(4) / 3;
        threads = (0..t)
            .map(|_| {
                let k = 1 + g.n(3);
                ops(&mut g, k)
            })
            .collect();
        let k = g.n(3);
        tail = ops(&mut g, k);
    } else {
        let k = g.n(6);
        head = ops(&mut g, k);
        threads = vec![];
        tail = vec![];
    }
    if func {
        let bare = |c| Op { c, a: ALL, b: ALL, d: ALL };
        head.insert(0, bare('F'));
        let t = g.n(threads.len());
        match mode {
            "any" if g.p(1, 2) => threads[t].push(bare('s')),
            "skip" => threads[t].push(bare('s')),
            "bomb" => threads[t].insert(0, Op { c: ['f', 'g', 'o'][g.n(3)], a: 1 + g.n(3), b: g.n(len), d: ALL }),
            _ => {}
        }
        if g.p(2, 3) {
            for t in threads.iter_mut() {
                t.push(bare('D'));
            }
        }
        if g.p(1, 2) {
            tail.push(bare('n'));
        }
    }
    let end = match g.n(5) {
        0 | 1 => "drop".to_string(),
        2 => "seq*".to_string(),
        _ => format!("seq{}", g.n(4)),
    };
    Prog { kind, elem, len, extra, head, threads, tail, end }
}

// ---------------------------------------------------------------- execution
/// a panic injected by the program itself
struct Mark;
fn bomb(left: &mut usize) {
    if *left == 0 {
        std::panic::panic_any(Mark);
    }
    *left = left.saturating_sub(if *left == ALL { 0 } else { 1 });
}

fn exec_op<C: ConcurrentIter>(con: &C, o: &Op, z: &dyn Fn(&C))
where
    C::Item: Touch,
{
    match o.c {
        'n' => match con.next() {
            Some(x) => got(ALL, x.t()),
            None => ended(),
        },
        'D' => loop {
            match con.next() {
                Some(x) => got(ALL, x.t()),
                None => break ended(),
            }
        },
        'i' => match con.next_id_and_value() {
            Some(x) => got(x.idx, x.value.t()),
            None => ended(),
        },
        'c' => {
            if let Some(x) = con.next_chunk(o.a) {
                let n = x.values.len();
                chunk_got(o.a, x.begin_idx, n);
                let mut k = 0;
                for y in x.values.take(o.b) {
                    got(x.begin_idx + k, y.t());
                    k += 1;
                }
                chunk_over(x.begin_idx, n, k, k < o.b);
            } else if o.a > 0 {
                ended()
            }
        }
        'k' => {
            if let Some(x) = con.next_chunk(o.a) {
                let mut v = x.values;
                let n = v.len();
                chunk_got(o.a, x.begin_idx, n);
                let mut k = 0;
                for _ in 0..o.b.min(2) {
                    if let Some(y) = v.next() {
                        got(x.begin_idx + k, y.t());
                        k += 1;
                    }
                }
                // the rest stays alive during the following operations
                let rest: Vec<C::Item> = v.collect();
                rest.iter().for_each(|y| {
                    got(x.begin_idx + k, y.t());
                    k += 1;
                });
                chunk_over(x.begin_idx, n, k, true);
                drop(rest);
            } else if o.a > 0 {
                ended()
            }
        }
        'b' => {
            let mut b = con.buffered_iter(o.a);
            for _ in 0..o.b {
                match b.next() {
                    Some(x) => {
                        let begin = x.begin_idx;
                        let mut v = x.values;
                        let mut k = 0;
                        let n = v.len();
                        chunk_got(o.a, begin, n);
                        let mut dry = false;
                        while k < o.d {
                            match v.next() {
                                Some(y) => got(begin + k, y.t()),
                                None => {
                                    dry = true;
                                    break;
                                }
                            }
                            std::hint::black_box(v.len());
                            k += 1;
                        }
                        chunk_over(begin, n, k, dry);
                    }
                    None => {
                        ended();
                        break;
                    }
                }
            }
        }
        'v' => {
            let mut it = con.values();
            for _ in 0..o.a {
                match it.next() {
                    Some(x) => got(ALL, x.t()),
                    None => {
                        ended();
                        break;
                    }
                }
            }
        }
        'e' => {
            let mut it = con.ids_and_values();
            for _ in 0..o.a {
                match it.next() {
                    Some((i, x)) => got(i, x.t()),
                    None => {
                        ended();
                        break;
                    }
                }
            }
        }
        'f' => {
            let mut left = o.b;
            con.for_each(o.a, |x| {
                got(ALL, x.t());
                bomb(&mut left);
            });
            ended()
        }
        'g' => {
            let mut left = o.b;
            con.enumerate_for_each(o.a, |i, x| {
                got(i, x.t());
                bomb(&mut left);
            });
            ended()
        }
        'o' => {
            let mut left = o.b;
            con.fold(o.a, (), |_, x| {
                got(ALL, x.t());
                bomb(&mut left);
            });
            ended()
        }
        'F' => {}
        's' => {
            con.skip_to_end();
            LOG.with_borrow_mut(|l| l.skipped = true);
        }
        'l' => {
            let n = std::hint::black_box(con.try_get_len());
            if FUNC.load(Relaxed) && n.unwrap_or(0) > 0 && LOG.with_borrow(|l| l.ended || l.skipped) {
                bad("C05,C06", "a positive length after the end", n.unwrap_or(0), 0);
            }
        }
        'h' => {
            let no = std::hint::black_box(matches!(con.has_more(), HasMore::No));
            if FUNC.load(Relaxed) && !no && LOG.with_borrow(|l| l.skipped) {
                bad("C06", "has_more() is not No after skip_to_end had returned on the same thread", 0, 0);
            }
        }
        'z' => z(con),
        _ => panic!("operation {}", o.c),
    }
}
fn exec_ops<C: ConcurrentIter>(con: &C, ops: &[Op], z: &dyn Fn(&C))
where
    C::Item: Touch,
{
    for o in ops {
        // a panic (documented, injected or not) is not this harness's business
        if catch_unwind(AssertUnwindSafe(|| exec_op(con, o, z))).is_err() {
            LOG.with_borrow_mut(|l| l.panicked = true);
        }
    }
}
fn take_log() -> Log {
    LOG.with_borrow_mut(std::mem::take)
}

fn drive_z<C: ConcurrentIter>(p: &Prog, con: C, z: impl Fn(&C) + Sync)
where
    C::Item: Touch,
{
    let func = p.head.first().is_some_and(|o| o.c == 'F');
    FUNC.store(func, Relaxed);
    LEN.store(p.len, Relaxed);
    take_log();
    let mut logs: Vec<Log> = Vec::new();
    exec_ops(&con, &p.head, &z);
    if !p.threads.is_empty() {
        logs.push(take_log());
        // what the head saw holds for everybody
        let (ended, skipped, low) = (logs[0].ended, logs[0].skipped, logs[0].low);
        std::thread::scope(|s| {
            let hs: Vec<_> = p
                .threads
                .iter()
                .map(|t| {
                    let (con, z) = (&con, &z);
                    s.spawn(move || {
                        LOG.with_borrow_mut(|l| (l.ended, l.skipped, l.low) = (ended, skipped, low));
                        exec_ops(con, t, z);
                        take_log()
                    })
                })
                .collect();
            logs.extend(hs.into_iter().map(|h| h.join().unwrap()));
        });
        LOG.with_borrow_mut(|l| {
            l.ended = logs.iter().any(|l| l.ended);
            l.skipped = logs.iter().any(|l| l.skipped);
            l.low = logs.iter().map(|l| l.low).max().unwrap_or(0);
        });
        exec_ops(&con, &p.tail, &z);
    }
    logs.push(take_log());
    if func {
        settle(&logs, None);
    }
    if let Some(k) = p.end.strip_prefix("seq") {
        let mut rest = Vec::new();
        let mut over = false;
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let mut it = con.into_seq_iter();
            for _ in 0..num(k) {
                match it.next() {
                    Some(x) => rest.push(x.t()),
                    None => {
                        over = true;
                        break;
                    }
                }
            }
        }));
        if func && over {
            settle(&logs, Some(&rest));
        }
    } else {
        drop(con);
    }
}
fn drive<C: ConcurrentIter>(p: &Prog, con: C)
where
    C::Item: Touch,
{
    drive_z(p, con, |_| {})
}
fn drive_c<C: ConcurrentIter + Clone>(p: &Prog, con: C)
where
    C::Item: Touch,
{
    drive_z(p, con, |c| {
        let d = c.clone();
        if let Some(x) = d.next() {
            x.t();
        }
        if let Some(x) = d.next_chunk(2) {
            x.values.for_each(|y| _ = y.t())
        };
    })
}

fn vec_of<T: Elem>(p: &Prog) -> Vec<T> {
    let mut v = Vec::with_capacity(p.len + if p.extra >= 4 { p.extra } else { 0 });
    v.extend((0..p.len).map(T::make));
    v
}

/// a sequential iterator with some state of its own
struct Src<I> {
    it: I,
    hint: usize,
    calls: Box<usize>,
}
impl<I: ExactSizeIterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        *self.calls += 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint % 4 {
            0 | 1 => self.it.size_hint(),
            2 => (0, Some(self.it.len() + 1)),
            _ => (0, None),
        }
    }
}
fn src<I: ExactSizeIterator>(p: &Prog, it: I) -> Src<I> {
    Src { it, hint: p.extra, calls: Box::new(0) }
}

impl<'a, T: Elem> Touch for &'a T {
    fn t(&self) -> usize {
        (**self).touch()
    }
}

fn array<T: Elem + Touch, const N: usize>(p: &Prog) {
    let a: [T; N] = std::array::from_fn(T::make);
    match p.extra % 4 {
        0 => drive_c(p, a.con_iter()),
        1 => drive(p, ConIterOfArray::new(a)),
        _ => drive(p, a.into_con_iter()),
    }
}

fn run_elem<T: Elem + Touch>(p: &Prog) {
    let check = |v: &[T]| v.iter().for_each(|x| _ = x.touch());
    match p.kind.as_str() {
        "slice" => {
            let v = vec_of::<T>(p);
            match p.extra % 3 {
                0 => drive_c(p, v.con_iter()),
                1 => drive_c(p, v.as_slice().into_con_iter()),
                _ if p.head.first().is_some_and(|o| o.c == 'F') => drive_c(p, ConIterOfSlice::new(&v)),
                _ => drive_c(p, ConIterOfSlice::new(&v[p.len / 3..])),
            }
            check(&v);
        }
        "cloned" => {
            let v = vec_of::<T>(p);
            drive(p, v.con_iter().cloned());
            check(&v);
        }
        "vec" => match p.extra % 2 {
            0 => drive(p, vec_of::<T>(p).into_con_iter()),
            _ => drive(p, ConIterOfVec::new(vec_of::<T>(p))),
        },
        "array" => match p.len {
            0 => array::<T, 0>(p),
            1 => array::<T, 1>(p),
            2 => array::<T, 2>(p),
            3 => array::<T, 3>(p),
            4 => array::<T, 4>(p),
            5 => array::<T, 5>(p),
            6 => array::<T, 6>(p),
            8 => array::<T, 8>(p),
            _ => array::<T, 13>(p),
        },
        "range" => {
            let s = match p.extra {
                0 => usize::MAX - p.len,
                1 => usize::MAX - p.len - 1,
                k => k,
            };
            START.store(s, Relaxed);
            drive_c(p, (s..s + p.len).con_iter())
        }
        "iter" => drive(p, src(p, vec_of::<T>(p).into_iter()).into_con_iter()),
        "iterref" => {
            let v = vec_of::<T>(p);
            drive(p, src(p, v.iter()).into_con_iter());
            check(&v);
        }
        "itercloned" => {
            let v = vec_of::<T>(p);
            drive(p, src(p, v.iter()).into_con_iter().cloned());
            check(&v);
        }
        k => panic!("kind {k}"),
    }
}

fn run_copied<T: Elem + Touch + Copy>(p: &Prog) {
    let v = vec_of::<T>(p);
    match p.kind.as_str() {
        "copied" => drive(p, v.con_iter().copied()),
        _ => drive(p, src(p, v.iter()).into_con_iter().copied()),
    }
    v.iter().for_each(|x| _ = x.touch());
}

fn run(p: &Prog) {
    if p.kind.ends_with("copied") {
        match p.elem {
            'u' => run_copied::<u8>(p),
            _ => run_copied::<u64>(p),
        }
        return;
    }
    match p.elem {
        'b' => run_elem::<Box<u32>>(p),
        'p' => run_elem::<Pair>(p),
        'w' => run_elem::<u64>(p),
        'u' => run_elem::<u8>(p),
        'z' => run_elem::<Zst>(p),
        't' => {
            DROPS.iter().for_each(|d| d.store(0, Relaxed));
            run_elem::<Tok>(p);
            for i in 0..p.len {
                let n = DROPS[i].load(Relaxed);
                if n != 1 {
                    bad("C08,C18", "an element was not destroyed exactly once: position, times", i, n);
                }
            }
        }
        e => panic!("element {e}"),
    }
}

/// names the running program on stdout (by hand: formatting is slow under an interpreter)
fn mark(mut i: u64) {
    use std::io::Write;
    let mut b = [b'\n'; 24];
    let mut at = 23;
    loop {
        at -= 1;
        b[at] = b'0' + (i % 10) as u8;
        i /= 10;
        if i == 0 {
            break;
        }
    }
    at -= 1;
    b[at] = b'@';
    let _ = std::io::stdout().lock().write_all(&b[at..]);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let prop = |i: usize| _ = PROP.set(a.get(i).cloned().unwrap_or_default());
    match a.first().map(|s| s.as_str()) {
        Some("gen") => println!("{}", show(&generate(&a[1], n(2), n(3)))),
        Some("run") => {
            prop(6);
            let mut i = n(3);
            let mut done = 0;
            while i < n(4) {
                let p = generate(&a[1], n(2), i);
                mark(i);
                run(&p);
                done += 1;
                i += n(5).max(1);
            }
            println!("= {done}");
        }
        Some("prog") => {
            prop(3);
            for _ in 0..n(2).max(1) {
                run(&parse(&a[1]));
            }
            println!("= 1");
        }
        _ => std::process::exit(2),
    }
}
