//! Worker binary: generates cases, executes them against the real crate, judges the histories.
//! The orchestration (builds, several workers, shrinking, evidence) is in ../../run.py.
mod stat;
use serde_json::{json, Value};
use stat::Stats;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::alloc::TrackAlloc;
use vcore::case::*;
use vcore::engine::{eng, Mode};
use vcore::hist::hist;
use vcore::oracle::{self, bit, judge, transcript, Viol, F};
use vcore::{gen, shrink};
use vops::run::{run_case, supported, INSTRUMENTED};

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, fl: i32, ...) -> i32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}

/// a single execution that burns this much CPU time ends the process with SIGVTALRM
/// (ordinary executions need about a millisecond)
const CASE_CPU_SECS: i64 = 20;
fn case_timer() {
    unsafe { setitimer(1, &[0, 0, CASE_CPU_SECS, 0], std::ptr::null_mut()) };
}

fn limits(cpu: u64) {
    unsafe {
        // address space: absurd allocations must fail instead of exhausting the machine
        setrlimit(9, &[4 << 30, 4 << 30]);
        setrlimit(4, &[0, 0]); // no core files
        if cpu > 0 {
            setrlimit(0, &[cpu, cpu + 2]);
        }
    }
}

/// executes once and judges
pub fn exec(case: &Case) -> Vec<Viol> {
    case_timer();
    let r = catch_unwind(AssertUnwindSafe(|| run_case(case)));
    if let Err(p) = r {
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if msg.starts_with("HARNESS") {
            eprintln!("{msg}");
            std::process::exit(3);
        }
        vcore::alloc::track_off();
        return vec![Viol { mask: !0, msg: format!("unexpected panic: {msg}") }];
    }
    let mut v = judge(case, hist());
    // deterministic order, most relevant first is left to the reader
    if case.prop == "C13" {
        twin(case, &mut v);
    }
    v
}

/// C13: what the adaptor shows is compared with what the underlying iterator shows
fn twin(case: &Case, v: &mut Vec<Viol>) {
    if !case.src.kind.adaptor() || case.fault.is_some() {
        return;
    }
    let mut u = case.clone();
    u.src.kind = case.src.kind.underlying();
    if !supported(&u.src) {
        // no underlying twin in the harness (copied Big elements): the functional rules themselves apply
        for x in v.iter_mut() {
            if x.mask & F != 0 {
                x.mask |= bit("C13");
            }
        }
        return;
    }
    let functional = v.iter().any(|x| x.mask & F != 0);
    let seq = case.threads.is_empty();
    if !functional && !seq {
        return;
    }
    let t1: Vec<String> = transcript(case, hist()).into_iter().filter(|s| !s.starts_with("ledger")).collect();
    let saved = std::mem::take(hist());
    let r = catch_unwind(AssertUnwindSafe(|| run_case(&u)));
    if r.is_err() {
        vcore::alloc::track_off();
        *hist() = saved;
        return;
    }
    let uf = judge(&u, hist()).iter().any(|x| x.mask & F != 0);
    let t2: Vec<String> = transcript(&u, hist()).into_iter().filter(|s| !s.starts_with("ledger")).collect();
    *hist() = saved;
    if functional && !uf {
        for x in v.iter_mut() {
            if x.mask & F != 0 {
                x.mask |= bit("C13");
                x.msg = format!("{} (the underlying iterator does not show this)", x.msg);
            }
        }
    }
    if seq && t1 != t2 {
        let k = t1.iter().zip(t2.iter()).position(|(a, b)| a != b).unwrap_or(t1.len().min(t2.len()));
        v.push(Viol {
            mask: bit("C13") | F,
            msg: format!(
                "step {k}: adaptor: {} / underlying: {}",
                t1.get(k).map(|s| s.as_str()).unwrap_or("-"),
                t2.get(k).map(|s| s.as_str()).unwrap_or("-")
            ),
        });
    }
}

/// explicit form of what was just executed
fn explicit(case: &Case) -> Case {
    let mut c = case.clone();
    if !(case.threads.is_empty() && case.mth.is_empty()) && INSTRUMENTED {
        let h = hist();
        c.sched.mode = Mode::Explicit { segs: h.trace.clone(), reads: h.trace_reads.clone() };
    }
    c
}

fn next_prefix(bound: u8) -> Option<Vec<u8>> {
    let st = &hist().dfs;
    for i in (0..st.len()).rev() {
        let s = &st[i];
        let at = s.options.iter().position(|x| *x == s.choice).unwrap();
        for j in at + 1..s.options.len() {
            let pre = s.cur != 255 && s.options[j] != s.cur;
            if pre && s.preempt_before >= bound {
                continue;
            }
            let mut p: Vec<u8> = st[..i].iter().map(|x| x.choice).collect();
            p.push(s.options[j]);
            return Some(p);
        }
    }
    None
}

struct Args(HashMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Args {
        let mut m = HashMap::new();
        let mut pos = vec![];
        let mut it = std::env::args().skip(2);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_default()
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn viols_json(v: &[Viol]) -> Value {
    Value::Array(
        v.iter()
            .map(|x| {
                let ps: Vec<String> = (1..20).filter(|n| x.mask & (1 << n) != 0).map(|n| format!("C{n:02}")).collect();
                json!({"props": ps, "msg": x.msg})
            })
            .collect(),
    )
}

fn work(a: &Args) {
    let prop = a.s("prop");
    let pb = bit(&prop);
    let seed = a.n("seed", 1);
    let count = a.n("count", 1000);
    let (w, off) = (a.n("stride", 1), a.n("offset", 0));
    let from = a.n("from", 0);
    let deep = a.n("deep", 0) == 1;
    let max_viol = a.n("max-viol", 3);
    let jpath = format!("{}\0", a.s("journal"));
    let jfd = unsafe { open(jpath.as_ptr(), 0o1102, 0o644) };
    let mut tr = if a.s("transcripts").is_empty() { None } else { Some(std::io::BufWriter::new(std::fs::File::create(a.s("transcripts")).unwrap())) };
    limits(a.n("cpu", 0));
    let mut st = Stats::new(&prop);
    let mut found: Vec<Value> = vec![];
    let mut i = off;
    let t0 = std::time::Instant::now();
    let secs = a.n("secs", 1 << 30);
    let mut cut = false;
    while i < count {
        if (i / w) % 64 == 0 && t0.elapsed().as_secs() >= secs {
            cut = true;
            break;
        }
        if i < from {
            i += w;
            continue;
        }
        extern "C" {
            fn pwrite(fd: i32, b: *const u8, n: usize, off: i64) -> isize;
        }
        unsafe { pwrite(jfd, i.to_le_bytes().as_ptr(), 8, 0) };
        let case = gen::generate(seed, &prop, i, deep);
        if !supported(&case.src) {
            i += w;
            continue;
        }
        let mut hit = None;
        if let Mode::Dfs { bound, cap } = case.sched.mode {
            if INSTRUMENTED && !case.threads.is_empty() {
                let mut prefix = vec![];
                let mut k = 0;
                loop {
                    eng().dfs_prefix = prefix;
                    let v = exec(&case);
                    k += 1;
                    st.add(&case, hist(), k == 1);
                    if v.iter().any(|x| x.mask & pb != 0) {
                        hit = Some(v);
                        break;
                    }
                    if k >= cap {
                        st.bump("dfs_capped");
                        break;
                    }
                    match next_prefix(bound) {
                        Some(p) => prefix = p,
                        None => {
                            st.bump("dfs_exhausted");
                            break;
                        }
                    }
                }
                eng().dfs_prefix = vec![];
                st.bump_by("dfs_schedules", k as u64);
            }
        } else {
            let v = exec(&case);
            st.add(&case, hist(), true);
            if v.iter().any(|x| x.mask & pb != 0) {
                hit = Some(v);
            }
            if let Some(f) = &mut tr {
                let mut h = 0xcbf29ce484222325u64;
                for l in transcript(&case, hist()) {
                    for b in l.bytes() {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                    h = (h ^ 10).wrapping_mul(0x100000001b3);
                }
                f.write_all(&i.to_le_bytes()).unwrap();
                f.write_all(&h.to_le_bytes()).unwrap();
            }
        }
        if let Some(v) = hit {
            let rel: Vec<Viol> = v.into_iter().filter(|x| x.mask & pb != 0).collect();
            let e = explicit(&case);
            found.push(json!({"i": i, "case": e, "viols": viols_json(&rel)}));
            if found.len() as u64 >= max_viol {
                break;
            }
        }
        i += w;
    }
    if let Some(mut f) = tr {
        f.flush().unwrap();
    }
    let mut o = st.json();
    o["found"] = Value::Array(found);
    o["cut"] = json!(cut);
    st.write_hashes(&a.s("hashes"));
    std::fs::write(a.s("out"), serde_json::to_vec(&o).unwrap()).unwrap();
}

fn load(p: &str) -> Case {
    let v: Value = serde_json::from_slice(&std::fs::read(p).expect("read")).expect("json");
    let c = if v.get("case").is_some() { v["case"].clone() } else { v };
    serde_json::from_value(c).expect("case")
}

/// executes one case; exit 0 / 1 (violation of the property)
fn one(a: &Args) {
    let case = load(&a.1[0]);
    let prop = if a.s("prop").is_empty() { case.prop.clone() } else { a.s("prop") };
    limits(a.n("cpu", 60));
    let v = exec(&case);
    let rel: Vec<Viol> = v.iter().filter(|x| x.mask & bit(&prop) != 0).cloned().collect();
    if a.n("quiet", 0) == 0 {
        for l in transcript(&case, hist()) {
            println!("  {l}");
        }
    }
    println!("{}", json!({"relevant": viols_json(&rel), "all": viols_json(&v), "case": explicit(&case)}));
    std::process::exit(if rel.is_empty() { 0 } else { 1 });
}

/// executes a case under many schedules, each run in the same process; exit 1: some schedule violates
fn vary(a: &Args) {
    let case = load(&a.1[0]);
    let prop = if a.s("prop").is_empty() { case.prop.clone() } else { a.s("prop") };
    limits(a.n("cpu", 120));
    let mut c = case.clone();
    for k in 0..a.n("runs", 300) {
        let v = exec(&c);
        if let Some(x) = v.iter().find(|x| x.mask & bit(&prop) != 0) {
            println!("{}", x.msg);
            std::process::exit(1);
        }
        let mut g = gen::Gen::for_schedules(k);
        c.sched = g.sched(case.sched.stale > 0, false);
        c.sched.nap = case.sched.nap;
        c.sched.harass = case.sched.harass;
    }
    std::process::exit(0);
}

/// runs a case in a child process; Some(viols) if it violates (or crashes)
fn forked(case: &Case, prop: &str, crash_counts: bool) -> Option<(Vec<String>, Option<Case>)> {
    let mut p = [0i32; 2];
    unsafe { pipe(p.as_mut_ptr()) };
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe {
            close(p[0]);
            let n = open(c"/dev/null".as_ptr() as *const u8, 1);
            dup2(n, 2);
        }
        limits(120);
        let v = exec(case);
        let rel: Vec<String> = v.iter().filter(|x| x.mask & bit(prop) != 0).map(|x| x.msg.clone()).collect();
        let s = serde_json::to_vec(&(rel, explicit(case))).unwrap();
        let mut o = 0;
        while o < s.len() {
            let k = unsafe { write(p[1], s[o..].as_ptr(), s.len() - o) };
            if k <= 0 {
                break;
            }
            o += k as usize;
        }
        unsafe { _exit(0) };
    }
    unsafe { close(p[1]) };
    let mut buf = vec![];
    let mut b = [0u8; 4096];
    loop {
        let k = unsafe { read(p[0], b.as_mut_ptr(), 4096) };
        if k <= 0 {
            break;
        }
        buf.extend_from_slice(&b[..k as usize]);
    }
    let mut st = 0;
    unsafe {
        close(p[0]);
        waitpid(pid, &mut st, 0)
    };
    let sig = st & 0x7f;
    if sig != 0 {
        if crash_counts && matches!(sig, 4 | 6 | 7 | 8 | 11 | 26) {
            return Some((vec![sig_msg(sig)], None));
        }
        return None;
    }
    let (rel, c): (Vec<String>, Case) = serde_json::from_slice(&buf).ok()?;
    if rel.is_empty() {
        None
    } else {
        Some((rel, Some(c)))
    }
}

fn sig_msg(sig: i32) -> String {
    if sig == 26 {
        format!("a call does not return: one execution used {CASE_CPU_SECS} s of CPU time")
    } else {
        format!("the process is terminated by signal {sig} (abort / memory error inside the crate)")
    }
}

fn shrink_cmd(a: &Args) {
    let mut cur = load(&a.1[0]);
    let prop = if a.s("prop").is_empty() { cur.prop.clone() } else { a.s("prop") };
    let budget = a.n("budget", 600);
    let crash = a.n("crash", 0) == 1;
    let secs = a.n("secs", 60);
    let t0 = std::time::Instant::now();
    let Some((mut msgs, ex)) = forked(&cur, &prop, crash) else {
        println!("{}", json!({"reproduced": false}));
        return;
    };
    if let Some(e) = ex {
        cur = e;
    }
    let mut tried = 0;
    'outer: loop {
        for c in shrink::candidates(&cur) {
            if tried >= budget || t0.elapsed().as_secs() >= secs {
                break 'outer;
            }
            if !supported(&c.src) || shrink::weight(&c) >= shrink::weight(&cur) {
                continue;
            }
            tried += 1;
            if let Some((m, e)) = forked(&c, &prop, crash) {
                msgs = m;
                let e = e.unwrap_or(c.clone());
                // the executed schedule replaces the requested one if it is no longer
                cur = if shrink::weight(&e) <= shrink::weight(&c) { e } else { c };
                continue 'outer;
            }
        }
        break;
    }
    println!("{}", json!({"reproduced": true, "case": cur, "msgs": msgs, "tried": tried}));
}

fn main() {
    let loud = std::env::var("VLOUD").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if loud {
            let _g = vcore::alloc::rt_guard();
            eprintln!("{i}");
        }
    }));
    let a = Args::parse();
    match std::env::args().nth(1).as_deref() {
        Some("work") => work(&a),
        Some("one") => one(&a),
        Some("vary") => vary(&a),
        Some("shrink") => shrink_cmd(&a),
        Some("case") => {
            let c = gen::generate(a.n("seed", 1), &a.s("prop"), a.n("i", 0), a.n("deep", 0) == 1);
            println!("{}", serde_json::to_string(&c).unwrap());
        }
        Some("len") => println!("{}", oracle::src_len(&load(&a.1[0]).src)),
        _ => {
            eprintln!("usage: work|one|shrink|case");
            std::process::exit(2);
        }
    }
}
