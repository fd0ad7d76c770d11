"""C14: generated programs judged by rustc, and random sequences of safe low-level calls with an ownership ledger.

Every probe is a *pair*: a program that must be rejected, and a twin that differs only in the aspect that
makes it legal.  A probe only counts if its twin compiles (otherwise the API it uses is gone: inconclusive).
"""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile, time

D = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(D, "crate", "target")

PRE = """#![allow(warnings)]
extern crate orx_concurrent_iter;
use orx_concurrent_iter::*;
use orx_concurrent_iter::iter::atomic_iter::*;
use std::{cell::{Cell, RefCell, UnsafeCell}, marker::PhantomData, rc::Rc, sync::{Arc, Mutex, RwLock}, thread};
// neither Send nor Sync; Sync but not Send; Send but not Sync; thread-safe - all Copy
#[derive(Clone, Copy, Debug, PartialEq)] pub struct NoNo(PhantomData<*const ()>);
#[derive(Clone, Copy, Debug, PartialEq)] pub struct NoSend(PhantomData<*const ()>);
unsafe impl Sync for NoSend {}
#[derive(Clone, Copy, Debug, PartialEq)] pub struct NoSync(PhantomData<*const ()>);
unsafe impl Send for NoSync {}
#[derive(Clone, Copy, Debug, PartialEq)] pub struct Fine(u32);
pub fn any<T>() -> T { unimplemented!() }
pub fn sink<T>(_: T) {}
pub fn bound<T: Send + Sync>() {}
pub fn is_send<T: Send>(_: &T) {}
pub fn is_sync<T: Sync>(_: &T) {}
"""


# ------------------------------------------------------------------ compiling

class Rustc:
    def __init__(self, R, tmp):
        self.tmp = tmp
        p = None
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            env.pop(k, None)
        self.env = env
        stamp, h = os.path.join(TARGET, "stamp"), R.tree_hash()
        if os.path.exists(stamp) and open(stamp).read() != h:
            shutil.rmtree(TARGET, ignore_errors=True)
        p = subprocess.run(["cargo", "+stable", "build", "--offline", "--message-format=json"], cwd=os.path.join(D, "crate"),
                           env=dict(env, CARGO_TARGET_DIR=TARGET), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise R.CheckError("build of the crate failed:\n" + p.stderr[-3000:])
        open(stamp, "w").write(h)
        for l in p.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "orx_concurrent_iter":
                self.rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
        self.n = 0

    def rustc(self, src, out=None, cfgs=()):
        self.n += 1
        f = os.path.join(self.tmp, f"p{random.Random(src).getrandbits(60):x}.rs")
        open(f, "w").write(src)
        c = ["rustc", "+stable", "--edition=2021", "--error-format=json", "--crate-name", "probe",
             "--extern", f"orx_concurrent_iter={self.rlib}", "-L", f"dependency={os.path.dirname(self.rlib)}"]
        for x in cfgs:
            c += ["--cfg", x]
        if out:
            c += ["-O", "-Cdebug-assertions=on", "-o", out, f]
        else:
            c += ["--crate-type=lib", "--emit=metadata", "-o", f + ".m", f]
        p = subprocess.run(c, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.tmp)
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                code = (m.get("code") or {}).get("code") or "E?"
                lines = [s["line_start"] for s in m["spans"] if s["is_primary"] and s["file_name"] == f]
                errs.append((code, lines, m["message"][:160]))
            elif m.get("level", "").startswith("error: internal"):
                errs.append(("ICE", [], m["message"]))
        return p.returncode == 0, errs

    def batch(self, bodies):
        """compiles the functions in one file; returns for each body the list of error codes (None: unknown)"""
        src, spans, ln = PRE, [], PRE.count("\n") + 1
        for i, b in enumerate(bodies):
            s = f"pub fn f{i}() {{\n{b}\n}}\n"
            spans.append((ln, ln + s.count("\n") - 1))
            ln += s.count("\n")
            src += s
        ok, errs = self.rustc(src)
        res = [[] for _ in bodies]
        loose = False
        for code, lines, msg in errs:
            hit = False
            for l in lines:
                for i, (a, z) in enumerate(spans):
                    if a <= l <= z:
                        res[i].append((code, msg))
                        hit = True
            if not hit:
                loose = True
        return res, loose

    def single(self, body):
        ok, errs = self.rustc(PRE + f"pub fn f() {{\n{body}\n}}\n")
        return [] if ok else ([(c, m) for c, _, m in errs] or [("E?", "")])


# ------------------------------------------------------------------ family A: thread-safety of elements

LEAF = ["u8", "String", "Fine", "NoNo", "NoSend", "NoSync", "Rc<u8>", "Cell<u8>", "RefCell<u8>", "*const u8", "&'static Cell<u8>",
        "&'static str", "fn() -> Rc<u8>", "PhantomData<Rc<u8>>", "()", "std::sync::MutexGuard<'static, u8>", "Rc<Fine>", "UnsafeCell<u8>",
        "std::sync::mpsc::Receiver<u8>", "std::sync::mpsc::Sender<u8>", "Box<dyn Fn()>", "Box<dyn Fn() + Send>", "Box<dyn Fn() + Send + Sync>",
        "&'static dyn std::fmt::Debug", "std::num::NonZeroU8", "std::sync::atomic::AtomicU8", "std::sync::OnceLock<Rc<u8>>", "std::rc::Weak<u8>"]
CLONE_LEAF = ["u8", "String", "Fine", "NoNo", "NoSend", "NoSync", "Rc<u8>", "Cell<u8>", "RefCell<u8>", "*const u8", "&'static Cell<u8>",
              "fn() -> Rc<u8>", "PhantomData<Rc<u8>>", "std::sync::mpsc::Sender<u8>", "&'static str", "std::rc::Weak<u8>"]
COPY_LEAF = ["u8", "Fine", "NoNo", "NoSend", "NoSync", "*const u8", "&'static Cell<u8>", "fn() -> Rc<u8>", "PhantomData<Rc<u8>>", "&'static str", "*mut u8"]
WRAP = ["Box<{}>", "Option<{}>", "Vec<{}>", "({}, u8)", "(u8, {})", "[{}; 2]", "Arc<{}>", "Mutex<{}>", "RwLock<{}>", "&'static {}", "Rc<{}>", "PhantomData<{}>", "Result<{}, u8>"]
CLONE_WRAP = ["Box<{}>", "Option<{}>", "Vec<{}>", "({}, u8)", "[{}; 2]", "Arc<{}>", "&'static {}", "Rc<{}>", "PhantomData<{}>"]
COPY_WRAP = ["Option<{}>", "({}, u8)", "(u8, {})", "[{}; 2]", "&'static {}", "PhantomData<{}>"]


def rtype(r, leaf, wrap, depth):
    if depth == 0 or r.random() < 0.4:
        return r.choice(leaf)
    return r.choice(wrap).format(rtype(r, leaf, wrap, depth - 1))


# (name, statements creating `it`, class of admissible types)
SOURCES_A = [
    ("slice.con_iter", "let v: &[{T}] = any(); let it = v.con_iter();", ""),
    ("vec.con_iter", "let v: Vec<{T}> = any(); let it = v.con_iter();", ""),
    ("array.con_iter", "let v: [{T}; 3] = any(); let it = v.con_iter();", ""),
    ("slice.into_con_iter", "let v: Vec<{T}> = any(); let it = v.as_slice().into_con_iter();", ""),
    ("ConIterOfSlice::new", "let v: Vec<{T}> = any(); let it = ConIterOfSlice::new(&v);", ""),
    ("ConIterOfSlice::from", "let v: Vec<{T}> = any(); let it: ConIterOfSlice<{T}> = v.as_slice().into();", ""),
    ("vec.into_con_iter", "let v: Vec<{T}> = any(); let it = v.into_con_iter();", ""),
    ("ConIterOfVec::new", "let it = ConIterOfVec::new(any::<Vec<{T}>>());", ""),
    ("ConIterOfVec::from", "let it: ConIterOfVec<{T}> = any::<Vec<{T}>>().into();", ""),
    ("array.into_con_iter", "let v: [{T}; 3] = any(); let it = v.into_con_iter();", ""),
    ("ConIterOfArray::new", "let it = ConIterOfArray::<3, {T}>::new(any());", ""),
    ("ConIterOfArray::from", "let it: ConIterOfArray<3, {T}> = any::<[{T}; 3]>().into();", ""),
    ("vec::IntoIter", "let it = IterIntoConcurrentIter::into_con_iter(any::<Vec<{T}>>().into_iter());", ""),
    ("boxed iterator", "let it = any::<Box<dyn Iterator<Item = {T}> + Send + Sync>>().into_con_iter();", ""),
    ("ConIterOfIter::new", "let it = ConIterOfIter::new(any::<std::vec::IntoIter<{T}>>());", ""),
    ("slice::Iter", "let v: Vec<{T}> = any(); let it = v.iter().into_con_iter();", "ref"),
    ("slice.cloned", "let v: Vec<{T}> = any(); let it = v.con_iter().cloned();", "clone"),
    ("into_cloned", "let v: Vec<{T}> = any(); let it = v.as_slice().into_con_iter().cloned();", "clone"),
    ("iter.cloned", "let v: Vec<{T}> = any(); let it = v.iter().into_con_iter().cloned();", "clone"),
    ("slice.copied", "let v: Vec<{T}> = any(); let it = v.con_iter().copied();", "copy"),
    ("array.copied", "let v: [{T}; 3] = any(); let it = v.con_iter().copied();", "copy"),
    ("iter.copied", "let v: Vec<{T}> = any(); let it = v.iter().into_con_iter().copied();", "copy"),
]
USES_A = [
    ("create", "sink(&it);"),
    ("pull", "sink(ConcurrentIter::next(&it).is_some());"),
    ("share", "thread::scope(|s| {{ for _ in 0..2 {{ s.spawn(|| {{ sink(ConcurrentIter::next(&it).is_some()); }}); }} }});"),
    ("share-chunk", "thread::scope(|s| {{ for _ in 0..2 {{ s.spawn(|| {{ sink(it.next_chunk(2).is_some()); }}); }} }});"),
    ("move", "thread::scope(|s| {{ s.spawn(move || {{ let i = it; sink(ConcurrentIter::next(&i).is_some()); }}); }});"),
    ("buffered", "thread::scope(|s| {{ let mut b = it.buffered_iter(2); s.spawn(move || {{ sink(b.next().is_some()); }}); }});"),
    ("send-sync", "is_send(&it); is_sync(&it);"),
]
BOUND_CODES = {"E0277", "E0599", "E0282", "E0283", "E0271", "E0038"}
# named types of the crate: must not be Send/Sync (or not exist) for a bad element type
NAMED = ["ConIterOfVec<{T}>", "ConIterOfArray<2, {T}>", "ConIterOfSlice<'static, {T}>", "ConIterOfIter<{T}, std::vec::IntoIter<{T}>>",
         "<Vec<{T}> as IntoConcurrentIter>::ConIter", "<Vec<{T}> as ConcurrentIterable>::ConIter<'static>",
         "<[{T}; 2] as ConcurrentIterable>::ConIter<'static>", "<&'static [{T}] as IntoConcurrentIter>::ConIter", "<[{T}; 2] as IntoConcurrentIter>::ConIter"]


def family_a(r, n):
    out = []
    for _ in range(n):
        if r.random() < 0.12:
            t = rtype(r, LEAF, WRAP, r.randint(0, 3))
            name = r.choice(NAMED)
            body = "bound::<%s>();" % name.format(T=t)
            key = f"A/named/{name}"
        else:
            name, mk, cls = r.choice(SOURCES_A)
            leaf, wrap = {"": (LEAF, WRAP), "ref": (LEAF, WRAP), "clone": (CLONE_LEAF, CLONE_WRAP), "copy": (COPY_LEAF, COPY_WRAP)}[cls]
            t = rtype(r, leaf, wrap, r.choice([0, 1, 1, 2, 3]))
            un, use = r.choice(USES_A)
            body = (mk + "\n" + use.replace("{{", "{").replace("}}", "}")).replace("{T}", t)
            key = f"A/{name}/{un}"
        out.append(dict(fam="A", key=key, body=body, twin=body.replace(t, "u8"), assertion=f"bound::<{'&' + t if name == 'slice::Iter' else t}>();",
                        codes=BOUND_CODES, ty=t))
    return out


# ------------------------------------------------------------------ family B: the wrapped iterator itself

NONSEND_ITERS = [
    ("map-capturing-Rc", "{ let rc = Rc::new(1u64); (0..9u64).map(move |x| x + *rc) }", "{ let rc = Arc::new(1u64); (0..9u64).map(move |x| x + *rc) }"),
    ("map-capturing-ref-Cell", "{ let c: &'static Cell<u64> = any(); (0..9u64).map(move |x| x + c.get()) }", "{ let c: &'static u64 = any(); (0..9u64).map(move |x| x + *c) }"),
    ("from_fn-Rc", "{ let rc = Rc::new(Cell::new(0u64)); std::iter::from_fn(move || { rc.set(rc.get() + 1); Some(rc.get()) }) }", "{ let mut n = 0u64; std::iter::from_fn(move || { n += 1; Some(n) }) }"),
    ("boxed-dyn", "any::<Box<dyn Iterator<Item = u64>>>()", "any::<Box<dyn Iterator<Item = u64> + Send + Sync>>()"),
    ("custom-raw-pointer", "{ struct I(*mut u64); impl Iterator for I { type Item = u64; fn next(&mut self) -> Option<u64> { None } } any::<I>() }",
     "{ struct I(Box<u64>); impl Iterator for I { type Item = u64; fn next(&mut self) -> Option<u64> { None } } any::<I>() }"),
]
FORMS_B = [
    ("into_con_iter", "let it = IterIntoConcurrentIter::into_con_iter({I});"),
    ("method", "let it = {I}.into_con_iter();"),
    ("new", "let it = ConIterOfIter::new({I});"),
    ("from", "let it = ConIterOfIter::from({I});"),
]
USES_B = [u for u in USES_A if u[0] in ("create", "share", "move", "send-sync", "share-chunk", "buffered")]


def family_b():
    out = []
    for iname, bad, good in NONSEND_ITERS:
        for fname, form in FORMS_B:
            for un, use in USES_B:
                u = use.replace("{{", "{").replace("}}", "}")
                out.append(dict(fam="B", key=f"B/{iname}/{fname}/{un}", body=form.replace("{I}", bad) + "\n" + u, twin=form.replace("{I}", good) + "\n" + u, codes=BOUND_CODES))
    return out


# ------------------------------------------------------------------ family C: borrows and lifetimes

BORROW_CODES = {"E0597", "E0505", "E0499", "E0506", "E0502", "E0515", "E0716", "E0713", "E0521", "E0373", "E0382", "E0503", "E0594", "E0596", "E0384", "E0381"}

# collection, expression making the iterator, kind
COLL = {
    "vec": ("vec![String::from(\"a\"), String::from(\"b\"), String::from(\"c\")]", "String"),
    "vec-u64": ("vec![1u64, 2, 3]", "u64"),
    "array": ("[String::from(\"a\"), String::from(\"b\")]", "String"),
    "array-u64": ("[1u64, 2, 3]", "u64"),
    "boxed": ("vec![1u64, 2, 3].into_boxed_slice()", "u64"),
}
BORROWING = [  # (name, expr of v, items borrow v, wrapped)
    ("con_iter", "v.con_iter()", True, False, None),
    ("slice.into_con_iter", "v[..].into_con_iter()", True, False, None),
    ("slice.con_iter", "s.con_iter()", True, False, None),
    ("ConIterOfSlice::new", "ConIterOfSlice::new(&v[..])", True, False, None),
    ("ConIterOfSlice::from", "ConIterOfSlice::from(&v[..])", True, False, None),
    ("ConIterOfSlice.clone", "v[..].into_con_iter().clone()", True, False, None),
    ("cloned", "v[..].into_con_iter().cloned()", False, False, None),
    ("copied", "v[..].into_con_iter().copied()", False, False, "u64"),
    ("iter", "v.iter().into_con_iter()", True, True, None),
    ("iter.cloned", "v.iter().into_con_iter().cloned()", False, True, None),
    ("iter.copied", "v.iter().into_con_iter().copied()", False, True, "u64"),
]
OWNING = [
    ("Vec", "vec![String::from(\"a\"), String::from(\"b\"), String::from(\"c\"), String::from(\"d\")].into_con_iter()", False),
    ("ConIterOfVec::new", "ConIterOfVec::new(vec![1u64, 2, 3])", False),
    ("Array", "[String::from(\"a\"), String::from(\"b\"), String::from(\"c\")].into_con_iter()", False),
    ("ConIterOfArray::new", "ConIterOfArray::new([1u64, 2, 3])", False),
    ("vec::IntoIter", "IterIntoConcurrentIter::into_con_iter(vec![String::from(\"a\"), String::from(\"b\")].into_iter())", True),
    ("Range.map", "(0..9u64).map(|x| x.to_string()).into_con_iter()", True),
    ("Range", "(0..9usize).con_iter()", None),
]
# pulls: (name, statements defining r (and helpers), r is an item (not a chunk / adaptor borrowing it))
PULLS = [
    ("next", "let r = ConcurrentIter::next(&it);", "item"),
    ("next_id_and_value", "let r = it.next_id_and_value().map(|x| x.value);", "item"),
    ("fetch_one", "let r = it.fetch_one().map(|x| x.value);", "item"),
    ("next_chunk", "let r = it.next_chunk(2);", "chunk"),
    ("next_chunk.values", "let r = it.next_chunk(2).unwrap().values;", "chunk"),
    ("fetch_n", "let r = it.fetch_n(2);", "chunk"),
    ("chunk-collect", "let r: Vec<_> = it.next_chunk(2).unwrap().values.collect();", "item"),
    ("chunk-item", "let r = it.next_chunk(2).unwrap().values.next();", "item"),
    ("buffered", "let mut b = it.buffered_iter(2);\nlet r = b.next();", "bchunk"),
    ("buffered.values", "let mut b = it.buffered_iter(2);\nlet r = b.next().unwrap().values;", "bchunk"),
    ("buffered-collect", "let mut b = it.buffered_iter(2);\nlet r: Vec<_> = b.next().unwrap().values.collect();\nsink(b);", "item"),
    ("buffered-iter", "let r = it.buffered_iter(2);", "adaptor"),
    ("values", "let r = it.values();", "adaptor"),
    ("ids_and_values", "let r = it.ids_and_values();", "adaptor"),
    ("values-collect", "let r: Vec<_> = it.values().collect();", "item"),
    ("ids_and_values-collect", "let r: Vec<_> = it.ids_and_values().map(|x| x.1).collect();", "item"),
    ("for_each-push", "let mut r = vec![];\nit.for_each(2, |x| r.push(x));", "item"),
    ("enumerate-push", "let mut r = vec![];\nit.enumerate_for_each(1, |_, x| r.push(x));", "item"),
    ("fold-push", "let r = it.fold(2, vec![], |mut v, x| { v.push(x); v });", "item"),
    ("the-iterator", "let r = &it;", "adaptor"),
    ("low-level-counter", "let r = it.counter();", "adaptor"),
]
KILL_V = [("drop-source", "drop(v);"), ("move-source", "let w = v; sink(&w);"), ("mutate-source", "v[0] = Default::default();"), ("mut-borrow-source", "sink(&mut v);")]
KILL_IT = [("into_seq_iter", "let s = it.into_seq_iter(); sink(s);"), ("drop-iter", "drop(it);"), ("move-iter", "let j = it; sink(j);")]
NOISE = ["", "sink(it.try_get_len());", "sink(ConcurrentIter::next(&it));", "it.skip_to_end();", "sink(it.has_more());", "let k = 3usize;"]


def family_c(r, n):
    out = []
    guard = 0
    while len(out) < n and guard < 50 * n:
        guard += 1
        pn, pull, pk = r.choice(PULLS)
        noise = r.choice(NOISE) if r.random() < 0.5 else ""
        if noise:
            pull = noise + "\n" + pull
        if r.random() < 0.55:
            cn = r.choice(list(COLL))
            init, el = COLL[cn]
            sn, mk, item_borrows, wrapped, need = r.choice(BORROWING)
            if need and need != el:
                continue
            if pk == "item" and not item_borrows:
                continue
            if cn == "boxed" and sn == "con_iter":
                continue
            if sn == "slice.con_iter":
                init += ";\nlet s = &v[1..]"
            mode = r.choice(["scope", "kill", "kill", "return"])
            if mode == "kill":
                kn, kill = r.choice(KILL_V)
                if cn == "boxed" and "mutate" in kn:
                    pass
                if cn == "array-u64" and kn in ("drop-source", "move-source"):
                    continue  # Copy: moves a copy of the source
                # an owned copy of `it` must not be what conflicts: the use of r comes last
                bad = f"let mut v = {init};\nlet it = {mk};\n{pull}\n{kill}\nsink(r);"
                good = f"let mut v = {init};\nlet it = {mk};\n{pull}\nsink(r);\n{'' if pk == 'item' else ''}drop(it);\n{kill}"
                if "bchunk" == pk or "let mut b" in pull:
                    good = good.replace("sink(r);\n", "sink(r);\n" + ("" if "sink(b)" in pull else "sink(b);\n"))
            elif mode == "scope":
                kn = "source-scope-end"
                if pk == "item":
                    bad = f"let q;\n{{ let v = {init};\nlet it = {mk};\n{pull}\nq = r; }}\nsink(q);"
                    good = f"let v = {init};\nlet q;\n{{ let it = {mk};\n{pull}\nq = r; }}\nsink(q);"
                else:
                    # the iterator itself outlives its source
                    bad = f"let it;\n{{ let v = {init};\nit = {mk}; }}\n{pull}\nsink(r);"
                    good = f"let it;\nlet v = {init};\n{{ it = {mk}; }}\n{pull}\nsink(r);"
            else:
                kn = "thread-spawn-not-scoped"
                bad = f"let v = {init};\nlet it = {mk};\nthread::spawn(move || {{ {pull}\nsink(r); }});"
                good = f"let v = {init};\nlet it = {mk};\nthread::scope(|s| {{ s.spawn(|| {{ {pull}\nsink(r); }}); }});"
                if wrapped is None:
                    continue
            key = f"C/{cn}/{sn}/{pn}/{kn}"
        else:
            sn, mk, wrapped = r.choice(OWNING)
            kind = r.choice(["buffer", "iter", "scope"])
            if kind == "buffer":
                if pk != "bchunk":
                    continue
                kn = r.choice(["next-pull", "next-pull", "drop-buffer", "move-buffer"])
                if kn != "next-pull" and not wrapped:
                    continue
                if r.random() < 0.5:
                    # also over borrowing sources
                    sn2, mk2, _, w2, need = r.choice(BORROWING)
                    if not need and sn2 != "slice.con_iter" and (kn == "next-pull" or w2):
                        sn, mk, wrapped = sn2, mk2, w2
                v = "let v = vec![String::from(\"a\"), String::from(\"b\"), String::from(\"c\")];\n" if "v" in mk.split("(")[0] or "&v" in mk or mk.startswith("v") else ""
                k = {"next-pull": "sink(b.next().is_some());", "drop-buffer": "drop(b);", "move-buffer": "let c = b; sink(c);"}[kn]
                bad = f"{v}let it = {mk};\n{pull}\n{k}\nsink(r);"
                good = f"{v}let it = {mk};\n{pull}\nsink(r);\n{k}"
            elif kind == "iter":
                kn, kill = r.choice(KILL_IT)
                # what dangles when the iterator goes: chunks over its storage, buffered iterators, adaptors
                if pk == "item" or (pk == "chunk" and (wrapped or wrapped is None)):
                    continue
                bad = f"let it = {mk};\n{pull}\n{kill}\nsink(r);"
                good = f"let it = {mk};\n{pull}\nsink(r);\n{'sink(b);' + chr(10) if 'let mut b' in pull else ''}{kill}"
                if pk == "bchunk":
                    good = good.replace("sink(b);\n", "drop(b);\n")
            else:
                kn = "iter-scope-end"
                if pk == "item" or (pk == "chunk" and (wrapped or wrapped is None)):
                    continue
                bad = f"let q;\n{{ let it = {mk};\n{pull}\nq = r; }}\nsink(q);"
                good = f"let it = {mk};\nlet q;\n{{ {pull}\nq = r; sink(q); }}"
            key = f"C/{sn}/{pn}/{kn}"
        out.append(dict(fam="C", key=key, body=bad, twin=good, codes=BORROW_CODES))
    return out


# ------------------------------------------------------------------ family D: single owners / encapsulation

def family_d():
    out = []

    def d(key, body, twin, codes):
        out.append(dict(fam="D", key="D/" + key, body=body, twin=twin, codes=set(codes)))
    own = {"vec": "let v = vec![String::from(\"a\")]; let it = v.into_con_iter();", "array": "let v = [String::from(\"a\")]; let it = v.into_con_iter();",
           "new-vec": "let v = vec![String::from(\"a\")]; let it = ConIterOfVec::new(v);", "new-array": "let v = [String::from(\"a\")]; let it = ConIterOfArray::new(v);",
           "from-vec": "let v = vec![String::from(\"a\")]; let it: ConIterOfVec<_> = v.into();",
           "iter": "let v = vec![String::from(\"a\")].into_iter(); let it = IterIntoConcurrentIter::into_con_iter(v);"}
    for k, mk in own.items():
        d(f"use-source-after-into/{k}", mk + " sink(it); sink(v);", mk + " sink(it);", {"E0382"})
        d(f"use-after-into_seq_iter/{k}", mk + " let s = it.into_seq_iter(); sink(ConcurrentIter::next(&it)); sink(s);", mk + " sink(ConcurrentIter::next(&it)); let s = it.into_seq_iter(); sink(s);", {"E0382"})
        d(f"into_seq_iter-twice/{k}", mk + " let s = it.into_seq_iter(); let t = it.into_seq_iter(); sink((s, t));", mk + " let s = it.into_seq_iter(); sink(s);", {"E0382"})
        d(f"into_seq_iter-through-ref/{k}", mk + " let p = &it; let s = p.into_seq_iter(); sink(s);", mk + " let p = it; let s = p.into_seq_iter(); sink(s);", {"E0507", "E0599"})
        if k != "iter":
            d(f"clone-consuming/{k}", mk + " let o = Clone::clone(&it); sink(o);", mk + " let o = Clone::clone(&1); sink(o); sink(it);", BOUND_CODES)
            d(f"copy-consuming/{k}", mk + " let o = it; sink(o); sink(it);", mk + " let o = it; sink(o);", {"E0382"})
        for f, call in {"AtomicIter::get": "sink(AtomicIter::get(&it, 0)); sink(AtomicIter::get(&it, 0));", "counter.store": "it.counter().store(0);",
                        "counter.swap": "it.counter().swap(0);"}.items():
            d(f"{f}/{k}", mk + " " + call, mk + " sink(it.counter().current());", {"E0133", "E0599", "E0624", "E0616", "E0425"})
    priv = {"E0624", "E0616", "E0599", "E0133", "E0609", "E0603", "E0432", "E0433", "E0560", "E0451", "E0423", "E0425"}
    vec = own["vec"]; arr = own["array"]; it_ = own["iter"]
    for k, mk, calls in [("vec", vec, ["sink(&it.vec);", "sink(&it.counter);", "it.take_one(0);", "sink(it.take_slice(0, 1));", "sink(it.split_off_right(0));", "sink(it.vec_len);"]),
                         ("array", arr, ["sink(&it.array);", "sink(&it.counter);", "it.take_one(0);", "sink(it.take_slice(0, 1));", "sink(it.split_off_right(0));", "sink(it.array_ptr());"]),
                         ("iter", it_, ["sink(&it.iter);", "sink(&it.yielded_counter);", "sink(&it.reserved_counter);", "it.completed.store(false, std::sync::atomic::Ordering::SeqCst);", "sink(it.mut_iter());", "it.progress_yielded_counter(1);"])]:
        for c in calls:
            d(f"private/{k}/{c.split('(')[-2 if c.count('(') > 1 else -1][:24] if False else c}", mk + " " + c, mk + " sink(&it);", priv)
    d("pull-generic", "fn g<C: ConcurrentIter>(c: &C) where C: AtomicIter<C::Item> { let mut b = <C::BufferedIter>::new(1); sink(b.pull(c, 0).is_some()); } g(&vec![String::new()].into_con_iter());",
      "fn g<C: ConcurrentIter>(c: &C) where C: AtomicIter<C::Item> { let mut b = c.buffered_iter(1); sink(b.next().is_some()); } g(&vec![String::new()].into_con_iter());", priv)
    # supertraits: implementing the traits for a type that is not thread-safe
    imp = """struct E<'a>(&'a [u8], AtomicCounter, {X});
impl<'a> AtomicIter<&'a u8> for E<'a> {
 fn counter(&self) -> &AtomicCounter { &self.1 }
 fn progress_and_get_begin_idx(&self, n: usize) -> Option<usize> { None }
 {U}fn get(&self, i: usize) -> Option<&'a u8> { None }
 fn fetch_n(&self, n: usize) -> Option<NextChunk<&'a u8, impl ExactSizeIterator<Item = &'a u8>>> { None::<NextChunk<&'a u8, std::slice::Iter<'a, u8>>> }
 fn early_exit(&self) {}
}"""
    for u in ("unsafe ", ""):
        for x in ("Rc<u8>", "Cell<u8>", "*const u8", "std::sync::MutexGuard<'static, u8>"):
            d(f"supertrait/{x}/{u.strip() or 'safe'}", imp.replace("{X}", x).replace("{U}", u), imp.replace("{X}", "u8").replace("{U}", u), BOUND_CODES)
    gen = "fn g<C: ConcurrentIter{B}>(c: &C) where C::Item: {S} {{ thread::scope(|s| {{ s.spawn(|| {{ let x = ConcurrentIter::next(c); sink(x.is_some()); }}); }}); }}"
    return out


# ------------------------------------------------------------------ judging

def judge(rc, probes, pool):
    """-> list of verdicts: 'rejected' | 'ACCEPTED' | 'inconclusive' | 'legal'"""
    B = 40
    jobs = [probes[i:i + B] for i in range(0, len(probes), B)]

    def run(js):
        bodies, twins = [p["body"] for p in js], [p["twin"] for p in js]
        rb, l1 = rc.batch(bodies)
        rt, l2 = rc.batch(twins)
        ra = None
        if js[0]["fam"] == "A":
            ra, _ = rc.batch([p["assertion"] for p in js])
        out = []
        for i, p in enumerate(js):
            e, t = rb[i], rt[i]
            if ra is not None and not ra[i]:
                # thread-safe type: nothing has to be rejected
                out.append(("legal", e))
                continue
            if not e or l1:
                e = rc.single(p["body"])  # confirm alone
            if t or l2:
                t = rc.single(p["twin"])
            if t:
                out.append(("inconclusive", t))
            elif not e:
                out.append(("ACCEPTED", e))
            elif any(c in p["codes"] for c, _ in e):
                out.append(("rejected", e))
            else:
                out.append(("inconclusive", e))
        return out
    res = []
    for x in pool.map(run, jobs):
        res += x
    return res


def lowlevel(rc, R, seed, count, pool, ev):
    def compiles(body):
        return not rc.single(body)
    mk = "let it = vec![String::new()].into_con_iter(); "
    cfgs = []
    if compiles(mk + "sink(AtomicIter::get(&it, 0));"):
        cfgs.append("low_get")
    if compiles(mk + "it.counter().store(0);"):
        cfgs.append("low_store")
    if compiles("fn g<C: ConcurrentIter>(c: &C) where C: AtomicIter<C::Item> { let mut b = <C::BufferedIter>::new(1); sink(b.pull(c, 0).is_some()); }"):
        cfgs.append("low_pull")
    exe = os.path.join(rc.tmp, "lowlevel")
    ok, errs = rc.rustc(open(os.path.join(D, "lowlevel.rs")).read(), out=exe, cfgs=cfgs)
    if not ok:
        ev["low_level_inconclusive"] = str(errs[:2])
        print("note: the low-level sequences do not compile against this tree:", errs[:2])
        return []
    step = count // 8

    def run(w):
        return subprocess.run([exe, str(seed), str(w * step), str((w + 1) * step)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
    bad = []
    ev["low_level_sequences"] = 0
    ev["low_level_nontrivial"] = 0
    ev["low_level_enabled"] = cfgs
    for w, p in enumerate(pool.map(run, range(8))):
        out = p.stdout.decode(errors="replace").splitlines()
        done = [l for l in out if l.startswith("DONE")]
        b = [l for l in out if l.startswith("BAD")]
        if p.returncode == 0 and done:
            ev["low_level_sequences"] += step
            ev["low_level_nontrivial"] += int(done[0].split()[1])
            ev.setdefault("low_level_sample", " ".join(done[0].split()[3:]))
        elif b:
            bad.append(dict(key="LOW/two-owners", msg=b[0], low=dict(seed=seed, cfgs=cfgs, case=int(b[0].split()[1].rstrip(":")))))
        elif p.returncode < 0:
            last = [l for l in out if l.startswith("case")]
            bad.append(dict(key="LOW/crash", msg=f"safe low-level calls end the process by signal {-p.returncode}: {last[-1] if last else ''}",
                            low=dict(seed=seed, cfgs=cfgs, case=int(last[-1].split()[1]) if last else 0)))
        else:
            ev["low_level_inconclusive"] = f"exit {p.returncode}"
    return bad


def check(R, t0):
    deep = R.tier() == "thorough"
    seed = R.seed()
    r = random.Random(f"c14-{seed}")
    tmp = tempfile.mkdtemp(prefix="verif-C14-")
    ev = {}
    try:
        rc = Rustc(R, tmp)
        k = 12 if deep else 1
        probes = family_a(r, 2000 * k) + family_b() + family_c(r, 1600 * k) + family_d()
        seen, uniq = set(), []
        for p in probes:
            if p["body"] not in seen:
                seen.add(p["body"])
                uniq.append(p)
        groups = {}
        for p in uniq:
            groups.setdefault(p["fam"] if p["fam"] != "D" else p["key"].split("/")[1], []).append(p)
        viol, verdicts, per = [], {}, {}
        samples = []
        incon = []
        with cf.ThreadPoolExecutor(8) as pool:
            for fam, ps in groups.items():
                for p, (v, e) in zip(ps, judge(rc, ps, pool)):
                    verdicts[v] = verdicts.get(v, 0) + 1
                    per.setdefault(p["fam"], {}).setdefault(v, 0)
                    per[p["fam"]][v] += 1
                    if v == "ACCEPTED":
                        viol.append(dict(p, msg="must be rejected by the compiler, but compiles: " + p["body"].replace("\n", " ")))
                    elif v == "inconclusive":
                        incon.append((p["key"], e[:1], p["body"], p["twin"]))
                    elif v == "rejected" and len(samples) < 8 and r.random() < 0.02:
                        samples.append(dict(key=p["key"], rejected_program=p["body"], accepted_twin=p["twin"], verdict=[x[0] for x in e][:2]))
            viol += lowlevel(rc, R, seed, 400000 * k, pool, ev)
        n_rust = rc.n
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if os.environ.get("C14_DEBUG"):
        for x in incon:
            print(x)
    judged = verdicts.get("rejected", 0) + verdicts.get("ACCEPTED", 0)
    if judged < 200:
        raise R.CheckError(f"only {judged} probes could be judged: {incon[:3]}")
    kn = {k for p, k, _ in R.known() if p == "C14"}
    hit = [v for v in viol if v["key"] in kn]
    new = [v for v in viol if v["key"] not in kn]
    cov = dict(evaluations=len(uniq) + ev.get("low_level_sequences", 0), distinct_nontrivial=judged + ev.get("low_level_nontrivial", 0),
               rule="programs generated from templates (source kind x element type grammar x use; pull x invalidation order) judged by rustc, a program counts only if "
                    "its twin (same text, legal aspect) compiles and it is required to be rejected; plus random sequences of safe low-level calls, non-trivial if a low-level call was executed",
               samples=samples, verdicts=verdicts, per_family=per, rustc_runs=n_rust, known_findings_hit=len(hit), inconclusive_examples=[x[0] for x in incon[:5]], **ev)
    R.write_evidence("C14", cov, t0, len(new), "exploration")
    done = set()
    for v in hit:
        if v["key"] not in done:
            done.add(v["key"])
            print(f"KNOWN-FINDING: property=C14 {v['key']}: a wrapped sequential iterator that is not Send is accepted")
    if new:
        path = R.replay_path("C14", "1")
        rec = dict(property="C14", profile="c14", **{k: v for k, v in new[0].items() if k != "codes"})
        rec["msgs"] = [new[0]["msg"]]
        json.dump(rec, open(path, "w"), indent=1, default=list)
        for v in new[:3]:
            print("  " + v["key"] + ": " + v["msg"][:300])
        print(f"VIOLATION property=C14 replay={path}")
        return 1
    print(f"ok property=C14 probes={len(uniq)} verdicts={verdicts} low={ev.get('low_level_sequences')} wall={time.time()-t0:.1f}s")
    return 0


def replay(rec):
    import run as R
    tmp = tempfile.mkdtemp(prefix="verif-C14-")
    try:
        rc = Rustc(R, tmp)
        if "low" in rec:
            exe = os.path.join(tmp, "lowlevel")
            ok, errs = rc.rustc(open(os.path.join(D, "lowlevel.rs")).read(), out=exe, cfgs=rec["low"]["cfgs"])
            if not ok:
                print("the low-level program does not compile (any more)", errs[:1])
                return 0
            p = subprocess.run([exe, str(rec["low"]["seed"]), str(rec["low"]["case"]), str(rec["low"]["case"] + 1)])
            return 1 if p.returncode else 0
        e, t = rc.single(rec["body"]), rc.single(rec["twin"])
        print("program:", e or "compiles", "| twin:", t or "compiles")
        return 1 if not e and not t else 0
    finally:
        shutil.rmtree(tmp)
