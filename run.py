#!/usr/bin/env python3
"""run.py PROP            run the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)
   run.py setup           build everything once
   run.py replay FILE     re-execute a replay file; exit 1 if it still violates its property"""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
REPO = "/repo"
NW = 8    # processes at a time
NJ = 48   # worker processes per build: each starts with fresh process-wide state
KNOWN = os.path.join(V, "KNOWN_FINDINGS.txt")
sys.path.insert(0, V)

# property -> list of (profile, quick count, thorough count).  Work is fixed: `count` generated cases.
PLAN = {
    "C01": [("conc", 1400000, 32000000)],
    "C02": [("conc", 1400000, 32000000)],
    "C03": [("conc", 1400000, 32000000)],
    "C04": [("conc", 1400000, 32000000)],
    "C05": [("conc", 1400000, 32000000)],
    "C06": [("conc", 1400000, 32000000)],
    "C07": [("conc", 1400000, 32000000)],
    "C08": [("conc", 2000000, 48000000)],
    "C09": [("conc", 1400000, 32000000)],
    "C10": [("conc", 2000000, 48000000)],
    "C11": [("conc", 1400000, 32000000)],
    "C12": [("conc", 1400000, 32000000)],
    "C13": [("conc", 2000000, 48000000)],
    "C15": [("conc", 2000000, 48000000)],
    "C16": [("conc", 1000000, 24000000), ("concrel", 1000000, 24000000)],
    "C17": [("conc", 500000, 12000000), ("concrel", 500000, 12000000), ("dev", 500000, 12000000), ("release", 500000, 12000000)],
    "C18": [("conc", 1400000, 32000000)],
    "C19": [("conc", 2000000, 48000000)],
}
# C17, concurrent programs: (quick, thorough) per instrumented build
PAIRS = {"C17": (260000, 8000000)}
LEVEL = {"C18": "fault_enumeration"}
CRASH = {signal.SIGILL, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGSEGV}
HANG_PROPS = {"C09", "C16", "C18", "C17c"}
ASSUME = [
    "atomics: weak behaviours are explored as stale reads within the C11 happens-before model (store histories); "
    "load buffering / out-of-thin-air executions are not generated",
    "the compiler's ThreadSanitizer pass reports every atomic operation and plain access of the crate",
]


class CheckError(Exception):
    pass


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


# ------------------------------------------------------------------ builds

def build(prof, tries=2):
    """builds from /repo's working tree (cargo tracks the sources by mtime; a tree hash guards against stale mtimes)"""
    os.makedirs(os.path.join(H, "target"), exist_ok=True)
    stamp = os.path.join(H, "target", f"stamp-{prof}")
    h = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        # force the crate itself to be recompiled
        for d in glob.glob(os.path.join(H, "target", "*", "*", ".fingerprint", "orx-concurrent-iter-*")):
            if os.path.join("inst" if prof.startswith("conc") else "plain", {"dev": "debug"}.get(prof, prof)) + os.sep in d:
                shutil.rmtree(d, ignore_errors=True)
    for k in range(tries):
        p = subprocess.run([os.path.join(H, "build.sh"), prof], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0:
            open(stamp, "w").write(h)
            return p.stdout.strip().splitlines()[-1]
    raise CheckError(f"build of profile {prof} failed:\n{p.stderr[-4000:]}")


def tree_hash():
    import hashlib
    m = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml"]:
        if os.path.isfile(f):
            m.update(f.encode()); m.update(open(f, "rb").read())
    return m.hexdigest()


def builds(profs):
    with cf.ThreadPoolExecutor(2) as ex:  # inst and plain use different target directories
        groups = {}
        for p in profs:
            groups.setdefault("inst" if p.startswith("conc") else "plain", []).append(p)
        fs = [ex.submit(lambda g: [(p, build(p)) for p in g], g) for g in groups.values()]
        return dict(x for f in fs for x in f.result())


# ------------------------------------------------------------------ findings

def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def replay_path(prop, name):
    d = os.path.join(V, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop}-{name}.json")


# ------------------------------------------------------------------ workers

class Work:
    def __init__(self, binp, prof, prop, sd, count, deep, tmp, secs, transcripts):
        self.__dict__.update(locals())

    def cmd(self, w, frm=0, count=None, tag=""):
        t = os.path.join(self.tmp, f"{self.prof}-{w}{tag}")
        c = [self.binp, "work", "--prop", self.prop, "--seed", str(self.sd), "--count", str(count or self.count),
             "--stride", str(NJ), "--offset", str(w), "--from", str(frm), "--deep", str(int(self.deep)),
             "--journal", t + ".j", "--out", t + ".o", "--hashes", t + ".h", "--max-viol", "2", "--secs", str(self.secs)]
        if self.transcripts:
            c += ["--transcripts", t + ".t"]
        return c, t

    def run(self, w, frm=0, count=None, tag=""):
        c, t = self.cmd(w, frm, count, tag)
        p = subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        j = None
        if os.path.exists(t + ".j"):
            b = open(t + ".j", "rb").read(8)
            j = int.from_bytes(b, "little") if len(b) == 8 else None
        o = json.load(open(t + ".o")) if p.returncode == 0 and os.path.exists(t + ".o") else None
        return p.returncode, j, o, t, p.stderr.decode(errors="replace")[-600:]


def is_crash(rc, prop):
    return rc < 0 and ((-rc) in CRASH or ((-rc) == signal.SIGVTALRM and prop in HANG_PROPS))


def crash_msg(rc):
    if -rc == signal.SIGVTALRM:
        return "a call does not return (one execution used 20 s of CPU time)"
    return f"the process is terminated by {signal.Signals(-rc).name} (abort or memory error inside the crate)"


def search(prop, plan, deep, secs, tmp, bins, ev):
    """runs all workers of all builds; returns violations [(kind, prof, data, msgs)]"""
    viols = []
    for prof, count in plan:
        wk = Work(bins[prof], prof, prop, seed(), count, deep, tmp, max(1, secs * NW // NJ), prop == "C17")
        with cf.ThreadPoolExecutor(NW) as ex:
            res = list(ex.map(wk.run, range(NJ)))
        for w, (rc, j, o, t, err) in enumerate(res):
            if o is not None:
                ev.add(prof, o, t)
                for f in o["found"]:
                    viols.append(("case", prof, f["case"], [x["msg"] for x in f["viols"]], dict(prop=prop, seed=seed(), stride=NJ, offset=w, frm=0, count=f["i"] + 1, deep=deep)))
                continue
            if rc < 0 and j is not None and is_crash(rc, prop):
                # attribute: that case alone, else the whole prefix of the worker
                rc2, *_ = wk.run(w, frm=j, count=j + 1, tag="r")
                if is_crash(rc2, prop):
                    viols.append(("range", prof, dict(prop=prop, seed=seed(), stride=NJ, offset=w, frm=j, count=j + 1, deep=deep), [crash_msg(rc2)]))
                    continue
                again = False
                for _ in range(3):
                    rc2, *_ = wk.run(w, count=j + 1, tag="r")
                    if is_crash(rc2, prop):
                        viols.append(("range", prof, dict(prop=prop, seed=seed(), stride=NJ, offset=w, frm=0, count=j + 1, deep=deep), [crash_msg(rc2) + " (after a sequence of cases)"]))
                        again = True
                        break
                if again:
                    continue
                raise CheckError(f"{prof} worker {w} died ({rc}) at case {j} and that does not reproduce")
            raise CheckError(f"{prof} worker {w}: exit {rc} at case {j}: {err}")
        if viols:
            break
    return viols


def shrink(binp, prop, case, crash):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(case, f)
    try:
        p = subprocess.run([binp, "shrink", f.name, "--prop", prop, "--budget", "3000", "--secs", "40", "--crash", str(int(crash))],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
        r = json.loads(p.stdout.decode().strip().splitlines()[-1])
        return (r["case"], r["msgs"]) if r.get("reproduced") else None
    except Exception:
        return None
    finally:
        os.unlink(f.name)


class Evidence:
    def __init__(self, prop):
        self.prop, self.evals, self.hashes, self.labels, self.samples, self.rule, self.cut = prop, 0, set(), {}, [], "", 0
        self.extra = {}
        self.per = {}

    def add(self, prof, o, t):
        import array
        self.evals += o["evaluations"]
        self.per[prof] = self.per.get(prof, 0) + o["evaluations"]
        a = array.array("Q")
        if os.path.exists(t + ".h"):
            a.frombytes(open(t + ".h", "rb").read())
        self.hashes.update(a)
        for k, v in o["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples += o["samples"][:2]
        self.rule = o["rule"]
        self.cut += bool(o.get("cut"))


def write_evidence(prop, cov, t0, nviol, level):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    e = dict(property=prop, tier=tier() if tier() in ("quick", "thorough") else "quick", seed=seed(), level=level,
             coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


# ------------------------------------------------------------------ C17: equal transcripts over the builds

def load_tr(t):
    import array
    a = array.array("Q")
    if os.path.exists(t + ".t"):
        a.frombytes(open(t + ".t", "rb").read())
    return dict(zip(a[0::2], a[1::2]))


def one(binp, case, prop):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(case, f)
    try:
        p = subprocess.run([binp, "one", f.name, "--prop", prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        out = p.stdout.decode(errors="replace").splitlines()
        return (p.returncode if p.returncode < 0 else 0), [l for l in out if l.startswith("  ")]
    finally:
        os.unlink(f.name)


def cross_differs(bins, profs, case):
    base = None
    for p in profs:
        r = one(bins[p], case, "C17")
        if base is None:
            base = (p, r)
        elif r != base[1]:
            a, b = base[1], r
            d = next(((x, y) for x, y in zip(a[1] + ["<end>"], b[1] + ["<end>"]) if x != y), (f"exit {a[0]}", f"exit {b[0]}"))
            return f"{base[0]}: {d[0].strip()} | {p}: {d[1].strip()}"
    return None


def cross_check(plan, bins, tmp):
    profs = [p for p, _ in plan]
    n, viols = 0, []
    for w in range(NJ):
        trs = {p: load_tr(os.path.join(tmp, f"{p}-{w}")) for p in profs}
        keys = set.intersection(*[set(x) for x in trs.values()])
        n += len(keys)
        for k in sorted(keys):
            if len({trs[p][k] for p in profs}) > 1:
                case = json.loads(subprocess.check_output([bins[profs[0]], "case", "--prop", "C17", "--seed", str(seed()), "--i", str(k), "--deep", str(int(tier() == "thorough"))]))
                msg = cross_differs(bins, profs, case)
                if msg is None:
                    # not alone: after the same cases in the same order?
                    r = dict(prop="C17", seed=seed(), stride=NJ, offset=w, frm=0, count=k + 1, deep=tier() == "thorough")
                    if cross_range_differs(bins, profs, r):
                        return n, [("cross_range", profs[0], r, [f"the builds behave differently in case {k} after the cases before it"])]
                    raise CheckError(f"transcripts of case {k} differ between builds but neither alone nor in a second run")
                viols.append((case, msg))
                break
        if viols:
            break
    if viols:
        case, msg = viols[0]
        case, msg = cross_shrink(bins, profs, case, msg)
        return n, [("cross", profs[0], case, [msg])]
    return n, []


def cross_range_differs(bins, profs, r):
    tmp = tempfile.mkdtemp(prefix="verif-range-")
    try:
        last = (r["count"] - 1)
        hs = []
        for p in profs:
            wk = Work(bins[p], p, r["prop"], r["seed"], r["count"], r["deep"], tmp, 10 ** 6, True)
            rc, _, _, t, _ = wk.run(r["offset"])
            hs.append((rc, load_tr(t).get(last)))
        return len(set(hs)) > 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cross_shrink(bins, profs, case, msg, budget=150):
    cur, t0 = case, time.time()
    changed = True
    while changed and budget > 0 and time.time() - t0 < 60:
        changed = False
        for key in ("tail", "head"):
            for i in range(len(cur[key]) - 1, -1, -1):
                c = dict(cur); c[key] = cur[key][:i] + cur[key][i + 1:]
                budget -= 1
                m = cross_differs(bins, profs, c)
                if m:
                    cur, msg, changed = c, m, True
                if budget <= 0:
                    break
    return cur, msg


# ------------------------------------------------------------------ C17: concurrent programs in both instrumented builds

def varies(binp, case, runs=400):
    """does any of `runs` schedules of the case misbehave (or crash) in this build?"""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(case, f)
    try:
        p = subprocess.run([binp, "vary", f.name, "--prop", "C17c", "--runs", str(runs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return p.returncode != 0
    finally:
        os.unlink(f.name)


def pair_check(count, bins, deep, secs, tmp, ev):
    """concurrent programs are nondeterministic, so what is compared is whether they can misbehave: a case that
    misbehaves in one build and, over many schedules, never in the other one, behaves differently in the two"""
    n, viols = 0, []
    for prof, other in (("conc", "concrel"), ("concrel", "conc")):
        found = search("C17c", [(prof, count)], deep, secs, tmp, bins, ev)
        for kind, _, data, msgs, *_ in found[:6]:
            n += 1
            if kind == "range":
                if data["count"] != data["frm"] + 1:
                    continue
                data = json.loads(subprocess.check_output([bins[prof], "case", "--prop", "C17c", "--seed", str(data["seed"]), "--i", str(data["frm"]), "--deep", str(int(deep))]))
            if not varies(bins[other], data):
                m = f"{msgs[0]} (in the {BUILD_NAME[prof]} build; {BUILD_NAME[other]}: not in 400 schedules of the same program)"
                viols.append(("pair", prof, data, [m]))
                break
    return n, viols


BUILD_NAME = {"conc": "debug", "concrel": "optimized"}


# ------------------------------------------------------------------ Miri: undefined behaviour, data races between real threads

# property -> (mode, programs quick, programs thorough, what counts)
MIRI = {
    "C07": ("conc", 1200, 60000, re.compile(r"Data race")),
    "C17": ("seq", 3200, 200000, re.compile(r"^(?!!)")),
    # functional programs: what the threads are delivered
    "C01": ("full", 800, 40000, re.compile(r"^!\S*C01\b")),
    "C02": ("full", 800, 40000, re.compile(r"^!\S*C02\b")),
    "C03": ("full", 800, 40000, re.compile(r"^!\S*C03\b")),
    "C04": ("full", 800, 40000, re.compile(r"^!\S*C04\b")),
    "C05": ("full", 800, 40000, re.compile(r"^!\S*C05\b")),
    "C06": ("skip", 800, 40000, re.compile(r"^!\S*C06\b")),
    "C08": ("own", 800, 40000, re.compile(r"^!\S*C08\b")),
    "C09": ("any", 800, 40000, re.compile(r"^!\S*C09\b")),
    "C10": ("full", 800, 40000, re.compile(r"^!\S*C10\b")),
    "C18": ("bomb", 800, 40000, re.compile(r"^!\S*C18\b")),
}

HANG_PROPS = "C09,C18"
# a program needs below 50 000 steps
MIRI_STEPS, MIRI_HANG = 400_000, 10
MIRI_DIR = os.path.join(H, "target", "miri")


def miri_cmd(args, mseed=0):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=MIRI_DIR,
               MIRIFLAGS=f"-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-seed={mseed} -Zmiri-preemption-rate=0.03 "
                         f"-Zmiri-report-progress={MIRI_STEPS}")
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    return dict(args=["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"] + [str(x) for x in args],
                cwd=os.path.join(H, "vmiri"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def miri_run(args, mseed, timeout):
    """(status, running program or None, programs begun, message)"""
    p = subprocess.Popen(**miri_cmd(args, mseed), start_new_session=True)
    kill = lambda: os.killpg(p.pid, signal.SIGKILL)
    cut = threading.Timer(timeout, kill)
    cut.start()
    at, n, reports, keep, st = None, 0, 0, [], None
    for raw in p.stdout:
        l = raw.decode(errors="replace").rstrip("\n")
        if re.match(r"@\d+$", l):
            at, n, reports = int(l[1:]), n + 1, 0
        elif l.startswith("note: progress report"):
            # counted in steps of the interpreter, whatever time they take
            reports += 1
            if reports == MIRI_HANG and args[0] != "gen":
                st = "hang"
                kill()
                break
        elif len(keep) < 4000:
            keep.append(l)
    p.stdout.read()
    p.wait()
    cut.cancel()
    err = "\n".join(keep)
    if st == "hang":
        return "ub", at, n, f"!{HANG_PROPS} a program of a few operations does not end within {MIRI_HANG * MIRI_STEPS} steps"
    m = re.search(r"^error: Undefined Behavior: (.*)", err, re.M)
    if m:
        w = re.search(r"-->\s*(\S+:\d+:\d+)", err[m.start():])
        return "ub", at, n, m.group(1) + (f" at {w.group(1)}" if w else "")
    m = re.search(r"^! (\S+) (.*)", err, re.M)
    if m and p.returncode == 7:
        return "ub", at, n, f"!{m.group(1)} {m.group(2)}"
    m = re.search(r"^error: (the evaluated program deadlocked|deadlock)(.*)", err, re.M)
    if m:
        return "ub", at, n, f"!{HANG_PROPS} {m.group(1)}{m.group(2)}"
    return ("ok" if p.returncode == 0 else "cut" if p.returncode == -9 else "failed"), None, n, err[-300:]


def miri_said(msg):
    return msg.split(" ", 1)[1] if msg.startswith("!") else f"undefined behaviour (Miri): {msg}"


def miri_touch():
    """cargo decides by mtime; the stamp guards against stale ones"""
    h, stamp = tree_hash(), os.path.join(H, "target", "stamp-miri")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for d in glob.glob(os.path.join(MIRI_DIR, "miri", "**", ".fingerprint", "orx-concurrent-iter-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(H, "target"), exist_ok=True)
        open(stamp, "w").write(h)


def miri_search(prop, ev, deep):
    mode, q, t, pat = MIRI[prop]
    count, limit = (t, 3000) if deep else (q, 150)
    info = dict(mode=mode, programs=0, workers_cut_by_time=0)
    ev.extra["interpreted_programs"] = info
    miri_touch()
    st, _, n, msg = miri_run(["gen", mode, seed(), 0], 0, 400)  # builds
    if st == "failed":
        # nothing to say without the interpreter; the other engines decide
        info["unavailable"] = msg
        return []
    def counts(msg):
        return pat.search(msg) and (prop != "C17" or "Data race" not in msg)
    def worker(w):
        t0, frm, total = time.time(), w, 0
        for _ in range(25):
            r = miri_run(["run", mode, seed(), frm, count, NW, prop], seed() * 64 + w, max(5, limit - (time.time() - t0)))
            total += r[2]
            if r[0] != "ub" or r[1] is None or counts(r[3]) or time.time() - t0 > limit:
                break
            # another property's matter: go on behind it
            frm = r[1] + NW
        return w, frm, (r[0], r[1], total, r[3])
    with cf.ThreadPoolExecutor(NW) as ex:
        res = list(ex.map(worker, range(NW)))
    viols = []
    for w, frm, (st, at, n, msg) in res:
        info["programs"] += n
        info["workers_cut_by_time"] += st == "cut"
        if st == "ub" and at is not None and counts(msg):
            viols.append(("miri", "miri", dict(mode=mode, seed=seed(), i=at, frm=frm, stride=NW, mseed=seed() * 64 + w), [miri_said(msg)]))
    if viols:
        return viols[:1]
    info["samples"] = [miri_text(mode, seed(), i) for i in range(3)]
    return []


def miri_text(mode, sd, i):
    p = subprocess.run(**miri_cmd(["gen", mode, sd, i]))
    return p.stdout.decode().strip().splitlines()[-1]


def miri_bad(prop, text, times, timeout=60):
    pat = MIRI[prop][3]
    st, _, _, msg = miri_run(["prog", text, times, prop], 7, timeout)
    return msg if st == "ub" and pat.search(msg) else None


def miri_shrink(prop, text, times):
    """drops operations, threads and length while the program still shows undefined behaviour"""
    t0, msg = time.time(), miri_bad(prop, text, times)
    if not msg:
        return None
    def cands(s):
        parts = [x.strip() for x in s.split(";")]
        head = parts[0].split()
        body, out = parts[1:-1], []
        if len(body) > 3:
            for i in range(1, len(body) - 1):
                out.append([parts[0]] + body[:i] + body[i + 1:] + parts[-1:])
        for i, b in enumerate(body):
            ops = b.split()
            for k in range(len(ops)):
                out.append([parts[0]] + body[:i] + [" ".join(ops[:k] + ops[k + 1:])] + body[i + 1:] + parts[-1:])
        if parts[-1] != "drop":
            out.append(parts[:-1] + ["drop"])
        n = int(head[2])
        for m in sorted({0, 1, 2, 3, 4, 5} & set(range(n))) if n < 14 else []:
            out.append([" ".join(head[:2] + [str(m)] + head[3:])] + parts[1:])
        return [" ; ".join(x) for x in out]
    while time.time() - t0 < 60:
        cs = cands(text)
        hit = None
        with cf.ThreadPoolExecutor(NW) as ex:
            for c, m in zip(cs, ex.map(lambda c: miri_bad(prop, c, times, 30), cs)):
                if m and hit is None:
                    hit = (c, m)
        if not hit:
            break
        text, msg = hit
    return text, msg


# ------------------------------------------------------------------ main

def check(prop):
    t0 = time.time()
    deep = tier() == "thorough"
    if prop == "C14":
        import c14.probes as probes
        return probes.check(sys.modules[__name__], t0)
    plan = [(p, t if deep else q) for p, q, t in PLAN[prop]]
    bins = builds([p for p, _ in plan])
    ev = Evidence(prop)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        secs = int(os.environ.get("VERIF_SECS", "5400" if deep else "420")) // len(plan)
        viols = search(prop, plan, deep, secs, tmp, bins, ev)
        if prop == "C17" and not viols:
            n, viols = cross_check(plan, bins, tmp)
            ev.extra["transcripts_compared"] = n
            ev.extra["builds"] = [p for p, _ in plan]
            if not viols:
                n, viols = pair_check(PAIRS[prop][deep], bins, deep, secs, tmp, ev)
                ev.extra["concurrent_candidates"] = n
        if prop in MIRI and not viols:
            viols = miri_search(prop, ev, deep)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(evaluations=ev.evals, distinct_nontrivial=len(ev.hashes), rule=RULE_PREFIX + ev.rule, samples=ev.samples[:6],
               labels=dict(sorted(ev.labels.items())), per_build=ev.per, workers_cut_by_time=ev.cut, **ev.extra)
    write_evidence(prop, cov, t0, len(viols), LEVEL.get(prop, "exploration"))
    if not viols:
        print(f"ok property={prop} evaluations={ev.evals} distinct_nontrivial={len(ev.hashes)} wall={time.time()-t0:.1f}s")
        return 0
    report(prop, viols, bins)
    return 1


RULE_PREFIX = ("cases are generated from (seed, property, index): source kind/length/element type/size-hint mode, one operation "
               "list per thread, ending, schedule, fault; non-trivial: ")


def report(prop, viols, bins):
    rec = None
    for v in viols:
        if v[0] == "case":
            # the first one that fails on its own
            s = shrink(bins[v[1]], prop, v[2], False)
            if s:
                rec = dict(property=prop, profile=v[1], case=s[0], msgs=s[1])
                break
    kind, prof, data, msgs, *rng = viols[0]
    if rec:
        pass
    elif kind == "case":
        # only after the cases before it (state that outlives a case)
        rec = dict(property=prop, profile=prof, range=rng[0], last_case=data, msgs=msgs)
    elif kind == "pair":
        s = shrink(bins[prof], "C17c", data, False)
        other = {"conc": "concrel", "concrel": "conc"}[prof]
        if s and not varies(bins[other], s[0]):
            data, msgs = s
        rec = dict(property=prop, profile=prof, pair=other, case=data, msgs=msgs)
    elif kind == "miri":
        times = 1 if data["mode"] == "seq" else 40
        text = miri_text(data["mode"], data["seed"], data["i"])
        s = miri_shrink(prop, text, times)
        if s:
            rec = dict(property=prop, profile="miri", program=s[0], times=times, msgs=[miri_said(s[1])])
        else:
            rec = dict(property=prop, profile="miri", miri_range=data, program=text, msgs=msgs)
    elif kind == "cross_range":
        rec = dict(property=prop, profile="cross", cross_range=data, msgs=msgs)
    elif kind == "cross":
        rec = dict(property=prop, profile="cross", case=data, msgs=msgs)
    else:
        rec = dict(property=prop, profile=prof, range=data, msgs=msgs)
        if data["count"] == data["frm"] + 1:
            c = json.loads(subprocess.check_output([bins[prof], "case", "--prop", prop, "--seed", str(data["seed"]), "--i", str(data["frm"]), "--deep", str(int(data["deep"]))]))
            s = shrink(bins[prof], prop, c, True)
            if s:
                rec = dict(property=prop, profile=prof, case=s[0], msgs=s[1])
            else:
                rec["generated_case"] = c
    path = replay_path(prop, "1")
    json.dump(rec, open(path, "w"), indent=1)
    for m in rec["msgs"][:4]:
        print("  " + m)
    print(f"VIOLATION property={prop} replay={path}")


def replay(path):
    rec = json.load(open(path))
    prop, prof = rec["property"], rec["profile"]
    if prop == "C14":
        import c14.probes as probes
        return probes.replay(rec)
    if prof == "miri":
        pat = MIRI[prop][3]
        miri_touch()
        if "miri_range" in rec:
            r = rec["miri_range"]
            st, _, _, m = miri_run(["run", r["mode"], r["seed"], r["frm"], r["i"] + 1, r["stride"], prop], r["mseed"], 1800)
            m = m if st == "ub" and pat.search(m) else None
        else:
            m = miri_bad(prop, rec["program"], rec["times"], 600)
        print(miri_said(m) if m else "no undefined behaviour, nothing unexpected delivered")
        return 1 if m else 0
    if prof == "cross":
        profs = [p for p, _, _ in PLAN[prop]]
        if "cross_range" in rec:
            return int(cross_range_differs(builds(profs), profs, rec["cross_range"]))
        m = cross_differs(builds(profs), profs, rec["case"])
        print(m or "no difference")
        return 1 if m else 0
    binp = build(prof)
    if "pair" in rec:
        p = subprocess.run([binp, "one", path, "--prop", "C17c"])
        other = varies(build(rec["pair"]), rec["case"])
        print("misbehaves in the other build:", other)
        return 1 if p.returncode != 0 and not other else 0
    if "case" in rec:
        p = subprocess.run([binp, "one", path, "--prop", prop])
        return 1 if p.returncode == 1 or is_crash(p.returncode, prop) else 0
    r = rec["range"]
    tmp = tempfile.mkdtemp()
    wk = Work(binp, prof, r["prop"], r["seed"], r["count"], r["deep"], tmp, 10 ** 6, False)
    rc, _, o, *_ = wk.run(r["offset"], frm=r["frm"])
    shutil.rmtree(tmp)
    bad = o["found"] if o else []
    print("exit", rc, *[x["msg"] for f in bad for x in f["viols"]][:4])
    return 1 if is_crash(rc, prop) or bad else 0


def main():
    try:
        a = sys.argv[1]
        if a == "setup":
            builds(["conc", "concrel", "dev", "release"])
            miri_touch()
            miri_run(["gen", "seq", 1, 0], 0, 600)
            print("setup ok")
            return 0
        if a == "replay":
            return replay(sys.argv[2])
        return check(a)
    except CheckError as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
