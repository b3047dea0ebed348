#!/usr/bin/env python3
"""check.py <property>: seeded search over simulated histories for violations of one property.
   check.py --replay FILE: runs one replay file again (exit 1 if it still shows the violation).
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_SCALE (multiplies the number of runs)."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import simbuild
from plans import CHECKS, NOTES
VERIF = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
CORES = os.cpu_count() or 4
ENV = dict(os.environ)
for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD"): ENV.pop(k, None)
NCHUNK = 400           # upper bound on runs per process; smaller for slow profiles

def log(*a): print(*a, flush=True)

OOM = threading.Lock()
def sim(exe, args, timeout, _retry=False):
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=ENV)
        if r.returncode == -9 and not _retry:       # ended from outside (memory ran out): once more, alone
            with OOM: return sim(exe, args, timeout, True)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "", "wall-clock timeout"

def crash_kind(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err) or re.search(r"runtime error: (.{0,80})", err)
    if m: return "memory error: " + m.group(1)
    if rc == 4: return "does not finish (CPU watchdog)"
    if rc == 124: return "does not finish (wall clock)"
    if "Assertion" in err: return "assertion failed"
    return "process ends with status %d" % rc

def crash_detail(err):
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", err)
    fr = [f for f in fr if f.startswith(("iscc_", "scc_"))][:4]
    m = re.search(r"runtime error: .{0,120}", err)
    return " in " + " < ".join(fr) if fr else (" " + m.group(0) if m else "")

def outcome(rc, out, err):
    """None, or (kind, message)"""
    for l in out.splitlines():
        if l.startswith("VIOL "):
            try: d = json.loads(l[5:])
            except ValueError: d = {"msg": l, "tags": ""}
            return ("viol", d["msg"], d)
    if rc != 0 and "AddressSanitizer: out of memory" in err: return None   # the simulator's own memory; the library's goes through the simulated machine
    if rc != 0: return ("crash", crash_kind(rc, err) + crash_detail(err), {})
    return None

def shape(msg):
    return re.sub(r"[-+]?\d[\d.e+-]*", "#", msg)[:60]

# ------------------------------------------------------------------ plans
def parse_plan(text):
    p = {"head": [], "data": [], "op": [], "fault": [], "preempt": []}
    for l in text.splitlines():
        if not l or l.startswith("#"): continue
        k = l.split(" ", 1)[0]
        if k in ("profile", "knob"): p["head"].append(l)
        elif k in ("data", "fault", "preempt"): p[k].append(l)
        else: p["op"].append(l)
    return p

def plan_text(p): return "\n".join(p["head"] + p["data"] + p["op"] + p["fault"] + p["preempt"]) + "\n"

class Replayer:
    def __init__(self, exe, prop, tmp): self.exe, self.prop, self.tmp, self.n, self.lock = exe, prop, tmp, 0, threading.Lock()
    def run(self, p, timeout=60):
        with self.lock: self.n += 1; fn = os.path.join(self.tmp, "r%d.plan" % self.n)
        open(fn, "w").write(plan_text(p) if isinstance(p, dict) else p)
        o = outcome(*sim(self.exe, ["replay", fn, "--check", self.prop], timeout))
        os.unlink(fn)
        return o

def minimise(rep, plan, ref, deadline):
    want = ref[0]
    def bad(p):
        o = rep.run(p)
        return o is not None and o[0] == want and (want == "crash" or shape(o[1].split("] ", 1)[-1]) == shape(ref[1].split("] ", 1)[-1]))
    pool = ThreadPoolExecutor(CORES)
    def ddmin(p, key):
        items = p[key]; n = 2
        q = dict(p); q[key] = []
        if items and bad(q): return q
        while len(items) >= 2 and time.time() < deadline:
            size = max(1, len(items) // n)
            cands = []
            for i in range(0, len(items), size):
                q = dict(p); q[key] = items[:i] + items[i + size:]; cands.append(q)
            res = list(pool.map(bad, cands))
            if any(res):
                p = cands[res.index(True)]; items = p[key]; n = max(n - 1, 2)
            elif size == 1: break
            else: n = min(len(items), n * 2)
        return p
    def attrs(p, key):
        i = 0
        while i < len(p[key]) and time.time() < deadline:
            w = p[key][i].split(" ")
            cands = []
            for j in range(1, len(w)):
                k, _, v = w[j].partition("=")
                if k in ("t", "id", "task", "op", "seed", "kind", "mode", "ps", "back"): continue
                try: v = int(v)
                except ValueError: continue
                alts = []
                if key in ("op", "head") and k not in ("s", "d"): alts.append(None)
                if key == "data" and k == "n": alts += [2, v // 2, v - v // 4, v - 1]
                elif v > 1 and key != "preempt": alts += [0, 1, v // 2, v - 1] if v < 10 ** 5 else [0, 1, 7]
                for a in alts:
                    if a == v or (a is not None and a < 0): continue
                    if k in ("sc", "n", "dim") and a is not None and a < (2 if k != "dim" else 1): continue
                    x = w[:j] + ([] if a is None else ["%s=%d" % (k, a)]) + w[j + 1:]
                    q = dict(p); q[key] = p[key][:i] + [" ".join(x)] + p[key][i + 1:]; cands.append(q)
            cands = cands[:40]
            res = list(pool.map(bad, cands)) if cands else []
            if any(res): p = cands[res.index(True)]; continue
            i += 1
        return p
    last = None
    while time.time() < deadline and last != plan_text(plan):
        last = plan_text(plan)
        for k in ("preempt", "fault", "op", "data"):
            if k == "data" and len(plan["data"]) > 1:
                # dropping data sets renumbers them; the simulator takes indices modulo their number
                for i in range(len(plan["data"])):
                    q = dict(plan); q["data"] = plan["data"][:i] + plan["data"][i + 1:]
                    if q["data"] and bad(q): plan = q; break
            elif k != "data": plan = ddmin(plan, k)
        for k in ("data", "op", "head", "fault"): plan = attrs(plan, k)
    pool.shutdown()
    return plan

# ------------------------------------------------------------------ search
class Search:
    def __init__(self, prop, exes, tmp, parts, tier, deadline):
        self.prop, self.exes, self.tmp, self.tier = prop, exes, tmp, tier
        self.found = None; self.lock = threading.Lock(); self.stats = {}; self.parts = parts; self.errors = []
        self.sets = {"t": set(), "s": set(), "q": set()}; self.cpu = 0.0; self.deadline = deadline; self.skipped = 0; self.per = {}
        self.chunk_hash = {}
    def chunks(self):
        per = []
        for (fl, prof, n) in self.parts:
            slow = 6 if prof.startswith("LINE") else {"HUGE": 8, "BIG": 6, "VAST": 1, "HIER": 200}.get(prof, NCHUNK)
            n = max(1, int(n * SCALE)); size = max(1, min(slow, -(-n // CORES)))
            per.append([(fl, prof, s, min(size, n - s)) for s in range(0, n, size)])
        out = []
        while any(per):                       # round robin, so that every part is reached early
            for l in per:
                if l: out.append(l.pop(0))
        return out
    def one(self, c):
        if self.found or time.time() > self.deadline: 
            with self.lock: self.skipped += c[3]
            return
        fl, prof, start, cnt = c
        base = os.path.join(self.tmp, "%s_%s_%d" % (fl, prof, start))
        args = ["--profile", prof, "--check", self.prop, "--seed0", str(SEED), "--progress", base + ".pg", "--planout", base + ".plan", "--hashes", base]
        t0 = time.time()
        rc, out, err = sim(self.exes[fl], ["run", "--start", str(start), "--count", str(cnt)] + args, 600)
        dt = time.time() - t0
        o = outcome(rc, out, err)
        idx = None
        try:
            pos, done = struct.unpack("QQ", open(base + ".pg", "rb").read(16)); idx = pos
        except (OSError, struct.error): done = 0
        st = None
        for l in out.splitlines():
            if l.startswith("STATS "): st = json.loads(l[6:])
        with self.lock:
            self.cpu += dt
            key = fl + "/" + prof
            d = self.per.setdefault(key, {"runs": 0, "seconds": 0.0}); d["seconds"] += dt
            d["runs"] += st["runs"] if st else done
            if st:
                self.chunk_hash[c] = st["hash"]
                for k, v in st.items():
                    if isinstance(v, int): self.stats[k] = self.stats.get(k, 0) + v
                    elif isinstance(v, dict):
                        t = self.stats.setdefault(k, {})
                        for a, b in v.items(): t[a] = t.get(a, 0) + b
                for x in "tsq":
                    try:
                        b = open(base + "." + x, "rb").read()
                        if len(self.sets[x]) < 6000000: self.sets[x].update(struct.unpack("%dQ" % (len(b) // 8), b))
                    except OSError: pass
            else:
                self.stats["runs"] = self.stats.get("runs", 0) + done
            if o and not self.found: self.found = (c, idx, o, base + ".plan")
        for x in (".t", ".s", ".q", ".pg"):
            try: os.unlink(base + x)
            except OSError: pass

def merge_name(prop): return os.path.join(VERIF, "replays", prop)

def write_replay(prop, fl, text, msg, extra):
    d = merge_name(prop); os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.plan" % (TIER, n))): n += 1
    fn = os.path.join(d, "%s-%d.plan" % (TIER, n))
    with open(fn, "w") as f:
        f.write("# property %s\n# flavour %s\n# %s\n# %s\n" % (prop, fl, extra, msg.replace("\n", " ")))
        f.write(text)
    return fn

def replay_meta(fn):
    m = {"property": "", "flavour": "default"}
    for l in open(fn):
        w = l.split()
        if len(w) >= 3 and w[0] == "#" and w[1] in ("property", "flavour", "batch"): m[w[1]] = " ".join(w[2:])
    return m

def do_replay(fn):
    m = replay_meta(fn)
    exe = simbuild.build(m["flavour"])
    if "batch" in m:
        prof, seed, start, cnt = m["batch"].split()
        o = outcome(*sim(exe, ["run", "--profile", prof, "--seed0", seed, "--start", start, "--count", cnt, "--check", m["property"]], 900))
    else:
        o = outcome(*sim(exe, ["replay", fn, "--check", m["property"]], 300))
    if o:
        log("reproduced: " + o[1]); log("VIOLATION property=%s replay=%s" % (m["property"], fn)); return 1
    log("not reproduced"); return 0

def load_known():
    k = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) history=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m: k.append(m.groups())
    except OSError: pass
    return k

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": return do_replay(sys.argv[2])
    prop = sys.argv[1]
    spec = CHECKS[prop]
    t0 = time.time()
    parts = spec[TIER] if TIER in spec else spec["quick"]
    only = os.environ.get("VERIF_ONLY")          # development aid: FLAVOUR/PROFILE
    if only: parts = [p for p in parts if p[0] + "/" + p[1] == only] or [tuple(only.split("/")) + (8000,)]
    flavours = sorted({p[0] for p in parts})
    # fixed histories that once showed a defect
    corpus = []
    cdir = os.path.join(VERIF, "regressions")
    for f in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
        if not f.endswith(".plan"): continue
        m = replay_meta(os.path.join(cdir, f))
        if prop in m["property"].split(","): corpus.append((m["flavour"], os.path.join(cdir, f)))
    known = [k for k in load_known() if k[0] == prop]
    flavours = sorted(set(flavours) | {c[0] for c in corpus} | {replay_meta(os.path.join(VERIF, k[1]))["flavour"] for k in known})
    try:
        exes = simbuild.build_many(flavours)
    except Exception as e:
        log("cannot build the simulator from /repo: %s" % e); return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="scc_", dir=os.path.join(simbuild.BUILD))
    try:
        return search(prop, parts, corpus, known, exes, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def search(prop, parts, corpus, known, exes, tmp, t0, tb):
    budget = 600 if TIER == "quick" else 6 * 3600
    S = Search(prop, exes, tmp, parts, TIER, t0 + budget)
    # recorded defects: each is one committed history; it is replayed, and only its own failure is excused
    def known_run(k):
        fn = os.path.join(VERIF, k[1])
        return k, outcome(*sim(exes[replay_meta(fn)["flavour"]], ["replay", fn, "--check", prop], 120))
    with ThreadPoolExecutor(CORES) as ex: kres = list(ex.map(known_run, known))
    for k, o in kres:
        fn = os.path.join(VERIF, k[1])
        if o and o[0] == "viol" and k[2] in o[1]: log("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
        elif o: S.found = ((replay_meta(fn)["flavour"], "corpus", 0, 1), 0, o, fn)
    viol = 0; rc = 0
    def corp(c):
        return c, outcome(*sim(exes[c[0]], ["replay", c[1], "--check", prop], 120))
    with ThreadPoolExecutor(CORES) as ex: cres = list(ex.map(corp, corpus))
    for c, o in cres:
        if o and not S.found:
            S.found = ((c[0], "corpus", 0, 1), 0, o, c[1])
    ch = S.chunks()
    gate = None
    if not S.found:
        with ThreadPoolExecutor(CORES) as ex: list(ex.map(S.one, ch))
    det = "not checked"
    if not S.found:
        # the same seeds must give the same executions: one chunk of every part is run again
        seen = {}
        for c in ch:
            if c in S.chunk_hash and (c[0], c[1]) not in seen: seen[(c[0], c[1])] = c
        def again(c):
            n = min(c[3], 40)
            r = []
            for i in range(2):
                x = sim(exes[c[0]], ["run", "--start", str(c[2]), "--count", str(n), "--profile", c[1], "--check", prop, "--seed0", str(SEED)], 600)
                m = re.search(r'"hash":"(\w+)"', x[1]); r.append(m.group(1) if m else outcome(*x) or "none")
            return c, r
        with ThreadPoolExecutor(CORES) as ex: rr = list(ex.map(again, seen.values()))
        diff = [c for c, r in rr if r[0] != r[1]]
        det = "%d chunks run twice, %d differ" % (len(rr), len(diff))
        if diff and prop in ("C07", "C10"):
            c = diff[0]
            fn = write_replay(prop, c[0], "", "two executions of the same seeds differ", "batch %s %d %d %d" % (c[1], SEED, c[2], min(c[3], 40)))
            log("the same simulated executions give different results when run twice: results depend on memory contents or addresses")
            log("VIOLATION property=%s replay=%s" % (prop, fn)); viol = 1; rc = 1
    if S.found:
        c, idx, o, planf = S.found
        fl = c[0]
        rep = Replayer(exes[fl], prop, tmp)
        text = None
        if c[1] == "corpus":
            text = "".join(l for l in open(planf) if not l.startswith("#"))
        else:
            if o[0] != "viol" or not os.path.exists(planf):
                sim(exes[fl], ["gen", "--profile", c[1], "--seed0", str(SEED), "--start", str(idx), "--check", prop, "--planout", planf], 300)
            try: text = open(planf).read()
            except OSError: text = None
        o2 = rep.run(text) if text else None
        if o2 is None:
            # only visible with the preceding runs in the same process (depends on recycled memory)
            fn = write_replay(prop, fl, "", o[1], "batch %s %d %d %d" % (c[1], SEED, c[2], (idx or c[2]) - c[2] + 1))
            msg = o[1]
        else:
            limit = 45 if TIER == "quick" else 300
            p = minimise(rep, parse_plan(text), o2, time.time() + limit)
            o3 = rep.run(p) or o2
            msg = o3[1]
            fn = write_replay(prop, fl, plan_text(p), msg, "found by profile %s seed %d run %s" % (c[1], SEED, idx))
        log("violation (flavour %s, profile %s, run %s): %s" % (fl, c[1], idx, msg))
        log("replay: python3 check.py --replay %s" % fn)
        log("VIOLATION property=%s replay=%s" % (prop, fn)); viol = 1; rc = 1
    wall = time.time() - t0
    st = S.stats; runs = st.get("runs", 0)
    samples = sample_plans(parts, exes, tmp, prop)
    searched = max(0.001, wall - tb)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration", "wall_s": round(wall, 2), "violations": viol,
          "coverage": {"evaluations": runs, "distinct_nontrivial": len(S.sets["t"]),
            "rule": "One evaluation is one simulated run: a seeded history of client operations on seeded data, executed against the real library with seeded faults and preemptions. "
                    "Distinct and non-trivial: the run reached at least one allocator or backend seam under the simulator's control, and its trace (operations, order of seam events, injected faults, task switches, results) differs from every other run's.",
            "samples": samples, "runs_per_hour": int(runs / searched * 3600), "seeds_per_hour": int(runs / searched * 3600),
            "simulated_time_ticks": st.get("ticks", 0), "simulated_time_note": "the library reads no clock; simulated time is the number of allocator and backend events scheduled",
            "operations": st.get("ops", 0), "call_attempts": st.get("attempts", 0), "undisturbed_reference_calls": st.get("refruns", 0), "oracle_evaluations": st.get("oracles", 0),
            "faults_injected_by_kind": st.get("fired", {}), "faults_injected_by_mode": st.get("fmodes", {}), "allocations_refused_by_machine_size": st.get("natural_oom", 0), "allocations_at_an_address_just_freed": st.get("reused", 0), "calls_succeeding_despite_faults": st.get("survived", 0),
            "task_switches": st.get("switches", 0), "distinct_interleavings": len(S.sets["s"]), "interleaving_measure": "sequence of (task, operation, seam number, next task) at every preemption, hashed",
            "distinct_call_outcomes": len(S.sets["q"]), "outcomes": st.get("outcomes", {}), "features": st.get("features", {}),
            "runs_abandoned_for_other_property": st.get("foreign", 0), "runs_skipped_by_deadline": S.skipped, "regression_histories_replayed": len(corpus),
            "parts": {k: {"runs": v["runs"], "cpu_seconds": round(v["seconds"], 1)} for k, v in S.per.items()}, "determinism": det,
            "real_code": "all of src/*.c compiled from /repo's working tree (plus examples/ann/ann_wrapper.cpp and libann in the ann flavours), " + ", ".join(sorted({p[0] for p in parts})) + " builds",
            "stubs": "malloc/calloc/realloc/free/new/delete (simulated heap), qsort (same contract, seeded order of equal elements), distance backend in part of the runs (opaque simulated backend, or checking proxy around the shipped one)"},
          "assumptions": ["libc memcpy/memset/snprintf/log2/sqrt and the compiler are trusted", "preemption happens at allocator, backend and call boundaries", NOTES.get(prop, "")]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(fn + ".tmp", "w"), indent=1); os.rename(fn + ".tmp", fn)
    if rc == 0: log("%s: held on %d simulated runs (%d distinct), %d faults injected, %d interleavings, %.0f s" % (prop, runs, len(S.sets["t"]), sum(st.get("fired", {}).values()), len(S.sets["s"]), wall))
    return rc

def sample_plans(parts, exes, tmp, prop):
    out = []
    for (fl, prof, n) in parts[:3]:
        fn = os.path.join(tmp, "sample.plan")
        sim(exes[fl], ["gen", "--profile", prof, "--seed0", str(SEED), "--start", "0", "--check", "none", "--planout", fn], 120)
        try: out.append({"flavour": fl, "profile": prof, "plan": open(fn).read().splitlines()[:60]})
        except OSError: pass
    return out

if __name__ == "__main__": sys.exit(main())
