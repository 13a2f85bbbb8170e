#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py C05                 search (tier from VERIF_TIER or --tier), exit 0 / 1 / 2
  check.py --replay FILE       rebuild and re-execute one replay file, verbosely
  check.py --build-all         compile every scenario (used by setup)
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
OUT = BUILD if "SIM_REPO" in os.environ else VERIF      # trial runs on scratch copies leave the evidence of /repo alone
REPLAYS = os.path.join(OUT, "replays")
NCPU = max(2, os.cpu_count() or 2)
WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import PROPS, DEFAULT

def cpu_native():
    try: fl = open("/proc/cpuinfo").read()
    except OSError: return []
    m = re.search(r"^flags\s*:\s*(.*)$", fl, re.M); fs = set(m.group(1).split()) if m else set()
    need = {"popcnt": "-mpopcnt", "bmi1": "-mbmi", "bmi2": "-mbmi2", "avx2": "-mavx2"}
    if not all(k in fs for k in need): return []
    return list(need.values()) + (["-mlzcnt"] if "abm" in fs or "lzcnt" in fs else [])

COMMON = ["-std=c++17", "-w", "-g0", "-DNDEBUG", "-ftrivial-auto-var-init=pattern", "-I" + os.path.join(VERIF, "sim/core")]
FLAVOURS = {
    # portable code paths, memory-checked; every load, store and basic block is a scheduling point
    "asan": dict(cxx="clang++", flags=["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
                 core=["-DSIM_ASAN"], link=["-fsanitize=address"]),
    # optimised build with native instructions; own scheduler behind the compiler's access hooks
    "native": dict(cxx="g++", flags=["-O2", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-Wno-tsan"], native=True, core=[], link=[]),
    # optimised build, portable code paths
    "plain": dict(cxx="g++", flags=["-O2", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-Wno-tsan"], core=[], link=[]),
    # optimised build for processors with a population count and nothing newer
    "popcnt": dict(cxx="g++", flags=["-O2", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-Wno-tsan"], only=["-mpopcnt"], core=[], link=[]),
}

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_core(fl):
    """The uninstrumented simulator core; keyed by content so that it is compiled once per /verif state."""
    f = FLAVOURS[fl]; src = [os.path.join(VERIF, "sim/core", n) for n in ("sim.cpp", "sim.hpp")]
    kind = "asan" if "-DSIM_ASAN" in f["core"] else "plain"
    h = hashlib.sha256(b"".join(open(x, "rb").read() for x in src)).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True); out = os.path.join(BUILD, "core-%s-%s.o" % (kind, h))
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = sh([f["cxx"], "-std=c++17", "-O2", "-w"] + f["core"] + ["-c", src[0], "-o", tmp])
        if r.returncode: raise RuntimeError("core: " + r.stdout[-3000:])
        os.replace(tmp, out)
    return out

def build(prop, fl):
    """Compiles the scenario against /repo's current tree. Returns (binary or None, message)."""
    f = FLAVOURS[fl]; d = os.path.join(BUILD, prop); os.makedirs(d, exist_ok=True)
    obj, exe = os.path.join(d, fl + ".o"), os.path.join(d, fl)
    for x in (obj, exe):
        if os.path.exists(x): os.remove(x)
    arch = cpu_native() if f.get("native") else [x for x in f.get("only", []) if x in cpu_native()]
    cmd = [f["cxx"]] + COMMON + f["flags"] + arch + ["-I" + os.path.join(REPO, "include"), "-c", os.path.join(VERIF, "sim/props", prop + ".cpp"), "-o", obj]
    core = {}
    t = threading.Thread(target=lambda: core.update(o=_try(build_core, fl))); t.start()
    r = sh(cmd); note = ""
    if r.returncode and arch:
        note = "native instructions did not compile, portable build used"; cmd = [c for c in cmd if c not in arch]; r = sh(cmd)
    t.join()
    if isinstance(core["o"], Exception): return None, str(core["o"])
    if r.returncode: return None, r.stdout[-4000:]
    r = sh([f["cxx"]] + f["link"] + [WRAP, obj, core["o"], "-o", exe, "-lpthread", "-ldl"])
    if r.returncode: return None, r.stdout[-4000:]
    return exe, note or ("native: " + " ".join(arch) if arch else "")

def _try(f, *a):
    try: return f(*a)
    except Exception as e: return e

def build_many(pairs, jobs=NCPU):
    res, it, lock = {}, iter(pairs), threading.Lock()
    def work():
        while True:
            with lock: x = next(it, None)
            if x is None: return
            r = _try(build, *x)
            res[x] = r if not isinstance(r, Exception) else (None, str(r))
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res

# ------------------------------------------------------------------ plans
def parse_plan(t):
    p = dict(head=[], cfg=[], ops=[], faults=[], sw=[], sched=None)
    for l in t.splitlines():
        if not l or l[0] == "#": continue
        k = l.split(" ", 1)[0]
        if k == "op": p["ops"].append(l.split())
        elif k == "fault": p["faults"].append(l.split())
        elif k == "sw": p["sw"].append(l.split())
        elif k == "cfg": p["cfg"].append(l.split())
        elif k == "sched": p["sched"] = l
        else: p["head"].append(l)
    return p

def plan_text(p):
    ls = p["head"] + [" ".join(x) for x in p["cfg"]] + [p["sched"]] + [" ".join(x) for x in p["ops"]] + [" ".join(x) for x in p["faults"]] + [" ".join(x) for x in p["sw"]]
    return "\n".join(ls) + "\n"

def klass(r):
    if r.get("status") != 2: return None
    c = r["cls"]
    if c in ("memory", "crash", "no-progress", "deadlock"): return c
    return c + ":" + re.sub(r"[\d]+", "", re.split(r"[\[:(]", r["msg"])[0]).strip()

class Pool:
    """execmany workers: many plans executed in parallel, one process each."""
    def __init__(self, exe, n, d):
        self.d = d; os.makedirs(d, exist_ok=True); self.n = n
        self.ps = [subprocess.Popen([exe, "execmany"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for _ in range(n)]
    def run(self, texts):
        res = [None] * len(texts)
        def work(w):
            for i in range(w, len(texts), self.n):
                f = os.path.join(self.d, "m%d.plan" % w)
                with open(f, "w") as h: h.write(texts[i])
                try:
                    self.ps[w].stdin.write(f + "\n"); self.ps[w].stdin.flush(); res[i] = json.loads(self.ps[w].stdout.readline())
                except Exception: res[i] = dict(status=9)
        ts = [threading.Thread(target=work, args=(w,)) for w in range(self.n)]
        [t.start() for t in ts]; [t.join() for t in ts]
        return res
    def close(self):
        for p in self.ps:
            try: p.stdin.close(); p.wait(5)
            except Exception: p.kill()

def minimise(exe, text, want, seconds, d):
    """Greedy delta debugging over operations, faults, context switches and numeric arguments."""
    pool = Pool(exe, NCPU, d); t0 = time.time(); tried = 0
    best = parse_plan(text)
    def attempt(cands):
        nonlocal best, tried
        for i in range(0, len(cands), NCPU):
            if time.time() - t0 > seconds: return False
            chunk = cands[i:i + NCPU]; rs = pool.run([plan_text(c) for c in chunk]); tried += len(chunk)
            for c, r in zip(chunk, rs):
                if klass(r) == want: best = c; return True
        return False
    def drop(key):
        changed = False; n = max(1, len(best[key]) // 2)
        while n >= 1 and best[key] and time.time() - t0 < seconds:
            ls = best[key]; cands = []
            for i in range(0, len(ls), n):
                c = dict(best); c[key] = ls[:i] + ls[i + n:]
                if key == "ops":
                    ids = {o[1] for o in c["ops"]}
                    c["faults"] = [f for f in c["faults"] if f[1] in ids]; c["sw"] = [s for s in c["sw"] if s[1] in ids]
                cands.append(c)
            if attempt(cands): changed = True
            else: n //= 2
        return changed
    def shrink_args():
        changed = False
        for key, lo in (("ops", 4), ("faults", 3), ("cfg", 2)):
            for i in range(len(best[key])):
                for j in range(lo, len(best[key][i])):
                    while time.time() - t0 < seconds:
                        try: v = int(best[key][i][j])
                        except ValueError: break
                        cs = [x for x in dict.fromkeys([0, 1, v // 2, v - v // 4, v - 1]) if abs(x) < abs(v)]
                        cands = []
                        for x in cs:
                            c = dict(best); c[key] = list(best[key]); l = list(best[key][i]); l[j] = str(x); c[key][i] = l; cands.append(c)
                        if not cands or not attempt(cands): break
                        changed = True
        return changed
    while time.time() - t0 < seconds:
        a = drop("ops"); b = drop("sw"); c = drop("faults"); e = shrink_args()
        if not (a or b or c or e): break
    pool.close()
    return plan_text(best), tried, round(time.time() - t0, 1)

def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop]

def is_known(found, kf):
    return any(k["cls"] == found["cls"] and re.search(k["match"], found["msg"]) for k in kf)

# ------------------------------------------------------------------ one check
def read_hashes(f):
    b = open(f, "rb").read(); n = len(b) // 32
    return [struct.unpack_from("<4Q", b, i * 32) for i in range(n)]

def run_check(prop, tier, seed):
    t0 = time.time(); cfg = dict(DEFAULT); cfg.update(PROPS[prop]); cfg.update(cfg.get(tier, {}))
    thorough = tier == "thorough"
    print("check %s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    flavours = cfg["flavours"]; bins, notes = {}, {}
    for (p, fl), (exe, note) in build_many([(prop, fl) for fl in flavours]).items():
        if exe: bins[fl] = exe
        if note: notes[fl] = note if exe else "not built: " + note[-300:]
        if not exe: print("flavour %s did not build:\n%s" % (fl, note[-3000:]))
    if not bins: print("ERROR: no flavour of %s builds against %s" % (prop, REPO)); return 2
    build_s = time.time() - t0
    d = os.path.join(BUILD, prop, "run"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    base0 = int.from_bytes(hashlib.sha256(("%d/%s/%s" % (seed, prop, tier)).encode()).digest()[:4], "big") << 26
    base = {fl: base0 + (list(FLAVOURS).index(fl) << 23) for fl in bins}    # every flavour explores seeds of its own
    kf = known_findings(prop); counts, wall = cfg["runs"], cfg["wall"]
    # workers: split the cores over the flavours
    W = {fl: max(1, NCPU // len(bins) + (i < NCPU % len(bins))) for i, fl in enumerate(bins)}
    procs, found, summ, lock = [], [], {}, threading.Lock()
    def reader(fl, w, p):
        for line in p.stdout:
            if line.startswith("FOUND "):
                _, s, st, cls, h, msg = (line.rstrip("\n").split(" ", 5) + [""])[:6]
                with lock: found.append(dict(seed=int(s), status=int(st), cls=cls, hash=h, msg=msg, fl=fl))
            elif line.startswith("SUMMARY "): summ[(fl, w)] = json.loads(line[8:])
        p.wait()
    ts = []
    for fl, exe in bins.items():
        n = counts.get(fl, counts.get("*", 1000))
        for w in range(W[fl]):
            hf = os.path.join(d, "%s.%d.hash" % (fl, w))
            p = subprocess.Popen([exe, "batch", str(base[fl]), str(w), str(W[fl]), str(n), str(wall), "1" if thorough else "0", hf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            t = threading.Thread(target=reader, args=(fl, w, p)); t.start(); ts.append(t); procs.append((fl, w, p, hf))
    grace = None
    while any(t.is_alive() for t in ts):
        time.sleep(0.1)
        with lock: bad = [f for f in found if f["status"] == 2 and not is_known(f, kf)]
        if bad and grace is None: grace = time.time() + 2
        if grace and time.time() > grace:
            for _, _, p, _ in procs:
                if p.poll() is None: p.kill()
            break
    [t.join() for t in ts]
    run_s = time.time() - t0 - build_s
    for f in found: f["known"] = f["status"] == 2 and is_known(f, kf)
    viol = sorted([f for f in found if f["status"] == 2 and not f["known"]], key=lambda f: (f["seed"], f["fl"]))
    internal = [f for f in found if f["status"] == 3]
    # ---- aggregate
    agg = dict(runs=0, nontrivial=0, steps=0, switches=0, preempts=0, allocs=0, faults=0, ops=0); probes, fks, opc = {}, {}, {}
    per = {}
    for (fl, w), s in summ.items():
        for k in agg: agg[k] += s[k]
        for a, b in ((probes, s["probes"]), (fks, s["fault_kinds"]), (opc, s["op_counts"])):
            for k, v in b.items(): a[k] = a.get(k, 0) + v
        per.setdefault(fl, dict(runs=0, steps=0)); per[fl]["runs"] += s["runs"]; per[fl]["steps"] += s["steps"]
    hist, sched, nontriv, table = set(), set(), set(), {}
    for fl, w, p, hf in procs:
        if os.path.exists(hf):
            for s, h, sc, nt in read_hashes(hf):
                hist.add(h); table[(fl, s)] = h
                if sc: sched.add(sc)
                if nt: nontriv.add(h)
    # ---- determinism: a sample of the seeds again, in other processes and another worker layout
    det = dict(rechecked=0, diverged=0)
    if not viol and not internal:
        for fl, exe in bins.items():
            n = counts.get(fl, counts.get("*", 1000)); m = cfg["recheck"]; stride = max(1, n // m)
            ps = []
            for w in range(3):
                hf = os.path.join(d, "re.%s.%d.hash" % (fl, w))
                ps.append((subprocess.Popen([exe, "batch", str(base[fl]), str(w * stride), str(3 * stride), str(n), str(wall), "1" if thorough else "0", hf], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), hf))
            for p, hf in ps:
                p.wait()
                for s, h, _, _ in read_hashes(hf):
                    if (fl, s) in table:
                        det["rechecked"] += 1
                        if table[(fl, s)] != h: det["diverged"] += 1; print("DIVERGED flavour=%s seed=%d" % (fl, s))
    rc, vinfo = 0, None
    if viol:
        rc, vinfo = report(prop, tier, viol, bins, d, cfg)
    elif internal:
        for f in internal[:3]: print("ERROR: seed %d: %s" % (f["seed"], f["msg"]))
        rc = 2
    elif det["diverged"]: print("ERROR: runs are not repeatable"); rc = 2
    elif agg["runs"] == 0: print("ERROR: nothing ran"); rc = 2
    missing = [x for x in cfg.get("must_probe", []) if not probes.get(x) and not fks.get(x)]
    if rc == 0:
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # ---- evidence
    samples = []
    fl0, exe0 = list(bins.items())[0]
    for i in (0, 1): samples.append(sh([exe0, "gen", str(base[fl0] + i), "1" if thorough else "0"]).stdout[:3000])
    wall_s = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall_s, 2), violations=len(viol),
        coverage=dict(evaluations=agg["runs"], distinct_nontrivial=len(nontriv),
            rule="One case = one simulated run: a seed generates operations, their tasks, the fault plan and the schedule. Non-trivial: at least one injected fault fired, or one context switch happened inside an operation, or prior memory contents were chosen (stale memory); distinct by the hash of the complete event history (operations, results, step counts, switches).",
            samples=samples, distinct_histories=len(hist), distinct_interleavings=len(sched), runs_by_flavour=per,
            runs_per_hour=int(agg["runs"] / max(run_s, .001) * 3600), seeds_per_hour=int(len({s for _, s in table}) / max(run_s, .001) * 3600),
            simulated_steps=agg["steps"], simulated_time_s=round(agg["steps"] / 1e6, 3), simulated_time_rule="one instrumented memory access or basic block = one step = 1 microsecond of simulated time",
            operations=agg["ops"], allocations_seen=agg["allocs"], faults_fired=agg["faults"], fault_kinds=fks, context_switches=agg["switches"], preemptions_inside_operations=agg["preempts"],
            operation_counts=opc, probes=probes, probes_never_hit=missing, determinism=det, build_notes=notes, build_s=round(build_s, 1), search_s=round(run_s, 1), base_seeds=base,
            components_real=cfg["real"], components_simulated=cfg["stub"]),
        assumptions=["sequentially consistent interleavings at the granularity of instrumented accesses", "sampled, not exhaustive: a clean batch is evidence, not proof"] + cfg.get("assume", []))
    if vinfo: ev["coverage"]["violation"] = vinfo
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d runs (%s), %d distinct non-trivial histories, %d interleavings, %d faults, %d preemptions, %.1fs build + %.1fs search%s" % (prop, agg["runs"],
        ", ".join("%s %d" % (k, v["runs"]) for k, v in per.items()), len(nontriv), len(sched), agg["faults"], agg["preempts"], build_s, run_s, (", never hit: " + " ".join(missing)) if missing else ""), flush=True)
    return rc

def report(prop, tier, viol, bins, d, cfg):
    """Gate (same seed twice, fresh-process replay), minimise, write the replay file."""
    errs = []
    tn = "1" if tier == "thorough" else "0"
    for f in viol[:6]:
        exe = bins[f["fl"]]
        a, b = os.path.join(d, "a.plan"), os.path.join(d, "b.plan")
        r1 = json.loads(sh([exe, "explicit", str(f["seed"]), tn, a]).stdout.splitlines()[-1])
        r2 = json.loads(sh([exe, "explicit", str(f["seed"]), tn, b]).stdout.splitlines()[-1])
        if r1["status"] != 2 or r1["hash"] != r2["hash"] or open(a).read() != open(b).read(): errs.append("seed %d does not repeat" % f["seed"]); continue
        want = klass(r1); text = open(a).read()
        r3 = json.loads(sh([exe, "exec", a]).stdout.splitlines()[-1])
        if klass(r3) != want: errs.append("seed %d: explicit schedule does not reproduce (%s / %s)" % (f["seed"], want, klass(r3))); continue
        small, tried, secs = minimise(exe, text, want, cfg["minimise"], os.path.join(d, "min"))
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d-%s.plan" % (prop, f["seed"], f["fl"]))
        with open(path, "w") as h: h.write(small)
        fr = [json.loads(sh([exe, "exec", path]).stdout.splitlines()[-1]) for _ in range(2)]
        if klass(fr[0]) != want or fr[0]["hash"] != fr[1]["hash"]:
            with open(path, "w") as h: h.write(text)
            fr = [r3, r3]; small = text
        p = parse_plan(small)
        with open(path, "w") as h:
            h.write("# property %s violated: %s: %s\n# found by seed %d, flavour %s; minimised to %d operations, %d faults, %d context switches (%d executions, %.1fs)\n# hash %s\n# flavour %s\n# replay: python3 tools/check.py --replay %s\n"
                    % (prop, fr[0]["cls"], fr[0]["msg"], f["seed"], f["fl"], len(p["ops"]), len(p["faults"]), len(p["sw"]), tried, secs, fr[0]["hash"], f["fl"], os.path.relpath(path, VERIF)))
            h.write(small)
        print("violated: %s: %s" % (fr[0]["cls"], fr[0]["msg"]))
        print("seed %d flavour %s, minimised to %d operations, %d faults, %d switches:" % (f["seed"], f["fl"], len(p["ops"]), len(p["faults"]), len(p["sw"])))
        for l in small.splitlines()[:40]: print("    " + l)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1, dict(seed=f["seed"], flavour=f["fl"], cls=fr[0]["cls"], msg=fr[0]["msg"], replay=path, operations=len(p["ops"]), faults=len(p["faults"]), switches=len(p["sw"]))
    print("ERROR: violations seen but none passed the replay gate: " + "; ".join(errs))
    return 2, None

def replay(path):
    t = open(path).read(); m = re.search(r"^# flavour (\w+)", t, re.M); prop = re.search(r"^prop (\w+)", t, re.M).group(1); fl = m.group(1) if m else "asan"
    exe, note = build(prop, fl)
    if not exe: print(note); return 2
    r = sh([exe, "exec", path, "-v"]); print(r.stdout)
    last = json.loads([l for l in r.stdout.splitlines() if l.startswith("{")][-1])
    m = re.search(r"^# hash (\w+)", t, re.M)
    if last["status"] == 2:
        print("reproduced: %s: %s%s" % (last["cls"], last["msg"], "" if not m else " (history hash %s the recorded one)" % ("equals" if m.group(1) == last["hash"] else "differs from")))
        print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    print("not violated on this tree"); return 0 if last["status"] == 1 else 2

def main(a):
    if a[:1] == ["--replay"]: return replay(a[1])
    if a[:1] == ["--build-all"]:
        bad = 0
        for (p, fl), (exe, note) in build_many([(p, fl) for p in (a[1:] or PROPS) for fl in dict(DEFAULT, **PROPS[p])["flavours"]]).items():
            if not exe: bad = 1; print("FAILED", p, fl, note[-1500:])
        print("built" if not bad else "some builds failed"); return bad
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try: return run_check(a[0], tier, seed)
    except Exception as e:
        import traceback; traceback.print_exc(); return 2
sys.exit(main(sys.argv[1:]))
