#!/usr/bin/env python3
"""Tries planted changes (seeded/<id>) in scratch copies: builds, runs the repository's tests and the demo with and
without the change, then the property's check. Nothing here is used by the checks.

  plant.py [--no-check] [ID...]
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch(name):
    d = "/tmp/plant/" + name; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/plant", exist_ok=True)
    sh("git -C /repo worktree prune; git clone -q /repo %s" % d); return d
def tests(d):
    """the repository's own build and tests, redirected to the scratch copy"""
    b = open("/opt/vp/build.sh").read().replace("/repo", d); t = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/.b.sh")
    open(d + "/.b.sh", "w").write(b); open(d + "/.t.sh", "w").write(t)
    r = sh("bash %s/.t.sh %s/.out.json" % (d, d))
    try: o = json.load(open(d + "/.out.json"))
    except Exception: return False, r.stdout[-2000:]
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; miss = [x for x in st if x not in o["passed"]]
    return not miss, (r.stdout[-2500:] if not o["passed"] else "") + " ".join(miss)
def demo(i, d):
    f = "/tmp/plant/demo-" + i; shutil.rmtree(f, ignore_errors=True); shutil.copytree(os.path.join(V, "seeded", i), f)
    for x in os.listdir(f):
        if x.endswith((".diff", ".patch")) or x == "meta.json": os.remove(os.path.join(f, x))
    try: r = sh(["bash", f + "/demo.sh"], cwd=d, timeout=300); return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired: return 124, "timeout"
def one(i, check):
    s = os.path.join(V, "seeded", i); m = json.load(open(s + "/meta.json")); d = scratch(i); out = []
    rc, o = demo(i, d); out.append("demo clean rc=%d%s" % (rc, "" if rc == 0 else " BAD " + o))
    r = sh(["git", "-C", d, "apply", s + "/patch.diff"])
    if r.returncode: return i, m["property"], "PATCH DOES NOT APPLY " + r.stdout
    ok, o = tests(d); out.append("tests " + ("pass" if ok else "BAD " + o))
    rc, o = demo(i, d); out.append("demo patched rc=%d%s" % (rc, "" if rc else " BAD"))
    if check and not any("BAD" in x for x in out):
        e = dict(os.environ, SIM_REPO=d, SIM_BUILD=d + "/.sim", VERIF_SEED="1", VERIF_TIER="quick")
        r = sh([sys.executable, os.path.join(V, "tools/check.py"), m["property"]], env=e)
        v = [l for l in r.stdout.splitlines() if l.startswith("violated")]
        f = [l for l in r.stdout.splitlines() if l.startswith("seed ")]
        out.append(("CAUGHT " if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED rc=%d " % r.returncode) + " ".join(v)[:150] + " | " + " ".join(f)[:100] + ("" if r.returncode in (0, 1) else r.stdout[-400:]))
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree("/tmp/plant/demo-" + i, ignore_errors=True)
    return i, m["property"], "; ".join(out)
def main(a):
    check = "--no-check" not in a; a = [x for x in a if not x.startswith("--")]
    ids = a or sorted(os.listdir(os.path.join(V, "seeded"))); it = iter(ids); lock = threading.Lock()
    def work():
        while True:
            with lock: i = next(it, None)
            if i is None: return
            try: r = one(i, check)
            except Exception as e: r = (i, "?", "ERROR %r" % e)
            print("%-28s %-4s %s" % r, flush=True)
    ts = [threading.Thread(target=work) for _ in range(3)]; [t.start() for t in ts]; [t.join() for t in ts]
main(sys.argv[1:])
