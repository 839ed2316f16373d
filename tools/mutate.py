#!/usr/bin/env python3
"""mutate.py ID FILE [-t]: run the check of ID on copies of /repo, one per mutant.

FILE holds Python: M = [(name, path, old, new[, path, old, new ...]), ...]; -t
also runs the repository's tests on every mutant the check misses. Jobs of a
mutant run in parallel, D seconds (30) each; the first violation ends it."""
import json, os, queue, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cid, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
tmp = tempfile.mkdtemp(prefix="mut.")
vs = os.path.join(tmp, "vsamc")
subprocess.run(["go", "build", "-o", vs, "."], cwd=here + "/mc", check=True)
cpus = threading.Semaphore(8)
D = os.environ.get("D", "30")

def one(i, m):
    name, edits = m[0], [m[k:k + 3] for k in range(1, len(m), 3)]
    d = os.path.join(tmp, str(i))
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    for path, old, new in edits:
        p = os.path.join(d, path)
        s = open(p).read()
        if s.count(old) < 1:
            return name, "NOT APPLICABLE " + path
        open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, TMPDIR=tmp, VSAMC_REPO=d, VSAMC_VERIF=here, VSAMC_KNOWN=here + "/known-findings.txt")
    bins = {}
    def build(race):
        out = os.path.join(tmp, "h%d%s" % (i, "r" if race else ""))
        b = subprocess.run([vs, "build", cid.lower(), out] + (["race"] if race else []), env=env, cwd=here, capture_output=True, text=True)
        if b.returncode:
            raise RuntimeError("BUILD FAILS " + (b.stderr + b.stdout)[-300:])
        bins[race] = out
    try:
        build(False)
        jobs = json.loads(subprocess.run([bins[False], "-list"], capture_output=True, text=True).stdout)["jobs"]
        if any(j["race"] for j in jobs):
            build(True)
    except RuntimeError as e:
        return name, str(e)
    found, live, lock = [], [], threading.Lock()
    def job(j):
        with cpus:
            with lock:
                if found:
                    return
                p = subprocess.Popen([bins[j["race"]], "-run", j["name"], "-deadline", D], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                live.append(p)
            out = p.communicate()[0]
        v = [l for l in out.splitlines() if "VIOLATION" in l or "violation" in l]
        if v or "HANG" in out or p.returncode not in (0, 1, -9):
            with lock:
                if not found:
                    found.append(j["name"] + ": " + (v[0].strip() if v else out[-260:] + " rc=%d" % p.returncode))
                    for q in live:
                        q.kill()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(job, sorted(jobs, key=lambda j: -j["weight"] if D else 0)))
    r = "caught: " + found[0][:260] if found else "MISSED"
    if not found and "-t" in sys.argv:
        t = subprocess.run(["go", "test", "./..."], cwd=d, capture_output=True, text=True)
        r += " | tests rc=%d" % t.returncode
    shutil.rmtree(d)
    for b in bins.values():
        os.remove(b)
    return name, r

with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for name, r in ex.map(lambda a: one(*a), enumerate(ns["M"])):
        print("%-28s %s" % (name, r), flush=True)
shutil.rmtree(tmp)
