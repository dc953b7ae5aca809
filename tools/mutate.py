#!/usr/bin/env python3
"""mutate.py BATCH.py [workers] [only]: run checks against planted one-off edits in scratch copies (development tool).
BATCH.py defines M = [(name, property, file under src/lambdapic, old, new), ...] (or a list of (file, old, new) in place of the last three)."""
import os, shutil, subprocess, sys, time, threading, queue
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = int(sys.argv[2]) if len(sys.argv) > 2 else 2
only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
Q = queue.Queue()
for m in ns["M"]:
    if not only or m[0] in only:
        Q.put(m)
def work(k):
    R = f"/var/tmp/mut/{os.getpid()}-{k}"
    shutil.rmtree(R, ignore_errors=True)
    os.makedirs("/var/tmp/mut", exist_ok=True); subprocess.run(["cp", "-a", "/repo", R], check=True)
    while True:
        try:
            m = Q.get_nowait()
        except queue.Empty:
            break
        name, prop = m[:2]
        edits = m[2] if isinstance(m[2], list) else [m[2:5]]
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
        ok = True
        for f, a, b in edits:
            p = f"{R}/src/lambdapic/{f}"
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                print(f"{name}: {n} places in {f}", flush=True)
                ok = False
                break
            open(p, "w").write(s.replace(a, b))
        if not ok:
            continue
        t = time.time()
        env = dict(os.environ, VERIF_REPO=R, VERIF_JOBS=str(max(1, 8 // W)))
        try:
            r = subprocess.run(["./check", prop], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            v = [l.strip() for l in r.stdout.splitlines() if l.startswith("  what:")]
            verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode}")
            if r.returncode not in (0, 1) or (r.returncode == 1 and not v):
                v = r.stdout.splitlines()[-3:]
        except subprocess.TimeoutExpired:
            verdict, v = "TIMEOUT", []
        print(f"{name:34s} {prop} {verdict:7s} {time.time() - t:5.0f} s  {'; '.join(v[:2])[:140]}", flush=True)
    shutil.rmtree(R, ignore_errors=True)
T = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in T]; [t.join() for t in T]
