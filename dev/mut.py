#!/usr/bin/env python3
"""dev/mut.py: run checks on mutated scratch copies.
usage: mut.py PIDS FILE OLD NEW [FILE OLD NEW ...]   (PIDS: comma separated, or 'all')
Development helper only: not used by any registered check."""
import os, shutil, subprocess, sys
D = "/tmp/hsa-mut"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(a):
    pids, rest = a[0], a[1:]
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", os.environ.get("HSA_BASE", "/repo") + "/", D + "/"], check=True)
    for i in range(0, len(rest), 3):
        p = os.path.join(D, rest[i])
        s = open(p).read()
        old, new = rest[i + 1], rest[i + 2]
        if s.count(old) < 1:
            old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
        if s.count(old) < 1:
            print("NOT FOUND", rest[i + 1]); return 2
        open(p, "w").write(s.replace(old, new, 1))
    if "-v" in os.environ.get("MUT", ""):
        subprocess.run(["diff", "-ru", "/repo/lib", D + "/lib"])
    env = dict(os.environ, HSA_REPO=D)
    ids = sorted(f for f in pids.split(","))
    rc = 0
    for pid in ids:
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid], env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if not l.startswith(("property ", "front end", "undecided"))]
        print("%s rc=%d %s" % (pid, r.returncode, " | ".join(l[:230] for l in lines[:3])))
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-1500:])
        rc = max(rc, r.returncode)
    return rc
sys.exit(main(sys.argv[1:]))
