#!/usr/bin/env python3
"""dev/muts.py LIST.py : LIST defines M = [(kind, pids, file, old, new, ...)], kind B (must alarm) or R (must stay quiet)"""
import subprocess, sys, os, runpy
M = runpy.run_path(sys.argv[1])["M"]
for m in M:
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.py")] + list(m[1:]), capture_output=True, text=True)
    out = r.stdout.strip()
    ok = (r.returncode == 1) == (m[0] == "B") and r.returncode in (0, 1)
    print("%s %s rc=%d %s -> %s   %s" % ("ok  " if ok else "MISS" if m[0] == "B" else "FALSE-ALARM", m[0], r.returncode, m[3][:50].replace("\n", "\\n"), m[4][:50].replace("\n", "\\n"), out[-900:] if not ok else ""))
    sys.stdout.flush()
