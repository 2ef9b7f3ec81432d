#!/usr/bin/env python3
"""dev/seed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]
Confirms and records a planted bug. The demonstration (demo.cc or demo.sh) is taken from /tmp/demo/ID/.
Everything runs in a scratch copy /tmp/seedrepo bind-mounted over /repo in a private namespace.
Development helper only: not used by any registered check."""
import json, os, shutil, subprocess, sys
S = "/tmp/seedrepo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles the program beside this file against the library built in /repo and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
R=$(pwd)
g++ -std=c++17 -O1 -I"$R/lib" -I"$R/_build/obj" -I"$R/_build/src/lib" "$D/demo.cc" -o "$T/demo" -L"$R/_build/obj/lib/.libs" -lhnco -Wl,-rpath,"$R/_build/obj/lib/.libs" -lboost_serialization -lpython3.12 -ldl -lgmpxx -lgmp -lpthread -fopenmp $(cat "$D/libs" 2>/dev/null) >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
cd "$T" && timeout 120 ./demo
'''
def ns(cmd, **kw):
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (S, cmd)], **kw)
def sync():
    if not os.path.isdir(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    subprocess.run(["rsync", "-a", "--delete", "--checksum", "--exclude", "/_build", "/repo/", S + "/"], check=True)
def build():
    r = ns("bash /opt/vp/build.sh", capture_output=True, text=True)
    if r.returncode: print(r.stdout[-500:], r.stderr[-1500:])
    return r.returncode
def main(a):
    id, prop, needs, breaks, rest = a[0], a[1], a[2], a[3], a[4:]
    out = os.path.join(V, "seeded", id)
    src = "/tmp/demo/" + id
    sync()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for n in os.listdir(src):
        shutil.copy(os.path.join(src, n), out)
    if not os.path.exists(os.path.join(out, "demo.sh")):
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    demo = "bash %s/demo.sh" % out
    if build(): print("clean build failed"); return 2
    r = ns(demo, capture_output=True, text=True)
    if r.returncode: print("demo fails on clean tree rc=%d" % r.returncode, r.stdout[-800:], r.stderr[-800:]); return 2
    for i in range(0, len(rest), 3):
        p = os.path.join(S, rest[i]); s = open(p).read()
        old, new = rest[i+1].replace("\\n", "\n"), rest[i+2].replace("\\n", "\n")
        if s.count(old) < 1: print("NOT FOUND", old); return 2
        open(p, "w").write(s.replace(old, new, 1))
    d = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    try:
        if build(): print("build with bug failed"); return 2
        r = ns(demo, capture_output=True, text=True)
        if r.returncode == 0: print("demo does not fail with the bug"); return 2
        print("demo rc", r.returncode, (r.stdout + r.stderr)[-200:].strip())
        ns("bash /opt/vp/test.sh /tmp/seed-out.json", capture_output=True)
        got = json.load(open("/tmp/seed-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests") or []
        miss = [t for t in stable if t not in got["passed"]]
        if miss: print("STABLE TESTS FAIL:", miss); return 2
        for pid in [prop]:
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid], env=dict(os.environ, HSA_REPO=S), capture_output=True, text=True)
            print("check", pid, "rc", r.returncode, " | ".join(l[:300] for l in r.stdout.splitlines() if not l.startswith(("property", "front", "undecided")))[:700])
            if r.returncode not in (0, 1): print(r.stderr[-1000:])
    finally:
        sync()
    print("recorded", out)
sys.exit(main(sys.argv[1:]))
