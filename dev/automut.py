#!/usr/bin/env python3
"""dev/automut.py SEED COUNT DIR [FILES REGEX]: random small mutants of a copy of /repo in DIR; runs all rules on each.
Prints which rules alarm; a mutant no rule alarms on is written to DIR.miss/N.diff for inspection.
Development helper only: not used by any registered check."""
import os, random, re, subprocess, sys
seed, count, S = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = sys.argv[4] if len(sys.argv) > 4 else ""
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["HSA_REPO"] = S
if not os.path.isdir(S):
    subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
    subprocess.run("cp -a /repo/_build %s/_build" % S, shell=True)
files = [f for f in subprocess.run(["git", "-C", S, "ls-files", "lib/hnco", "app"], capture_output=True, text=True).stdout.split()
         if f.endswith((".cc", ".hh")) and not re.search("fast-efficient-p3|gomea|pyhnco|fparser|test|/all.hh|human", f) and re.search(only, f)]
R = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
     (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r"\b0;", ["1;"]), (r"= 0\b", ["= 1"]), (r"\b1\b", ["2", "0"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
     (r"\+\+", ["--"]), (r" \+= ", [" -= ", " = "]), (r"\bi\b", ["j", "0"]), (r"\bj\b", ["i"]), (r"\[k\]", ["[i]", "[0]"]), (r"_best_", ["_worst_"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]),
     (r"^(\s+)([A-Za-z_][\w.\->\[\]()]*( [-+*/]?= |\(|\+\+).*;)$", [r"\1;"])]
rnd = random.Random(seed)


def candidates(f):
    out, com = [], False
    for n, l in enumerate(open(os.path.join(S, f))):
        s = l.strip()
        if s.startswith("/*"):
            com = True
        if com or s.startswith(("//", "#", "assert", "throw", "case", "using", "fail_with", "\\")) or "std::cerr" in s or '"' in s and "<<" in s or "template" in s:
            com = com and "*/" not in s
            continue
        for r, news in R:
            for m in re.finditer(r, l):
                for x in news:
                    out.append((n, m.start(), m.end(), re.sub(r, x, m.group(0)) if "\\1" in x else x))
    return out


def compiles(f):
    r = subprocess.run(["g++", "-std=c++17", "-x", "c++", "-fsyntax-only", "-fopenmp", "-I%s/lib" % S, "-I%s/app" % S, "-I/repo/_build/obj", "-I/repo/_build/src/lib", "-I/usr/include/eigen3", os.path.join(S, f)], capture_output=True, text=True)
    return r.returncode == 0


pids = re.findall(r'^prop\("(P\d+)', open(V + "/meta/list.py").read(), re.M)
os.makedirs(S + ".miss", exist_ok=True)
pool = [(f, c) for f in files for c in candidates(f)]
weights = {}
for f, c in pool:
    weights[f] = weights.get(f, 0) + 1
done = 0
while done < count:
    f = rnd.choice(files)
    cs = [c for g, c in pool if g == f]
    if not cs:
        continue
    n, a, b, x = rnd.choice(cs)
    p = os.path.join(S, f)
    src = open(p).read()
    ls = src.split("\n")
    ls[n] = ls[n][:a] + x + ls[n][b:] if not x.endswith(";") or b < len(ls[n]) else ls[n][:a] + x
    try:
        open(p, "w").write("\n".join(ls))
        if not compiles(f):
            continue
        subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from hsa import program; program.load()" % V], capture_output=True)
        ps = {}
        res = {}
        todo = list(pids)
        while todo or ps:
            while todo and len(ps) < 4:
                q = todo.pop(0)
                ps[q] = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from hsa.core import run; sys.exit(run(%r, write=False))" % (V, q)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            q = next(iter(ps))
            o = ps[q].communicate()[0]
            res[q] = (ps[q].returncode, o)
            del ps[q]
        hit = [q for q, (rc, o) in res.items() if rc == 1]
        odd = [q for q, (rc, o) in res.items() if rc not in (0, 1) or "Traceback" in o or "stopped early" in o]
        d = subprocess.run(["git", "-C", S, "diff", "-U0"], capture_output=True, text=True).stdout
        done += 1
        print("%s %s:%d %s   =>   %s   %s" % ("caught %s" % ",".join(hit) if hit else "MISS", f, n + 1, src.split("\n")[n].strip()[:90], ls[n].strip()[:90], "ODD " + ",".join(odd) if odd else ""), flush=True)
        if not hit:
            open("%s.miss/%d-%d.diff" % (S, seed, done), "w").write(d)
    finally:
        open(p, "w").write(src)
