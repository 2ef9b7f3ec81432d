"""Front end: run hsa-extract over every translation unit of /repo and build
the whole-program model (functions, records, enums, globals, hierarchy)."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "hsa-extract")
SRC_DIRS = ["lib/hnco", "app", "bindings", "lib/gomea/src", "lib/fast-efficient-p3"]
FLAGS = ["-std=c++17", "-fopenmp", "-w", "-ferror-limit=5",
         "-resource-dir=/usr/lib/llvm-18/lib/clang/18",
         "-I" + os.path.join(VERIF, "tool/include")]


class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchor missing, parse error)."""


def ensure_tool():
    src = os.path.join(VERIF, "tool", "extract.cc")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with open(src, "rb") as fh:
            want = hashlib.sha256(fh.read()).hexdigest()
        stamp = TOOL + ".sha256"
        if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        r = subprocess.run(["make", "-B", "-C", os.path.join(VERIF, "tool"), "OUT=" + BUILD],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build hsa-extract:\n" + r.stdout + r.stderr)
        with open(stamp, "w") as fh:
            fh.write(want)


def source_files():
    out = []
    for d in SRC_DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            if "_build" in dirs:
                dirs.remove("_build")
            for f in sorted(files):
                if f.endswith((".cc", ".cpp", ".hh", ".hpp", ".h")):
                    out.append(os.path.join(root, f))
    for f in sorted(os.listdir(os.path.join(REPO, "lib/fparser"))):
        if f.endswith((".hh",)):
            out.append(os.path.join(REPO, "lib/fparser", f))
    return out


def translation_units(files):
    tus = []
    for f in files:
        rel = os.path.relpath(f, REPO)
        if not f.endswith((".cc", ".cpp")):
            continue
        if rel.startswith("bindings/") and rel != "bindings/hnco.cc":
            continue
        tus.append(f)
    # biggest first for load balancing
    prio = {"bindings/hnco.cc": 0, "lib/hnco/app/function-factory.cc": 1,
            "lib/hnco/multiobjective/app/function-factory.cc": 2}
    tus.sort(key=lambda f: prio.get(os.path.relpath(f, REPO), 9))
    return tus


def tree_hash(files):
    h = hashlib.sha256()
    for f in [os.path.join(VERIF, "tool/extract.cc"), os.path.join(VERIF, "tool/include/config.h")] + files:
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)


class Closure:
    """textual include closure inside the repository (conditionals ignored: a superset)"""

    def __init__(self):
        self.info = {}
        self.memo = {}

    def file(self, f):
        if f not in self.info:
            with open(f, "rb") as fh:
                b = fh.read()
            incs = []
            for m in INC.findall(b):
                n = m.decode("utf8", "replace")
                for d in (os.path.dirname(f), os.path.join(REPO, "lib"), os.path.join(REPO, "app")):
                    c = os.path.normpath(os.path.join(d, n))
                    if c.startswith(REPO + "/") and os.path.isfile(c):
                        incs.append(c)
            self.info[f] = (hashlib.sha256(b).hexdigest(), incs)
        return self.info[f]

    def key(self, tu, salt):
        seen, todo = set(), [tu]
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo += self.file(f)[1]
        # headers found next to the translation unit
        h = hashlib.sha256(salt)
        h.update(os.path.relpath(tu, REPO).encode())
        for f in sorted(seen):
            h.update(os.path.relpath(f, REPO).encode() + b"\0" + self.file(f)[0].encode())
        return h.hexdigest()[:32]


def tool_salt():
    h = hashlib.sha256(" ".join(FLAGS).encode())
    for f in ("tool/extract.cc", "tool/include/config.h", "tool/include/omp.h"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.digest()


def _extract(args):
    tu, out = args
    if os.path.exists(out):
        return tu, 0, ""
    final, out = out, out + ".tmp%d" % os.getpid()
    inc = ["-I" + os.path.join(REPO, "lib"), "-I" + os.path.dirname(tu),
           "-I/usr/include/python3.12", "-I" + os.path.join(REPO, "app")]
    r = subprocess.run([TOOL, REPO + "/", out, tu, "--"] + FLAGS + inc,
                       capture_output=True, text=True, cwd="/")
    if r.returncode == 0:
        os.replace(out, final)
    return tu, r.returncode, r.stderr


class Node(dict):
    pass


class Program:
    def __init__(self):
        self.functions = {}   # usr -> function
        self.records = {}     # class name -> record
        self.enums = {}
        self.globals = []
        self.tus = []
        self.derived = {}     # class -> list of direct derived
        self._overriders = None

    def finish(self):
        self.by_q = {}
        for f in self.functions.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.derived = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.derived.setdefault(b, []).append(r["n"])
        self.method_decl = {}  # usr -> (record, method)
        for r in self.records.values():
            for m in r["methods"]:
                self.method_decl[m["id"]] = (r, m)

    # ---- hierarchy -----------------------------------------------------
    def subclasses(self, cls, strict=False):
        out, todo = ([] if strict else [cls]), [cls]
        seen = {cls}
        while todo:
            c = todo.pop()
            for d in sorted(self.derived.get(c, [])):
                if d not in seen:
                    seen.add(d)
                    out.append(d)
                    todo.append(d)
        return out

    def bases(self, cls, strict=False):
        """linearised bases, most derived first"""
        out = [] if strict else [cls]
        r = self.records.get(cls)
        if r:
            for b in r["bases"]:
                for x in self.bases(b):
                    if x not in out:
                        out.append(x)
        return out

    def is_subclass(self, cls, base):
        return base in self.bases(cls)

    def find_method(self, cls, name, nparams=None, ptypes=None, pred=None):
        """the method that `name` resolves to on an object whose dynamic class
        is cls (function with body, or None)"""
        for c in self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["n"] != name:
                    continue
                if nparams is not None and len(m["pt"]) != nparams:
                    continue
                if ptypes is not None and m["pt"] != ptypes:
                    continue
                if pred and not pred(m):
                    continue
                if m.get("pure"):
                    return None
                f = self.functions.get(m["id"])
                return f
        return None

    def resolve_virtual(self, cls, usr):
        """final overrider of method usr for dynamic class cls"""
        d = self.method_decl.get(usr)
        if not d:
            return self.functions.get(usr)
        _, m0 = d
        for c in self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["id"] == usr or (m["n"] == m0["n"] and m["pt"] == m0["pt"]
                                      and bool(m.get("const")) == bool(m0.get("const"))):
                    return self.functions.get(m["id"])
        return self.functions.get(usr)

    def all_overriders(self, usr):
        """all functions that may be reached by a virtual call to usr"""
        if self._overriders is None:
            self._overriders = {}
            for r in self.records.values():
                for m in r["methods"]:
                    for o in m["ov"]:
                        self._overriders.setdefault(o, []).append(m["id"])
        out, todo = [], [usr]
        seen = set()
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            if u in self.functions:
                out.append(self.functions[u])
            todo += self._overriders.get(u, [])
        return out

    def field(self, cls, name):
        for c in self.bases(cls):
            r = self.records.get(c)
            if r:
                for f in r["fields"]:
                    if f["n"] == name:
                        return f
        return None


def load(verbose=False):
    ensure_tool()
    files = source_files()
    if not files:
        raise AnalysisBroken("no source files under " + REPO)
    key = tree_hash(files)
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    cpath = os.path.join(cdir, key + ".pkl")
    if os.path.exists(cpath) and not os.environ.get("HSA_NOCACHE"):
        try:
            with open(cpath, "rb") as fh:
                p = pickle.load(fh)
            p.finish()
            return p
        except Exception:
            pass
    print("front end: extracting (tree %s)" % key)
    tus = translation_units(files)
    tdir = os.path.join(BUILD, "tu")
    os.makedirs(tdir, exist_ok=True)
    prog = Program()
    if True:
        cl, salt = Closure(), tool_salt()
        jobs = [(tu, os.path.join(tdir, cl.key(tu, salt) + ".jsonl")) for tu in tus]
        failed = []
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for tu, rc, err in ex.map(_extract, jobs):
                if rc != 0:
                    failed.append((tu, err[-1500:]))
        if failed:
            raise AnalysisBroken("cannot parse %s:\n%s" % failed[0])
        seen = set()
        for tu, out in jobs:
            done = False
            with open(out) as fh:
                for line in fh:
                    k, _, body = line.partition("\t")
                    if k == "D":
                        done = True
                        continue
                    if k in seen and "@F@main#" not in k:
                        continue
                    seen.add(k)
                    o = json.loads(body)
                    kind = o["kind"]
                    if kind == "function" and o["q"] == "main":
                        o["id"] += "@" + o["file"]      # each program has its own main
                    if kind == "function":
                        prog.functions[o["id"]] = o
                    elif kind == "record":
                        prog.records[o["n"]] = o
                    elif kind == "enum":
                        prog.enums[o["id"]] = o
                    elif kind == "global":
                        prog.globals.append(o)
            if not done:
                raise AnalysisBroken("incomplete extraction of " + tu)
            prog.tus.append(os.path.relpath(tu, REPO))
            os.utime(out)
    with open(cpath + ".tmp%d" % os.getpid(), "wb") as fh:
        pickle.dump(prog, fh, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(cpath + ".tmp%d" % os.getpid(), cpath)
    # keep the cache small
    old = sorted((os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith(".pkl")), key=os.path.getmtime)
    for f in old[:-6]:
        try:
            os.remove(f)
        except OSError:
            pass
    old = sorted((os.path.join(tdir, f) for f in os.listdir(tdir)), key=os.path.getmtime)
    for f in old[:-450]:
        try:
            os.remove(f)
        except OSError:
            pass
    prog.finish()
    return prog


if __name__ == "__main__":
    import time
    t = time.time()
    from hsa.program import load as _load   # pickle under the importable name
    p = _load(True)
    print(len(p.tus), "units", len(p.functions), "functions", len(p.records), "records", len(p.enums), "enums", len(p.globals), "globals %.1fs" % (time.time() - t))
