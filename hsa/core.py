"""Rule context: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from . import program
from .program import AnalysisBroken, VERIF, REPO

RULES = {}       # property id -> (function, meta)


def rule(pid, explanation, minimum=None, assumptions=()):
    def deco(fn):
        RULES[pid] = (fn, {"explanation": explanation, "minimum": minimum or {}, "assumptions": list(assumptions)})
        return fn
    return deco


class Ctx(object):
    def __init__(self, prog, pid, tier):
        self.p = prog
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.functions = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def ok(self, kind, what):
        """an obligation was discharged"""
        self.count("obligations." + kind)
        self.sample("%s: %s" % (kind, what))

    def bad(self, kind, f, line, what, key=None):
        """an obligation failed at function f (IR dict or (file, name))"""
        self.count("obligations." + kind)
        if isinstance(f, dict):
            file, name = f["file"], f["q"]
        else:
            file, name = f
        if len(what) > 600:
            what = what[:600] + " ..."
        v = {"rule": kind, "file": file, "line": line, "function": name, "what": what,
             "key": key or "%s|%s" % (kind, name)}
        if not any(w["key"] == v["key"] and w["line"] == v["line"] and w["rule"] == kind for w in self.violations):
            self.violations.append(v)

    def check(self, cond, kind, f, line, what):
        if cond:
            self.ok(kind, (f["q"] if isinstance(f, dict) else f[1]))
        else:
            self.bad(kind, f, line, what)
        return cond

    def skip(self, kind, f, why):
        self.count("undecided." + kind)
        self.undecided.append("%s %s: %s" % (kind, f["q"] if isinstance(f, dict) else f, why))

    def need(self, x, what):
        if not x:
            raise AnalysisBroken("anchor missing: " + what)
        return x


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {"known": [], "fixed": []}
    with open(path) as fh:
        return json.load(fh)


def run(pid, tier="quick", prog=None, write=True, verbose=True):
    from . import rules
    rules.load_all()
    t0 = time.time()
    if pid not in RULES:
        print("unknown property", pid)
        return 2
    fn, meta = RULES[pid]
    try:
        if prog is None:
            prog = program.load()
        ctx = Ctx(prog, pid, tier)
        incomplete = False
        try:
            fn(ctx)
        except AnalysisBroken:
            if not ctx.violations:
                raise
            incomplete = True
        except Exception:
            # a construct the rule was not written for: what was decided before it stands
            got = sum(n for k, n in ctx.counts.items() if k.startswith("obligations."))
            if not ctx.violations and got < 0.5 * sum(meta["minimum"].values()):
                raise
            traceback.print_exc()
            ctx.undecided.append("the rule stopped early: " + traceback.format_exc().strip().splitlines()[-1])
            incomplete = True
        for k, n in meta["minimum"].items():
            if ctx.counts.get(k, 0) < n and not incomplete:
                if not ctx.violations:
                    raise AnalysisBroken("%s: only %d instances of %s, at least %d expected" % (pid, ctx.counts.get(k, 0), k, n))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 4
    known = [k for k in load_known()["known"] if k["property"] == pid]
    new, old = [], []
    for v in ctx.violations:
        k = next((k for k in known if k["key"] == v["key"]), None)
        (old if k else new).append((v, k))
    for v, k in old:
        if verbose:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if verbose:
        print("property %s: %d units, %d functions in the model; %s" % (
            pid, len(prog.tus), len(prog.functions),
            ", ".join("%s=%d" % kv for kv in sorted(ctx.counts.items()))))
        for u in ctx.undecided[:20]:
            print("undecided:", u)
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ob = sum(n for k, n in ctx.counts.items() if k.startswith("obligations."))
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
              "coverage": {"explanation": meta["explanation"], "translation_units": len(prog.tus),
                           "functions_in_model": len(prog.functions), "records_in_model": len(prog.records),
                           "obligations": ob, "discharged": ob - len(ctx.violations),
                           "instances": ctx.counts, "functions_analysed": len(ctx.functions),
                           "undecided": ctx.undecided, "samples": ctx.samples,
                           "known_findings": [v["key"] for v, _ in old]},
              "assumptions": meta["assumptions"],
              "wall_s": round(time.time() - t0, 3), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if new:
        rdir = os.path.join(VERIF, "build", "reports")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + ".txt")
        with open(path, "w") as fh:
            for v, _ in new:
                fh.write("%s:%s: [%s] %s\n    in %s\n" % (v["file"], v["line"], v["rule"], v["what"], v["function"]))
        for v, _ in new:
            print("%s:%s: [%s/%s] in %s: %s" % (v["file"], v["line"], pid, v["rule"], v["function"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
