"""P29: probabilistic models: updates, bounds, sampling, learning from the selected individuals; crossover."""
import itertools
import math
from fractions import Fraction as Fr
from ..core import rule
from ..q import *
from ..absint import Engine, TooComplex, trace, write, read, initv, getroot
from ..terms import T, subterms, typed, mk, C, add, sub, mul, show
from ..values import Values, Unknown, Outside, all_loops
from .collection import plain

A = "hnco::algorithm::"
W = A + "walsh_moment::"


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in a and same(a[k], b[k]) for k in b)
    if a is None or b is None:
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))
    return a == b


class Drawn(Values):
    """values with the results of random draws and evaluations given"""

    def __init__(self, eng, loops, env, draws=None):
        Values.__init__(self, eng, loops, env)
        self.draws = draws or {}

    def holds(self, facts):
        """as above; an element outside its container, where nothing else excludes the path, is remembered"""
        facts = list(facts)
        r = Values.holds(self, facts)
        self.outside = None
        if r is None:
            for d, _ in facts:
                try:
                    self.ev(d)
                except Outside as x:
                    self.outside = str(x)
                except Unknown:
                    self.outside = None
                    break
        return r

    def op_cases(self, t):
        try:
            return Values.op_cases(self, t)
        except Outside:
            raise
        except Unknown:
            for g, v in t.a[0]:
                if self.holds(g) is None and self.outside:
                    raise Outside(self.outside)
            raise

    def op_call(self, t):
        q = t.a[0]
        if isinstance(q, str) and q.endswith("operator()"):
            for k, v in self.draws.items():
                if k in q:
                    return v
        return Values.op_call(self, t)


class Final(object):
    """the final state of a function on every path"""

    def __init__(self, ctx, f, cls=None, **kw):
        self.ctx, self.f = ctx, f
        self.eng = Engine(ctx.p, max_states=400, assume_asserts=False, **kw)
        self.eng.preds = {}
        self.outs = self.eng.run(f, cls=cls)
        ctx.functions |= self.eng.nfun
        ctx.count("paths", len(self.outs))
        # loops by path: the same loop may have been met in different circumstances
        self.by = {o: all_loops(o.st) for o in self.outs}

    def paths(self, env, draws=None):
        """(values, outcome) of the paths which may be taken"""
        res = []
        for o in self.outs:
            if o.kind not in ("R", "N", "X"):
                continue
            v = Drawn(self.eng, self.by[o], env, draws)
            h = v.holds(o.st.facts.items())
            v.path_outside = v.outside
            if h is not False:
                res.append((h, v, o))
        sure = [x for x in res if x[0]]
        return [x[1:] for x in (sure or res)]


def evaluated(v, t):
    if getattr(v, "path_outside", None):
        return "outside %s" % v.path_outside
    try:
        return v.ev(t)
    except Outside as x:
        return "outside %s" % x
    except Unknown:
        return None


def fenv(f, this=None, **ps):
    env = {} if this is None else {initv(("THIS",)): this}
    for p, v in zip(f["ps"], ps.values()):
        env[initv(("P", p["n"]))] = v
    return env


def overloads(ctx, name, n, pred=None):
    out = []
    for f in ctx.p.functions.values():
        if f["q"] == A + name and f.get("body") is not None and len(f["ps"]) == n:
            if pred is None or pred([plain(p["t"]).replace("const ", "").replace("&", "").strip() for p in f["ps"]]):
                out.append(f)
    if not out:
        ctx.skip("anchor", ("", name), "not found")
    return out


def outcome(ctx, kind, f, cls, cases, ref, read_back, what, **kw):
    """on every case, the final state read by read_back must be ref(case)"""
    try:
        s = Final(ctx, f, cls, **kw)
    except TooComplex as x:
        ctx.skip(kind, f, str(x))
        return
    und = n = 0
    for env, draws, case in cases:
        want = ref(case)
        for v, o in s.paths(env, draws):
            if o.kind == "X":
                ctx.bad(kind, f, f["line"], "%s: throws for %s" % (what, brief(case)))
                return
            t = read_back(o)
            got = evaluated(v, t)
            if isinstance(want, dict) and got is None and t is not None:
                # fields one by one
                got = {}
                for k in want:
                    g = evaluated(v, proj(t, (".", k)))
                    if g is None:
                        und += 1
                    else:
                        got[k] = g
                want1 = {k: want[k] for k in got}
            else:
                want1 = want
            if got is None:
                und += 1
                continue
            if isinstance(got, str) or not same(got, want1):
                ctx.bad(kind, f, f["line"], "%s: the result is %s, by definition it is %s, for %s" % (what, brief(got), brief(want1), brief(case)), key="%s|%s" % (kind, f["q"] + str(len(f["ps"]))))
                return
            n += 1
    if n:
        ctx.ok(kind, "%s: %d cases" % (what, n))
    if und:
        ctx.skip(kind, f, "%s: %d values without closed form" % (what, und))


def brief(x):
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, brief(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(map(brief, x))
    if isinstance(x, float):
        return "%.4g" % x
    return str(x)


PV = [[Fr(1, 4)], [Fr(0), Fr(1), Fr(1, 3)], [Fr(3, 4), Fr(1, 5), Fr(1, 2), Fr(9, 10)]]
PX = [[Fr(2, 3)], [Fr(1, 7), Fr(1, 2), Fr(1)], [Fr(1, 9), Fr(4, 5), Fr(0), Fr(2, 5)]]
PY = [[Fr(1, 5)], [Fr(1, 2), Fr(1, 6), Fr(0)], [Fr(1), Fr(2, 7), Fr(5, 8), Fr(1, 3)]]
R = Fr(3, 11)


def bits(n):
    return [list(b) for b in itertools.product((0, 1), repeat=n)]


def isbv(t):
    return t.startswith("std::vector<unsigned char")


def ispv(t):
    return t.startswith("std::vector<double")


def clamp(x, lo, hi):
    return max(lo, min(hi, x))


def vectors(ctx):
    def go(name, n, pred, mk_cases, ref, what, out=0):
        for f in overloads(ctx, name, n, pred):
            cases = [(fenv(f, **c), d, dict(c, **(d or {}))) for c, d in mk_cases]
            outcome(ctx, "vector", f, None, cases, ref, lambda o: getroot(o.st, ("P", f["ps"][out]["n"])), what)
    go("pv_uniform", 1, None, [({"pv": p}, None) for p in PV], lambda c: [Fr(1, 2)] * len(c["pv"]), "pv_uniform")
    go("pv_init", 1, None, [({"pv": p}, None) for p in PV], lambda c: [0] * len(c["pv"]), "pv_init")
    go("pv_add", 2, None, [({"pv": p, "bv": b}, None) for p in PV for b in bits(len(p))], lambda c: [x + b for x, b in zip(c["pv"], c["bv"])], "pv_add")
    go("pv_add", 3, None, [({"pv": p, "bv": b, "weight": R}, None) for p in PV for b in bits(len(p))], lambda c: [x + R * b for x, b in zip(c["pv"], c["bv"])], "pv_add with a weight")
    go("pv_average", 2, None, [({"pv": p, "count": k}, None) for p in PV for k in (1, 2, 7)], lambda c: [Fr(x) / c["count"] for x in c["pv"]], "pv_average")
    go("pv_update", 3, lambda t: ispv(t[1]), [({"pv": p, "x": x, "rate": R}, None) for p, x in zip(PV, PX)], lambda c: [p + R * (x - p) for p, x in zip(c["pv"], c["x"])], "pv_update towards a vector")
    go("pv_update", 3, lambda t: isbv(t[1]), [({"pv": p, "x": x, "rate": R}, None) for p in PV for x in bits(len(p))], lambda c: [p + R * (x - p) for p, x in zip(c["pv"], c["x"])], "pv_update towards a bit vector")
    go("pv_update", 4, None, [({"pv": p, "x": x, "y": y, "rate": R}, None) for p, x, y in zip(PV, PX, PY)],
       lambda c: [p + R * (x - y) for p, x, y in zip(c["pv"], c["x"], c["y"])], "pv_update towards a vector and away from another")
    go("pv_bound", 3, None, [({"pv": p, "lo": l, "hi": h}, None) for p in PV for l, h in ((Fr(1, 5), Fr(4, 5)), (Fr(0), Fr(1)), (Fr(1, 3), Fr(3, 4)))],
       lambda c: [clamp(x, c["lo"], c["hi"]) for x in c["pv"]], "pv_bound")
    go("pv_sample", 2, None, [({"pv": p, "bv": [0] * len(p)}, {"uniform_real": u}) for p in PV for u in (Fr(0), Fr(1, 10), Fr(1, 4), Fr(1, 2), Fr(7, 8), Fr(99, 100))],
       lambda c: [int(c["uniform_real"] < x) for x in c["pv"]], "pv_sample", out=1)
    for f in overloads(ctx, "pv_entropy", 1):
        def h(c):
            return -sum(float(p) * math.log(p) + float(1 - p) * math.log(1 - p) for p in c["pv"] if 0 < p < 1)
        outcome(ctx, "vector", f, None, [(fenv(f, pv=p), None, {"pv": p}) for p in PV], h, lambda o: retval(o) if o.kind == "R" else None, "pv_entropy")


# ---------------------------------------------------------------- Walsh moments
N = 4


def moment(k, full):
    f = [Fr((7 * i + 3 * k) % 11 - 5, 6) for i in range(N)]
    low = [[Fr((5 * i + 3 * j + 2 * k) % 13 - 6, 7) for j in range(i)] for i in range(N)]
    if full:
        low = [[low[i][j] if j < i else low[j][i] if i < j else Fr(0) for j in range(N)] for i in range(N)]
    return {"first_moment": f, "second_moment": low}


def pairs(m, full, fn, mirror=True):
    """apply fn(value, path) to every moment"""
    f = [fn(x, ("first_moment", i)) for i, x in enumerate(m["first_moment"])]
    s = [list(r) for r in m["second_moment"]]
    for i in range(N):
        for j in range(i):
            s[i][j] = fn(m["second_moment"][i][j], ("second_moment", i, j))
            if full and mirror:
                s[j][i] = s[i][j]
    return {"first_moment": f, "second_moment": s}


def get(m, p):
    for x in p:
        m = m[x]
    return m


def spin(b):
    return -1 if b else 1


def moments(ctx):
    for full in (False, True):
        cls = W + ("FullMoment" if full else "TriangularMoment")
        r = ctx.p.records.get(cls)
        if not r or not {"first_moment", "second_moment"} <= set(f["n"] for f in r["fields"]):
            ctx.skip("moment", ("", cls), "members not recognised")
            continue
        M = [moment(k, full) for k in range(3)]

        def go(name, n, cases, ref):
            f = ctx.p.find_method(cls, name, nparams=n)
            if f is None or f.get("body") is None:
                ctx.skip("moment", ("", cls + "::" + name), "not found")
                return
            ctx.functions.add(f["id"])
            what = cls.split("::")[-1] + "::" + name
            env = [(fenv(f, this=m, **ps), None, dict(ps, this=m)) for m, ps in cases]
            ret = f["ret"] if "ret" in f else ""
            if name.startswith("norm") or name == "distance":
                outcome(ctx, "moment", f, cls, env, ref, lambda o: retval(o) if o.kind == "R" else None, what)
            else:
                symmetric(ctx, f, cls, env, ref, what, full)
        go("init", 0, [(m, {}) for m in M], lambda c: {"first_moment": [0] * N, "second_moment": [[0] * len(row) for row in c["this"]["second_moment"]]})
        go("add", 1, [(M[0], {"bv": b}) for b in bits(N)], lambda c: pairs(
            c["this"], full, lambda x, p: x + (spin(c["bv"][p[1]]) if len(p) == 2 else spin(c["bv"][p[1]]) * spin(c["bv"][p[2]])), mirror=False))
        go("average", 1, [(m, {"count": k}) for m in M for k in (2, 5)], lambda c: pairs(c["this"], full, lambda x, p: x / c["count"]))
        go("update", 2, [(M[0], {"m": m, "rate": R}) for m in M], lambda c: pairs(c["this"], full, lambda x, p: x + R * (get(c["m"], p) - x)))
        go("update", 3, [(M[0], {"m": M[1], "m2": M[2], "rate": R}), (M[1], {"m": M[2], "m2": M[0], "rate": R})],
           lambda c: pairs(c["this"], full, lambda x, p: x + R * (get(c["m"], p) - get(c["m2"], p))))
        go("scaled_difference", 3, [(M[0], {"lam": R, "m": M[1], "m2": M[2]}), (M[1], {"lam": Fr(3), "m": M[2], "m2": M[0]})],
           lambda c: pairs(c["this"], full, lambda x, p: c["lam"] * get(c["m"], p) - get(c["m2"], p)))
        go("bound", 1, [(m, {"margin": g}) for m in M for g in (Fr(1, 4), Fr(1, 2), Fr(0))], lambda c: pairs(c["this"], full, lambda x, p: clamp(x, c["margin"] - 1, 1 - c["margin"])))

        def every(m):
            return list(m["first_moment"]) + [m["second_moment"][i][j] for i in range(N) for j in range(i)]
        go("norm_1", 0, [(m, {}) for m in M], lambda c: sum(abs(x) for x in every(c["this"])))
        infinite(ctx, cls, M)
        go("norm_2", 0, [(m, {}) for m in M], lambda c: math.sqrt(sum(x * x for x in every(c["this"]))))
        go("distance", 1, [(M[0], {"m": m}) for m in M], lambda c: math.sqrt(sum((x - y) ** 2 for x, y in zip(every(c["this"]), every(c["m"])))))


def infinite(ctx, cls, M):
    """largest absolute value: by the steps of the two loops over the moments"""
    f = ctx.p.find_method(cls, "norm_infinite", nparams=0)
    if f is None or f.get("body") is None:
        return
    ctx.functions.add(f["id"])
    what = cls.split("::")[-1] + "::norm_infinite"
    try:
        s = Final(ctx, f, cls)
        outs = [o for o in s.outs if o.kind == "R"]
        if len(outs) != 1:
            raise Unknown("paths")
        o = outs[0]
        L1 = s.by[o].get(retval(o).a[0]) if retval(o).op == "hv" else None
        if L1 is None or len(L1.ivs) != 1:
            raise Unknown("outer loop")
        r1 = retval(o)
        key = [k for k, x in head_terms(L1) if x is r1]
        inner = list({e.uid: e for b in L1.bodies for e in trace(b.st) if e.kind == "loop"}.values())
        if len(key) != 1 or len(inner) != 1 or len(inner[0].ivs) != 1:
            raise Unknown("inner loop")
        key, L2 = key[0], inner[0]
        met = [e for b in L1.bodies for e in trace(b.st) if e.kind == "loop"]

        def at(st):
            t = getroot(st, key[0])
            for x in key[1]:
                t = proj(t, x)
            return t
        r2 = at(L2.head)
        n = 0

        def step(bodies, head, env, want, case):
            v = Values(s.eng, s.by[o], env)
            for b in bodies:
                h = v.holds([(d, iv) for d, iv in b.facts.items() if head.facts.get(d) != iv and not any(x.op == "hv" and x not in env for x in subterms(d))])
                if h is False:
                    continue
                got = evaluated(v, at(b))
                if got is None:
                    raise Unknown("step")
                if isinstance(got, str) or not same(got, want):
                    ctx.bad("moment", f, f["line"], "%s: %s instead of %s, for %s" % (what, brief(got), brief(want), brief(case)))
                    raise StopIteration
        for m in M:
            base = {initv(("THIS",)): m}
            if evaluated(Values(s.eng, s.by[o], base), at(L1.entry)) != 0:
                raise Unknown("start")
            ii = visited(s, s.by[o], L1, base, L1.ivs[0][0])
            for i in ii:
                for r in (Fr(0), Fr(1, 2), Fr(2)):
                    env = dict(base)
                    env[r1], env[L1.ivs[0][0]] = r, i
                    step([e.entry for e in met], L1.head, env, max(r, abs(m["first_moment"][i])), {"so far": r, "moment": m["first_moment"][i]})
                    jj = visited(s, s.by[o], L2, env, L2.ivs[0][0])
                    if ii != list(range(N)) or jj != list(range(i)):
                        ctx.bad("moment", f, f["line"], "%s: not all moments are looked at" % what)
                        return
                    for j in jj:
                        env[r2], env[L2.ivs[0][0]] = r, j
                        step([b.st for e in met if at(e.head) is r2 for b in e.bodies if b.kind in ("N", "C")], L2.head, env, max(r, abs(m["second_moment"][i][j])), {"so far": r, "moment": m["second_moment"][i][j]})
                        n += 1
        ctx.ok("moment", "%s: %d steps" % (what, n))
    except StopIteration:
        return
    except (TooComplex, Unknown) as x:
        ctx.skip("moment", f, "%s: %s" % (what, x))


def head_terms(ev):
    """(location, term) of the variables of a loop at its head"""
    out = []
    for k in ev.hv:
        t = getroot(ev.head, k[0])
        for x in k[1]:
            t = proj(t, x)
        out.append((k, t))
    return out


def visited(s, loops, ev, env, ivt):
    """values of the loop variable, from its start while some iteration is possible"""
    iv = {x: (ini, stp) for x, ini, stp in ev.ivs}
    if ivt not in iv:
        raise Unknown("loop variable")
    v = Values(s.eng, loops, env)
    x, stp = v.ev(iv[ivt][0]), iv[ivt][1]
    if not isinstance(stp, int):
        stp = v.ev(stp)
    out = []
    while len(out) < 64:
        e = dict(env)
        e[ivt] = x
        v = Values(s.eng, loops, e)
        ok = False
        for b in ev.bodies:
            if b.kind in ("N", "C"):
                h = v.holds([(d, i) for d, i in b.st.facts.items() if ev.head.facts.get(d) != i and ivt in subterms(d) and not any(
                    y.op == "hv" and y is not ivt and y not in e for y in subterms(d))])
                ok = ok or h is not False
        if not ok:
            return out
        out.append(x)
        x += stp
    raise Unknown("no end")


def symmetric(ctx, f, cls, cases, ref, what, full):
    """methods of moments: by closed form, or, where pairs of symmetric elements are written in turn, by the effect of one iteration"""
    try:
        s = Final(ctx, f, cls)
    except TooComplex as x:
        ctx.skip("moment", f, str(x))
        return
    und = n = 0
    for env, _, case in cases:
        want = ref(case)
        for v, o in s.paths(env):
            if o.kind == "X":
                ctx.bad("moment", f, f["line"], "%s throws" % what)
                return
            t = getroot(o.st, ("THIS",))
            for fd in ("first_moment", "second_moment"):
                got = evaluated(v, proj(t, (".", fd)))
                if got is None and fd == "second_moment":
                    try:
                        got = by_steps(s, o, env, case, fd)
                    except Unknown as x:
                        got = None
                if got is None:
                    und += 1
                    continue
                if not same(got, want[fd]):
                    ctx.bad("moment", f, f["line"], "%s: %s becomes %s, by definition it is %s, for %s" % (what, fd, brief(got), brief(want[fd]), brief(case)), key="moment|%s%d" % (f["q"], len(f["ps"])))
                    return
                n += 1
    if n:
        ctx.ok("moment", "%s: %d cases" % (what, n))
    if und:
        ctx.skip("moment", f, "%s: %d values without closed form" % (what, und))


def by_steps(s, o, env, case, fd):
    """content of a matrix member after two nested loops of which each iteration writes an element and its mirror image"""
    t = proj(getroot(o.st, ("THIS",)), (".", fd))
    if t.op != "hv":
        raise Unknown("not a loop variable")
    loops = s.by[o]
    L1 = loops.get(t.a[0])
    if L1 is None:
        raise Unknown("no loop")
    if len([e for e in trace(o.st) if e.kind == "loop" and any(k == (("THIS",), ((".", fd),)) for k in e.hv)]) != 1:
        raise Unknown("several loops")
    M = case["this"][fd]
    writes = {}
    for b1 in L1.bodies:
        if b1.kind not in ("N", "C"):
            raise Unknown("loop left")
    i1 = [x for x, _, st in L1.ivs]
    if len(i1) != 1:
        raise Unknown("outer loop")
    inner = list({e.uid: e for b in L1.bodies for e in trace(b.st) if e.kind == "loop" and any(k == (("THIS",), ((".", fd),)) for k in e.hv)}.values())
    if len(inner) != 1 or len(inner[0].ivs) != 1:
        raise Unknown("inner loop")
    L2 = inner[0]
    e1 = dict(env)
    for k, x in head_terms(L1):
        if k == (("THIS",), ((".", fd),)):
            e1[x] = M
    for i in visited(s, loops, L1, e1, i1[0]):
        e2 = dict(e1)
        e2[i1[0]] = i
        j0 = L2.ivs[0][0]
        for k, x in head_terms(L2):
            if k == (("THIS",), ((".", fd),)):
                e2[x] = M
        for j in visited(s, loops, L2, e2, j0):
            e3 = dict(e2)
            e3[j0] = j
            v = Values(s.eng, loops, e3)
            done = 0
            for b in L2.bodies:
                if b.kind not in ("N", "C"):
                    continue
                h = v.holds([(d, iv) for d, iv in b.st.facts.items() if L2.head.facts.get(d) != iv])
                if h is None:
                    raise Unknown("iteration")
                if not h:
                    continue
                done += 1
                got = v.ev(proj(getroot(b.st, ("THIS",)), (".", fd)))
                for a in range(len(M)):
                    for c in range(len(M[a])):
                        wrote = got[a][c] != M[a][c]
                        if wrote or (a, c) in ((i, j), (j, i)):
                            if (a, c) in writes and writes[a, c] != got[a][c]:
                                raise Unknown("element written twice")
                            writes[a, c] = got[a][c]
            if done != 1:
                raise Unknown("iteration")
    res = [list(r) for r in M]
    for (a, c), x in writes.items():
        res[a][c] = x
    return res


# ---------------------------------------------------------------- samplers
US = (Fr(0), Fr(1, 50), Fr(1, 5), Fr(2, 5), Fr(11, 20), Fr(4, 5), Fr(49, 50))


def designated(s):
    """what reference members designate"""
    out = set()
    for o in s.outs:
        todo = list(o.st.facts)
        todo.append(getroot(o.st, ("THIS",)))
        for e in all_loops(o.st).values():
            for b in e.bodies:
                todo += list(b.st.facts)
                todo.append(getroot(b.st, ("THIS",)))
        for t in todo:
            for x in subterms(t):
                if x.op == "init" and x.a[0][0] == "D":
                    out.add(x)
    return out


def logistic(x):
    return 1 / (1 + math.exp(-x))


def field_after(s, v, o, fd):
    return evaluated(v, proj(getroot(o.st, ("THIS",)), (".", fd)))


def fields_of(ctx, cls):
    return {f["n"]: plain(f["t"]).replace("const ", "").replace("&", "").strip() for f in (ctx.p.records.get(cls) or {"fields": []})["fields"]}


def only(fs, pred):
    r = [n for n, t in fs.items() if pred(t)]
    return r[0] if len(r) == 1 else None


def compare(ctx, kind, f, got, want, what, case, count):
    if got is None:
        count[1] += 1
        return True
    if isinstance(got, str) or not same(got, want):
        ctx.bad(kind, f, f["line"], "%s: %s instead of %s, for %s" % (what, brief(got), brief(want), brief(case)), key="%s|%s" % (kind, f["q"]))
        return False
    count[0] += 1
    return True


def settle(ctx, kind, f, what, count):
    if count[0]:
        ctx.ok(kind, "%s: %d cases" % (what, count[0]))
    if count[1]:
        ctx.skip(kind, f, "%s: %d values without closed form" % (what, count[1]))


def local_field(m, i, bv, js, full):
    """energy difference of bit i given the bits js"""
    d = m["first_moment"][i]
    for j in js:
        if j != i:
            d += spin(bv[j]) * (m["second_moment"][i][j] if full else m["second_moment"][max(i, j)][min(i, j)])
    return d


def draws_vary(s, terms):
    """draws inside tabulations come from the engine as each iteration finds it"""
    for t in terms:
        for x in subterms(t):
            if x.op != "tab":
                continue
            for y in subterms(x.a[4]):
                if y.op == "call" and isinstance(y.a[0], str) and y.a[0].startswith("std::") and y.a[0].endswith("operator()") and "distribution" in y.a[0]:
                    if not any(z.op in ("hv", "bvar") for z in subterms(y)):
                        return False
    return True


def gibbs(ctx):
    for full in (False, True):
        cls = W + ("FullMoment" if full else "TriangularMoment") + "GibbsSampler"
        fs = fields_of(ctx, cls)
        state = only(fs, isbv)
        pv = only(fs, ispv)
        ms = [moment(k, full) for k in range(2)]
        for name, np in (("update", 1), ("update_sync", 0)):
            f = ctx.p.find_method(cls, name, nparams=np)
            if f is None or f.get("body") is None or not state:
                ctx.skip("sampler", ("", cls + "::" + name), "not found")
                continue
            ctx.functions.add(f["id"])
            try:
                s = Final(ctx, f, cls)
            except TooComplex as x:
                ctx.skip("sampler", f, str(x))
                continue
            ds = designated(s)
            if len(ds) != 1:
                ctx.skip("sampler", f, "model parameters not recognised")
                continue
            what = cls.split("::")[-1] + "::" + name
            count, ok = [0, 0], True
            for m in ms:
                for bv in bits(N):
                    for u in US:
                        for i in range(N) if np else [None]:
                            this = {state: bv, pv: [Fr(0)] * N} if pv else {state: bv}
                            env = fenv(f, this=this, i=i) if np else fenv(f, this=this)
                            env[list(ds)[0]] = m
                            want = list(bv)
                            for j in ([i] if np else range(N)):
                                want[j] = int(u < logistic(-2 * float(local_field(m, j, bv, range(N), full))))
                            for v, o in s.paths(env, {"uniform_real": u}):
                                ok = ok and compare(ctx, "sampler", f, "exception" if o.kind == "X" else field_after(s, v, o, state), want, what, {"state": bv, "draw": u, "bit": i, "parameters": m}, count)
                            if not ok:
                                break
                        if not ok:
                            break
                    if not ok:
                        break
                if not ok:
                    break
            if ok and not np and not count[0]:
                ok = renewed_in_turn(ctx, f, s, ms[0], list(ds)[0], state, pv, full, what, count)
            if ok:
                settle(ctx, "sampler", f, what, count)
                if not np:
                    ctx.check(draws_vary(s, [getroot(o.st, ("THIS",)) for o in s.outs]), "sampler", f, f["line"], "%s: the bits are decided by one and the same draw" % what)


def renewed_in_turn(ctx, f, s, m, par, state, pv, full, what, count):
    """bits written one after the other: one iteration must not depend on those already renewed"""
    for o in s.outs:
        loops = [e for e in trace(o.st) if e.kind == "loop" and any(k == (("THIS",), ((".", state),)) for k in e.hv)]
        if o.kind not in ("R", "N") or len(loops) != 1 or not loops[0].ivs:
            continue
        L = loops[0]
        t = [x for k, x in head_terms(L) if k == (("THIS",), ((".", state),))][0]
        for old in bits(N):
            for u in US:
                base = {initv(("THIS",)): {state: old, pv: [Fr(0)] * N}, par: m}
                try:
                    order = visited(s, s.by[o], L, dict(base, **{}), L.ivs[0][0])
                except Unknown:
                    return True
                if sorted(order) != list(range(N)):
                    return True
                for k, i in enumerate(order):
                    now = [1 - b if j in order[:k] else b for j, b in enumerate(old)]
                    env = dict(base)
                    env[t], env[L.ivs[0][0]] = now, i
                    v = Drawn(s.eng, s.by[o], env, {"uniform_real": u})
                    want = list(now)
                    want[i] = int(u < logistic(-2 * float(local_field(m, i, old, range(N), full))))
                    for b in L.bodies:
                        if b.kind not in ("N", "C"):
                            continue
                        h = v.holds([(d, iv) for d, iv in b.st.facts.items() if L.head.facts.get(d) != iv])
                        if h and not compare(ctx, "sampler", f, evaluated(v, proj(getroot(b.st, ("THIS",)), (".", state))), want, what + " (one bit, others already renewed)",
                                             {"state": old, "renewed": order[:k], "bit": i, "draw": u}, count):
                            return False
    return True


class Algebra(object):
    """operations on models as terms"""

    def __init__(self, scalar):
        self.scalar = scalar      # a whole model stands for one of its components
        self.n = 0

    def __call__(self, eng, e, st, q, g, ol, args):
        q = q or ""
        last = q.rsplit("::", 1)[-1]
        cls = (g or {}).get("cls") or ""

        def val(a):
            return read(st, a[1]) if isinstance(a, tuple) else a

        def put_at(l, v):
            s = write(st, l, v)
            s = s[0] if isinstance(s, list) else s
            return [(s, mk("void"))]
        if q.startswith(A + "pv_") and args and isinstance(args[0], tuple):
            l, x = args[0][1], val(args[0])
            if last == "pv_sample" and len(args) == 2 and isinstance(args[1], tuple):
                self.n += 1
                s = eng.havoc_engine(st) if hasattr(eng, "havoc_engine") else st
                return [(write(s, args[1][1], mk("sampled", self.n, x)), mk("void"))]
            if not self.scalar:
                return None
            v = [val(a) for a in args[1:]]
            r = self.op(last[3:], x, v)
            if r is not None:
                return put_at(l, r)
        if cls in (W + "TriangularMoment", W + "FullMoment") and ol is not None and last in ("init", "add", "average", "update", "scaled_difference", "bound"):
            x = read(st, ol)
            v = [val(a) for a in args]
            if self.scalar:
                if last == "bound" and len(v) == 1:
                    v = [add(v[0], C(-1)), sub(C(1), v[0])]
                r = self.op(last, x, v)
            else:
                r = mk("mod", last, x, *v)
            if r is not None:
                return put_at(ol, r)
        if cls == A + "Population" and ol is not None and last in ("evaluate", "evaluate_in_parallel"):
            getattr(self, "seen", []).append((ol[1][-1][1] if ol[1] else "?", proj(read(st, ol), (".", "bvs"))))
        if cls == A + "Population" and ol is not None and last in ("evaluate", "evaluate_in_parallel", "sort", "partial_sort", "random", "shuffle"):
            return put_at(ol, mk("ranked", ol[1][-1][1] if ol[1] else "?"))
        if last == "map" and len(args) == 2 and ol is not None and isinstance(args[1], tuple) and "Map" in cls:
            return put_at(args[1][1], mk("image", read(st, ol), val(args[0])))
        return None

    def op(self, name, x, v):
        if name == "init":
            return C(0)
        if name == "uniform":
            return C(Fr(1, 2))
        if name == "add" and len(v) == 1:
            return add(x, typed(mk("bit", v[0]), "double"))
        if name == "add" and len(v) == 2:
            return add(x, mul(typed(mk("bit", v[0]), "double"), v[1]))
        if name == "average" and len(v) == 1:
            return typed(mk("/", x, v[0]), "double")
        if name == "update" and len(v) == 2:
            return add(x, mul(v[1], sub(typed(mk("bit", v[0]), "double"), x)))
        if name == "update" and len(v) == 3:
            return add(x, mul(v[2], sub(typed(mk("bit", v[0]), "double"), typed(mk("bit", v[1]), "double"))))
        if name == "bound" and len(v) == 2:
            return typed(mk("clamp", x, v[0], v[1]), "double")
        return None


class Learned(Drawn):
    def op_bit(self, t):
        return self.ev(t.a[0])

    def op_clamp(self, t):
        x, lo, hi = [self.ev(y) for y in t.a]
        return [clamp(y, lo, hi) for y in x] if isinstance(x, list) else clamp(x, lo, hi)

    def op_sampled(self, t):
        r = self.env.get("sampled", {}).get(t.a[0])
        if r is None:
            raise Unknown("sample")
        return r

    def op_call(self, t):
        if isinstance(t.a[0], str) and t.a[0].endswith("::evaluate") and "fitness" in self.env:
            for x in t.a[1:]:
                if isinstance(x, T) and evaluated(self, x) in (self.env["sampled"][1], self.env["sampled"][2]):
                    return self.env["fitness"][tuple(self.ev(x))]
        return Drawn.op_call(self, t)

    def op_image(self, t):
        return Fr(1, 3) - self.ev(t.a[1])

    def op_ranked(self, t):
        r = self.env.get("ranked", {}).get(t.a[0])
        if r is None:
            raise Unknown("population")
        return r

    def op_after(self, t):
        # the opaque calls of an iteration (length of sequences, samplers) do not touch the model
        return self.ev(t.a[1])

    def op_mod(self, t):
        name, x, v = t.a[0], t.a[1], t.a[2:]
        full = self.draws["full"]
        v = [self.ev(y) for y in v]
        if name == "scaled_difference":
            return pairs(v[1], full, lambda y, p: v[0] * y - get(v[2], p))
        if name == "add":
            bv = v[0]
            return pairs(self.ev(x), full, lambda y, p: y + (spin(bv[p[1]]) if len(p) == 2 else spin(bv[p[1]]) * spin(bv[p[2]])), mirror=False)
        raise Unknown(name)


def herding(ctx):
    for full in (False, True):
        cls = W + ("FullMoment" if full else "TriangularMoment") + "Herding"
        f = ctx.p.find_method(cls, "sample", nparams=2)
        fs = fields_of(ctx, cls)
        if f is None or f.get("body") is None:
            ctx.skip("sampler", ("", cls), "sample not found")
            continue
        ctx.functions.add(f["id"])
        try:
            s = Final(ctx, f, cls, on_call=Algebra(False))
        except TooComplex as x:
            ctx.skip("sampler", f, str(x))
            continue
        what = cls.split("::")[-1] + "::sample"
        perm = only(fs, lambda t: t.startswith("std::vector<int"))
        flag = only(fs, lambda t: t == "bool")
        time = only(fs, lambda t: t == "int")
        if not (perm and flag and time):
            ctx.skip("sampler", f, "members not recognised")
            continue
        count = [0, 0]
        good = True
        for o in s.outs:
            if o.kind in ("R", "N") and good:
                good = one_bit(ctx, f, s, o, full, perm, flag, time, what, count)
        if good:
            settle(ctx, "sampler", f, what, count)


def one_bit(ctx, f, s, o, full, perm, flag, time, what, count):
    """one iteration of the loop over the bits: its bit is the sign of the local field of the bits already set"""
    tgn, bvn = f["ps"][0]["n"], f["ps"][1]["n"]
    loops = [e for e in trace(o.st) if e.kind == "loop" and any(k[0] == ("P", bvn) for k in e.hv)]
    if len(loops) != 1 or not loops[0].ivs:
        count[1] += 1
        return True
    L = loops[0]
    bvt = [x for k, x in head_terms(L) if k == (("P", bvn), ())]
    if not bvt:
        count[1] += 1
        return True
    bvt = bvt[0]
    target = moment(0, full)
    t_end = getroot(o.st, ("THIS",))
    near = pairs(target, full, lambda y, p: Fr(13, 2) * y)
    for order, cnt in (([0, 1, 2, 3], moment(1, full)), ([2, 0, 3, 1], moment(1, full)), ([0, 1, 2, 3], near), ([2, 0, 3, 1], near)):
        randomized = int(order != [0, 1, 2, 3])
        this = {perm: order, flag: randomized, time: 6}
        for n, t in fields_of(ctx, f["cls"]).items():
            if "Moment" in t:
                this[n] = cnt
        base = {initv(("THIS",)): this, initv(("P", tgn)): target, initv(("P", bvn)): [0] * N}
        pt = proj(getroot(L.head, ("THIS",)), (".", perm))
        if pt.op != "fld":
            base[pt] = order
        v0 = Learned(s.eng, s.by[o], base, {"full": full})
        if v0.holds([(d, iv) for d, iv in o.st.facts.items() if not any(x.op == "hv" for x in subterms(d))]) is False:
            continue
        # before the loop: the time has advanced by one, the permutation is still one
        T = 7
        got = evaluated(v0, proj(t_end, (".", time)))
        if not compare(ctx, "sampler", f, got, T, what + " (time)", {"time": 6}, count):
            return False
        d = {"first_moment": [T * x - y for x, y in zip(target["first_moment"], cnt["first_moment"])],
             "second_moment": [[T * x - y for x, y in zip(a, b)] for a, b in zip(target["second_moment"], cnt["second_moment"])]}
        for k in range(N):
            i = order[k]
            for bv in bits(N):
                env = dict(base)
                env[bvt] = bv
                for x, ini, stp in L.ivs:
                    a = evaluated(v0, ini)
                    if a is None or not isinstance(stp, int):
                        count[1] += 1
                        return True
                    env[x] = a + k * stp
                v = Learned(s.eng, s.by[o], env, {"full": full})
                want = list(bv)
                want[i] = int(not local_field(d, i, bv, order[:k], full) > 0)
                for b in L.bodies:
                    if b.kind not in ("N", "C"):
                        continue
                    h = v.holds([(dd, iv) for dd, iv in b.st.facts.items() if L.head.facts.get(dd) != iv])
                    if h is False:
                        continue
                    if h is None:
                        count[1] += 1
                        continue
                    if not compare(ctx, "sampler", f, evaluated(v, getroot(b.st, ("P", bvn))), want, what + " (one bit)",
                                   {"bits": bv, "order": order, "position": k, "time": T, "target": target, "count": cnt}, count):
                        return False
        # after the loop: the sample is counted
        for bv in bits(N)[::3]:
            env = dict(base)
            env[getroot(o.st, ("P", bvn))] = bv
            v = Learned(s.eng, s.by[o], env, {"full": full})
            want = pairs(cnt, full, lambda y, p: y + (spin(bv[p[1]]) if len(p) == 2 else spin(bv[p[1]]) * spin(bv[p[2]])), mirror=False)
            moms = [n for n, t in fields_of(ctx, f["cls"]).items() if "Moment" in t]
            gots = [evaluated(v, proj(t_end, (".", n))) for n in moms]
            if all(g is not None for g in gots):
                if not any(isinstance(g, dict) and same(g, want) for g in gots):
                    ctx.bad("sampler", f, f["line"], "%s: the sample %s is not counted" % (what, brief(bv)))
                    return False
                count[0] += 1
            else:
                count[1] += 1
    return True


def crossover(ctx):
    """each bit of an offspring comes from the same position of one of the parents, as its own draw says"""
    for cls, second in ((A + "UniformCrossover", None), (A + "BiasedCrossover", 1)):
        f = ctx.p.find_method(cls, "recombine", nparams=3)
        if f is None or f.get("body") is None:
            ctx.skip("crossover", ("", cls), "recombine not found")
            continue
        ctx.functions.add(f["id"])
        try:
            s = Final(ctx, f, cls)
        except TooComplex as x:
            ctx.skip("crossover", f, str(x))
            continue
        what = cls.split("::")[-1]
        count, ok = [0, 0], True
        took = {}
        for a in bits(3):
            for b in bits(3):
                for d in (0, 1):
                    env = fenv(f, this={}, p1=a, p2=b, o=[0] * 3)
                    for v, o in s.paths(env, {"bernoulli": d}):
                        got = "exception" if o.kind == "X" else evaluated(v, getroot(o.st, ("P", f["ps"][2]["n"])))
                        if got is None:
                            count[1] += 1
                        elif got not in (a, b) or (second is not None and got != (b if d == second else a)):
                            ok = False
                        else:
                            count[0] += 1
                            if a != b:
                                took.setdefault(d, set()).add(got == b)
        if not ok or (len(took) == 2 and took[0] == took[1]):
            ctx.bad("crossover", f, f["line"], "%s: the bits of the offspring are not those of the parent each draw stands for" % what)
        else:
            settle(ctx, "crossover", f, what, count)
        if count[0]:
            ctx.check(draws_vary(s, [getroot(o.st, ("P", f["ps"][2]["n"])) for o in s.outs]), "crossover", f, f["line"], "%s: all bits are decided by one and the same draw" % what)


# ---------------------------------------------------------------- learning
def cell(ty):
    return ty.startswith("std::vector<double") or ty.endswith("TriangularMoment") or ty.endswith("FullMoment") or ty == "Moment"


POP = [Fr(2, 7), Fr(5, 11), Fr(8, 13), Fr(1, 17), Fr(12, 19)]
RANK = [3, 0, 4, 2, 1]


def population(k):
    n = len(POP)
    bvs = [x + Fr(k, 23) for x in POP]
    return {"bvs": bvs, "values": [Fr(n - RANK.index(i)) for i in range(n)], "permutation": list(RANK)}


def iteration(ctx, cls):
    f = ctx.p.find_method(cls, "iterate", nparams=0)
    if f is None or f.get("body") is None:
        ctx.skip("learning", ("", cls), "iterate not found")
        return None, None
    ctx.functions.add(f["id"])

    def inline(eng, e, g, ol):
        c = g.get("cls") or ""
        if c.startswith(W) and not c.startswith(W + "BmPbil") and not c.startswith(W + "Hea"):
            return False
        if g["q"].rsplit("::", 1)[-1] in ("compute_ts_length", "recombine", "random", "invert", "evaluate_in_parallel"):
            return False
        return None
    try:
        return f, Final(ctx, f, cls, on_call=Algebra(True), inline=inline)
    except TooComplex as x:
        ctx.skip("learning", f, str(x))
        return None, None


def mean(xs):
    return sum(xs, Fr(0)) / len(xs)


def best(p, k):
    return [p["bvs"][RANK[i]] for i in range(k)]


def worst(p, k):
    return [p["bvs"][RANK[len(RANK) - 1 - i]] for i in range(k)]


LO, HI, RATE, OLD = Fr(3, 10), Fr(2, 5), Fr(1, 3), Fr(6, 17)


def learn(ctx, cls, model, expect, pops=("_population",)):
    f, s = iteration(ctx, cls)
    if f is None:
        return
    fs = {}
    for c in [cls] + list(ctx.p.bases(cls)):
        for n, t in fields_of(ctx, c).items():
            fs.setdefault(n, t)
    if model not in fs:
        ctx.skip("learning", f, "model not recognised")
        return
    count, ok = [0, 0], True
    what = f["q"].split("::", 2)[-1]
    for sel in (1, 2, 3):
        for lo, hi in ((Fr(0), Fr(1)), (LO, HI), (Fr(9, 20), Fr(1)), (Fr(0), Fr(7, 20)), (Fr(1, 2), Fr(3, 5)), (Fr(1, 10), Fr(1, 5))):
            for flags in itertools.product((0, 1), repeat=1):
                ranked = {n: population(k) for k, n in enumerate(p for p, t in sorted(fs.items()) if t.endswith("Population"))}
                this = {n: OLD for n, t in fs.items() if cell(t)}
                this.update({n: Fr(1, 29) + i for i, n in enumerate(sorted(fs)) if fs[n] == "double"})
                this.update({n: 4 for n in fs if fs[n] == "int"})
                this.update({n: flags[0] for n in fs if fs[n] == "bool"})
                this.update(ranked)
                this.update({"_selection_size": sel, "_learning_rate": RATE, "_lower_bound": lo, "_upper_bound": hi, "_margin": 1 - hi})
                this["_solution"] = {"first": Fr(14, 31), "second": Fr(2)}
                env = {initv(("THIS",)): this, "ranked": ranked, "sampled": {k: Fr(k, 37) for k in range(1, 9)}}
                for o in s.outs:
                    if o.kind not in ("R", "N"):
                        continue
                    v = Learned(s.eng, s.by[o], env)
                    if v.holds([(d, iv) for d, iv in o.st.facts.items() if not any(x.op == "hv" for x in subterms(d))]) is False:
                        continue
                    end = getroot(o.st, ("THIS",))
                    want = expect(this, ranked, OLD, evaluated(v, proj(proj(end, (".", "_solution")), (".", "first"))))
                    got = evaluated(v, proj(end, (".", model)))
                    if want is None:
                        count[1] += 1
                        continue
                    ok = ok and compare(ctx, "learning", f, got, want, what, {"selected": sel, "rate": RATE, "bounds": [lo, hi], "model": OLD, "sample": POP, "ranks": RANK}, count)
                if not ok:
                    return
    settle(ctx, "learning", f, what, count)


def compact(ctx):
    """compact genetic algorithm: where the two candidates differ, one step towards the better one"""
    cls = A + "CompactGa"
    f, s = iteration(ctx, cls)
    if f is None:
        return
    count = [0, 0]
    old = [Fr(1, 2), Fr(1, 4), Fr(9, 10)]
    for a in bits(3):
        for b in bits(3):
            for fa, fb in ((1, 2), (2, 1), (1, 1)):
                if a == b and fa != fb:
                    continue
                for lo, hi in ((Fr(0), Fr(2)), (Fr(2, 5), Fr(3, 5))):
                    this = {"_pv": old, "_learning_rate": R, "_lower_bound": lo, "_upper_bound": hi, "_candidates": [[0] * 3, [0] * 3], "_solution": {"first": [0] * 3, "second": Fr(0)}}
                    env = {initv(("THIS",)): this, "sampled": {1: a, 2: b}, "fitness": {tuple(a): Fr(fa), tuple(b): Fr(fb)}}
                    win, lose = (a, b) if fa >= fb else (b, a)
                    wants = [[clamp(x + R * (w - l), lo, hi) for x, w, l in zip(old, win, lose)]]
                    if fa == fb:
                        wants.append([clamp(x + R * (l - w), lo, hi) for x, w, l in zip(old, win, lose)])
                    for o in s.outs:
                        if o.kind not in ("R", "N"):
                            continue
                        v = Learned(s.eng, s.by[o], env)
                        if v.holds([(d, iv) for d, iv in o.st.facts.items() if not any(x.op == "hv" for x in subterms(d))]) is False:
                            continue
                        got = evaluated(v, proj(getroot(o.st, ("THIS",)), (".", "_pv")))
                        if got is not None and not isinstance(got, str) and any(same(got, w) for w in wants):
                            count[0] += 1
                        elif not compare(ctx, "learning", f, got, wants[0], "CompactGa::iterate", {"candidates": [a, b], "values": [fa, fb], "model": old, "bounds": [lo, hi]}, count):
                            return
    settle(ctx, "learning", f, "CompactGa::iterate", count)


def learning(ctx):
    def pop(t, r):
        return r["_population"]
    learn(ctx, A + "Pbil", "_pv", lambda t, r, x, sol: clamp(x + RATE * (mean(best(pop(t, r), t["_selection_size"])) - x), t["_lower_bound"], t["_upper_bound"]))
    learn(ctx, A + "Umda", "_pv", lambda t, r, x, sol: clamp(mean(best(pop(t, r), t["_selection_size"])), t["_lower_bound"], t["_upper_bound"]))
    learn(ctx, A + "NpsPbil", "_pv", lambda t, r, x, sol: clamp(x + RATE * (mean(best(pop(t, r), t["_selection_size"])) - mean(worst(pop(t, r), t["_selection_size"]))), t["_lower_bound"], t["_upper_bound"]))
    learn(ctx, A + "Mmas", "_pv", lambda t, r, x, sol: None if sol is None else clamp(x + RATE * (sol - x), t["_lower_bound"], t["_upper_bound"]))

    def latent(t, r):
        return clamp(mean([Fr(1, 3) - x for x in best(r["_population_x"], t["_selection_size"])]), t["_lower_bound"], t["_upper_bound"])
    learn(ctx, A + "RamUmda", "_pv", lambda t, r, x, sol: latent(t, r))
    learn(ctx, A + "RamUmda2", "_pv", lambda t, r, x, sol: clamp(mean(best(r["_population_x"], t["_selection_size"])), t["_lower_bound"], t["_upper_bound"]))
    learn(ctx, A + "RamUmda2", "_pv_y", lambda t, r, x, sol: latent(t, r))
    compact(ctx)
    for cls in sorted(ctx.p.records):
        if cls.startswith(W + "Hea<") and not cls.endswith("Mode"):
            learn(ctx, cls, "_target", lambda t, r, x, sol: (lambda y: clamp(y, t["_margin"] - 1, 1 - t["_margin"]) if t["_bound_moment"] else y)(x + RATE * (mean(best(pop(t, r), t["_selection_size"])) - x)))
        if cls.startswith(W + "BmPbil<") and not cls.endswith("Mode"):
            learn(ctx, cls, "_model_parameters", lambda t, r, x, sol: x + RATE * (mean(best(pop(t, r), t["_selection_size"])) - (
                mean(worst(pop(t, r), t["_selection_size"])) if t["_negative_positive_selection"] else mean(pop(t, r)["bvs"]))))


def starts(ctx):
    """a run starts from the uniform model"""
    half = Fr(1, 2)
    specs = [(A + c, "_pv", half) for c in ("Pbil", "NpsPbil", "Umda", "CompactGa")] + [(A + "Mmas", "_pv", None)]
    specs += [(c, "_target", 0) for c in sorted(ctx.p.records) if c.startswith(W + "Hea<") and not c.endswith("Mode")]
    specs += [(c, "_model_parameters", 0) for c in sorted(ctx.p.records) if c.startswith(W + "BmPbil<") and not c.endswith("Mode")]
    for cls, model, want in specs:
        f = ctx.p.find_method(cls, "init", nparams=0)
        if f is None or f.get("body") is None:
            ctx.skip("start", ("", cls), "init not found")
            continue
        ctx.functions.add(f["id"])
        try:
            s = Final(ctx, f, cls, on_call=Algebra(True), inline=lambda eng, e, g, ol: False if (g.get("cls") or "").endswith(("Sampler", "Herding")) else None)
        except TooComplex as x:
            ctx.skip("start", f, str(x))
            continue
        count = [0, 0]
        for lo, hi in ((Fr(0), Fr(1)), (Fr(2, 5), Fr(3, 5))):
            for o in s.outs:
                if o.kind not in ("R", "N"):
                    continue
                end = getroot(o.st, ("THIS",))
                sol = proj(proj(end, (".", "_solution")), (".", "first"))
                env = {initv(("THIS",)): {model: Fr(6, 17), "_learning_rate": RATE, "_lower_bound": lo, "_upper_bound": hi}, sol: Fr(14, 31)}
                v = Learned(s.eng, s.by[o], env)
                w = clamp(half + RATE * (Fr(14, 31) - half), lo, hi) if want is None else want
                if not compare(ctx, "start", f, evaluated(v, proj(end, (".", model))), w, "model at the start of a run", {"bounds": [lo, hi]}, count):
                    break
        else:
            settle(ctx, "start", f, f["q"].split("::", 2)[-1], count)


def sampled_whole(ctx):
    """every individual is sampled anew from the model"""
    for c, fd in (("Pbil", "_population"), ("NpsPbil", "_population"), ("Umda", "_population"), ("RamUmda", "_population_x"), ("RamUmda2", "_population_x")):
        alg = Algebra(True)
        alg.seen = []
        f = ctx.p.find_method(A + c, "iterate", nparams=0)
        if f is None or f.get("body") is None:
            continue
        try:
            s = Final(ctx, f, A + c, on_call=alg, inline=lambda eng, e, g, ol: False if g["q"].rsplit("::", 1)[-1] in ("compute_ts_length", "recombine", "random", "invert") else None)
        except TooComplex as x:
            ctx.skip("population", f, str(x))
            continue
        old = [Fr(-1), Fr(-2), Fr(-3)]
        pop = {"bvs": old, "values": old, "permutation": [0, 1, 2]}
        env = {initv(("THIS",)): {fd: pop, "_population_y": pop, "_selection_size": 1, "_pv": OLD}, "ranked": {fd: pop}, "sampled": {k: Fr(k) for k in range(1, 50)}}
        terms = []
        if c.startswith("Ram"):
            terms = [(o, proj(proj(getroot(o.st, ("THIS",)), (".", fd)), (".", "bvs"))) for o in s.outs if o.kind in ("R", "N")]
        else:
            terms = [(o, t) for o in s.outs[:1] for n, t in alg.seen if n == fd]
        count, bad = [0, 0], False
        for o, t in terms:
            got = evaluated(Learned(s.eng, s.by[o], env), t)
            if got is None:
                count[1] += 1
            elif isinstance(got, str) or any(x in old for x in got):
                bad = True
            else:
                count[0] += 1
        if bad:
            ctx.bad("population", f, f["line"], "%s: some individual is not sampled from the model" % f["q"])
        else:
            settle(ctx, "population", f, f["q"], count)


def mimic(ctx):
    cls = A + "Mimic"
    f = ctx.p.find_method(cls, "compute_conditional_entropy", nparams=1)
    if f is not None and f.get("body") is not None:
        ctx.functions.add(f["id"])
        cases = []
        for t in ([[1, 2], [3, 4]], [[0, 2], [3, 0]], [[0, 0], [2, 5]], [[1, 1], [0, 0]]):
            for i in (0, 2):
                cases.append((fenv(f, this={"_table": t, "_entropies": [Fr(0)] * 3, "_parameters": [[Fr(1, 7)] * 3, [Fr(2, 7)] * 3], "_selection_size": sum(map(sum, t))}, i=i), None, {"table": t, "index": i}))

        def ref(c):
            t, i = c["table"], c["index"]
            h = sum(x * math.log(Fr(sum(r), x)) for r in t for x in r if x)
            e = [0, 0, 0]
            e[i] = h
            pr = [[Fr(1, 7)] * 3, [Fr(2, 7)] * 3]
            for k in (0, 1):
                pr[k][i] = Fr(t[k][1], sum(t[k])) if sum(t[k]) else Fr(1, 2)
            return {"_entropies": e, "_parameters": pr}
        outcome(ctx, "mimic", f, cls, cases, ref, lambda o: getroot(o.st, ("THIS",)), "conditional entropy")
    f = ctx.p.find_method(cls, "sample", nparams=1)
    if f is None or f.get("body") is None:
        ctx.skip("mimic", ("", cls), "sample not found")
        return
    ctx.functions.add(f["id"])
    try:
        s = Final(ctx, f, cls)
    except TooComplex as x:
        ctx.skip("mimic", f, str(x))
        return
    bvn = f["ps"][0]["n"]
    par = [[Fr(1, 9), Fr(3, 9), Fr(5, 9), Fr(7, 9)], [Fr(2, 9), Fr(8, 9), Fr(4, 9), Fr(6, 9)]]
    count = [0, 0]
    for o in s.outs:
        if o.kind not in ("R", "N"):
            continue
        loops = [e for e in trace(o.st) if e.kind == "loop" and any(k == (("P", bvn), ()) for k in e.hv)]
        if len(loops) != 1:
            count[1] += 1
            continue
        L = loops[0]
        bvt = [x for k, x in head_terms(L) if k == (("P", bvn), ())][0]
        for perm in ([0, 1, 2, 3], [2, 0, 3, 1]):
            for u in [Fr(k, 18) for k in (1, 3, 5, 7, 9, 11, 13, 15, 17)]:
                base = {initv(("THIS",)): {"_permutation": perm, "_parameters": par}, initv(("P", bvn)): [0] * 4}
                v = Drawn(s.eng, s.by[o], base, {"uniform_real": u})
                if v.holds([(d, iv) for d, iv in L.entry.facts.items()]) is False:
                    continue
                want = [0] * 4
                want[perm[0]] = int(u < par[1][0])
                if not compare(ctx, "mimic", f, evaluated(v, getroot(L.entry, ("P", bvn))), want, "first sampled bit", {"draw": u, "order": perm, "parameters": par}, count):
                    return
                for k in range(1, 4):
                    for bv in bits(4):
                        env = dict(base)
                        env[bvt] = bv
                        bad = False
                        for x, ini, stp in L.ivs:
                            a = evaluated(v, ini)
                            if a is None or not isinstance(stp, int):
                                bad = True
                            else:
                                env[x] = a + (k - 1) * stp
                        if bad:
                            count[1] += 1
                            continue
                        w = Drawn(s.eng, s.by[o], env, {"uniform_real": u})
                        want = list(bv)
                        want[perm[k]] = int(u < par[bv[perm[k - 1]]][k])
                        for b in L.bodies:
                            if b.kind not in ("N", "C"):
                                continue
                            h = w.holds([(d, iv) for d, iv in b.st.facts.items() if L.head.facts.get(d) != iv])
                            if h is False:
                                continue
                            if not compare(ctx, "mimic", f, evaluated(w, getroot(b.st, ("P", bvn))) if h else None, want, "sampled bit", {"bits": bv, "position": k, "draw": u, "order": perm, "parameters": par}, count):
                                return
    settle(ctx, "mimic", f, "Mimic::sample", count)


def ts_length(ctx):
    cls = A + "RamUmda"
    f = ctx.p.find_method(cls, "compute_ts_length", nparams=0)
    if f is None or f.get("body") is None:
        ctx.skip("length", ("", cls), "compute_ts_length not found")
        return
    ctx.functions.add(f["id"])
    names = ["constant", "increasing", "decreasing", "uniform", "geometric", "reverse_geometric"]
    try:
        s = Final(ctx, f, cls)
    except TooComplex as x:
        ctx.skip("length", f, str(x))
        return
    lo, hi = 3, 9
    count = [0, 0]
    for mode, name in enumerate(names):
        for cur in (3, 4, 8, 9):
            for it in (0, 1, 2, 3, 5):
                for period in (1, 3):
                    for d in (0, 4, 7, 20):
                        this = {"_ts_length_mode": mode, "_current_ts_length": cur, "_iteration": it, "_ts_length_increment_period": period, "_ts_length_lower_bound": lo,
                                "_ts_length_upper_bound": hi, "_ts_length": 5, "_ts_length_distribution_parameter": Fr(1, 4)}
                        step = int((it + 1) % period == 0)
                        want = {"constant": cur, "increasing": min(cur + step, hi), "decreasing": max(cur - step, lo), "uniform": d, "geometric": min(d, hi), "reverse_geometric": max(hi - d, lo)}[name]
                        env = {initv(("THIS",)): this}
                        for v, o in s.paths(env, {"uniform_int": d, "geometric": d}):
                            got = "exception" if o.kind == "X" else evaluated(v, proj(getroot(o.st, ("THIS",)), (".", "_current_ts_length")))
                            if not compare(ctx, "length", f, got, want, "sequence length (%s)" % name, {"length": cur, "iteration": it, "period": period, "bounds": [lo, hi], "draw": d}, count):
                                return
    settle(ctx, "length", f, "sequence length", count)


@rule("P29", "models of estimation of distribution algorithms",
      minimum={"obligations.vector": 5, "obligations.moment": 6},
      assumptions=["real arithmetic", "closed forms are compared with the definitions on small instances in general position", "functions without closed form are listed as undecided"])
def p29(ctx):
    vectors(ctx)
    moments(ctx)
    gibbs(ctx)
    herding(ctx)
    crossover(ctx)
    learning(ctx)
    starts(ctx)
    sampled_whole(ctx)
    mimic(ctx)
    ts_length(ctx)
