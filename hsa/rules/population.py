"""P07 (parallel evaluation) and P11 (ranking of populations)."""
from ..core import rule
from ..q import *
from ..absint import initv, write, diff, assume, cmpterm, decide
from ..effects import Effects
from ..terms import lin, add, sub, subst
from . import solutions as sol
from .solutions import ALG, POP, val, arg

MPOP = "hnco::multiobjective::algorithm::Population"
FNM = "hnco::multiobjective::function::Function"


def effects(ctx):
    if not hasattr(ctx.p, "_effects"):
        ctx.p._effects = Effects(ctx.p)
    return ctx.p._effects


class Ev(object):
    """evaluation model which records what is called in which loop"""

    def __init__(self):
        self.calls = []

    def on_call(self, eng, e, st, q, g, ol, args):
        if q in (FN + "::evaluate", FN + "::evaluate_safely") and len(args) == 1:
            s = eng.event(st, "eval", e, q=q, obj=ol, args=(arg(st, args[0]),))
            return [(s, val(arg(st, args[0])))]
        if q == FNM + "::evaluate" and len(args) == 2 and isinstance(args[1], tuple):
            s = eng.event(st, "eval", e, q=q, obj=ol, args=(arg(st, args[0]),))
            return [(write(s, args[1][1], mk("val", arg(st, args[0]))), mk("void"))]
        if q == FN + "::update" and len(args) == 2:
            s = eng.event(st, "update", e, q=q, obj=ol, args=(arg(st, args[0]), arg(st, args[1])))
            return [(s, mk("void"))]
        return None


def full_tab(t, n, want):
    """t[i] = want(i) for every i in [0, n)?"""
    if t.op != "tab":
        return None
    base, lo, hi, bv, body = t.a
    if not (isc(lo) and lo.a[0] == 0):
        return False
    if hi is not n:
        return False
    return body is want(bv)


def loops(o):
    return [e for e in trace(o.st) if e.kind == "loop"]


def evaluations(ctx, kind, cls, name):
    f = ctx.need(method(ctx, cls, name, 1), cls + "::" + name)
    ev = Ev()
    eng, outs = run(ctx, f, cls, on_call=ev.on_call)
    done = False
    for o in outs:
        if o.kind != "R":
            continue
        B = at(o.st, ((".", "bvs"),))
        V = at(o.st, ((".", "values"),))
        B0 = proj(this0(), (".", "bvs"))
        ctx.check(B is B0, kind, f, f["line"], "evaluation changes the bit vectors of the population")
        n = size_of(B0)
        ns = (n, size_of(proj(this0(), (".", "values"))))
        r = None
        for m in ns:
            r = r or full_tab(V, m, lambda i: val(proj(B0, ("[", i))))
        if V.op == "tab" and not r:
            t = V.a
            ctx.bad(kind, f, f["line"], "values[i] is not the value of bvs[i] for every i: it is %s for i in [%s, %s)" % (
                show(t[4])[:160], show(t[1]), show(t[2])))
        elif r:
            ctx.ok(kind, f["q"])
            done = True
        elif V is proj(this0(), (".", "values")):
            ctx.bad(kind, f, f["line"], "no value is stored")
        else:
            ctx.skip(kind, f, "values not summarised: " + show(V)[:80])
    seen = set()
    for o in outs:
        for le in loops(o):
            if id(le.node) in seen:
                continue
            seen.add(id(le.node))
            ns = [sum(1 for z in trace(b.st) if z.kind == "eval") for b in le.bodies if b.kind != "X"]
            if ns and max(ns) == 1:
                ctx.check(min(ns) == 1, kind, f, le.node.get("l", f["line"]), "an individual is left without an evaluation on some path of the loop")
            elif ns and max(ns) > 1:
                ctx.bad(kind, f, le.node.get("l", f["line"]), "an individual is evaluated %d times" % max(ns))
    return f, outs


def run(ctx, f, cls, **kw):
    eng = Engine(ctx.p, **kw)
    outs = eng.run(f, cls=cls)
    ctx.functions |= eng.nfun
    ctx.count("calls_visited", eng.ncall)
    return eng, outs


def omp_loops(ctx):
    """(function, omp node, loop node)"""
    for f in list(ctx.p.functions.values()):
        if not f["file"].startswith("lib/hnco") or not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "omp":
                l = x.get("s")
                while l is not None and l.get("k") == "block" and len(l["s"]) == 1:
                    l = l["s"][0]
                yield f, x, l


def thread_object(ol):
    """fns[omp_get_thread_num()] for a parameter or member fns"""
    if ol is None or ol[0][0] != "D" or ol[1]:
        return False
    t = ol[0][1]
    return t.op == "sel" and t.a[1].op == "call" and t.a[1].a[0] == "omp_get_thread_num"


def private_root(root):
    return root[0] in ("L", "RNG") or root[0] == "D" and thread_object((root, ()))


def shared_locals(ctx, kind, f, x, l):
    """an iteration does not assign a variable of the enclosing function (shared, unless made private)"""
    inner = {v["id"] for n in walk(l) if n.get("k") == "decl" for v in n["v"]}
    inner |= {n["v"]["id"] for n in walk(l) if n.get("k") == "rfor" and isinstance(n.get("v"), dict) and "id" in n["v"]}
    inner |= {q["id"] for n in walk(l) if n.get("k") == "lam" for q in n.get("ps", [])}
    for c in x.get("clauses", []):
        if c["kind"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
            inner |= {v.get("id") for e in c["vars"] for v in walk(e) if v.get("k") == "var"}
        if c["kind"] == "num_threads":
            for e in c["vars"]:
                if e.get("k") in ("int", "lit", "num") and str(e.get("v")) != "1":
                    ctx.bad(kind, f, x.get("l"), "the number of threads is fixed at %s whatever the number of functions given" % e.get("v"))
    outer = {q["id"] for q in f["ps"]} | {v["id"] for n in walk(f["body"]) if n.get("k") == "decl" for v in n["v"]}
    outer -= inner
    head = [l.get(z) for z in ("i", "init", "inc", "c") if isinstance(l.get(z), dict)]
    mine = {v.get("id") for h in head for n in walk(h) for v in [n.get("lhs") if n.get("k") == "asg" else n.get("e") if n.get("k") == "un" else None]
            if isinstance(v, dict) and v.get("k") == "var"}
    n = 0
    for a in walk(l):
        t = a.get("lhs") if a.get("k") == "asg" else a.get("e") if a.get("k") == "un" and a.get("op") in ("++", "--") else None
        if isinstance(t, dict) and t.get("k") == "var" and t.get("id") in outer and t.get("id") not in mine:
            ctx.bad(kind, f, a.get("l"), "the iterations of the parallel loop assign the variable %s, which all threads share" % t.get("n"))
            n += 1
    if not n:
        ctx.ok(kind, f["q"])


def parallel_loops(ctx, iso, safe):
    for f, x, l in omp_loops(ctx):
        if l is None or l.get("k") not in ("for", "rfor"):
            ctx.skip(iso, f, "parallel region which is not a loop")
            continue
        single = not f["q"].startswith("hnco::multiobjective")
        shared_locals(ctx, iso, f, x, l)
        ev = Ev()
        try:
            eng, outs = run(ctx, f, f.get("cls"), on_call=ev.on_call)
        except TooComplex as e:
            ctx.skip(iso, f, str(e))
            continue
        seen = set()
        for o in outs:
            for le in loops(o):
                if le.node is not l or id(le) in seen:
                    continue
                seen.add(id(le))
                ivs = [v[0] for v in le.ivs if v[2] == 1]
                for b in le.bodies:
                    for root in b.st.mem:
                        if private_root(root):
                            continue
                        d = {}
                        diff(getroot(le.head, root), getroot(b.st, root), (), d)
                        for path in d:
                            t0, t1 = getroot(le.head, root), getroot(b.st, root)
                            for s in path:
                                t0, t1 = proj(t0, s), proj(t1, s)
                            own = True
                            while t1.op == "upd":
                                own = own and t1.a[1] in ivs
                                t1 = t1.a[0]
                            own = own and t1 is t0
                            ctx.check(own, iso, f, l.get("l"), "an iteration of the parallel loop writes %s%s, which other iterations share" % (
                                "/".join(str(z) for z in root if isinstance(z, str)), "".join("." + str(s[1]) for s in path)))
                    for e in trace(b.st):
                        if e.kind == "update":
                            ctx.bad(safe, f, e.node.get("l"), "shared accounting inside the parallel loop")
                        if e.kind != "eval":
                            continue
                        ctx.check(thread_object(e.obj), safe, f, e.node.get("l"),
                                  "a function object other than the one of the running thread is evaluated in the parallel loop")
                        if single:
                            ctx.check(e.q == FN + "::evaluate_safely", safe, f, e.node.get("l"),
                                      "the parallel loop calls %s, which may have shared side effects, instead of evaluate_safely" % e.q)
        if not seen:
            ctx.skip(iso, f, "parallel loop not reached")


def accounting(ctx, kind):
    f = ctx.need(method(ctx, POP, "evaluate_in_parallel", 1), "Population::evaluate_in_parallel")
    ev = Ev()
    eng, outs = run(ctx, f, POP, on_call=ev.on_call)
    fns = param(f, 0)
    for o in outs:
        if o.kind != "R":
            continue
        ups = [e for e in trace(o.st) if e.kind == "update"]
        ls = [e for e in loops(o) if any(z.kind == "update" for b in e.bodies for z in trace(b.st))]
        if ups or len(ls) != 1:
            if not ups and not ls:
                ctx.bad(kind, f, f["line"], "the evaluations done in parallel are never accounted for")
            else:
                ctx.skip(kind, f, "accounting is not a single loop")
            continue
        le = ls[0]
        V = at(o.st, ((".", "values"),))
        B = proj(this0(), (".", "bvs"))
        n = (size_of(B), size_of(proj(this0(), (".", "values"))))
        for b in le.bodies:
            if b.kind not in ("N", "C"):
                ctx.bad(kind, f, le.node.get("l"), "the accounting loop can be left early")
                continue
            us = [z for z in trace(b.st) if z.kind == "update"]
            if not ctx.check(len(us) == 1, kind, f, le.node.get("l"), "an iteration accounts for %d evaluations" % len(us)):
                continue
            u = us[0]
            ob = u.obj[0][1] if u.obj and u.obj[0][0] == "D" else None
            ctx.check(ob is proj(fns, ("[", C(0))), kind, f, u.node.get("l"), "accounting does not go through the first function")
            x, y = u.args
            if not (x.op == "sel" and y.op == "sel" and x.a[0] is B and y.a[0] is V):
                ctx.bad(kind, f, u.node.get("l"), "evaluation accounted for with %s instead of an individual and its value" % ", ".join(show(z)[:80] for z in u.args))
                continue
            canon = {}
            for v in le.ivs:
                canon[v[0]] = next(w[0] for w in le.ivs if w[1] is v[1] and w[2] == v[2])
            ctx.check(subst(x.a[1], canon) is subst(y.a[1], canon), kind, f, u.node.get("l"), "the value of another individual is accounted for: %s with %s" % (show(x)[:80], show(y)[:80]))
            c, d = lin(x.a[1])
            ivs = {v[0]: v for v in le.ivs}
            mine = [t for t in d if t in ivs]
            if len(mine) != 1 or len(d) != 1 or abs(d[mine[0]]) != 1:
                if any(t.op == "sel" for t in d):
                    ctx.bad(kind, f, u.node.get("l"), "evaluations are not accounted for in the order of the population but in that of %s" % show(x.a[1])[:80])
                else:
                    ctx.skip(kind, f, "loop index not recognised: " + show(x.a[1])[:80])
                continue
            iv, lo, step = ivs[mine[0]]
            if not ctx.check(step * d[iv] > 0, kind, f, le.node.get("l"), "evaluations are accounted for in reverse order"):
                continue
            ctx.check(abs(step) == 1, kind, f, le.node.get("l"), "the accounting loop skips individuals (step %s)" % step)
            if step != 1:
                continue
            hi = None
            for k, t in le.closed.items():
                if at_loc(le.head, k) is iv:
                    hi = t
            first, last = add(lo, C(c)), add(hi, C(c)) if hi is not None else None
            if hi is None:
                ctx.skip(kind, f, "end of the accounting loop not recognised")
                continue
            ctx.check(isc(first) and first.a[0] == 0 and last in n, kind, f, le.node.get("l"), "not every individual is accounted for: the loop runs over [%s, %s)" % (
                show(first), show(last)))


def at_loc(st, k):
    t = getroot(st, k[0])
    for s in k[1]:
        t = proj(t, s)
    return t


def global_state(ctx, kind):
    """what evaluation may touch besides the function object itself"""
    E = Effects(ctx.p, closed_world=True, stop=(FN + "::evaluate", FNM + "::evaluate", "hnco::function::UniversalFunction::evaluate"))
    for c in concrete_subclasses(ctx, FN):
        r = ctx.p.records[c]
        if not r.get("file", "").startswith("lib/hnco"):
            continue
        f = ctx.p.find_method(c, "evaluate_safely", nparams=1)
        if f is None:
            continue
        bad = {}
        for root, file, line, fn in E.effects(f, c):
            if root[0] == "global":
                bad.setdefault(root[1], (file, line, fn))
        if not bad:
            ctx.ok(kind, c)
        for gq, (file, line, fn) in sorted(bad.items()):
            ctx.bad(kind, (file, c), line, "safe evaluation of %s changes the global %s (in %s)" % (c, gq, fn), key="%s|%s" % (kind, c))


def per_thread_functions(ctx, kind):
    """one identically built function per thread"""
    for cls in ("hnco::app::CommandLineApplication", "hnco::multiobjective::app::CommandLineApplication"):
        if cls not in ctx.p.records:
            continue
        f = ctx.p.find_method(cls, "make_functions", nparams=0)
        if f is None or not f.get("body"):
            ctx.skip(kind, cls, "no make_functions")
            continue

        def inl(eng, e, g, ol):
            return None if g["file"].rsplit("/", 1)[-1].startswith("application.") else False
        eng, outs = run(ctx, f, cls, inline=inl)
        for o in outs:
            if o.kind != "R":
                continue
            found = False
            for le in loops(o):
                for b in le.bodies:
                    if b.kind not in ("N", "C"):
                        continue
                    evs = [e for e in trace(b.st) if e.kind == "call" and (e.q or "").rsplit("::", 1)[-1] in ("reset", "make_function_modifier", "make")]
                    mk_ = [i for i, e in enumerate(evs) if not e.q.endswith("::reset")]
                    if not mk_:
                        continue
                    found = True
                    rs = [i for i, e in enumerate(evs) if e.q == "hnco::random::Generator::reset"]
                    ctx.check(bool(rs) and min(rs) < min(mk_), kind, f, le.node.get("l"),
                              "the generator is not reset before each thread's function is made, so the threads get different functions")
                    ctx.check(len(mk_) == 1, kind, f, le.node.get("l"), "%d functions are made per thread" % len(mk_))
            if not found:
                ctx.skip(kind, f, "construction loop not recognised")


@rule("P07", "Abstract interpretation of population evaluation with loop summaries (values[i] = f(bvs[i]) over the whole range), a dependence "
      "test on every OpenMP loop (an iteration writes only its own element, calls only evaluate_safely of its own thread's function), the "
      "accounting loop, and an interprocedural side-effect analysis of safe evaluation of every function.",
      minimum={"obligations.values": 2, "obligations.isolation": 1, "obligations.account": 1, "obligations.global": 40},
      assumptions=["each thread is given its own function object (checked in the application)", "external plugins and third-party code are not analysed"])
def p07(ctx):
    for cls in (POP, MPOP):
        for name in ("evaluate", "evaluate_in_parallel"):
            evaluations(ctx, "values", cls, name)
    parallel_loops(ctx, "isolation", "safe")
    accounting(ctx, "account")
    global_state(ctx, "global")
    per_thread_functions(ctx, "threads")


# ------------------------------------------------------------------ P11
SORTS = ("sort", "stable_sort", "partial_sort", "nth_element")
SEL = ("hnco::algorithm::CommaSelection", "hnco::algorithm::PlusSelection")


def probe(eng, st, lam, node):
    """result of a comparator on two distinct symbolic indices"""
    i, j = typed(mk("sym", "i"), "int"), typed(mk("sym", "j"), "int")
    rs = eng.apply(lam, st, [i, j], node)
    if not rs or len(rs) != 1:
        return None, i, j
    return rs[0][1], i, j


class Sorts(Ev):
    """records every sort and how its comparator orders two indices"""

    def __init__(self, values):
        Ev.__init__(self)
        self.values = values           # location of permutation -> location of values
        self.found = {}                # id(node) -> (verdict, what)
        self.byterm = {}

    def on_event(self, eng, st, ev):
        if ev.kind != "algo" or ev.name not in SORTS:
            return None
        lams = [a for a in ev.args if a.op == "lam"]
        if not lams:
            return None
        V = self.values(st, ev.cont)
        if V is None:
            return None
        r, i, j = probe(eng, st, lams[0], ev.node)
        gt = cmpterm(">", typed(proj(V, ("[", i)), "double"), typed(proj(V, ("[", j)), "double"))
        lt = cmpterm("<", typed(proj(V, ("[", i)), "double"), typed(proj(V, ("[", j)), "double"))
        if r is None:
            v = ("unknown", "comparator not summarised")
        elif r is gt:
            v = ("ok", None)
        elif r is lt:
            v = ("bad", "the population is sorted by increasing values, so that ranks start with the worst individual")
        elif any(mentions(r, z) for z in (i, j)) and r.op in ("cmp", "not"):
            v = ("bad", "the comparator is %s, not a strict order of decreasing values" % show(r)[:160])
        else:
            v = ("unknown", "comparator is %s" % show(r)[:120])
        self.found[id(ev.node)] = v + (ev,)
        return None


def popvalues(st, cont):
    root, path = cont
    if path and path[-1] == (".", "permutation"):
        return read(st, (root, path[:-1] + ((".", "values"),)))
    return None


def sorts(ctx, kind):
    n = 0
    for name in ("sort", "partial_sort"):
        f = ctx.p.find_method(POP, name)
        if f is None:
            continue
        sm = Sorts(popvalues)
        eng, outs = run(ctx, f, POP, on_call=sm.on_call, on_event=sm.on_event)
        for v, why, ev in sm.found.values():
            if v == "ok":
                ctx.ok(kind, f["q"])
                n += 1
            elif v == "bad":
                ctx.bad(kind, f, ev.node.get("l"), why)
            else:
                ctx.skip(kind, f, why)
        for o in outs:
            if o.kind != "R":
                continue
            P = at(o.st, ((".", "permutation"),))
            V = at(o.st, ((".", "values"),))
            P0 = proj(this0(), (".", "permutation"))
            ctx.check(V is proj(this0(), (".", "values")), kind, f, f["line"], "sorting changes the values")
            if P.op != "permuted" or P.a[1] not in SORTS:
                if P is P0 or P.op == "permuted" and P.a[1] == "shuffle":
                    ctx.bad(kind, f, f["line"], "the permutation is not sorted")
                else:
                    ctx.skip(kind, f, "permutation not summarised: " + show(P)[:80])
                continue
            lo, hi = P.a[2], P.a[3]
            full = size_of(P0)
            if P.a[1] == "partial_sort":
                last = P.a[4][0] if P.a[4] else None
                okr = isc(lo) and lo.a[0] == 0 and len(f["ps"]) == 1 and hi is param(f, 0) and last is not None and last.op == "it" and last.a[1] is full
                what = "the best individuals of the whole population are not at the first ranks: partial sort of [%s, %s) up to %s" % (
                    show(lo), show(hi), show(last)[-60:] if last is not None else "?")
            else:
                okr = isc(lo) and lo.a[0] == 0 and hi is full
                what = "only [%s, %s) is sorted" % (show(lo), show(hi))
            ctx.check(okr, kind, f, f["line"], what)
    return n


def accessors(ctx, kind):
    P = proj(this0(), (".", "permutation"))
    src = {"bv": proj(this0(), (".", "bvs")), "value": proj(this0(), (".", "values")), "index": None}
    for f in sorted(public_methods(ctx, POP), key=lambda g: g["q"]):
        name = f["q"].rsplit("::", 1)[-1]
        best = name.startswith("get_best_")
        if not best and not name.startswith("get_worst_"):
            continue
        what = name.split("_", 2)[2]
        if what not in src or len(f["ps"]) > 1:
            ctx.skip(kind, f, "unknown accessor")
            continue
        r = param(f, 0) if f["ps"] else C(0)
        eng, outs = run(ctx, f, POP)
        for o in outs:
            if o.kind != "R":
                continue
            got = retval(o)
            n = size_of(src["bv"]) if True else None
            ranks = [r] if best else [sub(sub(size_of(z), C(1)), r) for z in (src["bv"], src["value"], P)]
            want = []
            for x in ranks:
                ix = proj(P, ("[", x))
                want.append(ix if src[what] is None else proj(src[what], ("[", ix)))
            ctx.check(any(got is w for w in want), kind, f, f["line"], "%s(%s) returns %s instead of the %s at rank %s" % (
                name, ", ".join(p["n"] for p in f["ps"]), show(got)[:120], what, show(ranks[0])))


def equivalents(ctx, kind):
    f = ctx.p.find_method(POP, "get_equivalent_bvs")
    if f is None:
        return
    V = proj(this0(), (".", "values"))

    class M(Ev):
        def on_call(m, eng, e, st, q, g, ol, args):
            if q in ("std::equal_range", "std::lower_bound", "std::upper_bound"):
                lams = [a for a in args if not isinstance(a, tuple) and a.op == "lam" or isinstance(a, tuple) and read(st, a[1]).op == "lam"]
                if lams:
                    l = lams[0] if not isinstance(lams[0], tuple) else read(st, lams[0][1])
                    r, i, j = probe(eng, st, l, e)
                    gt = cmpterm(">", typed(proj(V, ("[", i)), "double"), typed(proj(V, ("[", j)), "double"))
                    if r is None or r.op not in ("cmp", "not"):
                        ctx.skip(kind, f, "comparator not summarised")
                    else:
                        ctx.check(r is gt, kind, f, e.get("l"), "equivalent individuals are searched with %s although the population is sorted by decreasing values" % show(r)[:120])
            return None
    run(ctx, f, POP, on_call=M().on_call)


def writes(t0, t1):
    """[(index, value)] of the updates that make t1 out of t0, or None"""
    out = []
    while t1.op == "upd":
        out.append((t1.a[1], t1.a[2]))
        t1 = t1.a[0]
    return out if t1 is t0 else None


def source(t, what):
    """(population term, index) when t is an element of its bvs or values"""
    if t.op == "sel" and t.a[0].op == "fld" and t.a[0].a[1] == what:
        return t.a[0].a[0], t.a[1]
    return None


def popdir(st, loc, what):
    return read(st, (loc[0], loc[1] + ((".", what),)))


def pristine(loc):
    t = initv(loc[0])
    for x in loc[1] + ((".", "values"),):
        t = proj(t, x)
    return t


def replacement(ctx, kind):
    """comma and plus selection move each selected individual with its own value, best ones first"""
    for cls in SEL:
        if cls not in ctx.p.records:
            continue
        f = ctx.p.find_method(cls, "select", nparams=0)
        if f is None or not f.get("body"):
            continue
        sm = Sorts(popvalues)
        eng, outs = run(ctx, f, cls, on_call=sm.on_call, on_event=sm.on_event)
        for v, why, ev in sm.found.values():
            if v == "bad":
                ctx.bad(kind, f, ev.node.get("l"), why)
        members = set()
        for fd in ctx.p.records[cls]["fields"]:
            t = fd["t"].replace("const ", "").strip()
            if t == POP:
                members.add((("THIS",), ((".", fd["n"]),)))
            elif t.replace(" ", "") == POP + "&":
                members.add((("D", proj(this0(), (".", fd["n"]))), ()))
        for o in outs:
            if o.kind != "R":
                continue
            pops = set()
            for le in loops(o):
                for b in le.bodies:
                    for root in b.st.mem:
                        d = {}
                        diff(getroot(le.head, root), getroot(b.st, root), (), d)
                        for p in d:
                            if p and p[-1] in ((".", "values"), (".", "bvs")):
                                pops.add((root, p[:-1]))
            pairs = 0
            final, moved = {}, {}
            for le in loops(o):
                for b in le.bodies:
                    if b.kind not in ("N", "C"):
                        continue
                    for loc in pops:
                        wv = writes(popdir(le.head, loc, "values"), popdir(b.st, loc, "values"))
                        wb = writes(popdir(le.head, loc, "bvs"), popdir(b.st, loc, "bvs"))
                        if wv is None or wb is None:
                            ctx.skip(kind, f, "writes not summarised")
                            continue
                        for ix, x in wv:
                            y = [t for k, t in wb if k is ix]
                            if not y and any(writes(popdir(l2.head, loc, "bvs"), popdir(b2.st, loc, "bvs")) != [] for l2 in loops(o) if l2 is not le for b2 in l2.bodies if b2.kind in ("N", "C")):
                                ctx.skip(kind, f, "values and bit vectors are moved by different loops")
                                continue
                            if not ctx.check(len(y) == 1, kind, f, le.node.get("l"), "the value of an individual is moved without its bit vector"):
                                continue
                            # both from the same individual
                            src = None
                            for l2 in pops | members:
                                if x.op == "sel" and x.a[0] is popdir(le.head, l2, "values"):
                                    src = (l2, x.a[1])
                            if src is None or y[0].op != "sel":
                                ctx.skip(kind, f, "source of an individual not recognised")
                                continue
                            ctx.check(y[0].a[0] is popdir(le.head, src[0], "bvs") and y[0].a[1] is src[1], kind, f, le.node.get("l"),
                                      "the bit vector of rank %s is moved with the value of rank %s" % (show(y[0].a[1])[-80:], show(src[1])[-80:]))
                            pairs += 1
                            final[loc] = (ix, src, le)
                            moved.setdefault(loc, []).append((ix, src, le))
            # the parents end with the first ranks of a sorted population
            done = False
            for loc, (ix, src, le) in final.items():
                if loc not in [l for l in final if l[0][0] == "D"]:
                    continue
                done = True
                P = popdir(le.head, src[0], "permutation")
                r = src[1]
                iv = [v for v in le.ivs if v[0] is ix]
                if not iv:
                    ctx.skip(kind, f, "index of the selection loop not recognised")
                    continue
                if r.op == "sel" and r.a[0] is P and P.op == "permuted" and P.a[1] in SORTS:
                    ctx.check(r.a[1] is ix, kind, f, le.node.get("l"), "slot %s is given the individual of rank %s" % (show(ix), show(r.a[1])))
                    hi = P.a[3]
                    n = [size_of(popdir(le.head, loc, w)) for w in ("bvs", "values", "permutation")]
                    full = [size_of(popdir(le.head, src[0], w)) for w in ("bvs", "values", "permutation")]
                    if P.a[1] == "partial_sort":
                        ctx.check(hi in n or hi in full, kind, f, le.node.get("l"), "only the first %s ranks are sorted" % show(hi)[-60:])
                    end = None
                    for k, t in le.closed.items():
                        if at_loc(le.head, k) is ix:
                            end = t
                    if end is None:
                        ctx.skip(kind, f, "end of the selection loop not recognised")
                    else:
                        ctx.check(isc(iv[0][1]) and iv[0][1].a[0] == 0 and end in n, kind, f, le.node.get("l"),
                                  "the selection loop replaces [%s, %s) only" % (show(iv[0][1]), show(end)[-60:]))
                elif r.op == "hv" or r is ix:
                    ctx.bad(kind, f, le.node.get("l"), "individuals are taken by position, not by rank")
                else:
                    ctx.skip(kind, f, "rank not recognised: " + show(r)[-80:])
                    continue
                pe = popdir(o.st, loc, "permutation")
                p0 = popdir(le.head, loc, "permutation")
                if pe.op == "tab" and pe.a[4] is pe.a[3]:
                    ctx.ok(kind, f["q"])
                elif pe is p0 and pe.op == "fld":
                    ctx.bad(kind, f, f["line"], "the ranks of the previous parents are kept")
                else:
                    ctx.skip(kind, f, "final permutation " + show(pe)[:80])
            refs = [l for l in pops if l[0][0] == "D"]
            if refs and not any(popdir(o.st, l, "values") is not pristine(l) for l in refs):
                ctx.bad(kind, f, f["line"], "bit vectors are moved without their values")
            elif not done:
                ctx.skip(kind, f, "selection loop not recognised")
            pool(ctx, kind, f, moved, members)


def pool(ctx, kind, f, moved, pops):
    """plus selection competes all parents and all offspring"""
    for loc in moved:
        if loc[0] != ("THIS",):
            continue
        srcs = {}
        for ix, (sl, j), le in moved[loc]:
            iv = [v for v in le.ivs if v[0] is j]
            end = None
            for k, t in le.closed.items():
                if at_loc(le.head, k) is j:
                    end = t
            if not iv or end is None:
                ctx.skip(kind, f, "index of a transfer loop not recognised")
                return
            n = [size_of(popdir(le.head, sl, w)) for w in ("bvs", "values", "permutation")]
            ctx.check(isc(iv[0][1]) and iv[0][1].a[0] == 0 and end in n, kind, f, le.node.get("l"),
                      "only [%s, %s) of a population competes" % (show(iv[0][1]), show(end)[-60:]))
            srcs[sl] = (sub(ix, j), n)
        refs = [p for p in pops if p[0][0] == "D"]
        for p in refs:
            ctx.check(p in srcs, kind, f, f["line"], "the individuals of %s do not take part in the selection" % show(p[0][1]))
        if len(srcs) == 2:
            (o1, n1), (o2, n2) = srcs.values()
            ctx.check(isc(o1) and o1.a[0] == 0 and o2 in n1 or isc(o2) and o2.a[0] == 0 and o1 in n2, kind, f, f["line"],
                      "parents and offspring overlap in the pool: offsets %s and %s" % (show(o1)[-60:], show(o2)[-60:]))


def tournament(ctx, kind):
    for q, r in sorted(ctx.p.records.items()):
        if not q.startswith("hnco::multiobjective::algorithm::TournamentSelection<"):
            continue
        f = ctx.p.find_method(q, "select", nparams=0)
        if f is None or not f.get("body"):
            continue
        arg = q[q.index("<") + 1:]
        if arg.startswith("double,"):
            ctx.check("std::greater<" in arg or "std::greater_equal<" in arg, kind, f, f["line"], "the tournament between values is decided by %s" % arg)
        eng, outs = run(ctx, f, q)
        for o in outs:
            if o.kind == "R":
                tournament1(ctx, kind, f, o)


def tournament1(ctx, kind, f, o):
    got = retval(o)
    if got.op != "sel":
        ctx.skip(kind, f, "result not recognised")
        return
    ls = [l for l in loops(o) if any(z.op == "hv" and z.a[0] == l.uid for z in subterms(got.a[1]))]
    if len(ls) != 1:
        ctx.skip(kind, f, "tournament loop not recognised")
        return
    le = ls[0]
    ix = got.a[1]
    ws = [z for z in subterms(ix) if z.op == "hv" and z.a[0] == le.uid]
    if len(ws) != 1:
        ctx.skip(kind, f, "winner not recognised")
        return
    W = ws[0]
    idx = lambda w: subst(ix, {W: w})
    if ix.op == "sel":
        ctx.check(ix.a[0].op != "permuted", kind, f, f["line"], "the winner's position is looked up after the permutation has been shuffled again")
        if ix.a[0].op == "permuted":
            return
    wl = (W.a[1], W.a[2])
    W0 = at_loc(le.entry, wl)
    iv = [v for v in le.ivs if v[2] == 1]
    if len(iv) != 1:
        ctx.skip(kind, f, "challenger not recognised")
        return
    ch, lo, _ = iv[0]
    hi = None
    for k, t in le.closed.items():
        if at_loc(le.head, k) is ch:
            hi = t
    d = sub(lo, W0)
    if hi is None or not isc(d):
        ctx.skip(kind, f, "range of the challengers not recognised")
    else:
        ctx.check(d.a[0] in (0, 1), kind, f, le.node.get("l"), "the challengers start at %s, the first winner is %s" % (show(lo), show(W0)))
        p0, p1 = path_of(W0), path_of(hi)
        if p0 and p1:
            n = sub(at(o.st, p1), at(o.st, p0))
            ts = [proj(this0(), (".", fd["n"])) for fd in ctx.p.records[f["cls"]]["fields"]]
            ctx.check(n in ts, kind, f, f["line"], "the next tournament has %s participants" % show(n)[:80])
        else:
            ctx.skip(kind, f, "participants of the next tournament not recognised")
    for b in le.bodies:
        if b.kind not in ("N", "C"):
            ctx.skip(kind, f, "tournament left early")
            continue
        cs = [e for e in trace(b.st) if e.kind == "call" and (e.q or "").endswith("::operator()") and len(e.args) == 2]
        w1 = at_loc(b.st, wl)
        if len(cs) != 1:
            ctx.check(w1 is W or len(cs) > 1, kind, f, le.node.get("l"), "a challenger wins without comparison")
            if len(cs) > 1 or w1 is W:
                ctx.skip(kind, f, "comparison not recognised")
            continue
        x, y = cs[0].args
        v = lambda w: None
        res = decide(b.st.facts, "!=", cs[0].res, C(0))
        if res is None:
            ctx.skip(kind, f, "outcome of the comparison not recognised")
            continue
        # which side is the challenger?
        def side(t):
            if t.op == "sel" and t.a[1] is idx(ch):
                return "challenger"
            if t.op == "sel" and t.a[1] is ix:
                return "winner"
            if t.op == "sel" and t.a[1] is idx(W0) and any(at_loc(z.st, wl) is not W for z in le.bodies):
                return "stale"
            if t.op == "hv" and t.a[0] == le.uid:
                bl = (t.a[1], t.a[2])
                t0, t1 = at_loc(le.entry, bl), at_loc(b.st, bl)
                good0 = t0.op == "sel" and t0.a[1] is idx(W0)
                good1 = t1 is t and w1 is W or t1.op == "sel" and t1.a[1] is idx(w1)
                if good0 and good1:
                    return "winner"
                if not good1:
                    return "stale"
            return None
        sx, sy = side(x), side(y)
        if "stale" in (sx, sy):
            ctx.bad(kind, f, le.node.get("l"), "the value challengers are compared with is not kept in step with the winner")
            continue
        if {sx, sy} != {"challenger", "winner"}:
            ctx.skip(kind, f, "sides of the comparison not recognised")
            continue
        wins = (sx == "challenger") == res        # challenger better, or at least not worse
        if w1 is ch:
            ctx.check(wins, kind, f, cs[0].node.get("l"), "a challenger that loses the comparison becomes the winner")
        elif w1 is W:
            ctx.check(not wins, kind, f, cs[0].node.get("l"), "a challenger that wins the comparison does not become the winner")
        else:
            ctx.bad(kind, f, cs[0].node.get("l"), "the winner becomes %s" % show(w1)[:80])


def ranks(ctx):
    """ranked access in algorithms"""
    spath = ctx.need(getter_path(ctx, ALG, "get_solution"), ALG + "::get_solution returning a member")
    for cls in sol.algorithms(ctx):
        try:
            m, f, res = sol.run_alg(ctx, cls, spath)
        except TooComplex as e:
            ctx.skip("ranked", cls, "too complex: %s" % e)
            continue
        for (kind, q, line), (v, what, g, l) in sorted(m.ranks.items(), key=str):
            if v == "ok":
                ctx.ok(kind, "%s in %s" % (q, cls))
            elif v == "bad":
                ctx.bad(kind, g, l, what)
            else:
                ctx.skip(kind, q, "%s: state of the ranks not known" % cls)


@rule("P11", "Symbolic evaluation of the comparators of every sort of a population, of the ranked accessors, of comma/plus replacement and of "
      "tournament rounds (per-iteration pairing of value and bit vector, winner kept in step, coverage of all competitors), and a typestate "
      "analysis of every algorithm: ranks are read only while they were computed from the population's current values.",
      minimum={"obligations.sorts": 2, "obligations.accessors": 4, "obligations.ranked": 15},
      assumptions=["std::sort and std::partial_sort sort", "values are not NaN"])
def p11(ctx):
    sorts(ctx, "sorts")
    accessors(ctx, "accessors")
    equivalents(ctx, "equivalents")
    replacement(ctx, "replacement")
    tournament(ctx, "tournament")
    ranks(ctx)
