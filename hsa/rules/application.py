"""P27: outcome of the programs."""
import itertools
import json
import re

from ..core import rule
from ..q import *
from ..absint import Out, write, assume
from .options import Spec, SPECS

APP = "hnco::app::CommandLineApplication"
DFF = "hnco::app::DecoratedFunctionFactory"
EXC = "hnco::exception::"
TRACKER, CACHE, STOP, MAPP = [mk("new", c, k) for k, c in enumerate((
    "hnco::function::controller::ProgressTracker", "hnco::function::controller::Cache",
    "hnco::function::controller::StopOnTarget", "hnco::map::Map"), 9001)]
ELAPSED = typed(mk("elapsed"), "double")
LOADED = typed(mk("loaded"), "hnco::bit_vector_t")


def val(st, a):
    return read(st, a[1]) if isinstance(a, tuple) else a


def inners(t):
    """(innermost stream value, items) of a stream term"""
    items = []
    while isinstance(t, T) and t.op == "<<":
        items = list(t.a[1:]) + items
        t = t.a[0]
    return t, items


def emit(eng, st, e, loc, item):
    os = read(st, loc)
    s = write(st, loc, mk("<<", os, item))
    return eng.event(s, "stream", e, op="<<", obj=loc, args=(item,), locs=(), q="", chain=read(s, loc))


class Model(object):
    """one scenario: the flags given on the command line"""

    def __init__(self, ctx, spec, flags, cache=False, map=False, values=None):
        self.ctx, self.p, self.spec, self.flags = ctx, ctx.p, spec, set(flags)
        self.cache, self.map, self.values = cache, map, values or {}
        self.n = 0

    def opt(self, nm, ret):
        for pre in ("get_", "with_"):
            if nm.startswith(pre):
                o = nm[len(pre):]
                if pre == "with_":
                    return C(int(o in self.flags))
                if o in self.values:
                    return self.values[o]
                d = self.spec.params.get(o, {}).get("default")
                return C(d) if isinstance(d, int) and not isinstance(d, bool) else typed(mk("opt", o), ret)
        return None

    def on_call(self, eng, e, st, q, g, ol, args):
        c, _, nm = q.rpartition("::")
        vs = [val(st, a) for a in args]
        if c == self.spec.cls and (g is None or not g.get("ctor")):
            r = self.opt(nm, e.get("t"))
            return None if r is None else [(st, r)]
        if q in ("exit", "std::exit"):
            eng.sinks[-1].append(Out("X", st, ("exit", vs[0]), e))
            return []
        if nm == "operator<<" and len(args) == 2 and isinstance(args[0], tuple) and not q.startswith("std::"):
            return [(emit(eng, st, e, args[0][1], mk("params", vs[1])), ("loc", args[0][1]))]
        if c == DFF:
            r = {"get_tracker": TRACKER, "get_cache": CACHE if self.cache else C(0),
                 "get_stop_on_target": STOP, "get_map": MAPP if self.map else C(0)}.get(nm)
            if r is not None:
                return [(st, r)]
            if nm.startswith("make"):
                self.n += 1
                st = eng.event(st, "m", e, name=nm, obj=None, args=vs)
                return [(st, mk("made", nm, self.n, *vs))]
        if c == "hnco::StopWatch":
            st = eng.event(st, "watch", e, name=nm)
            return [(st, ELAPSED if nm == "get_total_time" else mk("void"))]
        if c == "hnco::random::Generator":
            st = eng.event(st, "rng", e, name=nm, args=vs)
            return [(st, typed(mk("rng", nm), e.get("t")))]
        if nm in ("bv_display", "value_display") and len(args) == 2 and isinstance(args[1], tuple):
            return [(emit(eng, st, e, args[1][1], mk("shown", vs[0])), mk("void"))]
        if nm in ("bv_from_stream", "bv_from_string"):
            return [(st, LOADED)]
        if nm == "str" and ol is not None and "stringstream" in c:
            return [(st, mk("strof", read(st, ol)))]
        if nm == "open" and ol is not None and "fstream" in c and vs:
            return [(write(st, ol, mk("ctor", c, vs[0])), mk("void"))]
        if nm in ("good", "is_open", "operator bool", "fail", "bad", "operator!") and ol is not None and not args:
            base = inners(read(st, ol))[0]
            if isinstance(base, T) and base.op == "ctor" and "ofstream" in base.a[0]:
                t = typed(mk("osok", read(st, ol)), "bool")
                return [(st, mk("not", t) if nm in ("fail", "bad", "operator!") else t)]
        if nm == "omp_set_num_threads":
            return [(st, mk("void"))]
        if ol is not None and ol[0][0] == "D" and not ol[1] and not q.startswith("std::") and c != APP:
            o = ol[0][1]
            if nm in ("maximize", "minimize"):
                for x in ("TargetReached", "LastEvaluation") if nm == "maximize" else ():
                    s = eng.event(st, "m", e, name=nm, obj=o, args=vs, sig=x)
                    eng.sinks[-1].append(Out("X", s, (EXC + x, None), e))
                return [(eng.event(st, "m", e, name=nm, obj=o, args=vs, sig="complete"), mk("void"))]
            if nm in ("describe", "display"):
                l = args[-1][1]
                return [(emit(eng, st, e, l, mk(nm, o, *vs[:-1])), mk("void"))]
            if nm == "map" and len(args) == 2 and isinstance(args[1], tuple):
                n0 = size_of(vs[1])
                st = eng.event(st, "m", e, name=nm, obj=o, args=vs)
                return [(write(st, args[1][1], mk("mapped", o, vs[0], n0)), mk("void"))]
            st = eng.event(st, "m", e, name=nm, obj=o, args=vs)
            r = typed(mk("m", nm, o, *vs), e.get("t"))
            if e.get("lv"):
                return [(st, ("loc", (("D", r), ())))]
            return [(st, r)]
        return None


def strip(t):
    """loads through an opaque reference read the referenced value"""
    if not isinstance(t, T):
        return t
    if t.op == "fld":
        return mk("fld", strip(t.a[0]), t.a[1])
    if t.op == "init" and t.a[0][0] == "D":
        return strip(t.a[0][1])
    return t


def m(nm, o, *a):
    return mk("m", nm, o, *a)


def sinks(o):
    """{sink: [items]} for standard output and every file written on a path; error streams excluded"""
    out = {}
    for ev in trace(o.st):
        if ev.kind != "stream" or ev.op != "<<":
            continue
        loc = ev.obj
        base, _ = inners(ev.d.get("chain") or ev.d.get("after"))
        if loc[0] == ("G", "std::cout"):
            key = "stdout"
        elif base.op == "ctor" and "ofstream" in base.a[0]:
            key = ("file",) + tuple(base.a[1:2])
        else:
            continue
        out.setdefault(key, []).extend(ev.args)
    return out


def flatten(items):
    for t in items:
        if isinstance(t, T) and t.op == "strof":
            for x in flatten(inners(t.a[0])[1]):
                yield x
        elif isinstance(t, T) and t.op == "+" and any(x.op in ("str", "strof") for x in t.a if isinstance(x, T)):
            for x in flatten(t.a):
                yield x
        else:
            yield t


MANIP = ("boolalpha", "endl", "flush", "fixed", "scientific", "setprecision")


def text(items):
    """(string with \\0k\\0 for the k-th value, values)"""
    s, vals = "", []
    for t in flatten(items):
        if t.op == "str":
            s += t.a[0]
        elif t.op == "fn":
            s += "\n" if "endl" in t.a[0] else ""
        elif t.op in ("call", "ctor") and any(x in str(t.a[0]) for x in MANIP):
            pass
        else:
            s += "\0%d\0" % len(vals)
            vals.append(t)
    return s, vals


def record(items):
    """the JSON object written, as {key: term}, or None if it is not one"""
    s, vals = text(items)
    s = re.sub("\0(\\d+)\0", r"[\1]", s)
    try:
        d = json.loads(s)
    except ValueError:
        return None
    if not isinstance(d, dict):
        return None
    return {k: strip(vals[v[0]]) if isinstance(v, list) and len(v) == 1 else C(v) if isinstance(v, int) and not isinstance(v, bool) else mk("lit", str(v)) for k, v in d.items()}


def code(o):
    """exit status of the program on this path"""
    if o.kind == "X":
        return o.val[1] if o.val[0] == "exit" else mk("exception", str(o.val[0]))
    return C(0)


def unwritable(o):
    """is this a path on which an output file cannot be opened or written?"""
    return any(t.op == "osok" and assume(o.st, t, True) is None for t in facts_terms(o))


class Scenario(object):
    def __init__(self, ctx, spec, f, flags, cls=APP, **kw):
        asserts = kw.pop("assume_asserts", True)
        self.m = Model(ctx, spec, flags, **kw)
        self.flags = flags
        self.outs = outcomes(ctx, f, cls, on_call=self.m.on_call, on_event=None, assume_asserts=asserts)

    def name(self):
        return "+".join(sorted(self.flags)) or "no option"


def powerset(xs):
    return [frozenset(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def ms(o, nm):
    return [ev for ev in trace(o.st) if ev.kind == "m" and ev.name == nm]


def has_record(items):
    return any('"value"' in t.a[0] for t in flatten(items) if t.op == "str")


@rule("P27", "abstract interpretation of CommandLineApplication::run and of every program's main, once per combination of the relevant options, with option getters as constants and a run of the algorithm that completes, "
      "reaches the target or exhausts the budget; obligations on exit status, emitted output, files and calls of every path",
      minimum={"obligations.exit-status": 20, "obligations.results": 20, "obligations.solution": 20})
def p27(ctx):
    spec = Spec(SPECS[0])
    f = ctx.p.find_method(APP, "run", nparams=0)
    ctx.need(f, APP + "::run")
    ctx.functions.add(f["id"])

    def guard(kind, fn, *a):
        try:
            fn(ctx, spec, f, *a)
        except TooComplex as x:
            ctx.skip(kind, f, "outside the decidable form: %s" % x)
    guard("exit-status", outcome_rule)
    guard("solution", solution_rule)
    guard("functions", functions_rule)
    guard("information", information_rule)
    guard("load", load_rule)
    mains(ctx)
    try:
        mo_rule(ctx)
    except TooComplex as x:
        ctx.skip("front", "hnco-mo", "outside the decidable form: %s" % x)


def outcome_rule(ctx, spec, f):
    for flags in powerset(["stop_on_maximum", "target", "record_total_time", "print_results", "save_results"]):
        for cache in (False, True):
            sc = Scenario(ctx, spec, f, flags, cache=cache)
            seen = set()
            for o in sc.outs:
                runs = ms(o, "maximize")
                if not runs:
                    if o.kind == "X" and o.val[0] == "std::runtime_error":
                        continue
                    ctx.bad("exit-status", f, where(o, f), "with %s the program ends (%s) without running the algorithm" % (sc.name(), code(o)))
                    continue
                sig = runs[0].sig
                seen.add(sig)
                ctx.check(len(runs) == 1, "exit-status", f, where(o, f), "the algorithm is run %d times" % len(runs))
                if unwritable(o):
                    c = code(o)
                    ctx.check(not isc(c) or c.a[0] != 0, "exit-status", f, where(o, f), "with %s, the program succeeds although an output file could not be written" % sc.name())
                    continue
                reached = sig == "TargetReached"
                want = 0 if reached else 2 if "stop_on_maximum" in flags else 3 if "target" in flags else 0
                c = code(o)
                ctx.check(isc(c) and c.a[0] == want, "exit-status", f, where(o, f),
                          "with %s, a run which %s ends with status %s, not %d" % (sc.name(), {"complete": "completes", "TargetReached": "reaches the target", "LastEvaluation": "exhausts the budget"}[sig], show(c) if isinstance(c, T) else c, want))
                # results
                sk = sinks(o)
                places = []
                for key, items in sk.items():
                    if has_record(items):
                        places.append(key)
                want_places = (["stdout"] if "print_results" in flags else []) + ([("file", mk("opt", "results_path"))] if "save_results" in flags else [])
                ctx.check(sorted(map(str, places)) == sorted(map(str, want_places)), "results", f, where(o, f),
                          "with %s, results go to %s, not to %s" % (sc.name(), list(map(str, places)), list(map(str, want_places))))
                for key in places:
                    check_record(ctx, f, o, sc, record(sk[key]), reached, cache)
            ctx.check(seen == {"complete", "TargetReached", "LastEvaluation"}, "exit-status", f, f["line"], "with %s, an outcome of the run is lost: only %s survive" % (sc.name(), sorted(seen)))
            watch(ctx, f, sc)


def watch(ctx, f, sc):
    for o in sc.outs:
        evs = [(ev.kind, ev.d.get("name")) for ev in trace(o.st) if ev.kind == "watch" or ev.kind == "m" and ev.name == "maximize"]
        if ("watch", "get_total_time") not in evs:
            continue
        names = [n for _, n in evs]
        ok = "start" in names and "stop" in names and "maximize" in names and names.index("start") < names.index("maximize") < len(names) - 1 - names[::-1].index("stop")
        ctx.check(ok, "results", f, where(o, f), "the total time is not measured around the run: %s" % names)


def boolalpha(ctx):
    """is the manipulator or flag used anywhere in the application?"""
    if not hasattr(ctx.p, "_boolalpha"):
        ctx.p._boolalpha = any("boolalpha" in str(n.get("q") or n.get("n") or "") for g in ctx.p.functions.values() if g["file"].startswith("lib/hnco/app/application") for n in nodes(g))
    return ctx.p._boolalpha


def check_record(ctx, f, o, sc, d, reached, cache):
    flags = sc.flags
    if d is None:
        ctx.bad("results", f, where(o, f), "with %s, the results are not a JSON object" % sc.name())
        return
    li = m("get_last_improvement", TRACKER)
    want = {"value": mk("fld", mk("fld", li, "solution"), "second"),
            "num_evaluations": mk("fld", li, "num_evaluations"),
            "total_num_evaluations": m("get_num_calls", TRACKER),
            "total_time": ELAPSED if "record_total_time" in flags else C(0),
            "evaluation_time": m("get_evaluation_time", TRACKER)}
    if flags & {"stop_on_maximum", "target"}:
        want["success"] = C(int(reached))
    if cache:
        want["lookup_ratio"] = m("get_lookup_ratio", CACHE)
    for k in sorted(set(d) | set(want)):
        if k not in want:
            ctx.check(k not in ("success", "lookup_ratio"), "results", f, where(o, f), "with %s, the results have a field %s" % (sc.name(), k))
        elif k not in d:
            ctx.bad("results", f, where(o, f), "with %s%s, the results lack the field %s" % (sc.name(), " and a cache" if cache else "", k))
        else:
            a, b = d[k], want[k]
            same = a is b or isc(a) and isc(b) and float(a.a[0]) == float(b.a[0]) or a.op == "lit" and isc(b) and a.a[0].lower() == str(bool(b.a[0])).lower()
            ctx.check(same, "results", f, where(o, f), "with %s, the field %s of the results is %s, not %s" % (sc.name(), k, show(a), show(b)))
            if k == "success" and a.op != "lit" and not boolalpha(ctx):
                ctx.bad("results", f, where(o, f), "the field success is written as a number, not as true or false")


def solution_rule(ctx, spec, f):
    for flags in powerset(["concrete_solution", "print_solution", "save_solution", "print_description", "save_description"]):
        for hasmap in (False, True):
            sc = Scenario(ctx, spec, f, flags, map=hasmap)
            for o in sc.outs:
                runs = ms(o, "maximize")
                if not runs:
                    continue
                alg, sig = runs[0].obj, runs[0].sig
                if unwritable(o):
                    c = code(o)
                    ctx.check(not isc(c) or c.a[0] != 0, "exit-status", f, where(o, f), "with %s, the program succeeds although an output file could not be written" % sc.name())
                    continue
                if sig == "TargetReached":
                    src = [m("get_trigger", STOP)]
                else:
                    names = [(ev.name, ev.obj) for ev in trace(o.st) if ev.kind == "m"]
                    src = [m("get_solution", alg)]
                    i = names.index(("maximize", alg))
                    later = [n for n, ob in names[i + 1:] if ob is alg]
                    if "get_solution" in later:
                        ctx.check("finalize" in later[:later.index("get_solution")], "solution", f, where(o, f), "the solution is taken from an algorithm which has not been finalized after its run")
                bv = mk("fld", src[0], "first")
                if "concrete_solution" in flags and hasmap:
                    want = mk("mapped", MAPP, bv, None)
                else:
                    want = bv
                fn = runs[0].args[0]
                for kind, opt, path in (("shown", "solution", "solution_path"), ("describe", "description", "description_path")):
                    places = []
                    for key, items in sinks(o).items():
                        for t in items:
                            if t.op == kind:
                                places.append((key, t))
                    wp = (["stdout"] if "print_" + opt in flags else []) + ([("file", mk("opt", path))] if "save_" + opt in flags else [])
                    ctx.check(sorted(str(k) for k, _ in places) == sorted(map(str, wp)), "solution", f, where(o, f),
                              "with %s, the %s goes to %s, not to %s" % (sc.name(), opt, [str(k) for k, _ in places], list(map(str, wp))))
                    for key, t in places:
                        x = strip(t.a[-1])
                        if kind == "describe":
                            ctx.check(x is bv, "solution", f, where(o, f), "with %s%s, what is described is %s, not the solution in the search space" % (sc.name(), " and a map" if hasmap else "", show(x)))
                        elif want.op == "mapped":
                            good = x.op == "mapped" and x.a[0] is MAPP and strip(x.a[1]) is bv
                            ctx.check(good, "solution", f, where(o, f), "with %s and a map, the solution shown is %s, not the image of the solution by the map" % (sc.name(), show(x)))
                            if good:
                                ctx.check(x.a[2] is m("get_output_size", MAPP), "solution", f, where(o, f), "the image of the solution is computed in a vector of size %s, not the output size of the map" % show(x.a[2]))
                        else:
                            ctx.check(x is bv, "solution", f, where(o, f), "with %s, the solution shown is %s, not %s" % (sc.name(), show(x), show(bv)))


def functions_rule(ctx, spec, f):
    for flags in (frozenset(), frozenset(["restart"])):
        n = typed(mk("sym", "threads"), "int")
        sc = Scenario(ctx, spec, f, flags, values={"num_threads": n}, assume_asserts=False)
        for o in sc.outs:
            runs = ms(o, "maximize")
            if not runs:
                lo = decide(o.st.facts, "<", n, C(1)) is True or bool(ms(o, "make_function_controller"))
                ctx.check(o.kind == "X" and o.val[0] == "std::runtime_error" and lo, "functions", f, where(o, f), "the program gives up (%s) although the number of threads is valid" % (code(o),))
                continue
            ctx.check(decide(o.st.facts, ">=", n, C(1)) is True, "functions", f, where(o, f), "the algorithm is run with a number of threads which may be less than one")
            fns = runs[0].args[0]
            ctx.check(size_of(fns) is n, "functions", f, where(o, f), "the algorithm gets %s functions, not one per thread" % show(size_of(fns)))
            loops = [ev for ev in trace(o.st) if ev.kind == "loop"]
            made = False
            for lp in loops:
                for b in lp.bodies:
                    if b.kind == "X":
                        continue
                    evs = [(ev.kind, ev.name) for ev in trace(b.st) if ev.kind in ("rng", "m")]
                    if not any(k == "m" and nm.startswith("make") for k, nm in evs):
                        continue
                    made = True
                    i = [j for j, (k, nm) in enumerate(evs) if k == "m" and nm.startswith("make")]
                    r = [j for j, x in enumerate(evs) if x == ("rng", "reset")]
                    ctx.check(len(i) == 1 and bool(r) and r[0] < i[0], "functions", f, lp.node.get("l", f["line"]), "a copy of the function is built without resetting the random generator first: copies differ")
            if not made:
                ctx.skip("functions", f, "no loop builds the functions")
            first = proj(fns, ("[]", C(0)))
            ctl = [x for x in subterms(first) if x.op == "made" and x.a[0] == "make_function_controller"]
            ctx.check(first.op == "made" and first.a[0] == "make_function_controller", "functions", f, where(o, f), "the first function given to the algorithm is %s, not the controlled one" % show(first))
            if first.op == "made" and len(first.a) > 2:
                x = first.a[2]
                ctx.check(any(y.op == "made" and y.a[0] == "make_function_modifier" for y in subterms(x)) and not any(y.op == "made" and y.a[0] == "make_function_controller" for y in subterms(x)),
                          "functions", f, where(o, f), "the controllers wrap %s, not one of the copies" % show(x))
            # algorithm
            mk_ = [ev for ev in ms(o, "make")]
            for ev in mk_:
                ctx.check(len(ev.args) >= 1 and strip(ev.args[0]) is m("get_bv_size", first), "functions", f, where(o, f), "the algorithm is made for bit vectors of size %s, not that of the function" % show(ev.args[0]))
            alg = runs[0].obj
            if "restart" in flags:
                ctx.check(alg.op == "new" and "Restart" in str(alg.a[0]), "functions", f, where(o, f), "with restart, the algorithm which runs is %s" % show(alg))
            else:
                ctx.check(alg.op == "m" and alg.a[0] == "make", "functions", f, where(o, f), "without restart, the algorithm which runs is %s" % show(alg))
            logs = [ev for ev in ms(o, "set_log_context") if ev.obj is alg or ev.obj.op == "m" and ev.obj.a[0] == "make"]
            ctx.check(bool(logs), "functions", f, where(o, f), "the algorithm is run without a log context")
            news = [ev for ev in trace(o.st) if ev.kind == "new" and ev.d.get("cls") and "Context" in ev.cls]
            for ev in news:
                ctx.check(ev.args and ev.args[0] is TRACKER, "functions", f, where(o, f), "the log context is built from %s, not the tracker" % (show(ev.args[0]) if ev.args else "nothing"))


INFO = {"fn_has_known_maximum": ("yesno", "has_known_maximum"), "fn_get_maximum": ("value", "get_maximum"), "fn_get_bv_size": ("value", "get_bv_size"),
        "fn_provides_incremental_evaluation": ("yesno", "provides_incremental_evaluation"), "fn_display": ("display", None), "map_display": ("display", None)}


def first_fn(o):
    ev = ms(o, "make_function_controller")
    return ev[0] if ev else None


def truth(o, t):
    return decide(o.st.facts, "!=", t, C(0))


def information_rule(ctx, spec, f):
    for flag, (kind, q) in INFO.items():
        for hasmap in ((False, True) if flag == "map_display" else (False,)):
            sc = Scenario(ctx, spec, f, frozenset([flag]), map=hasmap)
            for o in sc.outs:
                ctx.check(not ms(o, "maximize"), "information", f, where(o, f), "with %s the algorithm is run" % flag)
                c = code(o)
                fns = [t for ev in trace(o.st) if ev.kind == "m" and ev.name not in ("make", "make_function_modifier", "make_function_controller") for t in [ev.obj]]
                items = sinks(o).get("stdout", [])
                s, vals = text(items)
                if o.kind == "X" and o.val[0] == "std::runtime_error":
                    known = [truth(o, t) for t in o.st.facts if t.op == "m" and t.a[0] == "has_known_maximum"]
                    ctx.check(flag == "fn_get_maximum" and known == [False] or flag != "fn_get_maximum" and not known, "information", f, where(o, f), "with %s the program gives up although the answer is known" % flag)
                    continue
                ctx.check(isc(c) and c.a[0] == 0, "information", f, where(o, f), "with %s the program ends with %s" % (flag, show(c) if isinstance(c, T) else c))
                if kind == "yesno":
                    t = [t for t in o.st.facts if t.op == "m" and t.a[0] == q]
                    if len(t) == 1 and s.strip() in ("yes", "no"):
                        ctx.check(truth(o, t[0]) is (s.strip() == "yes"), "information", f, where(o, f), "with %s the program answers %s when the function says otherwise" % (flag, s.strip()))
                    else:
                        ctx.bad("information", f, where(o, f), "with %s the program answers %r, which %s does not decide" % (flag, s.replace("\0", "#"), q)) if not t else ctx.skip("information", f, "answer to %s built in another way" % flag)
                elif kind == "value":
                    ctx.check(len(vals) == 1 and strip(vals[0]).op == "m" and strip(vals[0]).a[0] == q, "information", f, where(o, f), "with %s the program prints %s" % (flag, [show(v) for v in vals]))
                    if flag == "fn_get_maximum":
                        t = [t for t in o.st.facts if t.op == "m" and t.a[0] == "has_known_maximum"]
                        ctx.check(any(truth(o, x) is True for x in t), "information", f, where(o, f), "the maximum is printed without asking whether it is known")
                else:
                    obj = [t.a[0] for t in items if t.op == "display"]
                    if flag == "map_display":
                        ctx.check(obj == ([MAPP] if hasmap else []), "information", f, where(o, f), "map_display displays %s" % [show(x) for x in obj])
                    else:
                        ctx.check(len(obj) == 1 and obj[0].op == "made", "information", f, where(o, f), "fn_display displays %s" % [show(x) for x in obj])


def load_rule(ctx, spec, f):
    for flags in powerset(["print_results", "print_description"]):
        sc = Scenario(ctx, spec, f, flags | {"load_solution"})
        for o in sc.outs:
            ctx.check(not ms(o, "maximize"), "load", f, where(o, f), "with load_solution the algorithm is run")
            if o.kind == "X" and o.val[0] == "std::runtime_error":
                continue
            c = code(o)
            ctx.check(isc(c) and c.a[0] == 0, "load", f, where(o, f), "with load_solution the program ends with %s" % (show(c) if isinstance(c, T) else c))
            sizes = [t for t in facts_terms(o) if t.op == "m" and t.a[0] == "get_bv_size"]
            ctx.check(any(decide(o.st.facts, "==", size_of(LOADED), t) is True for t in sizes), "load", f, where(o, f), "a solution of another size than the function's bit vectors is accepted")
            goods = [t for t in facts_terms(o) if t.op == "call" and t.a[0].rpartition("::")[2] in ("good", "is_open", "fail", "operator bool", "operator!")]
            ctx.check(bool(goods), "load", f, where(o, f), "the solution is used without testing that its file was opened")
            items = sinks(o).get("stdout", [])
            shown = [strip(t) for t in items if t.op == "m"]
            if "print_results" in flags:
                ctx.check(len(shown) == 1 and shown[0].a[0] == "evaluate" and shown[0].a[2] is LOADED, "load", f, where(o, f), "with print_results, load_solution prints %s, not the value of the solution" % [show(x) for x in shown])
            else:
                ctx.check(not shown, "load", f, where(o, f), "without print_results, load_solution prints %s" % [show(x) for x in shown])
            desc = [t for t in items if t.op == "describe"]
            ctx.check(len(desc) == int("print_description" in flags) and all(t.a[-1] is LOADED for t in desc), "load", f, where(o, f), "with %s, load_solution describes %s" % (sc.name(), [show(t) for t in desc]))


def facts_terms(o):
    out = set()
    for t in o.st.facts:
        out |= set(subterms(t))
    return out


# ------------------------------------------------------------------ mains
def mains(ctx):
    for f in ctx.p.functions.values():
        if f["q"] != "main" or not f["file"].startswith("app/"):
            continue
        ctx.functions.add(f["id"])
        fails = [0]

        def on_call(eng, e, st, q, g, ol, args):
            if q in ("exit", "std::exit"):
                eng.sinks[-1].append(Out("X", st, ("exit", val(st, args[0])), e))
                return []
            nm = q.rpartition("::")[2]
            if nm == "run" or nm.startswith("generate_"):
                fails[0] += 1
                s = eng.event(st, "fail", e)
                eng.sinks[-1].append(Out("X", s, ("std::runtime_error", None), e))
                return [(st, mk("void"))]
            return None
        try:
            outs = outcomes(ctx, f, None, on_call=on_call, inline=lambda eng, e, g, ol: g["file"] == f["file"] and not g.get("cls"))
        except TooComplex as x:
            ctx.skip("main", f, str(x))
            continue
        if not fails[0]:
            ctx.skip("main", f, "no call of run or generate_*")
            continue
        for o in outs:
            failed = any(ev.kind == "fail" for ev in trace(o.st))
            if o.kind == "X":
                if o.val[0] == "exit":
                    c = o.val[1]
                else:
                    ctx.check(not failed, "main", f, where(o, f), "an error escapes from main")
                    continue
            else:
                c = retval(o) if o.kind == "R" else C(0)
            if c is None:
                c = C(0)
            ctx.check(isc(c) and (c.a[0] != 0) == failed, "main", f, where(o, f), "main ends with status %s when the program %s" % (show(c), "fails" if failed else "succeeds"))


# ------------------------------------------------------------------ hnco-mo
MO = "hnco::multiobjective::app::CommandLineApplication"


def mo_hook(base):
    def on_call(eng, e, st, q, g, ol, args):
        nm = q.rpartition("::")[2]
        if nm == "compute" and "ParetoFront" in q and len(args) == 1 and isinstance(args[0], tuple):
            st = eng.event(st, "fronts", e, obj=read(st, ol))
            return [(write(st, args[0][1], typed(mk("fronts", size_of(read(st, args[0][1]))), "std::vector<int>")), mk("void"))]
        return base(eng, e, st, q, g, ol, args)
    return on_call


def mo_rule(ctx):
    spec = Spec(SPECS[1])
    f = ctx.p.find_method(MO, "run", nparams=0)
    ctx.need(f, MO + "::run")
    ctx.functions.add(f["id"])
    for flags in powerset(["print_description", "print_pareto_front"]):
        md = Model(ctx, spec, flags)
        outs = outcomes(ctx, f, MO, on_call=mo_hook(md.on_call), max_states=300)
        for o in outs:
            runs = ms(o, "minimize")
            if not runs:
                if o.kind == "X" and o.val[0] == "std::runtime_error":
                    continue
                ctx.bad("exit-status", f, where(o, f), "hnco-mo ends without running the algorithm")
                continue
            c = code(o)
            ctx.check(isc(c) and c.a[0] == 0, "exit-status", f, where(o, f), "hnco-mo ends with %s" % (show(c) if isinstance(c, T) else c))
            alg = runs[0].obj
            pop = m("get_solutions", alg)
            shown = {"describe": 0, "value": 0}
            front_loops(ctx, f, o, pop, shown)
            if "print_description" in flags:
                ctx.check(shown["describe"] > 0, "front", f, where(o, f), "with print_description, no solution is described")
            else:
                ctx.check(shown["describe"] == 0, "front", f, where(o, f), "without print_description, solutions are described")
            ctx.check((shown["value"] > 0) == bool(flags), "front", f, where(o, f), "with %s, objective values are %sprinted" % ("+".join(flags) or "no option", "" if shown["value"] else "not "))
    # what is printed on request
    for flag, q in (("fn_get_bv_size", "get_bv_size"), ("fn_get_output_size", "get_output_size")):
        md = Model(ctx, spec, {flag})
        for o in outcomes(ctx, f, MO, on_call=mo_hook(md.on_call)):
            if o.kind == "X" and o.val[0] == "std::runtime_error":
                continue
            s, vals = text(sinks(o).get("stdout", []))
            c = code(o)
            ctx.check(isc(c) and c.a[0] == 0 and not ms(o, "minimize") and len(vals) == 1 and strip(vals[0]).op == "m" and strip(vals[0]).a[0] == q, "information", f, where(o, f), "with %s, hnco-mo prints %s" % (flag, [show(v) for v in vals]))


def positions(t, pop):
    """[(member, index)] of the elements of the population mentioned by t"""
    out = []
    for x in subterms(t):
        if x.op in ("idx", "[]", "sel") and isinstance(x.a[0], T):
            b = strip(x.a[0])
            if b.op == "fld" and strip(b.a[0]) is pop and b.a[1] in ("bvs", "values"):
                out.append((b.a[1], x.a[1]))
    return out


def front_loops(ctx, f, o, pop, shown):
    def go(st0):
        for ev in trace(st0):
            if ev.kind != "loop":
                continue
            for b in ev.bodies:
                idx, evs = [], []

                def flat_(st):
                    for x in trace(st):
                        if x.kind == "loop":
                            for bb in x.bodies:
                                flat_(bb.st)
                        elif x.kind == "stream" and x.obj[0] == ("G", "std::cout"):
                            evs.append(x)
                flat_(b.st)
                for x in evs:
                    for t in x.args:
                        ps = positions(t, pop)
                        idx += ps
                        if ps:
                            k = "describe" if t.op == "describe" else "value"
                            shown[k] += 1
                            if k == "describe":
                                ctx.check(all(mem == "bvs" for mem, _ in positions(t.a[-1], pop)), "front", f, x.node.get("l", 0), "what is described is %s" % show(t))
                fr = [t for t in facts_terms(b) if t.op in ("idx", "[]", "sel") and isinstance(t.a[0], T) and t.a[0].op == "fronts"]
                line = ev.node.get("l", f["line"])
                ivs = {i for _, i in idx}
                if idx:
                    ctx.check(len(ivs) == 1, "front", f, line, "values and bit vectors of different individuals are printed together: %s" % sorted(map(show, ivs)))
                    i = next(iter(ivs))
                    ok = any(t.a[1] is i and decide(b.st.facts, "==", t, C(0)) is True for t in fr)
                    ctx.check(ok, "front", f, line, "an individual is printed although it may be outside the first Pareto front")
                    sz = [t for t in facts_terms(b)]
                else:
                    for t in fr:
                        ctx.check(decide(b.st.facts, "==", t, C(0)) is not True, "front", f, line, "an individual of the first Pareto front is not printed")
    go(o.st)
