"""P01-P04: evaluation controllers."""
from ..core import rule
from ..q import *

CTL = "hnco::function::controller::"
ENTRY = {"evaluate": 1, "evaluate_incrementally": 3, "update": 2}
LAST = "hnco::exception::LastEvaluation"
TARGET = "hnco::exception::TargetReached"
SIGNALS = (LAST, TARGET)


def inner(ev):
    return ev.kind == "call" and ev.q in (FN + "::evaluate", FN + "::evaluate_incrementally", FN + "::update", FN + "::evaluate_safely")


def keep_opaque(eng, e, f, ol):
    if f["q"] in ("hnco::bv_flip", "hnco::bv_to_vector_bool", "hnco::bv_from_vector_bool"):
        return False
    if f["q"].startswith("hnco::StopWatch"):
        return False
    return None


def opaque_watch(eng, e, f, ol):
    return False if f["q"].startswith("hnco::StopWatch") else None


def run_entry(ctx, cls, name):
    f = method(ctx, cls, name, ENTRY[name])
    return f, outcomes(ctx, f, cls, inline=keep_opaque)


def passes_through(ctx, kind, f, o, evs, name):
    """exactly one call of the same entry point with unchanged arguments"""
    line = where(o, f)
    if not ctx.check(len(evs) == 1, kind, f, line, "%s makes %d evaluations of the wrapped function on a path, exactly one is required" % (name, len(evs))):
        return None
    ev = evs[0]
    if not ctx.check(ev.q == FN + "::" + name, kind, f, ev.node["l"], "%s forwards to %s" % (name, ev.q)):
        return None
    for i in range(ENTRY[name]):
        ctx.check(ev.args[i] is param(f, i), kind, f, ev.node["l"], "argument %d of the wrapped call is not the caller's: %s" % (i + 1, show(ev.args[i])))
    return ev


def result_of(ev, f, name):
    """term of the value of this evaluation"""
    return param(f, 1) if name == "update" else ev.res


def check_return(ctx, kind, f, o, ev, name):
    if name != "update":
        ctx.check(retval(o) is ev.res, kind, f, where(o, f), "returned value is not the wrapped function's value: %s" % show(retval(o)))


def handlers(ctx, kind):
    """nobody between the controllers and the application swallows the stop signals"""
    reach = None
    n = 0
    for f in ctx.p.functions.values():
        if f.get("file", "").startswith(("lib/hnco/app/application", "app/")):
            continue
        for t in nodes(f, "try"):
            n += 1
            for h in t["h"]:
                ty = h.get("t")
                catches = [s for s in SIGNALS if ty is None or ty == s or ctx.p.is_subclass(s, ty)]
                if not catches:
                    continue
                if not may_evaluate(ctx, t["b"]):
                    continue
                # the handler must rethrow on every path: last statement is a bare throw
                body = h["b"]["s"] if h["b"]["k"] == "block" else [h["b"]]
                ok = any(x["k"] == "throw" and (not x.get("e") or x.get("t") in SIGNALS) for x in body)
                ctx.check(ok, kind, f, h.get("l", f["line"]), "handler for %s may swallow %s raised by an evaluation" % (ty or "...", "/".join(c.split("::")[-1] for c in catches)))
    ctx.count("try_blocks", n)


def may_evaluate(ctx, body):
    """conservative: reaches Function::evaluate*/update or Algorithm::maximize through calls with bodies"""
    seen, todo = set(), [body]
    targets = {FN + "::evaluate", FN + "::evaluate_incrementally", FN + "::update", FN + "::evaluate_safely"}
    while todo:
        b = todo.pop()
        for c in walk(b):
            if c.get("k") == "call" and c.get("q"):
                if c["q"] in targets:
                    return True
                for g in (ctx.p.all_overriders(c["id"]) if c.get("virt") else [ctx.p.functions.get(c.get("id"))]):
                    if g is not None and g["id"] not in seen:
                        seen.add(g["id"])
                        if g["q"].split("::")[-1] in ("evaluate", "evaluate_incrementally") and ctx.p.is_subclass(g.get("cls", ""), FN):
                            return True
                        if g.get("body"):
                            todo.append(g["body"])
    return False


def counter_untouched(ctx, kind, cls, path, allowed):
    """public methods outside `allowed` leave the member at `path` alone"""
    for f in public_methods(ctx, cls):
        if f["n"] in allowed or f.get("static"):
            continue
        try:
            outs = outcomes(ctx, f, cls, inline=keep_opaque)
        except TooComplex as e:
            ctx.skip(kind, f, str(e))
            continue
        for o in outs:
            ctx.check(at(o.st, path) is at_init(path), kind, f, where(o, f), "modifies %s outside an evaluation" % path[-1][1])


def at_init(path):
    t = this0()
    for s in path:
        t = proj(t, s)
    return t


@rule("P01", "trace-partitioned abstract interpretation of every entry point of the counting and budget controllers "
      "(all concrete dynamic classes): per path, number and arguments of wrapped evaluations, final counter value, "
      "template-interval facts relating counter and budget at the throw; syntax-tree scan of all handlers able to catch a stop signal",
      minimum={"obligations.budget-path": 10, "obligations.count-path": 20, "try_blocks": 5},
      assumptions=["the counter does not overflow int", "the wrapped function does not alias the controller"])
def p01(ctx):
    base = CTL + "CallCounter"
    ctx.need(base in ctx.p.records, base)
    budget_cls = CTL + "OnBudgetFunction"
    ctx.need(budget_cls in ctx.p.records, budget_cls)
    for cls in concrete_subclasses(ctx, base):
        path = getter_path(ctx, cls, "get_num_calls")
        c0 = at_init(path)
        isb = ctx.p.is_subclass(cls, budget_cls)
        bt = None
        for f, outs in ctor_state(ctx, cls, inline=keep_opaque):
            for o in outs:
                if o.kind != "R":
                    continue
                c = at(o.st, path)
                ctx.check(isc(c) and c.a[0] == 0, "counter-init", f, f["line"], "a fresh controller does not start at 0 calls: %s" % show(c))
                if isb:
                    # the member that holds the budget parameter
                    want = [param(f, i) for i, p in enumerate(f["ps"]) if p["t"] == "int"]
                    cand = find_members(o.st, set(want))
                    if not cand:
                        ctx.bad("budget-init", f, f["line"], "no member holds exactly the requested budget")
                    else:
                        bt = at_init(cand[0])
                        ctx.ok("budget-init", f["q"])
        for name in ENTRY:
            f, outs = run_entry(ctx, cls, name)
            for o in outs:
                line = where(o, f)
                evs = calls(o, inner)
                c1 = at(o.st, path)
                if o.kind == "R":
                    ev = passes_through(ctx, "count-path", f, o, evs, name)
                    if ev is not None:
                        check_return(ctx, "count-path", f, o, ev, name)
                    ctx.check(c1 is add(c0, C(1)), "count-path", f, line, "an evaluation changes the call count to %s instead of adding one" % show(c1))
                    if isb and bt is not None:
                        ctx.check(decide(o.st.facts, "==", c0, bt) is False, "budget-path", f, line,
                                  "an evaluation is let through although the budget may already be exhausted (facts: %s)" % show_facts(o.st.facts))
                elif isb and o.val[0] == LAST:
                    ctx.check(not evs, "budget-path", f, line, "the wrapped function is evaluated before exhaustion is signalled")
                    ctx.check(c1 is c0, "budget-path", f, line, "the call count changes when exhaustion is signalled")
                    if bt is not None:
                        ctx.check(decide(o.st.facts, ">=", c0, bt) is True, "budget-path", f, line,
                                  "exhaustion is signalled although the budget may not be reached (facts: %s)" % show_facts(o.st.facts))
                else:
                    ctx.bad("count-path", f, line, "throws %s" % o.val[0])
            if isb:
                ctx.check(any(o.kind == "X" and o.val[0] == LAST for o in outs), "budget-path", f, f["line"], "never signals exhaustion")
        counter_untouched(ctx, "counter-owner", cls, path, ENTRY)
        if isb and bt is not None:
            p2 = path_of(bt)
            if p2:
                counter_untouched(ctx, "budget-owner", cls, p2, ())
    handlers(ctx, "handler")


def find_members(st, wanted):
    """paths of THIS (depth 1..2) whose value is one of the terms wanted"""
    out = []
    t = getroot(st, ("THIS",))
    fs = {}
    b = t
    while b.op == "updf":
        fs.setdefault(b.a[1], b.a[2])
        b = b.a[0]
    if b.op == "obj":
        for n, v in b.a[1]:
            fs.setdefault(n, v)
    for n, v in fs.items():
        if v in wanted:
            out.append(((".", n),))
    return out


def show_facts(facts):
    return "; ".join("%s in %s%s,%s%s%s" % (show(k), "(" if i[1] else "[", i[0], i[2], ")" if i[3] else "]",
                                             " \\ %s" % sorted(i[4]) if i[4] else "") for k, i in list(facts.items())[:6])


def flipped_ok(ctx, kind, f, o, t, name, line, what):
    """t must be the bit vector whose value was obtained"""
    bv = param(f, 0)
    if name != "evaluate_incrementally":
        ctx.check(t is bv, kind, f, line, "%s is not the evaluated bit vector: %s" % (what, show(t)))
        return
    fl = param(f, 2)
    if t is bv or not mentions_any(t, (bv, fl)) and t.op not in ("hv", "tab", "join"):
        ctx.bad(kind, f, line, "%s is the bit vector before the flips, paired with the value after them: %s" % (what, show(t)))
    elif t.op == "out" and t.a[0] == "hnco::bv_flip":
        ctx.check(bv in t.a and fl in t.a, kind, f, line, "%s is not the flipped bit vector: %s" % (what, show(t)))
    else:
        ctx.ok(kind, f["q"])


def mentions_any(t, xs):
    s = subterms(t)
    return any(x in s for x in xs)


@rule("P02", "trace-partitioned abstract interpretation of the target controllers: on every path through the three entry points, "
      "facts relating the obtained value and the target, recorded trigger pair, returned value",
      minimum={"obligations.stop-path": 20, "obligations.trigger": 6})
def p02(ctx):
    base = CTL + "StopOnTarget"
    ctx.need(base in ctx.p.records, base)
    tpath = getter_path(ctx, base, "get_trigger")
    for cls in concrete_subclasses(ctx, base):
        target = None
        for f, outs in ctor_state(ctx, base, inline=keep_opaque):
            for o in outs:
                want = {param(f, i) for i, p in enumerate(f["ps"]) if p["t"] == "double"}
                cand = find_members(o.st, want)
                if cand:
                    target = at_init(cand[0])
                    ctx.ok("target-init", f["q"])
                else:
                    ctx.bad("target-init", f, f["line"], "no member holds exactly the requested target")
        if cls != base:
            for f, outs in ctor_state(ctx, cls, inline=keep_opaque):
                for o in outs:
                    if target is None or o.kind != "R":
                        continue
                    v = at(o.st, path_of(target))
                    if cls == CTL + "StopOnMaximum":
                        ctx.check(v.op == "call" and v.a[0] == FN + "::get_maximum", "target-init", f, f["line"],
                                  "the target is not the maximum of the wrapped function: %s" % show(v))
        if target is None:
            continue
        for name in ENTRY:
            f, outs = run_entry(ctx, cls, name)
            for o in outs:
                line = where(o, f)
                evs = calls(o, inner)
                ev = passes_through(ctx, "stop-path", f, o, evs, name)
                if ev is None:
                    continue
                v = result_of(ev, f, name)
                if o.kind == "R":
                    check_return(ctx, "stop-path", f, o, ev, name)
                    ctx.check(decide(o.st.facts, "<", v, target) is True, "stop-path", f, line,
                              "the run goes on although the target may have been reached (facts: %s)" % show_facts(o.st.facts))
                elif o.val[0] == TARGET:
                    ctx.check(decide(o.st.facts, ">=", v, target) is True, "stop-path", f, line,
                              "the target is reported as reached although it may not be (facts: %s)" % show_facts(o.st.facts))
                    tv = at(o.st, tpath)
                    ctx.check(proj(tv, (".", "second")) is v, "trigger", f, line, "the recorded value is not the triggering value: %s" % show(proj(tv, (".", "second"))))
                    flipped_ok(ctx, "trigger", f, o, proj(tv, (".", "first")), name, line, "the recorded bit vector")
                else:
                    ctx.bad("stop-path", f, line, "throws %s" % o.val[0])
            ctx.check(any(o.kind == "X" and o.val[0] == TARGET for o in outs), "stop-path", f, f["line"], "never stops on the target")
        counter_untouched(ctx, "target-owner", cls, path_of(target), ())
        counter_untouched(ctx, "trigger-owner", cls, tpath, ENTRY)
    handlers(ctx, "handler")


@rule("P03", "trace-partitioned abstract interpretation of the progress tracker: recorded improvement, its evaluation index and pair, "
      "on every path through the three entry points",
      minimum={"obligations.improve": 20, "obligations.no-improve": 3})
def p03(ctx):
    cls = CTL + "ProgressTracker"
    ctx.need(cls in ctx.p.records, cls)
    ipath = getter_path(ctx, cls, "get_last_improvement")
    cpath = getter_path(ctx, cls, "get_num_calls")
    num = ipath + ((".", "num_evaluations"),)
    sec = ipath + ((".", "solution"), (".", "second"))
    fst = ipath + ((".", "solution"), (".", "first"))
    c0 = at_init(cpath)
    last = at_init(sec)
    # the recording flag
    sf = method(ctx, cls, "set_record_bit_vector", 1)
    so = outcomes(ctx, sf, cls)
    cand = find_members(so[0].st, {param(sf, 0)})
    flag = at_init(cand[0]) if cand else None
    for name in ENTRY:
        f, outs = run_entry(ctx, cls, name)
        kinds = set()
        for o in outs:
            line = where(o, f)
            if o.kind != "R":
                ctx.bad("improve", f, line, "throws %s" % o.val[0])
                continue
            evs = calls(o, inner)
            ev = passes_through(ctx, "pass", f, o, evs, name)
            if ev is None:
                continue
            check_return(ctx, "pass", f, o, ev, name)
            v = result_of(ev, f, name)
            c1 = at(o.st, cpath)
            ctx.check(c1 is add(c0, C(1)), "pass", f, line, "the call count becomes %s" % show(c1))
            facts = o.st.facts
            first = decide(facts, "==", c0, C(0))
            better = decide(facts, ">", v, last)
            recorded = at(o.st, sec) is not last or at(o.st, num) is not at_init(num)
            if recorded:
                kinds.add("rec")
                ctx.check(first is True or better is True, "improve", f, line,
                          "an improvement is recorded for a value that may not improve (facts: %s)" % show_facts(facts))
                ctx.check(at(o.st, sec) is v, "improve", f, line, "recorded value is not the new value: %s" % show(at(o.st, sec)))
                ctx.check(at(o.st, num) is c1, "improve", f, line, "recorded evaluation index is not the current count: %s" % show(at(o.st, num)))
                bvt = at(o.st, fst)
                fl = decide(facts, "!=", flag, C(0)) if flag is not None else None
                if fl is not False:
                    flipped_ok(ctx, "improve", f, o, bvt, name, line, "the recorded bit vector")
            else:
                kinds.add("no")
                ctx.check(first is False and better is False, "no-improve", f, line,
                          "an improvement may go unrecorded (facts: %s)" % show_facts(facts))
                ctx.check(at(o.st, fst) is at_init(fst), "no-improve", f, line, "the recorded bit vector changes without an improvement")
        ctx.check("rec" in kinds, "improve", f, f["line"], "never records an improvement")
    counter_untouched(ctx, "owner", cls, ipath, ENTRY)


@rule("P04", "trace-partitioned abstract interpretation of the cache over an abstract map (find/insert/operator[] modelled): "
      "on a hit the stored value of the same key and no evaluation, on a miss one evaluation stored under the key of the evaluated bit vector; "
      "key construction must cover every bit",
      minimum={"obligations.hit": 2, "obligations.miss": 3})
def p04(ctx):
    cls = CTL + "Cache"
    ctx.need(cls in ctx.p.records, cls)
    f = method(ctx, cls, "evaluate", 1)
    bv = param(f, 0)
    outs = outcomes(ctx, f, cls, inline=opaque_watch)
    mpath = None
    hit = miss = 0
    for o in outs:
        line = where(o, f)
        if o.kind != "R":
            ctx.bad("hit", f, line, "throws %s" % o.val[0])
            continue
        evs = calls(o, inner)
        r = retval(o)
        has = [(t, i) for t, i in o.st.facts.items() if t.op == "has" and path_of(t.a[0])]
        if evs:
            miss += 1
            ev = passes_through(ctx, "miss", f, o, evs, "evaluate")
            if ev is None:
                continue
            ctx.check(r is ev.res, "miss", f, line, "a miss does not return the wrapped function's value: %s" % show(r))
            ctx.check(any(i[2] == 0 for t, i in has), "miss", f, line, "the wrapped function is evaluated although the bit vector may be cached")
            for t, i in has:
                if i[2] != 0:
                    continue
                m0, k = t.a
                m1 = at(o.st, path_of(m0))
                stored = [x for x in subterms(m1) if x.op == "mput" or (x.op == "upd" and x.a[0] is m0)]
                ctx.check(any(x.a[0] is m0 and x.a[1] is k and x.a[2] is ev.res for x in stored), "miss", f, line,
                          "the value is not stored under the key that was looked up: %s" % show(m1))
                key_ok(ctx, f, line, k, bv, o)
        else:
            hit += 1
            ok = [t for t, i in has if i[0] == 1]
            if not ctx.check(len(ok) >= 1, "hit", f, line, "a value is returned without evaluation although the bit vector may not be cached"):
                continue
            m0, k = ok[0].a
            want = [mk("mget", m0, k), mk("sel", m0, k)]
            ctx.check(r in want, "hit", f, line, "a hit does not return the value stored for the key: %s" % show(r))
            ctx.check(at(o.st, path_of(m0)) is m0, "hit", f, line, "a hit modifies the cache")
            key_ok(ctx, f, line, k, bv, o)
            mpath = path_of(m0)
    ctx.check(hit > 0, "hit", f, f["line"], "no path serves a cached value")
    ctx.check(miss > 0, "miss", f, f["line"], "no path evaluates the wrapped function")
    if mpath:
        for g in public_methods(ctx, cls):
            if g["n"] == "evaluate":
                continue
            for o in outcomes(ctx, g, cls, inline=keep_opaque):
                ctx.check(at(o.st, mpath) is at_init(mpath), "owner", g, where(o, g), "the cache content changes outside an evaluation")
    # incremental evaluation would bypass the cache
    g = method(ctx, cls, "provides_incremental_evaluation", 0)
    inc = method(ctx, cls, "evaluate_incrementally", 3)
    if ctx.p.is_subclass(CTL + "Cache", inc.get("cls", "")) and inc.get("cls") == FN:
        for o in outcomes(ctx, g, cls):
            ctx.check(o.kind == "R" and isc(retval(o)) and retval(o).a[0] == 0, "incremental", g, where(o, g), "claims incremental evaluation, which the cache does not implement")


def key_ok(ctx, f, line, k, bv, o=None):
    """the key determines every bit of the bit vector"""
    if k is bv:
        ctx.ok("key", f["q"])
    elif k.op == "tab":
        base, lo, hi, b, g = k.a
        own = mk("sel", bv, b)
        full = isc(lo) and lo.a[0] == 0 and (hi is size_of(bv) or hi is size_of(base))
        stale = [x for x in subterms(g) if x.op == "keep" or (x.op == "sel" and x.a[0] is base)]
        if stale and full:
            ctx.bad("key", f, line, "the key keeps bits of an earlier key: %s" % show(k))
            return
        if any(x.op == "hv" for x in subterms(hi)) or (mentions(g, own) and g is not own and g is not sub(C(1), own)):
            ctx.count("key-undecided")
            return
        ctx.check(full and mentions(g, own), "key", f, line, "the key does not cover every bit of the bit vector: %s" % show(k))
    elif not mentions(k, bv) and k.op not in ("hv", "join"):
        ctx.bad("key", f, line, "the key does not depend on the evaluated bit vector: %s" % show(k))
    else:
        for le in alltrace_loops(o) if o is not None else ():
            ivs = [v[0] for v in le.ivs]
            for b in le.bodies:
                for root in b.st.mem:
                    for x in subterms(getroot(b.st, root)):
                        if x.op == "upd" and x.a[1].op in ("&", "%", "/", ">>") and any(mentions(x.a[1], v) for v in ivs) and mentions(x.a[0], k):
                            ctx.bad("key", f, line, "several bits of the bit vector share position %s of the key" % show(x.a[1])[:80])
                            return
        ctx.count("key-undecided")


def alltrace_loops(o):
    return [e for e in trace(o.st) if e.kind == "loop"]
