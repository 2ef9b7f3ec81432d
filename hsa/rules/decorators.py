"""P05: function decorators."""
from ..core import rule
from ..q import *
from .controllers import inner, keep_opaque, passes_through, where, mentions_any

DEC = "hnco::function::Decorator"
CTRL = "hnco::function::controller::Controller"
MOD = "hnco::function::modifier::"
NBH = "hnco::neighborhood::Neighborhood"
MAP = "hnco::map::Map"


def opq(eng, e, f, ol):
    if f["q"] == NBH + "::map":
        return False
    return keep_opaque(eng, e, f, ol)


def is_call(t, q):
    return isinstance(t, T) and t.op == "call" and t.a[0] == q


def split_bool(o):
    """(value or None, value term) of a boolean outcome"""
    v = retval(o)
    if isc(v):
        return bool(v.a[0]), v
    d = decide(o.st.facts, "!=", v, C(0))
    return d, v


def implied(o, q):
    """the path (facts and returned value being true) implies that the call q returned true"""
    v = retval(o)
    if mention_call(v, q) and is_call(v, q):
        return True
    for t, i in o.st.facts.items():
        if is_call(t, q) and i[0] is not None and i[0] >= 1:
            return True
    if v.op in ("and", "&&", "mul"):
        return any(is_call(x, q) for x in subterms(v))
    return False


def mention_call(t, q):
    return any(is_call(x, q) for x in subterms(t))


def image(t, bv):
    """how the wrapped function's argument is obtained from bv: 'same', ('map', obj term), 'noisy', None"""
    if t is bv:
        return "same"
    if t.op == "out" and t.a[0].endswith("::map") and bv in t.a:
        return "map" if t.a[0].startswith("hnco::map::") else "noisy" if t.a[0].startswith("hnco::neighborhood::") else None
    return None


def one_inner(ctx, kind, cls, name, q, f, o):
    evs = calls(o, lambda ev: ev.kind == "call" and ev.q == q)
    if not ctx.check(len(evs) == 1, kind, f, where(o, f), "%s: %d calls of %s on a path, one expected" % (cls.split("::")[-1], len(evs), q.split("::")[-1])):
        return None
    return evs[0]


@rule("P05", "abstract interpretation of every query and evaluation method of every concrete decorator, resolved on the dynamic class: "
      "value numbers of returned terms, arguments of wrapped calls, path facts implied by an affirmative answer",
      minimum={"obligations.size": 9, "obligations.maximum": 12, "obligations.safely": 9, "obligations.value": 6, "obligations.describe": 9, "obligations.accounting": 6})
def p05(ctx):
    ctx.need(DEC in ctx.p.records, DEC)
    for cls in concrete_subclasses(ctx, DEC):
        ctl = ctx.p.is_subclass(cls, CTRL)
        img = value_rule(ctx, cls, ctl)
        # size
        f = method(ctx, cls, "get_bv_size", 0)
        for o in outcomes(ctx, f, cls):
            v = retval(o) if o.kind == "R" else None
            want = MAP + "::get_input_size" if img == "map" else FN + "::get_bv_size"
            ctx.check(v is not None and is_call(v, want), "size", f, where(o, f), "%s announces size %s, not that of the %s" % (cls, show(v) if v is not None else "?", "map's input" if img == "map" else "wrapped function"))
        # maximum
        f = method(ctx, cls, "has_known_maximum", 0)
        changes_value = cls in ctx.changes
        for o in outcomes(ctx, f, cls):
            if o.kind != "R":
                ctx.bad("maximum", f, where(o, f), "throws")
                continue
            tv, v = split_bool(o)
            if tv is False:
                if ctl and not is_call(v, FN + "::has_known_maximum") and not facts_call(o, FN + "::has_known_maximum", False):
                    ctx.bad("maximum", f, where(o, f), "%s hides the known maximum of the wrapped function" % cls)
                else:
                    ctx.ok("maximum", cls)
                continue
            if changes_value:
                ctx.bad("maximum", f, where(o, f), "%s changes values but claims the wrapped function's maximum is known" % cls)
                continue
            ctx.check(implied(o, FN + "::has_known_maximum"), "maximum", f, where(o, f), "%s claims a known maximum although the wrapped function may not have one" % cls)
            if img == "map":
                ctx.check(implied(o, MAP + "::is_surjective"), "maximum", f, where(o, f), "%s claims a known maximum although the map may not be surjective" % cls)
        f = method(ctx, cls, "get_maximum", 0)
        for o in outcomes(ctx, f, cls):
            if o.kind == "R":
                v = retval(o)
                ctx.check(is_call(v, FN + "::get_maximum") and not changes_value, "maximum", f, where(o, f), "%s returns %s as maximum" % (cls, show(v)))
            else:
                ctx.ok("maximum", f["q"])
        if ctl:
            ctx.check(any(o.kind == "R" for o in outcomes(ctx, f, cls)), "maximum", f, f["line"], "%s never forwards the maximum" % cls)
        safely(ctx, cls, ctl)
        describe(ctx, cls, img)
        if ctl:
            f = method(ctx, cls, "update", 2)
            for o in outcomes(ctx, f, cls, inline=opq):
                if o.kind != "R":
                    if o.kind == "X" and o.val[0] == "hnco::exception::TargetReached":
                        ctx.check(any(e.q == FN + "::update" for e in calls(o, inner)), "accounting", f, where(o, f),
                                  "%s stops at the target without accounting for the evaluation which reached it" % cls)
                    continue
                evs = calls(o, inner)
                ok = len(evs) == 1 and evs[0].q == FN + "::update" and evs[0].args[0] is param(f, 0) and evs[0].args[1] is param(f, 1)
                ctx.check(ok, "accounting", f, where(o, f), "%s does not forward the accounting of a safe evaluation to the wrapped function" % cls)
            # incremental evaluation is only offered if the wrapped function offers it
        dec_incremental(ctx, cls)


def dec_incremental(ctx, cls):
    f = method(ctx, cls, "provides_incremental_evaluation", 0)
    offers = False
    for o in outcomes(ctx, f, cls):
        tv, v = split_bool(o)
        if tv is False:
            ctx.ok("incremental", cls)
            continue
        offers = True
        ctx.check(implied(o, FN + "::provides_incremental_evaluation"), "incremental", f, where(o, f),
                  "%s offers incremental evaluation although the wrapped function may not provide it" % cls)
    if not offers:
        return
    g = method(ctx, cls, "evaluate_incrementally", 3)
    if not ctx.check(g.get("cls") != FN, "incremental", g, g["line"], "%s offers incremental evaluation without implementing it" % cls):
        return
    e = method(ctx, cls, "evaluate", 1)
    # sign of the wrapped value: +1 passes through, -1 opposite
    signs = set()
    for o in outcomes(ctx, e, cls, inline=opq):
        evs = calls(o, inner)
        if o.kind == "R" and len(evs) == 1 and evs[0].q == FN + "::evaluate":
            r = retval(o)
            signs.add(1 if r is evs[0].res else -1 if r is mul(C(-1), evs[0].res) else 0)
    if signs not in ({1}, {-1}):
        ctx.skip("incremental", g, "evaluate() is not plus or minus the wrapped value")
        return
    k = signs.pop()
    for o in outcomes(ctx, g, cls, inline=opq):
        if o.kind != "R":
            continue
        evs = calls(o, inner)
        if not ctx.check(len(evs) == 1 and evs[0].q == FN + "::evaluate_incrementally", "incremental", g, where(o, g), "%s does not evaluate the wrapped function incrementally exactly once" % cls):
            continue
        ev = evs[0]
        ok = ev.args[0] is param(g, 0) and ev.args[1] is mul(C(k), param(g, 1)) and ev.args[2] is param(g, 2)
        ctx.check(ok, "incremental", g, ev.node["l"], "%s passes (%s) to the wrapped incremental evaluation" % (cls, ", ".join(show(x) for x in ev.args)))
        ctx.check(retval(o) is mul(C(k), ev.res), "incremental", g, where(o, g), "%s returns %s" % (cls, show(retval(o))))


def facts_call(o, q, truth):
    for t, i in o.st.facts.items():
        if is_call(t, q):
            if truth and i[0] is not None and i[0] >= 1:
                return True
            if not truth and i[2] is not None and i[2] <= 0:
                return True
    return False


def value_rule(ctx, cls, ctl):
    """value and argument of the wrapped evaluation"""
    if not hasattr(ctx, "changes"):
        ctx.changes = set()
    f = method(ctx, cls, "evaluate", 1)
    bv = param(f, 0)
    img = "same"
    short = cls.split("::")[-1]
    for o in outcomes(ctx, f, cls, inline=opq):
        if o.kind != "R":
            continue
        evs = calls(o, inner)
        r = retval(o)
        if not evs and short == "Cache":
            continue     # served from the cache: P04
        if ctl:
            ctx.check(len(evs) == 1 and evs[0].args[0] is bv and r is evs[0].res, "value", f, where(o, f), "%s does not return the wrapped function's value for the same bit vector" % cls)
            continue
        if not ctx.check(len(evs) == 1 and evs[0].q == FN + "::evaluate", "value", f, where(o, f), "%s does not evaluate the wrapped function exactly once" % cls):
            continue
        ev = evs[0]
        how = image(ev.args[0], bv)
        if how is None:
            if mentions(ev.args[0], bv):
                ctx.skip("value", f, "argument %s" % show(ev.args[0]))
                how = "?"
            else:
                ctx.bad("value", f, ev.node["l"], "%s evaluates the wrapped function at %s, not at (an image of) its argument" % (cls, show(ev.args[0])))
                continue
        img = how
        if short == "FunctionMapComposition":
            ctx.check(how in ("map", "?"), "value", f, ev.node["l"], "the composition does not evaluate the image of its argument by the map: %s" % show(ev.args[0]))
        elif short == "PriorNoise":
            ctx.check(how in ("noisy", "?"), "value", f, ev.node["l"], "prior noise is not applied to the argument: %s" % show(ev.args[0]))
        else:
            ctx.check(how == "same", "value", f, ev.node["l"], "%s evaluates the wrapped function at another bit vector: %s" % (cls, show(ev.args[0])))
        if short == "OppositeFunction":
            ctx.changes.add(cls)
            ctx.check(r is mul(C(-1), ev.res), "value", f, where(o, f), "the opposite function returns %s" % show(r))
        elif short == "AdditiveGaussianNoise":
            ctx.changes.add(cls)
            d = sub(r, ev.res)
            ctx.check(d.op == "call" and "normal_distribution" in d.a[0] and not mentions(d, ev.res), "value", f, where(o, f), "noise is not added to the value: %s" % show(r))
        elif short == "ParsedModifier":
            ctx.changes.add(cls)
            dep = mentions(r, ev.res) or any(k[0] == "D" and mentions(v, ev.res) and mentions(r, k[1]) for k, v in o.st.mem.items() if v is not ev.res) or any(mentions(v, ev.res) and any(x.op == "fld" and x.a[1] == n for x in subterms(r)) for n, v in members(o.st))
            ctx.check(dep, "value", f, where(o, f), "the modified value does not depend on the wrapped function's value: %s" % show(r))
        elif r is ev.res:
            ctx.ok("value", cls)
        elif short in ("FunctionMapComposition", "PriorNoise"):
            ctx.bad("value", f, where(o, f), "%s returns %s, not the wrapped function's value" % (cls, show(r)))
        else:
            ctx.changes.add(cls)
            ctx.ok("value", cls)
    if short == "AdditiveGaussianNoise":
        for c, outs in ctor_state(ctx, cls):
            for o in outs:
                for n, v in members(o.st):
                    if v.op == "ctor" and "normal_distribution" in v.a[0]:
                        args = v.a[1:]
                        want = [param(c, i) for i, p in enumerate(c["ps"]) if p["t"] == "double"]
                        ctx.check(len(args) == 2 and isc(args[0]) and args[0].a[0] == 0 and args[1] in want, "value", c, c["line"], "the noise distribution is %s" % show(v))
    return img


def members(st):
    t = getroot(st, ("THIS",))
    fs = {}
    while t.op == "updf":
        fs.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    if t.op == "obj":
        for n, v in t.a[1]:
            fs.setdefault(n, v)
    return fs.items()


def safely(ctx, cls, ctl):
    f = method(ctx, cls, "evaluate_safely", 1)
    bv = param(f, 0)
    outs = [o for o in outcomes(ctx, f, cls, inline=opq) if o.kind == "R"]
    if ctl:
        ctx.check(bool(outs), "safely", f, f["line"], "never returns")
        for o in outs:
            evs = calls(o, inner)
            ok = len(evs) == 1 and evs[0].q == FN + "::evaluate_safely" and evs[0].args[0] is bv and retval(o) is evs[0].res
            ctx.check(ok, "safely", f, where(o, f), "%s: a safe evaluation is not exactly the wrapped function's safe evaluation" % cls)
            ctx.check(thisv(o.st) is this0(), "safely", f, where(o, f), "%s: a safe evaluation changes the controller" % cls)
        return
    g = method(ctx, cls, "evaluate", 1)
    want = {canon(retval(o), g) for o in outcomes(ctx, g, cls, inline=opq) if o.kind == "R"}
    for o in outs:
        ctx.check(canon(retval(o), f) in want, "safely", f, where(o, f), "%s: a safe evaluation returns %s" % (cls, show(retval(o))))


def canon(t, f):
    t = subst(t, {param(f, 0): mk("sym", "ARG")})
    return show_all(t).replace("evaluate_safely", "evaluate")


def show_all(t):
    return repr(full(t))


def full(t):
    if not isinstance(t, T):
        return t
    return (t.op,) + tuple(full(x) if isinstance(x, T) else repr(x) for x in t.a)


def describe(ctx, cls, img):
    f = method(ctx, cls, "describe", 2)
    for o in outcomes(ctx, f, cls, inline=opq):
        if o.kind != "R":
            continue
        ev = one_inner(ctx, "describe", cls, "describe", FN + "::describe", f, o)
        if ev is None:
            continue
        how = image(ev.args[0], param(f, 0))
        if img == "map":
            ok = how == "map"
        else:
            ok = how == "same"
        ctx.check(ok, "describe", f, ev.node["l"], "%s describes %s instead of %s" % (cls, show(ev.args[0]), "the image by the map" if img == "map" else "its argument"))
    f = method(ctx, cls, "display", 1)
    for o in outcomes(ctx, f, cls, inline=opq):
        if o.kind == "R":
            one_inner(ctx, "describe", cls, "display", FN + "::display", f, o)
