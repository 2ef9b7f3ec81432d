"""Query helpers shared by the rules."""
from .terms import T, mk, C, isc, sub, subst, subterms, show, typed, lin, add, mul
from .absint import (Engine, State, TooComplex, trace, read, decide, proj, getroot, initv, size_of, put)
from .program import AnalysisBroken

THIS = (("THIS",), ())
FN = "hnco::function::Function"


def this0():
    return initv(("THIS",))


def thisv(st):
    return getroot(st, ("THIS",))


def walk(n):
    """all IR nodes below n (dicts), depth first"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x or "t" in x or "b" in x:
                yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            stack.extend(x)


def nodes(f, kind=None):
    roots = [f.get("body")] + [i.get("e") for i in f.get("inits", [])]
    for r in roots:
        if r is None:
            continue
        for x in walk(r):
            if kind is None or x.get("k") == kind:
                yield x


def method(ctx, cls, name, n=None):
    f = ctx.p.find_method(cls, name, nparams=n)
    if f is None:
        raise AnalysisBroken("no method %s::%s" % (cls, name))
    ctx.functions.add(f["id"])
    return f


def outcomes(ctx, f, cls=None, **kw):
    run_kw = {k: kw.pop(k) for k in ("st", "args", "this", "rs") if k in kw}
    eng = Engine(ctx.p, **kw)
    for k in ("index_events",):
        pass
    outs = eng.run(f, cls=cls, **run_kw)
    ctx.functions |= eng.nfun
    ctx.count("paths", len(outs))
    ctx.count("calls_visited", eng.ncall)
    return outs


def retval(o):
    v = o.val
    if isinstance(v, tuple) and v and v[0] == "loc":
        return read(o.st, v[1])
    return v


def getter_term(ctx, cls, name):
    """the term (over the initial object) returned by a getter"""
    f = method(ctx, cls, name, 0)
    outs = [o for o in outcomes(ctx, f, cls) if o.kind == "R"]
    if len(outs) != 1:
        raise AnalysisBroken("getter %s::%s is not straight-line" % (cls, name))
    t = retval(outs[0])
    if t is None:
        raise AnalysisBroken("getter %s::%s returns nothing" % (cls, name))
    return t


def path_of(t):
    """term fld(...fld(this)) -> path, or None"""
    p = []
    while t.op == "fld":
        p.append((".", t.a[1]))
        t = t.a[0]
    if t is this0():
        return tuple(reversed(p))
    return None


def getter_path(ctx, cls, name):
    p = path_of(getter_term(ctx, cls, name))
    if p is None:
        raise AnalysisBroken("getter %s::%s does not return a member" % (cls, name))
    return p


def at(st, path, root=("THIS",)):
    t = getroot(st, root)
    for s in path:
        t = proj(t, s)
    return t


def calls(o, pred=None, kinds=("call",), deep=True):
    """call events on the path of o, in order; loop bodies included once (deep)"""
    out = []

    def go(evs):
        for ev in evs:
            if ev.kind == "loop" and deep:
                for b in ev.bodies:
                    go(trace(b.st))
            elif ev.kind in kinds and (pred is None or pred(ev)):
                out.append(ev)
    go(trace(o.st))
    return out


def public_methods(ctx, cls, inherited_until=None):
    """public non-constructor methods with a body visible on class cls"""
    out = {}
    for c in ctx.p.bases(cls):
        if inherited_until and c == inherited_until:
            break
        r = ctx.p.records.get(c)
        if not r:
            continue
        for m in r["methods"]:
            if m["access"] != "public" or m["n"] in ("<ctor>", "<dtor>") or m["n"].startswith("operator"):
                continue
            k = (m["n"], tuple(m["pt"]))
            if k in out:
                continue
            out[k] = ctx.p.functions.get(m["id"])
    return [f for f in out.values() if f is not None]


def param(f, i):
    """initial term of the i-th parameter of an entry function"""
    p = f["ps"][i]
    if p.get("ref"):
        return initv(("P", p["n"]))
    return typed(mk("sym", p["n"] or "arg%d" % i), p["t"])


def mentions(t, x):
    return x in subterms(t)


def concrete_subclasses(ctx, base):
    out = []
    for c in ctx.p.subclasses(base):
        r = ctx.p.records.get(c)
        if r and not r.get("abstract"):
            out.append(c)
    return out


def where(o, f):
    n = o.node
    if isinstance(n, dict) and "l" in n:
        return n["l"]
    return f["line"]


def ctor_state(ctx, cls, pred=None, **kw):
    """outcomes of the constructors of cls on a blank object: [(ctor, outs)]"""
    r = ctx.p.records.get(cls)
    if r is None:
        raise AnalysisBroken("no class " + cls)
    res = []
    for m in r["methods"]:
        if m["n"] != "<ctor>" or m.get("deleted"):
            continue
        f = ctx.p.functions.get(m["id"])
        if f is None or (f.get("implicit") and len(f["ps"]) == 1):
            continue
        eng = Engine(ctx.p, **kw)
        st = State({("THIS",): mk("obj", cls, ())}, {}, None, None)
        outs = eng.run(f, cls=cls, st=st)
        ctx.functions |= eng.nfun
        res.append((f, outs))
    return res
