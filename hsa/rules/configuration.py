"""P14: configuration takes effect."""
from ..core import rule
from ..q import *
from ..callgraph import CallGraph

LIB = ("lib/hnco/",)
SCALAR = ("int", "double", "bool", "float", "long", "unsigned", "size_t", "char")


def scalar(t):
    t = (t or "").replace("const ", "").strip()
    return t.split(" ")[0] in SCALAR or t.startswith("std::function<") or t.startswith("enum ")


def nodes_live(n, in_assert=False):
    """nodes below n, assertions left out"""
    if isinstance(n, list):
        for x in n:
            for y in nodes_live(x):
                yield y
        return
    if not isinstance(n, dict):
        return
    if n.get("k") == "assert":
        return
    yield n
    for v in n.values():
        if isinstance(v, (dict, list)):
            for y in nodes_live(v):
                yield y


def bodies(f):
    out = [f.get("body")] if f.get("body") else []
    return out + [i.get("e") for i in f.get("inits", []) if i.get("e")]


def strip_casts(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "cleanup", "expr", "bind", "defarg") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def own_field(n, cls_bases):
    """name of the field of *this designated by node n, or None"""
    n = strip_casts(n)
    if isinstance(n, dict) and n.get("k") == "mem" and isinstance(n.get("b"), dict) and strip_casts(n["b"]).get("k") == "this" and "n" in n:
        return n["n"]
    return None


def accesses(f):
    """(reads, writes) of own fields: {name: [line]}"""
    reads, writes = {}, {}
    for b in bodies(f):
        skip = set()
        for n in nodes_live(b):
            k = n.get("k")
            if k == "asg":
                m = own_field(n.get("lhs"), None)
                if m:
                    writes.setdefault(m, []).append(n.get("l", f["line"]))
                    if n.get("op") in ("=", None, ""):
                        skip.add(id(strip_casts(n["lhs"])))
            elif k == "call" and n.get("op") == "=" and n.get("o") is not None:
                m = own_field(n["o"], None)
                if m:
                    writes.setdefault(m, []).append(n.get("l", f["line"]))
                    skip.add(id(strip_casts(n["o"])))
            elif k == "un" and n.get("op") in ("++", "--", "p++", "p--", "post++", "post--", "pre++", "pre--"):
                m = own_field(n.get("e"), None)
                if m:
                    writes.setdefault(m, []).append(n.get("l", f["line"]))
            elif k == "mem" and id(n) not in skip:
                m = own_field(n, None)
                if m:
                    reads.setdefault(m, []).append(n.get("l", f["line"]))
    return reads, writes


def setters(ctx):
    for f in ctx.p.functions.values():
        if f.get("cls") and f["n"].startswith("set_") and len(f["ps"]) == 1 and f.get("access") == "public" and f["file"].startswith(LIB) and not f.get("static") and f.get("body"):
            if f["n"] in ("set_origin", "set_log_context"):
                continue
            yield f


def name_matches(have, want):
    """parameter `have` may be given to the setter of `want`"""
    return have == want or have.endswith("_" + want) or want.endswith("_" + have)


@rule("P14", "abstract interpretation of every public setter (value stored, on every path), AST access analysis over the class hierarchy and call graph (the stored field is read by running code, outside assertions and constructors, and never overwritten), "
      "name-resolved forwarding to components and constructors",
      minimum={"obligations.stored": 60, "obligations.used": 60, "obligations.forwarded": 10, "obligations.constructed": 40})
def p14(ctx):
    p = ctx.p
    acc = {}
    by_cls = {}
    for f in p.functions.values():
        if f.get("cls"):
            by_cls.setdefault(f["cls"], []).append(f)

    def access(f):
        if f["id"] not in acc:
            acc[f["id"]] = accesses(f)
        return acc[f["id"]]
    config = {}           # class -> {field: (parameter name, setter)}
    for f in sorted(setters(ctx), key=lambda f: (f["file"], f["line"])):
        cls, name = f["cls"], f["n"][4:]
        ctx.functions.add(f["id"])
        par = param(f, 0)
        try:
            outs = outcomes(ctx, f, cls)
        except TooComplex as x:
            ctx.skip("stored", f, str(x))
            continue
        fields = set()
        for o in outs:
            if o.kind == "X":
                continue
            # fields of *this whose final value comes from the parameter
            ws = {}
            for ev in trace(o.st):
                if ev.kind == "write" and ev.loc[0] == ("THIS",):
                    ws[ev.loc[1]] = read(o.st, ev.loc)
            mine = {pa: v for pa, v in ws.items() if v is par or mentions(v, par)}
            if not ws:
                calls_ = [ev for ev in trace(o.st) if ev.kind == "call" and any(isinstance(a, T) and mentions(a, par) for a in ev.args)]
                if calls_:
                    ctx.skip("stored", f, "handed to %s" % calls_[0].q)
                    continue
            ok = bool(mine)
            ctx.check(ok, "stored", f, where(o, f), "%s does not store its argument" % f["q"])
            for pa, v in mine.items():
                good = v is par or v.op in ("ctor", "call", "upd", "new-vec", "m", "pair")
                ctx.check(good, "stored", f, where(o, f), "%s stores %s, not its argument" % (f["q"], show(v)))
                if pa and pa[0][0] == ".":
                    fields.add(pa)
        for pa in fields:
            ff = pa[0][1]
            other = config.setdefault(cls, {}).get(pa)
            if other is not None and other[0] != name:
                ctx.bad("stored", f, f["line"], "%s and %s store their argument in the same member %s" % (f["q"], other[1]["q"], ff))
            config[cls].setdefault(pa, (name, f))
    used_rule(ctx, p, config, access, by_cls)
    getter_rule(ctx, p, config)
    forward_rule(ctx, p, config)
    component_rule(ctx, p, config)
    log_rule(ctx, p, config)
    constructor_rule(ctx, p)
    swapped_rule(ctx, p)
    default_rule(ctx, p, config)
    switches_on(ctx, p)


def used_rule(ctx, p, config, access, by_cls):
    cg = CallGraph(p)
    for cls, fs in sorted(config.items()):
        family = [cls] + [c for c in p.subclasses(cls) if c != cls]
        ups = [c for c in p.bases(cls)]
        methods = [g for c in set(family + ups) for g in by_cls.get(c, [])]
        # lambdas written inside a method belong to its body
        readers = {}
        for g in methods:
            if g.get("ctor") or g["n"] in ("<ctor>", "<dtor>") or g["n"].startswith("set_") and g["ps"] or g["n"].startswith("get_"):
                continue
            r, w = access(g)
            for m in r:
                readers.setdefault(m, []).append(g)
            for pa, (name, s) in fs.items():
                m = pa[0][1]
                if m in w and len(pa) == 1 and scalar_field(p, cls, m) and g["cls"] in family + [cls]:
                    if p.is_subclass(cls, "hnco::map::Map") or p.is_subclass(cls, FN):
                        continue
                    ctx.bad("kept", g, w[m][0], "%s overwrites %s, which %s configures" % (g["q"], m, s["q"]))
        for pa, (name, s) in sorted(fs.items()):
            if len(pa) > 1:
                continue
            m = pa[0][1]
            live = [g for g in readers.get(m, []) if reachable(cg, p, g)]
            ctx.check(bool(live), "used", s, s["line"], "the value given to %s is never read by code that runs (member %s)" % (s["q"], m))


def scalar_field(p, cls, m):
    for c in p.bases(cls):
        r = p.records.get(c)
        for x in (r or {}).get("fields", []):
            if x["n"] == m:
                return scalar(x["t"])
    return False


_callers = {}


def reachable(cg, p, g):
    """a public method, or one that some other method calls"""
    if g.get("access") == "public" or g.get("virt") or g.get("virtual"):
        return True
    key = id(p)
    if key not in _callers:
        cs = {}
        for f in p.functions.values():
            for n, h in cg.sites(f):
                if h is not None and h["id"] != f["id"]:
                    cs.setdefault(h["id"], set()).add(f["id"])
        _callers[key] = cs
    return bool(_callers[key].get(g["id"]))


def getter_rule(ctx, p, config):
    for cls, fs in sorted(config.items()):
        for pa, (name, s) in sorted(fs.items()):
            g = p.find_method(cls, "get_" + name, nparams=0)
            if g is None or not g.get("body"):
                continue
            try:
                outs = [o for o in outcomes(ctx, g, cls) if o.kind == "R"]
            except TooComplex:
                continue
            for o in outs:
                v = retval(o)
                if v is not None and path_of(v) is not None:
                    ctx.check(path_of(v) == pa, "getter", g, where(o, g), "%s returns %s, not what %s stores" % (g["q"], show(v), s["q"]))


def forward_rule(ctx, p, config):
    fieldnames = {}
    for cls, fs in config.items():
        for pa, (name, s) in fs.items():
            if len(pa) == 1:
                fieldnames.setdefault(cls, {})[pa[0][1]] = name
    for f in p.functions.values():
        if not f.get("cls") or not f["file"].startswith(LIB) or "/app/" in f["file"] or f["n"].startswith("set_"):
            continue
        mine = {}
        for c in p.bases(f["cls"]):
            for m, n in fieldnames.get(c, {}).items():
                mine.setdefault(m, n)
        if not mine:
            continue
        for b in bodies(f):
            for n in nodes_live(b):
                if n.get("k") != "call" or not n.get("q") or n.get("o") is None or len(n.get("a", [])) != 1:
                    continue
                nm = n["q"].rpartition("::")[2]
                if not nm.startswith("set_") or nm == "set_origin":
                    continue
                arg = strip_casts(n["a"][0])
                used = [own_field(x, None) for x in nodes_live(arg) if own_field(x, None) in mine]
                if not used:
                    continue
                bare = own_field(arg, None)
                if bare is None:
                    ctx.bad("forwarded", f, n.get("l", f["line"]), "%s receives an altered value of %s" % (n["q"], used[0]))
                else:
                    ctx.check(name_matches(mine[bare], nm[4:]), "forwarded", f, n.get("l", f["line"]), "%s receives the parameter set by set_%s" % (n["q"], mine[bare]))


def component_rule(ctx, p, config):
    """a component (member or local object) with a setter for a parameter which its owner has under the same name is given it"""
    def names(cls):
        # a setter which no one calls is not instantiated: those of the other instances of the template count
        return {n for c in p.bases(cls) for d in like.get(c.partition("<")[0], ()) for _, (n, _s) in config.get(d, {}).items()}

    like = {}
    for c in config:
        like.setdefault(c.partition("<")[0], []).append(c)
    by_cls = {}
    for f in p.functions.values():
        if f.get("cls") and f.get("body") and f["file"].startswith(LIB) and "/app/" not in f["file"]:
            by_cls.setdefault(f["cls"], []).append(f)
    for cls in sorted(by_cls):
        mine = names(cls)
        if not mine:
            continue
        family = [c for c in by_cls if c == cls or c in p.bases(cls) or cls in p.bases(c)]
        given, passed, locals_ = set(), set(), {}
        for f in [g for c in family for g in by_cls[c]]:
            for b in bodies(f):
                for n in nodes_live(b):
                    k = n.get("k")
                    if k == "decl" and f["cls"] == cls:
                        for v in n.get("v", []):
                            t = v.get("t", "")
                            if t in p.records and not v.get("ref") and t != cls:
                                locals_[(f["id"], v["n"])] = (t, f, v.get("l", f["line"]))
                    if k in ("call", "ctor"):
                        for a in n.get("a", []):
                            a = strip_casts(a)
                            if isinstance(a, dict) and a.get("k") == "un" and a.get("op") == "&":
                                a = strip_casts(a.get("e"))
                            m = own_field(a, None)
                            if m:
                                passed.add(m)
                            elif isinstance(a, dict) and a.get("k") == "var":
                                passed.add((f["id"], a.get("n")))
                    if k == "call" and n.get("o") is not None and n.get("q"):
                        nm = n["q"].rpartition("::")[2]
                        if nm.startswith("set_") and len(n.get("a", [])) == 1:
                            o = strip_casts(n["o"])
                            m = own_field(o, None)
                            if m:
                                given.add((m, nm[4:]))
                            elif isinstance(o, dict) and o.get("k") == "var":
                                given.add(((f["id"], o.get("n")), nm[4:]))
        r = p.records.get(cls)
        for x in (r or {}).get("fields", []):
            t = x.get("t", "")
            if t in p.records and t != cls:
                for n in sorted(mine & names(t)):
                    if x["n"] in passed and (x["n"], n) not in given:
                        ctx.skip("component", cls, "%s is handed to a function" % x["n"])
                        continue
                    ctx.check((x["n"], n) in given, "component", (r.get("file", cls), cls), x.get("l", r.get("line", 0)), "%s of %s is not given the %s set on its owner" % (x["n"], cls, n))
        for key, (t, f, line) in sorted(locals_.items()):
            for n in sorted(mine & names(t)):
                if key in passed and (key, n) not in given:
                    ctx.skip("component", f, "%s is handed to a function" % key[1])
                    continue
                ctx.check((key, n) in given, "component", f, line, "%s in %s is not given the %s set on the algorithm" % (key[1], f["q"], n))


ALG = "hnco::algorithm::Algorithm"
SOMETHING = (".", "_something_to_log")


def with_flags(cls, flags, on, extra=()):
    from ..absint import write
    st = State({}, {}, None, None)
    for pa in flags:
        st = write(st, (("THIS",), pa), C(int(pa in on)))
    for pa, v in extra:
        st = write(st, (("THIS",), pa), v)
    return st


def emissions(o):
    """terms handed to loggers and streams on a path, loop bodies included"""
    out = []

    def go(st):
        for ev in trace(st):
            if ev.kind == "loop":
                for b in ev.bodies:
                    go(b.st)
            elif ev.kind == "stream":
                out.extend(show(a) for a in ev.args if isinstance(a, T) and a.op != "str")
            elif ev.kind in ("call",) and not ev.q.startswith("std::") and ev.q.rpartition("::")[2] not in ("to_string",):
                out.append(ev.q)
    go(o.st)
    return sorted(out)


def log_rule(ctx, p, config):
    cg = CallGraph(p)
    for cls, fs in sorted(config.items()):
        if not (p.is_subclass(cls, ALG)):
            continue
        flags = {pa: v for pa, v in fs.items() if v[0].startswith("log_") and v[1]["ps"][0]["t"] == "bool"}
        f = p.find_method(cls, "log", nparams=0)
        if not flags or f is None or not f.get("body"):
            continue
        have = any(x["n"] == SOMETHING[1] for c in p.bases(cls) for x in (p.records.get(c) or {}).get("fields", []))
        try:
            sigs = {}
            for on in [()] + [(pa,) for pa in flags]:
                st = with_flags(cls, flags, on, [((SOMETHING,), C(1))] if have else [])
                sigs[on] = [emissions(o) for o in outcomes(ctx, f, cls, st=st, assume_asserts=False) if o.kind != "X"]
        except TooComplex as x:
            ctx.skip("logged", f, str(x))
            continue
        base = min((len(x) for x in sigs[()]), default=0)
        seen = {}
        for pa, (name, s) in sorted(flags.items()):
            lens = [len(x) for x in sigs[(pa,)]]
            single = len(flags) == 1
            ctx.check(single and max(lens, default=0) > 0 or bool(lens) and max(lens) > base, "logged", f, f["line"], "%s logs nothing more when %s is set" % (f["q"], name))
            key = max(sigs[(pa,)], key=len) if lens else None
            if key:
                k = tuple(key)
                ctx.check(k not in seen, "logged", f, f["line"], "%s logs the same for %s and %s" % (f["q"], name, seen.get(k)))
                seen[k] = name
        if not have:
            continue
        writers = [g for c in p.bases(cls) for g in p.functions.values() if g.get("cls") == c and not g["ps"] and not g.get("ctor") and g["n"] != "<ctor>" and SOMETHING[1] in accesses(g)[1]]
        near = [g for g in writers if g["cls"] == cls] or writers
        for g in near:
            try:
                for on in [()] + [(pa,) for pa in flags]:
                    for o in outcomes(ctx, g, cls, st=with_flags(cls, flags, on)):
                        if o.kind == "X":
                            continue
                        v = read(o.st, (("THIS",), (SOMETHING,)))
                        d = decide(o.st.facts, "!=", v, C(0))
                        if d is None:
                            continue
                        ctx.check(d is bool(on), "logged", g, where(o, g), "%s: %s to log when %s" % (g["q"], "something" if d else "nothing", "only %s is set" % flags[on[0]][0] if on else "no flag is set"))
            except TooComplex as x:
                ctx.skip("logged", g, str(x))
        if near:
            ids = {g["id"] for g in near}
            r = cg.reach(lambda h: h["id"] in ids)
            for d in [c for c in [cls] + list(p.subclasses(cls)) if not (p.records.get(c) or {}).get("abstract")]:
                i = p.find_method(d, "init", nparams=0)
                if i is not None and i.get("body"):
                    ctx.check(i["id"] in r, "logged", i, i["line"], "a run of %s never finds out whether there is something to log" % d)


def constructor_rule(ctx, p):
    """a constructor parameter p of a class with a member _p determines that member"""
    for f in sorted(p.functions.values(), key=lambda f: (f["file"], f["line"])):
        if not f.get("ctor") and f["n"] != "<ctor>" or not f["file"].startswith(LIB) or f.get("implicit"):
            continue
        cls = f["cls"]
        r = p.records.get(cls)
        if not r:
            continue
        names = {x["n"] for x in r.get("fields", [])}
        todo = [i for i, q in enumerate(f["ps"]) if q["n"] and "_" + q["n"] in names]
        if not todo:
            continue
        inits = {i.get("n") or i.get("f"): i for i in f.get("inits", [])}
        for i in todo:
            q = f["ps"][i]["n"]
            ini = inits.get("_" + q)
            ok = None
            if ini is not None and ini.get("e") is not None:
                ok = any(n.get("k") == "var" and n.get("n") == q for n in nodes_live(ini["e"]))
                others = [n["n"] for n in nodes_live(ini["e"]) if n.get("k") == "var" and n.get("vk") == "param" and n.get("n") != q]
                if not ok and not others:
                    ok = None
            if ok is None:
                r2, w2 = accesses(f)
                ok = "_" + q in w2 or any(n.get("k") == "var" and n.get("n") == q and n.get("vk") == "param" for b in bodies(f) for n in nodes_live(b))
            ctx.check(ok, "constructed", f, f["line"], "the constructor of %s does not give its parameter %s to the member _%s" % (cls, q, q))


def argname(e):
    e = strip_casts(e)
    if isinstance(e, dict):
        if e.get("k") == "var":
            return e.get("n")
        m = own_field(e, None)
        if m:
            return m.lstrip("_")
        if e.get("k") == "ctor" and len(e.get("a", [])) == 1:
            return argname(e["a"][0])
    return None


def swapped_rule(ctx, p):
    """two arguments whose names say they were exchanged"""
    for f in p.functions.values():
        if not f["file"].startswith(LIB + ("app/",)):
            continue
        for b in bodies(f):
            for n in nodes_live(b):
                if n.get("k") != "ctor" or not n.get("id"):
                    continue
                g = p.functions.get(n["id"])
                if g is None or len(g["ps"]) < 2 or g["id"] == f["id"]:
                    continue
                names = [x["n"] for x in g["ps"]]
                args = [argname(a) for a in n.get("a", [])]
                hit = False
                for i in range(min(len(names), len(args))):
                    for j in range(i + 1, min(len(names), len(args))):
                        if args[i] and args[j] and args[i] == names[j] and args[j] == names[i] and names[i] != names[j]:
                            hit = True
                            ctx.bad("swapped", f, n.get("l", f["line"]), "%s is called with %s and %s exchanged" % (g["q"], args[i], args[j]))
                if not hit and sum(1 for a in args if a in names) >= 2:
                    ctx.ok("swapped", g["q"])


# ------------------------------------------------------------------ defaults
RATES = {"_mutation_rate": "1/n", "_lower_bound": "1/n", "_margin": "1/n",
         "_upper_bound": "1-1/n"}


def default_rule(ctx, p, config):
    """what holds unless it is set: nothing is logged, rates and margins are 1/n"""
    from fractions import Fraction
    from ..values import Values, Unknown
    for cls in sorted(p.records):
        if not cls.startswith(("hnco::algorithm::", "hnco::multiobjective::algorithm::", "hnco::function::controller::")):
            continue
        fields = {fd["n"] for fd in p.records[cls].get("fields", []) if fd.get("n")}
        rates = sorted(fields & set(RATES))
        logs = sorted(m for m in fields if (m.startswith("_log_") or m == "_allow_no_mutation") and scalar_bool(p, cls, m))
        if not rates and not logs:
            continue
        try:
            cs = ctor_state(ctx, cls)
        except (TooComplex, AnalysisBroken) as e:
            ctx.skip("default", cls, str(e))
            continue
        for f, outs in cs:
            if f.get("implicit"):
                continue
            n = next((param(f, i) for i, q in enumerate(f["ps"]) if q["n"] == "n"), None)
            for o in outs:
                if o.kind != "R":
                    continue
                for m in logs:
                    v = at(o.st, ((".", m),))
                    if isc(v):
                        ctx.check(v.a[0] in (0, False), "default", f, f["line"], "%s: %s is on unless it is set" % (cls, m))
                if n is None:
                    continue
                for m in rates:
                    v = at(o.st, ((".", m),))
                    ns = [z for z in subterms(v) if z.op == n.op and z.a == n.a]        # (as int, as double)
                    if not ns or v.op == "obj" or any(z.op == "obj" for z in subterms(v)):
                        continue        # set later, or not a rate of n bits
                    try:
                        for size in (4, 10):
                            got = Values(None, {}, {z: size for z in ns}).ev(v)
                            want = Fraction(1, size) if RATES[m] == "1/n" else 1 - Fraction(1, size)
                            if abs(float(got) - float(want)) > 1e-9:
                                ctx.bad("default", f, f["line"], "%s: unless it is set, %s is %s instead of %s" % (cls, m, show(v)[:80], RATES[m]), key="rate:%s:%s" % (cls, m))
                                break
                        else:
                            ctx.ok("default", cls + " " + m)
                    except (Unknown, ZeroDivisionError, TypeError, ValueError, OverflowError):
                        ctx.skip("default", f, "%s is %s" % (m, show(v)[:80]))


def switches_on(ctx, p):
    """a setter without parameter, named after something to log, switches it on"""
    for cls in sorted(p.records):
        if not cls.startswith(("hnco::algorithm::", "hnco::multiobjective::algorithm::", "hnco::function::controller::")):
            continue
        for m in p.records[cls]["methods"]:
            f = p.functions.get(m["id"])
            if not m["n"].startswith("set_log_") or f is None or f["ps"] or not f.get("body"):
                continue
            for o in outcomes(ctx, f, cls):
                t = thisv(o.st)
                vals = []
                while t.op == "updf":
                    vals.append(t.a[2])
                    t = t.a[0]
                if o.kind == "R" and all(isc(v) for v in vals):
                    ctx.check(any(v.a[0] in (1, True) for v in vals), "default", f, f["line"], "%s switches nothing on" % f["q"])


def scalar_bool(p, cls, m):
    for c in p.bases(cls):
        for fd in p.records.get(c, {}).get("fields", []):
            if fd.get("n") == m:
                return fd.get("t") == "bool"
    return False
