"""P18: saving and loading."""
from ..core import rule
from ..q import *
from ..absint import Out, write, assume
from ..effects import Effects, lastname
from ..terms import subst
from .runs import First
from .configuration import nodes_live as live
from ..values import all_loops, Values, Unknown
from ..absint import trace, cmpterm
from ..terms import lin, neg, add, sub

IAR, OAR = "text_iarchive", "text_oarchive"
CHECKS = ("good", "fail", "bad", "is_open", "operator!", "operator bool", "eof")
FILES = ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream")


def val(st, a):
    return read(st, a[1]) if isinstance(a, tuple) else a


def chain(t, op):
    out = []
    while isinstance(t, T) and t.op == op:
        out.append(t)
        t = t.a[0]
    return t, out[::-1]


class Archive(object):
    """archives as sequences of values; streams opened on a path; extractions which may fail"""

    def __init__(self, throws=False):
        self.throws = throws
        self.bad = []

    def on_call(self, eng, e, st, q, g, ol, args):
        op, nm = e.get("op"), lastname(q)
        r = self.streams(eng, e, st, q, nm, op, ol, args)
        if r is not None:
            return r
        if q in ("abs", "std::abs") and len(args) == 1 and (e.get("t") or "") in ("int", "long"):
            v = val(st, args[0])
            a, b = assume(st, cmpterm(">=", v, C(0)), True), assume(st, cmpterm(">=", v, C(0)), False)
            return [(x, y) for x, y in ((a, v), (b, neg(v))) if x is not None]
        if ("_iarchive" in q or "_oarchive" in q) and q.endswith(("::operator&", "::operator<<", "::operator>>")) and ol is not None and len(args) == 1:
            ar = read(st, ol)
            if "_oarchive" in q:
                s = write(st, ol, mk("aput", ar, val(st, args[0])))
                s = eng.event(s, "archive", e, out=True, obj=ol, locs=args, args=(val(st, args[0]),), q=q, ar=ar)
            else:
                if not isinstance(args[0], tuple):
                    return None
                loc = args[0][1]
                old = read(st, loc)
                s = write(write(st, loc, typed(mk("aget", ar), old.ty)), ol, mk("atail", ar))
                s = eng.event(s, "archive", e, out=False, obj=ol, locs=args, args=(old,), q=q, ar=ar)
            if self.throws:
                eng.sinks[-1].append(Out("X", s, ("boost::archive::archive_exception", None), e))
            return [(s, ("loc", ol))]
        return None


    def inline(self, eng, e, g, ol):
        return not e.get("virt") and not any(x.get("k") in ("for", "while", "do", "rfor") for x in nodes(g))

    # -- streams
    def used(self, eng, e, st, t):
        """a stream opened on a path is about to be used"""
        b = base_stream(t)
        if b is not None and b.a[1:] and not entails(st, sok(b)):
            self.bad.append((eng.cur()[0], e, b))

    def streams(self, eng, e, st, q, nm, op, ol, args):
        if op in ("<<", ">>") and ("stream" in q or q.startswith("std::operator")):
            if ol is not None:
                base, rest = ol, args
            elif args and isinstance(args[0], tuple):
                base, rest = args[0][1], args[1:]
            else:
                return None
            os = read(st, base)
            self.used(eng, e, st, os)
            if op == "<<":
                return None
            s = write(st, base, mk("snext", os))
            vs = []
            xs = (e.get("a") or [])[-len(rest):] if rest else []
            for k, a in enumerate(rest):
                if isinstance(a, tuple):
                    old = read(s, a[1])
                    ty = (xs[k].get("t") if k < len(xs) else None) or old.ty
                    v = typed(mk("sread", os, ty or "?"), ty)
                    vs.append(v)
                    s = write(s, a[1], v)
            s = eng.event(s, "stream", e, op=op, obj=base, args=tuple(vs), locs=rest, q=q, chain=os)
            return [(s, ("loc", base))]
        if nm == "getline" and q.startswith("std::") and len(args) >= 2 and isinstance(args[0], tuple) and isinstance(args[1], tuple):
            os = read(st, args[0][1])
            self.used(eng, e, st, os)
            old = read(st, args[1][1])
            s = write(write(st, args[0][1], mk("snext", os)), args[1][1], typed(mk("sread", os, "line"), old.ty))
            return [(s, args[0])]
        g = eng.p.functions.get(e.get("id"))
        if not (g is not None and g.get("body") is not None and self.inline(eng, e, g, ol)) and nm not in CHECKS:
            for a in args:
                if isinstance(a, tuple):
                    self.used(eng, e, st, read(st, a[1]))
        if ol is None or not ("basic_ios" in q or "basic_ifstream" in q or "basic_ofstream" in q or "basic_istream" in q or "basic_ostream" in q or "basic_istringstream" in q):
            return None
        os = read(st, ol)
        ok = sok(os)
        if nm == "is_open" or nm == "operator bool":
            return [(st, ok)]
        if nm in ("fail", "operator!", "bad"):
            return [(st, mk("not", ok))]
        if nm == "good":
            if os.op == "ctor":
                return [(st, ok)]
            out = []
            a = assume(st, ok, True)
            if a is not None:
                eo = typed(mk("eof", os), "bool")
                for tr in (True, False):
                    b = assume(a, eo, tr)
                    if b is not None:
                        out.append((b, C(int(not tr))))
            b = assume(st, ok, False)
            if b is not None:
                out.append((b, C(0)))
            return out
        if nm == "eof":
            return [(st, typed(mk("eof", os), "bool"))]
        return None


def sok(t):
    return typed(mk("sok", t), "bool")


def base_stream(t):
    while isinstance(t, T) and t.op in ("snext", "<<", "after") and t.a:
        t = t.a[0] if t.op != "after" else t.a[1]
    return t if isinstance(t, T) and t.op == "ctor" and str(t.a[0]).startswith(FILES) else None


def entails(st, t, truth=True):
    return assume(st, t, not truth) is None


def observers(ctx, cls):
    """public methods through which a user observes an object of class cls"""
    out = []
    for c in ctx.p.bases(cls):
        for m in (ctx.p.records.get(c) or {"methods": []})["methods"]:
            if m["n"] in ("<ctor>", "<dtor>", "save", "load", "serialize", "random") or m.get("access") not in (None, "public"):
                continue
            f = ctx.p.functions.get(m["id"])
            if f is None or f.get("body") is None or f.get("static") or f.get("implicit"):
                continue
            if m.get("const") or f.get("const") or m["n"] in ("evaluate", "evaluate_incrementally", "evaluate_safely", "map", "describe") or m["n"].startswith(("get_", "has_", "is_", "provides_")):
                out.append(f)
    return out


def mentions_of(ctx, cls, f, seen=None):
    """members of *this named by f or the methods it calls on *this: name -> (function, line)"""
    seen = seen if seen is not None else set()
    out = {}
    if f is None or f.get("body") is None or f["id"] in seen:
        return out
    seen.add(f["id"])
    for x in live(f["body"]):
        if x.get("k") == "mem" and x["b"].get("k") == "this":
            out.setdefault(x["n"], (f, x.get("l")))
        elif x.get("k") == "call" and isinstance(x.get("o"), dict) and x["o"].get("k") == "this":
            g = ctx.p.resolve_virtual(cls, x["id"]) if x.get("virt") and not x.get("nv") else ctx.p.functions.get(x.get("id"))
            for n, w in mentions_of(ctx, cls, g, seen).items():
                out.setdefault(n, w)
    return out


SHAPING = ("operator=", "resize", "assign", "clear", "push_back", "emplace_back", "swap", "insert", "emplace", "reserve", "pop_back", "erase")


def shaped(ctx, cls, f, is_it, seen=None):
    """may f give a new size to the container designated by is_it(node)?"""
    seen = seen if seen is not None else set()
    for x in live(f["body"]):
        k = x.get("k")
        if k == "bin" and x.get("op") == "=" and is_it(x.get("a") or x.get("lhs") or {}):
            return True
        if k != "call":
            continue
        o = x.get("o")
        args = x.get("a") or []
        nm = lastname(x.get("q") or "")
        if isinstance(o, dict) and is_it(o) and nm in SHAPING:
            return True
        if x.get("op") == "=" and args and is_it(args[0]):
            return True
        g = ctx.p.resolve_virtual(cls, x["id"]) if x.get("virt") and not x.get("nv") and isinstance(o, dict) and o.get("k") == "this" else ctx.p.functions.get(x.get("id"))
        for i, a in enumerate(args):
            if not is_it(a):
                continue
            if g is None or g.get("body") is None:
                if nm in ("swap", "move", "getline") or not (x.get("q") or "").startswith("std::"):
                    return True
                continue
            if i < len(g["ps"]) and (g["id"], i) not in seen:
                seen.add((g["id"], i))
                pn = g["ps"][i]["n"]
                if shaped(ctx, g.get("cls"), g, lambda y: y.get("k") == "var" and y.get("n") == pn and y.get("vk") == "param", seen):
                    return True
        if isinstance(o, dict) and o.get("k") == "this" and g is not None and g.get("body") is not None and (g["id"], None) not in seen:
            seen.add((g["id"], None))
            if shaped(ctx, cls, g, is_it, seen):
                return True
    return False


def observed(ctx, cls):
    """members on which the answers of an object depend: name -> (observer, (function, line))"""
    eff = ctx.p.__dict__.setdefault("_p18_eff", Effects(ctx.p))
    out = {}
    obs = observers(ctx, cls)
    for f in obs:
        fa = First(ctx, cls)
        fa.run(f)
        for n, w in fa.reads.items():
            out.setdefault(n, (f, w))
        changed = set(e[0][1] for e in eff.effects(f, cls) if e[0][0] == "this")
        for n, w in mentions_of(ctx, cls, f).items():
            if n not in changed:
                out.setdefault(n, (f, w))
    # containers which no observer resizes: their size is part of the state
    fs = fields(ctx, cls)
    for f in obs:
        for n, w in mentions_of(ctx, cls, f).items():
            if n not in out and (fs.get(n) or {}).get("t", "").startswith(("std::vector", "hnco::bit_vector_t", "bit_vector_t")) and not any(
                    shaped(ctx, cls, g, lambda y: y.get("k") == "mem" and y.get("n") == n and y["b"].get("k") == "this") for g in obs):
                out[n] = (f, w)
    return obs, out


def fields(ctx, cls):
    r = ctx.p.records.get(cls)
    return {x["n"]: x for x in (r or {"fields": []})["fields"] if not x.get("static")}


def serial(ctx, cls):
    """(function which saves, function which loads) through an archive"""
    sv = ld = None
    for f in ctx.p.functions.values():
        if f.get("cls") != cls or f.get("body") is None:
            continue
        n = lastname(f["q"])
        if n not in ("save", "load", "serialize"):
            continue
        split = any(x.get("k") == "call" and lastname(x.get("q") or "") == "split_member" for x in nodes(f))
        if split:
            continue
        if OAR in f["id"] and n in ("save", "serialize"):
            sv = f
        if IAR in f["id"] and n in ("load", "serialize"):
            ld = f
    return sv, ld


def roundtrip(ctx, cls):
    sv, ld = serial(ctx, cls)
    if sv is None or ld is None:
        return
    m = Archive()
    try:
        so = [o for o in Engine(ctx.p, on_call=m.on_call).run(sv, cls=cls) if o.kind in ("R", "N")]
        lo = [o for o in Engine(ctx.p, on_call=m.on_call).run(ld, cls=cls) if o.kind in ("R", "N")]
    except TooComplex:
        ctx.skip("roundtrip", sv, "too complex")
        return
    ctx.functions |= {sv["id"], ld["id"]}
    par = lambda f, o: getroot(o.st, ("P", f["ps"][0]["n"]))
    if len(so) != 1 or len(lo) != 1:
        ctx.skip("roundtrip", sv, "several paths")
        return
    base, puts = chain(par(sv, so[0]), "aput")
    lbase, gets = chain(par(ld, lo[0]), "atail")
    if base.op == "aput" or lbase.op == "atail" or base.op != "init" or lbase.op != "init":
        ctx.skip("roundtrip", sv, "archive used in a loop")
        return
    saved = [t.a[1] for t in puts]
    if len(saved) != len(gets):
        ctx.bad("roundtrip", ld, ld["line"], "%s: %d items are saved but %d are read back" % (cls, len(saved), len(gets)), key="roundtrip|%s" % cls)
        return
    m = {}
    for k, t in enumerate(gets):
        m[mk("aget", t.a[0])] = saved[k]
    me = this0()
    names = fields(ctx, cls)
    ob, first = observed(ctx, cls)
    if not ob:           # a plain structure: all of it is visible
        for n in names:
            first.setdefault(n, (sv, (sv, sv["line"])))
    st = lo[0].st
    for n in names:
        after = subst(read(st, (("THIS",), ((".", n),))), m)
        was = mk("fld", me, n)
        if n not in first:
            continue
        if after is was and any(mk("fld", me, n) in subterms(x) for x in saved):
            raised = any(read(st, (("THIS",), ((".", n),))) is x for x in m)
            if raised:
                ctx.ok("roundtrip", "%s.%s" % (cls, n))
                continue
        f, (g, line) = first[n]
        if after is was:
            ctx.bad("roundtrip", g, line or g["line"], "%s reads %s, which is neither in the archive nor set when %s is loaded" % (f["q"], n, cls), key="roundtrip|%s|%s" % (cls, n))
            continue
        stale = [x for x in names if mk("fld", me, x) in subterms(read(st, (("THIS",), ((".", n),))))]
        if stale:
            ctx.bad("roundtrip", ld, ld["line"], "loading computes %s from the value %s had before loading" % (n, stale[0]), key="roundtrip|%s|%s" % (cls, n))
            continue
        direct = read(st, (("THIS",), ((".", n),)))
        if direct.op == "aget":
            ctx.bad("roundtrip", ld, ld["line"], "%s: member %s is loaded from the position where %s was saved" % (cls, n, show(after, 4)), key="roundtrip|%s|%s" % (cls, n))
            continue
        if n in [x.a[1] for x in saved if x.op == "fld" and x.a[0] is me]:
            ctx.bad("roundtrip", ld, ld["line"], "%s: member %s is saved but loading gives it another value: %s" % (cls, n, show(after, 5)), key="roundtrip|%s|%s" % (cls, n))
            continue
        # recomputed from the archived members
        ctx.ok("roundtrip", "%s.%s recomputed" % (cls, n))


@rule("P18", "saving and loading through archives as sequences of values: what load leaves in the members, as a function of what save wrote",
      minimum={"obligations.roundtrip": 10})
def p18(ctx):
    classes = sorted(set(f["cls"] for f in ctx.p.functions.values() if f.get("cls") and lastname(f["q"]) in ("serialize", "save") and OAR in f["id"]))
    for c in classes:
        roundtrip(ctx, c)
    openings(ctx)
    parsers(ctx)
    text_formats(ctx)
    reading(ctx)
    programs(ctx)
    instances(ctx)


def openings(ctx):
    """every file opened on a path is tested before it is used"""
    for f in list(ctx.p.functions.values()):
        if f.get("body") is None or not f["file"].startswith(("lib/hnco/", "app/")) or f.get("implicit"):
            continue
        if not any(x.get("k") == "decl" and any((v.get("t") or "").replace("const ", "").startswith(FILES + ("std::ifstream", "std::ofstream", "std::fstream")) for v in x["v"]) for x in nodes(f)):
            continue
        m = Archive(throws=True)
        try:
            eng = Engine(ctx.p, on_call=m.on_call, inline=m.inline, assume_asserts=False)
            outs = eng.run(f, cls=f.get("cls"))
        except TooComplex:
            ctx.skip("opened", f, "too complex")
            continue
        ctx.functions |= eng.nfun
        seen = set()
        for g, e, b in m.bad:
            if e.get("l") not in seen:
                seen.add(e.get("l"))
                ctx.bad("opened", g, e.get("l") or g["line"], "the file %s is used although it may not have been opened: the error is lost" % show(b.a[1], 3), key="opened|%s|%s" % (f["q"], show(b.a[1], 3)))
        if not m.bad:
            ctx.ok("opened", f["q"])
        for o in outs:
            if o.kind not in ("R", "N"):
                continue
            if any(x.kind == "catch" for x in trace(o.st)):
                ctx.bad("opened", f, f["line"], "an archive which cannot be read or written is ignored", key="swallow|%s" % f["q"])
                break


# ---------------------------------------------------------------- text formats
def arithmetic(t):
    t = (t or "").replace("const ", "")
    return t in ("int", "double", "float", "long", "unsigned int", "unsigned long", "long double", "short", "bool", "char", "size_t", "unsigned", "value_type", "std::vector<double>::value_type")


def checked(st):
    """streams states known not to have failed"""
    out = set()
    for d in st.facts:
        for t in subterms(d):
            if t.op == "sok" and entails(st, t):
                x = t.a[0]
                while isinstance(x, T):
                    out.add(x)
                    if x.op != "snext":
                        break
                    x = x.a[0]
    return out


def bounded_above(st, t):
    """some test relates t to a quantity which is not a constant, from above"""
    for d, iv in st.facts.items():
        c, l = lin(d)
        k = l.get(t, 0) if isinstance(l, dict) else 0
        if k and len(l) > 1:
            lo, hi = iv[0], iv[2]
            if k > 0 and hi is not None or k < 0 and lo is not None:
                return True
    return False


def roots_of(st):
    return [(r, t) for r, t in st.mem.items() if r[0] in ("THIS", "P") or r[0] == "L"]


def subscripts(t, out, seen):
    """(index, value) of element updates within t"""
    if not isinstance(t, T) or id(t) in seen:
        return
    seen.add(id(t))
    if t.op == "upd":
        out.append((t.a[1], t.a[2]))
    for x in t.a:
        if isinstance(x, T):
            subscripts(x, out, seen)


def parsers(ctx):
    for f in list(ctx.p.functions.values()):
        if f.get("body") is None or not f["file"].startswith("lib/hnco/") or f.get("implicit"):
            continue
        xs = [x for x in nodes(f) if x.get("k") == "call" and x.get("op") == ">>" and "stream" in (x.get("q") or "") and "basic_istream" in (x.get("q") or "")]
        if not xs:
            continue
        parser(ctx, f)


def parser(ctx, f):
    m = Archive()
    try:
        eng = Engine(ctx.p, on_call=m.on_call, inline=m.inline, assume_asserts=False)
        outs = eng.run(f, cls=f.get("cls"))
    except TooComplex:
        ctx.skip("parsed", f, "too complex")
        return
    ctx.functions |= eng.nfun
    line = {}
    done = set()
    paths = []
    for o in outs:
        paths.append(o)
        for l in all_loops(o.st).values():
            paths += [b for b in l.bodies]
            for b in l.bodies:
                paths += [c for c in (l.exits or []) if hasattr(c, "st")]
    for o in paths:
        for e in trace(o.st):
            if e.kind == "stream" and e.op == ">>":
                for v in e.args:
                    line[v] = e.node.get("l")
    bad = {}
    n = 0
    for o in paths:
        if o.kind == "X" or id(o.st) in done:
            continue
        done.add(id(o.st))
        ok = checked(o.st)
        for r, t in roots_of(o.st):
            if r[0] != "THIS":
                continue
            for x in subterms(t):
                if x.op != "sread" or not arithmetic(x.ty):
                    continue
                n += 1
                if mk("snext", x.a[0]) not in ok:
                    bad.setdefault(("read", line.get(x) or f["line"]), "a value is kept although reading it may have failed: a malformed file is accepted")
            ups = []
            subscripts(t, ups, set())
            for i, v in ups:
                for x in subterms(i):
                    if x.op == "sread" and arithmetic(x.ty):
                        n += 1
                        if assume(o.st, cmpterm("<", i, C(0)), True) is not None or not bounded_above(o.st, x):
                            bad.setdefault(("index", line.get(x) or f["line"]), "an index read from a file is used without being tested against the bounds")
    for (k, l), what in sorted(bad.items(), key=str):
        ctx.bad("parsed", f, l, what, key="parsed|%s|%s" % (f["q"], k))
    if n and not bad:
        ctx.ok("parsed", f["q"])


class Writer(object):
    """the text a function writes to one stream, from its closed form and the values of the members"""

    def __init__(self, eng, o, env, root):
        self.v = Values(eng, all_loops(o.st), env)
        self.root = root
        self.o = o

    def item(self, t, ty=None):
        if t.op == "str":
            return str(t.a[0])
        if t.op == "fn" and "endl" in str(t.a[0]):
            return "\n"
        if t.op == "fn" and ("flush" in str(t.a[0])):
            return ""
        x = self.v.ev(t)
        if isinstance(x, bool):
            x = int(x)
        if (t.ty or ty or "").replace("const ", "") == "char" and isinstance(x, int):
            x = chr(x)
        return str(x)

    def text(self, st):
        out = []
        for e in trace(st):
            if e.kind == "stream" and e.op == "<<" and e.obj == (self.root, ()):
                tys = ["char" if x.get("chr") else x.get("t") for x in (e.node.get("a") or [])[-len(e.args):]] if e.args else []
                tys = [None] * (len(e.args) - len(tys)) + tys
                out += [self.item(a, y) for a, y in zip(e.args, tys)]
            elif e.kind == "loop":
                out += self.loop(e)
        return out

    def loop(self, e):
        if e.do:
            raise Unknown("do loop")
        v = self.v
        start = {x: v.ev(i) for x, i, s in e.ivs}
        step = {x: s for x, i, s in e.ivs}
        out = []
        saved = v.mu
        for k in range(200):
            v.mu = dict(saved)
            v.mu[e.uid] = {x: start[x] + k * step[x] for x in start}
            v.env = dict(v.env)
            go = None
            for b in e.bodies:
                if b.kind == "X":
                    continue
                g = [(d, i) for d, i in b.st.facts.items() if e.head.facts.get(d) != i]
                h = v.holds(g)
                if h is None:
                    raise Unknown("loop condition")
                if h:
                    go = b
                    break
            if go is None or go.kind == "R":
                break
            out += self.text(go.st)
            if go.kind == "B":
                break
        else:
            raise Unknown("no end")
        v.mu = saved
        return out


def written(ctx, f, cls, values, kind):
    """text written by method f of an object with the given member values, or None"""
    try:
        eng = Engine(ctx.p, assume_asserts=False)
        eng.preds = {}
        outs = eng.run(f, cls=cls)
    except TooComplex:
        ctx.skip(kind, f, "too complex")
        return
    ctx.functions |= eng.nfun
    me = this0()
    root = ("P", f["ps"][0]["n"])
    for vals in values:
        env = {mk("fld", me, n): x for n, x in vals.items()}
        got = None
        for o in outs:
            if o.kind not in ("R", "N"):
                continue
            try:
                w = Writer(eng, o, env, root)
                h = w.v.holds(list(o.st.facts.items()))
                if h is False:
                    continue
                got = "".join(w.text(o.st))
                break
            except Unknown as x:
                ctx.skip(kind, f, "no closed form (%s)" % x)
                return
        yield vals, got


def dimacs(text):
    """independent reading of the DIMACS format"""
    nv = nc = None
    clauses, cur = [], []
    for l in text.split("\n"):
        w = l.split()
        if not w or w[0] == "c":
            continue
        if w[0] == "p":
            if nv is not None or w[1] != "cnf" or len(w) != 4:
                return None
            nv, nc = int(w[2]), int(w[3])
            continue
        if nv is None:
            return None
        for x in w:
            if int(x) == 0:
                clauses.append(cur)
                cur = []
            else:
                cur.append(int(x))
        if cur:
            return None
    return (nv, clauses) if nc == len(clauses) else None


def text_formats(ctx):
    cls = "hnco::function::AbstractMaxSat"
    f = ctx.p.find_method(cls, "save_", nparams=1)
    if f is not None and f.get("body") is not None:
        vals = [{"_num_variables": n, "_expression": e} for n, e in
                ((1, [[1]]), (1, [[-1]]), (3, [[1, -2], [3], [-1, 2, -3]]), (12, [[-12, 11, 4], [10, -1, 2], [5, 6, -7], [12, -3, 8]]), (5, [[2, -4]]))]
        for v, t in written(ctx, f, cls, vals, "text"):
            try:
                r = dimacs(t)
            except (ValueError, IndexError, TypeError):
                r = None
            if r != (v["_num_variables"], v["_expression"]):
                ctx.bad("text", f, f["line"], "the instance with %d variables and clauses %s is written as %r" % (v["_num_variables"], v["_expression"], (t or "")[:120]), key="text|" + cls)
                break
        else:
            ctx.ok("text", cls)
    cls = "hnco::function::Sudoku"
    f = ctx.p.find_method(cls, "save_", nparams=1)
    if f is not None and f.get("body") is not None:
        board = [["123456789."[(3 * i + i // 3 + 7 * j) % 10] for j in range(9)] for i in range(9)]
        for v, t in written(ctx, f, cls, [{"_problem_instance": board}], "text"):
            if t is None or t.rstrip("\n").split("\n") != ["".join(r) for r in board]:
                ctx.bad("text", f, f["line"], "the board is not written as nine lines of nine cells in order: %r" % (t or "")[:120], key="text|" + cls)
            else:
                ctx.ok("text", cls)


def paths_of(ctx, f, kind):
    m = Archive()
    try:
        eng = Engine(ctx.p, on_call=m.on_call, inline=m.inline, assume_asserts=False)
        outs = eng.run(f, cls=f.get("cls"))
    except TooComplex:
        ctx.skip(kind, f, "too complex")
        return [], []
    seen, body = set(), []
    for o in outs:
        for l in all_loops(o.st).values():
            for b in l.bodies:
                if b.kind != "X" and id(b.st) not in seen:
                    seen.add(id(b.st))
                    body.append((l, b))
    return outs, body


def position(t):
    """number of items read from the stream before"""
    k, x = 0, t.a[0]
    while isinstance(x, T) and x.op == "snext":
        k, x = k + 1, x.a[0]
    return k, x


def le(st, a, b):
    return assume(st, cmpterm(">", a, b), True) is None


def facts_of(st):
    return {t for d in st.facts for t in subterms(d)}


def reading(ctx):
    # DIMACS
    cls = "hnco::function::AbstractMaxSat"
    f = ctx.p.find_method(cls, "load_", nparams=1)
    if f is not None and f.get("body") is not None:
        outs, body = paths_of(ctx, f, "reading")
        lits = 0
        bad = {}
        for l, b in body:
            for r, t in b.st.mem.items():
                for x in subterms(t):
                    if x.op == "push" and x.a[1].op in ("sread", "lin") or x.op == "push" and any(y.op == "sread" and y.ty == "int" for y in subterms(x.a[1])):
                        n = x.a[1]
                        if n.op == "hv" or not any(y.op == "sread" and y.ty == "int" for y in subterms(n)):
                            continue
                        lits += 1
                        nv = read(b.st, (("THIS",), ((".", "_num_variables"),)))
                        if n.op != "sread":
                            bad["a literal is kept as %s instead of as it was read" % show(n, 3)] = 1
                        elif assume(b.st, n, False) is not None:
                            bad["the end of a clause (0) is kept as a literal"] = 1
                        elif not ((le(b.st, C(1), n) and le(b.st, n, nv)) or (le(b.st, n, C(-1)) and le(b.st, neg(n), nv))):
                            bad["a literal is kept although its variable may exceed the number of variables"] = 1
            nv = read(b.st, (("THIS",), ((".", "_num_variables"),)))
            if nv.op == "sread":
                lits += 1
                if position(nv)[0] != 2:
                    bad["the number of variables is not the third item of the p line"] = 1
                elif not le(b.st, C(1), nv):
                    bad["a p line without variables is accepted"] = 1
        for o in outs:
            if o.kind in ("R", "N"):
                e = read(o.st, (("THIS",), ((".", "_expression"),)))
                eq = [d for d, iv in o.st.facts.items() if iv[0] == 0 and iv[2] == 0 and len(lin(d)[1]) == 2 and any(x.op == "size" and x.a[0] is e for x in lin(d)[1])]
                if not eq:
                    bad["the number of clauses read is not compared with the number announced"] = 1
        for w in sorted(bad):
            ctx.bad("reading", f, f["line"], w, key="reading|%s|%s" % (cls, w[:40]))
        if lits and not bad:
            ctx.ok("reading", cls)
        elif not lits:
            ctx.skip("reading", f, "no literal found")
    # QUBO: element (i, j) is minus the third number
    cls = "hnco::function::Qubo"
    f = next((g for g in ctx.p.functions.values() if g.get("cls") == cls and lastname(g["q"]) == "load" and "istream" in g["id"] and g.get("body") is not None), None)
    if f is not None:
        outs, body = paths_of(ctx, f, "reading")
        n, bad = 0, {}
        dims = set()
        for l, b in body:
            q = read(b.st, (("THIS",), ((".", "_q"),)))
            if q.op not in ("upd", "hv"):
                d = size_of(q)
                dims |= {r for r, t in b.st.mem.items() if t is d and r[0] == "L"}
        for l, b in body:
            q = read(b.st, (("THIS",), ((".", "_q"),)))
            if q.op == "upd" and q.a[1].op == "sread" or q.op == "upd" and any(x.op == "sread" for x in subterms(q.a[1])):
                row = q.a[2]
                if row.op != "upd":
                    continue
                n += 1
                i, j, x = q.a[1], row.a[1], row.a[2]
                ds = [read(b.st, (r, ())) for r in dims]
                if ds and not all(any(le(b.st, x, sub(d, C(1))) for d in ds) and le(b.st, C(0), x) for x in (i, j)):
                    bad["an element outside of the matrix is accepted"] = 1
                if not (i.op == "sread" and j.op == "sread" and position(i)[0] == 0 and position(j)[0] == 1):
                    bad["the element is not kept at the line and column given by the first two numbers"] = 1
                y = neg(x)
                if not (y.op == "sread" and position(y)[0] == 2):
                    bad["the element kept is not the opposite of the third number (problems are given as minimization)"] = 1
        for w in sorted(bad):
            ctx.bad("reading", f, f["line"], w, key="reading|%s|%s" % (cls, w[:40]))
        if n and not bad:
            ctx.ok("reading", cls)
        elif not n:
            ctx.skip("reading", f, "no element found")
    # Sudoku: cell (i, j) is character j of line i
    cls = "hnco::function::Sudoku"
    f = ctx.p.find_method(cls, "load_", nparams=1)
    if f is not None and f.get("body") is not None:
        outs, body = paths_of(ctx, f, "reading")
        n, bad = 0, {}
        loops = {}
        rows = set()
        for o in outs:
            loops.update(all_loops(o.st))
        for l, b in body:
            t = read(b.st, (("THIS",), ((".", "_problem_instance"),)))
            if t.op != "upd" or t.a[2].op != "upd":
                continue
            i, j, c = t.a[1], t.a[2].a[1], t.a[2].a[2]
            if not (c.op == "sel" and c.a[0].op == "sread"):
                continue
            n += 1
            rows.add((i, j))
            ivs = {x: (ini, s) for e in loops.values() for x, ini, s in e.ivs}
            if j not in ivs or ivs[j] != (C(0), 1) or c.a[1] is not j:
                bad["cell j of a line is not its character j"] = 1
            if i not in ivs or ivs[i] != (C(0), 1) or i is j:
                bad["line i of the file does not give row i"] = 1
            cells = read(b.st, (("THIS",), ((".", "_candidate"),)))
            nv, nv0 = read(b.st, (("THIS",), ((".", "_num_variables"),))), read(l.head, (("THIS",), ((".", "_num_variables"),)))
            dot = entails(b.st, cmpterm("==", c, C(46)))
            if dot and nv is not add(nv0, C(1)):
                bad["an empty cell does not count as one variable"] = 1
            if not dot and assume(b.st, cmpterm("==", c, C(46)), True) is None:
                if nv is not nv0:
                    bad["a given cell counts as a variable"] = 1
                if not (cells.op == "upd" and cells.a[1] is i and cells.a[2].op == "upd" and cells.a[2].a[1] is j and sub(c, cells.a[2].a[2]) is C(48)):
                    bad["a given cell is not part of the candidate"] = 1
                if not le(b.st, C(49), c) and assume(b.st, cmpterm("==", c, C(48)), True) is not None:
                    bad["the character 0 is accepted as a given cell"] = 1
                if not (le(b.st, c, C(57)) and le(b.st, C(49), c)) and not any("isdigit" in str(x.a[0]) for d in b.st.facts for x in subterms(d) if x.op == "call"):
                    bad["a character which is not a digit is accepted as a given cell"] = 1
        if len(rows) == 1:
            i, j = rows.pop()
            grid = (("THIS",), ((".", "_problem_instance"),))
            for o in outs:
                if o.kind not in ("R", "N"):
                    continue
                full = read(o.st, grid).op != "hv" or str(read(o.st, grid).a[0]) != str(i.a[0])
                if not (le(o.st, C(9), i) or full and le(o.st, C(8), i)):
                    bad["a file with less than 9 lines is accepted"] = 1
            for l, b in body:
                if b.kind in ("N", "B", "C") and any(x is i for x, _, _ in l.ivs) and j in facts_of(b.st) and not le(b.st, C(9), j):
                    bad["a line is not read up to its ninth character"] = 1
        for w in sorted(bad):
            ctx.bad("reading", f, f["line"], w, key="reading|%s|%s" % (cls, w[:40]))
        if n and not bad:
            ctx.ok("reading", cls)
        elif not n:
            ctx.skip("reading", f, "no cell found")


# ---------------------------------------------------------------- programs which write the files hnco reads
class Dispatch(object):
    """which object goes to or comes from which path, for each value of an option"""

    def __init__(self, option):
        self.option = option
        self.m = Archive()

    def inline(self, eng, e, g, ol):
        if lastname(g["q"]) in ("save", "load", "random", "generate") and g.get("cls"):
            return False
        return self.m.inline(eng, e, g, ol)

    def key(self, st):
        for d, iv in st.facts.items():
            if iv[0] is not None and iv[0] == iv[2] and d.op == "fld" and d.a[1] == "_" + self.option:
                return int(iv[0])
        return None

    def run(self, ctx, f):
        """option value -> set of sequences of (class, path)"""
        eng = Engine(ctx.p, on_call=self.m.on_call, inline=self.inline, assume_asserts=False, max_states=2000)
        outs = eng.run(f, cls=f.get("cls"))
        ctx.functions |= eng.nfun
        res = {}
        for o in outs:
            if o.kind not in ("R", "N"):
                continue
            k = self.key(o.st)
            if k is None:
                continue
            seq = []
            for e in trace(o.st):
                if e.kind == "archive":
                    seq.append((cls_of(e.node["a"][0].get("t")), path_of_archive(e.ar)))
                elif e.kind == "call" and lastname(e.q) in ("save", "load") and "::" in e.q and len(e.args) == 1:
                    c = e.callee.get("cls") if e.callee else e.q.rsplit("::", 1)[0]
                    oc = cls_of((e.node.get("o") or {}).get("t")) or c
                    seq.append((oc, last_option(e.args[0])))
            if seq:
                res.setdefault(k, {}).setdefault(tuple(seq), o)
        return res


def cls_of(t):
    t = (t or "").replace("const ", "").replace("*", "").replace("&", "").strip()
    return t


def last_option(t):
    while t.op in ("ctor", "str") and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
    if t.op == "fld":
        return t.a[1]
    if t.op == "call":
        return "_" + lastname(t.a[0]).replace("get_", "", 1)
    return "?"


def path_of_archive(ar):
    while ar.op in ("aput", "atail"):
        ar = ar.a[0]
    if ar.op == "ctor" and len(ar.a) > 1 and isinstance(ar.a[1], T):
        b = base_stream(ar.a[1])
        if b is not None and len(b.a) > 1:
            return last_option(b.a[1])
    return "?"


def switches(ctx, files, option):
    out = []
    for f in ctx.p.functions.values():
        if f.get("body") is not None and f["file"].startswith(files):
            for x in nodes(f):
                if x.get("k") == "switch" or x.get("k") == "if":
                    if any(y.get("k") == "call" and lastname(y.get("q") or "") == "get_" + option for y in walk(x.get("c"))):
                        out.append(f)
                        break
    return out


def programs(ctx):
    for option, gen, app, wpath, rpath in (("map", ("app/mapgen.cc",), ("lib/hnco/app/decorated-function-factory.cc",), "_path", "_map_path"),
                                           ("function", ("app/ffgen.cc",), ("lib/hnco/app/function-factory.cc",), "_path", "_path")):
        w, r = {}, {}
        wf = rf = None
        for files, res in ((gen, w), (app, r)):
            for f in switches(ctx, files, option):
                try:
                    got = Dispatch(option).run(ctx, f)
                except TooComplex:
                    continue
                if files is gen:
                    wf = f
                else:
                    rf = f
                for k, s in got.items():
                    res.setdefault(k, set()).update(s)
        if not w or not r:
            if wf or rf:
                ctx.skip("programs", wf or rf, "no dispatch on " + option)
            continue
        for k in sorted(w):
            if k not in r:
                ctx.bad("programs", wf, wf["line"], "instances are generated for %s %d, which hnco never reads" % (option, k), key="programs|%s|%d" % (option, k))
                continue
            a = set(tuple(c for c, _ in s) for s in w[k])
            b = set(tuple(c for c, _ in s) for s in r[k])
            if a != b and not all(compatible(ctx, x, y) for x in a for y in b):
                ctx.bad("programs", rf, rf["line"], "%s %d is written as %s but read as %s" % (option, k, sorted(a), sorted(b)), key="programs|%s|%d" % (option, k))
                continue
            wp = set(p for s in w[k] for _, p in s)
            rp = set(p for s in r[k] for _, p in s)
            if wp - {"?", wpath} or rp - {"?", rpath}:
                ctx.bad("programs", wf, wf["line"], "%s %d is written to %s and read from %s" % (option, k, sorted(wp), sorted(rp)), key="programs|%s|%d" % (option, k))
                continue
            ctx.ok("programs", "%s %d" % (option, k))


def compatible(ctx, x, y):
    """the classes share the code which saves and loads"""
    def home(c, n):
        f = ctx.p.find_method(c, n, nparams=1)
        return f["q"] if f else None
    return len(x) == len(y) and all(a == b or (home(a, "save") and ctx.p.is_subclass(b, home(a, "save").rsplit("::", 1)[0])) for a, b in zip(x, y))


# ---------------------------------------------------------------- instances
def producers(ctx, cls):
    eff = ctx.p.__dict__.setdefault("_p18_eff", Effects(ctx.p))
    out = []
    for c in ctx.p.bases(cls):
        for m in (ctx.p.records.get(c) or {"methods": []})["methods"]:
            f = ctx.p.functions.get(m["id"])
            if f is None or f.get("body") is None or f.get("const") or f.get("ctor") or lastname(f["q"]) == "serialize" or "archive" in f["id"]:
                continue
            if m.get("access") not in (None, "public") or not lastname(f["q"]).startswith(("load", "random", "generate")):
                continue
            out.append((f, set(e[0][1] for e in eff.effects(f, cls) if e[0][0] == "this")))
    for f in ctx.p.functions.values():      # templates
        if f.get("cls") in ctx.p.bases(cls) and f.get("body") is not None and lastname(f["q"]).startswith("generate") and f["id"] not in [g["id"] for g, _ in out]:
            out.append((f, set(e[0][1] for e in eff.effects(f, cls) if e[0][0] == "this")))
    return out


def instances(ctx):
    for cls in sorted(ctx.p.records):
        if not cls.startswith(("hnco::function::", "hnco::map::")) or ctx.p.records[cls].get("abstract"):
            continue
        ps = [(f, w) for f, w in producers(ctx, cls) if None not in w]
        if len(ps) < 2:
            continue
        ob, first = observed(ctx, cls)
        for n in sorted(first):
            sets = [f for f, w in ps if n in w]
            if n in ("_name", "_comment") or "string" in ((fields(ctx, cls).get(n) or {}).get("t") or ""):
                continue      # labels
            if not sets:
                continue
            for f, w in ps:
                if n in w or not (w & set(first)):
                    continue
                g, (h, line) = first[n]
                ctx.bad("instance", f, f["line"], "%s makes a new instance but leaves %s, on which %s depends and which %s sets" % (f["q"], n, g["q"], sets[0]["q"]),
                        key="instance|%s|%s|%s" % (cls, lastname(f["q"]), n))
                break
            else:
                ctx.ok("instance", "%s.%s" % (cls, n))
