"""P12: the iteration protocol, and state carried from one run to the next."""
from ..core import rule
from ..q import *
from ..absint import write, Ev, assume, cmpterm
from ..effects import Effects, lastname
from .solutions import algorithms, concrete_subclasses, field_type, head, Model

G = ("GHOST",)
LAST = "_last_iteration"
LOGF = "_something_to_log"
NUM = "set_num_iterations"


# ------------------------------------------------------------------ protocol
class Proto(object):
    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.n = 0
        self.fs = fieldnames(ctx, cls)
        self.notes = {}
        self.loops = {}

    def ev(self, eng, st, kind, verdict, f, line, what):
        """record a verdict on the path (only paths of the final loop pass count)"""
        x = Ev("proto", {"l": line}, f, None, what=(kind, verdict, f, line, what))
        y = st.copy()
        y.tr = (st.tr, x)
        return y

    def on_event(self, eng, st, ev):
        if ev.kind == "loop":
            self.loops[ev.uid] = ev
        return None

    def harvest(self, o):
        for x in calls(o, kinds=("proto",)):
            self.note(*x.what)

    def note(self, kind, verdict, f, line, what):
        k = (kind, f["q"], line)
        o = self.notes.get(k)
        if o is None or o[0] == "ok" or o[0] == "unknown" and verdict == "bad":
            self.notes[k] = (verdict, f, line, what)

    def fresh(self, st, name):
        if name not in self.fs:
            return st
        self.n += 1
        return write(st, (("THIS",), ((".", name),)), typed(mk("sym", "%s#%d" % (name, self.n)), "bool"))

    def flag(self, st, name):
        return at(st, ((".", name),))

    def settle(self, eng, st, f, line):
        """leaving an iteration that was not logged"""
        if st.rs and st.rs[0] == "iterated" and LOGF in self.fs:
            d = decide(st.facts, "==", self.flag(st, LOGF), C(0))
            if d is True:
                st = self.ev(eng, st, "log", "ok", f, line, None)
            elif d is False:
                st = self.ev(eng, st, "log", "bad", f, line, "an iteration ends without log() although there is something to log")
            else:
                st = self.ev(eng, st, "log", "bad", f, line, "an iteration can end without log() whether or not there is something to log")
            st = st.copy()
            st.rs = ("ready",)
        elif st.rs and st.rs[0] in ("logged", "iterated"):
            st = st.copy()
            st.rs = ("ready",)
        return st

    def on_rs(self, eng, st, entry):
        f = eng.cur()[0]
        return self.settle(eng, st, f, f["line"])

    def on_call(self, eng, e, st, q, g, ol, args):
        nm = lastname(q)
        f = eng.cur()[0]
        l = e.get("l")
        if ol is None or ol[0] != ("THIS",) or ol[1] or nm not in ("init", "iterate", "log", "finalize"):
            return None
        ph = (st.rs or ("start",))[0]
        if nm == "init":
            st = self.ev(eng, st, "init", "ok" if ph == "start" else "bad", f, l, "init() is called again after the iterations have started")
            s = st.copy()
            s.rs = ("ready",)
            return [(s, mk("void"))]
        if nm == "iterate":
            if ph == "start":
                st = self.ev(eng, st, "init", "bad", f, l, "iterate() is called before init()")
            st = self.settle(eng, st, f, l)
            if LAST in self.fs:
                t = self.flag(st, LAST)
                d = decide(st.facts, "==", t, C(0))
                st = self.ev(eng, st, "stop", "ok" if d is True else "bad", f, l, "iterate() can be called although the last iteration was reached (or the flag was left by a previous run)")
            n = self.num(st)
            if n is not None:
                k = st.mem[G]
                d = decide(st.facts, "<", k, n)
                pos = decide(st.facts, ">", n, C(0))
                if d is True or pos is False:
                    st = self.ev(eng, st, "count", "ok", f, l, None)
                else:
                    st = self.ev(eng, st, "count", "bad", f, l, "iterate() can be called %s times although %s iterations were requested" % ("more than the requested number of", show(n)))
            s = st.copy()
            s.mem[G] = add(s.mem[G], C(1))
            s.rs = ("iterated",)
            return [(self.fresh(self.fresh(s, LAST), LOGF), mk("void"))]
        if nm == "log":
            ok = ph == "iterated"
            st = self.ev(eng, st, "log", "ok" if ok else "bad", f, l, "log() is called %s" % ("twice for one iteration" if ph == "logged" else "outside an iteration"))
            if LOGF in self.fs:
                d = decide(st.facts, "!=", self.flag(st, LOGF), C(0))
                if d is not True:
                    st = self.ev(eng, st, "log", "bad", f, l, "log() can be called although there is nothing to log")
            s = st.copy()
            s.rs = ("logged",)
            return [(s, mk("void"))]
        st = self.settle(eng, st, f, l)
        st = self.ev(eng, st, "final", "bad" if ph == "final" else "ok", f, l, "finalize() is called twice")
        s = st.copy()
        s.rs = ("final",)
        return [(s, mk("void"))]

    def num(self, st):
        return None if self.numpath is None else at(st, self.numpath)


def fieldnames(ctx, cls):
    out = set()
    for b in ctx.p.bases(cls):
        r = ctx.p.records.get(b)
        for fd in (r["fields"] if r else []):
            out.add(fd["n"])
    return out


def setter_path(ctx, cls, name):
    f = ctx.p.find_method(cls, name, nparams=1)
    if f is None:
        return None
    x = param(f, 0)
    for o in outcomes(ctx, f, cls):
        if o.kind != "R":
            continue
        for n in fieldnames(ctx, cls):
            if at(o.st, ((".", n),)) is x:
                return ((".", n),)
    return None


def protocol(ctx, cls, entry, finalizes):
    f = ctx.p.find_method(cls, entry, nparams=1)
    if f is None:
        ctx.skip("protocol", cls, "no %s" % entry)
        return
    pr = Proto(ctx, cls)
    pr.numpath = setter_path(ctx, cls, NUM)
    sts = [State({G: C(0)}, {}, None, None)]
    if pr.numpath is not None:
        n0 = at(sts[0], pr.numpath)
        sts = [x for x in (assume(sts[0], cmpterm(">", n0, C(0)), True), assume(sts[0], cmpterm("<=", n0, C(0)), True)) if x is not None]
    for st in sts:
        protocol1(ctx, cls, entry, finalizes, f, pr, st)
    for (kind, _, _), (verdict, g, line, what) in sorted(pr.notes.items(), key=str):
        if verdict == "ok":
            ctx.ok("protocol." + kind, g["q"])
        elif verdict == "bad":
            ctx.bad("protocol." + kind, g, line, what)
        else:
            ctx.skip("protocol." + kind, g, "form not recognised")


def protocol1(ctx, cls, entry, finalizes, f, pr, st):
    pr.loops = {}
    try:
        outs = outcomes(ctx, f, cls, st=st, on_call=pr.on_call, on_rs=pr.on_rs, modsets=True, lockstep=True, peel=True, loop_passes=10,
                        on_event=pr.on_event)
    except TooComplex as e:
        ctx.skip("protocol", f, str(e))
        return
    fs = param(f, 0)
    for ev in pr.loops.values():
        for b in ev.bodies:
            pr.harvest(b)
    for o in outs:
        if o.kind != "R":
            continue
        s = pr.settle(None, o.st, f, f["line"])
        o.st = s
        pr.harvest(o)
        ph = (s.rs or ("start",))[0]
        if ph == "start":
            pr.note("init", "bad", f, f["line"], "a run can end without init()")
        if finalizes:
            pr.note("final", "ok" if ph == "final" else "bad", f, f["line"], "a completed run can end without finalize()")
        # why did it stop?
        if ph == "start" or ph == "final" and not finalizes:
            continue
        n = pr.num(s)
        k = s.mem[G]
        done = False
        if n is not None:
            if decide(s.facts, ">=", k, n) is True and (decide(s.facts, ">", n, C(0)) is True or finalizes):
                done = True
        if LAST in pr.fs:
            t = pr.flag(s, LAST)
            if decide(s.facts, "!=", t, C(0)) is True:
                done = True
                if t is mk("fld", this0(), LAST):
                    pr.note("stop", "bad", f, f["line"], "a run can stop before its first iteration because of a flag left by the previous run")
        if done:
            pr.note("stop", "ok", f, f["line"], None)
        else:
            pr.note("stop", "bad", f, f["line"], "a run can stop although neither the requested number of iterations nor the last iteration was reached")
        # the functions are stored
        if "_functions" in pr.fs:
            v = at(s, ((".", "_functions"),))
            w = at(s, ((".", "_function"),))
            if v is fs and (w is proj(fs, ("[", C(0)))):
                pr.note("functions", "ok", f, f["line"], None)
            elif v is mk("fld", this0(), "_functions") or w is mk("fld", this0(), "_function"):
                pr.note("functions", "bad", f, f["line"], "the functions given to %s are not all stored before the run" % entry)
            elif w.op == "sel" and w.a[0] is fs and isc(w.a[1]):
                pr.note("functions", "bad", f, f["line"], "the run uses %s as its function, not the first one" % show(w))
            else:
                pr.note("functions", "unknown", f, f["line"], None)


# ------------------------------------------------------------------ fresh runs
STRUCT = {"size", "get_size", "empty", "get_bv_size", "capacity", "max_size", "begin", "end", "cbegin", "cend"}


class First(object):
    """fields of *this which a method may read before anything can have written them in this call"""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.reads = {}
        self.stack = []

    def run(self, f):
        if f.get("body") is None:
            return set()
        w = set()
        self.f = f
        self.stack.append(f["id"])
        self.stmt(f["body"], w)
        self.stack.pop()
        return w

    def root(self, x):
        while isinstance(x, dict):
            k = x.get("k")
            if k == "mem":
                if x["b"].get("k") == "this":
                    return x["n"]
                x = x["b"]
            elif k == "call" and x.get("o") is not None and (x.get("op") == "[]" or lastname(x.get("q") or "") in ("at", "front", "back", "begin", "end")):
                x = x["o"]
            elif k in ("cast", "un"):
                x = x.get("e")
            elif k == "idx":
                x = x.get("b")
            else:
                return None
        return None

    def subs(self, x, w, skiproot=False):
        """evaluate index expressions below an lvalue"""
        while isinstance(x, dict):
            k = x.get("k")
            if k == "mem":
                x = x["b"]
            elif k == "call" and x.get("o") is not None:
                for a in x.get("a") or []:
                    self.expr(a, w)
                x = x["o"]
            elif k in ("cast", "un"):
                x = x.get("e")
            else:
                return

    def read(self, n, x, w):
        if n not in w and n not in self.reads:
            self.reads[n] = (self.f, x.get("l"))

    def stmt(self, n, w):
        if n is None:
            return
        k = n.get("k")
        if k == "block":
            for s in n["s"]:
                self.stmt(s, w)
        elif k == "if":
            for z in ("i", "cv"):
                if isinstance(n.get(z), dict):
                    self.stmt(n[z], w) if z == "i" else self.expr(n[z].get("init"), w)
            self.expr(n.get("c"), w)
            a, b = set(w), set(w)
            self.stmt(n.get("t"), a) if isinstance(n.get("t"), dict) else None
            self.stmt(n.get("e"), b) if isinstance(n.get("e"), dict) else None
            w |= a | b
        elif k in ("for", "while", "do"):
            if isinstance(n.get("i"), dict):
                self.stmt(n["i"], w)
            self.expr(n.get("c"), w)
            self.stmt(n.get("b"), w)
            if isinstance(n.get("n"), dict):
                self.expr(n["n"], w)
        elif k == "rfor":
            r = self.root(n.get("range"))
            v = n.get("var") or {}
            if r is not None:
                if v.get("ref") and not (v.get("t") or "").startswith("const "):
                    w.add(r)
                else:
                    self.read(r, n, w)
            else:
                self.expr(n.get("range"), w)
            self.stmt(n.get("b"), w)
        elif k == "decl":
            for v in n["v"]:
                i = v.get("init")
                if i is None:
                    continue
                r = self.root(i)
                if v.get("ref") and r is not None:
                    self.subs(i, w)
                    if not (v.get("t") or "").startswith("const "):
                        w.add(r)
                else:
                    self.expr(i, w)
        else:
            self.expr(n, w)

    def expr(self, x, w):
        if isinstance(x, list):
            for z in x:
                self.expr(z, w)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k in ("block", "if", "for", "while", "do", "rfor", "decl"):
            self.stmt(x, w)
            return
        if k == "assert":
            return
        if k == "lam":
            for z in walk(x.get("b") or x.get("body")):
                if z.get("k") == "mem" and z["b"].get("k") == "this":
                    w.add(z["n"])
            return
        if k == "mem":
            r = self.root(x)
            if r is not None:
                self.read(r, x, w)
                return
        if k == "asg":
            self.expr(x.get("r"), w)
            r = self.root(x["lhs"])
            self.subs(x["lhs"], w)
            if r is not None:
                if x.get("op") not in (None, "=") and x["lhs"].get("k") == "mem":
                    self.read(r, x, w)
                w.add(r)
            else:
                self.expr(x["lhs"], w)
            return
        if k == "un" and x.get("op") in ("++", "--"):
            r = self.root(x["e"])
            if r is not None:
                if x["e"].get("k") == "mem":
                    self.read(r, x, w)
                w.add(r)
                return
        if k == "un" and x.get("op") == "&":
            r = self.root(x["e"])
            if r is not None:
                w.add(r)
                return
        if k == "cond":
            self.expr(x.get("c"), w)
            a, b = set(w), set(w)
            for z, s in (("t", a), ("e", b), ("a", a), ("b", b)):
                if isinstance(x.get(z), dict):
                    self.expr(x[z], s)
            w |= a | b
            return
        if k == "call":
            self.call(x, w)
            return
        for v in x.values():
            if isinstance(v, (dict, list)):
                self.expr(v, w)

    def call(self, x, w):
        pm = x.get("pm") or []
        q = x.get("q") or ""
        nm = lastname(q)
        o = x.get("o")
        late = []
        for i, a in enumerate(x.get("a") or []):
            m = pm[i] if i < len(pm) else 0
            r = self.root(a)
            if r is not None and m in (1, 2, 3):
                self.subs(a, w)
                late.append(r)
            elif r is not None and a.get("k") == "call" and lastname(a.get("q") or "") in ("begin", "end"):
                late.append(r)
            else:
                self.expr(a, w)
        if isinstance(o, dict):
            if o.get("k") == "this":
                g = None
                if x.get("virt") and not x.get("nv"):
                    g = self.ctx.p.resolve_virtual(self.cls, x["id"])
                else:
                    g = self.ctx.p.functions.get(x.get("id"))
                if g is not None and g.get("body") is not None and g["id"] not in self.stack:
                    f = self.f
                    self.f = g
                    self.stack.append(g["id"])
                    self.stmt(g["body"], w)
                    self.stack.pop()
                    self.f = f
                else:
                    return
            else:
                r = self.root(o)
                if r is not None:
                    self.subs(o, w)
                    t = o.get("t") or ""
                    if nm in STRUCT or t.endswith("*"):
                        pass
                    elif x.get("op") == "=":
                        w.add(r)
                    elif x.get("const") or x.get("op") == "[]":
                        self.read(r, x, w)
                    else:
                        w.add(r)
                else:
                    self.expr(o, w)
        for r in late:
            w.add(r)


def run_entries(ctx, cls):
    """(method of one iteration, methods run once before the iterations)"""
    return ctx.p.find_method(cls, "iterate", nparams=0), ctx.p.find_method(cls, "init", nparams=0)


def fresh(ctx, cls, eff):
    it, ini = run_entries(ctx, cls)
    if it is None or it.get("body") is None:
        return
    direct = set(e[0][1] for e in eff.effects(it, cls) if e[0][0] == "this" and e[0][1])
    reset = set()
    if ini is not None and ini.get("body") is not None:
        reset = set(e[0][1] for e in eff.effects(ini, cls) if e[0][0] == "this")
    if None in reset:
        ctx.skip("fresh", cls, "effects of init unknown")
        return
    for nm in ("maximize", "minimize", "loop"):
        f = None
        for c in ctx.p.bases(cls):
            f = next((ctx.p.functions.get(m["id"]) for m in (ctx.p.records.get(c) or {"methods": []})["methods"] if m["n"] == nm), None)
            if f is not None:
                break
        if f is None or f.get("body") is None:
            continue
        for x in nodes(f):
            if x.get("k") == "asg":
                t = x["lhs"]
                if t.get("k") == "mem" and t["b"].get("k") == "this":
                    reset.add(t["n"])
            elif x.get("k") == "call" and isinstance(x.get("o"), dict) and x["o"].get("k") == "this" and not x.get("virt"):
                g = ctx.p.functions.get(x.get("id"))
                if g is not None and lastname(g["q"]) not in ("loop", "iterate"):
                    reset |= set(e[0][1] for e in eff.effects(g, cls) if e[0][0] == "this")
    fa = First(ctx, cls)
    fa.run(it)
    names = sorted(n for n in direct if n in fa.reads)
    ctx.functions.add(it["id"])
    scal = []
    for n in names:
        t = (field_type(ctx, cls, n) or "").replace("const ", "")
        if t.endswith("*") or n == LAST and LAST in reset:
            continue
        f, line = fa.reads[n]
        if n in reset:
            ctx.ok("fresh", "%s.%s" % (cls, n))
            if t in ("int", "bool", "double", "unsigned int", "unsigned long", "long"):
                scal.append((n, f, line))
        else:
            ctx.bad("fresh", f, line, "%s: %s reads %s and each iteration changes it, but nothing resets it when a new run starts" % (cls, f["q"], n),
                    key="fresh|%s|%s" % (cls, n))
    if scal and ini is not None and ini.get("body") is not None:
        m = Model(ctx, cls, [((".", "_solution"),)])
        try:
            eng = Engine(ctx.p, inline=m.inline, on_call=m.on_call, modsets=True, closed_world=True, keep_trace=False, max_states=200)
            outs = eng.run(ini, cls=cls, st=head(ctx, cls))
        except TooComplex:
            outs = []
        for n, f, line in scal:
            f0 = mk("fld", this0(), n)
            for o in outs:
                if o.kind == "R" and at(o.st, ((".", n),)) is f0:
                    ctx.bad("fresh", f, line, "%s: a path of init() leaves %s as the previous run left it" % (cls, n), key="fresh|%s|%s" % (cls, n))
                    break


@rule("P12", "maximize/minimize is interpreted with the virtual steps init, iterate, log and finalize as uninterpreted calls and a ghost count of "
      "iterations kept in lockstep with the program's own counters; each call and each exit is checked against the protocol. For every concrete "
      "algorithm, the fields an iteration may read before writing them and may change are computed (ordered first-access walk over the syntax tree, "
      "interprocedural write sets); each must be in the write set of the code run before the first iteration.",
      minimum={"obligations.protocol.stop": 1})
def p12(ctx):
    protocol(ctx, "hnco::algorithm::IterativeAlgorithm", "maximize", False)
    protocol(ctx, "hnco::multiobjective::algorithm::IterativeAlgorithm", "minimize", True)
    eff = Effects(ctx.p, stop=("hnco::function::", "hnco::multiobjective::function::", "hnco::logging::"), closed_world=True)
    cl = algorithms(ctx)
    for c in concrete_subclasses(ctx, "hnco::multiobjective::algorithm::Algorithm"):
        if c.startswith("hnco::") and not ctx.p.records[c].get("file", "").startswith("bindings"):
            cl.append(c)
    for c in cl:
        fresh(ctx, c, eff)
