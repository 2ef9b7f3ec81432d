"""P08, P09: the solution an algorithm reports."""
import json
import re
from ..core import rule
from ..q import *
from ..absint import Out, assume, cmpterm, write
from ..models import flip_term
from ..terms import lin

ALG = "hnco::algorithm::Algorithm"
POP = "hnco::algorithm::Population"
NBH = "hnco::neighborhood::Neighborhood"
FLOOR = ("FLOOR",)

# functions whose bodies do not matter for pairing: they only draw, copy or combine bits
OPAQUE = ("hnco::algorithm::pv_", "hnco::bv_random", "hnco::bit_random", "hnco::perm_", "hnco::random::", "hnco::logging::",
          "hnco::bm_", "hnco::algorithm::walsh_moment::", "hnco::map::", "hnco::bv_from", "hnco::bv_to", "hnco::bv_hamming", "hnco::bv_add")


def val(b):
    return typed(mk("val", b), "double")


def arg(st, a):
    return read(st, a[1]) if isinstance(a, tuple) else a


def best_of(B):
    """the largest value of an evaluated set of bit vectors"""
    return val(proj(B, ("[", proj(mk("sorted", mk("vals", B)), ("[", C(0))))))


class Model(object):
    """call models and the rule state: values obtained and not yet known to be <= the reported one"""

    def __init__(self, ctx, cls, sols):
        self.ctx = ctx
        self.cls = cls
        self.sols = sols
        self.loops = {}
        self.depth = {}
        self.leaks = {}
        self.ranks = {}
        self.roles = {}
        self.n = 0
        self.inl = {}

    def pend(self, st, t):
        s = st.copy()
        s.rs = frozenset((st.rs or frozenset()) | {t})
        return s

    def purge(self, eng, st):
        ps = st.rs or frozenset()
        secs = [at(st, p + ((".", "second"),)) for p in self.sols]
        keep = []
        for p in ps:
            if isinstance(p, tuple):
                keep.append(p)
                continue
            if any(p is s or decide(st.facts, "<=", p, s) is True for s in secs):
                continue
            keep.append(p)
        s = st
        # the reported value never decreases
        sec = secs[-1]
        fl = st.mem.get(FLOOR)
        if fl is None or fl is not sec:
            s = st.copy()
            if fl is not None and fl is not sec and not self.initial(fl):
                d = decide(st.facts, ">=", sec, fl)
                if d is not True:
                    keep.append(("dec", sec, fl))
            s.mem[FLOOR] = sec
        if len(keep) != len(ps) or any(isinstance(x, tuple) for x in keep):
            if s is st:
                s = st.copy()
            s.rs = frozenset(keep)
        return s

    def initial(self, t):
        return t.op in ("fld", "init", "c")

    def on_stmt(self, eng, n, sts):
        return [self.purge(eng, s) for s in sts]

    def lost(self, eng, st, entry):
        """values obtained in this iteration of an inner loop which nothing that survives the iteration knows about"""
        out = []
        for p in st.rs or ():
            if isinstance(p, tuple) or p.op != "val" or p in (entry.rs or ()) or \
                    any(z.op in ("join", "partial", "unpaired", "cases") for z in subterms(p)):
                continue
            if any(mentions(t, p) or t.ty == "double" and any(z.op == "join" for z in subterms(t)) for root, t in st.mem.items() if root[0] != "RNG" and root is not FLOOR and
                   not (root[0] == "L" and root not in entry.mem and root[1] >= 0)):
                continue
            above = False
            for t, iv in st.facts.items():
                k = dict(t.a[1]).get(p) if t.op == "lin" else 1 if t is p else None
                if k and (iv[2] if k > 0 else iv[0]) is not None:
                    above = True
            if not above:
                out.append(p)
        return out

    def on_rs(self, eng, st, entry):
        st = self.purge(eng, st)
        if st.rs and eng.cur()[0]["q"].rsplit("::", 1)[-1] in ("loop", "maximize"):
            # an iteration of the algorithm is complete
            sec = at(st, self.sols[-1] + ((".", "second"),))
            for p in st.rs:
                self.leaks[(p, sec)] = pending_verdict(self, p, sec, st)
            st = st.copy()
            st.rs = frozenset()
        elif st.rs:
            ls = self.lost(eng, st, entry)
            sec = at(st, self.sols[-1] + ((".", "second"),))
            for p in ls:
                self.leaks[(p, sec)] = "bad"
            if ls:
                st = st.copy()
                st.rs = frozenset(x for x in st.rs if x not in ls)
        return st

    def on_back(self, eng, st, cur, hv, at):
        """values which a variable of the loop is known to cover are represented by that variable at the loop head"""
        if eng.cur()[0]["q"].rsplit("::", 1)[-1] in ("loop", "maximize"):
            return st.rs
        ks = [k for k in sorted(hv, key=str) if k[0][0] == "L" and at(st, k).ty == "double"]
        if not ks:
            return st.rs
        out = set()
        for p in st.rs:
            if not isinstance(p, tuple):
                for k in ks:
                    t = at(st, k)
                    if t is p or t.op in ("val", "hv") and decide(st.facts, "<=", p, t) is True:
                        p = at(cur, k)
                        break
            out.add(p)
        return frozenset(out)

    def on_event(self, eng, st, ev):
        if ev.kind == "loop":
            self.loops[ev.uid] = ev
            self.depth[ev.uid] = len(eng.sinks)
        return None

    def throw(self, eng, st, e):
        eng.sinks[-1].append(Out("X", st, ("hnco::exception::LastEvaluation", None), e))

    def inline(self, eng, e, f, objloc):
        """bookkeeping that neither evaluates nor touches bit vectors, solutions or populations is summarised by its effects"""
        if not f["file"].startswith("lib/hnco"):
            return False
        k = f["id"]
        r = self.inl.get(k)
        if r is None:
            r = self.inl[k] = self.worth(eng, f)
        return None if r else False

    def worth(self, eng, f):
        if f.get("ctor") or f.get("ret") != "void" or not f.get("cls"):
            return True
        if any(p.get("ref") and not p["t"].startswith("const ") for p in f["ps"]):
            return True
        if reaches_eval(self.ctx, f):
            return True
        fs = eng.modset({"id": f["id"]}, "hnco::", f)
        if fs is None:
            return True
        for n in fs:
            t = field_type(self.ctx, f["cls"], n)
            if t is None or not re.fullmatch(r"(const )?(bool|int|double|unsigned int|std::size_t|size_t|long|unsigned long|std::vector<(double|int|std::vector<.*)>|std::string)", t):
                return True
        return False

    def on_call(self, eng, e, st, q, g, ol, args):
        if g is not None and not g["file"].startswith("lib/hnco") and g["file"].startswith("lib/"):
            self.throw(eng, st, e)
            return eng.opaque(e, st, q, g, ol, args)
        if q == "hnco::bv_from_vector_bool" and isinstance(args[0], tuple):
            return [(write(st, args[0][1], mk("fromvb", arg(st, args[1]))), mk("void"))]
        if q in (FN + "::evaluate", FN + "::evaluate_safely") and args:
            b = arg(st, args[0])
            v = val(b)
            self.throw(eng, st, e)
            return [(self.pend(st, v), v)]
        if q == FN + "::evaluate_incrementally" and len(args) == 3:
            o, v, fl = [arg(st, a) for a in args]
            self.throw(eng, st, e)
            if v.op == "val" and v.a[0] is o:
                r = val(flip_term(o, fl))
            else:
                r = typed(mk("valinc", o, v, fl), "double")
            return [(self.pend(st, r), r)]
        if q == FN + "::update":
            self.throw(eng, st, e)
            return [(st, mk("void"))]
        if q == "hnco::bv_flip" and len(args) == 2 and isinstance(args[0], tuple):
            l = args[0][1]
            x, fl = read(st, l), arg(st, args[1])
            return [(write(st, l, flip_term(x, fl)), mk("void"))]
        if q.startswith((POP + "::get_best_", POP + "::get_worst_", POP + "::get_equivalent_")) and ol is not None:
            self.ranked(eng, e, st, q, ol)
        elif args:
            self.consume(eng, e, st, q, ol, args)
        if q == POP + "::evaluate" or q == POP + "::evaluate_in_parallel":
            B = read(st, (ol[0], ol[1] + ((".", "bvs"),)))
            self.throw(eng, write(st, (ol[0], ol[1] + ((".", "values"),)), mk("partial", B)), e)
            s = write(st, (ol[0], ol[1] + ((".", "values"),)), mk("vals", B))
            return [(self.pend(s, best_of(B)), mk("void"))]
        if q in (POP + "::sort", POP + "::partial_sort"):
            V = read(st, (ol[0], ol[1] + ((".", "values"),)))
            return [(write(st, (ol[0], ol[1] + ((".", "permutation"),)), mk("sorted", V)), mk("void"))]
        if q.endswith(("::CommaSelection::select", "::PlusSelection::select")) and ol is not None:
            return self.select(eng, e, st, q, ol)
        if q == ALG + "::get_solution" and ol is not None and ol[0][0] == "D" and not ol[1]:
            t = read(st, ol)
            A = mk("reported", t)
            s = st.copy()
            root = ("D", mk("solof", t))
            s.mem[root] = mk("pair", A, val(A))
            return [(self.pend(s, val(A)), ("loc", (root, ())))]
        if q == "<value>" and len(args) == 3:
            fv, a, b = args[0], arg(st, args[1]), arg(st, args[2])
            if "bool" in (e.get("t") or "") and a.ty == "double" and b.ty == "double":
                out = []
                x = assume(st, cmpterm(">=", a, b), True)
                if x is not None:
                    out.append((x, C(1)))
                x = assume(st, cmpterm("<=", a, b), True)
                if x is not None:
                    out.append((x, C(0)))
                return out
        if any(q.startswith(p) for p in OPAQUE):
            return eng.opaque(e, st, q, g, ol, args)
        return None

    # --- use of ranks (P11)
    def note(self, eng, e, kind, verdict, what):
        f = eng.cur()[0]
        k = (kind, f["q"], e.get("l"))
        old = self.ranks.get(k)
        if old is None or old[0] != "bad":
            self.ranks[k] = (verdict, what, f, e.get("l"))

    def ranked(self, eng, e, st, q, ol):
        P = read(st, (ol[0], ol[1] + ((".", "permutation"),)))
        V = read(st, (ol[0], ol[1] + ((".", "values"),)))
        if P.op == "sorted":
            if P.a[0] is V:
                self.note(eng, e, "ranked", "ok", None)
            elif V.op == "vals" and P.a[0].op == "vals" and not vague(V) and not vague(P):
                self.note(eng, e, "ranked", "bad", "%s reads ranks computed before the population was evaluated again" % q)
            else:
                self.note(eng, e, "ranked", "unknown", None)
        elif V.op == "vals" and not vague(V) and (P.op in ("fld", "init") or P.op == "hv" and self.never_sorted(P)):
            self.note(eng, e, "ranked", "bad", "%s is called on an evaluated population which has not been sorted" % q)
        else:
            self.note(eng, e, "ranked", "unknown", None)

    def never_sorted(self, P):
        return False

    def consume(self, eng, e, st, q, ol, args):
        """a bit vector of an evaluated population is used by value"""
        pm = e.get("pm") or []
        if not q.startswith("hnco::"):
            return
        for i, a in enumerate(args):
            if not isinstance(a, tuple) or i < len(pm) and pm[i] in (1, 2):
                continue
            r, path = a[1][0], a[1][1]
            if len(path) < 2 or path[-2] != (".", "bvs") or path[-1][0] != "[":
                continue
            pop = (r, path[:-2])
            V = read(st, (r, path[:-2] + ((".", "values"),)))
            P = read(st, (r, path[:-2] + ((".", "permutation"),)))
            if V.op != "vals" or P.op != "sorted" or P.a[0] is not V:
                continue
            ix = path[-1][1]
            role = None
            if ix.op == "sel" and ix.a[0] is P:
                c, d = lin(ix.a[1])
                ivs = [t for t in d if t.op == "hv"]
                if len(ivs) == 1 and d[ivs[0]] == 1 and c == 0 and len(d) == 1:
                    role = "top"
                elif len(ivs) == 1 and d[ivs[0]] == -1 and c == -1 and len(d) == 2:
                    role = "bottom"
            elif ix.op == "hv":
                bounds = []
                for t, iv in st.facts.items():
                    if t.op == "lin" and len(t.a[1]) == 2:
                        d = dict(t.a[1])
                        if ix in d:
                            o = next(z for z in d if z is not ix)
                            if d[ix] == -d[o] and (d[o] > 0 and iv[0] is not None or d[o] < 0 and iv[2] is not None):
                                bounds.append(o)
                if any(b.op == "size" for b in bounds):
                    role = "all"
                elif bounds and all(b.op == "fld" for b in bounds):
                    self.note(eng, e, "unranked", "bad", "%s learns from individuals of the sorted population by position instead of by rank" % q)
                    continue
            if role:
                self.note(eng, e, "unranked", "ok", None)
            acc = ol if ol is not None else args[0][1] if i > 0 and isinstance(args[0], tuple) else None
            if role and acc is not None and acc[0] == ("THIS",):
                self.roles.setdefault(acc, set()).add(role)
        # attraction and repulsion
        rs = []
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[1] in self.roles and not (i < len(pm) and pm[i] in (1, 2)):
                rs.append(self.roles[a[1]])
        if len(rs) == 2 and all(len(x) == 1 for x in rs):
            x, y = [next(iter(z)) for z in rs]
            if x == "top" and y in ("bottom", "all"):
                self.note(eng, e, "roles", "ok", None)
            else:
                self.note(eng, e, "roles", "bad", "%s moves the model towards the %s-ranked and away from the %s-ranked individuals" % (q, x, y))

    def select(self, eng, e, st, q, ol):
        obj = read(st, ol)
        cls = q.rsplit("::", 1)[0]
        refs = []
        for n, v in fieldsof(obj):
            if v.op == "ref":
                refs.append((n, v.a[0]))
        par = off = None
        for n, l in refs:
            if "parent" in n:
                par = l
            elif "offspring" in n or "child" in n:
                off = l
        if par is None or off is None:
            return None
        B = read(st, (off[0], off[1] + ((".", "bvs"),)))
        V = read(st, (off[0], off[1] + ((".", "values"),)))
        P = read(st, (par[0], par[1] + ((".", "bvs"),)))
        PV = read(st, (par[0], par[1] + ((".", "values"),)))
        self.n += 1
        paired = V is mk("vals", B) and ("Comma" in cls or PV is mk("vals", P))
        S = mk("selected", cls, B, P)
        s = write(st, (par[0], par[1] + ((".", "bvs"),)), S)
        s = write(s, (par[0], par[1] + ((".", "values"),)), mk("vals", S) if paired else mk("unpaired", S))
        s = write(s, (par[0], par[1] + ((".", "permutation"),)), mk("sorted", read(s, (par[0], par[1] + ((".", "values"),)))))
        s = write(s, (off[0], off[1] + ((".", "bvs"),)), mk("rest", B))
        rs = set(st.rs or ())
        m = best_of(B)
        if m in rs and paired:
            rs.discard(m)
            rs.add(best_of(S))
        s.rs = frozenset(rs)
        return [(s, mk("void"))]


def field_type(ctx, cls, n):
    for b in ctx.p.bases(cls):
        r = ctx.p.records.get(b)
        for fd in (r["fields"] if r else []):
            if fd["n"] == n:
                return fd["t"]
    return None


def reaches_eval(ctx, f):
    """may f evaluate the function or move a neighborhood?"""
    memo = getattr(ctx.p, "_reach_eval", None)
    if memo is None:
        memo = ctx.p._reach_eval = {}
    if f["id"] in memo:
        return memo[f["id"]]
    memo[f["id"]] = False
    r = False
    for n in walk(f.get("body")) if f.get("body") else ():
        if n.get("k") != "call":
            continue
        q = n.get("q")
        if q is None or q.startswith((FN + "::evaluate", NBH + "::", POP + "::evaluate")):
            r = True
            break
        g = ctx.p.functions.get(n.get("id"))
        gs = ctx.p.all_overriders(n["id"]) if n.get("virt") and not n.get("nv") else [g]
        if any(h is not None and reaches_eval(ctx, h) for h in gs):
            r = True
            break
    memo[f["id"]] = r
    return r


def fieldsof(t):
    out = {}
    while t.op == "updf":
        out.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    if t.op == "obj":
        for n, v in t.a[1]:
            out.setdefault(n, v)
    return list(out.items())


def overlay(t, path, st):
    """aliases (references, addresses) of a constructed object, put on a symbolic one"""
    for n, v in fieldsof(t):
        p = path + ((".", n),)
        if v.op in ("ref", "addr") and v.a[0][0] == ("THIS",):
            st = write(st, (("THIS",), p), v)
        elif v.op in ("obj", "updf"):
            st = overlay(v, p, st)
    return st


def head(ctx, cls):
    """symbolic object of class cls with the aliases established by its constructor"""
    st = State({}, {}, None, None)
    try:
        for f, outs in ctor_state(ctx, cls, keep_trace=False):
            for o in outs:
                if o.kind == "R":
                    return overlay(thisv(o.st), (), st)
    except TooComplex:
        pass
    return st


# ------------------------------------------------------------------ verdicts
def hvish(t):
    return t.op in ("hv", "join") or t.op == "sel" and hvish(t.a[0]) and not isc(t.a[1])


def const_index(t):
    """('rank', values, c) for sel(B, sel(sorted, c)) or ('at', c)"""
    if isc(t):
        return ("at", t.a[0])
    if t.op == "sel" and t.a[0].op in ("sorted",) and isc(t.a[1]):
        return ("rank", t.a[0], t.a[1].a[0])
    return None


def definite(x, y):
    """two bit vectors which nothing makes equal"""
    if x is y:
        return False
    if x.op == "sel" and y.op == "sel" and x.a[0] is y.a[0]:
        i, j = const_index(x.a[1]), const_index(y.a[1])
        return i is not None and j is not None and i != j
    if x.op == "flip" and x.a[0] is y or y.op == "flip" and y.a[0] is x:
        return True
    if any(z.op in ("join", "partial", "unpaired") for t in (x, y) for z in subterms(t)):
        return False
    for t in (x, y):
        while t.op in ("sel", "fld"):
            t = t.a[0]
        if t.op in ("after", "afterf"):
            return False
    if hvish(x) and hvish(y):
        return False
    return True


def pair_verdict(m, second, first, depth=0):
    """ok / bad / unknown: is second the value of first?"""
    if second is val(first):
        return "ok", None
    if second.op == "val":
        if definite(second.a[0], first):
            return "bad", "the value of %s is kept with %s" % (show(second.a[0])[:80], show(first)[:80])
        return "unknown", None
    if depth > 3:
        return "unknown", None
    if first.op == second.op == "fld" and first.a[0] is second.a[0] and (first.a[1], second.a[1]) == ("first", "second"):
        x = first.a[0]
        while x.op == "fld":
            x = x.a[0]
        if x is not initv(("THIS",)):
            return "ok", None      # a solution kept by another object (progress tracker: P03)
    if first.op == "fromvb":
        # wrappers of external optimisers: both halves of the record kept by one object
        a, b = first.a[0], second
        if a.op == b.op == "fld" and a.a[0] is b.a[0] and (a.a[1], b.a[1]) == ("best_solution", "best_fitness"):
            return "ok", None
        return "unknown", None
    if second.op == "valinc":
        o, v, fl = second.a
        r, why = pair_verdict(m, v, o, depth + 1)
        if r == "bad":
            return "bad", "value updated from %s, which is not the value of the origin: %s" % (show(v)[:60], why)
        return "unknown", None
    if second.op == "hv":
        ev = m.loops.get(second.a[0])
        if ev is None:
            return "unknown", None
        kd = (second.a[1], second.a[2])
        kb = (first.a[1], first.a[2]) if first.op == "hv" and first.a[0] == second.a[0] else None
        if kb is None:
            return "unknown", None

        def get(st, k):
            t = getroot(st, k[0])
            for s in k[1]:
                t = proj(t, s)
            return t
        cand = [("before the loop", ev.entry)] + [("in an iteration", b.st) for b in ev.bodies if b.kind == "N"]
        for what, s in cand:
            d = get(s, kd)
            b = get(s, kb) if kb else first
            if d is second and b is first:
                continue
            r, why = pair_verdict(m, d, b, depth + 1)
            if r == "bad":
                return "bad", "%s: %s" % (what, why)
        return "unknown", None
    if second.op in ("fld", "c", "init"):
        return "bad", "the reported value %s was never obtained from an evaluation" % show(second)
    return "unknown", None


def run_alg(ctx, cls, spath, peel=False):
    """[(outcome of maximize followed by finalize, interrupted)] and the model"""
    sols = [spath]
    for c in ctx.p.bases(cls):
        r = ctx.p.records.get(c)
        for fd in (r["fields"] if r else []):
            t = fd["t"].replace("const ", "")
            if t in ctx.p.records and ctx.p.is_subclass(t, ALG):
                sols.insert(0, ((".", fd["n"]),) + spath)
    m = Model(ctx, cls, sols)
    f = ctx.p.find_method(cls, "maximize", nparams=1)
    fin = ctx.p.find_method(cls, "finalize", nparams=0)
    if f is None or fin is None:
        raise AnalysisBroken("no maximize/finalize on " + cls)
    kw = dict(inline=m.inline, on_call=m.on_call, on_event=m.on_event, on_stmt=m.on_stmt, on_rs=m.on_rs, on_back=m.on_back, keep_trace=False, pair_ops=("val", "vals"),
              modsets=True, closed_world=True, loop_passes=40, max_states=300, budget=300000, max_depth=18, peel=peel)
    eng = Engine(ctx.p, **kw)
    st = head(ctx, cls)
    outs = eng.run(f, cls=cls, st=st)
    ctx.functions |= eng.nfun
    ctx.count("calls_visited", eng.ncall)
    res = []
    seen = set()
    for o in outs:
        s = m.purge(eng, o.st)
        s0 = State({k: v for k, v in s.mem.items() if k[0] != "L"}, s.facts, s.rs, None)
        k = (o.kind, s0.key())
        if k in seen:
            continue
        seen.add(k)
        for o2 in eng.run(fin, cls=cls, st=s0, frame_tag="fin"):
            if o2.kind == "R":
                res.append((o, o2))
    return m, f, res


def algorithms(ctx):
    out = []
    for c in concrete_subclasses(ctx, ALG):
        r = ctx.p.records[c]
        if r.get("file", "").startswith("bindings") or not c.startswith("hnco::"):
            continue
        out.append(c)
    return out


VAGUE = ("join", "partial", "unpaired", "afterf", "after", "app", "sym", "cases")


def vague(t):
    return any(z.op in VAGUE for z in subterms(t))


def inner(m, t):
    """does t belong to an iteration of an inner loop?"""
    d0 = min(m.depth.values()) if m.depth else 0
    return any(z.op == "hv" and m.depth.get(z.a[0], d0 + 1) > d0 for z in subterms(t))


def pending_verdict(m, p, sec, st):
    """is the obtained value p definitely not covered by the reported value?"""
    if isinstance(p, tuple):          # ("dec", new, old)
        _, new, old = p
        if vague(new) or vague(old):
            return "unknown"
        return "bad"
    if vague(p) or vague(sec) or p.op == "val" and inner(m, p) and p.a[0].op != "sel":
        return "unknown"
    return "bad"


def classify(m, spath, res):
    """[(property kind, verdict, why, outcome)]"""
    out = []
    for o, o2 in res:
        s = at(o2.st, spath)
        a, b = proj(s, (".", "first")), proj(s, (".", "second"))
        if o.kind == "X" and m.initial(b):
            continue
        r, why = pair_verdict(m, b, a)
        out.append(("pair", r, why, o))
        if o.kind == "R":
            for p in sorted(o2.st.rs or (), key=str):
                out.append(leak(p, b, pending_verdict(m, p, b, o2.st), o))
    for (p, b), v in sorted(m.leaks.items(), key=str):
        out.append(leak(p, b, v, res[0][0] if res else None))
    return out


def leak(p, b, v, o):
    if isinstance(p, tuple):
        return ("monotone", v, "the reported value changes from %s to %s, which is not known to be at least as large" % (
            show(p[2])[:120], show(p[1])[:120]), o)
    return ("best", v, "the value %s is obtained but an iteration can end without the reported value %s covering it" % (
        show(p)[:160], show(b)[:120]), o)


def score(cl):
    return (sum(1 for c in cl if c[1] == "bad"), sum(1 for c in cl if c[1] == "unknown"))


def analyse(ctx, cls, spath):
    memo = ctx.p.__dict__.setdefault("_sol_memo", {})
    if cls in memo:
        return memo[cls]
    best = None
    why = None
    for peel in (False, True):
        try:
            m, f, res = run_alg(ctx, cls, spath, peel=peel)
        except TooComplex as e:
            why = str(e)
            continue
        cl = classify(m, spath, res)
        if best is None or score(cl) < score(best[1]):
            best = (f, cl)
        if score(best[1]) == (0, 0):
            break
    memo[cls] = best or (None, why)
    return memo[cls]


# algorithms which, by definition, evaluate intermediate solutions they never report
INTERMEDIATE = ("hnco::algorithm::OnePlusLambdaCommaLambdaGa",)


def solve(ctx, kinds):
    spath = ctx.need(getter_path(ctx, ALG, "get_solution"), ALG + "::get_solution returning a member")
    for cls in algorithms(ctx):
        f, cl = analyse(ctx, cls, spath)
        if f is None:
            ctx.skip(kinds[0], cls, "too complex: %s" % cl)
            continue
        un = set()
        for kind, r, why, o in cl:
            if kind not in kinds:
                continue
            if kind == "best" and cls in INTERMEDIATE:
                continue
            if r == "ok":
                ctx.ok(kind, cls)
            elif r == "bad":
                body = ctx.p.find_method(cls, "iterate", nparams=0) or f
                ctx.bad(kind, body, body["line"], "%s: %s" % (cls, why), key="%s|%s" % (kind, cls))
            else:
                un.add(kind)
        for k in un:
            ctx.skip(k, cls, "not decided on some path")
        if kinds[0] != "pair" and not any(c[0] in kinds for c in cl) and any(c[3].kind == "R" for c in cl):
            ctx.ok(kinds[0], cls)


def compare_default(ctx, kind):
    """user-replaceable acceptance tests default to >= or >"""
    for q, r in sorted(ctx.p.records.items()):
        if not q.startswith("hnco::algorithm") or not r.get("file", "").startswith("lib/hnco"):
            continue
        for fd in r["fields"]:
            if fd["t"].replace(" ", "").startswith("std::function<bool(double,double)>"):
                t = json.dumps(fd.get("init") or {})
                qs = set(re.findall(r"std::(greater_equal|greater|less_equal|less|not_equal_to|equal_to)<", t))
                if not qs:
                    ctx.skip(kind, q, "acceptance test %s has no recognised default" % fd["n"])
                    continue
                ctx.check(qs <= {"greater_equal"}, kind, (r["file"], q + "::" + fd["n"]), r.get("line", 0),
                          "the default acceptance test of a maximiser is %s" % ", ".join(sorted(qs)))
                used = any(x.get("k") == "mem" and x.get("n") == fd["n"]
                           for f in ctx.p.functions.values() if f.get("body") and f.get("cls") and
                           (f["cls"] == q or q in ctx.p.bases(f["cls"])) and not f["q"].rsplit("::", 1)[-1].startswith("set_") for x in walk(f["body"]))
                ctx.check(used, kind, (r["file"], q + "::" + fd["n"]), r.get("line", 0), "the configured acceptance test is never applied")


def narrowing(ctx, kind):
    """a function value converted to a narrower floating type is no longer the value of its bit vector"""
    n = 0
    for f in ctx.p.functions.values():
        if not f["file"].startswith(("lib/hnco/algorithms", "lib/hnco/functions", "lib/hnco/app")) or not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "cast" and x.get("t", "").replace("const ", "") == "float":
                for y in walk(x.get("e") or {}):
                    if y.get("k") == "call" and (y.get("q") or "").startswith(FN + "::evaluate"):
                        n += 1
                        ctx.bad(kind, f, x.get("l") or f["line"], "the value of the function is rounded to float")
    ctx.count("functions_scanned", n)


@rule("P08", "Flow- and path-sensitive value analysis of maximize() + finalize() of every concrete algorithm, with the function's value "
      "modelled as an uninterpreted term of its argument and loop invariants of the form value = f(bit vector) inferred by "
      "candidate elimination; the reported pair must be (b, f(b)) on every normal or interrupted path that holds a solution.",
      minimum={"obligations.pair": 40},
      assumptions=["functions are deterministic", "Population::sort yields a permutation", "external optimisers (FastEfficientP3) "
                   "keep the fields of their own best record together", "algorithms whose analysis does not terminate within its bounds are listed as undecided"])
def p08(ctx):
    solve(ctx, ("pair",))
    narrowing(ctx, "narrow")


@rule("P09", "Same abstract interpretation: every value obtained is pending until the path condition proves the reported value at least "
      "as large; pending values at the end of an iteration, or a reported value replaced by one not proved as large, are violations.",
      minimum={"obligations.best": 12},
      assumptions=["a user-supplied acceptance test of two values behaves like >= or > (its default is checked)",
                   "the intermediate mutants of the (1+(lambda,lambda)) GA are not reported, by definition of that algorithm"])
def p09(ctx):
    solve(ctx, ("best", "monotone"))
    compare_default(ctx, "acceptance")
