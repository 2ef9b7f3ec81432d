"""P30: search steps: what an iteration of each algorithm does, given the values it obtains and the numbers it draws."""
import itertools
import math
from fractions import Fraction
from ..core import rule
from ..q import *
from ..absint import Engine, TooComplex, trace, write, read, initv, getroot, cmpterm
from ..terms import T, subterms, typed, mk, C, add, sub, show
from ..values import Values, Unknown, Outside, all_loops
from ..effects import lastname
from .eda import same, brief

A = "hnco::algorithm::"
NB = "hnco::neighborhood::"
ORIG, CAND, FLIPS = (("G", "nb.origin"), ()), (("G", "nb.candidate"), ()), (("G", "nb.flips"), ())
CUR, POS, ORG = (("G", "it.current"), ()), (("G", "it.position"), ()), (("G", "it.origin"), ())
RATE = (("G", "nb.rate"), ())
PROP = (("G", "proposals"), ())


def val(st, a):
    return read(st, a[1]) if isinstance(a, tuple) else a


class Step(object):
    """neighborhoods as (origin, candidate), iterators as (origin, position), function values and draws as unknowns"""

    def __init__(self, ctx, cls):
        self.ctx, self.p, self.cls = ctx, ctx.p, cls
        self.ranks = {}
        self.sites = {}

    def inline(self, eng, e, g, ol):
        c = g.get("cls") or ""
        return not c.startswith((NB, "hnco::function::", "hnco::random::", "hnco::logging::")) and g.get("body") is not None

    def number(self, st, loc):
        """a new number for a draw or proposal: distinct within an iteration, and a variable of the loop in a loop"""
        t = read(st, loc)
        t = C(0) if t.op == "init" else typed(t, "int")
        return t, write(st, loc, typed(add(t, C(1)), "int"))

    def draw(self, eng, e):
        """which draw: the loop it is made in (0: none) and the call"""
        a = eng.active
        return mk("no", a[-1] if a else 0, self.sites.setdefault(id(e), len(self.sites)))

    def population(self, eng, e, st, nm, vs, args, ol):
        name = ol[1][-1][1] if ol[1] else "?"
        gen = (("G", "gen." + name), ())
        g = read(st, gen)
        g = C(0) if g.op == "init" else g
        if nm in ("evaluate", "evaluate_in_parallel"):
            s = eng.event(st, "popeval", e, name=name, x=proj(read(st, ol), (".", "bvs")))
            return [(write(s, gen, typed(add(g, C(1)), "int")), mk("void"))]
        if nm == "random" and not vs:
            return [(write(st, (ol[0], ol[1] + ((".", "bvs"),)), mk("rpop", name)), mk("void"))]
        if nm in ("sort", "partial_sort", "shuffle"):
            return [(eng.event(st, "rank", e, name=name), mk("void"))]
        if nm == "get_size":
            return [(st, typed(mk("popsize", name), "int"))]
        if nm in ("get_best_bv", "get_best_value", "get_best_index") and len(vs) <= 1:
            i = typed(vs[0], "int") if vs else C(0)
            self.rank(eng, e, st, name, i)
            op = {"get_best_bv": "bestbv", "get_best_value": "bestval", "get_best_index": "bestidx"}[nm]
            return [(st, typed(mk(op, name, g, i), {"bestval": "double", "bestidx": "int"}.get(op)))]
        return None

    def rank(self, eng, e, st, name, i):
        if i.op == "hv" and not getattr(self, "inpreds", None):
            up = [iv for d, iv in st.facts.items() if (d is i and iv[2] is not None) or d.op == "lin" and dict(d.a[1]).get(i) and (iv[2] if dict(d.a[1])[i] > 0 else iv[0]) is not None]
            self.ranks.setdefault(e.get("l"), []).append((bool(up), eng.cur()[0], name, i))

    def is_a(self, c, base):
        return c == base or c in self.p.records and base in self.p.bases(c)

    def on_call(self, eng, e, st, q, g, ol, args):
        c = (g or {}).get("cls") or q.rpartition("::")[0]
        nm = lastname(q)
        vs = [val(st, a) for a in args]
        if c.startswith("hnco::function::") and self.is_a(c, "hnco::function::Function"):
            if nm == "evaluate" and len(vs) == 1:
                return [(eng.event(st, "eval", e, x=vs[0]), typed(mk("val", vs[0]), "double"))]
            if nm == "evaluate_incrementally" and len(vs) == 3:
                x = mk("flipped", vs[0], vs[2], vs[1])
                return [(eng.event(st, "eval", e, x=x), typed(mk("val", x), "double"))]
            if nm == "provides_incremental_evaluation":
                return [(st, typed(mk("provides"), "bool"))]
        if c.startswith(NB) and ol is not None:
            it = self.is_a(c, NB + "NeighborhoodIterator") or c == "hnco::Iterator"
            r = self.iterator(eng, e, st, nm, vs, args) if it else self.neighborhood(eng, e, st, nm, vs, args, ol)
            if r is not None:
                return r
        if c == "hnco::Iterator" and ol is not None or self.is_a(c, "hnco::Iterator") and ol is not None:
            r = self.iterator(eng, e, st, nm, vs, args)
            if r is not None:
                return r
        if c == A + "Population" and ol is not None:
            r = self.population(eng, e, st, nm, vs, args, ol)
            if r is not None:
                return r
        if c.startswith(A) and nm == "select" and not vs and ol is not None:
            if "Tournament" in c or (e.get("t") or "").find("vector") >= 0:
                return [(st, mk("pick", self.draw(eng, e)))]
            return [(eng.event(st, "selection", e, name=lastname(c)), mk("void"))]
        if c.startswith(A) and nm == "recombine" and len(args) == 3 and isinstance(args[2], tuple):
            return [(write(st, args[2][1], mk("cross", self.draw(eng, e), vs[0], vs[1])), mk("void"))]
        if c == "hnco::random::Generator" and nm in ("uniform", "normal", "bernoulli"):
            return [(st, typed(mk("U", nm, self.draw(eng, e)), e.get("t")))]
        if q.startswith("std::") and nm == "operator()" and "_distribution" in q and ol is not None:
            return [(st, typed(mk("D", c.split("<")[0], self.draw(eng, e), read(st, ol)), e.get("t")))]
        if q == "hnco::bv_random" and isinstance(args[0], tuple) and len(args) <= 2:
            return [(write(st, args[0][1], mk("rbv", self.draw(eng, e), *vs[1:])), mk("void"))]
        return None

    def neighborhood(self, eng, e, st, nm, vs, args, ol):
        ev = lambda s: eng.event(s, "move", e, name=nm, args=tuple(vs), obj=ol)
        if nm == "propose":
            n, s = self.number(st, PROP)
            o = read(s, ORIG)
            s = write(write(s, CAND, mk("proposed", n, o)), FLIPS, mk("flips", n))
            return [(ev(s), mk("void"))]
        if nm == "keep":
            return [(ev(write(st, ORIG, read(st, CAND))), mk("void"))]
        if nm == "forget":
            return [(ev(write(st, CAND, read(st, ORIG))), mk("void"))]
        if nm == "set_origin" and len(vs) == 1:
            return [(ev(write(write(st, ORIG, vs[0]), CAND, vs[0])), mk("void"))]
        if nm in ("get_candidate", "get_origin", "get_flipped_bits"):
            return [(st, ("loc", {"get_candidate": CAND, "get_origin": ORIG, "get_flipped_bits": FLIPS}[nm]))]
        if nm in ("set_mutation_rate", "set_radius") and len(vs) == 1:
            return [(ev(write(st, RATE, vs[0])), mk("void"))]
        if nm == "map" and len(args) == 2 and isinstance(args[1], tuple):
            return [(write(st, args[1][1], mk("mut", read(st, RATE), vs[0], self.draw(eng, e))), mk("void"))]
        if nm == "mutate" and len(args) == 1 and isinstance(args[0], tuple):
            return [(write(st, args[0][1], mk("mut", read(st, RATE), vs[0], self.draw(eng, e))), mk("void"))]
        return None

    def iterator(self, eng, e, st, nm, vs, args):
        if nm == "init" and not vs:
            return [(write(write(st, ORG, read(st, CUR)), POS, C(0)), mk("void"))]
        if nm == "has_next":
            return [(st, cmpterm("<", typed(read(st, POS), "int"), typed(mk("sym", "count"), "int")))]
        if nm == "next":
            p = typed(read(st, POS), "int")
            s = write(write(st, CUR, mk("nbr", read(st, ORG), p)), POS, typed(add(p, C(1)), "int"))
            return [(eng.event(s, "next", e, x=read(s, CUR)), ("loc", CUR))]
        if nm == "set_origin" and len(vs) == 1:
            return [(write(st, CUR, vs[0]), mk("void"))]
        return None


class Tags(Values):
    """bit vectors are names; values, draws and answers are given"""

    def __init__(self, eng, loops, env, given):
        Values.__init__(self, eng, loops, env)
        self.g = given
        self.idx = None

    def ev(self, t):
        try:
            return Values.ev(self, t)
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, ArithmeticError) as x:
            raise Unknown(str(x))

    def at(self, t, b, i, body):
        old, self.idx = self.idx, i
        try:
            return Values.at(self, t, b, i, body)
        finally:
            self.idx = old

    def op_mul(self, t):
        r, name = 1, None
        for k in t.a:
            v = self.ev(k)
            if isinstance(v, (int, float, Fraction)):
                r = r * v
            elif name is None:
                name = v
            else:
                raise Unknown("product")
        return r if name is None else 0 if r == 0 else name if r == 1 else Times(r, name)

    def op_lin(self, t):
        """one name or another, as b * x + (1 - b) * y"""
        vs = [(self.ev(k), c) for k, c in t.a[1]]
        if all(isinstance(v, (int, float, Fraction)) for v, _ in vs):
            return Values.op_lin(self, t)
        r = t.a[0]
        names = []
        for v, c in vs:
            if isinstance(v, (int, float, Fraction)):
                r = r + c * v
                continue
            v, c = (v.x, c * v.r) if isinstance(v, Times) else (v, c)
            for z in names:
                if z[0] == v:
                    z[1] += c
                    break
            else:
                names.append([v, c])
        names = [z for z in names if z[1]]
        if r == 0 and len(names) == 1 and names[0][1] == 1:
            return names[0][0]
        if not names:
            return r
        raise Unknown("sum")

    def fresh(self, what, n, x):
        """inside a loop over individuals, a draw made before the loop is the same for all"""
        return Bad("one draw for all individuals") if self.idx is not None and n.a[0] == 0 and what in self.g.get("each", ("mut", "cross", "pick")) else x

    def op_proposed(self, t):
        n = "P%d" % t.a[0].a[0] if t.a[0].op == "c" else "P"
        return n if self.ev(t.a[1]) == "O" else "P of %s" % (self.ev(t.a[1]),)

    def op_flips(self, t):
        return t.a[0].a[0] if t.a[0].op == "c" else "?"

    def op_flipped(self, t):
        o, fl, v = [self.ev(x) for x in t.a]
        if o != "O" or v != self.g["values"]["O"]:
            return "flips of %s valued %s" % (o, v)
        return "P%s" % fl

    def op_val(self, t):
        x = self.ev(t.a[0])
        if isinstance(x, list):
            x = tuple(x)
        if "trials" in self.g and x in ("R", "P of R"):
            if self.idx is None:
                raise Unknown("trial")
            return self.g["trials"][self.idx][x != "R"]
        if x not in self.g["values"]:
            return Bad("value of %s" % (x,))
        return self.g["values"][x]

    def op_nbr(self, t):
        return (self.ev(t.a[0]), self.ev(t.a[1]))

    def op_rbv(self, t):
        return "R" if len(t.a) == 1 else "R%s" % self.ev(t.a[1])

    def op_found(self, t):
        return self.g[t.a[0]]

    def op_U(self, t):
        k = t.a[0]
        if k not in self.g:
            raise Unknown("draw")
        return self.g[k]

    def op_D(self, t):
        k = t.a[0].rsplit("::", 1)[-1]
        if k not in self.g:
            raise Unknown("draw")
        r = self.g[k]
        if r in ("low", "high"):  # an end of the range of the draw
            if not (t.a[2].op == "ctor" and len(t.a[2].a) == 3):
                raise Unknown("range")
            r = self.ev(t.a[2].a[1 if r == "low" else 2])
        return self.fresh("D", t.a[1], r)

    def op_app(self, t):
        if len(t.a) != 3 or "better" not in self.g:
            raise Unknown("callable")
        return int(self.g["better"](self.ev(t.a[1]), self.ev(t.a[2])))

    def op_provides(self, t):
        return self.g.get("provides", 0)

    def op_sym(self, t):
        if t.a[0] in self.g:
            return self.g[t.a[0]]
        return Values.op_sym(self, t)

    def op_mut(self, t):
        x = self.ev(t.a[1])
        return x if isinstance(x, Bad) else self.fresh("mut", t.a[2], ("mutated", self.ev(t.a[0]), x))

    def op_cross(self, t):
        xs = [self.ev(x) for x in t.a[1:]]
        bad = [x for x in xs if isinstance(x, Bad)]
        return bad[0] if bad else self.fresh("cross", t.a[0], ("crossed",) + tuple(xs))

    def op_pick(self, t):
        return self.fresh("pick", t.a[0], "W")

    def op_xor(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [x ^ y for x, y in zip(a, b)]
        return ("sum of",) + tuple(sorted((str(a), str(b))))

    def op_argof(self, t):
        xs = self.ev(t.a[0])
        f = t.a[1].a[0] if t.a[1].op == "fn" else ""
        best = max(xs) if "F@max_element" in f else min(xs) if "F@min_element" in f else None
        if xs.count(best) != 1:
            raise Unknown("ties")
        return xs.index(best)

    def op_weight(self, t):
        return sum(self.ev(t.a[0]))

    def op_eqr(self, t):
        r, i = self.g["ranked"].get((t.a[0], self.ev(t.a[1]))), self.ev(t.a[2])
        if r is None:
            raise Unknown("population")
        if not 0 <= i < len(r):
            raise Outside(show(t))
        return {"first": r.index(r[i]), "second": len(r) - r[::-1].index(r[i])}

    def op_bestbv(self, t):
        if "bits" in self.g:
            return self.ranked("bits", t)
        return "best%d.%s%d" % (self.ev(t.a[2]), t.a[0], self.ev(t.a[1]))

    def ranked(self, what, t):
        r = self.g[what].get((t.a[0], self.ev(t.a[1])))
        i = self.ev(t.a[2])
        if r is None:
            raise Unknown("population")
        if not 0 <= i < len(r):
            raise Outside(show(t))
        return r[i]

    def op_bestval(self, t):
        return self.ranked("ranked", t)

    def op_bestidx(self, t):
        return self.ranked("index", t)

    def op_rpop(self, t):
        return ["R"] * self.g["size"][t.a[0]]

    def op_popsize(self, t):
        return self.g["size"][t.a[0]]

    def op_clamp(self, t):
        x, a, b = [self.ev(y) for y in t.a]
        return min(max(x, a), b)

    def op_call(self, t):
        q = t.a[0]
        if isinstance(q, str) and lastname(q) == "clamp" and len([x for x in t.a[1:] if isinstance(x, T)]) == 3:
            x, a, b = [self.ev(y) for y in t.a[1:] if isinstance(y, T)]
            return min(max(x, a), b)
        return Values.op_call(self, t)


class Times(object):
    def __init__(self, r, x):
        self.r, self.x = r, x


class Bad(object):
    """a value which was never given: differs from everything"""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s

    def cmp(self, o):
        raise Unknown(self.s)
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = cmp


class Run(object):
    def __init__(self, ctx, cls, name, kind="step", model=Step, **kw):
        self.ctx, self.cls, self.kind = ctx, A + cls, kind
        self.f = ctx.p.find_method(self.cls, name) if isinstance(name, str) else name
        self.outs = None
        if self.f is None or self.f.get("body") is None:
            ctx.skip(kind, ("", self.cls + "::" + name), "not found")
            return
        self.m = model(ctx, self.cls)
        try:
            self.eng = Engine(ctx.p, on_call=self.m.on_call, inline=self.m.inline, assume_asserts=False, max_states=600)
            self.eng.preds = {}
            self.outs = self.eng.run(self.f, cls=self.cls)
        except TooComplex as x:
            ctx.skip(kind, self.f, str(x))
            return
        ctx.functions |= self.eng.nfun
        ctx.count("paths", len(self.outs))
        self.by = {o: all_loops(o.st) for o in self.outs}
        for line, rs in sorted(self.m.ranks.items(), key=str):
            bad = [x for x in rs if not x[0]]
            if bad:
                ctx.bad(kind, bad[0][1], line, "an individual of %s is accessed at an index which grows without bound" % bad[0][2], key="rank|%s|%s" % (self.cls, bad[0][2]))
            else:
                ctx.ok("rank", "%s line %s" % (self.cls, line))

    def at(self, this, given, env=None, sure_only=False):
        """[(values, outcome)] of the paths taken"""
        env = dict(env or {})
        env[initv(("THIS",))] = this
        for p in self.f["ps"]:
            if p["n"] in given:
                env[initv(("P", p["n"]))] = given[p["n"]]
        env[initv(ORIG[0])] = "O"
        env[initv(CUR[0])] = "O"
        env[initv(RATE[0])] = "rate"
        env.setdefault(initv(PROP[0]), 0)
        res = []
        for o in self.outs:
            v = Tags(self.eng, self.by[o], env, given)
            h = v.holds(o.st.facts.items())
            if h is not False:
                res.append((h, v, o))
        sure = [x for x in res if x[0]]
        return [x[1:] for x in (sure if sure or sure_only else res)]  # some path is taken

    def table(self, cases, ref, observe, what):
        """ref(case) -> expected observations; observe(v, o) -> observations"""
        if not self.outs:
            return
        ok = unk = 0
        for case in cases:
            this, given = case["this"], case["given"]
            want = ref(case)
            taken = self.at(this, given, case.get("env"))
            if not taken:
                unk += 1
                continue
            if all(o.kind == "X" for _, o in taken):
                self.ctx.bad(self.kind, self.f, self.f["line"], "%s throws %s for %s" % (what, taken[0][1].val[0], self.text(case)), key="%s|%s" % (self.kind, self.cls))
                return
            for k, w in want.items():
                gots = []
                for v, o in taken:
                    try:
                        got = observe(k, v, o) if o.kind != "X" else Bad("an exception")
                    except Outside as x:
                        got = Bad("outside " + str(x))
                    except Unknown:
                        got = None
                    gots.append(got)
                wrong = [g for g in gots if isinstance(g, Bad) or g is not None and not same(g, w)]
                if len(wrong) == len(gots):
                    self.ctx.bad(self.kind, self.f, self.f["line"], "%s: %s becomes %s instead of %s, for %s" % (what, k, brief(wrong[0]), brief(w), self.text(case)), key="%s|%s|%s" % (self.kind, self.cls, k))
                    return
                if wrong or any(g is None for g in gots):
                    unk += 1
                else:
                    ok += 1
        if ok:
            self.ctx.ok(self.kind, "%s: %d cases" % (what, len(cases)))
        if unk or not ok:
            self.ctx.skip(self.kind, self.f, "%s: %d values without closed form" % (what, unk))

    def text(self, case):
        d = dict(case["this"])
        d.update({k: v for k, v in case["given"].items() if not callable(v)})
        return ", ".join("%s=%s" % (k, v) for k, v in sorted(d.items()))[:260]


def member(n):
    return lambda v, o: v.ev(proj(getroot(o.st, ("THIS",)), (".", n)))


def path(o, *ns):
    t = getroot(o.st, ("THIS",))
    for n in ns:
        t = proj(t, (".", n))
    return t


def observe(k, v, o):
    if k == "origin":
        return v.ev(read(o.st, ORIG))
    if k == "candidate":
        return v.ev(read(o.st, CAND))
    if k == "iterator origin":
        return v.ev(read(o.st, CUR))
    if k == "moves":
        return [e.name for e in trace(o.st) if e.kind == "move" and e.name in ("keep", "forget", "propose")]
    if k == "evaluated":
        return [v.ev(e.x) for e in trace(o.st) if e.kind == "eval"]
    if k.startswith("population "):
        r = [v.ev(e.x) for e in trace(o.st) if e.kind == "popeval"]
        n = int(k.split()[-1])
        return r[n] if len(r) > n else Bad("nothing")
    if k == "evaluations of populations":
        return len([e for e in trace(o.st) if e.kind == "popeval"])
    if k.startswith("last argument of "):
        n = k[len("last argument of "):]
        r = [e.args[0] for e in trace(o.st) if e.kind == "move" and e.name == n]
        return v.ev(r[-1]) if r else Bad("nothing")
    return v.ev(path(o, *k.split(".")))


# ---------------------------------------------------------------- local search
def annealing(ctx):
    r = Run(ctx, "SimulatedAnnealing", "iterate")
    cases = []
    for x, c, s in ((1.0, 2.0, 3.0), (1.5, 2.0, 2.0), (2.0, 2.0, 3.0), (2.0, 2.0, 2.0), (3.0, 2.0, 2.5), (3.0, 2.0, 4.0), (0.5, 2.0, 2.0)):
        for u in (0.0, 0.3, 0.5, 0.62, 0.9):
            for beta, T, t in ((0.4, 3, 0), (0.4, 3, 2), (1.1, 3, 1), (1.1, 1, 0), (2.5, 2, 1)):
                cases.append({"this": {"_current_value": c, "_beta": beta, "_beta_ratio": 1.3, "_transitions": t, "_num_transitions": T, "_solution": {"first": "S", "second": s}},
                              "given": {"values": {"P0": x, "O": c, "S": s}, "uniform": u}})

    def ref(k):
        a, g = k["this"], k["given"]
        x, c = g["values"]["P0"], a["_current_value"]
        up = x >= c
        acc = up or g["uniform"] < math.exp((x - c) * a["_beta"])
        t = a["_transitions"] + (acc and not up)
        cool = t == a["_num_transitions"]
        s = a["_solution"]["second"]
        w = {"evaluated": ["P0"], "origin": "P0" if acc else "O", "_current_value": x if acc else c, "_transitions": 0 if cool else t,
             "_beta": a["_beta"] * 1.3 if cool else a["_beta"], "_solution.second": max(x, s)}
        if x != s:
            w["_solution.first"] = "P0" if x > s else "S"
        return w
    r.table(cases, ref, observe, "simulated annealing")
    annealing_start(ctx)


def climbing(ctx):
    r = Run(ctx, "FirstAscentHillClimbing", "iterate")
    cases = [{"this": {"_solution": {"first": "O", "second": 2}, "_last_iteration": 0},
              "given": {"count": len(vs), "values": dict([(("O", i), x) for i, x in enumerate(vs)] + [("O", 2)])}}
             for n in (1, 2, 3) for vs in itertools.product((1, 2, 3, 4), repeat=n)]

    def ref(k):
        g = k["given"]
        for i in range(g["count"]):
            x = g["values"]["O", i]
            if x > 2:
                return {"_solution.first": ("O", i), "_solution.second": x, "_last_iteration": 0, "iterator origin": ("O", i)}
        return {"_solution.first": "O", "_solution.second": 2, "_last_iteration": 1}
    r.table(cases, ref, observe, "first ascent")
    steepest(ctx)
    for cls in ("FirstAscentHillClimbing", "SteepestAscentHillClimbing"):
        restarted(ctx, A + cls)


def reached(ctx, f, cls, names, depth=3, seen=None):
    """names called from f, through methods of the algorithm and functions of the library"""
    seen = set() if seen is None else seen
    out = set()
    if f is None or f["id"] in seen or not f.get("body"):
        return out
    seen.add(f["id"])
    for n in nodes(f, "call"):
        q = n.get("q") or ""
        nm = q.rpartition("::")[2]
        if nm in names and ("Iterator" in q or "Neighborhood" in q or "neighborhood" in q):
            out.add(nm)
        elif depth and q.startswith("hnco::algorithm"):
            out |= reached(ctx, ctx.p.find_method(cls, nm) or ctx.p.functions.get(n.get("id")), cls, names, depth - 1, seen)
    return out


def restarted(ctx, cls):
    """each step visits the neighbors from the first one on"""
    f = ctx.p.find_method(cls, "iterate", nparams=0)
    if f is None or not f.get("body"):
        return
    its = reached(ctx, f, cls, ("init", "set_origin", "next", "has_next"))
    if "next" not in its:
        ctx.skip("step", f, "the neighbors are not visited by an iterator")
        return
    fin = reached(ctx, ctx.p.find_method(cls, "finalize", nparams=0), cls, ("init",))
    ctx.check("init" in its or "init" in fin, "step", f, f["line"], "the iterator over the neighbors is never started again: a step continues where the previous one stopped")
    if cls.endswith("SteepestAscentHillClimbing"):
        ctx.check("set_origin" in its, "step", f, f["line"], "the neighbors of the chosen solution are never visited: the origin of the iterator is not set")


def rls(ctx):
    r = Run(ctx, "RandomLocalSearch", "iterate")
    cases = []
    ge, gt = (lambda a, b: a >= b), (lambda a, b: a > b)
    for x in (1, 2, 3):
        for better in (ge, gt):
            for p, f in ((0, 0), (0, 5), (-1, 2), (3, 0), (3, 1), (3, 2), (1, 0)):
                for inc, pro in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    cases.append({"this": {"_solution": {"first": "S", "second": 2}, "_num_failures": f, "_patience": p, "_last_iteration": 0, "_incremental_evaluation": inc},
                                  "given": {"values": {"P0": x, "O": 2}, "better": better, "provides": pro}})

    def ref(k):
        a, g = k["this"], k["given"]
        x = g["values"]["P0"]
        acc = g["better"](x, 2)
        f = 0 if acc else a["_num_failures"] + 1
        last = a["_patience"] > 0 and f == a["_patience"]
        w = {"evaluated": ["P0"], "origin": "P0" if acc else "O", "_solution.second": x if acc else 2, "_last_iteration": int(last)}
        if a["_patience"] > 0:
            w["_num_failures"] = f
        if last:
            w["_solution.first"] = w["origin"]
        return w
    r.table(cases, ref, observe, "random local search")
    r = Run(ctx, "RandomWalk", "iterate")
    cases = [{"this": {"_solution": {"first": "S", "second": s}, "_value": 2, "_incremental_evaluation": inc}, "given": {"values": {"P0": x, "O": 2}, "provides": pro}}
             for x in (1, 2, 3) for s in (2, 3) for inc in (0, 1) for pro in (0, 1)]
    r.table(cases, lambda k: {"evaluated": ["P0"], "origin": "P0", "_value": k["given"]["values"]["P0"], "_solution.second": max(k["given"]["values"]["P0"], k["this"]["_solution"]["second"])}, observe, "random walk")


def starts(ctx):
    for cls in ("RandomLocalSearch", "RandomWalk", "FirstAscentHillClimbing", "SteepestAscentHillClimbing"):
        r = Run(ctx, cls, "init")
        cases = [{"this": {"_random_initialization": k, "_starting_point": "X", "_solution": {"first": "S", "second": 5}, "_num_failures": 7, "_value": 9}, "given": {"values": {"R": 3, "X": 4}}} for k in (0, 1)]

        def ref(k):
            x, y = ("R", 3) if k["this"]["_random_initialization"] else ("X", 4)
            w = {"_solution.first": x, "_solution.second": y}
            w["iterator origin" if "HillClimbing" in cls else "origin"] = x
            if cls == "RandomLocalSearch":
                w["_num_failures"] = 0
            if cls == "RandomWalk":
                w["_value"] = y
            return w
        r.table(cases, ref, observe, "start of " + cls)


def self_adjusting(ctx):
    r = Run(ctx, "SelfAdjustingOnePlusOneEa", "iterate")
    cases = []
    for x in (1, 2, 3):
        for rate in (0.01, 0.02, 0.2, 0.45, 0.5):
            for inc, pro in ((0, 0), (1, 1), (1, 0)):
                cases.append({"this": {"_solution": {"first": "S", "second": 2}, "_mutation_rate": rate, "_mutation_rate_min": 0.01, "_mutation_rate_max": 0.5, "_coefficient": 1.25, "_update_strength": 1.5, "_incremental_evaluation": inc},
                              "given": {"values": {"P0": x, "O": 2}, "provides": pro}})

    def ref(k):
        a, x = k["this"], k["given"]["values"]["P0"]
        acc = x >= 2
        rate = min(a["_mutation_rate"] * 1.25, 0.5) if acc else max(a["_mutation_rate"] / 1.5, 0.01)
        return {"evaluated": ["P0"], "origin": "P0" if acc else "O", "_solution.second": x if acc else 2, "_mutation_rate": rate, "last argument of set_mutation_rate": rate}
    r.table(cases, ref, observe, "self-adjusting (1+1)")
    r = Run(ctx, "SelfAdjustingOnePlusOneEa", "init")
    cases = [{"this": {"_mutation_rate": 0.4, "_mutation_rate_init": 0.1, "_update_strength": st, "_success_ratio": q, "_coefficient": 9.0, "_solution": {"first": "S", "second": 5}}, "given": {"values": {"R": 3}}} for st in (1.5, 2.0) for q in (0.2, 3.0)]
    r.table(cases, lambda k: {"_mutation_rate": 0.1, "_coefficient": k["this"]["_update_strength"] ** k["this"]["_success_ratio"], "last argument of set_mutation_rate": 0.1, "origin": "R", "_solution.first": "R", "_solution.second": 3}, observe, "self-adjusting (1+1) start")


def annealing_start(ctx):
    r = Run(ctx, "SimulatedAnnealing", "init_beta", model=Opaque("update_solution", "set_solution"))
    cases = []
    for tr in ([(5, 3)], [(5, 3), (3, 4)], [(3, 4), (5, 4), (6, 2)], [(4, 4), (5, 1), (3, 2), (7, 9)]):
        cases.append({"this": {"_num_trials": len(tr), "_initial_acceptance_probability": 0.6, "_beta": 7.0, "_solution": {"first": "S", "second": 100}}, "given": {"values": {"S": 100}, "trials": tr}})

    def ref(k):
        ds = [b - a for a, b in k["given"]["trials"] if b < a]
        return {"_beta": math.log(0.6) / (sum(ds) / len(ds))}
    r.table(cases, ref, observe, "initial temperature")
    r = Run(ctx, "SimulatedAnnealing", "init", model=Opaque("init_beta"))
    cases = [{"this": {"_random_initialization": k, "_starting_point": "X", "_transitions": 3, "_current_value": 9, "_solution": {"first": "S", "second": 5}}, "given": {"values": {"R": 3, "X": 4}}} for k in (0, 1)]
    r.table(cases, lambda k: {"_transitions": 0, "origin": "R" if k["this"]["_random_initialization"] else "X", "_current_value": 3 if k["this"]["_random_initialization"] else 4}, observe, "start of simulated annealing")


def Opaque(*names):
    class M(Step):
        def inline(self, eng, e, g, ol):
            return lastname(g["q"]) not in names and Step.inline(self, eng, e, g, ol)

        def on_call(self, eng, e, st, q, g, ol, args):
            if lastname(q) in names and q.startswith(A):
                return [(st, mk("void"))]
            return Step.on_call(self, eng, e, st, q, g, ol, args)
    return M


def steepest(ctx):
    """the candidates kept while the neighbors are visited all have the best value: at the start, after each neighbor, and at the end"""
    r = Run(ctx, "SteepestAscentHillClimbing", "iterate")
    if not r.outs:
        return
    f, n = r.f, 0
    for o in r.outs:
        if o.kind not in ("R", "N"):
            continue
        sec, first = path(o, "_solution", "second"), path(o, "_solution", "first")
        if sec is mk("fld", mk("fld", initv(("THIS",)), "_solution"), "second"):
            continue
        if not (sec.op == "hv" and first.op == "sel" and first.a[0].op == "hv" and first.a[1].op == "D" and first.a[1].a[2].op == "ctor"):
            ctx.skip("step", f, "steepest ascent is not in the expected form")
            return
        X, arr, dist = sec, first.a[0], first.a[1].a[2]
        L = r.by[o].get(X.a[0])
        lo, hi = dist.a[1], dist.a[2] if len(dist.a) > 2 else None
        hvs = [x for x in subterms(hi) if x.op == "hv" and x.a[0] == X.a[0]] if isinstance(hi, T) else []
        if L is not None and isinstance(hi, T) and not any(x.op == "hv" for x in subterms(hi)):
            ctx.bad("step", f, f["line"], "steepest ascent: the choice among the best neighbors, up to %s, does not depend on how many there are" % show(hi), key="step|steepest|range")
            return
        if L is None or len(set(hvs)) != 1:
            ctx.skip("step", f, "steepest ascent is not in the expected form")
            return
        k = hvs[0]
        for best, cur, m in itertools.product((1, 2, 3), (2,), (1, 2, 3)):
            this = {"_solution": {"first": "O", "second": cur}, "_last_iteration": 0, "_candidates": ["c"] * 4}
            for d in range(m):
                env = {X: best, k: m, arr: ["c0", "c1", "c2", "c3"], L.ivs[0][0] if L.ivs else X: 5}
                env[X] = best
                tk = r.at(this, {"values": {}, "count": 5, "uniform_int_distribution": d}, env, True)
                for v, p in tk:
                    want = {"_solution.first": "c%d" % d, "_solution.second": best, "_last_iteration": 0, "iterator origin": "c%d" % d} if best > cur else {"_solution.first": "O", "_solution.second": cur, "_last_iteration": 1}
                    for q, w in want.items():
                        try:
                            got = observe(q, v, p)
                        except Unknown:
                            continue
                        n += 1
                        if not same(got, w):
                            ctx.bad("step", f, f["line"], "steepest ascent: %s becomes %s instead of %s when the best neighbors have value %s, the current solution %s" % (q, brief(got), brief(w), best, cur), key="step|steepest|" + q)
                            return
                    try:
                        rg = (v.ev(lo), v.ev(hi))
                        if best > cur and rg != (0, m - 1):
                            ctx.bad("step", f, f["line"], "steepest ascent: one of candidates %s..%s is chosen, out of %d" % (rg[0], rg[1], m), key="step|steepest|range")
                            return
                    except Unknown:
                        pass
        # one more neighbor
        pos = [x for x, _, _ in L.ivs if x.a[1] == POS[0]]
        for best, m, x in itertools.product((2,), (1, 2, 3), (1, 2, 3)):
            env = {X: best, k: m, arr: ["c0", "c1", "c2", "c3"][:3], initv(CUR[0]): "O", initv(("THIS",)): {"_candidates": ["c"] * 3}}
            for p in pos:
                env[p] = 1
            vals = {("O", 1): x, "c0": best, "c1": best, "c2": best}
            for b in L.bodies:
                v = Tags(r.eng, r.by[o], env, {"values": vals, "count": 5})
                if b.kind not in ("N", "C") or not v.holds([(d, iv) for d, iv in b.st.facts.items() if L.head.facts.get(d) != iv]):
                    continue
                try:
                    B, M, Arr = [v.ev(read(b.st, (t.a[1], t.a[2]))) for t in (X, k, arr)]
                except Outside as y:
                    ctx.bad("step", f, f["line"], "steepest ascent: %s, with %d candidates" % (y, m), key="step|steepest|outside")
                    return
                except Unknown:
                    continue
                n += 1
                if not good(vals, max(best, x), B, M, Arr):
                    ctx.bad("step", f, f["line"], "steepest ascent: after a neighbor of value %s, with %d candidates of value %s, the best value is %s and the candidates are %s" % (x, m, best, B, brief(Arr[:M])), key="step|steepest|step")
                    return
        # the first neighbor
        env = {initv(CUR[0]): "O", initv(("THIS",)): {"_candidates": ["c", "c"]}}
        vals = {("O", 0): 2, "c": 0}
        v = Tags(r.eng, {}, env, {"values": vals, "count": 5})
        try:
            B, M, Arr = [v.ev(read(L.entry, (t.a[1], t.a[2]))) for t in (X, k, arr)]
            n += 1
            if M and not good(vals, 2, B, M, Arr):
                ctx.bad("step", f, f["line"], "steepest ascent: after the first neighbor, of value 2, the best value is %s and the candidates are %s" % (B, brief(Arr[:M])), key="step|steepest|first")
                return
        except Unknown:
            pass
    if n:
        ctx.ok("step", "steepest ascent: %d cases" % n)
    else:
        ctx.skip("step", f, "steepest ascent is not in the expected form")


def good(vals, best, B, M, arr):
    return B == best and 1 <= M <= len(arr) and all(vals.get(c) == best for c in arr[:M])


# ---------------------------------------------------------------- populations
def mutation(parents):
    return lambda k: {"population 0": [("mutated", "rate", "b%d" % k["given"]["uniform_int_distribution"])] * k["given"]["size"]["_offsprings"], "evaluations of populations": 1}


def evolutionary(ctx):
    for cls in ("MuPlusLambdaEa", "MuCommaLambdaEa"):
        r = Run(ctx, cls, "iterate")
        cases = [{"this": {"_solution": {"first": "S", "second": 2}, "_functions": ["f"] * nf, "_parents": {"bvs": ["b0", "b1", "b2"]}, "_offsprings": {"bvs": ["o%d" % i for i in range(lam)]}},
                  "given": {"values": {}, "each": ("mut", "D"), "uniform_int_distribution": d, "size": {"_offsprings": lam, "_parents": 3}, "ranked": {("_parents", 0): [x, 1, 1]}, "index": {}}}
                 for nf in (1, 2) for lam in (1, 4) for d in (0, 2) for x in (1, 3)]

        def ref(k):
            x = k["given"]["ranked"]["_parents", 0][0]
            lam = k["given"]["size"]["_offsprings"]
            return {"population 0": [("mutated", "rate", "b%d" % k["given"]["uniform_int_distribution"])] * lam, "evaluations of populations": 1,
                    "_solution.second": max(2, x), "_solution.first": "best0._parents0" if x > 2 else "S"}
        r.table(cases, ref, observe, cls)
        rates(ctx, cls)
    r = Run(ctx, "GeneticAlgorithm", "iterate")
    cases = [{"this": {"_solution": {"first": "S", "second": 2}, "_functions": ["f"] * nf, "_parents": {"bvs": ["b0", "b1", "b2"]}, "_offsprings": {"bvs": ["o%d" % i for i in range(lam)]}},
              "given": {"values": {}, "each": ("mut", "cross", "pick", "D"), "bernoulli_distribution": d, "size": {"_offsprings": lam, "_parents": 3}, "ranked": {("_parents", 0): [x, 1, 1]}, "index": {}}}
             for nf in (1, 2) for lam in (1, 4) for d in (0, 1) for x in (1, 3)]

    def ref(k):
        x = k["given"]["ranked"]["_parents", 0][0]
        lam = k["given"]["size"]["_offsprings"]
        return {"population 0": [("mutated", "rate", ("crossed", "W", "W") if k["given"]["bernoulli_distribution"] else "W")] * lam, "evaluations of populations": 1,
                "_solution.second": max(2, x), "_solution.first": "best0._parents0" if x > 2 else "S"}
    r.table(cases, ref, observe, "genetic algorithm")
    rates(ctx, "GeneticAlgorithm")
    two_rate(ctx)
    lambda_lambda(ctx)


def lambda_lambda(ctx):
    r = Run(ctx, "OnePlusLambdaCommaLambdaGa", "iterate")
    cases = []
    for vs, ws in (([5], [2]), ([5], [1]), ([5], [3]), ([5, 5], [3, 3]), ([5, 4], [3, 1]), ([5, 4], [1, 1]), ([5, 5, 4], [2, 2, 1]), ([5, 4, 4], [7, 7, 7]), ([5, 5, 5], [4, 3, 3])):
        for d in ("low", "high"):
            cases.append({"this": {"_solution": {"first": "S", "second": 2}, "_functions": ["f"], "_parent": "Q", "_radius_dist": "rd", "_offsprings": {"bvs": ["o"] * len(vs)}},
                          "given": {"values": {}, "uniform_int_distribution": d, "binomial_distribution": 3, "size": {"_offsprings": len(vs)}, "ranked": {("_offsprings", 1): vs, ("_offsprings", 2): ws}, "index": {}}})

    def ref(k):
        g = k["given"]
        vs, ws = g["ranked"]["_offsprings", 1], g["ranked"]["_offsprings", 2]
        pick = lambda zs: 0 if g["uniform_int_distribution"] == "low" else zs.count(zs[0]) - 1
        up = ws[0] >= 2
        return {"population 0": [("mutated", 3, "S")] * len(vs), "population 1": [("crossed", "S", "best%d._offsprings1" % pick(vs))] * len(vs), "evaluations of populations": 2,
                "_solution.second": ws[0] if up else 2, "_solution.first": "best%d._offsprings2" % pick(ws) if up else "S"}
    r.table(cases, ref, observe, "(1+(lambda,lambda))")


# ---------------------------------------------------------------- information-theoretic EA
class ItEa(Step):
    """masks and weights as terms; the updates as events"""
    helpers = ("compute_masks", "ml_update", "incremental_ml_update", "igo_update")
    opaque = ()

    def inline(self, eng, e, g, ol):
        return lastname(g["q"]) not in self.opaque + ("bv_add", "bv_hamming_weight") and Step.inline(self, eng, e, g, ol)

    def on_call(self, eng, e, st, q, g, ol, args):
        nm = lastname(q)
        if nm in self.opaque and q.startswith(A):
            return [(eng.event(st, "helper", e, name=nm, args=[val(st, a) for a in args], center=proj(proj(getroot(st, ("THIS",)), (".", "_center")), (".", "first"))), mk("void"))]
        if q == "hnco::bv_add" and len(args) == 3 and isinstance(args[0], tuple):
            return [(write(st, args[0][1], mk("xor", val(st, args[1]), val(st, args[2]))), mk("void"))]
        if q == "hnco::bv_hamming_weight" and len(args) == 1:
            return [(st, typed(mk("weight", val(st, args[0])), "int"))]
        if nm == "get_equivalent_bvs" and ol is not None and ol[1]:
            name = ol[1][-1][1]
            gen = read(st, (("G", "gen." + name), ()))
            return [(st, mk("eqr", name, C(0) if gen.op == "init" else gen, val(st, args[0])))]
        if nm == "bit_random" and len(args) == 1:
            return [(st, typed(mk("U", "bit", self.draw(eng, e)), "int"))]
        return Step.on_call(self, eng, e, st, q, g, ol, args)


class ItEaStep(ItEa):
    opaque = ItEa.helpers


def information(ctx):
    modes = {lastname(c["n"]): int(c["v"]) for c in enumerators(ctx, A + "InformationTheoreticEa::Replacement::")}
    r = Run(ctx, "InformationTheoreticEa", "iterate", model=ItEaStep)
    cases = []
    for mode, i in modes.items():
        for vs in ([5, 4, 3, 2], [5, 5, 5, 3], [5, 4, 4, 4], [2, 2, 2, 2], [1, 1, 0, 0]):
            for mu in (1, 2, 3):
                cases.append({"this": {"_solution": {"first": "S", "second": 4}, "_center": {"first": "O", "second": 2}, "_functions": ["f"], "_replacement": i, "_mutation_rate": 0.2, "_selection_size": mu, "_population": {"bvs": ["o"] * 4}},
                              "given": {"values": {}, "size": {"_population": 4}, "ranked": {("_population", 1): vs}, "index": {}}, "mode": mode})

    def ref(k):
        a, mode = k["this"], k["mode"]
        vs, mu = k["given"]["ranked"]["_population", 1], a["_selection_size"]
        moved = mode == "non_elitist" or mode == "elitist" and vs[0] >= 2
        same_ = vs[mu - 1] == vs[mu]
        lo, hi = vs.index(vs[mu - 1]), 4 - vs[::-1].index(vs[mu - 1])
        arg = (lo, hi, (mu - lo) / (hi - lo)) if same_ else None
        w = {"population 0": [("mutated", 0.2, "O")] * 4, "_center.first": "best0._population1" if moved else "O", "_center.second": vs[0] if moved else 2,
             "_solution.second": max(4, vs[0]), "_solution.first": "best0._population1" if vs[0] > 4 else "S"}
        hs = [("compute_masks", "O")] + ([(mode, "O")] if mode.endswith("ml_update") else []) + [("igo_update", w["_center.first"])]
        w["updates"] = [(n, int(same_), arg) for n, _ in hs]
        w["center of the masks"] = "O"
        return w

    def look(k, v, o):
        hs = [e for e in trace(o.st) if e.kind == "helper"]
        if k == "updates":
            return [(h.name, v.ev(h.args[0]), (v.ev(proj(h.args[1], (".", "first"))), v.ev(proj(h.args[1], (".", "second"))), float(v.ev(h.args[2]))) if v.ev(h.args[0]) else None) for h in hs]
        if k == "center of the masks":
            return v.ev([h for h in hs if h.name == "compute_masks"][0].center)
        return observe(k, v, o)
    r.table(cases, ref, look, "information-theoretic EA")
    ranges = [(0, (0, 0), 0), (1, (0, 3), 2.0 / 3), (1, (1, 3), 0.5), (1, (1, 4), 1.0 / 3)]
    bits = [[1, 0, 1], [0, 0, 1], [1, 1, 1], [0, 1, 0]]
    x = lambda a, b: [p ^ q for p, q in zip(a, b)]
    r = Run(ctx, "InformationTheoreticEa", "compute_masks", model=ItEa)
    cases = [{"this": {"_center": {"first": c, "second": 2}, "_selection_size": 2, "_masks": [[0] * 3 for _ in range(4)], "_population": {"bvs": bits}, "_solution": {"first": c, "second": 2}},
              "given": dict(values={}, bits={("_population", 0): bits}, size={"_population": 4}, **params(ctx, r, eq, rg, c2))}
             for eq, rg, c2 in ranges for c in ([0, 0, 1], [1, 1, 0])]
    if r.outs:
        def masks(k, v, o):
            return v.ev(path(o, "_masks"))[:k]
        r.table(cases, lambda k: {k["given"]["masks"]: [x(k["this"]["_center"]["first"], b) for b in bits[:k["given"]["masks"]]]}, masks, "masks")
    r = Run(ctx, "InformationTheoreticEa", "igo_update", model=ItEa)
    cases = [{"this": {"_selection_size": 2, "_masks": bits, "_mutation_rate": rate, "_mutation_rate_min": 0.1, "_mutation_rate_max": 0.6, "_learning_rate": lr, "_solution": {"first": [0, 0, 0], "second": 2}},
              "given": dict(values={}, weights=1, **params(ctx, r, eq, rg, c2))}
             for eq, rg, c2 in ranges for rate in (0.1, 0.3, 0.5) for lr in (0.1, 1.0, 3.0)]

    def ref2(k):
        g, a = k["given"], k["this"]
        ws = [sum(b) for b in bits]
        t = sum(c * w for c, w in zip(coefficients(g), ws)) / (2 * 3.0)
        return {"_mutation_rate": min(max(a["_mutation_rate"] + a["_learning_rate"] * (t - a["_mutation_rate"]), 0.1), 0.6)}
    r.table(cases, ref2, observe, "mutation rate of the information-theoretic EA")

    class Likely(ItEa):
        opaque = ("update_solution",)
    r = Run(ctx, "InformationTheoreticEa", "ml_update", model=Likely)
    cases = [{"this": {"_center": {"first": [0, 1, 1], "second": 2}, "_selection_size": 2, "_likelihoods": [7.0] * 3, "_mutation_rate": rate, "_population": {"bvs": bits}, "_solution": {"first": [0, 0, 0], "second": 2}},
              "given": dict(values=Anything(), bit=d, bits={("_population", 0): bits}, size={"_population": 4}, **params(ctx, r, eq, rg, c2))}
             for eq, rg, c2 in ranges for rate in (0.2, 0.5, 0.7) for d in (0, 1)]

    def ref3(k):
        g, a = k["given"], k["this"]
        w = [sum(c * b[i] for c, b in zip(coefficients(g), bits)) for i in range(3)]
        if any(abs(2 * x - 2) < 1e-9 and x != 1 for x in w):
            return {}
        f = 1 if a["_mutation_rate"] < 0.5 else 0
        return {"_center.first": [g["bit"] if x == 1 else f if x > 1 else 1 - f for x in w]}
    r.table(cases, ref3, observe, "maximum likelihood center")

    class Sampled(Likely):
        def inline(self, eng, e, g, ol):
            return lastname(g["q"]) != "sample_from_arg" and Likely.inline(self, eng, e, g, ol)

        def on_call(self, eng, e, st, q, g, ol, args):
            if lastname(q) == "sample_from_arg" and len(args) == 2:
                return [(st, typed(mk("argof", *[val(st, a) for a in args]), "int"))]
            return Likely.on_call(self, eng, e, st, q, g, ol, args)
    r = Run(ctx, "InformationTheoreticEa", "incremental_ml_update", model=Sampled)
    cases = [{"this": {"_center": {"first": [0, 1, 1], "second": 2}, "_selection_size": mu, "_likelihoods": [7.0] * 3, "_mutation_rate": rate, "_masks": ms, "_solution": {"first": [0, 0, 0], "second": 2}},
              "given": dict(values=Anything(), bernoulli=d, **params(ctx, r, eq, rg, c2))}
             for eq, rg, c2 in ranges for rate in (0.2, 0.5, 0.7) for d in (0, 1) for mu in (2, 3) for ms in (bits, [[1, 0, 0], [1, 0, 1], [1, 0, 1], [1, 1, 1]], [[0, 1, 0], [0, 1, 1], [0, 0, 0], [0, 0, 0]], [[0, 0, 1], [0, 1, 1], [0, 1, 1], [0, 1, 1]])]

    def ref4(k):
        g, a = k["given"], k["this"]
        cs = coefficients(g) if g["case"][0] else [1.0] * a["_selection_size"]
        w = [sum(c * b[i] for c, b in zip(cs, a["_masks"])) for i in range(3)]
        low = a["_mutation_rate"] < 0.5
        z = max(w) if low else min(w)
        if len([x for x in w if abs(x - z) < 1e-9]) > 1 or 0 < abs(2 * z - a["_selection_size"]) < 1e-9:
            return {}
        d = 2 * z - a["_selection_size"]
        flip = g["bernoulli"] if d == 0 else (d > 0) == low
        c = list(a["_center"]["first"])
        c[w.index(z)] ^= int(flip)
        return {"_center.first": c}
    r.table(cases, ref4, observe, "incremental maximum likelihood center")


class Anything(dict):
    def __contains__(self, x):
        return True

    def __missing__(self, x):
        return 1.0


def coefficients(g):
    eq, (lo, hi), c = g["case"]
    return [1.0, 1.0] if not eq else [1.0] * lo + [c] * (hi - lo)


def params(ctx, r, eq, rg, c):
    d = {"case": (eq, rg, c), "masks": rg[1] if eq else 2}
    if r.outs:
        for n, v in zip([p["n"] for p in r.f["ps"]], (eq, {"first": rg[0], "second": rg[1]}, c)):
            d[n] = v
    return d


def enumerators(ctx, scope):
    return [c for e in ctx.p.enums.values() for c in e["cs"] if c["n"].startswith(scope)]


def rates(ctx, cls):
    r = Run(ctx, cls, "init", model=Opaque("set_tournament_size"))
    cases = [{"this": {"_mutation_rate": 0.3, "_solution": {"first": "S", "second": 2}, "_parents": {"bvs": ["b0", "b1", "b2"]}},
              "given": {"values": {"R": 3}, "size": {"_parents": 3}, "ranked": {("_parents", 1): [4, 3, 2], ("_parents", 0): [4, 3, 2]}, "index": {}}}]
    r.table(cases, lambda k: {"last argument of set_mutation_rate": 0.3, "_parents.bvs": ["R"] * 3}, observe, "start of " + cls)
    if cls == "GeneticAlgorithm":
        for c in cases:
            c["this"]["_crossover_probability"] = 0.7

        def look(k, v, o):
            t = path(o, "_do_crossover")
            if t.op != "ctor" or len(t.a) != 2:
                raise Unknown("distribution")
            return v.ev(t.a[1])
        r.table(cases, lambda k: {"crossover probability": 0.7}, look, "crossover probability of " + cls)
    if cls.startswith("Mu"):
        choice(ctx, cls)


def choice(ctx, cls):
    """a parent is any of the mu parents"""
    for f in list(ctx.p.functions.values()):
        if f.get("cls") == A + cls and f.get("ctor") and [p["n"] for p in f["ps"]][1:2] == ["mu"]:
            r = Run(ctx, cls, f)

            def look(k, v, o):
                t = path(o, "_select_parent")
                if t.op != "ctor" or len(t.a) != 3:
                    raise Unknown("distribution")
                return [v.ev(t.a[1]), v.ev(t.a[2])]
            r.table([{"this": {}, "given": {"values": {}, f["ps"][0]["n"]: 7, "mu": mu, f["ps"][2]["n"]: 9, "size": {"_parents": mu, "_offsprings": 9}}} for mu in (1, 2, 5)], lambda k: {"range of the choice of a parent": [0, k["given"]["mu"] - 1]}, look, "choice of a parent in " + cls)


def two_rate(ctx):
    r = Run(ctx, "TwoRateOnePlusLambdaEa", "iterate")
    cases = []
    for lam in (1, 2, 5):
        for idx in range(lam):
            for u in (0.0, 0.1, 0.25, 0.3, 0.5, 0.7):
                for rate in (0.02, 0.04, 0.2, 0.3, 0.5):
                    for x in (1, 3):
                        cases.append({"this": {"_solution": {"first": "S", "second": 2}, "_functions": ["f"], "_mutation_rate": rate, "_mutation_rate_min": 0.015, "_mutation_rate_max": 0.5, "_population": {"bvs": ["o"] * lam}},
                                      "given": {"values": {}, "uniform": u, "size": {"_population": lam}, "ranked": {("_population", 1): [x] * lam}, "index": {("_population", 1): [idx] * lam}}})

    def ref(k):
        rate, g = k["this"]["_mutation_rate"], k["given"]
        lam, u = g["size"]["_population"], g["uniform"]
        low, high, mid = rate / 2, rate * 2, lam // 2
        new = low if u < 0.25 or u >= 0.5 and g["index"]["_population", 1][0] < mid else high
        x = g["ranked"]["_population", 1][0]
        return {"population 0": [("mutated", low if i < mid else high, "S") for i in range(lam)], "_mutation_rate": min(max(new, 0.015), 0.5), "evaluations of populations": 1,
                "_solution.second": max(2, x), "_solution.first": "best0._population1" if x > 2 else "S"}
    r.table(cases, ref, observe, "two-rate (1+lambda)")
    r = Run(ctx, "TwoRateOnePlusLambdaEa", "init")
    r.table([{"this": {"_mutation_rate": 0.3, "_mutation_rate_init": 0.1, "_solution": {"first": "S", "second": 2}}, "given": {"values": {"R": 3}}}],
            lambda k: {"_mutation_rate": 0.1, "_solution.first": "R", "_solution.second": 3}, observe, "start of two-rate (1+lambda)")


# ---------------------------------------------------------------- exhaustive and random search, restarts
RUNS, ENDS = (("G", "runs"), ()), (("G", "ends"), ())


class Restarts(Step):
    def on_call(self, eng, e, st, q, g, ol, args):
        nm = lastname(q)
        if q.startswith(A) and ol is not None and ol[0] != ("THIS",) or q.startswith(A) and ol is not None and ol[1]:
            for n, loc in (("maximize", RUNS), ("finalize", ENDS)):
                if nm == n:
                    return [(write(st, loc, typed(add(typed(read(st, loc), "int"), C(1)), "int")), mk("void"))]
            if nm == "get_solution" and not args:
                t = mk("updf", mk("updf", mk("none"), "first", mk("found", "bv")), "second", typed(mk("found", "value"), "double"))
                return [(st, t)]
        return Step.on_call(self, eng, e, st, q, g, ol, args)


def exhaustive(ctx):
    r = Run(ctx, "RandomSearch", "iterate")
    r.table([{"this": {"_solution": {"first": "S", "second": 2}, "_candidate": "K"}, "given": {"values": {"R": x, "S": 2, "K": 9}}} for x in (1, 2, 3)],
            lambda k: {"evaluated": ["R"], "_solution.second": max(2, k["given"]["values"]["R"])}, observe, "random search")
    for o in r.outs or ():
        if o.kind in ("R", "N") and not any(e.kind == "eval" and e.x.op == "rbv" for e in trace(o.st)):
            ctx.bad("step", r.f, r.f["line"], "random search: no new random bit vector is evaluated on some path", key="step|random")
            break
    r = Run(ctx, "InformationTheoreticEa", "init")
    r.table([{"this": {"_solution": {"first": "S", "second": 2}, "_center": {"first": "K", "second": 9}, "_mutation_rate": 0.4, "_mutation_rate_init": 0.1, "_replacement": m, "_initial_hamming_weight": 5}, "given": {"values": {"R": 3, "R5": 4}}} for m in range(5)],
            lambda k: {"_center.first": "R5" if k["this"]["_replacement"] == 4 else "R", "_center.second": 4 if k["this"]["_replacement"] == 4 else 3, "_mutation_rate": 0.1, "_solution.second": 4 if k["this"]["_replacement"] == 4 else 3}, observe, "start of the information-theoretic EA")
    complete(ctx)
    restarts(ctx)


def complete(ctx):
    r = Run(ctx, "CompleteSearch", "maximize")
    if not r.outs:
        return
    f, n = r.f, 0
    pos0 = initv(POS[0])
    for o in r.outs:
        if o.kind == "X":
            continue
        for e in trace(o.st):
            for b in e.bodies if e.kind == "loop" else ():
                es = list(trace(b.st))
                lost = [k for k in es if k.kind == "next" and not any(j.kind == "eval" and j.x is k.x for j in es)]
                if lost and b.kind in ("N", "C"):
                    ctx.bad("step", f, lost[0].line if hasattr(lost[0], "line") else f["line"], "complete search visits a bit vector which it does not evaluate", key="complete|visit")
                    return
        seen, loops = [], 0
        for e in trace(o.st):
            if e.kind == "eval":
                if loops or e.x.op != "nbr":
                    seen = None
                    break
                seen.append(e.x.a[1])
            if e.kind == "loop":
                pos = [(x, i, s) for x, i, s in e.ivs if x.op == "hv" and x.a[1] == POS[0]]
                if not pos:
                    continue
                x, i, s = pos[0]
                loops += 1
                for b in e.bodies:
                    if b.kind not in ("N", "C"):
                        ctx.bad("step", f, f["line"], "complete search leaves the enumeration before its end", key="complete|leaves")
                        return
                    ev = [k.x for k in trace(b.st) if k.kind == "eval" and k not in list(trace(e.head))]
                    if [k.a[1] for k in ev if k.op == "nbr"] != [x] or s != 1:
                        ctx.bad("step", f, f["line"], "complete search evaluates %s in the iteration which visits %s" % (", ".join(show(k) for k in ev) or "nothing", show(mk("nbr", mk("sym", "origin"), x))), key="complete|skips")
                        return
                seen.append(i)
        if seen is None or loops != 1:
            ctx.skip("step", f, "complete search is not one loop over the hypercube")
            return
        v = Tags(r.eng, r.by[o], {pos0: 0}, {"values": {}})
        try:
            if [v.ev(x) for x in seen] != list(range(len(seen))):
                ctx.bad("step", f, f["line"], "complete search evaluates positions %s, then all" % ", ".join(show(x) for x in seen), key="complete|first")
                return
        except Unknown:
            ctx.skip("step", f, "first position of complete search")
            return
        n += 1
    if n:
        ctx.ok("step", "complete search: %d paths" % n)
    else:
        ctx.bad("step", f, f["line"], "complete search never returns", key="complete|none")


def restarts(ctx):
    for name in ("iterate", "maximize"):
        r = Run(ctx, "Restart", name, model=Restarts)
        if not r.outs:
            continue

        def look(k, v, o):
            if k in ("runs", "ends"):
                return v.ev(read(o.st, RUNS if k == "runs" else ENDS))
            return observe(k, v, o)
        env = {initv(RUNS[0]): 0, initv(ENDS[0]): 0}
        if name == "iterate" and len(r.f["ps"]) == 1:
            first = r.f["ps"][0]["n"]
            cases = [{"this": {"_solution": {"first": "S", "second": 2}, "_functions": ["f"], "_algorithm": "a"}, "given": {first: b, "bv": "F", "value": x, "values": {}}, "env": env} for b in (0, 1) for x in (1, 2, 3)]
            r.table(cases, lambda k: {"runs": 1, "ends": 1, "_solution.second": k["given"]["value"] if k["given"][first] or k["given"]["value"] > 2 else 2,
                                      "_solution.first": "F" if k["given"][first] or k["given"]["value"] > 2 else "S"}, look, "restart")
        if name == "maximize":
            cases = [{"this": {"_solution": {"first": "S", "second": 2}, "_functions": ["f"], "_algorithm": "a", "_num_iterations": n}, "given": {"bv": "F", "value": 3, "values": {}}, "env": env} for n in (1, 2, 5)]
            r.table(cases, lambda k: {"runs": k["this"]["_num_iterations"], "ends": k["this"]["_num_iterations"]}, look, "number of restarts")


@rule("P30", "paths of one iteration over unknown function values, draws and parameters; the state after the iteration compared with the definition",
      minimum={"obligations.step": 10})
def p30(ctx):
    annealing(ctx)
    climbing(ctx)
    rls(ctx)
    starts(ctx)
    self_adjusting(ctx)
    evolutionary(ctx)
    information(ctx)
    exhaustive(ctx)
