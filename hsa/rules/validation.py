"""P32: components refuse parameters they cannot work with, and accept the others."""
import itertools
import re
from ..core import rule
from ..q import *
from ..absint import TooComplex
from ..values import Values, Unknown, interval

F, A, M, MP = "hnco::function::", "hnco::algorithm::", "hnco::multiobjective::algorithm::", "hnco::map::"
SIZES = (-3, -1, 0, 1, 2, 3, 8, 9, 10, 16, 18)


def grid(names, *ranges):
    return [dict(zip(names, x)) for x in itertools.product(*ranges)]


def by_size(p, q):
    """sizes of two containers or populations (of one individual each when positive)"""
    return {r"size\(\*?%s(\.bvs)?\)" % p: p, r"size\(\*?%s(\.bvs)?\)" % q: q}


# class, method (None: constructors), parameters the constructor must have, [case], valid(case), {pattern of a term: name of its value}
SPEC = [
    (A + "Algorithm", None, ("n",), grid(("n",), SIZES), lambda c: c["n"] > 0, {}),
    (M + "Algorithm", None, ("n", "num_objectives"), grid(("n", "num_objectives"), SIZES[:6], SIZES[:6]), lambda c: c["n"] > 0 and c["num_objectives"] > 0, {}),
    (A + "Population", None, ("size", "n"), grid(("size", "n"), SIZES[:6], SIZES[:6]), lambda c: c["size"] > 0 and c["n"] > 0, {}),
    (M + "Population", None, ("population_size", "bv_size", "num_objectives"), grid(("population_size", "bv_size", "num_objectives"), (-1, 0, 1, 2), (-1, 0, 1, 2), (-1, 0, 1, 2)),
     lambda c: min(c.values()) > 0, {}),
    (F + "Jump", None, ("bv_size", "gap"), grid(("bv_size", "gap"), (8, 10), (-1, 0, 1, 2, 3)), lambda c: c["gap"] >= 1, {}),
    (F + "DeceptiveJump", None, ("bv_size", "gap"), grid(("bv_size", "gap"), (8, 10), (-1, 0, 1, 2, 3)), lambda c: c["gap"] >= 1, {}),
    (F + "LongPath", None, ("bv_size", "prefix_length"), grid(("bv_size", "prefix_length"), (6, 8, 9, 12), (1, 2, 3, 4)), lambda c: c["prefix_length"] >= 2 and c["bv_size"] % c["prefix_length"] == 0, {}),
    (F + "Trap", None, ("bv_size", "num_traps"), grid(("bv_size", "num_traps"), (6, 8, 9, 12, 13), (1, 2, 3, 4)), lambda c: c["bv_size"] % c["num_traps"] == 0, {}),
    (F + "SummationCancellation", None, ("n",), grid(("n",), (8, 9, 10, 12, 15, 17, 18, 19, 27)), lambda c: c["n"] % 9 == 0, {}),
    (F + "Hiff", None, ("bv_size",), grid(("bv_size",), (1, 2, 3, 4, 6, 8, 12, 16, 24)), lambda c: c["bv_size"] & (c["bv_size"] - 1) == 0, {r"call\(std::bitset<\d+>::count,ctor\(std::bitset<\d+>,bv_size\)\)": lambda c: bin(c["bv_size"]).count("1")}),
    (MP + "Injection", None, ("bit_positions", "output_size"), grid(("bit_positions", "output_size"), (1, 2, 3), (1, 2, 3, 4)), lambda c: c["output_size"] >= c["bit_positions"], by_size("bit_positions", "_")),
    (MP + "Projection", None, ("bit_positions", "input_size"), grid(("bit_positions", "input_size"), (1, 2, 3), (1, 2, 3, 4)), lambda c: c["input_size"] >= c["bit_positions"], by_size("bit_positions", "_")),
    (MP + "LinearMap", "random", ("rows", "cols", "surjective"), grid(("rows", "cols", "surjective"), (1, 2, 3), (1, 2, 3), (0, 1)), lambda c: not c["surjective"] or c["rows"] <= c["cols"], {}),
    (MP + "AffineMap", "random", ("rows", "cols", "surjective"), grid(("rows", "cols", "surjective"), (1, 2, 3), (1, 2, 3), (0, 1)), lambda c: not c["surjective"] or c["rows"] <= c["cols"], {}),
    (F + "modifier::FunctionMapComposition", None, ("function", "map"), grid(("function", "map"), (1, 2, 3), (1, 2, 3)), lambda c: c["function"] == c["map"],
     {r"call\(hnco::map::Map::get_output_size,\*map\)": "map", r"call\(hnco::function::Function::get_bv_size,\*function\)": "function"}),
    (A + "CommaSelection", None, ("parents", "offsprings"), grid(("parents", "offsprings"), (1, 2, 3), (1, 2, 3)), lambda c: c["offsprings"] >= c["parents"], by_size("parents", "offsprings")),
    (A + "Mimic", None, ("n", "population_size"), grid(("n", "population_size"), (0, 1, 4), (-1, 0, 1, 2, 3)), lambda c: c["n"] > 0 and c["population_size"] > 1, {}),
    (M + "TournamentSelection<double, std::greater<double>>", None, ("bvs", "values"), grid(("bvs", "values"), (1, 2, 3), (1, 2, 3)), lambda c: c["bvs"] == c["values"], by_size("bvs", "values")),
    (M + "TournamentSelection<double, std::greater<double>>", "set_tournament_size", ("n",), grid(("n", "size"), (-1, 0, 1, 2, 3, 4, 5), (4,)), lambda c: 2 <= c["n"] < c["size"], {r"size\(\*?this\._bvs\)": "size"}),
]


def positional(f, names):
    """parameter terms by the name the specification gives them: by position when the names differ"""
    return {names[i]: param(f, i) for i in range(min(len(names), len(f["ps"])))}


class Env(object):
    def __init__(self, f, names, pats):
        self.f, self.names = f, names
        self.params = positional(f, names)
        # patterns are written with the names of the specification
        self.rename = {q["n"]: n for q, n in zip(f["ps"], names)}
        self.pats = [(re.compile(p + r"\Z"), k) for p, k in pats.items()]
        self.memo = {}

    def name(self, t):
        """what the specification calls this term"""
        if t not in self.memo:
            s = show(t)
            for a, b in self.rename.items():
                if a != b:
                    s = re.sub(r"\b%s\b" % re.escape(a), b, s)
            self.memo[t] = next((k for p, k in self.pats if p.match(s)), None)
        return self.memo[t]

    def of(self, o, c):
        env = {}
        for d in o.st.facts:
            for x in subterms(d):
                for n, p in self.params.items():
                    if n in c and (x is p or x.op == p.op and x.a == p.a):
                        env[x] = c[n]
                k = self.name(x) if x.op in ("size", "call") else None
                if k is not None:
                    v = k(c) if callable(k) else c.get(k)
                    if v is not None:
                        env[x] = v
        return env


def possible(o, env):
    """(not excluded by a fact which can be evaluated, every fact on the parameters evaluated)"""
    known = True
    for d, iv in o.st.facts.items():
        try:
            if not interval(Values(None, {}, dict(env)).ev(d), iv):
                return False, True
        except (Unknown, ZeroDivisionError, TypeError, ValueError, KeyError):
            if not any(x.op in ("hv", "sel", "D") for x in subterms(d)) and not (d.op == "call" and "is_surjective" in str(d.a[0])):
                known = False
    return True, known


def judge(ctx, f, cls, outs, names, cases, valid, pats):
    e = Env(f, names, pats)
    ok = und = 0
    for c in cases:
        want = valid(c)
        rs = [possible(o, e.of(o, c)) for o in outs if o.kind in ("R", "N")]
        xs = [(possible(o, e.of(o, c)), o) for o in outs if o.kind == "X"]
        text = ", ".join("%s %s" % (k, v) for k, v in c.items())
        if want:
            if not any(p for p, _ in rs) and any(p and k for (p, k), _ in xs):
                ctx.bad("refused", f, f["line"], "%s refuses %s" % (f["q"], text), key="valid|%s|%s" % (cls, f["q"]))
                return
        else:
            if any(p and k for p, k in rs):
                ctx.bad("refused", f, f["line"], "%s accepts %s" % (f["q"], text), key="invalid|%s|%s" % (cls, f["q"]))
                return
            if any(p for p, _ in rs):
                und += 1
                continue
            wrong = [o for (p, k), o in xs if p and k and str(o.val[0]) != "std::runtime_error"]
            if wrong:
                ctx.bad("refused", f, f["line"], "%s refuses %s with %s, not std::runtime_error" % (f["q"], text, wrong[0].val[0]), key="type|%s|%s" % (cls, f["q"]))
                return
        ok += 1
    if ok:
        ctx.ok("refused", "%s: %d parameters" % (f["q"], ok))
    if und:
        ctx.skip("refused", f, "%d cases not evaluated" % und)


@rule("P32", "Abstract interpretation of every constructor and setter which is documented to refuse parameters, assertions ignored: the conditions of the paths which return and "
             "of those which throw, as terms over the parameters, are evaluated on both sides of each boundary of the documented domain.",
      minimum={"obligations.refused": 12},
      assumptions=["the domain of each parameter is the one documented or named in the message of the exception"])
def p32(ctx):
    for cls, name, names, cases, valid, pats in SPEC:
        if cls not in ctx.p.records:
            ctx.skip("refused", cls, "class not found")
            continue
        try:
            if name is None:
                todo = [(g, outs) for g, outs in ctor_state(ctx, cls, assume_asserts=False) if not g.get("implicit") and len(g["ps"]) == len(names)]
            else:
                f = ctx.p.find_method(cls, name, nparams=len(names))
                todo = [(f, outcomes(ctx, f, cls, assume_asserts=False, inline=lambda eng, e, g, ol: g["file"].endswith(("util.hh",)) or (g.get("cls") or "") in ctx.p.bases(cls) and not g["q"].endswith("is_surjective")))] if f is not None and f.get("body") else []
        except TooComplex as e:
            ctx.skip("refused", cls, str(e))
            continue
        if not todo:
            ctx.skip("refused", cls, "no constructor or method with parameters %s" % (names,))
        for f, outs in todo:
            judge(ctx, f, cls, outs, names, cases, valid, pats)
