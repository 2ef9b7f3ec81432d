"""P15: one seeded source of randomness."""
import re
from ..core import rule
from ..q import *
from ..callgraph import CallGraph, ordered
from ..effects import lastname

GEN = "hnco::random::Generator"
ENGINES = re.compile(r"^(const )?(std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|"
                     r"independent_bits_engine|shuffle_order_engine)\b|std::random_device\b|gsl_rng\b)")
STATEFUL = re.compile(r"^(const )?std::(normal|lognormal|gamma|chi_squared|fisher_f|student_t|binomial|negative_binomial|poisson)_distribution\b")
ENTROPY = {"rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "mrand48", "srand48", "arc4random", "getrandom", "getentropy",
           "getpid", "gettid", "tmpnam", "random_shuffle", "std::rand", "std::srand", "std::random_shuffle"}
CLOCKS = {"time", "clock", "gettimeofday", "clock_gettime", "std::time", "std::clock", "omp_get_wtime", "times", "getrusage"}
OURS = ("lib/hnco", "app/")


def is_clock(q):
    return q in CLOCKS or q.startswith("std::chrono::") and lastname(q) == "now"


def objects(ctx, f):
    """(line, type, what) of objects with automatic or static storage declared in f, and temporaries"""
    for n in nodes(f):
        if n.get("k") == "decl":
            for v in n["v"]:
                if not v.get("ref") and v.get("t"):
                    yield n.get("l"), v["t"], v
        elif n.get("k") in ("ctor", "new") and n.get("c"):
            yield n.get("l"), n["c"], None
    for p in f["ps"]:
        if not p.get("ref") and p.get("t"):
            yield f["line"], p["t"], None


def entropy(ctx):
    for f in ctx.p.functions.values():
        if not f["file"].startswith(OURS):
            continue
        ctx.functions.add(f["id"])
        for n in nodes(f, "call"):
            q = n.get("q") or ""
            if q in ENTROPY or q.startswith("std::random_device"):
                ctx.bad("entropy", f, n.get("l"), "%s is called: randomness which does not come from the seeded generator" % q)
            elif is_clock(q):
                reads = [g for g in nodes(f) if g.get("k") == "call" and lastname(g.get("q") or "") == "seed"]
                if (f.get("cls") or "").endswith("::StopWatch"):
                    ctx.ok("entropy", f["q"])
                elif reads and not f["ps"] and (f.get("cls") or "") == GEN:
                    ctx.ok("entropy", f["q"])
                else:
                    ctx.bad("entropy", f, n.get("l"), "%s is called outside the stop watch and the explicit choice of a seed" % q)


def engines(ctx):
    shared = []
    for g in ctx.p.globals:
        if not g["file"].startswith(OURS):
            continue
        t = g.get("t") or ""
        if ENGINES.match(t):
            if g["q"].startswith(GEN + "::"):
                shared.append(g)
                ctx.ok("engine", g["q"])
            else:
                ctx.bad("engine", (g["file"], g["q"]), g["line"], "a second random engine %s exists beside the seeded one" % g["q"])
        if STATEFUL.match(t):
            ctx.bad("state", (g["file"], g["q"]), g["line"], "the distribution %s has static storage and keeps state when the generator is reset" % g["q"])
    for c, r in ctx.p.records.items():
        if not r.get("file", "").startswith(OURS):
            continue
        for fd in r["fields"]:
            t = fd.get("t") or ""
            if ENGINES.match(t) and not t.rstrip().endswith(("&", "*")) and not fd.get("ref"):
                ctx.bad("engine", (r["file"], c), fd.get("l") or r.get("line"), "%s has its own random engine %s" % (c, fd["n"]))
    for f in ctx.p.functions.values():
        if not f["file"].startswith(OURS):
            continue
        for line, t, v in objects(ctx, f):
            if ENGINES.match(t) and not t.rstrip().endswith(("&", "*")):
                ctx.bad("engine", f, line, "a random engine is created or copied beside the seeded one")
            elif v is not None and v.get("static") and STATEFUL.match(t):
                ctx.bad("state", f, line, "the distribution %s has static storage and keeps state when the generator is reset" % v["n"])
        for n in nodes(f, "call"):
            q = n.get("q") or ""
            if ENGINES.match(q) and lastname(q) in ("seed", "operator=", "discard") or ENGINES.match(q) and n.get("op") == "=":
                if f.get("cls") == GEN:
                    ctx.ok("engine", f["q"])
                else:
                    ctx.bad("engine", f, n.get("l"), "the random engine is reseeded outside the generator")
            if q in (GEN + "::set_seed", GEN + "::reset"):
                if f["file"].startswith("app/") or "/app/" in f["file"] or f.get("cls") == GEN:
                    ctx.ok("reseed", f["q"])
                else:
                    ctx.bad("reseed", f, n.get("l"), "library code reseeds the generator")
    return shared


def generator(ctx):
    """set_seed and reset leave the engine seeded with the recorded seed"""
    seedroot = None
    for m in (ctx.p.records.get(GEN) or {"methods": []})["methods"]:
        f = ctx.p.functions.get(m["id"])
        if f is None or m["n"] not in ("set_seed", "reset"):
            continue

        def on_call(eng, e, st, q, g, ol, args):
            if ENGINES.match(q) and lastname(q) == "seed":
                s = st.copy()
                a = args[0] if args else None
                s.rs = read(st, a[1]) if isinstance(a, tuple) else a if a is not None else mk("default")
                return [(s, mk("void"))]
            return None
        try:
            outs = [o for o in outcomes(ctx, f, GEN, on_call=on_call) if o.kind == "R"]
        except TooComplex as e:
            ctx.skip("seeding", f, str(e))
            continue
        for o in outs:
            g = {k[1]: v for k, v in o.st.mem.items() if k[0] == "G"}
            rec = strip(getroot(o.st, ("G", GEN + "::seed")))
            sd = None if o.st.rs is None else strip(o.st.rs)
            n = None
            if f["ps"]:
                n = strip(param(f, 0))
            if sd is None:
                ctx.bad("seeding", f, f["line"], "%s can return without seeding the engine" % f["q"])
            elif sd is not rec:
                ctx.bad("seeding", f, f["line"], "%s seeds the engine with %s but the recorded seed is %s" % (f["q"], show(sd), show(rec)))
            elif n is not None and sd is not n:
                ctx.bad("seeding", f, f["line"], "%s does not use the given seed: the engine is seeded with %s" % (f["q"], show(sd)))
            elif m["n"] == "reset" and sd is not initv(("G", GEN + "::seed")):
                ctx.bad("seeding", f, f["line"], "reset changes the seed to %s" % show(sd))
            else:
                ctx.ok("seeding", f["q"])


def strip(t):
    while t.op in ("cast", "conv", "trunc") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


class SeedModel(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.notes = {}

    def note(self, kind, verdict, f, line, what):
        k = (kind, f["q"], line)
        o = self.notes.get(k)
        if o is None or o[0] == "ok":
            self.notes[k] = (verdict, f, line, what)

    def on_call(self, eng, e, st, q, g, ol, args):
        nm = lastname(q)
        if nm == "with_seed":
            return [(st, typed(mk("sym", "with_seed"), "bool"))]
        if nm == "get_seed":
            return [(st, typed(mk("sym", "get_seed"), "unsigned int"))]
        f = eng.cur()[0]
        if q == GEN + "::set_seed":
            w = typed(mk("sym", "with_seed"), "bool")
            if not args:
                d = decide(st.facts, "==", w, C(0))
                self.note("option", "ok" if d is True else "bad", f, e.get("l"), "the seed is taken from the clock although a seed was given")
            else:
                a = strip(read(st, args[0][1]) if isinstance(args[0], tuple) else args[0])
                ok = any(z is mk("sym", "get_seed") for z in subterms(a)) and a.op == "sym"
                self.note("option", "ok" if ok else "bad", f, e.get("l"), "the generator is seeded with %s instead of the given seed" % show(a))
                if decide(st.facts, "!=", w, C(0)) is not True and ok:
                    self.note("option", "bad", f, e.get("l"), "the seed option is read although it may not be set")
            s = st.copy()
            s.rs = "seeded"
            return [(s, mk("void"))]
        return None


def applications(ctx):
    cg = CallGraph(ctx.p)
    draws = cg.reach(lambda f: f["file"].startswith("lib/hnco") and f.get("cls") != GEN and uses_engine(f) or
                     f.get("cls") == GEN and f["q"].rsplit("::", 1)[-1] not in ("set_seed", "reset") and uses_engine(f))
    seeds = cg.reach(lambda f: f["q"] == GEN + "::set_seed")
    # functions which call set_seed directly decide the seed
    for f in ctx.p.functions.values():
        if not f["file"].startswith(OURS) or f.get("cls") == GEN:
            continue
        if not any(n.get("q") == GEN + "::set_seed" for n in nodes(f, "call")):
            continue
        m = SeedModel(ctx)
        try:
            outs = outcomes(ctx, f, f.get("cls"), on_call=m.on_call, inline=lambda eng, e, g, ol: False, keep_trace=False, modsets=True)
        except TooComplex as e:
            ctx.skip("option", f, str(e))
            continue
        for (kind, _, _), (verdict, g, line, what) in m.notes.items():
            if verdict == "ok":
                ctx.ok(kind, g["q"])
            else:
                ctx.bad(kind, g, line, what)
    # nothing is drawn before the seed is set
    for f in ctx.p.functions.values():
        if f["q"] == "main" and f["file"].startswith("app/"):
            ctx.functions.add(f["id"])
            order(ctx, cg, f, draws, seeds, f, [f["id"]])


def order(ctx, cg, f, draws, seeds, root, stack):
    """True if seeded on return"""
    for n in ordered([f.get("inits"), f.get("body")]):
        for g in cg.targets(n):
            if g["q"] == GEN + "::set_seed":
                ctx.ok("order", root["file"])
                return True
            if g["id"] in seeds and g["id"] not in stack:
                if order(ctx, cg, g, draws, seeds, root, stack + [g["id"]]):
                    return True
            elif g["id"] in draws:
                ctx.bad("order", f, n.get("l"), "%s draws random numbers before the seed is set (%s)" % (g["q"], " > ".join(cg.path(g, draws_direct(ctx))[:6])))
                return True
    return False


def draws_direct(ctx):
    return set(f["id"] for f in ctx.p.functions.values() if uses_engine(f) and f["q"].rsplit("::", 1)[-1] not in ("set_seed", "reset"))


def uses_engine(f):
    return any(n.get("k") == "var" and n.get("q") == GEN + "::engine" for n in nodes(f))


def external(ctx):
    """bundled solvers draw from the shared engine, or from one seeded from it"""
    cg = CallGraph(ctx.p)
    clocked = [f for f in ctx.p.functions.values() if f["file"].startswith("lib/gomea/src") and any(is_clock(n.get("q") or "") for n in nodes(f, "call"))
               and any(lastname(n.get("q") or "") == "seed" for n in nodes(f, "call"))]
    for g in clocked:
        for f in ctx.p.functions.values():
            for n, h in cg.sites(f):
                if h["id"] != g["id"]:
                    continue
                # the wrapper in lib/hnco which reaches f
                for w in ctx.p.functions.values():
                    if not w["file"].startswith("lib/hnco"):
                        continue
                    hit = [m for m, k in cg.sites(w) if k["id"] == f["id"]]
                    if hit:
                        wrapper(ctx, w, g, hit[0])


def wrapper(ctx, w, g, n):
    seen = []

    def on_call(eng, e, st, q, h, ol, args):
        if q.startswith("std::mersenne_twister_engine") and (e.get("op") == "()" or lastname(q) == "operator()"):
            if ol is not None and ol[0] == ("G", GEN + "::engine"):
                return [(st, typed(mk("sym", "drawn"), "unsigned long"))]
        if h is not None and h["id"] == g["id"]:
            seen.append(eng.cur()[0])
        return None
    try:
        eng = Engine(ctx.p, on_call=on_call, keep_trace=False, inline=lambda eng, e, h, ol: True if h["file"].startswith("lib/gomea/src/discrete/gomeaIMS") and h.get("ctor") else False)
        eng.run(w, cls=w.get("cls"))
    except TooComplex as e:
        ctx.skip("external", w, str(e))
        return
    if seen:
        ctx.bad("external", w, n.get("l"), "%s lets the solver seed its own generator from the clock (%s)" % (w["q"], g["q"]))
    else:
        ctx.ok("external", w["q"])


@rule("P15", "Scan of every function, record and global of the library and programs for entropy and clock sources, random engines other than the "
      "shared one, reseeding and distributions with static storage; symbolic evaluation of the generator's seeding functions; path-sensitive check "
      "of the seed option in every program; call-graph order check that nothing is drawn before the seed is set; symbolic run of the wrappers of bundled solvers.",
      minimum={"obligations.engine": 1, "obligations.seeding": 1})
def p15(ctx):
    entropy(ctx)
    engines(ctx)
    generator(ctx)
    applications(ctx)
    external(ctx)
