"""P31: crossover and random selection operators."""
import math

from ..core import rule
from ..q import *
from ..values import Values, Unknown

NS = "hnco::algorithm::"
XO = NS + "Crossover"
SEL = NS + "RandomSelection"


def is_draw(t):
    return isinstance(t, T) and t.op == "call" and "distribution" in str(t.a[0]) and str(t.a[0]).endswith("operator()")


def draws(facts, head):
    """outcome of the draws decided in a body: {draw: bool}"""
    out = {}
    for d, iv in facts.items():
        if head.get(d) == iv:
            continue
        for t in subterms(d):
            if is_draw(t):
                if d is t:
                    out[t] = iv[0] == 1 if iv[0] is not None else (False if iv[2] == 0 else None)
                else:
                    out[t] = None
    return out


def crossovers(ctx):
    for cls in concrete_subclasses(ctx, XO):
        f = ctx.p.find_method(cls, "recombine", nparams=3)
        if f is None or not f.get("body") or not f["file"].startswith("lib/hnco"):
            continue
        try:
            outs = outcomes(ctx, f, cls)
        except TooComplex as e:
            ctx.skip("crossover", f, str(e))
            continue
        a, b = param(f, 0), param(f, 1)
        root = ("P", f["ps"][2]["n"])
        off = param(f, 2)
        sizes = (size_of(a), size_of(b), size_of(off))
        for o in outs:
            if o.kind != "R":
                continue
            ls = [e for e in trace(o.st) if e.kind == "loop" and any(getroot(x.st, root) is not getroot(e.head, root) for x in e.bodies)]
            if len(ls) != 1:
                if not ls and getroot(o.st, root) is off:
                    ctx.bad("crossover", f, where(o, f), "%s leaves the offspring as it was" % f["q"])
                else:
                    ctx.skip("crossover", f, "not a single loop over the positions")
                continue
            le = ls[0]
            h = getroot(le.head, root)
            srcs = set()
            good = True
            for x in le.bodies:
                if x.kind not in ("N", "C"):
                    ctx.bad("crossover", f, le.node.get("l"), "the loop over the positions can be left early")
                    good = False
                    continue
                t = getroot(x.st, root)
                if t is h:
                    ctx.bad("crossover", f, le.node.get("l"), "a position of the offspring can be left as it was")
                    good = False
                    continue
                if t.op != "upd" or t.a[0] is not h:
                    ctx.skip("crossover", f, "several positions written at once")
                    good = False
                    continue
                i, v = t.a[1], t.a[2]
                iv = next((w for w in le.ivs if w[0] is i), None)
                if iv is None:
                    ctx.skip("crossover", f, "position not recognised: " + show(i)[:80])
                    good = False
                    continue
                hi = next((c for k, c in le.closed.items() if at_k(le.head, k) is i), None)
                if iv[2] == 1:
                    if not ctx.check(isc(iv[1]) and iv[1].a[0] == 0 and (hi is None or any(hi is s or decide(o.st.facts, "==", hi, s) for s in sizes)), "crossover", f, le.node.get("l"),
                                     "only the positions in [%s, %s) of the offspring are written" % (show(iv[1]), show(hi) if hi is not None else "?")):
                        good = False
                        continue
                elif abs(iv[2]) != 1:
                    ctx.bad("crossover", f, le.node.get("l"), "positions of the offspring are skipped")
                    good = False
                    continue
                who = 1 if v is proj(a, ("[", i)) else 2 if v is proj(b, ("[", i)) else None
                if who is None:
                    if v.op == "sel" and v.a[0] in (a, b) or isc(v):
                        ctx.bad("crossover", f, le.node.get("l"), "position %s of the offspring gets %s" % ("i", show(v)[:80].replace(show(i), "i")))
                    else:
                        ctx.skip("crossover", f, "bit of the offspring not recognised: " + show(v)[:80])
                    good = False
                    continue
                srcs.add(who)
                ds = draws(x.st.facts, le.head.facts)
                if not ds:
                    ctx.skip("crossover", f, "no draw decides the parent")
                    good = False
                    continue
                if "Biased" in cls:
                    for d, val in ds.items():
                        if val is None:
                            continue
                        ctx.check(val == (who == 2), "crossover", f, le.node.get("l"), "the bit comes from parent %d when the draw with the bias %s" % (who, "succeeds" if val else "fails"))
            if good:
                ctx.check(srcs == {1, 2}, "crossover", f, le.node.get("l"), "every bit of the offspring comes from parent %s" % "".join(map(str, srcs)))
        if "Biased" in cls:
            g = ctx.p.find_method(cls, "set_bias", nparams=1)
            if g is not None and g.get("body"):
                for o in outcomes(ctx, g, cls):
                    t = thisv(o.st)
                    if o.kind == "R" and t.op == "updf" and t.a[2].op == "ctor" and "bernoulli" in str(t.a[2].a[0]):
                        ctx.check(list(t.a[2].a[1:]) == [param(g, 0)], "crossover", g, where(o, g), "the probability of the second parent is %s, not the bias" % show(t.a[2])[:80])


def at_k(st, k):
    t = getroot(st, k[0])
    for s in k[1]:
        t = proj(t, s)
    return t


def population(ctx):
    """terms of the bit vectors and values of the population selected from"""
    f = next((f for f in ctx.p.functions.values() if f["q"] == NS + "FitnessProportionateSelection::select" and f.get("body")), None)
    fields = [fd["n"] for fd in ctx.p.records.get(SEL, {}).get("fields", [])]
    return f, fields


def selected(ctx, cls, f):
    """select() returns the bit vector at the position drawn: field of the distribution, or None"""
    dist = None
    for o in outcomes(ctx, f, cls):
        if o.kind != "R":
            continue
        v = retval(o)
        if v is None or v.op != "sel":
            ctx.skip("selection", f, "selected individual not recognised: " + show(v)[:80] if v is not None else "nothing returned")
            continue
        box, i = v.a
        p = show(box)
        if not p.endswith("bvs"):
            ctx.skip("selection", f, "not taken from the bit vectors of the population: " + p[:60])
            continue
        if not is_draw(i):
            ctx.check(not any(is_draw(z) for z in subterms(i)) and not isc(i), "selection", f, where(o, f), "the individual at position %s is selected, not the one drawn" % show(i)[:100])
            continue
        d = i.a[1]
        q = path_of(d)
        ctx.ok("selection", f["q"])
        if q:
            dist = q
    return dist


def weights(ctx, cls, name):
    f = ctx.p.find_method(cls, "select", nparams=0)
    if f is None or not f.get("body"):
        ctx.skip("selection", cls, "no select")
        return
    dist = selected(ctx, cls, f)
    if dist is None:
        return
    if name == "UniformSelection":
        for g, outs in ctor_state(ctx, cls):
            for o in outs:
                if o.kind != "R" or g.get("implicit"):
                    continue
                d = at(o.st, dist)
                if d.op != "ctor" or len(d.a) != 3:
                    ctx.skip("weights", g, "distribution not recognised: " + show(d)[:80])
                    continue
                lo, hi = d.a[1:]
                n = [z for z in subterms(hi) if z.op == "size"]
                ctx.check(isc(lo) and lo.a[0] == 0 and any(hi is sub(z, C(1)) for z in n), "weights", g, where(o, g),
                          "an individual is drawn from positions %s to %s, not from the whole population" % (show(lo), show(hi)[:80]))
        return
    g = ctx.p.find_method(cls, "init", nparams=0)
    if g is None or not g.get("body"):
        ctx.skip("weights", cls, "no init")
        return
    for o in outcomes(ctx, g, cls):
        if o.kind != "R":
            continue
        d = at(o.st, dist)
        old = at(State({}, {}, None, None), dist)
        if d is old:
            ctx.bad("weights", g, where(o, g), "the weights are not computed from the current values")
            continue
        ps = [z for z in subterms(d) if z.op == "ctor" and "discrete_distribution" in str(z.a[0]) and len(z.a) == 3 and all(isinstance(y, T) and y.op == "it" for y in z.a[1:])]
        if len(ps) != 1:
            ctx.skip("weights", g, "weights not recognised: " + show(d)[:80])
            continue
        i0, i1 = ps[0].a[1:]
        loc, lo = i0.a[0], i0.a[1]
        loc1, hi = i1.a[0], i1.a[1]
        if loc != loc1:
            ctx.skip("weights", g, "range of weights not recognised")
            continue
        w = read(o.st, loc)
        w0 = read(State({}, {}, None, None), loc)
        if not ctx.check(isc(lo) and lo.a[0] == 0 and hi in (size_of(w), size_of(w0)), "weights", g, where(o, g),
                         "the weights of positions %s to %s are used, not one for each individual" % (show(lo), show(hi)[:60])):
            continue
        if name == "FitnessProportionateSelection":
            if w is w0:
                ctx.check(show(w).endswith("values"), "weights", g, where(o, g), "the weights are %s, not the values of the population" % show(w)[:80])
            else:
                ctx.skip("weights", g, "weights copied")
            continue
        if w is w0:
            ctx.bad("weights", g, where(o, g), "the weights are %s, not exponentials of the values" % show(w)[:80])
            continue
        if w.op != "tab":
            ctx.skip("weights", g, "weights without a closed form: " + show(w)[:80])
            continue
        base, l2, h2, b, e = w.a
        if not ctx.check(isc(l2) and l2.a[0] == 0 and (h2.op == "size"), "weights", g, where(o, g), "only the weights of positions %s to %s are computed" % (show(l2), show(h2)[:60])):
            continue
        ys = [z for z in subterms(e) if z.op == "sel" and z.a[1] is b]
        beta = [z for z in subterms(e) if path_of(z) is not None and len(path_of(z)) == 1 and z.op not in ("sel",) and "beta" in str(path_of(z)[0][1])]
        if len(ys) != 1 or not show(ys[0].a[0]).endswith("values"):
            ctx.bad("weights", g, where(o, g), "the weight of an individual is %s: not a function of its own value" % show(e)[:120]) if not ys else ctx.skip("weights", g, "weight not recognised: " + show(e)[:80])
            continue
        others = {z: 3.0 for z in subterms(e) if z.op == "sel" and z.a[1] is not b}
        try:
            def at_value(y, bt):
                env = dict(others)
                env[ys[0]] = y
                for z in beta:
                    env[z] = bt
                return float(Values(None, {}, env).ev(e))
            ok = True
            for bt in (0.5, 2.0):
                for y in (-1.0, 2.5):
                    ok = ok and abs(at_value(y + 1, bt) / at_value(y, bt) - math.exp(bt)) < 1e-6 * math.exp(bt)
            ctx.check(ok, "weights", g, where(o, g), "the weight of an individual is %s, not proportional to exp(beta * value)" % show(e)[:120])
        except (Unknown, ZeroDivisionError, OverflowError, ValueError, TypeError):
            ctx.skip("weights", g, "weight not evaluated: " + show(e)[:80])


def tournaments(ctx):
    cls = NS + "TournamentSelection"
    if cls not in ctx.p.records:
        return
    for g, outs in ctor_state(ctx, cls):
        if g.get("implicit"):
            continue
        for x in walk(g):
            if x.get("k") == "ctor" and "TournamentSelection" in str(x.get("c")) and len(x.get("a", [])) == 2:
                ns = [y.get("n") for y in x["a"]]
                if None not in ns:
                    ctx.check(ns == ["bvs", "values"], "selection", g, x.get("l", g["line"]), "tournaments are held between %s, not between the individuals by their values" % ns)
    f = ctx.p.find_method(cls, "init", nparams=0)
    s = ctx.p.find_method(cls, "set_tournament_size", nparams=1)
    if f is None or s is None or not f.get("body") or not s.get("body"):
        return
    field = None
    for o in outcomes(ctx, s, cls):
        t = thisv(o.st)
        if o.kind == "R" and t.op == "updf" and t.a[2] is param(s, 0):
            field = t.a[1]
    if field is None:
        ctx.skip("selection", s, "tournament size handed on")
        return
    want = proj(this0(), (".", field))
    for o in outcomes(ctx, f, cls, inline=lambda eng, e, g, ol: False):
        if o.kind != "R":
            continue
        es = calls(o)
        ctx.check(any(e.q.endswith("::set_tournament_size") and e.args and e.args[0] is want for e in es), "selection", f, where(o, f), "the tournament size is not handed to the tournament")
        ctx.check(any(e.q.endswith("TournamentSelection<double, std::greater<double>>::init") or e.q.rpartition("::")[2] == "init" for e in es), "selection", f, where(o, f), "the tournament is not initialised")


def rounds(ctx):
    """tournaments without replacement: consecutive slices of a shuffled permutation, each won by the best of its individuals"""
    for cls in sorted(c for c in ctx.p.records if c.startswith("hnco::multiobjective::algorithm::TournamentSelection<")):
        f = ctx.p.find_method(cls, "select", nparams=0)
        g = ctx.p.find_method(cls, "init", nparams=0)
        s = ctx.p.find_method(cls, "set_tournament_size", nparams=1)
        if not all(x is not None and x.get("body") for x in (f, g, s)):
            ctx.skip("tournament", cls, "methods not found")
            continue
        opaque = lambda eng, e, h, ol: False if h["q"].split("::")[-1] in ("perm_shuffle", "perm_random") else None
        size = None
        for o in outcomes(ctx, s, cls):
            t = thisv(o.st)
            if o.kind == "R" and t.op == "updf" and t.a[2] is param(s, 0):
                size = proj(this0(), (".", t.a[1]))
        if size is None:
            ctx.skip("tournament", s, "tournament size not recognised")
            continue
        try:
            for o in outcomes(ctx, f, cls, assume_asserts=False, inline=opaque):
                if o.kind == "R":
                    one_round(ctx, f, g, cls, o, size, [x for x in outcomes(ctx, g, cls, inline=opaque) if x.kind == "R"])
        except TooComplex as e:
            ctx.skip("tournament", f, str(e))


def shuffled(t, p0):
    return t.op == "out" and t.a[-1] is p0 and str(t.a[0]).split("::")[-1] in ("perm_shuffle", "perm_random")


def one_round(ctx, f, g, cls, o, size, inits):
    K = "tournament"
    v = retval(o)
    if v is None or v.op != "sel" or v.a[1].op != "sel":
        first = [at_k(e.entry, k) for e in trace(o.st) if e.kind == "loop" for k in e.hv if v is not None and v.op == "sel" and at_k(e.head, k) is v.a[1]]
        if first and all(path_of(z) is not None for z in first):
            ctx.bad(K, f, where(o, f), "the individual returned is the one at the rank of the winner, not the winner")
        else:
            ctx.skip(K, f, "winner not recognised")
        return
    P, w = v.a[1].a
    pp = path_of(P)
    l = next((e for e in trace(o.st) if e.kind == "loop" and any(at_k(e.head, k) is w for k in e.hv)), None)
    if l is None or pp is None or len(l.ivs) < 1:
        ctx.skip(K, f, "rounds not recognised")
        return
    kw = next(k for k in l.hv if at_k(l.head, k) is w)
    s0 = at_k(l.entry, kw)
    c, lo, step = next((x for x in l.ivs if any(at_k(b.st, kw) is x[0] for b in l.bodies)), (None, None, None))
    off = [x for x in l.ivs for b in l.bodies if c is None and isc(sub(at_k(b.st, kw), x[0]))]
    if off:
        ctx.bad(K, f, l.node.get("l"), "the winner becomes the individual next to the challenger")
        return
    if c is None or step != 1 or path_of(s0) is None:
        ctx.skip(K, f, "challengers not recognised")
        return
    end = next((t for k, t in (l.closed or {}).items() if at_k(l.head, k) is c), None)
    line = l.node.get("l")
    # participants
    ok = lo is s0 or lo is add(s0, C(1))
    if not ok and not isc(sub(lo, s0)):
        ctx.skip(K, f, "first challenger not recognised")
        return
    ctx.check(ok, K, f, line, "the first challenger is %s" % show(lo)[:60])
    if any(b.kind not in ("N", "C") for b in l.bodies):
        ctx.skip(K, f, "round left early")
        return
    stop = path_of(end) if end is not None else None
    for i in inits:
        a, p = at(i.st, path_of(s0)), at(i.st, pp)
        ctx.check(a is C(0), K, g, where(i, g), "the first round starts at %s" % show(a)[:60])
        ctx.check(shuffled(p, P), K, g, where(i, g), "the individuals are not shuffled before the rounds")
        if stop:
            z = at(i.st, stop)
            ctx.check(sub(z, a) is size, K, g, where(i, g), "the first round has %s participants, not the tournament size" % show(sub(z, a))[:60])
    if end is None:
        ctx.skip(K, f, "last challenger not recognised")
    elif not stop:
        k = [x for x in subterms(end) if path_of(x) is not None and len(path_of(x)) == 1 and x is not s0]
        d = sub(sub(end, s0), size)
        if isc(d):
            ctx.check(d.a[0] == 0, K, f, line, "a round has %s participants" % show(sub(end, s0))[:80])
        elif len(k) == 1 and isc(sub(end, k[0])):
            ctx.check(sub(end, k[0]).a[0] == 0, K, f, line, "the challengers of a round end at %s" % show(end)[:60])
        else:
            ctx.skip(K, f, "last challenger not recognised")
    # comparison
    wins = {}
    for b in l.bodies:
        nw = at_k(b.st, kw)
        if nw not in (w, c):
            ctx.bad(K, f, line, "the winner becomes %s, not the challenger" % show(nw)[:60])
            return
        cs = [(d, iv) for d, iv in b.st.facts.items() if d.op == "call" and len(d.a) >= 3 and "operator" in str(d.a[0]) and l.head.facts.get(d) != iv and (iv[0] == iv[2] and iv[0] in (0, 1))]
        if len(cs) != 1:
            ctx.skip(K, f, "comparison not recognised")
            return
        d, iv = cs[0]
        x, y = d.a[-2:]
        kb = None
        side = None
        for j, z, u in ((0, x, y), (1, y, x)):
            if z.op == "sel" and z.a[1] is c:
                ctx.bad(K, f, line, "the value compared is that of individual %s, not of the challenger" % "at the rank of the challenger")
                return
            if z.op == "sel" and z.a[1].op == "sel" and z.a[1].a[0] is P and z.a[1].a[1] is c:
                side, mine, best = j, z, u
        if side is None:
            ctx.skip(K, f, "value of the challenger not recognised")
            return
        if best.op == "hv":
            kb = next((k for k in l.hv if at_k(l.head, k) is best), None)
            if kb is None:
                ctx.skip(K, f, "best value not recognised")
                return
            ctx.check(at_k(l.entry, kb) is subst(mine, {c: s0}), K, f, line, "the round starts with the value %s, not that of the first participant" % show(at_k(l.entry, kb))[:60])
            ctx.check(at_k(b.st, kb) is (mine if nw is c else best), K, f, line, "the best value of the round %s" % (
                "is not that of the new winner" if nw is c else "changes although the winner does not"))
        elif best is not subst(mine, {c: w}):
            if best.op == "sel" and s0 in subterms(best):
                ctx.bad(K, f, line, "challengers are compared with %s, not with the winner so far" % show(best)[:60])
            else:
                ctx.skip(K, f, "best value not recognised")
            return
        wins[(side, iv[0])] = nw is c
    # challenger first: wins when the comparison holds; challenger second: loses when it holds
    good = all(won == (truth == 1 if side == 0 else truth == 0) for (side, truth), won in wins.items())
    ctx.check(good, K, f, line, "a challenger wins against a better individual")
    # next round
    n0, n1, np = at(o.st, path_of(s0)), at(o.st, stop) if stop else None, at(o.st, pp)
    if np is P:
        ctx.check(n0 is end or end is not None and n0 is add(s0, size), K, f, where(o, f), "the next round starts at %s, not where this one ends" % show(n0)[:60])
        if stop:
            ctx.check(sub(n1, n0) is size, K, f, where(o, f), "the next round has %s participants, not the tournament size" % show(sub(n1, n0))[:60])
        hi = n1 if stop else add(n0, size)
        pops = [z for d in o.st.facts for z in subterms(d) if z.op == "size"]
        sizes = [size_of(v.a[0]), size_of(P)] + pops
        ctx.check(any(decide(o.st.facts, "<=", hi, z) is True for z in sizes), K, f, where(o, f), "the next round may have more participants than there are individuals left")
    elif shuffled(np, P):
        ctx.check(n0 is C(0) and (not stop or n1 is size), K, f, where(o, f), "after a shuffle, rounds do not start again from the first individual")
    else:
        ctx.skip(K, f, "next round not recognised")


@rule("P31", "Abstract interpretation of every crossover (source of each position of the offspring on each path of an iteration, positions covered, "
             "outcome of the draw which decides) and of every random selection (individual returned, distribution it was drawn from, range and closed form of the weights).",
      minimum={"obligations.crossover": 2, "obligations.selection": 2})
def p31(ctx):
    crossovers(ctx)
    for name in ("UniformSelection", "FitnessProportionateSelection", "BoltzmannSelection"):
        if NS + name in ctx.p.records:
            try:
                weights(ctx, NS + name, name)
            except TooComplex as e:
                ctx.skip("weights", NS + name, str(e))
    tournaments(ctx)
    rounds(ctx)
