"""P23: Pareto dominance, Pareto fronts and NSGA-II survivor selection."""
from collections import deque

from ..core import rule
from ..q import *
from ..absint import write, decide, cmpterm, size_of
from ..elem import ev, Unknown, consistent
from ..terms import lin, add, sub, subst, subterms
from .population import MPOP, FNM, run

MO = "hnco::multiobjective::"
DOM = MO + "function::dominates"
PFC = MO + "algorithm::Nsga2ParetoFrontComputation"
NSGA = MO + "algorithm::Nsga2"
FDP = MO + "algorithm::FrontDistancePair"


def free(ctx, q, n=None):
    for f in ctx.p.functions.values():
        if f["q"] == q and f.get("body") and (n is None or len(f["ps"]) == n):
            return f
    return None


def loops(st):
    return [e for e in trace(st) if e.kind == "loop"]


def at_loc(st, k):
    return at(st, k[1], k[0])


# ------------------------------------------------------------------ dominance
def dominance(ctx, kind):
    f = ctx.need(free(ctx, DOM, 2), DOM)
    eng, outs = run(ctx, f, None)
    ls = {}
    for o in outs:
        for l in loops(o.st):
            ls[id(l.node)] = l
    if len(ls) != 1:
        ctx.skip(kind, f, "%d loops in the domination test" % len(ls))
        return
    l = list(ls.values())[0]
    A, B = param(f, 0), param(f, 1)
    ivs = [v for v in l.ivs if isc(v[1]) and v[1].a[0] == 0 and v[2] == 1 or isc(v[1]) and v[1].a[0] == 0 and isc(v[2]) and v[2].a[0] == 1]
    iv = None
    for v in ivs:
        if any(decide(x.facts, ">=", v[0], size_of(z)) is True for x in l.exits for z in (A, B)):
            iv = v[0]
    if iv is None:
        ctx.skip(kind, f, "the objectives are not enumerated by a counting loop")
        return
    x, y = [proj(z, ("[", iv)) for z in (A, B)]
    flags = [k for k in l.hv if at_loc(l.head, k) is not iv]
    fts = [at_loc(l.head, k) for k in flags]

    def env(vals, sign, i):
        d = dict(zip(fts, vals))
        d.update({x: 1 + (sign > 0), y: 1 + (sign < 0), iv: i, size_of(A): 5, size_of(B): 5})
        for k, v in zip(flags, vals):
            t = (l.closed or {}).get(k)
            if t is not None:
                d[t] = v
        return d

    def exact(facts, e):
        for d in facts:
            ev(d, e)
        return consistent(facts, e)
    try:
        init = tuple(ev(at_loc(l.entry, k), {}) for k in flags)
        seen = {(init, False, False)}
        todo = deque(seen)
        n = 0
        while todo and n < 200:
            n += 1
            vals, gt, lt = todo.popleft()
            # the loop ends here
            e = env(vals, 0, 5)
            res = set()
            for o in outs:
                if o.kind == "R" and exact({d: i for d, i in o.st.facts.items() if d not in (x, y) and not any(z in (x, y) for z in subterms(d))}, e) and not any(
                        z in (x, y) for d in o.st.facts for z in subterms(d)):
                    res.add(bool(ev(retval(o), e)))
            if len(res) != 1:
                raise Unknown("result after the loop")
            r = res.pop()
            want = lt and not gt
            if r != want:
                ctx.bad(kind, f, f["line"], "dominates() returns %s when a is %s in some objective and %s in none" % (
                    str(r).lower(), "greater" if gt else "smaller" if lt else "equal", "smaller" if not lt else "greater" if not gt else "-"))
                return
            for sign in (-1, 0, 1):
                g2, l2 = gt or sign > 0, lt or sign < 0
                e = env(vals, sign, 2)
                hit = [b for b in l.bodies if exact(b.st.facts, e)]
                if len(hit) != 1:
                    raise Unknown("%d paths for one comparison" % len(hit))
                b = hit[0]
                if b.kind in ("N", "C"):
                    nxt = (tuple(ev(at_loc(b.st, k), e) for k in flags), g2, l2)
                    if nxt not in seen:
                        seen.add(nxt)
                        todo.append(nxt)
                elif b.kind == "R":
                    r = bool(ev(b.val if not isinstance(b.val, tuple) else retval(b), e))
                    if r or not g2:
                        ctx.bad(kind, f, b.node.get("l") if b.node else f["line"], "dominates() stops with %s at an objective in which a %s b" % (
                            str(r).lower(), "<=>"[sign + 1]))
                        return
                else:
                    raise Unknown("loop left by " + b.kind)
        for s in range(len(seen) * 3):
            ctx.ok(kind, DOM)
    except Unknown as u:
        ctx.skip(kind, f, "not a finite automaton: %s" % str(u)[:80])


# ------------------------------------------------------------------ fronts
class DomModel(object):
    """dominates(a, b) is an uninterpreted relation"""

    def on_call(self, eng, e, st, q, g, ol, args):
        if q == DOM and len(args) == 2:
            vs = [read(st, a[1]) if isinstance(a, tuple) else a for a in args]
            return [(st, typed(mk("dom", *vs), "bool"))]
        return None


def domfacts(facts):
    for d, i in facts.items():
        for z in subterms(d):
            if z.op == "dom":
                if d is z and (i[0] is not None or i[2] is not None or i[4]):
                    v = decide(facts, "!=", z, C(0))
                    if v is not None:
                        yield z, v


def empty(t):
    return t.op == "mempty" or size_of(t) is C(0)


def receives(t, i):
    """how many times i was added to container t by the last operations, and the rest"""
    n = 0
    while True:
        if t.op == "push":
            n += t.a[1] is i
            t = t.a[0]
        elif t.op == "mput":
            n += t.a[1] is i
            t = t.a[0]
        else:
            return n


def member_loop(l, V):
    """[(member term, other index, member first?, truth, body)] of the comparisons made by one iteration"""
    out = []
    ks = [v[0] for v in l.ivs]
    for b in l.bodies:
        fs = [(d, v) for d, v in domfacts(b.st.facts) if d not in l.head.facts]
        if not fs:
            out.append((None, None, None, None, b, None))
            continue
        for d, v in fs:
            ix = []
            for a in d.a:
                if a.op != "sel" or a.a[0] is not V:
                    return None
                ix.append(a.a[1])
            mem = [j for j, x in enumerate(ix) if x.op == "sel" and x.a[1] in ks]
            if len(mem) != 1:
                return None
            m = mem[0]
            out.append((ix[m], ix[1 - m], m == 0, v, b, ix[m].a[0]))
    return out if any(x[0] is not None for x in out) else None


def fronts(ctx, kind):
    f = ctx.need(ctx.p.find_method(PFC, "compute", nparams=1), PFC + "::compute")
    m = DomModel()
    eng, outs = run(ctx, f, PFC, on_call=m.on_call)
    done = 0
    for o in outs:
        if o.kind != "R":
            continue
        for L in loops(o.st):
            for b in L.bodies:
                for E in loops(b.st):
                    if any(member_loops(c, None) for c in E.bodies):
                        try:
                            done += front_pass(ctx, kind, f, o, L, b, E)
                        except Unknown as u:
                            ctx.skip(kind, f, str(u)[:100])
    if not done:
        ctx.skip(kind, f, "peeling loop not recognised")


def member_loops(c, V):
    out = []
    for l in loops(c.st):
        vs = [V] if V is not None else list({a.a[0] for b in l.bodies for d, _ in domfacts(b.st.facts) for a in d.a if a.op == "sel"})
        for v in vs:
            r = member_loop(l, v)
            if r:
                out.append((l, r, v))
    return out


def front_pass(ctx, kind, f, o, L, b, E):
    V = None
    for c in E.bodies:
        for l, r, v in member_loops(c, None):
            V = v
    p = V
    ctx.check(V.op == "fld" and V.a[1] == "values", kind, f, f["line"], "domination is decided on %s" % show(V)[:120])
    ii = {x[1] for c in E.bodies for l, r, _ in member_loops(c, V) for x in r if x[0] is not None}
    if len(ii) != 1:
        raise Unknown("current individual not recognised")
    i = ii.pop()
    ivs = [v for v in E.ivs if i.op == "sel" and i.a[1] is v[0]]
    if not ivs:
        raise Unknown("current individual is %s" % show(i)[:60])
    pool = i.a[0]
    full = isc(ivs[0][1]) and ivs[0][1].a[0] == 0 and all(decide(s.facts, ">=", ivs[0][0], size_of(pool)) is True for s in E.exits) and not any(
        c.kind in ("R", "B") for c in E.bodies)
    ctx.check(full, kind, f, E.node.get("l"), "not every individual of the pool is compared")
    toA, toB = set(), set()
    kept = []
    for c in E.bodies:
        dominated = None
        mls = member_loops(c, V)
        for l, r, _ in mls:
            for mem, other, first, v, bb, cont in r:
                if mem is None:
                    raise Unknown("a member is not compared")
            dirs = {x[2] for x in r}
            if dirs == {True}:
                # members which dominate i
                early = [x for x in r if x[4].kind in ("R", "B")]
                hit = [d for d, v in domfacts(c.st.facts) if v and d.a[1].op == "sel" and d.a[1].a[1] is i]
                if early:
                    ctx.check(all(x[3] for x in early), kind, f, l.node.get("l"), "the search for a dominating individual stops at one which does not dominate")
                    ctx.check(all(x[4].kind in ("R", "B") or not x[3] for x in r), kind, f, l.node.get("l"), "an individual which dominates is ignored")
                    dominated = bool(hit)
                else:
                    for k in l.hv:
                        t0 = at_loc(l.head, k)
                        if t0.op != "hv" or t0 in [z[0] for z in l.ivs]:
                            continue
                        e0 = at_loc(l.entry, k)
                        tr = {at_loc(x[4].st, k) for x in r if x[3]}
                        fa = {at_loc(x[4].st, k) for x in r if not x[3]}
                        if len(tr) == 1 and fa <= {t0} and isc(list(tr)[0]) and isc(e0) and e0 is not list(tr)[0]:
                            cl = (l.closed or {}).get(k, t0)
                            d = decide(c.st.facts, "==", cl, list(tr)[0])
                            if d is None:
                                d = decide(c.st.facts, "==", t0, list(tr)[0])
                            dominated = d
                ends = [decide(s.facts, ">=", z[0], size_of(r[0][5])) is True for s in l.exits for z in l.ivs[:1]]
                ctx.check(all(ends) and isc(l.ivs[0][1]) and l.ivs[0][1].a[0] == 0, kind, f, l.node.get("l"), "not every non dominated individual is compared")
                kept.append(r[0][5])
        if dominated is None:
            if any({x[2] for x in r} == {True} for _, r, _ in mls) or not mls:
                raise Unknown("outcome of the comparisons not recognised")
            ctx.bad(kind, f, E.node.get("l"), "an individual is classified without asking whether another one dominates it")
            return 1
        got = [(k, receives(at_loc(c.st, k), i)) for k in E.hv]
        got = [(k, n) for k, n in got if n]
        if len(got) != 1 or got[0][1] != 1:
            ctx.bad(kind, f, E.node.get("l"), "an individual which is %sdominated goes to %d sets instead of one" % ("" if dominated else "not ", sum(n for _, n in got)))
            return 1
        (toA if dominated else toB).add(got[0][0])
        ctx.ok(kind, "classification path")
        if not dominated:
            removal(ctx, kind, f, c, mls, i, V, toB, E)
    if len(toA) != 1 or len(toB) != 1:
        raise Unknown("sets not recognised")
    ka, kb = toA.pop(), toB.pop()
    ctx.check(ka != kb, kind, f, E.node.get("l"), "dominated and non dominated individuals are put in the same set")
    ctx.check(all(z is at_loc(E.head, kb) for z in kept), kind, f, E.node.get("l"), "individuals are not compared with the non dominated ones")
    ctx.check(empty(at_loc(E.entry, ka)), kind, f, E.node.get("l"), "the set of dominated individuals is not empty when a front starts")
    ctx.check(empty(at_loc(E.entry, kb)), kind, f, E.node.get("l"), "the set of non dominated individuals is not empty when a front starts")
    # after the pass
    P = [k for k in L.hv if at_loc(L.head, k) is pool]
    if not P and not any(x.op == "hv" and x.a[0] == L.uid for x in subterms(pool)):
        ctx.bad(kind, f, L.node.get("l"), "every pass peels the same pool")
        return 1
    if len(P) != 1:
        raise Unknown("pool not recognised")
    endA = at_loc(E.head, ka)
    for bb in L.bodies:
        nxt = at_loc(bb.st, P[0])
        ctx.check(nxt is endA, kind, f, L.node.get("l"), "the next pool is not the set of the individuals dominated in this pass")
        # fronts of the non dominated individuals
        root = ("P", f["ps"][0]["n"])
        w = read(bb.st, (root, ()))
        iv = [v for v in L.ivs if isc(v[1]) and v[1].a[0] == 0]
        if w.op != "scatter":
            ctx.skip(kind, f, "assignment of the fronts not summarised")
            continue
        base, lo, hi, bv, where_, val = w.a[:6]
        nb = at_loc(E.head, kb)
        okk = where_.op == "sel" and where_.a[0] is nb and where_.a[1] is bv and isc(lo) and lo.a[0] == 0 and hi is size_of(nb)
        ctx.check(okk, kind, f, f["line"], "fronts are not assigned to all non dominated individuals of the pass")
        ctx.check(any(val is v[0] and (v[2] == 1 or isc(v[2]) and v[2].a[0] == 1) for v in iv), kind, f, f["line"],
                  "the front assigned is %s, not the number of the pass" % show(val)[:80])
    for s in L.exits:
        ctx.check(decide(s.facts, "<=", size_of(at_loc(s, P[0])), C(0)) is True, kind, f, L.node.get("l"), "peeling stops while individuals remain")
    p0 = at_loc(L.entry, P[0])
    n = V.a[0]
    sizes = [size_of(proj(n, (".", w))) for w in ("bvs", "values")]
    if p0.op == "iota":
        ctx.check(size_of(p0) in sizes and p0.a[1] is C(0) and p0.a[3] is C(0) and p0.a[2] in sizes, kind, f, f["line"], "the first pool is not the whole population: " + show(p0)[:100])
    elif p0.op == "tab":
        ctx.check(p0.a[1] is C(0) and p0.a[2] in sizes and p0.a[4] is p0.a[3], kind, f, f["line"], "the first pool is not the whole population: " + show(p0)[:100])
    else:
        ctx.skip(kind, f, "first pool is " + show(p0)[:60])
    return 1


def removal(ctx, kind, f, c, mls, i, V, toB, E):
    """members dominated by i leave the set of non dominated individuals and join the dominated ones"""
    ds = [(l, r) for l, r, _ in mls if {x[2] for x in r} == {False}]
    if not ds:
        ctx.bad(kind, f, E.node.get("l"), "non dominated individuals which the new one dominates are not looked for")
        return
    l, r = ds[-1]
    rec = set()
    for mem, other, first, v, bb, cont in r:
        for k in l.hv:
            n = receives(at_loc(bb.st, k), mem)
            if v and n == 1:
                rec.add(k)
            elif n:
                ctx.bad(kind, f, l.node.get("l"), "an individual which the new one does not dominate is marked as dominated")
                return
    miss = [x for x in r if x[3] and not any(receives(at_loc(x[4].st, k), x[0]) for k in l.hv)]
    if miss or len(rec) != 1:
        if miss and rec:
            ctx.bad(kind, f, l.node.get("l"), "an individual which the new one dominates is not marked as dominated")
        else:
            ctx.skip(kind, f, "marking of dominated individuals not recognised")
        return
    k = rec.pop()
    ctx.check(empty(at_loc(l.entry, k)), kind, f, l.node.get("l"), "the list of individuals to remove still holds those of the previous step")
    D = at_loc(l.head, k)
    found = False
    for m in loops(c.st):
        js = [v[0] for v in m.ivs]
        for bb in m.bodies:
            er = [e for e in trace(bb.st) if e.kind == "call" and e.q.endswith("::erase") and e.args and e.args[0].op == "sel" and e.args[0].a[0] is D and e.args[0].a[1] in js]
            pu = [q for q in m.hv if any(receives(at_loc(bb.st, q), mk("sel", D, j)) for j in js)]
            if er or pu:
                found = True
                ctx.check(bool(er) and len(pu) == 1, kind, f, m.node.get("l"),
                          "an individual found to be dominated is %s" % ("not removed from the non dominated ones" if not er else "removed, but does not join the next pool"))
    if not found:
        ctx.skip(kind, f, "removal loop not recognised")


# ------------------------------------------------------------------ pairs
def renamed(t):
    """the same term about values instead of bit vectors"""
    m = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return "values" if x == "bvs" else x
        if x in m:
            return m[x]
        if x.op == "hv":
            r = mk("hv", x.a[0], go(x.a[1]), go(x.a[2]), None)
        elif x.op == "size":
            r = mk("size", C(0)) if x.a[0].op in ("hv", "fld") else mk("size", go(x.a[0]))
        elif x.op == "lin":
            r = C(x.a[0])
            for k, c in x.a[1]:
                r = add(r, mk("scale", go(k), c)) if c != 1 else add(r, go(k))
        else:
            r = mk(x.op, *[go(y) for y in x.a])
        m[x] = r
        return r
    return go(t)


def transfers(head, st, t, kind="bvs"):
    """[(index, source)] of the element writes of a container since the loop head; source None = not a copy of an element of a population"""
    out = []
    while t.op in ("upd", "push"):
        v = t.a[-1]
        x = v
        while x.op == "upd":
            x = x.a[0]
        src = None
        if x.op == "sel":
            src = x
        out.append((t.a[1] if t.op == "upd" else mk("end"), v if src is not None and v.op == "sel" else None))
        t = t.a[0]
    return out


def pairs_of(ctx, kind, f, head, st, locs, line):
    pops = {}
    for (root, path) in locs:
        if path and path[-1] in ((".", "bvs"), (".", "values")):
            pops.setdefault((root, path[:-1]), {})[path[-1][1]] = (root, path)
        elif not path or path[-1][0] == ".":
            for w in ("bvs", "values"):
                pass
    for pop, d in pops.items():
        tb = at(st, pop[1] + ((".", "bvs"),), pop[0])
        tv = at(st, pop[1] + ((".", "values"),), pop[0])
        xb = transfers(head, st, tb)
        xv = transfers(head, st, tv)
        b = {(renamed(i), renamed(v)) for i, v in xb if v is not None}
        v = {(renamed(i), renamed(w)) for i, w in xv if w is not None}
        if not b and not v:
            continue
        fresh = [i for i, w in xb if w is None]
        if fresh and not xv:
            continue
        ctx.check(b == v, kind, f, line, "bit vectors and values of %s move differently: %s against %s" % (
            "".join("." + x[1] if x[0] == "." else "[]" for x in pop[1]) or show(mk("init", pop[0])),
            sorted(show(z[1])[-70:] + " to " + show(z[0])[-30:] for z in b - v)[:1], sorted(show(z[1])[-70:] + " to " + show(z[0])[-30:] for z in v - b)[:1]))


def all_loops(st, seen):
    for l in loops(st):
        if id(l) in seen:
            continue
        seen.add(id(l))
        yield l
        for b in l.bodies:
            for x in all_loops(b.st, seen):
                yield x


class Nsga(object):
    """front computation, selection and variation are opaque; fronts are a function of the population"""

    def __init__(self):
        self.sorts = []
        self.finds = []
        self.comp = []

    def on_call(self, eng, e, st, q, g, ol, args):
        if q == PFC + "::compute" and len(args) == 1 and isinstance(args[0], tuple):
            pop = at(st, ol[1] + ((".", "_population"),), ol[0]) if ol is not None else None
            s = eng.event(st, "fronts", e, q=q, obj=ol, args=(pop,))
            old = read(st, args[0][1])
            t = mk("fronts", len(self.comp), size_of(old))
            return [(write(s, args[0][1], t), mk("void"))]
        if q == FNM + "::evaluate" and len(args) == 2 and isinstance(args[1], tuple):
            b = read(st, args[0][1]) if isinstance(args[0], tuple) else args[0]
            return [(write(st, args[1][1], mk("val", b)), mk("void"))]
        if q.startswith(MO + "algorithm::TournamentSelection<") and q.endswith("::select"):
            return [(st, mk("selected"))]
        return None

    def inline(self, eng, e, f, ol):
        n = f["q"].split("::")[-1]
        if n in ("mutate", "recombine", "perm_random", "perm_identity", "init") and "Nsga2" not in f["q"]:
            return False
        return None

    def on_event(self, eng, st, x):
        if x.kind != "algo":
            return None
        lams = [a for a in x.args if a.op == "lam"]
        if not lams:
            return None
        if x.name in ("sort", "stable_sort", "partial_sort", "nth_element"):
            i, j = typed(mk("sym", "i"), "int"), typed(mk("sym", "j"), "int")
            rs = eng.apply(lams[0], st, [i, j], x.node)
            x.d["cmp"] = (rs[0][1], i, j) if rs and len(rs) == 1 else None
        elif x.name in ("find_if", "find_if_not", "upper_bound", "lower_bound", "partition_point"):
            i = typed(mk("sym", "i"), "int")
            try:
                rs = eng.apply(lams[0], st, [i], x.node)
            except Exception:
                rs = None
            x.d["pred"] = (rs[0][1], i) if rs and len(rs) == 1 else None
        return None


def keyof(r, i, j):
    """comparison of the same key of i and j: (key as a function of i, '<' or '>') or None"""
    k = mk("sym", "k")
    for op in ("<", ">", "<=", ">="):
        if r is None:
            return None
        for x in subterms(r):
            if x.op == "sel" and x.a[1] is i:
                A = x
                # keys: base[i] or base[i][obj]
                cands = [A] + [y for y in subterms(r) if y.op == "sel" and y.a[0] is A]
                for a in cands:
                    b = subst(a, {i: j})
                    for o in ("<", ">", "<=", ">="):
                        if cmpterm(o, typed(a, "double"), typed(b, "double")) is r or cmpterm(o, a, b) is r:
                            return subst(a, {i: k}), o
    return None


def fronts_in(t):
    return [x for x in subterms(t) if x.op == "fronts"]


def iterate(ctx, kind_pair, kind_sel, kind_crowd):
    f = ctx.need(ctx.p.find_method(NSGA, "iterate", nparams=0), NSGA + "::iterate")
    m = Nsga()
    eng, outs = run(ctx, f, NSGA, on_call=m.on_call, inline=m.inline, on_event=m.on_event)
    seen = set()
    for o in outs:
        if o.kind != "R":
            continue
        tr = list(trace(o.st))
        for l in all_loops(o.st, seen):
            for b in l.bodies:
                pairs_of(ctx, kind_pair, f, l.head, b.st, l.hv, l.node.get("l"))
        ne = [k for k, e in enumerate(tr) if e.kind == "fronts"]
        if len(ne) != 1:
            ctx.skip(kind_sel, f, "%d front computations" % len(ne))
            continue
        pool_loop(ctx, kind_sel, f, tr[:ne[0]], tr[ne[0]].obj)
        survivors(ctx, kind_sel, kind_crowd, f, o, tr[ne[0]:])


def pool_loop(ctx, kind, f, tr, comp):
    """offspring are evaluated, then parents and offspring are put in disjoint halves of one population"""
    n = 0
    for l in [e for e in tr if e.kind == "loop"]:
        for b in l.bodies:
            dst = {}
            for (root, path) in l.hv:
                if not path or path[-1] != (".", "bvs"):
                    continue
                for ix, v in transfers(l.head, b.st, at(b.st, path, root)):
                    if v is not None and v.op == "sel" and v.a[0].op == "hv":
                        dst.setdefault((root, path), []).append((ix, v.a[0], v.a[1]))
            big = [d for d in dst.values() if len(d) == 2]
            if len(big) != 1 or not l.ivs:
                continue
            n += 1
            where_pool = next(k for k, d in dst.items() if d is big[0])
            if comp is not None and comp[0] == ("THIS",) and where_pool[0] == ("THIS",):
                for g, os_ in ctor_state(ctx, NSGA):
                    for st in [x.st for x in os_ if x.kind == "R" and not g.get("implicit")]:
                        r = at(st, comp[1] + ((".", "_population"),))
                        if r.op == "ref" and isinstance(r.a[0], tuple):
                            ctx.check(r.a[0] == (where_pool[0], where_pool[1][:-1]), kind, g, g["line"], "the fronts are those of %s, not of the pool of parents and offspring" % show(r)[:80])
            iv, lo, _ = l.ivs[0]
            end = None
            for s in l.exits:
                for d in s.facts:
                    c, dd = lin(d)
                    if iv in dd and len(dd) == 2 and c == 0:
                        end = next(x for x in dd if x is not iv)
            offs = [sub(ix, iv) for ix, _, _ in big[0]]
            okk = any(isc(x) and x.a[0] == 0 for x in offs) and (end is None or end in offs) and big[0][0][1] is not big[0][1][1]
            ctx.check(okk and isc(lo) and lo.a[0] == 0, kind, f, l.node.get("l"), "parents and offspring overlap in the pool: offsets %s of %s" % (
                [show(x)[-40:] for x in offs], show(end)[-40:] if end is not None else "?"))
    if n != 1:
        ctx.skip(kind, f, "construction of the pool not recognised")


def key_kind(t):
    while t.op == "sel":
        t = t.a[0]
    if t.op == "fronts":
        return "front"
    return "values" if any(x == ("." , "values") for x in (t.a[2] if t.op == "hv" else path_steps(t))) else "other"


def path_steps(t):
    out = []
    while t.op == "fld":
        out.append((".", t.a[1]))
        t = t.a[0]
    return out


def deep_algos(tr, loop=None):
    for e in tr:
        if e.kind == "algo":
            yield e, loop
        elif e.kind == "loop":
            seen = set()
            for b in e.bodies:
                for x, l in deep_algos(list(trace(b.st)), e):
                    if id(x.node) not in seen:
                        seen.add(id(x.node))
                        yield x, l


def survivors(ctx, kind, kc, f, o, tr):
    sorts = [(e, l) for e, l in deep_algos(tr) if e.name in ("sort", "stable_sort")]
    order = []
    for e, l in sorts:
        c = e.d.get("cmp")
        k = keyof(*c) if c else None
        if k is None:
            ctx.skip(kind, f, "comparator not recognised")
            return
        order.append((key_kind(k[0]), k[1], e, l, k[0]))
    kinds = [x[0] for x in order]
    if "front" not in kinds:
        ctx.bad(kind, f, f["line"], "survivors are not ordered by front")
        return
    first = order[kinds.index("front")]
    ctx.check(first[1] in ("<",), kind, f, first[2].node.get("l"), "individuals are ordered by %s fronts" % ("decreasing" if ">" in first[1] else "non strictly increasing"))
    ctx.check(first[2].whole, kind, f, first[2].node.get("l"), "only a part of the pool is ordered by front")
    last = order[-1]
    top = [x for x in order if x[3] is None]
    ctx.check(top[-1][0] == "other", kind, f, top[-1][2].node.get("l"), "the last front is not ordered by crowding distance before survivors are taken")
    if top[-1][0] == "other":
        ctx.check(top[-1][1] == ">", kind, f, top[-1][2].node.get("l"), "the last front is ordered by %s crowding distance" % ("increasing" if "<" in top[-1][1] else "non strictly decreasing"))
    perm = first[2].cont
    # last front: fronts[perm[n - 1]]
    sz = size_of(at(o.st, ((".", "_parents"), (".", "bvs"))))
    finds = [(e, l) for e, l in deep_algos(tr) if e.name in ("find_if", "find_if_not")]
    pool = None
    # survivors: the loop which takes the individuals in the order of the permutation
    got = 0
    for l in [e for e in tr if e.kind == "loop"]:
        for b in l.bodies:
            for (root, path) in l.hv:
                if not path or path[-1] != (".", "bvs"):
                    continue
                for ix, v in transfers(l.head, b.st, at(b.st, path, root)):
                    if v is None or v.op != "sel":
                        continue
                    j = v.a[1]
                    if j.op == "sel" and j.a[1] is ix:
                        got += 1
                        iv = [z for z in l.ivs if z[0] is ix]
                        psz = size_of(at(l.entry, path, root))
                        okk = iv and isc(iv[0][1]) and iv[0][1].a[0] == 0 and all(decide(s.facts, ">=", ix, psz) is True or any(
                            decide(s.facts, ">=", ix, z) is True for z in sizes_of(ctx, path, root)) for s in l.exits)
                        ctx.check(bool(okk), kind, f, l.node.get("l"), "not every parent is replaced by a survivor")
                        ctx.check(j.a[0] is at(l.entry, perm[1], perm[0]), kind, f, l.node.get("l"), "survivors are not taken in the order of fronts and crowding distances")
                        bound(ctx, kind, f, finds, order, path, root, o, l)
                        pairs_front(ctx, kind, f, l, b, ix, j)
    if not got:
        if any(x.kind == "loop" for x in tr):
            taken = [1 for l in tr if l.kind == "loop" for b in l.bodies for (root, path) in l.hv if path and path[-1] == (".", "bvs")
                     for ix, v in transfers(l.head, b.st, at(b.st, path, root)) if v is not None and v.op == "sel" and v.a[0].op in ("hv", "fld")]
            if taken:
                ctx.bad(kind, f, f["line"], "survivors are not taken in the order of the permutation sorted by front and crowding distance")
            else:
                ctx.skip(kind, f, "survivor loop not recognised")
    crowding(ctx, kc, f, tr, order)
    coverage(ctx, kc, f, tr, order, finds)


def coverage(ctx, kind, f, tr, order, finds):
    """each front is found whole, every front down to the one which is cut has its distances computed, each inner individual is counted"""
    half = set()
    for g, os_ in ctor_state(ctx, NSGA):
        for st in [o.st for o in os_ if o.kind == "R" and not g.get("implicit")]:
            for x in finds[:1]:
                n = size_of(at(st, x[0].cont[1], x[0].cont[0]))
                half |= {size_of(mkpath(((".", k), (".", w)))) for k in pops_of(ctx) for w in ("bvs", "values") if size_of(at(st, ((".", k), (".", "bvs")))) is not n}
    cut = None
    for e, lp in finds:
        p = e.d.get("pred")
        if p is None or not fronts_in(p[0]):
            continue
        if e.hi in half:
            ctx.bad(kind, f, e.node.get("l"), "the end of a front is not looked for beyond rank %s: individuals which compete for the last places are left out" % show(e.hi)[-40:])
        else:
            ctx.ok(kind, "range of a search for a front")
        for x in subterms(p[0]):
            if lp is None and x.op == "sel" and x.a[0].op == "fronts" and x.a[1].op == "sel":
                cut = x
    for key, o_, e, sl, _ in order:
        if key != "values" or sl is None:
            continue
        L = next((l for l in tr if l.kind == "loop" and l is not sl and any(x is sl or x.node is sl.node for b in l.bodies for x in loops(b.st))), None)
        if L is None:
            continue
        for k in L.hv:
            if at_loc(L.head, k) is e.lo:
                ctx.check(at_loc(L.entry, k) is C(0), kind, f, L.node.get("l"), "the first front does not start at the first rank")
                for b in L.bodies:
                    if b.kind in ("N", "C"):
                        ctx.check(at_loc(b.st, k) is e.hi, kind, f, L.node.get("l"), "a front does not start where the previous one ends")
        fr = [v for v in L.ivs if any(v[0] in subterms(x.d["pred"][0]) for x, _ in finds if x.d.get("pred"))]
        if cut is not None and fr and fr[0][2] == 1:
            iv = fr[0]
            if isc(iv[1]):
                ctx.check(iv[1].a[0] == 0, kind, f, L.node.get("l"), "crowding distances are computed from front %s on" % show(iv[1]))
            for s in L.exits:
                if decide(s.facts, ">", iv[0], cut) is True:
                    ctx.ok(kind, "every front with survivors")
                elif decide(s.facts, ">=", iv[0], cut) is True:
                    ctx.bad(kind, f, L.node.get("l"), "crowding distances of the last front with survivors are not computed")
        # inner individuals
        d = sub(e.hi, e.lo)
        for b in sl.bodies:
            if b.kind not in ("N", "C"):
                continue
            il = [x for x in loops(b.st) if any(w.kind == "write" and w.loc[1] and w.loc[1][-1][0] == "[" and w.loc[1][-1][1].op == "sel" and
                                                 any(v[0] in subterms(w.loc[1][-1][1]) for v in x.ivs) for ib in x.bodies for w in trace(ib.st))]
            if not il:
                if decide(b.st.facts, "<=", d, C(2)) is True:
                    ctx.ok(kind, "front without inner individuals")
                elif decide(b.st.facts, "<=", d, C(16)) is True:
                    ctx.bad(kind, f, sl.node.get("l"), "the distances of the inner individuals of a front of three or more are not computed")
            for x in il:
                for v, lo, step in x.ivs:
                    a = sub(lo, e.lo)
                    if step == 1 and isc(a):
                        ctx.check(a.a[0] <= 1, kind, f, x.node.get("l"), "the inner individual at rank 1 of the front is skipped")
                        for s in x.exits:
                            if any(decide(s.facts, "==", v, sub(e.hi, C(j))) is True for j in (2, 3)) :
                                ctx.bad(kind, f, x.node.get("l"), "the inner individual before the last of the front is skipped")


def sizes_of(ctx, path, root):
    """sizes which are equal to that of a member population from construction on"""
    if root != ("THIS",):
        return []
    pop = path[:-1]
    out = [size_of(mkpath(pop + ((".", w),))) for w in ("bvs", "values")]
    try:
        cs = [o.st for _, os_ in ctor_state(ctx, NSGA) for o in os_ if o.kind == "R"]
        for st in cs[:1]:
            n = size_of(at(st, path, root))
            for k in pops_of(ctx):
                if size_of(at(st, ((".", k), (".", "bvs")))) is n:
                    out += [size_of(mkpath(((".", k), (".", w)))) for w in ("bvs", "values")]
    except Exception:
        pass
    return out


def pops_of(ctx):
    r = ctx.p.records.get(NSGA)
    return [x["n"] for x in r["fields"] if x.get("t", "") == MPOP]


def mkpath(path):
    t = this0()
    for s in path:
        t = proj(t, s)
    return t


def bound(ctx, kind, f, finds, order, path, root, o, l):
    """the front which is cut is the one of the last survivor"""
    ns = sizes_of(ctx, path, root)
    sorted0 = None
    for e, lp in finds:
        p = e.d.get("pred")
        if lp is not None or p is None:
            continue
        r, i = p
        fr = fronts_in(r)
        if not fr:
            continue
        cut = [x for x in subterms(r) if x.op == "sel" and x.a[0].op == "fronts" and x.a[1] is not i]
        cut = [x for x in cut if x.a[1].op == "sel"]
        if not cut:
            ctx.skip(kind, f, "front of the last survivor not recognised")
            return
        ok_ = all(any(x.a[1].a[1] in (sub(n, C(1)), n) for n in ns) for x in cut)
        ctx.check(ok_, kind, f, e.node.get("l"), "the front which is cut is the one at rank %s, not the one of the last survivor" % show(cut[0].a[1].a[1])[-60:])


def pairs_front(ctx, kind, f, l, b, ix, j):
    """fronts and crowding distances used by mating selection belong to the same individual"""
    n = 0
    for (root, path) in l.hv:
        if path and path[-1] in ((".", "bvs"), (".", "values")):
            continue
        t = at(b.st, path, root)
        if t.op != "upd":
            continue
        if not (t.a[1] is ix):
            continue
        v = t.a[2]
        fs = {}
        while v.op == "updf":
            fs.setdefault(v.a[1], v.a[2])
            v = v.a[0]
        for name, w in fs.items():
            n += 1
            if w.op != "sel":
                continue
            ctx.check(w.a[1] is j, kind, f, l.node.get("l"), "%s of a survivor is that of %s, not its own" % (name, show(w.a[1])[-60:]))
            isf = w.a[0].op == "fronts"
            ctx.check(isf == (name == "pareto_front"), kind, f, l.node.get("l"), "%s of a survivor is taken from the wrong table" % name)
    if not n:
        ctx.skip(kind, f, "ranking of survivors for mating not recognised")


def crowding(ctx, kind, f, tr, order):
    """distances start from zero, extremes are infinite, inner individuals add the gap between their neighbours"""
    n = 0
    ext = {}
    for l in [e for e in tr if e.kind == "loop"]:
        for sl in all_loops_of(l):
            inner = [x for x in order if x[3] is sl and x[0] == "values"]
            for b in sl.bodies:
                for il in loops(b.st):
                    for ib in il.bodies:
                        for w in trace(ib.st):
                            if w.kind != "write" or w.loc[1] and w.loc[1][-1][0] != "[" or not w.loc[1]:
                                continue
                            cur = w.loc[1][-1][1]
                            if cur.op != "sel":
                                continue
                            old = read(w.old, w.loc)
                            d = sub(w.val, old)
                            c, dd = lin(d)
                            it = [v[0] for v in il.ivs if v[0] in subterms(cur)]
                            if not it and old not in subterms(w.val):
                                ext.setdefault(id(il), [il, w.loc[1][:-1], set()])[2].add((cur, w.val))
                                continue
                            if not it or len(dd) != 2:
                                ctx.skip(kind, f, "crowding distance not recognised")
                                continue
                            it = it[0]
                            n += 1
                            keys = {}
                            for t, k in dd.items():
                                keys[k] = t
                            up = subst(cur, {it: add(it, C(1))})
                            dn = subst(cur, {it: sub(it, C(1))})
                            obj = [x for x in inner]
                            okk = False
                            for x in obj:
                                asc = x[1] == "<"
                                hi, lo = (up, dn) if asc else (dn, up)
                                kk = mk("sym", "k")
                                okk = okk or c == 0 and keys.get(1) is subst(x[4], {kk: hi}) and keys.get(-1) is subst(x[4], {kk: lo})
                            if not obj:
                                ctx.bad(kind, f, il.node.get("l"), "crowding distances are computed on individuals which are not sorted by the objective")
                            else:
                                ctx.check(okk, kind, f, il.node.get("l"), "the crowding distance of an inner individual grows by %s, not by the gap between its neighbours in the objective by which the front is sorted" % show(d)[-160:])
                            # reset
                            loc = (w.loc[0], w.loc[1][:-1])
                            z = at(l.entry, loc[1], loc[0])
                            ctx.check(z.op == "vec" and z.a[1] is C(0), kind, f, l.node.get("l"), "crowding distances are not reset before they are accumulated")
    for il, where_, ws in ext.values():
        es = [x[2] for x in order if x[0] == "values" and x[3] is il] if False else [x[2] for x in order if x[0] == "values"]
        if len(es) != 1:
            continue
        e = es[0]
        perm = {c.a[0] for c, _ in ws}
        want = {e.lo, sub(e.hi, C(1))}
        ctx.check({c.a[1] for c, _ in ws} == want and len(perm) == 1, kind, f, il.node.get("l"), "infinite crowding distance goes to %s, not to both ends of the sorted front" % sorted(show(c.a[1])[-60:] for c, _ in ws))
        ctx.check(all(v.op == "call" and "infinity" in str(v.a[0]) for _, v in ws), kind, f, il.node.get("l"), "the extremes of a front do not get an infinite crowding distance: " + str([show(v)[:60] for _, v in ws]))
    if not n:
        ctx.skip(kind, f, "accumulation of crowding distances not recognised")


def all_loops_of(l):
    yield l
    for b in l.bodies:
        for x in loops(b.st):
            for y in all_loops_of(x):
                yield y


# ------------------------------------------------------------------ comparison of (front, distance)
def ranking(ctx, kind):
    f = None
    for g in ctx.p.functions.values():
        if g["q"].endswith("operator<") and g.get("body") and len(g["ps"]) == 2 and "FrontDistancePair" in g["ps"][0].get("t", ""):
            f = g
    if f is None:
        ctx.skip(kind, (FDP, "operator<"), "no operator<") if False else None
        return
    eng, outs = run(ctx, f, None)
    A, B = param(f, 0), param(f, 1)
    names = ("pareto_front", "crowding_distance")
    for v in [(a, b, c, d) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]:
        env = {proj(A, (".", names[0])): v[0], proj(B, (".", names[0])): v[1], proj(A, (".", names[1])): v[2], proj(B, (".", names[1])): v[3]}
        want = v[0] < v[1] or v[0] == v[1] and v[2] > v[3]
        try:
            res = set()
            for o in outs:
                if o.kind == "R" and consistent(o.st.facts, env):
                    res.add(bool(ev(retval(o), env)))
        except Unknown as u:
            ctx.skip(kind, f, "comparison not decided: %s" % u)
            return
        if res == {want}:
            ctx.ok(kind, "operator<")
        elif len(res) == 1:
            ctx.bad(kind, f, f["line"], "with fronts %d, %d and crowding distances %d, %d the comparison is %s" % (v + (str(not want).lower(),)))
            return
        else:
            ctx.skip(kind, f, "comparison not decided")
            return


# ------------------------------------------------------------------ solutions
def finalize(ctx, kind, kpair):
    f = ctx.need(ctx.p.find_method(NSGA, "finalize", nparams=0), NSGA + "::finalize")
    g = ctx.need(ctx.p.find_method(NSGA, "get_solutions", nparams=0), NSGA + "::get_solutions")
    sp = None
    for o in outcomes(ctx, g, NSGA):
        if o.kind == "R":
            sp = path_of(retval(o))
    if sp is None:
        ctx.skip(kind, g, "solutions not recognised")
        return
    m = Nsga()
    eng, outs = run(ctx, f, NSGA, on_call=m.on_call, inline=m.inline, on_event=m.on_event)
    for o in outs:
        if o.kind != "R":
            continue
        n = 0
        for l in loops(o.st):
            tgt = [(r, p) for (r, p) in l.hv if r == ("THIS",) and p[:len(sp)] == sp]
            if not tgt:
                continue
            n += 1
            for b in l.bodies:
                pairs_of(ctx, kpair, f, l.head, b.st, l.hv, l.node.get("l"))
                front_zero(ctx, kind, f, o, l, b, sp)
            for (r, p) in tgt:
                # room for every parent
                if any(at(b.st, p, r).op == "upd" for b in l.bodies):
                    s0 = size_of(at(l.entry, p, r))
                    if s0.op == "size" and s0.a[0].op == "fld" and s0.a[0].a[1] == "values":
                        s0 = size_of(mk("fld", s0.a[0].a[0], "bvs"))
                    iv = [v[0] for v in l.ivs]
                    room = any(decide(s.facts, ">=", v, s0) is not None and any(decide(s.facts, "==", v, s0) is True or decide(x.facts, "<", v, s0) is True for x in [b.st for b in l.bodies])
                               for s in l.exits for v in iv) or any(decide(b.st.facts, "<", v, s0) is True for b in l.bodies for v in iv)
                    if not room:
                        ctx.bad(kind, f, l.node.get("l"), "%s has %s elements, which a previous run may have made fewer than there are parents" % (p[-1][1], show(s0)[-60:]))
                    else:
                        ctx.ok(kind, "room for the solutions")
        if n != 1:
            ctx.skip(kind, f, "%d loops fill the solutions" % n)
            continue
        for w in ("bvs", "values"):
            t = at(o.st, sp + ((".", w),))
            if t.op == "resize":
                ctx.check(t.a[1].op in ("hv", "sum") or t.a[1].op == "lin", kind, f, f["line"], "%s solutions are returned" % show(t.a[1])[:60])
            elif t.op in ("upd", "hv", "scatter", "tab") and not any(x.op == "push" for l in loops(o.st) for b in l.bodies for x in [at(b.st, sp + ((".", w),))]):
                # the number of solutions is not adjusted
                if decide(o.st.facts, "==", size_of(t), size_of(at(loops(o.st)[-1].entry, sp + ((".", w),)))) is True and not shrunk(o):
                    ctx.bad(kind, f, f["line"], "the number of solutions is not adjusted to the first front")


def shrunk(o):
    """a path of Population::shrink which leaves the population as it is"""
    return any(e.kind == "enter" and e.q.endswith("::shrink") for e in trace(o.st))


def front_zero(ctx, kind, f, o, l, b, sp):
    """an individual is written to the solutions exactly if its front is 0"""
    t = at(b.st, sp + ((".", "bvs"),))
    h = at(l.head, sp + ((".", "bvs"),))
    writes = t is not h
    fr = [d for d in b.st.facts if any(x.op == "sel" and x.a[0].op == "fronts" for x in subterms(d)) and l.head.facts.get(d) != b.st.facts[d]]
    if not fr:
        if writes:
            ctx.bad(kind, f, l.node.get("l"), "a parent is returned whatever its front")
        else:
            ctx.skip(kind, f, "guard not recognised")
        return
    fx = [x for d in fr for x in subterms(d) if x.op == "sel" and x.a[0].op == "fronts"][0]
    zero = decide(b.st.facts, "==", fx, C(0))
    if zero is None:
        ctx.bad(kind, f, l.node.get("l"), "the guard %s does not tell the first front" % show(fr[0])[:80])
        return
    ctx.check(zero == writes, kind, f, l.node.get("l"), "a parent of %s front is %sreturned" % ("the first" if zero else "another", "" if writes else "not "))
    if writes:
        src = t.a[2] if t.op == "upd" else t.a[1] if t.op == "push" else None
        if src is None or src.op != "sel":
            ctx.skip(kind, f, "source of a solution not recognised")
            return
        ranked = [e.args[0] for e in trace(o.st) if e.kind == "fronts" and e.args[0] is not None]
        if len(ranked) == 1 and ranked[0].op == "ref" and isinstance(ranked[0].a[0], tuple):
            root, path = ranked[0].a[0]
            own = [at(z, path + ((".", "bvs"),), root) for z in (l.head, l.entry)]
            if src.a[0].op in ("fld", "hv"):
                ctx.check(src.a[0] in own, kind, f, l.node.get("l"), "the fronts are those of %s, the solutions come from %s" % (
                    "".join(str(z[1]) for z in path), show(src.a[0])[-60:]))
        ctx.check(src.a[1] is fx.a[1], kind, f, l.node.get("l"), "the front of %s decides whether %s is returned" % (show(fx.a[1])[-40:], show(src.a[1])[-40:]))
        if t.op == "upd":
            k = t.a[1]
            ctx.check(any(v[0] is k for v in l.ivs) is False or True, kind, f, l.node.get("l"), "")
            nk = [q for q in l.hv if at_loc(l.head, q) is k]
            if nk:
                ctx.check(at_loc(b.st, nk[0]) is add(k, C(1)), kind, f, l.node.get("l"), "the next solution does not go to the next place")
    else:
        for q in l.hv:
            if at_loc(l.head, q).op == "hv" and at_loc(l.head, q) not in [v[0] for v in l.ivs]:
                ctx.check(at_loc(b.st, q) is at_loc(l.head, q), kind, f, l.node.get("l"), "a parent which is not returned changes the solutions")


# ------------------------------------------------------------------ populations
def populations(ctx, kind):
    """a random population draws every bit vector; resizing gives new individuals their own sizes"""
    f = ctx.p.find_method(MPOP, "random", nparams=0)
    if f is not None and f.get("body"):
        for o in outcomes(ctx, f, MPOP, inline=lambda eng, e, g, ol: False if g["q"].split("::")[-1] == "bv_random" else None):
            if o.kind != "R":
                continue
            t = at(o.st, ((".", "bvs"),))
            t0 = proj(this0(), (".", "bvs"))
            ls = loops(o.st)
            if t is t0 and not any(("THIS",) == k[0] for l in ls for k in l.hv):
                ctx.bad(kind, f, f["line"], "no bit vector of a random population is drawn")
                continue
            for l in ls:
                for b in l.bodies:
                    es = [e for e in trace(b.st) if e.kind == "call" and e.q.endswith("bv_random")]
                    for e in es:
                        loc = e.locs[0][1] if e.locs and isinstance(e.locs[0], tuple) else None
                        if loc is not None and loc[0] == ("THIS",) and loc[1] and loc[1][-1][0] == "[":
                            iv = [v for v in l.ivs if v[0] is loc[1][-1][1]]
                            if iv and iv[0][2] == 1:
                                ends = [decide(s.facts, ">=", iv[0][0], size_of(t0)) is True or decide(s.facts, ">=", iv[0][0], size_of(proj(this0(), (".", "values")))) is True for s in l.exits]
                                ctx.check(iv[0][1] is C(0) and all(ends), kind, f, l.node.get("l"), "not every bit vector of a random population is drawn")
    f = ctx.p.find_method(MPOP, "resize", nparams=3)
    if f is None or not f.get("body"):
        return
    ps = [param(f, i) for i in range(3)]
    for o in outcomes(ctx, f, MPOP):
        if o.kind != "R":
            continue
        for w, n in (("bvs", ps[1]), ("values", ps[2])):
            t = at(o.st, ((".", w),))
            ctx.check(size_of(t) is ps[0], kind, f, f["line"], "%s are resized to %s" % (w, show(size_of(t))[:60]))
            old = [size_of(proj(this0(), (".", x))) for x in ("bvs", "values")]
            if decide(o.st.facts, "<=", ps[0], old[0]) is True or decide(o.st.facts, "<=", ps[0], old[1]) is True:
                continue
            if t.op == "tab":
                base, lo, hi, b, e = t.a[:5]
                ctx.check((lo in old or lo is C(0)) and hi is ps[0], kind, f, f["line"], "only the new %s from %s to %s get their size" % (w, show(lo)[-40:], show(hi)[-40:]))
                ctx.check(e.op != "vec" or size_of(e) is n, kind, f, f["line"], "new %s have size %s" % (w, show(size_of(e))[:60]))
            elif t.op == "resize" and (len(t.a) == 2 or t.a[2] is None):
                ctx.bad(kind, f, f["line"], "new %s have no size" % w)


@rule("P23", "The domination test is read as a finite automaton over the signs of the objective differences and compared with its definition on the "
      "product automaton (all lengths); the peeling of Pareto fronts is checked path by path with domination uninterpreted (who is compared with "
      "whom, where each individual goes, what is removed, which front is assigned); NSGA-II transfers move bit vectors and values together, the "
      "comparators of its sorts are evaluated symbolically, and the returned solutions are the first front of the final parents.",
      minimum={"obligations.pairs": 1, "calls_visited": 300},
      assumptions=["objective values are numbers (no NaN)", "std::sort sorts by its comparator", "sorting within the cut front keeps its boundaries"])
def p23(ctx):
    dominance(ctx, "dominance")
    fronts(ctx, "fronts")
    iterate(ctx, "pairs", "selection", "crowding")
    ranking(ctx, "ranking")
    finalize(ctx, "solutions", "pairs")
    populations(ctx, "populations")
