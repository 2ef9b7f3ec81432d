"""P06: incremental evaluation."""
from ..core import rule
from ..q import *
from ..absint import assume, cmpterm
from ..poly import expand, pmul, padd, term, bits_of, is_bit, interpolate
from ..models import flip_model, flip_term
from .controllers import may_evaluate
from .decorators import split_bool, implied, DEC, dec_incremental

EI = FN + "::evaluate_incrementally"


def merged(outs):
    """one polynomial for all returning paths, splits on bits resolved"""
    cs = []
    for o in outs:
        if o.kind != "R":
            continue
        g = tuple(sorted(((t, i) for t, i in o.st.facts.items() if bits_of(t)), key=lambda z: z[0].n))
        cs.append((g, retval(o)))
    if not cs:
        return None
    r = interpolate(cs)
    if r is None or len(r) != 1:
        return None
    return r[0][1]


class Atom(object):
    """a term of the energy: local polynomial with bound variables over ranges"""

    def __init__(self, vs, poly):
        self.vs = vs            # [(bvar, lo, hi)]
        self.poly = poly        # {monomial: coef}


def rename(t, b, fresh):
    return subst(t, {b: fresh})


_n = [0]


def fresh(b):
    _n[0] += 1
    return typed(mk("bvar", 1000 + _n[0]), "iv")


def atoms(p):
    """energy polynomial -> atoms, or None if a sum is not in closed form"""
    out = []
    rest = {}
    for m, c in p.items():
        s = [x for x in m if x.op == "sum"]
        if not s:
            rest[m] = c
            continue
        if len(s) != 1:
            return None
        pre = {tuple(x for x in m if x.op != "sum"): c}
        lo, hi, b, g = s[0].a
        if g.op == "cases":
            return None
        f = fresh(b)
        sub_ = atoms(expand(subst(g, {b: f})))
        if sub_ is None:
            return None
        for a in sub_:
            out.append(Atom([(f, lo, hi)] + a.vs, pmul(pre, a.poly)))
    # split the remaining monomials by weight (member element), constants apart
    byw = {}
    for m, c in rest.items():
        w = tuple(x for x in m if not is_bit(x))
        if not m:
            continue
        byw.setdefault(w, {})[m] = c
    for w, q in byw.items():
        out.append(Atom([], q))
    return out


def bits_in(p, x):
    """site terms of bit vector x in a polynomial"""
    out = []
    for m in p:
        for t in m:
            if t.op == "sel" and t.a[0] is x and t not in out:
                out.append(t)
    return out


def weights_in(p):
    out = []
    for m in p:
        for t in m:
            if not is_bit(t) and t not in out:
                out.append(t)
    return out


def match(pat, t, vs, env):
    """first-order matching of pattern variables vs (linear terms: exact or var+const)"""
    if pat in vs:
        if pat in env:
            return env if env[pat] is t else None
        e = dict(env)
        e[pat] = t
        return e
    if not isinstance(pat, T) or not isinstance(t, T):
        return env if pat == t else None
    if pat.op == "lin" and not any(v in subterms(pat) for v in vs):
        return env if pat is t else None
    if pat.op == "lin":
        c, d = lin(pat)
        free = [(k, v) for k, v in d.items() if k in vs]
        if len(free) == 1 and free[0][1] == 1:
            r = sub(t, sub(pat, free[0][0]))
            return match(free[0][0], r, vs, env)
        return None
    if pat.op != t.op or len(pat.a) != len(t.a):
        return None
    for a, b in zip(pat.a, t.a):
        env = match(a, b, vs, env)
        if env is None:
            return None
    return env


def psubst(p, m):
    r = {}
    for mono, c in p.items():
        q = {(): c}
        for t in mono:
            q = pmul(q, expand(subst(t, m)))
        r = padd(r, q)
    return r


class Canon(object):
    """rewrite with the case guard: index = n*(index/n) + index%n, equalities of the guard"""

    def __init__(self, guard, idx, D0):
        self.n = None
        for t in [D0] + [g for g, _ in guard]:
            for x in subterms(t):
                if x.op in ("/", "%") and x.a[0] is idx:
                    self.n = x.a[1]
        self.idx = idx
        self.eqs = []
        for t, i in guard:
            if i[0] is not None and i[0] == i[2]:
                self.eqs.append((t, i[0]))

    def term(self, t):
        n = self.n
        m = {}
        if n is not None:
            q = typed(mk("sym", "QUO"), "int")
            r = typed(mk("sym", "REM"), "int")
            m0 = {mk("/", self.idx, n): q, mk("%", self.idx, n): r}
            t = subst(t, m0)
            t = subst(t, {self.idx: add(mul(q, n), r)})
        else:
            q = r = m0 = None
        for d, c in self.eqs:
            if m0:
                d = subst(d, m0)
            cc, dd = lin(sub(d, C(c)))
            for v in ([q, r] if q is not None else []) + [self.idx]:
                if v in dd and abs(dd[v]) == 1:
                    val = mul(sub(mul(v, C(dd[v])), sub(d, C(c))), C(dd[v]))
                    m[v] = val
                    break
        for _ in range(3):
            t = subst(t, m)
        return normidx(t)

    def poly(self, p):
        r = {}
        for mono, c in p.items():
            x = {(): c}
            for t in mono:
                x = pmul(x, expand(self.term(t)))
            r = padd(r, x)
        return r


def normidx(t):
    """expand products inside element indices"""
    m = {}
    for x in subterms(t):
        if x.op == "sel":
            i = term(expand(x.a[1]))
            if i is not x.a[1]:
                m[x.a[1]] = i
    return subst(t, m) if m else t


@rule("P06", "closed forms of counting loops (value numbering + sums) give evaluate() as a polynomial energy over bits; every case of every loop of "
      "evaluate_incrementally() over the flipped bits must be the exact change of one energy term, each term being covered at each of its sites once; "
      "path facts guard every call of incremental evaluation",
      minimum={"obligations.advertise": 10, "obligations.delta": 10, "obligations.guarded-call": 3},
      assumptions=["flipped bits are distinct and in range", "arithmetic over the reals (rounding aside)"])
def p06(ctx):
    base = FN
    for cls in concrete_subclasses(ctx, FN):
        if ctx.p.is_subclass(cls, DEC):
            dec_incremental(ctx, cls)
            continue
        f = method(ctx, cls, "provides_incremental_evaluation", 0)
        g = method(ctx, cls, "evaluate_incrementally", 3)
        implemented = g.get("cls") != FN
        may = False
        for o in outcomes(ctx, f, cls):
            tv, v = split_bool(o)
            if tv is not False:
                may = True
                ctx.check(implemented, "advertise", f, where(o, f), "%s offers incremental evaluation without implementing it" % cls)
            else:
                ctx.ok("advertise", cls)
        if implemented and may:
            delta(ctx, cls, g)
    guarded(ctx)


def delta(ctx, cls, g):
    kind = "delta"
    f = method(ctx, cls, "evaluate", 1)
    try:
        eouts = outcomes(ctx, f, cls, on_call=flip_model, assume_asserts=False)
        iouts = outcomes(ctx, g, cls, on_call=flip_model, assume_asserts=False)
    except TooComplex as e:
        ctx.skip(kind, g, str(e))
        return
    x, v, fl = param(g, 0), param(g, 1), param(g, 2)
    for o in iouts:
        if o.kind == "R":
            ctx.check(thisv(o.st) is this0(), "scratch", g, where(o, g), "incremental evaluation leaves the function in another state: %s" % show(thisv(o.st)))
            ctx.check(getroot(o.st, ("P", g["ps"][0]["n"])) is x, "scratch", g, where(o, g), "incremental evaluation changes the bit vector")
    E, I = merged(eouts), merged(iouts)
    if E is None or I is None:
        ctx.skip(kind, g, "no closed form")
        return
    E = subst(E, {param(f, 0): x})
    at_ = atoms(expand(E))
    d = expand(sub(I, v))
    if at_ is None or any(m and not (len(m) == 1 and m[0].op == "sum") for m in d):
        ctx.skip(kind, g, "no closed form: %s" % show(sub(I, v)))
        return
    if mentions(sub(I, v), v) or not any(m for m in d):
        ctx.bad(kind, g, g["line"], "the new value is not the old one plus a change: %s" % show(I))
        return
    if any(t.op == "hv" for a in at_ for m in a.poly for y in m for t in subterms(y)):
        ctx.skip(kind, g, "evaluate() is not in closed form")
        return
    nbits = getter_term(ctx, cls, "get_bv_size")
    used = {}
    for mono, c in d.items():
        if not mono:
            ctx.bad(kind, g, g["line"], "constant change %s" % c)
            continue
        lo, hi, b, body = mono[0].a
        if not (isc(lo) and lo.a[0] == 0 and hi is size_of(fl)):
            ctx.bad(kind, g, g["line"], "not all flipped bits are visited: from %s to %s" % (show(lo), show(hi)))
            continue
        idx = mk("sel", fl, b)
        cases = body.a[0] if body.op == "cases" else (((), body),)
        for guard, val in cases:
            cn = Canon(guard, idx, D0=val)
            D = cn.poly(pmul({(): c}, expand(val)))
            hits = []
            for ai, a in enumerate(at_):
                for si, env in instances(a, D, x, cn.term(idx)):
                    if same_delta(a, env, si, D, x, idx, fl, cn):
                        hits.append((ai, si))
                        in_range(ctx, g, a, env, x, idx, cn, guard, nbits)
            if not ctx.check(bool(hits), kind, g, g["line"], "change %s%s is not the change of an energy term of evaluate()" % (show(val, 12), (" when " + "; ".join("%s in [%s,%s]" % (show(t), i[0], i[2]) for t, i in guard)) if guard else "")):
                continue
            for h in hits:
                used.setdefault(h, []).append(guard)
    for ai, a in enumerate(at_):
        for si in range(len(bits_in(a.poly, x))):
            u = used.get((ai, si), [])
            what = "energy term %s (site %d)" % (show(term(a.poly), 12), si + 1)
            ctx.check(len(u) >= 1, "cover", g, g["line"], "%s is not updated by incremental evaluation" % what)
            ctx.check(len(u) <= 1, "cover", g, g["line"], "%s is updated %d times" % (what, len(u)))


def instances(a, D, x, idx):
    """substitutions of the bound variables of a suggested by D, with the index of the site equal to idx"""
    vs = [v for v, _, _ in a.vs]
    sites = bits_in(a.poly, x)
    envs = []
    ws = [w for w in weights_in(a.poly) if any(v in subterms(w) for v in vs)]
    if not vs:
        envs = [{}]
    elif ws:
        for w in weights_in(D):
            e = match(ws[0], w, vs, {})
            if e is not None and e not in envs:
                envs.append(e)
    else:
        for s in sites:
            e = match(s.a[1], idx, vs, {})
            if e is not None and e not in envs:
                envs.append(e)
    for e in envs:
        if len(e) == len(vs):
            for si in range(len(sites)):
                yield si, e


def same_delta(a, env, si, D, x, idx, fl, cn):
    loc = psubst(a.poly, env)
    sites = [subst(s, env) for s in bits_in(a.poly, x)]
    here = cn.term(sites[si])
    ic = cn.term(mk("sel", x, idx))
    if here is not ic:
        return False
    p = cn.poly(loc)
    others = [cn.term(s) for j, s in enumerate(sites) if j != si]
    if ic in others:
        return False
    new = {}
    for mono, c in p.items():
        q = {(): c}
        for t in mono:
            q = pmul(q, {(): 1, (t,): -1} if t is ic else {(t,): 1})
        new = padd(new, q)
    want = padd(new, p, -1)
    got = D
    if others:
        F = [t for m in got for t in m if t.op == "sel" and t.a[0].op == "flip"]
        if not F or any(t.a[0].a[1] is not fl for t in F):
            return False
        base = F[0].a[0]
        for o in others:
            fo = typed(mk("sel", base, o.a[1]), F[0].ty)
            want = pmul(want, {(): 1, (fo,): -1})
    if got != want:
        return False
    return True


def in_range(ctx, g, a, env, x, idx, cn, guard, nbits):
    """the instance lies in the range of the energy term, given the guard and 0 <= index < bv size"""
    sz = {size_of(x): nbits}
    facts = {}
    st = State({}, {}, None, None)

    def assume_(op, l, r):
        nonlocal st
        s2 = assume(st, cmpterm(op, l, r), True)
        if s2 is not None:
            st = s2
    ci = term(expand(cn.term(idx)))
    if cn.n is not None:
        q, r = typed(mk("sym", "QUO"), "int"), typed(mk("sym", "REM"), "int")
        n = subst(cn.n, sz)
        assume_(">=", q, C(0))
        assume_(">=", r, C(0))
        assume_("<", r, n)
        # bv size = rows * n: the quotient is below rows
        for m, c in expand(nbits).items():
            if c == 1 and n in m and len(expand(nbits)) == 1:
                rows = C(1)
                left = list(m)
                left.remove(n)
                for z in left:
                    rows = mul(rows, z)
                assume_("<", q, rows)
                assume_(">=", rows, C(1))
        assume_(">=", n, C(1))
    else:
        assume_(">=", idx, C(0))
        assume_("<", idx, nbits)
    assume_(">=", nbits, C(1))
    for t, i in guard:
        t = subst(t, {mk("/", idx, cn.n): mk("sym", "QUO"), mk("%", idx, cn.n): mk("sym", "REM")}) if cn.n is not None else t
        t = subst(t, sz)
        if i[0] is not None:
            assume_(">" if i[1] else ">=", t, C(i[0]))
        if i[2] is not None:
            assume_("<" if i[3] else "<=", t, C(i[2]))
        for v in i[4]:
            assume_("!=", t, C(v))
    for v, lo, hi in a.vs:
        e = subst(env[v], sz)
        ok1 = decide(st.facts, ">=", e, subst(lo, sz))
        ok2 = decide(st.facts, "<", e, subst(hi, sz))
        ctx.check(ok1 is True and ok2 is True, "range", g, g["line"], "evaluate() has no such energy term for every such index: %s in [%s, %s)" % (show(e), show(lo), show(hi)))


def guarded(ctx):
    """every call of incremental evaluation from outside functions happens on a path where the function provides it"""
    ctx.count("guard_scan")
    callers = {}
    for f in ctx.p.functions.values():
        if ctx.p.is_subclass(f.get("cls") or "", FN):
            continue
        for c in nodes(f, "call"):
            if c.get("q") == EI:
                callers.setdefault(f["id"], f)
    roots = [f for f in callers.values()]
    for f in roots:
        cls = f.get("cls")
        # entry points: public/virtual methods of the class hierarchy reaching f
        entries = set()
        todo, seen = [f["id"]], {f["id"]}
        while todo:
            k = todo.pop()
            g = ctx.p.functions[k]
            ups = [h for h in ctx.p.functions.values() if any(c.get("id") == k for c in nodes(h, "call"))]
            if not ups:
                entries.add(k)
            virt = g["n"] in ("iterate", "init", "maximize", "loop")
            if virt:
                entries.add(k)
                continue
            for h in ups:
                if h["id"] not in seen:
                    seen.add(h["id"])
                    todo.append(h["id"])
        for k in entries:
            g = ctx.p.functions[k]
            c = g.get("cls")
            for o in outcomes(ctx, g, c, on_call=flip_model):
                for ev in calls(o, lambda e: e.kind == "call" and e.q == EI):
                    facts = ev.before.facts if "before" in ev.d else ev.st.facts
                    ok = any(t.op == "call" and t.a[0] == FN + "::provides_incremental_evaluation" and i[0] is not None and i[0] >= 1 for t, i in facts.items())
                    ctx.check(ok, "guarded-call", g, ev.node["l"], "incremental evaluation is requested without checking that the function provides it")
