"""P10: moves of neighborhoods, sampled bits, propose/keep/forget protocol, neighborhood iterators."""
from ..core import rule
from ..q import *
from ..absint import write, decide, cmpterm, State
from ..models import flip_model, flip_term
from ..effects import Effects
from ..terms import lin, add, sub, subst
from ..values import Values, Unknown
from .solutions import ALG, FN, NBH
from .population import at_loc, loops

ITER = "hnco::Iterator"


def library(ctx, base):
    return [c for c in concrete_subclasses(ctx, base) if ctx.p.records[c].get("file", "").startswith("lib/hnco")]


def paths(ctx):
    return [ctx.need(getter_path(ctx, NBH, g), NBH + "::" + g) for g in ("get_origin", "get_candidate", "get_flipped_bits")]


def run(ctx, f, cls, **kw):
    eng = Engine(ctx.p, **kw)
    outs = eng.run(f, cls=cls)
    ctx.functions |= eng.nfun
    ctx.count("calls_visited", eng.ncall)
    return eng, outs


def moves(ctx, kind):
    po, pc, pf = paths(ctx)
    at0 = lambda p: at(State({}, {}, None, None), p)
    o0, c0, f0 = at0(po), at0(pc), at0(pf)
    seen = set()
    for cls in [NBH] + library(ctx, NBH):
        for name, n in (("set_origin", 1), ("propose", 0), ("keep", 0), ("forget", 0), ("mutate", 1), ("map", 2)):
            f = ctx.p.find_method(cls, name, nparams=n)
            if f is None or not f.get("body"):
                continue
            key = f["id"]
            if key in seen:
                continue
            seen.add(key)
            try:
                eng, outs = run(ctx, f, f.get("cls") or cls, on_call=flip_model, modsets=True, closed_world=True)
            except TooComplex as e:
                ctx.skip(kind, f, str(e))
                continue
            for o in outs:
                if o.kind != "R":
                    continue
                oo, cc, ff = at(o.st, po), at(o.st, pc), at(o.st, pf)
                # the engine assumes assertions: candidate and origin agree when idle
                same = {c0: o0}
                L = f["line"]
                if name == "set_origin":
                    x = param(f, 0)
                    ctx.check(oo is x and cc is x, kind, f, L, "after set_origin the origin is %s and the candidate %s" % (show(oo)[:80], show(cc)[:80]))
                elif name == "propose":
                    ctx.check(oo is o0, kind, f, L, "propose changes the origin")
                    ctx.check(ff is not f0, kind, f, L, "propose samples no bits")
                    ctx.check(cc in (flip_term(c0, ff), flip_term(o0, ff)), kind, f, L, "the candidate is %s, not the origin with the reported bits flipped" % show(cc)[:120])
                elif name == "keep":
                    ctx.check(oo in (flip_term(o0, f0), c0), kind, f, L, "keep makes the origin %s, not the candidate" % show(oo)[:120])
                    ctx.check(cc in (c0, flip_term(o0, f0)), kind, f, L, "keep changes the candidate")
                elif name == "forget":
                    ctx.check(cc in (flip_term(c0, f0), o0), kind, f, L, "forget makes the candidate %s, not the origin" % show(cc)[:120])
                    ctx.check(oo is o0, kind, f, L, "forget changes the origin")
                elif name == "mutate":
                    y = at_loc(o.st, (("P", f["ps"][0]["n"]), ()))
                    ctx.check(ff is not f0 and y is flip_term(param(f, 0), ff), kind, f, L, "the mutated bit vector is %s" % show(y)[:120])
                elif name == "map":
                    y = at_loc(o.st, (("P", f["ps"][1]["n"]), ()))
                    x = at_loc(o.st, (("P", f["ps"][0]["n"]), ()))
                    ctx.check(x is param(f, 0), kind, f, L, "map changes its input")
                    ctx.check(ff is not f0 and y is flip_term(param(f, 0), ff), kind, f, L, "the output is %s, not the mutated input" % show(y)[:120])
                if name in ("mutate", "map"):
                    ctx.check(oo is o0 and cc is c0, kind, f, L, "%s moves the neighborhood itself" % name)


def alltrace(st):
    for e in trace(st):
        yield e
        if e.kind == "loop":
            for b in e.bodies:
                for x in alltrace(b.st):
                    yield x


def pushes(t, base):
    """elements pushed on base to make t, or None"""
    out = []
    while t is not base:
        if t.op != "push":
            return None
        out.append(t.a[1])
        t = t.a[0]
    return out[::-1]


def empty(t):
    n = size_of(t)
    return isc(n) and n.a[0] == 0


def sampling(ctx, kind):
    po, pc, pf = paths(ctx)
    # the index distribution covers the bit vector
    for cls in library(ctx, NBH):
        f = ctx.p.find_method(cls, "sample_bits", nparams=0)
        if f is None or not f.get("body"):
            ctx.skip(kind, cls, "no sampling function")
            continue
        fields = Effects(ctx.p).this_fields(f)
        moved = [p for p in (po, pc) if fields is None or p[0][1] in fields]
        ctx.check(not moved, kind, f, f["line"], "sampling bits may change the origin or the candidate")
        try:
            eng, outs = run(ctx, f, cls, on_call=flip_model)
        except TooComplex as e:
            ctx.skip(kind, f, str(e))
            continue
        for o in outs:
            if o.kind == "R":
                sampled(ctx, kind, f, cls, o, pf)
    radius(ctx, kind)


def sampled(ctx, kind, f, cls, o, pf):
    f0 = at(State({}, {}, None, None), pf)
    top = [e for e in trace(o.st) if e.kind == "loop" and touches(e, pf)]
    fl = at(o.st, pf)
    if not top:
        # fixed number of bits, drawn one by one
        if fl is f0:
            ctx.bad(kind, f, f["line"], "no bits are sampled")
            return
        n = 0
        t = fl
        while t.op == "upd":
            ctx.check(isc(t.a[1]), kind, f, f["line"], "bits are stored at %s" % show(t.a[1])) if not isc(t.a[1]) else None
            n += 1
            t = t.a[0]
        if t.op == "vec" or t.op == "push" or t is f0:
            if n == 1 and t is f0 or t.op == "push" and n == 0 and empty(t.a[0]):
                ctx.ok(kind, f["q"])
            elif t.op == "push" and mentions(t, f0):
                ctx.bad(kind, f, f["line"], "bits of the previous sample are kept")
            else:
                ctx.skip(kind, f, "sample not recognised: " + show(fl)[:100])
        else:
            ctx.skip(kind, f, "sample not recognised: " + show(fl)[:100])
        return
    for i, le in enumerate(top):
        e0 = at(le.entry, pf)
        h = at(le.head, pf)
        fresh = all(not mentions(at(b.st, pf), h) for b in le.bodies if b.kind in ("N", "C", "B"))
        ctx.check(empty(e0) or fresh or i > 0, kind, f, le.node.get("l"), "bits of the previous sample are kept: sampling starts with %s" % show(e0)[:80])
        inner(ctx, kind, f, le, pf)


def touches(le, pf):
    h = at(le.head, pf)
    return any(at(b.st, pf) is not h for b in le.bodies)


def inner(ctx, kind, f, le, pf):
    subs = [x for b in le.bodies for x in trace(b.st) if x.kind == "loop" and touches(x, pf)]
    for s in subs:
        inner(ctx, kind, f, s, pf)
    if subs:
        return
    h = at(le.head, pf)
    for b in le.bodies:
        t = at(b.st, pf)
        if b.kind not in ("N", "C") or t is h:
            continue
        ps = pushes(t, h)
        if ps is None:
            ctx.skip(kind, f, "sampled bits not recognised: " + show(t)[:80])
            continue
        if len(ps) != 1:
            ctx.bad(kind, f, le.node.get("l"), "%d bits are sampled at once" % len(ps)) if len(set(ps)) < len(ps) else ctx.skip(kind, f, "several bits sampled at once")
            continue
        x = ps[0]
        iv = [v for v in le.ivs if v[0] is x]
        if iv:
            lo, step = iv[0][1], iv[0][2]
            ctx.check(step != 0, kind, f, le.node.get("l"), "the same bit is sampled again")
            hi = None
            for k, t2 in le.closed.items():
                if at_loc(le.head, k) is x:
                    hi = t2
            if step == 1:
                ctx.check(isc(lo) and lo.a[0] == 0, kind, f, le.node.get("l"), "bits before %s are never sampled" % show(lo))
                if hi is not None:
                    ctx.check(hi.op == "size", kind, f, le.node.get("l"), "only bits in [%s, %s) are sampled" % (show(lo), show(hi)))
            continue
        c, d = lin(x)
        if len(d) == 1 and c != 0 and any(v[0] in d for v in le.ivs):
            ctx.bad(kind, f, le.node.get("l"), "position %s is flipped when position %s is drawn" % (show(x), show(sub(x, C(c)))))
            continue
        # drawn at random: must be known to be absent
        absent = False
        for t2, ivl in b.st.facts.items():
            if t2.op == "lin":
                dd = dict(t2.a[1])
                ps2 = [z for z in dd if z.op == "pos" and z.a[1] is h and len(z.a[4]) == 1 and z.a[4][0] is x and z.a[0] == "find"]
                if ps2 and any(z is size_of(h) for z in dd) and ivl[0] == 0 and ivl[2] == 0:
                    absent = True
        for t2, ivl in b.st.facts.items():
            if t2.op == "algo" and t2.a[0] in ("count", "any_of", "none_of") and t2.a[1] is h:
                absent = True
        if absent:
            ctx.ok(kind, f["q"])
        elif "distribution" in show(x, 12) or x.op == "hv":
            ctx.bad(kind, f, le.node.get("l"), "a bit can be sampled twice: nothing excludes that %s has already been drawn" % show(x)[:80])
        else:
            ctx.skip(kind, f, "sampled position not recognised: " + show(x)[:80])
    selection(ctx, kind, f, le, pf)
    # as many draws as asked for
    if le.closed and any("distribution" in show(y, 12) or y.op == "hv" for b in le.bodies if b.kind == "N" for y in (pushes(at(b.st, pf), h) or [])) \
            and not any(v[0] in (pushes(at(b.st, pf), h) or []) for v in le.ivs for b in le.bodies):
        for b in le.bodies:
            if b.kind == "N":
                ctx.check(at(b.st, pf) is not h, kind, f, le.node.get("l"), "a round of rejection sampling can end without a bit")
        for k, t in le.closed.items():
            v = [w for w in le.ivs if w[0] is at_loc(le.head, k)]
            if v:
                ctx.check(isc(v[0][1]) and v[0][1].a[0] == 0 and (not lin(t)[0]), kind, f, le.node.get("l"),
                          "rejection sampling runs over [%s, %s)" % (show(v[0][1]), show(t)))


def selection(ctx, kind, f, le, pf):
    """sequential sampling of k positions among n: position i is taken iff a draw in [0, 1) is below (left to take) / (positions left)"""
    h = at(le.head, pf)
    took = [b for b in le.bodies if b.kind in ("N", "C") and at(b.st, pf) is not h]
    left = [b for b in le.bodies if b.kind in ("N", "C") and at(b.st, pf) is h]
    pos = [x for b in took for x in (pushes(at(b.st, pf), h) or [])]
    ivs = {v[0]: v for v in le.ivs}
    if len(took) != 1 or not left or len(pos) != 1 or pos[0] not in ivs:
        return
    for d, iv in took[0].st.facts.items():
        if le.head.facts.get(d) == iv or d.op != "lin":
            continue
        c, m = lin(d)
        draw = [t for t in m if t.op == "call" and "uniform_real_distribution" in str(t.a[0])]
        quot = [t for t in m if t.op == "/"]
        if len(draw) != 1 or len(quot) != 1 or len(m) != 2 or c != 0:
            continue
        k, n = quot[0].a
        loc = [r for r in le.head.mem if r[0] == "L" and getroot(le.head, r) is k]
        if not loc:
            continue        # a constant probability
        up = m[quot[0]] > 0
        if m[draw[0]] != -m[quot[0]] or (iv[0] if up else iv[2]) != 0 or not (iv[1] if up else iv[3]):
            ctx.bad(kind, f, le.node.get("l"), "a position is taken although the draw is not strictly below (left to take) / (positions left): another number of bits than asked for")
            return
        a = getroot(took[0].st, loc[0])
        if not ctx.check(a is sub(k, C(1)) and all(getroot(z.st, loc[0]) is k for z in left), kind, f, le.node.get("l"), "the number of bits left to take is not counted down exactly when one is taken"):
            return
        i = ivs[pos[0]]
        hi = next((t2 for z, t2 in le.closed.items() if at_loc(le.head, z) is i[0]), None)
        if n in ivs:
            ok = ivs[n][2] == -i[2] and (hi is None or ivs[n][1] is sub(hi, i[1]))
        else:
            c2, m2 = lin(n)
            if hi is not None and n is sub(hi, i[0]):
                ok = True
            elif n.op == "hv" or n.op == "size" or isc(n):
                ok = False
            else:
                ctx.skip(kind, f, "positions left: " + show(n)[:80])
                return
        ctx.check(ok, kind, f, le.node.get("l"), "the number of positions left is not counted down once per position: another number of bits than asked for can be sampled")
        return


def setter_path(ctx, cls, name):
    """member that a setter assigns its parameter to"""
    f = ctx.p.find_method(cls, name, nparams=1)
    if f is None or not f.get("body"):
        return None
    for o in outcomes(ctx, f, cls):
        if o.kind != "R":
            continue
        t = thisv(o.st)
        while t.op == "updf":
            if t.a[2] is param(f, 0):
                return ((".", t.a[1]),)
            t = t.a[0]
    return None


def radius(ctx, kind):
    """the sphere flips its radius, the ball between one and its radius, standard bit mutation at least one bit unless allowed"""
    pf = paths(ctx)[2]
    cls = "hnco::neighborhood::HammingSphere"
    if cls in ctx.p.records:
        r = setter_path(ctx, cls, "set_radius")
        f = ctx.p.find_method(cls, "sample_bits", nparams=0)
        if r and f is not None:
            R = at(State({}, {}, None, None), r)
            for o in run(ctx, f, cls)[1]:
                if o.kind != "R":
                    continue
                for le in trace(o.st):
                    if le.kind == "loop" and touches(le, pf):
                        for k, t in le.closed.items():
                            if at_loc(le.head, k) in [v[0] for v in le.ivs if v[2] == 1 and isc(v[1])] and t.op != "size":
                                ctx.check(t is R, kind, f, le.node.get("l"), "%s bits are flipped instead of the radius" % show(t)[:80])
    cls = "hnco::neighborhood::HammingBall"
    if cls in ctx.p.records:
        for f, outs in ctor_state(ctx, cls):
            for o in outs:
                if o.kind != "R":
                    continue
                for t in subterms(thisv(o.st)):
                    if t.op == "ctor" and "uniform_int_distribution" in str(t.a[0]):
                        vs = [z for z in subterms(t) if isc(z)]
                        ps = [param(f, i) for i in range(len(f["ps"]))]
                        if len(ps) == 2 and mentions(t, ps[1]):
                            ctx.check(any(z.a[0] == 1 for z in vs) and not any(z.a[0] == 0 for z in vs), kind, f, f["line"], "the distance of the ball is drawn from %s" % show(t)[:100])
    cls = "hnco::neighborhood::StandardBitMutation"
    if cls in ctx.p.records:
        a = setter_path(ctx, cls, "set_allow_no_mutation")
        f = ctx.p.find_method(cls, "sample_bits", nparams=0)
        if a and f is not None:
            A = at(State({}, {}, None, None), a)
            for o in run(ctx, f, cls, assume_asserts=False)[1]:
                if o.kind != "R":
                    continue
                used = any(mentions(t, A) for t in o.st.facts)
                for e in alltrace(o.st):
                    if e.kind == "loop":
                        used = used or any(mentions(t, A) for s in [e.entry] + [b.st for b in e.bodies] for t in list(s.facts) + [v for k, v in s.mem.items() if k[0] == "L"])
                ctx.check(used, kind, f, f["line"], "one way of sampling ignores whether an empty mutation is allowed")
                if decide(o.st.facts, "==", A, C(0)) is True:
                    for le in trace(o.st):
                        if le.kind == "loop" and touches(le, pf):
                            for k, t in le.closed.items():
                                if at_loc(le.head, k) in [v[0] for v in le.ivs] and t.op != "size" and isc([v for v in le.ivs if v[0] is at_loc(le.head, k)][0][1]):
                                    d = decide(o.st.facts, "!=", t, C(0))
                                    d = True if d is None and decide(o.st.facts, ">", t, C(0)) else d
                                    ctx.check(d is True, kind, f, le.node.get("l"), "an empty mutation is possible although it is not allowed")


# ------------------------------------------------------------------ protocol
IDLE, OUT = "idle", "proposed"


class Protocol(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = {}
        self.n = 0

    def on_call(self, eng, e, st, q, g, ol, args):
        if q.startswith(NBH) or any(q.startswith(c + "::") for c in self.nb):
            m = q.rsplit("::", 1)[-1]
            if m in ("propose", "keep", "forget", "set_origin"):
                self.n += 1
                s0 = st.rs or IDLE
                f = eng.cur()[0]
                if m == "propose":
                    if s0 == OUT:
                        self.bad[(f["q"], e.get("l"), "a move is proposed while the previous one is neither kept nor forgotten")] = f
                    s1 = OUT
                elif m in ("keep", "forget"):
                    if s0 == IDLE:
                        self.bad[(f["q"], e.get("l"), "%s without a proposed move" % m)] = f
                    s1 = IDLE
                else:
                    s1 = IDLE
                s = st.copy()
                s.rs = s1
                return [(s, mk("void"))]
            return eng.opaque(e, st, q, g, ol, args)
        if q.startswith(FN) or q.startswith("hnco::algorithm::Population") or not q.startswith("hnco::algorithm"):
            return None if q.startswith("std::") or g is None else eng.opaque(e, st, q, g, ol, args)
        return None


def protocol(ctx, kind):
    nb = [c for c in ctx.p.subclasses(NBH)]
    for cls in library(ctx, ALG):
        fs = [ctx.p.find_method(cls, n, nparams=0) for n in ("init", "iterate")]
        if not any(f is not None and f.get("body") and reaches(ctx, f) for f in fs):
            continue
        for f in fs:
            if f is None or not f.get("body"):
                continue
            m = Protocol(ctx)
            m.nb = nb
            try:
                eng = Engine(ctx.p, on_call=m.on_call, modsets=True, closed_world=True, keep_trace=False, max_states=200)
                outs = eng.run(f, cls=cls, st=State({}, {}, IDLE, None))
            except TooComplex as e:
                ctx.skip(kind, f, "%s: %s" % (cls, e))
                continue
            ctx.count("calls_visited", eng.ncall)
            ends = {o.st.rs or IDLE for o in outs if o.kind == "R"}
            for (q, l, what), g in sorted(m.bad.items(), key=str):
                ctx.bad(kind, g, l, what)
            if OUT in ends:
                ctx.bad(kind, f, f["line"], "%s can end with a proposed move neither kept nor forgotten" % f["q"])
            elif not m.bad and m.n:
                ctx.ok(kind, "%s: %s" % (cls, f["q"]))


def reaches(ctx, f, seen=None):
    seen = seen if seen is not None else set()
    if f["id"] in seen:
        return False
    seen.add(f["id"])
    for n in walk(f["body"]):
        if n.get("k") == "call" and n.get("q"):
            if n["q"] == NBH + "::propose":
                return True
            g = ctx.p.functions.get(n.get("id"))
            if g is not None and g.get("body") and g["q"].startswith("hnco::algorithm") and reaches(ctx, g, seen):
                return True
    return False


# ------------------------------------------------------------------ iterators
def initial_flag(ctx):
    f = ctx.need(method(ctx, ITER, "init", 0), ITER + "::init")
    for o in outcomes(ctx, f, ITER):
        t = thisv(o.st)
        while t.op == "updf":
            if isc(t.a[2]) and t.a[2].a[0] == 1:
                return ((".", t.a[1]),)
            t = t.a[0]
    raise AnalysisBroken("initial state of iterators")


def iterators(ctx, kind):
    ini = initial_flag(ctx)
    st0 = State({}, {}, None, None)
    for cls in library(ctx, ITER):
        f = ctx.p.find_method(cls, "next", nparams=0)
        if f is None or not f.get("body"):
            continue
        try:
            eng, outs = run(ctx, f, cls, on_call=flip_model)
        except TooComplex as e:
            ctx.skip(kind, f, str(e))
            continue
        I0 = at(st0, ini)
        for o in outs:
            if o.kind != "R":
                continue
            i1 = at(o.st, ini)
            first = decide(o.st.facts, "!=", I0, C(0))
            if first is None:
                ctx.skip(kind, f, "first call not told apart")
                continue
            if first:
                ctx.check(isc(i1) and i1.a[0] == 0, kind, f, f["line"], "the iterator stays in its initial state")
            else:
                ctx.check(i1 is I0 or isc(i1) and i1.a[0] == 0, kind, f, f["line"], "the iterator falls back to its initial state")
        if cls.endswith("::SingleBitFlipIterator"):
            single(ctx, kind, f, cls, outs, I0)
        if cls.endswith("::HammingSphereIterator"):
            sphere(ctx, kind, f, cls, outs, I0)


def flips(t, base):
    """positions flipped one by one to make t out of base"""
    out = []
    while t is not base:
        if t.op != "upd":
            return None
        i, v = t.a[1], t.a[2]
        if v.op == "^" and any(isc(z) and z.a[0] == 1 for z in v.a):
            out.append(i)
        elif v.op == "ite" or v.op == "lin":
            out.append(i)
        else:
            out.append(i)
        t = t.a[0]
    return out[::-1]


def current_path(o):
    """location returned by next()"""
    v = o.val
    if isinstance(v, tuple) and v and v[0] == "loc" and v[1][0] == ("THIS",):
        return v[1][1]
    return None


def single(ctx, kind, f, cls, outs, I0):
    st0 = State({}, {}, None, None)
    last = None
    rs = [o for o in outs if o.kind == "R"]
    for o in rs:
        cp = current_path(o)
        if cp is None:
            ctx.skip(kind, f, "returned bit vector not recognised")
            return
    for o in rs:
        if decide(o.st.facts, "!=", I0, C(0)):
            cp = current_path(o)
            fl = flips(at(o.st, cp), at(st0, cp))
            if not fl or len(fl) != 1:
                ctx.skip(kind, f, "first neighbor not recognised")
                return
            ctx.check(isc(fl[0]) and fl[0].a[0] == 0, kind, f, f["line"], "the first neighbor flips bit %s" % show(fl[0]))
            t = thisv(o.st)
            while t.op == "updf":
                if t.a[2] is fl[0] and ((".", t.a[1]),) not in (cp,) and last is None and t.a[1] != path_name(I0):
                    last = ((".", t.a[1]),)
                t = t.a[0]
    if last is None:
        ctx.skip(kind, f, "index of the flipped bit not recognised")
        return
    X = at(st0, last)
    for o in rs:
        if decide(o.st.facts, "!=", I0, C(0)) is False:
            cp = current_path(o)
            fl = flips(at(o.st, cp), at(st0, cp))
            if fl is None or len(fl) > 2:
                ctx.skip(kind, f, "next neighbor not recognised")
                continue
            ctx.check(set(fl) == {X, add(X, C(1))}, kind, f, f["line"], "the next neighbor flips %s instead of restoring bit %s and flipping the next one" % (
                ", ".join(show(z) for z in fl), show(X)))
            ctx.check(at(o.st, last) is add(X, C(1)), kind, f, f["line"], "the flipped bit is remembered as %s" % show(at(o.st, last)))
    g = ctx.p.find_method(cls, "has_next", nparams=0)
    cp = current_path(rs[0])
    n = size_of(at(st0, cp))
    for o in outcomes(ctx, g, cls):
        if o.kind == "R" and decide(o.st.facts, "!=", I0, C(0)) is False:
            r = retval(o)
            good = {cmpterm("<", add(X, C(1)), n), cmpterm("!=", add(X, C(1)), n)}
            if r in good:
                ctx.ok(kind, g["q"])
            elif isc(r):
                d = decide(o.st.facts, "<", add(X, C(1)), n)
                ctx.check(d is None or d == bool(r.a[0]), kind, g, g["line"], "has_next is wrong at the end")
            elif r.op == "cmp":
                ctx.bad(kind, g, g["line"], "there is a next neighbor when %s instead of when %s" % (show(r), show(cmpterm("<", add(X, C(1)), n))))
            else:
                ctx.skip(kind, g, "not recognised")


def path_name(t):
    p = path_of(t)
    return p[-1][1] if p else None


def sphere(ctx, kind, f, cls, outs, I0):
    st0 = State({}, {}, None, None)
    K = None
    for o in outs:
        if o.kind != "R":
            continue
        cp = current_path(o)
        if cp is None:
            ctx.skip(kind, f, "returned bit vector not recognised")
            return
        if decide(o.st.facts, "!=", I0, C(0)):
            c = at(o.st, cp)
            if c.op != "flip" or c.a[0] is not at(st0, cp):
                ctx.skip(kind, f, "first neighbor not recognised")
                return
            t = thisv(o.st)
            while t.op == "updf":
                if t.a[2] is c.a[1]:
                    K = ((".", t.a[1]),)
                t = t.a[0]
            w = c.a[1]
            if w.op == "iota":
                ctx.check(isc(w.a[1]) and w.a[1].a[0] == 0 and w.a[2] is size_of(w) and isc(w.a[3]) and w.a[3].a[0] == 0, kind, f, f["line"],
                          "the first neighbor flips %s instead of the first bits" % show(w)[:100])
    if K is None:
        ctx.skip(kind, f, "combination of flipped bits not recognised")
        return
    K0 = at(st0, K)
    for o in outs:
        if o.kind != "R" or decide(o.st.facts, "!=", I0, C(0)) is not False:
            continue
        cp = current_path(o)
        c = at(o.st, cp)
        K1 = at(o.st, K)
        want = flip_term(flip_term(at(st0, cp), K0), K1)
        if c.op == "flip":
            ctx.check(c is want, kind, f, f["line"], "the neighbor is %s: the previous bits are not restored before the next ones are flipped" % show(c)[:160])
        else:
            ctx.skip(kind, f, "neighbor not recognised")
        if K1 is K0:
            continue
        if K1.op == "upd" and K1.a[0] is K0:
            i = K1.a[1]
            if not isinstance(i, T) or i.op == "hv" or isc(i):
                continue
            ctx.check(K1.a[2] is add(proj(K0, ("[", i)), C(1)), kind, f, f["line"], "the last index becomes %s" % show(K1.a[2]))
            ctx.check(decide(o.st.facts, "<=", add(proj(K0, ("[", i)), C(2)), size_of(at(st0, cp))) is True, kind, f, f["line"],
                      "the last index can be moved past the end of the bit vector")
        for le in trace(o.st):
            if le.kind != "loop":
                continue
            for b in le.bodies:
                k0, k1 = at(le.head, K), at(b.st, K)
                if k1 is k0 or k1.op != "iota" or k1.a[0].op != "upd":
                    continue
                i = k1.a[0].a[1]
                v = k1.a[0].a[2]
                ctx.check(v is add(proj(k0, ("[", i)), C(1)) and k1.a[1] is add(i, C(1)) and k1.a[3] is add(v, C(1)) and k1.a[2] is size_of(k0),
                          kind, f, le.node.get("l"), "the next combination is %s" % show(k1)[:160])
                ctx.check(decide(b.st.facts, "<", add(proj(k0, ("[", i)), C(1)), proj(k0, ("[", add(i, C(1))))) is True, kind, f, le.node.get("l"),
                          "an index is moved although the next one follows it")


DISTS = ("std::bernoulli_distribution", "std::binomial_distribution<int>")


def rates(ctx, kind):
    """every distribution the flips of a mutation are drawn from has the mutation rate asked for (and as many trials as bits)"""
    for cls in library(ctx, NBH):
        fields = [fd["n"] for c in ctx.p.bases(cls) for fd in ctx.p.records.get(c, {}).get("fields", []) if any(fd["t"].startswith(d.partition("<")[0]) for d in DISTS)]
        s = ctx.p.find_method(cls, "set_mutation_rate", nparams=1)
        if not fields or s is None or not s.get("body"):
            continue
        todo = []
        for g, outs in ctor_state(ctx, cls):
            if not g.get("implicit") and g["ps"]:
                todo += [(g, o, len(g["ps"]) > 1) for o in outs if o.kind == "R"]
        todo += [(s, o, True) for o in outcomes(ctx, s, cls) if o.kind == "R"]
        for g, o, given in todo:
            for n in fields:
                t = proj(thisv(o.st), (".", n))
                if g is s and t is proj(this0(), (".", n)):
                    ctx.bad(kind, g, g["line"], "setting the mutation rate leaves the distribution %s as it was" % n)
                    continue
                if t.op != "ctor" or not str(t.a[0]).startswith("std::b") or len(t.a) < 2:
                    ctx.skip(kind, g, "distribution %s not recognised: %s" % (n, show(t)[:60]))
                    continue
                rate, env = t.a[-1], {}
                for x in subterms(mk("pair", *t.a[1:])):
                    if x.op == "size":
                        env[x] = 8
                for i, q in enumerate(g["ps"]):
                    env[param(g, i)] = 0.3 if g is s or i else 8
                try:
                    r = float(Values(None, {}, env).ev(rate))
                    k = Values(None, {}, env).ev(t.a[1]) if len(t.a) > 2 else 8
                except (Unknown, ZeroDivisionError, ValueError, TypeError):
                    ctx.skip(kind, g, "parameters of %s not evaluated" % n)
                    continue
                ctx.check(abs(r - (0.3 if given else 0.125)) < 1e-12, kind, g, g["line"], "the flips of a mutation are drawn with probability %s (%s)" % (show(rate)[:60], n))
                ctx.check(k == 8, kind, g, g["line"], "the number of flips is drawn out of %s" % show(t.a[1])[:60])


@rule("P10", "Symbolic evaluation of the moves of Neighborhood (origin, candidate and flipped bits as terms, flipping as an involution), per-iteration "
      "analysis of every sampling loop (fresh start, distinct positions in range, as many as asked for), a typestate automaton "
      "(idle/proposed) over all paths of init and iterate of every local search, and transition checks of neighborhood iterators.",
      minimum={"obligations.moves": 8, "obligations.protocol": 4},
      assumptions=["the random distributions of the standard library draw in their range"])
def p10(ctx):
    moves(ctx, "moves")
    sampling(ctx, "sampling")
    protocol(ctx, "protocol")
    iterators(ctx, "iterators")
    rates(ctx, "rate")
