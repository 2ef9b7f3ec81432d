"""P21: representations read exactly their own slice, adapters lay slices out one after the other."""
from ..core import rule
from ..q import *
from ..absint import write
from ..terms import typed
from ..poly import expand

NS = "hnco::representation::"
CONV = {"ScalarToDouble": "id", "AbsoluteValue": "abs", "OppositeAbsoluteValue": "-abs", "SquaredMagnitude": "norm", "OppositeSquaredMagnitude": "-norm"}


def arg(st, a):
    return read(st, a[1]) if isinstance(a, tuple) else a


def owner(q):
    """class part of a qualified name; :: inside template arguments does not count"""
    d = 0
    for i in range(len(q) - 1, 0, -1):
        if q[i] == ">":
            d += 1
        elif q[i] == "<":
            d -= 1
        elif d == 0 and q[i - 1:i + 1] == "::":
            return q[:i - 1], q[i + 1:]
    return "", q


def model(skip_this=True):
    """size() and unpack() of a representation as uninterpreted functions of the representation"""
    def on_call(eng, e, st, q, g, ol, args):
        c, n = owner(q)
        if ol is not None and c.startswith(NS) and not (skip_this and ol == THIS):
            if n == "size" and not args:
                return [(st, typed(mk("rsize", read(st, ol)), "int"))]
            if n == "unpack" and len(args) in (2, 3):
                vs = [arg(st, a) for a in args]
                r = mk("unpacked", read(st, ol), vs[0], vs[1])
                r.ty = e.get("t")
                s = eng.event(st, "unpack", e, obj=ol, objv=read(st, ol), cls=c, args=vs, q=q)
                if len(args) == 3:
                    if not isinstance(args[2], tuple):
                        return None
                    s = write(s, args[2][1], typed(r, vs[2].ty))
                return [(s, r)]
        if q == "std::visit" and len(args) == 2:
            fv = arg(st, args[0])
            if fv.op == "lam":
                return eng.apply(fv, st, [args[1]], e)
        return None
    return on_call


def opaque_functions(eng, e, f, ol):
    """the adapted function stays uninterpreted"""
    c, n = owner(f["q"])
    if n in ("evaluate", "describe", "display") and ol is not None and ol != THIS:
        return False
    return None


# ------------------------------------------------------------------ representations

def reps(ctx):
    out = []
    for c, r in sorted(ctx.p.records.items()):
        if not c.startswith(NS):
            continue
        ms = {m["n"]: m for m in r["methods"]}
        if "unpack" in ms and "size" in ms:
            f = ctx.p.find_method(c, "unpack")
            if f is not None and f.get("body"):
                out.append((c, f))
    return out


def bitreads(t, bv, under=None):
    """index terms k of the elements of bv read in t"""
    return [x.a[1] for x in subterms(t) if x.op == "sel" and x.a[0] is bv]


def segments(ctx, f, o, bv):
    """[(start, how to decide the end, line)] of the ranges of bv read along the path, in order; None if not of the expected form"""
    out = []

    def go(evs, outer):
        for e in evs:
            if e.kind == "unpack" and e.args[0] is bv:
                if outer:
                    return False
                out.append(("rep", e.args[1], add(e.args[1], mk_rsize(e.objv)), e))
            elif e.kind == "loop":
                direct = set()
                for b in e.bodies:
                    ts = [at(b.st, p, r) for r, p in e.hv] + [k for k in b.st.facts if k not in e.head.facts]
                    if b.val is not None and not isinstance(b.val, tuple):
                        ts.append(b.val)
                    for t in ts:
                        direct |= set(bitreads(t, bv))
                ivs = {x[0]: x for x in e.ivs}
                direct = {k for k in direct if any(x in ivs for x in subterms(k))}
                if direct and not outer:
                    out.append(("bits", direct, ivs, e))
                elif any(y.kind == "unpack" for b in e.bodies for y in trace(b.st)):
                    return False
                elif any(y.kind == "loop" for b in e.bodies for y in trace(b.st)):
                    out.append(("nest", e, ivs, e))
        return True
    return out if go(trace(o.st), False) else None


def mk_rsize(t):
    return typed(mk("rsize", t), "int")


def one(ctx, c, f):
    bv, start = param(f, 0), param(f, 1)
    size = method(ctx, c, "size", 0)
    so = [o for o in outcomes(ctx, size, c, on_call=model()) if o.kind == "R"]
    if len(so) != 1:
        ctx.skip("slice", f, "size()")
        return
    n = retval(so[0])
    end = add(start, n)
    short = c[len(NS):].split("<")[0]
    for o in outcomes(ctx, f, c, on_call=model()):
        if o.kind != "R":
            continue
        segs = segments(ctx, f, o, bv)
        line = where(o, f)
        if not segs:
            ctx.skip("slice", f, "reads of %s not recognised" % c)
            continue
        segs = [s for s in segs if s[0] != "nest"] or segs
        if segs[0][0] == "nest":
            nest(ctx, c, f, o, bv, start, end, n, segs)
            continue
        cur = start
        for i, s in enumerate(segs):
            last = i == len(segs) - 1
            nxt = end if last else first_index(segs[i + 1])
            ln = s[3].node.get("l", line)
            if s[0] == "rep":
                ok = decide(o.st.facts, "==", s[1], cur) is True
                ctx.check(ok, "slice", f, ln, "%s: a component is read at %s although the bits before end at %s" % (short, show(s[1])[:60], show(cur)[:60]))
                cur = s[2]
                if last:
                    ctx.check(decide(o.st.facts, "==", cur, end) is True, "slice", f, ln, "%s: the bits read end at %s, its size is %s" % (short, show(cur)[:80], show(n)[:60]))
                continue
            k, lo, e = min(s[1], key=str), None, s[3]
            if len(s[1]) != 1 or nxt is None:
                ctx.skip("slice", f, "several reads in the loop of line %s" % ln)
                cur = nxt
                if cur is None:
                    break
                continue
            lo = at_entry(k, s[2])
            if lo is None:
                ctx.skip("slice", f, "index %s" % show(k)[:60])
                break
            ctx.check(decide(o.st.facts, "==", lo, cur) is True, "slice", f, ln, "%s: reading starts at %s instead of %s" % (short, show(lo)[:60], show(cur)[:60]))
            inside = all(decide(b.st.facts, "<", k, nxt) is True for b in e.bodies if b.kind == "N")
            full = all(decide(s_.facts, ">=", k, nxt) is True for s_ in e.exits) if e.exits else False
            ctx.check(inside, "slice", f, ln, "%s: reads bit %s, beyond the end %s of its slice" % (short, show(k)[:60], show(nxt)[:60]))
            ctx.check(full, "slice", f, ln, "%s: stops reading before the end %s of its slice" % (short, show(nxt)[:60]))
            cur = nxt
    value(ctx, c, f, short, bv, start)


def first_index(s):
    if s[0] == "rep":
        return s[1]
    if s[0] == "bits" and len(s[1]) == 1:
        return at_entry(min(s[1], key=str), s[2])
    return None


def at_entry(k, ivs):
    """value of the index k (affine in one induction variable with step 1) at the first iteration"""
    c, d = lin(k)
    vs = [x for x in d if x in ivs]
    if len(vs) != 1 or d[vs[0]] != 1 or ivs[vs[0]][2] != 1:
        return None
    return subst(k, {vs[0]: ivs[vs[0]][1]})


def nest(ctx, c, f, o, bv, start, end, n, segs):
    """consecutive elements of equal width: from the closed form of what is stored"""
    short = c[len(NS):].split("<")[0]
    line = where(o, f)
    forms = []
    for root in [("THIS",)] + [("P", p["n"]) for p in f["ps"]]:
        for x in subterms(getroot(o.st, root)):
            if x.op == "tab" and any(y.op in ("fold", "sum") and bitreads(y, bv) for y in subterms(x.a[4])):
                forms.append(x)
    if len(forms) != 1:
        ctx.skip("slice", f, "nested reads")
        return
    t = forms[0]
    base, lo, hi, b2, g = t.a
    ys = [y for y in subterms(g) if y.op == "fold" and bitreads(y, bv)]
    if len(ys) != 1:
        ctx.skip("slice", f, "nested reads")
        return
    y = ys[0]
    l, h, b1, body = y.a[2], y.a[3], y.a[4], y.a[5]
    ks = bitreads(body, bv)
    if ks != [b1]:
        ctx.skip("slice", f, "index of nested reads")
        return
    F = o.st.facts
    w = sub(h, l)
    ctx.check(lo is C(0) and decide(F, "==", subst(l, {b2: C(0)}), start) is True, "slice", f, line, "%s: reading starts at %s" % (short, show(subst(l, {b2: C(0)}))[:60]))
    ctx.check(not expand(sub(subst(l, {b2: add(b2, C(1))}), h)), "slice", f, line,
              "%s: element %s covers bits %s to %s, and the next one does not start there" % (short, show(b2), show(l)[:60], show(h)[:60]))
    # the size stored by the constructors: number of elements times width
    for cf, outs in ctor_state(ctx, c):
        for x in outs:
            if x.kind == "X":
                continue
            th = getroot(x.st, ("THIS",))
            m = {this0(): th}
            nn, hh, ww = ground(n, th), ground(hi, th), ground(w, th)
            ok = nn is not None and hh is not None and ww is not None
            if not ok:
                ctx.skip("slice", cf, "size of %s" % c)
                continue
            ctx.check(not expand(sub(nn, mul(hh, ww))), "slice", cf, where(x, cf), "%s: size %s, but %s elements of %s bits are read" % (short, show(nn)[:60], show(hh)[:40], show(ww)[:40]))


def ground(t, th):
    """value of t in the object th"""
    def go(x):
        if x is this0():
            return th
        if x.op == "fld":
            b = go(x.a[0])
            return None if b is None else proj(b, (".", x.a[1]))
        if x.op == "size":
            b = go(x.a[0])
            return None if b is None else size_of(b)
        return x
    m = {}
    for x in sorted(subterms(t), key=lambda y: -len(show(y, 30))):
        if x.op in ("fld", "size") and this0() in subterms(x):
            v = go(x)
            if v is None:
                return None
            m[x] = v
    # innermost substitution would rebuild the bases: replace the maximal ones first
    return subst(t, m)


def value(ctx, c, f, short, bv, start):
    """the decoded value: within the declared domain, and made of every bit with its own weight"""
    outs = [o for o in outcomes(ctx, f, c, on_call=model()) if o.kind == "R"]
    if short.endswith("CategoricalRepresentation"):
        for o in outs:
            v = retval(o)
            ok = v.op == "%" and path_of(v.a[1]) is not None
            if not ok:
                ok = any(decide(o.st.facts, "<", v, x) is True for x in subterms(v) if path_of(x))
            ctx.check(ok, "value", f, where(o, f), "%s: the category %s is not reduced modulo the number of categories" % (short, show(v)[:80]))
            if ok and v.op == "%":
                for cf, xs in ctor_state(ctx, c, max_states=100):
                    for x in xs:
                        if x.kind != "X" and len(cf["ps"]) == 1:
                            m = proj(getroot(x.st, ("THIS",)), path_of(v.a[1])[0])
                            if m.op in ("sym",):
                                ctx.check(m is param(cf, 0), "value", cf, where(x, cf), "%s: categories are counted by %s" % (short, show(m)[:60]))
    elif short == "DyadicIntegerRepresentation":
        lo, hi = bounds(ctx, c)
        if lo is None:
            ctx.skip("value", f, "bounds")
            return
        for o in outs:
            v = retval(o)
            s = o.st
            ok1 = v is lo or v is hi or decide(s.facts, ">=", v, lo) is True or nonneg(sub(v, lo))
            ok2 = v is hi or decide(s.facts, "<=", v, hi) is True
            ctx.check(ok1, "value", f, where(o, f), "%s: %s may be below the lower bound" % (short, show(v)[:80]))
            ctx.check(ok2, "value", f, where(o, f), "%s: %s may exceed the upper bound" % (short, show(v)[:80]))
            for x in subterms(sub(v, lo)):
                if x.op == "fold":
                    g = subst(x.a[5], {x.a[4]: add(x.a[2], mk("sym", "#k"))})
                    k = mk("sym", "#k")
                    want = mul(mk("sel", bv, add(start, k)), mk("<<", C(1), k))
                    ctx.check(x.a[1] is C(0) and x.a[0] == "|" and g is want, "value", f, where(o, f), "%s: bit k contributes %s" % (short, show(g)[:80]))
    elif short == "DyadicFloatRepresentation":
        for o in outs:
            floats(ctx, c, f, o, short, bv, start)
    elif short == "ComplexRepresentation":
        for o in outs:
            v = retval(o)
            if v.op == "ctor" and len(v.a) == 3:
                parts = [x for x in v.a[1:]]
                ok = all(x.op == "unpacked" for x in parts) and parts[0].a[0] is not parts[1].a[0]
                if not ok:
                    ctx.bad("value", f, where(o, f), "%s: real and imaginary parts come from %s and %s" % (short, show(parts[0])[:60], show(parts[1])[:60]))
                    continue
                # the constructor's first argument is the representation of the real part
                for cf, xs in ctor_state(ctx, c):
                    if len(cf["ps"]) == 2:
                        for x in xs:
                            th = getroot(x.st, ("THIS",))
                            for j in (0, 1):
                                p = path_of(parts[j].a[0])
                                t = th
                                for s_ in p or ():
                                    t = proj(t, s_)
                                if t.op in ("sym", "init"):
                                    ctx.check(t is param(cf, j), "value", cf, where(x, cf), "%s: the %s part is represented by %s" % (short, ("real", "imaginary")[j], show(t)[:40]))
    elif short == "ValueSetRepresentation":
        for o in outs:
            v = retval(o)
            ok = v.op == "sel" and path_of(v.a[0]) is not None and v.a[1].op == "unpacked"
            if v.op == "sel" or v.op == "unpacked":
                ctx.check(ok, "value", f, where(o, f), "%s: value %s is not the one at the decoded index" % (short, show(v)[:80]))
            else:
                ctx.skip("value", f, show(v)[:60])
    elif short == "PermutationRepresentation":
        for o in outs:
            perm(ctx, c, f, o, short)


def nonneg(t):
    c, d = lin(t)
    return c >= 0 and all(w >= 0 and (x.op in ("fold", "<<", "size", "sum") or (x.ty or "").startswith("unsigned")) for x, w in d.items())


def bounds(ctx, c):
    """members which hold the lower and the upper bound given to the two-argument constructor"""
    for cf, outs in ctor_state(ctx, c):
        if len(cf["ps"]) == 2 and not cf.get("implicit"):
            for o in outs:
                if o.kind == "X":
                    continue
                th = getroot(o.st, ("THIS",))
                r = []
                for i in (0, 1):
                    fs = [fl["n"] for fl in ctx.p.records[c]["fields"] if proj(th, (".", fl["n"])) is param(cf, i)]
                    r.append(fs[0] if len(fs) == 1 else None)
                if None not in r:
                    ty = {fl["n"]: fl["t"] for fl in ctx.p.records[c]["fields"]}
                    return [proj(this0(), (".", n)) for n in r]
    return None, None


def floats(ctx, c, f, o, short, bv, start):
    ls = [e for e in trace(o.st) if e.kind == "loop" and any(bitreads(at(b.st, p, r), bv) or any(bitreads(k, bv) for k in b.st.facts) for b in e.bodies for r, p in e.hv)]
    if len(ls) != 1:
        return
    e = ls[0]
    ivs = {x[0]: x for x in e.ivs}
    line = e.node.get("l", f["line"])
    for b in e.bodies:
        if b.kind != "N":
            continue
        bits = [k for k in b.st.facts if k.op == "sel" and k.a[0] is bv]
        if len(bits) != 1:
            ctx.skip("value", f, "bit tested")
            continue
        bit = bits[0]
        acc = [(r, p) for r, p in e.hv if not any(at(e.head, p, r) is x for x in ivs)]
        if len(acc) != 1:
            ctx.skip("value", f, "accumulator")
            continue
        r, p = acc[0]
        d = sub(at(b.st, p, r), at(e.head, p, r))
        if decide(b.st.facts, "==", bit, C(0)) is True:
            ctx.check(d is C(0), "value", f, line, "%s: a bit equal to 0 contributes %s" % (short, show(d)[:60]))
        else:
            if d.op == "sel" and path_of(d.a[0]) is not None:
                i0, k0 = at_entry(d.a[1], ivs), at_entry(bit.a[1], ivs)
                ok = i0 is not None and k0 is not None and sub(k0, i0) is start or (i0 is C(0) and k0 is start)
                ctx.check(bool(ok), "value", f, line, "%s: bit %s contributes %s" % (short, show(bit.a[1])[:40], show(d)[:60]))
            else:
                ctx.skip("value", f, "contribution %s" % show(d)[:60])
    # the contributions themselves: element k is 2^-(k+1)
    for cf, outs in ctor_state(ctx, c):
        if cf.get("implicit"):
            continue
        for x in outs:
            if x.kind == "X":
                continue
            for ev in trace(x.st):
                if ev.kind != "loop":
                    continue
                for b in ev.bodies:
                    for r, p in ev.hv:
                        t = at(b.st, p, r)
                        if t.op == "upd":
                            v = t.a[2]
                            init = [at(ev.entry, pp, rr) for rr, pp in ev.hv if at(ev.head, pp, rr) is v]
                            nxt = [at(b.st, pp, rr) for rr, pp in ev.hv if at(ev.head, pp, rr) is v]
                            if len(init) == 1:
                                half = nxt[0] in (mk("/", v, C(2)), mul(v, C(0.5))) or sub(mul(nxt[0], C(2)), v) is C(0)
                                ok = isc(init[0]) and init[0].a[0] == 0.5 and half
                                ctx.check(ok, "value", cf, b.st and ev.node.get("l", cf["line"]), "%s: the first bit is worth %s and the next ones %s" % (short, show(init[0])[:40], show(nxt[0])[:40]))
                            else:
                                ctx.skip("value", cf, "weights %s" % show(v)[:60])


def perm(ctx, c, f, o, short):
    t = getroot(o.st, ("P", f["ps"][2]["n"]))
    line = where(o, f)
    x, steps = t, []
    while x.op == "permuted":
        steps.append(x.a[1])
        x = x.a[0]
    ok = x.op in ("tab", "iota") and (x.op == "iota" or x.a[4] is x.a[3]) and not any(s not in ("sort", "stable_sort", "shuffle", "reverse") for s in steps)
    if not steps and not ok:
        ctx.skip("value", f, "permutation %s" % show(t)[:60])
        return
    ctx.check(ok, "value", f, line, "%s: the result is not a rearrangement of the identity" % short)
    ctx.check(bool(steps) and steps[0] in ("sort", "stable_sort"), "value", f, line, "%s: the elements are not sorted by their decoded values" % short)


# ------------------------------------------------------------------ adapters

def adapters(ctx):
    out = []
    for c, r in sorted(ctx.p.records.items()):
        if not c.startswith("hnco::") or c.startswith(NS) or r.get("abstract"):
            continue
        if any(NS in str(fl["t"]) for fl in r["fields"]) and ctx.p.find_method(c, "evaluate"):
            out.append(c)
    return out


def loops_with_unpack(evs):
    out = []
    for e in evs:
        if e.kind == "unpack":
            out.append((e, None, None))
        elif e.kind == "loop":
            for b in e.bodies:
                for u in trace(b.st):
                    if u.kind == "unpack":
                        out.append((u, e, b))
    return out


def convert(name, x):
    k = CONV.get(name)
    if k is None:
        return None
    if k == "id":
        return [x]
    s = -1 if k.startswith("-") else 1
    fs = ("fabs", "std::fabs", "abs", "std::abs") if k.endswith("abs") else ("std::norm", "norm")
    return [(s, fs, x)]


def matches(v, w):
    if isinstance(w, T):
        return v is w
    s, fs, x = w
    c, d = lin(v)
    if c != 0 or len(d) != 1:
        return False
    (y, k), = d.items()
    return k == s and y.op == "call" and y.a[0] in fs and x in y.a[1:]


def adapter(ctx, c):
    f = ctx.p.find_method(c, "evaluate")
    mo = len(f["ps"]) == 2
    bv = param(f, 0)
    short = c.split("<")[0].replace("hnco::", "")
    kw = dict(on_call=model(False), inline=opaque_functions)
    sizes = method(ctx, c, "get_bv_size", 0)
    so = [o for o in outcomes(ctx, sizes, c, **kw) if o.kind == "R"]
    n = retval(so[0]) if len(so) == 1 else None
    args0 = None
    for o in outcomes(ctx, f, c, **kw):
        if o.kind != "R":
            continue
        chain(ctx, c, f, o, bv, n, short)
        cs = [e for e in trace(o.st) if e.kind == "call" and owner(e.q)[1] == "evaluate"]
        if len(cs) != 1:
            ctx.skip("adapter", f, "%d evaluations" % len(cs))
            continue
        e = cs[0]
        k = len(e.args) - (1 if mo else 0)
        args0 = e.args[:k]
        for i, a in enumerate(args0):
            decoded(ctx, c, f, o, e, i, a, bv, short)
        m = [x.strip() for x in template_args(c)]
        conv = next((x.split("::")[-1].split("<")[0] for x in m if x.split("<")[0].split("::")[-1] in CONV or x.split("::")[-1].split("<")[0] in CONV), None)
        conv = next((y for y in CONV for x in m if x.split("<")[0].endswith("::" + y)), None)
        if not mo:
            v = retval(o)
            ws = convert(conv, e.res) if conv else [e.res]
            ctx.check(any(matches(v, w) for w in ws), "adapter", f, where(o, f), "%s returns %s, not the (converted) value of the function at the decoded variables" % (short, show(v)[:80]))
        else:
            out = getroot(o.st, ("P", f["ps"][1]["n"]))
            mo_value(ctx, c, f, o, e, out, conv, short)
    g = ctx.p.find_method(c, "describe")
    if g is not None and g.get("body") and args0:
        for o in outcomes(ctx, g, c, **kw):
            if o.kind != "R":
                continue
            cs = [e for e in trace(o.st) if e.kind == "call" and owner(e.q)[1] == "describe"]
            if len(cs) != 1:
                ctx.skip("adapter", g, "describe")
                continue
            m = {param(g, 0): bv}
            for i, a in enumerate(cs[0].args[:len(args0)]):
                same = norm(subst(a, m)) == norm(args0[i])
                ctx.check(same, "adapter", g, where(o, g), "%s::describe decodes %s, evaluation decodes %s" % (short, show(a)[:60], show(args0[i])[:60]))


def norm(t):
    """text of a term without the numbering of loops and frames"""
    import re
    s = show(t, 40)
    s = re.sub(r"hv\(\d+,\(L,\d+,\w+\)", "hv(", s)
    return re.sub(r"bvar\(\d+\)", "bvar", s)


def template_args(c):
    i = c.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    for ch in c[i + 1:c.rfind(">")]:
        if ch == "<":
            d += 1
        if ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def decoded(ctx, c, f, o, e, i, a, bv, short):
    line = e.node.get("l", f["line"])
    if a.op == "unpacked":
        ctx.check(a.a[1] is bv, "adapter", f, line, "%s decodes %s" % (short, show(a.a[1])[:40]))
        return
    if a.op != "tab":
        if bv not in subterms(a):
            ctx.bad("adapter", f, line, "%s: argument %d of the function, %s, is not decoded from the bit vector" % (short, i, show(a)[:60]))
        else:
            ctx.skip("adapter", f, "argument %d: %s" % (i, show(a)[:60]))
        return
    base, lo, hi, b, g = a.a
    sz = size_of(base)
    full = lo is C(0) and (hi is sz or decide(o.st.facts, "==", hi, sz) is True)
    if full or lo is not C(0):
        ctx.check(full, "adapter", f, line, "%s: variables %s to %s only are decoded" % (short, show(lo), show(hi)[:40]))
    else:
        same_length(ctx, c, f, hi, sz, short)
    while g.op in ("cast", "conv") and g.a:
        g = g.a[-1]
    if g.op == "unpacked":
        r = g.a[0]
        ok = r.op == "sel" and r.a[1] is b and g.a[1] is bv
        ctx.check(ok, "adapter", f, line, "%s: variable %s is decoded by %s" % (short, show(b), show(r)[:60]))
        if ok:
            same_length(ctx, c, f, hi, size_of(r.a[0]), short)
    elif g.op == "sel" and g.a[0] is bv:
        ctx.check(g.a[1] is b, "adapter", f, line, "%s: boolean variable %s is bit %s" % (short, show(b), show(g.a[1])[:40]))
    else:
        ctx.skip("adapter", f, "variable %s" % show(g)[:60])


def same_length(ctx, c, f, a, b, short):
    """a and b, sizes of members, agree in every constructed object"""
    if a is b:
        ctx.ok("adapter", f["q"])
        return
    for cf, outs in ctor_state(ctx, c, on_call=model(False), inline=opaque_functions):
        if cf.get("implicit"):
            continue
        for o in outs:
            if o.kind == "X":
                continue
            th = getroot(o.st, ("THIS",))
            x, y = ground(a, th), ground(b, th)
            if x is None or y is None:
                ctx.skip("adapter", cf, "sizes of members")
                continue
            r = decide(o.st.facts, "==", x, y)
            if r is None and not (x.op == "size" and y.op == "size"):
                ctx.skip("adapter", cf, "%s, %s" % (show(x)[:50], show(y)[:50]))
                continue
            ctx.check(r is True, "adapter", cf, where(o, cf), "%s: %s variables for %s representations" % (short, show(x)[:60], show(y)[:60]))


def chain(ctx, c, f, o, bv, n, short):
    """the slices are consecutive, start at 0 and end at the size of the bit vector"""
    us = loops_with_unpack(trace(o.st))
    if not us:
        ctx.bad("layout", f, f["line"], "%s evaluates the function without decoding the bit vector" % short)
        return
    cur, total = None, C(0)
    # bits copied as they are
    for x in subterms(getroot(o.st, ("THIS",))):
        if x.op == "tab" and x.a[4].op == "sel" and x.a[4].a[0] is bv and x.a[4].a[1] is x.a[3]:
            cur = x.a[2]
    cur = cur if cur is not None else C(0)
    ends = []
    for u, e, b in us:
        line = u.node.get("l", f["line"])
        a = u.args[1]
        size = mk_rsize(u.objv)
        if e is None:
            ctx.check(decide(o.st.facts, "==", a, cur) is True, "layout", f, line, "%s: decoding at %s, but the preceding variables end at %s" % (short, show(a)[:60], show(cur)[:60]))
            cur = add(a, size)
            continue
        loc = [(r, p) for r, p in e.hv if at(e.head, p, r) is a]
        if len(loc) != 1:
            if not any(x.op == "hv" for x in subterms(a)):
                ctx.bad("layout", f, line, "%s: every variable is decoded at the same position %s" % (short, show(a)[:60]))
            else:
                ctx.skip("layout", f, "position %s" % show(a)[:60])
            return
        r, p = loc[0]
        entry = at(e.entry, p, r)
        ctx.check(decide(o.st.facts, "==", entry, cur) is True, "layout", f, line, "%s: decoding starts at %s, but the preceding variables end at %s" % (short, show(entry)[:60], show(cur)[:60]))
        step = sub(at(b.st, p, r), a)
        ctx.check(step is size or sub(step, size) is C(0), "layout", f, line, "%s: after decoding with %s the position advances by %s" % (short, show(u.objv)[:60], show(step)[:60]))
        after = {at(s, p, r) for s in e.exits}
        # value of the position after the loop, as the closed form which the next reader sees
        cur = closed(o, e, r, p, us)
        if cur is None:
            return
    if n is not None and cur is not None:
        whole(ctx, c, f, o, cur, n, short)


def closed(o, e, r, p, us):
    """the position after the loop e, as the closed form which the next reader sees"""
    seen = False
    for u, e2, b in us:
        if e2 is e:
            seen = True
            last = (u, b)
        elif seen and e2 is not None:
            return at(e2.entry, p, r)
    u, b = last
    if u.objv.op != "sel":
        return None
    x, i = u.objv.a
    init = next((v[1] for v in e.ivs if v[0] is i), None)
    if init is not C(0):
        return None
    cands = {t for s in e.exits for f in s.facts for t in subterms(f) if t.op == "size"} | {size_of(x)}
    his = [t for t in cands if decide(b.st.facts, "<", i, t) is True and all(decide(s.facts, ">=", i, t) is True for s in e.exits)]
    if not his:
        return None
    bv = mk("bvar", 1)
    hi = min(his, key=str)
    return add(at(e.entry, p, r), mk("sum", C(0), hi, bv, mk_rsize(proj(x, ("[", bv)))))


def whole(ctx, c, f, o, cur, n, short):
    """cur = n in every constructed object"""
    if cur is n or decide(o.st.facts, "==", cur, n) is True:
        ctx.ok("layout", f["q"])
        return
    for cf, outs in ctor_state(ctx, c, on_call=model(False), inline=opaque_functions):
        if cf.get("implicit"):
            continue
        for x in outs:
            if x.kind == "X":
                continue
            th = getroot(x.st, ("THIS",))
            a, b = ground2(cur, th), ground2(n, th)
            if a is None or b is None:
                ctx.skip("layout", cf, "size")
                continue
            d = sub(a, b)
            ok = d is C(0) or norm(a) == norm(b) or d_zero(d)
            if not ok and any(y.op == "hv" for y in subterms(d)):
                ctx.skip("layout", cf, "size %s" % show(b)[:60])
                continue
            ctx.check(ok, "layout", cf, where(x, cf), "%s: the variables take %s bits, the size of the bit vector is %s" % (short, show(a)[:120], show(b)[:120]))


def d_zero(d):
    c, m = lin(d)
    acc = {}
    for x, w in m.items():
        acc[norm(x)] = acc.get(norm(x), 0) + w
    return c == 0 and all(w == 0 for w in acc.values())


def ground2(t, th):
    """t, a sum of sizes over members, in the object th: sum(0, size(V), b, rsize(X[b])) with the members replaced"""
    c, d = lin(t)
    r = C(c)
    for x, w in d.items():
        if x.op == "sum":
            lo, hi, b, g = x.a
            if g.op != "rsize" or g.a[0].op != "sel":
                return None
            h = ground(hi, th)
            p = path_of(g.a[0].a[0])
            if p is None and this0() not in subterms(g):
                y = x
            else:
                v = th
                for s_ in p or ():
                    v = proj(v, s_)
                y = mk("sum", lo, h, b, mk_rsize(proj(v, ("[", b))))
        else:
            y = ground(x, th)
        if y is None:
            return None
        r = add(r, mul(C(w), y))
    return r


def mo_value(ctx, c, f, o, e, out, conv, short):
    line = e.node.get("l", f["line"])
    res = [x for x in subterms(out) if x.op == "out" and x.a[0] == e.q]
    if not conv:
        ok = out.op == "out" and out.a[0] == e.q
        ctx.check(ok, "adapter", f, line, "%s: the objective values are %s" % (short, show(out)[:80]))
        return
    if out.op == "out" and conv == "ScalarToDouble":
        ctx.ok("adapter", f["q"])
        return
    if out.op == "out" and out.a[0] == e.q:
        ctx.bad("adapter", f, line, "%s: the objective values are not converted" % short)
        return
    if out.op != "tab":
        ctx.skip("adapter", f, "objective values %s" % show(out)[:60])
        return
    base, lo, hi, b, g = out.a
    src = [x for x in subterms(g) if x.op == "sel" and x.a[0].op == "out"]
    if len(src) != 1:
        ctx.skip("adapter", f, "objective values %s" % show(g)[:60])
        return
    ok = src[0].a[1] is b and any(matches(g, w) for w in convert(conv, src[0]))
    ctx.check(ok, "adapter", f, line, "%s: objective %s is %s" % (short, show(b), show(g)[:80]))
    ctx.check(lo is C(0), "adapter", f, line, "%s: objectives start at %s" % (short, show(lo)))


@rule("P21", "symbolic execution of every representation's unpack() and of every adapter's evaluate() and describe(): the ranges of bits read are computed "
      "from loop recurrences and compared with size(); adapters' positions form one chain from 0 to get_bv_size()",
      minimum={"obligations.slice": 10, "obligations.value": 8, "obligations.layout": 12, "obligations.adapter": 20})
def p21(ctx):
    for c, f in reps(ctx):
        one(ctx, c, f)
    seen = set()
    for c in adapters(ctx):
        adapter(ctx, c)
