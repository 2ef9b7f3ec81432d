"""P28: bit vectors, bit matrices, permutations. P22: maps."""
from ..core import rule
from ..q import *
from ..elem import element, same, Unknown
from ..absint import assume, cmpterm

NS = "hnco::"
BV = "std::vector<unsigned char"
I, J = typed(mk("sym", "#i"), "int"), typed(mk("sym", "#j"), "int")


def find(ctx, name, *tys):
    """the function hnco::name whose parameter types start with tys"""
    out = []
    for f in ctx.p.functions.values():
        if f["q"] == NS + name and len(f["ps"]) == len(tys) and f.get("body") is not None:
            if all(kind(p["t"]) == t for p, t in zip(f["ps"], tys)):
                out.append(f)
    if not out:
        ctx.skip("anchor", ("", name), "not found")
        return None
    ctx.functions.add(out[0]["id"])
    return out[0]


def kind(t):
    t = t.replace("const ", "").replace("&", "").strip()
    if t.startswith("std::vector<std::vector<unsigned char"):
        return "bm"
    if t.startswith("std::vector<unsigned char"):
        return "bv"
    if t.startswith("std::vector<bool"):
        return "vb"
    if t.startswith("std::vector<int"):
        return "vi"
    if "Transvection" in t:
        return "ts" if "vector" in t else "tv"
    if t in ("unsigned char",):
        return "bit"
    if t in ("int", "unsigned long", "double", "bool"):
        return t
    return t


def value(f, o, i):
    return getroot(o.st, ("P", f["ps"][i]["n"])) if f["ps"][i].get("ref") else None


def bounded(st, i, n):
    s = assume(st, cmpterm(">=", i, C(0)), True)
    return assume(s, cmpterm("<", i, n), True) if s is not None else None


def sel(t, *idx):
    for i in idx:
        t = proj(t, ("[", i))
    return t


class Prim(object):
    def __init__(self, ctx, tag):
        self.ctx, self.tag = ctx, tag

    def run(self, f, cls=None, **kw):
        try:
            return [o for o in outcomes(self.ctx, f, cls, **kw)]
        except TooComplex as x:
            self.ctx.skip(self.tag, f, "analysis: %s" % x)
            return []

    def equal(self, f, o, what, got, want, bits, st=None, loopstate=False):
        """got (term) must equal want on the path of o"""
        try:
            ok = same(got, want, bits, (st or o.st).facts, loopstate)
        except Unknown as x:
            self.ctx.skip(self.tag, f, "%s: %s" % (what, x))
            return
        self.ctx.check(ok, self.tag, f, where(o, f), "%s is %s; expected %s%s" % (
            what, show(got)[:160], show(want)[:160], "" if ok else " (%s)" % getattr(same, "why", "")[:200]))

    def elements(self, f, o, what, t, idx, bounds, want, bits):
        """every element of container t (indices idx below bounds) must equal want(state)"""
        st = o.st
        for i, n in zip(idx, bounds):
            st = bounded(st, i, n)
            if st is None:
                return
        try:
            els = element(st, t, idx)
        except Unknown as x:
            self.ctx.skip(self.tag, f, "%s: %s" % (what, x))
            return
        for s, v in els:
            self.equal(f, o, "%s%s" % (what, "".join("[%s]" % show(i).strip("#") for i in idx)), v, want(s), bits, s)


@rule("P28", "closed forms of the results of the bit-vector, bit-matrix and permutation primitives (recurrence solving in the abstract interpreter), "
      "compared element by element at a symbolic index with the documented operation by truth tables over their bit atoms; paired row operations in elimination",
      minimum={"obligations.vector": 12, "obligations.matrix": 8, "obligations.elimination": 2})
def p28(ctx):
    vectors(ctx)
    matrices(ctx)
    elimination(ctx)


def vectors(ctx):
    P = Prim(ctx, "vector")

    def par(f, i):
        return param(f, i)
    f = find(ctx, "bit_add", "bit", "bit")
    for o in P.run(f) if f else ():
        a, b = bitp(f, 0), bitp(f, 1)
        P.equal(f, o, "the sum of two bits", retval(o), mk("^", a, b), (a, b))
    for tys in (("bit", "bit"), ("bit",)):
        f = find(ctx, "bit_flip", *tys)
        for o in P.run(f) if f else ():
            a = bitp(f, 0)
            P.equal(f, o, "the flipped bit", value(f, o, 0), mk("^", a, bitp(f, 1) if len(tys) == 2 else C(1)), (a,) + ((bitp(f, 1),) if len(tys) == 2 else ()))
    for tys in (("bv", "bv"), ("bv", "bv", "bv")):
        f = find(ctx, "bv_add", *tys)
        for o in P.run(f) if f else ():
            a, b = (par(f, 0), par(f, 1)) if len(tys) == 2 else (par(f, 1), par(f, 2))
            P.elements(f, o, "the sum", value(f, o, 0), [I], [size_of(par(f, 0))], lambda s: mk("^", sel(a, I), sel(b, I)), (a, b))
            P.equal(f, o, "the size of the sum", size_of(value(f, o, 0)), size_of(par(f, 0)), ())
    f = find(ctx, "bv_flip", "bv", "int")
    for o in P.run(f) if f else ():
        x = par(f, 0)
        P.elements(f, o, "the flipped vector", value(f, o, 0), [I], [size_of(x)],
                   lambda s: mk("^", sel(x, I), C(1)) if decide(s.facts, "==", I, par(f, 1)) else sel(x, I), (x,))
    f = find(ctx, "bv_flip", "bv", "vi")
    for o in P.run(f) if f else ():
        scatter(P, f, o, "the flipped vector", value(f, o, 0), par(f, 0), size_of(par(f, 1)), lambda k: sel(par(f, 1), k), lambda own, k: mk("^", own, C(1)), ())
    f = find(ctx, "bv_clear", "bv")
    for o in P.run(f) if f else ():
        P.elements(f, o, "the cleared vector", value(f, o, 0), [I], [size_of(par(f, 0))], lambda s: C(0), ())
    k = typed(mk("bvar", 1), "iv")
    for ty in ("bv", "vb"):
        f = find(ctx, "bv_hamming_weight", ty)
        for o in P.run(f) if f else ():
            x = par(f, 0)
            P.equal(f, o, "the weight", retval(o), mk("sum", C(0), size_of(x), k, sel(x, k)), (x,))
        f = find(ctx, "bv_dot_product", "bv", ty)
        for o in P.run(f) if f else ():
            x, y = par(f, 0), par(f, 1)
            P.equal(f, o, "the dot product", retval(o), mk("%", mk("sum", C(0), size_of(x), k, mul(sel(x, k), sel(y, k))), C(2)), (x, y))
    f = find(ctx, "bv_hamming_distance", "bv", "bv")
    for o in P.run(f) if f else ():
        x, y = par(f, 0), par(f, 1)
        P.equal(f, o, "the distance", retval(o), mk("sum", C(0), size_of(x), k, mk("^", sel(x, k), sel(y, k))), (x, y))
    for n, tys in (("bv_to_vector_bool", ("vb", "bv")), ("bv_from_vector_bool", ("bv", "vb"))):
        f = find(ctx, n, *tys)
        for o in P.run(f) if f else ():
            x = par(f, 1)
            P.elements(f, o, "the converted vector", value(f, o, 0), [I], [size_of(par(f, 0))], lambda s: sel(x, I), (x,))
    f = find(ctx, "bv_from_size_type", "bv", "unsigned long")
    for o in P.run(f) if f else ():
        u = par(f, 1)
        P.elements(f, o, "the bits of the number", value(f, o, 0), [I], [size_of(par(f, 0))], lambda s: mk("%", mk(">>", u, I), C(2)), ())
    for tys in (("bv",), ("bv", "int", "int")):
        f = find(ctx, "bv_to_size_type", *tys)
        for o in P.run(f) if f else ():
            x = par(f, 0)
            lo, hi = (C(0), size_of(x)) if len(tys) == 1 else (par(f, 1), par(f, 2))
            weight(P, f, o, retval(o), x, lo, hi)
    for nm, want in (("bv_from_string", None),):
        f = next((g for g in ctx.p.functions.values() if g["q"] == NS + nm and g.get("body")), None)
        if f:
            from_string(P, f)
    f = find(ctx, "perm_identity", "vi")
    for o in P.run(f) if f else ():
        P.elements(f, o, "the identity", value(f, o, 0), [I], [size_of(par(f, 0))], lambda s: I, ())
    for nm in ("perm_random", "perm_shuffle"):
        f = find(ctx, nm, "vi")
        for o in P.run(f) if f else ():
            t = value(f, o, 0)
            if t.op == "hv":
                ctx.skip("vector", f, "no closed form")
                continue
            ok = t.op == "permuted" and t.a[1] == "shuffle" and t.a[2] is C(0) and decide(o.st.facts, "==", t.a[3], size_of(par(f, 0))) is True
            ctx.check(ok, "vector", f, where(o, f), "%s does not shuffle the whole permutation: %s" % (nm, show(t)[:200]))
            if ok and nm == "perm_random":
                P.elements(f, o, "the shuffled sequence", t.a[0], [I], [size_of(par(f, 0))], lambda s: I, ())


def bitp(f, i):
    t = param(f, i)
    typed(t, "unsigned char")
    return t


def scatter(P, f, o, what, t, base, n, index, val, bits):
    """t must be base with, for k = 0..n-1 in order, element index(k) replaced by val(own, k)"""
    ctx = P.ctx
    if t.op == "permuted" or t.op == "hv" or any(x.op == "hv" for x in subterms(t)):
        ctx.skip(P.tag, f, "%s: no closed form" % what)
        return
    if t.op != "scatter":
        ctx.bad(P.tag, f, where(o, f), "%s is %s" % (what, show(t)[:200]))
        return
    b, lo, hi, bv, ix, g = t.a
    k = bv
    own = typed(mk("own"), "unsigned char")
    ok = b is base and decide(o.st.facts, "==", lo, C(0)) is True and decide(o.st.facts, "==", hi, n) is True
    ctx.check(ok, P.tag, f, where(o, f), "%s: positions %s to %s of %s are written" % (what, show(lo), show(hi), show(b)))
    ctx.check(ix is index(k), P.tag, f, where(o, f), "%s: position %s is written" % (what, show(ix)))
    P.equal(f, o, "%s at %s" % (what, show(ix)), g, val(own, k), tuple(bits) + (own,))


def weight(P, f, o, t, x, lo, hi):
    """t = sum of x[k] * 2^(k-lo) for k in [lo, hi)"""
    ctx = P.ctx
    if t.op not in ("fold", "sum") or any(y.op == "hv" for y in subterms(t)):
        ctx.skip(P.tag, f, "the number: no closed form")
        return
    l, h, bv, g = t.a if t.op == "sum" else t.a[2:]
    if t.op == "fold" and t.a[1] is not C(0):
        ctx.bad(P.tag, f, where(o, f), "the number starts from %s" % show(t.a[1]))
        return
    ctx.check(decide(o.st.facts, "==", l, lo) is True and decide(o.st.facts, "==", h, hi) is True, P.tag, f, where(o, f),
              "the number is made of bits %s to %s" % (show(l), show(h)))
    k = typed(mk("sym", "#k"), "int")
    g = subst(g, {bv: add(k, lo)})
    P.equal(f, o, "the contribution of bit k", g, mul(sel(x, add(k, lo)), mk("<<", C(1), k)), (x,))


def from_string(P, f):
    ctx = P.ctx
    for o in P.run(f):
        loops = [e for e in trace(o.st) if e.kind == "loop"]
        if o.kind != "R" or len(loops) != 1:
            ctx.skip("vector", f, "not a single loop")
            continue
        ev = loops[0]
        for b in ev.bodies:
            if b.kind != "N":
                continue
            ch = None
            for r in ev.hv:
                t0, t1 = at(ev.head, r[1], r[0]), at(b.st, r[1], r[0])
                if t1.op == "push" and t1.a[0] is t0:
                    ch = t1.a[1]
            if ch is None:
                ctx.skip("vector", f, "no push")
                continue
            zero = None
            for t in subterms_facts(b.st, ev.head):
                if t.op == "sel":
                    zero = decide(b.st.facts, "==", t, C(48))
            if isc(ch) and zero is not None:
                ctx.check(ch.a[0] == (0 if zero else 1), "vector", f, where(o, f), "character '%s' becomes %s" % ("0" if zero else "other than 0", ch.a[0]))
            else:
                ctx.skip("vector", f, "value %s" % show(ch))


def subterms_facts(st, head):
    out = set()
    for d, i in st.facts.items():
        if head.facts.get(d) != i:
            out |= subterms(d)
    return sorted(out, key=lambda t: t.n)


def matrices(ctx):
    P = Prim(ctx, "matrix")
    rows, cols = (lambda m: size_of(m)), (lambda m: size_of(sel(m, C(0))))
    f = find(ctx, "bm_num_rows", "bm")
    for o in P.run(f) if f else ():
        P.equal(f, o, "the number of rows", retval(o), rows(param(f, 0)), ())
    f = find(ctx, "bm_num_columns", "bm")
    for o in P.run(f) if f else ():
        P.equal(f, o, "the number of columns", retval(o), cols(param(f, 0)), ())
    f = find(ctx, "bm_transpose", "bm", "bm")
    for o in P.run(f) if f else ():
        M = param(f, 1)
        P.elements(f, o, "the transpose", value(f, o, 0), [I, J], [cols(M), rows(M)], lambda s: sel(M, J, I), (M,))
    f = find(ctx, "bm_transpose", "bm")
    for o in P.run(f) if f else ():
        M = param(f, 0)
        P.elements(f, o, "the transpose", retval(o), [I, J], [cols(M), rows(M)], lambda s: sel(M, J, I), (M,))
        P.equal(f, o, "the number of rows of the transpose", size_of(retval(o)), cols(M), ())
    one = lambda s: C(1) if decide(s.facts, "==", I, J) else C(0)
    f = find(ctx, "bm_identity", "bm")
    for o in P.run(f) if f else ():
        M = param(f, 0)
        identity(P, f, o, value(f, o, 0), rows(M), cols(M))
    f = find(ctx, "bm_identity", "int")
    for o in P.run(f) if f else ():
        n = param(f, 0)
        identity(P, f, o, retval(o), n, n)
        P.equal(f, o, "the size of the identity", size_of(retval(o)), n, ())
    f = find(ctx, "bm_clear", "bm")
    for o in P.run(f) if f else ():
        M = param(f, 0)
        P.elements(f, o, "the cleared matrix", value(f, o, 0), [I, J], [rows(M), size_of(sel(M, I))], lambda s: C(0), ())
    f = find(ctx, "bm_resize", "bm", "int", "int")
    for o in P.run(f) if f else ():
        shape(P, f, o, value(f, o, 0), param(f, 1), param(f, 2))
    f = find(ctx, "bm_resize", "bm", "int")
    for o in P.run(f) if f else ():
        shape(P, f, o, value(f, o, 0), param(f, 1), param(f, 1))
    f = find(ctx, "bm_rectangular", "int", "int")
    for o in P.run(f) if f else ():
        shape(P, f, o, retval(o), param(f, 0), param(f, 1))
    f = find(ctx, "bm_square", "int")
    for o in P.run(f) if f else ():
        shape(P, f, o, retval(o), param(f, 0), param(f, 0))
    f = find(ctx, "bm_set_column", "bm", "int", "bv")
    for o in P.run(f) if f else ():
        M, j, b = param(f, 0), param(f, 1), param(f, 2)
        P.elements(f, o, "the matrix", value(f, o, 0), [I, J], [rows(M), cols(M)],
                   lambda s: sel(b, I) if decide(s.facts, "==", J, j) else sel(M, I, J), (M, b))
    f = find(ctx, "bm_add_rows", "bm", "int", "int")
    for o in P.run(f) if f else ():
        M, d, s_ = param(f, 0), param(f, 1), param(f, 2)
        P.elements(f, o, "the destination row", sel(value(f, o, 0), d), [J], [size_of(sel(M, d))], lambda s: mk("^", sel(M, d, J), sel(M, s_, J)), (M,))
        st = assume(o.st, cmpterm("!=", I, d), True)
        P.elements(f, path(o, st), "another row", value(f, o, 0), [I, J], [rows(M), size_of(sel(M, I))], lambda s: sel(M, I, J), (M,))
    f = find(ctx, "bm_add_columns", "bm", "int", "int")
    for o in P.run(f) if f else ():
        M, d, s_ = param(f, 0), param(f, 1), param(f, 2)
        addcols(P, f, o, M, d, s_)
    f = find(ctx, "bm_swap_rows", "bm", "int", "int")
    if f:
        swap(P, f)
    f = find(ctx, "bm_multiply", "bv", "bm", "bv")
    k = typed(mk("bvar", 1), "iv")
    for o in P.run(f) if f else ():
        M, x = param(f, 1), param(f, 2)
        P.elements(f, o, "the product", value(f, o, 0), [I], [size_of(param(f, 0))],
                   lambda s: mk("%", mk("sum", C(0), size_of(sel(M, I)), k, mul(sel(M, I, k), sel(x, k))), C(2)), (M, x))


def addcols(P, f, o, M, d, s_):
    t = value(f, o, 0)
    st = bounded(o.st, I, size_of(M))
    st = bounded(st, J, size_of(sel(M, I))) if st else None
    if st is None:
        return
    # the row is updated or kept according to its source bit
    try:
        rows = element(st, t, [I])
    except Unknown as x:
        P.ctx.skip("matrix", f, str(x))
        return
    for s, row in rows:
        cs = row.a[0] if row.op == "cases" else (((), row),)
        for g, v in cs:
            s2 = s
            for dd, iv in g:
                s2 = s2 and constrain(s2, dd, iv)
            if s2 is None:
                continue
            P.elements(f, path(o, s2), "the row", v, [J], [size_of(sel(M, I))],
                       lambda z: mk("^", sel(M, I, d), sel(M, I, s_)) if decide(z.facts, "==", J, d) else sel(M, I, J), (M,))


def constrain(s, d, iv):
    lo, ls, hi, hs, ne = iv
    if lo is not None:
        s = assume(s, cmpterm(">" if ls else ">=", d, C(lo)), True)
    if s is not None and hi is not None:
        s = assume(s, cmpterm("<" if hs else "<=", d, C(hi)), True)
    for n in ne:
        if s is not None:
            s = assume(s, cmpterm("!=", d, C(n)), True)
    return s


def identity(P, f, o, t, n, m):
    def want(s):
        d = decide(s.facts, "==", I, J)
        return C(1) if d else C(0)
    # split on the diagonal first
    for tr in (True, False):
        st = assume(o.st, cmpterm("==", I, J), tr)
        if st is None:
            continue
        P.elements(f, path(o, st), "the identity", t, [I, J], [n, m], want, ())


def path(o, st):
    return type("O", (), {"st": st, "node": o.node, "kind": "R"})()


def shape(P, f, o, t, n, m):
    P.equal(f, o, "the number of rows", size_of(t), n, ())
    st = bounded(o.st, I, n)
    try:
        for s, r in element(st, t, [I]):
            P.equal(f, o, "the size of row i", size_of(r), m, (), s)
    except Unknown as x:
        P.ctx.skip("matrix", f, str(x))


def swap(P, f):
    """at representative row pairs: the two rows are exchanged, the others kept"""
    M = param(f, 0)
    for a, b in ((0, 1), (1, 0), (0, 2)):
        for o in P.run(f, args=[None, C(a), C(b)]):
            t = value(f, o, 0)
            for r in (0, 1, 2, 3):
                src = b if r == a else a if r == b else r
                P.elements(f, o, "row %d after the exchange of rows %d and %d" % (r, a, b), sel(t, C(r)), [J], [size_of(sel(M, C(0)))], lambda s: sel(M, C(src), J), (M,))


def elimination(ctx):
    """row operations on the matrix and on the right-hand side are the same, in the same order"""
    SW, AD = NS + "bm_swap_rows", NS + "bm_add_rows"
    P = Prim(ctx, "elimination")

    def keep(eng, e, f, ol):
        return False if f["q"] in (SW, AD) else None

    for nm, tys in (("bm_invert", ("bm", "bm")), ("bm_solve", ("bm", "bv")), ("bm_solve_upper_triangular", ("bm", "bv"))):
        f = find(ctx, nm, *tys)
        if f is None:
            continue
        A, B = ("P", f["ps"][0]["n"]), ("P", f["ps"][1]["n"])
        bodies = []

        def on(eng, st, ev):
            if ev.kind == "loop":
                bodies.append(ev)
        try:
            outs = outcomes(ctx, f, inline=lambda eng, e, g, ol: False if g["q"] in (SW, AD) or g["q"].startswith(NS + "bm_is") else None, on_event=on)
        except TooComplex as x:
            ctx.skip("elimination", f, str(x))
            continue
        seen = 0
        for lp in bodies:
            for b in lp.bodies:
                if b.kind not in ("N", "C"):
                    continue
                own = [e for e in trace(b.st)]
                fin = b.st
                for n, e in enumerate(own):
                    if e.kind == "loop" and any(r[0] == B for r in e.hv):
                        own, fin = own[:n], e.entry
                        break
                ops, rhs = [], []
                for e in own:
                    if e.kind != "call" or e.q not in (SW, AD):
                        continue
                    root = e.locs[0][1][0] if isinstance(e.locs[0], tuple) else None
                    (ops if root == A else rhs if root == B else []).append((e.q.split("_")[-2], e.args[1], e.args[2]))
                if not ops and not rhs:
                    continue
                seen += 1
                if tys[1] == "bm":
                    ctx.check(ops == rhs, "elimination", f, lp.node.get("l", f["line"]), "the row operations %s on the matrix are not those on its inverse %s" % (showops(ops), showops(rhs)))
                else:
                    b0, b1 = getroot(lp.head, B), getroot(fin, B)
                    want = b0
                    for k, x, y in ops:
                        if k == "swap":
                            u, v = sel(want, x), sel(want, y)
                            want = put(put(want, (("[", x),), v), (("[", y),), u)
                        else:
                            want = put(want, (("[", x),), mk("^", sel(want, x), sel(want, y)))
                    vector_eq(P, f, lp, path(b, fin), b0, b1, want, ops)
        if not seen:
            ctx.skip("elimination", f, "no row operations found")


def vector_eq(P, f, lp, b, b0, b1, want, ops):
    idx = [x for k, x, y in ops] + [y for k, x, y in ops]
    o = type("O", (), {"st": b.st, "node": lp.node, "kind": "N"})()
    for i in dict.fromkeys(idx):
        try:
            for s, v in element(b.st, b1, [i]):
                for s2, w in element(s, want, [i]):
                    P.equal(f, o, "component %s of the right-hand side after %s" % (show(i)[:40], showops(ops)), v, w, (b0,), s2, True)
        except Unknown as x:
            P.ctx.skip("elimination", f, str(x))


def showops(ops):
    return "; ".join("%s(%s, %s)" % (k, show(x)[:40], show(y)[:40]) for k, x, y in ops) or "none"


# ------------------------------------------------------------------ P22: maps
MAP = "hnco::map::"
TV = MAP + "Transvection"
RE, RK, RNDM, RNDV = NS + "bm_row_echelon_form", NS + "bm_rank", NS + "bm_random", NS + "bv_random"
TSM = MAP + "ts_multiply"


@rule("P22", "closed forms of map(), sizes, surjectivity, sampling and inversion of every map class and of the transvection functions, "
      "compared at a symbolic index with the documented map (truth tables over bit atoms); path conditions of predicates evaluated on a small model; loop and call-order analysis of sequences",
      minimum={"obligations.map": 8, "obligations.size": 10, "obligations.surjective": 5, "obligations.transvection": 10, "obligations.sampling": 10})
def p22(ctx):
    ctx.need(MAP + "Map" in ctx.p.records, MAP + "Map")
    P = Prim(ctx, "map")
    simple_maps(ctx, P)
    linear_maps(ctx, P)
    positions(ctx)
    composition(ctx)
    ts_map(ctx, P)
    transvections(ctx)
    sequences(ctx)


def vfields(ctx, cls, pre):
    return [f["n"] for f in ctx.p.records[cls]["fields"] if kind(f["t"]) == pre]


def fieldterm(n):
    return mk("fld", this0(), n)


def sizes(ctx, cls, nin, nout):
    for n, want in (("get_input_size", nin), ("get_output_size", nout)):
        f = method(ctx, cls, n, 0)
        for o in outcomes(ctx, f, cls):
            v = retval(o)
            ctx.check(v is want or isinstance(v, T) and decide(o.st.facts, "==", v, want) is True, "size", f, where(o, f),
                      "%s::%s is %s; expected %s" % (cls, n, show(v), show(want)))


def always_surjective(ctx, cls):
    f = method(ctx, cls, "is_surjective", 0)
    for o in outcomes(ctx, f, cls):
        v = retval(o)
        ctx.check(isc(v) and v.a[0] == 1, "surjective", f, where(o, f), "%s does not say it is surjective" % cls)


def pick(ctx, P, cls, f, o, out, kinds, want):
    """the member which makes every element of the output equal want(member): its term, None if there is none"""
    best = None
    for k in kinds:
        for n in vfields(ctx, cls, k):
            F = fieldterm(n)
            best = F
            st = bounded(o.st, I, size_of(param(f, 1)))
            try:
                if all(same(v, want(F), (F, param(f, 0)), s.facts) for s, v in element(st, out, [I])):
                    return F
            except Unknown:
                pass
    return best


def simple_maps(ctx, P):
    for cls, k, want in ((MAP + "Translation", "bv", lambda F, x: mk("^", sel(x, I), sel(F, I))), (MAP + "Permutation", "vi", lambda F, x: sel(x, sel(F, I)))):
        if cls not in ctx.p.records:
            ctx.skip("map", ("", cls), "not found")
            continue
        f = method(ctx, cls, "map", 2)
        F = None
        for o in P.run(f, cls):
            x = param(f, 0)
            out = value(f, o, 1)
            F = pick(ctx, P, cls, f, o, out, (k,), lambda F: want(F, x))
            if F is None:
                ctx.skip("map", f, "no member")
                continue
            P.elements(f, o, "the image", out, [I], [size_of(param(f, 1))], lambda s: want(F, x), (F, x))
            ctx.check(getroot(o.st, ("P", f["ps"][0]["n"])) is x, "map", f, where(o, f), "the input is modified")
        if F is None:
            continue
        sizes(ctx, cls, size_of(F), size_of(F))
        always_surjective(ctx, cls)
        g = ctx.p.find_method(cls, "random", nparams=1)
        if g:
            sampled(ctx, cls, g, F, RNDV if k == "bv" else NS + "perm_random", param(g, 0))
        g = ctx.p.find_method(cls, "set_bv", nparams=1)
        if g:
            for o in outcomes(ctx, g, cls):
                ctx.check(at(o.st, path_of(F)) is param(g, 0), "map", g, where(o, g), "set_bv stores %s" % show(at(o.st, path_of(F))))


def sampled(ctx, cls, g, F, fn, n):
    """member F gets size n and is then drawn by fn"""
    for o in outcomes(ctx, g, cls, inline=lambda eng, e, h, ol: False if h["q"] == fn else None):
        evs = calls(o, lambda e: e.q == fn and isinstance(e.locs[0], tuple) and e.locs[0][1] == (("THIS",), path_of(F)))
        if o.kind == "X":
            continue
        if not evs:
            if any(x.op == "hv" for x in subterms(at(o.st, path_of(F)))):
                ctx.skip("sampling", g, "other sampling")
            else:
                ctx.bad("sampling", g, where(o, g), "%s is not drawn" % show(F))
            continue
        ctx.check(decide(o.st.facts, "==", size_of(evs[-1].args[0]), n) is True, "sampling", g, where(o, g), "%s is drawn with size %s" % (show(F), show(size_of(evs[-1].args[0]))))


def linear_maps(ctx, P):
    k = typed(mk("bvar", 1), "iv")
    for cls, off in ((MAP + "LinearMap", False), (MAP + "AffineMap", True)):
        if cls not in ctx.p.records:
            ctx.skip("map", ("", cls), "not found")
            continue
        ms, vs = vfields(ctx, cls, "bm"), vfields(ctx, cls, "bv")
        if len(ms) != 1 or off and len(vs) != 1:
            ctx.skip("map", ("", cls), "members not recognised")
            continue
        M, b = fieldterm(ms[0]), fieldterm(vs[0]) if off else None
        f = method(ctx, cls, "map", 2)
        for o in P.run(f, cls):
            x = param(f, 0)

            def want(s):
                t = mk("%", mk("sum", C(0), size_of(sel(M, I)), k, mul(sel(M, I, k), sel(x, k))), C(2))
                return mk("^", t, sel(b, I)) if off else t
            P.elements(f, o, "the image", value(f, o, 1), [I], [size_of(param(f, 1))], want, (M, x, b) if off else (M, x))
        sizes(ctx, cls, size_of(sel(M, C(0))), size_of(M))
        # surjective iff the rank of the matrix is its number of rows
        f = method(ctx, cls, "is_surjective", 0)
        opq = lambda eng, e, h, ol: False if h["q"] in (RE, RK) else None
        for o in outcomes(ctx, f, cls, inline=opq):
            v = retval(o)
            rk = [t for t in subterms_all(v, o.st) if t.op == "call" and t.a[0] == RK]
            if not rk:
                if isc(v):
                    ctx.bad("surjective", f, where(o, f), "%s::is_surjective is constant" % cls)
                else:
                    ctx.skip("surjective", f, "the rank is not used")
                continue
            for r in rk:
                a = r.a[-1]
                ok = a.op == "out" and a.a[0] == RE and a.a[-1] is M
                ctx.check(ok, "surjective", f, where(o, f), "the rank is that of %s, not of the echelon form of the matrix" % show(a)[:120])
                tr = v.a[0] if isc(v) else None
                if tr is None:
                    w = cmpterm("==", r, size_of(M))
                    ctx.check(v is w or v is cmpterm(">=", r, size_of(M)), "surjective", f, where(o, f), "surjective means %s; expected %s" % (show(v)[:160], show(w)[:160]))
                else:
                    d = decide(o.st.facts, "==", r, size_of(M))
                    d2 = decide(o.st.facts, ">=", r, size_of(M))
                    ctx.check(tr == d or tr == d2, "surjective", f, where(o, f), "answers %s when rank == rows is %s" % (bool(tr), d))
        # random
        g = method(ctx, cls, "random", 3)
        SJ = f["q"]
        rows, cols, want_s = param(g, 0), param(g, 1), param(g, 2)
        opq = lambda eng, e, h, ol: False if h["q"] in (SJ, RNDM, RNDV) else None
        for o in P.run(g, cls, inline=opq):
            ws = decide(o.st.facts, "!=", want_s, C(0))
            if o.kind == "X":
                ctx.check(ws is True and decide(o.st.facts, ">", rows, cols) is True, "sampling", g, where(o, g), "refuses dimensions which can be sampled")
                continue
            evs = calls(o, lambda e: e.q == RNDM)
            if not ctx.check(bool(evs), "sampling", g, where(o, g), "%s: the matrix is not drawn" % cls):
                continue
            PR = Prim(ctx, "sampling")
            shape_of(PR, g, path(o, evs[0].before), evs[0].args[0], rows, cols)
            fin = at(o.st, path_of(M))
            if ws is True:
                ok = any(t.op == "call" and t.a[0] == SJ and i[0] is not None and i[0] >= 1 and proj(t.a[1], (".", ms[0])) is fin for t, i in o.st.facts.items())
                ctx.check(ok, "sampling", g, where(o, g), "%s::random(surjective) may end with a matrix which is not of full rank" % cls)
                ctx.check(decide(o.st.facts, "<=", rows, cols) is True, "sampling", g, where(o, g), "%s::random(surjective) accepts more rows than columns" % cls)
            elif ws is None:
                ctx.bad("sampling", g, where(o, g), "%s::random ignores the surjective flag on a path" % cls)
        if off:
            sampled(ctx, cls, g, b, RNDV, rows)


def shape_of(P, f, o, t, n, m):
    P.equal(f, o, "the number of rows", size_of(t), n, ())
    st = bounded(o.st, I, n)
    try:
        for s, r in element(st, t, [I]):
            P.equal(f, o, "the size of row i", size_of(r), m, (), s)
    except Unknown as x:
        P.ctx.skip(P.tag, f, str(x))


def subterms_all(v, st):
    out = set(subterms(v))
    for d in st.facts:
        out |= subterms(d)
    return out


def positions(ctx):
    P = Prim(ctx, "map")
    for cls, inj in ((MAP + "Injection", True), (MAP + "Projection", False)):
        if cls not in ctx.p.records:
            ctx.skip("map", ("", cls), "not found")
            continue
        vs = vfields(ctx, cls, "vi")
        if len(vs) != 1:
            ctx.skip("map", ("", cls), "members not recognised")
            continue
        F = fieldterm(vs[0])
        f = method(ctx, cls, "map", 2)
        for o in P.run(f, cls):
            x = param(f, 0)
            if inj:
                scatter(P, f, o, "the image", value(f, o, 1), param(f, 1), size_of(F), lambda k: sel(F, k), lambda own, k: sel(x, k), (x,))
            else:
                P.elements(f, o, "the image", value(f, o, 1), [I], [size_of(F)], lambda s: sel(x, sel(F, I)), (x,))
        # construction: positions first, other size second
        for g, outs in ctor_state(ctx, cls):
            if len(g["ps"]) != 2:
                continue
            pos, n = param(g, 0), param(g, 1)
            thrown = False
            for o in outs:
                if o.kind == "X":
                    thrown = True
                    ctx.check(decide(o.st.facts, "<", n, size_of(pos)) is True, "size", g, where(o, g), "a valid size is refused")
                    continue
                ctx.check(decide(o.st.facts, ">=", n, size_of(pos)) is True, "size", g, where(o, g), "%s accepts a size smaller than the number of positions" % cls)
                ctx.check(at(o.st, ((".", vs[0]),)) is pos, "size", g, where(o, g), "the positions are not stored")
                for q, want in (("get_input_size", size_of(pos) if inj else n), ("get_output_size", n if inj else size_of(pos))):
                    h = method(ctx, cls, q, 0)
                    for o2 in outcomes(ctx, h, cls):
                        v = subst(retval(o2), {this0(): getroot(o.st, ("THIS",))})
                        v = renorm(v)
                        ctx.check(v is want, "size", h, where(o2, h), "%s::%s is %s; expected %s" % (cls, q, show(v), show(want)))
        f = method(ctx, cls, "is_surjective", 0)
        for o in outcomes(ctx, f, cls):
            v = retval(o)
            if not inj:
                ctx.check(isc(v) and v.a[0] == 1, "surjective", f, where(o, f), "a projection does not say it is surjective")
            else:
                a, b = getter_term(ctx, cls, "get_input_size"), getter_term(ctx, cls, "get_output_size")
                w = cmpterm("==", a, b)
                d = decide(o.st.facts, "==", a, b)
                ctx.check(v is w or isc(v) and d is not None and bool(v.a[0]) == d or v in (cmpterm(">=", a, b),), "surjective", f, where(o, f), "an injection is surjective iff %s" % show(v))


def renorm(t):
    """re-evaluate field reads of a substituted object"""
    m = {}
    for x in sorted(subterms(t), key=lambda z: z.n):
        if x.op == "fld" and x.a[0].op in ("obj", "updf"):
            m[x] = proj(x.a[0], (".", x.a[1]))
        elif x.op == "size" and x.a[0].op == "fld" and x.a[0].a[0].op in ("obj", "updf"):
            m[x] = size_of(proj(x.a[0].a[0], (".", x.a[0].a[1])))
    for k in sorted(m, key=lambda z: -z.n):
        if t is k:
            return m[k]
    return subst(t, m)


def composition(ctx):
    cls = MAP + "MapComposition"
    if cls not in ctx.p.records:
        ctx.skip("map", ("", cls), "not found")
        return
    MM = MAP + "Map::map"
    f = method(ctx, cls, "map", 2)
    roles = None
    for o in outcomes(ctx, f, cls, keep_trace=True):
        evs = calls(o, lambda e: e.q == MM)
        if not ctx.check(len(evs) == 2, "map", f, where(o, f), "the composition applies %d maps" % len(evs)):
            continue
        inn, outr = evs
        ok = inn.args[0] is param(f, 0) and isinstance(outr.locs[1], tuple) and outr.locs[1][1] == (("P", f["ps"][1]["n"]), ()) and inn.locs[1] == outr.locs[0] or \
            inn.args[0] is param(f, 0) and isinstance(inn.locs[1], tuple) and isinstance(outr.locs[0], tuple) and inn.locs[1][1] == outr.locs[0][1] and outr.locs[1][1] == (("P", f["ps"][1]["n"]), ())
        ctx.check(ok, "map", f, where(o, f), "the second map is not applied to the result of the first, into the output")
        roles = (inn.obj[0], outr.obj[0], inn.locs[1][1] if isinstance(inn.locs[1], tuple) else None)
    if roles is None:
        return

    def ptr(root):
        return root[1] if root[0] == "D" else None
    pi, po = ptr(roles[0]), ptr(roles[1])
    if pi is None or po is None or path_of(pi) is None or path_of(po) is None:
        ctx.skip("map", f, "maps not recognised")
        return
    ctx.check(pi is not po, "map", f, f["line"], "the composition applies the same map twice")
    for q, who, nm in (("get_input_size", pi, "inner"), ("get_output_size", po, "outer")):
        h = method(ctx, cls, q, 0)
        for o in outcomes(ctx, h, cls):
            v = retval(o)
            ok = v.op == "call" and v.a[0] == MAP + "Map::" + q and v.a[1] is initv(("D", who))
            ctx.check(ok, "size", h, where(o, h), "%s of a composition is %s, not that of the %s map" % (q, show(v), nm))
    h = method(ctx, cls, "is_surjective", 0)
    for o in outcomes(ctx, h, cls):
        v = retval(o)
        both = all(any(t.op == "call" and t.a[0] == MAP + "Map::is_surjective" and t.a[1] is initv(("D", w)) and (t in subterms(v) or i and i[0] is not None and i[0] >= 1)
                       for t, i in list(o.st.facts.items()) + [(t, None) for t in subterms(v)]) for w in (pi, po))
        if isc(v) and v.a[0] == 0:
            ctx.ok("surjective", h["q"])
            continue
        ctx.check(both, "surjective", h, where(o, h), "a composition says it is surjective although one of the maps may not be")
    for g, outs in ctor_state(ctx, cls):
        if len(g["ps"]) != 2:
            continue
        for o in outs:
            if o.kind == "X":
                continue
            ctx.check(at(o.st, path_of(po)) is param(g, 0) and at(o.st, path_of(pi)) is param(g, 1), "map", g, where(o, g), "outer and inner maps are exchanged or not stored")
            if roles[2] and roles[2][0] == ("THIS",):
                sz = size_of(at(o.st, roles[2][1]))
                ok = sz.op == "call" and (sz.a[0] == MAP + "Map::get_output_size" and sz.a[1] is initv(("D", param(g, 1))) or
                                          sz.a[0] == MAP + "Map::get_input_size" and sz.a[1] is initv(("D", param(g, 0))))
                ctx.check(ok, "size", g, where(o, g), "the intermediate bit vector has size %s" % show(sz))


def ts_map(ctx, P):
    cls = MAP + "TsAffineMap"
    if cls not in ctx.p.records:
        ctx.skip("map", ("", cls), "not found")
        return
    vs, ts = vfields(ctx, cls, "bv"), vfields(ctx, cls, "ts")
    if len(vs) != 1 or len(ts) != 1:
        ctx.skip("map", ("", cls), "members not recognised")
        return
    b, S = fieldterm(vs[0]), fieldterm(ts[0])
    opq = lambda eng, e, h, ol: False if h["q"] == TSM else None
    f = method(ctx, cls, "map", 2)
    for o in P.run(f, cls, inline=opq):
        x = param(f, 0)
        evs = calls(o, lambda e: e.q == TSM)
        if not evs:
            ctx.skip("map", f, "the sequence is not applied by ts_multiply")
            continue
        tm = mk("out", TSM, 0, None, x, S)
        ctx.check(len(evs) == 1 and evs[0].args[1] is S, "map", f, where(o, f), "the sequence of transvections is applied %d times" % len(evs))
        P.elements(f, o, "the image", value(f, o, 1), [I], [size_of(b)], lambda s: mk("^", sel(tm, I), sel(b, I)), (tm, b, x))
    sizes(ctx, cls, size_of(b), size_of(b))
    always_surjective(ctx, cls)
    f = method(ctx, cls, "invert", 0)
    for o in P.run(f, cls, inline=opq):
        S1, b1 = at(o.st, path_of(S)), at(o.st, path_of(b))
        if any(x.op == "hv" for x in subterms(S1)):
            ctx.skip("map", f, "the sequence has no closed form")
            continue
        ok = S1.op == "permuted" and S1.a[0] is S and S1.a[1] == "reverse" and S1.a[2] is C(0) and S1.a[3] is size_of(S)
        ctx.check(ok, "map", f, where(o, f), "inverting leaves the sequence %s" % show(S1)[:160])
        ok = b1.op == "out" and b1.a[0] == TSM and b1.a[-2] is b and b1.a[-1] is S1
        ctx.check(ok, "map", f, where(o, f), "inverting leaves the translation %s; expected the old one multiplied by the inverted sequence" % show(b1)[:200])
    # sampling modes
    g = method(ctx, cls, "random", 3)
    SAMP = {"unconstrained": "ts_random", "commuting_transvections": "ts_random_commuting", "unique_source": "ts_random_unique_source",
            "unique_destination": "ts_random_unique_destination", "disjoint_transvections": "ts_random_disjoint", "non_commuting_transvections": "ts_random_non_commuting"}
    en = {}
    for nm in SAMP:
        v = enum_value(ctx, MAP + "TsAffineMap::SamplingMode::mode", nm)
        if v is None:
            ctx.skip("sampling", g, "enumerator %s not found" % nm)
        else:
            en[nm] = v
    fns = set(MAP + x for x in SAMP.values())
    n, t, mode = (param(g, i) for i in range(3))
    for nm, v in list(en.items()) + [("?", 1 + max(en.values()) if en else 99), ("?", -1)]:
        for o in P.run(g, cls, args=[None, None, C(v)], inline=lambda eng, e, h, ol: False if h["q"] in fns or h["q"] == RNDV else None):
            evs = calls(o, lambda e: e.q in fns)
            if nm == "?":
                ctx.check(o.kind == "X", "sampling", g, where(o, g), "an unknown sampling mode (%d) is accepted" % v)
                continue
            ok = o.kind == "R" and len(evs) == 1 and evs[0].q == MAP + SAMP[nm] and evs[0].locs[0][1] == (("THIS",), path_of(S)) and evs[0].args[1] is n and evs[0].args[2] is t
            ctx.check(ok, "sampling", g, where(o, g), "mode %s samples with %s(%s)" % (nm, ",".join(e.q.split("::")[-1] for e in evs) or "nothing", ",".join(show(a)[:20] for e in evs for a in e.args[1:])))
    sampled(ctx, cls, g, b, RNDV, n)


def enum_value(ctx, q, name):
    for e in ctx.p.enums.values():
        if e["q"] == q:
            for c in e["cs"]:
                if c["n"].split("::")[-1] == name:
                    return int(c["v"])
    return None


# ------------------------------------------------------------------ transvections
def predicate(ctx, f, cls, fields, oracle, dom, what):
    """evaluate the path conditions of a boolean function on every valuation of its integer atoms"""
    from itertools import product
    from ..elem import ev, interval_ok
    outs = outcomes(ctx, f, cls)
    bad = None
    for vals in product(dom, repeat=len(fields)):
        env = dict(zip(fields, vals))
        hit = []
        for o in outs:
            try:
                if all(interval_ok(ev(d, env), i) for d, i in o.st.facts.items()):
                    v = retval(o)
                    hit.append(bool(ev(v, env)))
            except Unknown as x:
                ctx.skip("transvection", f, "%s: %s" % (what, x))
                return
        if not hit:
            ctx.skip("transvection", f, "no path for %s" % (vals,))
            return
        if any(h != oracle(*vals) for h in hit):
            bad = vals
            break
    ctx.check(bad is None, "transvection", f, f["line"], "%s answers wrongly for %s = %s" % (what, ", ".join(show(x) for x in fields), bad))


def transvections(ctx):
    if TV not in ctx.p.records:
        ctx.skip("transvection", ("", TV), "not found")
        return
    r, c = fieldterm("row_index"), fieldterm("column_index")
    for f in ctx.p.functions.values():
        if f.get("cls") != TV or not f.get("body"):
            continue
        if f["n"] == "is_valid":
            if not f["ps"]:
                predicate(ctx, f, TV, [r, c], lambda a, b: a >= 0 and b >= 0 and a != b, (-2, -1, 0, 1, 2), "is_valid")
            else:
                n = param(f, 0)
                predicate(ctx, f, TV, [r, c, n], lambda a, b, m: 0 <= a < m and 0 <= b < m and a != b, (-1, 0, 1, 2, 3), "is_valid(n)")
    for nm, oracle in (("transvections_commute", lambda a, b, x, y: a != y and x != b), ("transvections_are_disjoint", lambda a, b, x, y: not {a, b} & {x, y})):
        f = next((g for g in ctx.p.functions.values() if g["q"] == MAP + nm and g.get("body")), None)
        if f is None:
            ctx.skip("transvection", ("", nm), "not found")
            continue
        ctx.functions.add(f["id"])
        a, b = param(f, 0), param(f, 1)
        predicate(ctx, f, None, [mk("fld", a, "row_index"), mk("fld", a, "column_index"), mk("fld", b, "row_index"), mk("fld", b, "column_index")], oracle, (0, 1, 2, 3), nm)
    P = Prim(ctx, "transvection")
    for f in ctx.p.functions.values():
        if f.get("cls") != TV or not f.get("body") or f["n"] != "multiply":
            continue
        x = param(f, 0)
        for o in P.run(f, TV):
            if kind(f["ps"][0]["t"]) == "bv":
                P.elements(f, o, "the product", value(f, o, 0), [I], [size_of(x)],
                           lambda s: mk("^", sel(x, r), sel(x, c)) if decide(s.facts, "==", I, r) else sel(x, I), (x,))
            else:
                P.elements(f, o, "row row_index of the product", sel(value(f, o, 0), r), [J], [size_of(sel(x, r))], lambda s: mk("^", sel(x, r, J), sel(x, c, J)), (x,))
                st = assume(o.st, cmpterm("!=", I, r), True)
                P.elements(f, path(o, st), "another row of the product", value(f, o, 0), [I, J], [size_of(x), size_of(sel(x, I))], lambda s: sel(x, I, J), (x,))
    f = ctx.p.find_method(TV, "random", nparams=1)
    if f:
        for o in P.run(f, TV):
            if o.kind == "R":
                ctx.check(decide(o.st.facts, "!=", at(o.st, ((".", "row_index"),)), at(o.st, ((".", "column_index"),))) is True, "transvection", f, where(o, f), "a random transvection may have equal indices")
                drawn(ctx, f, o, param(f, 0))
    f = ctx.p.find_method(TV, "random_non_commuting", nparams=2)
    if f:
        a = param(f, 1)
        for o in P.run(f, TV, assume_asserts=False):
            if o.kind != "R":
                continue
            R, K = at(o.st, ((".", "row_index"),)), at(o.st, ((".", "column_index"),))
            ctx.check(decide(o.st.facts, "!=", R, K) is True, "transvection", f, where(o, f), "a random transvection may have equal indices")
            ctx.check(decide(o.st.facts, "==", R, mk("fld", a, "column_index")) is True or decide(o.st.facts, "==", K, mk("fld", a, "row_index")) is True,
                      "transvection", f, where(o, f), "the sampled transvection (%s, %s) may commute with the given one" % (show(R)[:40], show(K)[:40]))


def drawn(ctx, f, o, n):
    """the uniform distributions used are on [0, n)"""
    for t in subterms_all(getroot(o.st, ("THIS",)), o.st):
        if t.op == "ctor" and "uniform_int_distribution" in str(t.a[0]) and len(t.a) >= 3:
            lo, hi = t.a[1], t.a[2]
            ctx.check(lo is C(0) and decide(o.st.facts, "==", hi, sub(n, C(1))) is True, "transvection", f, where(o, f), "indices are drawn in [%s, %s]" % (show(lo), show(hi)))


def sequences(ctx):
    P = Prim(ctx, "sampling")
    # application in order
    for f in ctx.p.functions.values():
        if f["q"] != TSM or not f.get("body"):
            continue
        x, S = ("P", f["ps"][0]["n"]), ("P", f["ps"][1]["n"])
        for o in P.run(f, inline=lambda eng, e, h, ol: False if h["q"] == TV + "::multiply" else None):
            evs = [e for e in trace(o.st) if e.kind == "loop"]
            loops = [e for e in evs if any(c.kind == "call" and c.q == TV + "::multiply" for b in e.bodies for c in trace(b.st))]
            if len(loops) != 1:
                ctx.skip("sampling", f, "not a single loop")
                continue
            lp = loops[0]
            ivs = [v for v in lp.ivs if v[0].op == "hv"]
            for b in lp.bodies:
                if b.kind not in ("N", "C"):
                    ctx.bad("transvection", f, lp.node.get("l", f["line"]), "the product stops early")
                    continue
                cs = [e for e in trace(b.st) if e.kind == "call" and e.q == TV + "::multiply"]
                if not ctx.check(len(cs) == 1, "transvection", f, lp.node.get("l", f["line"]), "%d transvections are applied per step" % len(cs)):
                    continue
                e = cs[0]
                ok = e.obj[0] == S and len(e.obj[1]) == 1 and e.locs[0][1] == (x, ())
                idx = e.obj[1][0][1] if ok else None
                iv = next((v for v in ivs if v[0] is idx), None)
                if not ok or iv is None:
                    ctx.skip("transvection", f, "index not recognised")
                    continue
                fin = all(decide(s.facts, ">=", idx, size_of(initv(S))) is True for s in lp.exits)
                ctx.check(iv[2] == 1 and iv[1] is C(0) and fin, "transvection", f, lp.node.get("l", f["line"]), "the sequence is not applied from its first to its last transvection")
    f = next((g for g in ctx.p.functions.values() if g["q"] == MAP + "ts_invert" and g.get("body")), None)
    if f:
        for o in P.run(f):
            t, S = value(f, o, 0), param(f, 0)
            if t.op == "hv":
                ctx.skip("transvection", f, "no closed form")
                continue
            ctx.check(t.op == "permuted" and t.a[0] is S and t.a[1] == "reverse" and t.a[2] is C(0) and t.a[3] is size_of(S), "transvection", f, where(o, f), "inverting gives %s" % show(t)[:160])
    fresh_sequences(ctx, P)


def fresh_sequences(ctx, P):
    """sampling replaces the sequence: nothing of the old one remains"""
    for f in sorted(ctx.p.functions.values(), key=lambda f: f["q"]):
        if not f["q"].startswith(MAP + "ts_random") or not f.get("body") or len(f["ps"]) != 3:
            continue
        ctx.functions.add(f["id"])
        S = ("P", f["ps"][0]["n"])
        n, t = param(f, 1), param(f, 2)
        short = f["q"].split("::")[-1]
        opq = lambda eng, e, h, ol: False if h["q"] in (TV + "::random", TV + "::random_non_commuting") else None
        for o in P.run(f, inline=opq):
            if o.kind != "R":
                continue
            fin, old = getroot(o.st, S), initv(S)
            if fin is old:
                ctx.check(decide(o.st.facts, "==", size_of(old), C(0)) is True, "sampling", f, where(o, f), "%s leaves the old sequence in place on a path (t <= 0)" % short)
                continue
            pl = [e for e in trace(o.st) if e.kind == "loop" and any(r[0] == S for r in e.hv)]
            for e in pl:
                ent = getroot(e.entry, S)
                inner = [x for b in e.bodies if b.kind == "N" for x in trace(b.st) if x.kind == "loop" and any(r[0] == S for r in x.hv)]
                pushes = any(at(b.st, r[1], r[0]).op == "push" for x in [e] + inner for b in x.bodies if b.kind == "N" for r in x.hv if r[0] == S)
                for x in inner:
                    if short == "ts_random_commuting":
                        split_roles(ctx, f, e, x, short, S)
                if pushes:
                    ctx.check(decide(e.entry.facts, "==", size_of(ent), C(0)) is True, "sampling", f, e.node.get("l", f["line"]), "%s appends to the old sequence" % short)
                    roles(ctx, f, e, short, n, t, S)
                else:
                    elements_of(ctx, f, o, e, short, n, t, S)
            if not pl:
                if decide(o.st.facts, "==", size_of(fin), C(0)) is True:
                    ctx.ok("sampling", short)
                else:
                    ctx.skip("sampling", f, "sequence %s" % show(fin)[:80])


def split_roles(ctx, f, e, x, short, S):
    """commuting: all destinations come from one part of the variables, all sources from the other"""
    for b, tv in pushed(x, S):
        (v1, i), (v2, j) = index_of(proj(tv, (".", "row_index"))), index_of(proj(tv, (".", "column_index")))
        if v1 is None or v1 is not v2:
            ctx.skip("sampling", f, "indices")
            continue
        o1, i1 = {y[0]: y for y in e.ivs}, {y[0]: y for y in x.ivs}
        out, inn = (i, j) if i in o1 else (j, i)
        if out not in o1 or inn not in i1:
            ctx.skip("sampling", f, "loops")
            continue
        lo = i1[inn][1]
        ok = i1[inn][2] == 1 and not any(y in o1 for y in subterms(lo)) and decide(b.st.facts, "<", out, lo) is True
        ctx.check(ok, "sampling", f, x.node.get("l", f["line"]), "%s: a variable may be both a source and a destination (%s below, %s from %s)" % (short, show(out)[:30], show(inn)[:30], show(lo)[:30]))


def index_of(t):
    """t = variables[i] with variables a shuffled identity: the index i"""
    if t.op == "sel":
        v = t.a[0]
        if v.op == "permuted" or v.op == "hv":
            return v, t.a[1]
    return None, None


def pushed(e, S):
    for b in e.bodies:
        if b.kind != "N":
            continue
        for r in e.hv:
            if r[0] == S:
                t = at(b.st, r[1], r[0])
                if t.op == "push":
                    yield b, t.a[1]


def roles(ctx, f, e, short, n, t, S):
    for b, tv in pushed(e, S):
        row, col = proj(tv, (".", "row_index")), proj(tv, (".", "column_index"))
        (v1, i), (v2, j) = index_of(row), index_of(col)
        line = e.node.get("l", f["line"])
        if v1 is None or v2 is None or v1 is not v2:
            ctx.skip("sampling", f, "indices %s, %s" % (show(row)[:50], show(col)[:50]))
            continue
        ivs = {x[0]: x for x in e.ivs}
        if short in ("ts_random_unique_source", "ts_random_unique_destination"):
            fixed, free = (i, j) if short.endswith("source") else (j, i)
            if fixed not in ivs:
                ctx.bad("sampling", f, line, "%s: the %s are not distinct" % (short, "destinations" if short.endswith("source") else "sources"))
                continue
            T_ = None
            ft = set(subterms(free))
            for x in list(ft):
                if x.op == "hv" and (x.a[1], x.a[2]) in e.hv:
                    ft |= subterms(at(e.entry, x.a[2], x.a[1]))
            for x in ft:
                if x.op == "ctor" and "uniform_int_distribution" in str(x.a[0]) and len(x.a) >= 3:
                    T_ = x
            if T_ is None:
                ctx.skip("sampling", f, "free index %s" % show(free)[:60])
                continue
            lo, hi = T_.a[1], T_.a[2]
            ok = decide(b.st.facts, "<", fixed, lo) is True
            ctx.check(ok, "sampling", f, line, "%s: source and destination may coincide (one below %s, the other drawn from it)" % (short, show(lo)))
            ctx.check(decide(b.st.facts, "==", hi, sub(n, C(1))) is True, "sampling", f, line, "%s: index drawn up to %s" % (short, show(hi)))


def elements_of(ctx, f, o, e, short, n, t, S):
    line = e.node.get("l", f["line"])
    for b in e.bodies:
        if b.kind != "N":
            continue
        cs = [c for c in trace(b.st) if c.kind == "call" and c.q in (TV + "::random", TV + "::random_non_commuting")]
        ivs = {x[0]: x for x in e.ivs}
        if short == "ts_random" or short == "ts_random_non_commuting":
            q = TV + ("::random" if short == "ts_random" else "::random_non_commuting")
            if not ctx.check(len(cs) == 1 and cs[0].q == q, "sampling", f, line, "%s does not sample each transvection" % short):
                continue
            idx = cs[0].obj[1][-1][1] if cs[0].obj[0] == S and cs[0].obj[1] else None
            if idx is None:
                ctx.skip("sampling", f, "object")
                continue
            ctx.check(cs[0].args[0] is n, "sampling", f, line, "%s samples in dimension %s" % (short, show(cs[0].args[0])))
            if short.endswith("non_commuting"):
                a = cs[0].args[1]
                ok = a.op == "sel" and decide(b.st.facts, "==", a.a[1], sub(idx, C(1))) is True
                ctx.check(ok, "sampling", f, line, "%s: transvection %s is compared with %s, not with the preceding one" % (short, show(idx)[:30], show(a)[:60]))
        elif short == "ts_random_disjoint":
            t1 = getroot(b.st, S)
            if t1.op != "upd":
                ctx.skip("sampling", f, "no element written")
                continue
            row, col = proj(t1.a[2], (".", "row_index")), proj(t1.a[2], (".", "column_index"))
            (v1, i), (v2, j) = index_of(row), index_of(col)
            if v1 is None or v1 is not v2:
                ctx.skip("sampling", f, "indices")
                continue
            k = t1.a[1]
            (c1, d1), (c2, d2) = lin(i), lin(j)
            ok = d1.get(k) == d2.get(k) and d1.get(k) and abs(d1[k]) >= 2 and set(d1) == set(d2) == {k} and (c1 - c2) % d1[k] != 0
            ctx.check(bool(ok), "sampling", f, line, "%s: variables %s and %s of step %s are not disjoint from those of the other steps" % (short, show(i), show(j), show(k)))
