"""Elements of closed-form container terms, and equality of finite-domain
scalar terms by truth tables over their atoms."""
from itertools import product
from .terms import T, mk, C, isc, lin, sub, subst, subterms, typed, add, show
from .absint import decide, assume, cmpterm, proj, size_of

REDUCIBLE = ("tab", "upd", "vec", "resize", "new-vec", "fillrange", "iota", "list")


class Unknown(Exception):
    pass


def split(st, op, a, b):
    """[(state, truth)] of the comparison"""
    d = decide(st.facts, op, a, b)
    if d is not None:
        return [(st, d)]
    out = []
    for tr in (True, False):
        s = assume(st, cmpterm(op, a, b), tr)
        if s is not None:
            out.append((s, tr))
    return out


def inrange(st, lo, i, hi):
    out = []
    for s, a in split(st, ">=", i, lo):
        if not a:
            out.append((s, False))
            continue
        out += split(s, "<", i, hi)
    return out


def at_index(st, t, i):
    """[(state, term)]: element i of container term t"""
    if t.op == "tab":
        base, lo, hi, bv, g = t.a
        out = []
        for s, ins in inrange(st, lo, i, hi):
            if ins:
                v = subst(g, {bv: i})
                if any(x.op == "keep" for x in subterms(v)):
                    for s2, b in at_index(s, base, i):
                        out.append((s2, subst(v, {mk("keep"): b})))
                else:
                    out.append((s, v))
            else:
                out += at_index(s, base, i)
        return out
    if t.op == "upd":
        out = []
        for s, eq in split(st, "==", i, t.a[1]):
            out += [(s, t.a[2])] if eq else at_index(s, t.a[0], i)
        return out
    if t.op == "vec" or t.op == "new-vec":
        return [(st, t.a[1] if t.a[1] is not None else mk("uninit"))]
    if t.op == "resize":
        out = []
        for s, old in split(st, "<", i, size_of(t.a[0])):
            if old:
                out += at_index(s, t.a[0], i)
            else:
                out.append((s, t.a[2] if t.a[2] is not None else C(0)))
        return out
    if t.op == "fillrange":
        out = []
        for s, ins in inrange(st, t.a[1], i, t.a[2]):
            out += [(s, t.a[3])] if ins else at_index(s, t.a[0], i)
        return out
    if t.op == "iota":
        out = []
        for s, ins in inrange(st, t.a[1], i, t.a[2]):
            out += [(s, add(t.a[3], sub(i, t.a[1])))] if ins else at_index(s, t.a[0], i)
        return out
    v = proj(t, ("[", i))
    return [(st, v)]


def force(st, t, depth=0):
    """[(state, term)]: t with element reads of closed-form containers resolved"""
    if depth > 40:
        raise Unknown("too many element reads")
    for x in sorted(subterms(t), key=lambda z: z.n):
        if x.op == "sel" and x.a[0].op in REDUCIBLE:
            if any(y.op == "bvar" for y in subterms(x.a[1])):
                continue
            out = []
            for s, v in at_index(st, x.a[0], x.a[1]):
                if v is x:
                    continue
                out += force(s, subst(t, {x: v}), depth + 1)
            if out:
                return out
        if x.op == "size" and x.a[0].op == "sel" and x.a[0].a[0].op in REDUCIBLE:
            out = []
            for s, v in at_index(st, x.a[0].a[0], x.a[0].a[1]):
                out += force(s, subst(t, {x: size_of(v)}), depth + 1)
            if out:
                return out
    return [(st, t)]


def element(st, t, idx):
    """[(state, term)]: t[idx0][idx1].. resolved"""
    res = [(st, t)]
    for i in idx:
        nxt = []
        for s, x in res:
            for s2, v in at_index(s, x, i):
                nxt += force(s2, v)
        res = nxt
    return res


# ------------------------------------------------------------------ truth tables
BITOPS = ("^", "&", "|", "%", "<<", ">>", "/", "&&", "||", "!", "cmp", "cases", "lin", "mul", "not", "ite", "min", "max")


def interval_ok(v, iv):
    lo, ls, hi, hs, ne = iv
    if lo is not None and (v < lo or (ls and v == lo)):
        return False
    if hi is not None and (v > hi or (hs and v == hi)):
        return False
    return v not in ne


def ev(t, env):
    if t in env:
        return env[t]
    op = t.op
    if op == "c":
        if isinstance(t.a[0], str):
            raise Unknown(show(t))
        return t.a[0]
    if op == "lin":
        r = t.a[0]
        for k, c in t.a[1]:
            r += c * ev(k, env)
        return r
    if op == "mul":
        r = 1
        for k in t.a:
            r *= ev(k, env)
        return r
    if op == "cmp":
        l, o, r = ev(t.a[0], env), t.a[1], t.a[2]
        r = ev(r, env) if isinstance(r, T) else r
        return int({"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r, "!=": l != r}[o])
    if op == "cases":
        for g, v in t.a[0]:
            if all(interval_ok(ev(d, env), iv) for d, iv in g):
                return ev(v, env)
        raise Unknown("no case applies")
    if op in ("!", "not"):
        return int(not ev(t.a[0], env))
    if op in ("^", "&", "|", "%", "<<", ">>", "/"):
        a, b = ev(t.a[0], env), ev(t.a[1], env)
        if op == "^":
            return a ^ b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if b == 0:
            raise Unknown("division by zero")
        return a % b if op == "%" else a // b
    if op == "&&":
        return int(bool(ev(t.a[0], env)) and bool(ev(t.a[1], env)))
    if op == "||":
        return int(bool(ev(t.a[0], env)) or bool(ev(t.a[1], env)))
    raise Unknown("operator " + op)


def atoms(t, out):
    if t.op == "c":
        return
    if t.op == "lin":
        for k, _ in t.a[1]:
            atoms(k, out)
    elif t.op == "cases":
        for g, v in t.a[0]:
            for d, _ in g:
                atoms(d, out)
            atoms(v, out)
    elif t.op in BITOPS:
        for x in t.a:
            if isinstance(x, T):
                atoms(x, out)
    else:
        out.add(t)


BITTY = ("unsigned char", "bool")


def is_bit(t, bits):
    if t.ty in BITTY or t.op == "own":
        return True
    x = t
    while x.op == "sel":
        x = x.a[0]
    return any(x is b for b in bits)


def canon(t, bits, mod=None):
    """sums and folds become atoms identified by range and truth table of the body"""
    m = {}
    for x in sorted(subterms(t), key=lambda z: z.n):
        if x.op in ("sum", "fold"):
            op, (lo, hi, bv, g) = ("+", x.a) if x.op == "sum" else (x.a[0], x.a[2:])
            g = subst(g, {bv: mk("bvar", "k")})
            k = mk("bvar", "k")
            at = set()
            atoms(g, at)
            at = sorted(at, key=lambda z: z.n)
            if len(at) > 7:
                continue
            rows = []
            for vals in product(*[(0, 1) if is_bit(a, bits) else (0, 1, 2, 5) for a in at]):
                rows.append(ev(g, dict(zip(at, vals))))
            if x.op == "fold" and op == "^" and set(rows) <= {0, 1}:
                s = mk("csum", "+", lo, hi, tuple(at), tuple(rows))
                r = mk("%", s, C(2))
                old = x.a[1]
                m[x] = r if old is C(0) else mk("^", *sorted((r, old), key=lambda z: z.n))
            else:
                s = mk("csum", op, lo, hi, tuple(at), tuple(rows))
                m[x] = s
                if x.op == "fold" and x.a[1] is not C(0):
                    m[x] = mk(op, s, x.a[1])
    return subst(t, m) if m else t


def same(a, b, bits=(), facts=None, loopstate=False):
    """True / False (with a witness in same.why) / raises Unknown"""
    if a is b:
        return True
    a, b = canon(a, bits), canon(b, bits)
    if a is b:
        return True
    at = set()
    atoms(a, at)
    atoms(b, at)
    at = sorted(at, key=lambda z: z.n)
    if facts:
        m = {}
        for i, x in enumerate(at):
            for y in at[:i]:
                if y in m:
                    continue
                e = congruent(x, y, facts)
                if e is True:
                    m[x] = y
                    break
                if e is None:
                    raise Unknown("%s and %s may be the same" % (show(x), show(y)))
        if m:
            a, b = subst(a, m), subst(b, m)
            at = [x for x in at if x not in m]
    if any(x.op in ("uninit", "keep", "sum", "fold") or not loopstate and any(y.op == "hv" for y in subterms(x)) for x in at):
        raise Unknown("no closed form")
    if len(at) > 8:
        raise Unknown("too many atoms")
    dom = []
    for x in at:
        if is_bit(x, bits):
            dom.append((0, 1))
        else:
            dom.append((0, 1, 2, 3, 7))
    for vals in product(*dom):
        env = dict(zip(at, vals))
        if facts is not None and not consistent(facts, env):
            continue
        va, vb = ev(a, env), ev(b, env)
        if va != vb:
            same.why = ", ".join("%s=%s" % (show(x)[:60], v) for x, v in env.items()) + ": %s instead of %s" % (va, vb)
            return False
    return True


def congruent(x, y, facts):
    """True, False, or None (undecided)"""
    if x is y:
        return True
    if x.op != y.op:
        return False
    if x.op == "sel":
        c = congruent(x.a[0], y.a[0], facts)
        if not c:
            return c
        return decide(facts, "==", x.a[1], y.a[1]) is True
    if x.op == "csum":
        if x.a[0] != y.a[0] or x.a[4] != y.a[4] or len(x.a[3]) != len(y.a[3]):
            return False
        cs = [decide(facts, "==", x.a[1], y.a[1]), decide(facts, "==", x.a[2], y.a[2])]
        cs += [congruent(u, v, facts) for u, v in zip(x.a[3], y.a[3])]
        return False if False in cs else None if None in cs else True
    return False


def consistent(facts, env):
    for d, iv in facts.items():
        try:
            v = ev(d, env)
        except Unknown:
            continue
        if not interval_ok(v, iv):
            return False
    return True
