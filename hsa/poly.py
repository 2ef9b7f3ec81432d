"""Polynomial normal forms of value terms; bits are idempotent."""
from fractions import Fraction
from .terms import T, mk, C, isc, lin, add, mul, sub, subterms, is_int


def is_bit(t):
    return t.ty in ("bool", "unsigned char") or t.op == "cmp"


def expand(t, cache=None):
    """-> {monomial (sorted tuple of atoms): coefficient}"""
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    if isc(t):
        r = {(): t.a[0]} if t.a[0] != 0 else {}
    elif t.op == "lin":
        r = {(): t.a[0]} if t.a[0] != 0 else {}
        r = dict(r)
        for k, v in t.a[1]:
            for m, c in expand(k, cache).items():
                r[m] = r.get(m, 0) + c * v
        r = {m: c for m, c in r.items() if c != 0}
    elif t.op == "mul":
        r = {(): 1}
        for k in t.a:
            r = pmul(r, expand(k, cache))
    else:
        p = parity(t)
        r = expand(p, cache) if p is not None else {(t,): 1}
    cache[t] = r
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = list(m)
            for x in n:
                if is_bit(x) and x in k:
                    continue
                k.append(x)
            k = tuple(sorted(k, key=lambda z: z.n))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c != 0}


def term(p):
    r = C(0)
    for m, c in sorted(p.items(), key=lambda kv: [x.n for x in kv[0]]):
        t = C(1)
        for x in m:
            t = mul(t, x)
        r = add(r, mul(t, C(c)))
    return r


def parity(t):
    """0/1 terms built from bits: (a + b) % 2, a ^ b -> polynomial"""
    if t.op == "%" and isc(t.a[1]) and t.a[1].a[0] == 2:
        c, d = lin(t.a[0])
        if isinstance(c, int) and all(is_bit(k) and isinstance(v, int) for k, v in d.items()):
            r = C(c % 2)
            for k, v in d.items():
                if v % 2:
                    r = xor(r, k)
            return r
    if t.op == "^" and len(t.a) == 2 and all(bitlike(x) for x in t.a):
        return xor(t.a[0], t.a[1])
    return None


def bitlike(t):
    return is_bit(t) or (isc(t) and t.a[0] in (0, 1)) or parity(t) is not None


def xor(a, b):
    return sub(add(a, b), mul(C(2), mul(a, b)))


def bits_of(t):
    """bit atoms t is a function of, or None if it depends on anything else"""
    if isc(t):
        return frozenset()
    if is_bit(t) and t.op != "cmp":
        return frozenset([t])
    if t.op == "lin":
        r = frozenset()
        for k, v in t.a[1]:
            b = bits_of(k)
            if b is None:
                return None
            r |= b
        return r
    if t.op in ("mul", "%", "^", "&", "|"):
        r = frozenset()
        for k in t.a:
            b = bits_of(k)
            if b is None:
                return None
            r |= b
        return r
    if t.op == "cmp":
        return bits_of(t.a[0])
    return None


def evalbits(t, env):
    if isc(t):
        return t.a[0]
    if t in env:
        return env[t]
    if t.op == "lin":
        return t.a[0] + sum(v * evalbits(k, env) for k, v in t.a[1])
    if t.op == "mul":
        r = 1
        for k in t.a:
            r *= evalbits(k, env)
        return r
    a, b = (evalbits(x, env) for x in t.a[:2])
    if t.op == "%":
        return int(abs(a) % abs(b) * (1 if a >= 0 else -1))
    if t.op == "^":
        return int(a) ^ int(b)
    if t.op == "&":
        return int(a) & int(b)
    if t.op == "|":
        return int(a) | int(b)
    raise KeyError(t)


def within(v, iv):
    lo, los, hi, his, ne = iv
    if lo is not None and (v < lo or (los and v == lo)):
        return False
    if hi is not None and (v > hi or (his and v == hi)):
        return False
    return v not in ne


def interpolate(cs, maxbits=6):
    """cases [(guards, value)] whose guards are (term, interval): guards on bits
    become polynomials, the remaining guards stay.  -> list of (guards, value)"""
    groups = {}
    order = []
    for g, v in cs:
        rest = tuple(x for x in g if bits_of(x[0]) is None)
        bg = tuple(x for x in g if bits_of(x[0]) is not None)
        if rest not in groups:
            groups[rest] = []
            order.append(rest)
        groups[rest].append((bg, v))
    out = []
    for rest in order:
        mem = groups[rest]
        bits = frozenset()
        for bg, v in mem:
            for t, _ in bg:
                bits |= bits_of(t)
        if len(mem) == 1 and not bits:
            out.append((rest, mem[0][1]))
            continue
        if len(bits) > maxbits or any(v.op == "keep" for _, v in mem):
            return None
        bl = sorted(bits, key=lambda z: z.n)
        poly = {}
        for k in range(2 ** len(bl)):
            env = {b: (k >> i) & 1 for i, b in enumerate(bl)}
            vals = set(v for bg, v in mem if all(within(evalbits(t, env), iv) for t, iv in bg))
            if len(vals) != 1:
                return None
            v = vals.pop()
            w = {(): 1}
            for b in bl:
                w = pmul(w, {(b,): 1} if env[b] else {(): 1, (b,): -1})
            # a value may itself mention the bits: fine, idempotence applies
            poly = padd(poly, pmul(w, expand(v)))
        out.append((rest, term(poly)))
    return out
