"""Hash-consed value terms (the Herbrand / value-numbering domain) and linear
normal forms for the numeric part."""
from fractions import Fraction

_tab = {}
_serial = [0]


class T(object):
    __slots__ = ("op", "a", "n", "ty")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        _serial[0] += 1
        self.n = _serial[0]
        self.ty = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n

    def __reduce__(self):
        raise TypeError("terms are not picklable")


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(op, a)
        _tab[k] = t
    return t


def reset():
    _tab.clear()


def typed(t, ty):
    if t.ty is None and ty:
        t.ty = ty
    elif ty and t.ty != ty and t.op in ("hv", "sym", "uninit"):
        # the same name with another type, in another function: a different variable
        k = (t.op,) + t.a + ("#ty", ty)
        r = _tab.get(k)
        if r is None:
            r = T(t.op, t.a)
            r.ty = ty
            _tab[k] = r
        return r
    return t


def C(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("fc", repr(v))
        if v == int(v) and abs(v) < 1e15:
            v = int(v)
        else:
            v = Fraction(v).limit_denominator(10**15)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("c", v)


TRUE = C(1)
FALSE = C(0)


def isc(t):
    return t.op == "c" and isinstance(t.a[0], (int, Fraction))


def lin(t):
    """-> (const, {term: coef})"""
    if t.op == "c" and isinstance(t.a[0], (int, Fraction)):
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def unlin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].n))
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    items = tuple((k, int(v) if isinstance(v, Fraction) and v.denominator == 1 else v) for k, v in items)
    t = mk("lin", c, items)
    if t.ty is None:
        if all(is_int(k) and isinstance(v, int) for k, v in items) and isinstance(c, int):
            t.ty = "int"
        else:
            t.ty = "double"
    return t


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return unlin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        k = b.a[0]
        c, d = lin(a)
        return unlin(c * k, {x: v * k for x, v in d.items()})
    # factor out the scalar of single-term linear forms
    fs, k = [], 1
    for x in (a, b):
        c, d = lin(x)
        if c == 0 and len(d) == 1:
            (y, v), = d.items()
            k = k * v
            fs += list(y.a) if y.op == "mul" else [y]
        else:
            fs.append(x)
    fs.sort(key=lambda t: t.n)
    # a*(1/b) style divisions are kept symbolic
    m = mk("mul", *fs)
    if m.ty is None:
        m.ty = "int" if all(is_int(f) for f in fs) else "double"
    return unlin(0, {m: k})


def neg(a):
    return mul(a, C(-1))


INT_TYPES = {"int", "long", "unsigned long", "unsigned int", "bool", "unsigned char", "char", "short",
             "unsigned short", "long long", "unsigned long long", "size_t", "std::size_t", "signed char", "iv"}
UNSIGNED = {"unsigned long", "unsigned int", "unsigned char", "unsigned short", "unsigned long long", "bool", "iv"}


def is_int(t):
    if t.op == "c":
        return isinstance(t.a[0], int)
    if t.op in ("size", "cmp", "iv"):
        return True
    return t.ty in INT_TYPES


def subterms(t, seen=None):
    """all subterms (including those nested in tuples)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def subst(t, m, cache=None):
    """replace terms by m (rebuilding with normalisation)"""
    if cache is None:
        cache = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = cache.get(x)
        if r is not None:
            return r
        if x.op == "lin":
            r = C(x.a[0])
            for k, v in x.a[1]:
                r = add(r, mul(go(k), C(v)))
        elif x.op == "mul":
            r = C(1)
            for k in x.a:
                r = mul(r, go(k))
        else:
            na = tuple(go(y) for y in x.a)
            r = x if na == x.a else typed(mk(x.op, *na), x.ty)
        cache[x] = r
        return r
    return go(t)


def show(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "..."
    d = depth - 1
    if t.op == "c":
        return str(t.a[0])
    if t.op == "lin":
        s = "+".join(("%s*" % v if v != 1 else "") + show(k, d) for k, v in t.a[1])
        if t.a[0]:
            s += "+%s" % t.a[0]
        return "(" + s.replace("+-", "-") + ")"
    if t.op == "mul":
        return "*".join(show(x, d) for x in t.a)
    if t.op == "fld":
        return show(t.a[0], d) + "." + t.a[1]
    if t.op == "sel":
        return show(t.a[0], d) + "[" + show(t.a[1], d) + "]"
    if t.op == "init":
        r = t.a[0]
        if r[0] == "THIS":
            return "this"
        if r[0] == "D":
            return "*" + show(r[1], d)
        if r[0] == "P":
            return r[1]
        return str(r[1:])
    if t.op == "sym":
        return str(t.a[0])
    return t.op + "(" + ",".join(show(x, d) for x in t.a) + ")"
