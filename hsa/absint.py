"""Flow-sensitive, trace-partitioned abstract interpreter over the resolved
syntax tree.

Domain: memory maps abstract roots to hash-consed value terms (value
numbering); branch conditions are kept as template intervals over linear forms
of terms; loops are summarised by havocking what the body may modify and
analysing the body once on the havocked state (to a fixpoint of the rule's own
typestate).  Nothing is executed and no solver is involved.
"""
import re
from fractions import Fraction
from .terms import T, mk, C, TRUE, FALSE, isc, lin, unlin, add, sub, mul, neg, typed, is_int, UNSIGNED, subterms, show


class TooComplex(Exception):
    pass


# ------------------------------------------------------------------ state
class State(object):
    __slots__ = ("mem", "facts", "rs", "tr", "flags")

    def __init__(self, mem, facts, rs, tr, flags=frozenset()):
        self.mem = mem
        self.facts = facts
        self.rs = rs
        self.tr = tr
        self.flags = flags

    def copy(self):
        return State(dict(self.mem), self.facts, self.rs, self.tr, self.flags)

    def key(self):
        return (frozenset(self.mem.items()), self.rs)


def trace(st):
    out, t = [], st.tr
    while t is not None:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


class Ev(object):
    """an event on a path"""
    __slots__ = ("kind", "node", "fn", "st", "d")

    def __init__(self, kind, node, fn, st, **d):
        self.kind = kind
        self.node = node
        self.fn = fn          # function being analysed (dict)
        self.st = st          # (mem, facts) snapshot holder
        self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: v for k, v in self.d.items() if k not in ("bodies",)})


class Out(object):
    """outcome of a statement or function"""
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind = kind      # N B C R X
        self.st = st
        self.val = val
        self.node = node


INF = None
TOP = (None, False, None, False, frozenset())


def i_meet(a, b, integer):
    lo, los, hi, his, ne = a
    l2, ls2, h2, hs2, ne2 = b
    if l2 is not None and (lo is None or l2 > lo or (l2 == lo and ls2)):
        lo, los = l2, ls2
    if h2 is not None and (hi is None or h2 < hi or (h2 == hi and hs2)):
        hi, his = h2, hs2
    ne = ne | ne2
    return i_norm(lo, los, hi, his, ne, integer)


def i_norm(lo, los, hi, his, ne, integer):
    if integer:
        if lo is not None:
            f = lo.__ceil__() if isinstance(lo, Fraction) else lo
            if los and f == lo:
                f += 1
            lo, los = f, False
        if hi is not None:
            f = hi.__floor__() if isinstance(hi, Fraction) else hi
            if his and f == hi:
                f -= 1
            hi, his = f, False
        ch = True
        while ch:
            ch = False
            if lo is not None and lo in ne:
                lo += 1
                ch = True
            if hi is not None and hi in ne:
                hi -= 1
                ch = True
            if lo is not None and hi is not None and lo > hi:
                return None
    else:
        if lo is not None and lo in ne:
            los = True
        if hi is not None and hi in ne:
            his = True
    if lo is not None and hi is not None:
        if lo > hi or (lo == hi and (los or his)):
            return None
        if lo == hi and lo in ne:
            return None
    ne = frozenset(x for x in ne if (lo is None or x > lo) and (hi is None or x < hi))
    return (lo, los, hi, his, ne)


NEGOP = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
SWAPOP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def normcmp(op, a, b):
    """-> constant term or (d0, op, c): d0 op c"""
    c, d = lin(sub(a, b))
    if not d:
        v = {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        return C(1 if v else 0)
    items = sorted(d.items(), key=lambda kv: kv[0].n)
    k = items[0][1]
    if k < 0:
        op = SWAPOP[op]
    integer = all(isinstance(v, int) for v in d.values())
    if not (abs(k) == 1 or (integer and all(v % abs(k) == 0 for v in d.values()))):
        pass
    kk = Fraction(k) if not isinstance(k, int) else k
    if kk == 1:
        d0, cc = unlin(0, d), -c
    elif kk == -1:
        d0, cc = unlin(0, {x: -v for x, v in d.items()}), c
    else:
        d0 = unlin(0, {x: Fraction(v) / kk for x, v in d.items()})
        cc = -Fraction(c) / kk
        if cc.denominator == 1:
            cc = int(cc)
    return (d0, op, cc)


def base_interval(t):
    ty = t.ty
    if t.op == "cmp" or ty == "bool":
        return (0, False, 1, False, frozenset())
    if ty == "unsigned char":
        return (0, False, 1, False, frozenset())
    if t.op == "size" or ty in UNSIGNED:
        return (0, False, None, False, frozenset())
    return TOP


def opiv(op, c):
    e = frozenset()
    return {"<": (None, False, c, True, e), "<=": (None, False, c, False, e),
            ">": (c, True, None, False, e), ">=": (c, False, None, False, e),
            "==": (c, False, c, False, e), "!=": (None, False, None, False, frozenset([c]))}[op]


def get_iv(facts, d0):
    f = facts.get(d0)
    if f is None:
        f = base_interval(d0)
    # derive from single terms
    if d0.op == "lin":
        lo, los, hi, his = d0.a[0], False, d0.a[0], False
        for k, v in d0.a[1]:
            a = facts.get(k) or base_interval(k)
            l, ls, h, hs, _ = a
            if v < 0:
                l, ls, h, hs = h, hs, l, ls
            lo = None if lo is None or l is None else lo + l * v
            hi = None if hi is None or h is None else hi + h * v
            los, his = los or ls, his or hs
        g = i_meet(f, (lo, los, hi, his, frozenset()), is_int(d0))
        if g is not None:
            f = g
    return f


def iv_implies(iv, op, c, integer):
    """True / False / None"""
    m = i_meet(iv, opiv(op, c), integer)
    if m is None:
        return False
    m = i_meet(iv, opiv(NEGOP[op], c), integer)
    if m is None:
        return True
    return None


def decide(facts, op, a, b):
    r = normcmp(op, a, b)
    if isinstance(r, T):
        return bool(r.a[0])
    d0, op, c = r
    iv = get_iv(facts, d0)
    x = iv_implies(iv, op, c, is_int(d0))
    if x is None and op in ("<", "<=", ">", ">=", "==", "!="):
        # one-step combination: d0 = f1 + k*f2
        d0d = dict(d0.a[1]) if d0.op == "lin" else {d0: 1}
        for f1, i1 in facts.items():
            # only facts which share a term with d0 can help
            if f1.op == "lin":
                ks = set()
                for y, v in f1.a[1]:
                    w = d0d.get(y)
                    if w is not None:
                        ks.add(1 if v == w else -1 if v == -w else 0)
                if not ks:
                    continue
            else:
                w = d0d.get(f1)
                if w is None:
                    continue
            for k in (1, -1):
                rest = sub(d0, f1) if k == 1 else add(d0, f1)
                rc, rd = lin(rest)
                if len(rd) == 0:
                    continue
                if rest in facts or len(rd) == 1:
                    if rest is d0:
                        continue
                    i2 = get_iv(facts, rest) if rc == 0 else None
                    if i2 is None:
                        rr = unlin(0, rd)
                        i2 = get_iv(facts, rr)
                        i2 = (None if i2[0] is None else i2[0] + rc, i2[1], None if i2[2] is None else i2[2] + rc, i2[3], frozenset())
                    l, ls, h, hs, _ = i1
                    if k < 0:
                        l, ls, h, hs = (None if h is None else -h), hs, (None if l is None else -l), ls
                    lo = None if l is None or i2[0] is None else l + i2[0]
                    hi = None if h is None or i2[2] is None else h + i2[2]
                    if lo is None and hi is None:
                        continue
                    z = i_norm(lo, ls or i2[1], hi, hs or i2[3], frozenset(), is_int(d0))
                    if z is None:
                        continue
                    x = iv_implies(z, op, c, is_int(d0))
                    if x is not None:
                        return x
    return x


def cmpterm(op, a, b):
    r = normcmp(op, a, b)
    if isinstance(r, T):
        return r
    d0, op, c = r
    if is_int(d0):
        # canonical integer comparisons: only <=, >=, ==, !=
        if op == "<":
            op, c = "<=", (c.__ceil__() - 1 if isinstance(c, Fraction) else c - 1)
        elif op == ">":
            op, c = ">=", (c.__floor__() + 1 if isinstance(c, Fraction) else c + 1)
    t = mk("cmp", d0, op, C(c))
    t.ty = "bool"
    return t


def assume(st, t, truth):
    """returns the refined state or None"""
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, str):
            return st if truth else None
        return st if bool(v) == truth else None
    if t.op == "not":
        return assume(st, t.a[0], not truth)
    if t.op in ("addr", "new", "ref", "lam", "it", "rit"):
        return st if truth else None
    if t.op == "cmp":
        d0, op, c = t.a
        op = op if truth else NEGOP[op]
        c = c.a[0]
    else:
        r = normcmp("!=" if truth else "==", t, C(0))
        if isinstance(r, T):
            return st if r.a[0] else None
        d0, op, c = r
    integer = is_int(d0)
    old = get_iv(st.facts, d0)
    new = i_meet(old, opiv(op, c), integer)
    if new is None:
        return None
    if new == st.facts.get(d0):
        return st
    # contradiction through a one-step combination
    x = decide(st.facts, op, d0, C(c))
    if x is False:
        return None
    s = st.copy()
    s.facts = dict(st.facts)
    s.facts[d0] = new
    return s


# ------------------------------------------------------------------ terms on memory
def size_of(t):
    while t.op in ("upd", "tab", "scatter", "fillrange", "iota", "flip"):
        t = t.a[0]
    if t.op == "push":
        return add(size_of(t.a[0]), C(1))
    if t.op == "pop":
        return sub(size_of(t.a[0]), C(1))
    if t.op == "vec":
        return t.a[0]
    if t.op == "resize":
        return t.a[1]
    if t.op == "list":
        return C(len(t.a))
    if t.op == "hv" and t.a[-1] is not None:
        return t.a[-1]
    if t.op in ("permuted", "vals"):
        return size_of(t.a[0])
    s = mk("size", t)
    s.ty = "unsigned long"
    return s


def proj(t, step):
    k, x = step
    if k == "@":
        # position of an iterator
        return t.a[1] if t.op in ("it", "rit") else mk("itpos", t)
    if k == ".":
        while t.op == "updf":
            if t.a[1] == x:
                return t.a[2]
            t = t.a[0]
        if t.op == "obj":
            for n, v in t.a[1]:
                if n == x:
                    return v
        if t.op == "pair":
            if x == "first":
                return t.a[0]
            if x == "second":
                return t.a[1]
        if t.op == "ite2":
            pass
        return mk("fld", t, x)
    # index
    while True:
        if t.op == "upd":
            d = sub(t.a[1], x)
            if isc(d):
                if d.a[0] == 0:
                    return t.a[2]
                t = t.a[0]
                continue
            return mk("sel", t, x)
        if t.op == "vec" and t.a[1] is not None:
            return t.a[1]
        if t.op == "vals":
            return typed(mk("val", proj(t.a[0], step)), "double")
        if t.op == "tab" and x.op == "hv":
            # inside [lo, hi)? decided by the caller's facts only for identical ranges
            return mk("sel", t, x)
        if t.op == "list" and isc(x) and isinstance(x.a[0], int) and 0 <= x.a[0] < len(t.a):
            return t.a[x.a[0]]
        if t.op == "push":
            d = sub(size_of(t.a[0]), x)
            if isc(d):
                if d.a[0] == 0:
                    return t.a[1]
                if d.a[0] > 0:
                    t = t.a[0]
                    continue
            return mk("sel", t, x)
        return mk("sel", t, x)


def put(t, path, v):
    if not path:
        return v
    step = path[0]
    k, x = step
    nv = put(proj(t, step), path[1:], v) if len(path) > 1 else v
    if k == "@":
        return mk(t.op, t.a[0], nv) if t.op in ("it", "rit") else mk("itat", t, nv)
    if k == ".":
        if t.op == "pair" and x in ("first", "second"):
            return mk("pair", nv if x == "first" else t.a[0], nv if x == "second" else t.a[1])
        # canonical: strip an older update of the same field, keep fields sorted
        fs = {}
        b = t
        while b.op == "updf":
            fs.setdefault(b.a[1], b.a[2])
            b = b.a[0]
        fs[x] = nv
        if b.op == "obj":
            d = dict(b.a[1])
            d.update(fs)
            return mk("obj", b.a[0], tuple(sorted(d.items())))
        if b.op == "fld" or True:
            for n in sorted(fs):
                if fs[n] is proj(b, (".", n)):
                    continue
                b = mk("updf", b, n, fs[n])
        return b
    if t.op == "upd":
        d = sub(t.a[1], x)
        if isc(d) and d.a[0] == 0:
            return put(t.a[0], path[:1], nv)
    if proj(t, step) is nv:
        return t
    return mk("upd", t, x, nv)


def initv(root):
    return mk("init", root)


def getroot(st, root):
    t = st.mem.get(root)
    if t is None:
        t = initv(root)
    return t


def read(st, loc, ty=None):
    t = getroot(st, loc[0])
    for s in loc[1]:
        t = proj(t, s)
    if ty:
        typed(t, ty)
    return t


def write(st, loc, v):
    """returns a new state"""
    s = st.copy()
    root, path = loc
    s.mem[root] = put(getroot(st, root), path, v) if path else v
    return s


def deref(p):
    """location designated by pointer term p"""
    if p.op in ("addr", "ref"):
        return p.a[0]
    if p.op == "it":
        loc, i = p.a
        return (loc[0], loc[1] + (("[", i),))
    if p.op == "rit":
        # reverse iterator: position of its base
        loc, i = p.a
        return (loc[0], loc[1] + (("[", sub(i, C(1))),))
    return (("D", p), ())


def addr(loc):
    root, path = loc
    if not path and root[0] == "D":
        return root[1]
    return mk("addr", loc)


def diff(t0, t1, path, out):
    """paths at which t1 differs from t0; out: path -> size-preserving flag"""
    if t0 is t1:
        return
    if t0.op in ("it", "rit") and t1.op == t0.op and t0.a[0] == t1.a[0]:
        out[path + (("@", 0),)] = False
        return
    f1, b1 = {}, t1
    while b1.op == "updf":
        f1.setdefault(b1.a[1], b1.a[2])
        b1 = b1.a[0]
    f0, b0 = {}, t0
    while b0.op == "updf":
        f0.setdefault(b0.a[1], b0.a[2])
        b0 = b0.a[0]
    if (f0 or f1) and b0 is b1:
        for n in set(f0) | set(f1):
            diff(proj(t0, (".", n)), proj(t1, (".", n)), path + ((".", n),), out)
        return
    if b0.op == "obj" and b1.op == "obj" and b0.a[0] == b1.a[0] and not f0 and not f1:
        for n in set(dict(b0.a[1])) | set(dict(b1.a[1])):
            diff(proj(t0, (".", n)), proj(t1, (".", n)), path + ((".", n),), out)
        return
    if t0.op == "pair" or t1.op == "pair":
        for n in ("first", "second"):
            diff(proj(t0, (".", n)), proj(t1, (".", n)), path + ((".", n),), out)
        return
    b = t1
    while b.op == "upd":
        b = b.a[0]
    pres = b is t0 or size_of(t1) is size_of(t0) and (t1.op in ("upd", "hv", "permuted", "tab", "scatter") or t0.op == "vec")
    out[path] = out.get(path, True) and bool(pres)


BITT = "unsigned char"


CONTAINER = ("tab", "upd", "vec", "updf", "resize", "new-vec", "fillrange", "iota", "list", "push")


def bitcases(cs):
    """case splits on 0/1-valued terms are polynomials in them"""
    from .poly import interpolate
    if any(v.op in CONTAINER for _, v in cs):
        # tabulations of the same elements: the distinction is made element by element
        k = set((v.op, v.a[:4]) for _, v in cs if v.op == "tab")
        if len(k) == 1 and all(v.op == "tab" for _, v in cs):
            v = cs[0][1]
            if not any(x is v.a[3] for g, _ in cs for d, _ in g for x in subterms(d)):
                return typed(mk("tab", *(v.a[:4] + (bitcases(tuple((g, w.a[4]) for g, w in cs)),))), v.ty)
        return mk("cases", cs)
    r = interpolate(cs) if len(cs) <= 40 else None
    if r is None:
        return mk("cases", cs)
    if len(r) == 1 and not r[0][0]:
        return r[0][1]
    r = tuple(sorted(r, key=lambda z: (z[1].n, len(z[0]), [y[0].n for y in z[0]])))
    return mk("cases", r)

PURE_STD = {
    "std::abs", "std::fabs", "std::sqrt", "std::pow", "std::exp", "std::log", "std::log2", "std::cos", "std::sin",
    "std::floor", "std::ceil", "std::round", "std::isnan", "std::isinf", "std::hypot", "std::tan", "std::tanh",
    "abs", "fabs", "sqrt", "pow", "exp", "log", "floor", "ceil", "round", "std::isfinite", "std::log1p", "std::expm1",
    "std::norm", "std::arg", "std::real", "std::imag", "std::conj", "std::to_string",
}
BEGIN = {"begin", "cbegin"}
END = {"end", "cend"}


def is_std_container(c):
    return c.startswith(("std::vector<", "std::array<", "std::basic_string<", "std::deque<", "std::initializer_list<"))


class Engine(object):
    """one analysis run; subclass or pass hooks for rules"""

    def __init__(self, prog, inline=None, on_call=None, on_event=None, may_throw=None, max_states=400,
                 max_depth=14, keep_trace=True, dyn=None, inline_ctor=True, on_read=None, loop_passes=6,
                 assume_asserts=True, budget=400000, on_new=None, on_stmt=None, pair_ops=(), modsets=False,
                 closed_world=False, on_rs=None, on_back=None, peel=False, lockstep=False):
        self.p = prog
        self.inline_hook = inline
        self.on_call = on_call
        self.on_event = on_event
        self.may_throw = may_throw
        self.max_states = max_states
        self.max_depth = max_depth
        self.keep_trace = keep_trace
        self.dyn = dyn or {}         # location -> dynamic class
        self.inline_ctor = inline_ctor
        self.on_read = on_read
        self.loop_passes = loop_passes
        self.assume_asserts = assume_asserts
        self.on_new = on_new
        self.on_stmt = on_stmt
        self.pair_ops = pair_ops     # unary operators d = op(b) tracked as relations across loops
        self.closed_world = closed_world   # ignore the trampolines of the language bindings
        self.on_rs = on_rs           # normalises rule states at loop ends
        self.on_back = on_back       # translates rule states to the loop head
        self.peel = peel             # unroll the first iteration of outermost loops
        self.ltypes = {}             # declared types of local variables
        self.lockstep = lockstep     # differences of counters with the same steps are kept across loops
        self.inloop = 0
        self.modsets = modsets       # opaque virtual calls change only what some overrider may change
        self.frames = {}
        self.sinks = []
        self.fnstack = []
        self.lams = {}
        self.active = []             # loops being analysed
        self.gone = set()            # variables of loops with one way out, replaced by their final value
        self.sumiv = {}              # closed form -> loop variables its bound variable stands for
        self.preds = None            # predicates passed to algorithms (collected if a dict)
        self.tmpn = {}
        self.steps = 0
        self.budget = budget
        self.nfun = set()
        self.ncall = 0

    # -------------------------------------------------------------- utils
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise TooComplex("step budget")

    def frame(self, parent, node):
        k = (parent, id(node))
        f = self.frames.get(k)
        if f is None:
            f = len(self.frames) + 1
            self.frames[k] = f
        return f

    def tmp(self, fr, node, tag=""):
        k = (fr, id(node), tag)
        n = self.tmpn.get(k)
        if n is None:
            n = len(self.tmpn) + 1
            self.tmpn[k] = n
        return n

    def event(self, st, kind, node, **d):
        ev = Ev(kind, node, self.fnstack[-1][0] if self.fnstack else None, st, **d)
        if self.on_event:
            st = self.on_event(self, st, ev) or st
            ev.st = st
        if self.keep_trace:
            s = st.copy()
            s.tr = (st.tr, ev)
            return s
        return st

    def merge(self, sts):
        if len(sts) <= 1:
            return sts
        if self.keep_trace:
            if len(sts) > self.max_states:
                raise TooComplex("%d states in %s" % (len(sts), self.fnstack[-1][0]["q"] if self.fnstack else "?"))
            return sts
        out = {}
        for s in sts:
            k = s.key()
            o = out.get(k)
            if o is None:
                out[k] = s
            else:
                out[k] = self.joinfacts(o, s)
        r = list(out.values())
        if len(r) > self.max_states:
            r = self.collapse(r)
        return r

    def joinfacts(self, a, b):
        if a.facts is b.facts:
            return a
        f = {}
        for k, i in a.facts.items():
            j = b.facts.get(k)
            if j is None:
                continue
            lo, los = (None, False)
            if i[0] is not None and j[0] is not None:
                lo, los = min((i[0], i[1]), (j[0], j[1])) if i[0] != j[0] else (i[0], i[1] and j[1])
            hi, his = (None, False)
            if i[2] is not None and j[2] is not None:
                hi, his = (i[2], i[3]) if i[2] > j[2] else (j[2], j[3])
                if i[2] == j[2]:
                    his = i[3] and j[3]
            ne = frozenset(x for x in i[4] | j[4]
                           if iv_implies(i, "!=", x, is_int(k)) and iv_implies(j, "!=", x, is_int(k)))
            z = (lo, los, hi, his, ne)
            if z != TOP:
                f[k] = z
        s = a.copy()
        s.facts = f
        return s

    def collapse(self, sts):
        """widen: one state per rule state, differing locations havocked"""
        groups = {}
        for s in sts:
            groups.setdefault(s.rs, []).append(s)
        out = []
        for rs, g in groups.items():
            a = g[0]
            for b in g[1:]:
                a = self.joinfacts(a, b)
                s = a.copy()
                for root in list(set(a.mem) | set(b.mem)):
                    x, y = getroot(a, root), getroot(b, root)
                    if x is y:
                        continue
                    d = {}
                    diff(x, y, (), d)
                    for path in d:
                        s.mem[root] = put(getroot(s, root), path, mk("join", len(self.frames), root, path))
                a = s
            out.append(a)
        if len(out) > self.max_states:
            raise TooComplex("too many rule states")
        return out

    # -------------------------------------------------------------- entry
    def run(self, f, cls=None, st=None, args=None, this=None, rs=None, frame_tag="top"):
        """analyse function f; returns list of Out (R or X)"""
        if st is None:
            st = State({}, {}, rs, None)
        if this is None and f.get("cls") and not f.get("static"):
            this = (("THIS",), ())
        if this is not None and cls:
            self.dyn[this] = cls
        fr = self.frame(frame_tag, f)
        self.sinks.append([])
        try:
            locs = []
            for i, p in enumerate(f["ps"]):
                if args is not None and i < len(args) and args[i] is not None:
                    locs.append(args[i])
                elif p.get("ref"):
                    locs.append(("loc", (("P", p["n"]), ())))
                else:
                    locs.append(typed(mk("sym", p["n"] or "arg%d" % i), p["t"]))
            outs = self.enter(st, f, fr, this, locs, keep=True)
            res = [Out("R", s, v, n) for s, v, n in outs]
            res += self.sinks[-1]
        finally:
            self.sinks.pop()
        return res

    def enter(self, st, f, fr, this, args, keep=False):
        """bind parameters, run initialisers and body: [(state, value, retnode)]"""
        self.nfun.add(f["id"])
        s = st.copy()
        for p, a in zip(f["ps"], args):
            root = ("L", fr, p["id"])
            if isinstance(a, tuple) and a[0] == "loc":
                if p.get("ref"):
                    s.mem[root] = mk("ref", a[1])
                else:
                    s.mem[root] = read(s, a[1])
            else:
                if p.get("ref"):
                    r2 = ("L", fr, "t%d" % p["id"])
                    s.mem[r2] = a
                    s.mem[root] = mk("ref", (r2, ()))
                else:
                    s.mem[root] = a
        self.fnstack.append((f, fr, this))
        try:
            sts = [s]
            if f.get("ctor"):
                sts = self.ctor_inits(sts, f, fr, this)
            outs = []
            for o in self.block(f["body"], sts) if f.get("body") else [Out("N", x) for x in sts]:
                if o.kind == "R":
                    outs.append((o.st, o.val, o.node))
                else:
                    outs.append((o.st, None, o.node))
        finally:
            self.fnstack.pop()
        if not keep:
            outs = [(self.drop(x, fr, v), v, n) for x, v, n in outs]
            if not self.keep_trace and len(outs) > 1:
                m = {}
                for x, v, n in outs:
                    k = (x.key(), v)
                    if k in m:
                        m[k] = (self.joinfacts(m[k][0], x), v, n)
                    else:
                        m[k] = (x, v, n)
                outs = list(m.values())
        return outs

    def drop(self, st, fr, v):
        keep = None
        if isinstance(v, tuple) and v[0] == "loc" and v[1][0][0] == "L":
            keep = v[1][0]
        kill = [r for r in st.mem if r[0] == "L" and r[1] == fr and r != keep]
        if not kill:
            return st
        s = st.copy()
        for r in kill:
            del s.mem[r]
        return s

    def ctor_inits(self, sts, f, fr, this):
        rec = self.p.records.get(f["cls"])
        for i in f.get("inits", []):
            nxt = []
            for s in sts:
                if "f" in i:
                    fld = None
                    if rec:
                        for x in rec["fields"]:
                            if x["n"] == i["f"]:
                                fld = x
                    loc = (this[0], this[1] + ((".", i["f"]),))
                    if fld and fld.get("ref"):
                        for s2, l in self.lval(i["e"], s):
                            nxt.append(write(s2, loc, mk("ref", l)))
                    elif i["e"] is None:
                        nxt.append(s)
                    else:
                        for s2, v in self.construct(i["e"], s, loc):
                            nxt.append(s2)
                elif "base" in i or i.get("deleg"):
                    nxt += [x for x, _ in self.construct(i["e"], s, this, base=True)]
                else:
                    nxt.append(s)
            sts = self.merge(nxt)
        # in-class initialisers are materialised by clang as inits (icl)
        return sts

    def construct(self, e, st, loc, base=False):
        """evaluate initialiser e into location loc"""
        if e is not None and e["k"] == "ctor":
            f = self.p.functions.get(e.get("id"))
            if f is not None and self.want_inline(st, e, f, None):
                out = []
                for s, args in self.evalargs(e, st, f):
                    fr = self.frame(self.fnstack[-1][1] if self.fnstack else "top", e)
                    for s2, v, n in self.enter(s, f, fr, loc, args):
                        out.append((s2, None))
                return out
            if f is not None and base:
                out = []
                for s, args in self.evalargs(e, st, f):
                    out.append((s, None))
                return out
        if base:
            return [(st, None)]
        out = []
        for s, v in self.eval(e, st):
            out.append((write(s, loc, v), v))
        return out

    # -------------------------------------------------------------- statements
    def block(self, n, sts):
        return self.exec(n, sts)

    def exec(self, n, sts):
        """-> list of Out"""
        if not sts:
            return []
        if n is None:
            return [Out("N", s) for s in sts]
        self.tick()
        k = n["k"]
        if self.on_stmt:
            sts = self.on_stmt(self, n, sts)
        m = getattr(self, "x_" + k, None)
        if m is not None:
            return m(n, sts)
        # expression statement
        out = []
        for s in sts:
            for s2, v in self.evalany(n, s):
                out.append(s2)
        return [Out("N", s) for s in self.merge(out)]

    def seq(self, nodes, sts):
        outs = []
        for n in nodes:
            if not sts:
                break
            nxt = []
            for o in self.exec(n, sts):
                if o.kind == "N":
                    nxt.append(o.st)
                else:
                    outs.append(o)
            sts = self.merge(nxt)
        return outs + [Out("N", s) for s in sts]

    def x_block(self, n, sts):
        return self.seq(n["s"], sts)

    def x_null_s(self, n, sts):
        return [Out("N", s) for s in sts]

    def cur(self):
        return self.fnstack[-1]

    def decl1(self, v, s):
        fr = self.cur()[1]
        root = ("L", fr, v["id"])
        if not v.get("ref"):
            self.ltypes[root] = v.get("t")
        if v.get("static"):
            root = ("G", "static:%s:%s" % (self.cur()[0]["q"], v["n"]))
            s = s.copy()
            s.mem[("L", fr, v["id"])] = mk("ref", (root, ()))
            return [s]
        if v.get("decomp"):
            out = []
            if v.get("ref"):
                for s2, l in self.lval(v["init"], s):
                    s2 = s2.copy()
                    for b, nm in zip(v["bs"], self.decomp_fields(v, len(v["bs"]))):
                        s2.mem[("L", fr, b["id"])] = mk("ref", (l[0], l[1] + ((".", nm),)))
                    out.append(s2)
            else:
                for s2, t in self.eval(v["init"], s):
                    s2 = s2.copy()
                    for b, nm in zip(v["bs"], self.decomp_fields(v, len(v["bs"]))):
                        s2.mem[("L", fr, b["id"])] = proj(t, (".", nm))
                    out.append(s2)
            return out
        if v.get("init") is None:
            s = s.copy()
            s.mem[root] = typed(mk("uninit", fr, v["id"], v["n"]), v["t"])
            return [s]
        out = []
        if v.get("ref"):
            for s2, l in self.lval(v["init"], s):
                s2 = s2.copy()
                s2.mem[root] = mk("ref", l)
                out.append(s2)
        else:
            e = v["init"]
            if e["k"] == "ctor":
                f = self.p.functions.get(e.get("id"))
                if f is not None and self.want_inline(s, e, f, None):
                    s = s.copy()
                    s.mem[root] = mk("obj", e["c"], ())
                    return [x for x, _ in self.construct(e, s, (root, ()))]
            for s2, t in self.eval(e, s):
                s2 = s2.copy()
                s2.mem[root] = t
                typed(t, v["t"])
                out.append(s2)
        return out

    def decomp_fields(self, v, n):
        rec = self.p.records.get(v.get("t", ""))
        if rec and len(rec["fields"]) == n:
            return [x["n"] for x in rec["fields"]]
        if n == 2 and "tuple" not in v.get("t", ""):
            return ["first", "second"]
        return ["#%d" % i for i in range(n)]

    def x_decl(self, n, sts):
        for v in n["v"]:
            nxt = []
            for s in sts:
                nxt += self.decl1(v, s)
            sts = self.merge(nxt)
        return [Out("N", s) for s in sts]

    def x_if(self, n, sts):
        outs = []
        if n.get("init"):
            nxt = []
            for o in self.exec(n["init"], sts):
                (nxt.append(o.st) if o.kind == "N" else outs.append(o))
            sts = nxt
        if n.get("cv"):
            nxt = []
            for s in sts:
                nxt += self.decl1(n["cv"], s)
            sts = nxt
        ts, fs = [], []
        for s in sts:
            a, b = self.branch(n["c"], s)
            ts += a
            fs += b
        res = self.exec(n["t"], self.merge(ts))
        if n.get("e") is not None:
            res = res + self.exec(n["e"], self.merge(fs))
        else:
            res = res + [Out("N", s) for s in fs]
        return outs + self.mergeouts(res)

    def mergeouts(self, outs):
        ns = [o.st for o in outs if o.kind == "N"]
        rest = [o for o in outs if o.kind != "N"]
        return rest + [Out("N", s) for s in self.merge(ns)]

    def x_ret(self, n, sts):
        out = []
        f = self.cur()[0]
        isref = f.get("ret", "").endswith("&")
        for s in sts:
            if n.get("e") is None:
                out.append(Out("R", s, None, n))
            elif isref:
                for s2, l in self.lval(n["e"], s):
                    out.append(Out("R", s2, ("loc", l), n))
            else:
                for s2, v in self.evalany(n["e"], s):
                    out.append(Out("R", s2, v, n))
        return out

    def x_break(self, n, sts):
        return [Out("B", s, None, n) for s in sts]

    def x_cont(self, n, sts):
        return [Out("C", s, None, n) for s in sts]

    def x_try(self, n, sts):
        self.sinks.append([])
        try:
            outs = self.exec(n["b"], sts)
        finally:
            xs = self.sinks.pop()
        for x in xs:
            handled = False
            for h in n["h"]:
                if "t" not in h or self.exc_match(x.val[0], h["t"]):
                    s = x.st
                    if h.get("id"):
                        s = s.copy()
                        s.mem[("L", self.cur()[1], h["id"])] = x.val[1] if x.val[1] is not None else mk("sym", "exc")
                    s = self.event(s, "catch", h, exc=x.val[0], handler=h)
                    self.catching = getattr(self, "catching", [])
                    self.catching.append(x.val)
                    try:
                        outs += self.exec(h["b"], [s])
                    finally:
                        self.catching.pop()
                    handled = True
                    break
            if not handled:
                self.sinks[-1].append(x)
        return self.mergeouts(outs)

    def exc_match(self, thrown, caught):
        if thrown == "exit":
            return False
        if thrown == caught or caught == "...":
            return True
        if self.p.is_subclass(thrown, caught):
            return True
        if caught == "std::exception" and thrown.startswith("std::"):
            return True
        if caught == "std::runtime_error" and thrown in ("std::range_error", "std::overflow_error", "std::system_error", "std::ios_base::failure"):
            return True
        if caught == "std::logic_error" and thrown in ("std::invalid_argument", "std::out_of_range", "std::domain_error", "std::length_error"):
            return True
        return False

    def x_omp(self, n, sts):
        sts = [self.event(s, "omp", n) for s in sts]
        return self.exec(n.get("s"), sts)

    def x_us(self, n, sts):
        return [Out("N", s) for s in sts]

    def x_case(self, n, sts):
        return self.exec(n["s"], sts)

    def x_default(self, n, sts):
        return self.exec(n["s"], sts)

    def x_switch(self, n, sts):
        outs = []
        if n.get("init"):
            nxt = []
            for o in self.exec(n["init"], sts):
                (nxt.append(o.st) if o.kind == "N" else outs.append(o))
            sts = nxt
        body = n["b"]
        stmts = body["s"] if body["k"] == "block" else [body]
        flat = []      # (labels, stmt)
        for s in stmts:
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s)
                s = s["s"]
            flat.append((labels, s))
        hasdef = any(l["k"] == "default" for ls, _ in flat for l in ls)
        allv = [l for ls, _ in flat for l in ls if l["k"] == "case"]
        for s0 in sts:
            for s, v in self.eval(n["c"], s0):
                entries = []
                for idx, (ls, _) in enumerate(flat):
                    for l in ls:
                        if l["k"] == "case":
                            cv = C(int(l["iv"])) if "iv" in l else mk("sym", "case%d" % id(l))
                            t = assume(s, cmpterm("==", v, cv), True)
                            if t is not None:
                                entries.append((idx, t))
                        else:
                            t = s
                            for l2 in allv:
                                if "iv" in l2 and t is not None:
                                    t = assume(t, cmpterm("==", v, C(int(l2["iv"]))), False)
                            if t is not None:
                                entries.append((idx, t))
                if not hasdef:
                    t = s
                    for l2 in allv:
                        if "iv" in l2 and t is not None:
                            t = assume(t, cmpterm("==", v, C(int(l2["iv"]))), False)
                    if t is not None:
                        t = self.event(t, "switch-nomatch", n)
                        outs.append(Out("N", t))
                cur = []
                for idx, (ls, stn) in enumerate(flat):
                    cur = cur + [t for i, t in entries if i == idx]
                    nxt = []
                    for o in self.exec(stn, cur):
                        if o.kind == "N":
                            nxt.append(o.st)
                        elif o.kind == "B":
                            outs.append(Out("N", o.st))
                        else:
                            outs.append(o)
                    cur = self.merge(nxt)
                outs += [Out("N", t) for t in cur]
        return self.mergeouts(outs)

    # -------------------------------------------------------------- loops
    def x_for(self, n, sts):
        outs = []
        if n.get("i"):
            nxt = []
            for o in self.exec(n["i"], sts):
                (nxt.append(o.st) if o.kind == "N" else outs.append(o))
            sts = self.merge(nxt)

        def cond(s):
            if n.get("c") is None:
                return [s], []
            return self.branch(n["c"], s)

        def step(ss):
            if n.get("n") is None:
                return ss
            return [o.st for o in self.exec(n["n"], ss)]
        for s in sts:
            outs += self.loop(n, s, cond, lambda ss: self.exec(n["b"], ss), step)
        return self.mergeouts(outs)

    def x_while(self, n, sts):
        outs = []

        def cond(s):
            ss = [s]
            if n.get("cv"):
                ss = self.decl1(n["cv"], s)
            a, b = [], []
            for x in ss:
                p, q = self.branch(n["c"], x)
                a += p
                b += q
            return a, b
        for s in sts:
            outs += self.loop(n, s, cond, lambda ss: self.exec(n["b"], ss), lambda ss: ss)
        return self.mergeouts(outs)

    def x_do(self, n, sts):
        # body once, then while
        outs = []
        nxt = []
        for o in self.exec(n["b"], sts):
            if o.kind in ("N", "C"):
                nxt.append(o.st)
            elif o.kind == "B":
                outs.append(Out("N", o.st))
            else:
                outs.append(o)

        def cond(s):
            return self.branch(n["c"], s)
        for s in self.merge(nxt):
            outs += self.loop(n, s, cond, lambda ss: self.exec(n["b"], ss), lambda ss: ss, do=True)
        return self.mergeouts(outs)

    def x_rfor(self, n, sts):
        outs = []
        if n.get("init"):
            sts = [o.st for o in self.exec(n["init"], sts) if o.kind == "N"]
        for s0 in sts:
            for s, rl in self.lval(n["range"], s0):
                outs += self.rangeloop(n, s, rl, lambda st, idx: self.bind_rf(n, st, rl, idx), lambda ss: self.exec(n["b"], ss))
        return self.mergeouts(outs)

    def bind_rf(self, n, st, rl, idx):
        fr = self.cur()[1]
        v = n["var"]
        el = (rl[0], rl[1] + (("[", idx),))
        s = st.copy()
        if v.get("decomp"):
            for b, nm in zip(v["bs"], self.decomp_fields(v, len(v["bs"]))):
                s.mem[("L", fr, b["id"])] = mk("ref", (el[0], el[1] + ((".", nm),)))
        elif v.get("ref"):
            s.mem[("L", fr, v["id"])] = mk("ref", el)
        else:
            s.mem[("L", fr, v["id"])] = typed(read(s, el), v.get("t"))
        return s

    def rangeloop(self, n, s, rl, bind, body, lo=None, hi=None):
        """loop over container location rl with a hidden index"""
        fr = self.cur()[1]
        iroot = ("L", fr, "rf%d" % self.tmp(fr, n, "rf"))
        s = s.copy()
        s.mem[iroot] = lo if lo is not None else C(0)
        bound = hi

        def cond(st):
            h = bound if bound is not None else size_of(read(st, rl))
            t = cmpterm("<", st.mem[iroot], h)
            a, b = assume(st, t, True), assume(st, t, False)
            a = [a] if a is not None else []
            b = [b] if b is not None else []
            a = [bind(x, x.mem[iroot]) for x in a]
            return a, b

        def step(ss):
            r = []
            for x in ss:
                x = x.copy()
                x.mem[iroot] = add(x.mem[iroot], C(1))
                r.append(x)
            return r
        return self.loop(n, s, cond, body, step)

    def loop(self, n, st, cond, body, step, do=False):
        if not self.peel or self.inloop:
            return self.loop1(n, st, cond, body, step, do)
        self.inloop += 1
        try:
            outs = []
            ts, fs = cond(st)
            outs += [Out("N", self.droplocals(x, st)) for x in fs]
            nn = []
            for o in body(self.merge(ts)):
                if o.kind in ("N", "C"):
                    nn.append(o.st)
                elif o.kind == "B":
                    outs.append(Out("N", self.droplocals(o.st, st)))
                else:
                    outs.append(o)
            for x in step(self.merge(nn)):
                if self.on_rs:
                    x = self.on_rs(self, x, st)
                outs += self.loop1(n, self.droplocals(x, st), cond, body, step, do)
            return outs
        finally:
            self.inloop -= 1

    def loop1(self, n, st, cond, body, step, do=False):
        self.tick()
        fr = self.cur()[1]
        uid = self.tmp(fr, n, "loop")
        self.active.append(uid)
        try:
            return self.loop2(n, st, cond, body, step, do, uid)
        finally:
            self.active.pop()

    def loop2(self, n, st, cond, body, step, do, uid):
        hv = {}          # (root, path) -> [size-preserving]
        indu = {}
        mono = {}
        outs = []
        sig = {}         # relations: locations with equal signatures are equal at the loop head
        ineq = None      # pairs of havocked doubles a <= b
        lock = []
        consts = None    # (location, op, term): candidate invariants of the loop head
        vrel = {}        # (location, op) -> locations b with location = op(b) at the loop head

        def at(s, k):
            t = getroot(s, k[0])
            for x in k[1]:
                t = proj(t, x)
            return t

        def relations():
            """extend the candidate relations to new havocked locations"""
            for k in hv:
                if k not in sig:
                    sig[k] = (at(st, k),)
            for k in hv:
                e = at(st, k)
                if e.op in self.pair_ops and k not in vrel:
                    vrel[k] = (e.op, [b for b in hv if b != k and at(st, b) is e.a[0]])

        def refine(allN):
            """drop the relations which the body does not preserve"""
            nonlocal ineq
            ch = False
            ds = [k for k in hv if at(st, k).ty == "double"]
            if ineq is None or not all(k in hv for p in ineq for k in p):
                ineq = set((a, b) for a in ds for b in ds if a != b and len(ds) <= 12
                           and decide(st.facts, "<=", at(st, a), at(st, b)) is True)
                ch = bool(ineq)
            if not ch:
                keep = set((a, b) for a, b in ineq if all(decide(x.facts, "<=", at(x, a), at(x, b)) is True for x in allN))
                if keep != ineq:
                    ineq = keep
                    ch = True
            groups = {}
            for k in hv:
                groups.setdefault(sig[k], []).append(k)
            for g in groups.values():
                if len(g) < 2:
                    continue
                outs_ = {k: tuple(at(x, k) for x in allN) for k in g}
                if len(set(outs_.values())) > 1:
                    ch = True
                    for k in g:
                        sig[k] = sig[k] + outs_[k]
            for k, (op, bs) in vrel.items():
                keep = [b for b in bs if all(at(x, k) is mk(op, at(x, b)) for x in allN)]
                if len(keep) != len(bs):
                    vrel[k] = (op, keep)
                    ch = True
            return ch

        def havocked():
            s = st.copy()
            reps = {}
            if self.pair_ops:
                relations()
            for (root, path), pres in sorted(hv.items(), key=lambda kv: str(kv[0])):
                old = getroot(st, root)
                for x in path:
                    old = proj(old, x)
                if self.pair_ops and old.op not in ("c", "lin", "it", "rit"):
                    k = sig[(root, path)]
                    if k in reps:
                        s.mem[root] = put(getroot(s, root), path, reps[k])
                        continue
                sz = size_of(old) if pres and old.op not in ("c", "lin") else None
                if sz is not None and sz.op == "size" and not self.containerish(old):
                    sz = None
                t = mk("hv", uid, root, path, sz)
                t = typed(t, "unsigned long" if path and path[-1][0] == "@" else (self.ltypes.get(root) if not path else None) or old.ty)
                if self.pair_ops:
                    reps[sig[(root, path)]] = t
                s.mem[root] = put(getroot(s, root), path, t)
            for k, (op, bs) in vrel.items():
                if bs and k in hv:
                    s.mem[k[0]] = put(getroot(s, k[0]), k[1], typed(mk(op, at(s, bs[0])), at(st, k).ty))
            for t, op, init in indu.values():
                x = assume(s, cmpterm(op, t, init), True)
                if x is not None:
                    s = x
            for k, op, o in consts or ():
                x = assume(s, cmpterm(op, at(s, k), o), True)
                if x is not None:
                    s = x
            for (t1, o1), (t2, o2) in lock:
                x = assume(s, cmpterm("==", sub(t1, t2), sub(o1, o2)), True)
                if x is not None:
                    s = x
            for a, b in sorted(ineq or (), key=str):
                x = assume(s, cmpterm("<=", at(s, a), at(s, b)), True)
                if x is not None:
                    s = x
            return s
        cur = st
        for pas in range(self.loop_passes + 1):
            if pas == self.loop_passes:
                raise TooComplex("loop does not stabilise")
            self.sinks.append([])
            rs0 = st.rs
            if self.on_back and rs0:
                rs0 = self.on_back(self, st, cur, hv, at)
            rss = {rs0}
            todo = [rs0]
            first = True
            allN, exits, others = [], [], []
            while todo:
                r = todo.pop()
                s = cur
                if r != cur.rs:
                    s = cur.copy()
                    s.rs = r
                if self.keep_trace:
                    s = s.copy()
                    s.tr = None
                ts, fs = cond(s)
                exits += fs
                res = body(self.merge(ts))
                nn = [o.st for o in res if o.kind in ("N", "C")]
                nn = step(self.merge(nn))
                if self.on_rs:
                    nn = [self.on_rs(self, x, st) for x in nn]
                if self.on_back:
                    for i, x in enumerate(nn):
                        if x.rs:
                            rb = self.on_back(self, x, cur, hv, at)
                            if rb != x.rs:
                                nn[i] = x.copy()
                                nn[i].rs = rb
                allN += nn
                others += [o for o in res if o.kind not in ("N", "C")]
                for x in nn:
                    if x.rs not in rss:
                        rss.add(x.rs)
                        todo.append(x.rs)
                        if len(rss) > 64:
                            raise TooComplex("rule states in loop")
            xs = self.sinks.pop()
            # what changed?
            ch = {}
            for x in allN:
                for root in x.mem:
                    if root[0] == "L" and root not in st.mem and root[1] >= 0:
                        continue      # declared inside the loop
                    d = {}
                    diff(getroot(cur, root), getroot(x, root), (), d)
                    for path, pres in d.items():
                        k = (root, path)
                        ch[k] = ch.get(k, True) and pres
            grow = False
            for (root, path), pres in ch.items():
                # covered by an existing havoc?
                cov = None
                for (r2, p2) in hv:
                    if r2 == root and path[:len(p2)] == p2:
                        cov = (r2, p2)
                if cov is None:
                    # array steps: havoc the whole container
                    for i, (kk, _) in enumerate(path):
                        if kk == "[":
                            path = path[:i]
                            break
                    for (r2, p2) in list(hv):
                        if r2 == root and p2[:len(path)] == path:
                            del hv[(r2, p2)]
                    if (root, path) not in hv:
                        hv[(root, path)] = pres
                        grow = True
                elif cov == (root, path) and hv[cov] and not pres:
                    hv[cov] = False
                    grow = True
            if grow:
                if self.pair_ops:
                    vrel.clear()
                    ineq = None
                cur = havocked()
                continue
            if self.pair_ops and refine(allN):
                cur = havocked()
                continue
            if self.lockstep:
                if consts is None:
                    consts = keep = self.candidates(st, cur, hv, allN + exits + [o.st for o in others], at)
                    if keep:
                        cur = havocked()
                        continue
                else:
                    keep = [c for c in consts if c[0] in hv and all(decide(x.facts, c[1], at(x, c[0]), c[2]) is True for x in allN)]
                    if len(keep) != len(consts):
                        consts = keep
                        cur = havocked()
                        continue
            # induction variables / monotone counters
            newi = False
            deltas = {}
            for (root, path), pres in hv.items():
                t = getroot(cur, root)
                for x in path:
                    t = proj(t, x)
                if t.op != "hv":
                    continue
                old = getroot(st, root)
                for x in path:
                    old = proj(old, x)
                dl = []
                for x in allN:
                    y = getroot(x, root)
                    for q in path:
                        y = proj(y, q)
                    d = sub(y, t) if y.op not in ("it", "rit") else mk("nope")
                    dl.append(d.a[0] if isc(d) else None)
                ds = set(dl)
                if self.lockstep and ds and None not in ds:
                    deltas.setdefault(tuple(dl), []).append((t, old))
                if not ds or None in ds:
                    continue
                if all(d >= 0 for d in ds) and (root, path) not in indu:
                    indu[(root, path)] = (t, ">=", old)
                    newi = True
                elif all(d <= 0 for d in ds) and (root, path) not in indu:
                    indu[(root, path)] = (t, "<=", old)
                    newi = True
                if len(ds) == 1:
                    mono[(root, path)] = (t, old, ds.copy().pop())
            nl = [(g[0], y) for g in deltas.values() for y in g[1:]]
            if newi or len(nl) != len(lock):
                lock = nl
                cur = havocked()
                continue
            break
        # final: rebuild outcomes on top of the trace of st
        info = Ev("loop", n, self.cur()[0], cur, bodies=[Out("N", x) for x in allN] + others + xs,
                  exits=exits, ivs=list(mono.values()), entry=st, head=cur, uid=uid, hv=dict(hv), do=do)
        if self.on_event:
            self.on_event(self, st, info)

        def rebase(x):
            y = x.copy()
            if self.keep_trace:
                tr = []
                t = x.tr
                while t is not None:
                    tr.append(t[1])
                    t = t[0]
                base = (st.tr, info)
                for e in reversed(tr):
                    base = (base, e)
                y.tr = base
            return y
        closed, prefix = self.closed_forms(st, cur, allN, hv, mono, exits)
        info.d["closed"] = closed
        info.d["prefix"] = prefix
        if closed and not others and not xs and len(exits) == 1:
            for k in closed:
                t = at(cur, k)
                if t.op == "hv":
                    self.gone.add(t)
        for s in exits:
            # values assigned in the loop condition of inner names are dropped with the frame
            if closed:
                s = s.copy()
                for (root, path), t in closed.items():
                    s.mem[root] = put(getroot(s, root), path, t)
            outs.append(Out("N", rebase(self.droplocals(s, st))))
        for o in others:
            if prefix:
                o = Out(o.kind, self.substate(o.st, prefix), self.substval(o.val, prefix), o.node)
            if o.kind == "B":
                outs.append(Out("N", rebase(self.droplocals(o.st, st))))
            else:
                outs.append(Out(o.kind, rebase(o.st), o.val, o.node))
        for x in xs:
            self.sinks[-1].append(Out("X", rebase(x.st), x.val, x.node))
        return outs

    def candidates(self, st, cur, hv, sts, at):
        """facts true on entry which the body may preserve: flags keep their value, counters stay below what they are compared with"""
        out = []
        for k in hv:
            old = at(st, k)
            for c in (0, 1):
                if decide(st.facts, "==", old, C(c)) is True:
                    out.append((k, "==", C(c)))
            t = at(cur, k)
            if t.op != "hv":
                continue
            seen = set()
            for x in sts:
                for z in x.facts:
                    if z.op != "lin" or len(z.a[1]) != 2:
                        continue
                    d = dict(z.a[1])
                    if t not in d:
                        continue
                    o = next(y for y in d if y is not t)
                    if d[o] != -d[t] or o in seen or o.op == "hv" and o.a[0] == t.a[0]:
                        continue
                    seen.add(o)
                    for op in ("<", "<="):
                        if decide(st.facts, op, old, o) is True:
                            out.append((k, op, o))
        return out

    def loop_bounds(self, st, head, exits, iv, hvs, at, rowsized):
        """bounds h, one per exit: every exit knows iv >= h (or iv == h) for an invariant h; None if some exit does not"""
        hs = []
        for s in exits:
            h = None
            for d0, i in s.facts.items():
                if head.facts.get(d0) == i:
                    continue
                c, d = lin(d0)
                k = d.get(iv)
                if k is None:
                    continue
                rest = unlin(0, {x: v for x, v in d.items() if x is not iv})
                if any(x in hvs for x in subterms(rest)):
                    # sizes of the rows of a matrix of which only elements are written
                    m = {}
                    for x in subterms(rest):
                        if x.op == "size" and x.a[0].op == "sel" and x.a[0].a[0] in hvs and not any(y in hvs for y in subterms(x.a[0].a[1])):
                            rowsized.add(x.a[0].a[0])
                            m[x] = size_of(proj(at(st, hvs[x.a[0].a[0]]), ("[", x.a[0].a[1])))
                    if m:
                        from .terms import subst
                        rest = subst(rest, m)
                    if not m or any(x in hvs for x in subterms(rest)):
                        continue
                if k == 1 and i[0] is not None:
                    h = sub(C(i[0]), rest)
                elif k == -1 and i[2] is not None:
                    h = sub(rest, C(i[2]))
            if h is None:
                return None
            if h not in hs:
                hs.append(h)
        return hs

    def closed_forms(self, st, head, allN, hv, mono, exits):
        """summarise counting loops: tabulations and sums"""
        def at(s, k):
            t = getroot(s, k[0])
            for x in k[1]:
                t = proj(t, x)
            return t
        cand = [(k, v) for k, v in mono.items() if v[2] == 1 and v[0].op == "hv"]
        if not cand or not allN:
            return {}, {}
        hvs = {at(head, k): k for k in hv}
        picked = None
        for c0 in cand:
            rowsized = set()
            hs = self.loop_bounds(st, head, exits, c0[1][0], hvs, at, rowsized)
            if hs is not None or len(cand) == 1:
                picked = c0
                break
        if picked is None:
            return {}, {}
        ivk, (iv, lo, _) = picked
        rowkind = set()
        hi = None
        if hs:
            hi = hs[0] if len(hs) == 1 else mk("min", *sorted(hs, key=lambda z: z.n))
            if len(hs) > 1:
                typed(hi, "iv")
        forms = []
        # secondary induction variables: a loop-invariant step on every path
        aff = {}
        for k in hv:
            if k == ivk:
                continue
            t0 = at(head, k)
            if t0.op != "hv":
                continue
            steps = set()
            for s in allN:
                t1 = at(s, k)
                if t1.op in ("upd", "push", "updf"):
                    steps = None
                    break
                if t1.op in ("<<", ">>") and t1.a[0] is t0 and is_int(t0):
                    steps.add(mk(t1.op, t1.a[1]))
                    continue
                steps.add(sub(t1, t0))
            if steps is None or len(steps) != 1:
                continue
            stp = steps.pop()
            if is_int(t0) and not any(x in hvs for x in subterms(stp)) and not (isc(stp) and stp.a[0] == 0):
                aff[t0] = (at(st, k), stp)
        # variables which take the previous value of such a variable
        for k in hv:
            t0 = at(head, k)
            if t0.op != "hv" or t0 in aff or t0 is iv or not allN:
                continue
            us = set(at(s, k) for s in allN)
            u = us.pop() if len(us) == 1 else None
            if u is iv:
                ini, stp = lo, C(1)
            elif u is not None and u in aff and aff[u][1].op not in ("<<", ">>"):
                ini, stp = aff[u]
            else:
                continue
            if at(st, k) is sub(ini, stp):
                aff[t0] = (at(st, k), stp)

        def affine(t0, d):
            """value of a secondary induction variable after d iterations"""
            ini, stp = aff[t0]
            if stp.op in ("<<", ">>"):
                return typed(mk(stp.op, ini, mul(stp.a[0], d)), t0.ty)
            return add(ini, mul(stp, d))

        # counters which advance with the main one are expressed by it
        par = {}
        for a0, (ini, stp) in aff.items():
            if stp is C(1):
                par[a0] = add(ini, sub(iv, lo))
        for k in hv:
            if k == ivk:
                continue
            t0 = at(head, k)
            if t0.op != "hv":
                continue
            gs = []
            kind = None
            row = None
            for s in allN:
                t1 = at(s, k)
                g = None
                if par and t1.op == "upd" and any(x in par for x in subterms(t1.a[1])):
                    from .terms import subst
                    t1 = mk("upd", t1.a[0], subst(t1.a[1], par), t1.a[2])
                if t1.op == "upd" and t1.a[0] is t0 and t1.a[1] is iv:
                    kd, g = "tab", t1.a[2]
                elif self.row_update(t1, t0, iv, hvs) and row in (None, t1.a[1]):
                    row = t1.a[1]
                    kd, g = "row", t1.a[2].a[2]
                elif len(allN) == 1 and self.row_updates(t1, t0, iv, hvs, head):
                    row = self.row_updates(t1, t0, iv, hvs, head)
                    kd, g = "rows", mk("tuple", *[z for _, z in row])
                    row = tuple(z for z, _ in row)
                elif t1 is t0:
                    kd, g = None, None
                elif t1.op in ("^", "|") and t0 in t1.a and t0 not in aff:
                    kd, g = "fold" + t1.op, t1.a[1] if t1.a[0] is t0 else t1.a[0]
                elif t1.op == "mul" and t1.a.count(t0) == 1 and t0.ty == "double" and not any(t0 in subterms(z) for z in t1.a if z is not t0):
                    kd, g = "prod", C(1)
                    for z in t1.a:
                        if z is not t0:
                            g = mul(g, z)
                elif t1.op == "tab" and len(allN) == 1 and self.increments(t1, t0, hvs, iv):
                    row = self.increments(t1, t0, hvs, iv)
                    kd, g = "acc", row[1]
                    row = row[0]
                elif t1.op == "upd" and t1.a[0] is t0 and len(allN) == 1 and iv in subterms(t1.a[1]) and not any(
                        x in hvs and x is not iv for x in subterms(t1.a[1])):
                    # writes at computed positions, in order; the element before the write is "own"
                    from .terms import subst
                    row = t1.a[1]
                    own = typed(mk("own"), self.elem_type(t0))
                    kd, g = "scat", subst(t1.a[2], {mk("sel", t0, row): own})
                else:
                    kd, g = "sum", sub(t1, t0)
                if kd and kind and kd != kind:
                    gs = None
                    break
                kind = kd or kind
                # the guard of this path
                guard = []
                for d0, i in s.facts.items():
                    if head.facts.get(d0) != i and not (self.gone and any(x in self.gone and x.a[0] not in self.active for x in subterms(d0))):
                        guard.append((d0, i))
                gs.append((g, guard))
            if not gs or kind is None:
                continue
            bad = False
            reads = [g for g, _ in gs if g is not None]
            if len(gs) > 1:
                reads += [d for _, guard in gs for d, _ in guard]
            for g in reads:
                if any(x is t0 for x in subterms(g)):
                    # tabulations may read their own old element
                    if not (kind == "tab" and self.only_own(g, t0, iv)) and not (kind == "row" and self.only_row(g, t0, (row,), iv, head)) and not (kind == "rows" and self.only_row(g, t0, row, iv, head)):
                        bad = True
            if bad:
                continue
            old = at(st, k)
            lv = 1
            reads_old = any(isinstance(g, T) and t0 in subterms(g) for g, _ in gs)
            inner = [z for p in aff.values() for z in p]
            if kind == "acc":
                inner += [z for r in row for z in r]
            if len(gs) > 1:
                inner += [d for _, gu in gs for d, _ in gu]
            for g in [g for g, _ in gs] + [row] + ([old] if reads_old else []) + inner:
                if isinstance(g, T):
                    for x in subterms(g):
                        if x.op == "bvar":
                            lv = max(lv, x.a[0] + 1)
            bv = typed(mk("bvar", lv), "iv")
            from .terms import subst
            m = {iv: bv, t0: old}
            for a0, (ini, stp) in aff.items():
                if a0 is not t0:
                    m[a0] = affine(a0, sub(bv, lo))
            if len(gs) == 1:
                gt = subst(gs[0][0], m)
            else:
                # guards common to all paths are dropped
                common = None
                for _, gu in gs:
                    c = set(gu)
                    common = c if common is None else common & c
                cs = []
                for g, gu in gs:
                    gg = tuple(sorted(((subst(d, m), i) for d, i in gu if (d, i) not in common and not
                                       any(x.op == "sym" and str(x.a[0]).startswith("?") for x in subterms(d))),
                                      key=lambda z: (z[0].n, str(z[1]))))
                    gv = g if g is not None else (C(0) if kind == "sum" or kind.startswith("fold") else C(1) if kind == "prod" else mk("keep"))
                    cs.append((gg, subst(gv, m)))
                cs = tuple(sorted(set(cs), key=lambda z: (z[1].n, len(z[0]), [y[0].n for y in z[0]])))
                vals = set(v for _, v in cs)
                gt = vals.pop() if len(vals) == 1 else bitcases(cs)
            if kind == "tab":
                def form(h, old=old, bv=bv, gt=gt):
                    t = typed(mk("tab", old, lo, h, bv, gt), old.ty)
                    if isc(lo) and lo.a[0] == 0 and h is size_of(old) and old not in subterms(gt):
                        t = typed(mk("tab", mk("vec", h, None), lo, h, bv, gt), old.ty)
                    self.sumiv.setdefault(t, set()).add(iv)
                    return t
            elif kind == "prod":
                def form(h, old=old, bv=bv, gt=gt):
                    pr = mk("prod", lo, h, bv, gt)
                    pr.ty = old.ty
                    self.sumiv.setdefault(pr, set()).add(iv)
                    return mul(old, pr)
            elif kind.startswith("fold"):
                def form(h, old=old, bv=bv, gt=gt, op=kind[4:]):
                    return typed(mk("fold", op, old, lo, h, bv, gt), old.ty)
            elif kind == "scat":
                def form(h, old=old, bv=bv, gt=gt, row=subst(row, m)):
                    return typed(mk("scatter", old, lo, h, bv, row, gt), old.ty)
            elif kind == "acc":
                rowkind.add(t0)

                def form(h, old=old, bv=bv, gt=gt, row=row, m=m):
                    # elements which the body increments, each by an amount which does not depend on the container
                    bs = [typed(mk("bvar", bv.a[0] + 1 + k), "iv") for k in range(len(row))][::-1]
                    ren = {b: n for (b, _, _), n in zip(row, bs)}
                    sm = mk("sum", lo, h, bv, subst(gt, ren))
                    sm.ty = "double"
                    self.sumiv.setdefault(sm, set()).add(iv)
                    els = [old]
                    for b in bs:
                        els.append(mk("sel", els[-1], b))
                    t = add(els[-1], sm)
                    for k in range(len(row) - 1, -1, -1):
                        t = mk("tab", els[k], subst(subst(row[k][1], m), ren), subst(subst(row[k][2], m), ren), bs[k], t)
                    return typed(t, old.ty)
            elif kind == "rows":
                rowkind.add(t0)

                def form(h, old=old, bv=bv, gt=gt, row=row):
                    t = old
                    for r, g1 in zip(row, gt.a):
                        t = mk("upd", t, r, mk("tab", proj(old, ("[", r)), lo, h, bv, g1))
                    return typed(t, old.ty)
            elif kind == "row":
                rowkind.add(t0)

                def form(h, old=old, bv=bv, gt=gt, row=row):
                    r = proj(old, ("[", row))
                    t = mk("tab", r, lo, h, bv, gt)
                    if isc(lo) and lo.a[0] == 0 and h is size_of(r) and r not in subterms(gt):
                        t = mk("tab", mk("vec", h, None), lo, h, bv, gt)
                    return typed(mk("upd", old, row, t), old.ty)
            elif t0 in aff:
                def form(h, old=old, t0=t0):
                    return affine(t0, sub(h, lo))
            else:
                def form(h, old=old, bv=bv, gt=gt):
                    sm = mk("sum", lo, h, bv, gt)
                    sm.ty = old.ty
                    self.sumiv.setdefault(sm, set()).add(iv)
                    return add(old, sm)
            forms.append((k, t0, form))
        res = {}
        if hi is not None and rowsized <= rowkind:
            res = {k: form(hi) for k, t0, form in forms}
            res[ivk] = hi
        # a form is a prefix invariant if it does not depend on variables without one
        pre = {t0: form(iv) for k, t0, form in forms}
        open_ = [t for t in hvs if t is not iv and t not in pre]
        pre = {t: v for t, v in pre.items() if not any(x in hvs and x is not iv for x in subterms(v))}
        return res, pre

    def increments(self, t1, t0, hvs, iv):
        """t1 = t0 with elements incremented: ([(bound variable, lower, upper)], increment), or None"""
        from .terms import subst
        rows = []
        cur = t0
        while t1.op == "tab" and t1.a[0] is cur:
            _, lo, hi, b, g = t1.a
            if any(x in hvs for z in (lo, hi) for x in subterms(z)):
                return None
            rows.append((b, lo, hi))
            cur = mk("sel", cur, b)
            t1 = g
        if not rows:
            return None

        def diff(v):
            if v.op == "keep":
                return C(0)
            if v.op == "cases":
                cs = tuple((g, diff(w)) for g, w in v.a[0])
                return None if any(w is None for _, w in cs) else mk("cases", cs)
            v = subst(v, {mk("keep"): cur})
            d = sub(v, cur)
            return d
        d = diff(t1)
        if d is None or any(x is t0 or x.op == "keep" for x in subterms(d)):
            return None
        return rows, d

    def substval(self, v, m):
        if isinstance(v, T):
            from .terms import subst
            return subst(v, m)
        return v

    def substate(self, s, m):
        from .terms import subst
        s = s.copy()
        keys = set(m)
        for r, t in list(s.mem.items()):
            if isinstance(t, T) and any(x in keys for x in subterms(t)):
                s.mem[r] = subst(t, m)
        return s

    def elem_type(self, t):
        m = re.match(r"(?:class |const )*std::vector<([\w ]+)[,>]", t.ty or "")
        return m.group(1) if m else None

    def row_update(self, t1, t0, iv, hvs):
        """t1 = t0 with element iv of one row, fixed in the loop, replaced"""
        if t1.op != "upd" or t1.a[0] is not t0:
            return False
        r = t1.a[2]
        if r.op != "upd" or r.a[1] is not iv or r.a[0] is not proj(t0, ("[", t1.a[1])):
            return False
        return iv not in subterms(t1.a[1]) and not any(x in hvs for x in subterms(t1.a[1]))

    def row_updates(self, t1, t0, iv, hvs, head):
        """t1 = t0 with element iv of several distinct rows, fixed in the loop, replaced: [(row, value)]"""
        out = []
        t = t1
        while t.op == "upd" and t is not t0:
            r, v = t.a[1], t.a[2]
            if iv in subterms(r) or any(x in hvs for x in subterms(r)):
                return None
            if v.op != "upd" or v.a[1] is not iv or v.a[0] is not proj(t0, ("[", r)):
                return None
            if any(decide(head.facts, "!=", r, q) is not True for q, _ in out):
                return None
            out.append((r, v.a[2]))
            t = t.a[0]
        return list(reversed(out)) if t is t0 and len(out) > 1 else None

    def only_row(self, g, t0, row, iv, head):
        """every occurrence of t0 in g is t0[row][iv] or a read of another row"""
        own = [mk("sel", mk("sel", t0, r), iv) for r in row]
        seen = set()
        stack = [g]
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                if x in own or x in seen:
                    continue
                seen.add(x)
                if x.op == "sel" and x.a[0] is t0 and all(decide(head.facts, "!=", x.a[1], r) is True for r in row):
                    stack.append(x.a[1])
                    continue
                if x is t0:
                    return False
                stack.extend(x.a)
            elif isinstance(x, tuple):
                stack.extend(x)
        return True

    def only_own(self, g, t0, iv):
        """every occurrence of t0 in g is sel(t0, iv)"""
        own = mk("sel", t0, iv)
        seen = set()
        stack = [g]
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                if x is own or x in seen:
                    continue
                seen.add(x)
                if x is t0:
                    return False
                stack.extend(x.a)
            elif isinstance(x, tuple):
                stack.extend(x)
        return True

    def droplocals(self, s, st):
        fr = self.cur()[1]
        kill = [r for r in s.mem if r[0] == "L" and r[1] == fr and r not in st.mem]
        if kill:
            s = s.copy()
            for r in kill:
                del s.mem[r]
        return s

    def containerish(self, t):
        return t.ty is None or "<" in t.ty or t.ty.startswith("std::") or t.op in ("vec", "upd", "push", "list", "resize")

    # -------------------------------------------------------------- conditions
    def branch(self, e, s):
        """-> (true states, false states)"""
        if e is None:
            return [s], []
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            a, b = self.branch(e["lhs"], s)
            if e["op"] == "&&":
                T_, F_ = [], list(b)
                for x in a:
                    p, q = self.branch(e["r"], x)
                    T_ += p
                    F_ += q
            else:
                T_, F_ = list(a), []
                for x in b:
                    p, q = self.branch(e["r"], x)
                    T_ += p
                    F_ += q
            return T_, F_
        if k == "un" and e["op"] == "!":
            a, b = self.branch(e["e"], s)
            return b, a
        if k == "cast" and e["ck"] == "bool":
            return self.branch(e["e"], s)
        a, b = [], []
        for s2, v in self.evalany(e, s):
            if isinstance(v, tuple):
                v = read(s2, v[1])
            if v is None:
                v = mk("sym", "?%d" % id(e))
            x = assume(s2, v, True)
            y = assume(s2, v, False)
            if x is not None:
                a.append(x)
            if y is not None:
                b.append(y)
        return a, b

    # -------------------------------------------------------------- expressions
    def evalany(self, e, s):
        """evaluate an expression whose value may be unused / void"""
        if e is None:
            return [(s, None)]
        if e["k"] in ("block", "decl", "if", "for", "while", "do", "rfor", "switch", "try", "ret"):
            return [(o.st, None) for o in self.exec(e, [s]) if o.kind == "N"]
        return self.eval(e, s)

    def eval(self, e, s):
        """-> [(state, term)]"""
        self.tick()
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.e_u(e, s)
        return m(e, s)

    def e_int(self, e, s):
        return [(s, C(int(e["v"])))]

    def e_flt(self, e, s):
        return [(s, C(float(e["v"])) if not isinstance(e["v"], str) else mk("fc", e["v"]))]

    def e_bool(self, e, s):
        return [(s, TRUE if e["v"] else FALSE)]

    def e_str(self, e, s):
        return [(s, mk("str", e["v"]))]

    def e_null(self, e, s):
        return [(s, C(0))]

    def e_zero(self, e, s):
        return [(s, C(0))]

    def e_enum(self, e, s):
        return [(s, C(int(e["v"])))]

    def e_this(self, e, s):
        th = self.cur()[2]
        return [(s, addr(th) if th else mk("sym", "this"))]

    def e_fn(self, e, s):
        return [(s, mk("fn", e.get("id")))]

    def e_fieldref(self, e, s):
        return [(s, mk("sym", "fieldref:" + e["n"]))]

    def e_ref(self, e, s):
        return [(s, mk("sym", "ref:" + e["n"]))]

    def e_u(self, e, s):
        sts = [s]
        vs = [()]
        cur = [(s, ())]
        for c in e.get("ch") or []:
            nxt = []
            for x, a in cur:
                if c is None:
                    nxt.append((x, a))
                    continue
                for y, v in self.evalany(c, x):
                    if isinstance(v, tuple):
                        v = read(y, v[1])
                    nxt.append((y, a + (v,)))
            cur = nxt
        return [(x, mk("u", e.get("cls", e["k"]), e.get("n"), a)) for x, a in cur]

    e_umem = e_uref = e_u

    def rd(self, s, loc, e):
        t = read(s, loc, e.get("t"))
        if self.on_read:
            self.on_read(self, s, loc, t, e)
        return t

    def e_var(self, e, s):
        return [(x, self.rd(x, l, e)) for x, l in self.lval(e, s)]

    def e_mem(self, e, s):
        return [(x, self.rd(x, l, e)) for x, l in self.lval(e, s)]

    e_idx = e_mem

    def lval(self, e, s):
        """-> [(state, location)]"""
        k = e["k"]
        if k == "var":
            if e["vk"] == "global":
                return [(s, (("G", e.get("q", e["n"])), ()))]
            if e["vk"] == "static":
                return [(s, (("G", "static:%s:%s" % (self.cur()[0]["q"], e["n"])), ()))]
            root = ("L", self.cur()[1], e["id"])
            t = s.mem.get(root)
            if t is not None and t.op == "ref":
                return [(s, t.a[0])]
            if t is None and e.get("ref"):
                return [(s, (("D", mk("sym", e["n"])), ()))]
            return [(s, (root, ()))]
        if k == "mem":
            out = []
            if e.get("arrow"):
                for x, p in self.eval(e["b"], s):
                    l = deref(p)
                    out.append((x, self.memloc(x, l, e)))
            else:
                for x, l in self.lval(e["b"], s):
                    out.append((x, self.memloc(x, l, e)))
            return out
        if k == "idx":
            out = []
            for x, p in self.eval(e["b"], s):
                for y, i in self.eval(e["i"], x):
                    if p.op in ("it",):
                        l, i0 = p.a
                        out.append((y, (l[0], l[1] + (("[", add(i0, i)),))))
                    else:
                        l = deref(p)
                        out.append((y, (l[0], l[1] + (("[", i),))))
            return out
        if k == "un" and e["op"] == "*":
            return [(x, deref(p)) for x, p in self.eval(e["e"], s)]
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            out = []
            for x, v in self.eval(e, s):
                out += self.lval_noeff(e["e"], x)
            return out
        if k == "asg":
            out = []
            for x, v in self.eval(e, s):
                out += self.lval_noeff(e["lhs"], x)
            return out
        if k == "cond":
            out = []
            a, b = self.branch(e["c"], s)
            for x in a:
                out += self.lval(e["a"], x)
            for x in b:
                out += self.lval(e["b"], x)
            return out
        if k == "cast":
            if e["ck"] in ("down", "dyn"):
                return self.lval(e["e"], s)
        if k == "this":
            pass
        if k == "call":
            out = []
            for x, v in self.call(e, s, want="loc"):
                if isinstance(v, tuple) and v[0] == "loc":
                    out.append((x, v[1]))
                else:
                    out.append(self.totemp(e, x, v))
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for x, _ in self.evalany(e["lhs"], s):
                out += self.lval(e["r"], x)
            return out
        out = []
        for x, v in self.evalany(e, s):
            out.append(self.totemp(e, x, v))
        return out

    def lval_noeff(self, e, s):
        if e["k"] in ("var", "mem", "idx", "un", "call"):
            r = self.lval(e, s)
            return r[:1] if e["k"] == "call" else r
        return self.lval(e, s)

    def totemp(self, e, s, v):
        if v is None:
            v = mk("void")
        root = ("L", self.cur()[1], "tmp%d" % self.tmp(self.cur()[1], e, "tmp"))
        s = s.copy()
        s.mem[root] = v
        return (s, (root, ()))

    def memloc(self, s, l, e):
        l2 = (l[0], l[1] + ((".", e["n"]),))
        if e.get("ref"):
            t = read(s, l2)
            return deref(t)
        return l2

    def e_cast(self, e, s):
        ck = e["ck"]
        if ck == "down":
            return self.eval(e["e"], s)
        out = []
        for x, v in self.eval(e["e"], s):
            if ck == "bool":
                if v.ty == "bool" or v.op == "cmp":
                    out.append((x, v))
                elif v.op in ("addr", "new", "ref"):
                    out.append((x, TRUE))
                else:
                    out.append((x, cmpterm("!=", v, C(0))))
            elif ck == "f2i":
                out.append((x, v if isc(v) and isinstance(v.a[0], int) else typed(mk("f2i", v), e["t"])))
            elif ck == "flt" and e.get("t") == "float" and e.get("f") in ("double", "long double") and not isc(v):
                out.append((x, typed(mk("rounded", v), "float")))       # loses digits: not the same value
            elif ck == "int" and e.get("t") in ("short", "unsigned short") and e.get("f") not in ("short", "unsigned short", "char", "signed char", "unsigned char", "bool") and not isc(v):
                out.append((x, typed(mk("truncated", v), e["t"])))
            elif ck == "dyn":
                t = mk("dyncast", e["t"], v)
                out.append((x, t))
            else:
                if v.ty is None:
                    typed(v, e.get("f"))
                out.append((x, v))
        return out

    def e_un(self, e, s):
        op = e["op"]
        out = []
        if op in ("++", "--"):
            for x, l in self.lval(e["e"], s):
                old = self.rd(x, l, e["e"])
                new = self.itadd(old, C(1 if op == "++" else -1))
                typed(new, e.get("t"))
                y = self.store(x, l, new, e)
                out.append((y, old if e.get("post") else new))
            return out
        if op == "&":
            for x, l in self.lval(e["e"], s):
                out.append((x, addr(l)))
            return out
        if op == "*":
            for x, l in self.lval(e, s):
                out.append((x, self.rd(x, l, e)))
            return out
        for x, v in self.eval(e["e"], s):
            if op == "-":
                out.append((x, neg(v)))
            elif op == "!":
                if v.op == "cmp":
                    r = mk("cmp", v.a[0], NEGOP[v.a[1]], v.a[2])
                    d0, o, c = r.a
                    out.append((x, cmpterm(o, d0, c)))
                elif v.op == "c":
                    out.append((x, FALSE if v.a[0] else TRUE))
                else:
                    out.append((x, cmpterm("==", v, C(0))))
            else:
                out.append((x, typed(mk("un" + op, v), e.get("t"))))
        return out

    def itadd(self, t, d):
        if t.op == "it":
            return mk("it", t.a[0], add(t.a[1], d))
        if t.op == "rit":
            return mk("rit", t.a[0], sub(t.a[1], d))
        return add(t, d)

    def store(self, s, loc, v, node):
        s2 = write(s, loc, v)
        root = loc[0]
        if root[0] != "L":
            s2 = self.event(s2, "write", node, loc=loc, val=v, old=s)
        return s2

    def arith(self, op, a, b, ty):
        if a.op == "rit" and b.op == "rit" and a.a[0] == b.a[0] and op in ("<", ">", "<=", ">=", "==", "!=", "-"):
            a, b = b.a[1], a.a[1]
            return sub(a, b) if op == "-" else cmpterm(op, a, b)
        if op == "+":
            if a.op in ("it", "rit"):
                return self.itadd(a, b)
            if b.op in ("it", "rit"):
                return self.itadd(b, a)
            return typed(add(a, b), ty)
        if op == "-":
            if a.op == "it" and b.op == "it" and a.a[0] == b.a[0]:
                return sub(a.a[1], b.a[1])
            if a.op in ("it", "rit"):
                return self.itadd(a, neg(b))
            return typed(sub(a, b), ty)
        if op == "*":
            return typed(mul(a, b), ty)
        if op == "/":
            if isc(b) and b.a[0] != 0:
                if ty not in ("int", "unsigned long", "long", "unsigned int"):
                    return typed(mul(a, C(Fraction(1) / Fraction(b.a[0]))), ty)
                if isc(a) and isinstance(a.a[0], int) and isinstance(b.a[0], int):
                    return C(int(a.a[0] / b.a[0]))
            return typed(mk("/", a, b), ty)
        if op == "%" and isc(a) and isc(b) and isinstance(a.a[0], int) and b.a[0]:
            return C(a.a[0] % b.a[0])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if a.op == "it" and b.op == "it" and a.a[0] == b.a[0]:
                a, b = a.a[1], b.a[1]
                if op == "!=":
                    op = "<"      # iterator loops: it != end, it never passes end
                    return cmpterm("!=", a, b)
            return cmpterm(op, a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if isc(a) and isc(b) and isinstance(a.a[0], int) and isinstance(b.a[0], int) and a.a[0] >= 0 and 0 <= b.a[0] < 64:
                x, y = a.a[0], b.a[0]
                return C({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            if op in ("|", "^") and C(0) in (a, b):
                return b if a is C(0) else a
            if op in ("<<", ">>") and b is C(0):
                return a
        if op in ("&", "|", "^") and a.n > b.n:
            a, b = b, a
        return typed(mk(op, a, b), ty)

    def e_bin(self, e, s):
        op = e["op"]
        out = []
        if op in ("&&", "||"):
            a, b = self.branch(e["lhs"], s)
            if op == "&&":
                for x in b:
                    out.append((x, FALSE))
                for x in a:
                    out += self.eval(e["r"], x)
            else:
                for x in a:
                    out.append((x, TRUE))
                for x in b:
                    out += self.eval(e["r"], x)
            return out
        if op == ",":
            for x, _ in self.evalany(e["lhs"], s):
                out += self.evalany(e["r"], x)
            return out
        for x, a in self.eval(e["lhs"], s):
            for y, b in self.eval(e["r"], x):
                out.append((y, self.arith(op, a, b, e.get("t"))))
        return out

    def e_asg(self, e, s):
        op = e["op"]
        out = []
        for x, v in self.eval(e["r"], s):
            for y, l in self.lval(e["lhs"], x):
                if op != "=":
                    old = self.rd(y, l, e["lhs"])
                    nv = self.arith(op[:-1], old, v, e.get("t"))
                    # the implicit conversion back to the type of the left-hand side
                    if e.get("t") == "float" and e.get("ct") in ("double", "long double") and not isc(nv):
                        nv = mk("rounded", nv)
                    elif e.get("t") in ("int", "unsigned int", "long", "unsigned long", "char") and e.get("ct") in ("double", "float", "long double") and not isc(nv):
                        nv = mk("f2i", nv)
                else:
                    nv = v
                typed(nv, e.get("t"))
                out.append((self.store(y, l, nv, e), nv))
        return out

    def e_cond(self, e, s):
        out = []
        a, b = self.branch(e["c"], s)
        for x in a:
            out += self.evalany(e["a"], x)
        for x in b:
            out += self.evalany(e["b"], x)
        r = []
        for x, v in out:
            if isinstance(v, tuple):
                v = read(x, v[1])
            r.append((x, v))
        return r

    def e_lam(self, e, s):
        key = (id(e), self.cur()[1])
        self.lams[key] = (e, self.cur()[0], self.cur()[1], self.cur()[2])
        return [(s, mk("lam", key))]

    def e_assert(self, e, s):
        s = self.event(s, "assert", e)
        if not self.assume_asserts:
            return [(s, None)]
        a, b = self.branch(e["e"], s)
        return [(x, None) for x in (a or [])] or [(s, None)]

    def e_throw(self, e, s):
        if e.get("e") is not None:
            for x, v in self.eval(e["e"], s):
                x = self.event(x, "throw", e, exc=e["t"])
                self.sinks[-1].append(Out("X", x, (e["t"], v), e))
        else:
            val = self.catching[-1] if getattr(self, "catching", None) else ("?", None)
            x = self.event(s, "throw", e, exc=val[0], rethrow=True)
            self.sinks[-1].append(Out("X", x, val, e))
        return []

    def e_new(self, e, s):
        fr = self.cur()[1]
        t = mk("new", e["t"], self.tmp(fr, e, "new"))
        if self.on_new:
            r = self.on_new(self, s, e, t)
            if r is not None:
                return r
        init = e.get("init")
        if init is not None and init["k"] == "ctor":
            f = self.p.functions.get(init.get("id"))
            out = []
            for s2, args in self.evalargs(init, s, f):
                s2 = self.event(s2, "new", e, cls=init["c"], args=args, ptr=t)
                if f is not None and self.want_inline(s2, init, f, None):
                    fr2 = self.frame(fr, init)
                    s2 = s2.copy()
                    s2.mem[("D", t)] = mk("obj", init["c"], ())
                    for s3, v, n in self.enter(s2, f, fr2, (("D", t), ()), args):
                        out.append((s3, t))
                else:
                    out.append((s2, t))
            return out
        out = []
        if init is not None:
            for s2, v in self.eval(init, s):
                s2 = s2.copy()
                s2.mem[("D", t)] = v
                out.append((s2, t))
            return out
        return [(s, t)]

    def e_del(self, e, s):
        return [(x, None) for x, v in self.eval(e["e"], s)]

    def e_list(self, e, s):
        cur = [(s, ())]
        for a in e["a"]:
            nxt = []
            for x, vs in cur:
                for y, v in self.eval(a, x):
                    if isinstance(v, tuple):
                        v = read(y, v[1])
                    nxt.append((y, vs + (v,)))
            cur = nxt
        rec = self.p.records.get(e.get("t", ""))
        if rec:
            # aggregate: base subobjects are not modelled
            names = [f["n"] for f in rec["fields"]]
            return [(x, mk("obj", rec["n"], tuple(sorted(zip(names, vs), key=lambda kv: kv[0])))) for x, vs in cur]
        if len(e["a"]) == 1 and e.get("t") in ("int", "double", "bool", "unsigned long"):
            return [(x, vs[0]) for x, vs in cur]
        return [(x, mk("list", *vs)) for x, vs in cur]

    def e_ctor(self, e, s):
        c = e["c"]
        f = self.p.functions.get(e.get("id"))
        out = []
        if f is not None and self.want_inline(s, e, f, None):
            root = ("L", self.cur()[1], "tmp%d" % self.tmp(self.cur()[1], e, "ctor"))
            s = s.copy()
            s.mem[root] = mk("obj", c, ())
            for x, _ in self.construct(e, s, (root, ())):
                out.append((x, read(x, (root, ()))))
            return out
        for x, args in self.evalargs(e, s, f):
            vs = tuple(read(x, a[1]) if isinstance(a, tuple) else a for a in args)
            if c.startswith("std::vector<") or c.startswith("std::array<"):
                if len(vs) > 1 and vs[-1].op == "ctor" and str(vs[-1].a[0]).startswith("std::allocator<"):
                    vs = vs[:-1]
                if not vs:
                    t = mk("vec", C(0), None)
                elif len(vs) == 1 and vs[0].op == "list":
                    t = vs[0]
                elif len(vs) == 1 and self.argtype(e, 0) in ("int", "unsigned long", "long", "unsigned int"):
                    t = mk("vec", vs[0], C(0) if re.match(r"std::vector<(int|double|bool|unsigned \w+|char|long|float)\b", c) else None)
                elif len(vs) == 2 and vs[0].op == "it":
                    l, i0 = vs[0].a
                    src = read(x, l)
                    if vs[1].op == "it" and isc(i0) and i0.a[0] == 0 and vs[1].a[1] is size_of(src):
                        t = src
                    else:
                        t = mk("slice", src, i0, vs[1].a[1] if vs[1].op == "it" else vs[1])
                elif len(vs) == 2:
                    t = mk("vec", vs[0], vs[1])
                else:
                    t = mk("new-vec", *vs)
            elif c.startswith("std::pair<") and len(vs) == 2:
                t = mk("pair", vs[0], vs[1])
            elif c.startswith("std::pair<") and not vs:
                t = mk("pair", C(0), C(0))
            elif c.startswith("std::function<") and len(vs) == 1:
                t = vs[0]
            elif c.startswith(("std::unique_ptr<", "std::shared_ptr<")) and len(vs) <= 1:
                t = vs[0] if vs else C(0)
            elif c.startswith("std::basic_string<") and len(vs) >= 1:
                t = vs[0]
            elif f is not None and f.get("implicit") and not vs:
                t = mk("obj", c, ())
            else:
                t = mk("ctor", c, *vs)
            typed(t, c)
            x = self.event(x, "ctor", e, cls=c, args=vs, res=t)
            out.append((x, t))
        return out

    def argtype(self, e, i):
        a = e["a"][i]
        while a["k"] == "cast":
            return a.get("t")
        return {"int": "int"}.get(a["k"], a.get("t"))

    # -------------------------------------------------------------- calls
    def evalargs(self, e, s, f):
        """argument list: locations ('loc', l) for reference parameters, else terms"""
        pm = e.get("pm")
        ps = f["ps"] if f else None
        cur = [(s, [])]
        for i, a in enumerate(e.get("a") or []):
            byref = False
            if pm and i < len(pm):
                byref = pm[i] in (1, 2) or (pm[i] == 4 and a["k"] in ("var", "mem", "idx", "call", "un") and
                                            not (ps and i < len(ps) and ps[i].get("ptr")))
                if pm[i] == 4 and ps is None and a["k"] in ("un",):
                    byref = False
            elif ps and i < len(ps):
                byref = bool(ps[i].get("ref"))
            nxt = []
            for x, vs in cur:
                if a is None:
                    nxt.append((x, vs + [C(0)]))
                    continue
                if byref and a["k"] not in ("int", "flt", "bool", "str", "list", "enum", "lam"):
                    for y, l in self.lval(a, x):
                        nxt.append((y, vs + [("loc", l)]))
                else:
                    for y, v in self.evalany(a, x):
                        if v is None:
                            v = mk("void")
                        if isinstance(v, tuple):
                            v = read(y, v[1])
                        nxt.append((y, vs + [v]))
            cur = nxt
        # default arguments are already materialised by clang
        return cur

    def want_inline(self, st, e, f, objloc):
        if f.get("body") is None and not f.get("ctor"):
            return False
        if len(self.fnstack) > self.max_depth:
            return False
        for g, _, _ in self.fnstack:
            if g is f:
                return False
        if f.get("ctor"):
            if self.inline_hook is not None:
                r = self.inline_hook(self, e, f, objloc)
                if r is not None:
                    return r
            return self.inline_ctor
        if self.inline_hook is not None:
            r = self.inline_hook(self, e, f, objloc)
            if r is not None:
                return r
        return True

    def static_class(self, o):
        """declared class of the object expression"""
        k = o["k"]
        if k == "this":
            return None
        t = o.get("t")
        if t:
            t = t.replace("const ", "").strip()
            if t.endswith("*"):
                t = t[:-1].strip()
            for w in ("std::unique_ptr<", "std::shared_ptr<"):
                if t.startswith(w):
                    t = t[len(w):-1]
            return t
        return None

    def e_call(self, e, s):
        out = []
        for x, v in self.call(e, s):
            if isinstance(v, tuple) and v[0] == "loc":
                out.append((x, self.rd(x, v[1], e)))
            else:
                if v is None:
                    v = mk("void")
                out.append((x, v))
        return out

    def objloc(self, e, s):
        """location of the implicit object argument"""
        o = e["o"]
        if o["k"] == "this":
            th = self.cur()[2]
            return [(s, th if th else (("THIS",), ()))]
        t = o.get("t", "")
        if o["k"] == "un" and o["op"] == "*":
            return self.lval(o, s)
        isptr = t.endswith("*") or o["k"] in ("new",)
        if o["k"] == "call" and not isptr and e.get("op") is None:
            # a->f(): clang gives the arrow base as a pointer-typed expression
            pass
        if isptr:
            return [(x, deref(p)) for x, p in self.eval(o, s)]
        if o["k"] == "cast" and o.get("t", "").endswith("*"):
            return [(x, deref(p)) for x, p in self.eval(o, s)]
        return self.lval(o, s)

    def call(self, e, s, want=None):
        self.tick()
        self.ncall += 1
        q = e.get("q")
        if q is None:
            return self.call_value(e, s)
        if e.get("o") is None and not (q.startswith("std::") or q.startswith("__")):
            pass
        f = self.p.functions.get(e.get("id"))
        out = []
        if e.get("o") is not None and not e.get("static"):
            # lambda / std::function call operator
            if e.get("op") == "()" and (q.startswith("(lambda)") or q.startswith("std::function<")):
                return self.call_value(dict(e, f=e["o"], q=None), s)
            for x, ol in self.objloc(e, s):
                cls = self.dynclass(x, ol, e)
                g = f
                unknown_virtual = False
                if e.get("virt") and not e.get("nv"):
                    if cls:
                        g = self.p.resolve_virtual(cls, e["id"])
                        if self.dyn.get(ol) is None and ol[0][0] != "L" and self.exact_class(ol) is None and len(self.overriders(e["id"])) > 1 and not self.sealed(cls, e["id"]):
                            unknown_virtual = True
                    else:
                        unknown_virtual = True
                for y, args in self.evalargs(e, x, None if unknown_virtual else g):
                    out += self.dispatch(e, y, q, None if unknown_virtual else g, ol, args)
            return out
        for y, args in self.evalargs(e, s, f):
            out += self.dispatch(e, y, q, f, None, args)
        return out

    def overriders(self, usr):
        r = self.p.all_overriders(usr)
        if self.closed_world:
            r = [h for h in r if not h["file"].startswith("bindings")]
        return r

    def sealed(self, cls, usr):
        """no subclass of cls overrides usr differently"""
        g = self.p.resolve_virtual(cls, usr)
        for c in self.p.subclasses(cls, strict=True):
            h = self.p.resolve_virtual(c, usr)
            if h is not g:
                if self.closed_world and h is not None and h["file"].startswith("bindings"):
                    continue
                return False
        return g is not None

    def exact_class(self, loc):
        """class of a member object of an object of known class (no pointer in between)"""
        root, path = loc
        if not path:
            return None
        c = self.dyn.get((root, ()))
        for kind, n in path:
            if c is None or kind != ".":
                return None
            t = None
            for b in [c] + list(self.p.bases(c)):
                r = self.p.records.get(b)
                for fd in (r["fields"] if r else []):
                    if fd["n"] == n and t is None:
                        t = fd["t"].replace("const ", "").strip()
            c = t if t in self.p.records else None
        return c

    def dynclass(self, st, ol, e):
        c = self.dyn.get(ol) or self.exact_class(ol)
        if c:
            return c
        if ol[0][0] == "D" and not ol[1] and ol[0][1].op == "new":
            return ol[0][1].a[0]
        t = read(st, ol)
        if t.op == "obj":
            return t.a[0]
        o = e["o"]
        c = self.static_class(o)
        if c is None and o["k"] == "this":
            th = self.cur()[2]
            return self.dyn.get(th) or self.cur()[0].get("cls")
        # member object of this: its declared class
        return c

    def dispatch(self, e, st, q, g, ol, args):
        if self.on_call is not None:
            r = self.on_call(self, e, st, q, g, ol, args)
            if r is not None:
                return r
        from . import stdmodel
        r = stdmodel.model(self, e, st, q, g, ol, args)
        if r is not None:
            return r
        if g is not None and self.want_inline(st, e, g, ol):
            fr = self.frame(self.cur()[1], e)
            this = ol if (g.get("cls") and not g.get("static")) else None
            st = self.event(st, "enter", e, q=g["q"], callee=g, obj=ol, args=args)
            return [(x, v) for x, v, n in self.enter(st, g, fr, this, args)]
        return self.opaque(e, st, q, g, ol, args)

    def opaque(self, e, st, q, g, ol, args, res=None):
        pm = e.get("pm") or []
        vs = tuple(read(st, a[1]) if isinstance(a, tuple) else a for a in args)
        ot = read(st, ol) if ol is not None else None
        key = (ot,) + vs
        rng = False
        if res is None:
            if self.modsets and ot is None and q.startswith("hnco::random::Generator::"):
                rng = True
                key = key + (getroot(st, ("RNG",)),)
            res = mk("call", q, *key)
            res.ty = res.ty or e.get("t")
        if self.may_throw:
            for exc in self.may_throw(self, e, st, q, g, ol, args) or []:
                x = self.event(st, "call", e, q=q, callee=g, obj=ol, objv=ot, args=vs, locs=args, res=None, threw=exc)
                self.sinks[-1].append(Out("X", x, (exc, None), e))
        st0 = st
        s = st.copy()
        if rng:
            s.mem[("RNG",)] = mk("after", q, getroot(st, ("RNG",)))
        ms = self.modset(e, q, g) if self.modsets and ol is not None and not e.get("const") else None
        if ms is not None:
            for n in sorted(ms):
                p = ol[1] + ((".", n),)
                old = read(st, (ol[0], p))
                s.mem[ol[0]] = put(getroot(s, ol[0]), p, typed(mk("afterf", q, n, *key), old.ty))
        elif ol is not None and not e.get("const"):
            s.mem[ol[0]] = put(getroot(s, ol[0]), ol[1], typed(mk("after", q, *key), ot.ty)) if ol[1] else typed(mk("after", q, *key), ot.ty)
        for i, a in enumerate(args):
            m = pm[i] if i < len(pm) else 0
            if isinstance(a, tuple) and m in (1,):
                l = a[1]
                nv = typed(mk("out", q, i, *key), vs[i].ty)
                s.mem[l[0]] = put(getroot(s, l[0]), l[1], nv)
            elif not isinstance(a, tuple) and m == 3 and a.op in ("addr",):
                l = a.a[0]
                s.mem[l[0]] = put(getroot(s, l[0]), l[1], mk("out", q, i, *key))
            elif not isinstance(a, tuple) and a.op == "it" and q.startswith("std::"):
                l = a.a[0]
                s.mem[l[0]] = put(getroot(s, l[0]), l[1], mk("out", q, i, *(key + (read(st, l),))))
        s = self.event(s, "call", e, q=q, callee=g, obj=ol, objv=ot, args=vs, locs=args, res=res, before=st0)
        r = res
        if e.get("lv") and ol is not None:
            # reference result: an opaque location inside the object
            r = ("loc", (("D", mk("refres", q, ot, vs)), ()))
            r = ("loc", (("D", res), ()))
        return [(s, r)]

    def modset(self, e, q, g):
        """fields of the object which an opaque library call may change (closed world), or None"""
        if not q.startswith("hnco::"):
            return None
        if not hasattr(self.p, "_effects"):
            from .effects import Effects
            self.p._effects = Effects(self.p)
        fs = [g] if g is not None else [h for h in self.p.all_overriders(e["id"]) if not h["file"].startswith("bindings")]
        out = set()
        if not fs:
            return None
        for h in fs:
            if h.get("body") is None:
                return None
            r = self.p._effects.this_fields(h)
            if r is None:
                return None
            out |= r
        return out

    def call_value(self, e, s):
        """call through a value: lambda, std::function, pointer"""
        out = []
        for x, fv in self.evalany(e["f"], s) if e.get("f") is not None else [(s, mk("sym", "?"))]:
            if isinstance(fv, tuple):
                fv = read(x, fv[1])
            if fv.op == "addr" or fv.op == "ref":
                fv = read(x, fv.a[0])
            for y, args in self.evalargs(e, x, None if fv.op != "lam" else {"ps": self.lams[fv.a[0]][0]["ps"]}):
                if self.on_call is not None:
                    r = self.on_call(self, e, y, "<value>", None, None, [fv] + args)
                    if r is not None:
                        out += r
                        continue
                out += self.apply(fv, y, args, e)
        return out

    def apply(self, fv, st, args, e):
        if fv.op == "lam" and fv.a[0] in self.lams and len(self.fnstack) < self.max_depth + 4:
            node, f, fr, this = self.lams[fv.a[0]]
            s = st.copy()
            for p, a in zip(node["ps"], args):
                root = ("L", fr, p["id"])
                if isinstance(a, tuple) and a[0] == "loc":
                    s.mem[root] = mk("ref", a[1]) if p.get("ref") else read(s, a[1])
                elif p.get("ref"):
                    r2 = ("L", fr, "t%s" % p["id"])
                    s.mem[r2] = a
                    s.mem[root] = mk("ref", (r2, ()))
                else:
                    s.mem[root] = a
            g = dict(f)
            g["ret"] = ""
            self.fnstack.append((g, fr, this))
            try:
                outs = self.exec(node["body"], [s])
            finally:
                self.fnstack.pop()
            return [(o.st, o.val) for o in outs]
        if fv.op == "fn":
            f = self.p.functions.get(fv.a[0])
            if f is not None and self.want_inline(st, e, f, None):
                fr = self.frame(self.cur()[1], e)
                return [(x, v) for x, v, n in self.enter(st, f, fr, None, args)]
        vs = tuple(read(st, a[1]) if isinstance(a, tuple) else a for a in args)
        res = mk("app", fv, *vs)
        s = st.copy()
        for i, a in enumerate(args):
            if isinstance(a, tuple) and e.get("pm") and i < len(e["pm"]) and e["pm"][i] == 1:
                l = a[1]
                s.mem[l[0]] = put(getroot(s, l[0]), l[1], mk("outapp", i, fv, *vs))
        s = self.event(s, "call", e, q="<value>", callee=None, obj=None, objv=fv, args=vs, locs=args, res=res)
        return [(s, res)]
