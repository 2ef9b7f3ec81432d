"""P13: the functions of the collection compute their published definition, and their announced maximum is their maximum."""
import itertools
import re
from fractions import Fraction
from ..callgraph import CallGraph
from ..core import rule
from ..q import *
from ..absint import Engine, State, TooComplex, trace
from ..values import Values, Unknown, Outside, all_loops, interval

NS = "hnco::function::"


# ---------------------------------------------------------------- definitions (x: list of bits, p: parameters or data)
def weight(x):
    return sum(x)


def head(x, b):
    k = 0
    while k < len(x) and x[k] == b:
        k += 1
    return k


def tail(x, b):
    return head(x[::-1], b)


def ridge(x, p):
    h = head(x, 1)
    return len(x) + h if weight(x) == h else len(x) - weight(x)


def plateau(x, p):
    n, h = len(x), head(x, 1)
    if h == n:
        return n + 2
    return n + 1 if weight(x) == h else n - weight(x)


def jump(x, p):
    n, w = len(x), weight(x)
    return 0 if n - p["gap"] < w < n else w


def deceptive_jump(x, p):
    n, w = len(x), weight(x)
    return n - w if n - p["gap"] < w < n else p["gap"] + w


def four_peaks(x, p):
    a, b, t = head(x, 1), tail(x, 0), p["threshold"]
    return max(a, b) + (len(x) if a > t and b > t else 0)


def six_peaks(x, p):
    a, b, c, d, t = head(x, 1), tail(x, 0), head(x, 0), tail(x, 1), p["threshold"]
    return max(a, b, c, d) + (len(x) if a > t and b > t or c > t and d > t else 0)


def trap(x, p):
    m = len(x) // p["num_traps"]
    r = 0
    for k in range(p["num_traps"]):
        w = weight(x[k * m:(k + 1) * m])
        r += m if w == m else m - w - 1
    return r


def hiff(x, p):
    def f(b):
        if len(b) == 1:
            return 1
        h = len(b) // 2
        return f(b[:h]) + f(b[h:]) + (len(b) if len(set(b)) == 1 else 0)
    return f(x)


def long_path(x, p):
    k = p["prefix_length"]

    def path(n):
        if n == 0:
            return [[]]
        q = path(n - k)
        last = q[-1]
        return [[0] * k + z for z in q] + [[0] * (k - i) + [1] * i + last for i in range(1, k)] + [[1] * k + z for z in reversed(q)]
    q = path(len(x))
    if x in q:
        return q.index(x) + 1
    return -(len(x) * weight(x[:k]) + weight(x[k:]))


def labs(x, p):
    s = [1 if b else -1 for b in x]
    n = len(s)
    e = sum(sum(s[i] * s[i + k] for i in range(n - k)) ** 2 for k in range(1, n))
    if p.get("merit"):
        return Fraction(n * n, 2 * e) if e else None
    return -e


def sign(*bs):
    return -1 if sum(bs) % 2 else 1


def linear(x, p):
    return sum(w for w, b in zip(p["weights"], x) if b)


def partition(x, p):
    return -abs(sum(w if b else -w for w, b in zip(p["numbers"], x)))


def products(x, p):
    a = b = 1
    for w, c in zip(p["numbers"], x):
        if c:
            a *= w
        else:
            b *= w
    return -abs(a - b)


def qubo(x, p):
    n = len(x)
    return sum(p["q"][i][j] for i in range(n) for j in range(i, n) if x[i] and x[j])


def nk(x, p):
    n = len(x)
    return Fraction(sum(p["functions"][i][sum(x[v] << k for k, v in enumerate(p["neighbors"][i]))] for i in range(n)), n)


def walsh(x, p):
    return sum(t["coefficient"] * sign(*[a & b for a, b in zip(x, t["feature"])]) for t in p["terms"])


def walsh1(x, p):
    return sum(w * sign(b) for w, b in zip(p["linear"], x))


def walsh2(x, p):
    return walsh1(x, p) + sum(p["quadratic"][i][j] * sign(x[i], x[j]) for i in range(len(x)) for j in range(i))


def ising1(x, p):
    n = len(x)
    r = sum(p["coupling"][i] * sign(x[i], x[i + 1]) for i in range(n - 1)) + sum(w * sign(b) for w, b in zip(p["field"], x))
    if p["periodic"]:
        r += p["coupling"][n - 1] * sign(x[n - 1], x[0])
    return r


def ising2(x, p):
    m, n = len(p["field"]), len(p["field"][0])
    s = [x[i * n:(i + 1) * n] for i in range(m)]
    r = 0
    for i in range(m):
        for j in range(n):
            r += p["field"][i][j] * sign(s[i][j])
            if j + 1 < n or p["periodic"]:
                r += p["right"][i][j] * sign(s[i][j], s[i][(j + 1) % n])
            if i + 1 < m or p["periodic"]:
                r += p["below"][i][j] * sign(s[i][j], s[(i + 1) % m][j])
    return r


def lits(c, x):
    return [x[l - 1] if l > 0 else 1 - x[-l - 1] for l in c]


def max_sat(x, p):
    return sum(1 for c in p["expression"] if any(lits(c, x)))


def max_nae(x, p):
    return sum(1 for c in p["expression"] if 0 < sum(lits(c, x)) < 3)


def cancellation(x, p):
    s = r = Fraction(0)
    for k in range(p["n"]):
        b = x[9 * k:9 * k + 9]
        if b[0] == 0:
            v = sum(c << i for i, c in enumerate(b[1:]))
        else:
            v = -sum((1 - c) << i for i, c in enumerate(b[1:])) - 1
        s += Fraction(v, 100)
        r += abs(s)
    return -r


def tsp(x, p):
    n = len(x)
    return -sum(p["distances"][x[i]][x[(i + 1) % n]] for i in range(n))


# ---------------------------------------------------------------- instances
def sizes(*ns):
    return [{"bv_size": n} for n in ns]


W = [3, -7, 11, 2, -5, 13, 17, -19, 23, 29, -31, 37, 41, -43, 47, 53]


def vec(n, k=0):
    return [W[(i + k) % len(W)] for i in range(n)]


def mat(m, n, k=0):
    return [[W[(i * n + j + k) % len(W)] + 100 * k for j in range(n)] for i in range(m)]


def bits(n):
    return [list(b) for b in itertools.product((0, 1), repeat=n)]


D = r"std::vector<double>"
DD = r"std::vector<std::vector<double>>"
II = r"std::vector<std::vector<int>>"

# class, definition, parameters of the constructor or data members (role: type, name), instances
CTOR = [
    ("OneMax", lambda x, p: weight(x), sizes(1, 2, 3, 5)),
    ("LeadingOnes", lambda x, p: head(x, 1), sizes(1, 2, 3, 5)),
    ("Needle", lambda x, p: int(weight(x) == len(x)), sizes(1, 2, 3, 5)),
    ("Ridge", ridge, sizes(1, 2, 3, 5)),
    ("Plateau", plateau, sizes(1, 2, 3, 5)),
    ("Hiff", hiff, sizes(1, 2, 4, 8)),
    ("Jump", jump, [{"bv_size": n, "gap": g} for n in (2, 3, 5) for g in (1, 2, 3) if g <= n]),
    ("DeceptiveJump", deceptive_jump, [{"bv_size": n, "gap": g} for n in (2, 3, 5) for g in (1, 2, 3) if g <= n]),
    ("FourPeaks", four_peaks, [{"bv_size": n, "threshold": t} for n, t in ((2, 0), (3, 0), (4, 1), (6, 0), (6, 1), (6, 2), (7, 2))]),
    ("SixPeaks", six_peaks, [{"bv_size": n, "threshold": t} for n, t in ((2, 0), (3, 0), (4, 1), (6, 0), (6, 1), (6, 2), (7, 2))]),
    ("Trap", trap, [{"bv_size": n, "num_traps": t} for n, t in ((2, 1), (2, 2), (3, 1), (4, 2), (6, 2), (6, 3))]),
    ("LongPath", long_path, [{"bv_size": n, "prefix_length": k} for n, k in ((2, 2), (4, 2), (3, 3), (6, 3), (6, 2))]),
]

DATA = [
    ("LinearFunction", linear, {"weights": D}, [({"weights": vec(n)}, n) for n in (1, 2, 4)]),
    ("Partition", partition, {"numbers": r"std::vector<int>"}, [({"numbers": [abs(v) for v in vec(n)]}, n) for n in (1, 2, 4)]),
    ("EqualProducts", products, {"numbers": D}, [({"numbers": [abs(v) for v in vec(n)]}, n) for n in (1, 2, 4)]),
    ("Qubo", qubo, {"q": DD}, [({"q": mat(n, n)}, n) for n in (1, 2, 4)]),
    ("NkLandscape", nk, {"neighbors": II, "functions": DD},
     [({"neighbors": [[1, 0], [2, 1], [0, 2]], "functions": mat(3, 4)}, 3), ({"neighbors": [[2, 3, 0], [0, 3, 1], [1, 0, 2], [1, 2, 3]], "functions": mat(4, 8)}, 4)]),
    ("WalshExpansion", walsh, {"terms": r"std::vector<.*WalshTerm>"},
     [({"terms": [{"feature": f, "coefficient": c} for f, c in (([0, 0, 0], 3), ([1, 0, 1], -5), ([1, 1, 1], 7), ([0, 1, 0], 11))]}, 3)]),
    ("WalshExpansion1", walsh1, {"linear": D}, [({"linear": vec(n)}, n) for n in (1, 2, 4)]),
    ("WalshExpansion2", walsh2, {"linear": D, "quadratic": DD}, [({"linear": vec(n), "quadratic": mat(n, n, 1)}, n) for n in (1, 2, 4)]),
    ("NearestNeighborIsingModel1", ising1, {"coupling": D, "field": D, "periodic": "bool"},
     [({"coupling": vec(n), "field": vec(n, 5), "periodic": b}, n) for n in (2, 3, 4) for b in (0, 1)]),
    ("NearestNeighborIsingModel2", ising2, {"right": DD, "below": DD, "field": DD, "periodic": "bool"},
     [({"right": mat(m, n), "below": mat(m, n, 1), "field": mat(m, n, 2), "periodic": b}, m * n) for m, n in ((2, 2), (2, 3), (3, 2)) for b in (0, 1)]),
    ("MaxSat", max_sat, {"expression": II}, [({"expression": [[1, -2], [-1, 3], [2], [-3, -2, 1], [1, 2, 3], [-1, -2, -3]]}, 3)]),
    ("MaxNae3Sat", max_nae, {"expression": II}, [({"expression": [[1, -2, 3], [-1, 3, 2], [-3, -2, 1], [1, 2, 4], [-1, -2, -4]]}, 4)]),
    ("Labs", labs, {"sequence": r"std::vector<int>", "merit": "bool"}, [({"sequence": [0] * n, "merit": b}, n) for n in (2, 3, 5) for b in (0, 1)]),
    ("SummationCancellation", cancellation, {"buffer": D}, [({"buffer": [0] * n, "n": n}, [[int(c) for c in s[:9 * n]] for s in (
        "000000000000000000", "110110011011010110", "011001100100101101", "111111111111111111", "100000000010000000", "000000001000000010", "101010101101010101")]) for n in (1, 2)]),
    ("Tsp", tsp, {"distances": r"std::vector<std::vector<(float|double)>>"}, [({"distances": mat(n, n)}, [list(q) for q in itertools.permutations(range(n))]) for n in (2, 3, 4)]),
]


class Summary(object):
    """what a method returns, on every path"""

    def __init__(self, ctx, f, cls, st=None):
        self.f = f
        self.eng = Engine(ctx.p, max_states=400, assume_asserts=False)
        self.eng.preds = {}
        kw = {} if st is None else {"st": st}
        self.outs = self.eng.run(f, cls=cls, **kw)
        ctx.functions |= self.eng.nfun
        ctx.count("paths", len(self.outs))
        # loops by path: the same loop may have been met in different circumstances
        self.by = {o: all_loops(o.st) for o in self.outs}

    def value(self, env):
        """the set of values (or "X") on the paths which may be taken for this instance; None if not determined"""
        got = []
        for o in self.outs:
            if o.kind not in ("R", "N", "X"):
                continue
            v = Values(self.eng, self.by[o], env)
            h = v.holds(o.st.facts.items())
            if h is False:
                continue
            if o.kind == "X":
                r = "X"
            else:
                t = retval(o)
                if t is None:
                    return None
                try:
                    r = v.ev(t)
                except Unknown:
                    r = None
            got.append((h, r))
        sure = [r for h, r in got if h]
        if len(sure) >= 1:
            rs = set(map(str, sure))
            return sure[0] if len(rs) == 1 else None
        rs = set(map(str, [r for _, r in got]))
        return got[0][1] if len(rs) == 1 else None


def env_of(f, this, x):
    env = {initv(("THIS",)): this}
    for p in f["ps"]:
        env[initv(("P", p["n"]))] = x
    return env


def plain(t):
    """type without its allocators"""
    k = t.find(", std::allocator<")
    while k >= 0:
        d, i = 0, k + 2
        while True:
            if t[i] == "<":
                d += 1
            elif t[i] == ">":
                d -= 1
                if d == 0:
                    break
            i += 1
        t = t[:k] + t[i + 1:]
        k = t.find(", std::allocator<")
    return t


def members(ctx, cls, roles):
    """role -> member name"""
    fields = [fd for c in ctx.p.bases(cls) for fd in (ctx.p.records.get(c) or {"fields": []})["fields"]]
    res = {}
    for role, ty in roles.items():
        c = [fd["n"] for fd in fields if re.fullmatch("(const )?" + ty, plain(fd["t"]).replace("> >", ">>"))]
        if len(c) > 1:
            c = [n for n in c if role in n] or c
        if len(c) != 1:
            return None
        res[role] = c[0]
    return res


def built(ctx, cls, params):
    """members of an object built with these parameters: a dictionary, "X" if rejected, None if not determined"""
    for f, outs, eng in ctx.p.__dict__.setdefault("_ctor_memo", {}).get(cls) or memo_ctor(ctx, cls):
        names = [p["n"] for p in f["ps"]]
        if len(names) != len(params):
            continue
        # parameters are identified by their name, or by their order if it was changed
        vals = [params[n] if n in params else None for n in names]
        if None in vals:
            vals = list(params.values())
        env = {initv(("P", n)): v for n, v in zip(names, vals)}
        got = None
        for o in outs:
            loops = all_loops(o.st)
            v = Values(eng, loops, env)
            h = v.holds(o.st.facts.items())
            if h is False:
                continue
            if o.kind == "X":
                got = "X" if h else got
                continue
            t = getroot(o.st, ("THIS",))
            d = {}
            todo = []
            while t.op == "updf":
                todo.append((t.a[1], t.a[2]))
                t = t.a[0]
            if t.op == "obj":
                todo += [(n, x) for n, x in t.a[1]]
            for n, x in reversed(todo):
                try:
                    d[n] = v.ev(x)
                except Unknown:
                    d.pop(n, None)
            if h:
                return d
            got = d if got is None else got
        return got
    return None


def memo_ctor(ctx, cls):
    r = ctx.p.records.get(cls)
    res = []
    for m in r["methods"]:
        if m["n"] != "<ctor>" or m.get("deleted"):
            continue
        f = ctx.p.functions.get(m["id"])
        if f is None or f.get("implicit"):
            continue
        eng = Engine(ctx.p)
        eng.preds = {}
        st = State({("THIS",): mk("obj", cls, ())}, {}, None, None)
        outs = eng.run(f, cls=cls, st=st)
        ctx.functions |= eng.nfun
        res.append((f, outs, eng))
    ctx.p.__dict__.setdefault("_ctor_memo", {})[cls] = res
    return res


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))
    return a == b


def compare(ctx, cls, f, s, ref, this, params, xs):
    """the summary of evaluate against the definition on the given arguments; returns the number of undetermined ones"""
    und = 0
    for x in xs:
        want = ref(x, params)
        if want is None:
            continue
        got = s.value(env_of(f, this, x))
        if got is None:
            und += 1
            continue
        if got == "X" or not same(got, want):
            ctx.bad("value", f, f["line"], "%s: the value of %s is %s, by definition it is %s (instance %s)" % (
                cls, "".join(map(str, x)), got, want, {k: v for k, v in params.items()}), key="value|%s" % cls)
            return None
    return und


def maxima(ctx, cls, ref, this, params, xs):
    hk = ctx.p.find_method(cls, "has_known_maximum", nparams=0)
    gm = ctx.p.find_method(cls, "get_maximum", nparams=0)
    memo = ctx.p.__dict__.setdefault("_max_memo", {})
    if cls not in memo:
        memo[cls] = (Summary(ctx, hk, cls), Summary(ctx, gm, cls))
    sk, sg = memo[cls]
    k = sk.value(env_of(hk, this, None))
    if k is None or k == "X":
        ctx.skip("maximum", cls, "has_known_maximum not determined")
        return
    if not k:
        return
    g = sg.value(env_of(gm, this, None))
    if g is None:
        ctx.skip("maximum", cls, "get_maximum not determined")
        return
    best = max(ref(x, params) for x in xs)
    if g == "X" or not same(g, best):
        ctx.bad("maximum", gm, gm["line"], "%s announces the maximum %s but it is %s (instance %s)" % (cls, g, best, params), key="maximum|%s" % cls)
    else:
        ctx.ok("maximum", "%s %s" % (cls, params))


REAL = ("double", "long double", "float")


def precision(ctx):
    """no value is rounded to an integer, or to single precision, without saying so on the way from the bits to the value of a function"""
    cg = CallGraph(ctx.p)
    todo = []
    for cls in ctx.p.subclasses(NS + "Function"):
        for f in ctx.p.functions.values():
            if f.get("cls") == cls and f["q"].rpartition("::")[2] in ("evaluate", "evaluate_incrementally", "evaluate_safely", "get_maximum") and f.get("body"):
                todo.append(f)
    seen = {f["id"] for f in todo}
    while todo:
        f = todo.pop()
        bad = None
        for n in nodes(f):
            if n.get("k") == "cast" and not n.get("x"):
                if n["ck"] == "flt" and n.get("t") == "float" or n["ck"] == "f2i":
                    bad = bad or n
            elif n.get("k") == "asg" and n.get("ct") in REAL and n.get("t") != n["ct"] and not (n.get("t") in REAL[:2]):
                bad = bad or n
        if bad is not None:
            ctx.bad("precision", f, bad.get("l", f["line"]), "a value is implicitly rounded to type %s" % bad.get("t"))
        else:
            ctx.ok("precision", f["q"])
        for _, g in cg.sites(f):
            if g["id"] not in seen and g.get("body") and g["file"].startswith("lib/hnco/") and ("/functions/" in g["file"] or g["file"].count("/") == 2):
                seen.add(g["id"])
                todo.append(g)


@rule("P13", "function values and announced maxima",
      minimum={"obligations.value": 8, "obligations.maximum": 4},
      assumptions=["real arithmetic, no overflow", "closed forms are compared with the definition on every bit vector of small sizes (up to 8 bits), for fixed data in general position",
              "functions or paths without a closed form are listed as undecided"])
def p13(ctx):
    precision(ctx)
    for name, ref, insts in CTOR:
        cls = NS + name
        if cls not in ctx.p.records:
            ctx.skip("value", cls, "class not found")
            continue
        f = ctx.p.find_method(cls, "evaluate", nparams=1)
        gs = ctx.p.find_method(cls, "get_bv_size", nparams=0)
        try:
            s = Summary(ctx, f, cls)
            sz = Summary(ctx, gs, cls)
        except TooComplex as e:
            ctx.skip("value", cls, str(e))
            continue
        ok = 0
        und = 0
        for params in insts:
            this = built(ctx, cls, params)
            if this is None:
                und += 1
                continue
            if this == "X":
                c = memo_first(ctx, cls)
                ctx.bad("value", c, c["line"], "%s cannot be built with %s" % (cls, params), key="built|%s" % cls)
                continue
            n = params["bv_size"]
            g = sz.value(env_of(gs, this, None))
            if g is not None:
                ctx.check(g == n, "size", gs, gs["line"], "%s built for %d bits announces %s bits" % (cls, n, g))
            xs = bits(n)
            r = compare(ctx, cls, f, s, ref, this, params, xs)
            maxima(ctx, cls, ref, this, params, xs)
            if r is None:
                break
            und += r
            if r == 0:
                ctx.ok("value", "%s %s: %d bit vectors" % (cls, params, len(xs)))
        if und:
            ctx.skip("value", cls, "%d values have no closed form" % und)
    for name, ref, roles, insts in DATA:
        cls = NS + name
        f = ctx.p.find_method(cls, "evaluate", nparams=1) if cls in ctx.p.records else None
        m = members(ctx, cls, roles) if f else None
        if m is None:
            ctx.skip("value", cls, "data members not recognised")
            continue
        try:
            s = Summary(ctx, f, cls)
        except TooComplex as e:
            ctx.skip("value", cls, str(e))
            continue
        gs = ctx.p.find_method(cls, "get_bv_size", nparams=0)
        sz = Summary(ctx, gs, cls) if gs is not None and gs.get("body") else None
        und = 0
        for params, n in insts:
            this = {m[r]: v for r, v in params.items() if r in m}
            xs = bits(n) if isinstance(n, int) else n
            if sz is not None and (isinstance(n, int) or name == "SummationCancellation"):
                g = sz.value(env_of(gs, this, None))
                if g is not None:
                    ctx.check(g == len(xs[0]), "size", gs, gs["line"], "%s with %s announces %s bits" % (cls, params, g))
            r = compare(ctx, cls, f, s, ref, this, params, xs)
            if r is None:
                break
            und += r
            if r == 0:
                ctx.ok("value", "%s %s: %d arguments" % (cls, params, len(xs)))
            if isinstance(n, int):
                maxima(ctx, cls, ref, this, params, xs)
        if und:
            ctx.skip("value", cls, "%d values have no closed form" % und)


def memo_first(ctx, cls):
    return ctx.p.__dict__["_ctor_memo"][cls][0][0]
