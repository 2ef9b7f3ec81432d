"""Values of closed forms.

The engine summarises a function by terms (sums, tabulations, case distinctions, least indices) which hold for every input.  This module gives
these terms their mathematical meaning on a finite instance, so that a summary can be compared with a definition.  No code of the repository is
run: only the derived formulas are.
"""
import math
import re
from fractions import Fraction
from .terms import T, lin, show, subterms, is_int
from .absint import trace, initv


class Unknown(Exception):
    pass


class Outside(Unknown):
    """an element outside its container"""


def interval(v, iv):
    lo, ls, hi, hs, ne = iv
    if lo is not None and (v < lo or (ls and v == lo)):
        return False
    if hi is not None and (v > hi or (hs and v == hi)):
        return False
    return v not in ne


def all_loops(st, out=None):
    """every loop of a trace, nested ones included: uid -> event"""
    if out is None:
        out = {}
    for e in trace(st):
        if e.kind == "loop":
            if e.uid in out:
                continue
            out[e.uid] = e
            for b in e.bodies:
                all_loops(b.st, out)
    return out


def num(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


class Values(object):
    def __init__(self, eng, loops, env):
        self.eng = eng
        self.loops = loops
        self.env = dict(env)
        self.mu = {}

    def holds(self, facts):
        """True / False / None (not known)"""
        r = True
        for d, iv in facts:
            try:
                if not interval(self.ev(d), iv):
                    return False
            except Unknown:
                r = None
        return r

    def bound(self, b, v, body):
        old = self.env.get(b)
        self.env[b] = v
        saved, self.mu = self.mu, {}
        try:
            return body()
        finally:
            self.mu = saved
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old

    def least(self, t):
        """value, at the end of a search loop, of a variable which only advances: the loop stops the first time no iteration is possible"""
        uid = t.a[0]
        if uid in self.mu:
            return self.mu[uid].get(t, None)
        ev = self.loops.get(uid)
        if ev is None or ev.do:
            raise Unknown("no loop for " + show(t))
        ivs = {x: (ini, stp) for x, ini, stp in ev.ivs}
        if t not in ivs:
            raise Unknown("not an advancing variable: " + show(t))
        guards = []
        for b in ev.bodies:
            if b.kind in ("N", "C"):
                guards.append([(d, i) for d, i in b.st.facts.items() if ev.head.facts.get(d) != i])
        start = {x: self.ev(ini) for x, (ini, _) in ivs.items()}
        saved = self.mu
        k = 0
        while True:
            cur = {x: start[x] + k * ivs[x][1] for x in ivs}
            self.mu = dict(saved)
            self.mu[uid] = cur
            go = False
            try:
                for g in guards:
                    # the bound of the loop comes before the element it protects
                    h = self.holds(sorted(g, key=lambda z: any(y.op == "sel" for y in subterms(z[0]))))
                    if h is None:
                        raise Unknown("loop condition")
                    if h:
                        go = True
            finally:
                self.mu = saved
            if not go:
                break
            k += 1
            if k > 64:
                raise Unknown("no end")
        self.mu = dict(saved)
        self.mu[uid] = cur
        return cur[t]

    def pred(self, lam, v, idx=None):
        ps = self.eng.preds.get(lam)
        if ps is None:
            raise Unknown("predicate " + show(lam))
        elt, cases = ps
        old = self.env.get(elt)
        self.env[elt] = v
        try:
            for g, r in cases:
                h = self.holds(g)
                if h is None:
                    raise Unknown("predicate")
                if h:
                    return bool(self.ev(r))
        finally:
            if old is None:
                self.env.pop(elt, None)
            else:
                self.env[elt] = old
        raise Unknown("predicate has no case")

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        op = t.op
        f = getattr(self, "op_" + op, None)
        if f is not None:
            return f(t)
        if op in ("^", "&", "|", "%", "<<", ">>", "/"):
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if op == "/":
                if b == 0:
                    raise Unknown("division by zero")
                if is_int(t):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return num(Fraction(a) / Fraction(b)) if not isinstance(a, float) and not isinstance(b, float) else a / b
            if op == "%":
                if b == 0:
                    raise Unknown("division by zero")
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            return {"^": lambda: a ^ b, "&": lambda: a & b, "|": lambda: a | b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
        raise Unknown("operator " + op)

    def op_sym(self, t):
        # a parameter passed by value
        r = self.env.get(initv(("P", t.a[0])))
        if r is None:
            raise Unknown("symbol %s" % (t.a[0],))
        return r

    def op_c(self, t):
        if isinstance(t.a[0], str):
            raise Unknown("string")
        return t.a[0]

    def op_lin(self, t):
        r = t.a[0]
        for k, c in t.a[1]:
            v = self.ev(k)
            r = r + (float(c) if isinstance(v, float) else c) * v
        return num(r)

    def op_mul(self, t):
        r = 1
        for k in t.a:
            r = r * self.ev(k)
        return num(r)

    def op_cmp(self, t):
        l, o, r = self.ev(t.a[0]), t.a[1], t.a[2]
        r = self.ev(r) if isinstance(r, T) else r
        return int({"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r, "!=": l != r}[o])

    def op_cases(self, t):
        unk = False
        for g, v in t.a[0]:
            h = self.holds(g)
            if h is None:
                unk = True
            elif h:
                return self.ev(v)
        raise Unknown("no case is known to apply" if unk else "no case applies")

    def op_not(self, t):
        return int(not self.ev(t.a[0]))

    def op_fld(self, t):
        o = self.ev(t.a[0])
        if not isinstance(o, dict) or t.a[1] not in o:
            raise Unknown("field " + t.a[1])
        return o[t.a[1]]

    def op_updf(self, t):
        o = self.ev(t.a[0])
        return dict(o, **{t.a[1]: self.ev(t.a[2])})

    def op_sel(self, t):
        a = t.a[0]
        # elements of a tabulation one by one: the others need not have a value
        if a.op == "tab":
            base, lo, hi, b, body = a.a
            i = self.ev(t.a[1])
            if self.ev(lo) <= i < self.ev(hi) and not any(x.op == "keep" for x in subterms(body)):
                return self.at(a, b, i, body)
        v, i = self.ev(a), self.ev(t.a[1])
        if not isinstance(v, (list, tuple)):
            raise Unknown("not a container")
        if not isinstance(i, int) or not 0 <= i < len(v):
            raise Outside(show(t))
        return v[i]

    def op_size(self, t):
        a = t.a[0]
        if a.op in ("tab", "upd"):
            return self.ev(self_size(a))
        if a.op == "ctor" and str(a.a[0]).startswith("std::bitset<"):
            return int(re.match(r"std::bitset<(\d+)>", a.a[0]).group(1))
        v = self.ev(a)
        if not isinstance(v, (list, tuple)):
            raise Unknown("size")
        return len(v)

    def op_vec(self, t):
        n = self.ev(t.a[0])
        return [self.ev(t.a[1]) if isinstance(t.a[1], T) else None] * n

    def op_upd(self, t):
        v = list(self.ev(t.a[0]))
        i = self.ev(t.a[1])
        if not 0 <= i < len(v):
            raise Outside(show(t))
        v[i] = self.ev(t.a[2])
        return v

    def rng(self, lo, hi):
        lo, hi = self.ev(lo), self.ev(hi)
        if not isinstance(lo, int) or not isinstance(hi, int) or hi - lo > 4096:
            raise Unknown("range")
        return range(lo, hi)

    def op_sum(self, t):
        lo, hi, b, body = t.a
        r = 0
        for i in self.rng(lo, hi):
            r = r + self.at(t, b, i, body)
        return num(r)

    def op_prod(self, t):
        lo, hi, b, body = t.a
        r = 1
        for i in self.rng(lo, hi):
            r = r * self.at(t, b, i, body)
        return num(r)

    def at(self, t, b, i, body):
        """body at index i; the loop variable it stands for is bound too (inner searches refer to it)"""
        ivs = self.eng.sumiv.get(t, ())
        old = [(x, self.env.get(x)) for x in ivs]
        for x in ivs:
            self.env[x] = i
        try:
            return self.bound(b, i, lambda: self.ev(body))
        finally:
            for x, o in old:
                if o is None:
                    self.env.pop(x, None)
                else:
                    self.env[x] = o

    def op_tab(self, t):
        base, lo, hi, b, body = t.a
        try:
            v = list(self.ev(base))
        except Unknown:
            v = [None] * self.ev(self_size(base))
        for i in self.rng(lo, hi):
            if not 0 <= i < len(v):
                raise Outside(show(t))
            own = [x for x in subterms(body) if x.op == "keep"]
            if own:
                self.env[own[0]] = v[i]
            v[i] = self.at(t, b, i, body)
        return v

    def op_hv(self, t):
        r = self.least(t)
        if r is None:
            raise Unknown("variable of a loop")
        return r

    def op_min(self, t):
        return min(self.ev(x) for x in t.a)

    def op_max(self, t):
        return max(self.ev(x) for x in t.a)

    def op_call(self, t):
        q = t.a[0]
        q = q.rsplit("::", 1)[-1] if isinstance(q, str) else None
        l = [x for x in t.a[1:] if isinstance(x, T)]
        if q in ("max", "min") and len(l) == 1 and l[0].op == "list":
            return {"max": max, "min": min}[q](self.ev(x) for x in l[0].a)
        if isinstance(t.a[0], str) and t.a[0].startswith("std::bitset<") and l and l[0].op == "ctor":
            m = re.match(r"std::bitset<(\d+)>", t.a[0])
            v = self.ev(l[0].a[1])
            if m and q == "count":
                return bin(v & ((1 << int(m.group(1))) - 1)).count("1")
            if q == "test":
                return (v >> self.ev(l[1])) & 1
        a = [self.ev(x) for x in l]
        if q in ("abs", "fabs", "labs"):
            return abs(a[0])
        if q == "pow" and len(a) == 2:
            return a[0] ** a[1] if isinstance(a[1], int) and a[1] >= 0 else float(a[0]) ** float(a[1])
        if q in ("log", "sqrt", "exp", "floor", "ceil", "log2", "sin", "cos"):
            return getattr(math, q)(a[0])
        raise Unknown("call " + str(q))

    def op_pos(self, t):
        name, arr, lo, hi, vs = t.a
        v = self.ev(arr)
        lo, hi = self.ev(lo), self.ev(hi)
        for i in range(lo, hi):
            if not 0 <= i < len(v):
                raise Outside(show(t))
            if name == "find":
                ok = v[i] == self.ev(vs[0])
            elif name == "find_if":
                ok = self.pred(vs[0], v[i])
            elif name == "find_if_not":
                ok = not self.pred(vs[0], v[i])
            else:
                raise Unknown(name)
            if ok:
                return i
        return hi

    def op_algo(self, t):
        name, arr, lo, hi, vs = t.a
        v = self.ev(arr)
        lo, hi = self.ev(lo), self.ev(hi)
        if not 0 <= lo <= hi <= len(v):
            raise Outside(show(t))
        w = v[lo:hi]
        if name == "all_of":
            return int(all(self.pred(vs[0], x) for x in w))
        if name == "any_of":
            return int(any(self.pred(vs[0], x) for x in w))
        if name == "none_of":
            return int(not any(self.pred(vs[0], x) for x in w))
        if name == "count_if":
            return sum(1 for x in w if self.pred(vs[0], x))
        if name == "count":
            k = self.ev(vs[0])
            return sum(1 for x in w if x == k)
        raise Unknown(name)


def self_size(a):
    from .absint import size_of
    return size_of(a)
