"""Interprocedural, flow-insensitive side-effect analysis over access roots.

A root is one of
  ("this", field)   a field of the object the method is called on
  ("this", None)    the whole object
  ("param", i)      what reference/pointer parameter i designates
  ("global", q)     a variable with static storage
  ("local",)        an automatic object of the function (invisible outside)
  ("new",)          a freshly allocated object
  ("ptr", root)     whatever the pointer/reference stored at root designates
  ("?",)            unknown
The effects of a function are the set of (root, line, file, function) it may write, transitively over resolved calls (virtual
calls: every overrider), plus the set of opaque callables it invokes."""

from .q import walk

ACCESS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "operator[]", "at", "front", "back", "data",
          "find", "get", "operator*", "operator->", "c_str", "str", "first", "second", "value", "size", "rdbuf", "count", "equal_range",
          "lower_bound", "upper_bound", "operator bool", "operator()const"}
PURE_ALGO = {"find", "find_if", "find_if_not", "count", "count_if", "all_of", "any_of", "none_of", "accumulate", "max_element",
             "min_element", "minmax_element", "equal", "inner_product", "distance", "lower_bound", "upper_bound", "equal_range",
             "is_sorted", "adjacent_find", "mismatch", "lexicographical_compare", "binary_search", "is_permutation", "search",
             "next", "prev", "begin", "end", "cbegin", "cend", "size", "empty", "reduce", "transform_reduce", "get", "data",
             "move", "forward", "min", "max", "minmax", "clamp", "as_const", "addressof", "ref", "cref", "make_pair", "make_tuple",
             "tie", "rbegin", "rend", "crbegin", "crend", "back_inserter", "inserter", "abs", "make_shared", "make_unique",
             "set_intersection_", "includes"}
OUT_LAST = {"copy": 2, "copy_if": 2, "copy_n": 2, "copy_backward": 2, "transform": None, "partial_sum": 2, "merge": 4,
            "set_union": 4, "set_intersection": 4, "set_difference": 4, "move": 2}


def ptr(r):
    """what the pointer at r designates; chains collapse"""
    return r if r[0] == "ptr" else ("ptr", r)


def lastname(q):
    d = 0
    for i in range(len(q) - 1, 0, -1):
        c = q[i]
        if c == ">":
            d += 1
        elif c == "<":
            d -= 1
        elif c == ":" and q[i - 1] == ":" and d <= 0:
            return q[i + 1:]
    return q


class Effects(object):
    def __init__(self, prog, stop=(), closed_world=False):
        """stop: qualified-name prefixes of calls whose effects are left out (analysed on their own)"""
        self.p = prog
        self.stop = tuple(stop)
        self.closed_world = closed_world
        self.memo = {}
        self.unknown_calls = {}

    # ---------------------------------------------------------- local environment
    def env(self, f):
        k = ("env", f["id"])
        e = self.memo.get(k)
        if e is not None:
            return e
        e = {"params": {}, "inits": {}, "refs": set()}
        for i, p in enumerate(f["ps"]):
            e["params"][p["id"]] = (i, p)
        roots = [f.get("body")] + [i.get("e") for i in f.get("inits", [])]
        for r in roots:
            if r is None:
                continue
            for n in walk(r):
                k2 = n.get("k")
                if k2 == "decl":
                    for v in n["v"]:
                        if v.get("decomp"):
                            for b in v["bs"]:
                                e["inits"].setdefault(b["id"], []).append(v.get("init"))
                                if v.get("ref"):
                                    e["refs"].add(b["id"])
                        else:
                            if v.get("init") is not None:
                                e["inits"].setdefault(v["id"], []).append(v["init"])
                            if v.get("ref"):
                                e["refs"].add(v["id"])
                elif k2 in ("if", "while") and n.get("cv"):
                    v = n["cv"]
                    if v.get("init") is not None:
                        e["inits"].setdefault(v["id"], []).append(v["init"])
                elif k2 == "rfor":
                    v = n["var"]
                    ids = [b["id"] for b in v["bs"]] if v.get("decomp") else [v["id"]]
                    for i in ids:
                        e["inits"].setdefault(i, []).append(n["range"])
                        if v.get("ref"):
                            e["refs"].add(i)
                elif k2 == "asg" and n["lhs"].get("k") == "var" and "id" in n["lhs"]:
                    e["inits"].setdefault(n["lhs"]["id"], []).append(n["r"])
                elif k2 == "lam":
                    for p in n["ps"]:
                        if p.get("ref"):
                            e["refs"].add(p["id"])
                            e.setdefault("lamref", set()).add(p["id"])
                    for c in n["caps"]:
                        if c.get("ic") and c.get("init") is not None:
                            pass
        self.memo[k] = e
        return e

    # ---------------------------------------------------------- roots of an lvalue
    def roots(self, x, f, seen=()):
        if x is None:
            return {("?",)}
        k = x.get("k")
        if k == "this":
            return {("this", None)}
        if k == "mem":
            if x["b"].get("k") == "this":
                r = ("this", x["n"])
                if x.get("ref"):
                    return {("ptr", r)}
                return {r}
            if x.get("arrow"):
                return self.pointees(x["b"], f, seen)
            return self.roots(x["b"], f, seen)
        if k == "var":
            if x.get("vk") in ("global", "static"):
                return {("global", x.get("q") or x["n"])}
            env = self.env(f)
            i = x.get("id")
            if i in env["params"]:
                n, p = env["params"][i]
                if p.get("ref"):
                    return {("param", n)}
                return {("local",)}
            if i in env["refs"]:
                if i in seen:
                    return set()
                ins = env["inits"].get(i)
                if not ins:
                    return {("elem",)} if i in env.get("lamref", ()) else {("?",)}
                out = set()
                for z in ins[:1]:
                    out |= self.roots(z, f, seen + (i,))
                return out
            return {("local",)}
        if k == "un":
            if x["op"] == "*":
                return self.pointees(x["e"], f, seen)
            if x["op"] == "&":
                return self.roots(x["e"], f, seen)
            return self.roots(x["e"], f, seen)
        if k == "idx":
            return self.pointees(x["b"], f, seen) if not self.is_array(x["b"]) else self.roots(x["b"], f, seen)
        if k == "cond":
            return self.roots(x["a"], f, seen) | self.roots(x["b"], f, seen)
        if k == "cast":
            return self.roots(x["e"], f, seen)
        if k == "asg":
            return self.roots(x["lhs"], f, seen)
        if k == "call":
            return self.callroots(x, f, seen)
        if k == "new":
            return {("new",)}
        if k in ("ctor", "list", "int", "flt", "bool", "str", "enum", "lam", "bin", "null", "zero", "fn"):
            return {("local",)}
        return {("?",)}

    def is_array(self, b):
        t = b.get("t", "")
        return "[" in t

    def callroots(self, x, f, seen):
        """what a call's result (an lvalue or an iterator) designates"""
        op = x.get("op")
        q = x.get("q") or ""
        if x.get("o") is not None:
            o = x["o"]
            if op in ("*", "->") and not x.get("a"):
                return self.pointees(o, f, seen)
            if o.get("t", "").endswith("*") and op is None:
                return self.pointees(o, f, seen)
            if op in ("()",):
                return {("local",)}
            g = self.p.functions.get(x.get("id"))
            if g is not None and g.get("body") is not None and not x.get("virt"):
                r = self.retroots(g, seen)
                if r is not None:
                    return self.translate(r, x, f, seen)
            return self.roots(o, f, seen)
        g = self.p.functions.get(x.get("id"))
        if q.startswith("std::") or g is None:
            n = lastname(q)
            if x.get("a") and n in ("begin", "end", "cbegin", "cend", "next", "prev", "move", "forward", "get", "find", "max_element",
                                    "min_element", "lower_bound", "upper_bound", "find_if", "back_inserter", "max", "min", "ref", "as_const", "addressof"):
                return self.roots(x["a"][0], f, seen)
            if n in ("make_shared", "make_unique"):
                return {("new",)}
            if not x.get("lv"):
                return {("local",)}
            return {("?",)} if not x.get("a") else self.roots(x["a"][0], f, seen)
        r = self.retroots(g, seen)
        if r is not None:
            return self.translate(r, x, f, seen)
        return {("?",)}

    def retroots(self, g, seen):
        """roots returned by reference by g"""
        k = ("ret", g["id"])
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        out = set()
        if not (g.get("ret", "").endswith(("&", "*")) or g.get("retref")):
            self.memo[k] = {("local",)}
            return self.memo[k]
        for n in walk(g["body"]) if g.get("body") else ():
            if n.get("k") == "ret" and n.get("e") is not None:
                out |= self.roots(n["e"], g)
        self.memo[k] = out
        return out

    def pointees(self, e, f, seen):
        """what pointer expression e designates"""
        k = e.get("k")
        if k == "this":
            return {("this", None)}
        if k == "un" and e["op"] == "&":
            return self.roots(e["e"], f, seen)
        if k == "new":
            return {("new",)}
        if k == "cast":
            return self.pointees(e["e"], f, seen)
        if k == "cond":
            return self.pointees(e["a"], f, seen) | self.pointees(e["b"], f, seen)
        if k == "var" and e.get("vk") in ("local", "param") and "id" in e:
            env = self.env(f)
            i = e["id"]
            if i in env["params"]:
                n, p = env["params"][i]
                return {("ptr", ("param", n))}
            if i in seen:
                return set()
            ins = env["inits"].get(i)
            if ins:
                out = set()
                for z in ins:
                    if z.get("k") == "call" or (z.get("t") or "").endswith("*") or z.get("k") in ("un", "new", "cast", "cond"):
                        if z.get("k") == "call":
                            out |= self.callroots(z, f, seen + (i,))
                        else:
                            out |= self.pointees(z, f, seen + (i,))
                    else:
                        out |= {ptr(r) for r in self.roots(z, f, seen + (i,))}
                return out
            return {("?",)}
        if k == "call":
            # iterator or pointer returned by a call
            n = lastname(e.get("q") or "")
            if n in ACCESS or (e.get("q") or "").startswith(("std::", "__gnu_cxx")):
                return self.callroots(e, f, seen)
            return {ptr(r) for r in self.callroots(e, f, seen)}
        return {ptr(r) for r in self.roots(e, f, seen)}

    # ---------------------------------------------------------- translation at call sites
    def translate(self, rs, x, f, seen=()):
        out = set()
        for r in rs:
            out |= self.tr1(r, x, f, seen)
        return out

    def tr1(self, r, x, f, seen=()):
        if r[0] == "this":
            o = x.get("o")
            if o is None:
                return {("local",)}
            if o.get("k") == "this":
                return {r}
            if o.get("t", "").endswith("*"):
                return self.pointees(o, f, seen)
            return self.roots(o, f, seen)
        if r[0] == "param":
            a = x.get("a") or []
            if r[1] < len(a):
                return self.roots(a[r[1]], f, seen)
            return {("local",)}
        if r[0] == "ptr":
            if r[1][0] == "param":
                a = x.get("a") or []
                if r[1][1] < len(a):
                    return self.pointees(a[r[1][1]], f, seen)
                return {("?",)}
            return {ptr(z) for z in self.tr1(r[1], x, f, seen)}
        return {r}

    # ---------------------------------------------------------- effects
    def effects(self, f, cls=None):
        """{(root, file, line, function)} written by f (dynamic class cls of *this if known)"""
        key = ("eff", f["id"], cls)
        if key in self.memo:
            return self.memo[key]
        # fixpoint over the call graph reachable from f
        self.memo[key] = set()
        stack = getattr(self, "_stack", None)
        top = stack is None
        if top:
            self._stack = stack = []
            self._dirty = set()
        changed = True
        n = 0
        while changed:
            n += 1
            stack.append(key)
            new = self.compute(f, cls)
            stack.pop()
            changed = new != self.memo[key]
            self.memo[key] = new
            if not changed or n > 8 or key not in self._dirty:
                break
        if top:
            self._stack = None
        return self.memo[key]

    def compute(self, f, cls):
        out = set()
        roots = [f.get("body")] + [i.get("e") for i in f.get("inits", [])]
        skip = set()
        for r in roots:
            if r is None:
                continue
            for n in walk(r):
                if id(n) in skip:
                    continue
                k = n.get("k")
                if k == "assert":
                    for m in walk(n):
                        skip.add(id(m))
                    continue
                self.node(n, k, f, cls, out)
        return set(e for e in out if e[0][0] != "local" and e[0] != ("new",))

    def emit(self, out, rs, f, n):
        for r in rs:
            if r[0] in ("local", "new"):
                continue
            if r[0] == "ptr" and r[1][0] in ("local", "new"):
                r = ("?",) if r[1][0] == "local" else r[1]
                if r == ("new",):
                    continue
            out.add((r, f["file"], n.get("l", f["line"]), f["q"]))

    def node(self, n, k, f, cls, out):
        if k == "asg":
            self.emit(out, self.roots(n["lhs"], f), f, n)
        elif k == "un" and n["op"] in ("++", "--"):
            self.emit(out, self.roots(n["e"], f), f, n)
        elif k == "del":
            pass
        elif k == "call":
            self.call(n, f, cls, out)
        elif k == "ctor":
            g = self.p.functions.get(n.get("id"))
            if g is not None and g.get("body") is not None:
                self.compose(g, None, n, f, out)

    def call(self, n, f, cls, out):
        q = n.get("q")
        if q is None:
            out.add((("callable", ), f["file"], n.get("l", f["line"]), f["q"]))
            return
        op = n.get("op")
        g = self.p.functions.get(n.get("id"))
        name = lastname(q)
        if self.stop and q.startswith(self.stop) and (n.get("o") or {}).get("k") != "this":
            return
        if op:
            name = "operator" + op
        ext = q.startswith(("std::", "__gnu_cxx"))
        if n.get("o") is not None and not n.get("static"):
            o = n["o"]
            if ext:
                if op == "()" and q.startswith("std::function<"):
                    out.add((("callable",), f["file"], n.get("l", f["line"]), f["q"]))
                    return
                mutating = not n.get("const") and name not in ACCESS
                if q.startswith("std::") and "map<" in q and name == "operator[]":
                    mutating = True
                if mutating:
                    rs = self.pointees(o, f, ()) if o.get("t", "").endswith("*") else self.roots(o, f)
                    self.emit(out, rs, f, n)
                self.extargs(n, f, out)
                return
            if q.startswith("(lambda)"):
                return      # its body is walked where it is defined
            if n.get("virt") and not n.get("nv"):
                c = None
                if o.get("k") == "this" and cls:
                    c = cls
                if c:
                    h = self.p.resolve_virtual(c, n["id"])
                    if h is not None:
                        self.compose(h, c, n, f, out)
                    return
                st = (o.get("t") or "").replace("const ", "").rstrip("* ")
                hs = self.p.all_overriders(n["id"])
                if o.get("k") == "this":
                    cl = f.get("cls")
                    subs = set(self.p.subclasses(cl)) if cl else None
                    if subs is not None:
                        hs = [self.p.resolve_virtual(s, n["id"]) for s in subs]
                        hs = list({h["id"]: h for h in hs if h is not None}.values())
                for h in hs:
                    if self.closed_world and h["file"].startswith("bindings"):
                        continue
                    self.compose(h, None, n, f, out)
                return
            if g is not None and (g.get("body") is not None or g.get("ctor")):
                self.compose(g, cls if o.get("k") == "this" else None, n, f, out)
                return
            if not n.get("const") and not (g is not None and g.get("implicit")) or op == "=":
                rs = self.pointees(o, f, ()) if o.get("t", "").endswith("*") else self.roots(o, f)
                self.emit(out, rs, f, n)
            self.extargs(n, f, out)
            return
        if g is not None and g.get("body") is not None:
            self.compose(g, None, n, f, out)
            return
        # external free function
        if ext:
            if name in ("operator<<", "operator>>"):
                a = n.get("a") or []
                if a:
                    self.emit(out, self.roots(a[0], f), f, n)
                if name == "operator>>":
                    for z in a[1:]:
                        self.emit(out, self.roots(z, f), f, n)
                return
            if name in PURE_ALGO and not (name == "move" and len(n.get("a") or []) == 3):
                return
            a = n.get("a") or []
            if name in OUT_LAST:
                i = OUT_LAST[name]
                if i is None:
                    i = len(a) - 2
                if i < len(a):
                    self.emit(out, self.roots(a[i], f), f, n)
                return
        self.extargs(n, f, out)

    def extargs(self, n, f, out):
        pm = n.get("pm") or []
        q = n.get("q") or ""
        for i, a in enumerate(n.get("a") or []):
            m = pm[i] if i < len(pm) else 0
            if m == 1:
                self.emit(out, self.roots(a, f), f, n)
            elif m == 2 and a.get("k") in ("var", "mem") or m == 2 and a.get("lv"):
                self.emit(out, self.roots(a, f), f, n)
            elif m == 3:
                self.emit(out, self.pointees(a, f, ()), f, n)
            elif m == 0 and a.get("k") == "call" and lastname(a.get("q") or "") in ("begin", "end") and q.startswith("std::"):
                if n.get("op") is None:
                    self.emit(out, self.roots(a, f), f, n)

    def compose(self, g, cls, n, f, out):
        key = ("eff", g["id"], cls)
        st = getattr(self, "_stack", None)
        if st is not None and key in st:
            self._dirty.add(key)
            es = self.memo[key]
        else:
            es = self.effects(g, cls)
        for e in es:
            if e[0][0] == "?":
                out.add(e)
                continue
            if e[0][0] in ("global", "callable", "elem"):
                out.add(e)
                continue
            for r in self.tr1(e[0], n, f):
                if r[0] in ("local", "new") or r[0] == "ptr" and r[1][0] == "new":
                    continue
                out.add((r, e[1], e[2], e[3]))

    # ---------------------------------------------------------- convenience
    def this_fields(self, f, cls=None):
        """fields of *this that f may write, or None if unbounded"""
        out = set()
        for e in self.effects(f, cls):
            r = e[0]
            if r[0] == "this":
                if r[1] is None:
                    return None
                out.add(r[1])
            elif r[0] in ("?", "callable", "elem"):
                return None
        return out
