"""Call graph over the extracted program: direct calls, constructors, virtual calls (every overrider)."""
from .q import nodes


class CallGraph(object):
    def __init__(self, prog, closed_world=True):
        self.p = prog
        self.closed_world = closed_world
        self.memo = {}
        self.rev = None

    def targets(self, n):
        """functions a call/ctor/fn node may reach"""
        k = n.get("k")
        if k == "call":
            if n.get("q") is None:
                return []
            if n.get("virt") and not n.get("nv"):
                return [h for h in self.p.all_overriders(n["id"]) if not (self.closed_world and h["file"].startswith("bindings"))]
            g = self.p.functions.get(n.get("id"))
            return [g] if g is not None else []
        if k in ("ctor", "fn", "new"):
            g = self.p.functions.get(n.get("id"))
            return [g] if g is not None else []
        return []

    def sites(self, f):
        """[(node, function)] of f"""
        r = self.memo.get(f["id"])
        if r is None:
            r = []
            for n in nodes(f):
                for g in self.targets(n):
                    r.append((n, g))
            self.memo[f["id"]] = r
        return r

    def reach(self, pred):
        """ids of the functions which satisfy pred or can reach one that does"""
        if self.rev is None:
            self.rev = {}
            for f in self.p.functions.values():
                for _, g in self.sites(f):
                    self.rev.setdefault(g["id"], set()).add(f["id"])
        todo = [f["id"] for f in self.p.functions.values() if pred(f)]
        seen = set(todo)
        while todo:
            u = todo.pop()
            for v in self.rev.get(u, ()):
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return seen

    def path(self, f, goal):
        """a call path from f to a function in goal (for messages)"""
        prev = {f["id"]: None}
        todo = [f]
        while todo:
            g = todo.pop(0)
            if g["id"] in goal:
                out = []
                i = g["id"]
                while i is not None:
                    out.append(self.p.functions[i]["q"])
                    i = prev[i]
                return list(reversed(out))
            for _, h in self.sites(g):
                if h["id"] not in prev:
                    prev[h["id"]] = g["id"]
                    todo.append(h)
        return [f["q"]]


def ordered(n):
    """call-like nodes below n in (approximate) execution order, with the branch structure flattened"""
    if isinstance(n, list):
        for x in n:
            yield from ordered(x)
        return
    if not isinstance(n, dict):
        return
    k = n.get("k")
    order = {"if": ("i", "cv", "c", "t", "e"), "for": ("i", "c", "b", "n"), "while": ("c", "b"), "do": ("b", "c"),
             "rfor": ("range", "var", "b"), "switch": ("i", "c", "b"), "asg": ("r", "lhs"), "call": ("o", "a")}.get(k)
    if k == "lam":
        pass
    if order:
        for x in order:
            if isinstance(n.get(x), (dict, list)):
                yield from ordered(n[x])
        for x, v in n.items():
            if x not in order and isinstance(v, (dict, list)):
                yield from ordered(v)
    else:
        for x, v in n.items():
            if isinstance(v, (dict, list)):
                yield from ordered(v)
    if k in ("call", "ctor", "new"):
        yield n
