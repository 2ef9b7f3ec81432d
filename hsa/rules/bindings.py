"""P25: the Python module gives every C++ name its own meaning (names, trampolines, hierarchy of hnco.cc)."""
import re

from ..core import rule
from ..q import *
from ..effects import lastname

SRC = "bindings/"


def targs(t):
    """top-level template arguments of a type name"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for c in t[i + 1:-1]:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strip(e):
    while isinstance(e, dict):
        if e.get("k") in ("cast", "paren", "cleanup", "expr") and isinstance(e.get("e"), dict):
            e = e["e"]
        elif e.get("k") == "un" and e.get("op") == "&" and isinstance(e.get("e"), dict):
            e = e["e"]
        elif e.get("k") == "call" and (e.get("q") or "").startswith("pybind11::detail::overload_cast_impl"):
            e = e["a"][0]
        elif e.get("k") == "call" and e.get("q") in ("std::move", "std::forward", "std::mem_fn"):
            e = e["a"][0]
        else:
            break
    return e


def text(e):
    e = strip(e)
    if e.get("k") == "str":
        return e["v"]
    if e.get("k") == "ctor" and e.get("a"):
        return text(e["a"][0])
    return None


def norm(s):
    return s.replace("_", "").lower()


def agree(name, target):
    """the exposed name and the name of what it stands for"""
    a, b = name.strip("_"), target.strip("_")
    return a == b or a.endswith("_" + b) or b.endswith("_" + a)


class Module(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.fs = [f for f in ctx.p.functions.values() if f.get("file", "").startswith(SRC) and f.get("body")]
        self.classes = []       # (class, type arguments, python name, module, line, function)
        self.defs = []          # (class, kind, name, node, function)
        self.enums = []         # (enum, name, enumerator, line, function)
        self.exceptions = []
        self.paths = {}         # (function, variable) -> module path
        for f in self.fs:
            if not f.get("cls"):
                self.scan(f)

    def scan(self, f):
        var = {}
        mods = {p["id"]: () for p in f.get("ps", []) if "pybind11::module_" in (p.get("t") or "")}
        if f["q"] != "pybind11_init_hnco":
            mods = {}

        def modof(e):
            e = strip(e)
            if e.get("k") == "var":
                return mods.get(e.get("id"))
            if e.get("k") == "call" and e.get("q") == "pybind11::module_::def_submodule":
                up, n = modof(e.get("o") or {}), text(e["a"][0])
                return None if up is None or n is None else up + (n,)
            if e.get("k") == "ctor" and (e.get("c") or "").startswith("pybind11::module_") and e.get("a"):
                return modof(e["a"][0])
            return None
        for n in walk(f["body"]):
            if n.get("k") == "decl":
                for v in n["v"]:
                    if (v.get("t") or "").startswith("pybind11::module_") and v.get("init"):
                        m = modof(v["init"])
                        if m is not None:
                            mods[v["id"]] = m
        for n in walk(f["body"]):
            k, q, c = n.get("k"), n.get("q") or "", n.get("c") or ""
            if k == "ctor" and isinstance(c, str) and c.startswith("pybind11::class_<") and len(n.get("a", [])) >= 2:
                t = targs(c)
                self.classes.append((t[0], t[1:], text(n["a"][1]), modof(n["a"][0]), n["l"], f))
            elif k == "call" and re.match(r"pybind11::class_<.*>::def(_static|_readonly|_readwrite|_property)?$", q) and len(n["a"]) >= 1:
                self.defs.append((targs(q[:q.rindex("::")])[0], lastname(q), n, f))
            elif k == "call" and q == "pybind11::module_::def" and len(n["a"]) >= 2:
                self.defs.append((None, "def", n, f))
            elif k == "call" and re.match(r"pybind11::enum_<.*>::value$", q):
                self.enums.append((targs(q[:q.rindex("::")])[0], n, f))
            elif k == "call" and q == "pybind11::register_exception":
                self.exceptions.append((targs(n.get("t") or "<>"), n, f))


def sole_call(body):
    """the only statement of a forwarding lambda"""
    s = body.get("s", [])
    if len(s) != 1:
        return None
    e = s[0]
    while e.get("k") in ("ret", "expr", "cast", "paren", "cleanup") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e if e.get("k") == "call" else None


def uses(n, ids):
    return any(x.get("k") == "var" and x.get("id") in ids for x in walk(n))


@rule("P25", "The registrations of the Python module are read off the typed AST of bindings/hnco.cc: exposed name against the "
             "method, field or enumerator it is bound to, declared bases against the C++ hierarchy, module against namespace; "
             "each trampoline of a class constructible from Python looks up its own name, forwards every parameter in order "
             "and falls back on the overridden method; the iteration protocol is checked path by path.",
      minimum={"obligations.exposed name": 100, "obligations.class hierarchy": 40},
      assumptions=("pybind11 dispatches a registered name to the registered callable",))
def p25(ctx):
    p = ctx.p
    m = Module(ctx)
    if not m.classes:
        ctx.skip("exposed name", None, "no registration found")
        return
    for f in m.fs:
        ctx.functions.add(f["id"] if "id" in f else f["q"])
    bound = {}
    for c, t, name, mod, line, f in m.classes:
        bound.setdefault(c, []).append((t, name, mod, line, f))

    # ---- names of the classes, their modules and their bases
    seen = {}
    for c, t, name, mod, line, f in m.classes:
        if name is None:
            ctx.skip("class name", f, "name of %s is not a literal" % c)
            continue
        if c in p.records or c.startswith("hnco::") or "::" not in c:
            short = re.sub(r"<.*", "", lastname(c))
            others = [d for d in bound if d != c and re.sub(r"<.*", "", lastname(d)) == name]
            others += [d for d in (c.rpartition("::")[0] + "::" + name,) if d in p.records]
            if short != name and others and "<" not in c:
                ctx.bad("class name", f, line, "%s is exposed to Python as %s, which is the name of %s" % (c, name, others[0]), key="cls:" + c)
            else:
                ctx.ok("class name", "%s as %s" % (c, name))
        if mod is not None:
            if (mod, name) in seen and seen[(mod, name)] != c:
                ctx.bad("class name", f, line, "%s and %s are both exposed as %s in the same module: the second replaces the first" % (seen[(mod, name)], c, name), key="dup:" + name)
            seen[(mod, name)] = c
        declared = set()
        todo = [b for b in t if b in bound]
        while todo:
            b = todo.pop()
            if b in declared:
                continue
            declared.add(b)
            for (t2, _, _, _, _) in bound[b]:
                todo += [x for x in t2 if x in bound]
        for b in bound:
            if b != c and c in p.records and b in p.records and p.is_subclass(c, b):
                if b in declared:
                    ctx.ok("class hierarchy", "%s < %s" % (c, b))
                else:
                    ctx.bad("class hierarchy", f, line, "%s derives from %s, but is exposed without that base: it is not accepted where a %s is expected" % (c, b, lastname(b)), key="base:%s:%s" % (c, b))

    # ---- methods, fields
    for c, kind, n, f in m.defs:
        name = text(n["a"][0])
        if name is None or len(n["a"]) < 2:
            continue            # py::init
        t = strip(n["a"][1])
        what = "%s of %s" % (name, c or "the module")
        if t.get("k") == "fn":
            tq = t.get("q") or ""
            if agree(name, lastname(tq)):
                ctx.ok("exposed name", what)
            else:
                ctx.bad("exposed name", f, n["l"], "%s is bound to %s" % (what, tq), key="def:%s:%s" % (c, name))
        elif t.get("k") == "fieldref":
            if agree(name, t["n"]):
                ctx.ok("exposed name", what)
            else:
                ctx.bad("exposed name", f, n["l"], "%s is bound to the member %s" % (what, t["n"]), key="def:%s:%s" % (c, name))
        elif t.get("k") == "lam":
            lam(ctx, f, n, name, what, t)
    for en, n, f in m.enums:
        name, v = text(n["a"][0]), strip(n["a"][1])
        if name is None or v.get("k") != "enum":
            ctx.skip("exposed name", f, "value of an enumeration not understood")
            continue
        if norm(name) == norm(lastname(v["n"])):
            ctx.ok("exposed name", "%s of %s" % (name, en))
        else:
            ctx.bad("exposed name", f, n["l"], "%s of %s stands for %s" % (name, en, v["n"]), key="enum:" + name)
    for t, n, f in m.exceptions:
        name = text(n["a"][1])
        if name is None or not t:
            continue
        if lastname(t[0]) == name:
            ctx.ok("exposed name", "exception " + name)
        else:
            ctx.bad("exposed name", f, n["l"], "exception %s is exposed as %s" % (t[0], name), key="exc:" + t[0])
    thrown = {c for c in p.records if c.startswith("hnco::exception::")}
    reg = {t[0] for t, _, _ in m.exceptions if t}
    for c in sorted(thrown):
        if c in reg:
            ctx.ok("exceptions", c)
        elif any(x.get("k") == "throw" and c in str(x.get("e", {}).get("c") or x.get("e", {}).get("t") or "") for f in p.functions.values()
                 if f.get("body") and "hnco::" in f["q"] for x in walk(f["body"])):
            ctx.bad("exceptions", m.classes[0][5], m.classes[0][4], "the exception %s, thrown by the library, is not registered: Python sees an anonymous RuntimeError" % c, key="exc:" + c)

    # ---- trampolines of the classes which can be constructed from Python
    built = {c for c, kind, n, f in m.defs if c and any((strip(a).get("q") or "").startswith("pybind11::init") for a in n["a"])}
    for c, t, name, mod, line, f in m.classes:
        for a in t:
            if a in p.records and p.is_subclass(a, c) and a not in bound:
                if c not in built:
                    ctx.skip("trampolines", None, "%s cannot be constructed from Python" % c)
                    continue
                trampoline(ctx, m, c, a, f, line)

    for f in m.fs:
        if lastname(f["q"]) == "__next__":
            nexts(ctx, f)


def lam(ctx, f, n, name, what, t):
    body, ps = t.get("body") or {}, t.get("ps") or []
    if not ps:
        return
    if not uses(body, {ps[0]["id"]}):
        ctx.bad("exposed name", f, n["l"], "%s does not use the object it is called on" % what, key="lam:" + what)
        return
    if name in ("__str__", "__repr__"):
        rets = [x for x in walk(body) if x.get("k") == "ret" and isinstance(x.get("e"), dict)]
        shown = set()           # streams to which something of the object goes
        for x in walk(body):
            if x.get("k") == "call":
                parts = list(x.get("a", [])) + ([x["o"]] if isinstance(x.get("o"), dict) else [])
                if any(uses(y, {ps[0]["id"]}) for y in parts):
                    shown |= {y.get("id") for z in parts for y in walk(z) if y.get("k") == "var" and "ostringstream" in (y.get("t") or "")}
        for r in rets:
            e = strip(r["e"])
            while e.get("k") == "ctor" and len(e.get("a", [])) == 1:
                e = strip(e["a"][0])
            if e.get("k") == "call" and lastname(e.get("q") or "") == "str" and (strip(e.get("o") or {})).get("k") == "var":
                if strip(e["o"]).get("id") not in shown:
                    ctx.bad("exposed name", f, r["l"], "%s returns a stream into which the object was not written" % what, key="lam:" + what)
                    return
        ctx.ok("exposed name", what)
        return
    if name.startswith("__"):
        return
    e = sole_call(body)
    if e is None:
        ctx.skip("exposed name", f, "%s is a function of its own" % what)
        return
    if agree(name, lastname(e.get("q") or "")):
        ctx.ok("exposed name", what)
    elif (e.get("q") or "").startswith("hnco::") and e.get("o") is not None:
        ctx.bad("exposed name", f, n["l"], "%s calls %s" % (what, e["q"]), key="lam:" + what)


def trampoline(ctx, m, c, a, reg, line):
    p = ctx.p
    mine = [f for f in m.fs if f.get("cls") == a and not f.get("ctor") and "<dtor>" not in f["q"]]
    names = {lastname(f["q"]) for f in mine}
    for f in mine:
        name = lastname(f["q"])
        looks = [x for x in walk(f["body"]) if x.get("k") == "call" and x.get("q") == "pybind11::get_override"]
        if not looks:
            ctx.skip("trampolines", f, "no override is looked up")
            continue
        for x in looks:
            s = text(x["a"][1])
            if s is not None and s != name:
                ctx.bad("trampolines", f, x["l"], "%s looks up the Python method %s" % (f["q"], s), key="tr:" + f["q"])
                break
        else:
            ctx.ok("trampolines", "%s looks up its own name" % f["q"])
        want = [q["id"] for q in f["ps"]]
        for x in walk(f["body"]):
            if x.get("k") == "call" and x.get("op") == "()" and "object_api" in (x.get("q") or ""):
                got = [strip(y) for y in x["a"]]
                ids = [y.get("id") if y.get("k") == "var" else None for y in got]
                if ids != want and None in ids:
                    ctx.skip("trampolines", f, "arguments computed before the call")
                    continue
                if ids != want:
                    ctx.bad("trampolines", f, x["l"], "%s does not pass its parameters to the Python method in order" % f["q"], key="tr:" + f["q"])
                    continue
                bad = None
                for y, q in zip(x["a"], f["ps"]):
                    if q.get("ref") and not q.get("c") and not by_pointer(y):
                        bad = q["n"]
                if bad:
                    ctx.bad("trampolines", f, x["l"], "%s gives the Python method a copy of its result parameter %s" % (f["q"], bad), key="tr:" + f["q"])
                else:
                    ctx.ok("trampolines", "%s forwards its parameters" % f["q"])
        base = None
        for g in p.functions.values():
            if g.get("body") and g["q"] == "%s::%s" % (c, name) and len(g["ps"]) == len(f["ps"]):
                base = g
        if base is not None:
            fall = [x for x in walk(f["body"]) if x.get("k") == "call" and lastname(x.get("q") or "") == name
                    and (x.get("q") or "").startswith("hnco::")]
            if not fall:
                ctx.bad("trampolines", f, f["line"], "%s has no fallback on %s::%s when Python does not redefine it" % (f["q"], c, name), key="fb:" + f["q"])
            elif [strip(y).get("id") for y in fall[0]["a"]] != want:
                ctx.bad("trampolines", f, f["line"], "%s falls back on %s with other arguments" % (f["q"], fall[0]["q"]), key="fb:" + f["q"])
            else:
                ctx.ok("trampolines", "%s falls back on the base class" % f["q"])
    # a virtual method exposed on the class can be redefined in Python
    for c2, kind, n, f in m.defs:
        if c2 != c or len(n["a"]) < 2:
            continue
        t = strip(n["a"][1])
        if t.get("k") != "fn":
            continue
        d = lastname(t.get("q") or "")
        if virtual(p, t.get("q") or "") and (t.get("q") or "").rsplit("::", 1)[0] == c:
            if d not in names and not called(p, t["q"], m):
                continue        # nothing which Python can build calls it
            if d in names:
                ctx.ok("trampolines", "%s::%s can be redefined in Python" % (c, d))
            else:
                ctx.bad("trampolines", f, n["l"], "the virtual method %s::%s is exposed, but %s does not forward it: its redefinition in Python is ignored by the library" % (c, d, a), key="virt:%s:%s" % (c, d))


def by_pointer(e):
    while isinstance(e, dict):
        if e.get("k") == "un" and e.get("op") == "&":
            return True
        if e.get("k") == "call" and e.get("q") in ("std::ref", "std::addressof"):
            return True
        if e.get("k") in ("cast", "paren", "cleanup", "expr") and isinstance(e.get("e"), dict):
            e = e["e"]
        elif e.get("k") == "call" and (e.get("q") or "") == "pybind11::cast":
            return True
        else:
            return False


def virtual(p, q):
    cls, name = q.rsplit("::", 1)
    r = p.records.get(cls)
    for d in (r or {}).get("methods", []):
        if d.get("n") == name and d.get("virt"):
            return True
    return False


def called(p, q, m):
    """a class bound to Python calls q on an object it holds by pointer or reference"""
    bound = {x[0] for x in m.classes}
    for f in p.functions.values():
        if f.get("body") and (f.get("cls") in bound or any(f.get("cls") in p.bases(b) for b in bound if b in p.records)):
            for x in walk(f["body"]):
                if x.get("k") == "call" and x.get("q") == q and x.get("virt"):
                    o = strip(x.get("o") or {"k": "this"})
                    if o.get("k") == "this" or "*" in (o.get("t") or "") or o.get("ref"):
                        return f["q"]
    return None


def nexts(ctx, f):
    for o in outcomes(ctx, f):
        seq = [lastname(e.q or "") for e in calls(o)]
        if "next" in seq:
            i = seq.index("next")
            if "has_next" not in seq[:i]:
                ctx.bad("iteration", f, f["line"], "a path of %s takes the next element without asking whether there is one" % f["q"], key="it")
                return
    ctx.ok("iteration", f["q"])
