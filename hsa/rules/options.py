"""P24: command-line options reach the component they name (option specifications of the repository as oracle)."""
import json
import os
import re

from ..core import rule, REPO
from ..q import *
from ..effects import lastname

SPECS = ["lib/hnco/app/hnco.json", "lib/hnco/multiobjective/app/hnco-mo.json", "app/ffgen.json", "app/mapgen.json"]
APPDIRS = ("lib/hnco/app/", "lib/hnco/multiobjective/app/", "app/")


class Spec(object):
    def __init__(self, path):
        with open(os.path.join(REPO, path)) as fh:
            d = json.load(fh)
        self.path = path
        self.cls = "::".join(d["code"]["namespace"] + [d["code"]["classname"]])
        self.params = d["parameters"]
        self.flags = d["flags"]
        self.names = list(self.params) + list(self.flags)


# ------------------------------------------------------------------ switch segmentation
def flat(body):
    """labels and statements of a switch body in order; blocks are flattened"""
    out = []

    def go(n):
        k = n.get("k")
        if k == "block":
            for s in n["s"]:
                go(s)
        elif k == "case":
            out.append(("case", n.get("iv"), n))
            go(n["s"])
        elif k == "default":
            out.append(("default", None, n))
            go(n["s"])
        else:
            out.append(("stmt", None, n))
    go(body)
    return out


NORETURN = ("exit", "std::exit", "abort", "std::abort", "_exit")


def ends(n):
    if n.get("k") in ("break", "ret", "cont", "throw"):
        return True
    e = n
    while e.get("k") in ("expr", "cast", "paren", "cleanup") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e.get("k") == "throw" or e.get("k") == "call" and e.get("q") in NORETURN


def segment(items, start):
    out = []
    for it in items[start:]:
        if it[0] != "stmt":
            continue
        out.append(it[2])
        if ends(it[2]):
            break
    return out


def cases(sw):
    """[(value or None for default, label node, [statements])]"""
    items = flat(sw["b"])
    return [(int(v) if v is not None else None, n, segment(items, i + 1)) for i, (k, v, n) in enumerate(items)
            if k == "default" or k == "case" and v is not None]


# ------------------------------------------------------------------ helpers
def this_field(n, cls=None):
    if isinstance(n, dict) and n.get("k") == "mem" and isinstance(n.get("b"), dict) and n["b"].get("k") == "this":
        return n["n"]
    return None


def writes(ctx, stmts, cls, depth=2):
    """[(field, value expression or None, node)] written on this, following calls to methods of the same class"""
    out = []
    for s in stmts:
        for n in walk(s):
            k = n.get("k")
            if k == "asg":
                f = this_field(n.get("lhs"))
                if f:
                    out.append((f, n.get("r"), n))
            elif k == "call":
                f = this_field(n.get("o"))
                if f and (n.get("op") == "=" or lastname(n.get("q") or "") in ("assign", "operator=")):
                    out.append((f, (n.get("a") or [None])[0], n))
                g = ctx.p.functions.get(n.get("id"))
                if g is not None and g.get("cls") == cls and depth and isinstance(n.get("o"), dict) and n["o"].get("k") == "this" and g.get("body"):
                    out += writes(ctx, [g["body"]], cls, depth - 1)
    return out


def returned_fields(f):
    out = set()
    for n in nodes(f, "ret"):
        for m in walk(n):
            x = this_field(m)
            if x:
                out.add(x)
    return out


def option_call(n, specs):
    """(spec, name, 'get'|'with') of a call to an option getter"""
    if n.get("k") != "call":
        return None
    q = n.get("q") or ""
    c, _, m = q.rpartition("::")
    sp = specs.get(c)
    if sp is None:
        return None
    for pre in ("get_", "with_"):
        if m.startswith(pre) and m[len(pre):] in sp.names:
            return sp, m[len(pre):], pre[:-1]
    return None


def option_calls(n, specs):
    return [(m, o) for m in walk(n) for o in [option_call(m, specs)] if o]


def litval(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "cleanup", "expr"):
        e = e.get("e")
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k in ("int", "float", "bool", "str"):
        v = e["v"]
        if k == "int":
            return int(v)
        if k == "float":
            return float(v)
        return v
    if k == "ctor" and e.get("a"):
        return litval(e["a"][0])
    if k == "list" and len(e.get("a") or []) == 1:
        return litval(e["a"][0])
    if k == "un" and e.get("op") == "-":
        v = litval(e.get("e"))
        return -v if isinstance(v, (int, float)) else None
    return None


INTCONV = {"atoi", "atol", "strtol", "strtoul", "stoi", "stol", "stoul", "strtoll", "atoll", "strtoull"}


# ------------------------------------------------------------------ A: the option classes
def getters(ctx, sp):
    """option -> (value field, presence field)"""
    out = {}
    for o in sp.names:
        g = ctx.p.find_method(sp.cls, "get_" + o, nparams=0)
        w = ctx.p.find_method(sp.cls, "with_" + o, nparams=0)
        if o in sp.flags:
            fw = returned_fields(w) if w else set()
            if w is not None and len(fw) == 1:
                out[o] = (next(iter(fw)), None)
        elif g is not None and w is not None:
            fg, fw = returned_fields(g), returned_fields(w)
            if len(fg) == 1 and len(fw) == 1:
                out[o] = (next(iter(fg)), next(iter(fw)))
    return out


def parse_class(ctx, sp):
    fld = getters(ctx, sp)
    ctx.count("options", len(fld))
    for o in sp.names:
        if o not in fld:
            ctx.skip("getter", sp.cls, "getters of %s are not plain reads of one member" % o)
    # getters: distinct members, unset parameters without default are refused
    owner = {}
    for o, (v, w) in fld.items():
        for x in (v, w):
            if x is None:
                continue
            owner.setdefault(x, []).append(o)
    for x, os_ in owner.items():
        if len(os_) > 1:
            f = ctx.p.find_method(sp.cls, ("with_" if os_[1] in sp.flags else "get_") + os_[1], nparams=0)
            ctx.bad("getter", f, f["line"], "options %s are answered from the same member %s" % (" and ".join(os_), x), key="getter|%s|%s" % (sp.cls, x))
        else:
            ctx.ok("getter", "%s %s" % (sp.cls, os_[0]))
    for o, d in sp.params.items():
        if o not in fld:
            continue
        g = ctx.p.find_method(sp.cls, "get_" + o, nparams=0)
        try:
            outs = outcomes(ctx, g, sp.cls)
        except TooComplex:
            continue
        wt = proj(this0(), (".", fld[o][1]))
        for x in outs:
            if x.kind == "R" and "default" not in d:
                dec = decide(x.st.facts, "!=", wt, C(0))
                ctx.check(dec is True, "unset", g, g["line"], "%s has no default value but can be read although it was not given" % o)
            elif x.kind in ("T", "X") and "default" in d:
                ctx.bad("unset", g, g["line"], "reading %s can fail although it has a default value" % o)
    ctor = next((f for f in ctx.p.functions.values() if f.get("cls") == sp.cls and f.get("ctor") and len(f["ps"]) >= 2 and f.get("body")), None)
    if ctor is None:
        ctx.skip("parse", sp.cls, "no parsing constructor")
        return
    ctx.functions.add(ctor["id"])
    # defaults
    for i in ctor.get("inits", []):
        for o, (v, w) in fld.items():
            if i.get("f") == w:
                x = litval(i.get("e"))
                if x is not None:
                    ctx.check(not x, "default", ctor, i["l"], "%s counts as given when it is not" % o)
            if i.get("f") == v:
                x = litval(i.get("e"))
                want = False if o in sp.flags else sp.params[o].get("default")
                if x is None or want is None:
                    continue
                same = (abs(float(x) - float(want)) < 1e-12 if isinstance(x, (int, float)) and isinstance(want, (int, float)) else x == want)
                ctx.check(same, "default", ctor, i["l"], "the default value of %s is %r, documented as %r" % (o, x, want))
    # table
    entries = [n for n in nodes(ctor, "list") if n.get("t") == "option" and len(n.get("a") or []) == 4]
    if not entries:
        for n in ctx.p.globals.values() if isinstance(ctx.p.globals, dict) else ctx.p.globals:
            entries += [m for m in walk(n) if m.get("k") == "list" and m.get("t") == "option" and len(m.get("a") or []) == 4]
    if not entries:
        ctx.skip("parse", ctor, "option table not found")
        return
    code = {}
    for e in entries:
        nm, ha, c = litval(e["a"][0]), litval(e["a"][1]), enumval(e["a"][3])
        if isinstance(nm, str):
            code[nm] = (ha, c, e["l"])
    sw = next((n for n in nodes(ctor, "switch")), None)
    if sw is None:
        for n in nodes(ctor, "call"):
            g = ctx.p.functions.get(n.get("id"))
            if g is not None and g.get("cls") == sp.cls and g.get("body"):
                sw = sw or next((m for m in nodes(g, "switch")), None)
    short = [litval(v.get("init")) for n in nodes(ctor, "decl") for v in n["v"] if v.get("init") is not None and isinstance(litval(v.get("init")), str)]
    short = next((s for s in short if re.fullmatch(r"[+\-:]?([A-Za-z0-9]:{0,2})+", s)), None)
    for o in sp.names:
        nm = o.replace("_", "-")
        if nm not in code:
            ctx.bad("table", ctor, ctor["line"], "documented option --%s is not accepted" % nm)
            continue
        ha, c, l = code[nm]
        ctx.check(ha == (0 if o in sp.flags else 1), "table", ctor, l, "--%s %s an argument" % (nm, "takes" if ha else "does not take"))
        same = [k for k, v in code.items() if v[1] == c and k != nm]
        if c is not None and same:
            ctx.bad("table", ctor, l, "--%s is handled as --%s" % (nm, same[0]))
    if sw is None:
        ctx.skip("parse", ctor, "option switch not found")
        return
    segs = {}
    for v, n, stmts in cases(sw):
        segs[v] = (n, stmts)
    byfield = {}
    for o, (v, w) in fld.items():
        byfield.setdefault(v, (o, "value"))
        if w:
            byfield.setdefault(w, (o, "presence"))
    if None in segs:
        n, stmts = segs[None]
        stop = any(m.get("k") == "call" and m.get("q") in NORETURN or m.get("k") == "throw" for s in stmts for m in walk(s))
        ctx.check(stop, "unknown", ctor, n["l"], "an unknown option is accepted silently")
    for o in sp.names:
        nm = o.replace("_", "-")
        if nm not in code or o not in fld or code[nm][1] is None:
            continue
        c = code[nm][1]
        if c not in segs:
            ctx.bad("parse", ctor, code[nm][2], "--%s is accepted but not handled" % nm)
            continue
        n, stmts = segs[c]
        ws = writes(ctx, stmts, sp.cls)
        v, w = fld[o]
        mine = [x for x in ws if x[0] == v]
        if not mine:
            other = [byfield[x[0]][0] for x in ws if x[0] in byfield and byfield[x[0]][1] == "value"]
            if other:
                ctx.bad("parse", ctor, n["l"], "--%s sets %s" % (nm, other[0]))
            elif ws or not any(m.get("k") == "call" for s in stmts for m in walk(s)):
                ctx.bad("parse", ctor, n["l"], "--%s does not set the value read by the programs" % nm)
            else:
                ctx.skip("parse", ctor, "--%s: value not set by a plain assignment" % nm)
            continue
        alien = [byfield[x[0]][0] for x in ws if x[0] in byfield and byfield[x[0]][0] != o]
        if alien:
            ctx.bad("parse", ctor, n["l"], "--%s also sets %s" % (nm, alien[0]))
        if o in sp.flags:
            x = litval(mine[-1][1])
            if x is not None:
                ctx.check(bool(x), "parse", ctor, mine[-1][2]["l"], "--%s does not switch the flag on" % nm)
            continue
        pres = [litval(x[1]) for x in ws if x[0] == w]
        if w and not pres:
            ctx.bad("parse", ctor, n["l"], "--%s is not recorded as given" % nm)
        elif w and pres[-1] is not None:
            ctx.check(bool(pres[-1]), "parse", ctor, n["l"], "--%s is recorded as not given" % nm)
        conversion(ctx, ctor, o, sp.params[o]["type"], mine[-1])
        ch = sp.params[o].get("optchar")
        if ch:
            ok = ord(ch) in segs and segs[ord(ch)][1] and segs[ord(ch)][1][-1] is stmts[-1] and len(segs[ord(ch)][1]) == len(stmts)
            if ord(ch) not in segs:
                ctx.bad("short", ctor, n["l"], "-%s (%s) is not handled" % (ch, nm))
            else:
                got = {x[0] for x in writes(ctx, segs[ord(ch)][1], sp.cls)}
                ctx.check(ok or v in got, "short", ctor, segs[ord(ch)][0]["l"], "-%s does not set %s" % (ch, o))
            if short is not None:
                ctx.check(ch + ":" in short, "short", ctor, n["l"], "-%s (%s) is not accepted with an argument" % (ch, nm))
    printed(ctx, sp, fld)


def enumval(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "cleanup"):
        e = e.get("e")
    if isinstance(e, dict) and e.get("k") in ("enum", "int"):
        return int(e["v"])
    return None


def conversion(ctx, f, o, t, w):
    e = w[1]
    if e is None:
        return
    cs = [lastname(m.get("q") or "") for m in walk(e) if m.get("k") == "call"]
    if t == "double":
        if any(c in INTCONV for c in cs):
            ctx.bad("convert", f, w[2]["l"], "%s is a real number but is parsed as an integer" % o)
        else:
            ctx.ok("convert", o)
    elif t == "bool":
        cmpn = [m for m in walk(e) if m.get("k") == "call" and m.get("op") in ("==", "!=")]
        if len(cmpn) == 1:
            lits = [m["v"] for m in walk(cmpn[0]) if m.get("k") == "str"]
            neg = sum(1 for m in walk(e) if m.get("k") == "un" and m.get("op") == "!") % 2
            if len(lits) == 1:
                truth = (lits[0] == "true") == (cmpn[0]["op"] == "==") and lits[0] in ("true", "false")
                ctx.check(truth != bool(neg), "convert", f, w[2]["l"], "the argument true of %s does not mean true" % o)
    elif t in ("int", "unsigned"):
        ctx.ok("convert", o)


def printed(ctx, sp, fld):
    """operator<< shows each parameter next to its own name"""
    inv = {}
    for o, (v, w) in fld.items():
        inv[v] = o
    for f in ctx.p.functions.values():
        if lastname(f["q"]) != "operator<<" or not any(sp.cls in p["t"] for p in f["ps"]) or not f.get("body"):
            continue
        ctx.functions.add(f["id"])
        seq = []

        def order(n):
            if isinstance(n, dict):
                if n.get("k") == "call" and n.get("op") == "<<":
                    for x in ([n["o"]] if n.get("o") else []) + list(n.get("a") or []):
                        order(x)
                    return
                if n.get("k") == "str":
                    seq.append(("s", n["v"], n["l"]))
                elif n.get("k") == "mem" and n.get("c") == sp.cls and n.get("n") in inv:
                    seq.append(("f", n["n"], n["l"]))
                    return
                elif n.get("k") == "call" and (n.get("q") or "").startswith(sp.cls + "::get_"):
                    seq.append(("f", fld.get(n["q"].split("::get_")[-1], (None,))[0], n["l"]))
                    return
                for key in ("s", "c", "t", "e", "b", "i", "n", "o", "a", "lhs", "r", "v", "init"):
                    v = n.get(key)
                    if isinstance(v, (dict, list)):
                        order(v)
            elif isinstance(n, list):
                for x in n:
                    order(x)
        order(f["body"])
        for (k1, a, l1), (k2, b, l2) in zip(seq, seq[1:]):
            if k1 == "s" and k2 == "f":
                m = re.match(r"#\s*(\w+)\s*=", a)
                if m and m.group(1) in fld and b in inv:
                    ctx.check(inv[b] == m.group(1), "print", f, l2, "the value of %s is shown as that of %s" % (inv[b], m.group(1)))


# ------------------------------------------------------------------ B: names agree at the calls
def exact(n, p):
    return p == n or p.endswith("_" + n)


def prefix_tail(n, p):
    """number of tokens of the longest tail of p which is a strict prefix of n"""
    tp, tn = p.split("_"), n.split("_")
    for i in range(len(tp)):
        t = tp[i:]
        if len(t) < len(tn) and tn[:len(t)] == t:
            return len(t)
    return 0


def agree(sp, n, p, kinds):
    """True, False or None"""
    if len(n) < 2:
        return None
    if exact(n, p):
        return True
    d = (sp.params.get(p) or sp.flags.get(p) or {}).get("description", "").lower()
    if n.replace("_", " ") in d:
        return None
    if any(exact(n, q) for q in kinds):
        return False
    a = prefix_tail(n, p)
    b = max([prefix_tail(n, q) for q in kinds] or [0])
    if b >= 2:
        return a == b
    return None


def resolve(ctx, f, e, specs, seen=0):
    """option calls an argument consists of: direct, through casts, or through a local initialised once"""
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "cleanup", "mat"):
        e = e.get("e")
    if not isinstance(e, dict):
        return None
    o = option_call(e, specs)
    if o:
        return o
    if e.get("k") == "ctor" and len(e.get("a") or []) == 1:
        return resolve(ctx, f, e["a"][0], specs, seen)
    if e.get("k") == "var" and e.get("vk") == "local" and seen < 3:
        init = None
        for d in nodes(f, "decl"):
            for v in d["v"]:
                if v.get("id") == e.get("id"):
                    init = v.get("init")
        for a in nodes(f, "asg"):
            if isinstance(a.get("lhs"), dict) and a["lhs"].get("k") == "var" and a["lhs"].get("id") == e.get("id"):
                return None
        if init is not None:
            return resolve(ctx, f, init, specs, seen + 1)
    return None


def app_functions(ctx):
    return [f for f in ctx.p.functions.values() if f["file"].startswith(APPDIRS) and f.get("body") and not (f.get("cls") or "").endswith("Options")]


def callee_params(ctx, n):
    g = ctx.p.functions.get(n.get("id"))
    if g is not None:
        return [p["n"] for p in g["ps"]]
    d = ctx.p.method_decl.get(n.get("id")) if hasattr(ctx.p, "method_decl") else None
    return None


_docs = {}


def documented(ctx, n, nm, want, sp):
    """options whose description is exactly the documentation of the parameter, or None"""
    g = ctx.p.functions.get(n.get("id"))
    if g is None or not g.get("cls"):
        return None
    r = ctx.p.records.get(g["cls"]) or ctx.p.records.get(re.sub(r"<.*", "", g["cls"]))
    path = (r or {}).get("file")
    if not path:
        return None
    if path not in _docs:
        try:
            with open(os.path.join(REPO, path)) as fh:
                _docs[path] = fh.read()
        except OSError:
            _docs[path] = ""
    name = lastname(g["cls"]) if g.get("ctor") else nm
    out = set()
    for m in re.finditer(r"/\*\*((?:(?!\*/).)*)\*/\s*([\w:<>&\*\s]*?)\b%s\s*\(([^)]*)\)" % re.escape(re.sub(r"<.*", "", name)), _docs[path], re.S):
        if [x.split()[-1].lstrip("*&") for x in m.group(3).split(",") if x.split()] != [p["n"] for p in g["ps"]]:
            continue
        d = re.search(r"[\\@]param\s+%s\s+([^\n]*)" % re.escape(want), m.group(1))
        if d:
            out.add(re.sub(r"\W+$", "", d.group(1).strip()).lower())
    if len(out) != 1:
        return None
    t = out.pop()
    q = [o for o, x in sp.params.items() if re.sub(r"\W+$", "", x["description"]).lower() == t]
    return q or None


def call_names(ctx, specs):
    for f in app_functions(ctx):
        recv = {}
        groups = set()
        for sp in specs.values():
            for x in sp.names:
                g, _, tail = x.partition("_")
                if tail and sum(1 for y in sp.names if y.startswith(g + "_")) > 1 and any(y != x and exact(tail, y) for y in sp.names):
                    groups.add(g)
        for n in nodes(f):
            k = n.get("k")
            if k not in ("call", "ctor"):
                continue
            q = n.get("q") or n.get("c") or ""
            if not q.startswith("hnco::") or q.startswith("hnco::app::") or option_call(n, specs):
                continue
            nm = lastname(q)
            ps = callee_params(ctx, n)
            for i, a in enumerate(n.get("a") or []):
                o = resolve(ctx, f, a, specs)
                if o is None:
                    lam = lambda_option(ctx, f, a, specs)
                    if lam is not None and ps and i < len(ps):
                        generator_name(ctx, f, n, ps[i], *lam[:2])
                    continue
                sp, p, how = o
                ctx.count("option_uses")
                if k == "call" and nm.startswith("set_") and len(n["a"]) == 1:
                    want = nm[4:]
                elif ps and i < len(ps) and ps[i]:
                    want = ps[i]
                    if q.startswith("hnco::map::"):
                        want = {"rows": "output_size", "cols": "input_size"}.get(want, want)
                    dq = documented(ctx, n, nm, want, sp)
                    if dq is not None:
                        ctx.check(p in dq, "plumbing", f, n["l"], "%s of %s is documented as the %s but receives option %s" % (want, lastname(q), dq[0], p))
                        continue
                else:
                    continue
                kinds = sp.flags if how == "with" and p in sp.flags else sp.params
                if how == "with" and p in sp.params:
                    # presence of a parameter used as a value
                    continue
                r = agree(sp, want, p, list(kinds))
                if r is False:
                    ctx.bad("plumbing", f, n["l"], "%s of %s receives option %s" % (want, lastname(q.rsplit("::", 1)[0] if nm.startswith("set_") else q), p))
                    continue
                if r is True:
                    ctx.ok("plumbing", "%s <- %s" % (q, p))
                sib = [x for x in kinds if exact(want, x)]
                amb = len(sib) > 1
                rk = None
                if k == "call" and isinstance(n.get("o"), dict) and n["o"].get("k") == "var":
                    rk = n["o"].get("id")
                recv.setdefault((rk, id(sp)), []).append((want, p, amb, n["l"], q))
        for (rk, _), us in recv.items():
            if rk is None:
                continue
            for j, (want, p, amb, l, q) in enumerate(us):
                if not amb:
                    continue
                g = p.split("_")[0] if p != want else ""
                others = set()
                for k2, u in enumerate(us):
                    if k2 == j:
                        continue
                    t = u[1].split("_")
                    others.add(t[0] if u[1] != u[0] else "")
                others &= groups
                if others and g and g not in others:
                    ctx.bad("plumbing", f, l, "%s is set from %s whereas the other parameters of the same object come from the options %s_*" % (want, p, "_*, ".join(sorted(others))))
                elif others:
                    ctx.ok("group", "%s <- %s" % (q, p))


def lambda_option(ctx, f, e, specs):
    """the single option a lambda argument returns"""
    while isinstance(e, dict) and (e.get("k") in ("cast", "paren", "cleanup", "mat") or e.get("k") == "ctor" and len(e.get("a") or []) == 1):
        e = e["a"][0] if e.get("k") == "ctor" else e.get("e")
    if not isinstance(e, dict) or e.get("k") != "lam":
        return None
    rets = [m for m in walk(e) if m.get("k") == "ret"]
    if len(rets) != 1:
        return None
    return option_call(rets[0].get("e") or {}, specs)


def generator_name(ctx, f, n, want, sp, p):
    tw, tp = set(want.split("_")), p.split("_")
    sib = [q for q in sp.params if q != p and q.split("_")[-1] == tp[-1] and q.split("_")[0] in tw]
    if tp[0] in tw:
        ctx.ok("plumbing", "%s <- %s" % (want, p))
    elif sib:
        ctx.bad("plumbing", f, n["l"], "%s is given by %s instead of %s" % (want, p, sib[0]))


def missing_setters(ctx, specs):
    """every parameter of a component built by the programs which has an option of the same name is set from it"""
    for f in app_functions(ctx):
        sps = {id(o[0]): o[0] for m, o in option_calls(f["body"], specs)}
        if not sps:
            continue
        called, passed = {}, {}
        for n in nodes(f, "call"):
            o = n.get("o")
            if isinstance(o, dict) and o.get("k") == "var":
                called.setdefault(o.get("id"), set()).add(lastname(n.get("q") or ""))
            g = ctx.p.functions.get(n.get("id"))
            for a in n.get("a") or []:
                for m in walk(a):
                    if m.get("k") == "var" and m.get("id") is not None and not (n.get("q") or "").startswith("std::"):
                        passed.setdefault(m["id"], []).append(g)
        for d in nodes(f, "decl"):
            for v in d["v"]:
                t = (v.get("t") or "").replace("*", "").replace("const ", "").strip()
                if t not in ctx.p.records or not t.startswith("hnco::") or t.startswith("hnco::app::"):
                    continue
                if "*" in (v.get("t") or "") and not any(m.get("k") == "new" for m in walk(v.get("init") or {})) or v.get("ref"):
                    continue
                have = set(called.get(v["id"], ()))
                unknown = False
                for g in passed.get(v["id"], ()):
                    if g is None:
                        continue
                    if not g["file"].startswith(APPDIRS):
                        continue
                    have |= {lastname(m.get("q") or "") for m in nodes(g, "call")}
                for b in ctx.p.bases(t):
                    for m in (ctx.p.records.get(b) or {"methods": []})["methods"]:
                        if not m["n"].startswith("set_") or m["access"] != "public" or len(m["pt"]) != 1:
                            continue
                        for sp in sps.values():
                            os_ = [o for o in sp.names if exact(m["n"][4:], o)]
                            if os_ and "set_" + m["n"][4:] not in have:
                                ctx.bad("missing", f, d["l"], "%s of %s is not set from the option %s" % (m["n"][4:], lastname(t), os_[0]), key="missing|%s|%s|%s" % (f["q"], t, m["n"]))
                            elif os_:
                                ctx.ok("missing", "%s of %s" % (m["n"][4:], t))


def unused(ctx, specs):
    used = set()
    for f in app_functions(ctx):
        for m, (sp, o, how) in option_calls(f["body"], specs):
            used.add((sp.cls, o))
        for n in nodes(f, "call"):
            # templates over the options class are seen through their instantiations
            pass
    for sp in specs.values():
        for o in sp.names:
            ctx.check((sp.cls, o) in used, "unused", (sp.path, sp.cls + "::" + o), 0, "option %s is accepted but has no effect" % o)


def described_case(ctx, specs):
    """an option described in terms of one value of a selector is used for that value only"""
    for f in app_functions(ctx):
        for sw in nodes(f, "switch"):
            sel = resolve(ctx, f, sw["c"], specs)
            if sel is None:
                continue
            sp, s, _ = sel
            g = s.split("_")[0]
            cs = [c for c in cases(sw) if c[0] is not None]
            for x in sp.params.get(s, {}).get("values") or []:
                d = x["description"].lower()
                if len(d.split()) < 2 or not re.fullmatch(r"-?\d+", str(x["value"])):
                    continue
                for o, od in sp.params.items():
                    if o == s or not o.startswith(g + "_") or not od["description"].lower().rstrip(".").endswith(d):
                        continue
                    for v, n, stmts in cs:
                        uses = any(c[1] == o for st in stmts for m, c in option_calls(st, specs))
                        want = v == int(x["value"])
                        if uses != want and any(c[0] == int(x["value"]) for c in cs):
                            ctx.bad("selector", f, n["l"], "%s (%s) is %s for %s = %d" % (o, od["description"], "used" if uses else "not used", s, v))
                        else:
                            ctx.ok("selector", "%s %s %d" % (o, s, v))


def group_switch(ctx, specs):
    """a switch on pn_neighborhood uses the pn_* options and the one on neighborhood does not"""
    for f in app_functions(ctx):
        for sw in nodes(f, "switch"):
            sel = resolve(ctx, f, sw["c"], specs)
            if sel is None:
                continue
            sp, s, _ = sel
            for v, n, stmts in cases(sw):
                if v is None:
                    continue
                for st in stmts:
                    for m, (sp2, p, how) in option_calls(st, specs):
                        if sp2 is not sp:
                            continue
                        for big in sp.params:
                            # sibling selectors: big = group_small
                            g, _, small = big.partition("_")
                            if small not in sp.params or s not in (big, small):
                                continue
                            tail = p[len(g) + 1:] if p.startswith(g + "_") else p
                            if s == big and not p.startswith(g + "_") and any(x.startswith(g + "_") and exact(tail.split("_", 1)[-1] if "_" in tail else tail, x) for x in sp.names):
                                ctx.bad("group", f, m["l"], "the %s is configured with %s instead of an option %s_*" % (s, p, g))
                            elif s == small and p.startswith(g + "_"):
                                ctx.bad("group", f, m["l"], "the %s is configured with %s" % (s, p))
                            else:
                                ctx.ok("group", "%s uses %s" % (s, p))


def guards(ctx, specs):
    """a value guarded by the presence of an option is the value of that option"""
    for f in app_functions(ctx):
        env = named_conditions(f)

        def go(n, conds):
            if isinstance(n, list):
                for x in n:
                    go(x, conds)
                return
            if not isinstance(n, dict):
                return
            o = option_call(n, specs) if n.get("k") == "call" else None
            if o and o[2] == "get" and o[1] in o[0].params and "default" not in o[0].params[o[1]]:
                names = [c for c in conds]
                if any(o[1] == c[0] and c[1] for c in names):
                    ctx.ok("guard", "%s" % o[1])
                elif any(o[1] == c[0] and not c[1] for c in names):
                    ctx.bad("guard", f, n["l"], "%s is read where it was not given" % o[1])
                elif names and names[-1][2] == "param":
                    ctx.bad("guard", f, n["l"], "%s is read on condition that %s was given" % (o[1], names[-1][0]))
            if n.get("k") == "if":
                c = n.get("c")
                go(c, conds)
                pos, neg = literals(c, specs, env)
                go(n.get("t"), conds + pos)
                if n.get("e") is not None:
                    go(n.get("e"), conds + neg)
                return
            if n.get("k") == "cond":
                c = n.get("c")
                pos, neg = literals(c, specs, env)
                go(n.get("t"), conds + pos)
                go(n.get("e"), conds + neg)
                return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    go(v, conds)
        go(f["body"], [])


def named_conditions(f):
    """locals of f which are initialised once and never assigned: variable -> initialiser"""
    init, n = {}, {}
    for d in walk(f["body"]):
        if d.get("k") == "decl":
            for v in d.get("v") or []:
                if isinstance(v, dict) and v.get("init") is not None:
                    init[v.get("id")] = v["init"]
        if d.get("k") in ("assign", "bin") and str(d.get("op", "")).endswith("=") and d.get("op") not in ("==", "!=", "<=", ">="):
            l = d.get("lhs")
            if isinstance(l, dict) and l.get("k") == "var":
                n[l.get("id")] = 1
    return {k: v for k, v in init.items() if k not in n}


def literals(c, specs, env=None, depth=0):
    """(conditions known in the then branch, in the else branch): (option, polarity, kind)"""
    while isinstance(c, dict) and c.get("k") in ("cast", "paren", "cleanup"):
        c = c.get("e")
    if not isinstance(c, dict):
        return [], []
    if c.get("k") == "var" and env and depth < 5 and c.get("id") in env:
        return literals(env[c.get("id")], specs, env, depth + 1)
    o = option_call(c, specs)
    if o and o[2] == "with":
        k = "param" if o[1] in o[0].params else "flag"
        return [(o[1], True, k)], [(o[1], False, k)]
    if c.get("k") == "un" and c.get("op") == "!":
        a, b = literals(c.get("e"), specs, env, depth)
        return b, a
    if c.get("k") == "bin" and c.get("op") == "&&":
        a, _ = literals(c.get("lhs"), specs, env, depth)
        b, _ = literals(c.get("r"), specs, env, depth)
        return a + b, []
    if c.get("k") == "bin" and c.get("op") == "||":
        _, a = literals(c.get("lhs"), specs, env, depth)
        _, b = literals(c.get("r"), specs, env, depth)
        return [], a + b
    return [], []


# options which act through a call without an argument of their own
FLAGCALLS = {"rls_strict": ("RandomLocalSearch", "set_compare", "std::greater<"),
             "mmas_strict": ("Mmas", "set_compare", "std::greater<"),
             "rw_log_value": ("RandomWalk", "set_log_value", None)}


def flag_calls(ctx, specs):
    for f in app_functions(ctx):
        env = named_conditions(f)

        def go(n, conds):
            if isinstance(n, list):
                for x in n:
                    go(x, conds)
                return
            if not isinstance(n, dict):
                return
            if n.get("k") == "call":
                nm = lastname(n.get("q") or "")
                for o, (cls, m, arg) in FLAGCALLS.items():
                    if nm != m:
                        continue
                    t = objtype(n)
                    if t is None or lastname(t) != cls:
                        continue
                    ok = any(c[0] == o and c[1] for c in conds)
                    strict = arg is None or any(arg in str(x.get("c") or x.get("t") or "") for x in walk(n))
                    if (arg is None or strict) and not ok and not any(c[0] == o for c in conds) and (
                            names_option(f, o, specs) or any(p.get("t") == "bool" for p in f["ps"])):
                        ctx.skip("flag", f, "%s::%s is called under a condition on %s which is not followed" % (cls, m, o))
                    elif arg is None or strict:
                        ctx.check(ok, "flag", f, n["l"], "%s::%s is called although %s may be off" % (cls, m, o))
                    seen.add((o, ok and strict))
            if n.get("k") == "if":
                pos, neg = literals(n.get("c"), specs, env)
                go(n.get("t"), conds + pos)
                if n.get("e") is not None:
                    go(n.get("e"), conds + neg)
                return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    go(v, conds)
        seen = set()
        go(f["body"], [])
        done = set()
        for m in nodes(f, "if"):
            for x in literals(m.get("c"), specs, env)[0]:
                c = x[0]
                if c not in FLAGCALLS or c in done:
                    continue
                done.add(c)
                if any(s[0] == c and s[1] for s in seen):
                    continue
                if any(k.get("k") == "call" and not FLAGCALLS[c][1] == lastname(k.get("q") or "") and in_app(ctx, k) for k in walk(m.get("t"))):
                    ctx.skip("flag", f, "%s acts through a function which is not followed" % c)
                else:
                    ctx.bad("flag", f, f["line"], "%s has no effect: %s" % (c, "%s::%s is not called for it" % FLAGCALLS[c][:2]))


def names_option(f, o, specs):
    return any(c[1] == o for _, c in option_calls(f["body"], specs))


def in_app(ctx, n):
    g = ctx.p.functions.get(n.get("id"))
    return g is not None and g["file"].startswith(APPDIRS) and not (g.get("cls") or "").endswith("Options")


def objtype(n):
    o = n.get("o")
    if not isinstance(o, dict):
        return None
    t = o.get("t") or ""
    return t.replace("*", "").replace("const ", "").strip()


# ------------------------------------------------------------------ C: selectors
CLASSES = {
    "Complete search": "CompleteSearch", "Random search": "RandomSearch", "Random walk": "RandomWalk",
    "Human, so you can try by yourself": "Human", "Random local search": "RandomLocalSearch",
    "Steepest ascent hill climbing": "SteepestAscentHillClimbing", "First ascent hill climbing": "FirstAscentHillClimbing",
    "Simulated annealing": "SimulatedAnnealing", "(1+1) evolutionary algorithm (EA)": "OnePlusOneEa",
    "Self-adjusting (1+1) evolutionary algorithm (EA)": "SelfAdjustingOnePlusOneEa",
    "(mu+lambda) evolutionary algorithm (EA)": "MuPlusLambdaEa", "(mu,lambda) evolutionary algorithm (EA)": "MuCommaLambdaEa",
    "Two-rate (1+lambda) evolutionary algorithm (EA)": "TwoRateOnePlusLambdaEa",
    "Information-theoretic evolutionary algorithm (EA)": "InformationTheoreticEa", "Genetic algorithm (GA)": "GeneticAlgorithm",
    "(1+(lambda,lambda)) genetic algorithm (GA)": "OnePlusLambdaCommaLambdaGa",
    "Population-based incremental learning (PBIL)": "Pbil", "PBIL with negative and positive selection": "NpsPbil",
    "Univariate marginal distribution algorithm (UMDA)": "Umda", "UMDA with implicit correlation (one probability vector)": "RamUmda",
    "UMDA with implicit correlation (two probability vectors)": "RamUmda2", "Compact genetic algorithm (cGA)": "CompactGa",
    "Max-min ant system (MMAS)": "Mmas",
    "Herding evolutionary algorithm (HEA) with full moment": "Hea<hnco::algorithm::walsh_moment::FullMomentHerding>",
    "Herding evolutionary algorithm (HEA) with triangular moment": "Hea<hnco::algorithm::walsh_moment::TriangularMomentHerding>",
    "Boltzmann machine PBIL with full moment": "BmPbil<hnco::algorithm::walsh_moment::FullMomentGibbsSampler>",
    "Boltzmann machine PBIL with triangular moment": "BmPbil<hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler>",
    "Mutual information maximizing input clustering (MIMIC)": "Mimic", "Hierarchical Bayesian optimization algorithm (hBOA)": "Hboa",
    "Linkage tree genetic algorithm (LTGA)": "Ltga", "GOMEA": "Gomea", "Parameter-less population pyramid (P3)": "ParameterLessPopulationPyramid",
    "OneMax": "OneMax", "Linear function": "LinearFunction",
    "BinVal (linear function with weights in geometric progression 1, 2, 4...)": "LinearFunction", "Leading ones": "LeadingOnes",
    "Ridge": "Ridge", "Needle": "Needle", "Jump": "Jump", "Deceptive jump (aka Jump_k)": "DeceptiveJump", "Four peaks": "FourPeaks",
    "Six peaks": "SixPeaks", "Quadratic unconstrained binary optimization (Qubo)": "Qubo", "NK landscape": "NkLandscape",
    "Max-SAT": "MaxSat", "Max not-all-equal 3SAT": "MaxNae3Sat", "Low autocorrelation binary sequence": "Labs",
    "Low autocorrelation binary sequence merit factor": "Labs", "Equal products": "EqualProducts", "Partition": "Partition",
    "Summation cancellation": "SummationCancellation", "Summation cancellation with sinus": "SinusSummationCancellation",
    "Trap": "Trap", "Hierarchical if and only if (Hiff)": "Hiff", "Plateau": "Plateau", "Long path": "LongPath",
    "Factorization": "Factorization", "Walsh expansion": "WalshExpansion", "Walsh expansion of degree 1": "WalshExpansion1",
    "Walsh expansion of degree 2": "WalshExpansion2", "Nearest neighbor Ising model in one dimension": "NearestNeighborIsingModel1",
    "Nearest neighbor Ising model in two dimensions": "NearestNeighborIsingModel2", "Sudoku": "Sudoku",
    "Travelling salesman problem": "Tsp", "Plugin": "FunctionPlugin", "Python function (embedded interpreter)": "PythonFunction",
    "Single bit flip": "SingleBitFlip", "Standard bit mutation": "StandardBitMutation", "Hamming ball": "HammingBall",
    "Hamming sphere": "HammingSphere", "Single bit flip iterator": "SingleBitFlipIterator", "Hamming sphere iterator": "HammingSphereIterator",
    "Translation": "Translation", "Permutation": "Permutation", "Linear": "LinearMap", "Affine": "AffineMap",
    "Affine (transvection sequence)": "TsAffineMap", "NSGA-II": "Nsga2",
}
CATEGORICAL = {"Integer": "IntegerCategoricalRepresentation", "Linear": "LinearCategoricalRepresentation"}


def parsed_spec(d, mo):
    """features of the constructed type required by the description of a parsed multivariate function"""
    m = re.search(r"\(rep: (.*)\)\s*$", d)
    if not m:
        return None
    steps = [s.strip() for s in m.group(1).split("|")]
    req, forb = [], []
    rep = steps[0]
    r = {"bv -> double": "DyadicFloatRepresentation<double>", "bv -> long": "DyadicIntegerRepresentation<long>", "bv -> int": "DyadicIntegerRepresentation<int>",
         "bv -> complex": "ComplexRepresentation<", "bv -> long, double, or set": "MixedRepresentation"}.get(rep)
    if r:
        req.append(r)
    pr = next((s for s in steps if s.startswith("parser:")), "")
    arg = re.match(r"parser: \[(\w+)\] -> (\[?)", pr)
    if arg:
        req.append({"double": "FunctionParser>", "long": "FunctionParser_li>", "complex": "FunctionParser_cd>"}.get(arg.group(1), ""))
        req.append("multiobjective::function::" if arg.group(2) else "hnco::function::ParsedMultivariateFunction")
    j = " | ".join(steps)
    conv = ("OppositeAbsoluteValue<" if "-std::fabs" in j else "OppositeSquaredMagnitude<" if "-std::norm" in j else
            "::AbsoluteValue<" if "std::fabs" in j else "::SquaredMagnitude<" if "std::norm" in j else "ScalarToDouble<")
    req.append(conv)
    return [x for x in req if x]


def built(ctx, f, stmts, depth=2):
    """class names of the objects constructed in the statements, helpers of the applications included"""
    out = set()
    for s in stmts:
        for n in walk(s):
            k = n.get("k")
            if k == "new":
                out.add(n.get("t") or "")
            elif k == "ctor":
                out.add(n.get("c") or "")
            elif k == "decl":
                for v in n["v"]:
                    out.add(v.get("t") or "")
            elif k == "call":
                if "adapter" in (n.get("q") or ""):
                    out.add((n.get("t") or "").replace("*", "").strip())
                g = ctx.p.functions.get(n.get("id"))
                if g is not None and depth and g.get("body") and g["file"].startswith(APPDIRS) and g is not f and "Options" not in (g.get("cls") or ""):
                    out |= built(ctx, g, [g["body"]], depth - 1)
    return {x for x in out if "hnco::" in x}


def short(t):
    """class name without namespaces (template arguments kept)"""
    i = t.find("<")
    head = t if i < 0 else t[:i]
    return head.split("::")[-1] + (t[i:] if i >= 0 else "")


def selectors(ctx, specs):
    for f in app_functions(ctx):
        for sw in nodes(f, "switch"):
            sel = resolve(ctx, f, sw["c"], specs)
            if sel is None:
                continue
            sp, s, _ = sel
            vals = {}
            for x in sp.params.get(s, {}).get("values") or []:
                if re.fullmatch(r"-?\d+", str(x["value"])):
                    vals[int(x["value"])] = x["description"]
            cs = cases(sw)
            got = {v for v, _, _ in cs if v is not None}
            missing = [v for v in vals if v not in got and vals[v] != "None"]
            default = next((x for x in cs if x[0] is None), None)
            n_ok = 0
            if default is not None:
                stop = any(m.get("k") == "throw" or m.get("k") == "call" and (m.get("q") in NORETURN or never_returns(ctx, m)) for t in default[2] for m in walk(t))
                ctx.check(stop, "selector", f, default[1]["l"], "an unknown value of %s is accepted silently" % s)
            elif vals:
                ctx.skip("selector", f, "switch on %s has no default case" % s)
            if missing and default is not None and all_built(cs, ctx, f):
                ctx.bad("selector", f, sw["l"], "documented value %d of %s (%s) is refused" % (missing[0], s, vals[missing[0]]))
            for v, n, stmts in cs:
                if v is None or v not in vals:
                    continue
                d = vals[v]
                b = built(ctx, f, stmts)
                if not b:
                    continue
                want = CATEGORICAL.get(d) if s.startswith("rep_") else CLASSES.get(d)
                if want is None:
                    req = parsed_spec(d, "mo" in sp.path)
                    if req is None:
                        continue
                    ts = [t for t in b if "Adapter<" in t or "MultivariateFunctionAdapter" in t]
                    t = max(ts, key=len) if ts else ""
                    bad = [r for r in req if r not in t]
                    ctx.check(not bad, "selector", f, n["l"], "%s = %d (%s) builds %s, which lacks %s" % (s, v, d, short(t)[:160], ", ".join(bad)))
                    if "linear combination" in d:
                        ctx.check(any(short(x) == "MultiobjectiveFunctionAdapter" for x in b), "selector", f, n["l"], "%s = %d (%s) does not build a linear combination of the objectives" % (s, v, d))
                    continue
                names = {short(x) for x in b}
                if want in names:
                    ctx.ok("selector", "%s = %d builds %s" % (s, v, want))
                else:
                    # only conclusive if the documented class is built for another value, or another documented class is built here
                    known = names & (set(CLASSES.values()) | set(CATEGORICAL.values()))
                    if known:
                        ctx.bad("selector", f, n["l"], "%s = %d (%s) builds %s" % (s, v, d, ", ".join(sorted(known))))
                    else:
                        ctx.skip("selector", f, "%s = %d builds %s" % (s, v, sorted(names)[:3]))
            merit_factor(ctx, f, s, vals, cs)


def merit_factor(ctx, f, s, vals, cs):
    for v, n, stmts in cs:
        d = vals.get(v)
        if d and d.startswith("Low autocorrelation"):
            c = [m for t in stmts for m in walk(t) if m.get("k") == "call" and lastname(m.get("q") or "") == "set_merit_factor_flag"]
            on = any(litval(m["a"][0]) for m in c)
            ctx.check(on == ("merit factor" in d), "selector", f, n["l"], "%s = %d (%s) %s the merit factor" % (s, v, d, "computes" if on else "does not compute"))


def never_returns(ctx, m):
    g = ctx.p.functions.get(m.get("id"))
    if g is None or not g.get("body"):
        return False
    return any(x.get("k") == "throw" or x.get("k") == "call" and x.get("q") in NORETURN for x in walk(g["body"])) and not any(x.get("k") == "ret" for x in walk(g["body"]))


def all_built(cs, ctx, f):
    return sum(1 for v, n, st in cs if v is not None and built(ctx, f, st)) >= 2


# ------------------------------------------------------------------ D: decorators follow their options
def chain_of(st, t):
    """classes from the outermost decorator inwards, with constructor fields"""
    out = []
    seen = 0
    while t is not None and t.op == "new" and seen < 20:
        seen += 1
        obj = st.mem.get(("D", t))
        cls = t.a[0]
        nxt = None
        args = {}
        if obj is not None and obj.op == "obj":
            for k, v in obj.a[1]:
                args[k] = v
        out.append((cls, args, t))
        for k, v in args.items():
            if isinstance(v, T) and (v.op == "new" and "function" in v.a[0] or v is t):
                nxt = v
        if nxt is None:
            for k, v in args.items():
                if k == "_function":
                    nxt = v if isinstance(v, T) and v.op == "new" else None
        t = nxt
    return out


def opt_terms(ctx, sp, fac, optfield):
    """option -> (value term, presence term) as seen from a factory holding the options by reference or value"""
    out = {}
    for o, (v, w) in getters(ctx, sp).items():
        base = proj(this0(), (".", optfield["n"]))
        if optfield["t"].rstrip().endswith(("&", "*")) or optfield.get("ref"):
            base = initv(("D", base))
        out[o] = (proj(base, (".", v)), proj(base, (".", w)) if w else None)
    return out


CTRL = [("ProgressTracker", None), ("OnBudgetFunction", "budget"), ("Cache", "cache"), ("StopOnMaximum", "stop_on_maximum"), ("StopOnTarget", "target")]
MODS = [("PriorNoise", "prior_noise"), ("ParsedModifier", "parsed_modifier"), ("OppositeFunction", "minimize"), ("AdditiveGaussianNoise", "additive_gaussian_noise")]


def decorators(ctx, specs):
    sp = specs["hnco::app::HncoOptions"]
    cls = "hnco::app::DecoratedFunctionFactory"
    r = ctx.p.records.get(cls)
    if r is None:
        return
    of = next((x for x in r["fields"] if "HncoOptions" in x["t"]), None)
    if of is None:
        ctx.skip("decorator", cls, "no options member")
        return
    ot = opt_terms(ctx, sp, cls, of)

    def want(facts, o, stop_max=False):
        """True/False/None: does the option ask for its decorator on this path"""
        if o is None:
            return True
        v, w = ot[o]
        if o == "budget":
            return decide(facts, ">", v, C(0))
        if o == "target":
            m = decide(facts, "!=", ot["stop_on_maximum"][0], C(0))
            t = decide(facts, "!=", w, C(0))
            return False if m is True or t is False else (True if m is False and t is True else None)
        return decide(facts, "!=", v, C(0))

    f = ctx.p.find_method(cls, "make_function_controller", nparams=1)
    if f is not None:
        try:
            outs = outcomes(ctx, f, cls)
        except TooComplex as e:
            outs = []
            ctx.skip("decorator", f, str(e))
        for o in outs:
            if o.kind != "R":
                continue
            t = retval(o)
            ch = chain_of(o.st, t)
            if not ch:
                ctx.skip("decorator", f, "unrecognised result %s" % show(t)[:80])
                continue
            names = [lastname(c) for c, _, _ in ch]
            for c, opt in CTRL:
                w = want(o.st.facts, opt)
                n = names.count(c)
                if w is None:
                    continue
                ctx.check(n == (1 if w else 0), "decorator", f, f["line"], "%s is %s when %s" % (c, "missing" if n == 0 else "present %d time(s)" % n, cond_text(opt, w)))
            if "ProgressTracker" in names:
                i = names.index("ProgressTracker")
                ctx.check(all(names.index(c) < i for c in ("StopOnTarget", "StopOnMaximum", "OnBudgetFunction", "Cache") if c in names), "decorator", f, f["line"],
                          "the tracker does not see the evaluation which stops the run: order of the controllers is %s" % " > ".join(names))
            if "Cache" in names and "OnBudgetFunction" in names:
                w = want(o.st.facts, "cache_budget")
                if w is not None:
                    outer = names.index("OnBudgetFunction") < names.index("Cache")
                    ctx.check(outer == w, "decorator", f, f["line"], "with cache_budget %s the budget counts %s" % ("on" if w else "off", "cache look-ups" if outer else "only evaluations"))
            for c, args, _ in ch:
                n = lastname(c)
                opt = {"OnBudgetFunction": "budget", "StopOnTarget": "target"}.get(n)
                if opt:
                    vals = list(args.values())
                    ctx.check(any(show(ot[opt][0]) == show(v) for v in vals if isinstance(v, T)), "decorator", f, f["line"], "%s does not receive %s" % (n, opt))
                if n == "ProgressTracker":
                    for opt in ("log_improvement", "record_evaluation_time"):
                        p = args.get("_" + opt)
                        if p is not None:
                            ctx.check(show(p) == show(ot[opt][0]), "decorator", f, f["line"], "%s of the tracker is not set from the option" % opt)
    f = ctx.p.find_method(cls, "make_function_modifier", nparams=0)
    if f is not None:
        def on_call(eng, e, st, q, g, ol, args):
            nm = lastname(q)
            if g is not None and g.get("cls") != cls and g["file"].startswith("lib/hnco/app") and "Options" not in q or nm == "make_function":
                return [(st, typed(mk("call", q, *[a for a in args if isinstance(a, T)]), g["ret"] if g else None))]
            return None
        try:
            outs = outcomes(ctx, f, cls, on_call=on_call)
        except TooComplex as e:
            outs = []
            ctx.skip("decorator", f, str(e))
        for o in outs:
            if o.kind != "R":
                continue
            ch = chain_of(o.st, retval(o))
            names = [lastname(c) for c, _, _ in ch]
            fa = o.st.facts
            w = decide(fa, ">", ot["map"][0], C(0))
            if w is not None:
                n = names.count("FunctionMapComposition")
                ctx.check(n == (1 if w else 0), "decorator", f, f["line"], "the map is %s when map %s 0" % ("ignored" if w else "applied", ">" if w else "<="))
                if n:
                    ctx.check(names[-1] == "FunctionMapComposition", "decorator", f, f["line"], "the map is not applied next to the concrete function: %s" % " > ".join(names))
            for c, opt in MODS:
                w = want(fa, opt)
                if w is not None:
                    n = names.count(c)
                    ctx.check(n == (1 if w else 0), "decorator", f, f["line"], "%s is %s when %s" % (c, "missing" if n == 0 else "present %d time(s)" % n, cond_text(opt, w)))
            if "PriorNoise" in names and "FunctionMapComposition" in names:
                pn = ch[names.index("PriorNoise")][1]
                mp = [v for v in ch[names.index("FunctionMapComposition")][1].values() if isinstance(v, T) and v.op == "call" and "map" in str(v.a[0]).split("::")[-1].lower()]
                nh = [v for v in pn.values() if isinstance(v, T) and v.op == "call" and "eighborhood" in show(v)]
                if nh and mp:
                    ctx.check("get_input_size" in show(nh[0]) or any(mentions(nh[0], m) for m in mp), "decorator", f, f["line"],
                              "the neighborhood of prior noise has the bit vector size of the function below the map")
            for c, args, _ in ch:
                opt = {"ParsedModifier": "expression", "AdditiveGaussianNoise": "noise_stddev"}.get(lastname(c))
                if opt and opt == "noise_stddev":
                    ctx.check(any(mentions(v, ot[opt][0]) for v in args.values() if isinstance(v, T)), "decorator", f, f["line"], "%s does not receive %s" % (lastname(c), opt))


def cond_text(opt, w):
    if opt is None:
        return "building the controllers"
    if opt == "budget":
        return "budget > 0" if w else "budget <= 0"
    return "%s is %s" % (opt, "requested" if w else "not requested")


def strip_casts(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "cleanup", "mat"):
        e = e.get("e")
    return e


def maps(ctx, specs):
    """dimensions of generated maps, and the order of a composition"""
    MAPS = "hnco::map::"
    for f in app_functions(ctx):
        for n in nodes(f):
            a = n.get("a") or []
            if n.get("k") == "call" and (n.get("q") or "").startswith(MAPS) and n["q"].endswith("::random") and a:
                tall = len(a) == 3 and callee_params(ctx, n) and callee_params(ctx, n)[1:2] == ["cols"]
                for i, x in enumerate(a[:2] if tall else a[:1]):
                    o = resolve(ctx, f, x, specs)
                    y = strip_casts(x)
                    nm = o[1] if o else y.get("n") if isinstance(y, dict) and y.get("k") == "var" else None
                    if nm is None:
                        continue
                    inp, out = nm.endswith("input_size"), nm.endswith(("output_size", "bv_size"))
                    if tall and i == 0 and inp or tall and i == 1 and out:
                        ctx.bad("plumbing", f, n.get("l", f["line"]), "%s is given as the %s of a map" % (nm, ("output size", "input size")[i]))
                    elif inp or out:
                        ctx.ok("plumbing", "%s of a map from %s" % (("output size", "input size")[i], nm))
            if n.get("k") in ("ctor", "new"):
                c = n if n.get("k") == "ctor" else None
                if c is None or lastname(str(c.get("c") or "")) != "MapComposition" or len(a) != 2:
                    continue
                ts = [str((strip_casts(x) or {}).get("t") or "") for x in a]
                p, t = ["Permutation" in z for z in ts], ["Translation" in z for z in ts]
                if p == [True, False] and t == [False, True]:
                    ctx.ok("selector", "composition of permutation and translation")
                elif p == [False, True] and t == [True, False]:
                    ctx.bad("selector", f, n.get("l", f["line"]), "the composition of permutation and translation applies the permutation first")


@rule("P24", "Every option of the four option specifications (hnco.json, hnco-mo.json, ffgen.json, mapgen.json) is followed through the parsing constructor "
      "(table entry, switch case, members written, conversion), its getters, its default, its printed name, and every place where the programs pass it to a component: "
      "setter/parameter names against option names, option groups, presence guards, selector values against the class built, and the decorator chain of the function factory on every path.",
      minimum={"options": 150, "obligations.parse": 60, "obligations.plumbing": 80, "obligations.selector": 60},
      assumptions=["the JSON specifications of the options are the documentation of the programs",
                   "getopt_long behaves as documented"])
def p24(ctx):
    specs = {}
    for s in SPECS:
        if os.path.exists(os.path.join(REPO, s)):
            sp = Spec(s)
            specs[sp.cls] = sp
    ctx.need(len(specs) >= 3, "option specifications")
    for sp in specs.values():
        parse_class(ctx, sp)
    call_names(ctx, specs)
    group_switch(ctx, specs)
    guards(ctx, specs)
    flag_calls(ctx, specs)
    missing_setters(ctx, specs)
    unused(ctx, specs)
    described_case(ctx, specs)
    selectors(ctx, specs)
    decorators(ctx, specs)
    maps(ctx, specs)
