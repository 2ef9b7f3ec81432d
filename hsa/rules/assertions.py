"""P17: assertions only observe."""
from ..core import rule
from ..q import *
from ..effects import Effects


class Within(Effects):
    """effects of a condition: variables of the enclosing function count as outside"""
    cur, inner = None, frozenset()

    def roots(self, x, f, seen=()):
        r = Effects.roots(self, x, f, seen)
        if x is not None and x.get("k") == "var" and f["id"] == self.cur and r == {("local",)} and x.get("id") not in self.inner:
            return {("outer", x.get("n"))}
        return r


def declared(e):
    out = set()
    for n in walk(e):
        if n.get("k") == "lam":
            out |= {p["id"] for p in n["ps"]}
        elif n.get("k") == "decl":
            out |= {v.get("id") for v in n["v"]}
        elif n.get("k") == "rfor":
            out.add(n["var"].get("id"))
    return out


@rule("P17", "effects of the condition of every assertion, transitively over all overriders",
      minimum={"obligations.assertion": 150},
      assumptions=["objects created inside the condition are invisible outside", "models of standard algorithms and containers in hsa/effects.py"])
def p17(ctx):
    eff = Within(ctx.p)
    for f in list(ctx.p.functions.values()):
        if f.get("body") is None or not f["file"].startswith(("lib/hnco/", "app/")):
            continue
        found = [n for n in walk(f["body"]) if n.get("k") == "assert"]
        if not found:
            continue
        ctx.functions.add(f["id"])
        eff.env(f)
        for n in found:
            g = dict(f, body=n["e"], inits=[])
            bad = []
            eff.cur, eff.inner = f["id"], declared(n["e"])
            got = eff.compute(g, f.get("cls"))
            eff.cur = None
            for r in got:
                root = r[0]
                if r[1].startswith("bindings/"):
                    continue      # overriders written in Python
                if root[0] in ("local", "new", "elem"):
                    continue
                if root[0] == "?":
                    ctx.skip("assertion", f, "effect of unknown target at line %s" % n.get("l"))
                    continue
                bad.append(r)
            if bad:
                r = sorted(bad, key=str)[0]
                ctx.bad("assertion", f, n.get("l") or f["line"], "the condition of the assertion has an effect: %s is changed (%s:%s, %s), so that behaviour depends on assertions being compiled in" % (
                    " ".join(map(str, r[0])), r[1], r[2], r[3]), key="assertion|%s" % f["q"])
            else:
                ctx.ok("assertion", "%s:%s" % (f["q"], n.get("l")))
