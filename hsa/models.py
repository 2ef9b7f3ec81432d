"""Call models shared by rules (contracts that P-rules verify separately)."""
from .terms import mk, typed
from .absint import read, put, getroot

BVFLIP = "hnco::bv_flip"


def flip_term(x, fl):
    """x with the positions fl flipped; flipping twice cancels"""
    if x.op == "flip" and x.a[1] is fl:
        return x.a[0]
    return typed(mk("flip", x, fl), x.ty)


def flip_model(eng, e, st, q, g, ol, args):
    if q != BVFLIP or len(args) != 2 or not isinstance(args[0], tuple) or not isinstance(args[1], tuple):
        return None
    l = args[0][1]
    x = read(st, l)
    fl = read(st, args[1][1])
    nv = flip_term(x, fl)
    s = st.copy()
    s.mem[l[0]] = put(getroot(s, l[0]), l[1], nv)
    s = eng.event(s, "call", e, q=q, callee=g, obj=None, objv=None, args=(x, fl), locs=args, res=nv, before=st)
    return [(s, mk("void"))]
