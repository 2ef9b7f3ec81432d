"""Abstract models of the standard-library operations used by the code base."""
from .terms import T, mk, C, TRUE, FALSE, isc, add, sub, neg, typed
from .absint import (read, write, put, getroot, size_of, proj, assume, cmpterm, deref, addr, PURE_STD, BEGIN, END,
                     Out, State)


def val(st, a):
    return read(st, a[1]) if isinstance(a, tuple) else a


def short(q):
    i = q.rfind("::")
    return q[i + 2:] if i >= 0 else q


def split_last(q):
    """class part and method name, aware of templates"""
    d = 0
    for i in range(len(q) - 1, 0, -1):
        c = q[i]
        if c == ">":
            d += 1
        elif c == "<" and not q.endswith("operator<"):
            d -= 1
        elif c == ":" and q[i - 1] == ":" and d <= 0:
            return q[:i - 1], q[i + 1:]
    return "", q


def mget(m, k):
    while m.op == "mput":
        if m.a[1] is k:
            return m.a[2]
        break
    return mk("mget", m, k)


def mhas(m, k):
    x = m
    while x.op == "mput":
        if x.a[1] is k:
            return TRUE
        break
    if x.op == "obj" or x.op == "mempty":
        return FALSE
    t = mk("has", x, k)
    t.ty = "bool"
    return t


def is_map(c):
    return c.startswith(("std::unordered_map<", "std::map<", "std::set<", "std::unordered_set<"))


SEQ = ("std::vector<", "std::array<", "std::basic_string<", "std::deque<", "std::initializer_list<", "std::list<",
       "std::_Bit_reference", "std::bitset")


def model(eng, e, st, q, g, ol, args):
    op = e.get("op")
    if q is None:
        return None
    if not (q.startswith("std::") or q.startswith("__gnu_cxx::") or g is None and "::" not in q or q in PURE_STD):
        return None
    cls, name = split_last(q)
    if op:
        name = "operator" + op
    elif ol is not None and name == "operator=":
        op = "="          # member-wise assignment generated by the compiler

    # ---- comparison / arithmetic operators of iterators and the like
    if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+") and (q.startswith("std::") or q.startswith("__gnu_cxx::")):
        vs = ([read(st, ol)] if ol is not None else []) + [val(st, a) for a in args]
        if len(vs) == 2:
            a, b = vs
            if op in ("==", "!=") and {a.op, b.op} == {"mfind", "mend"}:
                f = a if a.op == "mfind" else b
                h = mhas(f.a[0], f.a[1])
                if op == "==":
                    h = cmpterm("==", h, C(0)) if h.op != "c" else C(0 if h.a[0] else 1)
                return [(st, h)]
            if a.op in ("it", "rit") or b.op in ("it", "rit") or op in ("==", "!="):
                if op in ("==", "!=") and not (a.op in ("it", "rit") and a.op == b.op):
                    if a is b:
                        return [(st, TRUE if op == "==" else FALSE)]
                    x, y = (a, b) if a.n < b.n else (b, a)
                    t = mk("eqv", x, y)
                    t.ty = "bool"
                    return [(st, t if op == "==" else cmpterm("==", t, C(0)))]
                return [(st, eng.arith(op, a, b, e.get("t")))]
            if "complex" in e.get("t", ""):
                return [(st, typed(mk("cx" + op, a, b), e.get("t")))]
            if op == "+" and "basic_string" in e.get("t", ""):
                return [(st, mk("cat", a, b))]
    if op in ("++", "--") and ol is not None:
        v = read(st, ol)
        if v.op in ("it", "rit"):
            post = len(args) == 1
            nv = eng.itadd(v, C(1 if op == "++" else -1))
            return [(write(st, ol, nv), v if post else nv)]
    if op == "*" and ol is not None and not args:
        v = read(st, ol)
        return [(st, ("loc", deref_any(st, v)))]
    if op == "->" and ol is not None:
        v = read(st, ol)
        if v.op in ("it", "rit"):
            return [(st, addr(deref(v)))]
        if v.op == "mfind":
            return [(st, mk("addr", (("D", v), ())))] if False else [(map_deref(eng, st, v), v)]
        return [(st, v)]
    if op in ("+=", "-=") and ol is not None:
        v = read(st, ol)
        if v.op in ("it", "rit"):
            d = val(st, args[0])
            nv = eng.itadd(v, d if op == "+=" else neg(d))
            return [(write(st, ol, nv), ("loc", ol))]
    if op == "=" and ol is not None and (q.startswith("std::") or q.startswith("__gnu_cxx::__normal_iterator")):
        if "_Bit_reference" in cls:
            pass
        if len(args) == 1:
            v = val(st, args[0])
            if cls.startswith("std::basic_ostream"):
                return None
            if v.op == "list" and cls.startswith("std::pair<") and len(v.a) == 2:
                v = mk("pair", *v.a)
            return [(eng.store(st, ol, v, e), ("loc", ol))]
    if op in ("<<", ">>") and ("stream" in q or q.startswith("std::operator")):
        return stream(eng, e, st, q, ol, args, op)
    if op == "bool" or name.startswith("operator bool"):
        v = read(st, ol)
        if cls.startswith(("std::unique_ptr", "std::shared_ptr", "std::function")):
            return [(st, cmpterm("!=", v, C(0)) if v.op not in ("new", "addr", "lam") else TRUE)]
        if "_Bit_reference" in cls:
            return [(st, typed(v, "bool"))]
        return [(st, typed(mk("call", q, v), "bool"))]

    # ---- smart pointers
    if cls.startswith(("std::unique_ptr<", "std::__uniq_ptr", "std::shared_ptr<", "std::__shared_ptr")):
        if name in ("get",):
            return [(st, read(st, ol))]
        if name == "release":
            v = read(st, ol)
            return [(write(st, ol, C(0)), v)]
        if name == "reset":
            return [(eng.store(st, ol, val(st, args[0]) if args else C(0), e), None)]

    # ---- sequence containers
    if ol is not None and cls.startswith(SEQ):
        t = read(st, ol)
        if name in ("size", "length"):
            return [(st, size_of(t))]
        if name == "empty":
            return [(st, cmpterm("==", size_of(t), C(0)))]
        if name in ("operator[]", "at"):
            i = val(st, args[0])
            s2 = eng.event(st, "index", e, cont=ol, idx=i, contv=t, cls=cls) if getattr(eng, "index_events", False) else st
            return [(s2, ("loc", (ol[0], ol[1] + (("[", i),))))]
        if name == "front":
            return [(st, ("loc", (ol[0], ol[1] + (("[", C(0)),))))]
        if name == "back":
            return [(st, ("loc", (ol[0], ol[1] + (("[", sub(size_of(t), C(1))),))))]
        if name in BEGIN:
            return [(st, mk("it", ol, C(0)))]
        if name in END:
            return [(st, mk("it", ol, size_of(t)))]
        if name in ("rbegin", "crbegin", "rend", "crend"):
            return [(st, mk("rit", ol, size_of(t) if name.endswith("begin") else C(0)))]
        if name == "data":
            return [(st, mk("it", ol, C(0)))]
        if name in ("push_back", "emplace_back") and len(args) <= 1:
            v = val(st, args[0]) if args else mk("vec", C(0), None)
            nv = typed(mk("push", t, v), t.ty)
            return [(eng.store(st, ol, nv, e), ("loc", (ol[0], ol[1] + (("[", size_of(t)),))))]
        if name == "pop_back":
            nv = t.a[0] if t.op == "push" else mk("pop", t)
            return [(eng.store(st, ol, nv, e), None)]
        if name == "clear":
            return [(eng.store(st, ol, mk("vec", C(0), None), e), None)]
        if name == "resize":
            n = val(st, args[0])
            nv = t if size_of(t) is n else typed(mk("resize", t, n, val(st, args[1]) if len(args) > 1 else None), t.ty)
            if t.op == "vec" and isc(t.a[0]) and t.a[0].a[0] == 0:
                nv = mk("vec", n, val(st, args[1]) if len(args) > 1 else (t.a[1] if t.a[1] is not None else None))
            return [(eng.store(st, ol, nv, e), None)]
        if name == "assign":
            if len(args) == 2:
                a, b = val(st, args[0]), val(st, args[1])
                if a.op == "it" and b.op == "it":
                    src = read(st, a.a[0])
                    nv = src if isc(a.a[1]) and a.a[1].a[0] == 0 and b.a[1] is size_of(src) else mk("slice", src, a.a[1], b.a[1])
                else:
                    nv = mk("vec", a, b)
                return [(eng.store(st, ol, nv, e), None)]
        if name == "reserve" or name == "shrink_to_fit":
            return [(st, None)]
        if name == "swap" and len(args) == 1 and isinstance(args[0], tuple):
            v = val(st, args[0])
            s = eng.store(st, ol, v, e)
            return [(eng.store(s, args[0][1], t, e), None)]
        if name == "insert" and len(args) == 3:
            p, a, b = [val(st, x) for x in args]
            if p.op == "it" and a.op == "it" and p.a[1] is size_of(t):
                src = read(st, a.a[0])
                return [(eng.store(st, ol, mk("concat", t, mk("slice", src, a.a[1], b.a[1] if b.op == "it" else b)), e), None)]
        if name in ("erase", "insert", "pop_front", "push_front", "emplace"):
            vs = tuple(val(st, a) for a in args)
            nv = typed(mk("after", q, t, *vs), t.ty)
            s = eng.store(st, ol, nv, e)
            s = eng.event(s, "call", e, q=q, callee=None, obj=ol, objv=t, args=vs, locs=args, res=mk("it", ol, mk("erased", nv)))
            return [(s, mk("it", ol, mk("erased", nv)))]
        if name == "c_str":
            return [(st, t)]
    # ---- maps
    if ol is not None and is_map(cls):
        m = read(st, ol)
        if name == "find":
            return [(st, mk("mfind", m, val(st, args[0]), ol))]
        if name in END:
            return [(st, mk("mend", m))]
        if name in ("count", "contains"):
            return [(st, mhas(m, val(st, args[0])))]
        if name == "at":
            return [(st, ("loc", map_loc(ol, m, val(st, args[0]))))] if False else [(st, mget(m, val(st, args[0])))]
        if name == "operator[]":
            k = val(st, args[0])
            return [(st, ("loc", (ol[0], ol[1] + (("[", k),))))]
        if name in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            vs = [val(st, a) for a in args]
            k = v = None
            if len(vs) == 2 and name != "insert":
                k, v = vs
            elif len(vs) == 1:
                p = vs[0]
                if p.op == "list" and len(p.a) == 2:
                    k, v = p.a
                else:
                    k, v = proj(p, (".", "first")), proj(p, (".", "second"))
                if cls.startswith(("std::set", "std::unordered_set")):
                    k, v = p, TRUE
            if k is not None:
                out = []
                h = mhas(m, k)
                a = assume(st, h, True)
                b = assume(st, h, False)
                pr = lambda mm, ins: mk("pair", mk("mfind", mm, k, ol), ins)
                if a is not None:
                    if name == "insert_or_assign":
                        nm = mk("mput", m, k, v)
                        out.append((eng.store(a, ol, nm, e), pr(nm, FALSE)))
                    else:
                        out.append((a, pr(m, FALSE)))
                if b is not None:
                    nm = mk("mput", m, k, v)
                    out.append((eng.store(b, ol, nm, e), pr(nm, TRUE)))
                return out
        if name == "size":
            return [(st, size_of(m))]
        if name == "clear":
            return [(eng.store(st, ol, mk("mempty"), e), None)]
    # ---- free functions
    if ol is None:
        r = free(eng, e, st, q, name, args)
        if r is not None:
            return r
    # ---- generic std: pure if const / PURE_STD
    if q in PURE_STD:
        return [(st, typed(mk("call", q, *[val(st, a) for a in args]), e.get("t")))]
    return None


def deref_any(st, v):
    return deref(v)


def map_loc(ol, m, k):
    return (ol[0], ol[1] + (("[", k),))


def map_deref(eng, st, v):
    """materialise the pair designated by a find() result"""
    root = ("D", v)
    if root in st.mem:
        return st
    s = st.copy()
    s.mem[root] = mk("pair", v.a[1], mget(v.a[0], v.a[1]))
    return s


def stream(eng, e, st, q, ol, args, op):
    if ol is not None:
        base, rest = ol, args
    else:
        if not args or not isinstance(args[0], tuple):
            return None
        base, rest = args[0][1], args[1:]
    os = read(st, base)
    vs = tuple(val(st, a) for a in rest)
    s = st
    if op == "<<":
        s = write(s, base, mk("<<", os, *vs))
    else:
        s = write(s, base, mk(">>", os))
        for i, a in enumerate(rest):
            if isinstance(a, tuple):
                old = read(s, a[1])
                s = write(s, a[1], typed(mk("read", os, i), old.ty))
    s = eng.event(s, "stream", e, op=op, obj=base, args=vs, locs=rest, q=q, chain=read(s, base))
    return [(s, ("loc", base))]


def itrange(st, a, b):
    a, b = val(st, a), val(st, b)
    if a.op == "it" and b.op == "it" and a.a[0] == b.a[0]:
        return a.a[0], a.a[1], b.a[1]
    return None


def free(eng, e, st, q, name, args):
    if not (q.startswith("std::") or q.startswith("__gnu_cxx")):
        return None
    if name in ("move", "forward") and len(args) == 1:
        return [(st, args[0])]
    if name in ("begin", "cbegin", "end", "cend", "size") and len(args) == 1 and isinstance(args[0], tuple):
        l = args[0][1]
        if name == "size":
            return [(st, size_of(read(st, l)))]
        return [(st, mk("it", l, C(0) if name in BEGIN else size_of(read(st, l))))]
    if name in ("next", "prev") and args:
        v = val(st, args[0])
        d = val(st, args[1]) if len(args) > 1 else C(1)
        if v.op == "it":
            return [(st, eng.itadd(v, d if name == "next" else neg(d)))]
    if name == "distance" and len(args) == 2:
        a, b = val(st, args[0]), val(st, args[1])
        if a.op == "it" and b.op == "it" and a.a[0] == b.a[0]:
            return [(st, sub(b.a[1], a.a[1]))]
    if name == "make_pair" and len(args) == 2:
        return [(st, mk("pair", val(st, args[0]), val(st, args[1])))]
    if name == "get" and len(args) == 1:
        # index is a template argument: not visible; leave opaque
        return None
    if name in ("swap", "exchange") and len(args) == 2 and isinstance(args[0], tuple):
        l1 = args[0][1]
        v1, v2 = val(st, args[0]), val(st, args[1])
        s = eng.store(st, l1, v2, e)
        if name == "swap":
            s = eng.store(s, args[1][1], v1, e)
            return [(s, None)]
        return [(s, v1)]
    if name == "iter_swap" and len(args) == 2:
        a, b = val(st, args[0]), val(st, args[1])
        if a.op == "it" and b.op == "it":
            l1, l2 = deref(a), deref(b)
            v1, v2 = read(st, l1), read(st, l2)
            return [(eng.store(eng.store(st, l1, v2, e), l2, v1, e), None)]
    if name in ("min", "max") and len(args) >= 2:
        a, b = val(st, args[0]), val(st, args[1])
        if len(args) == 2:
            t = cmpterm("<=" if name == "min" else ">=", a, b)
            x, y = assume(st, t, True), assume(st, t, False)
            out = []
            if x is not None:
                out.append((x, args[0] if isinstance(args[0], tuple) else a))
            if y is not None:
                out.append((y, args[1] if isinstance(args[1], tuple) else b))
            return out
    if name == "clamp" and len(args) == 3:
        v, lo, hi = [val(st, a) for a in args[:3]]
        out = []
        c1 = cmpterm("<", v, lo)
        a = assume(st, c1, True)
        if a is not None:
            out.append((a, lo))
        b = assume(st, c1, False)
        if b is not None:
            c2 = cmpterm(">", v, hi)
            x, y = assume(b, c2, True), assume(b, c2, False)
            if x is not None:
                out.append((x, hi))
            if y is not None:
                out.append((y, v))
        return out
    # ---- algorithms over one range
    if len(args) >= 2:
        r = itrange(st, args[0], args[1])
        if r is not None:
            loc, lo, hi = r
            arr = read(st, loc)
            whole = isc(lo) and lo.a[0] == 0 and hi is size_of(arr)
            el = lambda i: (loc[0], loc[1] + (("[", i),))
            if name == "for_each" and len(args) == 3:
                fv = val(st, args[2])
                return loopcall(eng, e, st, loc, lo, hi, lambda s, i: [x for x, _ in eng.apply(fv, s, [("loc", el(i))], e)])
            if name == "generate" and len(args) == 3:
                fv = val(st, args[2])

                def gen(s, i):
                    out = []
                    for x, v in eng.apply(fv, s, [], e):
                        out.append(eng.store(x, el(i), val(x, v) if isinstance(v, tuple) else v, e))
                    return out
                return loopcall(eng, e, st, loc, lo, hi, gen)
            if name == "fill" and len(args) == 3:
                v = val(st, args[2])
                if whole:
                    return [(eng.store(st, loc, mk("vec", size_of(arr), v), e), None)]
                return [(eng.store(st, loc, mk("fillrange", arr, lo, hi, v), e), None)]
            if name == "iota" and len(args) == 3:
                return [(eng.store(st, loc, mk("iota", arr, lo, hi, val(st, args[2])), e), None)]
            if name in ("copy",) and len(args) == 3:
                d = val(st, args[2])
                if d.op == "it":
                    dl, d0 = d.a
                    darr = read(st, dl)
                    if whole and isc(d0) and d0.a[0] == 0:
                        nv = mk("overwrite", darr, arr)
                        f = st.facts
                        from .absint import decide
                        if size_of(darr) is size_of(arr) or decide(f, "==", size_of(darr), size_of(arr)) is True:
                            nv = arr
                        return [(eng.store(st, dl, nv, e), None)]

                    def cp(s, i):
                        return [eng.store(s, (dl[0], dl[1] + (("[", add(d0, sub(i, lo))),)), read(s, el(i)), e)]
                    return loopcall(eng, e, st, loc, lo, hi, cp)
            if name == "transform" and len(args) >= 4:
                two = len(args) == 5
                fv = val(st, args[-1])
                o = val(st, args[-2])
                b = val(st, args[2]) if two else None
                if o.op == "it" and (not two or b.op == "it"):
                    def tr(s, i):
                        out = []
                        d = sub(i, lo)
                        a = [("loc", el(i))]
                        if two:
                            a.append(("loc", (b.a[0][0], b.a[0][1] + (("[", add(b.a[1], d)),))))
                        dst = (o.a[0][0], o.a[0][1] + (("[", add(o.a[1], d)),))
                        for x, v in eng.apply(fv, s, a, e):
                            out.append(eng.store(x, dst, val(x, v) if isinstance(v, tuple) else v, e))
                        return out
                    return loopcall(eng, e, st, loc, lo, hi, tr)
            if name in ("sort", "stable_sort", "shuffle", "random_shuffle", "reverse", "partial_sort", "nth_element", "rotate"):
                vs = tuple(val(st, a) for a in args[2:])
                nv = typed(mk("permuted", arr, name, lo, hi, vs), arr.ty)
                s = st
                for i, a in enumerate(args):
                    pm = e.get("pm") or []
                    if isinstance(a, tuple) and i >= 2 and i < len(pm) and pm[i] in (1, 2):
                        s = write(s, a[1], mk("after", q, *((arr,) + vs)))
                s = eng.store(s, loc, nv, e)
                s = eng.event(s, "algo", e, name=name, cont=loc, lo=lo, hi=hi, args=vs, whole=whole)
                return [(s, None)]
            if name in ("max_element", "min_element", "find", "find_if", "find_if_not", "lower_bound", "upper_bound", "adjacent_find"):
                vs = tuple(val(st, a) for a in args[2:])
                note_pred(eng, e, st, vs, loc, arr)
                i = typed(mk("pos", name, arr, lo, hi, vs), "unsigned long")
                s = eng.event(st, "algo", e, name=name, cont=loc, lo=lo, hi=hi, args=vs, whole=whole)
                return [(s, mk("it", loc, i))]
            if name == "partial_sum" and len(args) == 3 and val(st, args[2]).op == "it":
                from .terms import subterms
                dl, d0 = val(st, args[2]).a
                lv = max([x.a[0] for x in subterms(arr) | subterms(read(st, dl)) if x.op == "bvar"] + [0]) + 1
                b1, b2 = typed(mk("bvar", lv), "iv"), typed(mk("bvar", lv + 1), "iv")
                sm = mk("sum", lo, add(sub(b2, d0), add(lo, C(1))), b1, typed(proj(arr, ("[", b1)), elemtype(e, arr)))
                sm.ty = elemtype(e, arr)
                return [(eng.store(st, dl, mk("tab", read(st, dl), d0, add(d0, sub(hi, lo)), b2, sm), e), mk("it", dl, add(d0, sub(hi, lo))))]
            if name == "accumulate" and len(args) == 3:
                bv = typed(mk("bvar", 1), "iv")
                from .terms import subterms
                lv = max([x.a[0] for x in subterms(arr) if x.op == "bvar"] + [0]) + 1
                bv = typed(mk("bvar", lv), "iv")
                sm = mk("sum", lo, hi, bv, typed(proj(arr, ("[", bv)), elemtype(e, arr)))
                sm.ty = e.get("t")
                return [(st, add(val(st, args[2]), sm))]
            if name in ("accumulate", "count", "count_if", "all_of", "any_of", "none_of", "inner_product", "is_sorted", "equal"):
                vs = tuple(val(st, a) if not (val(st, a).op == "it") else mk("rng", read(st, val(st, a).a[0]), val(st, a).a[1]) for a in args[2:])
                s = eng.event(st, "algo", e, name=name, cont=loc, lo=lo, hi=hi, args=vs, whole=whole)
                lam = [v for v in vs if v.op == "lam"]
                note_pred(eng, e, st, vs, loc, arr)
                if lam:
                    # the callable runs once per element: analyse it as a loop body
                    def body(s2, i):
                        node = eng.lams[lam[0].a[0]][0]
                        np = len(node["ps"])
                        a = [("loc", el(i))]
                        if np == 2:
                            a = [mk("acc", id(e)), ("loc", el(i))]
                        return [x for x, _ in eng.apply(lam[0], s2, a, e)]
                    outs = loopcall(eng, e, s, loc, lo, hi, body)
                    return [(x, typed(mk("algo", name, arr, lo, hi, vs), e.get("t"))) for x, _ in outs]
                return [(s, typed(mk("algo", name, arr, lo, hi, vs), e.get("t")))]
    if name == "generate_n" and len(args) == 3:
        o, n, fv = [val(st, a) for a in args]
        if o.op == "it":
            loc = o.a[0]

            def gen(s, i):
                out = []
                for x, v in eng.apply(fv, s, [], e):
                    out.append(eng.store(x, (loc[0], loc[1] + (("[", i),)), val(x, v) if isinstance(v, tuple) else v, e))
                return out
            return loopcall(eng, e, st, loc, o.a[1], add(o.a[1], n), gen)
    return None


def note_pred(eng, e, st, vs, loc, arr):
    """what the predicate of an algorithm says of an element"""
    if eng.preds is None:
        return
    for v in vs:
        if v.op == "lam" and v not in eng.preds and v.a[0] in eng.lams and len(eng.lams[v.a[0]][0]["ps"]) == 1:
            elt = typed(mk("elt", v), proj(arr, ("[", mk("bvar", 99))).ty)
            cs = []
            for x, r in eng.apply(v, st, [elt], e):
                r = val(x, r) if isinstance(r, tuple) else r
                if r is None:
                    return
                cs.append(([(d, i) for d, i in x.facts.items() if st.facts.get(d) != i], r))
            eng.preds[v] = (elt, cs)


def loopcall(eng, e, st, loc, lo, hi, body1):
    """analyse body1(state, index) -> states as a loop over [lo, hi)"""
    idxroot = {}

    def bind(s, i):
        fr = eng.cur()[1]
        s = s.copy()
        s.mem[("L", fr, "ix%d" % eng.tmp(fr, e, "ix"))] = i
        return s

    def body(ss):
        fr = eng.cur()[1]
        out = []
        for s in ss:
            i = s.mem[("L", fr, "ix%d" % eng.tmp(fr, e, "ix"))]
            out += [Out("N", x) for x in body1(s, i)]
        return out
    outs = eng.rangeloop(e, st, loc, bind, body, lo=lo, hi=hi)
    return [(o.st, None) for o in outs if o.kind == "N"]


def elemtype(e, arr):
    t = arr.ty or ""
    for w in ("std::vector<unsigned char",):
        if t.startswith(w):
            return "unsigned char"
    if t.startswith("std::vector<double"):
        return "double"
    if t.startswith("std::vector<int"):
        return "int"
    if t.startswith("std::vector<bool"):
        return "bool"
    return None
