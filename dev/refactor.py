#!/usr/bin/env python3
"""dev/refactor.py NAME [DIR]: apply one behaviour-preserving rewriting everywhere in a scratch copy of the library and run every rule on it.
Development helper only: not used by any registered check."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mask(s):
    """comments, strings and preprocessor lines blanked"""
    out = list(s)
    def blank(a, b):
        for i in range(a, b):
            if out[i] != "\n": out[i] = " "
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|R"\((?:.|\n)*?\)"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|^[ \t]*#(?:[^\n\\]|\\\n|\\.)*', s, re.S | re.M):
        a, b = m.span()
        if s[a] in "\"'R" and not m.group().startswith("//"):
            a, b = a + 1, b - 1
        blank(a, b)
    return "".join(out)

def match(s, i, o="(", c=")"):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    return -1

def stmt_end(m, i):
    """end of the statement starting at i (index after it)"""
    while m[i].isspace(): i += 1
    if m[i] == "{":
        return match(m, i, "{", "}") + 1
    k = re.match(r"(if|for|while|switch)\b\s*(constexpr)?\s*\(", m[i:])
    if k:
        p = match(m, i + k.end() - 1)
        e = stmt_end(m, p + 1)
        if k.group(1) == "if":
            r = re.match(r"\s*else\b", m[e:])
            if r: return stmt_end(m, e + r.end())
        return e
    if re.match(r"do\b", m[i:]):
        e = stmt_end(m, i + 2)
        return m.index(";", e) + 1
    if re.match(r"try\b", m[i:]):
        e = stmt_end(m, i + 3)
        while True:
            r = re.match(r"\s*catch\s*\(", m[e:])
            if not r: return e
            e = stmt_end(m, match(m, e + r.end() - 1) + 1)
    d = 0
    while True:
        if m[i] in "([{": d += 1
        elif m[i] in ")]}": d -= 1
        elif m[i] == ";" and d == 0: return i + 1
        i += 1

def each(s, pat, fn):
    """apply fn(match, s, m) -> (start, end, text) or None from the last match to the first"""
    for _ in range(1):
        m = mask(s)
        for k in reversed(list(re.finditer(pat, m))):
            m = mask(s)
            try:
                r = fn(k, s, m)
            except (ValueError, IndexError):
                r = None
            if r:
                a, b, t = r
                s = s[:a] + t + s[b:]
    return s

def split3(s, m, a, b):
    out, d, j = [], 0, a
    for i in range(a, b):
        if m[i] in "([{": d += 1
        elif m[i] in ")]}": d -= 1
        elif m[i] == ";" and d == 0:
            out.append(s[j:i]); j = i + 1
    return out + [s[j:b]]

def t_while(s):
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        parts = split3(s, m, o + 1, c)
        if len(parts) != 3: return None
        e = stmt_end(m, c + 1)
        if re.search(r"\bcontinue\b", m[c:e]): return None
        if re.search(r"#pragma omp", s[max(0, k.start() - 120):k.start()]): return None
        body = s[c + 1:e]
        return k.start(), e, "{ %s; while (%s) { %s %s; } }" % (parts[0].strip(), parts[1].strip() or "true", body, parts[2].strip() or "0")
    return each(s, r"\bfor\s*\(", fn)

def t_iter(s):
    n = [0]
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        ins = s[o + 1:c]
        r = re.match(r"\s*((?:const )?auto ?&{0,2}|(?:const )?[\w:]+ ?&?)\s*(\w+)\s*:\s*([\w.\->_]+(?:\(\))?)\s*$", ins)
        if not r: return None
        e = stmt_end(m, c + 1)
        n[0] += 1
        it = "it_%d" % n[0]
        return k.start(), e, "for (auto %s = %s.begin(); %s != %s.end(); ++%s) { %s %s = *%s; %s }" % (it, r.group(3), it, r.group(3), it, r.group(1), r.group(2), it, s[c + 1:e])
    return each(s, r"\bfor\s*\(", fn)

def t_invert(s):
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        cond = s[o + 1:c]
        if ";" in cond or re.search(r"[^=!<>]=[^=]", mask(cond)): return None
        a = stmt_end(m, c + 1)
        r = re.match(r"\s*else\b", m[a:])
        if not r: return None
        b = stmt_end(m, a + r.end())
        if re.match(r"else\s*$", m[max(0, k.start() - 6):k.start()]): return None
        return k.start(), b, "if (!(%s)) { %s } else { %s }" % (cond, s[a + r.end():b], s[c + 1:a])
    return each(s, r"\bif\s*\(", fn)

def t_named(s):
    """conditions get a name"""
    n = [0]
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        cond = s[o + 1:c]
        if ";" in cond or re.search(r"[^=!<>]=[^=]", mask(cond)): return None
        pre = m[:k.start()].rstrip()
        if not pre or pre[-1] not in ";{}": return None
        e = stmt_end(m, k.start())
        n[0] += 1
        return k.start(), e, "{ const bool named_%d = bool(%s); if (named_%d) %s }" % (n[0], cond, n[0], s[c + 1:e])
    return each(s, r"\bif\s*\(", fn)

def t_plus(s):
    def fn(k, s, m):
        return k.start(), k.end(), "%s%s = %s + (%s);" % (k.group(1), k.group(2), k.group(2), s[k.start(3):k.end(3)])
    return each(s, r"([;{}]\s*)([A-Za-z_][\w.\->]*(?:\[\w+\])?) \+= ([^;{}]*);", fn)

def t_incr(s):
    def fn(k, s, m):
        return k.start(), k.end(), "%s%s += 1%s" % (k.group(1), k.group(2), k.group(3))
    return each(s, r"([;{}]\s*)([A-Za-z_]\w*)\+\+(\s*[;)])", fn)

def t_flip(s):
    """a < b -> b > a in loop and if conditions"""
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        if k.group(1) == "for":
            parts = split3(s, m, o + 1, c)
            if len(parts) != 3: return None
            a = o + 1 + len(parts[0]) + 1
            b = a + len(parts[1])
        else:
            a, b = o + 1, c
        cond = s[a:b]
        r = re.match(r"^(\s*)([\w.\->_()\[\] +*]+?) (<|>|<=|>=|==|!=) ([\w.\->_()\[\] +*]+?)(\s*)$", cond)
        if not r or cond.count("(") != cond.count(")") or r.group(2).count("(") != r.group(2).count(")") or "<<" in cond: return None
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[r.group(3)]
        return a, b, "%s%s %s %s%s" % (r.group(1), r.group(4), op, r.group(2), r.group(5))
    return each(s, r"\b(for|if|while)\s*\(", fn)

def t_ret(s):
    """return e; -> auto result = e; return result;"""
    n = [0]
    def fn(k, s, m):
        e = k.group(1).strip()
        src = s[k.start(1):k.end(1)]
        if not re.search(r"[-+*<>=&|(]", mask(src)): return None
        pre = m[:k.start()].rstrip()
        if not pre or pre[-1] not in ";{}": 
            return None
        # not in lambdas on one line, not reference returns: needs the declared type, use decltype(auto)
        n[0] += 1
        return k.start(), k.end(), "decltype(auto) returned_%d = %s; return returned_%d;" % (n[0], src, n[0])
    return each(s, r"\breturn\b([^;{}]+);", fn)

def t_size(s):
    """loop bounds are hoisted: for (...; i < x.size(); i++)"""
    n = [0]
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        parts = split3(s, m, o + 1, c)
        if len(parts) != 3: return None
        r = re.match(r"^\s*(\w+) (<|!=) (.+)$", parts[1].strip())
        if not r: return None
        e = stmt_end(m, c + 1)
        body = m[c:e]
        b = r.group(3)
        base = re.match(r"[\w.\->]+", b)
        if "size" in b and re.search(r"push_back|erase|resize|clear|swap", body): return None
        for w in re.findall(r"\w+", b):
            if re.search(r"\b%s\s*(=[^=]|\+=|-=|\+\+|--|\*=)" % w, body) or re.search(r"(\+\+|--)%s\b" % w, body): return None
        if any(w in parts[0] and re.search(r"\b%s\b" % w, b) for w in re.findall(r"(\w+) =", parts[0])): return None
        if re.search(r"#pragma omp", s[max(0, k.start() - 120):k.start()]): return None
        n[0] += 1
        return k.start(), e, "{ const auto bound_%d = %s; for (%s; %s %s decltype(%s)(bound_%d); %s) %s }" % (n[0], b, parts[0], r.group(1), r.group(2), r.group(1), n[0], parts[2], s[c + 1:e])
    return each(s, r"\bfor\s*\(", fn)

def t_block(s):
    """every single-statement branch or body gets braces and a declaration which does nothing"""
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        e = stmt_end(m, c + 1)
        if re.match(r"\s*;", m[c + 1:]): return None
        return c + 1, e, " { int unused_here = 0; (void) unused_here; %s }" % s[c + 1:e]
    return each(s, r"\b(?:for|if|while)\s*\(", fn)

def t_neg(s):
    """a < b -> !(a >= b) in if conditions"""
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        a, b = o + 1, c
        cond = s[a:b]
        r = re.match(r"^(\s*)([\w.\->_()\[\] +*]+?) (<|>|<=|>=|==|!=) ([\w.\->_()\[\] +*]+?)(\s*)$", cond)
        if not r or cond.count("(") != cond.count(")") or r.group(2).count("(") != r.group(2).count(")") or "<<" in cond: return None
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[r.group(3)]
        return a, b, "!(%s %s %s)" % (r.group(2), op, r.group(4))
    return each(s, r"\b(if|while)\s*\(", fn)

def t_nest(s):
    """if (a && b) X -> if (a) if (b) X"""
    def fn(k, s, m):
        o = k.end() - 1
        c = match(m, o)
        cond = m[o + 1:c]
        e = stmt_end(m, c + 1)
        if re.match(r"\s*else\b", m[e:]) or "||" in cond or ";" in cond: return None
        d, cut = 0, None
        for i in range(o + 1, c):
            if m[i] in "([{": d += 1
            elif m[i] in ")]}": d -= 1
            elif m[i:i + 2] == "&&" and d == 0: cut = i
        if cut is None: return None
        if re.search(r"\belse\s*$", m[:k.start()]): return None
        return k.start(), e, "if (%s) { if (%s) { %s } }" % (s[o + 1:cut], s[cut + 2:c], s[c + 1:e])
    return each(s, r"\bif\s*\(", fn)

def t_down(s):
    """this-> made explicit: skipped names are left to the compiler"""
    return re.sub(r"(?<![\w.>:&*(,\[])(_[a-z]\w*)(?= (?:=|\+=|-=) )", r"this->\1", s)

def t_alias(s):
    """element references: v[i].x(...) -> auto& in loops of the form for (int i...) with bvs[i]"""
    return s

T = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}

def main(name, D="/tmp/hsa-ref"):
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", "/repo/", D + "/"], check=True)
    files = []
    for d in ("lib/hnco", "app"):
        for r, _, fs in os.walk(os.path.join(D, d)):
            files += [os.path.join(r, f) for f in fs if f.endswith((".hh", ".cc")) and "options" not in f]
    orig, changed = {}, []
    for f in files:
        s = open(f).read()
        t = s
        for n in name.split("+"):
            t = T[n](t)
        if t != s:
            orig[f] = s
            open(f, "w").write(t)
            changed.append(f)
    print(name, len(changed), "files changed")
    env = dict(os.environ, HSA_REPO=D)
    for k in range(60):
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), "P01"], env=env, capture_output=True, text=True)
        if "cannot parse" not in r.stdout: break
        bad = set()
        for l in r.stdout.splitlines():
            q = re.match(r"(%s/[^:]*):\d+:\d+: error" % D, l)
            if q: bad.add(q.group(1))
        bad &= set(orig)
        if not bad:
            print(r.stdout[:1500]); return
        for f in bad:
            print("  reverted", f[len(D):])
            open(f, "w").write(orig.pop(f))
    ids = os.environ.get('IDS', '').split() or re.findall(r'^prop\("(P\d+)', open(os.path.join(V, "meta/list.py")).read(), re.M)
    from concurrent.futures import ThreadPoolExecutor
    def one(p):
        return p, subprocess.run([sys.executable, os.path.join(V, "check.py"), p], env=env, capture_output=True, text=True)
    with ThreadPoolExecutor(5) as ex:
        for p, r in ex.map(one, ids):
            if r.returncode:
                print("FALSE-ALARM", p, "rc", r.returncode)
                print("\n".join("    " + l[:400] for l in r.stdout.splitlines() if not l.startswith(("property", "undecided", "front end"))), r.stderr[-600:])
            u = [l for l in r.stdout.splitlines() if l.startswith("undecided")]
            st = [l for l in u if "stopped early" in l]
            print("   ", p, r.returncode, "undecided", len(u), " ".join(st))
main(*sys.argv[1:])
