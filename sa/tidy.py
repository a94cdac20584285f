"""Facts about bound variables, used to normalise graphs before they are compared.

The position inside a comprehension lies between 0 and its length; a vector that a loop
only overwrites keeps its length.
"""
from term import *
import term as tm
from eqv import freebv, BIND


def keeps(x, v, n):
    """the vector x is as long as the vector v (of length n)"""
    if x is v:
        return True
    if x.op == "store":
        return keeps(x.args[0], v, n)
    if x.op == "mapvec":
        return x.args[0] is n
    if x.op == "ite":
        return keeps(x.args[1], v, n) and keeps(x.args[2], v, n)
    if x.op == "loop" and x.args[3].op == "bv" and x.args[3].args[0] == x.args[0]:
        i, k = x.args[3].args[1], x.args[1]
        if not keeps(x.args[4 + i], v, n):
            return False
        b = x.args[3]
        return keeps(x.args[4 + k + i], b, mk("len", b)) or keeps(x.args[4 + k + i], b, n)
    return False


def path_of(t):
    """the variable and the fields read from it, or None"""
    p = []
    while t.op == "field":
        p.append(t.args[1:])
        t = t.args[0]
    return t, tuple(reversed(p))


def read(t, p):
    for q in p:
        t = field(t, *q)
    return t


def same_field(x, v, p):
    """reading p from x gives what reading it from v gives"""
    if x is v:
        return True
    if x.op == "ite":
        return same_field(x.args[1], v, p) and same_field(x.args[2], v, p)
    if x.op == "setfield" and not isinstance(x.args[2], T):
        q = p[0]
        if x.args[2] != q[2]:
            return same_field(x.args[0], v, p)
        return len(p) > 1 and same_field(x.args[3], field(v, *q), p[1:])
    if x.op in ("variant", "tuple"):
        y = read(x, p)
        return y is read(v, p)
    if x.op == "loop" and x.args[3].op == "bv" and x.args[3].args[0] == x.args[0]:
        i, k, b = x.args[3].args[1], x.args[1], x.args[3]
        return same_field(x.args[4 + i], v, p) and (same_field(x.args[4 + k + i], b, p) or same_field(x.args[4 + k + i], v, p))
    return False


def reads(ts, lev, n):
    """the fields read from the variables of loop `lev`, outermost first"""
    out, seen, st = set(), set(), [t for t in ts]
    while st:
        x = st.pop()
        if x in seen or x.bl < lev:
            continue
        seen.add(x)
        if x.op == "field":
            b, p = path_of(x)
            if b.op == "bv" and b.args[0] == lev:
                out.add((b, p))
                continue
        st.extend(z for z in x.args if isinstance(z, T))
    return out


_memo = {}


def has(t, y):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x is y:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(z for z in x.args if isinstance(z, T))
    return False


def tidy(t):
    r = _memo.get(t)
    if r is not None:
        return r
    na, ch = [], False
    for a in t.args:
        if isinstance(a, T):
            b = tidy(a)
            ch = ch or b is not a
            na.append(b)
        else:
            na.append(a)
    r = tm.rebuild(t.op, na) if ch else t
    for _ in range(4):
        z = step(r)
        if z is r:
            break
        r = z
    _memo[t] = r
    return r


def ab(p):
    """the absolute values that are terms of p"""
    ts = polyd(p)
    return [m.args[0] for m in ts if m.op == "mono" and len(m.args) == 2 and m.args[1] == 1 and m.args[0].op == "app" and m.args[0].args[0] == "abs"]


def step(r):
    if r.op == "mapvec":
        n, body, lev = r.args
        k = mk("bv", lev, 0)
        z = subst(body, {lt_i(k, ZERO): FALSE, lt_i(k, n): TRUE})
        if z is not body:
            return mapvec_(n, tidy(z), lev)
    if r.op in ("loop", "sum"):
        n = r.args[1]
        m = {}
        for i in range(n):
            v = mk("bv", r.args[0], i)
            ln = mk("len", v)
            if keeps(r.args[4 + n + i], v, ln):
                l0 = vlen(r.args[4 + i])
                if l0 is not ln and any(has(x, ln) for x in (r.args[2], r.args[3]) + r.args[4 + n:]):
                    m[ln] = l0
        for b, p in reads((r.args[2], r.args[3]) + r.args[4 + n:], r.args[0], n):
            for j in range(len(p), 0, -1):
                q = p[:j]
                if same_field(r.args[4 + n + b.args[1]], b, q) or same_field(r.args[4 + n + b.args[1]], r.args[4 + b.args[1]], q):
                    m[read(b, q)] = read(r.args[4 + b.args[1]], q)
                    break
        if m:
            mm = {}
            na = list(r.args)
            for j in [2, 3] + list(range(4 + n, 4 + 2 * n)):
                na[j] = tidy(subst(na[j], m, mm))
            return tm.rebuild(r.op, na)
    if r.op in ("lt", "lti"):
        for y in ab(r.args[0]):
            x = y.args[1]
            f = ltz if r.op == "lt" else ltz_i
            return ite(f(x), tidy(subst(r, {y: neg(x)})), tidy(subst(r, {y: x})))
    if r.op == "field":
        b, p = path_of(r)
        if b.op == "loop" and b.args[3].op == "bv" and b.args[3].args[0] == b.args[0] and same_field(b, b.args[4 + b.args[3].args[1]], p):
            return read(b.args[4 + b.args[3].args[1]], p)
    if r.op == "len" and r.args[0].op == "loop" and r.args[0].args[3].op == "bv" and r.args[0].args[3].args[0] == r.args[0].args[0]:
        x = r.args[0]
        i, n = x.args[3].args[1], x.args[1]
        v = x.args[3]
        l0 = vlen(x.args[4 + i])
        if keeps(x.args[4 + n + i], v, mk("len", v)) or keeps(x.args[4 + n + i], v, l0):
            return l0
    return r


def mapvec_(n, body, lev):
    return tm.rebuild("mapvec", [n, body, lev])


_rl, _need = {}, {}


def need(t):
    """the highest level of a binder in t that mentions a variable bound outside it"""
    r = _need.get(t)
    if r is None:
        r = 0
        if t.bl:
            for a in t.args:
                if isinstance(a, T):
                    r = max(r, need(a))
            if t.op in BIND and freebv(t):
                r = max(r, t.args[0] if t.op in ("loop", "sum") else t.args[2])
        _need[t] = r
    return r


def relevel(t):
    """the same loop has the same variables wherever it stands: the least level that names no open binder inside"""
    r = _rl.get(t)
    if r is not None:
        return r
    if not t.bl or not t.args or t.op == "bv":
        return t
    na = [relevel(a) if isinstance(a, T) else a for a in t.args]
    r = tm.rebuild(t.op, na) if any(x is not y for x, y in zip(na, t.args)) else t
    if r.op in BIND:
        ls = r.op in ("loop", "sum")
        lev = r.args[0] if ls else r.args[2]
        n = r.args[1] if ls else None
        body = list(range(2, 4)) + list(range(4 + n, 4 + 2 * n)) if ls else [1]
        if ls:
            k = n
        else:
            k = max([b.args[1] for b in bvs(r.args[1], lev)] + [-1]) + 1
        new = 1 + max([need(r.args[i]) for i in body] + [x for i in body for x in freebv(r.args[i]) if x != lev and x < lev] + [0])
        if new < lev and new not in {x for i in body for x in freebv(r.args[i])}:
            m = {mk("bv", lev, i): mk("bv", new, i) for i in range(k)}
            mm = {}
            na = list(r.args)
            for i in body:
                na[i] = subst(na[i], m, mm)
            na[0 if ls else 2] = new
            r = tm.rebuild(r.op, na)
    _rl[t] = r
    return r


def bvs(t, lev):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen or not x.bl:
            continue
        seen.add(x.id)
        if x.op == "bv" and x.args[0] == lev:
            out.append(x)
        st.extend(a for a in x.args if isinstance(a, T))
    return out
