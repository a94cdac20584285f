"""Canonical boolean diagrams: one fixed atom order, with the enum and interval
theory of the atoms, so that the order of tests in the source does not matter."""
from fractions import Fraction as Fr
from term import *

_cb = {}


def nvar(adt):
    a = ADTS.get(adt)
    return len(a["v"]) if a else None


def key(a):
    if a.op == "is":
        return ("is", a.args[0])
    if a.op in ("lt", "lti") or a.op == "eq" and a.args[1].op == "num":
        import eqv
        q, c, k = eqv.linform(a.args[0])
        if q is not None:
            return ("q", q)
    return None


def decide(a, st):
    """truth of a under the group state, or None"""
    if st is None:
        return None
    if a.op == "is":
        pos, neg = st
        i = a.args[2]
        if pos is not None:
            return pos == i
        if i in neg:
            return False
        n = nvar(a.args[1])
        if n and len(neg) == n - 1:
            return True
        return None
    import eqv
    q, c, k = eqv.linform(a.args[0])
    lo, ls, hi, hs, ne = st
    if a.op == "eq":
        v = (a.args[1].args[0] - k) / c
        if v in ne:
            return False
        if lo is not None and (v < lo or ls and v == lo) or hi is not None and (v > hi or hs and v == hi):
            return False
        if lo is not None and lo == hi and not ls and not hs:
            return v == lo
        return None
    th = -k / c
    if c > 0:       # q < th
        if hi is not None and (hi < th or hi == th and (hs or th in ne)):
            return True
        if lo is not None and (lo >= th):
            return False
    else:           # q > th
        if lo is not None and (lo > th or lo == th and (ls or th in ne)):
            return True
        if hi is not None and hi <= th:
            return False
    return None


def update(a, v, st):
    if a.op == "is":
        pos, neg = st or (None, frozenset())
        return (a.args[2], frozenset()) if v else (None, neg | {a.args[2]})
    import eqv
    q, c, k = eqv.linform(a.args[0])
    lo, ls, hi, hs, ne = st or (None, False, None, False, frozenset())
    isint = eqv.isintform(q) and a.op == "lti"
    if a.op == "eq":
        x = (a.args[1].args[0] - k) / c
        return (x, False, x, False, frozenset()) if v else (lo, ls, hi, hs, ne | {x})
    th = -k / c
    if (c > 0) == v:        # upper bound
        h, s = th, v
        if isint:
            h, s = (Fr(-((-th.numerator) // th.denominator) - 1) if v else Fr(th.numerator // th.denominator)), False
        if hi is None or h < hi or h == hi and s:
            hi, hs = h, s
    else:
        l, s = th, v
        if isint:
            l, s = (Fr(th.numerator // th.denominator + 1) if v else Fr(-((-th.numerator) // th.denominator))), False
        if lo is None or l > lo or l == lo and s:
            lo, ls = l, s
    return (lo, ls, hi, hs, ne)


class Big(Exception):
    pass


def skeleton(t):
    """atoms and leaves of the decision diagram t"""
    ats, lvs = set(), set()
    st, seen = [(t, False)], set()
    while st:
        x, c = st.pop()
        if (x, c) in seen:
            continue
        seen.add((x, c))
        if x.op == "ite":
            st.append((x.args[0], True))
            st.append((x.args[1], c))
            st.append((x.args[2], c))
        elif x in (TRUE, FALSE):
            if not c:
                lvs.add(x)
        elif c or x.op in ("is", "eq", "lt", "lti"):
            ats.add(x)
        else:
            lvs.add(x)
    return ats, lvs


def inner(a):
    """an if-then-else inside atom a, outside binders"""
    st, seen = list(x for x in a.args if isinstance(x, T)), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            return x
        if x.op in ("loop", "sum", "mapvec", "lam", "someiter", "closure"):
            continue
        st.extend(y for y in x.args if isinstance(y, T))
    return None


def first_atom(t):
    """the hash-least innermost predicate of a conditional in t (outside binders)"""
    best = None
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("loop", "sum", "mapvec", "lam", "someiter", "closure"):
            continue
        if x.op == "ite":
            c = x.args[0]
            if c.op != "ite" and inner(c) is None:
                if best is None or (c.h, c.id) < (best.h, best.id):
                    best = c
        st.extend(y for y in x.args if isinstance(y, T))
    return best


def expand(t, cap=1500):
    """a decision tree whose atoms and leaves are free of conditionals"""
    n = [0]
    memo = {}

    def go(t, th):
        a = first_atom(t)
        if a is None:
            return t
        k = (t, th)
        r = memo.get(k)
        if r is not None:
            return r
        n[0] += 1
        if n[0] > cap:
            raise Big()
        g = key(a)
        d = dict(th)
        v = decide(a, d.get(g)) if g is not None else None
        if v is not None:
            r = go(subst(t, {a: TRUE if v else FALSE}), th)
        else:
            br = []
            for v in (True, False):
                t2 = th
                if g is not None:
                    d2 = dict(d)
                    d2[g] = update(a, v, d.get(g))
                    t2 = tuple(sorted(d2.items(), key=lambda z: (z[0][0], z[0][1].id)))
                br.append(go(subst(t, {a: TRUE if v else FALSE}), t2))
            x, y = br
            r = x if x is y else (a if x is TRUE and y is FALSE else mk("ite", a, x, y))
        memo[k] = r
        return r
    return go(t, ())


def boolean(t):
    while t.op == "ite":
        t = t.args[1] if t.args[1].op != "ite" else t.args[2]
    return t in (TRUE, FALSE) or t.op in ("is", "eq", "lt", "lti")


def settle(t, memo):
    """the form the smart constructors give t"""
    if t.op != "ite":
        return t
    r = memo.get(t)
    if r is None:
        r = memo[t] = ite(settle(t.args[0], memo), settle(t.args[1], memo), settle(t.args[2], memo))
    return r


def boolish(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.extend(x.args[1:])
        elif x in (TRUE, FALSE) or x.op in ("is", "eq", "lt", "lti"):
            return True
    return False


DC = var("@any")


def under(c, t):
    """t where c holds, anything elsewhere"""
    if c in (TRUE, FALSE) or t.op != "ite" and inner(t) is None:
        return t
    r = canonb(mk("ite", c, t, DC))
    return t if DC in skeleton(r)[1] else r


def canonb(t, limit=28):
    r = _cb.get(t)
    if r is not None:
        return r
    if t.op != "ite" and inner(t) is None:
        return t
    t0 = t
    try:
        t = expand(t)
    except Big:
        _cb[t0] = t0
        return t0
    ats, lvs = skeleton(t)
    if boolish(t):
        # a predicate in leaf position is a test like any other
        ats |= lvs - {TRUE, FALSE, DC}
        lvs &= {TRUE, FALSE, DC}
    isb = lvs <= {TRUE, FALSE}
    if not ats or len(ats) > limit or (isb and len(ats) < 2):
        _cb[t0] = t
        return t
    order = sorted(ats, key=lambda a: (a.h, a.id))
    gk = [key(a) for a in order]
    live = [frozenset(k for k in gk[i:] if k is not None) for i in range(len(order) + 1)]
    memo = {}
    con = (lambda c, x, y: mk("ite", c, x, y)) if isb else ite

    def put(t, a, v, mm_):
        if t is a:
            return v
        if t.op != "ite":
            return t
        r = mm_.get(t)
        if r is None:
            c = put(t.args[0], a, v, mm_)
            if c is TRUE:
                r = put(t.args[1], a, v, mm_)
            elif c is FALSE:
                r = put(t.args[2], a, v, mm_)
            else:
                x, y = put(t.args[1], a, v, mm_), put(t.args[2], a, v, mm_)
                r = x if x is y else (c if x is TRUE and y is FALSE else mk("ite", c, x, y))
            mm_[t] = r
        return r

    def go(t, i, th):
        if i == len(order) or t in lvs or t in (TRUE, FALSE):
            return t
        a, g = order[i], gk[i]
        th = tuple((k, s) for k, s in th if k in live[i])
        k = (t, i, th)
        r = memo.get(k)
        if r is not None:
            return r
        d = dict(th)
        v = decide(a, d.get(g)) if g is not None else None
        if v is not None:
            r = go(put(t, a, TRUE if v else FALSE, {}), i + 1, th)
        else:
            br = []
            for v in (True, False):
                t2 = th
                if g is not None:
                    d2 = dict(d)
                    d2[g] = update(a, v, d.get(g))
                    t2 = tuple(sorted(d2.items(), key=lambda z: (z[0][0], z[0][1].id)))
                br.append(go(put(t, a, TRUE if v else FALSE, {}), i + 1, t2))
            x, y = br
            r = x if x is y or y is DC else y if x is DC else (a if x is TRUE and y is FALSE else con(a, x, y))
        memo[k] = r
        if len(memo) > 6000:
            raise Big()
        return r
    try:
        r = go(t, 0, ())
    except Big:
        r = t
    for _ in range(4):
        r2 = settle(r, {})
        if r2 is r:
            break
        r = r2
    _cb[t0] = r
    return r
