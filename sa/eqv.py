"""Equality of value numbers modulo the facts known about the atoms.

Two gated value graphs are equal when they agree under every consistent
valuation of their branch predicates.  The predicates are split one at a time
(Shannon expansion of the shared decision graph, as in a BDD `apply`), with a
small built-in theory: enum variants are exclusive, an integer equal to a
constant is that constant, linear forms keep interval bounds.
"""
import time
from fractions import Fraction as Fr
from term import *
import term as tm

ATOMS = ("is", "eq", "lt", "lti")


class Budget(Exception):
    pass


_form = {}


def linform(p):
    """p = c*q + k with q monic in its leading monomial -> (q, c, k)"""
    d = dict(polyd(p))
    k = d.pop(ONEM, Fr(0))
    if not d:
        return None, Fr(0), k
    m = min(d, key=lambda m: (m.h, m.id))
    c = d[m]
    q = frompoly({x: v / c for x, v in d.items()})
    if q.op == "poly":
        q = _form.setdefault(tm.fp(q), q)
    return q, c, k


# integer-valued atoms with a known range (closed)
def dom(t):
    if t.op == "app":
        n = t.args[0]
        r = DOM.get(n)
        if r:
            return r
        if n == "irem" and t.args[2].op == "num":
            k = abs(t.args[2].args[0])
            d = dom(t.args[1])
            return (0 if d is not None and d[0] is not None and d[0] >= 0 else -(k - 1), k - 1)
        if n == "abs":
            return (0, None)
        if n == "max" and (t.args[1].op == "num" or t.args[2].op == "num"):
            return ((t.args[1] if t.args[1].op == "num" else t.args[2]).args[0], None)
        if n == "min" and (t.args[1].op == "num" or t.args[2].op == "num"):
            return (None, (t.args[1] if t.args[1].op == "num" else t.args[2]).args[0])
        if n == "pp":
            return (0, None)
    if t.op == "len":
        return (0, None)
    if t.op == "loop":
        n, o = t.args[1], t.args[3]
        if o.op == "bv" and o.args[0] == t.args[0]:
            i = t.args[4 + o.args[1]]
            if i.op == "num":
                d = sub(t.args[4 + n + o.args[1]], o)
                if d.op == "num":
                    return (i.args[0], None) if d.args[0] >= 0 else (None, i.args[0])
    return None


DOM = {"month": (1, 12), "day": (1, 31), "ordinal": (1, 366), "wdnum": (0, 6)}


# ---- finite calendar domain: (month, day, ordinal, leap) of one date
CAL = []
for _lp in (False, True):
    _o = 0
    for _m, _n in enumerate((31, 29 if _lp else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), 1):
        for _d in range(1, _n + 1):
            _o += 1
            CAL.append({"month": _m, "day": _d, "ordinal": _o, "leap": _lp})
CALALL = (1 << len(CAL)) - 1
_cal = {}


def calset(a):
    """(date term, set of day kinds) of an atom about one date's month/day/leap"""
    r = _cal.get(a, 0)
    if r != 0:
        return r
    r = None
    base = calbase(a)
    if base is not None:
        r = 0
        try:
            for i, c in enumerate(CAL):
                if caleval(a, c):
                    r |= 1 << i
            r = (base, r)
        except KeyError:
            r = None
    _cal[a] = r
    return r


def calbase(a):
    base = None
    st = [a]
    while st:
        t = st.pop()
        if t.op == "app" and t.args[0] in ("month", "day", "ordinal", "leap"):
            b = t.args[1]
            if t.args[0] == "leap" and b.op == "app" and b.args[0] == "year":
                b = b.args[1]
            if base is not None and b is not base:
                return None
            base = b
            continue
        if t.op not in ("eq", "lti", "lt", "poly", "mono", "num") and not (t.op == "app" and t.args[0] in ("irem", "idiv")):
            return None
        st.extend(x for x in t.args if isinstance(x, T))
    return base


def caleval(t, c):
    o = t.op
    if o == "num":
        return t.args[0]
    if o == "app":
        if t.args[0] == "irem":
            x, y = caleval(t.args[1], c), caleval(t.args[2], c)
            return x - y * int(x / y)
        if t.args[0] == "idiv":
            x, y = caleval(t.args[1], c), caleval(t.args[2], c)
            return Fr(int(x / y))
        return c[t.args[0]]
    if o == "eq":
        return caleval(t.args[0], c) == caleval(t.args[1], c)
    if o in ("lt", "lti"):
        return caleval(t.args[0], c) < 0
    if o == "poly":
        v = Fr(0)
        for m, k in polyd(t).items():
            w = k
            for i in range(0, len(m.args), 2):
                e = m.args[i + 1]
                w *= Fr(caleval(m.args[i], c)) ** int(e)
            v += w
        return v
    raise KeyError(o)


_ct = {}


def contains(t, k):
    r = _ct.get((t, k))
    if r is None:
        r = t is k or any(contains(a, k) for a in t.args if isinstance(a, T))
        _ct[(t, k)] = r
    return r


_lc = {}


def limits(L):
    """numbers the counter L cannot exceed on leaving its loop"""
    r = _lc.get(L)
    if r is not None:
        return r
    r = []
    if L.op == "app":
        r = [vlen(L.args[1])] if L.args[0] == "pp" else []
        _lc[L] = r
        return r
    n, o = L.args[1], L.args[3]
    if o.op == "bv" and o.args[0] == L.args[0] and L.args[4 + o.args[1]] is ZERO and sub(L.args[4 + n + o.args[1]], o) is ONE:
        ps = tm.paths(L.args[2], True) or [()]
        for a, v in set(ps[0]).intersection(*ps[1:]):
            if a.op != "lti":
                continue
            p = a.args[0] if v else sub(num(-1), a.args[0])
            b = sub(o, p)
            if not freebv(b) and b.op != "num":
                e = Env()
                if e.atleast(b, 0):
                    r.append(b)
    _lc[L] = r
    return r


_gap = {}


def gap(q):
    """(loop counter, bound) of a difference between a counter and its bound"""
    r = _gap.get(q, 0)
    if r != 0:
        return r
    r = None
    if q.op == "poly":
        p = polyd(q)
        if len(p) <= 4:
            for m, c in p.items():
                if len(m.args) == 2 and m.args[1] == 1 and (m.args[0].op == "loop" or m.args[0].op == "app" and m.args[0].args[0] == "pp") and abs(c) == 1:
                    L = m.args[0]
                    for b in limits(L):
                        d = sub(q, mul(num(c), sub(L, b)))
                        if d.op == "num":
                            r = (L, c, d.args[0], add(b, ZERO))
    _gap[q] = r
    return r


_feas = {}


def feasible(env, cap=400):
    """can the linear facts of env hold together (Fourier-Motzkin over the rationals)"""
    key = frozenset((a, v) for a, v in env.m.items() if a.op in ("lt", "lti") or a.op == "eq" and v and a.args[1].op == "num")
    if len(key) < 2 or len(key) > 14:
        return True
    r = _feas.get(key)
    if r is not None:
        return r
    cons = []       # (dict mono->coef incl. ONEM, strict):  sum < 0 or <= 0
    mon = set()
    for a, v in key:
        if a.op == "eq":
            p = dict(polyd(sub(a.args[0], a.args[1])))
            cons.append((p, False))
            cons.append(({m: -c for m, c in p.items()}, False))
        else:
            p = dict(polyd(a.args[0]))
            if not v:
                p = {m: -c for m, c in p.items()}
            if a.op == "lti":
                if v and all(c.denominator == 1 for c in p.values()):
                    p[ONEM] = p.get(ONEM, Fr(0)) + 1
                    cons.append((p, False))
                else:
                    cons.append((p, v))
            else:
                cons.append((p, v))
        mon |= set(p) - {ONEM}
    if len(mon) > 16:
        _feas[key] = True
        return True
    for m in mon:
        d = dom(m.args[0]) if len(m.args) == 2 and m.args[1] == 1 else None
        if len(m.args) == 2 and m.args[1] == 1 and m.args[0].op in ("loop", "app"):
            for b in limits(m.args[0]):
                p = {k: -c for k, c in polyd(b).items()}
                p[m] = p.get(m, Fr(0)) + 1
                if set(p) - {ONEM} <= mon:
                    cons.append((p, False))
        if d:
            if d[0] is not None:
                cons.append(({m: Fr(-1), ONEM: Fr(d[0])}, False))
            if d[1] is not None:
                cons.append(({m: Fr(1), ONEM: -Fr(d[1])}, False))
    ok = True
    for m in sorted(mon, key=lambda m: sum(1 for p, _ in cons if p.get(m))):
        lo = [c for c in cons if c[0].get(m, 0) < 0]
        hi = [c for c in cons if c[0].get(m, 0) > 0]
        rest = [c for c in cons if not c[0].get(m, 0)]
        if len(lo) * len(hi) + len(rest) > cap:
            _feas[key] = True
            return True
        for p, s in lo:
            for q, r in hi:
                x, y = q[m], -p[m]
                z = {}
                for k, c in p.items():
                    z[k] = z.get(k, Fr(0)) + c * x
                for k, c in q.items():
                    z[k] = z.get(k, Fr(0)) + c * y
                z = {k: c for k, c in z.items() if c}
                rest.append((z, s or r))
        cons = rest
        for p, s in cons:
            if not set(p) - {ONEM}:
                c = p.get(ONEM, Fr(0))
                if c > 0 or s and c == 0:
                    ok = False
        if not ok:
            break
    _feas[key] = ok
    return ok


def pin(e, q, x):
    """q == x: solve for a plain unknown that occurs once, linearly"""
    p = polyd(q)
    if not 2 <= len(p) <= 4:
        return
    for m in sorted((m for m in p if len(m.args) == 2 and m.args[1] == 1 and m.args[0].op in ("var", "field", "sel")), key=lambda m: (m.args[0].sz_(), m.h), reverse=True):
        t = m.args[0]
        if t in e.val or freebv(t):
            continue
        r = div(sub(x, sub(q, mul(num(p[m]), t))), num(p[m]))
        if contains(r, t) or any(contains(k, t) or contains(w, t) for k, w in e.val.items() if k is not q):
            continue
        e.val[t] = r
        return


PLAIN = ("var", "app", "field", "sel", "loop")


def diffeq(a):
    """x == y of two opaque numbers as x - y == 0 (the form the bounds use)"""
    x, y = a.args
    if x.op in PLAIN and y.op in PLAIN:
        z = eq(sub(x, y), ZERO)
        if z.op == "eq" and z is not a:
            return z
    return None


class Env:
    nest = 0

    __slots__ = ("m", "pos", "negs", "val", "bnd", "memo", "ctx", "cal")

    def __init__(self, o=None):
        if o is None:
            self.m, self.pos, self.negs, self.val, self.bnd = {}, {}, {}, {}, {}
            self.cal = {}
        else:
            self.m, self.pos, self.negs, self.val, self.bnd = dict(o.m), dict(o.pos), dict(o.negs), dict(o.val), dict(o.bnd)
            self.cal = dict(o.cal)
        self.memo = {}
        self.ctx = o.ctx if o is not None else ()

    # -------------------------------------------------- evaluation
    def bounds(self, q):
        b = self.bnd.get(q)
        d = dom(q)
        if d:
            lo, hi = d
            db = (None if lo is None else Fr(lo), False, None if hi is None else Fr(hi), False)
            b = db if b is None else meet(b, db)
        g = gap(q) if q.op == "poly" else None
        if g:
            db = (None, False, g[2], False) if g[1] > 0 else (g[2], False, None, False)
            b = db if b is None else meet(b, db)
        return b

    def ev(self, a):
        """truth of atom a or None"""
        r = self.m.get(a)
        if r is not None:
            return r
        o = a.op
        cs = calset(a)
        if cs is not None:
            cur = self.cal.get(cs[0], CALALL)
            if not cur & ~cs[1]:
                return True
            if not cur & cs[1]:
                return False
        if o == "is":
            t, adt, i = a.args
            p = self.pos.get(t)
            if p is not None:
                return p == i
            n = self.negs.get(t)
            if n is not None and i in n:
                return False
            if n:
                nv = nvariants(adt)
                if nv and len(n) == nv - 1:
                    return True
            return None
        if o == "eq":
            x, y = a.args
            if y.op == "num":
                q, c, k = linform(x)
                if q is None:
                    return None
                v = (y.args[0] - k) / c
                b = self.bounds(q)
                if b is not None:
                    lo, ls, hi, hs = b
                    if lo is not None and (v < lo or (ls and v == lo)):
                        return False
                    if hi is not None and (v > hi or (hs and v == hi)):
                        return False
                    if lo is not None and lo == hi and not ls and not hs:
                        return v == lo
                return None
            z = diffeq(a)
            if z is not None:
                r = self.m.get(z)
                return r if r is not None else self.ev(z)
            return None
        if o in ("lt", "lti"):
            q, c, k = linform(a.args[0])
            if q is None:
                return None
            b = self.bounds(q)
            if b is None:
                return None
            lo, ls, hi, hs = b
            th = -k / c
            # c>0: q < th ; c<0: q > th
            if c > 0:
                if hi is not None and (hi < th or (hi == th and hs)):
                    return True
                if lo is not None and lo >= th:
                    return False
            else:
                if lo is not None and (lo > th or (lo == th and ls)):
                    return True
                if hi is not None and hi <= th:
                    return False
            return None
        return None

    def sign(self, d):
        """-1 / 1 when d <= 0 / d >= 0 is known"""
        if d.op == "num":
            return 1 if d.args[0] >= 0 else -1
        q, c, k = linform(d)
        b = self.bounds(q)
        if b is None:
            return None
        lo, hi = b[0], b[2]
        if c < 0:
            lo, hi = hi, lo
        if lo is not None and c * lo + k >= 0:
            return 1
        if hi is not None and c * hi + k <= 0:
            return -1
        return None

    def local(self, r):
        """rewrites that need the facts"""
        if r.op == "app":
            f = r.args[0]
            if f == "ymd_ok" and self.inrange(r.args[2], 1, 12) and self.inrange(r.args[3], 1, 28):
                return TRUE
            if f == "ymd" and r.args[1].op == "poly" and r.args[2] is ONE and r.args[3] is ONE:
                # 1 January of the next year is 365 or 366 days later
                y = sub(r.args[1], ONE)
                if y.op == "app" and y.args[0] == "year":
                    for a in (mk("app", "leap", y.args[1]), mk("app", "leap", y)):
                        v = self.m.get(a)
                        if v is not None:
                            return add(tm.rebuild("app", ["ymd", y, ONE, ONE]), num(366 if v else 365))
            if f == "irem" and r.args[2].op == "num":
                from ex import congruent
                u = congruent(r.args[1], r.args[2])
                if u is not None and u is not r.args[1] and self.atleast(u, 0) and self.atleast(r.args[1], 0):
                    return self.simp(tm.rebuild("app", ["irem", u, r.args[2]]))
            if f in ("max", "min") and len(r.args) == 3:
                s = self.sign(sub(r.args[1], r.args[2]))
                if s is not None:
                    return r.args[1] if (s > 0) == (f == "max") else r.args[2]
        elif r.op in ("loop", "sum"):
            n = r.args[1]
            c = subst(r.args[2], {mk("bv", r.args[0], i): r.args[4 + i] for i in range(n)})
            if c is not FALSE and Env.nest < 8 and not freebv(r.args[2]) - {r.args[0]}:
                Env.nest += 1
                try:
                    c = self.simp(c)
                finally:
                    Env.nest -= 1
            if c is FALSE:
                return ZERO if r.op == "sum" else subst(r.args[3], {mk("bv", r.args[0], i): r.args[4 + i] for i in range(n)})
        return r

    def atleast(self, x, a):
        """x >= a by the bounds of its terms"""
        lo = Fr(0)
        for mo, c in polyd(x).items():
            if mo is ONEM:
                lo += c
                continue
            if len(mo.args) != 2 or mo.args[1] != 1:
                return False
            b = self.bounds(mo.args[0])
            v = None if b is None else (b[0] if c > 0 else b[2])
            if v is None:
                return False
            lo += c * v
        return lo >= a

    def inrange(self, x, a, b):
        if x.op == "num":
            return a <= x.args[0] <= b
        q, c, k = linform(x)
        bd = self.bounds(q)
        if bd is None or bd[0] is None or bd[2] is None:
            return False
        u, v = c * bd[0] + k, c * bd[2] + k
        return a <= min(u, v) and max(u, v) <= b

    # -------------------------------------------------- assignment
    def assign(self, a, v):
        """Env with a == v or None when inconsistent"""
        while isneg(a):
            a, v = a.args[0], not v
        e = self.assign1(a, v)
        if e is None or e is self or len(e.val) == len(self.val):
            return e
        new = [k for k in e.val if k not in self.val and k.op == "loop"]
        if not new:
            return e
        # restate the facts about a counter whose value is now known
        for b, w in list(e.m.items()):
            if not any(contains(b, k) for k in new):
                continue
            s = e.simp(b)
            if s is b:
                continue
            if s in (TRUE, FALSE):
                if (s is TRUE) != w:
                    return None
                continue
            if isneg(s):
                s, w = s.args[0], not w
            if s.op == "ite":
                continue
            e = e.assign(s, w)
            if e is None:
                return None
        return e

    def assign1(self, a, v):
        cur = self.ev(a)
        if cur is not None:
            return self if cur == v else None
        e = Env(self)
        e.m[a] = v
        for ls in tm.NEVER.get(a, ()):
            if all((v if x is a else self.ev(x)) is w for x, w in ls):
                return None
        o = a.op
        cs = calset(a)
        if cs is not None:
            cur = e.cal.get(cs[0], CALALL) & (cs[1] if v else CALALL & ~cs[1])
            if not cur:
                return None
            e.cal[cs[0]] = cur
        if o == "is":
            t, adt, i = a.args
            if v:
                e.pos[t] = i
            else:
                n = e.negs.get(t, frozenset()) | {i}
                e.negs[t] = n
                nv = nvariants(adt)
                if nv and len(n) == nv - 1:
                    e.pos[t] = next(k for k in range(nv) if k not in n)
        elif o == "eq" and a.args[1].op == "num":
            q, c, k = linform(a.args[0])
            x = (a.args[1].args[0] - k) / c
            if v:
                e.val[q] = num(x)
                e.bnd[q] = (x, False, x, False)
                if q.op == "poly" and not gap(q):
                    pin(e, q, num(x))
            else:
                b = e.bounds(q)
                if b is not None and isintform(q):
                    lo, ls, hi, hs = b
                    while lo is not None and e.m.get(eq(q, num(lo))) is False and (hi is None or lo <= hi):
                        lo += 1
                    while hi is not None and e.m.get(eq(q, num(hi))) is False and (lo is None or lo <= hi):
                        hi -= 1
                    if lo is not None and hi is not None and lo > hi:
                        return None
                    e.bnd[q] = (lo, ls, hi, hs)
                    if lo is not None and lo == hi:
                        e.val[q] = num(lo)
        elif o == "eq" and not v:
            z = diffeq(a)
            if z is not None:
                return e.assign1(z, False) if e.ev(z) is None else (e if e.ev(z) is False else None)
        elif o == "eq" and v:
            x, y = a.args
            z = diffeq(a)
            if z is not None:
                e.m[z] = True
            # orient: replace the deeper term by the other
            e.val[x if x.sz_() > y.sz_() else y] = y if x.sz_() > y.sz_() else x
        elif o in ("lt", "lti"):
            q, c, k = linform(a.args[0])
            th = -k / c
            isint = o == "lti"
            lo = ls = hi = hs = None
            if (c > 0) == v:
                # upper bound
                strict = v
                hi, hs = th, strict
                if isint and intq(q):
                    h = -((-th.numerator) // th.denominator) if strict else th.numerator // th.denominator
                    hi, hs = (Fr(h - 1) if strict else Fr(h)), False
                nb = (None, False, hi, hs)
            else:
                strict = v
                lo, ls = th, strict
                if isint and intq(q):
                    l = th.numerator // th.denominator if strict else -((-th.numerator) // th.denominator)
                    lo, ls = (Fr(l + 1) if strict else Fr(l)), False
                nb = (lo, ls, None, False)
            b = e.bounds(q)
            b = nb if b is None else meet(b, nb)
            lo, ls, hi, hs = b
            if isint and intq(q):
                while lo is not None and e.m.get(eq(q, num(lo))) is False and (hi is None or lo <= hi):
                    lo += 1
                while hi is not None and e.m.get(eq(q, num(hi))) is False and (lo is None or lo <= hi):
                    hi -= 1
                b = (lo, ls, hi, hs)
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
                return None
            e.bnd[q] = b
            if lo is not None and lo == hi:
                e.val[q] = num(lo)
                g = gap(q)
                if g:
                    # the loop ran to its bound
                    e.val[g[0]] = add(g[3], num(g[1] * (lo - g[2])))
                else:
                    pin(e, q, num(lo))
        return e

    def simp(self, t):
        memo = self.memo
        val = self.val

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t in val:
                r = val[t]
                memo[t] = r
                return r
            if not t.args or t.op in ("num", "var", "str"):
                if t in self.m:
                    return TRUE if self.m[t] else FALSE
                return t
            if t.op == "ite":
                c = go(t.args[0])
                if c in self.m:
                    c = TRUE if self.m[c] else FALSE
                if c is TRUE:
                    r = go(t.args[1])
                elif c is FALSE:
                    r = go(t.args[2])
                else:
                    r = ite(c, go(t.args[1]), go(t.args[2]))
                memo[t] = r
                return r
            ch = False
            na = []
            for a in t.args:
                if isinstance(a, T):
                    b = go(a)
                    if b is not a:
                        ch = True
                    na.append(b)
                else:
                    na.append(a)
            r = tm.rebuild(t.op, na) if ch else t
            r = self.local(r)
            if r.op in ATOMS or (r.op == "app" and r.args[0] == "leap"):
                v = self.ev(r)
                if v is not None:
                    r = TRUE if v else FALSE
            elif r in self.m:
                r = TRUE if self.m[r] else FALSE
            elif r is not t and r.op == "ite" and (r.args[0].op in ATOMS or r.args[0].op == "app"):
                v = self.ev(r.args[0])
                if v is not None:
                    r = r.args[1] if v else r.args[2]
            if r in val:
                r = val[r]
            memo[t] = r
            return r
        return go(t)


def intq(q):
    """q monic with integer coefficients (so integer bounds may be rounded)"""
    return all(c.denominator == 1 for c in polyd(q).values())


def isintform(q):
    return intq(q)


def meet(a, b):
    lo, ls, hi, hs = a
    l2, s2, h2, t2 = b
    if l2 is not None and (lo is None or l2 > lo or (l2 == lo and s2)):
        lo, ls = l2, s2
    if h2 is not None and (hi is None or h2 < hi or (h2 == hi and t2)):
        hi, hs = h2, t2
    return lo, ls, hi, hs


_sz = {}


def size(t):
    r = _sz.get(t)
    if r is None:
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(a for a in x.args if isinstance(a, T))
        r = _sz[t] = len(seen)
    return r


T.sz_ = lambda self: size(self)

_ha = {}


def has_ite(t):
    r = _ha.get(t)
    if r is None:
        if t.op in ("ite",) or t.op in ATOMS:
            r = True
        else:
            r = any(has_ite(a) for a in t.args if isinstance(a, T))
        _ha[t] = r
    return r


def pick(t):
    """an atom to split on: outermost gate first, innermost predicate of it"""
    if t.op in ATOMS:
        # split predicates nested inside this one first
        for a in t.args:
            if isinstance(a, T) and has_ite(a):
                x = pick(a)
                if x is not None:
                    return x
        if t.bl and has_bv(t):
            return None
        return t
    if t.op == "ite":
        c = t.args[0]
        x = pick(c)
        if x is not None:
            return x
        if c.op not in ATOMS and c.op != "ite" and not has_bv(c):
            return c
        x = pick(t.args[1])
        if x is not None:
            return x
        return pick(t.args[2])
    if not has_ite(t):
        return None
    if t.op in ("loop", "sum", "mapvec", "someiter", "lam"):
        return None
    if t.op == "app" and t.args[0] == "lam":
        return None
    for a in t.args:
        if isinstance(a, T) and has_ite(a):
            x = pick(a)
            if x is not None:
                return x
    return None


_bv = {}


def has_bv(t):
    return t.bl > 0 and freebv(t)


_fb = {}


def freebv(t):
    """free bound variables (level, idx) levels present"""
    r = _fb.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.args[0],))
        elif t.bl == 0:
            r = frozenset()
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r |= freebv(a)
            if t.op in ("loop", "sum"):
                r -= {t.args[0]}
            elif t.op in ("mapvec", "lam"):
                r -= {t.args[2]}
        _fb[t] = r
    return r


BIND = ("lam", "sum", "mapvec", "loop")


def binders(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in BIND:
            out.add(x)
        st.extend(a for a in x.args if isinstance(a, T))
    return out


def unify(x, y, tries=80, seconds=20.0):
    """replace the binders of x (functions, sums, loops) by equal ones of y, innermost first"""
    done = set()
    t0 = time.time()
    while tries > 0:
        bx, by = binders(x), binders(y)
        best = None
        for a in sorted(bx - by, key=lambda t: (t.bl, t.h)):
            for b in sorted(by - bx, key=lambda t: (t.bl, t.h)):
                if a.op != b.op or len(a.args) != len(b.args) or (a, b) in done or freebv(a) != freebv(b):
                    continue
                if a.op in ("loop", "sum") and a.args[:2] != b.args[:2]:
                    continue
                done.add((a, b))
                tries -= 1
                try:
                    if Eq(4000, seconds=max(0.1, t0 + seconds - time.time())).equal(a, b):
                        best = (a, b)
                        break
                except Budget:
                    pass
                if time.time() > t0 + seconds:
                    tries = 0
                if tries <= 0:
                    break
            if best or tries <= 0:
                break
        if best is None:
            return x
        x = subst(x, {best[0]: best[1]})
    return x


class Eq:
    def __init__(self, budget=20000, facts=(), seconds=None):
        self.n = 0
        self.budget = budget
        self.until = time.time() + seconds if seconds else None
        self.fail = None
        self.depth = 0
        self.q = 0              # inside a tentative comparison
        self.judge = None       # second opinion on a leaf that was not identified
        self.opened = []
        self.env0 = Env()
        for a, v in facts:
            self.env0 = self.env0.assign(a, v) or self.env0
        self.memo = {}

    def equal(self, a, b, env=None):
        env = env or self.env0
        return self.go(env.simp(a), env.simp(b), env)

    def go(self, a, b, env, inloop=False):
        if a is b or tm.fp(a) == tm.fp(b):
            return True
        self.n += 1
        if self.n > self.budget:
            raise Budget("comparison budget exhausted")
        if self.until and time.time() > self.until:
            raise Budget("no time left for the comparison")
        key = (a, b, frozenset(env.m.items()), env.ctx, inloop, self.q > 0)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.depth += 1
        try:
            r = self.cmp(a, b, env, inloop)
        finally:
            self.depth -= 1
        self.memo[key] = r
        return r

    def cmp(self, a, b, env, inloop):
        # same constructor: componentwise
        if a.op == b.op and a.op in ("variant", "tuple", "vec", "closure"):
            if len(a.args) == len(b.args):
                okk = True
                for x, y in zip(a.args, b.args):
                    if isinstance(x, T) != isinstance(y, T):
                        okk = False
                    elif isinstance(x, T):
                        if not self.go(x, y, env, inloop):
                            okk = False
                    elif x != y:
                        okk = False
                    if not okk:
                        return self.bad(a, b, env)
                return True
            return self.bad(a, b, env)
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0] and not has_inner(a.args[0]):
            c = a.args[0]
            if c.op in ATOMS:
                for v, i in ((True, 1), (False, 2)):
                    e = env.assign(c, v)
                    if e is None:
                        continue
                    if not self.go(e.simp(a.args[i]), e.simp(b.args[i]), e, inloop):
                        return False
                return True
        numeric = isnumeric(a) or isnumeric(b)
        if numeric and not nonnum(a) and not nonnum(b):
            d = sub(a, b)
            if d is ZERO:
                return True
            r = self.zero(d, env, inloop)
            return r if r is True else self.bad(a, b, env)
        x = None
        ga = a if a.op in ("ite",) + ATOMS else None
        gb = b if b.op in ("ite",) + ATOMS else None
        if ga is not None or gb is not None:
            x = self.pick2(ga if ga is not None else b, b if ga is not None else a, inloop)
            if x is not None:
                return self.split(x, a, b, env, inloop)
        # eta: a value known to be of a variant against its construction
        for x, y in ((a, b), (b, a)):
            if x.op in ("variant", "tuple") and y.op not in ("variant", "tuple", "ite"):
                z = self.eta(x, y, env)
                if z is not None:
                    return self.go(a, z, env, inloop) if y is b else self.go(z, b, env, inloop)
        # structural congruence
        if self.congruent(a, b, env, inloop):
            return True
        x = self.pick2(a, b, inloop)
        if x is not None:
            return self.split(x, a, b, env, inloop)
        return self.bad(a, b, env)

    def eta(self, x, y, env):
        if x.op == "tuple":
            if not x.args:
                return x
            return mk("tuple", *[field(y, None, None, i) for i in range(len(x.args))])
        adt, i = x.args[0], x.args[1]
        ad = ADTS.get(adt)
        if ad is None:
            return None
        if not ad["enum"]:
            return mk("variant", adt, i, *[field(y, adt, None, k) for k in range(len(x.args) - 2)])
        if env.ev(isv(y, adt, i)) is True:
            return mk("variant", adt, i, *[field(y, adt, i, k) for k in range(len(x.args) - 2)])
        return None

    def pick2(self, a, b, inloop):
        f = pick_in if inloop else pick
        x = f(a)
        if x is None:
            x = f(b)
        return x

    def split(self, x, a, b, env, inloop):
        for v in (True, False):
            e = env.assign(x, v)
            if e is None:
                continue
            if not self.go(e.simp(a), e.simp(b), e, inloop):
                return False
        return True

    def bad(self, a, b, env):
        if not feasible(env):
            return True
        if self.q == 0 and self.left(env):
            return True
        if self.fail is None:
            if self.judge is not None and self.q == 0:
                r = self.judge(a, b, env)
                if r is not None:
                    self.opened.append((a, b, env, r))
                    return True
            self.fail = (a, b, env)
        return False

    def left(self, env):
        """the path says that a loop would go on from the state in which it ended"""
        seen, st, done = set(), list(env.m), set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "loop" and not freebv(x) and len(done) < 12:
                n = x.args[1]
                k = (x.args[0], x.args[2]) + x.args[4:]
                if k not in done:
                    done.add(k)
                    fin = {mk("bv", x.args[0], i): rebuild("loop", [x.args[0], n, x.args[2], mk("bv", x.args[0], i)] + list(x.args[4:])) for i in range(n)}
                    if env.simp(subst(x.args[2], fin)) is TRUE:
                        return True
            st.extend(y for y in x.args if isinstance(y, T))
        return False

    # ---------------------------------------------------------- congruence
    def congruent(self, a, b, env, inloop):
        if a is b:
            return True
        if a.op != b.op:
            return False
        o = a.op
        sv = self.fail
        if o in ("loop", "sum"):
            return self.loops(a, b, env)
        if o == "mapvec":
            if not self.quiet(a.args[0], b.args[0], env, inloop):
                return False
            la, lb = a.args[2], b.args[2]
            fa, fb = a.args[1], b.args[1]
            if not freebv(a) and not freebv(b):
                k = mk("var", "@at%d" % (max(la, lb, fa.bl, fb.bl) + 1))
                e = env.assign(lt_i(k, ZERO), False)
                e = e and e.assign(lt_i(k, a.args[0]), True)
                if e is None:
                    return True
                f, q, j = self.fail, self.q, self.judge
                self.q, self.judge = 0, None
                try:
                    if self.go(e.simp(subst(fa, {mk("bv", la, 0): k})), e.simp(subst(fb, {mk("bv", lb, 0): k})), e):
                        return True
                finally:
                    self.fail, self.q, self.judge = f, q, j
            if la != lb:
                L = max(la, lb, fa.bl, fb.bl) + 1
                fa = subst(fa, {mk("bv", la, 0): mk("bv", L, 0)})
                fb = subst(fb, {mk("bv", lb, 0): mk("bv", L, 0)})
            return self.quiet(fa, fb, env, True)
        if o == "lam":
            if a.args[0] != b.args[0]:
                return False
            la, lb = a.args[2], b.args[2]
            fa, fb = a.args[1], b.args[1]
            L = max(la, lb, fa.bl, fb.bl) + 1
            if not freebv(a) and not freebv(b):
                xs = [mk("var", "@arg%d.%d" % (L, i)) for i in range(a.args[0])]
                f, q, j = self.fail, self.q, self.judge
                self.q, self.judge = 0, None
                try:
                    return self.go(subst(fa, {mk("bv", la, i): x for i, x in enumerate(xs)}), subst(fb, {mk("bv", lb, i): x for i, x in enumerate(xs)}), env)
                finally:
                    self.fail, self.q, self.judge = f, q, j
            fa = subst(fa, {mk("bv", la, i): mk("bv", L, i) for i in range(a.args[0])})
            fb = subst(fb, {mk("bv", lb, i): mk("bv", L, i) for i in range(a.args[0])})
            return self.quiet(fa, fb, env, True)
        if len(a.args) != len(b.args):
            return False
        if o in ("num", "var", "str", "bv", "lv"):
            return False
        if o == "app" and a.args[0] != b.args[0]:
            return False
        if o == "app" and a.args[0] in ("max", "min"):
            return (self.quiet(a.args[1], b.args[1], env, inloop) and self.quiet(a.args[2], b.args[2], env, inloop)) or \
                   (self.quiet(a.args[1], b.args[2], env, inloop) and self.quiet(a.args[2], b.args[1], env, inloop))
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) != isinstance(y, T):
                return False
            if isinstance(x, T):
                if not self.quiet(x, y, env, inloop):
                    return False
            elif x != y:
                return False
        return True

    def quiet(self, a, b, env, inloop):
        f = self.fail
        self.q += 1
        try:
            r = self.go(a, b, env, inloop)
        finally:
            self.q -= 1
        self.fail = f
        return r

    def loops(self, a, b, env):
        """loop nodes: [lev, n, cont, out, inits.., nexts..]"""
        if a.args[1] != b.args[1]:
            return False
        n = a.args[1]
        L = max(a.args[0], b.args[0])
        body_bl = max([x.bl for x in a.args if isinstance(x, T)] + [x.bl for x in b.args if isinstance(x, T)])
        L = body_bl + 1
        va = [mk("bv", L, i) for i in range(n)]

        def ren(t, perm):
            mp = {mk("bv", t.args[0], i): va[perm[i]] for i in range(n)}
            mm_ = {}
            cont = subst(t.args[2], mp, mm_)
            out = subst(t.args[3], mp, mm_)
            ini = [None] * n
            nx = [None] * n
            for i in range(n):
                ini[perm[i]] = t.args[4 + i]
                nx[perm[i]] = subst(t.args[4 + n + i], mp, mm_)
            return cont, out, ini, nx
        ca, oa, ia, na = ren(a, list(range(n)))
        env = self.counters(va, ia, na, env)
        import itertools
        perms = itertools.permutations(range(n)) if n <= 4 else self.init_perms(a, b, n, env)
        for pm in perms:
            cb, ob, ib, nb = ren(b, list(pm))
            if not all(self.quiet(x, y, env, False) for x, y in zip(ia, ib)):
                continue
            if not self.quiet(env.simp(oa), env.simp(ob), env, True) or not self.quiet(env.simp(ca), env.simp(cb), env, True):
                continue
            # next values matter only while the loop continues
            e2 = env
            lit = []
            for at, v in conj(ca):
                e3 = e2.assign(at, v)
                if e3 is not None:
                    e2 = e3
            if all(self.quiet(e2.simp(x), e2.simp(y), e2, True) or self.guarded(ca, x, y, e2) for x, y in zip(na, nb)):
                return True
        return False

    def guarded(self, c, x, y, env):
        """x equals y wherever the condition c (not a mere conjunction of literals) holds"""
        if c.op != "ite":
            return False
        z = var("(over)")
        return self.quiet(env.simp(ite(c, x, z)), env.simp(ite(c, y, z)), env, True)

    def counters(self, vs, ini, nxt, env):
        """v starts at a constant and only grows (shrinks)"""
        e = Env(env)
        for v, i, x in zip(vs, ini, nxt):
            if i.op != "num":
                continue
            d = sub(x, v)
            if d.op == "num" and d.args[0] != 0:
                e.ctx = e.ctx + ((v, i, d.args[0] > 0),)
            if d.op == "num" and d.args[0] > 0:
                e.bnd[v] = (i.args[0], False, None, False)
            elif d.op == "num" and d.args[0] < 0:
                e.bnd[v] = (None, False, i.args[0], False)
        return e

    def init_perms(self, a, b, n, env):
        """candidate permutations for wide loops: match initial values"""
        ia = a.args[4:4 + n]
        ib = b.args[4:4 + n]
        cand = []
        for j in range(n):
            cand.append([i for i in range(n) if self.quiet(ia[i], ib[j], env, False)])
        out = []

        def rec(j, used, pm):
            if len(out) > 200:
                return
            if j == n:
                out.append(tuple(pm))
                return
            for i in cand[j]:
                if i not in used:
                    rec(j + 1, used | {i}, pm + [i])
        rec(0, frozenset(), [])
        return out

    # ---------------------------------------------------------- numbers
    def zero(self, d, env, inloop):
        """is the number d identically zero under env"""
        if d is ZERO:
            return True
        if d.op == "ite":
            pass
        elif d.op == "num":
            return False
        # clear denominators
        x = clear(d)
        if x is ZERO:
            return True
        if x is not d and x.op == "num":
            return False
        # unify congruent atoms
        y = self.unify(x, env, inloop)
        if y is not x:
            if y is ZERO:
                return True
            y = clear(y)
            if y is ZERO:
                return True
            x = y
        if x.op == "num":
            return not feasible(env)
        p = (pick_in if inloop else pick)(x)
        if p is None:
            return not feasible(env)
        for v in (True, False):
            e = env.assign(p, v)
            if e is None:
                continue
            if not self.go(e.simp(x), ZERO, e, inloop):
                return False
        return True

    def unify(self, d, env, inloop):
        ats = set()
        for m in polyd(d):
            for i in range(0, len(m.args), 2):
                ats.add(m.args[i])
        ats = sorted((a for a in ats if a.op not in ("var", "bv", "num", "lv")), key=lambda t: (t.op, t.h))
        mp = {}
        reps = []
        for a in ats:
            for r in reps:
                if r.op == a.op and self.alike(a, r) and (self.congruent(a, r, env, inloop) or self.polyeq(a, r, env, inloop)):
                    mp[a] = r
                    break
            else:
                reps.append(a)
        if not mp:
            return d
        out = ZERO
        for m, c in polyd(d).items():
            t = num(c)
            for i in range(0, len(m.args), 2):
                t = mul(t, power(mp.get(m.args[i], m.args[i]), m.args[i + 1]))
            out = add(out, t)
        return out

    def alike(self, a, b):
        if a.op == "app":
            return a.args[0] == b.args[0] and len(a.args) == len(b.args)
        return a.op in ("loop", "sum", "sel", "field", "mapvec", "len", "poly", "ite", "disc")

    def polyeq(self, a, b, env, inloop):
        if a.op in ("poly", "ite"):
            return self.quiet(a, b, env, inloop)
        return False


def conj(c):
    """literals implied by the conjunction c"""
    if c.op == "ite":
        if isneg(c):
            if c.args[0].op in ATOMS:
                yield c.args[0], False
        elif c.args[2] is FALSE:
            yield from conj(c.args[0])
            yield from conj(c.args[1])
        elif c.args[1] is FALSE:
            if c.args[0].op in ATOMS:
                yield c.args[0], False
            yield from conj(c.args[2])
    elif c.op in ATOMS:
        yield c, True


def has_inner(c):
    return any(isinstance(a, T) and has_ite(a) for a in c.args)


def pick_in(t):
    """like pick, but inside a loop body its own bound variables are fixed"""
    if t.op in ATOMS:
        for a in t.args:
            if isinstance(a, T) and has_ite(a):
                x = pick_in(a)
                if x is not None:
                    return x
        return t
    if t.op == "ite":
        c = t.args[0]
        x = pick_in(c)
        if x is not None:
            return x
        if c.op not in ATOMS and c.op != "ite":
            return c
        for a in t.args[1:]:
            x = pick_in(a)
            if x is not None:
                return x
        return None
    if not has_ite(t) or t.op in ("loop", "sum", "mapvec", "someiter", "lam"):
        return None
    for a in t.args:
        if isinstance(a, T) and has_ite(a):
            x = pick_in(a)
            if x is not None:
                return x
    return None


def isnumeric(t):
    return t.op in ("num", "poly")


def nonnum(t):
    return t.op in ("variant", "tuple", "vec", "closure", "true", "false", "str", "push", "mapvec", "is", "eq", "lt", "lti", "store", "cat") or \
        (t.op == "ite" and (nonnum(t.args[1]) or nonnum(t.args[2])))


def clear(d):
    """multiply by the denominators that are sums, so that the difference of
    two fractions becomes a polynomial"""
    for _ in range(6):
        dens = {}
        for m in polyd(d):
            for i in range(0, len(m.args), 2):
                a, e = m.args[i], m.args[i + 1]
                if e < 0 and (a.op in ("poly", "prod", "ppow")):
                    dens[a] = max(dens.get(a, Fr(0)), -e)
        if not dens:
            return d
        a, e = max(dens.items(), key=lambda x: (x[1], x[0].h))
        k = Fr(-((-e.numerator) // e.denominator))
        if e.denominator != 1:
            k = e
        out = ZERO
        for m, c in polyd(d).items():
            md = monod(m)
            x = md.get(a, Fr(0)) + k
            md2 = {q: w for q, w in md.items() if q is not a}
            t = frompoly({tm._mono(md2): c})
            if x != 0:
                t = mul(t, power(a, x))
            out = add(out, t)
        if out is d:
            return d
        d = out
        if len(polyd(d)) > 4000:
            return d
    return d
