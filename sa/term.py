"""Hash-consed terms with an algebraic normal form (value numbers).

Numbers are exact rationals; arithmetic is normalised to sums of monomials over
atoms with rational exponents, so value numbers are invariant under statement
order, temporaries, helper extraction (callees are inlined by the extractor) and
re-association.  Booleans are `ite` diagrams over atomic predicates.
"""
from fractions import Fraction as Fr
import hashlib

_tab = {}


class T:
    __slots__ = ("op", "args", "id", "h", "lvs", "bl", "sz")

    def __repr__(self):
        return show(self)


def _hash(op, args):
    m = hashlib.blake2b(digest_size=10)
    m.update(op.encode())
    for a in args:
        if isinstance(a, T):
            m.update(b"t" + a.h)
        else:
            m.update(b"p" + repr(a).encode())
    return m.digest()


EMPTY = frozenset()


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        if op == "lv":
            t.lvs = frozenset((t,))
            t.bl = 0
            t.h = _hash(op, args)
        else:
            l = EMPTY
            bl = args[0] if op == "bv" else 0
            for a in args:
                if isinstance(a, T):
                    if a.lvs:
                        l = l | a.lvs if l else a.lvs
                    if a.bl > bl:
                        bl = a.bl
            t.lvs = l
            t.bl = bl
            t.h = _hash(op, args)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- numbers
def num(x):
    return mk("num", Fr(x))


ZERO = num(0)
ONE = num(1)
TRUE = mk("true")
FALSE = mk("false")
UNIT = mk("tuple")


def boolc(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.op == "num"


def var(n):
    return mk("var", n)


# polynomials: op "poly", args = tuple of (coef, mono) pairs flattened into a
# canonical tuple: each mono is mk("mono", a1, e1, a2, e2 ...)
ONEM = mk("mono")


def _mono(d):
    it = sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: (x[0].h, x[0].id))
    fl = []
    for a, e in it:
        fl.append(a)
        fl.append(e)
    return mk("mono", *fl)


def monod(m):
    a = m.args
    return {a[i]: a[i + 1] for i in range(0, len(a), 2)}


def polyd(t):
    """dict mono -> coef"""
    if t.op == "num":
        return {ONEM: t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        a = t.args
        return {a[i + 1]: a[i] for i in range(0, len(a), 2)}
    return {mk("mono", t, Fr(1)): Fr(1)}


def frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m is ONEM:
            return num(c)
        if c == 1 and len(m.args) == 2 and m.args[1] == 1:
            return m.args[0]
    fl = []
    for m, c in sorted(d.items(), key=lambda x: (x[0].h, x[0].id)):
        fl.append(c)
        fl.append(m)
    return mk("poly", *fl)


def isint(e):
    return e.denominator == 1


MAXTERMS = 600


def mono_mul(m1, m2):
    """-> (coef, T or mono) product of two monomials; may need expansion"""
    d = monod(m1)
    for a, e in monod(m2).items():
        d[a] = d.get(a, 0) + e
    return mono_norm(d)


_primes = {}


def primes(v):
    """a positive rational as prime powers (what is left after the small primes counts as prime)"""
    r = _primes.get(v)
    if r is None:
        r = []
        for n, s in ((v.numerator, 1), (v.denominator, -1)):
            q = 2
            while q * q <= n and q < 1000:
                k = 0
                while n % q == 0:
                    n //= q
                    k += 1
                if k:
                    r.append((q, s * k))
                q += 1
            if n > 1:
                r.append((n, s))
        _primes[v] = r
    return r


def mono_norm(d):
    """dict atom->exp -> (coef, mono, [expansion polys])"""
    coef = Fr(1)
    exps = []
    extra = []
    out = {}
    primal = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "num":
            v = a.args[0]
            if isint(e):
                coef *= v ** int(e)
                continue
            if v > 0:
                for q, k in primes(v):
                    primal[q] = primal.get(q, 0) + k * e
                continue
            ip = e.numerator // e.denominator
            if ip:
                coef *= v ** ip
            e = e - ip
            if e:
                out[a] = e
            continue
        if a.op == "poly" and isint(e) and e > 0:
            extra.append((a, int(e)))
            continue
        if a.op == "app" and a.args[0] == "exp":
            exps.append((a.args[1], e))
            continue
        out[a] = e
    for q, e in primal.items():
        ip = e.numerator // e.denominator
        coef *= Fr(q) ** ip
        if e != ip:
            out[num(q)] = e - ip
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            out[mk("app", "exp", exps[0][0])] = Fr(1)
        else:
            s = ZERO
            for a, e in exps:
                s = add(s, mul(num(e), a))
            x = exp_(s)
            if x.op == "num":
                coef *= x.args[0]
            elif x.op == "app" and x.args[0] == "exp":
                out[x] = Fr(1)
            else:
                extra.append((x, 1))
    return coef, _mono(out), extra


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if a.op == "ite" and b.op == "num":
        pass
    d = dict(polyd(a))
    for m, c in polyd(b).items():
        d[m] = d.get(m, 0) + c
    return frompoly(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def scale(p):
    """(content coefficient, normalised poly)"""
    d = polyd(p)
    if len(d) < 2:
        return Fr(1), p
    m = min(d.keys(), key=lambda m: (m.h, m.id))
    c = d[m]
    if c == 1:
        return Fr(1), p
    return c, frompoly({k: v / c for k, v in d.items()})


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    if b.op == "num":
        a, b = b, a
    if a.op == "num":
        c = a.args[0]
        return frompoly({m: k * c for m, k in polyd(b).items()})
    da, db = polyd(a), polyd(b)
    # cancel a polynomial factor against its own inverse atom
    if len(da) > 1 and len(db) == 1:
        r = _cancel(a, b)
        if r is not None:
            return r
    if len(db) > 1 and len(da) == 1:
        r = _cancel(b, a)
        if r is not None:
            return r
    if len(da) * len(db) > MAXTERMS:
        if len(da) > 1 and len(db) > 1:
            ca, pa = scale(a)
            cb, pb = scale(b)
            return frompoly({mk("mono", mk("prod", *sorted((pa, pb), key=lambda t: t.h)), Fr(1)): ca * cb})
    out = {}
    acc = None
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            c, m, extra = mono_mul(m1, m2)
            c = c * c1 * c2
            if not extra:
                out[m] = out.get(m, 0) + c
            else:
                t = frompoly({m: c})
                for p, e in extra:
                    for _ in range(e):
                        t = mul(t, p)
                acc = t if acc is None else add(acc, t)
    r = frompoly(out)
    return r if acc is None else add(r, acc)


def _cancel(p, m):
    """p polynomial (>1 terms) times monomial m: if m holds p^-k cancel one"""
    (mm, c), = polyd(m).items()
    cp, np_ = scale(p)
    d = monod(mm)
    e = d.get(np_)
    if e is not None:
        d[np_] = e + 1
        c2, m2, extra = mono_norm(d)
        t = frompoly({m2: c2 * c * cp})
        for q, k in extra:
            for _ in range(k):
                t = mul(t, q)
        return t
    return None


def power(t, e):
    """t ** e, e rational"""
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        v = t.args[0]
        if isint(e):
            if v == 0 and e < 0:
                return mk("app", "inv", ZERO)
            return num(v ** int(e))
        if v >= 0:
            import math
            if e.denominator == 2:
                n = math.isqrt(v.numerator)
                d = math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return power(num(Fr(n, d)), e.numerator)
            if v == 0:
                return ZERO
            c, m, _ = mono_norm({t: e})
            return frompoly({m: c})
        return mk("app", "pow", t, num(e))
    d = polyd(t)
    if len(d) == 1:
        (m, c), = d.items()
        if c < 0 and not isint(e):
            return mk("app", "pow", t, num(e))
        r = power(num(c), e)
        md = {}
        for a, k in monod(m).items():
            ne = k * e
            if not isint(e) and isint(k) and k % 2 == 0 and isint(ne) and ne % 2 != 0:
                a = abs_(a)
            md[a] = md.get(a, 0) + ne
        c2, m2, extra = mono_norm(md)
        r = mul(r, frompoly({m2: c2}))
        for q, k in extra:
            for _ in range(k):
                r = mul(r, q)
        return r
    if isint(e) and e > 0 and len(d) ** min(int(e), 6) <= MAXTERMS:
        r = ONE
        for _ in range(int(e)):
            r = mul(r, t)
        return r
    if isint(e) and e > 0:
        c, p = scale(t)
        return frompoly({mk("mono", mk("ppow", p, int(e)), Fr(1)): c ** int(e)})
    # inverse / root of a sum: one normalised atom
    if isint(e):
        c, p = scale(t)
        return mul(num(c ** int(e)), frompoly({mk("mono", p, e): Fr(1)}))
    c, p = scale(t)
    if c > 0:
        return mul(power(num(c), e), frompoly({mk("mono", p, e): Fr(1)}))
    return mul(power(num(-c), e), frompoly({mk("mono", neg(p), e): Fr(1)}))


def div(a, b):
    if b.op == "num" and b.args[0] != 0:
        return mul(num(1 / b.args[0]), a)
    if a is b:
        return ONE
    if a.op == "poly" and b.op == "poly":
        ca, pa = scale(a)
        cb, pb = scale(b)
        if pa is pb:
            return num(ca / cb)
    return mul(a, power(b, -1))


def exp_(x):
    if x is ZERO:
        return ONE
    if x.op == "app" and x.args[0] == "ln":
        return x.args[1]
    d = polyd(x)
    # exp(c*ln a + rest): pull the logs out
    logs = [(m, c) for m, c in d.items() if len(m.args) == 2 and m.args[1] == 1 and m.args[0].op == "app" and m.args[0].args[0] == "ln"]
    if logs:
        rest = frompoly({m: c for m, c in d.items() if not any(m is l for l, _ in logs)})
        r = exp_(rest)
        for m, c in logs:
            r = mul(r, power(m.args[0].args[1], c))
        return r
    return mk("app", "exp", x)


def ln_(x):
    if x is ONE:
        return ZERO
    if x.op == "app" and x.args[0] == "exp":
        return x.args[1]
    d = polyd(x)
    if len(d) == 1 and x.op != "num":
        (m, c), = d.items()
        if c > 0 and (c != 1 or len(m.args) != 2 or m.args[1] != 1):
            r = ZERO if c == 1 else mk("app", "ln", num(c))
            for a, e in monod(m).items():
                r = add(r, mul(num(e), ln_(a)))
            return r
    if x.op == "num" and x.args[0] > 0 and x.args[0] < 1:
        return neg(mk("app", "ln", num(1 / x.args[0])))
    if x.op == "poly":
        # factors common to every term: ln(S/K + f/K) = ln(S + f) - ln K
        com = None
        for m in d:
            md = monod(m)
            com = dict(md) if com is None else {a: min(e, md.get(a, 0)) if a in md or e < 0 else 0 for a, e in com.items()} | {a: e for a, e in md.items() if e < 0 and a not in com}
            com = {a: e for a, e in com.items() if e}
        if com:
            y = x
            r = ZERO
            for a, e in com.items():
                y = mul(y, power(a, -e))
                r = add(r, mul(num(e), ln_(a)))
            if y is not x:
                return add(r, ln_(y))
    return mk("app", "ln", x)


def abs_(x):
    if x.op == "num":
        return num(abs(x.args[0]))
    if x.op == "app" and x.args[0] in ("abs", "exp"):
        return x
    d = polyd(x)
    m = min(d.keys(), key=lambda m: (m.h, m.id))
    if d[m] < 0:
        x = neg(x)
    return mk("app", "abs", x)


def oriented(x):
    """(x or -x, a choice that depends on the value and not on how it is written, flipped?)"""
    return (neg(x), True) if 2 * fp(x) > FIELD else (x, False)


def ncdf(x):
    """standard normal distribution function: N(-x) = 1 - N(x)"""
    if x is ZERO:
        return num(Fr(1, 2))
    if x.op == "ite":
        return ite(x.args[0], ncdf(x.args[1]), ncdf(x.args[2]))
    y, f = oriented(x)
    r = mk("app", "ncdf", y)
    return sub(ONE, r) if f else r


def npdf(x):
    if x.op == "ite":
        return ite(x.args[0], npdf(x.args[1]), npdf(x.args[2]))
    return mk("app", "npdf", oriented(x)[0] if x is not ZERO else x)


def sqrt_(x):
    return power(x, Fr(1, 2))


# ---------------------------------------------------------------- booleans
def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "ite":
        a = c.args
        if a[1] is FALSE and a[2] is TRUE:
            return a[0]
        return ite(a[0], bnot(a[1]), bnot(a[2]))
    return mk("ite", c, FALSE, TRUE)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return ite(a, b, FALSE)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return ite(a, TRUE, b)


def isneg(c):
    return c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE


def is_struct(t):
    return t.op in ("variant", "tuple", "closure")


def assume(t, c, v):
    """cheap simplification of the top of t under c == v"""
    while t.op == "ite":
        k = t.args[0]
        if k is c:
            t = t.args[1] if v else t.args[2]
        elif v and k.op == "ite" and k.args[2] is FALSE and k.args[0] is c:
            t = ite(k.args[1], t.args[1], t.args[2])
        else:
            break
    if t is c:
        return boolc(v)
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isneg(c):
        return ite(c.args[0], b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a.op == b.op and is_struct(a) and len(a.args) == len(b.args):
        if a.op == "tuple" or (a.op in ("variant",) and a.args[:2] == b.args[:2]) or (a.op == "closure" and a.args[0] == b.args[0]):
            args = []
            for x, y in zip(a.args, b.args):
                if isinstance(x, T):
                    args.append(ite(c, x, y))
                else:
                    args.append(x)
            return mk(a.op, *args)
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y) keeps `||` chains flat
    if b.op == "ite" and b.args[1] is a and a not in (TRUE, FALSE):
        return ite(bor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a and a not in (TRUE, FALSE):
        return ite(bor(c, bnot(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[2] is b and b not in (TRUE, FALSE):
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b and b not in (TRUE, FALSE):
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    # max / min
    if c.op == "lt" and a not in (TRUE, FALSE):
        d = sub(a, b)
        if d is c.args[0]:      # a-b < 0 ? a : b
            return mm("min", a, b)
        if neg(d) is c.args[0]:
            return mm("max", a, b)
    return mk("ite", c, a, b)


def mm(f, a, b):
    if a.op == "num" and b.op == "num":
        return num((max if f == "max" else min)(a.args[0], b.args[0]))
    if a is b:
        return a
    if a is ZERO:
        a, b = b, a
    if b is ZERO and a.op in ("poly", "ite") or b is ZERO and not is_struct(a) and a.op != "num":
        n = neg(a)          # max(-x,0) = max(x,0) - x ; min(x,0) = x - max(x,0)
        if (n.h, n.id) < (a.h, a.id):
            r = sub(mk("app", "max", n, ZERO), n)
            return r if f == "max" else sub(a, r)
        r = mk("app", "max", a, ZERO)
        return r if f == "max" else sub(a, r)
    if (b.h, b.id) < (a.h, a.id):
        a, b = b, a
    return mk("app", f, a, b)


def lt(a, b):
    """a < b as a normalised atom lt(p) meaning p < 0"""
    d = sub(a, b)
    return ltz(d)


INTS = set()


def ltz(d):
    if d.op == "num":
        return boolc(d.args[0] < 0)
    # sign-preserving scaling by the absolute leading coefficient
    p = polyd(d)
    m = min((m for m in p if m is not ONEM), key=lambda m: (m.h, m.id))
    c = abs(p[m])
    if c != 1:
        d = frompoly({k: v / c for k, v in p.items()})
    return mk("lt", d)


def le(a, b):
    return bnot(lt(b, a))


def lt_i(a, b):
    """integer a < b: canonical polarity so that a<=b and not(b<a) and a<b+1 agree"""
    d = sub(a, b)
    return ltz_i(d)


def ltz_i(d):
    if d.op == "num":
        return boolc(d.args[0] < 0)
    p = polyd(d)
    for m, c in p.items():
        if len(m.args) == 2 and m.args[1] == 1 and m.args[0].op == "app" and m.args[0].args[0] in ("max", "min"):
            f, x, y = m.args[0].args
            r = dict(p)
            del r[m]
            r = frompoly(r)
            u, v = ltz_i(add(r, mul(num(c), x))), ltz_i(add(r, mul(num(c), y)))
            return band(u, v) if (f == "max") == (c > 0) else bor(u, v)
    r = ymd_cmp(p)
    if r is not None:
        return r
    # normalise sign: leading coefficient positive, d < 0 ; else  not(-d-1 < 0)
    m = min((m for m in p if m is not ONEM), key=lambda m: (m.h, m.id))
    if p[m] < 0:
        return bnot(ltz_i(add(neg(d), num(-1))))
    return mk("lti", d)


def ymd_cmp(p):
    """order of two explicit dates, when the years or months settle it"""
    k = p.get(ONEM, Fr(0))
    if len(p) - (1 if ONEM in p else 0) != 2 or k not in (0, -1):
        return None
    A = B = None
    for m, c in p.items():
        if m is ONEM:
            continue
        if len(m.args) != 2 or m.args[1] != 1 or m.args[0].op != "app" or m.args[0].args[0] != "ymd":
            return None
        if c == 1:
            A = m.args[0]
        elif c == -1:
            B = m.args[0]
    if A is None or B is None:
        return None
    for i in (1, 2):
        d = sub(A.args[i], B.args[i])
        if d.op != "num":
            return None
        if d.args[0] != 0:
            return boolc(d.args[0] < 0)
    return ltz_i(add(sub(A.args[3], B.args[3]), num(k)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] == b.args[0])
    if a.op == "str" and b.op == "str":
        return boolc(a.args[0] == b.args[0])
    if a.op == "disc" and b.op == "disc" and a.args[1] == b.args[1]:
        ad = ADTS.get(a.args[1])
        if ad and all(not v["f"] for v in ad["v"]):
            return eq(a.args[0], b.args[0])
    if a in (TRUE, FALSE):
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return bnot(a)
    if a.op in ("lt", "lti", "is", "eq") or b.op in ("lt", "lti", "is", "eq"):
        return ite(a, b, bnot(b))
    if a.op == "ite" and (b.op in ("num", "variant", "str", "chr") or b.op == "bv"):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (a.op in ("num", "variant", "str", "chr")):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == "variant" and b.op == "variant":
        if a.args[0] != b.args[0] or a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = band(r, eq(x, y))
        return r
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, eq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == "app" and x.args[0] == "charstr":
            if y.op == "str":
                return eq(x.args[1], mk("chr", y.args[0])) if len(y.args[0]) == 1 else FALSE
            if y.op == "app" and y.args[0] == "charstr":
                return eq(x.args[1], y.args[1])
    if a.op == "chr" and b.op == "chr":
        return boolc(a.args[0] == b.args[0])
    if a.op == "variant":
        a, b = b, a
    if b.op == "variant":
        r = isv(a, b.args[0], b.args[1])
        for i, y in enumerate(b.args[2:]):
            r = band(r, eq(field(a, b.args[0], b.args[1], i), y))
        return r
    if a.op in ("poly", "num") or b.op in ("poly", "num"):
        d = sub(a, b)
        if d.op == "num":
            return boolc(d.args[0] == 0)
        p = polyd(d)
        m = min((m for m in p if m is not ONEM), key=lambda m: (m.h, m.id))
        c = p[m]
        d = frompoly({k: v / c for k, v in p.items()})
        q = polyd(d)
        k = -q.pop(ONEM, Fr(0))
        return mk("eq", frompoly(q), num(k))
    if (b.h, b.id) < (a.h, a.id):
        a, b = b, a
    return mk("eq", a, b)


# ---------------------------------------------------------------- data
ADTS = {}   # path -> adt json ("enum", "v": [{n,d,f}])


def variant(adt, idx, *fields):
    if adt in ADTS and not ADTS[adt]["enum"] and fields:
        # eta: S{f0:t.0, .., fn:t.n} is t
        f0 = fields[0]
        if f0.op == "field" and f0.args[1] == adt and f0.args[3] == 0:
            t = f0.args[0]
            if all(x.op == "field" and x.args[0] is t and x.args[3] == i for i, x in enumerate(fields)):
                return t
    return mk("variant", adt, idx, *fields)


def nvariants(adt):
    a = ADTS.get(adt)
    return len(a["v"]) if a else None


def isv(t, adt, idx):
    if t.op == "variant":
        return boolc(t.args[1] == idx)
    if t.op == "ite":
        return ite(t.args[0], isv(t.args[1], adt, idx), isv(t.args[2], adt, idx))
    n = nvariants(adt)
    if n == 1:
        return TRUE
    if n == 2 and idx == 0:
        return bnot(isv(t, adt, 1))
    return mk("is", t, adt, idx)


def field(t, adt, v, i):
    """i-th field of variant v (adt may be None for tuples/closures)"""
    if t.op == "variant":
        if v is not None and t.args[1] != v:
            return mk("undef")
        if 2 + i < len(t.args):
            return t.args[2 + i]
        return mk("undef")
    if t.op == "tuple":
        return t.args[i] if i < len(t.args) else mk("undef")
    if t.op == "closure":
        return t.args[1 + i]
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if a.op == "variant" and v is not None and a.args[1] != v:
            return field(b, adt, v, i)
        if b.op == "variant" and v is not None and b.args[1] != v:
            return field(a, adt, v, i)
        x, y = field(a, adt, v, i), field(b, adt, v, i)
        if x.op == "undef":
            return y
        if y.op == "undef":
            return x
        return ite(t.args[0], x, y)
    return mk("field", t, adt, v, i)


def setfield(t, adt, v, i, val, n=None):
    if t.op == "variant" and (v is None or t.args[1] == v):
        a = list(t.args)
        a[2 + i] = val
        return variant(a[0], a[1], *a[2:])
    if t.op in ("tuple",):
        a = list(t.args)
        a[i] = val
        return mk("tuple", *a)
    if t.op == "closure":
        a = list(t.args)
        a[1 + i] = val
        return mk("closure", *a)
    if adt in ADTS:
        vv = v or 0
        nf = len(ADTS[adt]["v"][vv]["f"])
        fs = [field(t, adt, vv if ADTS[adt]["enum"] else None, k) for k in range(nf)]
        fs[i] = val
        return variant(adt, vv, *fs)
    if n:
        fs = [field(t, None, None, k) for k in range(n)]
        fs[i] = val
        return mk("tuple", *fs)
    return mk("setfield", t, v, i, val)


NONE = None
OPT = "core::option::Option"
RES = "core::result::Result"


def none():
    return mk("variant", OPT, 0)


def some(x):
    return mk("variant", OPT, 1, x)


def ok(x):
    return mk("variant", RES, 0, x)


def err(x):
    return mk("variant", RES, 1, x)


def is_some(t):
    return isv(t, OPT, 1)


def is_ok(t):
    return bnot(isv(t, RES, 1))


def payload(t):
    return field(t, OPT, 1, 0)


def okv(t):
    return field(t, RES, 0, 0)


def errv(t):
    return field(t, RES, 1, 0)


# ------------------------------------------------------------- sequences
def vlen(v):
    if v.op == "vec":
        return num(len(v.args))
    if v.op == "bytes":
        return num(len(v.args[0]))
    if v.op == "store":
        return vlen(v.args[0])
    if v.op == "push":
        return add(vlen(v.args[0]), ONE)
    if v.op in ("mapvec", "repeat"):
        return v.args[0]
    if v.op == "ite":
        return ite(v.args[0], vlen(v.args[1]), vlen(v.args[2]))
    if v.op == "subslice":
        return sub(v.args[2], v.args[1])
    if v.op == "cat":
        return add(vlen(v.args[0]), vlen(v.args[1]))
    if v.op == "app" and v.args[0] == "sorted":
        return vlen(v.args[1])
    return mk("len", v)


def select(v, i):
    if v.op == "vec" and i.op == "num" and 0 <= i.args[0] < len(v.args):
        return v.args[int(i.args[0])]
    if v.op == "store":
        e = eq(v.args[1], i)
        if e is TRUE:
            return v.args[2]
        if e is FALSE:
            return select(v.args[0], i)
        return ite(e, v.args[2], select(v.args[0], i))
    if v.op == "push":
        e = eq(i, vlen(v.args[0]))
        if e is TRUE:
            return v.args[1]
        if e is FALSE:
            return select(v.args[0], i)
        return ite(e, v.args[1], select(v.args[0], i))
    if v.op == "repeat":
        return v.args[1]
    if v.op == "mapvec":
        # args: n, body over bv(level,0), level
        return subst(v.args[1], {mk("bv", v.args[2], 0): i})
    if v.op == "subslice":
        return select(v.args[0], add(v.args[1], i))
    if v.op == "cat":
        return ite(lt_i(i, vlen(v.args[0])), select(v.args[0], i), select(v.args[1], sub(i, vlen(v.args[0]))))
    if v.op == "ite":
        return ite(v.args[0], select(v.args[1], i), select(v.args[2], i))
    return mk("sel", v, i)


def store(v, i, x):
    if v.op == "repeat" and i.op == "num" and v.args[0].op == "num" and 0 <= i.args[0] < v.args[0].args[0] <= 16:
        v = mk("vec", *[v.args[1]] * int(v.args[0].args[0]))
    if v.op == "vec" and i.op == "num" and 0 <= i.args[0] < len(v.args):
        a = list(v.args)
        a[int(i.args[0])] = x
        return mk("vec", *a)
    if v.op == "store" and v.args[1] is i:
        return store(v.args[0], i, x)
    if v.op == "push":
        e = eq(i, vlen(v.args[0]))
        if e is TRUE:
            return push(v.args[0], x)
        if e is FALSE:
            return push(store(v.args[0], i, x), v.args[1])
    if v.op == "sel" or True:
        if x.op == "sel" and x.args[0] is v and x.args[1] is i:
            return v
    return mk("store", v, i, x)


def push(v, x):
    if v.op == "vec":
        return mk("vec", *(v.args + (x,)))
    return mk("push", v, x)


# ------------------------------------------------------------- rebuild
def rebuild(op, args):
    """re-normalise a node whose children changed"""
    if op == "poly":
        r = ZERO
        for i in range(0, len(args), 2):
            m = args[i + 1]
            if m.op == "mono":
                r = add(r, frompoly({m: args[i]}))
            else:
                r = add(r, mul(num(args[i]), m))
        return r
    if op == "mono":
        r = ONE
        for i in range(0, len(args), 2):
            r = mul(r, power(args[i], args[i + 1]))
        return r
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return ltz(args[0])
    if op == "lti":
        return ltz_i(args[0])
    if op == "eq":
        return eq(*args)
    if op == "is":
        return isv(*args)
    if op == "field":
        return field(*args)
    if op == "setfield":
        return mk(op, *args)
    if op == "variant":
        return variant(*args)
    if op == "sel":
        return select(*args)
    if op == "store":
        return store(*args)
    if op == "push":
        return push(*args)
    if op == "len":
        return vlen(args[0])
    if op == "prod":
        return mul(args[0], args[1])
    if op == "ppow":
        return power(args[0], args[1])
    if op == "app":
        f = args[0]
        if f == "exp":
            return exp_(args[1])
        if f == "ln":
            return ln_(args[1])
        if f == "abs":
            return abs_(args[1])
        if f in ("max", "min") and len(args) == 3:
            return mm(f, args[1], args[2])
        if f == "pow":
            if args[2].op == "num":
                return power(args[1], args[2].args[0])
        h = REBUILD.get(f)
        if h:
            return h(*args[1:])
    if op == "disc":
        return disc(*args)
    return mk(op, *args)


REBUILD = {}

# conjunctions of literals that cannot all hold, by literal
NEVER = {}


def paths(c, want, cap=16):
    """the literal conjunctions under which the decision diagram c is `want` (None: too many)"""
    if c in (TRUE, FALSE):
        return [()] if (c is TRUE) == want else []
    if c.op != "ite":
        return [((c, want),)]
    a, x, y = c.args
    if x is FALSE and y is TRUE:
        return paths(a, not want, cap)
    out = []
    for v, br in ((True, x), (False, y)):
        q = paths(br, want, cap)
        if q is None:
            return None
        if not q:
            continue
        p = paths(a, v, cap)
        if p is None or len(out) + len(p) * len(q) > cap:
            return None
        for s in p:
            for t in q:
                m = dict(s)
                if all(m.setdefault(l, w) == w for l, w in t):
                    out.append(tuple(m.items()))
    return out


def never(c):
    for ls in paths(c, True) or ():
        if len(ls) > 1:
            for a, v in ls:
                l = NEVER.setdefault(a, [])
                if ls not in l:
                    l.append(ls)


def ymd_ok(y, mo, d):
    if mo.op == "num" and not (1 <= mo.args[0] <= 12):
        return FALSE
    if d.op == "num" and not (1 <= d.args[0] <= 31):
        return FALSE
    if mo.op == "num" and d.op == "num":
        m_, dd = int(mo.args[0]), int(d.args[0])
        if dd <= [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m_ - 1]:
            return TRUE
        if dd > 29 or m_ != 2:
            return FALSE
    return mk("app", "ymd_ok", y, mo, d)


REBUILD["ymd_ok"] = ymd_ok
REBUILD["ncdf"] = ncdf
REBUILD["npdf"] = npdf


def disc(t, adt):
    if t.op == "variant":
        a = ADTS.get(adt)
        if a:
            return num(a["v"][t.args[1]]["d"])
        return num(t.args[1])
    if t.op == "ite":
        return ite(t.args[0], disc(t.args[1], adt), disc(t.args[2], adt))
    a = ADTS.get(adt)
    if a and len(a["v"]) <= 8 and all(not v.get("f") for v in a["v"]) and any(v["d"] != i for i, v in enumerate(a["v"])):
        r = num(a["v"][-1]["d"])
        for i in range(len(a["v"]) - 2, -1, -1):
            r = ite(isv(t, adt, i), num(a["v"][i]["d"]), r)
        return r
    return mk("disc", t, adt)


def subst(t, m, memo=None):
    """simultaneous substitution of terms by terms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keyl = any(k.op == "lv" for k in m)
    keyb = max((k.args[0] for k in m if k.op == "bv"), default=0)
    gen = any(k.op not in ("lv", "bv") for k in m)
    levs = {k.args[0] for k in m if k.op == "bv"}
    sub = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not gen:
            if not ((keyl and t.lvs) or (keyb and t.bl >= keyb)):
                return t
        r = memo.get(t)
        if r is not None:
            return r
        ch = False
        na = []
        inner, own = go, ()
        if keyb and t.op in ("loop", "sum", "mapvec", "lam"):
            lev = t.args[0] if t.op in ("loop", "sum") else t.args[2]
            if lev in levs:
                # the binder's own variables are not the ones replaced
                if lev not in sub:
                    m2 = {k: v for k, v in m.items() if not (k.op == "bv" and k.args[0] == lev)}
                    sub[lev] = (m2, {})
                inner = lambda a: subst(a, *sub[lev])
                own = range(4, 4 + t.args[1]) if t.op in ("loop", "sum") else ((0,) if t.op == "mapvec" else ())
        for i, a in enumerate(t.args):
            if isinstance(a, T):
                b = go(a) if i in own or inner is go else inner(a)
                if b is not a:
                    ch = True
                na.append(b)
            else:
                na.append(a)
        if not ch:
            r = t
        elif t.op == "mono":
            r = rebuild("mono", na)
        else:
            r = rebuild(t.op, na)
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, d=12):
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.args
    if o == "num":
        return str(a[0])
    if o == "true":
        return "T"
    if o == "false":
        return "F"
    if o == "var":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if d <= 0:
        return "…"
    d -= 1
    if o == "poly":
        ps = []
        for i in range(0, len(a), 2):
            c, m = a[i], a[i + 1]
            s = show(m, d)
            if m is ONEM:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            ps.append(s)
        return "(" + " + ".join(ps) + ")"
    if o == "mono":
        return "*".join(show(a[i], d) + ("" if a[i + 1] == 1 else "^%s" % a[i + 1]) for i in range(0, len(a), 2)) or "1"
    if o == "ite":
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + show(a[0], d)
        if a[2] is FALSE:
            return "(%s && %s)" % (show(a[0], d), show(a[1], d))
        if a[1] is TRUE:
            return "(%s || %s)" % (show(a[0], d), show(a[2], d))
        return "if(%s ? %s : %s)" % tuple(show(x, d) for x in a)
    if o in ("lt", "lti"):
        return "[%s<0]" % show(a[0], d)
    if o == "eq":
        return "[%s==%s]" % (show(a[0], d), show(a[1], d))
    if o == "is":
        n = ADTS.get(a[1], {}).get("v")
        return "is(%s,%s)" % (show(a[0], d), n[a[2]]["n"] if n else a[2])
    if o == "variant":
        n = ADTS.get(a[0])
        nm = a[0].split("::")[-1]
        if n and n["enum"]:
            nm = n["v"][a[1]]["n"]
        return nm + ("(" + ", ".join(show(x, d) for x in a[2:]) + ")" if len(a) > 2 else "")
    if o == "field":
        ad = ADTS.get(a[1])
        if ad:
            try:
                nm = ad["v"][a[2] or 0]["f"][a[3]][0]
            except IndexError:
                nm = a[3]
            vn = "" if not ad["enum"] else ad["v"][a[2] or 0]["n"] + "."
            return "%s.%s%s" % (show(a[0], d), vn, nm)
        return "%s.%s" % (show(a[0], d), a[3])
    if o == "app":
        return "%s(%s)" % (str(a[0]).split("finquant::")[-1], ", ".join(show(x, d) for x in a[1:]))
    if o == "sel":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "bv":
        return "k%d_%d" % (a[0], a[1])
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------- fingerprints
# The value of a term at a random point of a prime field, what is not arithmetic
# being an unknown named by its own fingerprint: equal for terms that are equal as
# rational functions, however their denominators are written (Schwartz-Zippel).
FIELD = (1 << 61) - 1
_fp = {}


def _unknown(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode() + b"\0")
    return int.from_bytes(m.digest(), "little") % (FIELD - 1) + 1


def _raise(v, a, e):
    n = e.numerator // e.denominator
    if v == 0 and n < 0:
        return _unknown("pole", a.h)
    r = pow(v, n, FIELD)
    if e != n:                      # a power with a fraction: a whole power times a root
        e -= n
        r = r * pow(_unknown("root", v, e.denominator), e.numerator, FIELD) % FIELD
    return r


def fp(t):
    r = _fp.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "num":
        v = t.args[0]
        r = v.numerator * pow(v.denominator, -1, FIELD) % FIELD
    elif o == "poly":
        r = 0
        for m, c in polyd(t).items():
            x = c.numerator * pow(c.denominator, -1, FIELD)
            for i in range(0, len(m.args), 2):
                x = x * _raise(fp(m.args[i]), m.args[i], m.args[i + 1]) % FIELD
            r += x
        r %= FIELD
    elif o == "prod":
        r = 1
        for a in t.args:
            r = r * fp(a) % FIELD
    elif o == "ppow":
        r = _raise(fp(t.args[0]), t.args[0], Fr(t.args[1]))
    else:
        r = _unknown(o, *[("t", fp(a)) if isinstance(a, T) else a for a in t.args])
    _fp[t] = r
    return r
