"""Denotation of date predicates as sets of days (a powerset abstract domain).

Every predicate of one date variable over [1901-01-01, 2199-12-31] denotes the
set of days it holds on; the set is computed from the value graph by set
algebra (ite -> (C & A) | (~C & B)), never by running the function.  Integer
valued subterms denote a partition value -> set of days.
"""
import datetime as dt
from fractions import Fraction as Fr
from term import *
import term as tm

D0 = dt.date(1901, 1, 1)
D1 = dt.date(2199, 12, 31)
N = (D1 - D0).days + 1
ALL = (1 << N) - 1
WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
EPOCH_ADT_WEEKDAY = "chrono::weekday::Weekday"


def dates(bits):
    out = []
    i = 0
    s = bin(bits)[2:][::-1]
    j = s.find("1")
    while j >= 0:
        out.append(D0 + dt.timedelta(j))
        j = s.find("1", j + 1)
    return out


_parts = {}


def part(kind):
    p = _parts.get(kind)
    if p is None:
        f = {"year": lambda d: d.year, "month": lambda d: d.month, "day": lambda d: d.day,
             "ordinal": lambda d: d.timetuple().tm_yday, "wd": lambda d: d.weekday()}[kind]
        acc = {}
        for i in range(N):
            acc.setdefault(f(D0 + dt.timedelta(i)), []).append(i)
        p = {}
        for v, l in acc.items():
            b = bytearray((N + 7) // 8)
            for i in l:
                b[i >> 3] |= 1 << (i & 7)
            p[v] = int.from_bytes(b, "little")
        _parts[kind] = p
    return p


def shift(b, k):
    """{d : d + k in b}"""
    if k == 0:
        return b
    return (b >> k) if k > 0 else (b << -k) & ALL


class Undecided(Exception):
    pass


class Days:
    """evaluate terms over the single date variable `dv`"""

    def __init__(self, dv, consts=None, hook=None):
        self.dv = dv
        self.memo = {}
        self.hook = hook

    def bool(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self.b(t)
        self.memo[t] = r
        return r

    def b(self, t):
        o = t.op
        if t is TRUE:
            return ALL
        if t is FALSE:
            return 0
        if o == "ite":
            c = self.bool(t.args[0])
            if c == ALL:
                return self.bool(t.args[1])
            if c == 0:
                return self.bool(t.args[2])
            return (c & self.bool(t.args[1])) | (~c & ALL & self.bool(t.args[2]))
        if o == "is":
            x = t.args[0]
            if x.op == "app" and x.args[0] == "weekday":
                k = self.off(x.args[1])
                if k is not None:
                    n = ADTS[t.args[1]]["v"][t.args[2]]["n"]
                    return shift(part("wd")[WD.index(n)], k)
        if o in ("lti", "lt"):
            p = self.int(t.args[0])
            r = 0
            for v, s in p.items():
                if v < 0:
                    r |= s
            return r
        if o == "eq":
            x, y = t.args
            if x.op == "app" and x.args[0] == "weekday" and y.op == "app" and y.args[0] == "weekday":
                pass
            r = self.dateeq(x, y)
            if r is not None:
                return r
            q = self.int(sub(x, y))
            r = 0
            return q.get(0, 0)
        if o == "app" and t.args[0] == "leap":
            k = self.off(t.args[1])
            y = self.int(t.args[1]) if k is None else {v: shift(b, k) for v, b in part("year").items()}
            r = 0
            for v, s in y.items():
                v = int(v)
                if v % 4 == 0 and (v % 100 != 0 or v % 400 == 0):
                    r |= s
            return r
        if self.hook:
            r = self.hook(self, t)
            if r is not None:
                return r
        raise Undecided("predicate " + show(t, 6))

    def off(self, t):
        """t == dv + k -> k"""
        if t is self.dv:
            return 0
        d = sub(t, self.dv)
        if d.op == "num" and d.args[0].denominator == 1:
            return int(d.args[0])
        return None

    def one(self, d):
        if not (D0 <= d <= D1):
            return 0
        return 1 << (d - D0).days

    def dateeq(self, x, y):
        if self.off(x) is None:
            x, y = y, x
        k = self.off(x)
        if k is not None and y.op == "num":
            i = int(y.args[0]) - k
            return None
        if k is not None and y.op == "app" and y.args[0] == "ymd" and all(a.op == "num" for a in y.args[1:4]):
            try:
                return shift(self.one(dt.date(*[int(a.args[0]) for a in y.args[1:4]])), k)
            except ValueError:
                return 0
        return None

    def int(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self.i(t)
        self.memo[t] = r
        return r

    def i(self, t):
        o = t.op
        if o == "num":
            return {t.args[0]: ALL}
        if o == "app":
            n = t.args[0]
            if n in ("year", "month", "day", "ordinal"):
                k = self.off(t.args[1])
                if k is not None:
                    return {Fr(v): shift(b, k) for v, b in part(n).items()}
            if n in ("irem", "idiv"):
                a, b = self.int(t.args[1]), self.int(t.args[2])
                return self.lift(lambda x, y: Fr(_irem(int(x), int(y)) if n == "irem" else _idiv(int(x), int(y))), a, b)
            if n in ("floor", "ceil", "trunc"):
                import math
                g = {"floor": math.floor, "ceil": math.ceil, "trunc": int}[n]
                out = {}
                for v, b in self.int(t.args[1]).items():
                    # the float computation may round across an integer boundary only next to one
                    if v.denominator != 1 and abs(v - round(v)) < Fr(1, 10 ** 9):
                        raise Undecided("rounding next to an integer")
                    k = Fr(g(v))
                    out[k] = out.get(k, 0) | b
                return out
            if n in ("i32::div_euclid", "i64::div_euclid", "i32::rem_euclid", "i64::rem_euclid"):
                a, b = self.int(t.args[1]), self.int(t.args[2])
                g = (lambda x, y: Fr((x - (x % abs(y))) // y)) if n.endswith("div_euclid") else (lambda x, y: Fr(x % abs(y)))
                return self.lift(lambda x, y: g(int(x), int(y)), a, b)
            if n in ("max", "min"):
                return self.lift(max if n == "max" else min, self.int(t.args[1]), self.int(t.args[2]))
            if n == "wdnum":
                x = t.args[1]
                if x is self.dv or (x.op == "app" and x.args[0] == "weekday" and x.args[1] is self.dv):
                    return {Fr(k): v for k, v in part("wd").items()}
        if o == "poly":
            tot = {Fr(0): ALL}
            for m, c in polyd(t).items():
                if m is ONEM:
                    tot = {k + c: s for k, s in tot.items()}
                    continue
                x = {Fr(1): ALL}
                for i in range(0, len(m.args), 2):
                    e = m.args[i + 1]
                    if e.denominator != 1 or e < 0:
                        raise Undecided("power")
                    x = self.lift(lambda u, v: u * v ** int(e), x, self.int(m.args[i]))
                tot = self.lift(lambda u, v: u + c * v, tot, x)
            return tot
        if o == "ite":
            c = self.bool(t.args[0])
            out = {}
            if c:
                for k, s in self.int(t.args[1]).items():
                    if s & c:
                        out[k] = out.get(k, 0) | (s & c)
            nc = ALL & ~c
            if nc:
                for k, s in self.int(t.args[2]).items():
                    if s & nc:
                        out[k] = out.get(k, 0) | (s & nc)
            return out
        if o == "sel" and t.args[0].op == "vec":
            v = t.args[0].args
            out = {}
            for k, s in self.int(t.args[1]).items():
                if k.denominator == 1 and 0 <= k < len(v) and v[int(k)].op == "num":
                    x = v[int(k)].args[0]
                    out[x] = out.get(x, 0) | s
            return out
        if o == "disc" and t.args[0].op == "app" and t.args[0].args[0] == "weekday":
            return {Fr(k): v for k, v in part("wd").items()}
        if self.hook:
            r = self.hook(self, t)
            if r is not None:
                return r
        raise Undecided("integer " + show(t, 6))

    def lift(self, f, a, b):
        out = {}
        if len(a) * len(b) > 2000000:
            raise Undecided("partition too fine")
        for x, s in a.items():
            for y, u in b.items():
                w = s & u
                if w:
                    k = f(x, y)
                    out[k] = out.get(k, 0) | w
        return out


def _irem(x, y):
    r = abs(x) % abs(y)
    return r if x >= 0 else -r


def _idiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q
