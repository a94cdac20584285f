"""Random interpretation of value graphs (after Gulwani and Necula).

Used on a pair of graphs the equivalence procedure could not identify, to tell a
genuine difference from an equality outside its theory: unknowns of both graphs are
interpreted by the same random function of their name, every operator by its meaning.
A valuation on which the two differ is a witness; without one the obligation is left
undecided and is not reported as a violation.
"""
import datetime, hashlib, math
from fractions import Fraction as Fr
from term import *
import term as tm


class Invalid(Exception):
    """the valuation is outside the domain (a panic, a singularity, a tie decided by rounding)"""


class Partial(Invalid):
    """the program would stop or run for ever here: an index out of range, a value that is not there, a loop without end"""


import os
TRACE = bool(os.environ.get('VERIF_DEBUG'))
ERR = (Invalid, RecursionError, OverflowError, ValueError, ZeroDivisionError, TypeError)


class Vr:
    __slots__ = ("adt", "idx", "f")

    def __init__(self, adt, idx, f):
        self.adt, self.idx, self.f = adt, idx, f


class Tp:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Vc:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def arith(t):
    """has this term been the operand of an addition or a multiplication?"""
    return t.op in ("poly", "num") or ("mono", (t, Fr(1))) in tm._tab


class Op:
    __slots__ = ("k", "ty", "w")

    def __init__(self, k, ty, w):
        self.k, self.ty, self.w = k, ty, w


def strip(t):
    while t is not None and (t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1].rsplit("::", 1)[-1] in ("Box", "Rc", "Arc", "RefCell", "Cell"))):
        t = t[1] if t[0] != "adt" else (t[2][0] if t[2] else None)
    if t is not None and t[0] in ("param", "proj", "dyn", "other"):
        return None
    return t


NUMK = {"f64": "f", "f32": "f", "usize": "u", "u8": "u", "u16": "u", "u32": "u", "u64": "u", "i8": "i", "i16": "i", "i32": "i", "i64": "i", "isize": "i", "u128": "u", "i128": "i"}


def numkind(t):
    if t is None:
        return None
    if t[0] == "prim":
        return NUMK.get(t[1])
    if t[0] == "adt":
        n = t[1].rsplit("::", 1)[-1]
        if n == "NaiveDate":
            return "d"
        if n in ("TimeDelta", "Duration", "Days", "Months"):
            return "i"
        if n == "NaiveTime":
            return "t"
    return None


ORD = "core::cmp::Ordering"
WD = "chrono::weekday::Weekday"
FPOS = [Fr(1, 2), Fr(1), Fr(3, 2), Fr(2), Fr(3), Fr(1, 4), Fr(5, 4), Fr(7, 3)]
FMIX = FPOS + [Fr(0), Fr(-1), Fr(-1, 2), Fr(-2)]
COIN = [Fr(1, 4), Fr(1, 2), Fr(1)]      # few values, so that quantities coincide
BASE = datetime.date(2023, 11, 20).toordinal()


class World:
    """one valuation"""

    def __init__(self, seed, consts=(), p=None, vartys=None):
        self.seed = b"%d|" % seed
        self.mode = seed % 4
        self.rare = (16, 0, 4, 1, 2)[seed % 5]
        self.consts = consts
        self.p = p
        self.vartys = vartys or {}
        self.nums = {}
        self.memo = {}
        self.vers = {}
        self.ver = 0
        self.steps = 0
        self.laps = 300
        self.stop = Invalid
        self.cap = 400000
        self.watch = ()         # comparisons brought to a tie
        self.near = 1e300
        self.coin = seed % 3 == 2
        self.over = {}          # decisions imposed by the guided search
        self.log = {}

    def h(self, *parts):
        m = hashlib.blake2b(digest_size=10)
        for x in parts:
            m.update(x if isinstance(x, bytes) else repr(x).encode())
            m.update(b"\0")
        return m.digest()

    def rnd(self, k, salt=b""):
        return int.from_bytes(hashlib.blake2b(self.seed + salt + k, digest_size=8).digest(), "little")

    # ------------------------------------------------------------ unknowns
    def num(self, v):
        if isinstance(v, bool):
            raise Invalid
        if isinstance(v, (int, float, Fr)):
            return v
        if isinstance(v, Op):
            r = self.nums.get(v.k)
            if r is None:
                r = self.over.get((v.k, "n"))
                if r is None:
                    r = self.pick(v)
                self.nums[v.k] = r
                self.log[(v.k, "n")] = (numkind(v.ty), r)
            return r
        if isinstance(v, Vr) and not v.f:
            a = ADTS.get(v.adt)
            return a["v"][v.idx]["d"] if a else v.idx
        raise Invalid

    def pick(self, v):
        kd = numkind(v.ty)
        n = self.rnd(v.k, b"n")
        c = self.rnd(v.k, b"c")
        if self.consts and c % 4 == 0 and kd != "d":
            x = self.consts[n % len(self.consts)] + [0, 0, -1, 1][(c >> 8) % 4]
            if kd in ("u",):
                return int(x) if x >= 0 else 0
            if kd in ("i", "t"):
                return int(x)
            return x
        if kd == "d":
            span = [12, 40, 400, 2500][self.mode]
            return BASE + n % span
        if kd == "t":
            return n % 86400
        if kd == "u":
            return n % [4, 6, 13, 40][self.mode]
        if kd == "i":
            return n % [4, 6, 13, 40][self.mode] - (3 if c % 3 == 0 else 0)
        if kd == "f" and self.coin:
            return COIN[n % 3]
        if kd == "f":
            l = FPOS if self.mode in (0, 2) else FMIX
            return l[n % len(l)] + (Fr(n >> 20 & 63, 64) if self.mode >= 2 else 0)
        return Fr(n % 5) if self.mode != 3 else FPOS[n % len(FPOS)]

    def bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Op):
            r = self.over.get((v.k, "b"))
            if r is None:
                r = self.rnd(v.k, b"b") & 1 == 1
            self.log[(v.k, "b")] = (None, r)
            return r
        raise Invalid

    def len(self, v):
        if isinstance(v, Vc):
            return len(v.e)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Op):
            t = strip(v.ty)
            if t is not None and t[0] == "array" and isinstance(t[2], int):
                return t[2]
            r = self.over.get((v.k, "l"))
            if r is None:
                r = self.rnd(v.k, b"l") % 4 + (1 if self.mode == 1 else 0)
            self.log[(v.k, "l")] = (None, r)
            return r
        if isinstance(v, Tp):
            return len(v.f)
        raise Invalid

    def elemty(self, t):
        t = strip(t)
        if t is None:
            return None
        if t[0] in ("slice", "array"):
            return strip(t[1])
        if t[0] == "adt" and t[2] and t[1].rsplit("::", 1)[-1] in ("Vec", "VecDeque"):
            return strip(t[2][0])
        return None

    def sel(self, v, i):
        i = self.num(i)
        if i != int(i):
            raise Invalid
        i = int(i)
        if not 0 <= i < self.len(v):
            raise Partial
        if isinstance(v, Vc):
            return v.e[i]
        if isinstance(v, str):
            return Op(self.h(b"chr", v[i]), None, self)
        return Op(self.h(v.k, b"s", i), self.elemty(v.ty), self)

    def variant_of(self, v, adt):
        if isinstance(v, Vr):
            return v.idx
        if isinstance(v, Op):
            n = tm.nvariants(adt) or 2
            r = self.over.get((v.k, "v"))
            if r is None or r >= n:
                r = self.rnd(v.k, b"v")
                if adt in (OPT, RES):
                    # failures rarer in most valuations, so that long computations are followed to their end
                    bad = r % 64 < (self.rare if adt == RES else 2 * self.rare)
                    r = int(bad) if adt == RES else int(not bad)
                else:
                    r %= n
            self.log[(v.k, "v")] = (n, r)
            return r
        if isinstance(v, (int, Fr)):
            return int(v)
        raise Invalid

    def field(self, v, adt, vi, i):
        if isinstance(v, Tp):
            if i >= len(v.f):
                raise Invalid
            return v.f[i]
        if isinstance(v, Vr):
            if vi is not None and vi != v.idx:
                raise Partial
            if i >= len(v.f):
                raise Invalid
            return v.f[i]
        if isinstance(v, Op):
            a = ADTS.get(adt)
            if a and a["enum"] and vi is not None and self.variant_of(v, adt) != vi:
                raise Partial
            return Op(self.h(v.k, b"f", vi or 0, i), self.fieldty(v.ty, adt, vi or 0, i), self)
        raise Invalid

    def fieldty(self, t, adt, vi, i):
        t = strip(t)
        if adt in (OPT, RES):
            if t is not None and t[0] == "adt" and t[1] == adt and t[2]:
                return strip(t[2][0 if adt == OPT else vi])
            return None
        if adt is None:
            if t is not None and t[0] == "tuple" and i < len(t[1]):
                return strip(t[1][i])
            return None
        a = ADTS.get(adt)
        try:
            ti = a["v"][vi]["f"][i][1]
            return strip(self.p.types[ti]) if ti >= 0 else None
        except (IndexError, KeyError, TypeError, AttributeError):
            return None

    # ---------------------------------------------------------- comparison
    def canon(self, v):
        if isinstance(v, bool):
            return b"T" if v else b"F"
        if isinstance(v, (int, float, Fr)):
            f = float(v)
            if f == 0:
                f = 0.0
            return b"%.8g" % f
        if isinstance(v, str):
            return b"s" + v.encode()
        if isinstance(v, Op):
            if numkind(v.ty):
                return self.canon(self.num(v))
            t = v.ty
            if t is not None and t == ("prim", "bool"):
                return self.canon(self.bool(v))
            if t is not None and t[0] == "adt" and t[1] in ADTS and ADTS[t[1]]["enum"] and all(not x["f"] for x in ADTS[t[1]]["v"]):
                return self.h(b"V", self.variant_of(v, t[1]))
            return v.k
        if isinstance(v, Vr):
            return self.h(b"V", v.idx, *[self.canon(x) for x in v.f])
        if isinstance(v, Tp):
            return self.h(b"P", *[self.canon(x) for x in v.f])
        if isinstance(v, Vc):
            return self.h(b"L", *[self.canon(x) for x in v.e])
        return self.h(b"?", repr(v))

    def isnum(self, v):
        return isinstance(v, (int, float, Fr)) and not isinstance(v, bool) or (isinstance(v, Op) and numkind(v.ty) is not None)

    def same(self, a, b, tol=1e-6, strict=False):
        """structural equality of two values"""
        if isinstance(a, Op) and isinstance(b, Op):
            if a.k == b.k:
                return True
            t = a.ty or b.ty
            if self.isnum(a) or self.isnum(b):
                return self.same(self.num(a), self.num(b), tol, strict)
            if t is not None and t == ("prim", "bool"):
                return self.bool(a) == self.bool(b)
            if t is not None and t[0] == "adt" and t[1] in ADTS and ADTS[t[1]]["enum"] and all(not x["f"] for x in ADTS[t[1]]["v"]):
                return self.variant_of(a, t[1]) == self.variant_of(b, t[1])
            return False
        if isinstance(a, Op):
            a, b = b, a
        if isinstance(a, bool):
            return a == self.bool(b)
        if isinstance(a, (int, float, Fr)):
            x, y = a, self.num(b)
            if isinstance(x, float) or isinstance(y, float):
                x, y = float(x), float(y)
                d = abs(x - y)
                if d <= tol * max(1.0, abs(x), abs(y)):
                    if strict and d:
                        raise Invalid
                    return True
                return False
            return x == y
        if isinstance(a, str):
            return a == b if isinstance(b, str) else False
        if isinstance(a, Vr):
            if isinstance(b, Op):
                if self.variant_of(b, a.adt) != a.idx:
                    return False
                return all(self.same(x, self.field(b, a.adt, a.idx, i), tol, strict) for i, x in enumerate(a.f))
            if isinstance(b, Vr):
                return a.idx == b.idx and len(a.f) == len(b.f) and all(self.same(x, y, tol, strict) for x, y in zip(a.f, b.f))
            if self.isnum(b):
                return self.num(a) == self.num(b)
            return False
        if isinstance(a, Tp):
            if isinstance(b, Tp):
                return len(a.f) == len(b.f) and all(self.same(x, y, tol, strict) for x, y in zip(a.f, b.f))
            if isinstance(b, Op):
                return all(self.same(x, self.field(b, None, None, i), tol, strict) for i, x in enumerate(a.f))
            return False
        if isinstance(a, Vc):
            n = self.len(b)
            return n == len(a.e) and all(self.same(x, self.sel(b, i), tol, strict) for i, x in enumerate(a.e))
        return a is b

    # ---------------------------------------------------------- evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > self.cap:
            raise self.stop
        if t.op == "num":
            return t.args[0]
        if t.op == "bv":
            try:
                return env[(t.args[0], t.args[1])]
            except KeyError:
                return Op(self.h(b"bv", t.args[0], t.args[1]), ("prim", "usize"), self)
        ls = free(t)
        if ls:
            key = (t.id, tuple(env.get(l, 0) for l in ls))
        else:
            key = t.id
        r = self.memo.get(key)
        if r is not None:
            if r is BAD:
                raise Invalid
            if r is BADP:
                raise Partial
            return r
        try:
            r = self.go(t, env)
        except (OverflowError, ZeroDivisionError, ValueError):
            self.memo[key] = BAD
            raise Invalid
        except Partial:
            self.memo[key] = BADP
            raise
        except Invalid:
            self.memo[key] = BAD
            raise
        self.memo[key] = r
        return r

    def bind(self, env, lev, vals):
        e = dict(env)
        for i, v in enumerate(vals):
            e[(lev, i)] = v
        if vals and all(type(v) in (int, Fr) for v in vals):
            k = (lev, tuple(vals))
            if k not in self.vers:
                self.ver += 1
                self.vers[k] = self.ver
            e[lev] = self.vers[k]
            return e
        self.ver += 1
        e[lev] = self.ver
        return e

    def pw(self, v, e):
        if e.denominator == 1:
            e = int(e)
            if v == 0 and e < 0:
                raise Invalid
            if isinstance(v, (int, Fr)):
                v = Fr(v)
                if abs(e) * (v.numerator.bit_length() + v.denominator.bit_length()) > 400:
                    v = float(v)
            return v ** e
        if v < 0 or (v == 0 and e < 0):
            raise Invalid
        return float(v) ** float(e)

    def trim(self, v):
        if isinstance(v, Fr) and (v.numerator.bit_length() > 300 or v.denominator.bit_length() > 300):
            return float(v)
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            raise Invalid
        return v

    def go(self, t, env):
        o, a = t.op, t.args
        if o == "poly":
            s = 0
            big = 0.0
            for i in range(0, len(a), 2):
                v = a[i] * self.ev(a[i + 1], env)
                s = s + v
                big = max(big, abs(float(v)))
            if isinstance(s, float) and s != 0 and abs(s) < 1e-9 * big:
                s = 0.0
            return self.trim(s)
        if o == "mono":
            r = Fr(1)
            for i in range(0, len(a), 2):
                r = r * self.pw(self.num(self.ev(a[i], env)), a[i + 1])
            return self.trim(r)
        if o == "prod":
            return self.trim(self.num(self.ev(a[0], env)) * self.num(self.ev(a[1], env)))
        if o == "ppow":
            return self.trim(self.pw(self.num(self.ev(a[0], env)), Fr(a[1])))
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "ite":
            try:
                c = self.bool(self.ev(a[0], env))
            except ERR as err:
                # conditions are kept in a canonical order, so one may be asked outside its domain;
                # what does not depend on the answer is still defined
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if x is y or self.same(x, y, 1e-12, True):
                    return x
                raise err
            v = self.ev(a[1] if c else a[2], env)
            if isinstance(v, Op) and v.ty is None and (a[1].op in ("true", "false") or a[2].op in ("true", "false")):
                return self.bool(v)                           # a conjunction or disjunction: the operand is a truth value
            return v
        if o in ("lt", "lti"):
            v = self.num(self.ev(a[0], env))
            if self.watch and t in self.watch:
                self.near = min(self.near, abs(float(v)) if t.op == "lt" else max(0.0, abs(float(v)) - 1.0))
            if isinstance(v, float) and v != 0.0 and abs(v) < 1e-9:
                raise Invalid
            return v < 0
        if o == "eq":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, Op) and isinstance(y, Op) and x.ty is None and y.ty is None and (arith(a[0]) or arith(a[1])):
                x, y = self.num(x), self.num(y)
            return self.same(x, y, 1e-12, True)
        if o == "var":
            return Op(self.h(b"var", a[0]), strip(self.vartys.get(a[0])), self)
        if o == "str":
            return a[0]
        if o == "chr":
            return Op(self.h(b"chr", a[0]), None, self)
        if o == "tuple":
            return Tp([self.ev(x, env) for x in a])
        if o == "variant":
            return Vr(a[0], a[1], [self.ev(x, env) for x in a[2:]])
        if o == "field":
            return self.field(self.ev(a[0], env), a[1], a[2], a[3])
        if o == "is":
            return self.variant_of(self.ev(a[0], env), a[1]) == a[2]
        if o == "disc":
            i = self.variant_of(self.ev(a[0], env), a[1])
            ad = ADTS.get(a[1])
            return ad["v"][i]["d"] if ad else i
        if o == "vec":
            return Vc([self.ev(x, env) for x in a])
        if o == "bytes":
            return Vc(list(a[0]))
        if o == "len":
            return self.len(self.ev(a[0], env))
        if o == "sel":
            return self.sel(self.ev(a[0], env), self.ev(a[1], env))
        if o == "push":
            return Vc(self.items(self.ev(a[0], env)) + [self.ev(a[1], env)])
        if o == "store":
            l = list(self.items(self.ev(a[0], env)))
            i = self.idx(self.ev(a[1], env))
            if not 0 <= i < len(l):
                raise Partial
            l[i] = self.ev(a[2], env)
            return Vc(l)
        if o == "cat":
            return Vc(self.items(self.ev(a[0], env)) + self.items(self.ev(a[1], env)))
        if o == "subslice":
            v = self.ev(a[0], env)
            i, j = self.idx(self.ev(a[1], env)), self.idx(self.ev(a[2], env))
            if not 0 <= i <= j <= self.len(v):
                raise Partial
            return Vc(self.items(v)[i:j])
        if o == "repeat":
            n = self.idx(self.ev(a[0], env))
            if not 0 <= n <= 200:
                raise Invalid
            return Vc([self.ev(a[1], env)] * n)
        if o == "mapvec":
            n = self.idx(self.ev(a[0], env))
            if not 0 <= n <= 60:
                raise Invalid
            return Vc([self.ev(a[1], self.bind(env, a[2], [i])) for i in range(n)])
        if o in ("loop", "sum"):
            lev, n, cont, out = a[:4]
            e = self.bind(env, lev, [self.ev(x, env) for x in a[4:4 + n]])
            acc = 0
            for _ in range(self.laps):
                if not self.bool(self.ev(cont, e)):
                    return self.trim(acc) if o == "sum" else self.ev(out, e)
                if o == "sum":
                    acc = acc + self.num(self.ev(out, e))
                e = self.bind(env, lev, [self.ev(x, e) for x in a[4 + n:4 + 2 * n]])
            raise Partial
        if o == "app":
            return self.app(a[0], a[1:], env)
        if o in ("undef", "diverges"):
            raise Invalid
        if o == "setfield":
            v = self.ev(a[0], env)
            if isinstance(v, (Tp, Vr)):
                f = list(v.f)
                f[a[2]] = self.ev(a[3], env)
                return Tp(f) if isinstance(v, Tp) else Vr(v.adt, v.idx, f)
        if o == "lam":
            return Op(self.h(b"lam", self.probe(a[0], a[1], a[2], env)), None, self)
        return Op(self.h(o.encode(), *[self.canon(self.ev(x, env)) if isinstance(x, T) else repr(x) for x in a]), None, self)

    def probe(self, n, body, lev, env):
        out = []
        for j in range(3):
            e = self.bind(env, lev, [Op(self.h(b"probe", j, i), ("prim", "f64") if j == 0 else None, self) for i in range(n)])
            try:
                out.append(self.canon(self.ev(body, e)))
            except Invalid:
                out.append(b"!")
        return self.h(*out)

    def items(self, v):
        if isinstance(v, Vc):
            return v.e
        if isinstance(v, Op):
            return [self.sel(v, i) for i in range(self.len(v))]
        raise Invalid

    def idx(self, v):
        v = self.num(v)
        if v != int(v):
            raise Invalid
        return int(v)

    def date(self, v):
        v = self.idx(v)
        if not 1 <= v <= 3652059:
            raise Invalid
        return datetime.date.fromordinal(v)

    def lam2(self, f, env, xs):
        # lam(n, body, lev)
        return self.ev(f.args[1], self.bind(env, f.args[2], xs))

    def app(self, f, ar, env):
        if f == "sorted" and ar[1].op == "lam":
            l = list(self.items(self.ev(ar[0], env)))
            import functools

            def cmp(x, y):
                if self.bool(self.lam2(ar[1], env, [x, y])):
                    return -1
                return 1 if self.bool(self.lam2(ar[1], env, [y, x])) else 0
            return Vc(sorted(l, key=functools.cmp_to_key(cmp)))
        if f == "pp" and ar[1].op == "lam":
            l = self.items(self.ev(ar[0], env))
            bs = [self.bool(self.lam2(ar[1], env, [x])) for x in l]
            k = sum(bs)
            if any(bs[k:]):
                raise Invalid       # not partitioned
            return k
        if f in LAZY:
            return LAZY[f](self, ar, env)
        vs = [self.ev(x, env) if isinstance(x, T) else x for x in ar]
        h = FUN.get(f)
        if h is not None:
            return h(self, *vs)
        k = self.h(b"app", f, *[self.canon(v) if not isinstance(v, (tuple, type(None))) else repr(v) for v in vs])
        return Op(k, self.retty(f), self)

    def retty(self, f):
        if self.p is None or not isinstance(f, str):
            return None
        c = RETTY.get(f, 0)
        if c != 0:
            return c
        r = None
        bs = self.p.by_path.get(f)
        if not bs and "::" in f:
            tr, n = f.rsplit("::", 1)
            bs = [b for k, l in self.p.by_path.items() if k.endswith("::" + n) and k.startswith("<") and (" as " in k) and k[:-len(n) - 3].endswith(tr) for b in l][:1]
        if bs:
            r = strip(self.p.types[bs[0]["locals"][0][0]])
        RETTY[f] = r
        return r


RETTY = {}
BAD = object()
BADP = object()
LAZY = {}
_free = {}


def free(t):
    """levels of the bound variables free in t"""
    if not t.bl:
        return ()
    r = _free.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == "bv":
        r = frozenset((a[0],))
    elif o in ("loop", "sum"):
        n = a[1]
        s = free_s(a[2]) | free_s(a[3])
        for x in a[4 + n:]:
            s |= free_s(x)
        s -= {a[0]}
        for x in a[4:4 + n]:
            s |= free_s(x)
        r = s
    elif o == "mapvec":
        r = (free_s(a[1]) - {a[2]}) | free_s(a[0])
    elif o == "lam":
        r = free_s(a[1]) - {a[2]}
    else:
        s = frozenset()
        for x in a:
            if isinstance(x, T):
                s |= free_s(x)
        r = s
    r = tuple(sorted(r))
    _free[t] = r
    return r


def free_s(t):
    return frozenset(free(t))


def _f1(g):
    return lambda w, x: w.trim(g(float(w.num(x))))


def _exp(w, x):
    v = float(w.num(x))
    if v > 150:
        raise Invalid
    return w.trim(math.exp(v))


def _phi(x):
    return math.erfc(-x / math.sqrt(2)) / 2


def _months(w, d, n):
    d, n = w.date(d), w.idx(n)
    m = d.month - 1 + n
    y, m = d.year + m // 12, m % 12 + 1
    if not 1 <= y <= 9998:
        raise Invalid
    last = (datetime.date(y + (m == 12), m % 12 + 1, 1) - datetime.timedelta(1)).day
    return datetime.date(y, m, min(d.day, last)).toordinal()


def _ymd(w, y, m, d):
    try:
        return datetime.date(w.idx(y), w.idx(m), w.idx(d)).toordinal()
    except ValueError:
        raise Invalid


def _ymd_ok(w, y, m, d):
    try:
        datetime.date(w.idx(y), w.idx(m), w.idx(d))
        return True
    except ValueError:
        return False


def _div(w, a, b):
    a, b = w.idx(a), w.idx(b)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _rem(w, a, b):
    a, b = w.num(a), w.num(b)
    if isinstance(a, float) or isinstance(b, float):
        return math.fmod(a, b)
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


def _cmp(w, a, b):
    if w.isnum(a) or w.isnum(b):
        x, y = w.num(a), w.num(b)
        return Vr(ORD, 0 if x < y else (1 if x == y else 2), [])
    if isinstance(a, str) and isinstance(b, str):
        return Vr(ORD, 0 if a < b else (1 if a == b else 2), [])
    if isinstance(a, Tp) and isinstance(b, Tp):
        for x, y in zip(a.f, b.f):
            r = _cmp(w, x, y)
            if r.idx != 1:
                return r
        return Vr(ORD, 1, [])
    x, y = w.canon(a), w.canon(b)
    return Vr(ORD, 0 if x < y else (1 if x == y else 2), [])


def _mm(g):
    def f(w, a, b):
        return g(w.num(a), w.num(b))
    return f


def _round(w, x):
    x = w.num(x)
    return math.floor(abs(x) + Fr(1, 2)) * (1 if x >= 0 else -1)


def _flo(g):
    def f(w, x):
        x = w.num(x)
        if isinstance(x, float) and abs(x - round(x)) < 1e-9:
            raise Invalid
        return g(x)
    return f


def _pow(w, a, b):
    a, b = w.num(a), w.num(b)
    if isinstance(b, (int, Fr)):
        return w.trim(w.pw(a, Fr(b)))
    if a <= 0:
        raise Invalid
    return w.trim(float(a) ** float(b))


def _contains(w, v, x):
    return any(w.same(y, x, 1e-12, True) for y in w.items(v))


def _dedup(w, v):
    out = []
    for x in w.items(v):
        if not out or not w.same(out[-1], x, 1e-12, True):
            out.append(x)
    return Vc(out)


FUN = {
    "dedup": _dedup,
    "exp": _exp, "sin": _f1(math.sin), "cos": _f1(math.cos), "tan": _f1(math.tan), "tanh": _f1(math.tanh), "sinh": _f1(math.sinh), "cosh": _f1(math.cosh),
    "acos": _f1(math.acos), "asin": _f1(math.asin), "atan": _f1(math.atan), "atanh": _f1(math.atanh), "log10": _f1(math.log10), "log2": _f1(math.log2), "cbrt": _f1(lambda x: math.copysign(abs(x) ** (1 / 3), x)),
    "ln": _f1(math.log), "abs": lambda w, x: abs(w.num(x)), "max": _mm(max), "min": _mm(min), "pow": _pow,
    "floor": _flo(math.floor), "ceil": _flo(math.ceil), "trunc": _flo(lambda x: int(x)), "round": _round,
    "idiv": _div, "irem": _rem, "fmod": _rem, "rem_euclid": lambda w, a, b: w.num(a) % abs(w.num(b)),
    "ncdf": _f1(_phi), "npdf": _f1(lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi)),
    "year": lambda w, d: w.date(d).year, "month": lambda w, d: w.date(d).month, "day": lambda w, d: w.date(d).day,
    "ordinal": lambda w, d: w.date(d).timetuple().tm_yday, "weekday": lambda w, d: Vr(WD, w.date(d).weekday(), []),
    "leap": lambda w, d: (lambda y: y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))(w.date(d).year),
    "ymd": _ymd, "ymd_ok": _ymd_ok, "date_ok": lambda w, *a: True, "delta_ok": lambda w, *a: True, "fits": lambda w, *a: True, "date+months": _months,
    "cmp": _cmp, "cmp:lt": lambda w, a, b: _cmp(w, a, b).idx == 0, "partial_cmp": lambda w, a, b: Vr(OPT, 1, [_cmp(w, a, b)]),
    "contains": _contains, "PI": lambda w: math.pi,
    "strcat": lambda w, a, b: a + b if isinstance(a, str) and isinstance(b, str) else Op(w.h(b"cat", w.canon(a), w.canon(b)), None, w),
    "draw": lambda w, *a: Op(w.h(b"draw", *[w.canon(x) for x in a]), ("prim", "f64"), w),
}


def constants(ts, cap=40):
    out, seen, st = set(), set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("lt", "lti") and x.args[0].op == "poly":
            a = x.args[0].args
            for i in range(0, len(a), 2):
                if a[i + 1] is tm.ONEM and abs(a[i]) < 10 ** 6:
                    out.add(-a[i])
                    out.add(a[i])
        elif x.op == "eq" and x.args[1].op == "num":
            out.add(x.args[1].args[0])
        st.extend(y for y in x.args if isinstance(y, T))
    return sorted(c for c in out if abs(c) < 10 ** 6)[:cap]


def size(ts, cap=200000):
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > cap:
            return cap
        st.extend(y for y in x.args if isinstance(y, T))
    return len(seen)


def unknowns(ts):
    out, seen, st = set(), set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "var":
            out.add(x)
        st.extend(y for y in x.args if isinstance(y, T))
    return out


def compare(x, y, p=None, vartys=None, facts=(), conds=(), want=24, tries=600, seconds=10.0, whole=None):
    """-> ("differ", witness) | ("agree", number of valuations) | ("unknown", number)
    whole: the graphs x and y are leaves of; leaves that differ where these agree differ by rounding only"""
    import time
    t0 = time.time()
    cs = constants([x, y])
    n, part, kinds = 0, 0, set()
    for s in range(tries):
        if time.time() - t0 > seconds:
            break
        compare.tried = s + 1
        w = World(s, cs, p, vartys)
        try:
            if any(w.bool(w.ev(c, {})) != v for c, v in list(facts) + list(conds)):
                continue
            b = w.ev(y, {})
            try:
                w.cap = 30000 + 30 * w.steps                  # the code gets ample time, compared with the reference
                w.stop = Partial
                if w.cap > 600000:
                    w.cap, w.stop = 600000, Invalid
                w.steps, w.laps = 0, 900
                a = w.ev(x, {})
            except Partial:
                if whole is not None:
                    w2 = World(s, cs, p, vartys)
                    w2.cap = 1000000
                    w2.ev(whole[1], {})
                    try:
                        w2.cap, w2.stop, w2.laps = 2000000, Partial, 900
                        w2.ev(whole[0], {})
                        continue
                    except Partial:
                        pass
                part += 1
                if part >= 3:
                    return "differ", "valuation %d: the code stops or does not end, the reference has a value" % s
                continue
            if not w.same(a, b):
                if whole is not None:
                    w2 = World(s, cs, p, vartys)
                    w2.cap = 1000000
                    if at(w2, *whole) != "differ":
                        continue
                return "differ", "valuation %d" % s
            n += 1
            kinds.add(w.canon(b))
            if n >= want and len(kinds) >= want:
                break
        except ERR:
            continue
    return ("agree" if n >= 6 else "unknown"), n


def off(w, c, v):
    """how far the valuation is from giving c the truth value v; 0 when it does"""
    try:
        if w.bool(w.ev(c, {})) == v:
            return 0.0
    except ERR:
        return 2.0
    try:
        if c.op in ("lt", "lti"):
            d = abs(float(w.num(w.ev(c.args[0], {}))))
            return 0.3 + 0.6 * d / (d + 10.0)
        if c.op == "eq":
            d = abs(float(w.num(w.ev(c.args[0], {})) - w.num(w.ev(c.args[1], {}))))
            return 0.3 + 0.6 * d / (d + 10.0)
    except ERR:
        pass
    return 1.0


def move(w1, over, keys, cs, g, pool):
    """change one or two decisions of the valuation"""
    n = dict(over)
    for _k in range(1 if g.random() < 0.7 else 2):
        k = g.choice(keys)
        kd, r = w1.log[k]
        if k[1] == "b":
            n[k] = not r
        elif k[1] == "l":
            n[k] = max(0, g.choice([r + 1, r - 1, g.randrange(5)]))
        elif k[1] == "v":
            n[k] = g.randrange(kd)
        else:
            o = [v for (q, z), (y, v) in pool.items() if z == "n" and (y == "d") == (kd == "d") and isinstance(v, (int, Fr))]
            b = g.choice(o) if o and g.random() < 0.5 else r
            z = g.random()
            if not isinstance(b, (int, Fr)):
                continue
            if o and g.random() < 0.25:
                n[k] = b
                continue
            if z < 0.3:
                b = b + g.choice([-1, 0, 1])
            elif z < 0.6 and cs:
                c = g.choice(cs) + g.choice([0, 0, 1, -1])
                b = c if z < 0.45 and kd != "d" else b + c
            elif z < 0.8:
                b = b + g.choice([-30, -7, -3, 3, 7, 30, 365])
            elif kd == "f" or kd is None:
                b = b * g.choice([Fr(1, 2), 2, -1, Fr(9, 10), 0])
            if kd in ("u", "i", "d", "t"):
                b = int(b)
            if kd in ("u", "t") and b < 0 or kd == "d" and not 1 <= b <= 3652059:
                continue
            n[k] = b
    return n


def reach(conds, p=None, vartys=None, want=3, seconds=15.0, restarts=60, moves=160, seed0=5000):
    """valuations on which all the conditions hold, by a guided search from random ones"""
    import time, random
    t0 = time.time()
    cs = constants([c for c, _ in conds])
    hits = []
    for s in range(seed0, seed0 + restarts):
        g = random.Random(s)

        def at(over):
            w = World(s, cs, p, vartys)
            w.over = over
            ds = [off(w, c, v) for c, v in conds]
            return w, ds

        over = {}
        w, ds = at(over)
        cur = sum(ds)
        for _ in range(moves):
            if cur == 0:
                break
            if time.time() - t0 > seconds:
                return hits
            bad = [i for i, d in enumerate(ds) if d]
            i = g.choice(bad)
            w1 = World(s, cs, p, vartys)
            w1.over = over
            off(w1, *conds[i])
            keys = list(w1.log)
            if not keys:
                break
            n = move(w1, over, keys, cs, g, w.log)
            w2, d2 = at(n)
            if sum(d2) <= cur:
                over, w, ds, cur = n, w2, d2, sum(d2)
        if cur == 0:
            hits.append(w)
            if len(hits) >= want:
                break
    return hits


def atoms(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("lt", "lti"):
            out.add(x)
        st.extend(y for y in x.args if isinstance(y, T))
    return out


def ties(x, y, p=None, vartys=None, facts=(), seconds=8.0, most=4, restarts=60, moves=60):
    """comparisons whose strictness differs between the graphs: a valuation on which such a comparison is a tie
    and the graphs differ"""
    import time, random
    ax, ay = atoms(x), atoms(y)
    neg = lambda a: tm.mk(a.op, sub(num(0), a.args[0]))
    cand = []
    for a, b in ((ax, ay), (ay, ax)):
        for q in a - b:
            if neg(q) in b and neg(q) not in cand:
                cand.append(q)
    cand.sort(key=lambda t: t.h)
    cand = [(q, neg(q)) for q in cand]
    # between whole numbers the strict and the weak comparison differ by one
    step = [(q, o) for q in ax - ay if q.op == "lti" for k in (1, -1) for o in (tm.mk("lti", add(q.args[0], num(k))),) if o in ay - ax]
    cand = sorted(step, key=lambda t: t[0].h) + cand
    cs = constants([x, y])
    # and any other comparison only one of the graphs makes, at its boundary
    rest = [sorted((q for q in z if q.op == "lti" and all(q not in c for c in cand)), key=lambda t: t.h) for z in (ax - ay, ay - ax)]
    alone = [(q, q) for k in range(4) for r in rest for q in r[k:k + 1]]
    for q, o in cand[:most] + alone:
        ws = {q, o}
        t0 = time.time()
        for s in range(9000, 9000 + restarts):
            if time.time() - t0 > seconds:
                break
            g = random.Random(s)

            def run(over):
                w = World(s, cs, p, vartys)
                w.over, w.watch, w.cap = over, ws, 100000
                w.stop = Partial
                try:
                    if any(w.bool(w.ev(c, {})) != v for c, v in facts):
                        return w, 1e300, "none"
                except ERR:
                    return w, 1e300, "none"
                r = at(w, x, y)
                return w, w.near, r

            over = {}
            w, d, r = run(over)
            for _ in range(moves):
                if d == 0 and r == "differ":
                    return "valuation %d, where %s is a tie" % (s, tm.show(q, 5))
                if time.time() - t0 > seconds:
                    break
                keys = list(w.log)
                if not keys:
                    break
                n = move(w, over, keys, cs, g, w.log)
                w2, d2, r2 = run(n)
                if d2 <= d or d2 == 0:
                    over, w, d, r = n, w2, d2, r2
            if TRACE:
                print("   tie", tm.show(q, 4)[:100], s, d, r)
    return None


def at(w, x, y):
    try:
        return "same" if w.same(w.ev(x, {}), w.ev(y, {})) else "differ"
    except ERR:
        return "none"


def excluded(conds, p=None, vartys=None, facts=(), tries=1500, seconds=10.0):
    """few conditions of a path, each (and each smaller choice) common, that never hold together and that a guided
    search does not bring together either; conditions that together pin a boundary do not count"""
    import time
    from eqv import Env
    t0 = time.time()
    cs = constants([c for c, _ in conds])
    conds = conds[:40]
    N = len(conds)
    n, one = 0, [0] * N
    for s in range(tries):
        if time.time() - t0 > seconds:
            break
        w = World(s, cs, p, vartys)
        try:
            if not all(w.bool(w.ev(c, {})) == v for c, v in facts):
                continue
        except ERR:
            continue
        for i, (c, v) in enumerate(conds):
            try:
                if w.bool(w.ev(c, {})) == v:
                    one[i] |= 1 << n
            except ERR:
                continue
        n += 1
    if n < 50:
        return None
    cnt = lambda x: bin(x).count("1")

    def never(ix, budget=5.0):
        z = [conds[i] for i in ix]
        return z if not reach(z + list(facts), p, vartys, want=1, seconds=budget, restarts=30, moves=120) else None

    for i in range(N):
        if not one[i]:
            z = never([i])
            if z:
                return z

    def fixed(ix):
        e = Env()
        for i in ix:
            if conds[i][0].op in ("lt", "lti"):
                e = e.assign(*conds[i])
                if e is None:
                    return 0
        return len(e.val)

    def pins(ix):
        return fixed(ix) > sum(fixed([i]) for i in ix)

    cand = []
    for i in range(N):
        for j in range(i + 1, N):
            if one[i] & one[j] == 0:
                cand.append((cnt(one[i]) * cnt(one[j]) / n, (i, j)))
    for i in range(N):
        for j in range(i + 1, N):
            ij = one[i] & one[j]
            if not ij:
                continue
            for k in range(j + 1, N):
                if ij & one[k] == 0 and one[i] & one[k] and one[j] & one[k]:
                    m = min(cnt(ij) * cnt(one[k]), cnt(one[i] & one[k]) * cnt(one[j]), cnt(one[j] & one[k]) * cnt(one[i])) / n
                    cand.append((m, (i, j, k)))
    cand.sort(key=lambda c: -c[0])
    if TRACE:
        print("   excluded: n", n, [cnt(x) for x in one], cand[:6])
    for m, ix in cand[:6]:
        if m < 4:
            break
        if pins(ix):
            continue
        z = never(ix)
        if z:
            return z
    return None
