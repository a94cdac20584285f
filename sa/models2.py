"""Further std items: the long tail of Option / Result / iterator / slice / number
helpers that behaviour-preserving edits reach for."""
from term import *
import term as tm
from models import (M, reg, V, W, argkinds, branch, cons, consume, it, gi, has_opaque, as_iter, mm, ORD, CF, Unk, lam,
                    ELEM, ELEM2, is_some, payload, some, none, is_ok, okv, errv, ok, err, isv, subslice, sorted_, ordering,
                    num_kind, less_of, f1, part, ymd, advance_by, it_next, isdate)


def M1(names, f):
    for n in names.split():
        M[n] = f


# numbers ----------------------------------------------------------------------
def app(n, *a):
    return mk("app", n, *a)


@reg("f64::sin_cos")
def _(m, av, st, fn, t):
    x = V(m, st, av[0])
    return mk("tuple", app("sin", x), app("cos", x))


@reg("f64::hypot")
def _(m, av, st, fn, t):
    a, b = V(m, st, av[0]), V(m, st, av[1])
    return sqrt_(add(mul(a, a), mul(b, b)))


@reg("f64::atan2")
def _(m, av, st, fn, t):
    return app("atan2", V(m, st, av[0]), V(m, st, av[1]))


@reg("f64::exp2")
def _(m, av, st, fn, t):
    return exp_(mul(ln_(num(2)), V(m, st, av[0])))


@reg("f64::log")
def _(m, av, st, fn, t):
    return div(ln_(V(m, st, av[0])), ln_(V(m, st, av[1])))


@reg("f64::copysign")
def _(m, av, st, fn, t):
    a, s = V(m, st, av[0]), V(m, st, av[1])
    return ite(lt(s, ZERO), neg(abs_(a)), abs_(a))


@reg("f64::abs_sub")
def _(m, av, st, fn, t):
    return mm("max", ZERO, sub(V(m, st, av[0]), V(m, st, av[1])))


@reg("f64::to_radians")
def _(m, av, st, fn, t):
    return div(mul(V(m, st, av[0]), app("PI")), num(180))


# orderings -----------------------------------------------------------------------
def ordis(*idx):
    def h(m, av, st, fn, t):
        v = V(m, st, av[0])
        r = FALSE
        for i in idx:
            r = bor(r, isv(v, ORD, i))
        return r
    return h


for n, ix in (("is_lt", (0,)), ("is_eq", (1,)), ("is_gt", (2,)), ("is_le", (0, 1)), ("is_ge", (1, 2)), ("is_ne", (0, 2))):
    M["Ordering::" + n] = ordis(*ix)


def omap(v, f):
    return ite(isv(v, ORD, 0), f(0), ite(isv(v, ORD, 1), f(1), f(2)))


@reg("Ordering::reverse")
def _(m, av, st, fn, t):
    return omap(V(m, st, av[0]), lambda i: mk("variant", ORD, 2 - i))


@reg("Ordering::then")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return ite(isv(v, ORD, 1), V(m, st, av[1]), v)


@reg("Ordering::then_with")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return branch(m, isv(v, ORD, 1), lambda s: m.apply(av[1], [], s), lambda s: (v, s), st)


@reg("cmp::max", "cmp::min")
def _(m, av, st, fn, t):
    return mm(fn["n"], V(m, st, av[0]), V(m, st, av[1]))


# bool ---------------------------------------------------------------------------
@reg("bool::then")
def _(m, av, st, fn, t):
    def yes(s):
        r, s2 = m.apply(av[1], [], s)
        return (some(r), s2) if s2 is not None else (r, None)
    return branch(m, V(m, st, av[0]), yes, lambda s: (none(), s), st)


@reg("bool::then_some")
def _(m, av, st, fn, t):
    return ite(V(m, st, av[0]), some(av[1]), none())


# Option ---------------------------------------------------------------------------
@reg("Option::zip")
def _(m, av, st, fn, t):
    a, b = V(m, st, av[0]), V(m, st, av[1])
    return ite(band(is_some(a), is_some(b)), some(mk("tuple", payload(a), payload(b))), none())


@reg("Option::xor")
def _(m, av, st, fn, t):
    a, b = V(m, st, av[0]), V(m, st, av[1])
    return ite(is_some(a), ite(is_some(b), none(), a), b)


@reg("Option::and")
def _(m, av, st, fn, t):
    return ite(is_some(V(m, st, av[0])), V(m, st, av[1]), none())


@reg("Option::flatten")
def _(m, av, st, fn, t):
    a = V(m, st, av[0])
    return ite(is_some(a), payload(a), none())


@reg("Option::transpose")
def _(m, av, st, fn, t):
    a = V(m, st, av[0])
    p = payload(a)
    return ite(is_some(a), ite(is_ok(p), ok(some(okv(p))), err(errv(p))), ok(none()))


@reg("Option::replace")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return v, W(m, st, av[0], some(av[1]))


# Result ---------------------------------------------------------------------------
@reg("Result::and")
def _(m, av, st, fn, t):
    a = V(m, st, av[0])
    return ite(is_ok(a), V(m, st, av[1]), err(errv(a)))


@reg("Result::or")
def _(m, av, st, fn, t):
    a = V(m, st, av[0])
    return ite(is_ok(a), ok(okv(a)), V(m, st, av[1]))


@reg("Result::or_else")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: (ok(okv(v)), s), lambda s: m.apply(av[1], [errv(v)], s), st)


@reg("Result::map_or")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: m.apply(av[2], [okv(v)], s), lambda s: (av[1], s), st)


@reg("Result::map_or_else")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: m.apply(av[2], [okv(v)], s), lambda s: m.apply(av[1], [errv(v)], s), st)


@reg("Result::is_ok_and")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: m.apply(av[1], [okv(v)], s), lambda s: (FALSE, s), st)


@reg("Result::is_err_and")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: (FALSE, s), lambda s: m.apply(av[1], [errv(v)], s), st)


@reg("Result::transpose")
def _(m, av, st, fn, t):
    a = V(m, st, av[0])
    p = okv(a)
    return ite(is_ok(a), ite(is_some(p), some(ok(payload(p))), none()), some(err(errv(a))))


@reg("Result::flatten")
def _(m, av, st, fn, t):
    a = V(m, st, av[0])
    return ite(is_ok(a), okv(a), err(errv(a)))


# closures that only look: run for their effects, keep the value
@reg("Option::inspect", "Result::inspect")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    opt = fn.get("st") is not None and m.key(fn).startswith("Option")
    c, p = (is_some(v), payload(v)) if opt else (is_ok(v), okv(v))

    def go(s):
        _, s2 = m.apply(av[1], [p], s)
        return v, s2
    return branch(m, c, go, lambda s: (v, s), st)


@reg("Result::inspect_err")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])

    def go(s):
        _, s2 = m.apply(av[1], [errv(v)], s)
        return v, s2
    return branch(m, is_ok(v), lambda s: (v, s), go, st)


# iterators --------------------------------------------------------------------------
def outkind(m, fn, tymap, i):
    """the kind of the wrapper a closure returns: Option or Result"""
    for t in argkinds(m, fn, tymap):
        if t[0] == "adt" and t[1].endswith(("option::Option", "result::Result")):
            return t[1].split("::")[-1]
    return None


def split_try(r, kind):
    if kind == "Option":
        return is_some(r), payload(r), none()
    return is_ok(r), okv(r), err(errv(r))


def ret_kind(m, fn, tymap):
    ks = argkinds(m, fn, tymap)
    for t in reversed(ks):
        if t[0] == "adt" and t[1] in (OPT, RES):
            return t[1].split("::")[-1]
    return None


@reg("Iterator::try_for_each", "Iterator::try_fold")
@cons
def _(m, i, av, st, fn, tymap):
    fold = fn["n"] == "try_fold"
    kind = ret_kind(m, fn, tymap)
    if kind is None:
        return NotImplemented
    f = av[2] if fold else av[1]

    def step(a, e, s):
        acc = field(a, None, None, 0)
        r, s2 = m.apply(f, [acc, e] if fold else [e], s)
        if s2 is None:
            raise Unk("diverging step")
        c, v, bad = split_try(r, kind)
        return mk("tuple", v if fold else UNIT, ite(c, field(a, None, None, 1), bad)), c, s2
    a, stopped, s = consume(m, i, st, mk("tuple", av[1] if fold else UNIT, mk("undef")), step)
    good = field(a, None, None, 0) if fold else UNIT
    return ite(stopped, field(a, None, None, 1), some(good) if kind == "Option" else ok(good)), s


@reg("Iterator::min_by", "Iterator::max_by", "Iterator::min_by_key", "Iterator::max_by_key")
@cons
def _(m, i, av, st, fn, tymap):
    k = fn["n"]
    ks = argkinds(m, fn, tymap)

    def step(a, e, s):
        p = payload(a)
        if k.endswith("key"):
            x, s2 = m.apply(av[1], [p], s)
            y, s3 = m.apply(av[1], [e], s)
            if s2 is None or s3 is None or any(q.get(c) is not s.get(c) for q in (s2, s3) for c in s):
                raise Unk("effects in key")
            x, y = V(m, s, x), V(m, s, y)
            t = ks[1] if len(ks) > 1 else None
            while t is not None and t[0] == "ref":
                t = t[1]
            gt, lw = less_of(m, y, x, t)[0], less_of(m, y, x, t)[0]
        else:
            r, s2 = m.apply(av[1], [p, e], s)
            if s2 is None:
                raise Unk("diverging")
            gt = isv(r, ORD, 2)
        # min keeps the first of equals, max keeps the last
        keep = bnot(gt) if k.startswith("min") else gt
        return some(ite(is_some(a), ite(keep, p, e), e)), TRUE, s
    a, _, s = consume(m, i, st, none(), step)
    return a, s


@reg("Iterator::unzip")
@cons
def _(m, i, av, st, fn, tymap):
    def step(a, e, s):
        return mk("tuple", push(field(a, None, None, 0), m.deref_all(s, field(e, None, None, 0))),
                  push(field(a, None, None, 1), m.deref_all(s, field(e, None, None, 1)))), TRUE, s
    a, _, s = consume(m, i, st, mk("tuple", mk("vec"), mk("vec")), step)
    return a, s


@reg("Iterator::partition")
@cons
def _(m, i, av, st, fn, tymap):
    def step(a, e, s):
        c, s2 = m.apply(av[1], [e], s)
        x, y = field(a, None, None, 0), field(a, None, None, 1)
        d = m.deref_all(s, e)
        return mk("tuple", ite(c, push(x, d), x), ite(c, y, push(y, d))), TRUE, s2
    a, _, s = consume(m, i, st, mk("tuple", mk("vec"), mk("vec")), step)
    return a, s


@reg("Iterator::reduce")
@cons
def _(m, i, av, st, fn, tymap):
    def step(a, e, s):
        r, s2 = m.apply(av[1], [payload(a), e], s)
        if s2 is None:
            raise Unk("diverging")
        return some(ite(is_some(a), r, e)), TRUE, m.merge(is_some(a), s2, s) if s2 is not s else s
    a, _, s = consume(m, i, st, none(), step)
    return a, s


def num_try(name):
    old = M["Iterator::" + name]

    def h(m, av, st, fn, tymap):
        ks = argkinds(m, fn, tymap)
        t = ks[1] if len(ks) > 1 else None
        if not (t and t[0] == "adt" and t[1] in (OPT, RES)):
            return old(m, av, st, fn, tymap)
        kind = t[1].split("::")[-1]
        i = gi(m, st, av[0], fn, tymap)
        if has_opaque(i):
            return NotImplemented
        op = add if name == "sum" else mul

        def step(a, e, s):
            c, v, bad = split_try(e, kind)
            acc = field(a, None, None, 0)
            return mk("tuple", op(acc, V(m, s, v)), ite(c, field(a, None, None, 1), bad)), c, s
        try:
            a, stopped, s = consume(m, i, st, mk("tuple", ZERO if name == "sum" else ONE, mk("undef")), step)
        except Unk:
            return NotImplemented
        g = field(a, None, None, 0)
        return ite(stopped, field(a, None, None, 1), some(g) if kind == "Option" else ok(g)), s
    M["Iterator::" + name] = h


num_try("sum")
num_try("product")


def wrapit(kind):
    def h(m, av, st, fn, tymap):
        return it(kind, gi(m, st, av[0], fn, tymap), av[1])
    return h


M["Iterator::map_while"] = wrapit("map_while")


@reg("Iterator::skip_while")
@cons
def _(m, i, av, st, fn, tymap):
    def step(a, e, s):
        r, s2 = m.apply(av[1], [e], s)
        return add(a, ONE), r, s2
    # the leading elements the predicate accepts
    a, stopped, s = consume(m, i, st, ZERO, step)
    if s is not st and any(s.get(x) is not st.get(x) for x in st):
        return NotImplemented
    r = advance_by(i, ite(stopped, sub(a, ONE), a))
    return NotImplemented if r is None else r


@reg("Iterator::scan")
def _(m, av, st, fn, tymap):
    m.fid += 1
    c = ("scan", m.fid)
    st = dict(st)
    st[c] = av[1]
    return it("scan", gi(m, st, av[0], fn, tymap), mk("closure-scan", c, av[2])), st


M["repeat_n::repeat_n"] = lambda m, av, st, fn, t: it("slice", mk("repeat", av[1], av[0]), ZERO, av[1])
M["iter::repeat_n"] = M["repeat_n::repeat_n"]
M["Iterator::cloned"] = M.get("Iterator::cloned") or (lambda m, av, st, fn, t: gi(m, st, av[0], fn, t))


# slices and vectors ---------------------------------------------------------------
@reg("slice::split_first", "slice::split_last")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    n = vlen(v)
    if fn["n"] == "split_first":
        p = mk("tuple", select(v, ZERO), subslice(v, ONE, n))
    else:
        p = mk("tuple", select(v, sub(n, ONE)), subslice(v, ZERO, sub(n, ONE)))
    return ite(eq(n, ZERO), none(), some(p))


@reg("slice::split_at")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return mk("tuple", subslice(v, ZERO, av[1]), subslice(v, av[1], vlen(v)))


@reg("slice::swap")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    a, b = select(v, av[1]), select(v, av[2])
    return UNIT, W(m, st, av[0], store(store(v, av[1], b), av[2], a))


@reg("slice::fill")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return UNIT, W(m, st, av[0], mk("repeat", vlen(v), av[1]))


@reg("slice::to_vec", "slice::into_vec", "ToOwned::to_owned")
def _(m, av, st, fn, t):
    return m.deref_all(st, av[0])


@reg("Vec::clear")
def _(m, av, st, fn, t):
    return UNIT, W(m, st, av[0], mk("vec"))


@reg("Vec::dedup")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    return UNIT, W(m, st, av[0], mk("app", "dedup", v))


@reg("Vec::truncate")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    n = mm("min", vlen(v), av[1])
    return UNIT, W(m, st, av[0], subslice(v, ZERO, n))


@reg("Vec::pop")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    n = vlen(v)
    if v.op == "push":
        return some(v.args[1]), W(m, st, av[0], v.args[0])
    e = eq(n, ZERO)
    return ite(e, none(), some(select(v, sub(n, ONE)))), W(m, st, av[0], ite(e, v, subslice(v, ZERO, sub(n, ONE))))


@reg("Vec::append")
def _(m, av, st, fn, t):
    v, w = V(m, st, av[0]), V(m, st, av[1])
    try:
        a, _, s = consume(m, as_iter(m, w, None), st, v, lambda a, e, s: (push(a, m.deref_all(s, e)), TRUE, s))
    except Unk:
        return NotImplemented
    return UNIT, W(m, W(m, s, av[0], a), av[1], mk("vec"))


@reg("array::map")
def _(m, av, st, fn, t):
    v = V(m, st, av[0])
    if v.op != "vec":
        return NotImplemented
    out = []
    for x in v.args:
        r, st = m.apply(av[1], [x], st)
        if st is None:
            return NotImplemented
        out.append(r)
    return mk("vec", *out), st


M1("array::as_slice slice::as_ref array::iter", lambda m, av, st, fn, t: NotImplemented)
M["array::as_slice"] = lambda m, av, st, fn, t: av[0]


# dates -------------------------------------------------------------------------------
@reg("Datelike::with_day", "Datelike::with_month", "Datelike::with_year")
def _(m, av, st, fn, t):
    d = V(m, st, av[0])
    y, mo, dd = part("year", d), part("month", d), part("day", d)
    k = fn["n"]
    a = av[1]
    if k == "with_day":
        dd = a
    elif k == "with_month":
        mo = a
    else:
        y = a
    fake = {"n": "from_ymd_opt"}
    return M["NaiveDate::from_ymd_opt"](m, [y, mo, dd], st, fake, t)


@reg("Weekday::num_days_from_sunday", "Weekday::number_from_sunday")
def _(m, av, st, fn, t):
    from ex import irem
    w = V(m, st, av[0])
    d = disc(w, "chrono::weekday::Weekday")
    r = irem(add(d, ONE), num(7))
    return r if fn["n"].startswith("num_") else add(r, ONE)


