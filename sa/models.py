"""Transfer functions for the std / chrono / num-complex / rand items the crate
uses.  Anything not listed is an uninterpreted function of its arguments (and
havocs what it can reach through &mut)."""
from fractions import Fraction as Fr
from term import *
import term as tm

M = {}
LOCAL = {}


def get(k):
    return M.get(k)


def reg(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def V(m, st, x):
    if x.op == "mref" or x.op == "ite":
        return m.read_ref(st, x)
    return x


def W(m, st, r, v):
    st = dict(st)
    m.write_ref(st, r, (), v)
    return st


def f1(name, g=None):
    def h(m, av, st, fn, tm_):
        x = V(m, st, av[0])
        return g(x) if g else mk("app", name, x)
    return h


def ext_const(m, uid, ty):
    n = uid.split("::")[-1]
    if "consts" in uid:
        if n == "FRAC_1_SQRT_2":
            return power(num(2), Fr(-1, 2))
        if n == "SQRT_2":
            return power(num(2), Fr(1, 2))
        if n == "FRAC_PI_2":
            return div(mk("app", "PI"), num(2))
        if n == "TAU":
            return mul(num(2), mk("app", "PI"))
        if n == "PI":
            return mk("app", "PI")
        return mk("app", n)
    return mk("app", "const:" + uid)


# floats -----------------------------------------------------------------
def r_exp(x):
    return exp_(x)


for n, g in (("exp", exp_), ("ln", ln_), ("sqrt", sqrt_), ("abs", abs_)):
    M["f64::" + n] = f1(n, g)
for n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "atan", "acos", "asin", "atanh", "exp_m1", "ln_1p", "floor", "ceil", "round", "is_finite", "is_nan", "signum", "to_bits", "cbrt", "log10", "log2", "is_infinite", "trunc", "fract", "is_sign_negative", "is_sign_positive"):
    M["f64::" + n] = f1(n)


@reg("f64::exp_m1")
def _(m, av, st, fn, t):
    return sub(exp_(V(m, st, av[0])), ONE)


@reg("f64::ln_1p")
def _(m, av, st, fn, t):
    return ln_(add(V(m, st, av[0]), ONE))


@reg("f64::recip")
def _(m, av, st, fn, t):
    return div(ONE, V(m, st, av[0]))


@reg("f64::mul_add")
def _(m, av, st, fn, t):
    a, b, c = [V(m, st, x) for x in av]
    return add(mul(a, b), c)


@reg("f64::powi")
def _(m, av, st, fn, t):
    x, n = V(m, st, av[0]), V(m, st, av[1])
    if n.op == "num":
        return power(x, n.args[0])
    return mk("app", "pow", x, n)


@reg("f64::powf")
def _(m, av, st, fn, t):
    x, n = V(m, st, av[0]), V(m, st, av[1])
    if n.op == "num" and n.args[0].denominator <= 12:
        return power(x, n.args[0])
    return mk("app", "pow", x, n)


@reg("f64::max", "Ord::max")
def _(m, av, st, fn, t):
    return mm("max", V(m, st, av[0]), V(m, st, av[1]))


@reg("f64::min", "Ord::min")
def _(m, av, st, fn, t):
    return mm("min", V(m, st, av[0]), V(m, st, av[1]))


@reg("f64::clamp", "Ord::clamp")
def _(m, av, st, fn, t):
    x, lo, hi = [V(m, st, a) for a in av]
    return mm("max", lo, mm("min", hi, x))


@reg("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub")
def _(m, av, st, fn, t):
    return mm("max", ZERO, sub(V(m, st, av[0]), V(m, st, av[1])))


@reg("usize::div_ceil", "u32::div_ceil")
def _(m, av, st, fn, t):
    return mk("app", "ceil", div(V(m, st, av[0]), V(m, st, av[1])))


@reg("u32::is_multiple_of", "usize::is_multiple_of", "u64::is_multiple_of", "i32::is_multiple_of")
def _(m, av, st, fn, t):
    from ex import irem
    return eq(irem(V(m, st, av[0]), V(m, st, av[1])), ZERO)


@reg("u32::div_euclid", "u64::div_euclid", "usize::div_euclid")
def _(m, av, st, fn, t):
    from ex import idiv
    return idiv(V(m, st, av[0]), V(m, st, av[1]))


@reg("u32::rem_euclid", "u64::rem_euclid", "usize::rem_euclid")
def _(m, av, st, fn, t):
    from ex import irem
    return irem(V(m, st, av[0]), V(m, st, av[1]))


@reg("i32::rem_euclid", "i64::rem_euclid")
def _(m, av, st, fn, t):
    return mk("app", "rem_euclid", V(m, st, av[0]), V(m, st, av[1]))


@reg("i64::abs", "i32::abs", "u32::abs_diff", "usize::abs_diff", "i64::abs_diff", "i64::unsigned_abs", "i32::unsigned_abs")
def _(m, av, st, fn, t):
    if fn["n"] == "abs_diff":
        return abs_(sub(V(m, st, av[0]), V(m, st, av[1])))
    return abs_(V(m, st, av[0]))


@reg("u32::pow", "i64::pow", "usize::pow", "i32::pow", "u64::pow")
def _(m, av, st, fn, t):
    n = V(m, st, av[1])
    return power(V(m, st, av[0]), n.args[0]) if n.op == "num" else mk("app", "pow", V(m, st, av[0]), n)


def checked(opn):
    def h(m, av, st, fn, t):
        a, b = V(m, st, av[0]), V(m, st, av[1])
        ty = fn["p"]
        r = {"add": add, "sub": sub, "mul": mul}[opn](a, b)
        c = mk("app", "fits", mk("str", m.key(fn).split("::")[0]), r)
        if r.op == "num" or (m.assume_range and m.key(fn).split("::")[0] in ("i64", "u64") or m.assume_range and "mul" == opn):
            c = TRUE
        return ite(c, some(r), none())
    return h


for ty in ("i64", "i32", "u32", "usize", "u64"):
    M[ty + "::checked_add"] = checked("add")
    M[ty + "::checked_sub"] = checked("sub")
    M[ty + "::checked_mul"] = checked("mul")


def binop(f):
    def h(m, av, st, fn, t):
        a, b = V(m, st, av[0]), V(m, st, av[1])
        return f(a, b)
    return h


def is_complex(m):
    return False


# Complex numbers: pairs (re, im) kept as struct num_complex::Complex
CX = "num_complex::Complex"


def cre(z):
    return field(z, CX, None, 0)


def cim(z):
    return field(z, CX, None, 1)


def cx(a, b):
    return variant(CX, 0, a, b)


def argkinds(m, fn, tymap):
    a = [m.p.subst_ty(m.p.types[i], tymap) for i in fn["a"] if isinstance(i, int)]
    out = []
    for t in a:
        while t[0] == "ref":
            t = t[1]
        out.append(t)
    return out


def isdate(t):
    return t[0] == "adt" and t[1].endswith("NaiveDate")


def isdelta(t):
    return t[0] == "adt" and t[1].endswith("TimeDelta")


def ismonths(t):
    return t[0] == "adt" and t[1].endswith("Months")


def arith(name):
    def h(m, av, st, fn, tymap):
        ks = argkinds(m, fn, tymap)
        a, b = V(m, st, av[0]), V(m, st, av[1])
        if len(ks) < 2:
            ks = ks + ks
        ca = ks[0][0] == "adt" and ks[0][1] == CX
        cb = ks[1][0] == "adt" and ks[1][1] == CX
        if ca or cb:
            return carith(name, a, b, ca, cb)
        if isdate(ks[0]):
            if ismonths(ks[1]):
                return mk("app", "date+months", a, b if name == "add" else neg(b))
            if ks[1][0] == "adt" and ks[1][1].endswith("Days"):
                return add(a, b) if name == "add" else sub(a, b)
            if isdelta(ks[1]) or isdate(ks[1]):
                return add(a, b) if name == "add" else sub(a, b)
            return NotImplemented
        if isdelta(ks[0]):
            if name in ("add", "sub", "mul"):
                return {"add": add, "sub": sub, "mul": mul}[name](a, b)
            return NotImplemented
        if ks[0][0] == "prim":
            fl = ks[0][1] in ("f64", "f32")
            if name == "div" and not fl:
                from ex import idiv
                return idiv(a, b)
            if name == "rem":
                from ex import irem, parity, unsigned
                if b.op == "num" and b.args[0] == 2 and unsigned(ks[0]):
                    return parity(a)
                return irem(a, b) if not fl else mk("app", "fmod", a, b)
            return {"add": add, "sub": sub, "mul": mul, "div": div}[name](a, b)
        if ks[0][0] == "adt" and ks[0][1].endswith("string::String"):
            return mk("app", "concat", a, b)
        return NotImplemented
    return h


def carith(name, a, b, ca, cb):
    ar, ai = (cre(a), cim(a)) if ca else (a, ZERO)
    br, bi = (cre(b), cim(b)) if cb else (b, ZERO)
    if name == "add":
        return cx(add(ar, br), add(ai, bi))
    if name == "sub":
        return cx(sub(ar, br), sub(ai, bi))
    # opaque complex values stay compact: complex products as algebra over i
    if name == "mul":
        return cx(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
    if name == "div":
        if not cb:
            return cx(div(ar, br), div(ai, br))
        d = add(mul(br, br), mul(bi, bi))
        return cx(div(add(mul(ar, br), mul(ai, bi)), d), div(sub(mul(ai, br), mul(ar, bi)), d))


M["Add::add"] = arith("add")
M["Sub::sub"] = arith("sub")
M["Mul::mul"] = arith("mul")
M["Div::div"] = arith("div")
M["Rem::rem"] = arith("rem")


def opassign(name):
    base = arith(name)

    def h(m, av, st, fn, tymap):
        r = base(m, [V(m, st, av[0]), av[1]], st, fn, tymap)
        if r is NotImplemented:
            return r
        return UNIT, W(m, st, av[0], r)
    return h


M["AddAssign::add_assign"] = opassign("add")
M["SubAssign::sub_assign"] = opassign("sub")
M["MulAssign::mul_assign"] = opassign("mul")
M["DivAssign::div_assign"] = opassign("div")


@reg("Neg::neg")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    a = V(m, st, av[0])
    if ks and ks[0][0] == "adt" and ks[0][1] == CX:
        return cx(neg(cre(a)), neg(cim(a)))
    return neg(a)


@reg("Not::not")
def _(m, av, st, fn, tymap):
    return bnot(V(m, st, av[0]))


@reg("Complex::new")
def _(m, av, st, fn, t):
    return cx(av[0], av[1])


@reg("Complex::i")
def _(m, av, st, fn, t):
    return cx(ZERO, ONE)


@reg("Complex::exp")
def _(m, av, st, fn, t):
    z = V(m, st, av[0])
    a, b = cre(z), cim(z)
    e = exp_(a)
    if b is ZERO:
        return cx(e, ZERO)
    return cx(mul(e, mk("app", "cos", b)), mul(e, mk("app", "sin", b)))


for n in ("sqrt", "ln", "powf", "powc", "powi", "norm", "norm_sqr", "arg", "conj", "inv"):
    def _mkc(n):
        def h(m, av, st, fn, t):
            z = V(m, st, av[0])
            if n == "norm_sqr":
                return add(mul(cre(z), cre(z)), mul(cim(z), cim(z)))
            if n == "conj":
                return cx(cre(z), neg(cim(z)))
            r = mk("app", "c" + n, z, *[V(m, st, x) for x in av[1:]])
            return r
        return h
    M["Complex::" + n] = _mkc(n)


# comparisons ------------------------------------------------------------
def num_kind(m, fn, tymap):
    ks = argkinds(m, fn, tymap)
    t = ks[0] if ks else ("other", "?")
    if t[0] == "prim":
        return "f" if t[1] in ("f64", "f32") else "i"
    if isdate(t) or isdelta(t):
        return "i"
    if t[0] == "adt" and t[1].endswith("NaiveTime"):
        return "f"      # densely ordered
    return None


def cmpop(name):
    def h(m, av, st, fn, tymap):
        a, b = V(m, st, av[0]), V(m, st, av[1])
        k = num_kind(m, fn, tymap)
        if k is None:
            op = name
            if name in ("gt", "ge"):
                a, b, op = b, a, {"gt": "lt", "ge": "le"}[name]
            return mk("app", "cmp:" + op, a, b)
        l = lt if k == "f" else lt_i
        if name == "lt":
            return l(a, b)
        if name == "gt":
            return l(b, a)
        if name == "le":
            return bnot(l(b, a))
        return bnot(l(a, b))
    return h


for n in ("lt", "gt", "le", "ge"):
    M["PartialOrd::" + n] = cmpop(n)

ORD = "core::cmp::Ordering"


def ordering(m, a, b, k):
    l = lt if k == "f" else lt_i
    return ite(l(a, b), mk("variant", ORD, 0), ite(eq(a, b), mk("variant", ORD, 1), mk("variant", ORD, 2)))


@reg("Ord::cmp")
def _(m, av, st, fn, tymap):
    a, b = V(m, st, av[0]), V(m, st, av[1])
    k = num_kind(m, fn, tymap)
    if k is None:
        return mk("app", "cmp", a, b)
    return ordering(m, a, b, k)


@reg("PartialOrd::partial_cmp")
def _(m, av, st, fn, tymap):
    a, b = V(m, st, av[0]), V(m, st, av[1])
    k = num_kind(m, fn, tymap)
    if k is None:
        return mk("app", "partial_cmp", a, b)
    return some(ordering(m, a, b, k))


@reg("f64::total_cmp")
def _(m, av, st, fn, tymap):
    return ordering(m, V(m, st, av[0]), V(m, st, av[1]), "f")


def equal(m, av, st, fn, tymap):
    from ex import eq_disc
    a, b = m.deref_all(st, av[0]), m.deref_all(st, av[1])
    t = m.p.subst_ty(m.p.types[fn["a"][0]], tymap)
    n = 0
    while t[0] == "ref":
        t = m.p.subst_ty(t[1], tymap)
        n += 1
    if t[0] == "adt":
        # comparison of references: the impl of the type behind them
        im = m.p.find_impl(fn["tr"], t, (t, t))
        body = m.p.bodies.get(im["items"].get("eq")) if im else None
        if body is not None and not body["generics"] and m.stack.count(body["id"]) < 2:
            r, _ = m.run_body(body, [a, b], {}, st)
            return r
    return eq_disc(a, b)


@reg("PartialEq::eq")
def _(m, av, st, fn, tymap):
    return equal(m, av, st, fn, tymap)


@reg("PartialEq::ne")
def _(m, av, st, fn, tymap):
    return bnot(equal(m, av, st, fn, tymap))


@reg("intrinsics::discriminant_value", "mem::discriminant")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    v = V(m, st, av[0])
    return disc(v, ks[0][1] if ks and ks[0][0] == "adt" else None)


# identity-like -----------------------------------------------------------
def ident(m, av, st, fn, tymap):
    return av[0]


def identv(m, av, st, fn, tymap):
    return V(m, st, av[0])


for n in ("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Option::cloned", "Option::copied", "String::as_str", "Vec::as_slice", "slice::iter_copied",
          "Box::into_inner", "Rc::new", "Arc::new", "Box::new", "Box::pin", "Cell::new", "RefCell::new", "Option::as_ref", "Result::as_ref", "Option::as_deref", "array::as_slice", "slice::into_vec", "str::to_string",
          "ToString::to_string", "Into::into", "From::from", "AsRef::as_ref", "Borrow::borrow", "hint::must_use",
          "Rc::clone", "str::to_owned", "Vec::into_boxed_slice", "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Deref::deref", "convert::identity", "Iterator::peekable", "RefCell::into_inner", "String::as_bytes", "str::as_bytes", "Vec::shrink_to_fit"):
    M[n] = identv


@reg("DerefMut::deref_mut", "Option::as_deref_mut", "Vec::as_mut_slice", "IntoIterator::into_iter_mut")
def _(m, av, st, fn, tymap):
    if av[0].op == "mref":
        v = m.read_ref(st, av[0])
        if v.op == "mref":
            return v
    return av[0]


@reg("RefCell::borrow_mut", "RefCell::get_mut")
def _(m, av, st, fn, tymap):
    if av[0].op == "mref":
        return av[0]
    return mk("app", "RefCell::borrow_mut", V(m, st, av[0]))


@reg("Vec::retain")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    if av[0].op != "mref":
        return NotImplemented
    i = it("filter", it("slice", v, ZERO, vlen(v)), av[1])
    a, _, s = consume(m, i, st, mk("vec"), lambda a, e, s: (push(a, e), TRUE, s))
    return UNIT, W(m, s, av[0], a)


@reg("Option::as_mut")
def _(m, av, st, fn, tymap):
    r = av[0]
    v = V(m, st, r)
    from ex import pf
    return ite(is_some(v), some(m.ext_ref(r, pf(OPT, 1, 0))), none())


@reg("From::from", "Into::into")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    a = V(m, st, av[0])
    if ks and ks[0][0] == "adt" and ks[0][1].endswith("HashSet"):
        return mk("app", "set", a)
    if ks and ks[0][0] == "adt" and ks[0][1].endswith("HashMap"):
        return mk("app", "map", a)
    if fn["n"] == "into" and len(ks) > 1 and ks[1][0] == "adt" and ks[1][1] == CX and ks[0][0] == "prim":
        return cx(a, ZERO)
    if fn["n"] == "from" and ks and ks[0][0] == "adt" and ks[0][1] == CX and ks[1][0] == "prim":
        return cx(a, ZERO)
    if ks and ks[0][0] == "adt" and ks[0][1].endswith("Box") or (len(ks) > 1 and ks[1][0] == "prim" and ks[0][0] == "prim"):
        return a
    if ks and len(ks) > 1 and ks[0] == ks[1]:
        return a
    if ks and ks[0][0] == "adt" and ks[0][1].endswith("String"):
        return a
    return mk("app", "into", a, mk("zst", ks[0] if fn["n"] == "from" else (ks[1] if len(ks) > 1 else None)))


@reg("HashMap::new", "BTreeMap::new", "HashMap::with_capacity")
def _(m, av, st, fn, tymap):
    return mk("hmap")


@reg("HashSet::new", "BTreeSet::new", "HashSet::with_capacity")
def _(m, av, st, fn, tymap):
    return mk("app", "set", mk("vec"))


@reg("HashSet::insert", "BTreeSet::insert")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    if v.op == "app" and v.args[0] == "set" and v.args[1].op == "vec":
        return mk("app", "set_new", v, av[1]), W(m, st, av[0], mk("app", "set", push(v.args[1], av[1])))
    return NotImplemented


@reg("HashMap::insert", "BTreeMap::insert")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    if v.op != "hmap":
        return NotImplemented
    old = hget(v, av[1])
    return old, W(m, st, av[0], mk("hmap", *(v.args + (m.deref_all(st, av[1]), m.deref_all(st, av[2])))))


def hget(v, k):
    r = none()
    for i in range(0, len(v.args), 2):
        r = ite(eq(v.args[i], k), some(v.args[i + 1]), r)
    return r


def as_hmap(v):
    if v.op == "app" and v.args[0] == "map" and v.args[1].op == "vec" and all(a.op == "tuple" for a in v.args[1].args):
        return mk("hmap", *[x for a in v.args[1].args for x in a.args])
    return v


@reg("HashMap::get", "BTreeMap::get")
def _(m, av, st, fn, tymap):
    v = as_hmap(V(m, st, av[0]))
    if v.op != "hmap":
        return NotImplemented
    return hget(v, V(m, st, av[1]))


@reg("HashMap::contains_key", "BTreeMap::contains_key")
def _(m, av, st, fn, tymap):
    v = as_hmap(V(m, st, av[0]))
    if v.op != "hmap":
        return NotImplemented
    return is_some(hget(v, V(m, st, av[1])))


@reg("FromIterator::from_iter")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    a = V(m, st, av[0])
    if ks and ks[0][0] == "adt" and ks[0][1].endswith("Set") and a.op == "vec":
        return mk("app", "set", a)
    if ks and ks[0][0] == "adt" and ks[0][1].endswith("Map") and a.op == "vec":
        return as_hmap(mk("app", "map", a))
    return NotImplemented


# Lazy statics
@reg("Lazy::get")
def _(m, av, st, fn, tymap):
    # lazy_static
    if len(av) > 1 and av[1].op in ("fnptr", "closure"):
        r, _ = m.apply(av[1], [], st)
        return r
    return NotImplemented


@reg("Lazy::new", "LazyLock::new", "OnceCell::new")
def _(m, av, st, fn, tymap):
    return mk("lazy", av[0]) if av else mk("app", "oncecell")


@reg("Deref::deref")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    if v.op == "lazy":
        r, st2 = m.apply(v.args[0], [], st)
        return r
    ks = argkinds(m, fn, tymap)
    return v


@reg("Lazy::force")
def _(m, av, st, fn, tymap):
    return M["Deref::deref"](m, av, st, fn, tymap)


# Option / Result -----------------------------------------------------------
@reg("Option::is_some", "Result::is_err")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return is_some(v) if fn["n"] == "is_some" else isv(v, RES, 1)


@reg("Option::is_none", "Result::is_ok")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return bnot(is_some(v)) if fn["n"] == "is_none" else is_ok(v)


def note(m, cond, kind, fn):
    if m.track and cond is not FALSE:
        b = m.stack[-1] if m.stack else "?"
        bd = m.p.bodies.get(b)
        m.panics.append((cond, kind, bd["path"] if bd else b, 0, None))


@reg("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    note(m, bnot(is_some(v)), "unwrap:Option", fn)
    if v.op == "variant" and v.args[1] == 0:
        return mk("undef"), None
    return payload(v)


@reg("Result::unwrap", "Result::expect")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    note(m, isv(v, RES, 1), "unwrap:Result", fn)
    if v.op == "variant" and v.args[1] == 1:
        return mk("undef"), None
    return okv(v)


@reg("Result::unwrap_err", "Result::expect_err")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return errv(v)


@reg("Option::unwrap_or")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(is_some(v), payload(v), av[1])


@reg("Result::unwrap_or")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(is_ok(v), okv(v), av[1])


def zero_default(m, dt):
    return mk("app", "default", mk("zst", dt))


@reg("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    ks = argkinds(m, fn, tymap)
    z = ZERO if ks and ks[0][0] == "prim" else (mk("vec") if ks and ks[0][0] == "adt" and ks[0][1].endswith("Vec") else mk("app", "default"))
    if "Option" in m.key(fn):
        return ite(is_some(v), payload(v), z)
    return ite(is_ok(v), okv(v), z)


def branch(m, c, thunk_t, thunk_f, st):
    """evaluate closures under a condition and merge stores"""
    if c is TRUE:
        return thunk_t(st)
    if c is FALSE:
        return thunk_f(st)
    p0 = len(m.panics)
    a, sa = thunk_t(st)
    for i in range(p0, len(m.panics)):
        m.panics[i] = (band(c, m.panics[i][0]),) + m.panics[i][1:]
    p0 = len(m.panics)
    b, sb = thunk_f(st)
    for i in range(p0, len(m.panics)):
        m.panics[i] = (band(bnot(c), m.panics[i][0]),) + m.panics[i][1:]
    if sa is None:
        return b, sb
    if sb is None:
        return a, sa
    return ite(c, a, b), m.merge(c, sa, sb)


@reg("Option::unwrap_or_else")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_some(v), lambda s: (payload(v), s), lambda s: m.apply(av[1], [], s), st)


@reg("Result::unwrap_or_else")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: (okv(v), s), lambda s: m.apply(av[1], [errv(v)], s), st)


@reg("Option::map")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])

    def t(s):
        r, s2 = m.apply(av[1], [payload(v)], s)
        return (some(r), s2) if s2 is not None else (r, None)
    return branch(m, is_some(v), t, lambda s: (none(), s), st)


@reg("Option::and_then")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_some(v), lambda s: m.apply(av[1], [payload(v)], s), lambda s: (none(), s), st)


@reg("Option::filter")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])

    def t(s):
        r, s2 = m.apply(av[1], [payload(v)], s)
        return ite(r, v, none()), s2
    return branch(m, is_some(v), t, lambda s: (none(), s), st)


@reg("Option::is_some_and", "Option::is_none_or")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    e = boolc(fn["n"] == "is_none_or")
    return branch(m, is_some(v), lambda s: m.apply(av[1], [payload(v)], s), lambda s: (e, s), st)


@reg("Option::map_or")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_some(v), lambda s: m.apply(av[2], [payload(v)], s), lambda s: (av[1], s), st)


@reg("Option::map_or_else")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_some(v), lambda s: m.apply(av[2], [payload(v)], s), lambda s: m.apply(av[1], [], s), st)


@reg("Option::ok_or")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(is_some(v), ok(payload(v)), err(av[1]))


@reg("Option::ok_or_else")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])

    def f(s):
        r, s2 = m.apply(av[1], [], s)
        return err(r), s2
    return branch(m, is_some(v), lambda s: (ok(payload(v)), s), f, st)


@reg("Option::or")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(is_some(v), v, av[1])


@reg("Option::or_else")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_some(v), lambda s: (v, s), lambda s: m.apply(av[1], [], s), st)


@reg("Result::ok")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(is_ok(v), some(okv(v)), none())


@reg("Result::err")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(is_ok(v), none(), some(errv(v)))


@reg("Result::map")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])

    def t(s):
        r, s2 = m.apply(av[1], [okv(v)], s)
        return (ok(r), s2) if s2 is not None else (r, None)
    return branch(m, is_ok(v), t, lambda s: (err(errv(v)), s), st)


@reg("Result::map_err")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])

    def f(s):
        r, s2 = m.apply(av[1], [errv(v)], s)
        return err(r), s2
    return branch(m, is_ok(v), lambda s: (ok(okv(v)), s), f, st)


@reg("Result::and_then")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return branch(m, is_ok(v), lambda s: m.apply(av[1], [okv(v)], s), lambda s: (err(errv(v)), s), st)


CF = "core::ops::control_flow::ControlFlow"


@reg("Try::branch")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    v = V(m, st, av[0])
    if ks[0][1].endswith("Option"):
        return ite(is_some(v), mk("variant", CF, 0, payload(v)), mk("variant", CF, 1, none()))
    return ite(is_ok(v), mk("variant", CF, 0, okv(v)), mk("variant", CF, 1, err(errv(v))))


@reg("FromResidual::from_residual")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    v = av[0]
    if ks[0][1].endswith("Option"):
        return none()
    # error conversion: same type -> identity
    e = errv(v)
    try:
        t_out = ks[0][2][1]
        t_in = ks[1][2][1]
    except Exception:
        t_out = t_in = None
    if t_out != t_in:
        b, tmp = m.p.find_impl("core::convert::From", t_out) if t_out else None, None
        cand = [im for im in m.p.trait_impls.get("core::convert::From", []) if im["selfty"] == t_out and len(im["targs"]) > 1 and m.p.types[im["targs"][1]] == t_in]
        if cand:
            b = m.p.bodies.get(cand[0]["items"]["from"])
            if b:
                r, s2 = m.run_body(b, [e], {}, st)
                if s2 is not None:
                    return err(r), s2
        e = mk("app", "into", e, mk("zst", t_out))
    return err(e)


@reg("Option::take")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return v, W(m, st, av[0], none())


@reg("mem::replace")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return v, W(m, st, av[0], av[1])


@reg("mem::swap")
def _(m, av, st, fn, tymap):
    a, b = V(m, st, av[0]), V(m, st, av[1])
    st = W(m, st, av[0], b)
    return UNIT, W(m, st, av[1], a)


@reg("mem::take")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return v, W(m, st, av[0], M["Default::default"](m, [], st, fn, tymap))


# Vec / slices --------------------------------------------------------------
@reg("Vec::new", "Vec::with_capacity")
def _(m, av, st, fn, tymap):
    return mk("vec")


@reg("Default::default")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    t = ks[0]
    if t[0] == "prim":
        return FALSE if t[1] == "bool" else ZERO
    if t[0] == "adt" and t[1].endswith("Vec"):
        return mk("vec")
    if t[0] == "adt" and t[1].endswith("Option"):
        return none()
    if t[0] == "adt" and t[1].endswith("Box") and t[2]:
        im = m.p.find_impl("core::default::Default", t[2][0])
        if im and "default" in im["items"]:
            b = m.p.bodies.get(im["items"]["default"])
            if b:
                return m.run_body(b, [], {}, st)
    return mk("app", "default", mk("zst", t))


@reg("vec::from_elem")
def _(m, av, st, fn, tymap):
    n = av[1]
    return mk("repeat", n, av[0])


@reg("Vec::push")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return UNIT, W(m, st, av[0], push(v, av[1]))


@reg("Vec::len", "slice::len", "str::len", "String::len", "ExactSizeIterator::len")
def _(m, av, st, fn, tymap):
    return vlen(V(m, st, av[0]))


@reg("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty")
def _(m, av, st, fn, tymap):
    return eq(vlen(V(m, st, av[0])), ZERO)


def range_of(m, i, v, t):
    """usize or range index -> ('i', idx) / ('s', lo, hi)"""
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n == "Range":
            return ("s", field(i, t[1], None, 0), field(i, t[1], None, 1))
        if n == "RangeFrom":
            return ("s", field(i, t[1], None, 0), vlen(v))
        if n == "RangeTo":
            return ("s", ZERO, field(i, t[1], None, 0))
        if n == "RangeToInclusive":
            return ("s", ZERO, add(field(i, t[1], None, 0), ONE))
        if n == "RangeInclusive":
            return ("s", field(i, None, None, 0), add(field(i, None, None, 1), ONE))
        if n == "RangeFull":
            return ("s", ZERO, vlen(v))
    return ("i", i)


def strslice(v, lo, hi):
    if v.op == "ite":
        return ite(v.args[0], strslice(v.args[1], lo, hi), strslice(v.args[2], lo, hi))
    if v.op == "str" and lo.op == "num" and (hi is None or hi.op == "num") and v.args[0].isascii():
        return mk("str", v.args[0][int(lo.args[0]):(None if hi is None else int(hi.args[0]))])
    return mk("app", "strslice", v, lo, hi if hi is not None else vlen(v))


def subslice(v, lo, hi):
    if lo is ZERO and hi is vlen(v):
        return v
    if v.op == "subslice":
        return mk("subslice", v.args[0], add(v.args[1], lo), add(v.args[1], hi))
    if v.op == "vec" and lo.op == "num" and hi.op == "num":
        return mk("vec", *v.args[int(lo.args[0]):int(hi.args[0])])
    return mk("subslice", v, lo, hi)


tm.REBUILD_SUB = subslice


@reg("Index::index", "slice::get_unchecked")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    v = V(m, st, av[0])
    if ks[0][0] == "adt" and (ks[0][1].endswith("HashMap") or ks[0][1].endswith("BTreeMap")):
        return mk("app", "mapget", v, V(m, st, av[1]))
    if ks[0][0] == "adt" and ks[0][1].endswith("String"):
        n = ks[1][1].split("::")[-1] if len(ks) > 1 and ks[1][0] == "adt" else ""
        return strslice(v, field(av[1], ks[1][1], None, 0) if n in ("Range", "RangeFrom") else ZERO,
                        {"Range": lambda: field(av[1], ks[1][1], None, 1), "RangeTo": lambda: field(av[1], ks[1][1], None, 0),
                         "RangeToInclusive": lambda: add(field(av[1], ks[1][1], None, 0), ONE)}.get(n, lambda: None)())
    r = range_of(m, av[1], v, ks[1] if len(ks) > 1 else ("prim", "usize"))
    if r[0] == "i":
        return select(v, r[1])
    return subslice(v, r[1], r[2])


@reg("IndexMut::index_mut")
def _(m, av, st, fn, tymap):
    from ex import pi
    ks = argkinds(m, fn, tymap)
    v = V(m, st, av[0])
    r = range_of(m, av[1], v, ks[1] if len(ks) > 1 else ("prim", "usize"))
    if r[0] == "i":
        return m.ext_ref(av[0], pi(r[1]))
    return m.ext_ref(av[0], mk("ps", r[1], r[2]))


@reg("slice::get", "Vec::get")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    i = av[1]
    ks = argkinds(m, fn, tymap)
    if len(ks) > 1 and ks[1][0] == "adt":
        return NotImplemented
    return ite(lt_i(i, vlen(v)), some(select(v, i)), none())


@reg("slice::get_mut")
def _(m, av, st, fn, tymap):
    from ex import pi
    v = V(m, st, av[0])
    return ite(lt_i(av[1], vlen(v)), some(m.ext_ref(av[0], pi(av[1]))), none())


ELEM, ELEM2 = var("@e"), var("@f")


def lam(body, n=1):
    lev = body.bl + 1
    return mk("lam", n, subst(body, {x: mk("bv", lev, i) for i, x in enumerate((ELEM, ELEM2)[:n])}), lev)


def app_lam(l, *xs):
    return subst(l.args[1], {mk("bv", l.args[2], i): x for i, x in enumerate(xs)})


def sorted_(v, less):
    if v.op == "vec" and len(v.args) <= 1:
        return v
    if v.op == "ite":
        return ite(v.args[0], sorted_(v.args[1], less), sorted_(v.args[2], less))
    return mk("app", "sorted", v, less)


tm.REBUILD["sorted"] = sorted_


def less_of(m, a, b, t):
    k = None
    if t is not None:
        if t[0] == "prim":
            k = "f" if t[1] in ("f64", "f32") else "i"
        elif isdate(t) or isdelta(t):
            k = "i"
    if k:
        return (lt if k == "f" else lt_i)(a, b), eq(a, b)
    return mk("app", "cmp:lt", a, b), eq(a, b)


@reg("slice::sort", "slice::sort_unstable")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    ks = argkinds(m, fn, tymap)
    t = ks[0] if ks else None
    return UNIT, W(m, st, av[0], sorted_(v, lam(less_of(m, ELEM, ELEM2, t)[0], 2)))


@reg("slice::sort_by", "slice::sort_unstable_by")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    r, s2 = m.apply(av[1], [ELEM, ELEM2], st)
    if s2 is None:
        return NotImplemented
    return UNIT, W(m, st, av[0], sorted_(v, lam(isv(r, ORD, 0), 2)))


@reg("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    ks = argkinds(m, fn, tymap)
    a, s2 = m.apply(av[1], [ELEM], st)
    b, s3 = m.apply(av[1], [ELEM2], st)
    t = ks[1] if len(ks) > 1 else None
    return UNIT, W(m, st, av[0], sorted_(v, lam(less_of(m, V(m, s2, a), V(m, s3, b), t)[0], 2)))


def ppoint(v, pred):
    """number of leading elements satisfying pred(@e)"""
    return mk("app", "pp", v, lam(pred))


def bsearch(v, less, same):
    i = ppoint(v, less)
    hit = band(lt_i(i, vlen(v)), subst(same, {ELEM: select(v, i)}))
    return ite(hit, ok(i), err(i))


@reg("slice::binary_search")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    l, e = less_of(m, ELEM, V(m, st, av[1]), ks[0] if ks else None)
    return bsearch(V(m, st, av[0]), l, e)


@reg("slice::binary_search_by")
def _(m, av, st, fn, tymap):
    r, s2 = m.apply(av[1], [ELEM], st)
    return bsearch(V(m, st, av[0]), isv(r, ORD, 0), isv(r, ORD, 1))


@reg("slice::binary_search_by_key")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    k, s2 = m.apply(av[2], [ELEM], st)
    l, e = less_of(m, V(m, s2, k), V(m, st, av[1]), ks[1] if len(ks) > 1 else None)
    return bsearch(V(m, st, av[0]), l, e)


@reg("slice::partition_point")
def _(m, av, st, fn, tymap):
    r, s2 = m.apply(av[1], [ELEM], st)
    return ppoint(V(m, st, av[0]), r)


@reg("slice::first")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(eq(vlen(v), ZERO), none(), some(select(v, ZERO)))


@reg("slice::last")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return ite(eq(vlen(v), ZERO), none(), some(select(v, sub(vlen(v), ONE))))


@reg("slice::last_mut")
def _(m, av, st, fn, tymap):
    from ex import pi
    v = V(m, st, av[0])
    return ite(eq(vlen(v), ZERO), none(), some(m.ext_ref(av[0], pi(sub(vlen(v), ONE)))))


@reg("slice::first_mut")
def _(m, av, st, fn, tymap):
    from ex import pi
    v = V(m, st, av[0])
    return ite(eq(vlen(v), ZERO), none(), some(m.ext_ref(av[0], pi(ZERO))))


def contains(v, x):
    if v.op == "ite":
        return ite(v.args[0], contains(v.args[1], x), contains(v.args[2], x))
    l = v.args[1] if v.op == "app" and v.args[0] == "set" else v
    if l.op == "vec":
        r = FALSE
        for a in l.args:
            r = bor(r, eq(x, a))
        return r
    return mk("app", "contains", v, x)


tm.REBUILD["contains"] = contains


@reg("slice::contains", "Vec::contains", "HashSet::contains", "BTreeSet::contains")
def _(m, av, st, fn, tymap):
    return contains(V(m, st, av[0]), V(m, st, av[1]))


@reg("RangeInclusive::new")
def _(m, av, st, fn, tymap):
    return mk("tuple", av[0], av[1])


@reg("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def _(m, av, st, fn, tymap):
    r = V(m, st, av[0])
    x = V(m, st, av[1])
    k = m.key(fn).split("::")[0]
    ks = argkinds(m, fn, tymap)
    fl = bool(ks) and ks[-1] in (("prim", "f64"), ("prim", "f32"))
    l = lt if fl else lt_i
    p = {"Range": "core::ops::range::Range", "RangeFrom": "core::ops::range::RangeFrom", "RangeTo": "core::ops::range::RangeTo", "RangeToInclusive": "core::ops::range::RangeToInclusive"}.get(k)
    if k == "RangeInclusive":
        return band(bnot(l(x, field(r, None, None, 0))), bnot(l(field(r, None, None, 1), x)))
    if k == "Range":
        return band(bnot(l(x, field(r, p, None, 0))), l(x, field(r, p, None, 1)))
    if k == "RangeFrom":
        return bnot(l(x, field(r, p, None, 0)))
    if k == "RangeTo":
        return l(x, field(r, p, None, 0))
    return bnot(l(field(r, p, None, 0), x))


@reg("RangeInclusive::start")
def _(m, av, st, fn, tymap):
    return field(V(m, st, av[0]), None, None, 0)


@reg("RangeInclusive::end")
def _(m, av, st, fn, tymap):
    return field(V(m, st, av[0]), None, None, 1)


# iterators -----------------------------------------------------------------
RANGE = "core::ops::range::Range"


def it(kind, *a):
    return mk("it", kind, *a)


def as_iter(m, v, t):
    """IntoIterator of a value of type t"""
    if v.op == "it":
        return v
    if v.op == "variant" and v.args[0] == RANGE:
        return it("range", v.args[2], v.args[3])
    if v.op == "variant" and v.args[0].endswith("range::RangeFrom"):
        return it("rangefrom", v.args[2])
    if v.op == "variant" and v.args[0] == OPT:
        return it("option", v)
    if t is not None and t[0] == "adt" and t[1].endswith("RangeInclusive"):
        return it("range", field(v, None, None, 0), add(field(v, None, None, 1), ONE))
    if t is not None and t[0] == "adt" and t[1].endswith("option::Option"):
        return it("option", v)
    if t is not None and t[0] == "adt" and t[1] == RANGE:
        return it("range", field(v, RANGE, None, 0), field(v, RANGE, None, 1))
    return it("slice", v, ZERO, vlen(v))


@reg("IntoIterator::into_iter")
def _(m, av, st, fn, tymap):
    a = [m.p.subst_ty(m.p.types[i], tymap) for i in fn["a"] if isinstance(i, int)]
    t = a[0] if a else None
    x = av[0]
    if t and t[0] == "ref" and t[2]:
        r = x
        v = V(m, st, r)
        return it("slicemut", r, ZERO, vlen(v))
    while t and t[0] == "ref":
        t = t[1]
    v = V(m, st, x) if (x.op in ("mref",)) else x
    if v.op == "app" and v.args[0] in ("set", "map"):
        return it("opaque", mk("app", "iter", v))
    if t and t[0] == "adt" and (t[1].endswith("HashMap") or t[1].endswith("HashSet")):
        return it("opaque", mk("app", "iter", v))
    if t and t[0] == "param":
        return it("opaque", mk("app", "iter", v))
    return joined(as_iter(m, v, t))


def joined(i):
    """a `for` loop over a chain of slices is a loop over their concatenation"""
    if i.op != "it" or i.args[0] != "chain":
        return i
    ps = []
    for x in i.args[1:3]:
        x = joined(x)
        if x.op != "it" or x.args[0] != "slice" or x.args[1].op == "mref":
            return i
        lo, hi = x.args[2], x.args[3]
        ps.append(x.args[1] if lo is ZERO and hi is vlen(x.args[1]) else subslice(x.args[1], lo, hi))
    v = mk("cat", *ps)
    return it("slice", v, ZERO, vlen(v))


@reg("slice::iter", "Vec::iter", "Option::iter")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    if fn["n"] == "iter" and m.key(fn).startswith("Option"):
        return it("option", v)
    return it("slice", v, ZERO, vlen(v))


@reg("slice::iter_mut", "Vec::iter_mut")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return it("slicemut", av[0], ZERO, vlen(v))


@reg("slice::windows")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    return it("windows", v, av[1], ZERO, add(sub(vlen(v), av[1]), ONE))


@reg("Iterator::map")
def _(m, av, st, fn, tymap):
    return it("map", gi(m, st, av[0], fn, tymap), av[1])


@reg("Iterator::filter")
def _(m, av, st, fn, tymap):
    return it("filter", gi(m, st, av[0], fn, tymap), av[1])


@reg("Iterator::filter_map")
def _(m, av, st, fn, tymap):
    return it("filter_map", gi(m, st, av[0], fn, tymap), av[1])


@reg("Iterator::flat_map")
def _(m, av, st, fn, tymap):
    return it("flat", it("map", gi(m, st, av[0], fn, tymap), av[1]))


@reg("Iterator::flatten")
def _(m, av, st, fn, tymap):
    return it("flat", gi(m, st, av[0], fn, tymap))


@reg("Iterator::inspect", "Iterator::fuse", "Iterator::by_ref")
def _(m, av, st, fn, tymap):
    if fn["n"] == "fuse":
        return gi(m, st, av[0], fn, tymap)
    return NotImplemented


@reg("Iterator::take_while")
def _(m, av, st, fn, tymap):
    return it("take_while", gi(m, st, av[0], fn, tymap), av[1])


@reg("Iterator::enumerate")
def _(m, av, st, fn, tymap):
    return it("enumerate", gi(m, st, av[0], fn, tymap), ZERO)


@reg("Iterator::zip")
def _(m, av, st, fn, tymap):
    a = argkinds(m, fn, tymap)
    b = av[1]
    if b.op != "it":
        b = as_iter(m, V(m, st, b), a[1] if len(a) > 1 else None)
    return it("zip", gi(m, st, av[0], fn, tymap), b)


@reg("Iterator::rev")
def _(m, av, st, fn, tymap):
    return it("rev", gi(m, st, av[0], fn, tymap))


@reg("Iterator::skip")
def _(m, av, st, fn, tymap):
    i = gi(m, st, av[0], fn, tymap)
    r = advance_by(i, av[1])
    return r if r is not None else it("skip", i, av[1])


@reg("Iterator::take")
def _(m, av, st, fn, tymap):
    i = gi(m, st, av[0], fn, tymap)
    return it("take", i, av[1])


@reg("Iterator::step_by")
def _(m, av, st, fn, tymap):
    i = gi(m, st, av[0], fn, tymap)
    return it("step_by", i, av[1])


@reg("Iterator::chain")
def _(m, av, st, fn, tymap):
    a = argkinds(m, fn, tymap)
    b = av[1]
    if b.op != "it":
        b = as_iter(m, V(m, st, b), a[1] if len(a) > 1 else None)
    return it("chain", gi(m, st, av[0], fn, tymap), b)


@reg("once::once", "iter::once")
def _(m, av, st, fn, tymap):
    return it("slice", mk("vec", av[0]), ZERO, ONE)


def advance_by(i, n):
    k = i.args[0]
    if k in ("slice", "slicemut"):
        return it(k, i.args[1], add(i.args[2], n), i.args[3])
    if k == "windows":
        return it(k, i.args[1], i.args[2], add(i.args[3], n), i.args[4])
    if k == "range":
        return it(k, add(i.args[1], n), i.args[2])
    if k == "map":
        r = advance_by(i.args[1], n)
        return it("map", r, i.args[2]) if r is not None else None
    if k == "enumerate":
        r = advance_by(i.args[1], n)
        return it("enumerate", r, add(i.args[2], n)) if r is not None else None
    if k == "zip":
        a, b = advance_by(i.args[1], n), advance_by(i.args[2], n)
        return it("zip", a, b) if a is not None and b is not None else None
    return None


def gi(m, st, x, fn=None, tymap=None):
    v = V(m, st, x) if x.op == "mref" else x
    if v.op == "it":
        return v
    t = None
    if fn is not None:
        ks = argkinds(m, fn, tymap)
        t = ks[0] if ks else None
    if t and t[0] == "adt" and (t[1].endswith("Chars") or "hash" in t[1]):
        return it("opaque", v)
    if v.op in ("variant", "vec", "tuple") or (t is not None and t[0] == "adt" and "range" in t[1]):
        return as_iter(m, v, t)
    return it("opaque", v)


class Unk(Exception):
    pass


def it_next(m, i, st):
    """-> (some_cond, elem, next_iter, store, skip_cond)"""
    k = i.args[0]
    a = i.args
    if k == "range":
        return lt_i(a[1], a[2]), a[1], it("range", add(a[1], ONE), a[2]), st, FALSE
    if k == "rangefrom":
        return TRUE, a[1], it("rangefrom", add(a[1], ONE)), st, FALSE
    if k == "slice":
        return lt_i(a[2], a[3]), select(a[1], a[2]), it("slice", a[1], add(a[2], ONE), a[3]), st, FALSE
    if k == "slicemut":
        from ex import pi
        return lt_i(a[2], a[3]), m.ext_ref(a[1], pi(a[2])), it("slicemut", a[1], add(a[2], ONE), a[3]), st, FALSE
    if k == "windows":
        return lt_i(a[3], a[4]), subslice(a[1], a[3], add(a[3], a[2])), it("windows", a[1], a[2], add(a[3], ONE), a[4]), st, FALSE
    if k == "option":
        return is_some(a[1]), payload(a[1]), it("option", none()), st, FALSE
    if k == "map":
        c, e, n, st, sk = it_next(m, a[1], st)
        r, st2 = m.apply(a[2], [e], st)
        if st2 is None:
            raise Unk("diverging map")
        st2 = m.merge(band(c, bnot(sk)), st2, st) if st2 is not st else st
        return c, r, it("map", n, a[2]), st2, sk
    if k in ("filter",):
        c, e, n, st, sk = it_next(m, a[1], st)
        r, st2 = m.apply(a[2], [e], st)
        return c, e, it("filter", n, a[2]), st2, bor(sk, bnot(r))
    if k == "filter_map":
        c, e, n, st, sk = it_next(m, a[1], st)
        r, st2 = m.apply(a[2], [e], st)
        return c, payload(r), it("filter_map", n, a[2]), st2, bor(sk, bnot(is_some(r)))
    if k == "take_while":
        c, e, n, st, sk = it_next(m, a[1], st)
        r, st2 = m.apply(a[2], [e], st)
        return band(c, r), e, it("take_while", n, a[2]), st2, sk
    if k == "map_while":
        c, e, n, st, sk = it_next(m, a[1], st)
        r, st2 = m.apply(a[2], [e], st)
        return band(c, bor(sk, is_some(r))), payload(r), it("map_while", n, a[2]), st2, sk
    if k == "scan":
        from ex import mref
        c, e, n, st, sk = it_next(m, a[1], st)
        if sk is not FALSE:
            raise Unk("scan of filter")
        r, st2 = m.apply(a[2].args[1], [mref(a[2].args[0]), e], st)
        if st2 is None:
            raise Unk("diverging scan")
        st2 = m.merge(c, st2, st)
        return band(c, is_some(r)), payload(r), it("scan", n, a[2]), st2, FALSE
    if k == "enumerate":
        c, e, n, st, sk = it_next(m, a[1], st)
        if sk is not FALSE:
            nc = ite(sk, a[2], add(a[2], ONE))
        else:
            nc = add(a[2], ONE)
        return c, mk("tuple", a[2], e), it("enumerate", n, nc), st, sk
    if k == "zip":
        c1, e1, n1, st, s1 = it_next(m, a[1], st)
        c2, e2, n2, st, s2 = it_next(m, a[2], st)
        if s1 is not FALSE or s2 is not FALSE:
            raise Unk("zip of filter")
        return band(c1, c2), mk("tuple", e1, e2), it("zip", n1, n2), st, FALSE
    if k == "take":
        c, e, n, st, sk = it_next(m, a[1], st)
        return band(lt_i(ZERO, a[2]), c), e, it("take", n, sub(a[2], ONE)), st, sk
    if k == "rev":
        return it_prev(m, a[1], st)
    if k == "chain":
        c1, e1, n1, st, s1 = it_next(m, a[1], st)
        c2, e2, n2, st, s2 = it_next(m, a[2], st)
        return bor(c1, c2), ite(c1, e1, e2), it("chain", n1, ite(c1, a[2], n2)), st, ite(c1, s1, s2)
    if k == "ite_it":
        pass
    raise Unk("iterator " + str(k))


def it_prev(m, i, st):
    k = i.args[0]
    a = i.args
    if k == "range":
        x = sub(a[2], ONE)
        return lt_i(a[1], a[2]), x, it("rev", it("range", a[1], x)), st, FALSE
    if k == "slice":
        x = sub(a[3], ONE)
        return lt_i(a[2], a[3]), select(a[1], x), it("rev", it("slice", a[1], a[2], x)), st, FALSE
    if k == "windows":
        x = sub(a[4], ONE)
        return lt_i(a[3], a[4]), subslice(a[1], x, add(x, a[2])), it("rev", it("windows", a[1], a[2], a[3], x)), st, FALSE
    if k == "map":
        c, e, n, st, sk = it_prev(m, a[1], st)
        r, st2 = m.apply(a[2], [e], st)
        return c, r, it("rev", it("map", n.args[1], a[2])), st2, sk
    if k == "rev":
        c, e, n, st, sk = it_next(m, a[1], st)
        return c, e, it("rev", it("rev", n)), st, sk
    if k == "enumerate" and a[1].args[0] in ("slice", "windows", "range"):
        b = a[1].args
        lo, hi = (b[2], b[3]) if b[0] == "slice" else ((b[3], b[4]) if b[0] == "windows" else (b[1], b[2]))
        c, e, n, st, sk = it_prev(m, a[1], st)
        idx = add(a[2], sub(sub(hi, ONE), lo))
        return c, mk("tuple", idx, e), it("rev", it("enumerate", n.args[1], a[2])), st, sk
    raise Unk("rev of " + str(k))


@reg("Iterator::next", "DoubleEndedIterator::next_back")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    ks = argkinds(m, fn, tymap)
    if v.op != "it":
        if v.op == "variant" and v.args[0] == RANGE or (ks and ks[0][0] == "adt" and ks[0][1] == RANGE):
            # `Range` iterated in place keeps its struct form
            lo, hi = field(v, RANGE, None, 0), field(v, RANGE, None, 1)
            c = lt_i(lo, hi)
            return ite(c, some(lo), none()), W(m, st, av[0], variant(RANGE, 0, add(lo, ONE), hi))
        if v.op == "ite":
            return NotImplemented
        return NotImplemented
    if v.args[0] == "opaque":
        r = mk("app", "iter_next", v)
        return r, W(m, st, av[0], it("opaque", mk("app", "iter_rest", v)))
    if fn["n"] == "next_back":
        v = it("rev", v)
        c, e, n, st2, sk = it_next(m, v, st)
        n = n.args[1]
    else:
        try:
            c, e, n, st2, sk = it_next(m, v, st)
        except Unk:
            return NotImplemented
    if sk is not FALSE:
        # explicit for-loop over a filtered iterator: search loop
        return find_next(m, v, st, av[0])
    if st2 is st:
        return ite(c, some(e), none()), W(m, st, av[0], n)
    return ite(c, some(e), none()), W(m, m.merge(c, st2, st), av[0], n)


def find_next(m, v, st, ref):
    m.fid += 1
    ci = ("itr", m.fid)
    cr = ("res", m.fid)
    st0 = dict(st)
    st0[ci] = v
    st0[cr] = none()

    def body(s):
        c, e, n, s2, sk = it_next(m, s[ci], s)
        sb = dict(s2)
        sb[ci] = n
        sf = dict(s2)
        sf[ci] = n
        sf[cr] = some(e)
        return [("back", band(c, sk), sb), ("f", band(c, bnot(sk)), sf), ("d", bnot(c), dict(s))]
    res = m.do_loop(st0, body)
    c, s = join(m, res)
    r = s.pop(cr)
    n = s.pop(ci)
    return r, W(m, s, ref, n)


def join(m, res):
    k, c, s = res[-1]
    for k2, c2, s2 in reversed(res[:-1]):
        s = m.merge(c2, s2, s)
    return c, s


def consume(m, i, st, init, step, stop=False):
    """fold over iterator i.  step(acc, elem, store) -> (acc', continue_cond, store)
    returns (acc at exit, stopped_cond, store)"""
    wrap, j = [], i
    while j.args[0] in ("map", "filter", "filter_map"):
        wrap.append(j)
        j = j.args[1]
    if j.args[0] == "flat":
        def outer(acc, e, s):
            x = e
            if x.op == "mref" or x.op != "it":
                x = as_iter(m, V(m, s, e), None)
            for w in reversed(wrap):
                x = it(w.args[0], x, w.args[2])
            if has_opaque(x):
                raise Unk("inner iterator")
            acc, stopped, s = consume(m, x, s, acc, step)
            if stopped is not FALSE:
                raise Unk("early exit from nested iterators")
            return acc, TRUE, s
        return consume(m, j.args[1], st, init, outer)
    if j.args[0] == "chain" and j.args[1].op == "it" and j.args[2].op == "it":
        parts = []
        for x in j.args[1:3]:
            for w in reversed(wrap):
                x = it(w.args[0], x, w.args[2])
            parts.append(x)
        acc, stopped, s = consume(m, parts[0], st, init, step)
        if stopped is TRUE:
            return acc, stopped, s
        acc2, stopped2, s2 = consume(m, parts[1], s, acc, step)
        if stopped is FALSE:
            return acc2, stopped2, s2
        return ite(stopped, acc, acc2), bor(stopped, stopped2), m.merge(stopped, s, s2) if s2 is not s else s
    m.fid += 1
    ci, ca = ("itr", m.fid), ("acc", m.fid)
    st0 = dict(st)
    st0[ci] = i
    st0[ca] = init
    stopc = [FALSE]

    def body(s):
        c, e, n, s2, sk = it_next(m, s[ci], s)
        if sk is not FALSE:
            acc, go, s3 = step(s[ca], e, s2)
            if s3 is None:
                raise Unk("diverging step")
            sb = dict(s3)
            sb[ca] = ite(sk, s[ca], acc)
            go = bor(sk, go)
            if s3 is not s2:
                sb = m.merge(sk, dict(s2, **{}), sb)
                sb[ca] = ite(sk, s[ca], acc)
        else:
            acc, go, s3 = step(s[ca], e, s2)
            if s3 is None:
                raise Unk("diverging step")
            sb = dict(s3)
            sb[ca] = acc
        sb[ci] = n
        outs = [("back", band(c, go), sb)]
        if go is not TRUE:
            outs.append(("stop", band(c, bnot(go)), sb))
        outs.append(("done", bnot(c), dict(s)))
        return outs
    res = m.do_loop(st0, body)
    stopped = FALSE
    for k, c, s in res:
        if k == "stop":
            stopped = c if len(res) > 1 else TRUE
    c, s = join(m, res)
    acc = s.pop(ca)
    s.pop(ci, None)
    return acc, stopped, s


def cons(f):
    def h(m, av, st, fn, tymap):
        i = gi(m, st, av[0], fn, tymap)
        if has_opaque(i):
            return NotImplemented
        try:
            return f(m, i, av, st, fn, tymap)
        except Unk:
            return NotImplemented
    return h


def has_opaque(i):
    return i.op != "it" or i.args[0] == "opaque" or any(isinstance(a, T) and a.op == "it" and has_opaque(a) for a in i.args)


@reg("Iterator::sum")
@cons
def _(m, i, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    if len(ks) > 1 and ks[1][0] == "adt" and ks[1][1] == CX:
        z = cx(ZERO, ZERO)
        stp = lambda a, e, s: (carith("add", a, e, True, True), TRUE, s)
    else:
        z = ZERO
        stp = lambda a, e, s: (add(a, V(m, s, e)), TRUE, s)
    r, _, s = consume(m, i, st, z, stp)
    return r, s


@reg("Iterator::product")
@cons
def _(m, i, av, st, fn, tymap):
    r, _, s = consume(m, i, st, ONE, lambda a, e, s: (mul(a, V(m, s, e)), TRUE, s))
    return r, s


@reg("Iterator::count")
@cons
def _(m, i, av, st, fn, tymap):
    r, _, s = consume(m, i, st, ZERO, lambda a, e, s: (add(a, ONE), TRUE, s))
    return r, s


@reg("Iterator::fold")
@cons
def _(m, i, av, st, fn, tymap):
    def step(a, e, s):
        r, s2 = m.apply(av[2], [a, e], s)
        return r, TRUE, s2
    r, _, s = consume(m, i, st, av[1], step)
    return r, s


@reg("Iterator::for_each")
@cons
def _(m, i, av, st, fn, tymap):
    def step(a, e, s):
        r, s2 = m.apply(av[1], [e], s)
        return a, TRUE, s2
    r, _, s = consume(m, i, st, UNIT, step)
    return UNIT, s


@reg("Iterator::any", "Iterator::all")
@cons
def _(m, i, av, st, fn, tymap):
    any_ = fn["n"] == "any"
    if i.args[0] == "slice" and i.args[1].op == "vec" and i.args[2] is ZERO:
        r = boolc(not any_)
        s = st
        for e in i.args[1].args:
            c, s = m.apply(av[1], [e], s)
            r = bor(r, c) if any_ else band(r, c)
        return r, s

    def step(a, e, s):
        r, s2 = m.apply(av[1], [e], s)
        return a, (bnot(r) if any_ else r), s2
    _, stopped, s = consume(m, i, st, UNIT, step)
    return (stopped if any_ else bnot(stopped)), s


@reg("Iterator::find", "Iterator::position", "Iterator::find_map", "DoubleEndedIterator::rfind", "Iterator::rposition")
@cons
def _(m, i, av, st, fn, tymap):
    k = fn["n"]
    if k.startswith("r"):
        i = it("rev", i)

    def step(a, e, s):
        r, s2 = m.apply(av[1], [e], s)
        cnt = field(a, None, None, 0)
        if k in ("find", "rfind"):
            v = ite(r, some(e), none())
            return mk("tuple", cnt, v), bnot(r), s2
        if k == "find_map":
            return mk("tuple", cnt, r), bnot(is_some(r)), s2
        v = ite(r, some(cnt), none())
        return mk("tuple", add(cnt, ONE), v), bnot(r), s2
    a, stopped, s = consume(m, i, st, mk("tuple", ZERO, none()), step)
    return field(a, None, None, 1), s


@reg("Iterator::max", "Iterator::min", "Iterator::last")
@cons
def _(m, i, av, st, fn, tymap):
    k = fn["n"]

    def step(a, e, s):
        e = V(m, s, e)
        if k == "last":
            return some(e), TRUE, s
        return some(ite(is_some(a), mm(k, payload(a), e), e)), TRUE, s
    a, _, s = consume(m, i, st, none(), step)
    return a, s


@reg("Iterator::collect")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    i = gi(m, st, av[0], fn, tymap)
    if has_opaque(i):
        return NotImplemented
    t = ks[1] if len(ks) > 1 else None
    try:
        if t and t[0] == "adt" and t[1].endswith("result::Result"):
            def step(a, e, s):
                o = is_ok(e)
                return mk("tuple", push(field(a, None, None, 0), okv(e)), ite(o, field(a, None, None, 1), errv(e))), o, s
            a, stopped, s = consume(m, i, st, mk("tuple", mk("vec"), mk("undef")), step)
            return ite(stopped, err(field(a, None, None, 1)), ok(field(a, None, None, 0))), s
        if t and t[0] == "adt" and t[1].endswith("option::Option"):
            def step(a, e, s):
                o = is_some(e)
                return push(a, payload(e)), o, s
            a, stopped, s = consume(m, i, st, mk("vec"), step)
            return ite(stopped, none(), some(a)), s
        if t and t[0] == "adt" and t[1].endswith("Vec"):
            if i.args[0] == "slice" and i.args[2] is ZERO and i.args[3] is vlen(i.args[1]):
                return i.args[1]
            if i.args[0] == "slice":
                return subslice(i.args[1], i.args[2], i.args[3])
            a, _, s = consume(m, i, st, mk("vec"), lambda a, e, s: (push(a, m.deref_all(s, e)), TRUE, s))
            return a, s
        if t and t[0] == "adt":
            a, _, s = consume(m, i, st, mk("vec"), lambda a, e, s: (push(a, m.deref_all(s, e)), TRUE, s))
            return mk("app", "set" if "Set" in t[1] else "collect:" + t[1], a), s
    except Unk:
        pass
    return NotImplemented


@reg("Extend::extend", "Vec::extend_from_slice")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    x = V(m, st, av[1])
    ks = argkinds(m, fn, tymap)
    i = x if x.op == "it" else as_iter(m, x, None)
    if has_opaque(i):
        return NotImplemented
    try:
        a, _, s = consume(m, i, st, v, lambda a, e, s: (push(a, m.deref_all(s, e)), TRUE, s))
    except Unk:
        return NotImplemented
    return UNIT, W(m, s, av[0], a)


@reg("FnMut::call_mut", "Fn::call", "FnOnce::call_once")
def _(m, av, st, fn, tymap):
    f = av[0]
    tup = av[1]
    if tup.op == "tuple":
        args = list(tup.args)
    else:
        args = [tup]
        ks = argkinds(m, fn, tymap)
        if len(ks) > 1 and ks[1][0] == "tuple":
            args = [field(tup, None, None, i) for i in range(len(ks[1][1]))]
    fv = V(m, st, f)
    if fv.op in ("closure",):
        b = m.p.bodies.get(fv.args[0][1])
        if b is not None:
            return m.apply(f, args, st)
    return m.apply(f, args, st)


# chrono: dates are day numbers ------------------------------------------------
@reg("TimeDelta::days", "Days::new")
def _(m, av, st, fn, tymap):
    return av[0]


@reg("Months::new")
def _(m, av, st, fn, tymap):
    return av[0]


@reg("TimeDelta::try_days")
def _(m, av, st, fn, tymap):
    c = TRUE if m.assume_range else mk("app", "delta_ok", av[0])
    if av[0].op == "num" or (av[0].op == "ite" and av[0].args[1].op == "num" and av[0].args[2].op == "num"):
        c = TRUE
    return ite(c, some(av[0]), none())


@reg("TimeDelta::num_days")
def _(m, av, st, fn, tymap):
    return V(m, st, av[0])


@reg("TimeDelta::weeks")
def _(m, av, st, fn, tymap):
    return mul(num(7), av[0])


@reg("NaiveDate::signed_duration_since")
def _(m, av, st, fn, tymap):
    return sub(V(m, st, av[0]), V(m, st, av[1]))


@reg("NaiveDate::checked_add_signed", "NaiveDate::checked_add_days")
def _(m, av, st, fn, tymap):
    r = add(V(m, st, av[0]), av[1])
    return ite(TRUE if m.assume_range else mk("app", "date_ok", r), some(r), none())


@reg("NaiveDate::checked_sub_signed", "NaiveDate::checked_sub_days")
def _(m, av, st, fn, tymap):
    r = sub(V(m, st, av[0]), av[1])
    return ite(TRUE if m.assume_range else mk("app", "date_ok", r), some(r), none())


@reg("NaiveDate::checked_add_months", "NaiveDate::checked_sub_months")
def _(m, av, st, fn, tymap):
    n = av[1] if "add" in fn["n"] else neg(av[1])
    r = mk("app", "date+months", V(m, st, av[0]), n)
    return ite(TRUE if m.assume_range else mk("app", "date_ok", r), some(r), none())


@reg("NaiveDate::pred_opt")
def _(m, av, st, fn, tymap):
    return some(sub(V(m, st, av[0]), ONE))


@reg("NaiveDate::succ_opt")
def _(m, av, st, fn, tymap):
    return some(add(V(m, st, av[0]), ONE))


def ymd(y, mo, d):
    return mk("app", "ymd", y, mo, d)


@reg("NaiveDate::from_ymd_opt")
def _(m, av, st, fn, tymap):
    y, mo, d = av
    c = tm.ymd_ok(y, mo, d)
    if mo.op == "num" and d.op == "num":
        mm_, dd = int(mo.args[0]), int(d.args[0])
        if 1 <= mm_ <= 12 and 1 <= dd <= 28:
            c = TRUE
        elif 1 <= mm_ <= 12 and 1 <= dd <= [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mm_ - 1]:
            c = TRUE
        elif not (1 <= mm_ <= 12) or dd > 31 or dd < 1:
            c = FALSE
    return ite(c, some(ymd(y, mo, d)), none())


def datepart(name):
    def h(m, av, st, fn, tymap):
        x = V(m, st, av[0])
        return part(name, x)
    return h


def part(name, x):
    if x.op == "app" and x.args[0] == "ymd" and name in ("year", "month", "day"):
        return x.args[{"year": 1, "month": 2, "day": 3}[name]]
    if x.op == "ite":
        return ite(x.args[0], part(name, x.args[1]), part(name, x.args[2]))
    return mk("app", name, x)


for n in ("year", "month", "day", "ordinal"):
    M["Datelike::" + n] = datepart(n)
    tm.REBUILD[n] = (lambda n: lambda x: part(n, x))(n)
M["NaiveDate::leap_year"] = f1("leap")
M["Datelike::month0"] = lambda m, av, st, fn, t: sub(part("month", V(m, st, av[0])), ONE)
M["Datelike::day0"] = lambda m, av, st, fn, t: sub(part("day", V(m, st, av[0])), ONE)
M["Datelike::ordinal0"] = lambda m, av, st, fn, t: sub(part("ordinal", V(m, st, av[0])), ONE)


@reg("Datelike::weekday")
def _(m, av, st, fn, tymap):
    return mk("app", "weekday", V(m, st, av[0]))


@reg("Weekday::num_days_from_monday", "Weekday::number_from_monday")
def _(m, av, st, fn, tymap):
    w = V(m, st, av[0])
    d = disc(w, "chrono::weekday::Weekday")
    return d if fn["n"] == "num_days_from_monday" else add(d, ONE)


@reg("NaiveDate::iter_days")
def _(m, av, st, fn, tymap):
    return it("rangefrom", V(m, st, av[0]))


# Rc / RefCell: interior mutability modelled as plain (aliasing ignored) --------
@reg("RefCell::borrow", "Ref::deref")
def _(m, av, st, fn, tymap):
    return V(m, st, av[0])


# RNG ------------------------------------------------------------------------
@reg("Rng::sample", "Rng::random", "Distribution::sample", "Rng::gen", "Rng::random_range", "Rng::sample_iter")
def _(m, av, st, fn, tymap):
    k = fn["n"]
    if fn["tr"].endswith("Distribution"):
        rng, d = av[1], V(m, st, av[0])
    else:
        rng, d = av[0], (V(m, st, av[1]) if len(av) > 1 else UNIT)
    s = V(m, st, rng)
    r = mk("app", "draw", s, d)
    return r, W(m, st, rng, mk("app", "rng_next", s))


@reg("SeedableRng::seed_from_u64")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    return mk("app", "rng_seed", mk("zst", ks[0]), av[0])


@reg("fmt::format", "format::format")
def _(m, av, st, fn, tymap):
    return mk("app", "fmt", *[m.deref_all(st, a) for a in av])


@reg("str::chars")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    c = mk("vec", *[mk("chr", x) for x in v.args[0]]) if v.op == "str" else mk("app", "chars", v)
    return it("slice", c, ZERO, vlen(c))


@reg("Iterator::nth")
@cons
def _(m, i, av, st, fn, tymap):
    j = advance_by(i, av[1])
    if j is None:
        return NotImplemented
    c, e, n, st2, sk = it_next(m, j, st)
    if sk is not FALSE or st2 is not st:
        return NotImplemented
    return ite(c, some(e), none()), W(m, st, av[0], n)


@reg("ToString::to_string")
def _(m, av, st, fn, tymap):
    ks = argkinds(m, fn, tymap)
    v = V(m, st, av[0])
    if ks and ks[0] == ("prim", "char"):
        return mk("str", v.args[0]) if v.op == "chr" else mk("app", "charstr", v)
    if ks and ks[0][0] == "adt" and not ks[0][1].endswith("String"):
        for im in m.p.trait_impls.get("core::fmt::Display", []):
            if im["selfty"][1] == ks[0][1]:
                b = m.p.bodies[im["items"]["fmt"]]
                r, _ = m.run_body(b, [v, var("fmt")], {}, dict(st))
                r = padded(r)
                if r is not None:
                    return r
        return mk("app", "display", v)
    return v


def padded(r):
    """the text a derived Display writes"""
    if r is None:
        return None
    if r.op == "ite":
        a, b = padded(r.args[1]), padded(r.args[2])
        return None if a is None or b is None else ite(r.args[0], a, b)
    if r.op == "app" and r.args[0] in ("Formatter::pad", "Formatter::write_str", "Display::fmt"):
        return next((x for x in r.args[1:] if isinstance(x, T) and x.op == "str"), None)
    return None


@reg("String::push_str")
def _(m, av, st, fn, tymap):
    return UNIT, W(m, st, av[0], strcat(V(m, st, av[0]), V(m, st, av[1])))


@reg("String::push")
def _(m, av, st, fn, tymap):
    c = V(m, st, av[1])
    return UNIT, W(m, st, av[0], strcat(V(m, st, av[0]), mk("str", c.args[0]) if c.op == "chr" else mk("app", "charstr", c)))


def strcat(a, b):
    if a.op == "str" and not a.args[0]:
        return b
    if a.op == "ite":
        return ite(a.args[0], strcat(a.args[1], b), strcat(a.args[2], b))
    return mk("app", "strcat", a, b)


M["String::new"] = lambda m, av, st, fn, tymap: mk("str", "")


# boxes under construction: vec![..] writes the array through a fresh box
@reg("Box::new_uninit")
def _(m, av, st, fn, tymap):
    m.nbox = getattr(m, "nbox", 0) + 1
    st = dict(st)
    c = ("box", m.nbox)
    st[c] = mk("app", "uninit")
    from ex import mref
    return mref(c), st


@reg("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    if av[0].op == "mref" and av[0].args[0][0] == "box":
        st = dict(st)
        st.pop(av[0].args[0], None)
        return v, st
    return v


CUR = "iso_currency::Currency"


@reg("Currency::from_code")
def _(m, av, st, fn, tymap):
    def go(v):
        if v.op == "ite":
            return ite(v.args[0], go(v.args[1]), go(v.args[2]))
        a = tm.ADTS.get(CUR)
        if v.op == "str" and a:
            n = [x["n"] for x in a["v"]]
            return some(variant(CUR, n.index(v.args[0]))) if v.args[0] in n else none()
        return NotImplemented
    r = go(V(m, st, av[0]))
    return r


@reg("Currency::code")
def _(m, av, st, fn, tymap):
    v = V(m, st, av[0])
    a = tm.ADTS.get(CUR)

    def go(v):
        if v.op == "ite":
            x, y = go(v.args[1]), go(v.args[2])
            return None if x is None or y is None else ite(v.args[0], x, y)
        if v.op == "variant" and a:
            return mk("str", a["v"][v.args[1]]["n"])
        return None
    r = go(v)
    return NotImplemented if r is None else r


@reg("NaiveTime::from_hms_opt")
def _(m, av, st, fn, tymap):
    def go(xs):
        for i, x in enumerate(xs):
            if x.op == "ite":
                return ite(x.args[0], go([y.args[1] if y.op == "ite" and y.args[0] is x.args[0] else y for y in xs]),
                           go([y.args[2] if y.op == "ite" and y.args[0] is x.args[0] else y for y in xs]))
        h, mi, s = xs
        if all(x.op == "num" for x in xs):
            if h.args[0] < 24 and mi.args[0] < 60 and s.args[0] < 60:
                return some(num(h.args[0] * 3600 + mi.args[0] * 60 + s.args[0]))
            return none()
        return mk("app", "NaiveTime::from_hms_opt", *xs)
    return go([V(m, st, x) for x in av])


def normal_of(v):
    """mean and deviation of a normal law"""
    if v.op == "app" and v.args[0] == "Normal::standard":
        return ZERO, ONE
    if v.op == "field" and v.args[0].op == "app" and v.args[0].args[0] == "Normal::new" and v is okv(v.args[0]):
        return v.args[0].args[1], v.args[0].args[2]
    return None


def normal(f, out=lambda r, mu, s: r, inv=False):
    def h(m, av, st, fn, tymap):
        d = normal_of(V(m, st, av[0]))
        if d is None:
            return NotImplemented
        mu, s = d
        x = V(m, st, av[1])
        if not inv and (mu is not ZERO or s is not ONE):
            x = mul(sub(x, mu), power(s, -1))
        return out(f(x), mu, s)
    return h


M["ContinuousCDF::cdf"] = normal(lambda x: tm.ncdf(x))
M["ContinuousCDF::sf"] = normal(lambda x: tm.ncdf(neg(x)))
M["Continuous::pdf"] = normal(lambda x: tm.npdf(x), lambda r, mu, s: mul(r, power(s, -1)) if s is not ONE else r)
M["ContinuousCDF::inverse_cdf"] = normal(lambda x: mk("app", "ninv", x), lambda r, mu, s: add(mu, mul(s, r)), inv=True)


@reg("brent::find_root_brent")
def _(m, av, st, fn, tymap):
    # SimpleConvergency keeps no state; the function argument is applied at unknown points
    return mk("app", "brent::find_root_brent", *[m.reify(a, m.deref_all(st, a), st) for a in av])


import models2  # noqa: E402,F401  (registers the long tail)
