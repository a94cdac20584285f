"""Whole-crate rules over the exported program: determinism, and the agreement of both directions of serialization."""
import re
from props import prop

OBS = "who-calls-what rule over every function, closure and static of the exported program"
SER = "both sides of every derived serialization compared on the exported program (names written per field against names accepted per field)"

# callee -> what it reads that the caller did not pass in
SOURCES = [
    (r"^std::time::|^chrono::.*::(now|today|now_utc|now_local)$|^chrono::offset::local::", "the clock"),
    (r"^rand::rngs::(thread|os)|^rand::(random(_\w+)?|rng|thread_rng)$|::(from_entropy|from_os_rng|try_from_os_rng)$|^getrandom::|^std::random::|^std::hash::random::\{impl|^rand_core::os|^fastrand::", "the operating system's random numbers"),
    (r"^std::env::", "the environment"),
    (r"^std::fs::|^std::net::|^std::os::|^std::process::(?!abort|exit)", "the machine it runs on"),
    (r"^std::io::stdio::\{impl.*\}::(read|lines)|^std::io::stdio::stdin|^std::io::(Read|BufRead)::", "input"),
    (r"^std::thread::(local|current|spawn|id)|^std::sync::mpsc|^core::fmt::rt::.*new_pointer", "the thread it runs on or an address"),
]
SOURCES = [(re.compile(a), b) for a, b in SOURCES]
RNG = re.compile(r"(::OsRng|::ThreadRng|std::time::SystemTime|std::time::Instant|std::thread::local::LocalKey)$")
CELLS = re.compile(r"^core::cell::(Cell|RefCell|UnsafeCell|SyncUnsafeCell)$|^core::sync::atomic::|^std::sync::(poison::)?(mutex|rwlock)::|^std::sync::.*::(Mutex|RwLock)$|^parking_lot::|^lock_api::")
HASH = re.compile(r"^std::collections::hash::(map|set)::Hash(Map|Set)$")
ITER = re.compile(r"^std::collections::hash::(map|set)::.*::(iter|iter_mut|keys|values|values_mut|into_iter|drain|into_keys|into_values|union|intersection|difference|symmetric_difference)$")
# what makes the order an unordered collection is visited in irrelevant
SORTED = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|any|all|count|len|contains|is_empty|min|max|min_by|max_by|min_by_key|max_by_key)$")


def walk(x, f):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "fn" and isinstance(x[1], dict):
            f("fn", x[1])
            return
        if len(x) == 3 and x[0] == "static" and isinstance(x[2], str):
            f("static", x)
            return
        if len(x) > 2 and x[0] == "cast" and isinstance(x[1], str) and x[1].startswith("PointerExpose"):
            f("expose", x)
        if len(x) > 1 and x[0] == "agg" and isinstance(x[1], list) and x[1] and x[1][0] == "closure":
            f("closure", x[1][1])
        for y in x:
            walk(y, f)
    elif isinstance(x, dict):
        for y in x.values():
            walk(y, f)


def ours(b):
    return "verif_" not in b["id"]


def types_in(t, f):
    f(t)
    for x in t:
        if isinstance(x, tuple):
            types_in(x, f)


def sloc(b):
    return "%s:%s" % (b["file"], b["line"])


def owner(i):
    return re.sub(r"(::\{closure#\d+\}|#p\d+)+$", "", i)


@prop("X01", OBS, "no result depends on anything but the arguments: no clock, entropy, environment, hidden mutable state or unordered iteration", floor=60,
      assumptions=["functions of the crate's dependencies that are not listed as effectful are deterministic (random number generators are seeded by the caller)"])
def pure(cx):
    p = cx.p
    calls, callers = {}, {}
    bodies = [b for b in p.bodies.values() if ours(b)]
    for b in bodies:
        got = []
        walk(b["blocks"], lambda k, x: got.append((k, x)))
        calls[b["id"]] = got
        for k, x in got:
            if k == "fn":
                for c in {x["p"], x["r"]} - {None}:
                    callers.setdefault(owner(c), set()).add(owner(b["id"]))
            elif k == "closure":
                callers.setdefault(owner(x), set()).add(owner(b["id"]))
    imm = [b["id"] for n in ("time::imm::IMM::date",) for b in p.by_path.get(n, [])]

    def only_imm(f, seen=()):
        if f in imm:
            return True
        cs = callers.get(f, set()) - {f}
        return bool(cs) and all(c in seen or only_imm(c, seen + (f,)) for c in cs)

    def chain(f):
        seen, todo = {f: None}, [f]
        while todo:
            g = todo.pop(0)
            cs = sorted(callers.get(g, set()) - set(seen))
            if not cs:
                out = [g]
                while seen[out[-1]]:
                    out.append(seen[out[-1]])
                return " -> ".join(x.replace("finquant::", "") for x in out)
            for c in cs:
                seen[c] = g
                todo.append(c)
        return f.replace("finquant::", "")
    found = {}

    def hit(b, what):
        found.setdefault(b["file"], []).append((b, what))
    for b in bodies:
        o = owner(b["id"])
        got = calls[b["id"]]
        heads = [(x["r"] or x["p"]) for k, x in got if k == "fn"] + [x["p"] for k, x in got if k == "fn"]
        for h in sorted(set(heads)):
            for rx, what in SOURCES:
                if rx.search(h) and not (what == "the clock" and only_imm(o)):
                    hit(b, "reads %s (%s); called by %s" % (what, h, chain(o)))
        for l in b["locals"]:
            t = p.types[l[0] if isinstance(l, list) else l]
            bad = []
            types_in(t, lambda u: bad.append(u[1]) if u and u[0] == "adt" and RNG.search(u[1]) else None)
            if bad and not only_imm(o):
                hit(b, "holds a value of %s; called by %s" % (bad[0], chain(o)))
                break
        for k, x in got:
            if k == "expose":
                hit(b, "turns an address into a number; called by %s" % chain(o))
            if k == "static":
                why = mutable(p, p.types[x[1]])
                if why:
                    hit(b, "uses the mutable static %s (%s); called by %s" % (x[2], why, chain(o)))
        for h in unordered(p, b):
            hit(b, "visits an unordered collection (%s) and nothing puts the result in order; called by %s" % (h, chain(o)))
    files = {}
    for b in bodies:
        files.setdefault(b["file"], []).append(b)
        cx.bodies.add(b["path"])
    for f in sorted(files):
        bad = found.get(f, [])
        w = bad[0][0] if bad else None
        cx.ob(f, not bad, "; ".join(sorted({x for _, x in bad}))[:1500] if bad else "%d functions, closures and statics, no effect" % len(files[f]), sloc(w) + " " + w["path"] if w else f)


def locals_in(x, out):
    """the locals an operand, place or right-hand side mentions"""
    if isinstance(x, list):
        if x and x[0] in ("cp", "mv") and len(x) == 2:
            out.add(x[1] if isinstance(x[1], int) else x[1][0])
            return
        if x and x[0] in ("ref", "disc", "len") and len(x) > 1:
            out.add(x[1] if isinstance(x[1], int) else x[1][0])
            return
        if x and x[0] == "k":
            return
        for y in x:
            locals_in(y, out)


def into_unordered(p, f):
    for i in list(f["a"]) + list(f["ra"]):
        if isinstance(i, int):
            hit = []
            types_in(p.types[i], lambda u: hit.append(1) if u and u[0] == "adt" and ("btree" in u[1] or HASH.search(u[1])) else None)
            if hit:
                return True
    return False


def unordered(p, b):
    """iterations over hash collections whose order can show: what is visited is followed forwards through the
    body; a sort, an order-free fold or another map or set at the end hides the order"""
    out = []
    for n, bl in enumerate(b["blocks"]):
        t = bl["t"]
        if t[0] != "call" or t[1][0] != "fn":
            continue
        f = t[1][1]
        h = f["r"] or f["p"]
        over = ITER.search(h) or ITER.search(f["p"])
        if f["n"] == "into_iter" and f["a"] and isinstance(f["a"][0], int):
            u = p.types[f["a"][0]]
            while u[0] == "ref":
                u = u[1]
            over = over or (u[0] == "adt" and HASH.search(u[1]))
        if not over:
            continue
        base = lambda x: x if isinstance(x, int) else x[0]
        tainted, hidden, grown = {base(t[3])}, False, True
        while grown:
            k = len(tainted)
            for m, q in enumerate(b["blocks"]):
                for s in q["s"]:
                    us = set()
                    locals_in(s[1], us)
                    if us & tainted:
                        tainted.add(base(s[0]))
                    if s[1][0] == "ref" and s[1][-1] is True and base(s[0]) in tainted:
                        tainted.add(base(s[1][1]))
                c = q["t"]
                if c[0] == "call" and m != n:
                    us = set()
                    locals_in(c[2], us)
                    if us & tainted:
                        tainted.add(base(c[3]))
                        tainted |= us
                        if c[1][0] == "fn":
                            g = c[1][1]
                            if SORTED.search(g["r"] or g["p"]) or SORTED.search(g["p"]):
                                hidden = True
                            if g["n"] in ("collect", "extend", "from_iter", "insert") and into_unordered(p, g):
                                hidden = True
            grown = len(tainted) != k
        if not hidden:
            out.append(h)
    return out


def mutable(p, t, depth=0):
    """why the static behind this pointer can change after its initialisation"""
    if t[0] == "ptr" and depth == 0 and t[2]:
        return "static mut"
    if t[0] in ("ref", "ptr"):
        return mutable(p, t[1], depth + 1)
    if t[0] in ("slice", "array"):
        return mutable(p, t[1], depth + 1)
    if t[0] == "tuple":
        for x in t[1]:
            w = mutable(p, x, depth + 1)
            if w:
                return w
        return None
    if t[0] != "adt" or depth > 8:
        return None
    if CELLS.search(t[1]):
        return t[1].split("::")[-1]
    if t[1].startswith(("once_cell::", "lazy_static::", "std::sync::lazy_lock", "std::sync::once_lock", "core::cell::lazy", "core::cell::once")):
        return mutable(p, t[2][0], depth + 1) if t[2] else None
    for x in t[2]:
        if isinstance(x, tuple):
            w = mutable(p, x, depth + 1)
            if w:
                return w
    a = p.adts.get(t[1])
    if a and a.get("local"):
        for v in a["v"]:
            for fl in v["f"]:
                ti = fl.get("t") if isinstance(fl, dict) else (fl[1] if isinstance(fl, list) and len(fl) > 1 else None)
                if isinstance(ti, int):
                    w = mutable(p, p.types[ti], depth + 1)
                    if w:
                        return w
    return None


# ---------------------------------------------------------------- serialization
class Odd(Exception):
    pass


def defs(b):
    d = {}
    for bl in b["blocks"]:
        for s in bl["s"]:
            if isinstance(s[0], int):
                d.setdefault(s[0], []).append(s[1])
    return d


def field_of(b, op, d, depth=0):
    """the place of self an operand is a reference to: (variant or None, field)"""
    if depth > 8 or op[0] not in ("cp", "mv"):
        raise Odd("a written value is not a plain field")
    pl = op[1]
    if not isinstance(pl, int):
        raise Odd("a written value is not a plain field")
    ds = d.get(pl, [])
    if len(ds) != 1:
        raise Odd("a written value is computed")
    r = ds[0]
    if r[0] == "use":
        return field_of(b, r[1], d, depth + 1)
    if r[0] == "ref":
        q = r[1]
        if isinstance(q, int):
            return field_of(b, ["cp", q], d, depth + 1)
        base, pr = q[0], [x for x in q[1:] if x != "*"]
        if base == 1:
            v = [x[1] for x in pr if x[0] == "d"]
            f = [x[1] for x in pr if x[0] == "f"]
            if len(f) == 1:
                return (v[0] if v else None, f[0])
        elif not pr:
            return field_of(b, ["cp", base], d, depth + 1)
    raise Odd("a written value is not a plain field")


def writes(b):
    d = defs(b)
    out = {"fields": {}, "variants": {}, "kind": None, "vf": {}}
    for bl in b["blocks"]:
        t = bl["t"]
        if t[0] != "call" or t[1][0] != "fn":
            continue
        n, a = t[1][1]["n"], t[2]
        if n in ("serialize_struct", "serialize_unit_struct"):
            out["kind"] = "struct"
        elif n == "serialize_field":
            if a[1][0] != "str":
                raise Odd("a name is computed")
            v, f = field_of(b, a[2], d)
            if v is None:
                out["fields"].setdefault(f, []).append(a[1][1])
            else:
                out["vf"].setdefault((v, f), []).append(a[1][1])
        elif n in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_struct_variant", "serialize_tuple_variant"):
            out["kind"] = "enum"
            if a[2][0] != "k" or a[3][0] != "str":
                raise Odd("a name is computed")
            i = int(a[2][2])
            out["variants"].setdefault(i, []).append(a[3][1])
            if n == "serialize_newtype_variant":
                field_of(b, a[4], d)
        elif n in ("skip_field",):
            raise Odd("a field is written only at times")
        elif n and n.startswith("serialize") and n not in ("serialize_struct", "serialize_field"):
            raise Odd("written by %s" % n)
    if not out["kind"]:
        raise Odd("not of the derived form")
    return out


def reads(p, b):
    """name -> index of the field or variant it selects, from the identifier visitor"""
    out = {}
    blocks = b["blocks"]
    for bl in blocks:
        t = bl["t"]
        if t[0] != "call" or t[1][0] != "fn" or t[1][1]["n"] != "eq":
            continue
        names = [x[1] for x in t[2] if x[0] == "str"]
        if len(names) != 1:
            raise Odd("a name is computed")
        sw = blocks[t[4]]["t"]
        if sw[0] != "switch":
            raise Odd("a name is not branched on")
        to = sw[3]
        for _ in range(6):
            ag = [s[1] for s in blocks[to]["s"] if s[1][0] == "agg" and s[1][1][0] == "adt" and re.search(r"::__Field\w*(#\d+)?$", s[1][1][1])]
            if ag:
                break
            if blocks[to]["t"][0] != "goto":
                raise Odd("a name selects no field")
            to = blocks[to]["t"][1]
        else:
            raise Odd("a name selects no field")
        adt = p.adts.get(ag[0][1][1])
        vn = adt["v"][ag[0][1][2]]["n"]
        m = re.match(r"__field(\d+)$", vn)
        if m:
            out.setdefault(names[0], int(m.group(1)))
    return out


@prop("X02", SER, "every derived type reads back exactly the fields and variants it writes; the tags of calendars and day counters are unique", floor=60,
      assumptions=["serde_derive and typetag generate consistent code from their attributes; hand-written serializations are left undecided", "the serialized form of a field's own type round-trips (decided for this crate's types by the same rule, assumed for chrono, iso_currency and std)"])
def serde(cx):
    p = cx.p
    ser = {im["selfty"]: im for im in p.trait_impls.get("serde_core::ser::Serialize", []) if ours(dict(id=str(im["selfty"])))}
    de = {im["selfty"]: im for im in p.trait_impls.get("serde_core::de::Deserialize", [])}
    for t in sorted(ser, key=str):
        if t not in de or t[0] != "adt":
            continue
        name = t[1].replace("finquant::", "")
        si, di = ser[t], de[t]
        where = "%s:%s" % (si["file"], si["line"])
        wb = p.bodies.get(si["items"].get("serialize"))
        du = di["items"].get("deserialize")
        if wb is None or du not in p.bodies:
            cx.ob(name, None, "no body", where)
            continue
        cx.bodies.add(wb["path"])
        cx.bodies.add(p.bodies[du]["path"])
        if not (si["exp"] and di["exp"]):
            cx.ob(name, None, "undecided: a hand-written direction", where)
            continue
        adt = p.adts[t[1]]
        try:
            w = writes(wb)
            tops, nested = [], []
            for i, b in p.bodies.items():
                if i.startswith(du + "::") and i.endswith("::visit_str"):
                    cx.bodies.add(b["path"])
                    (nested if "::visit_enum::" in i else tops).append(b)
            r = {}
            for b in tops:
                r.update(reads(p, b))
            nest = [reads(p, b) for b in sorted(nested, key=lambda b: [int(x) for x in re.findall(r"#(\d+)\}", b["id"])])]
            bad = []
            items = [f for f in adt["v"][0]["f"]] if w["kind"] == "struct" else adt["v"]
            wr = w["fields"] if w["kind"] == "struct" else w["variants"]
            lab = "field" if w["kind"] == "struct" else "variant"

            def nm(i):
                x = items[i]
                return x.get("n", x.get("name", str(i))) if isinstance(x, dict) else (x[0] if isinstance(x, list) else str(i))
            for i in range(len(items)):
                back = [n for n, j in r.items() if j == i]
                if i not in wr:
                    bad.append("%s %s is not written" % (lab, nm(i)))
                elif not back:
                    bad.append("%s %s is written as '%s' but never read" % (lab, nm(i), wr[i][0]))
                for n in wr.get(i, []):
                    if back and r.get(n) != i:
                        bad.append("%s %s is written as '%s', which reads back as %s" % (lab, nm(i), n, nm(r[n]) if n in r else "nothing; it is read from '%s'" % back[0]))
            seen = {}
            for i, ns in wr.items():
                for n in ns:
                    if seen.setdefault(n, i) != i:
                        bad.append("'%s' is written for two %ss" % (n, lab))
            sv = [v for v, va in enumerate(adt["v"]) if va["f"] and not va["f"][0][0].isdigit()] if w["kind"] == "enum" else []
            if len(sv) != len(nest):
                raise Odd("a variant with named fields is read in a way of its own")
            for v, rd in zip(sv, nest):
                va = adt["v"][v]
                for f in range(len(va["f"])):
                    ns = w["vf"].get((v, f), [])
                    if not ns:
                        bad.append("field %s of %s is not written" % (va["f"][f][0], va["n"]))
                    for n in ns:
                        if rd.get(n) != f:
                            bad.append("field '%s' of %s is not read back" % (n, va["n"]))
            cx.ob(name, not bad, "; ".join(bad) or "%d %ss written and read back" % (len(items), lab), where)
        except Exception as e:
            cx.ob(name, None, "undecided: %s" % e, where)
    tags(cx)


def tags(cx):
    """type tags: one name per implementation, registered under that name for that type"""
    p = cx.p
    reg = []
    for b in p.bodies.values():
        if not ours(b):
            continue
        got = []
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and t[1][1]["n"] == "typetag_register":
                clos = []
                walk([x["s"] for x in b["blocks"]], lambda k, x: clos.append(x) if k == "closure" else None)
                ty = None
                for c in clos:
                    cb = p.bodies.get(c)
                    for q in (cb["blocks"] if cb else []):
                        u = q["t"]
                        if u[0] == "call" and u[1][0] == "fn" and u[1][1]["n"] == "deserialize" and u[1][1]["a"]:
                            ty = p.types[u[1][1]["a"][0]]
                st = t[1][1]["st"]
                reg.append((str(p.types[st]) if st is not None else t[1][1]["p"], t[2][0][1] if t[2][0][0] == "str" else None, ty, b))
    for trait in sorted(p.trait_impls):
        ims = [im for im in p.trait_impls[trait] if "typetag_name" in im["items"]]
        names = {}
        for im in sorted(ims, key=lambda x: str(x["selfty"])):
            b = p.bodies.get(im["items"]["typetag_name"])
            key = "tag of " + str(im["selfty"][1]).replace("finquant::", "")
            where = "%s:%s" % (im["file"], im["line"])
            ss = [s[1][1][1] for bl in (b["blocks"] if b else []) for s in bl["s"] if s[0] == 0 and s[1][0] == "use" and s[1][1][0] == "str"]
            if len(ss) != 1:
                cx.ob(key, None, "undecided: the tag is computed", where)
                continue
            cx.bodies.add(b["path"])
            n = ss[0]
            rs = [r for r in reg if r[2] == im["selfty"]]
            bad = []
            if n in names:
                bad.append("tag '%s' is also the tag of %s" % (n, names[n]))
            names.setdefault(n, str(im["selfty"][1]))
            if not rs:
                bad.append("tag '%s' is never registered for this type" % n)
            elif all(r[1] != n for r in rs):
                bad.append("written as '%s' but registered as '%s'" % (n, rs[0][1]))
            for r in reg:
                if r[1] == n and r[2] is not None and r[2] != im["selfty"] and rs and r[0] == rs[0][0]:
                    bad.append("tag '%s' is also registered for %s" % (n, r[2][1]))
            cx.ob(key, not bad, "; ".join(bad) or "written and registered as '%s'" % n, where)
