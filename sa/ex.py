"""Gated value-numbering of MIR: a forward dataflow over the (loop-collapsed)
CFG that computes, for every function, the value number of its result, of every
&mut argument and the condition of every panic site.  Joins become gated phis
(`ite` on the controlling branch), natural loops become recurrences.  Callees
are inlined unless declared opaque; no path is enumerated and nothing is run.
"""
from fractions import Fraction as Fr
import json
import sys
from term import *
from bdd import canonb, under
import term as tm

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


SHORT = 8


def short(i):
    """iterator over a literal sequence of at most SHORT items"""
    k, a = i.args[0], i.args

    def n(lo, hi):
        return lo.op == "num" and hi.op == "num" and hi.args[0] - lo.args[0] <= SHORT
    if k in ("range",):
        return n(a[1], a[2])
    if k in ("slice", "slicemut"):
        return n(a[2], a[3])
    if k == "windows":
        return n(a[3], a[4])
    if k in ("map", "enumerate", "rev", "filter", "filter_map"):
        return a[1].op == "it" and short(a[1])
    if k == "zip":
        return short(a[1]) or short(a[2])
    return False


def choose(c, a, b):
    """if c then a else b; iterators of one shape are chosen component by component"""
    if a is b:
        return a
    if a.op == "it" and b.op == "it" and len(a.args) == len(b.args) and all(isinstance(x, T) == isinstance(y, T) and (isinstance(x, T) or x == y) for x, y in zip(a.args, b.args)):
        parts = [choose(c, x, y) if isinstance(x, T) else x for x, y in zip(a.args, b.args)]
        if not any(isinstance(x, T) and x.op == "ite" and x.args[1].op in ("mref", "closure", "it") for x in parts):
            return mk("it", *parts)
    return ite(c, a, b)


class Frame:
    __slots__ = ("id", "b", "tymap", "live", "mutb")


def pf(adt, v, i, n=None):
    return mk("pf", adt, v, i, n)


def pi(i):
    return mk("pi", i)


def mref(cell, *path):
    return mk("mref", cell, *path)


def strip_ref(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t


FLOATS = (("prim", "f64"), ("prim", "f32"))


def is_float_ty(t):
    t = strip_ref(t)
    return t in FLOATS


BOXLIKE = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "alloc::rc::Rc", "alloc::rcs::rc::Rc", "alloc::sync::Arc",
           "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit", "core::mem::maybe_dangling::MaybeDangling")


MARK = ("mark", 0)


class Machine:
    def __init__(self, prog, opaque=(), transparent=(), max_depth=60, track=False):
        self.p = prog
        self.opaque = set(opaque)
        self.fid = 0
        self.nlv = 0
        self.stack = []
        self.panics = []
        self.track = track
        self.refuse = False    # explicit panics are early returns that leave a mark
        self.assume_range = False
        self.const_cache = {}
        self.max_depth = max_depth
        self.unknown = {}
        self.calls = []        # opaque calls seen (for effect listing)
        self.nbodies = 0
        self.inlined = set()
        self.effect_hook = None
        import models
        self.models = models

    # ------------------------------------------------------------ frames
    def frame(self, b, tymap):
        fr = Frame()
        self.fid += 1
        fr.id = self.fid
        fr.b = b
        fr.tymap = tymap or {}
        lv = b.get("_live")
        if lv is None:
            lv = b["_live"] = liveness(b, self.p.cfg(b))
        fr.live, fr.mutb = lv
        return fr

    def lty(self, fr, l):
        return self.p.subst_ty(self.p.types[fr.b["locals"][l][0]], fr.tymap)

    def ty(self, fr, i):
        return self.p.subst_ty(self.p.types[i], fr.tymap)

    def newlv(self):
        self.nlv += 1
        return mk("lv", self.nlv)

    # ------------------------------------------------------------ entry point
    def extract(self, b, args=None, tymap=None):
        """value-number body b; returns Extract"""
        store = {}
        argv = []
        outs = []
        cfg_n = b["argc"]
        fr0 = self.frame(b, tymap)
        for i in range(1, cfg_n + 1):
            t = self.lty(fr0, i)
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                a = args[i - 1]
            else:
                a = var("a%d" % i)
            if t[0] == "ref" and (t[2] or self.has_cell(t[1])):
                cell = ("arg", i)
                store[cell] = a
                argv.append(mref(cell))
                outs.append((i, cell))
            else:
                argv.append(a)
        p0 = len(self.panics)
        if self.refuse:
            store[MARK] = FALSE
        ret, st = self.run_body(b, argv, tymap, store)
        r = Extract()
        if self.refuse:
            r.ret = bnot(st[MARK]) if st is not None else FALSE
            r.outs = {}
        elif st is None:
            r.ret = mk("diverges")
            r.outs = {}
        else:
            if ret.op == "mref":
                ret = self.read_ref(st, ret)
            r.ret = self.reified(ret, st)
            r.outs = {i: self.reified(st.get(c, store[c]), st) for i, c in outs}
        r.panics = self.panics[p0:]
        return r

    def has_cell(self, t):
        """does the struct own a RefCell directly"""
        d = self.p.adts.get(t[1]) if t[0] == "adt" else None
        if not d or not d["local"] or d["enum"]:
            return False
        for f in d["v"][0]["f"]:
            u = self.p.types[f[1]]
            if u[0] == "adt" and u[1].endswith("cell::RefCell"):
                return True
        return False

    # ------------------------------------------------------------ bodies
    def run_body(self, b, argv, tymap, store):
        """-> (ret term, store) ; store None when it always diverges"""
        cfg = self.p.cfg(b)
        self.nbodies += 1
        self.inlined.add(b["path"])
        fr = self.frame(b, tymap)
        st = dict(store)
        argc = b["argc"]
        if b["kind"] == "closure" and len(argv) == 2 and argc != 2:
            # rust-call ABI: the tuple of arguments is spread
            tup = argv[1]
            argv = [argv[0]] + [field(tup, None, None, i) for i in range(argc - 1)]
        for i, a in enumerate(argv):
            st[(fr.id, i + 1)] = a
        if 0 not in cfg.good:
            self.run_diverging(fr, cfg, st)
            return None, None
        self.stack.append(b["id"])
        try:
            res = self.run_region(fr, 0, frozenset(cfg.good), st)
        finally:
            self.stack.pop()
        rets = [(c, s) for k, c, s in res if k == "ret"]
        if not rets:
            return None, None
        c, s = self.merge_all(rets, fr, None)
        ret = s.get((fr.id, 0), UNIT)
        # drop callee cells
        s = {k: v for k, v in s.items() if k[0] != fr.id}
        return ret, s

    def run_diverging(self, fr, cfg, st):
        self.note_panic(TRUE, "diverges", fr.b, 0)

    def note_panic(self, cond, kind, b, blk, extra=None):
        if self.track and cond is not FALSE:
            self.panics.append((cond, kind, b["path"], b["blocks"][blk]["l"], extra))

    # ------------------------------------------------------------ regions
    def run_region(self, fr, entry, blocks, store0):
        cfg = self.p.cfg(fr.b)
        order, pred, idom, inner, pd = cfg.region(entry, blocks)
        edges = {x: [] for x in order}     # node -> [(src, cond, store)]
        rel = {entry: TRUE}
        outs = []                          # (key, cond, store)
        absm = {entry: TRUE}

        def absc(x):
            r = absm.get(x)
            if r is None:
                r = absm[x] = band(absc(idom[x]), rel[x])
            return r

        def relto(src, c, d):
            x = src
            while x != d:
                c = band(rel[x], c)
                x = idom[x]
            return c
        for x in order:
            if x == entry:
                st = store0
            else:
                es = edges[x]
                if not es:
                    continue
                d = idom[x]
                inc = []
                for src, c, s in es:
                    c = relto(src, c, d)
                    if c is not FALSE:
                        inc.append((c, s))
                if not inc:
                    continue
                c, st = self.merge_all(inc, fr, x)
                rel[x] = TRUE if pd[x] and not self.refuse else c
            p0 = len(self.panics)
            if x in inner:
                res = self.run_loop(fr, x, inner[x], st)
            else:
                res = self.exec_block(fr, x, st, blocks)
            if len(self.panics) > p0:
                a = absc(x)
                if a is not TRUE:
                    for i in range(p0, len(self.panics)):
                        pp = self.panics[i]
                        self.panics[i] = (band(a, pp[0]),) + pp[1:]
            for tgt, c, s in res:
                if c is FALSE:
                    continue
                if tgt == "ret":
                    outs.append(("ret", band(absc(x), c), s))
                elif tgt == entry and entry != 0 or (tgt == entry and entry in blocks and x != entry):
                    outs.append(("back", band(absc(x), c), s))
                elif tgt == entry:
                    outs.append(("back", band(absc(x), c), s))
                elif tgt in blocks:
                    edges[tgt].append((x, c, s))
                else:
                    outs.append((tgt, band(absc(x), c), s))
        return outs

    def merge_all(self, inc, fr, blk):
        """merge [(cond, store)] -> (or of conds, store)"""
        if len(inc) == 1:
            return inc[0]
        cond, st = inc[-1]
        live = fr.live[blk] if blk is not None else None
        for c, s in reversed(inc[:-1]):
            st = self.merge(c, s, st, fr, live)
            cond = bor(c, cond)
        return cond, st

    def merge(self, c, a, b, fr=None, live=None):
        if a is b:
            return a
        out = {}
        fid = fr.id if fr is not None else None
        mutb = fr.mutb if fr is not None else ()
        for k, va in a.items():
            if live is not None and k[0] == fid and k[1] not in live and k[1] not in mutb:
                continue
            vb = b.get(k)
            if vb is None or vb is va:
                out[k] = va
            else:
                out[k] = choose(c, va, vb)
        for k, vb in b.items():
            if k not in a:
                if live is not None and k[0] == fid and k[1] not in live and k[1] not in mutb:
                    continue
                out[k] = vb
        return out

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, header, blocks, store):
        live = fr.live[header]

        def body(st):
            return self.run_region(fr, header, frozenset(blocks), st)

        def relevant(k):
            return k[0] != fr.id or k[1] in live or k[1] in fr.mutb
        return self.do_loop(store, body, relevant)

    def do_loop(self, store0, body, relevant=lambda k: True):
        cur = {k: v for k, v in store0.items() if relevant(k)}
        lvs = {}
        p0 = len(self.panics)
        if any(v.op == "it" and short(v) for v in cur.values()):
            r = self.unroll(store0, cur, body)
            if r is not None:
                return r
            del self.panics[p0:]
        for it in range(40):
            del self.panics[p0:]
            outs = body(cur)
            backs = [(c, s) for k, c, s in outs if k == "back" and c is not FALSE]
            if not backs:
                break
            cc, bst = backs[-1]
            for c, s in reversed(backs[:-1]):
                bst = self.merge(c, s, bst)
                cc = bor(c, cc)
            changed = False
            for k in list(cur):
                if k not in bst:
                    continue
                nv = self.vary(cur[k], bst[k], lvs)
                if nv is not cur[k]:
                    cur[k] = nv
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop fixpoint")
        exits = [(k, c, s) for k, c, s in outs if k != "back"]
        if not backs:
            # the body never repeats
            return exits
        # collect loop variables with init/next
        vs = []
        for k in cur:
            self.leaves(store0[k], cur[k], bst.get(k, cur[k]), vs)
        seen = {}
        for lv, i, n in vs:
            seen[lv] = (i, n)
        contexts = [t for _, c, s in exits for t in [c]] + [cc]
        m = Recurrence(self, seen, cc).solve()
        if len(self.panics) > p0:
            for i in range(p0, len(self.panics)):
                pp = self.panics[i]
                self.panics[i] = (mk("someiter", subst(pp[0], m)) if pp[0].lvs else pp[0],) + pp[1:]
        res = []
        memo = {}
        # merge exits to the same target
        byk = {}
        for k, c, s in exits:
            byk.setdefault(k, []).append((c, s))
        single = len(byk) == 1
        for k, l in byk.items():
            c, s = l[-1]
            for c2, s2 in reversed(l[:-1]):
                s = self.merge(c2, s2, s)
                c = bor(c2, c)
            ns = {}
            for kk, v in s.items():
                ns[kk] = subst(v, m, memo) if v.lvs else v
            # cells untouched by the loop and filtered out as irrelevant
            for kk, v in store0.items():
                if kk not in ns:
                    ns[kk] = v
            res.append((k, TRUE if single else subst(c, m, memo), ns))
        return res

    def unroll(self, store0, cur, body):
        """execute a loop over a short literal sequence"""
        acc, exits, keys = TRUE, [], set(cur)
        for n in range(SHORT + 1):
            p0 = len(self.panics)
            outs = body(dict(cur))
            if acc is not TRUE:
                for i in range(p0, len(self.panics)):
                    pp = self.panics[i]
                    self.panics[i] = (band(acc, pp[0]),) + pp[1:]
            exits += [(k, band(acc, c), s) for k, c, s in outs if k != "back"]
            backs = [(c, s) for k, c, s in outs if k == "back" and c is not FALSE]
            if not backs:
                break
            cc, bst = backs[-1]
            for c, s in reversed(backs[:-1]):
                bst = self.merge(c, s, bst)
                cc = bor(c, cc)
            acc = band(acc, cc)
            cur = {k: bst.get(k, v) for k, v in cur.items()}
        else:
            return None
        exits = [e for e in exits if e[1] is not FALSE]
        byk = {}
        for k, c, s in exits:
            byk.setdefault(k, []).append((c, s))
        res = []
        for k, l in byk.items():
            c, s = l[-1]
            for c2, s2 in reversed(l[:-1]):
                s = self.merge(c2, s2, s)
                c = bor(c2, c)
            ns = dict(s)
            for kk, v in store0.items():
                ns.setdefault(kk, v)
            res.append((k, TRUE if len(byk) == 1 else c, ns))
        return res

    def vary(self, old, new, lvs):
        """replace the leaves of `old` that differ from `new` by loop variables"""
        if old is new or old.op == "lv" and old in lvs:
            return old
        if old.op == new.op and old.op in ("variant", "tuple", "closure", "it", "mref", "pi", "ps") and len(old.args) == len(new.args):
            same = all((isinstance(x, T) == isinstance(y, T)) and (isinstance(x, T) or x == y) for x, y in zip(old.args, new.args))
            if same:
                na = [self.vary(x, y, lvs) if isinstance(x, T) else x for x, y in zip(old.args, new.args)]
                if all(x is y for x, y in zip(na, old.args)):
                    return old
                return mk(old.op, *na) if old.op != "variant" else variant(*na)
        l = self.newlv()
        lvs[l] = True
        return l

    def leaves(self, init, cur, new, out):
        if cur.op == "lv":
            if init is cur and new is cur:
                return
            out.append((cur, init, new))
            return
        if cur is new and init is cur:
            return
        if cur.op in ("variant", "tuple", "closure", "it", "mref", "pi", "ps") and init.op == cur.op == new.op:
            for x, y, z in zip(init.args, cur.args, new.args):
                if isinstance(y, T):
                    self.leaves(x, y, z, out)
        elif cur.op == "variant":
            # eta-contracted side
            for i, y in enumerate(cur.args[2:]):
                a, v = cur.args[0], cur.args[1]
                vv = v if ADTS.get(a, {}).get("enum") else None
                self.leaves(field(init, a, vv, i), y, field(new, a, vv, i), out)
        # anything else: value did not vary

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, x, st, blocks):
        cfg = self.p.cfg(fr.b)
        bl = fr.b["blocks"][x]
        st = dict(st)
        for pl, rv, ln in bl["s"]:
            if rv[0] == "setdisc":
                v = self.read_place(fr, st, pl)
                t = self.place_ty(fr, pl)
                self.write_place(fr, st, pl, mk("variant", t[1], rv[1]))
                continue
            val = self.rvalue(fr, st, rv, pl)
            self.write_place(fr, st, pl, val)
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], TRUE, st)]
        if k == "return":
            return [("ret", TRUE, st)]
        if k == "drop":
            v = st.get((fr.id, t[1])) if isinstance(t[1], int) else None
            return [(t[2], TRUE, st)]
        if k == "assert":
            c = self.operand(fr, st, t[1])
            if self.track:
                bad = bnot(c) if t[2] else c
                self.note_panic(bad, "assert:" + t[3], fr.b, x)
            return [(t[4], TRUE, st)]
        if k == "switch":
            return self.switch(fr, st, t, cfg, x)
        if k == "call":
            return self.call_term(fr, st, t, x, cfg)
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator " + k)

    def switch(self, fr, st, t, cfg, x):
        d = self.operand(fr, st, t[1])
        res = []
        conds = []
        rest = TRUE
        dty = self.ty(fr, t[4])
        for val, tgt in t[2]:
            if dty == ("prim", "bool"):
                c = d if val else bnot(d)
                if d.op == "num":
                    c = boolc(int(d.args[0]) == val)
            elif dty == ("prim", "char"):
                c = eq(d, mk("chr", chr(val)))
            else:
                c = self.disc_eq(d, val)
            conds.append((c, tgt))
        other = TRUE
        for c, _ in conds:
            other = band(other, bnot(c))
        # enumerated discriminants: exhaustive switch makes `otherwise` dead
        all_edges = conds + [(other, t[3])]
        out = []
        for c, tgt in all_edges:
            if c is FALSE:
                continue
            if tgt not in cfg.good:
                if self.track and fr.b["blocks"][tgt]["t"][0] != "unreachable":
                    self.note_div(fr, tgt, c, st)
                if self.refuse and self.explicit(fr, tgt):
                    s2 = dict(st)
                    s2[MARK] = TRUE
                    out.append(("ret", c, s2))
                continue
            out.append((tgt, c, st))
        if len(out) == 1:
            return [(out[0][0], TRUE, out[0][2])]
        if self.refuse and any(t_ == "ret" for t_, _, _ in out):
            return out
        # same target twice
        m = {}
        for tgt, c, s in out:
            m[tgt] = bor(m[tgt], c) if tgt in m else c
        if len(m) == 1:
            return [(next(iter(m)), TRUE, st)]
        return [(tgt, c, st) for tgt, c in m.items()]

    def explicit(self, fr, blk):
        """does the block end in a panic the source asks for (assert, panic, unreachable)"""
        for _ in range(40):
            t = fr.b["blocks"][blk]["t"]
            if t[0] == "call":
                f = t[1]
                if t[4] is None or t[4] not in range(len(fr.b["blocks"])):
                    k = (f[1]["r"] or f[1]["p"]) if f[0] == "fn" else ""
                    return "panicking::" in k or k.endswith("::panic_fmt") or "begin_panic" in k
                blk = t[4]
            elif t[0] == "goto":
                blk = t[1]
            elif t[0] == "drop":
                blk = t[2]
            elif t[0] == "assert":
                blk = t[4]
            else:
                return False
        return False

    def note_div(self, fr, blk, c, st):
        """describe the diverging block reached under c"""
        kind = "panic"
        b = blk
        msg = None
        seen = set()
        while b not in seen:
            seen.add(b)
            t = fr.b["blocks"][b]["t"]
            if t[0] == "call":
                f = t[1]
                if f[0] == "fn":
                    kind = (f[1]["r"] or f[1]["p"]).split("::")[-1]
                    if t[4] is None:
                        break
                b = t[4] if t[4] is not None else b
            elif t[0] == "unreachable":
                return
            elif t[0] in ("goto",):
                b = t[1]
            elif t[0] == "drop":
                b = t[2]
            else:
                break
        self.note_panic(c, "panic:" + kind, fr.b, blk)

    def disc_eq(self, d, val):
        if d.op == "disc":
            t, adt = d.args
            a = ADTS.get(adt)
            if a:
                for i, v in enumerate(a["v"]):
                    if v["d"] == val:
                        return isv(t, adt, i)
                return FALSE
        if d.op == "ite":
            return ite(d.args[0], self.disc_eq(d.args[1], val), self.disc_eq(d.args[2], val))
        if d in (TRUE, FALSE):
            return boolc((d is TRUE) == bool(val))
        return eq(d, num(val))

    # ------------------------------------------------------------ places
    def place_ty(self, fr, pl):
        if isinstance(pl, int):
            return self.lty(fr, pl)
        t = self.lty(fr, pl[0])
        for e in pl[1:]:
            if e == "*":
                t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else t)
            elif e[0] == "f":
                t = self.ty(fr, e[2])
            elif e[0] in ("i", "c"):
                t = t[1] if t[0] in ("slice", "array") else ("other", "?")
            elif e[0] == "s":
                t = ("slice", t[1]) if t[0] in ("slice", "array") else t
        return t

    def walk(self, fr, st, pl):
        """yield path steps: list of ('*',) / pf / pi / ps with types"""
        t = self.lty(fr, pl[0])
        down = None
        steps = []
        for e in pl[1:]:
            if e == "*":
                steps.append("*")
                t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else t)
                down = None
            elif e[0] == "f":
                if t[0] == "adt":
                    if t[1] in BOXLIKE:
                        pass
                    else:
                        a = ADTS.get(t[1])
                        v = down
                        if a and a["enum"] and v is None:
                            v = 0
                        if a and not a["enum"]:
                            v = None
                        steps.append(pf(t[1], v, e[1]))
                elif t[0] == "tuple":
                    steps.append(pf(None, None, e[1], len(t[1])))
                else:
                    steps.append(pf(None, None, e[1]))
                t = self.ty(fr, e[2])
                down = None
            elif e[0] == "d":
                down = e[1]
            elif e[0] == "i":
                steps.append(pi(st[(fr.id, e[1])]))
                t = t[1] if t[0] in ("slice", "array") else ("other", "?")
            elif e[0] == "c":
                if e[2]:
                    steps.append(("cend", e[1]))
                else:
                    steps.append(pi(num(e[1])))
                t = t[1] if t[0] in ("slice", "array") else ("other", "?")
            elif e[0] == "s":
                steps.append(("sub", e[1], e[2], e[3]))
            else:
                raise Unsupported("projection %r" % (e,))
        return steps

    def step_value(self, v, s):
        if s.op == "pf":
            adt, vv, i, n = s.args
            return field(v, adt, vv, i)
        if s.op == "pi":
            return select(v, s.args[0])
        if s.op == "ps":
            return mk("subslice", v, s.args[0], s.args[1])
        raise Unsupported(s.op)

    def read_path(self, v, path):
        for s in path:
            v = self.step_value(v, s)
        return v

    def write_path(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if s.op == "pf":
            adt, vv, i, n = s.args
            return setfield(v, adt, vv, i, self.write_path(field(v, adt, vv, i), path[1:], new), n)
        if s.op == "pi":
            return store(v, s.args[0], self.write_path(select(v, s.args[0]), path[1:], new))
        if s.op == "ps":
            return mk("setsub", v, s.args[0], s.args[1], self.write_path(mk("subslice", v, s.args[0], s.args[1]), path[1:], new))
        raise Unsupported(s.op)

    def read_ref(self, st, r):
        """value behind a reference term"""
        if r.op == "mref":
            cell = r.args[0]
            v = st.get(cell)
            if v is None:
                return mk("app", "uninit")
            return self.read_path(v, r.args[1:])
        if r.op == "ite" and self.has_mref(r):
            return ite(r.args[0], self.read_ref(st, r.args[1]), self.read_ref(st, r.args[2]))
        return r

    def origin(self, st, r):
        """the reference itself when it leads into a tracked location of a caller"""
        return r if r.op == "mref" and r.args[0][0] == "arg" else None

    def has_mref(self, t):
        if t.op == "mref":
            return True
        if t.op == "ite":
            return self.has_mref(t.args[1]) or self.has_mref(t.args[2])
        return False

    def write_ref(self, st, r, path, val):
        if r.op == "mref":
            cell = r.args[0]
            base = st.get(cell, mk("app", "uninit"))
            st[cell] = self.write_path(base, list(r.args[1:]) + list(path), val)
        elif r.op == "ite":
            s1 = dict(st)
            self.write_ref(s1, r.args[1], path, val)
            s2 = dict(st)
            self.write_ref(s2, r.args[2], path, val)
            m = self.merge(r.args[0], s1, s2)
            st.clear()
            st.update(m)
        else:
            # write through an opaque pointer (interior of an external value)
            st.setdefault(("ext", 0), mk("ext"))
            st[("ext", 0)] = mk("extwrite", st[("ext", 0)], r, mk("path", *path), val)

    def deref_all(self, st, v, depth=0):
        """replace embedded references by the values they denote"""
        if v.op == "mref" or (v.op == "ite" and self.has_mref(v)):
            return self.deref_all(st, self.read_ref(st, v))
        if v.op in ("variant", "tuple") and depth < 6:
            na = [self.deref_all(st, a, depth + 1) if isinstance(a, T) else a for a in v.args]
            if any(x is not y for x, y in zip(na, v.args)):
                return variant(*na) if v.op == "variant" else mk("tuple", *na)
        return v

    def read_place(self, fr, st, pl):
        if isinstance(pl, int):
            v = st.get((fr.id, pl))
            if v is None:
                t = self.lty(fr, pl)
                if t == ("tuple", ()):
                    return UNIT
                if t[0] in ("closure", "fndef") :
                    return mk("closure", t)
                return mk("app", "uninit", )
            return v
        v = st.get((fr.id, pl[0]))
        if v is None:
            v = mk("app", "uninit")
        for s in self.walk(fr, st, pl):
            if s == "*":
                v = self.read_ref(st, v)
            elif isinstance(s, tuple):
                v = self.special(v, s)
            else:
                v = self.step_value(v, s)
        return v

    def special(self, v, s):
        if s[0] == "cend":
            return select(v, sub(vlen(v), num(s[1])))
        lo = num(s[1])
        hi = sub(vlen(v), num(s[2])) if s[3] else num(s[2])
        return mk("subslice", v, lo, hi)

    def write_place(self, fr, st, pl, val):
        if isinstance(pl, int):
            st[(fr.id, pl)] = val
            return
        r = self.place_ref(fr, st, pl)
        self.write_ref(st, r, (), val)

    def place_ref(self, fr, st, pl):
        """mutable reference to a place"""
        if isinstance(pl, int):
            return mref((fr.id, pl))
        r = mref((fr.id, pl[0]))
        for s in self.walk(fr, st, pl):
            if s == "*":
                v = self.read_ref(st, r)
                if v.op == "mref" or self.has_mref(v):
                    r = v
                elif v.op == "app" and v.args[0] == "uninit" and r.op == "mref":
                    pass
                else:
                    # pointer into an opaque/owned value (Box deref): same cell
                    pass
            elif isinstance(s, tuple):
                v = self.read_ref(st, r)
                if s[0] == "cend":
                    s = pi(sub(vlen(v), num(s[1])))
                else:
                    s = mk("ps", num(s[1]), sub(vlen(v), num(s[2])) if s[3] else num(s[2]))
                r = self.ext_ref(r, s)
            else:
                r = self.ext_ref(r, s)
        return r

    def ext_ref(self, r, s):
        if r.op == "mref":
            return mk("mref", *(r.args + (s,)))
        if r.op == "ite":
            return ite(r.args[0], self.ext_ref(r.args[1], s), self.ext_ref(r.args[2], s))
        return mk("extref", r, s)

    # ------------------------------------------------------------ values
    def operand(self, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(fr, st, o[1])
        return self.const(fr, o)

    def const(self, fr, o):
        k = o[0]
        if k == "k":
            t = self.ty(fr, o[1])
            v = o[2]
            if t == ("prim", "bool"):
                return boolc(v == 1)
            if isinstance(v, str):
                if v in ("NaN", "inf", "-inf"):
                    return mk("app", v)
                return num(Fr(v))
            if t == ("prim", "char"):
                return mk("chr", chr(v) if isinstance(v, int) else v)
            if t[0] == "adt":
                return self.scalar_adt(t, v)
            return num(v)
        if k == "str":
            return mk("str", o[1])
        if k == "bytes":
            return mk("bytes", tuple(o[2]))
        if k == "zst":
            t = self.ty(fr, o[1])
            if t == ("tuple", ()):
                return UNIT
            if t[0] == "adt":
                return mk("variant", t[1], 0)
            if t[0] == "closure":
                return mk("closure", t)
            return mk("zst", t)
        if k == "fn":
            return mk("fnptr", json_key(o[1]), _Hold(o[1], fr.tymap))
        if k == "promoted":
            return self.eval_const(o[2] + "#p%d" % o[3], fr.tymap)
        if k in ("static",):
            return self.static(o[2])
        if k == "item":
            b = self.p.bodies.get(o[2])
            if b is None:
                return self.models.ext_const(self, o[2], self.ty(fr, o[1]))
            # associated constants of a generic impl get their substitution
            return self.eval_const(o[2], fr.tymap)
        if k == "mem":
            return self.mem(self.ty(fr, o[1]), o[2], bytes(o[3]))
        if k == "rc":
            return TRUE
        if len(o) == 3 and isinstance(o[2], str) and o[2][:1] == '"' == o[2][-1:] and self.ty(fr, o[1])[0] == "ref":
            try:
                return mk("str", json.loads(o[2]))
            except ValueError:
                pass
        return mk("const", repr(o[1:]))

    def scalar_adt(self, t, v):
        a = ADTS.get(t[1])
        if a and a["enum"]:
            for i, vv in enumerate(a["v"]):
                if vv["d"] == v and not vv["f"]:
                    return mk("variant", t[1], i)
        return mk("scalar_adt", t[1], v)

    def mem(self, t, off, b):
        tt = strip_ref(t)
        import struct
        if tt[0] in ("array", "slice") and tt[1][0] == "prim":
            f = {"f64": "d", "u32": "I", "i32": "i", "u64": "Q", "i64": "q", "usize": "Q", "u8": "B"}.get(tt[1][1])
            if f:
                n = len(b) // struct.calcsize(f)
                vals = struct.unpack("<%d%s" % (n, f), b)
                return mk("vec", *[num(Fr(repr(x)) if isinstance(x, float) else x) for x in vals])
        return mk("mem", t, off, b)

    def static(self, uid):
        b = self.p.bodies.get(uid)
        if b is None:
            return mk("app", "static:" + uid)
        return self.eval_const(uid, {})

    def eval_const(self, uid, tymap):
        key = (uid, tuple(sorted(tymap.items())) if tymap else ())
        r = self.const_cache.get(key)
        if r is None:
            b = self.p.bodies.get(uid)
            if b is None:
                r = mk("const", uid)
            else:
                tr, self.track = self.track, False
                try:
                    ret, st = self.run_body(b, [], tymap, {})
                finally:
                    self.track = tr
                if ret is None:
                    r = mk("const", uid)
                else:
                    r = self.deref_all(st, ret) if st else ret
            self.const_cache[key] = r
        return r

    def rvalue(self, fr, st, rv, pl):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            if rv[2]:
                return self.place_ref(fr, st, rv[1])
            v = self.read_place(fr, st, rv[1])
            t = self.place_ty(fr, rv[1])
            if t[0] == "adt" and t[1].endswith("cell::RefCell") and not isinstance(rv[1], int):
                # interior mutability: a shared reference to a cell is a location
                r = self.place_ref(fr, st, rv[1])
                base = self.origin(st, r)
                if base is not None:
                    return base
            return v
        if k == "bin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            t = self.op_ty(fr, rv[2])
            return self.binop(rv[1], a, b, t)
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                t = self.op_ty(fr, rv[2])
                return bnot(a) if t == ("prim", "bool") else mk("app", "bitnot", a)
            if rv[1] == "Neg":
                return neg(a)
            if rv[1] == "PtrMetadata":
                return vlen(self.read_ref(st, a))
        if k == "cast":
            return self.cast(fr, st, rv)
        if k == "disc":
            v = self.read_place(fr, st, rv[1])
            t = self.place_ty(fr, rv[1])
            return disc(v, t[1] if t[0] == "adt" else None)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv[2]]
            a = rv[1]
            if a[0] == "tuple":
                return mk("tuple", *ops)
            if a[0] == "array":
                return mk("vec", *ops)
            if a[0] == "adt":
                if a[3] is not None:
                    return mk("variant", a[1], a[2], *ops)
                return variant(a[1], a[2], *ops)
            if a[0] == "closure":
                t = ("closure", a[1], tuple(self.ty(fr, x) if isinstance(x, int) else x for x in a[2]))
                return mk("closure", t, *ops)
        if k == "repeat":
            return mk("repeat", num(rv[2]) if rv[2] is not None else mk("app", "N"), self.operand(fr, st, rv[1]))
        raise Unsupported("rvalue %r" % (rv[0:2],))

    def op_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        if o[0] in ("k", "zst", "promoted", "item", "mem"):
            return self.ty(fr, o[1])
        return ("other", "?")

    def cast(self, fr, st, rv):
        v = self.operand(fr, st, rv[2])
        kind = rv[1]
        to = self.ty(fr, rv[3])
        if v in (TRUE, FALSE) or v.op in ("lt", "lti", "is", "eq"):
            v = ite(v, ONE, ZERO)
        if kind.startswith("FloatToInt"):
            return trunc_(v)
        if kind == "IntToInt" and v.op == "chr":
            return num(v.args[0])
        if kind.startswith("IntToInt") and v.op == "num":
            return num(wrap_int(int(v.args[0]), to))
        if kind.startswith("PointerCoercion") and "ReifyFnPointer" in kind:
            return v
        if kind.startswith("IntToInt") and v.op == "variant":
            return disc(v, v.args[0])
        return v

    def binop(self, op, a, b, t):
        fl = is_float_ty(t)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = self.binop(op[:3], a, b, t)
            return mk("tuple", r, FALSE)
        if op == "Div":
            return div(a, b) if fl else idiv(a, b)
        if op == "Rem":
            return mk("app", "fmod", a, b) if fl else irem(a, b) if not (b.op == "num" and b.args[0] == 2 and unsigned(t)) else parity(a)
        if op == "Lt":
            return lt(a, b) if fl else lt_i(a, b)
        if op == "Gt":
            return lt(b, a) if fl else lt_i(b, a)
        if op == "Le":
            return le(a, b) if fl else bnot(lt_i(b, a))
        if op == "Ge":
            return le(b, a) if fl else bnot(lt_i(a, b))
        if op == "Eq":
            return eq_disc(a, b)
        if op == "Ne":
            return bnot(eq_disc(a, b))
        if t == ("prim", "bool"):
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                return ite(a, bnot(b), b)
        return mk("app", op, a, b)

    # ------------------------------------------------------------ calls
    def call_term(self, fr, st, t, x, cfg):
        f, args, dest, tgt = t[1], t[2], t[3], t[4]
        av = [self.operand(fr, st, a) for a in args]
        if tgt is None or tgt not in cfg.good:
            if self.track:
                self.note_panic(TRUE, "panic:call", fr.b, x)
            return []
        line = fr.b["blocks"][x]["l"]
        if f[0] != "fn":
            fv = self.operand(fr, st, f)
            ret, st2 = self.apply(fv, av, st)
        else:
            # argument types for the models
            self.cur_argtys = [self.op_ty(fr, a) for a in args]
            self.cur_destty = self.place_ty(fr, dest)
            ret, st2 = self.call(f[1], av, st, fr.tymap, (fr, x))
        if st2 is None:
            if self.track:
                self.note_panic(TRUE, "panic:call", fr.b, x)
            return []
        st2 = dict(st2) if st2 is st else st2
        self.write_place(fr, st2, dest, ret)
        if self.refuse and st2.get(MARK, FALSE) is not FALSE:
            c = st2[MARK]
            ok = dict(st2)
            ok[MARK] = FALSE
            return [("ret", c, st2), (tgt, bnot(c), ok)]
        return [(tgt, TRUE, st2)]

    def resolve(self, fn, tymap):
        """-> (body or None, tymap for it, model key, selfty)"""
        p = self.p
        a = tuple(p.subst_ty(p.types[i], tymap) if isinstance(i, int) else i for i in fn["a"])
        selfty = a[0] if fn["tr"] and a else None
        if fn["k"] != "virtual" and fn["r"] in p.bodies:
            b = p.bodies[fn["r"]]
            ra = tuple(p.subst_ty(p.types[i], tymap) if isinstance(i, int) else i for i in fn["ra"])
            if not (fn["tr"] and fn["tr"].startswith("finquant") and b.get("intrait") and selfty and selfty[0] in ("param",)):
                return b, dict(zip(b["generics"], ra)), None, selfty
        ext = fn["r"] is not None and fn["r"] != fn["p"] and fn["r"] not in p.bodies
        if fn["tr"] and selfty is not None and not ext:
            im = p.find_impl(fn["tr"], selfty, a) if selfty[0] not in ("param", "dyn") else None
            if im:
                uid = im["items"].get(fn["n"]) or im["defaults"].get(fn["n"])
                b = p.bodies.get(uid)
                if b:
                    tmap = {}
                    if b["generics"]:
                        g = b["generics"]
                        if b.get("intrait"):
                            tmap["Self"] = selfty
                            rest = [x for x in g if x != "Self"]
                            tmap.update(zip(rest, a[1:]))
                        else:
                            tmap.update(self.match_impl(im["selfty"], selfty))
                    return b, tmap, None, selfty
        if fn["tr"] and fn["tr"].startswith("finquant") and not ext:
            # a trait default no impl of the crate overrides has one body
            d = p.default_body(fn["tr"], fn["n"])
            if d is not None:
                tmap = {"Self": selfty} if selfty is not None else {}
                return d, tmap, None, selfty
        return None, None, self.key(fn), selfty

    def match_impl(self, pat, t, m=None):
        m = {} if m is None else m
        if pat[0] == "param":
            m[pat[1]] = t
        elif pat[0] == t[0]:
            if pat[0] == "adt":
                for x, y in zip(pat[2], t[2]):
                    self.match_impl(x, y, m)
            elif pat[0] in ("ref", "slice", "array"):
                self.match_impl(pat[1], t[1], m)
        return m

    def key(self, fn):
        if fn["tr"]:
            return fn["tr"].split("::")[-1] + "::" + fn["n"]
        if fn["st"] is not None:
            t = self.p.types[fn["st"]]
            k = t[0]
            if k == "adt":
                return t[1].split("::")[-1] + "::" + fn["n"]
            if k == "prim":
                return t[1] + "::" + fn["n"]
            return k + "::" + fn["n"]
        return "::".join(fn["p"].split("::")[-2:])

    def call(self, fn, av, st, tymap, site=None):
        b, tmap, key, selfty = self.resolve(fn, tymap)
        at, dt = getattr(self, "cur_argtys", None), getattr(self, "cur_destty", None)
        if b is not None:
            m = self.models.LOCAL.get(b["path"])
            if m:
                r = m(self, av, st)
                if r is not NotImplemented:
                    return r if isinstance(r, tuple) else (r, st)
            if self.is_opaque(b, av) or self.stack.count(b["id"]) >= 2 or len(self.stack) > self.max_depth:
                return self.opaque_call(b["path"], av, st, b, tmap)
            # the body knows its references by place: pass as is
            if b["kind"] == "closure" and len(av) == 2 and b["argc"] == 2:
                # rust-call ABI with a single parameter
                tup = av[1]
                av = [av[0], tup.args[0] if tup.op == "tuple" and len(tup.args) == 1 else field(tup, None, None, 0)]
            return self.run_body(b, av, tmap, st)
        if fn["tr"] and fn["tr"].startswith("finquant"):
            if selfty is not None and selfty[0] == "param":
                # default method called on an abstract Self: still virtual
                pass
            return self.opaque_call(key, av, st, None, None)
        h = self.models.get(key)
        if h is not None:
            r = h(self, av, st, fn, tymap)
            if r is not NotImplemented:
                return r if isinstance(r, tuple) else (r, st)
        self.unknown[key] = self.unknown.get(key, 0) + 1
        return self.opaque_call(key, av, st, None, None)

    def is_opaque(self, b, av):
        return b["path"] in self.opaque

    def opaque_call(self, key, av, st, b, tmap):
        vals = [self.reify(a, self.deref_all(st, a), st) for a in av]
        self.calls.append((key, vals))
        ret = mk("app", key, *vals)
        nst = st
        for i, a in enumerate(av):
            for r in self.mrefs_in(a):
                if nst is st:
                    nst = dict(st)
                self.write_ref(nst, r, (), mk("app", key + "!mut%d" % i, *vals))
        if self.effect_hook:
            self.effect_hook(key, vals)
        return ret, nst

    def mrefs_in(self, a, depth=0):
        if a.op == "mref":
            return [a]
        if a.op == "ite" and self.has_mref(a):
            return [a]
        if a.op in ("variant", "tuple", "closure", "it") and depth < 4:
            r = []
            for x in a.args:
                if isinstance(x, T):
                    r += self.mrefs_in(x, depth + 1)
            return r
        return []

    def apply(self, f, args, st):
        """call a function value (closure / fn item / opaque)"""
        if f.op == "mref" or (f.op == "ite" and self.has_mref(f)):
            inner = self.read_ref(st, f)
            if inner.op == "closure":
                # keep the reference for state of by-value captures
                return self.apply_closure(inner, args, st, f)
            f = inner
        if f.op == "closure":
            return self.apply_closure(f, args, st, None)
        if f.op == "fnptr":
            h = f.args[1]
            return self.call(h.fn, args, st, h.tymap)
        if f.op == "ite":
            r1, s1 = self.apply(f.args[1], args, st)
            r2, s2 = self.apply(f.args[2], args, st)
            if s1 is None:
                return r2, s2
            if s2 is None:
                return r1, s1
            return ite(f.args[0], r1, r2), self.merge(f.args[0], s1, s2)
        if f.op == "ctor":
            return mk("variant", f.args[0], f.args[1], *args), st
        vals = [self.deref_all(st, a) for a in args]
        nst = st
        for i, a in enumerate(args):
            for r in self.mrefs_in(a):
                if nst is st:
                    nst = dict(st)
                self.write_ref(nst, r, (), mk("app", "call!mut%d" % i, f, *vals))
        return mk("app", "call", f, *vals), nst

    def reify(self, a, v, st):
        """a closure handed to an unknown function is what it computes"""
        if v.op != "closure" or v.args[0][0] == "fndef":
            return v
        b = self.p.bodies.get(v.args[0][1])
        if b is None:
            return v
        n = b["argc"] - 1
        xs = []
        for _ in range(n):
            self.fid += 1
            xs.append(var("@x%d" % self.fid))
        try:
            r, s2 = self.apply(a, xs, dict(st))
            if s2 is None:
                return v
            r = self.deref_all(s2, r)
        except Unsupported:
            return v
        lev = r.bl + 1
        return mk("lam", n, subst(r, {x: mk("bv", lev, i) for i, x in enumerate(xs)}), lev)

    def reified(self, t, st, depth=0):
        """closures stored in a result are what they compute"""
        if t.op == "closure":
            return self.reify(t, t, st)
        if t.op in ("variant", "tuple", "ite") and depth < 6:
            na = [self.reified(a, st, depth + 1) if isinstance(a, T) else a for a in t.args]
            if any(x is not y for x, y in zip(na, t.args)):
                return rebuild(t.op, na)
        return t

    def apply_closure(self, f, args, st, ref):
        t = f.args[0]
        if t[0] == "fndef":
            raise Unsupported("fndef closure")
        b = self.p.bodies.get(t[1])
        if b is None:
            return mk("app", "call", f, *args), st
        tmap = dict(zip(b["generics"], t[2]))
        if b["id"] in self.stack and self.stack.count(b["id"]) > 3:
            raise Unsupported("recursive closure")
        self_ty = self.p.types[b["locals"][1][0]]
        st2 = dict(st)
        if self_ty[0] == "ref" and self_ty[2]:
            if ref is None:
                self.fid += 1
                cell = ("tmp", self.fid)
                st2[cell] = f
                selfv = mref(cell)
            else:
                selfv = ref
        else:
            selfv = f
        return self.run_body(b, [selfv] + list(args), tmap, st2)


class _Hold:
    """opaque python payload inside a term (compares by function identity)"""
    __slots__ = ("fn", "tymap", "_k")

    def __init__(self, fn, tymap):
        self.fn = fn
        self.tymap = dict(tymap) if fn["a"] else {}
        self._k = (fn["p"], fn["r"], tuple(map(str, fn["a"])), tuple(sorted(map(str, self.tymap.items()))))

    def __eq__(self, o):
        return isinstance(o, _Hold) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return repr(self._k)


def json_key(fn):
    return fn["r"] or fn["p"]



def wrap_int(v, t):
    w = {"u8": (0, 8), "i8": (1, 8), "u16": (0, 16), "i16": (1, 16), "u32": (0, 32), "i32": (1, 32), "u64": (0, 64), "i64": (1, 64), "usize": (0, 64), "isize": (1, 64)}.get(t[1] if t[0] == "prim" else "")
    if not w:
        return v
    s, n = w
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v


def eq_disc(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "disc" and y.op == "num":
            ad = ADTS.get(x.args[1])
            if ad:
                for i, v in enumerate(ad["v"]):
                    if v["d"] == y.args[0]:
                        return isv(x.args[0], x.args[1], i)
                return FALSE
    if a.op == "disc" and b.op == "disc" and a.args[1] == b.args[1]:
        ad = ADTS.get(a.args[1])
        if ad and all(not v["f"] for v in ad["v"]):
            return eq(a.args[0], b.args[0])
    return eq(a, b)


def idiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q)
    if b is ONE:
        return a
    return mk("app", "idiv", a, b)


def congruent(a, b):
    """a modulo multiples of the constant b"""
    out = ZERO
    n = b.args[0]
    for mo, c in polyd(a).items():
        if c.denominator != 1:
            return None
        t = frompoly({mo: Fr(1)})
        if t.op == "app" and t.args[0] == "irem" and t.args[2] is b:
            u = congruent(t.args[1], b)
            t = u if u is not None else t.args[1]
            out = add(out, mul(num(c), t))
        elif not all(intterm(x) for x in mo.args[0::2]):
            return None
        else:
            out = add(out, mul(num(c), t))
    r = ZERO
    for mo, c in polyd(out).items():
        k = Fr(int(c) % int(n)) if c.denominator == 1 else c
        if k:
            r = add(r, frompoly({mo: k}))
    return r


def intterm(t):
    return t.op in ("bv", "len", "disc") or (t.op == "app" and t.args[0] in ("month", "day", "year", "ordinal", "wdnum", "irem", "idiv", "max", "min"))


def unsigned(t):
    return t is not None and t[0] == "prim" and t[1][0] == "u"


def parity(a):
    """the remainder of a non-negative number by two"""
    return ite(eq(irem(a, num(2)), ZERO), ZERO, ONE)


def irem(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    if b is ONE:
        return ZERO
    if b.op == "num" and b.args[0] > 0:
        r = congruent(a, b)
        if r is ZERO:
            return ZERO
    return mk("app", "irem", a, b)


def trunc_(v):
    if v.op == "num":
        x = v.args[0]
        return num(int(x))
    if v.op == "app" and v.args[0] in ("floor", "ceil", "round", "trunc"):
        return v
    return mk("app", "trunc", v)


tm.REBUILD["idiv"] = idiv
tm.REBUILD["irem"] = irem
tm.REBUILD["trunc"] = trunc_


class Extract:
    __slots__ = ("ret", "outs", "panics")


# ------------------------------------------------------------- liveness
def liveness(b, cfg):
    bl = b["blocks"]
    use = {}
    de = {}
    mutb = set()

    def pl_use(pl, u, d):
        if isinstance(pl, int):
            if pl not in d:
                u.add(pl)
        else:
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1:]:
                if e != "*" and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

    def op_use(o, u, d):
        if o[0] in ("cp", "mv"):
            pl_use(o[1], u, d)

    def pl_def(pl, u, d):
        if isinstance(pl, int):
            d.add(pl)
        else:
            pl_use(pl, u, d)
    for x in cfg.reach:
        u, d = set(), set()
        for pl, rv, ln in bl[x]["s"]:
            k = rv[0]
            if k == "use":
                op_use(rv[1], u, d)
            elif k == "ref":
                pl_use(rv[1], u, d)
                if rv[2]:
                    p = rv[1]
                    l = p if isinstance(p, int) else p[0]
                    if isinstance(p, int) or "*" not in p[1:]:
                        mutb.add(l)
            elif k == "bin":
                op_use(rv[2], u, d)
                op_use(rv[3], u, d)
            elif k == "un":
                op_use(rv[2], u, d)
            elif k == "cast":
                op_use(rv[2], u, d)
            elif k == "disc":
                pl_use(rv[1], u, d)
            elif k == "agg":
                for o in rv[2]:
                    op_use(o, u, d)
            elif k == "repeat":
                op_use(rv[1], u, d)
            pl_def(pl, u, d)
        t = bl[x]["t"]
        if t[0] == "switch":
            op_use(t[1], u, d)
        elif t[0] == "assert":
            op_use(t[1], u, d)
        elif t[0] == "call":
            op_use(t[1], u, d)
            for o in t[2]:
                op_use(o, u, d)
            pl_def(t[3], u, d)
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        use[x], de[x] = u, d
    live = {x: set() for x in cfg.reach}
    ch = True
    order = list(cfg.reach)
    while ch:
        ch = False
        for x in order:
            out = set()
            for y in cfg.su[x]:
                out |= live[y]
            n = use[x] | (out - de[x])
            if n != live[x]:
                live[x] = n
                ch = True
    return live, mutb


# ------------------------------------------------------------- recurrences
UNREAD = mk("var", "never read")


class Recurrence:
    """closed forms / canonical recurrences for loop variables"""

    def __init__(self, mach, vs, cont):
        self.m = mach
        self.vs = dict(vs)       # lv -> (init, next)
        self.cont = cont

    def invariants(self):
        """branch predicates of the body that no iteration changes"""
        own = set(self.vs)
        out, seen = set(), set()
        st = [self.cont] + [n for _, n in self.vs.values()]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("loop", "sum", "mapvec", "lam", "someiter", "closure"):
                continue
            if x.op == "ite":
                c = x.args[0]
                if c.op in ("is", "eq", "lt", "lti", "app") and not (c.lvs & own):
                    out.add(c)
            st.extend(a for a in x.args if isinstance(a, T))
        return out

    def solve(self, depth=0):
        inv = self.invariants() if depth < 5 and self.vs else ()
        if inv and len({i.args[0] if i.op == "is" else i for i in inv}) <= 3 and len(inv) <= 8:
            a = min(inv, key=lambda x: (x.h, x.id))
            outs = []
            for v in (True, False):
                m = {a: boolc(v)}
                if v and a.op == "is":
                    m.update({i: FALSE for i in inv if i is not a and i.op == "is" and i.args[0] is a.args[0]})
                r = Recurrence(self.m, {k: (i, restrict(n, m)) for k, (i, n) in self.vs.items()}, restrict(self.cont, m))
                outs.append(r.solve(depth + 1))
            return {k: ite(a, outs[0].get(k, k), outs[1].get(k, k)) for k in self.vs}
        vs = self.vs
        res = {}
        K = None
        cont = self.cont
        own = set(vs)
        known = atoms_true(cont)
        sub_all = {}

        def free(t):
            return not (t.lvs & own)
        changed = True
        while changed:
            changed = False
            for lv in list(vs):
                init, nxt = vs[lv]
                r = None
                if nxt is lv or nxt is init and free(nxt):
                    r = init
                else:
                    d = diffpush(nxt, lv)
                    if d is not None and free(d) and lv is not K and d.op not in ("ite",):
                        if d is ZERO:
                            r = init
                        else:
                            if K is None:
                                K = self.m.newlv()
                                vs[K] = (ZERO, add(K, ONE))
                                own.add(K)
                            r = add(init, mul(d, K))
                    elif d is None or lv not in nxt.lvs:
                        # a value carried over from the previous iteration
                        if lv is not K and not (nxt.lvs & own) - {K} and (K is not None or free(nxt)):
                            if K is None:
                                K = self.m.newlv()
                                vs[K] = (ZERO, add(K, ONE))
                                own.add(K)
                            n3 = under(cont, nxt)
                            r = init if n3 is init else ite(lt_i(K, ONE), init, subst(n3, {K: sub(K, ONE)}))
                if r is None and nxt.op == "variant" and init.op == "variant" and init.args[1] != nxt.args[1] and lv in self.closure_of(vs, own, [cont] + [n for _, n in vs.values()]):
                    # one constructor before the first iteration, another ever after
                    if K is None:
                        K = self.m.newlv()
                        vs[K] = (ZERO, add(K, ONE))
                        own.add(K)
                    ps = []
                    for x in nxt.args[2:]:
                        q = self.m.newlv()
                        vs[q] = (UNREAD, x)
                        own.add(q)
                        ps.append(q)
                    r = ite(lt_i(K, ONE), init, mk("variant", nxt.args[0], nxt.args[1], *ps))
                if r is None and nxt.op in ("store", "ite") and lv in nxt.lvs:
                    r = self.element(vs, lv, cont, K, own)
                    if r is not None and r[0] == "cont":
                        cont = r[1]
                        r = None
                        changed = True
                        init, nxt = vs[lv]
                    elif r is not None:
                        _, cont, r = r
                if r is not None:
                    del vs[lv]
                    own.discard(lv)
                    mp = {lv: r}
                    sub_all = {k: subst(v, mp) for k, v in sub_all.items()}
                    sub_all[lv] = r
                    for k in list(vs):
                        i, n = vs[k]
                        vs[k] = (i, subst(n, mp))
                    cont = subst(cont, mp)
                    changed = True
                    known = atoms_true(cont)
                    continue
                # simplify next under the continuation condition
                n2 = restrict(nxt, known) if known else nxt
                if n2.op == "ite" and init.op != "num":
                    n3 = under(cont, n2)
                    if n3 is init and not n3.lvs & own:
                        n2 = n3
                if n2 is not nxt:
                    vs[lv] = (init, n2)
                    changed = True
        self.cont = cont
        self.own = own
        self.K = K
        self.count = None
        if K is not None and cont.op == "lti":
            # cont: p < 0 with p = K - n (unit coefficient), n invariant
            p = polyd(cont.args[0])
            km = mk("mono", K, Fr(1))
            if p.get(km) == 1:
                n = neg(sub(cont.args[0], K))
                if free(n):
                    self.count = n
        elif K is not None and isneg(cont) and cont.args[0].op == "lti":
            # not(p<0), p = n' - K ... i.e. -K + c ; canonical polarity put K positive
            p = polyd(cont.args[0].args[0])
            km = mk("mono", K, Fr(1))
            if p.get(km) == -1:
                # not(c - K < 0)  <=>  K <= c  <=> K < c+1
                n = add(add(cont.args[0].args[0], K), ONE)
                if free(n):
                    self.count = n
            elif p.get(km) == 1:
                # polarity flipped by hash order of the leading monomial
                pass
        if K is not None and self.count is None:
            self.count = self.find_count(cont, K, free)
        if self.count is not None:
            # canonical continuation: K < n
            self.cont = lt_i(K, self.count)
        self.fills()
        ex = {}
        for lv in vs:
            ex[lv] = self.exit_value(lv)
        out = dict(ex)
        memo = {}
        for k, v in sub_all.items():
            out[k] = subst(v, ex, memo)
        # at the exit the continuation condition is false
        tm.never(subst(self.cont, out, {}))
        return out

    @staticmethod
    def writes(t, lv):
        """indices stored to in the update of an array, or None"""
        if t is lv:
            return set()
        if t.op == "store":
            r = Recurrence.writes(t.args[0], lv)
            return None if r is None else r | {t.args[1]}
        if t.op == "ite":
            a, b = Recurrence.writes(t.args[1], lv), Recurrence.writes(t.args[2], lv)
            return None if a is None or b is None else a | b
        return None

    @staticmethod
    def written(t, lv, old):
        """the element after the update"""
        if t is lv:
            return old
        if t.op == "store":
            return t.args[2]
        return ite(t.args[0], Recurrence.written(t.args[1], lv, old), Recurrence.written(t.args[2], lv, old))

    def element(self, vs, lv, cont, K, own):
        """an array of which the loop touches one element only, or each element once"""
        init, nxt = vs[lv]
        w = self.writes(nxt, lv)
        if not w or len(w) != 1:
            return None
        idx = next(iter(w))
        rd = mk("sel", lv, idx)
        if not idx.lvs & own:
            e = self.m.newlv()
            mp, memo = {rd: e}, {}
            new = {k: (i, subst(n, mp, memo)) for k, (i, n) in vs.items() if k is not lv}
            c2 = subst(cont, mp, memo)
            val = subst(self.written(nxt, lv, e), mp, memo)
            if lv in c2.lvs or lv in val.lvs or any(lv in n.lvs for _, n in new.values()):
                return None
            vs.update(new)
            vs[e] = (select(init, idx), val)
            own.add(e)
            return ("done", c2, tm.store(init, idx, e))
        if K is not None and not sub(idx, K).lvs & own:
            mp, memo = {rd: select(init, idx)}, {}
            c2 = subst(cont, mp, memo)
            ch = c2 is not cont
            for k, (i, n) in list(vs.items()):
                n2 = self.rewrite_tree(n, lv, mp, memo) if k is lv else subst(n, mp, memo)
                if n2 is not n:
                    vs[k] = (i, n2)
                    ch = True
            return ("cont", c2) if ch else None
        return None

    @staticmethod
    def rewrite_tree(t, lv, mp, memo):
        if t is lv:
            return t
        if t.op == "store":
            return tm.store(Recurrence.rewrite_tree(t.args[0], lv, mp, memo), t.args[1], subst(t.args[2], mp, memo))
        if t.op == "ite":
            return ite(subst(t.args[0], mp, memo), Recurrence.rewrite_tree(t.args[1], lv, mp, memo), Recurrence.rewrite_tree(t.args[2], lv, mp, memo))
        return t

    def fills(self):
        """an array filled front to back is a list built by pushes"""
        if self.count is None:
            return
        K, vs = self.K, self.vs
        for lv in list(vs):
            init, nxt = vs[lv]
            w = self.writes(nxt, lv) if nxt.op in ("store", "ite") else None
            if not w or len(w) != 1 or next(iter(w)) is not K:
                continue
            n = vlen(init)
            if n is not self.count and n is not mm("max", self.count, ZERO):
                continue
            val = self.written(nxt, lv, select(init, K))
            if lv in val.lvs or lv in self.cont.lvs:
                continue
            if any(lv in x.lvs for k, (_, x) in vs.items() if k is not lv):
                continue
            vs[lv] = (mk("vec"), mk("push", lv, val))

    def find_count(self, cont, K, free):
        """any integer comparison equivalent to K < n"""
        pos = True
        c = cont
        if isneg(c):
            pos = False
            c = c.args[0]
        if c.op != "lti":
            return None
        p = polyd(c.args[0])
        km = mk("mono", K, Fr(1))
        k = p.get(km)
        rest = sub(c.args[0], mul(num(k or 0), K))
        if k is None or not free(rest):
            return None
        # pos: k*K + rest < 0
        if pos and k > 0:
            if k == 1:
                return neg(rest)
            return mk("app", "ceil", div(neg(rest), num(k)))
        if not pos and k < 0:
            # not(k K + rest < 0)  <=>  -|k| K + rest >= 0 <=> |k| K <= rest
            if k == -1:
                return add(rest, ONE)
            return mk("app", "ceil", div(add(rest, ONE), num(-k)))
        return None

    @staticmethod
    def closure_of(vs, own, roots):
        out = set()
        for r in roots:
            out |= r.lvs & own
        return out

    def closure(self, roots):
        s = set()
        st = []
        for r in roots:
            st.extend(r.lvs & self.own)
        while st:
            x = st.pop()
            if x in s:
                continue
            s.add(x)
            st.extend(self.vs[x][1].lvs & self.own)
        return s

    def exit_value(self, lv):
        init, nxt = self.vs[lv]
        cont = self.cont
        if lv is self.K and self.count is not None:
            n = self.count
            if n.op == "num":
                return n if n.args[0] > 0 else ZERO
            return mm("max", n, ZERO)
        # additive accumulator
        d = diffpush(nxt, lv)
        if d is not None and lv not in d.lvs and lv not in self.closure([cont]) and (init.op not in ("vec", "variant", "tuple", "str")):
            if lv not in self.closure([d]):
                return add(init, self.sum(d))
        # a flag raised once
        if init in (TRUE, FALSE) and lv not in cont.lvs:
            up = boolc(init is FALSE)
            if subst(nxt, {lv: up}) is up:
                keep = subst(nxt, {lv: init})
                hit = bnot(keep) if init is TRUE else keep
                if not (hit.lvs | cont.lvs) & self.own - {self.K} and self.K is not None:
                    sc = canonb(band(cont, bnot(hit)))
                    sub_ = Recurrence(self.m, {self.K: self.vs[self.K]}, sc)
                    k = sub_.solve(5)[self.K]
                    found = subst(cont, {self.K: k})
                    return ite(found, up, init)
        # vector building
        if self.count is not None:
            if nxt.op == "push" and nxt.args[0] is lv and lv not in self.closure([nxt.args[1]]) and init.op in ("vec", "mapvec", "repeat", "cat"):
                f = nxt.args[1]
                if not self.closure([f]) - {self.K}:
                    mv = self.mapvec(f)
                    return mv if init.op == "vec" and not init.args else mk("cat", init, mv)
            if nxt.op == "store" and nxt.args[0] is lv and nxt.args[1] is self.K and lv not in self.closure([nxt.args[2]]):
                f = nxt.args[2]
                if not self.closure([f]) - {self.K} and vlen(init) is self.count:
                    return self.mapvec(f)
            w = self.writes(nxt, lv) if nxt.op in ("store", "ite") else None
            if w and len(w) == 1:
                b = sub(next(iter(w)), self.K)
                val = self.written(nxt, lv, select(init, add(self.K, b)))
                if not self.closure([b, val]) - {self.K} and self.K not in b.lvs:
                    lev = max(val.bl, init.bl, b.bl, self.count.bl) + 1
                    j = mk("bv", lev, 0)
                    i = sub(j, b)
                    body = ite(band(bnot(lt_i(i, ZERO)), lt_i(i, self.count)), subst(val, {self.K: i}), select(init, j))
                    return mk("mapvec", vlen(init), body, lev)
        return self.node("loop", [nxt, cont, lv], None, lv)

    def mapvec(self, f):
        lev = f.bl + 1
        n = self.count
        return mk("mapvec", n, subst(f, {self.K: mk("bv", lev, 0)}), lev)

    def sum(self, d):
        """sum over iterations of d, split linearly"""
        tot = ZERO
        if d.op == "ite" and not (d.args[0].lvs & self.own):
            return ite(d.args[0], self.sum(d.args[1]), self.sum(d.args[2]))
        for m, c in polyd(d).items():
            inv = {}
            var_ = {}
            for a, e in monod(m).items():
                if a.lvs & self.own:
                    var_[a] = e
                else:
                    inv[a] = e
            fi = frompoly({tm._mono(inv): c})
            if not var_:
                v = ONE
            else:
                v = frompoly({tm._mono(var_): Fr(1)})
            if v is ONE and self.count is not None:
                n = self.count
                s = mm("max", n, ZERO)
            else:
                s = self.node("sum", [v, self.cont], v, None)
            tot = add(tot, mul(fi, s))
        return tot

    def node(self, op, roots, out, lv):
        cl = self.closure(roots)
        vs = self.vs
        # colour refinement for an order independent of allocation
        col = {}
        for x in cl:
            col[x] = chash(vs[x][0], {})
        for _ in range(min(len(cl), 4) + 1):
            nc = {}
            memo = {}
            for x in cl:
                nc[x] = hash((col[x], chash(vs[x][1], col, memo)))
            col = nc
        mark = dict(col)
        order = sorted(cl, key=lambda x: (x is not self.K, x is not lv, col[x], x.id))
        lev = 1 + max([vs[x][1].bl for x in cl] + [self.cont.bl] + ([out.bl] if out is not None else [0]))
        mp = {x: mk("bv", lev, i) for i, x in enumerate(order)}
        memo = {}
        inits = [vs[x][0] for x in order]
        nexts = [subst(vs[x][1], mp, memo) for x in order]
        cont = canonb(subst(self.cont, mp, memo))
        nexts = [under(cont, x) for x in nexts]
        o = subst(out, mp, memo) if out is not None else mp[lv]
        return mk(op, lev, len(order), cont, o, *(inits + nexts))


def diffpush(n, lv):
    """n - lv with the subtraction pushed through ite"""
    if n.op in ("vec", "variant", "tuple", "closure", "str", "push", "store", "mapvec", "true", "false", "it", "mref", "cat", "repeat", "bytes", "subslice"):
        return None
    if n.op == "ite":
        if n.args[1] in (TRUE, FALSE) or n.args[2] in (TRUE, FALSE):
            return None
        a = diffpush(n.args[1], lv)
        b = diffpush(n.args[2], lv)
        if a is None or b is None:
            return None
        if lv in n.args[0].lvs:
            return None
        return ite(n.args[0], a, b)
    if lv not in n.lvs:
        return None
    return sub(n, lv)


def atoms_true(c, out=None):
    out = {} if out is None else out
    if c.op == "ite":
        if isneg(c):
            out[c.args[0]] = FALSE
        elif c.args[2] is FALSE:
            atoms_true(c.args[0], out)
            atoms_true(c.args[1], out)
        else:
            out[c] = TRUE
    elif c not in (TRUE, FALSE):
        out[c] = TRUE
    return out


def restrict(t, m):
    """replace known boolean atoms inside t"""
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = go(a)
                ch |= b is not a
                na.append(b)
            else:
                na.append(a)
        r = tm.rebuild(t.op, na) if ch else t
        memo[t] = r
        return r
    return go(t)


def chash(t, col, memo=None):
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "lv":
            r = col.get(t, 17)
        elif not t.lvs:
            r = hash(t.h)
        elif t.op == "poly":
            r = hash(("poly", tuple(sorted(hash((t.args[i], go(t.args[i + 1]))) for i in range(0, len(t.args), 2)))))
        elif t.op == "mono":
            r = hash(("mono", tuple(sorted(hash((go(t.args[i]), t.args[i + 1])) for i in range(0, len(t.args), 2)))))
        elif t.op in ("eq",) or (t.op == "app" and t.args[0] in ("max", "min")):
            r = hash((t.op, str(t.args[0]) if t.op == "app" else "", tuple(sorted(go(a) for a in t.args if isinstance(a, T)))))
        else:
            r = hash((t.op, tuple(go(a) if isinstance(a, T) else hash(repr(a)) for a in t.args)))
        memo[t] = r
        return r
    return go(t)
