"""Loads the MIR export: bodies, types, ADTs, trait impl tables, CFG helpers."""
import json
import term as tm


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw_types = d["types"]
        self.types = [None] * len(self.raw_types)
        for i in range(len(self.raw_types)):
            self.ty(i)
        self.adts = d["adts"]
        tm.ADTS.clear()
        tm.ADTS.update(self.adts)
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.impls = d["impls"]
        self.by_path = {}
        for b in d["bodies"]:
            if b["kind"] in ("fn", "const"):
                self.by_path.setdefault(b["path"], []).append(b)
        self.trait_impls = {}
        for im in self.impls:
            im["selfty"] = self.types[im["self"]]
            im["argtys"] = tuple(self.types[x] if isinstance(x, int) else ("const", str(x)) for x in im["targs"])
            self.trait_impls.setdefault(im["trait"], []).append(im)
        self._cfg = {}

    # types become nested tuples
    def ty(self, i):
        t = self.types[i]
        if t is not None:
            return t
        r = self.raw_types[i]
        k = r["k"]
        a = lambda l: tuple(self.ty(x) if isinstance(x, int) else ("const", x["const"]) for x in l)
        if k == "prim":
            t = ("prim", r["n"])
        elif k == "adt":
            t = ("adt", r["p"], a(r["a"]))
        elif k in ("ref", "ptr"):
            t = (k, self.ty(r["t"]), bool(r.get("m", True)))
        elif k == "slice":
            t = ("slice", self.ty(r["t"]))
        elif k == "array":
            t = ("array", self.ty(r["t"]), r["n"])
        elif k == "tuple":
            t = ("tuple", a(r["a"]))
        elif k == "param":
            t = ("param", r["n"])
        elif k in ("fndef", "closure"):
            t = (k, r["p"], a(r["a"]))
        elif k == "dyn":
            t = ("dyn", r["p"])
        elif k == "proj":
            t = ("proj", r["p"], a(r["a"]), r["s"])
        else:
            t = ("other", r.get("s", "?"))
        self.types[i] = t
        return t

    def subst_ty(self, t, m):
        if not m:
            return t
        k = t[0]
        if k == "param":
            return m.get(t[1], t)
        if k == "adt":
            return ("adt", t[1], tuple(self.subst_ty(x, m) for x in t[2]))
        if k in ("ref", "ptr"):
            return (k, self.subst_ty(t[1], m), t[2])
        if k == "slice":
            return ("slice", self.subst_ty(t[1], m))
        if k == "array":
            return ("array", self.subst_ty(t[1], m), t[2])
        if k == "tuple":
            return ("tuple", tuple(self.subst_ty(x, m) for x in t[1]))
        if k in ("fndef", "closure"):
            return (k, t[1], tuple(self.subst_ty(x, m) for x in t[2]))
        if k == "proj":
            args = tuple(self.subst_ty(x, m) for x in t[2])
            tr, name = t[1].rsplit("::", 1)
            if args and args[0][0] != "param":
                im = self.find_impl(tr, args[0], args)
                if im and name in im["tys"]:
                    return self.types[im["tys"][name]]
            return ("proj", t[1], args, t[3])
        return t

    def find_impl(self, trait, selfty, args=None):
        rest = tuple(x for x in (args or ())[1:])

        def cand(st):
            for im in self.trait_impls.get(trait, []):
                if self.unify(im["selfty"], st):
                    pa = im["argtys"][1:]
                    if not rest or len(pa) != len(rest) or all(self.unify(x, y) for x, y in zip(pa, rest)):
                        return im
            return None
        while selfty[0] == "ref":
            c = cand(selfty)
            if c:
                return c
            selfty = selfty[1]
        return cand(selfty)

    def default_body(self, trait, name):
        ims = self.trait_impls.get(trait, [])
        uid = None
        for im in ims:
            if name in im["items"]:
                return None
            uid = im["defaults"].get(name) or uid
        return self.bodies.get(uid) if uid else None

    def unify(self, pat, t):
        if pat[0] == "param":
            return False
        if pat[0] != t[0]:
            return False
        if pat[0] in ("adt",):
            return pat[1] == t[1]
        return pat == t

    # lookup by readable name, e.g. "time::period::Period::settlement_date" or
    # "<time::X as time::Trait>::method"
    def fn(self, name):
        c = self.by_path.get(name)
        if c and len(c) == 1:
            return c[0]
        if c:
            c = [b for b in c if b["kind"] == "fn"]
            if len(c) >= 1:
                return c[0]
        return None

    def cfg(self, b):
        c = self._cfg.get(b["id"])
        if c is None:
            c = Cfg(b)
            self._cfg[b["id"]] = c
        return c


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Cfg:
    """CFG of one body without unwind edges and without blocks that cannot
    reach a return (those are diverging: panics / unreachable)."""

    def __init__(self, b):
        bl = b["blocks"]
        n = len(bl)
        self.n = n
        self.su = [succs(x["t"]) for x in bl]
        # reachable
        reach = {0}
        st = [0]
        while st:
            x = st.pop()
            for y in self.su[x]:
                if y not in reach:
                    reach.add(y)
                    st.append(y)
        pr = {x: [] for x in reach}
        for x in reach:
            for y in self.su[x]:
                pr[y].append(x)
        good = set()
        st = [x for x in reach if bl[x]["t"][0] == "return"]
        good.update(st)
        while st:
            x = st.pop()
            for y in pr[x]:
                if y not in good:
                    good.add(y)
                    st.append(y)
        self.reach = reach
        self.good = good
        self.loops = {}      # header -> set of blocks
        if 0 in good:
            self._loops()

    def _loops(self):
        # dominators (iterative) over good blocks
        order = self.rpo(0, self.good)
        idx = {x: i for i, x in enumerate(order)}
        pred = {x: [] for x in order}
        for x in order:
            for y in set(self.su[x]):
                if y in idx:
                    pred[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                ps = [p for p in pred[x] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    d = a
                if idom.get(x) != d:
                    idom[x] = d
                    ch = True
        self.idom = idom
        self.pred = pred

        def dom(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return False
                x = idom[x]
        for x in order:
            for y in set(self.su[x]):
                if y in idx and dom(y, x):
                    body = self.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z not in body:
                            body.add(z)
                            st.extend(pred[z])

    def rpo(self, entry, within):
        seen = set()
        out = []
        st = [(entry, iter(self.su[entry]))]
        seen.add(entry)
        while st:
            x, it = st[-1]
            for y in it:
                if y in within and y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.su[y])))
                    break
            else:
                out.append(x)
                st.pop()
        return out[::-1]

    def region(self, entry, blocks):
        """collapsed acyclic region: entry, blocks (good only); inner loops
        (headers != entry) become super nodes.  -> list of nodes in topological
        order, preds, idom; node = block id (loop header stands for its loop)."""
        key = (entry, len(blocks))
        c = self.__dict__.setdefault("_rc", {})
        if key in c:
            return c[key]
        owner = {}
        inner = {}
        hs = [h for h in self.loops if h in blocks and h != entry and self.loops[h] <= blocks]
        hs.sort(key=lambda h: -len(self.loops[h]))
        for h in hs:
            if h in owner:
                continue
            inner[h] = self.loops[h]
            for x in self.loops[h]:
                owner[x] = h
        node = lambda x: owner.get(x, x)
        su = {}
        for x in blocks:
            nx = node(x)
            s = su.setdefault(nx, [])
            for y in self.su[x]:
                if y in blocks and y != entry:
                    ny = node(y)
                    if ny != nx and ny not in s:
                        s.append(ny)
        seen = set([entry])
        out = []
        st = [(entry, iter(su[entry]))]
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(su[y])))
                    break
            else:
                out.append(x)
                st.pop()
        order = out[::-1]
        idx = {x: i for i, x in enumerate(order)}
        pred = {x: [] for x in order}
        for x in order:
            for y in su[x]:
                pred[y].append(x)
        idom = {entry: entry}
        for x in order[1:]:
            d = None
            for p in pred[x]:
                if p not in idom:
                    raise RuntimeError("irreducible region")
                if d is None:
                    d = p
                else:
                    a, cc = d, p
                    while a != cc:
                        while idx[a] > idx[cc]:
                            a = idom[a]
                        while idx[cc] > idx[a]:
                            cc = idom[cc]
                    d = a
            idom[x] = d
        # post-dominance of x over idom[x]: every path from idom[x] inside the
        # region reaches x (no exits in between, no way round)
        pd = {}
        leaves = {x for x in order if self._exits(x, inner, blocks, entry)}
        for x in order[1:]:
            d = idom[x]
            ok = True
            seen2 = {d}
            st2 = [d]
            if d in leaves:
                ok = False
            while st2 and ok:
                z = st2.pop()
                for y in su[z]:
                    if y == x or y in seen2:
                        continue
                    seen2.add(y)
                    if y in leaves or not su[y]:
                        ok = False
                        break
                    st2.append(y)
            pd[x] = ok
        r = (order, pred, idom, inner, pd)
        c[key] = r
        return r

    def _exits(self, x, inner, blocks, entry):
        xs = inner.get(x, (x,))
        for b in xs:
            for y in self.su[b]:
                if y == entry or (y in self.good and y not in blocks):
                    return True
            if not self.su[b]:
                return True
        return False
