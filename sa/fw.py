"""Obligation bookkeeping, reports, evidence and known findings."""
import gc, json, os, pickle, re, selectors, sys, threading, time, traceback, hashlib
import dump, ir, ex, term as tm
from term import *
import eqv
import rint
import tidy

VERIF = dump.VERIF
sys.setrecursionlimit(20000)


class Missing(Exception):
    pass


ERR = "finquant::error::Error"


PROPAGATED = mk("var", "propagated error")


def erase(t, memo=None):
    """drop the text carried by error values"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args or t.op in ("num", "str", "var"):
            return t
        if t.op == "variant" and t.args[0].endswith("::error::Error"):
            r = mk("variant", t.args[0], t.args[1])
        elif t.op == "field" and t.args[1] == RES and t.args[2] == 1:
            r = PROPAGATED
        else:
            na = [go(a) if isinstance(a, T) else a for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t.op, na)
        memo[t] = r
        return r
    return go(t)


def nonempty(*names):
    """facts: the named input lists have an element"""
    def f(ra, rs):
        out, seen, st = [], set(), [ra.ret, rs.ret]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "len" and show(x, 6) in names:
                out.append((lt_i(x, ONE), False))
            st.extend(a for a in x.args if isinstance(a, T))
        return out
    return f


def atleast(**least):
    """facts: the named input lists are this long at least"""
    return [f for k, n in least.items() for i in range(1, n + 1) for f in [(lt_i(vlen(var(k)), num(i)), False), (eq(vlen(var(k)), num(i - 1)), False)]]


def even(*names):
    """facts: the named counts are even and at least two"""
    from ex import irem
    return [f for k in names for f in [(lt_i(var(k), num(2)), False), (eq(irem(var(k), num(2)), ZERO), True)]]


class Ctx:
    def __init__(self, prop, tier, prog=None, meta=None):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.p = prog
        self.meta = meta or {}
        self.obs = []          # (key, ok, detail)
        self.rules = []
        self.bodies = set()
        self.notes = []
        self.samples = []
        self.judged = 0.0
        self.inside = False
        self.jobs = []
        threading.Thread(target=self.watch, args=(threading.get_ident(),), daemon=True).start()

    LAST = float(os.environ.get("VERIF_LAST", "720"))        # seconds after which what is still open stays undecided

    def watch(self, ident):
        import ctypes
        while self.t0 is not None:
            time.sleep(2.0)
            if self.inside and time.time() - self.t0 > self.LAST:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(ident), ctypes.py_object(eqv.Budget))

    # ---------------------------------------------------------------- anchors
    def fn(self, name):
        b = self.p.fn(name)
        if b is None:
            raise Missing("anchor not found: " + name)
        return b

    def machine(self, opaque=(), track=False, assume=True):
        m = ex.Machine(self.p, opaque=self.uids(opaque), track=track)
        m.assume_range = assume
        return m

    def uids(self, names):
        out = set()
        for n in names:
            bs = self.p.by_path.get(n)
            if not bs:
                raise Missing("opaque anchor not found: " + n)
            out.add(n)
        return out

    def extract(self, name, opaque=(), assume=True, args=None, tymap=None, refuse=False):
        b = self.fn(name) if isinstance(name, str) else name
        m = self.machine(opaque, assume=assume)
        m.refuse = refuse
        r = m.extract(b, args=args, tymap=tymap)
        self.bodies.add(b["path"])
        self.bodies |= {self.p.bodies[i]["path"] for i in m.inlined if i in self.p.bodies}
        return r, m

    # ------------------------------------------------------------ obligations
    def ob(self, key, ok, detail="", where=""):
        self.obs.append((key, None if ok is None else bool(ok), detail, where))
        return ok

    def guard(self, key, f, where=""):
        """run f; where the engine cannot decide, the obligation is left open and no alarm is raised"""
        if time.time() - self.t0 > self.LAST:
            return self.ob(key, None, "undecided: no time left", where)
        try:
            self.inside = True
            r = f()
            self.inside = False
            return r
        except Missing as e:
            self.ob(key, None, str(e), where)
        except eqv.Budget as e:
            self.ob(key, None, "undecided: %s" % e, where)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.ob(key, None, "undecided: %s: %s" % (type(e).__name__, e), where)
        finally:
            self.inside = False

    def same(self, repo, specs, key=None, opaque=(), assume=True, budget=60000, facts=(), args=None, outs=True, post=None, witness=False, refuse=False):
        """the function and its reference denote the same value graph"""
        key = key or repo
        if isinstance(specs, str):
            specs = [specs]

        def go():
            why, open_ = [], []
            ra, ma = self.extract(repo, opaque, assume, args, refuse=refuse)
            for s in specs:
                mod = re.search(r"verif_(?:spec::)?(\w+)::", s).group(1)
                if mod in self.meta.get("dropped", {}):
                    open_.append("reference %s does not compile against the current interface: %s" % (mod, self.meta["dropped"][mod][:300]))
                    continue
                rs, ms = self.extract(s, opaque, assume, args)
                self.vartys = self.tys(repo)
                self.witness = witness
                self.alien = sorted(set(ma.unknown) - set(ms.unknown))
                v, r = self.compare(ra, rs, budget, facts(ra, rs) if callable(facts) else facts, outs, post)
                if v:
                    return self.ob(key, True, "value graph equals " + s, repo)
                (why if v is False else open_).append("differs from %s:\n%s" % (s, r))
            self.ob(key, None if open_ else False, "\n".join(open_ or why), repo)
        self.jobs.append((len(self.obs), key, go, repo))

    # the obligations of one property are independent: each is decided in a process of its own
    def run(self):
        if not self.jobs:
            return
        jobs, self.jobs = self.jobs, []
        n = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        got = {}
        if n == 1 or len(jobs) == 1:
            for i, (_, key, go, where) in enumerate(jobs):
                k = len(self.obs)
                self.guard(key, go, where)
                got[i] = self.obs[k:]
                del self.obs[k:]
        else:
            sys.stdout.flush()
            gc.collect()
            gc.freeze()
            todo, live = list(enumerate(jobs)), {}
            sel = selectors.DefaultSelector()
            while todo or live:
                while todo and len(live) < n:
                    i, (_, key, go, where) = todo.pop(0)
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        self.child(r, w, key, go, where)
                    os.close(w)
                    live[r] = [i, pid, b""]
                    sel.register(r, selectors.EVENT_READ)
                for e, _ in sel.select():
                    b = os.read(e.fd, 1 << 16)
                    if b:
                        live[e.fd][2] += b
                        continue
                    sel.unregister(e.fd)
                    os.close(e.fd)
                    i, pid, data = live.pop(e.fd)
                    os.waitpid(pid, 0)
                    try:
                        got[i], bodies, notes = pickle.loads(data)
                        self.bodies |= bodies
                        self.notes += notes
                    except Exception:
                        got[i] = [(jobs[i][1], None, "undecided: the process ended early", jobs[i][3])]
            sel.close()
        out, k = [], 0
        for i, (at, _, _, _) in enumerate(jobs):
            out += self.obs[k:at] + got[i]
            k = at
        self.obs = out + self.obs[k:]

    def child(self, r, w, key, go, where):
        try:
            os.close(r)
            k, m = len(self.obs), len(self.notes)
            self.bodies = set()
            threading.Thread(target=self.watch, args=(threading.get_ident(),), daemon=True).start()
            self.guard(key, go, where)
            data = pickle.dumps((self.obs[k:], self.bodies, self.notes[m:]))
            sys.stdout.flush()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)

    def tys(self, repo):
        b = self.fn(repo) if isinstance(repo, str) else repo
        return {"a%d" % i: self.p.types[b["locals"][i][0]] for i in range(1, b["argc"] + 1)}

    def named_pairs(self, ra, rs, outs):
        pairs = [("result", ra.ret, rs.ret)]
        if outs:
            for k in sorted(set(ra.outs) | set(rs.outs), key=str):
                x, y = ra.outs.get(k), rs.outs.get(k)
                v = var(str(k)) if x is None or y is None else None
                pairs.append(("state " + str(k), x if x is not None else v, y if y is not None else v))
        return pairs

    def pairs(self, ra, rs, outs):
        return [(x, y) for _, x, y in self.named_pairs(ra, rs, outs)]

    def compare(self, ra, rs, budget=60000, facts=(), outs=True, post=None):
        """-> (True | False | None, explanation)"""
        got = (True, None)
        for n, x, y in self.named_pairs(ra, rs, outs):
            v, r = self.eq(x, y, budget, facts, post)
            if v is False:
                return False, "%s: %s" % (n, r)
            if v is None:
                got = (None, "%s: %s" % (n, r))
        return got

    def cross(self, x, y, facts):
        """thorough: a pair the procedure identified is evaluated all the same, as a check on the procedure"""
        if self.tier == "thorough":
            v, n = rint.compare(x, y, self.p, getattr(self, "vartys", None), facts)
            if v == "differ":
                return None, "undecided: identified by the procedure, yet they differ at %s" % n
        return True, None

    def strange(self, x, y):
        """functions outside the analysis that the code's graph really mentions and the reference's does not"""
        a = set(map(str, getattr(self, "alien", ())))
        return sorted(a & (heads(x) - heads(y))) if a else []

    def leaf(self, f):
        a, b, env = f
        cond = " ".join(("" if v_ else "!") + show(k, 6) for k, v_ in list(env.m.items())[:12])
        return "where %s\n  code:      %s\n  reference: %s" % (cond or "(always)", show(a, 14)[:1200], show(b, 14)[:1200])

    def eq(self, x, y, budget=60000, facts=(), post=None):
        x, y = (tidy.relevel(tidy.tidy(erase(z))) for z in (x, y))
        if post:
            x, y = post(x), post(y)
        if x is y:
            return True, None
        out = None
        try:
            e = eqv.Eq(budget, facts, 200)
            if e.equal(x, y):
                return self.cross(x, y, facts)
            f = e.fail
            z = eqv.unify(x, y)
            if z is not x and (z is y or eqv.Eq(budget, facts, 60).equal(z, y)):
                return self.cross(x, y, facts)
        except eqv.Budget as b:
            f, out = None, str(b)
        # outside the theory of the procedure, or genuinely different?
        p, tys = self.p, getattr(self, "vartys", None)
        deep = self.tier == "thorough"
        v, n = rint.compare(x, y, p, tys, facts, want=96 if deep else 24, tries=2400 if deep else 600, seconds=60.0 if deep else 10.0)
        if f is None:
            r = out or "code: %s\nreference: %s" % (show(x, 12)[:1500], show(y, 12)[:1500])
        else:
            r = self.leaf(f)
        if v == "differ":
            if self.strange(x, y):
                return None, "undecided: the code calls %s, which the reference does not and the analysis does not know\n%s" % (", ".join(map(str, self.strange(x, y)[:4])), r)
            return False, "the graphs differ at %s; %s" % (n, r)
        if out is not None:
            return None, "undecided (%s; %s at %d valuations)" % (out, v, n)
        if v == "agree":
            if f is None:
                return None, "undecided (no differing valuation among %d); %s" % (n, r)
            # every leaf that was not identified: can it be reached, and does it differ there?
            j = Judge(self, x, y, facts)
            if deep:
                j.LIMIT, j.TOTAL = 200.0, 400.0
            e = eqv.Eq(budget, facts, 240)
            e.judge = j
            try:
                if e.equal(x, y) or e.fail is None:
                    z = rint.ties(x, y, p, tys, facts)
                    if z and not self.strange(x, y):
                        return False, "the graphs differ at %s; %s" % (z, r)
                    why = e.opened[0][3] if e.opened else ""
                    return None, "undecided (no differing valuation among %d; %d leaves: %s); %s" % (n, len(e.opened), why, r)
            except eqv.Budget as b:
                return None, "undecided (no differing valuation among %d; %s); %s" % (n, b, r)
            return False, "(%s) %s" % (j.why, self.leaf(e.fail))
        return (None if self.strange(x, y) or getattr(self, "witness", False) else False), "(no valuation: %s) %s" % (v, r)


class Judge:
    """a leaf the procedure could not identify: None when it stands, else why it does not count"""
    LIMIT, TOTAL = 100.0, 240.0

    def __init__(self, cx, x, y, facts):
        self.cx, self.x, self.y, self.facts = cx, x, y, list(facts)
        self.t0 = time.time()
        self.never = []
        self.names = None
        self.why = ""

    def __call__(self, a, b, env):
        cx, p, tys = self.cx, self.cx.p, getattr(self.cx, "vartys", None)
        conds = [(k, t) for k, t in env.m.items() if t in (True, False)]
        cs = set(conds)
        for z in self.never:
            if cs.issuperset(z):
                return "an excluded path"
        if stuck(conds, env):
            return "an impossible path: a loop left while its condition holds"
        t1 = time.time()
        if t1 - self.t0 > self.LIMIT or cx.judged > self.TOTAL:
            return "time is up"
        try:
            return self.decide(a, b, conds)
        finally:
            cx.judged += time.time() - t1

    def decide(self, a, b, conds):
        cx, p, tys = self.cx, self.cx.p, getattr(self.cx, "vartys", None)
        if self.names is None:
            self.names = rint.unknowns([self.x, self.y])
        own = rint.unknowns([a, b] + [c for c, _ in conds]) <= self.names
        w, m = rint.compare(a, b, p, tys, self.facts, conds, want=8, tries=2000, seconds=6.0, whole=(self.x, self.y) if own else None)
        if w == "agree":
            return "no differing valuation among %d at the leaf" % m
        if w == "unknown" and rint.compare.tried < 300:
            return "too expensive to evaluate"
        if w == "unknown":
            u, k = rint.compare(a, b, p, tys, (), (), want=16, seconds=4.0)
            if u == "agree":
                return "no differing valuation among %d at the unconditional leaf" % k
            hits = rint.reach(conds + self.facts, p, tys, seconds=8.0)
            vs = [rint.at(h, self.x, self.y) for h in hits]
            if os.environ.get("VERIF_DEBUG"):
                print("   reach", len(hits), vs)
            if "differ" not in vs:
                if vs.count("same") >= 2:
                    return "no differing valuation among %d on the path" % vs.count("same")
                z = rint.excluded(conds, p, tys, self.facts)
                if z:
                    self.never.append(frozenset(z))
                    return "do not occur together: " + "; ".join(("" if v else "!") + show(c, 4) for c, v in z)
                # where the procedure cannot follow the code even as it stands, only a valuation that differs counts
                if getattr(cx, "witness", False):
                    return "no valuation found on the path"
        self.why = "leaf: %s" % w
        return None


def closed(ts, ok=lambda x: True):
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "loop" and ok(x) and not eqv.freebv(x):
            out.append(x)
        st.extend(y for y in x.args if isinstance(y, tm.T))
    return out


def stuck(conds, env):
    """some loop with a single carried value was left, on this path, at a value at which it goes on"""
    def plain(t):
        for _ in range(4):
            u = env.simp(t)
            if u is t:
                break
            t = u
        return t

    ls = closed([c for c, _ in conds], lambda x: x.args[1] == 1 and x.args[3].op == "bv")[:12]
    if not ls:
        return False
    try:
        on = [tm.subst(l.args[2], {l.args[3]: l}) for l in ls]
        m, names = {}, {}
        for l in closed([c for c, _ in conds] + on):
            m[l] = names.setdefault(plain(l), tm.mk("var", "@exit%d" % len(names)))
        e = eqv.Env()
        for c, v in conds:
            d = e.simp(tm.subst(c, m))
            if d.op not in ("true", "false") and (d.op in eqv.ATOMS or d.op == "app"):
                e = e.assign(d, v) or e
        return any(e.simp(tm.subst(c, m)) is tm.TRUE for c in on)
    except (ValueError, KeyError, TypeError, AttributeError, IndexError, RecursionError):
        return False


def heads(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app":
            out.add(str(x.args[0]))
        st.extend(y for y in x.args if isinstance(y, tm.T))
    return out


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def finish(cx, level="other", explanation="", rule="", assumptions=(), floor=1):
    cx.run()
    bad = [o for o in cx.obs if o[1] is False]
    undecided = [o for o in cx.obs if o[1] is None]
    kf = {k["key"]: k for k in known() if k["property"] == cx.prop}
    hits = [o for o in bad if o[0] in kf]
    new = [o for o in bad if o[0] not in kf]
    if len(cx.obs) < floor:
        new.append(("coverage-floor", False, "only %d obligations were found, at least %d are expected: the anchors of the check moved" % (len(cx.obs), floor), ""))
    for o in hits:
        print("KNOWN-FINDING: property=%s %s" % (cx.prop, kf[o[0]]["what"]))
    rd = os.path.join(dump.WORK, "replay")
    os.makedirs(rd, exist_ok=True)
    paths = []
    for i, o in enumerate(new):
        pth = os.path.join(rd, "%s-%s.txt" % (cx.prop, hashlib.sha1(o[0].encode()).hexdigest()[:10]))
        with open(pth, "w") as fh:
            fh.write("property %s\nobligation %s\nconstruct %s\n\n%s\n" % (cx.prop, o[0], o[3], o[2]))
        paths.append((o, pth))
    ev = {
        "property": cx.prop, "tier": cx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": explanation,
            "rule": rule,
            "obligations": len(cx.obs), "discharged": len(cx.obs) - len(bad) - len(undecided), "undecided": len(undecided),
            "functions_analysed": sorted(cx.bodies),
            "obligation_list": [{"key": o[0], "ok": o[1], "construct": o[3], "detail": o[2][:400]} for o in cx.obs][:400],
            "notes": cx.notes,
        },
        "wall_s": round(time.time() - cx.t0, 2),
        "violations": len(new),
        "assumptions": list(assumptions),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cx.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s [%s]: %d obligations, %d discharged, %d known, %d undecided, %d violated, %.1fs" % (cx.prop, cx.tier, len(cx.obs), len(cx.obs) - len(bad) - len(undecided), len(hits), len(undecided), len(new), time.time() - cx.t0))
    for o in undecided:
        print("  UNDECIDED %s (%s): %s" % (o[0], o[3], o[2][:700].replace("\n", "\n    ")))
    for o, pth in paths:
        print("  %s (%s): %s" % (o[0], o[3], o[2][:700].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (cx.prop, pth))
    return 1 if new else 0
