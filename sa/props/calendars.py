"""Holiday calendars and business-day arithmetic."""
import json, os
import days, calref, ex, term as tm, eqv
from term import *
from props import prop
import fw

CAL = "finquant::time::calendars::Calendar"
RANGE = "civil dates 1901-01-01 to 2199-12-31, the span of the Easter tables (the library panics outside it)"


def impls(cx):
    out = {}
    for im in cx.p.trait_impls.get(CAL, []):
        if im["selfty"][0] == "adt":
            out[im["selfty"][1].split("::")[-1]] = im
    return out


def markets(cx, im):
    """[(market name or None, self value)]"""
    adt = im["selfty"][1]
    fs = tm.ADTS[adt]["v"][0]["f"]
    base = [field(var("a1"), adt, None, i) for i in range(len(fs))]
    for i, f in enumerate(fs):
        t = cx.p.types[f[1]]
        if t[0] == "adt" and t[1] == OPT and t[2][0][0] == "adt" and tm.ADTS.get(t[2][0][1], {}).get("enum"):
            e = t[2][0][1]
            res = []
            for name, val in [(None, variant(OPT, 0))] + [(v["n"], variant(OPT, 1, variant(e, k))) for k, v in enumerate(tm.ADTS[e]["v"])]:
                b = list(base)
                b[i] = val
                res.append((name, variant(adt, 0, *b)))
            return res
    return [(None, None)]


def closed_sets(cx, cal, method="is_business_day"):
    """{market: set of days the code treats as closed}"""
    ims = impls(cx)
    if cal not in ims:
        raise fw.Missing("no Calendar implementation named " + cal)
    im = ims[cal]
    b = cx.p.bodies[im["items"][method]]
    out = {}
    for name, sv in markets(cx, im):
        r, m = cx.extract(b, args=[sv, None])
        out[name] = days.ALL & ~days.Days(var("a2")).bool(r.ret)
        # a path that panics yields no answer at all
    return out, b["path"]


def diff_text(code, ref, n=6):
    a = days.dates(code & ~ref)
    b = days.dates(ref & ~code)
    s = []
    if a:
        s.append("%d day(s) closed in the code but open by the rules: %s" % (len(a), ", ".join(map(str, a[:n]))))
    if b:
        s.append("%d day(s) open in the code but closed by the rules: %s" % (len(b), ", ".join(map(str, b[:n]))))
    return "; ".join(s)


def check_calendar(cx, cal):
    def go():
        cs, where = closed_sets(cx, cal)
        ref = calref.closed(cal)
        for m, r in ref.items():
            key = cal if m is None else "%s/%s" % (cal, m)
            if m is None and len(ref) > 1:
                key = cal + "/default"
            if m not in cs:
                cx.ob(key, False, "the market is gone", where)
                continue
            cx.ob(key, cs[m] == r, diff_text(cs[m], r) or "%d closed days of %d agree" % (bin(r).count("1"), days.N), where)
        for m in cs:
            if m not in ref:
                cx.notes.append("market %s/%s has no published reference" % (cal, m))
    cx.guard(cal, go, cal)


RULE = "day-set abstract interpretation of is_business_day: the set of closed days denoted by the value graph of the implementation equals the set denoted by the published rules"

GROUPS = {
    "C05": (["UnitedStates"], "United States"),
    "C06": (["UnitedKingdom", "Canada", "Australia", "NewZealand", "SouthAfrica", "Botswana"], "Commonwealth"),
    "C07": (["Austria", "Germany", "France", "Italy", "Switzerland", "Target"], "euro area core"),
    "C08": (["Denmark", "Finland", "Iceland", "Norway", "Sweden"], "Nordic"),
    "C09": (["CzechRepublic", "Hungary", "Poland", "Romania", "Russia", "Slovakia", "Ukraine"], "Central and Eastern Europe"),
    "C10": (["Argentina", "Brazil", "Chile", "Mexico"], "Latin America"),
    "C11": (["Japan", "China", "HongKong", "SouthKorea", "Taiwan"], "East Asia"),
    "C12": (["India", "Indonesia", "Israel", "Singapore", "Thailand", "Turkey", "WeekendsOnly"], "South Asia and Middle East"),
}

for _pid, (_cals, _label) in GROUPS.items():
    def _f(cx, cals=_cals):
        for c in cals:
            check_calendar(cx, c)
        if "France" in cals:
            # Ascension Thursday and Whit Monday are moveable
            cs, where = closed_sets(cx, "France")
            want = calref.france_movable()
            cx.ob("France/Settlement:moveable-feasts", cs["Settlement"] == want, diff_text(cs["Settlement"], want), where)
    prop(_pid, RULE, "every calendar of the group (%s), every market of it, every day of the range" % _label, floor=sum(len(calref.rules(c)) for c in _cals),
         assumptions=[RANGE, "announced (not rule-based) closures are those of spec/holidays.json"])(_f)


@prop("C01", "day-set abstract interpretation: (Saturday or Sunday) is a subset of the closed set; is_weekend equals the weekday test", "all calendar implementations, all markets", floor=60, assumptions=[RANGE])
def weekends(cx):
    cx.same("time::calendars::Calendar::is_weekend", "verif_spec::cal::is_weekend")
    for cal, im in sorted(impls(cx).items()):
        if cal == "JointCalendar":
            continue

        def go():
            cs, where = closed_sets(cx, cal)
            for m, s in cs.items():
                allowed = 0
                if cal == "Russia" and m == "Exchange":
                    allowed = calref.residual("Russia", "Exchange")[1]      # announced working weekends
                bad = calref.WEEKEND & ~s & ~allowed
                cx.ob("%s/%s" % (cal, m or "default"), bad == 0, "weekend days treated as business days: " + ", ".join(map(str, days.dates(bad)[:6])), where)
        cx.guard(cal, go, cal)
        over = sorted(set(im["items"]) & {"is_weekend", "is_holiday", "adjust", "advance", "business_days_between", "end_of_month", "last_day_of_month"})
        cx.ob(cal + ":inherits", not over, "the implementation replaces the shared " + ", ".join(over), im["file"])


@prop("C02", "constant evaluation of the table lookup at every year against the computus", "each year 1901-2199 of both Easter tables", floor=598)
def easter(cx):
    for name, f, tag in [("easter_monday", calref.easter, "western"), ("orthodox_easter_monday", calref.orthodox, "orthodox")]:
        b = cx.fn("time::calendars::Calendar::" + name)
        for y in range(1901, 2200):
            want = f(y).timetuple().tm_yday + 1

            def go():
                r, m = cx.extract(b, args=[None, num(y)])
                t = r.ret
                cx.ob("%s:%d" % (tag, y), t.op == "num" and t.args[0] == want, "Easter Monday %d is day %d of the year, the code gives %s" % (y, want, show(t)), b["path"])
            cx.guard("%s:%d" % (tag, y), go, b["path"])


@prop("C03", "value-graph equality with the union definition, for every member list and date", "the joint calendar", floor=1)
def joint(cx):
    im = impls(cx).get("JointCalendar")
    if im is None:
        raise fw.Missing("no joint calendar")
    cx.same("<time::calendars::jointcalendar::JointCalendar as time::calendars::Calendar>::is_business_day", ["verif_spec::cal::" + n for n in ("joint", "joint_all", "joint_any", "joint_fold", "joint_fold_rev")], key="JointCalendar")
    over = sorted(set(im["items"]) & {"is_weekend", "is_holiday", "adjust", "advance", "business_days_between", "end_of_month", "last_day_of_month"})
    cx.ob("JointCalendar:inherits", not over, "the implementation replaces the shared " + ", ".join(over), im["file"])


def trait(cx, *names):
    for n in names:
        cx.same("time::calendars::Calendar::" + n, "verif_spec::cal::" + n)
        for cal, im in sorted(impls(cx).items()):
            if n in im["items"]:
                b = cx.p.bodies[im["items"][n]]
                cx.same(b["path"], "verif_spec::cal::" + n, key="%s::%s" % (cal, n))


VG = "gated value-graph equality (global value numbering over MIR with symbolic evaluation of loops) with the reference definition, calendars left abstract"


@prop("C13", VG, "adjust for the seven conventions", floor=1)
def adjust(cx):
    trait(cx, "adjust")


@prop("C14", VG, "advance by days, weeks, months, years", floor=1)
def advance(cx):
    trait(cx, "advance")


@prop("C15", VG, "business-day counts", floor=1)
def bdb(cx):
    trait(cx, "business_days_between")


@prop("C16", VG, "month ends, holiday complement, date decomposition", floor=4)
def eom(cx):
    trait(cx, "end_of_month", "last_day_of_month", "is_holiday", "naive_date_to_dkmy")
