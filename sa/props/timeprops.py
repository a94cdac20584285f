"""Periods, day counts, IMM dates, frequencies."""
from props import prop
from term import *
import term as tm

VG = "gated value-graph equality (global value numbering over MIR, loops as canonical recurrences) with the reference definition, for every input"
DCN = "<time::daycounters::%s::%s as time::daycounters::DayCounters>::%s"


def dc(cx, file, ty, days=None, yf=None):
    for m, s in (("day_count", days), ("year_fraction", yf)):
        if s:
            cx.same(DCN % (file, ty, m), ["verif_spec::dc::" + x for x in s], key="%s::%s" % (ty, m))


@prop("T01", VG, "day counts and year fractions of the Actual/N family", floor=8)
def actual(cx):
    dc(cx, "actual360", "Actual360", ["act_days"], ["act360"])
    dc(cx, "actual364", "Actual364", ["act_days"], ["act364"])
    dc(cx, "actual366", "Actual366", ["act_days"], ["act366"])
    dc(cx, "actual365fixed", "Actual365Fixed", ["act365_days"], ["act365_yf"])


@prop("T02", VG, "30/360 conventions and 30/365", floor=4)
def thirty(cx):
    dc(cx, "thirty360", "Thirty360", ["t360_days"], ["t360_yf"])
    dc(cx, "thirty365", "Thirty365", ["t365_days"], ["t365_yf"])


@prop("T03", VG, "Actual/Actual: ISDA, Euro, ISMA", floor=2)
def actact(cx):
    dc(cx, "actualactual", "ActualActual", ["act_days"], ["actact"])


@prop("T04", VG, "Business/252 over any calendar", floor=2)
def b252(cx):
    dc(cx, "business252", "Business252", ["b252_days", "b252_days_direct"], ["b252_yf", "b252_yf_direct"])


PADD = "time::period::<impl std::ops::%s<time::period::Period> for %s>::%s"


@prop("T05", VG, "date plus/minus period, integer times period, including the out-of-range error", floor=3)
def period(cx):
    cx.same(PADD % ("Add", "chrono::NaiveDate", "add"), "verif_spec::period::add", assume=False, key="date + period")
    cx.same(PADD % ("Sub", "chrono::NaiveDate", "sub"), "verif_spec::period::sub", assume=False, key="date - period")
    cx.same(PADD % ("Mul", "u32", "mul"), "verif_spec::period::mul", assume=False, key="n * period")


@prop("T06", VG, "settlement and near dates of the market tenors", floor=4)
def settle(cx):
    for n in ("settlement_date", "near_date", "settlement_date_with_lag", "near_date_with_lag"):
        cx.same("time::period::Period::" + n, "verif_spec::period::" + n, key=n)


@prop("T07", VG, "IMM dates and codes", floor=5)
def imm(cx):
    for n in ("is_imm_date", "is_imm_code", "next_date", "code", "date"):
        cx.same("time::imm::IMM::" + n, "verif_spec::imm::" + n, key=n)


@prop("T08", VG, "frequency and business-day-convention tables", floor=7)
def freq(cx):
    for a, b in [("frequency::Frequency::name", "name"), ("frequency::Frequency::period", "period"), ("frequency::Frequency::from_code", "from_code"),
                 ("businessdayconvention::BusinessDayConvention::name", "bdc_name"), ("businessdayconvention::BusinessDayConvention::from_code", "bdc_from_code")]:
        cx.same("time::" + a, "verif_spec::freq::" + b, key=a)

    def once():
        f = "finquant::time::frequency::Frequency"
        r, m = cx.extract("time::frequency::Frequency::from_code", args=[mk("str", "Once")])
        i = [v["n"] for v in tm.ADTS[f]["v"]].index("Once")
        cx.ob("from_code(Once)", r.ret is variant(OPT, 1, variant(f, i)), "the code Once is read as " + show(r.ret), "time::frequency::Frequency::from_code")
    cx.guard("from_code(Once)", once)
    number = {"NoFrequency": -1, "Once": 0, "Annual": 1, "Semiannual": 2, "EveryFourthMonth": 3, "Quarterly": 4, "Bimonthly": 6, "Monthly": 12,
              "EveryFourthWeek": 13, "Biweekly": 26, "Weekly": 52, "Daily": 365, "OtherFrequency": 999}

    def numbers():
        got = {v["n"]: v["d"] for v in tm.ADTS["finquant::time::frequency::Frequency"]["v"]}
        bad = ["%s is %s, not %d" % (n, got[n], k) for n, k in number.items() if n in got and got[n] != k]
        gone = [n for n in number if n not in got]
        cx.ob("times per year", False if bad else None if gone else True, "; ".join(bad or gone), "time::frequency::Frequency")
    cx.guard("times per year", numbers)


SELF = "self-composition: the value graph of f(a,b) combined with f(b,a) (or f(b,c), f(a,c)), both taken from the code, normalises to the constant"


@prop("T09", SELF, "antisymmetry of day counts and year fractions, additivity over adjacent periods", floor=26)
def relations(cx):
    for n in ("a360", "a364", "a365", "a366", "actact", "t365"):
        cx.same("verif_spec::rel::anti_dc_" + n, "verif_spec::rel::zero_i", key="antisymmetric day count " + n)
        cx.same("verif_spec::rel::anti_yf_" + n, "verif_spec::rel::zero_f", key="antisymmetric year fraction " + n)
    for n in ("a360", "a364", "a365", "a366", "t365"):
        cx.same("verif_spec::rel::addi_dc_" + n, "verif_spec::rel::zero_i", key="additive day count " + n)
        cx.same("verif_spec::rel::addi_yf_" + n, "verif_spec::rel::zero_f", key="additive year fraction " + n)
    for n in ("euro", "italian"):
        cx.same("verif_spec::rel::anti_" + n, "verif_spec::rel::zero_i", key="antisymmetric day count 30/360 " + n)
        cx.same("verif_spec::rel::addi_" + n, "verif_spec::rel::zero_i", key="additive day count 30/360 " + n)


@prop("T10", VG, "inverse of the year fraction, for every day counter", floor=1)
def to_date(cx):
    cx.same("time::daycounters::DayCounters::year_fraction_to_date", "verif_spec::dc::to_date", key="year_fraction_to_date")
    for im in cx.p.trait_impls.get("finquant::time::daycounters::DayCounters", []):
        if "year_fraction_to_date" in im["items"]:
            cx.same(cx.p.bodies[im["items"]["year_fraction_to_date"]]["path"], "verif_spec::dc::to_date")
