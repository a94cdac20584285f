"""Rates derivatives: index table, swaps, caps and floors, caplet volatilities, futures pillars."""
from props import prop
import fw

VG = "gated value-graph equality (global value numbering over MIR, loops as canonical recurrences) with the reference definition, for every input"
Y = "markets::termstructures::yieldcurve::YieldTermStructure::"
SW = "derivatives::interestrate::swap::"
C = "verif_spec::ir::"
IR = "<derivatives::interestrate::%s as derivatives::interestrate::basic::IRDerivatives>::%s"
IQ = "<%s as markets::termstructures::yieldcurve::InterestRateQuote>::%s"
L = SW + "InterestRateSwapLeg::"
EF, SCH = L + "effective_date", L + "generate_schedule"
BA = ["models::common::bachelier::bachelier_call", "models::common::bachelier::bachelier_put"]
V = "markets::interestrate::volsurface::"
CV = V + "IRNormalVolSurface::caplet_volatility"
TV = "derivatives::interestrate::basic::caplet_total_variance"
F = "markets::termstructures::yieldcurve::ratehelper::FuturesRate"
S = "swap::InterestRateSwap"
K = "cap::CapFloor"
OPS = [SCH, EF, Y + "discount", Y + "shifted_discount"]
OPK = [Y + "shifted_discount", CV, TV] + BA


@prop("R01", VG, "conventions of every interest rate index", floor=1)
def index(cx):
    cx.same("markets::interestrate::interestrateindex::InterestRateIndex::from_enum", C + "index", key="from_enum")


@prop("R02", VG, "swap leg schedules", floor=4)
def schedule(cx):
    cx.same(EF, C + "effective", key="effective_date")
    cx.same(L + "is_fixe_leg", C + "is_fixed", key="is_fixe_leg")
    cx.same(L + "get_reference_rate", C + "reference_rate", key="get_reference_rate")
    cx.same(SCH, C + "schedule", key="generate_schedule", opaque=[EF], facts=fw.nonempty())


@prop("R03", VG, "present value of a swap", floor=3)
def swap_value(cx):
    cx.same(SW + "InterestRateSwap::npv", C + "npv", key="npv", opaque=OPS)
    cx.same(SW + "InterestRateSwap::currency", C + "swap_currency", key="currency", opaque=OPS)
    cx.same(IR % (S, "mtm"), C + "swap_mtm", key="mtm", opaque=OPS)


@prop("R04", VG, "rate sensitivities of a swap", floor=3)
def swap_risk(cx):
    for a in ("dv01", "gamma", "vega"):
        cx.same(IR % (S, a), C + "swap_" + a, key=a, opaque=OPS)


@prop("R05", VG, "settlement and maturity dates of a swap quote", floor=2)
def swap_dates(cx):
    cx.same(IQ % (SW + "InterestRateSwap", "settle_date"), C + "swap_settle", key="settle_date", opaque=OPS)
    cx.same(IQ % (SW + "InterestRateSwap", "maturity_date"), [C + "swap_maturity", C + "swap_maturity_any"], key="maturity_date", opaque=OPS)


@prop("R06", VG, "present value of a cap or floor", floor=2)
def cap_value(cx):
    cx.same(TV, C + "variance", key="caplet_total_variance")
    cx.same(IR % (K, "mtm"), C + "cap_mtm", key="mtm", opaque=OPK)


@prop("R07", VG, "sensitivities of a cap or floor", floor=3)
def cap_risk(cx):
    for a in ("dv01", "gamma", "vega"):
        cx.same(IR % (K, a), C + "cap_" + a, key=a, opaque=OPK)


@prop("R08", VG, "modified duration from value and dv01", floor=2)
def duration(cx):
    for p, f in (("swap", S), ("cap", K)):
        cx.same(C + p + "_duration_code", C + p + "_duration", key=p, opaque=[IR % (f, "mtm"), IR % (f, "dv01")])


@prop("R09", "value-graph equality of the difference of two prices with the parity formula, for every input", "cap minus floor is the swap on the same schedule", floor=1)
def parity(cx):
    cx.same(C + "cap_floor_gap", C + "cap_floor_parity", key="cap - floor")


@prop("R10", VG, "caplet volatility read from the pillars", floor=1)
def caplet_vol(cx):
    cx.same(CV, C + "caplet_vol", key="caplet_volatility")


@prop("R11", VG, "caplet volatility stripping", floor=2)
def strip(cx):
    op = [Y + "discount", TV] + BA
    one = V + "strip_one_strike"
    m = V + "verif_strip"
    if cx.p.fn(one) is not None:
        cx.same(one, m + "::column", key="one strike", opaque=op)
        cx.same(V + "IRNormalVolSurface::rebuild", m + "2::rebuild", key="surface", opaque=op + [one])
    else:
        cx.same(V + "IRNormalVolSurface::rebuild", m + "::rebuild", key="surface", opaque=op)


@prop("R12", VG, "par swap zero rate", floor=1)
def par(cx):
    n = SW + "InterestRateSwap::npv"
    cx.same(SW + "InterestRateSwap::solve_zero_rate", C + "solve", key="solve_zero_rate", opaque=[n])


@prop("Y07", VG, "zero rate of a futures pillar", floor=2)
def fut_zero(cx):
    op = [F + "::discount", IQ % (F, "maturity_date")]
    ne = fw.nonempty("len(a3)")
    cx.same(F + "::zero_rate", [C + "fut_zero_chained", C + "fut_zero"], key="zero_rate", opaque=op, facts=ne)
    cx.same(F + "::zero_rate", C + "fut_zero", key="zero_rate(first futures)", opaque=op, facts=ne)


@prop("O01", VG, "observers are notified and updated", floor=7)
def observers(cx):
    H = "markets::termstructures::yieldcurve::"
    W = "markets::forex::quotes::forwardpoints::"
    for m, t, s in [(H, "YieldTermMarketData", "obsyts"), (V, "IRCapMarketData", "obscap"), (W, "FXForwardHelper", "obsfwd")]:
        cx.same("<%s%s as patterns::observer::Observable>::attach" % (m, t), m + "verif_%s::attach" % s, key=t + "::attach")
        cx.same("<%s%s as patterns::observer::Observable>::notify_observers" % (m, t),
                [m + "verif_%s::notify" % s] + ([m + "verif_obsfwd::notify_pruned"] if s == "obsfwd" else []), key=t + "::notify_observers")
    cx.same("<%sYieldTermStructure as patterns::observer::Observer>::update" % H, H + "verif_obsyts::update", key="YieldTermStructure::update",
            opaque=[H + "YieldTermMarketData::get_stripped_curve"])
