"""Yield curves: zero rates, discount factors, quotes, stripping, rates context."""
from props import prop
import fw

VG = "gated value-graph equality (global value numbering over MIR, loops as canonical recurrences) with the reference definition, for every input"
H = "markets::termstructures::yieldcurve::"
Y = H + "YieldTermStructure::"
C = "verif_spec::curve::"
IQ = "<%s as markets::termstructures::yieldcurve::InterestRateQuote>::%s"
SW = "derivatives::interestrate::swap::InterestRateSwap"
O = H + "oisratehelper::OISRate"
F = H + "ratehelper::FuturesRate"
GS = H + "YieldTermMarketData::get_stripped_curve"


@prop("Y01", VG, "zero rate read from the pillars of a non-empty curve", floor=1)
def zero(cx):
    cx.same(Y + "zero_rate", C + "zero_rate", key="zero_rate", facts=fw.nonempty("len(a1.stripped_curves)"))


@prop("Y02", VG, "discount factors, shifted discount factors and forward rates from zero rates", floor=3)
def disc(cx):
    for a in ("discount", "shifted_discount", "forward_rate"):
        cx.same(Y + a, C + a, key=a, opaque=[Y + "zero_rate"])


@prop("Y03", VG, "overnight-indexed cash quotes", floor=4)
def cash(cx):
    cx.same(IQ % (O, "settle_date"), C + "ois_settle", key="settle_date")
    cx.same(IQ % (O, "maturity_date"), C + "ois_maturity", key="maturity_date")
    cx.same(O + "::zero_rate", C + "ois_zero", key="zero_rate")
    cx.same(O + "::discount", C + "ois_discount", key="discount")


@prop("Y04", VG, "futures quotes", floor=5)
def futures(cx):
    cx.same(F + "::implied_quote", C + "fut_quote", key="implied_quote")
    cx.same(IQ % (F, "settle_date"), C + "fut_settle", key="settle_date")
    cx.same(IQ % (F, "maturity_date"), C + "fut_maturity", key="maturity_date")
    cx.same("markets::interestrate::futures::InterestRateFutures::maturity_date", C + "contract_maturity", key="contract maturity")
    cx.same(F + "::discount", C + "fut_discount", key="discount")


@prop("Y05", VG, "pillars of the stripped curve, their order and their contents", floor=1)
def strip(cx):
    q = [IQ % (t, m) for t in (O, F, SW) for m in ("settle_date", "maturity_date")]
    cx.same(GS, C + "stripped", key="get_stripped_curve", opaque=q + [O + "::zero_rate", O + "::discount", F + "::zero_rate", F + "::discount", SW + "::solve_zero_rate"])


@prop("Y06", VG, "rates market context", floor=4)
def context(cx):
    m = "markets::interestrate::market_context::IrMarketContext::"
    S = "markets::interestrate::volsurface::IRNormalVolSurface::"
    op = [GS, Y + "zero_rate", Y + "discount", S + "caplet_volatility", S + "rebuild"]
    for a, b in [("rate", "rate"), ("discount", "discount"), ("caplet_vol", "caplet_vol"), ("from_raw_quotes", "ir_from_raw")]:
        cx.same(m + a, "verif_spec::mkt::" + b, key=a, opaque=op)
