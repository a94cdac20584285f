"""FX: pairs, forward points, vol surface, forwards, options, market context."""
from props import prop
import fw

VG = "gated value-graph equality (global value numbering over MIR, loops as canonical recurrences) with the reference definition, for every input"
B = "derivatives::forex::basic::FXUnderlying::"
FX = "<derivatives::forex::%s as derivatives::forex::basic::FXDerivatives>::%s"
GF = "markets::forex::quotes::forwardpoints::FXForwardHelper::get_forward"
Y = "markets::termstructures::yieldcurve::YieldTermStructure::"
GS = "markets::termstructures::yieldcurve::YieldTermMarketData::get_stripped_curve"
SURF = "markets::forex::quotes::volsurface::"
OP = [GF, Y + "discount", B + "calendar"]


@prop("F01", VG, "currencies, points scale, spot lag, cut-off and effective date of every pair", floor=9)
def pairs(cx):
    for a, b in [("frn_currency", "frn"), ("dom_currency", "dom"), ("forward_points_converter", "points_divisor"), ("settles", "settles"), ("cutoff_utc", "cutoff")]:
        cx.same(B + a, "verif_spec::fx::" + b, key=a)
    cx.same(B + "effective_valuation_date", "verif_spec::fx::effective", key="effective_valuation_date", opaque=[B + "calendar", B + "cutoff_utc"])
    for a, b in [("forward_helper", "forward_helper"), ("settlement_date", "pair_settlement"), ("near_date", "pair_near")]:
        cx.same(B + a, "verif_spec::fx::" + b, key=a)


@prop("F02", VG, "joint calendar of a pair", floor=1)
def joint(cx):
    cx.same("verif_spec::fx::code_pair_open", "verif_spec::fx::pair_open", key="joint calendar")


@prop("F03", VG, "forward points between quoted settlement dates", floor=1)
def points(cx):
    p = "markets::forex::quotes::forwardpoints::verif_fwdpts::"
    cx.same(GF, [p + "get_forward", p + "get_forward_guarded"], key="get_forward", opaque=["time::period::Period::settlement_date_with_lag"])


@prop("F04", VG, "FX forward value and sensitivities", floor=4)
def forward(cx):
    for a, b in [("mtm", "forward_mtm"), ("delta", "forward_delta"), ("gamma", "forward_zero"), ("vega", "forward_zero")]:
        cx.same(FX % ("forward::FXForward", a), "verif_spec::fx::" + b, key=a, opaque=OP)


@prop("F05", VG, "FX option premium, in every regime of the inputs", floor=2)
def premium(cx):
    cx.same("derivatives::forex::option::black_scholes", "verif_spec::fx::black", key="black_scholes")
    cx.same(FX % ("option::FXVanillaOption", "mtm"), "verif_spec::fx::option_mtm", key="mtm", opaque=OP)


@prop("F06", VG, "FX option delta, gamma, vega", floor=3)
def greeks(cx):
    for a in ("delta", "gamma", "vega"):
        cx.same(FX % ("option::FXVanillaOption", a), "verif_spec::fx::option_" + a, key=a, opaque=OP)


@prop("F07", "self-composition: the value graph of call minus put rewrites to the discounted forward minus strike, for every input", "put-call parity of the FX pricer", floor=1)
def parity(cx):
    cx.same("verif_spec::fx::parity", "verif_spec::fx::parity_value", key="parity")


@prop("F08", VG, "volatility read from the FX surface", floor=1)
def vol(cx):
    cx.same(SURF + "FXVolSurface::volatility", SURF + "verif_fxvol::volatility", key="volatility")


@prop("F09", VG, "construction of the FX vol surface from quotes, with every rejected input", floor=1)
def surface(cx):
    cx.same(SURF + "FXVolSurface::new", SURF + "verif_fxvol::new", key="new", opaque=[SURF + "normalise_quotes"])


@prop("F11", VG, "resolution of a pillar's quotes per delta", floor=1)
def quotes(cx):
    cx.same(SURF + "normalise_quotes", SURF + "verif_fxvol::quotes", key="normalise_quotes")


@prop("F10", VG, "FX market context", floor=8)
def context(cx):
    m = "markets::forex::market_context::FxMarketContext::"
    op = [GS, GF, Y + "zero_rate", Y + "discount", SURF + "FXVolSurface::volatility", SURF + "FXVolSurface::new"]
    for a, b in [("forward_at", "forward_at"), ("rate_d", "rate_d"), ("rate_f", "rate_f"), ("discount_d", "discount_d"), ("discount_f", "discount_f"), ("implied_vol", "implied_vol"), ("for_linear", "for_linear"), ("from_raw_quotes", "from_raw")]:
        cx.same(m + a, "verif_spec::mkt::" + b, key=a, opaque=op)
