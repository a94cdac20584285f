FXD = "src/derivatives/forex"
IRD = "src/derivatives/interestrate"
MF = "src/markets/forex"
YC = "src/markets/termstructures/yieldcurve"
MI = "src/markets/interestrate"
WHYV = "Value and risk tests compare a few trades with recorded numbers; other directions, notional currencies, degenerate inputs and error paths are never evaluated."

p("F01", "Currency pair conventions",
  "For every supported pair, the foreign and domestic currencies are the first and second of its name, forward points are scaled by 100 when the domestic currency is the yen and by 10000 otherwise, and spot settles after one day for USDCAD, USDMXN, USDTRY and USDRUB and after two for all others. Each pair's daily cut-off time is the published one, and a trade at or after it is dated to the next day open in both currencies. Forward helpers, settlement dates and near dates of the pair use that spot lag.",
  "all 60 pairs, every date and time", "Tests sample a few pairs; a swapped currency or wrong lag of another pair goes unnoticed.", [FXD + "/basic.rs"], [("pair tables", FXD + "/basic.rs FXUnderlying"), ("cut-off", FXD + "/basic.rs effective_valuation_date")], technique=VG, note=NVG)
p("F02", "A pair trades only when both currencies' markets are open",
  "The calendar of a currency pair is open on a day exactly when the calendars of both its currencies are open on that day, with the euro on the TARGET calendar.",
  "all 60 pairs, every date", "Tests look at one or two pairs.", [FXD + "/basic.rs"], [("pair calendar", FXD + "/basic.rs calendar")], technique=VG, note=NVG)
p("F03", "Forward points are interpolated between quoted settlement dates",
  "The forward points for a date after the valuation date are the quote settling that day, or the linear interpolation in calendar days between the two quotes settling around it; with fewer than two quotes, or a date outside the quoted settlement dates, there is none. Quotes may be given in any order.",
  "every list of quotes, date and calendar", "Tests use one sorted quote strip and a few target dates.", [MF + "/quotes/forwardpoints.rs"], [("interpolation", MF + "/quotes/forwardpoints.rs get_forward")], technique=VG, note=NVG)
p("F04", "FX forward value and delta",
  "A long forward is worth its foreign-currency notional times the outright forward minus the strike, discounted on the domestic curve to expiry; selling negates it and a domestic notional is the opposite side of the trade converted at the strike. Delta is that signed foreign notional, gamma and vega are zero, and an unquoted expiry is an error.",
  "every trade and market", WHYV, [FXD + "/forward.rs"], [("value", FXD + "/forward.rs mtm"), ("delta", FXD + "/forward.rs delta")], technique=VG, note=NVG)
p("F05", "FX option premium follows Black's formula",
  "The unit premium is the discounted Black formula on the outright forward, and the discounted intrinsic value when the total variance is not positive. The value of an option is minus the premium for a buyer and plus it for a seller, on the notional converted at the strike if domestic, expressed in the notional currency.",
  "every trade and market, including expired and zero-volatility options", WHYV, [FXD + "/option.rs"], [("premium", FXD + "/option.rs black_scholes, mtm")], technique=VG, note=NVG)
p("F06", "FX option sensitivities",
  "Delta is the signed foreign notional times N(d1) for calls and -N(-d1) for puts, gamma the discounted density over forward times deviation, zero when the variance vanishes, and vega the discounted forward times density times the root of time per volatility point, zero at expiry. A domestic notional is first converted at the strike.",
  "every trade and market", WHYV, [FXD + "/option.rs"], [("sensitivities", FXD + "/option.rs delta, gamma, vega")], technique=VG, note=NVG)
p("F07", "FX put-call parity",
  "For every forward, strike, variance and discount factor, a call minus a put is the discounted difference of forward and strike, in the zero-variance branch too.",
  "all real inputs", "A relation between two calls over all inputs.", [FXD + "/option.rs"], [("pricer", FXD + "/option.rs black_scholes")], technique="self-composition over extracted value graphs", note=NVG)
p("F08", "Reading the FX volatility surface",
  "On a pillar expiry, before the first and after the last, the volatility is that of the pillar's smile; between two pillars the total variances at the same strike are interpolated linearly in time and divided by the time to expiry. A non-positive strike or an expiry not after the valuation date is an error.",
  "every surface, expiry and strike", "Tests sample one surface at a few points.", [MF + "/quotes/volsurface.rs"], [("lookup", MF + "/quotes/volsurface.rs volatility")], technique=VG, note=NVG)
p("F09", "Building the FX volatility surface",
  "Each pillar's quotes are turned into strikes by the forward delta relation, put wings then at-the-money then call wings, and rejected unless strikes increase; the smile is the parabola through the lowest, at-the-money and highest point in normalised moneyness, plus the residual of the other points. Empty pillars, expired pillars and non-positive forwards are rejected, and pillars are ordered by expiry whatever their input order.",
  "every list of pillars and quotes", "Tests build one well-formed surface.", [MF + "/quotes/volsurface.rs"], [("construction", MF + "/quotes/volsurface.rs FXVolSurface::new")], technique=VG, note=NVG + " The reduction of raw quotes to one volatility pair per delta is F11.")
p("F11", "Resolving FX volatility quotes per delta",
  "A pillar needs exactly one at-the-money quote and at least one other, every delta strictly between 0 and one half; quotes whose deltas agree to nine decimals belong together and a later quote of a kind replaces an earlier one. Each delta takes its call and put volatilities when both are quoted, else at-the-money plus butterfly plus or minus half the risk reversal, else the pillar is rejected; the result is ordered by delta.",
  "every list of quotes", "Tests resolve three well-formed pillars.", [MF + "/quotes/volsurface.rs"], [("quote resolution", MF + "/quotes/volsurface.rs normalise_quotes")], technique=VG, note=NVG)
p("F10", "FX market context",
  "Outright forwards are spot plus forward points over 100 for a yen pair and 10000 otherwise; rates and discount factors come from the currency's own curve, volatilities from the surface. A context built from raw quotes carries the curves stripped from those quotes, the spot lag of its pair and a surface of its own pillars, and any failure in building them is returned.",
  "every context, date and strike", "Tests build one context; swapped curves or a dropped error in another are invisible.", [MF + "/market_context.rs"], [("context", MF + "/market_context.rs")], technique=VG, note=NVG)

WHYC = "Tests pin recorded numbers of one curve on one valuation date."
p("Y01", "Zero rates are read between the right pillars",
  "The zero rate for a date is interpolated linearly in calendar days between the visible pillar reached the following day and the pillar before it; up to the first visible pillar it is that pillar's rate and beyond the last pillar it is the last pillar's rate. Hidden pillars never close an interval.",
  "every non-empty list of pillars and date", WHYC, [YC + ".rs"], [("interpolation", YC + ".rs zero_rate")], technique=VG, note=NVG)
p("Y02", "Discount factors and forward rates follow from zero rates",
  "The discount factor is the exponential of minus the zero rate times the Actual/365 time from the valuation date; the shifted one adds basis points over 10000 to the rate. The forward rate over a tenor is the difference of rate times time at its ends over the difference of times.",
  "every curve, date, tenor and shift", WHYC, [YC + ".rs"], [("discounting", YC + ".rs discount, shifted_discount, forward_rate")], technique=VG, note=NVG)
p("Y03", "Cash quotes",
  "A cash quote settles after its index's settlement days and matures one index period later on the index calendar and convention; its simple rate on the index basis gives the continuously compounded zero rate over the Actual/365 time between those dates and the matching discount factor from the valuation date.",
  "every index, value and date", WHYC, [YC + "/oisratehelper.rs"], [("cash quote", YC + "/oisratehelper.rs")], technique=VG, note=NVG)
p("Y04", "Futures quotes",
  "A futures quote implies the rate 100 minus price plus convexity adjustment, over 100; it settles on the IMM date of its code and matures on the first IMM date of its contract's end month. Its discount factor is that of the nearest earlier pillar's rate to settlement, divided by one plus the implied rate times the accrual fraction.",
  "every contract, pillar list and date", WHYC, [YC + "/ratehelper.rs", MI + "/futures.rs"], [("futures", YC + "/ratehelper.rs FuturesRate")], technique=VG, note=NVG)
p("Y05", "The stripped curve contains every quote once, in order",
  "Stripping yields one pillar per cash quote in order of maturity, also when maturities coincide, then one per futures, then one per swap, each with its own settlement date, maturity, market rate, source, zero rate and discount factor. Only one-week cash quotes are hidden; each later quote is bootstrapped on the pillars already built.",
  "every set of quotes and valuation date", WHYC, [YC + ".rs"], [("stripping", YC + ".rs get_stripped_curve")], technique=VG, note=NVG)
p("Y06", "Rates market context",
  "Rates and discount factors of a context come from its curve and caplet volatilities from its surface, an absent surface being an error. A context built from raw quotes carries the stripped curve and, when cap quotes are given, a surface rebuilt on that curve; failures are returned.",
  "every context and set of quotes", WHYC, [MI + "/market_context.rs"], [("context", MI + "/market_context.rs")], technique=VG, note=NVG)
p("Y07", "Futures pillars' zero rates",
  "The zero rate of every futures pillar is minus the logarithm of its discount factor over the Actual/365 time from the valuation date to its maturity.",
  "every futures strip with at least one earlier pillar", WHYC, [YC + "/ratehelper.rs"], [("zero rate", YC + "/ratehelper.rs FuturesRate::zero_rate")], technique=VG, note=NVG)

p("R01", "Interest rate index conventions",
  "Each index has its own currency, tenor, settlement lag, calendar, convention and day count: AONIA and SONIA on Actual/365, the others on Actual/360; EURIBOR settles in two days and rolls following for day and week tenors; all others settle the same day and roll modified following.",
  "every index and tenor", "Tests look at two or three indices.", [MI + "/interestrateindex.rs"], [("table", MI + "/interestrateindex.rs from_enum")], technique=VG, note=NVG)
p("R02", "Swap leg schedules",
  "A leg without a given schedule gets duration over tenor periods: the n-th ends n payment periods after the effective date, adjusted on the leg's calendar and convention, each starts where the previous one ends, pays after the payment delay and resets the given days before its start, on the full notional. A leg with a given schedule keeps it.",
  "every leg definition and date", WHYC, [IRD + "/swap.rs"], [("schedule", IRD + "/swap.rs generate_schedule")], technique=VG, note=NVG)
p("R03", "Swap value",
  "The value is the sum over legs and periods, signed by direction, of rate times accrual times balance discounted from the pay date, plus the final balance; a fixed leg uses its coupon and a floating leg the simple forward from the curve plus spread. It is reported in the first leg's currency, and a swap without legs or any failing curve lookup is an error.",
  "every swap and curve", WHYV, [IRD + "/swap.rs"], [("value", IRD + "/swap.rs npv, mtm")], technique=VG, note=NVG)
p("R04", "Swap sensitivities",
  "DV01 is the change of value when every zero rate rises by one basis point; gamma is the second difference for the given shift and only defined for zero-rate shifts; vega is zero.",
  "every swap, curve and shift", WHYV, [IRD + "/swap.rs"], [("risk", IRD + "/swap.rs dv01, gamma, vega")], technique=VG, note=NVG)
p("R05", "Swap quote dates",
  "A swap quote settles on the effective date of its first leg and matures on the latest final accrual end of its legs; without legs both are the valuation date.",
  "every swap and date", WHYC, [IRD + "/swap.rs"], [("dates", IRD + "/swap.rs settle_date, maturity_date")], technique=VG, note=NVG)
p("R06", "Cap and floor value",
  "A cap or floor is the signed sum over its caplets of notional times accrual times discount factor times the Bachelier value on the simple forward, at the surface's volatility for the caplet. The total variance accrues to the fixing for forward-looking caplets, and with the backward-looking decay for compounded ones, also inside the accrual period; it is zero once accrual has ended.",
  "every schedule, strike, style, curve and surface", WHYV, [IRD + "/cap.rs", IRD + "/basic.rs"], [("value", IRD + "/cap.rs mtm"), ("variance", IRD + "/basic.rs caplet_total_variance")], technique=VG, note=NVG)
p("R07", "Cap and floor sensitivities",
  "DV01 is the change of value for one basis point on every zero rate, gamma the second difference for zero-rate shifts only, and vega the change of value when every caplet volatility rises by the given basis points.",
  "every cap or floor, market and shift", WHYV, [IRD + "/cap.rs"], [("risk", IRD + "/cap.rs dv01, gamma, vega")], technique=VG, note=NVG)
p("R08", "Modified duration",
  "Modified duration is minus DV01 over value, per basis point, and zero when the value vanishes.",
  "every product and market", WHYV, [IRD + "/basic.rs"], [("default method", IRD + "/basic.rs modified_duration")], technique=VG, note=NVG)
p("R09", "Normal-model put-call parity",
  "For every forward, strike and variance, the normal-model call minus the put is forward minus strike, in the zero-variance branch too.",
  "all real inputs", "A relation between two calls over all inputs.", ["src/models/common/bachelier.rs"], [("pricer", "src/models/common/bachelier.rs")], technique="self-composition over extracted value graphs", note=NVG)
p("R10", "Reading caplet volatilities",
  "The volatility for an expiry comes from the first pillar not before it, else the last; within a pillar it is linear in strike between nodes and flat outside. An empty surface or pillar is an error.",
  "every surface, expiry and strike", WHYC, [MI + "/volsurface.rs"], [("lookup", MI + "/volsurface.rs caplet_volatility")], technique=VG, note=NVG)
p("R11", "Caplet volatilities are stripped quote by quote",
  "Quotes are grouped by strike and taken in order of last fixing; each stretch beyond the previous quote gets the one volatility found by root search on the difference between the quote's repriced value, with earlier stretches held, and its market value. The surface has a pillar per distinct expiry holding every strike's latest stretch up to it, ordered by strike; a failed search is an error.",
  "every set of cap and floor quotes", WHYC, [MI + "/volsurface.rs"], [("stripping", MI + "/volsurface.rs rebuild")], technique=VG, note=NVG + " The root search is the library's; that it converges is assumed.")
p("R12", "The par rate solves the swap to zero on the trial curve",
  "The zero rate of a swap pillar is searched between 0 and 50% as the root of the swap's own value on a curve whose last pillar carries the trial rate and whose other pillars are unchanged.",
  "every swap and pillar list", WHYC, [IRD + "/swap.rs"], [("solver", IRD + "/swap.rs solve_zero_rate")], technique=VG, note=NVG)
p("O01", "Observers are notified in order",
  "Attaching adds an observer at the end; a notification updates every live observer exactly once in attachment order and returns the first failure; an update of a yield curve replaces its pillars with those stripped from the new quotes and keeps them when stripping fails or the source is not curve data.",
  "every attach and notify history", "Tests attach one or two observers.", ["src/patterns/observer.rs", YC + ".rs", MI + "/volsurface.rs", MF + "/quotes/forwardpoints.rs"], [("observers", YC + ".rs notify_observers, update")], over=("histories",), technique=VG, note=NVG)
