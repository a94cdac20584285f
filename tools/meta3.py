MC = "src/models/common"
MFX = "src/models/forex"
WHYM = "Tests compare a handful of parameter sets with recorded or published numbers, within tolerances."
p("M01", "Closed-form prices on a forward",
  "Normal-model calls and puts are the Bachelier formula in the total variance and Black calls and puts the discounted Black formula in volatility and time; where the variance, volatility or time is not positive they are the (discounted) intrinsic value. The normal model's vega is the derivative with respect to total variance, zero without variance.",
  "every forward, strike, volatility, time and discount factor", WHYM, [MC + "/bachelier.rs", MC + "/black_scholes.rs"], [("formulas", MC + "/black_scholes.rs, bachelier.rs")], technique=VG, note=NVG)
p("M02", "Black put-call parity",
  "For every forward, strike, volatility, time and discount factor, the Black call minus the put is the discounted difference of forward and strike, in the degenerate branches too.",
  "all real inputs", "A relation between two calls over all inputs.", [MC + "/black_scholes.rs"], [("pricer", MC + "/black_scholes.rs")], technique="self-composition over extracted value graphs", note=NVG)
p("M03", "Implied volatility",
  "The implied volatility is found by bisection between 1e-8 and 5 on the price of the requested option side, stopping when the price is within tolerance or the bracket below 1e-12, after at most 200 halvings. A price below the one at the lowest volatility or above the one at the highest, beyond the tolerance, has none.",
  "every target price, forward, strike, time, discount factor and tolerance", WHYM, [MC + "/black_scholes.rs"], [("inversion", MC + "/black_scholes.rs bs_implied_vol")], technique=VG, note=NVG)
p("M04", "Standard normal functions",
  "The cumulative, density and inverse cumulative functions are those of the normal distribution with mean zero and deviation one.",
  "every argument", WHYM, ["src/math/normal.rs"], [("wrappers", "src/math/normal.rs")], technique=VG, note=NVG + " The distribution itself is a dependency's.")
p("M05", "Moments of the square-root variance process",
  "Mean and variance at a time are the closed forms of the process, the start value and zero at or before time zero. The expected square root is the Poisson-weighted series of chi moments, summed until its term is relatively below tolerance, with the deterministic limit for vanishing volatility of variance and the second-order limit far from zero; its exponential proxy is exact at time zero and at infinity.",
  "every parameter set, time and tolerance", WHYM, [MC + "/cir.rs"], [("moments", MC + "/cir.rs CirProcess")], technique=VG, note=NVG)
p("M06", "One step of the scalar processes",
  "A Brownian step adds drift times time plus volatility times root time times one normal draw; a geometric step multiplies by the exponential with the half-variance correction; a square-root step is the full-truncation Euler step, never negative. Each simulator starts at its initial value and draws only from a generator seeded with the seed it was given.",
  "every state, time, step and seed", WHYM, [MC + "/simulation.rs", MC + "/cir.rs"], [("steps", MC + "/simulation.rs, cir.rs SimulationModel::step")], over=("histories",), technique=VG, note=NVG)
p("M07", "Path simulation visits and records every observation date",
  "Each path starts afresh from the initial state and is stepped in order over the distinct dates of the uniform grid and the observation dates, at the mid time of each stretch of positive length; the state is recorded at every observation date, in date order, also when dates repeat or share a year fraction. Reading a date that is not an observation gives nothing.",
  "every model, date list, path count, step and day count", "Tests run a few well-separated dates on Actual/365.", [MC + "/simulation.rs"], [("runner", MC + "/simulation.rs simulate_at_dates"), ("reading", MC + "/simulation.rs DatedPaths")], over=("histories",), technique=VG, note=NVG)
p("M08", "Calibration inputs read off the volatility surface",
  "A smile strip carries the Actual/365 time from valuation to expiry, the given forward, the strikes in the given order and the surface's volatility at each; any failing lookup is returned. The targets for each calibrator pair every strike with its own volatility.",
  "every surface, expiry and strike list", WHYM, [MFX + "/market_data.rs"], [("strip", MFX + "/market_data.rs")], technique=VG, note=NVG)
p("M09", "European prices from a characteristic function",
  "Calls and puts are the discounted cosine series: for each of the terms, the real part of the shifted characteristic function at multiples of pi over the range width times the closed-form payoff coefficient over the paying part of the range, the first term halved; a strike outside the range counts as its nearest end. By default there are 128 terms on the log forward plus and minus ten standard deviations, read from the model's own forward, long-run variance and expiry.",
  "every characteristic function, range, term count, strike and discount factor", WHYM, [MC + "/cos_pricer.rs"], [("pricer", MC + "/cos_pricer.rs CosPricer::call, put, new, with_range, with_n_terms")], technique=VG, note=NVG + " That the series converges to the price is not decided.")
p("M10", "Downhill simplex minimisation",
  "From the start point and one shifted vertex per coordinate the search replaces the worst vertex by its reflection, expansion or contraction through the centroid of the others, or halves all vertices towards the best, by the textbook comparisons. It stops once both the value spread and the vertex spread are below their tolerances or the iteration limit is reached, and returns the best vertex, its value, the number of iterations and whether it converged.",
  "every objective, start point and options", "Tests minimise a few smooth bowls.", ["src/math/optimize.rs"], [("search", "src/math/optimize.rs nelder_mead"), ("defaults", "src/math/optimize.rs NelderMeadOptions::default")], technique=VG, note=NVG + " The objective is an arbitrary pure function; that the search finds the minimum is not decided.")
MIR_ = "src/models/interestrate"
p("M11", "Mean-reverting short rate: variances, bonds and steps",
  "The conditional variance of the short rate and of the logarithm of a bond over an interval, the bond duration and the bond price given the current rate and the two discount factors are the closed forms of the one-factor Gaussian model, with their limits for vanishing reversion. A step is the Euler step towards the level in force at that time with one normal draw, started at the given rate from a generator seeded with the given seed.",
  "every reversion speed, volatility, rate and time", WHYM, [MIR_ + "/hull_white.rs"], [("closed forms", MIR_ + "/hull_white.rs HullWhite1F"), ("step", MIR_ + "/hull_white.rs HullWhiteSimulator")], technique=VG, note=NVG)
p("M12", "Implied volatility of the stochastic-volatility smile model",
  "The implied volatility at a strike is the asymptotic formula in level, elasticity, correlation and volatility of volatility, with the log-moneyness series in the denominator, the maturity correction, and the limit of the moneyness ratio near the money; at the money it is the reduced formula. Parameters outside their domain are refused.",
  "every admissible parameter set, forward, strike and maturity", WHYM, [MFX + "/sabr.rs"], [("smile", MFX + "/sabr.rs hagan_implied_vol, hagan_atm_vol"), ("domain", MFX + "/sabr.rs SabrParams::new")], technique=VG, note=NVG + " The second-order coefficient below 1e-8, beyond double precision, is accepted with either sign.")
p("M13", "Steps of the stochastic-volatility simulators",
  "Each step draws two normals, correlates the second with the first, moves the forward by the elastic volatility with truncation at zero and the volatility's driver by the exact lognormal step; where parameters vary, those in force at the step's time apply, the level scaling the driver included. A run starts every path at the initial forward and volatility and takes the requested number of equal steps, evaluated at mid times where parameters vary.",
  "every state, parameter set, step count and seed", WHYM, [MFX + "/sabr.rs", MFX + "/sabr_time_dependent.rs"], [("constant parameters", MFX + "/sabr.rs SabrSimulator"), ("varying parameters", MFX + "/sabr_time_dependent.rs")], over=("histories",), technique=VG, note=NVG)
p("M14", "Simulation corrected towards a local volatility",
  "At every step the paths are grouped into equal-count groups ordered by forward, the last possibly smaller, and each path's volatility is scaled by the square root of the local variance at its forward and the mid time over the model's conditional variance, the group's mean squared volatility times the elastic factor, floored at 1e-12. The step is otherwise that of the uncorrected model; 50 groups are used unless set.",
  "every local volatility, population and step count", WHYM, [MFX + "/sabr_slv.rs"], [("simulation", MFX + "/sabr_slv.rs")], over=("histories",), technique=VG, note=NVG)
p("M15", "Constant parameters equivalent to piecewise-constant ones",
  "A piecewise-constant parameter takes the value of the segment that contains the time, right ends included, and its first or last value outside. The equivalent volatility of volatility solves the matched second-moment equation by bisection and is zero where the moments leave none; the equivalent level and correlation follow from it by the closed forms, with their limits for small arguments.",
  "every pair of parameter functions on common knots and every knot time", WHYM, [MFX + "/sabr_effective.rs"], [("functions", MFX + "/sabr_effective.rs PiecewiseConstant"), ("averages", MFX + "/sabr_effective.rs effective_vol_vol, effective_term_structure, effective_correlation")], technique=VG, note=NVG)
p("M16", "Fit of one smile",
  "Level, correlation and volatility of volatility are fitted with elasticity fixed by minimising the sum of squared differences of model and market volatilities in unconstrained coordinates, with a fixed penalty where a parameter or a model volatility is unusable. The reported error is the root of the mean squared difference at the optimum, and the model smile is the formula at each strike.",
  "every smile, start and optimiser setting", WHYM, [MFX + "/sabr_calibrator.rs"], [("fit", MFX + "/sabr_calibrator.rs calibrate"), ("interface", MFX + "/sabr_calibrator.rs targets_from_grid, model_implied_vols, SabrSmileCalibrator")], technique=VG, note=NVG + " The minimiser is M10's; that it finds the minimum is not decided.")
p("M17", "Fit of a surface by piecewise-constant parameters",
  "Every pillar is first fitted as a constant-parameter smile. Then, pillar by pillar and keeping earlier segments, the segment's volatility of volatility and level are found by bisection so that the equivalent constants match the pillar's fit, and the segment's correlation is solved from the weighted sum of the correlations stored so far, limited to plus or minus 0.999. The diagnostics carry each pillar's smile error and the root mean square mismatch of the three equivalents, and the surface error is the largest smile error.",
  "every list of pillars", "Tests fit one synthetic surface in which no correlation is limited.", [MFX + "/sabr_time_dependent_calibrator.rs"], [("fit", MFX + "/sabr_time_dependent_calibrator.rs")], technique=VG, note=NVG)
p("M18", "Local variance from a volatility grid",
  "At every grid node the local variance is twice the time slope plus carry terms over the squared strike times the strike curvature of the call prices implied by the grid, by central differences inside and one-sided ones at the edges, the implied variance where that ratio is unusable, and kept between 1% and 200% volatility. Between nodes it is bilinear, outside flat.",
  "every grid of at least three expiries and strikes, spot and rates", WHYM, [MFX + "/dupire_local_vol.rs"], [("grid", MFX + "/dupire_local_vol.rs build"), ("lookup", MFX + "/dupire_local_vol.rs DupireLocalVol")], technique=VG, note=NVG)
p("M19", "Correlated steps of spot, variance and two short rates",
  "The four drivers are correlated by the lower-triangular factor of the correlation matrix, which exists exactly when every pivot is positive; without it no simulator is built. A step draws four normals and moves the spot log-Euler, the variance by full truncation and both rates towards their levels in force, the foreign one with the quanto drift; every path starts at the model's initial values with a generator seeded as asked.",
  "every parameter set, state, step and seed", WHYM, [MFX + "/fx_hhw.rs"], [("factor", MFX + "/fx_hhw.rs Correlation4x4"), ("step", MFX + "/fx_hhw.rs FxHhwSimulator")], over=("histories",), technique=VG, note=NVG)
p("M20", "Steps of a foreign stock on the currency model",
  "A step draws six normals: four drive the currency model as on its own, one is mixed with the spot's driver for the stock and one with the stock's for the stock variance. The stock moves log-Euler at the foreign rate with the quanto correction, its variance by full truncation with the same change of measure; correlations beyond one in size are refused.",
  "every parameter set, state, step and seed", WHYM, [MFX + "/fx_hhw_stock.rs"], [("step", MFX + "/fx_hhw_stock.rs FxHhwStockSimulator")], over=("histories",), technique=VG, note=NVG)
p("M21", "Characteristic function of the forward with stochastic rates",
  "The characteristic function of the log forward is the exponential of drift, spot and variance terms: the spot term is linear, the variance term the closed form of the square-root process, and the drift term the Simpson integral, over an even number of intervals, of the linearised drift with the expected root of variance and both bond durations taken at calendar time. By default 128 intervals are used.",
  "every parameter set, expiry, argument and even interval count", WHYM, [MFX + "/fx_hhw1_chf.rs"], [("components", MFX + "/fx_hhw1_chf.rs FxHhw1ForwardChf::components"), ("value", MFX + "/fx_hhw1_chf.rs evaluate")], technique=VG, note=NVG + " The branch cut of the complex root follows the standard library.")
p("M22", "Smile fit with stochastic variance and rates",
  "Reversion, volatility and level of variance, its start and its correlation with the spot are fitted by minimising the sum of squared differences between model and market implied volatilities of calls, in coordinates that keep them admissible, above a reversion floor and, if asked, below a bound; a strike without implied volatility costs a fixed penalty. The reported error is the root mean square at the optimum; strike prices use the model's own forward and domestic discounting.",
  "every smile, start, floor, bound and optimiser setting", WHYM, [MFX + "/fx_hhw_calibrator.rs"], [("fit", MFX + "/fx_hhw_calibrator.rs calibrate, calibrate_bounded"), ("smile", MFX + "/fx_hhw_calibrator.rs model_implied_vols, price_call")], technique=VG, note=NVG + " The minimiser is M10's, the pricer M09's, the inversion M03's.")
p("M23", "Tenor, admissibility and frozen weights of the forward-rate model",
  "A tenor has one more date than rates, starts no earlier than today and increases; a time belongs to the period that ends at the first date not before it. Model parameters are admissible exactly when every list has the tenor's length, correlation matrices are square with unit diagonal and symmetric within 1e-12, correlations are at most one in size, and reversion, volatility of volatility and variance are positive. The frozen bond weights, both variance coefficients and the cross coefficient are sums over the rates still alive.",
  "every tenor, parameter set, time and first live rate", WHYM, [MFX + "/fx_hlmm.rs"], [("tenor", MFX + "/fx_hlmm.rs LiborTenor"), ("admissibility", MFX + "/fx_hlmm.rs validate"), ("coefficients", MFX + "/fx_hlmm.rs psi, compute_a_d, compute_a_f, compute_f_linearised")], technique=VG, note=NVG)
p("M24", "Characteristic function of the forward-rate model",
  "Time to expiry is cut at the tenor dates before it; on each stretch the weights are those of the rates alive at its middle. The exponent of each rate variance advances by the closed Riccati solution, the drift exponent collects the closed integrals of all three variances and the Simpson integral of the cross terms at calendar time, and the value at an argument is the exponential at the log spot and initial variances. By default 32 intervals per stretch are used.",
  "every admissible parameter set, expiry, argument and even interval count", WHYM, [MFX + "/fx_hlmm1_chf.rs"], [("stretches", MFX + "/fx_hlmm1_chf.rs with_simpson_steps"), ("components", MFX + "/fx_hlmm1_chf.rs components, evaluate")], technique=VG, note=NVG + " Branch cuts of the complex root and logarithm follow the standard library.")
p("M25", "Smile fit of the forward-rate model",
  "Reversion, volatility, level and start of the spot variance and its spot correlation are fitted by minimising the sum of squared differences between model and market implied volatilities, in coordinates that keep them admissible; inadmissible parameters and strikes without implied volatility cost a fixed penalty. Discounting compounds the tenor rates up to the expiry, part of a period included, and the last rate continuously beyond the tenor; the forward is the spot.",
  "every smile, start, floor, expiry and optimiser setting", WHYM, [MFX + "/fx_hlmm_calibrator.rs"], [("fit", MFX + "/fx_hlmm_calibrator.rs calibrate"), ("discounting", MFX + "/fx_hlmm_calibrator.rs discount_factor")], technique=VG, note=NVG + " The minimiser is M10's, the pricer M09's, the inversion M03's.")
p("M26", "Tenor, decay, volatility and admissibility of the forward market model",
  "A tenor has one more date than rates, starts no earlier than today and increases; the period of a time is the first that ends at or after it, one past the last beyond the tenor. A rate's decay is one before its period, zero after it and linear inside; its volatility is the constant, the scheduled step value in force or the closed form equivalent to a Gaussian short rate, scaled by the displaced level. Models and schedules of wrong shape, correlations that are not symmetric with unit diagonal, negative volatilities and displacements outside zero and one are refused.",
  "every tenor, time, rate, schedule and displacement", WHYM, [MIR_ + "/fmm.rs"], [("tenor and decay", MIR_ + "/fmm.rs FmmTenor, LinearDecay"), ("volatility", MIR_ + "/fmm.rs Fmm, VolSchedule")], technique=VG, note=NVG)
p("M27", "Steps of the forward market model",
  "The drivers are correlated by the lower-triangular factor of the correlation matrix, which exists exactly when every pivot is positive. A step moves every rate not yet fixed by its frozen drift over the rates alive and its decayed volatility at the middle of the step, accumulates each rate's scaled variance up to its end date, moves the driver of the running period when the step starts strictly inside it, and takes the period-start snapshots when the step ends in a later period. Every path starts from the initial rates, with a generator seeded as asked.",
  "every model, state, step and seed", WHYM, [MIR_ + "/fmm.rs"], [("factor", MIR_ + "/fmm.rs cholesky"), ("step", MIR_ + "/fmm.rs FmmSimulator")], over=("histories",), technique=VG, note=NVG + " The step itself is compared by evaluation of the extracted graphs where the structural proof is open.")
p("M28", "Bonds and bank account of the forward market model",
  "A bond over the first part of a future period and a bond inside the running period are the closed forms in the rate, the initial curve, the decay over the part and the accumulated variance. A bond over several periods is the first part, the simple compounding of the whole periods between and the last part; the bank account is the compounding of all periods begun times the bond to the end of the running one.",
  "every model, state, maturity and flat curve", WHYM, [MIR_ + "/fmm.rs"], [("stubs", MIR_ + "/fmm.rs back_stub_forward_bond, front_stub_bond"), ("bonds", MIR_ + "/fmm.rs bond_price, bank_account")], technique=VG, note=NVG)
p("M29", "Admissibility and weights of the currency model on backward-looking rates",
  "Parameters are admissible exactly when every list has the tenor's length, rate correlations are square with unit diagonal and symmetric within 1e-12, correlations are at most one in size, reversion, volatility of volatility and variance are positive and rate volatilities finite and not negative. The bond weights decay with each rate's decay factor; the variance coefficients and the cross coefficient are sums over the rates still alive.",
  "every tenor, parameter set, time and first live rate", WHYM, [MFX + "/fx_fmm.rs"], [("admissibility", MFX + "/fx_fmm.rs validate"), ("coefficients", MFX + "/fx_fmm.rs psi_at, compute_a_d, compute_a_f, compute_f_linearised")], technique=VG, note=NVG)
p("M30", "Characteristic function, currency model on backward-looking rates",
  "Time to expiry is cut at the tenor dates before it and each stretch into equal parts; on each part the weights are those at its middle. The exponent of each rate variance advances by the closed Riccati solution, the drift exponent collects the closed integrals of all three variances and the Simpson integral of the cross terms with decay at calendar time, and the value is the exponential at the log spot and initial variances. By default one part and 32 intervals are used.",
  "every admissible parameter set, expiry, argument, part count and even interval count", WHYM, [MFX + "/fx_fmm1_chf.rs"], [("parts", MFX + "/fx_fmm1_chf.rs with_resolution"), ("components", MFX + "/fx_fmm1_chf.rs components, evaluate")], technique=VG, note=NVG + " Branch cuts of the complex root and logarithm follow the standard library.")
p("M31", "Smile fit of the currency model on backward-looking rates",
  "Reversion, volatility, level and start of the spot variance and its spot correlation are fitted by minimising the sum of squared differences between model and market implied volatilities, in coordinates that keep them admissible; inadmissible parameters and strikes without implied volatility cost a fixed penalty. Discounting compounds the tenor rates up to the expiry, part of a period included, and the last rate continuously beyond the tenor; the forward is the spot.",
  "every smile, start, floor, expiry and optimiser setting", WHYM, [MFX + "/fx_fmm_calibrator.rs"], [("fit", MFX + "/fx_fmm_calibrator.rs calibrate"), ("discounting", MFX + "/fx_fmm_calibrator.rs discount_factor")], technique=VG, note=NVG + " The minimiser is M10's, the pricer M09's, the inversion M03's.")
p("M32", "Steps of the currency model on backward-looking rates",
  "The joint correlation is ordered spot, variance, domestic rates, foreign rates, with the cross block symmetrised, and drivers are mixed by its lower-triangular factor, which exists exactly when every pivot is positive. A step moves the spot log-Euler at the difference of the running rates, the variance by full truncation, both curves as in the single-currency model, the foreign one with the quanto drift, and both sets of accumulators and snapshots. Every path starts from the initial values with a generator seeded as asked; inadmissible parameters give no simulator.",
  "every parameter set, state, step and seed", WHYM, [MFX + "/fx_fmm_simulator.rs"], [("correlation", MFX + "/fx_fmm_simulator.rs build_joint_correlation, cholesky"), ("step", MFX + "/fx_fmm_simulator.rs FxFmmSimulator")], over=("histories",), technique=VG, note=NVG + " The step itself is compared by evaluation of the extracted graphs where the structural proof is open.")
