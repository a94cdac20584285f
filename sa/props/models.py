"""Models: closed-form prices, processes, path simulation, transforms, optimiser, local volatility."""
from props import prop
import fw

VG = "gated value-graph equality (global value numbering over MIR, loops as canonical recurrences) with the reference definition, for every input"
C = "verif_spec::prim::"
MC = "models::common::"
BS = [MC + "black_scholes::bs_call_forward", MC + "black_scholes::bs_put_forward"]
CR = MC + "cir::CirProcess::"
SIM = "<" + MC + "%s as " + MC + "simulation::SimulationModel>::%s"


@prop("M01", VG, "closed-form prices on a forward", floor=5)
def closed_forms(cx):
    for a, b in (("bachelier::bachelier_call", "bachelier_call"), ("bachelier::bachelier_put", "bachelier_put"), ("bachelier::bachelier_vega_variance", "bachelier_vega"),
                 ("black_scholes::bs_call_forward", "black_call"), ("black_scholes::bs_put_forward", "black_put")):
        cx.same(MC + a, C + b, key=b)


@prop("M02", "self-composition over extracted value graphs", "call minus put is the discounted forward minus strike", floor=1)
def parity(cx):
    cx.same(C + "black_gap", C + "black_parity", key="parity")


@prop("M03", VG, "implied volatility", floor=2)
def implied(cx):
    cx.same(BS[0].replace("bs_call_forward", "bs_implied_vol_tol"), C + "implied_tol", key="implied_vol_tol", opaque=BS)
    cx.same(BS[0].replace("bs_call_forward", "bs_implied_vol"), C + "implied", key="implied_vol", opaque=BS)


@prop("M04", VG, "normal distribution functions", floor=3)
def normal(cx):
    for a, b in (("cdf", "normal_cdf"), ("pdf", "normal_pdf"), ("inverse_cdf", "normal_inverse")):
        cx.same("math::normal::" + a, C + b, key=a)


@prop("M05", VG, "moments of the square-root process", floor=7)
def cir(cx):
    for a in ("mean", "variance", "sqrt_mean_tol", "sqrt_mean", "sqrt_mean_infinity"):
        cx.same(CR + a, "verif_spec::cir::" + a, key=a)
    cx.same(CR + "feller_satisfied", "verif_spec::cir::feller", key="feller")
    cx.same("verif_spec::cir::proxy_code", "verif_spec::cir::proxy_at", key="proxy", opaque=[CR + "sqrt_mean_infinity"])


@prop("M06", VG, "one simulation step of the scalar processes, and their seeding", floor=12)
def steps(cx):
    m = MC + "cir::"
    cx.same(m + "CirSimulator::new", m + "verif_simcir::new", key="cir new")
    cx.same(SIM % ("cir::CirSimulator", "step"), m + "verif_simcir::step", key="cir step")
    cx.same(SIM % ("cir::CirSimulator", "initial_state"), m + "verif_simcir::initial", key="cir initial")
    m = MC + "simulation::"
    for t, q in (("BrownianMotion", "bm"), ("GeometricBrownianMotion", "gbm")):
        cx.same(m + t + "::new", m + "verif_sim::%s_new" % q, key=q + " new")
        cx.same(SIM % ("simulation::" + t, "step"), m + "verif_sim::%s_step" % q, key=q + " step")
        cx.same(SIM % ("simulation::" + t, "initial_state"), m + "verif_sim::%s_initial" % q, key=q + " initial")
    for a in ("with_drift", "with_volatility", "with_initial"):
        cx.same(m + "BrownianMotion::" + a, m + "verif_sim::bm_" + a, key="bm " + a)


@prop("M07", VG, "path simulation on dates and reading its result", floor=4)
def paths(cx):
    m = MC + "simulation::"
    cx.same(m + "simulate_at_dates", m + "verif_sim::simulate", key="simulate_at_dates")
    for a in ("states_at", "sample", "n_paths"):
        cx.same(m + "DatedPaths::<S>::" + a, m + "verif_sim::" + a, key=a)


@prop("M08", VG, "calibration inputs read off the volatility surface", floor=4)
def smile(cx):
    m = "models::forex::market_data::"
    cx.same(m + "smile_strip", "verif_spec::smile::strip", key="smile_strip", opaque=["markets::forex::quotes::volsurface::FXVolSurface::volatility"])
    for a, b in (("hhw_targets", "hhw"), ("sabr_targets", "sabr"), ("pillar_target", "pillar")):
        cx.same(m + "MarketSmileStrip::" + a, "verif_spec::smile::" + b, key=a)


@prop("M09", VG, "European prices from a characteristic function", floor=8)
def cos(cx):
    m = MC + "cos_pricer::"
    for a in ("new", "with_n_terms", "with_range", "call", "put"):
        cx.same(m + "CosPricer::<'a, C>::" + a, m + "verif_cos::" + a, key=a)
    for a in ("hhw", "hlmm", "fmm"):
        cx.same(m + "verif_cos::%s_seen" % a, m + "verif_cos::" + a, key=a + " inputs")


@prop("M10", VG, "downhill simplex minimisation", floor=2)
def simplex(cx):
    cx.same("math::optimize::nelder_mead", "verif_spec::nm::minimise", key="nelder_mead")
    cx.same("<math::optimize::NelderMeadOptions as std::default::Default>::default", "verif_spec::nm::options", key="options")


FX = "models::forex::"


@prop("M11", VG, "mean-reverting short rate", floor=7)
def hull_white(cx):
    m = "models::interestrate::hull_white::"
    for a, b in (("b", "duration"), ("short_rate_variance", "variance"), ("bond_log_variance", "bond_variance"), ("discount_affine", "bond")):
        cx.same(m + "HullWhite1F::" + a, m + "verif_hw::" + b, key=b)
    cx.same(m + "HullWhiteSimulator::new_constant_theta", m + "verif_hw::constant", key="new")
    cx.same(SIM.replace(MC + "%s", m + "%s") % ("HullWhiteSimulator", "step"), m + "verif_hw::step", key="step")
    cx.same(SIM.replace(MC + "%s", m + "%s") % ("HullWhiteSimulator", "initial_state"), m + "verif_hw::initial", key="initial")


@prop("M12", VG, "implied volatility of the constant-parameter smile model", floor=3)
def sabr(cx):
    m = FX + "sabr::"
    cx.same(m + "hagan_implied_vol", [m + "verif_sabr::smile", m + "verif_sabr::smile_as_is"], key="smile")
    cx.same(m + "hagan_atm_vol", m + "verif_sabr::at_the_money", key="at the money")
    cx.same(m + "SabrParams::new", m + "verif_sabr::params", key="params")


@prop("M13", VG, "steps of the smile model simulators", floor=13)
def sabr_steps(cx):
    m = FX + "sabr::"
    F = SIM.replace(MC + "%s", FX + "%s")
    cx.same(m + "SabrSimulator::new", m + "verif_sabr::start", key="new")
    cx.same(m + "SabrSimulator::step_with_noise", m + "verif_sabr::noisy", key="step with noise")
    cx.same(m + "SabrSimulator::simulate", m + "verif_sabr::terminal", key="simulate")
    cx.same(F % ("sabr::SabrSimulator", "step"), m + "verif_sabr::step", key="step")
    cx.same(F % ("sabr::SabrSimulator", "initial_state"), m + "verif_sabr::initial", key="initial")
    m = FX + "sabr_time_dependent::"
    A = [FX + "sabr_effective::PiecewiseConstant::at"]
    cx.same(m + "TimeDependentSabrSimulator::new", m + "verif_sabrtd::start", key="td new")
    cx.same(m + "TimeDependentSabrSimulator::step_with_noise", m + "verif_sabrtd::noisy", key="td step with noise", opaque=A)
    cx.same(m + "TimeDependentSabrSimulator::simulate", m + "verif_sabrtd::terminal", key="td simulate", opaque=A)
    cx.same(m + "TimeDependentSabrParams::at", m + "verif_sabrtd::at", key="td at", opaque=A)
    cx.same(m + "TimeDependentSabrParams::horizon", m + "verif_sabrtd::horizon", key="td horizon")
    cx.same(F % ("sabr_time_dependent::TimeDependentSabrSimulator", "step"), m + "verif_sabrtd::step", key="td step", opaque=A)
    cx.same(F % ("sabr_time_dependent::TimeDependentSabrSimulator", "initial_state"), m + "verif_sabrtd::initial", key="td initial", opaque=A)
    cx.same(m + "TimeDependentSabrSimulator::reduces_to_constant", m + "verif_sabrtd::flat", key="td flat")


@prop("M14", VG, "local-volatility corrected simulation", floor=3)
def slv(cx):
    m = FX + "sabr_slv::"
    O = [FX + "sabr_effective::PiecewiseConstant::at", FX + "dupire_local_vol::DupireLocalVol::local_variance"]
    cx.same(m + "TimeDependentSabrSlvSimulator::new", m + "verif_slv::start", key="new")
    cx.same(m + "TimeDependentSabrSlvSimulator::with_bins", m + "verif_slv::with_bins", key="with_bins")
    cx.same(m + "TimeDependentSabrSlvSimulator::simulate", m + "verif_slv::simulate", key="simulate", opaque=O)


@prop("M15", VG, "equivalent constant parameters", floor=8)
def effective(cx):
    m = FX + "sabr_effective::"
    for a, b in (("new", "piecewise"), ("constant", "constant"), ("n_segments", "segments"), ("final_time", "last"), ("at", "at")):
        cx.same(m + "PiecewiseConstant::" + a, m + "verif_sabreff::" + b, key=b)
    V = [m + "effective_vol_vol"]
    cx.same(m + "effective_vol_vol", m + "verif_sabreff::vol_vol", key="vol_vol")
    cx.same(m + "effective_term_structure", m + "verif_sabreff::term_structure", key="term_structure", opaque=V)
    cx.same(m + "effective_correlation", m + "verif_sabreff::correlation", key="correlation", opaque=V + [m + "effective_term_structure"])


@prop("M16", VG, "fit of one smile", floor=4)
def sabr_fit(cx):
    m = FX + "sabr_calibrator::"
    O = ["math::optimize::nelder_mead", FX + "sabr::hagan_implied_vol"]
    cx.same(m + "calibrate", m + "verif_sabrcal::fit", key="fit", opaque=O)
    cx.same(m + "targets_from_grid", m + "verif_sabrcal::targets", key="targets")
    cx.same(m + "model_implied_vols", m + "verif_sabrcal::smile", key="smile", opaque=O)
    cx.same("<" + m + "SabrSmileCalibrator as " + MC + "calibration::Calibration>::calibrate", m + "verif_sabrcal::calibrate_strip", key="strip", opaque=O + [m + "calibrate"])


@prop("M17", VG, "fit of a surface by piecewise-constant parameters", floor=2)
def sabr_surface(cx):
    m = FX + "sabr_time_dependent_calibrator::"
    e = FX + "sabr_effective::effective_"
    O = [FX + "sabr_calibrator::calibrate", FX + "sabr::hagan_implied_vol", e + "vol_vol", e + "term_structure", e + "correlation"]
    cx.same(m + "calibrate_time_dependent", m + "verif_sabrtdcal::surface", key="surface", opaque=O)
    cx.same("<" + m + "SabrTimeDependentSurfaceCalibrator as " + MC + "calibration::Calibration>::calibrate", m + "verif_sabrtdcal::calibrate", key="strips", opaque=[m + "calibrate_time_dependent"])


@prop("M18", VG, "local variance from a volatility grid", floor=5)
def dupire(cx):
    m = FX + "dupire_local_vol::"
    cx.same(m + "build", m + "verif_dupire::build", key="build", opaque=BS, facts=fw.atleast(a1=3, a2=3))
    for a in ("local_variance", "local_vol", "t_range", "k_range"):
        cx.same(m + "DupireLocalVol::" + a, m + "verif_dupire::" + a, key=a)


def sim(path, method):
    return SIM.replace(MC + "%s", FX + "%s") % (path, method)


@prop("M19", VG, "correlation factor and steps of the spot with stochastic variance and rates", floor=11)
def hhw(cx):
    m = FX + "fx_hhw::"
    v = m + "verif_hhw::"
    L = [m + "Correlation4x4::cholesky"]
    cx.same(m + "Correlation4x4::as_matrix", v + "matrix", key="matrix")
    cx.same(m + "Correlation4x4::cholesky", v + "factor", key="factor")
    cx.same(m + "Correlation4x4::is_valid", v + "valid", key="valid")
    cx.same(m + "FxHhwState::initial", v + "origin", key="origin")
    cx.same(m + "FxHhwSimulator::new", v + "start", key="new", opaque=L)
    cx.same(m + "FxHhwSimulator::with_theta_fn", v + "moving", key="with_theta_fn")
    cx.same(m + "FxHhwSimulator::step_at_time", v + "step_to", key="step_at_time")
    cx.same(m + "FxHhwSimulator::step", v + "noisy", key="step noise")
    cx.same(m + "FxHhwSimulator::simulate", v + "terminal", key="simulate")
    cx.same(sim("fx_hhw::FxHhwSimulator", "step"), v + "step", key="step")
    cx.same(sim("fx_hhw::FxHhwSimulator", "initial_state"), v + "initial", key="initial")


@prop("M20", VG, "steps of the foreign stock", floor=6)
def stock(cx):
    m = FX + "fx_hhw_stock::"
    v = m + "verif_hhwstock::"
    L = [FX + "fx_hhw::Correlation4x4::cholesky"]
    cx.same(m + "FxHhwStockState::initial", v + "origin", key="origin")
    cx.same(m + "FxHhwStockSimulator::new", v + "start", key="new", opaque=L)
    cx.same(m + "FxHhwStockSimulator::step", v + "step", key="step")
    cx.same(m + "FxHhwStockSimulator::simulate", v + "terminal", key="simulate")
    cx.same(sim("fx_hhw_stock::FxHhwStockSimulator", "step"), v + "model_step", key="model step")
    cx.same(sim("fx_hhw_stock::FxHhwStockSimulator", "initial_state"), v + "initial", key="initial")


@prop("M21", VG, "characteristic function of the log forward", floor=4)
def hhw_chf(cx):
    m = FX + "fx_hhw1_chf::"
    v = m + "verif_hhwchf::"
    O = [CR + "sqrt_mean", "models::interestrate::hull_white::HullWhite1F::b"]
    cx.same(m + "ChfComponents::assemble", v + "assembled", key="assemble")
    cx.same(v + "components_code", v + "components", key="components", opaque=O, facts=fw.even("a3"))
    cx.same(v + "components_128_code", v + "components_128", key="default nodes", opaque=O)
    cx.same(v + "value_code", v + "value", key="value", opaque=O, facts=fw.even("a3"))


COS = [MC + "cos_pricer::CosPricer::<'a, C>::" + a for a in ("new", "call")]
FIT = ["math::optimize::nelder_mead", MC + "black_scholes::bs_implied_vol"] + COS


@prop("M22", VG, "smile fit of the model with stochastic variance and rates", floor=6)
def hhw_fit(cx):
    m = FX + "fx_hhw_calibrator::"
    v = m + "verif_hhwcal::"
    O = FIT + [FX + "fx_hhw1_chf::FxHhw1ForwardChf::<'a>::new"]
    cx.same(m + "calibrate", v + "free", key="free", opaque=O)
    cx.same(m + "calibrate_bounded", v + "bounded", key="bounded", opaque=O)
    cx.same(m + "targets_from_grid", v + "targets", key="targets")
    cx.same(m + "model_implied_vols", v + "smile", key="smile", opaque=O)
    cx.same(m + "price_call", v + "price", key="price", opaque=O)
    cx.same("<" + m + "FxHhwSmileCalibrator as " + MC + "calibration::Calibration>::calibrate", v + "calibrate_strip", key="strip", opaque=O + [m + "calibrate", m + "calibrate_bounded"])


@prop("M23", VG, "tenor, admissibility and frozen coefficients of the tenor model", floor=11)
def hlmm(cx):
    m = FX + "fx_hlmm::"
    v = m + "verif_hlmm::"
    T, S = m + "LiborTenor::", m + "DdSvLmm::"
    cx.same(T + "new", v + "tenor", key="new")
    cx.same(T + "n", v + "count", key="n")
    cx.same(T + "tau", v + "accrual", key="tau")
    cx.same(T + "m", v + "next_date", key="m")
    cx.same(v + "alive_code", v + "alive", key="active")
    cx.same(v + "side_ok_code", v + "side_ok", key="side")
    cx.same(v + "correlations_ok_code", v + "correlations_ok", key="correlations")
    cx.same(v + "params_ok_code", v + "params_ok", key="params", opaque=[S + "validate", m + "FxHlmmCorrelations::validate"])
    cx.same(S + "psi", v + "weights", key="psi")
    for a, b in (("compute_a_d", "square_d"), ("compute_a_f", "square_f"), ("compute_f_linearised", "cross")):
        cx.same(m + a, v + b, key=a, opaque=[S + "psi", CR + "sqrt_mean"])


@prop("M24", VG, "characteristic function of the tenor model", floor=5)
def hlmm_chf(cx):
    m = FX + "fx_hlmm1_chf::"
    v = m + "verif_hlmmchf::"
    h = FX + "fx_hlmm::"
    O = [h + a for a in ("compute_a_d", "compute_a_f", "compute_f_linearised", "FxHlmmParams::validate", "LiborTenor::m")]
    c = m + "FxHlmm1ForwardChf::<'a>::"
    cx.same(m + "ChfComponents::assemble", v + "assembled", key="assemble")
    cx.same(c + "with_simpson_steps", v + "built", key="stretches", opaque=O)
    cx.same(c + "new", v + "built_32", key="default nodes", opaque=O)
    cx.same(c + "components", v + "components", key="components", opaque=O)
    cx.same(c + "evaluate", v + "value", key="value", opaque=O + [c + "components"])


@prop("M25", VG, "smile fit of the tenor model", floor=7)
def hlmm_fit(cx):
    m = FX + "fx_hlmm_calibrator::"
    v = m + "verif_hlmmcal::"
    D = m + "discount_factor"
    O = FIT + [FX + "fx_hlmm1_chf::FxHlmm1ForwardChf::<'a>::new", FX + "fx_hlmm::FxHlmmParams::validate"]
    cx.same(D, v + "discount", key="discount")
    cx.same(m + "forward_fx", v + "forward", key="forward")
    cx.same(m + "calibrate", v + "free", key="free", opaque=O + [D])
    cx.same(m + "targets_from_grid", v + "targets", key="targets")
    cx.same(m + "model_implied_vols", v + "smile", key="smile", opaque=O + [D])
    cx.same(m + "price_call", v + "price", key="price", opaque=O + [D])
    cx.same("<" + m + "FxHlmmSmileCalibrator as " + MC + "calibration::Calibration>::calibrate", v + "calibrate_strip", key="strip", opaque=O + [m + "calibrate"])


IR = "models::interestrate::"
FMM = IR + "fmm::"


@prop("M26", VG, "tenor, decay, volatility and admissibility of the forward market model", floor=10)
def fmm(cx):
    v = FMM + "verif_fmm::"
    T, D, F = FMM + "FmmTenor::", FMM + "LinearDecay::", FMM + "Fmm::"
    cx.same(T + "new", v + "tenor", key="new")
    cx.same(T + "m", v + "count", key="m")
    cx.same(T + "tau", v + "accrual", key="tau")
    cx.same(T + "eta", v + "period", key="eta")
    cx.same(D + "gamma", v + "decay", key="gamma")
    cx.same(D + "big_g", v + "decayed", key="big_g")
    cx.same(F + "sigma_at", v + "volatility", key="sigma_at")
    cx.same(F + "displacement_level", v + "level", key="displacement_level")
    cx.same(F + "adapted_vol", v + "adapted", key="adapted_vol")
    cx.same(F + "with_betas", v + "displaced", key="with_betas")
    cx.same(F + "with_vol_schedule", v + "scheduled", key="with_vol_schedule")
    cx.same(F + "new", v + "build", key="model")


@prop("M27", VG, "steps of the forward market model", floor=6)
def fmm_steps(cx):
    v = FMM + "verif_fmm::"
    S = FMM + "FmmSimulator::"
    O = [FMM + a for a in ("LinearDecay::gamma", "Fmm::adapted_vol")]
    cx.same(FMM + "cholesky", v + "factor", key="factor")
    cx.same(S + "new", v + "start", key="new", opaque=[FMM + "cholesky"])
    cx.same(S + "initial_path", v + "origin", key="initial_path")
    cx.same(S + "step", v + "step", key="step", opaque=O, witness=True)
    cx.same(S + "simulate_terminal", v + "terminal", key="simulate_terminal", opaque=[S + "step", S + "initial_path"])
    cx.same("<" + S[:-2] + " as " + MC + "simulation::SimulationModel>::step", v + "model_step", key="model step", opaque=[S + "step"])


@prop("M28", VG, "bonds and bank account of the forward market model", floor=5)
def fmm_bonds(cx):
    v = FMM + "verif_fmm::"
    O = [FMM + "LinearDecay::big_g", FMM + "FmmTenor::eta"]
    B = [FMM + "back_stub_forward_bond", FMM + "front_stub_bond", FMM + "FmmTenor::eta"]
    cx.same(B[0], v + "back", key="back", opaque=O)
    cx.same(B[1], v + "front", key="front", opaque=O)
    cx.same(v + "bond_code", v + "bond", key="bond", opaque=B)
    cx.same(v + "account_code", v + "account", key="account", opaque=[FMM + "bond_price", FMM + "FmmTenor::eta"])
    cx.same("<" + FMM + "FlatCurve as " + FMM + "InitialDiscountCurve>::p0", v + "flat", key="flat")


@prop("M29", VG, "admissibility and decayed weights of the currency model on backward-looking rates", floor=8)
def fxfmm(cx):
    m = FX + "fx_fmm::"
    v = m + "verif_fxfmm::"
    S = m + "FmmSide::"
    cx.same(v + "side_ok_code", v + "side_ok", key="side")
    cx.same(v + "correlations_ok_code", v + "correlations_ok", key="correlations")
    cx.same(v + "params_ok_code", v + "params_ok", key="params", opaque=[S + "validate", m + "FxFmmCorrelations::validate"])
    cx.same(S + "psi_base", v + "weights", key="psi_base")
    cx.same(m + "psi_at", v + "decayed", key="psi_at", opaque=[S + "psi_base", FMM + "LinearDecay::gamma"])
    for a, b in (("compute_a_d", "square_d"), ("compute_a_f", "square_f"), ("compute_f_linearised", "cross")):
        cx.same(m + a, v + b, key=a, opaque=[m + "psi_at", CR + "sqrt_mean"])


@prop("M30", VG, "characteristic function of the currency model on backward-looking rates", floor=5)
def fxfmm_chf(cx):
    m = FX + "fx_fmm1_chf::"
    v = m + "verif_fxfmmchf::"
    h = FX + "fx_fmm::"
    O = [h + a for a in ("compute_a_d", "compute_a_f", "FxFmmParams::validate", "FmmSide::psi_base")] + [FMM + "FmmTenor::eta", FMM + "LinearDecay::gamma"]
    c = m + "FxFmm1ForwardChf::<'a>::"
    cx.same(m + "ChfComponents::assemble", v + "assembled", key="assemble")
    cx.same(c + "with_resolution", v + "built", key="stretches", opaque=O)
    cx.same(c + "new", v + "built_default", key="default resolution", opaque=O)
    cx.same(c + "components", v + "components", key="components", opaque=O + [CR + "sqrt_mean"])
    cx.same(c + "evaluate", v + "value", key="value", opaque=O + [c + "components"])


@prop("M31", VG, "smile fit of the currency model on backward-looking rates", floor=7)
def fxfmm_fit(cx):
    m = FX + "fx_fmm_calibrator::"
    v = m + "verif_fxfmmcal::"
    D = m + "discount_factor"
    O = FIT + [FX + "fx_fmm1_chf::FxFmm1ForwardChf::<'a>::new", FX + "fx_fmm::FxFmmParams::validate"]
    cx.same(D, v + "discount", key="discount")
    cx.same(m + "forward_fx", v + "forward", key="forward")
    cx.same(m + "calibrate", v + "free", key="free", opaque=O + [D])
    cx.same(m + "targets_from_grid", v + "targets", key="targets")
    cx.same(m + "model_implied_vols", v + "smile", key="smile", opaque=O + [D])
    cx.same(m + "price_call", v + "price", key="price", opaque=O + [D])
    cx.same("<" + m + "FxFmmSmileCalibrator as " + MC + "calibration::Calibration>::calibrate", v + "calibrate_strip", key="strip", opaque=O + [m + "calibrate"])


@prop("M32", VG, "steps of the currency model on backward-looking rates", floor=8)
def fxfmm_steps(cx):
    m = FX + "fx_fmm_simulator::"
    v = m + "verif_fxfmmsim::"
    S, X = m + "FxFmmSimulator::", m + "FxFmmState::initial"
    cx.same(m + "cholesky", v + "factor", key="factor")
    cx.same(m + "build_joint_correlation", v + "joint", key="joint correlation")
    cx.same(X, v + "origin", key="initial")
    cx.same(S + "new", v + "start", key="new", opaque=[m + "cholesky", m + "build_joint_correlation", FX + "fx_fmm::FxFmmParams::validate"])
    cx.same(S + "step", v + "step", key="step", opaque=[FMM + "LinearDecay::gamma"], witness=True)
    cx.same(S + "simulate_terminal", v + "terminal", key="simulate_terminal", opaque=[S + "step", X])
    cx.same("<" + S[:-2] + " as " + MC + "simulation::SimulationModel>::initial_state", v + "model_start", key="model start", opaque=[X])
    cx.same("<" + S[:-2] + " as " + MC + "simulation::SimulationModel>::step", v + "model_step", key="model step", opaque=[S + "step"])
