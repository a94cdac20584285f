"""The inputs model functions accept and refuse."""
from props import prop

W = "acceptance predicate over MIR: explicit panics become early exits that leave a mark, and the mark's value graph equals the reference condition, for every input"
R = "verif_spec::refuse::"
MC, FX, IR = "models::common::", "models::forex::", "models::interestrate::"
FMM = IR + "fmm::"


def ok(cx, code, spec, key=None, opaque=(), **k):
    cx.same(code, R + spec, key=key or spec, opaque=opaque, refuse=True, outs=False, **k)


@prop("X03", W, "explicit refusals of constructors of model inputs", floor=13)
def inputs(cx):
    ok(cx, FX + "sabr::SabrParams::new", "sabr")
    ok(cx, FX + "sabr_effective::PiecewiseConstant::new", "pieces")
    ok(cx, FX + "sabr_time_dependent::TimeDependentSabrParams::new", "td_sabr")
    ok(cx, FX + "fx_hlmm::LiborTenor::new", "libors")
    ok(cx, FMM + "FmmTenor::new", "tenor")
    ok(cx, FMM + "Fmm::new", "rates")
    ok(cx, FMM + "Fmm::with_betas", "skews")
    ok(cx, FMM + "Fmm::with_vol_schedule", "schedule")
    ok(cx, FX + "dupire_local_vol::build", "local_vol")
    ok(cx, FX + "sabr_slv::TimeDependentSabrSlvSimulator::with_bins", "slv_groups")
    ok(cx, FX + "sabr::SabrSimulator::new", "sabr_start")
    P = MC + "cos_pricer::CosPricer::<'a, C>::"
    ok(cx, P + "with_n_terms", "terms")
    ok(cx, P + "with_range", "range")


@prop("X04", W, "explicit refusals of evaluations, simulations and fits", floor=37)
def calls(cx):
    ok(cx, "math::normal::inverse_cdf", "probability")
    ok(cx, "math::optimize::nelder_mead", "simplex")
    ok(cx, MC + "cir::CirProcess::sqrt_mean_tol", "root_mean")
    ok(cx, MC + "cir::CirProcess::sqrt_mean_infinity", "root_mean_limit")
    CIR = [MC + "cir::CirProcess::" + a for a in ("sqrt_mean_tol", "sqrt_mean", "sqrt_mean_infinity")]
    P = MC + "cos_pricer::CosPricer::<'a, C>::"
    ok(cx, P + "call", "option", key="call")
    ok(cx, P + "put", "option", key="put")
    ok(cx, MC + "simulation::simulate_at_dates", "dated")
    ok(cx, FX + "sabr::hagan_implied_vol", "smile")
    S = FX + "sabr::SabrSimulator::"
    ok(cx, S + "step_with_noise", "sabr_step")
    ok(cx, S + "simulate", "sabr_run", opaque=[S + "step_with_noise"])
    S = FX + "sabr_time_dependent::TimeDependentSabrSimulator::"
    AT = FX + "sabr_effective::PiecewiseConstant::at"
    ok(cx, S + "step_with_noise", "td_step", opaque=[AT])
    ok(cx, S + "simulate", "td_run", opaque=[AT, S + "step_with_noise"])
    ok(cx, FX + "sabr_slv::TimeDependentSabrSlvSimulator::simulate", "slv_run", opaque=[AT])
    ok(cx, AT, "piece_at")
    ok(cx, FX + "market_data::smile_strip", "strip", opaque=["markets::forex::quotes::volsurface::FXVolSurface::volatility"])
    ok(cx, FX + "fx_hlmm::LiborTenor::tau", "libor_period")
    S = FX + "fx_hhw::FxHhwSimulator::"
    ok(cx, S + "step_at_time", "hhw_step")
    ok(cx, S + "simulate", "hhw_run", opaque=[S + "step_at_time"])
    S = FX + "fx_hhw_stock::FxHhwStockSimulator::"
    ok(cx, S + "step", "stock_step")
    ok(cx, S + "simulate", "stock_run", opaque=[S + "step"])
    S = FX + "fx_fmm_simulator::FxFmmSimulator::"
    OP = [FMM + a for a in ("FmmTenor::tau", "FmmTenor::eta", "LinearDecay::gamma")]
    ok(cx, S + "step", "fx_step", opaque=OP)
    ok(cx, S + "simulate_terminal", "fx_run", opaque=[S + "step"])
    ok(cx, FX + "fx_hhw1_chf::FxHhw1ForwardChf::<'a>::with_simpson_steps", "hhw_chf", opaque=CIR)
    ok(cx, FX + "fx_hhw1_chf::FxHhw1ForwardChf::<'a>::components", "hhw_chf_at", opaque=CIR)
    L = FX + "fx_hlmm::"
    ok(cx, FX + "fx_hlmm1_chf::FxHlmm1ForwardChf::<'a>::with_simpson_steps", "hlmm_chf", opaque=[L + a for a in ("compute_a_d", "compute_a_f", "compute_f_linearised", "FxHlmmParams::validate", "LiborTenor::m", "LiborTenor::tau")])
    L = FX + "fx_fmm::"
    ok(cx, FX + "fx_fmm1_chf::FxFmm1ForwardChf::<'a>::with_resolution", "fmm_chf", opaque=[L + a for a in ("compute_a_d", "compute_a_f", "FxFmmParams::validate", "FmmSide::psi_base")] + OP)
    ok(cx, IR + "hull_white::HullWhite1F::bond_log_variance", "bond_variance")
    ok(cx, FMM + "FmmTenor::tau", "period")
    S = FMM + "FmmSimulator::"
    ok(cx, S + "step", "rate_step", opaque=OP + [FMM + "Fmm::adapted_vol"])
    ok(cx, S + "simulate_terminal", "rate_run", opaque=[S + "step"])
    ok(cx, FMM + "back_stub_forward_bond", "back_stub", opaque=OP)
    ok(cx, FMM + "front_stub_bond", "front_stub", opaque=OP)
    N = ["math::optimize::nelder_mead"]
    C = [FX + "fx_%s1_chf::Fx%s1ForwardChf::<'a>::new" % a for a in (("hhw", "Hhw"), ("hlmm", "Hlmm"), ("fmm", "Fmm"))]
    ok(cx, FX + "sabr_calibrator::calibrate", "sabr_fit", opaque=N + [FX + "sabr::hagan_implied_vol"])
    for m in ("sabr", "fx_hhw", "fx_hlmm", "fx_fmm"):
        ok(cx, FX + m + "_calibrator::targets_from_grid", "grid", key=m + " targets")
