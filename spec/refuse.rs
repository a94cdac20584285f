//! The inputs each function accepts: `false` is where it must refuse by panicking.
use crate::markets::forex::quotes::volsurface::FXVolSurface;
use crate::math::optimize::NelderMeadOptions;
use crate::models::common::cir::CirProcess;
use crate::models::common::cos_pricer::{CosPricer, ForwardChf};
use crate::models::common::simulation::SimulationModel;
use crate::models::forex::fx_fmm::FxFmmParams;
use crate::models::forex::fx_fmm_simulator::{FxFmmSimulator, FxFmmState};
use crate::models::forex::fx_hhw::{FxHhwParams, FxHhwSimulator, FxHhwState};
use crate::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use crate::models::forex::fx_hhw_stock::{FxHhwStockSimulator, FxHhwStockState};
use crate::models::forex::fx_hlmm::{FxHlmmParams, LiborTenor};
use crate::models::forex::sabr::{SabrParams, SabrSimulator, SabrState};
use crate::models::forex::sabr_effective::PiecewiseConstant;
use crate::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use crate::models::forex::sabr_time_dependent::TimeDependentSabrSimulator;
use crate::models::interestrate::fmm::*;
use crate::models::interestrate::hull_white::HullWhite1F;
use crate::time::daycounters::DayCounters;
use chrono::NaiveDate;
use num_complex::Complex64;

fn rising(x: &[f64]) -> bool {
    for i in 1..x.len() {
        if x[i] <= x[i - 1] {
            return false;
        }
    }
    true
}

pub fn probability(p: f64) -> bool {
    0.0 < p && p < 1.0
}
pub fn simplex<F: FnMut(&[f64]) -> f64>(_f: F, x0: &[f64], _o: NelderMeadOptions) -> bool {
    x0.len() >= 1
}
pub fn root_mean(c: &CirProcess, t: f64, _tol: f64) -> bool {
    t <= 0.0 || c.kappa > 0.0
}
pub fn root_mean_limit(c: &CirProcess) -> bool {
    c.kappa > 0.0 && c.gamma > 0.0
}
pub fn terms<'a, C: ForwardChf>(_p: CosPricer<'a, C>, n: usize) -> bool {
    n > 1
}
pub fn range<'a, C: ForwardChf>(_p: CosPricer<'a, C>, a: f64, b: f64) -> bool {
    a < b
}
pub fn option<'a, C: ForwardChf>(_p: &CosPricer<'a, C>, k: f64, _d: f64) -> bool {
    k > 0.0
}
pub fn dated<M: SimulationModel>(_m: &mut M, from: NaiveDate, on: &[NaiveDate], paths: usize, days: u32, _c: &dyn DayCounters) -> bool {
    if paths < 1 || days < 1 || on.is_empty() {
        return false;
    }
    for d in on {
        if *d <= from {
            return false;
        }
    }
    true
}
pub fn local_vol(t: &[f64], k: &[f64], v: &[Vec<f64>], spot: f64, _d: f64, _f: f64) -> bool {
    if t.len() < 3 || k.len() < 3 || v.len() != t.len() {
        return false;
    }
    for r in v {
        if r.len() != k.len() {
            return false;
        }
    }
    for w in t.windows(2) {
        if w[1] <= w[0] {
            return false;
        }
    }
    for w in k.windows(2) {
        if w[1] <= w[0] {
            return false;
        }
    }
    spot > 0.0
}
pub fn sabr(a: f64, b: f64, r: f64, n: f64) -> bool {
    a > 0.0 && b >= 0.0 && b <= 1.0 && r > -1.0 && r < 1.0 && n >= 0.0
}
pub fn smile(_p: &SabrParams, f: f64, k: f64, t: f64) -> bool {
    f > 0.0 && k > 0.0 && t > 0.0
}
pub fn sabr_start(_p: SabrParams, f: f64, _s: u64) -> bool {
    f > 0.0
}
pub fn sabr_step(_s: &mut SabrSimulator, _x: &SabrState, dt: f64) -> bool {
    dt > 0.0
}
pub fn sabr_run(_s: &mut SabrSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn td_step(_s: &mut TimeDependentSabrSimulator, _x: &SabrState, _t: f64, dt: f64) -> bool {
    dt > 0.0
}
pub fn td_run(_s: &mut TimeDependentSabrSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn slv_run(_s: &mut TimeDependentSabrSlvSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn slv_groups(_s: TimeDependentSabrSlvSimulator, n: usize) -> bool {
    n >= 2
}
pub fn td_sabr(a: PiecewiseConstant, r: PiecewiseConstant, n: PiecewiseConstant, b: f64, f: f64) -> bool {
    if a.knots != r.knots || a.knots != n.knots || b < 0.0 || b > 1.0 || f <= 0.0 {
        return false;
    }
    for &x in &a.values {
        if x <= 0.0 {
            return false;
        }
    }
    for &x in &n.values {
        if x < 0.0 {
            return false;
        }
    }
    for &x in &r.values {
        if x <= -1.0 || x >= 1.0 {
            return false;
        }
    }
    true
}
pub fn pieces(k: Vec<f64>, v: Vec<f64>) -> bool {
    k.len() >= 2 && v.len() + 1 == k.len() && k[0].abs() < 1e-15 && rising(&k)
}
pub fn piece_at(p: &PiecewiseConstant, t: f64) -> bool {
    t >= 0.0 && t <= p.knots[p.knots.len() - 1] + 1e-15
}
pub fn strip(_s: &FXVolSurface, _v: NaiveDate, _e: NaiveDate, _f: f64, k: &[f64]) -> bool {
    !k.is_empty()
}
pub fn libors(d: Vec<f64>, l: Vec<f64>) -> bool {
    d.len() == l.len() + 1 && d[0] >= 0.0 && rising(&d)
}
pub fn libor_period(t: &LiborTenor, k: usize) -> bool {
    1 <= k && k <= t.libors.len()
}
pub fn hhw_step(_s: &mut FxHhwSimulator, _x: &FxHhwState, dt: f64, _a: f64, _b: f64) -> bool {
    dt > 0.0
}
pub fn hhw_run(_s: &mut FxHhwSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn stock_step(_s: &mut FxHhwStockSimulator, _x: &FxHhwStockState, dt: f64) -> bool {
    dt > 0.0
}
pub fn stock_run(_s: &mut FxHhwStockSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn fx_step(_s: &mut FxFmmSimulator, _x: &mut FxFmmState, dt: f64) -> bool {
    dt > 0.0
}
pub fn fx_run(_s: &mut FxFmmSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn hhw_chf(_p: &FxHhwParams, _e: f64, n: usize) -> bool {
    n >= 2 && n % 2 == 0
}
pub fn hhw_chf_at<'a>(c: &FxHhw1ForwardChf<'a>, _u: Complex64, tau: f64) -> bool {
    0.0 <= tau && tau <= c.expiry + 1e-12
}
pub fn hlmm_chf(_p: &FxHlmmParams, e: f64, n: usize) -> bool {
    n >= 2 && n % 2 == 0 && e > 0.0
}
pub fn fmm_chf(_p: &FxFmmParams, e: f64, k: usize, n: usize) -> bool {
    e > 0.0 && k >= 1 && n >= 2 && n % 2 == 0
}
pub fn bond_variance(_h: &HullWhite1F, a: f64, b: f64, _t: f64) -> bool {
    a <= b
}
pub fn tenor(d: Vec<f64>, r: Vec<f64>) -> bool {
    d.len() >= 2 && d.len() == r.len() + 1 && d[0] >= 0.0 && rising(&d)
}
pub fn period(t: &FmmTenor, j: usize) -> bool {
    1 <= j && j <= t.initial_rates.len()
}
pub fn rates(t: FmmTenor, s: Vec<f64>, c: Vec<Vec<f64>>, _d: LinearDecay) -> bool {
    let m = t.initial_rates.len();
    if s.len() != m || c.len() != m {
        return false;
    }
    for i in 0..c.len() {
        if c[i].len() != m || (c[i][i] - 1.0).abs() >= 1e-12 {
            return false;
        }
        for j in 0..c[i].len() {
            if (c[i][j] - c[j][i]).abs() >= 1e-12 || c[i][j].abs() > 1.0 + 1e-12 {
                return false;
            }
        }
    }
    for &x in &s {
        if !x.is_finite() || x < 0.0 {
            return false;
        }
    }
    true
}
pub fn skews(m: Fmm, b: Vec<f64>) -> bool {
    if b.len() != m.tenor.initial_rates.len() {
        return false;
    }
    for &x in &b {
        if x < 0.0 || x > 1.0 {
            return false;
        }
    }
    true
}
pub fn schedule(m: Fmm, s: VolSchedule) -> bool {
    if let VolSchedule::PiecewiseConstant(s) = &s {
        if s.len() != m.tenor.initial_rates.len() {
            return false;
        }
        for r in s {
            if r.is_empty() {
                return false;
            }
            for w in r.windows(2) {
                if w[1].0 <= w[0].0 {
                    return false;
                }
            }
        }
    }
    true
}
pub fn rate_step(_s: &mut FmmSimulator, _p: &mut FmmPath, dt: f64) -> bool {
    dt > 0.0
}
pub fn rate_run(_s: &mut FmmSimulator, end: f64, steps: usize, paths: usize) -> bool {
    end > 0.0 && steps > 0 && paths > 0
}
pub fn back_stub(m: &Fmm, p: &FmmPath, k: usize, end: f64, _a: f64, _b: f64) -> bool {
    let d = &m.tenor.dates;
    1 <= k && k <= m.tenor.initial_rates.len() && p.t <= d[k - 1] + 1e-15 && end > d[k - 1] - 1e-15 && end <= d[k] + 1e-15
}
pub fn front_stub(m: &Fmm, p: &FmmPath, end: f64, _a: f64, _b: f64) -> bool {
    let d = &m.tenor.dates;
    let k = m.tenor.eta(p.t);
    1 <= k && k <= m.tenor.initial_rates.len() && p.t > d[k - 1] - 1e-15 && p.t < d[k] + 1e-15 && end > p.t - 1e-15 && end <= d[k] + 1e-15
}
pub fn sabr_fit(_p: SabrParams, f: f64, t: &[crate::models::forex::sabr_calibrator::CalibrationTarget], e: f64, _o: NelderMeadOptions) -> bool {
    f > 0.0 && e > 0.0 && !t.is_empty()
}
pub fn hhw_fit(_p: FxHhwParams, t: &[crate::models::forex::fx_hhw_calibrator::CalibrationTarget], e: f64, floor: f64, _o: NelderMeadOptions) -> bool {
    e > 0.0 && !t.is_empty() && floor >= 0.0
}
pub fn hhw_fit_bounded(_p: FxHhwParams, t: &[crate::models::forex::fx_hhw_calibrator::CalibrationTarget], e: f64, floor: f64, most: f64, _o: NelderMeadOptions) -> bool {
    e > 0.0 && !t.is_empty() && floor >= 0.0 && most > 0.0
}
pub fn hlmm_fit(_p: FxHlmmParams, t: &[crate::models::forex::fx_hlmm_calibrator::CalibrationTarget], e: f64, floor: f64, _o: NelderMeadOptions) -> bool {
    e > 0.0 && !t.is_empty() && floor >= 0.0
}
pub fn fmm_fit(_p: FxFmmParams, t: &[crate::models::forex::fx_fmm_calibrator::CalibrationTarget], e: f64, floor: f64, _o: NelderMeadOptions) -> bool {
    e > 0.0 && !t.is_empty() && floor >= 0.0
}
pub fn grid(k: &[f64], v: &[f64]) -> bool {
    k.len() == v.len()
}
