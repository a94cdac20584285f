//! in src/models/forex/sabr_time_dependent_calibrator.rs
//! Fit of a surface by piecewise-constant parameters, one pillar after the other.
use super::*;
use crate::models::forex::sabr::hagan_implied_vol;

// halving towards the root of an increasing function
fn root(f: impl Fn(f64) -> f64, a: f64, b: f64) -> f64 {
    let (mut lo, mut hi) = (a, b);
    let f_lo = f(lo);
    let f_hi = f(hi);
    if f_lo > 0.0 {
        return lo;
    }
    if f_hi < 0.0 {
        return hi;
    }
    for _ in 0..80 {
        let mid = (lo + hi) / 2.0;
        let y = f(mid);
        if y.abs() < 1e-10 || hi - lo < 1e-10 {
            return mid;
        }
        if y < 0.0 {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    (lo + hi) / 2.0
}
// the smallest doubling of the start at which the function is not negative
fn reach(f: impl Fn(f64) -> f64, start: f64) -> f64 {
    let mut hi = start;
    let mut y = f(hi);
    let mut n = 0;
    while y < 0.0 && n < 20 {
        hi *= 2.0;
        y = f(hi);
        n += 1;
    }
    assert!(y >= 0.0);
    hi
}
fn upto(knots: &[f64], values: &[f64], i: usize) -> PiecewiseConstant {
    PiecewiseConstant { knots: knots[..=i + 1].to_vec(), values: values[..=i].to_vec() }
}
fn with(knots: &[f64], values: &[f64], x: f64, i: usize) -> PiecewiseConstant {
    let mut v = values.to_vec();
    v.push(x);
    PiecewiseConstant { knots: knots[..=i + 1].to_vec(), values: v }
}

pub fn surface(ps: &[PillarTarget], beta: f64, forward_0: f64, o: NelderMeadOptions) -> TimeDependentCalibrationResult {
    let fits: Vec<SabrParams> = ps
        .iter()
        .map(|p| {
            let seed = SabrParams { alpha: p.market_vols[p.market_vols.len() / 2], beta, rho: -0.20, nu: 0.30 };
            calibrate_sabr(seed, p.forward, &targets_from_grid(&p.strikes, &p.market_vols), p.expiry, o).params
        })
        .collect();
    let smile_error: Vec<f64> = ps
        .iter()
        .zip(&fits)
        .map(|(p, m)| {
            let mut s = 0.0;
            for (k, v) in p.strikes.iter().zip(&p.market_vols) {
                s += (hagan_implied_vol(m, p.forward, *k, p.expiry) - v).powi(2);
            }
            (s / p.strikes.len() as f64).sqrt()
        })
        .collect();
    let mut knots = vec![0.0];
    for p in ps {
        knots.push(p.expiry);
    }
    let mut nu: Vec<f64> = Vec::new();
    for i in 0..ps.len() {
        let flat = PiecewiseConstant { knots: knots[..=i + 1].to_vec(), values: vec![fits[i].alpha; i + 1] };
        let gap = |x: f64| effective_vol_vol(&with(&knots, &nu, x, i), &flat, ps[i].expiry) - fits[i].nu;
        let hi = reach(&gap, (fits[i].nu * 2.0).max(0.1));
        let x = root(&gap, 1e-6, hi);
        nu.push(x);
    }
    let mut alpha: Vec<f64> = Vec::new();
    for i in 0..ps.len() {
        let g = upto(&knots, &nu, i);
        let gap = |x: f64| effective_term_structure(&g, &with(&knots, &alpha, x, i), ps[i].expiry) - fits[i].alpha;
        let hi = reach(&gap, (fits[i].alpha * 4.0).max(0.5));
        let x = root(&gap, 1e-6, hi);
        alpha.push(x);
    }
    let mut rho: Vec<f64> = Vec::new();
    let mut sum = 0.0;
    for i in 0..ps.len() {
        let (g, a) = (upto(&knots, &nu, i), upto(&knots, &alpha, i));
        let whole = fits[i].rho * effective_vol_vol(&g, &a, ps[i].expiry) * ps[i].expiry / effective_term_structure(&g, &a, ps[i].expiry);
        let w = (knots[i + 1] - knots[i]) * nu[i] / alpha[i];
        assert!(w.abs() > 1e-15);
        let r = ((whole - sum) / w).clamp(-0.999, 0.999);
        sum += r * w;
        rho.push(r);
    }
    let params = TimeDependentSabrParams {
        alpha: PiecewiseConstant { knots: knots.clone(), values: alpha.clone() },
        rho: PiecewiseConstant { knots: knots.clone(), values: rho.clone() },
        nu: PiecewiseConstant { knots: knots.clone(), values: nu.clone() },
        beta,
        forward_0,
    };
    let mut per_pillar = Vec::new();
    for i in 0..ps.len() {
        let (g, a, r) = (upto(&knots, &nu, i), upto(&knots, &alpha, i), upto(&knots, &rho, i));
        let t = ps[i].expiry;
        let e = effective_vol_vol(&g, &a, t) - fits[i].nu;
        let f = effective_term_structure(&g, &a, t) - fits[i].alpha;
        let h = effective_correlation(&g, &a, &r, t) - fits[i].rho;
        per_pillar.push(PillarDiagnostics { expiry: t, market_effective: fits[i], stage1_rmse: smile_error[i], post_fit_rmse: ((e * e + f * f + h * h) / 3.0).sqrt() });
    }
    TimeDependentCalibrationResult { params, per_pillar }
}
pub fn calibrate(c: &SabrTimeDependentSurfaceCalibrator, ms: &Vec<MarketSmileStrip>, o: NelderMeadOptions) -> Result<CalibrationReport<TimeDependentSabrParams>> {
    let ps: Vec<PillarTarget> = ms.iter().map(|m| m.pillar_target()).collect();
    let r = calibrate_time_dependent(&ps, c.beta, c.forward_0, o);
    let mut worst: f64 = 0.0;
    for d in &r.per_pillar {
        worst = worst.max(d.stage1_rmse);
    }
    Ok(CalibrationReport { params: r.params, rmse: worst, optimiser: None })
}
