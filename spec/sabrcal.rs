//! in src/models/forex/sabr_calibrator.rs
//! Fit of one smile.
use super::*;

fn up(x: f64) -> f64 {
    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
}
fn down(y: f64) -> f64 {
    if y > 35.0 { y } else { (y.exp() - 1.0).ln() }
}
fn read(beta: f64, x: &[f64]) -> Option<SabrParams> {
    let (alpha, rho, nu) = (up(x[0]), x[1].tanh(), up(x[2]));
    if !alpha.is_finite() || !nu.is_finite() || alpha <= 0.0 || nu < 0.0 || rho <= -1.0 || rho >= 1.0 {
        return None;
    }
    Some(SabrParams { alpha, beta, rho, nu })
}
pub fn fit(start: SabrParams, forward: f64, targets: &[CalibrationTarget], t: f64, o: NelderMeadOptions) -> CalibrationResult {
    let x0 = vec![down(start.alpha.max(1e-8)), start.rho.clamp(-0.999, 0.999).atanh(), down(start.nu.max(1e-8))];
    let quotes = targets.to_vec();
    let beta = start.beta;
    let loss = move |x: &[f64]| -> f64 {
        let Some(p) = read(beta, x) else { return 1e6 };
        let mut sum = 0.0;
        for q in &quotes {
            let v = hagan_implied_vol(&p, forward, q.strike, t);
            if !v.is_finite() || v <= 0.0 {
                return 1e6;
            }
            sum += (v - q.market_vol) * (v - q.market_vol);
        }
        sum
    };
    let m = nelder_mead(loss, &x0, o);
    CalibrationResult { params: read(beta, &m.x).unwrap_or(start), rmse: (m.f / targets.len() as f64).sqrt(), optimiser: m }
}
pub fn targets(strikes: &[f64], vols: &[f64]) -> Vec<CalibrationTarget> {
    strikes.iter().zip(vols.iter()).map(|(k, v)| CalibrationTarget { strike: *k, market_vol: *v }).collect()
}
pub fn smile(p: &SabrParams, forward: f64, t: f64, strikes: &[f64]) -> Vec<f64> {
    let mut out = Vec::new();
    for k in strikes {
        out.push(hagan_implied_vol(p, forward, *k, t));
    }
    out
}
pub fn calibrate_strip(c: &SabrSmileCalibrator, m: &MarketSmileStrip, o: NelderMeadOptions) -> Result<CalibrationReport<SabrParams>> {
    let r = calibrate(c.initial, m.forward, &m.sabr_targets(), m.expiry_yf, o);
    Ok(CalibrationReport { params: r.params, rmse: r.rmse, optimiser: Some(r.optimiser) })
}
