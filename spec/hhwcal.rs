//! in src/models/forex/fx_hhw_calibrator.rs
//! Fit of one smile by the model with stochastic variance and rates.
use super::*;

fn up(x: f64) -> f64 {
    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
}
fn down(y: f64) -> f64 {
    if y > 35.0 { y } else { (y.exp() - 1.0).ln() }
}
// volatility of variance in free coordinates: positive, or between zero and a bound
fn gamma_of(x: f64, bound: Option<f64>) -> f64 {
    match bound {
        None => up(x),
        Some(g) => g / (1.0 + (-x).exp()),
    }
}
fn gamma_to(g: f64, bound: Option<f64>) -> f64 {
    match bound {
        None => down(g.max(1e-8)),
        Some(b) => {
            let r = (g / b).clamp(1e-4, 0.9999);
            (r / (1.0 - r)).ln()
        }
    }
}
fn read(base: &FxHhwParams, floor: f64, bound: Option<f64>, x: &[f64]) -> FxHhwParams {
    let mut p = *base;
    p.heston.kappa = up(x[0]) + floor;
    p.heston.gamma = gamma_of(x[1], bound);
    p.heston.theta = up(x[2]);
    p.heston.sigma_0 = up(x[3]);
    p.correlations.rho_xi_sigma = x[4].tanh();
    p
}
fn fit(start: FxHhwParams, targets: &[CalibrationTarget], t: f64, floor: f64, bound: Option<f64>, o: NelderMeadOptions) -> CalibrationResult {
    let forward = start.fx_0 * ((start.rd_0 - start.rf_0) * t).exp();
    let discount = (-start.rd_0 * t).exp();
    let x0 = vec![
        down((start.heston.kappa - floor).max(1e-8)),
        gamma_to(start.heston.gamma, bound),
        down(start.heston.theta.max(1e-8)),
        down(start.heston.sigma_0.max(1e-8)),
        start.correlations.rho_xi_sigma.clamp(-0.999, 0.999).atanh(),
    ];
    let quotes = targets.to_vec();
    let loss = move |x: &[f64]| -> f64 {
        let p = read(&start, floor, bound, x);
        let chf = FxHhw1ForwardChf::new(&p, t);
        let pricer = CosPricer::new(&chf);
        let mut sum = 0.0;
        for q in &quotes {
            match bs_implied_vol(pricer.call(q.strike, discount), forward, q.strike, t, discount, true) {
                None => return 1e6,
                Some(v) => sum += (v - q.market_vol) * (v - q.market_vol),
            }
        }
        sum
    };
    let m = nelder_mead(loss, &x0, o);
    CalibrationResult { params: read(&start, floor, bound, &m.x), rmse: (m.f / targets.len() as f64).sqrt(), optimiser: m }
}
pub fn free(start: FxHhwParams, targets: &[CalibrationTarget], t: f64, floor: f64, o: NelderMeadOptions) -> CalibrationResult {
    fit(start, targets, t, floor, None, o)
}
pub fn bounded(start: FxHhwParams, targets: &[CalibrationTarget], t: f64, floor: f64, bound: f64, o: NelderMeadOptions) -> CalibrationResult {
    fit(start, targets, t, floor, Some(bound), o)
}
pub fn targets(strikes: &[f64], vols: &[f64]) -> Vec<CalibrationTarget> {
    strikes.iter().zip(vols.iter()).map(|(k, v)| CalibrationTarget { strike: *k, market_vol: *v }).collect()
}
pub fn smile(p: &FxHhwParams, t: f64, strikes: &[f64]) -> Vec<Option<f64>> {
    let mut out = Vec::new();
    for k in strikes {
        let forward = p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp();
        out.push(bs_implied_vol(price(p, t, *k), forward, *k, t, (-p.rd_0 * t).exp(), true));
    }
    out
}
pub fn price(p: &FxHhwParams, t: f64, strike: f64) -> f64 {
    let chf = FxHhw1ForwardChf::new(p, t);
    CosPricer::new(&chf).call(strike, (-p.rd_0 * t).exp())
}
pub fn calibrate_strip(c: &FxHhwSmileCalibrator, m: &MarketSmileStrip, o: NelderMeadOptions) -> Result<CalibrationReport<FxHhwParams>> {
    let q = m.hhw_targets();
    let r = if let Some(g) = c.gamma_max { calibrate_bounded(c.initial, &q, m.expiry_yf, c.kappa_floor, g, o) } else { calibrate(c.initial, &q, m.expiry_yf, c.kappa_floor, o) };
    Ok(CalibrationReport { params: r.params, rmse: r.rmse, optimiser: Some(r.optimiser) })
}
