//! in src/models/forex/fx_fmm_calibrator.rs
//! Fit of one smile by the model on backward-looking rates.
use super::*;

fn up(x: f64) -> f64 {
    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
}
fn down(y: f64) -> f64 {
    if y > 35.0 { y } else { (y.exp() - 1.0).ln() }
}
fn read(base: &FxFmmParams, floor: f64, x: &[f64]) -> FxFmmParams {
    let mut p = base.clone();
    p.heston.kappa = up(x[0]) + floor;
    p.heston.gamma = up(x[1]);
    p.heston.theta = up(x[2]);
    p.heston.sigma_0 = up(x[3]);
    p.correlations.rho_xi_sigma = x[4].tanh();
    p
}
// simple compounding over the periods up to the expiry, the last rate beyond the tenor
pub fn discount(p: &FxFmmParams, t: f64) -> f64 {
    let n = p.tenor.initial_rates.len();
    let mut v = 1.0;
    for k in 1..=n {
        let a = p.tenor.dates[k].min(t) - p.tenor.dates[k - 1];
        if a <= 0.0 {
            break;
        }
        v /= 1.0 + a * p.tenor.initial_rates[k - 1];
    }
    if t > p.tenor.dates[n] + 1e-12 {
        v *= (-p.tenor.initial_rates[n - 1] * (t - p.tenor.dates[n])).exp();
    }
    v
}
pub fn forward(p: &FxFmmParams, _t: f64) -> f64 {
    p.fx_0
}
pub fn free(start: FxFmmParams, targets: &[CalibrationTarget], t: f64, floor: f64, o: NelderMeadOptions) -> CalibrationResult {
    let forward = start.fx_0;
    let df = discount_factor(&start, t);
    let x0 = vec![
        down((start.heston.kappa - floor).max(1e-8)),
        down(start.heston.gamma.max(1e-8)),
        down(start.heston.theta.max(1e-8)),
        down(start.heston.sigma_0.max(1e-8)),
        start.correlations.rho_xi_sigma.clamp(-0.999, 0.999).atanh(),
    ];
    let quotes = targets.to_vec();
    let base = start.clone();
    let loss = move |x: &[f64]| -> f64 {
        let p = read(&base, floor, x);
        if p.validate().is_err() {
            return 1e6;
        }
        let chf = FxFmm1ForwardChf::new(&p, t);
        let pricer = CosPricer::new(&chf);
        let mut sum = 0.0;
        for q in &quotes {
            match bs_implied_vol(pricer.call(q.strike, df), forward, q.strike, t, df, true) {
                None => return 1e6,
                Some(v) => sum += (v - q.market_vol) * (v - q.market_vol),
            }
        }
        sum
    };
    let m = nelder_mead(loss, &x0, o);
    CalibrationResult { params: read(&start, floor, &m.x), rmse: (m.f / targets.len() as f64).sqrt(), optimiser: m }
}
pub fn targets(strikes: &[f64], vols: &[f64]) -> Vec<CalibrationTarget> {
    strikes.iter().zip(vols.iter()).map(|(k, v)| CalibrationTarget { strike: *k, market_vol: *v }).collect()
}
pub fn price(p: &FxFmmParams, t: f64, strike: f64) -> f64 {
    let chf = FxFmm1ForwardChf::new(p, t);
    CosPricer::new(&chf).call(strike, discount_factor(p, t))
}
pub fn smile(p: &FxFmmParams, t: f64, strikes: &[f64]) -> Vec<Option<f64>> {
    let mut out = Vec::new();
    for k in strikes {
        out.push(bs_implied_vol(price(p, t, *k), p.fx_0, *k, t, discount_factor(p, t), true));
    }
    out
}
pub fn calibrate_strip(c: &FxFmmSmileCalibrator, m: &MarketSmileStrip, o: NelderMeadOptions) -> Result<CalibrationReport<FxFmmParams>> {
    let q = targets(&m.strikes, &m.vols);
    let r = calibrate(c.initial.clone(), &q, m.expiry_yf, c.kappa_floor, o);
    Ok(CalibrationReport { params: r.params, rmse: r.rmse, optimiser: Some(r.optimiser) })
}
