//! in src/models/interestrate/hull_white.rs
//! One-factor mean-reverting short rate.
use super::*;

// the short rate is treated as driftless in its reversion below this speed
fn flat(m: &HullWhite1F) -> bool {
    m.mean_reversion.abs() < 1e-12
}
pub fn duration(m: &HullWhite1F, t: f64, u: f64) -> f64 {
    let tau = u - t;
    if flat(m) { -tau } else { ((-m.mean_reversion * tau).exp() - 1.0) / m.mean_reversion }
}
pub fn variance(m: &HullWhite1F, s: f64, t: f64) -> f64 {
    let tau = t - s;
    let v = m.sigma * m.sigma;
    if tau <= 0.0 {
        0.0
    } else if flat(m) {
        v * tau
    } else {
        v * (1.0 - (-2.0 * m.mean_reversion * tau).exp()) / (2.0 * m.mean_reversion)
    }
}
// the integral of sigma² times the squared duration to u, over [s, t]
pub fn bond_variance(m: &HullWhite1F, s: f64, t: f64, u: f64) -> f64 {
    if s == t {
        return 0.0;
    }
    let v = m.sigma * m.sigma;
    let l = m.mean_reversion;
    if flat(m) {
        return v * ((u - s).powi(3) - (u - t).powi(3)) / 3.0;
    }
    let f = |w: f64| ((-2.0 * l * (u - w)).exp() / (2.0 * l) - 2.0 * (-l * (u - w)).exp() / l + w) / (l * l);
    v * (f(t) - f(s))
}
pub fn bond(m: &HullWhite1F, t: f64, u: f64, r: f64, p_t: f64, p_u: f64, f: f64) -> f64 {
    let b = duration(m, t, u);
    let g = if flat(m) { m.sigma * m.sigma * t } else { m.sigma * m.sigma * (1.0 - (-2.0 * m.mean_reversion * t).exp()) / (2.0 * m.mean_reversion) };
    p_u / p_t * (b * (r - f) - g * b * b / 2.0).exp()
}
pub fn initial(s: &HullWhiteSimulator) -> f64 {
    s.r_0
}
pub fn step(s: &mut HullWhiteSimulator, x: &f64, t: f64, dt: f64) -> f64 {
    let z: f64 = s.rng.sample(StandardNormal);
    let target = (s.theta_fn)(t);
    *x + s.model.mean_reversion * (target - *x) * dt + s.model.sigma * dt.sqrt() * z
}
pub fn constant(model: HullWhite1F, r_0: f64, level: f64, seed: u64) -> HullWhiteSimulator {
    HullWhiteSimulator { model, r_0, rng: ChaCha20Rng::seed_from_u64(seed), theta_fn: Box::new(move |_| level) }
}
