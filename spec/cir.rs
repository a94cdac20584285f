//! Square-root process: moments, expected square root, simulation step.
use crate::models::common::cir::*;
use statrs::function::gamma::ln_gamma;

pub fn mean(p: &CirProcess, t: f64) -> f64 {
    if t <= 0.0 {
        return p.sigma_0;
    }
    p.theta + (p.sigma_0 - p.theta) * (-p.kappa * t).exp()
}
pub fn variance(p: &CirProcess, t: f64) -> f64 {
    if t <= 0.0 {
        return 0.0;
    }
    let e = (-p.kappa * t).exp();
    p.gamma.powi(2) / p.kappa * (1.0 - e) * (p.sigma_0 * e + p.theta * (1.0 - e) / 2.0)
}
fn gamma_ratio(ell: f64) -> f64 {
    (ln_gamma((ell + 1.0) / 2.0) - ln_gamma(ell / 2.0)).exp()
}
// series over the Poisson mixture of chi-squared moments; deterministic and nearly deterministic limits
pub fn sqrt_mean_tol(p: &CirProcess, t: f64, tol: f64) -> f64 {
    if t <= 0.0 {
        return p.sigma_0.max(0.0).sqrt();
    }
    assert!(p.kappa > 0.0);
    let m = mean(p, t);
    if p.gamma.abs() < 1e-14 {
        return m.max(0.0).sqrt();
    }
    let g2 = p.gamma.powi(2);
    let e = (-p.kappa * t).exp();
    let ell = 4.0 * p.kappa * p.theta / g2;
    let eps = 4.0 * p.kappa * p.sigma_0 * e / (g2 * (1.0 - e));
    if eps > 500.0 {
        let m = m.max(1e-300);
        return (m - variance(p, t) / (8.0 * m)).max(0.0).sqrt();
    }
    let mut term = gamma_ratio(ell);
    let mut sum = term;
    let mut k = 0u32;
    loop {
        let x = k as f64;
        term *= eps / 2.0 * ((ell + 1.0) / 2.0 + x) / ((x + 1.0) * (ell / 2.0 + x));
        sum += term;
        k += 1;
        if term.abs() <= tol * sum.abs() || k > 2000 {
            break;
        }
    }
    (g2 * (1.0 - e) / (2.0 * p.kappa)).sqrt() * (-eps / 2.0).exp() * sum
}
pub fn sqrt_mean(p: &CirProcess, t: f64) -> f64 {
    sqrt_mean_tol(p, t, 1e-14)
}
pub fn sqrt_mean_infinity(p: &CirProcess) -> f64 {
    p.gamma / (2.0 * p.kappa).sqrt() * gamma_ratio(4.0 * p.kappa * p.theta / p.gamma.powi(2))
}
// exact at time zero and in the limit
pub fn proxy_at(p: &CirProcess, t: f64) -> f64 {
    let far = p.sqrt_mean_infinity();
    far + (p.sigma_0.max(0.0).sqrt() - far) * (-p.kappa * t).exp()
}
pub fn proxy_code(p: &CirProcess, t: f64) -> f64 {
    p.sqrt_mean_proxy().eval(t)
}
pub fn feller(p: &CirProcess) -> bool {
    p.gamma * p.gamma <= 2.0 * p.kappa * p.theta
}
