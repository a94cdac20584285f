//! in src/models/forex/fx_hhw1_chf.rs
//! Characteristic function of the log forward in the linearised model.
use super::*;

// closed-form variance exponent at time to expiry s
fn variance_exponent(u: Complex64, s: f64, p: &FxHhwParams) -> Complex64 {
    if s <= 0.0 {
        return Complex64::new(0.0, 0.0);
    }
    let (kappa, gamma, rho) = (p.heston.kappa, p.heston.gamma, p.correlations.rho_xi_sigma);
    let iu = Complex64::new(0.0, 1.0) * u;
    let x = Complex64::new(kappa, 0.0) - iu * (gamma * rho);
    let one = Complex64::new(1.0, 0.0);
    let d = (x * x - iu * (iu - one) * (gamma * gamma)).sqrt();
    let e = (-d * s).exp();
    (iu * iu - iu) * (one - e) / (x + d - (x - d) * e)
}
// slope of the drift exponent at time to expiry s
fn slope(u: Complex64, s: f64, expiry: f64, p: &FxHhwParams) -> Complex64 {
    let t = expiry - s;
    let vol = p.heston.sqrt_mean(t);
    let d = p.domestic.sigma * p.domestic.b(t, expiry);
    let f = p.foreign.sigma * p.foreign.b(t, expiry);
    let r = &p.correlations;
    let iu = Complex64::new(0.0, 1.0) * u;
    let c = variance_exponent(u, s, p);
    let g = p.heston.gamma * vol;
    let rates = (r.rho_xi_d * d - r.rho_xi_f * f) * vol + r.rho_d_f * d * f - (d * d + f * f) / 2.0;
    c * (p.heston.kappa * p.heston.theta) + c * (Complex64::new(1.0, 0.0) - iu) * (r.rho_sigma_d * g * d) + c * iu * (r.rho_sigma_f * g * f) + (u * u + iu) * rates
}
// composite Simpson rule with n intervals
fn drift_exponent(u: Complex64, tau: f64, expiry: f64, p: &FxHhwParams, n: usize) -> Complex64 {
    let h = tau / n as f64;
    let mut sum = Complex64::new(0.0, 0.0);
    for k in 0..=n {
        let w = if k == 0 || k == n { 1.0 } else if k % 2 == 1 { 4.0 } else { 2.0 };
        sum += slope(u, k as f64 * h, expiry, p) * w;
    }
    sum * (h / 3.0)
}
fn parts(p: &FxHhwParams, expiry: f64, n: usize, u: Complex64, tau: f64) -> ChfComponents {
    let b = Complex64::new(0.0, 1.0) * u;
    let c = variance_exponent(u, tau, p);
    let near = (tau - expiry).abs() < 1e-12;
    let a = if near {
        drift_exponent(u, expiry, expiry, p, n)
    } else if tau <= 0.0 {
        Complex64::new(0.0, 0.0)
    } else {
        drift_exponent(u, tau, expiry, p, n)
    };
    ChfComponents { a, b, c }
}
pub fn components(p: &FxHhwParams, expiry: f64, n: usize, u: Complex64, tau: f64) -> ChfComponents {
    if tau < 0.0 || tau > expiry + 1e-12 || n < 2 || n % 2 != 0 {
        panic!();
    }
    parts(p, expiry, n, u, tau)
}
pub fn components_code(p: &FxHhwParams, expiry: f64, n: usize, u: Complex64, tau: f64) -> ChfComponents {
    FxHhw1ForwardChf::with_simpson_steps(p, expiry, n).components(u, tau)
}
pub fn components_128(p: &FxHhwParams, expiry: f64, u: Complex64, tau: f64) -> ChfComponents {
    components(p, expiry, 128, u, tau)
}
pub fn components_128_code(p: &FxHhwParams, expiry: f64, u: Complex64, tau: f64) -> ChfComponents {
    FxHhw1ForwardChf::new(p, expiry).components(u, tau)
}
pub fn value(p: &FxHhwParams, expiry: f64, n: usize, u: Complex64) -> Complex64 {
    if expiry < 0.0 || n < 2 || n % 2 != 0 {
        panic!();
    }
    let x = p.fx_0.ln() + (p.rd_0 - p.rf_0) * expiry;
    let k = parts(p, expiry, n, u, expiry);
    (k.a + k.b * x + k.c * p.heston.sigma_0).exp()
}
pub fn value_code(p: &FxHhwParams, expiry: f64, n: usize, u: Complex64) -> Complex64 {
    FxHhw1ForwardChf::with_simpson_steps(p, expiry, n).evaluate(u)
}
pub fn assembled(k: &ChfComponents, x: f64, sigma: f64) -> Complex64 {
    (k.a + k.b * x + k.c * sigma).exp()
}
