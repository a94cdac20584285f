//! in src/models/forex/sabr.rs
//! The lognormal-volatility smile model with constant parameters.
use super::*;

fn scale(p: &SabrParams, fk: f64) -> f64 {
    fk.powf((1.0 - p.beta) / 2.0)
}
fn maturity(p: &SabrParams, g: f64, t: f64) -> f64 {
    let c = 1.0 - p.beta;
    1.0 + t * (c * c * p.alpha * p.alpha / (24.0 * g * g) + p.rho * p.beta * p.nu * p.alpha / (4.0 * g) + (2.0 - 3.0 * p.rho * p.rho) * p.nu * p.nu / 24.0)
}
// second-order coefficient of z over x(z) near zero; below 1e-8 its sign is beyond double precision
fn implied(p: &SabrParams, f: f64, k: f64, t: f64, second: f64) -> f64 {
    let g = scale(p, f * k);
    let l = (f / k).ln();
    let c = 1.0 - p.beta;
    let z = if p.alpha > 0.0 { p.nu / p.alpha * g * l } else { 0.0 };
    let ratio = if z.abs() < 1e-8 { 1.0 - p.rho * z / 2.0 + second * z * z } else { z / (((1.0 - 2.0 * p.rho * z + z * z).sqrt() + z - p.rho) / (1.0 - p.rho)).ln() };
    let wings = 1.0 + c.powi(2) * l.powi(2) / 24.0 + c.powi(4) * l.powi(4) / 1920.0;
    p.alpha / (g * wings) * ratio * maturity(p, g, t)
}
pub fn smile(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    implied(p, f, k, t, (2.0 - 3.0 * p.rho * p.rho) / 12.0)
}
pub fn smile_as_is(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    implied(p, f, k, t, (3.0 * p.rho * p.rho - 2.0) / 12.0)
}
pub fn at_the_money(p: &SabrParams, f: f64, t: f64) -> f64 {
    let g = f.powf(1.0 - p.beta);
    p.alpha / g * maturity(p, g, t)
}
pub fn params(alpha: f64, beta: f64, rho: f64, nu: f64) -> SabrParams {
    if !(alpha > 0.0 && beta >= 0.0 && beta <= 1.0 && rho > -1.0 && rho < 1.0 && nu >= 0.0) {
        panic!();
    }
    SabrParams { alpha, beta, rho, nu }
}
pub fn start(params: SabrParams, forward_0: f64, seed: u64) -> SabrSimulator {
    SabrSimulator { params, forward_0, rng: ChaCha20Rng::seed_from_u64(seed), sqrt_one_minus_rho_sq: (1.0 - params.rho * params.rho).sqrt() }
}
// correlated increments, full truncation for the forward, exact lognormal volatility
pub fn noisy(s: &mut SabrSimulator, x: &SabrState, dt: f64) -> (SabrState, [f64; 2]) {
    let a: f64 = s.rng.sample(StandardNormal);
    let b: f64 = s.rng.sample(StandardNormal);
    let w = a * dt.sqrt();
    let v = (s.params.rho * a + s.sqrt_one_minus_rho_sq * b) * dt.sqrt();
    let (f, vol) = (x.forward.max(0.0), x.vol.max(0.0));
    let forward = (f + vol * f.powf(s.params.beta) * w).max(0.0);
    let vol = vol * (s.params.nu * v - s.params.nu * s.params.nu * dt / 2.0).exp();
    (SabrState { forward, vol }, [w, v])
}
pub fn step(s: &mut SabrSimulator, x: &SabrState, _t: f64, dt: f64) -> SabrState {
    noisy(s, x, dt).0
}
pub fn initial(s: &SabrSimulator) -> SabrState {
    SabrState { forward: s.forward_0, vol: s.params.alpha }
}
pub fn terminal(s: &mut SabrSimulator, end: f64, steps: usize, paths: usize) -> Vec<SabrState> {
    let mut out = Vec::new();
    for _ in 0..paths {
        let mut x = initial(s);
        for _ in 0..steps {
            x = noisy(s, &x, end / steps as f64).0;
        }
        out.push(x);
    }
    out
}
