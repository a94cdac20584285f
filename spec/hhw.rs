//! in src/models/forex/fx_hhw.rs
//! Spot with stochastic variance and two mean-reverting short rates.
use super::*;

// lower-triangular factor, row by row; no factor unless every pivot is positive
pub fn factor(c: &Correlation4x4) -> Option<[[f64; 4]; 4]> {
    let (sd, xd, xf) = (c.rho_sigma_d, c.rho_xi_d, c.rho_xi_f);
    let (xs, sf, df) = (c.rho_xi_sigma, c.rho_sigma_f, c.rho_d_f);
    let p1 = 1.0 - xs * xs;
    if p1 <= 0.0 {
        return None;
    }
    let l11 = p1.sqrt();
    let l21 = (sd - xd * xs) / l11;
    let p2 = 1.0 - xd * xd - l21 * l21;
    if p2 <= 0.0 {
        return None;
    }
    let l22 = p2.sqrt();
    let l31 = (sf - xf * xs) / l11;
    let l32 = (df - xf * xd - l31 * l21) / l22;
    let p3 = 1.0 - xf * xf - l31 * l31 - l32 * l32;
    if p3 <= 0.0 {
        return None;
    }
    Some([[1.0, 0.0, 0.0, 0.0], [xs, l11, 0.0, 0.0], [xd, l21, l22, 0.0], [xf, l31, l32, p3.sqrt()]])
}
pub fn matrix(c: &Correlation4x4) -> [[f64; 4]; 4] {
    let (xs, xd, xf, sd, sf, df) = (c.rho_xi_sigma, c.rho_xi_d, c.rho_xi_f, c.rho_sigma_d, c.rho_sigma_f, c.rho_d_f);
    [[1.0, xs, xd, xf], [xs, 1.0, sd, sf], [xd, sd, 1.0, df], [xf, sf, df, 1.0]]
}
pub fn valid(c: &Correlation4x4) -> bool {
    factor(c).is_some()
}
pub fn origin(p: &FxHhwParams) -> FxHhwState {
    FxHhwState { fx: p.fx_0, variance: p.heston.sigma_0, rd: p.rd_0, rf: p.rf_0 }
}
pub fn start(params: FxHhwParams, seed: u64) -> Result<FxHhwSimulator, &'static str> {
    let chol = match params.correlations.cholesky() {
        Some(c) => c,
        None => return Err("correlation matrix is not positive-definite"),
    };
    let levels = (params.theta_d, params.theta_f);
    Ok(FxHhwSimulator { params, chol, rng: ChaCha20Rng::seed_from_u64(seed), theta_fn: Box::new(move |_| levels) })
}
// log-Euler spot, full-truncation variance, Euler rates; the foreign rate carries the quanto drift
pub fn step_to(s: &mut FxHhwSimulator, x: &FxHhwState, dt: f64, domestic: f64, foreign: f64) -> (FxHhwState, [f64; 4]) {
    let a: f64 = s.rng.sample(StandardNormal);
    let b: f64 = s.rng.sample(StandardNormal);
    let c: f64 = s.rng.sample(StandardNormal);
    let d: f64 = s.rng.sample(StandardNormal);
    let l = &s.chol;
    let r = dt.sqrt();
    let w = [
        l[0][0] * a * r,
        (l[1][0] * a + l[1][1] * b) * r,
        (l[2][0] * a + l[2][1] * b + l[2][2] * c) * r,
        (l[3][0] * a + l[3][1] * b + l[3][2] * c + l[3][3] * d) * r,
    ];
    let p = &s.params;
    let v = x.variance.max(0.0);
    let vol = v.sqrt();
    let fx = (x.fx.ln() + (x.rd - x.rf - v / 2.0) * dt + vol * w[0]).exp();
    let variance = (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * vol * w[1]).max(0.0);
    let rd = x.rd + p.domestic.mean_reversion * (domestic - x.rd) * dt + p.domestic.sigma * w[2];
    let quanto = p.foreign.sigma * p.correlations.rho_xi_f * vol;
    let rf = x.rf + (p.foreign.mean_reversion * (foreign - x.rf) - quanto) * dt + p.foreign.sigma * w[3];
    (FxHhwState { fx, variance, rd, rf }, w)
}
pub fn noisy(s: &mut FxHhwSimulator, x: &FxHhwState, dt: f64) -> (FxHhwState, [f64; 4]) {
    let (d, f) = (s.params.theta_d, s.params.theta_f);
    step_to(s, x, dt, d, f)
}
pub fn terminal(s: &mut FxHhwSimulator, end: f64, steps: usize, paths: usize) -> Vec<FxHhwState> {
    let mut out = Vec::new();
    for _ in 0..paths {
        let mut x = origin(&s.params);
        for _ in 0..steps {
            x = noisy(s, &x, end / steps as f64).0;
        }
        out.push(x);
    }
    out
}
pub fn step(s: &mut FxHhwSimulator, x: &FxHhwState, t: f64, dt: f64) -> FxHhwState {
    let (d, f) = (s.theta_fn)(t);
    step_to(s, x, dt, d, f).0
}
pub fn initial(s: &FxHhwSimulator) -> FxHhwState {
    origin(&s.params)
}
pub fn moving<F>(mut s: FxHhwSimulator, f: F) -> FxHhwSimulator
where
    F: FnMut(f64) -> (f64, f64) + 'static,
{
    s.theta_fn = Box::new(f);
    s
}
