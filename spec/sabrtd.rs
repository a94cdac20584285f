//! in src/models/forex/sabr_time_dependent.rs
//! The same model with piecewise-constant parameters.
use super::*;

pub fn at(p: &TimeDependentSabrParams, t: f64) -> SabrParams {
    SabrParams { alpha: p.alpha.at(t), beta: p.beta, rho: p.rho.at(t), nu: p.nu.at(t) }
}
pub fn horizon(p: &TimeDependentSabrParams) -> f64 {
    p.alpha.knots[p.alpha.knots.len() - 1]
}
pub fn start(params: TimeDependentSabrParams, seed: u64) -> TimeDependentSabrSimulator {
    TimeDependentSabrSimulator { params, rng: ChaCha20Rng::seed_from_u64(seed) }
}
pub fn initial(s: &TimeDependentSabrSimulator) -> SabrState {
    SabrState { forward: s.params.forward_0, vol: s.params.alpha.at(0.0) }
}
pub fn noisy(s: &mut TimeDependentSabrSimulator, x: &SabrState, t: f64, dt: f64) -> (SabrState, [f64; 2]) {
    let p = at(&s.params, t);
    let a: f64 = s.rng.sample(StandardNormal);
    let b: f64 = s.rng.sample(StandardNormal);
    let w = a * dt.sqrt();
    let v = (p.rho * a + (1.0 - p.rho * p.rho).sqrt() * b) * dt.sqrt();
    let (f, vol) = (x.forward.max(0.0), x.vol.max(0.0));
    let forward = (f + vol * (p.alpha / s.params.alpha.at(0.0)) * f.powf(p.beta) * w).max(0.0);
    let vol = vol * (p.nu * v - p.nu * p.nu * dt / 2.0).exp();
    (SabrState { forward, vol }, [w, v])
}
pub fn step(s: &mut TimeDependentSabrSimulator, x: &SabrState, t: f64, dt: f64) -> SabrState {
    noisy(s, x, t, dt).0
}
pub fn terminal(s: &mut TimeDependentSabrSimulator, end: f64, steps: usize, paths: usize) -> Vec<SabrState> {
    let dt = end / steps as f64;
    let mut out = Vec::new();
    for _ in 0..paths {
        let mut x = initial(s);
        let mut t = 0.0;
        for _ in 0..steps {
            x = noisy(s, &x, t + dt / 2.0, dt).0;
            t += dt;
        }
        out.push(x);
    }
    out
}
// the constant-parameter simulator, where every parameter keeps its first value
pub fn flat(s: &TimeDependentSabrSimulator) -> Option<SabrSimulator> {
    let steady = |v: &[f64]| v.windows(2).all(|w| (w[0] - w[1]).abs() < 1e-12);
    if steady(&s.params.alpha.values) && steady(&s.params.rho.values) && steady(&s.params.nu.values) {
        let p = SabrParams::new(s.params.alpha.values[0], s.params.beta, s.params.rho.values[0], s.params.nu.values[0]);
        return Some(SabrSimulator::new(p, s.params.forward_0, 0));
    }
    None
}
