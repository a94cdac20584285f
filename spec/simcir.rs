//! in src/models/common/cir.rs
//! Simulation step of the square-root process.
use super::*;

pub fn new(process: CirProcess, seed: u64) -> CirSimulator {
    CirSimulator { process, rng: ChaCha20Rng::seed_from_u64(seed) }
}
pub fn initial(m: &CirSimulator) -> f64 {
    m.process.sigma_0
}
// full truncation: the variance is never negative
pub fn step(m: &mut CirSimulator, state: &f64, _t: f64, dt: f64) -> f64 {
    let p = m.process;
    let s = state.max(0.0);
    let w: f64 = m.rng.sample(StandardNormal);
    (s + p.kappa * (p.theta - s) * dt + p.gamma * (s * dt).sqrt() * w).max(0.0)
}
