//! in src/models/forex/sabr_slv.rs
//! Smile dynamics corrected towards a local volatility by the population of paths.
use super::*;

pub fn start(params: TimeDependentSabrParams, dupire: DupireLocalVol, seed: u64) -> TimeDependentSabrSlvSimulator {
    TimeDependentSabrSlvSimulator { params, dupire, n_bins: 50, rng: ChaCha20Rng::seed_from_u64(seed) }
}
pub fn with_bins(mut s: TimeDependentSabrSlvSimulator, n: usize) -> TimeDependentSabrSlvSimulator {
    s.n_bins = n;
    s
}
// equal-count groups of the paths by forward: upper bound and mean squared volatility
fn groups(xs: &[SabrState], n_bins: usize) -> (Vec<f64>, Vec<f64>) {
    let n = xs.len();
    let mut by: Vec<(f64, f64)> = xs.iter().map(|x| (x.forward, x.vol * x.vol)).collect();
    by.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
    let size = n.div_ceil(n_bins);
    let (mut upper, mut mean) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < n {
        let j = (i + size).min(n);
        let mut total = 0.0;
        for q in &by[i..j] {
            total += q.1;
        }
        upper.push(by[j - 1].0);
        mean.push(total / (j - i) as f64);
        i = j;
    }
    (upper, mean)
}
fn group(f: f64, upper: &[f64], mean: &[f64]) -> f64 {
    for i in 0..upper.len() {
        if f <= upper[i] {
            return mean[i];
        }
    }
    mean[mean.len() - 1]
}
pub fn simulate(s: &mut TimeDependentSabrSlvSimulator, end: f64, steps: usize, paths: usize) -> Vec<SabrState> {
    let dt = end / steps as f64;
    let vol = s.params.alpha.at(0.0);
    let mut xs: Vec<SabrState> = (0..paths).map(|_| SabrState { forward: s.params.forward_0, vol }).collect();
    let mut t = 0.0;
    for _ in 0..steps {
        let mid = t + dt / 2.0;
        let p = s.params.at(mid);
        let (upper, mean) = groups(&xs, s.n_bins);
        for x in xs.iter_mut() {
            let a: f64 = s.rng.sample(StandardNormal);
            let b: f64 = s.rng.sample(StandardNormal);
            let w = a * dt.sqrt();
            let v = (p.rho * a + (1.0 - p.rho * p.rho).sqrt() * b) * dt.sqrt();
            let f = x.forward.max(1e-12);
            let vol = x.vol.max(0.0);
            let given = group(f, &upper, &mean) * f.powf(p.beta - 1.0) * f.powf(p.beta - 1.0);
            let sigma = (s.dupire.local_variance(mid, f) / given.max(1e-12)).max(0.0).sqrt();
            *x = SabrState { forward: (f + sigma * vol * f.powf(p.beta) * w).max(0.0), vol: vol * (p.nu * v - p.nu * p.nu * dt / 2.0).exp() };
        }
        t += dt;
    }
    xs
}
