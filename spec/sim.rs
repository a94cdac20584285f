//! in src/models/common/simulation.rs
//! Path simulation.
use super::*;

pub fn bm_new(seed: u64) -> BrownianMotion {
    BrownianMotion { x_0: 0.0, drift: 0.0, volatility: 1.0, rng: ChaCha20Rng::seed_from_u64(seed) }
}
pub fn bm_initial(m: &BrownianMotion) -> f64 {
    m.x_0
}
pub fn bm_step(m: &mut BrownianMotion, x: &f64, _t: f64, dt: f64) -> f64 {
    let z: f64 = m.rng.sample(StandardNormal);
    *x + m.drift * dt + m.volatility * dt.sqrt() * z
}
pub fn gbm_new(s_0: f64, drift: f64, volatility: f64, seed: u64) -> GeometricBrownianMotion {
    GeometricBrownianMotion { s_0, drift, volatility, rng: ChaCha20Rng::seed_from_u64(seed) }
}
pub fn gbm_initial(m: &GeometricBrownianMotion) -> f64 {
    m.s_0
}
pub fn gbm_step(m: &mut GeometricBrownianMotion, x: &f64, _t: f64, dt: f64) -> f64 {
    let z: f64 = m.rng.sample(StandardNormal);
    x * (m.drift * dt + m.volatility * dt.sqrt() * z - m.volatility.powi(2) * dt / 2.0).exp()
}

// every path starts at the initial state, is stepped over the union of the observation dates and a uniform grid,
// and is recorded at each observation date
pub fn simulate<M: SimulationModel>(model: &mut M, v: NaiveDate, dates: &[NaiveDate], n: usize, step: u32, dc: &dyn DayCounters) -> DatedPaths<M::State> {
    let mut obs = dates.to_vec();
    obs.sort();
    let last = obs[obs.len() - 1];
    let mut grid = vec![v];
    let mut d = v;
    while d < last {
        d = (d + Days::new(step as u64)).min(last);
        grid.push(d);
    }
    for o in &obs {
        grid.push(*o);
    }
    grid.sort();
    grid.dedup();
    let at: Vec<usize> = obs.iter().map(|o| grid.binary_search(o).unwrap()).collect();
    let time: Vec<f64> = grid.iter().map(|g| dc.year_fraction(v, *g).unwrap_or(0.0)).collect();
    let mut paths = Vec::new();
    for _ in 0..n {
        let mut path = Vec::new();
        let mut x = model.initial_state();
        let mut j = 0;
        for i in 1..grid.len() {
            let (a, b) = (time[i - 1], time[i]);
            if b > a {
                x = model.step(&x, (a + b) / 2.0, b - a);
            }
            while j < at.len() && at[j] == i {
                path.push(x.clone());
                j += 1;
            }
        }
        paths.push(path);
    }
    DatedPaths { valuation_date: v, observation_dates: obs, paths }
}
pub fn states_at<S: Clone>(p: &DatedPaths<S>, date: NaiveDate) -> Option<Vec<S>> {
    match p.observation_dates.binary_search(&date) {
        Ok(i) => {
            let mut out = Vec::new();
            for q in &p.paths {
                out.push(q[i].clone());
            }
            Some(out)
        }
        Err(_) => None,
    }
}
pub fn sample<S: Clone, F: FnMut(&S) -> f64>(p: &DatedPaths<S>, date: NaiveDate, mut f: F) -> Option<Vec<f64>> {
    match p.observation_dates.binary_search(&date) {
        Ok(i) => {
            let mut out = Vec::new();
            for q in &p.paths {
                out.push(f(&q[i]));
            }
            Some(out)
        }
        Err(_) => None,
    }
}
pub fn n_paths<S: Clone>(p: &DatedPaths<S>) -> usize {
    p.paths.len()
}
pub fn bm_with_drift(m: BrownianMotion, v: f64) -> BrownianMotion {
    BrownianMotion { drift: v, x_0: m.x_0, volatility: m.volatility, rng: m.rng }
}
pub fn bm_with_volatility(m: BrownianMotion, v: f64) -> BrownianMotion {
    BrownianMotion { volatility: v, x_0: m.x_0, drift: m.drift, rng: m.rng }
}
pub fn bm_with_initial(m: BrownianMotion, v: f64) -> BrownianMotion {
    BrownianMotion { x_0: v, drift: m.drift, volatility: m.volatility, rng: m.rng }
}
