//! in src/models/forex/fx_hhw_stock.rs
//! Foreign stock on top of the spot with stochastic variance and rates.
use super::*;

pub fn origin(fx: &FxHhwParams, stock: &ForeignStock) -> FxHhwStockState {
    FxHhwStockState { fx: FxHhwState { fx: fx.fx_0, variance: fx.heston.sigma_0, rd: fx.rd_0, rf: fx.rf_0 }, stock: stock.s_0, stock_variance: stock.variance.sigma_0 }
}
pub fn start(fx: FxHhwParams, stock: ForeignStock, seed: u64) -> Result<FxHhwStockSimulator, &'static str> {
    let base_chol = match fx.correlations.cholesky() {
        Some(c) => c,
        None => return Err("FX-HHW correlation not positive-definite"),
    };
    if stock.rho_xi_sf > 1.0 || stock.rho_xi_sf < -1.0 {
        return Err("|rho_xi_sf| > 1");
    }
    if stock.rho_sf_omega > 1.0 || stock.rho_sf_omega < -1.0 {
        return Err("|rho_sf_omega| > 1");
    }
    Ok(FxHhwStockSimulator { fx, stock, base_chol, rng: ChaCha20Rng::seed_from_u64(seed) })
}
pub fn step(s: &mut FxHhwStockSimulator, x: &FxHhwStockState, dt: f64) -> FxHhwStockState {
    let a: f64 = s.rng.sample(StandardNormal);
    let b: f64 = s.rng.sample(StandardNormal);
    let c: f64 = s.rng.sample(StandardNormal);
    let d: f64 = s.rng.sample(StandardNormal);
    let e: f64 = s.rng.sample(StandardNormal);
    let g: f64 = s.rng.sample(StandardNormal);
    let l = &s.base_chol;
    let r = dt.sqrt();
    let p = &s.fx;
    let v = x.fx.variance.max(0.0);
    let vol = v.sqrt();
    let fx = (x.fx.fx.ln() + (x.fx.rd - x.fx.rf - v / 2.0) * dt + vol * (l[0][0] * a) * r).exp();
    let variance = (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * vol * (l[1][0] * a + l[1][1] * b) * r).max(0.0);
    let rd = x.fx.rd + p.domestic.mean_reversion * (p.theta_d - x.fx.rd) * dt + p.domestic.sigma * (l[2][0] * a + l[2][1] * b + l[2][2] * c) * r;
    let quanto = p.foreign.sigma * p.correlations.rho_xi_f * vol;
    let rf = x.fx.rf + (p.foreign.mean_reversion * (p.theta_f - x.fx.rf) - quanto) * dt + p.foreign.sigma * (l[3][0] * a + l[3][1] * b + l[3][2] * c + l[3][3] * d) * r;
    // stock and its variance, under the domestic measure
    let q = &s.stock;
    let zs = q.rho_xi_sf * a + (1.0 - q.rho_xi_sf * q.rho_xi_sf).sqrt() * e;
    let zo = q.rho_sf_omega * zs + (1.0 - q.rho_sf_omega * q.rho_sf_omega).sqrt() * g;
    let o = x.stock_variance.max(0.0);
    let so = o.sqrt();
    let stock = (x.stock.ln() + (x.fx.rf - q.rho_xi_sf * vol * so - o / 2.0) * dt + so * zs * r).exp();
    let drift = q.variance.kappa * (q.variance.theta - o) - q.rho_sf_omega * q.rho_xi_sf * q.variance.gamma * so * vol;
    let stock_variance = (o + drift * dt + q.variance.gamma * so * zo * r).max(0.0);
    FxHhwStockState { fx: FxHhwState { fx, variance, rd, rf }, stock, stock_variance }
}
pub fn model_step(s: &mut FxHhwStockSimulator, x: &FxHhwStockState, _t: f64, dt: f64) -> FxHhwStockState {
    step(s, x, dt)
}
pub fn initial(s: &FxHhwStockSimulator) -> FxHhwStockState {
    origin(&s.fx, &s.stock)
}
pub fn terminal(s: &mut FxHhwStockSimulator, end: f64, steps: usize, paths: usize) -> Vec<FxHhwStockState> {
    let mut out = Vec::new();
    for _ in 0..paths {
        let mut x = initial(s);
        for _ in 0..steps {
            x = step(s, &x, end / steps as f64);
        }
        out.push(x);
    }
    out
}
