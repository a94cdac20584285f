//! in src/models/forex/fx_fmm_simulator.rs
//! Steps of the currency model on backward-looking rates.
use super::*;
use crate::models::interestrate::fmm::FmmTenor;

pub fn origin(p: &FxFmmParams) -> FxFmmState {
    let r = &p.tenor.initial_rates;
    let n = r.len();
    let mut first = vec![0.0; n];
    first[0] = r[0];
    FxFmmState {
        fx: p.fx_0,
        variance: p.heston.sigma_0,
        rates_d: r.clone(),
        rates_f: r.clone(),
        y_diag_d: vec![0.0; n],
        y_diag_f: vec![0.0; n],
        rates_at_start_d: first.clone(),
        rates_at_start_f: first,
        y_at_start_d: vec![0.0; n],
        y_at_start_f: vec![0.0; n],
        x_active_d: 0.0,
        x_active_f: 0.0,
        t: 0.0,
    }
}
// order: spot, variance, domestic rates, foreign rates
pub fn joint(p: &FxFmmParams) -> Vec<Vec<f64>> {
    let n = p.tenor.initial_rates.len();
    let k = &p.correlations;
    let mut c = vec![vec![0.0; 2 * n + 2]; 2 * n + 2];
    for i in 0..2 * n + 2 {
        c[i][i] = 1.0;
    }
    c[0][1] = k.rho_xi_sigma;
    c[1][0] = k.rho_xi_sigma;
    for j in 0..n {
        c[0][2 + j] = k.rho_xi_d[j];
        c[2 + j][0] = k.rho_xi_d[j];
        c[0][2 + n + j] = k.rho_xi_f[j];
        c[2 + n + j][0] = k.rho_xi_f[j];
    }
    for j in 0..n {
        c[1][2 + j] = k.rho_sigma_d[j];
        c[2 + j][1] = k.rho_sigma_d[j];
        c[1][2 + n + j] = k.rho_sigma_f[j];
        c[2 + n + j][1] = k.rho_sigma_f[j];
    }
    for i in 0..n {
        for j in 0..n {
            c[2 + i][2 + j] = p.domestic.rate_corr[i][j];
        }
    }
    for i in 0..n {
        for j in 0..n {
            c[2 + n + i][2 + n + j] = p.foreign.rate_corr[i][j];
        }
    }
    // the cross block is symmetrised
    for i in 0..n {
        for j in 0..n {
            let x = (k.cross_rate_corr[i][j] + k.cross_rate_corr[j][i]) / 2.0;
            c[2 + i][2 + n + j] = x;
            c[2 + n + j][2 + i] = x;
        }
    }
    c
}
// lower-triangular factor row by row; none unless every pivot is positive
pub fn factor(c: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = c.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut rest = c[i][j];
            for k in 0..j {
                rest -= l[i][k] * l[j][k];
            }
            if i == j {
                if rest <= 0.0 {
                    return None;
                }
                l[i][i] = rest.sqrt();
            } else {
                l[i][j] = rest / l[j][j];
            }
        }
    }
    Some(l)
}
pub fn start(params: FxFmmParams, seed: u64) -> Result<FxFmmSimulator, &'static str> {
    if params.validate().is_err() {
        return Err("invalid FX-FMM params");
    }
    match cholesky(&build_joint_correlation(&params)) {
        None => Err("joint correlation is not positive-definite"),
        Some(chol) => Ok(FxFmmSimulator { params, chol, rng: ChaCha20Rng::seed_from_u64(seed) }),
    }
}
// one side's rates after a step; `shift` is the change-of-measure drift per unit of volatility
fn advance(s: &FmmSide, x: &FmmTenor, r: &[f64], now: usize, mid: f64, dt: f64, dw: &[f64], shift: Option<(&[f64], f64)>) -> Vec<f64> {
    let n = x.initial_rates.len();
    let mut g = vec![0.0; n];
    let mut w = vec![0.0; n];
    let mut v = vec![0.0; n];
    for i in 1..=n {
        let d = s.decay.gamma(i, mid, x);
        g[i - 1] = d;
        v[i - 1] = s.sigmas[i - 1];
        let a = x.tau(i);
        w[i - 1] = s.sigmas[i - 1] * d * a / (1.0 + a * r[i - 1]);
    }
    let mut out = r.to_vec();
    for j in now..=n {
        if g[j - 1] == 0.0 {
            continue;
        }
        let mut sum = 0.0;
        for i in now..=j {
            sum += s.rate_corr[i - 1][j - 1] * w[i - 1];
        }
        let vol = v[j - 1] * g[j - 1];
        let drift = match shift {
            None => vol * sum,
            Some((c, root)) => vol * sum - vol * c[j - 1] * root,
        };
        out[j - 1] = r[j - 1] + drift * dt + vol * dw[j - 1];
    }
    out
}
pub fn step(s: &mut FxFmmSimulator, x: &mut FxFmmState, dt: f64) {
    if dt <= 0.0 {
        panic!();
    }
    let tenor = &s.params.tenor;
    let n = tenor.initial_rates.len();
    let t = x.t;
    let mid = t + dt / 2.0;
    let z: Vec<f64> = (0..2 * n + 2).map(|_| s.rng.sample(StandardNormal)).collect();
    let mut dw = Vec::new();
    for (i, row) in s.chol.iter().enumerate() {
        let v: f64 = row.iter().zip(z.iter()).take(i + 1).map(|(a, b)| a * b).sum();
        dw.push(v * dt.sqrt());
    }
    let p = &s.params;
    let var = x.variance.max(0.0);
    let root = var.sqrt();
    let h = &p.heston;
    let variance = (var + h.kappa * (h.theta - var) * dt + h.gamma * root * dw[1]).max(0.0);
    let now = tenor.eta(t);
    let k = now.min(n);
    let fx = (x.fx.ln() + (x.rates_d[k - 1] - x.rates_f[k - 1] - var / 2.0) * dt + root * dw[0]).exp();
    let dd = &dw[2..2 + n];
    let df = &dw[2 + n..2 + 2 * n];
    let nd = advance(&p.domestic, tenor, &x.rates_d, now, mid, dt, dd, None);
    let nf = advance(&p.foreign, tenor, &x.rates_f, now, mid, dt, df, Some((&p.correlations.rho_xi_f, root)));
    for j in 1..=n {
        let end = tenor.dates[j];
        if t < end {
            let a = tenor.tau(j);
            let u = p.domestic.sigmas[j - 1] / (x.rates_d[j - 1] + 1.0 / a);
            let v = p.foreign.sigmas[j - 1] / (x.rates_f[j - 1] + 1.0 / a);
            let e = dt.min(end - t);
            x.y_diag_d[j - 1] += u * u * e;
            x.y_diag_f[j - 1] += v * v * e;
        }
    }
    if now >= 1 && now <= n && t > tenor.dates[now - 1] && t < tenor.dates[now] {
        let k = now - 1;
        let a = tenor.tau(now);
        let md = (x.rates_d[k] + nd[k]) / 2.0;
        let mf = (x.rates_f[k] + nf[k]) / 2.0;
        let yd = x.y_diag_d[k] - x.y_at_start_d[k];
        let yf = x.y_diag_f[k] - x.y_at_start_f[k];
        x.x_active_d += yd / a * dt + p.domestic.sigmas[k] / (md + 1.0 / a) * dd[k];
        x.x_active_f += yf / a * dt + p.foreign.sigmas[k] / (mf + 1.0 / a) * df[k];
    }
    x.fx = fx;
    x.variance = variance;
    x.rates_d = nd;
    x.rates_f = nf;
    x.t = t + dt;
    let later = tenor.eta(x.t);
    if later > now {
        for k in now + 1..=later.min(n) {
            x.rates_at_start_d[k - 1] = x.rates_d[k - 1];
            x.rates_at_start_f[k - 1] = x.rates_f[k - 1];
            x.y_at_start_d[k - 1] = x.y_diag_d[k - 1];
            x.y_at_start_f[k - 1] = x.y_diag_f[k - 1];
            x.x_active_d = 0.0;
            x.x_active_f = 0.0;
        }
    }
}
pub fn terminal(s: &mut FxFmmSimulator, end: f64, steps: usize, paths: usize) -> Vec<FxFmmState> {
    if end <= 0.0 || steps == 0 || paths == 0 {
        panic!();
    }
    let mut out = Vec::new();
    for _ in 0..paths {
        let mut x = FxFmmState::initial(&s.params);
        for _ in 0..steps {
            s.step(&mut x, end / steps as f64);
        }
        out.push(x);
    }
    out
}
pub fn model_start(s: &FxFmmSimulator) -> FxFmmState {
    FxFmmState::initial(&s.params)
}
pub fn model_step(s: &mut FxFmmSimulator, x: &FxFmmState, _t: f64, dt: f64) -> FxFmmState {
    let mut next = x.clone();
    s.step(&mut next, dt);
    next
}
