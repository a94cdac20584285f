//! in src/models/forex/fx_hlmm.rs
//! Currency model with displaced stochastic-volatility forward rates on a tenor.
use super::*;

pub fn tenor(dates: Vec<f64>, libors: Vec<f64>) -> LiborTenor {
    if dates.len() != libors.len() + 1 || dates[0] < 0.0 {
        panic!();
    }
    for i in 1..dates.len() {
        if dates[i] <= dates[i - 1] {
            panic!();
        }
    }
    LiborTenor { dates, libors }
}
pub fn count(t: &LiborTenor) -> usize {
    t.libors.len()
}
pub fn accrual(t: &LiborTenor, k: usize) -> f64 {
    if k == 0 || k > t.libors.len() {
        panic!();
    }
    t.dates[k] - t.dates[k - 1]
}
// first tenor date at or after the time, the last period's number when there is none
pub fn next_date(t: &LiborTenor, at: f64) -> usize {
    let mut k = 0;
    while k < t.dates.len() {
        if t.dates[k] >= at {
            return k;
        }
        k += 1;
    }
    t.libors.len()
}
pub fn alive_code(t: &LiborTenor, at: f64) -> Vec<usize> {
    t.active(at).collect()
}
pub fn alive(t: &LiborTenor, at: f64) -> Vec<usize> {
    let mut out = Vec::new();
    for k in next_date(t, at) + 1..=t.libors.len() {
        out.push(k);
    }
    out
}
pub fn side_ok_code(s: &DdSvLmm, t: &LiborTenor) -> bool {
    s.validate(t).is_ok()
}
pub fn side_ok(s: &DdSvLmm, t: &LiborTenor) -> bool {
    let n = t.libors.len();
    if s.sigmas.len() != n || s.betas.len() != n || s.libor_corr.len() != n {
        return false;
    }
    for row in &s.libor_corr {
        if row.len() != n {
            return false;
        }
    }
    for i in 0..n {
        if (s.libor_corr[i][i] - 1.0).abs() > 1e-12 {
            return false;
        }
        for j in 0..n {
            if (s.libor_corr[i][j] - s.libor_corr[j][i]).abs() > 1e-12 {
                return false;
            }
            if s.libor_corr[i][j].abs() > 1.0 + 1e-12 {
                return false;
            }
        }
    }
    if s.lambda <= 0.0 || s.eta <= 0.0 || s.v_0 <= 0.0 {
        return false;
    }
    true
}
pub fn correlations_ok_code(c: &FxHlmmCorrelations, t: &LiborTenor) -> bool {
    c.validate(t).is_ok()
}
pub fn correlations_ok(c: &FxHlmmCorrelations, t: &LiborTenor) -> bool {
    let n = t.libors.len();
    if c.rho_xi_sigma.abs() > 1.0 + 1e-12 || c.rho_xi_d.len() != n || c.rho_xi_f.len() != n || c.libor_cross_corr.len() != n {
        return false;
    }
    for row in &c.libor_cross_corr {
        if row.len() != n {
            return false;
        }
        for x in row {
            if x.abs() > 1.0 + 1e-12 {
                return false;
            }
        }
    }
    for x in &c.rho_xi_d {
        if x.abs() > 1.0 + 1e-12 {
            return false;
        }
    }
    for x in &c.rho_xi_f {
        if x.abs() > 1.0 + 1e-12 {
            return false;
        }
    }
    true
}
pub fn params_ok_code(p: &FxHlmmParams) -> bool {
    p.validate().is_ok()
}
pub fn params_ok(p: &FxHlmmParams) -> bool {
    p.domestic.validate(&p.tenor).is_ok() && p.foreign.validate(&p.tenor).is_ok() && p.correlations.validate(&p.tenor).is_ok()
}
// frozen bond-volatility weight of period k = 1..=N
fn weight(s: &DdSvLmm, t: &LiborTenor, k: usize) -> f64 {
    let a = t.tau(k) * t.libors[k - 1];
    a * s.sigmas[k - 1] / (1.0 + a)
}
pub fn weights(s: &DdSvLmm, t: &LiborTenor) -> Vec<f64> {
    (0..t.libors.len()).map(|j| weight(s, t, j + 1)).collect()
}
fn square(s: &DdSvLmm, t: &LiborTenor, from: usize) -> f64 {
    let w = s.psi(t);
    let n = t.libors.len();
    if from > n {
        return 0.0;
    }
    let mut sum = 0.0;
    for j in from..=n {
        sum += w[j - 1] * w[j - 1];
    }
    for i in from..=n {
        for j in i + 1..=n {
            sum += 2.0 * w[i - 1] * w[j - 1] * s.libor_corr[i - 1][j - 1];
        }
    }
    sum
}
pub fn square_d(p: &FxHlmmParams, from: usize) -> f64 {
    square(&p.domestic, &p.tenor, from)
}
pub fn square_f(p: &FxHlmmParams, from: usize) -> f64 {
    square(&p.foreign, &p.tenor, from)
}
// cross terms of spot and both bonds, square roots of the variances replaced by their means
pub fn cross(p: &FxHlmmParams, t: f64, from: usize) -> f64 {
    let n = p.tenor.libors.len();
    let root = |s: &DdSvLmm| CirProcess { kappa: s.lambda, theta: s.v_0, gamma: s.eta, sigma_0: s.v_0 }.sqrt_mean(t);
    let (x, d, f) = (p.heston.sqrt_mean(t), root(&p.domestic), root(&p.foreign));
    let (wd, wf) = (p.domestic.psi(&p.tenor), p.foreign.psi(&p.tenor));
    if from > n {
        return 0.0;
    }
    let c = &p.correlations;
    let mut xd = 0.0;
    let mut xf = 0.0;
    let mut df = 0.0;
    for j in from..=n {
        xd += wd[j - 1] * c.rho_xi_d[j - 1];
    }
    for j in from..=n {
        xf += wf[j - 1] * c.rho_xi_f[j - 1];
    }
    for j in from..=n {
        for k in from..=n {
            df += wd[j - 1] * wf[k - 1] * c.libor_cross_corr[j - 1][k - 1];
        }
    }
    2.0 * x * d * xd - 2.0 * x * f * xf - 2.0 * d * f * df
}
