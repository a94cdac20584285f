//! in src/models/forex/fx_fmm.rs
//! Currency model with stochastic-volatility backward-looking forward rates.
use super::*;

pub fn side_ok_code(s: &FmmSide, t: &FmmTenor) -> bool {
    s.validate(t).is_ok()
}
pub fn side_ok(s: &FmmSide, t: &FmmTenor) -> bool {
    let n = t.initial_rates.len();
    if s.sigmas.len() != n || s.rate_corr.len() != n {
        return false;
    }
    for row in &s.rate_corr {
        if row.len() != n {
            return false;
        }
    }
    for i in 0..n {
        if (s.rate_corr[i][i] - 1.0).abs() > 1e-12 {
            return false;
        }
        for j in 0..n {
            if (s.rate_corr[i][j] - s.rate_corr[j][i]).abs() > 1e-12 {
                return false;
            }
            if s.rate_corr[i][j].abs() > 1.0 + 1e-12 {
                return false;
            }
        }
    }
    if s.lambda <= 0.0 || s.eta <= 0.0 || s.v_0 <= 0.0 {
        return false;
    }
    for x in &s.sigmas {
        if !x.is_finite() || *x < 0.0 {
            return false;
        }
    }
    true
}
pub fn correlations_ok_code(c: &FxFmmCorrelations, t: &FmmTenor) -> bool {
    c.validate(t).is_ok()
}
pub fn correlations_ok(c: &FxFmmCorrelations, t: &FmmTenor) -> bool {
    let n = t.initial_rates.len();
    if c.rho_xi_sigma.abs() > 1.0 + 1e-12 || c.rho_xi_d.len() != n || c.rho_xi_f.len() != n {
        return false;
    }
    if c.rho_sigma_d.len() != n || c.rho_sigma_f.len() != n || c.cross_rate_corr.len() != n {
        return false;
    }
    for row in &c.cross_rate_corr {
        if row.len() != n {
            return false;
        }
        for x in row {
            if x.abs() > 1.0 + 1e-12 {
                return false;
            }
        }
    }
    for x in c.rho_xi_d.iter().chain(c.rho_xi_f.iter()).chain(&c.rho_sigma_d).chain(&c.rho_sigma_f) {
        if x.abs() > 1.0 + 1e-12 {
            return false;
        }
    }
    true
}
pub fn params_ok_code(p: &FxFmmParams) -> bool {
    p.validate().is_ok()
}
pub fn params_ok(p: &FxFmmParams) -> bool {
    p.domestic.validate(&p.tenor).is_ok() && p.foreign.validate(&p.tenor).is_ok() && p.correlations.validate(&p.tenor).is_ok()
}
fn weight(s: &FmmSide, t: &FmmTenor, k: usize) -> f64 {
    let a = t.tau(k);
    a * s.sigmas[k - 1] / (1.0 + a * t.initial_rates[k - 1])
}
pub fn weights(s: &FmmSide, t: &FmmTenor) -> Vec<f64> {
    (0..t.initial_rates.len()).map(|j| weight(s, t, j + 1)).collect()
}
pub fn decayed(s: &FmmSide, x: &FmmTenor, t: f64) -> Vec<f64> {
    let w = s.psi_base(x);
    (0..x.initial_rates.len()).map(|j| s.decay.gamma(j + 1, t, x) * w[j]).collect()
}
fn square(s: &FmmSide, x: &FmmTenor, t: f64, from: usize) -> f64 {
    let w = psi_at(s, x, t);
    let n = x.initial_rates.len();
    if from > n {
        return 0.0;
    }
    let mut sum = 0.0;
    for j in from..=n {
        sum += w[j - 1] * w[j - 1];
    }
    for i in from..=n {
        for j in i + 1..=n {
            sum += 2.0 * w[i - 1] * w[j - 1] * s.rate_corr[i - 1][j - 1];
        }
    }
    sum
}
pub fn square_d(p: &FxFmmParams, t: f64, from: usize) -> f64 {
    square(&p.domestic, &p.tenor, t, from)
}
pub fn square_f(p: &FxFmmParams, t: f64, from: usize) -> f64 {
    square(&p.foreign, &p.tenor, t, from)
}
// cross terms of spot and both bonds, square roots of the variances replaced by their means
pub fn cross(p: &FxFmmParams, t: f64, from: usize) -> f64 {
    let n = p.tenor.initial_rates.len();
    let root = |s: &FmmSide| CirProcess { kappa: s.lambda, theta: s.v_0, gamma: s.eta, sigma_0: s.v_0 }.sqrt_mean(t);
    let (x, d, f) = (p.heston.sqrt_mean(t), root(&p.domestic), root(&p.foreign));
    let (wd, wf) = (psi_at(&p.domestic, &p.tenor, t), psi_at(&p.foreign, &p.tenor, t));
    if from > n {
        return 0.0;
    }
    let c = &p.correlations;
    let mut xd = 0.0;
    let mut xf = 0.0;
    let mut df = 0.0;
    for j in from..=n {
        xd += wd[j - 1] * c.rho_xi_d[j - 1];
    }
    for j in from..=n {
        xf += wf[j - 1] * c.rho_xi_f[j - 1];
    }
    for j in from..=n {
        for k in from..=n {
            df += wd[j - 1] * wf[k - 1] * c.cross_rate_corr[j - 1][k - 1];
        }
    }
    2.0 * x * d * xd - 2.0 * x * f * xf - 2.0 * d * f * df
}
