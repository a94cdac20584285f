//! in src/models/forex/fx_fmm1_chf.rs
//! Characteristic function of the log forward in the linearised model on backward-looking rates.
use super::*;

fn real(x: f64) -> Complex64 {
    Complex64::new(x, 0.0)
}
// spot variance: exponent and its integral over time to expiry
fn variance(u: Complex64, s: f64, p: &FxFmmParams) -> (Complex64, Complex64) {
    if s <= 0.0 {
        return (real(0.0), real(0.0));
    }
    let (kappa, gamma, rho) = (p.heston.kappa, p.heston.gamma, p.correlations.rho_xi_sigma);
    let iu = Complex64::new(0.0, 1.0) * u;
    let x = real(kappa) - iu * (gamma * rho);
    let d = (x * x - iu * (iu - real(1.0)) * (gamma * gamma)).sqrt();
    let e = (-d * s).exp();
    let g = (x - d) / (x + d);
    let c = (iu * iu - iu) * (real(1.0) - e) / (x + d - (x - d) * e);
    let a = real(kappa * p.heston.theta) / (real(gamma) * real(gamma)) * ((x - d) * s - 2.0 * ((real(1.0) - g * e) / (real(1.0) - g)).ln());
    (c, a)
}
// rate variance with mean reversion and constant weight over a stretch: exponent at its end, integral over it
fn riccati(u: Complex64, m: &crate::models::forex::fx_fmm::FmmSide, weight: f64, d0: Complex64, s: f64) -> (Complex64, Complex64) {
    if s <= 0.0 {
        return (d0, real(0.0));
    }
    let q = m.eta * m.eta;
    let root = (real(m.lambda * m.lambda) + (u * u + Complex64::new(0.0, 1.0) * u) * real(q * weight)).sqrt();
    let num = real(m.lambda) - root - d0 * real(q);
    let l = num / (real(m.lambda) + root - d0 * real(q));
    let e = (-root * s).exp();
    let d = d0 + num * (real(1.0) - e) / ((real(1.0) - l * e) * real(q));
    let a = real(m.v_0 * m.lambda / q) * ((real(m.lambda) - root) * s - 2.0 * ((real(1.0) - l * e) / (real(1.0) - l)).ln());
    (d, a)
}
// cross terms of spot and both bonds at a calendar time, over the periods from the first live one
fn cross(c: &FxFmm1ForwardChf, t: f64, start: usize) -> f64 {
    let p = c.params;
    let x = &p.tenor;
    let n = x.initial_rates.len();
    if start > n {
        return 0.0;
    }
    let (s, d, f) = (c.phi_sigma_cir.sqrt_mean(t), c.phi_d_cir.sqrt_mean(t), c.phi_f_cir.sqrt_mean(t));
    let wd = |j: usize| c.psi_base_d[j - 1] * p.domestic.decay.gamma(j, t, x);
    let wf = |j: usize| c.psi_base_f[j - 1] * p.foreign.decay.gamma(j, t, x);
    let k = &p.correlations;
    let mut sd = 0.0;
    let mut sf = 0.0;
    let mut df = 0.0;
    for j in start..=n {
        sd += wd(j) * k.rho_xi_d[j - 1];
    }
    for j in start..=n {
        sf += wf(j) * k.rho_xi_f[j - 1];
    }
    for i in start..=n {
        for j in start..=n {
            df += wd(i) * wf(j) * k.cross_rate_corr[i - 1][j - 1];
        }
    }
    2.0 * s * d * sd - 2.0 * s * f * sf - 2.0 * d * f * df
}
fn simpson(c: &FxFmm1ForwardChf, from: f64, to: f64, start: usize, n: usize) -> f64 {
    let h = (to - from) / n as f64;
    let mut sum = 0.0;
    for k in 0..=n {
        let w = if k == 0 || k == n { 1.0 } else if k % 2 == 1 { 4.0 } else { 2.0 };
        sum += w * cross(c, c.expiry - (from + k as f64 * h), start);
    }
    sum * h / 3.0
}
// times to expiry of the tenor dates before it, ascending, and of today
fn ends(p: &FxFmmParams, expiry: f64) -> Vec<f64> {
    let mut out: Vec<f64> = Vec::new();
    for k in (0..=p.tenor.m() - 1).rev() {
        let s = expiry - p.tenor.dates[k];
        if s > 0.0 && s < expiry + 1e-12 {
            out.push(s);
        }
    }
    if out.is_empty() || (out[out.len() - 1] - expiry).abs() > 1e-12 {
        out.push(expiry);
    }
    out
}
// each stretch cut into equal parts, weights frozen at the middle of a part
fn stretches(p: &FxFmmParams, expiry: f64, parts: usize) -> Vec<SubSegment> {
    let mut out = Vec::new();
    let mut from = 0.0;
    for to in ends(p, expiry) {
        if to - from > 0.0 {
            let h = (to - from) / parts as f64;
            for i in 0..parts {
                let lo = from + h * i as f64;
                let hi = if i == parts - 1 { to } else { lo + h };
                let mid = expiry - (lo + hi) / 2.0;
                let start_idx = p.tenor.eta(mid).min(p.tenor.m() + 1);
                out.push(SubSegment { tau: hi, length: hi - lo, start_idx, a_d: compute_a_d(p, mid, start_idx), a_f: compute_a_f(p, mid, start_idx) });
            }
        }
        from = to;
    }
    out
}
fn mean(s: &crate::models::forex::fx_fmm::FmmSide) -> CirProcess {
    CirProcess { kappa: s.lambda, theta: s.v_0, gamma: s.eta, sigma_0: s.v_0 }
}
pub fn built(p: &FxFmmParams, expiry: f64, parts: usize, n: usize) -> FxFmm1ForwardChf<'_> {
    if n < 2 || n % 2 != 0 || parts < 1 || expiry <= 0.0 || p.validate().is_err() {
        panic!();
    }
    FxFmm1ForwardChf {
        params: p,
        expiry,
        sub_segments: stretches(p, expiry, parts),
        psi_base_d: p.domestic.psi_base(&p.tenor),
        psi_base_f: p.foreign.psi_base(&p.tenor),
        phi_sigma_cir: p.heston,
        phi_d_cir: mean(&p.domestic),
        phi_f_cir: mean(&p.foreign),
        n_substeps_per_period: parts,
        n_simpson_per_segment: n,
    }
}
pub fn built_default(p: &FxFmmParams, expiry: f64) -> FxFmm1ForwardChf<'_> {
    built(p, expiry, 1, 32)
}
pub fn components(c: &FxFmm1ForwardChf, u: Complex64) -> ChfComponents {
    let p = c.params;
    let mut d_d = real(0.0);
    let mut d_f = real(0.0);
    let mut a = real(0.0);
    let mut from = 0.0;
    for s in &c.sub_segments {
        let (nd, ad) = riccati(u, &p.domestic, s.a_d, d_d, s.length);
        let (nf, af) = riccati(u, &p.foreign, s.a_f, d_f, s.length);
        let cross = (u * u + Complex64::new(0.0, 1.0) * u) * (simpson(c, from, s.tau, s.start_idx, c.n_simpson_per_segment.max(2)) / -2.0);
        a += variance(u, s.tau, p).1 - variance(u, from, p).1 + ad + af + cross;
        d_d = nd;
        d_f = nf;
        from = s.tau;
    }
    ChfComponents { a, b: Complex64::new(0.0, 1.0) * u, c: variance(u, c.expiry, p).0, d_d, d_f }
}
// both sides discount on the same tenor, so the forward is the spot
pub fn value(c: &FxFmm1ForwardChf, u: Complex64) -> Complex64 {
    let p = c.params;
    let k = c.components(u);
    (k.a + k.b * p.fx_0.ln() + k.c * p.heston.sigma_0 + k.d_d * p.domestic.v_0 + k.d_f * p.foreign.v_0).exp()
}
pub fn assembled(k: &ChfComponents, x: f64, s: f64, d: f64, f: f64) -> Complex64 {
    (k.a + k.b * x + k.c * s + k.d_d * d + k.d_f * f).exp()
}
