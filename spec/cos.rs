//! in src/models/common/cos_pricer.rs
//! Fourier-cosine pricing of a European option from a characteristic function.
use super::*;
use std::f64::consts::PI;

// integrals of exp(y)·cos(u(y−a)) and cos(u(y−a)) over [lo, hi]
fn chi(u: f64, a: f64, lo: f64, hi: f64) -> f64 {
    let at = |y: f64| y.exp() * ((u * (y - a)).cos() + u * (u * (y - a)).sin()) / (1.0 + u * u);
    at(hi) - at(lo)
}
fn psi(k: usize, u: f64, a: f64, lo: f64, hi: f64) -> f64 {
    if k == 0 { hi - lo } else { ((u * (hi - a)).sin() - (u * (lo - a)).sin()) / u }
}
fn price<C: ForwardChf>(p: &CosPricer<C>, strike: f64, df: f64, call: bool) -> f64 {
    assert!(strike > 0.0);
    let (a, b) = p.range;
    let y = strike.ln().max(a).min(b);
    let mut sum = 0.0;
    for k in 0..p.n_terms {
        let u = PI * k as f64 / (b - a);
        let payoff = if call { chi(u, a, y, b) - strike * psi(k, u, a, y, b) } else { strike * psi(k, u, a, a, y) - chi(u, a, a, y) };
        let c = (p.chf.evaluate(Complex64::new(u, 0.0)) * Complex64::new(0.0, -u * a).exp()).re;
        let half = if k == 0 { 0.5 } else { 1.0 };
        sum += half * c * payoff * 2.0 / (b - a);
    }
    df * sum
}
pub fn call<C: ForwardChf>(p: &CosPricer<C>, strike: f64, df: f64) -> f64 {
    price(p, strike, df, true)
}
pub fn put<C: ForwardChf>(p: &CosPricer<C>, strike: f64, df: f64) -> f64 {
    price(p, strike, df, false)
}
pub fn new<'a, C: ForwardChf>(chf: &'a C) -> CosPricer<'a, C> {
    let w = 10.0 * (chf.typical_variance() * chf.expiry()).sqrt().max(1e-6);
    let m = chf.log_forward();
    CosPricer { chf, n_terms: 128, range: (m - w, m + w) }
}
pub fn with_n_terms<C: ForwardChf>(p: CosPricer<C>, n: usize) -> CosPricer<C> {
    assert!(n >= 2);
    CosPricer { chf: p.chf, n_terms: n, range: p.range }
}
pub fn with_range<C: ForwardChf>(p: CosPricer<C>, a: f64, b: f64) -> CosPricer<C> {
    assert!(b > a);
    CosPricer { chf: p.chf, n_terms: p.n_terms, range: (a, b) }
}

// the log of the forward rate and the long-run variance of each model
pub fn hhw(c: &FxHhw1ForwardChf) -> (f64, f64, f64) {
    let p = c.params();
    ((p.fx_0 * ((p.rd_0 - p.rf_0) * c.expiry).exp()).ln(), p.heston.theta, c.expiry)
}
pub fn hlmm(c: &FxHlmm1ForwardChf) -> (f64, f64, f64) {
    let p = c.params();
    (p.fx_0.ln(), p.heston.theta, c.expiry)
}
pub fn fmm(c: &crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf) -> (f64, f64, f64) {
    let p = c.params();
    (p.fx_0.ln(), p.heston.theta, c.expiry)
}
pub fn seen<C: ForwardChf>(c: &C) -> (f64, f64, f64) {
    (c.log_forward(), c.typical_variance(), c.expiry())
}
pub fn hhw_seen(c: &FxHhw1ForwardChf) -> (f64, f64, f64) {
    seen(c)
}
pub fn hlmm_seen(c: &FxHlmm1ForwardChf) -> (f64, f64, f64) {
    seen(c)
}
pub fn fmm_seen(c: &crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf) -> (f64, f64, f64) {
    seen(c)
}
