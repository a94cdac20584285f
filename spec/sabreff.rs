//! in src/models/forex/sabr_effective.rs
//! Constant parameters equivalent to piecewise-constant ones.
use super::*;

pub fn piecewise(knots: Vec<f64>, values: Vec<f64>) -> PiecewiseConstant {
    PiecewiseConstant { knots, values }
}
pub fn constant(t: f64, v: f64) -> PiecewiseConstant {
    PiecewiseConstant { knots: vec![0.0, t], values: vec![v] }
}
pub fn segments(p: &PiecewiseConstant) -> usize {
    p.values.len()
}
pub fn last(p: &PiecewiseConstant) -> f64 {
    p.knots[p.knots.len() - 1]
}
// the value of the first segment whose right end is not before t
pub fn at(p: &PiecewiseConstant, t: f64) -> f64 {
    if t <= p.knots[0] {
        return p.values[0];
    }
    for k in 1..p.knots.len() {
        if t <= p.knots[k] + 1e-15 {
            return p.values[k - 1];
        }
    }
    p.values[p.values.len() - 1]
}

// ∫₀^d e^{cu} du
fn growth(c: f64, d: f64) -> f64 {
    let x = c * d;
    if x.abs() < 1e-8 { d * (1.0 + x / 2.0 + x * x / 6.0 + x * x * x / 24.0) } else { x.exp_m1() / c }
}
// ∫₀^d∫₀^u e^{5gs} e^{gu} ds du
fn nested(g: f64, d: f64) -> f64 {
    if (g * d).abs() < 1e-4 { d * d / 2.0 + 7.0 * g * d * d * d / 6.0 + 43.0 * g * g * d * d * d * d / 24.0 } else { (growth(6.0 * g, d) - growth(g, d)) / (5.0 * g) }
}
fn count(p: &PiecewiseConstant, t: f64) -> usize {
    p.knots.iter().take_while(|&&k| k <= t + 1e-12).count() - 1
}
fn cut(g: &PiecewiseConstant, w: &PiecewiseConstant, t: f64) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    assert_eq!(g.knots, w.knots);
    assert!(g.knots.iter().any(|&k| (k - t).abs() < 1e-12));
    let n = count(g, t);
    let d: Vec<f64> = (0..n).map(|k| g.knots[k + 1] - g.knots[k]).collect();
    (d, g.values[..n].to_vec(), w.values[..n].to_vec())
}
// ∫₀^T w² e^{∫γ²}
fn first(d: &[f64], g: &[f64], w: &[f64]) -> f64 {
    let (mut acc, mut total) = (0.0_f64, 0.0);
    for k in 0..d.len() {
        let q = g[k] * g[k];
        total += w[k] * w[k] * acc.exp() * growth(q, d[k]);
        acc += q * d[k];
    }
    total
}
// ∫₀^T w²(t) ∫₀^t w²(s) e^{6∫₀ˢγ² + ∫ₛᵗγ²} ds dt
fn second(d: &[f64], g: &[f64], w: &[f64]) -> f64 {
    let (mut acc, mut inner, mut total) = (0.0_f64, 0.0_f64, 0.0);
    for k in 0..d.len() {
        let q = g[k] * g[k];
        let v = w[k] * w[k];
        total += v * acc.exp() * inner * growth(q, d[k]) + v * v * (6.0 * acc).exp() * nested(q, d[k]);
        inner += v * (5.0 * acc).exp() * growth(5.0 * q, d[k]);
        acc += q * d[k];
    }
    total
}
fn target(q: f64, t: f64, i: f64) -> f64 {
    let x = q * t;
    let e = x.exp_m1();
    if e.abs() < 1e-300 {
        return i * i / 2.0;
    }
    let n = if x.abs() < 1e-3 {
        5.0 / 2.0 * x * x + 35.0 / 6.0 * x * x * x + 215.0 / 24.0 * x * x * x * x + 1295.0 / 120.0 * x * x * x * x * x
    } else {
        (6.0 * x).exp_m1() / 6.0 - x.exp_m1()
    };
    i * i / (5.0 * e * e) * n
}
pub fn vol_vol(g: &PiecewiseConstant, w: &PiecewiseConstant, t: f64) -> f64 {
    let (d, gs, ws) = cut(g, w, t);
    let i = first(&d, &gs, &ws);
    let l = second(&d, &gs, &ws);
    if l <= i * i / 2.0 * (1.0 + 1e-12) {
        return 0.0;
    }
    let mut lo = 0.0;
    let mut hi = 4.0;
    let mut gap = target(hi, t, i) - l;
    let mut n = 0;
    while gap < 0.0 && n < 20 {
        hi *= 2.0;
        gap = target(hi, t, i) - l;
        n += 1;
    }
    assert!(gap >= 0.0);
    for _ in 0..60 {
        let mid = (lo + hi) / 2.0;
        if target(mid, t, i) - l > 0.0 {
            hi = mid;
        } else {
            lo = mid;
        }
        if hi - lo < 1e-14 {
            break;
        }
    }
    ((lo + hi) / 2.0).sqrt()
}
pub fn term_structure(g: &PiecewiseConstant, w: &PiecewiseConstant, t: f64) -> f64 {
    let (d, gs, ws) = cut(g, w, t);
    let i = first(&d, &gs, &ws);
    let q = effective_vol_vol(g, w, t).powi(2);
    if (q * t).abs() < 1e-6 { (i / t).sqrt() } else { (q * i / (q * t).exp_m1()).sqrt() }
}
pub fn correlation(g: &PiecewiseConstant, w: &PiecewiseConstant, r: &PiecewiseConstant, t: f64) -> f64 {
    let (d, gs, ws) = cut(g, w, t);
    let rs = r.values[..d.len()].to_vec();
    let mut sum = 0.0;
    for k in 0..d.len() {
        assert!(ws[k].abs() > 1e-15);
        sum += rs[k] * gs[k] / ws[k] * d[k];
    }
    let v = effective_vol_vol(g, w, t);
    let s = effective_term_structure(g, w, t);
    if v.abs() < 1e-15 { 0.0 } else { s * sum / (v * t) }
}
