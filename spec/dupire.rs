//! in src/models/forex/dupire_local_vol.rs
//! Dupire local variance on a grid.
use super::*;

// slope between the neighbours of i, one-sided at the ends
fn slope(y: impl Fn(usize) -> f64, x: &[f64], i: usize) -> f64 {
    let n = x.len();
    let (lo, hi) = if i == 0 {
        (0, 1)
    } else if i == n - 1 {
        (n - 2, n - 1)
    } else {
        (i - 1, i + 1)
    };
    (y(hi) - y(lo)) / (x[hi] - x[lo])
}
// second divided difference at the nearest interior point
fn curvature(y: &[f64], x: &[f64], j: usize) -> f64 {
    let n = x.len();
    let j = if j == 0 {
        1
    } else if j == n - 1 {
        n - 2
    } else {
        j
    };
    let (h, g) = (x[j] - x[j - 1], x[j + 1] - x[j]);
    2.0 * (y[j + 1] * h - y[j] * (h + g) + y[j - 1] * g) / (h * g * (h + g))
}
pub fn build(ts: &[f64], ks: &[f64], vols: &[Vec<f64>], spot: f64, rd: f64, rf: f64) -> DupireLocalVol {
    let mut c = Vec::new();
    for i in 0..ts.len() {
        let t = ts[i];
        let mut row = Vec::new();
        for j in 0..ks.len() {
            row.push(bs_call_forward(spot * ((rd - rf) * t).exp(), ks[j], vols[i][j], t, (-rd * t).exp()));
        }
        c.push(row);
    }
    let mut variance = Vec::new();
    for i in 0..ts.len() {
        let mut row = Vec::new();
        for j in 0..ks.len() {
            let k = ks[j];
            let num = slope(|i| c[i][j], ts, i) + (rd - rf) * k * slope(|j| c[i][j], ks, j) + rf * c[i][j];
            let den = k * k * curvature(&c[i], ks, j);
            let v = if den > 1e-8 && num > 0.0 { 2.0 * num / den } else { vols[i][j].powi(2) };
            row.push(v.clamp(0.01 * 0.01, 4.0));
        }
        variance.push(row);
    }
    DupireLocalVol { expiries: ts.to_vec(), strikes: ks.to_vec(), variance }
}
// bilinear inside the grid, flat outside
fn cell(x: &[f64], v: f64) -> (usize, usize, f64) {
    let n = x.len();
    if v <= x[0] {
        return (0, 0, 0.0);
    }
    if v >= x[n - 1] {
        return (n - 1, n - 1, 0.0);
    }
    let mut i = 1;
    while i < n {
        if v <= x[i] {
            return (i - 1, i, (v - x[i - 1]) / (x[i] - x[i - 1]));
        }
        i += 1;
    }
    (n - 1, n - 1, 0.0)
}
pub fn local_variance(d: &DupireLocalVol, t: f64, k: f64) -> f64 {
    let (i, i2, p) = cell(&d.expiries, t);
    let (j, j2, q) = cell(&d.strikes, k);
    let v = &d.variance;
    (1.0 - p) * ((1.0 - q) * v[i][j] + q * v[i][j2]) + p * ((1.0 - q) * v[i2][j] + q * v[i2][j2])
}
pub fn local_vol(d: &DupireLocalVol, t: f64, k: f64) -> f64 {
    d.local_variance(t, k).sqrt()
}
pub fn t_range(d: &DupireLocalVol) -> (f64, f64) {
    (d.expiries[0], d.expiries[d.expiries.len() - 1])
}
pub fn k_range(d: &DupireLocalVol) -> (f64, f64) {
    (d.strikes[0], d.strikes[d.strikes.len() - 1])
}
