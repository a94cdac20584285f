//! Closed-form prices on a forward, normal distribution, implied volatility.
use crate::math::normal::{cdf, pdf};
use crate::models::common::black_scholes::{bs_call_forward, bs_put_forward};
use statrs::distribution::{Continuous, ContinuousCDF, Normal};

pub fn normal_cdf(x: f64) -> f64 {
    Normal::new(0.0, 1.0).unwrap().cdf(x)
}
pub fn normal_pdf(x: f64) -> f64 {
    Normal::new(0.0, 1.0).unwrap().pdf(x)
}
pub fn normal_inverse(p: f64) -> f64 {
    assert!(p > 0.0 && p < 1.0);
    Normal::new(0.0, 1.0).unwrap().inverse_cdf(p)
}

// e: +1 call, -1 put
fn bachelier(e: f64, f: f64, k: f64, v: f64) -> f64 {
    if v <= 0.0 {
        return (e * (f - k)).max(0.0);
    }
    let s = v.sqrt();
    let d = e * (f - k) / s;
    e * (f - k) * cdf(d) + s * pdf(d)
}
pub fn bachelier_call(f: f64, k: f64, v: f64) -> f64 {
    bachelier(1.0, f, k, v)
}
pub fn bachelier_put(f: f64, k: f64, v: f64) -> f64 {
    bachelier(-1.0, f, k, v)
}
pub fn bachelier_vega(f: f64, k: f64, v: f64) -> f64 {
    if v <= 0.0 {
        return 0.0;
    }
    0.5 * pdf((f - k) / v.sqrt()) / v.sqrt()
}

fn black(e: f64, f: f64, k: f64, sigma: f64, t: f64, df: f64) -> f64 {
    if sigma <= 0.0 || t <= 0.0 {
        return df * (e * (f - k)).max(0.0);
    }
    let s = sigma * t.sqrt();
    let d1 = (f / k).ln() / s + 0.5 * s;
    let d2 = (f / k).ln() / s - 0.5 * s;
    df * e * (f * cdf(e * d1) - k * cdf(e * d2))
}
pub fn black_call(f: f64, k: f64, sigma: f64, t: f64, df: f64) -> f64 {
    black(1.0, f, k, sigma, t, df)
}
pub fn black_put(f: f64, k: f64, sigma: f64, t: f64, df: f64) -> f64 {
    black(-1.0, f, k, sigma, t, df)
}
pub fn black_gap(f: f64, k: f64, sigma: f64, t: f64, df: f64) -> f64 {
    bs_call_forward(f, k, sigma, t, df) - bs_put_forward(f, k, sigma, t, df)
}
pub fn black_parity(f: f64, k: f64, _s: f64, _t: f64, df: f64) -> f64 {
    df * (f - k)
}

// bisection on [1e-8, 5]; nothing outside the prices attained there
pub fn implied_tol(target: f64, f: f64, k: f64, t: f64, df: f64, call: bool, tol: f64) -> Option<f64> {
    let price = |s: f64| if call { bs_call_forward(f, k, s, t, df) } else { bs_put_forward(f, k, s, t, df) };
    let (mut lo, mut hi) = (1e-8, 5.0);
    if target + tol < price(lo) || price(hi) < target - tol {
        return None;
    }
    let mut n = 0;
    while n < 200 {
        let m = (lo + hi) / 2.0;
        if hi - lo < 1e-12 || (price(m) - target).abs() < tol {
            return Some(m);
        }
        if price(m) < target {
            lo = m;
        } else {
            hi = m;
        }
        n += 1;
    }
    Some((lo + hi) / 2.0)
}
pub fn implied(target: f64, f: f64, k: f64, t: f64, df: f64, call: bool) -> Option<f64> {
    implied_tol(target, f, k, t, df, call, 1e-8)
}
