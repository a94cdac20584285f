//! Downhill simplex search.
use crate::math::optimize::*;

fn along(n: usize, from: &[f64], to: &[f64], w: f64) -> Vec<f64> {
    let mut v = vec![0.0; n];
    for j in 0..n {
        v[j] = from[j] + w * (to[j] - from[j]);
    }
    v
}
pub fn options() -> NelderMeadOptions {
    NelderMeadOptions { max_iter: 500, ftol: 1e-8, xtol: 1e-8, step_frac: 0.05 }
}
pub fn minimise<F: FnMut(&[f64]) -> f64>(mut f: F, x0: &[f64], o: NelderMeadOptions) -> Minimum {
    let n = x0.len();
    assert!(n >= 1);
    let mut s: Vec<Vec<f64>> = vec![x0.to_vec()];
    for i in 0..n {
        let mut v = x0.to_vec();
        v[i] += if x0[i].abs() > 1e-12 { o.step_frac * x0[i].abs() } else { o.step_frac.max(1e-4) };
        s.push(v);
    }
    let mut y = Vec::new();
    for v in &s {
        y.push(f(v));
    }
    let mut it = 0;
    let mut converged = false;
    while it < o.max_iter {
        it += 1;
        let mut ord: Vec<usize> = (0..=n).collect();
        ord.sort_by(|a, b| y[*a].partial_cmp(&y[*b]).unwrap());
        let (best, worst, second) = (ord[0], ord[n], ord[n - 1]);
        let mut spread = 0.0_f64;
        for i in 0..n {
            let (mut lo, mut hi) = (s[best][i], s[best][i]);
            for k in &ord {
                hi = hi.max(s[*k][i]);
                lo = lo.min(s[*k][i]);
            }
            spread = spread.max(hi - lo);
        }
        if (y[worst] - y[best]).abs() < o.ftol && spread < o.xtol {
            converged = true;
            break;
        }
        let mut c = vec![0.0; n];
        for (i, k) in ord.iter().enumerate() {
            if i != n {
                for j in 0..n {
                    c[j] += s[*k][j];
                }
            }
        }
        for j in 0..n {
            c[j] /= n as f64;
        }
        let r = along(n, &s[worst], &c, 2.0);
        let fr = f(&r);
        if fr < y[second] && fr >= y[best] {
            s[worst] = r;
            y[worst] = fr;
            continue;
        }
        if fr < y[best] {
            let e = along(n, &c, &r, 2.0);
            let fe = f(&e);
            let (v, w) = if fe < fr { (e, fe) } else { (r, fr) };
            s[worst] = v;
            y[worst] = w;
            continue;
        }
        let h = along(n, &c, &s[worst], 0.5);
        let fh = f(&h);
        if fh < y[worst] {
            s[worst] = h;
            y[worst] = fh;
            continue;
        }
        for k in 1..=n {
            let v = along(n, &s[best], &s[ord[k]], 0.5);
            y[ord[k]] = f(&v);
            s[ord[k]] = v;
        }
    }
    let b = (0..=n).min_by(|a, b| y[*a].partial_cmp(&y[*b]).unwrap()).unwrap();
    Minimum { x: s[b].clone(), f: y[b], iterations: it, converged }
}
