//! in src/models/interestrate/fmm.rs
//! Forward market model with backward-looking rates.
use super::*;

pub fn tenor(dates: Vec<f64>, initial_rates: Vec<f64>) -> FmmTenor {
    if dates.len() < 2 || dates.len() != initial_rates.len() + 1 || dates[0] < 0.0 {
        panic!();
    }
    for i in 1..dates.len() {
        if dates[i] <= dates[i - 1] {
            panic!();
        }
    }
    FmmTenor { dates, initial_rates }
}
pub fn count(t: &FmmTenor) -> usize {
    t.initial_rates.len()
}
pub fn accrual(t: &FmmTenor, j: usize) -> f64 {
    if j == 0 || j > t.initial_rates.len() {
        panic!();
    }
    t.dates[j] - t.dates[j - 1]
}
// first period that ends at or after the time, one past the last when there is none
pub fn period(t: &FmmTenor, at: f64) -> usize {
    let mut j = 1;
    while j <= t.initial_rates.len() {
        if at <= t.dates[j] {
            return j;
        }
        j += 1;
    }
    t.initial_rates.len() + 1
}
// one before the period, zero after, straight line inside
pub fn decay(_d: &LinearDecay, j: usize, t: f64, x: &FmmTenor) -> f64 {
    let (a, b) = (x.dates[j - 1], x.dates[j]);
    if t <= a {
        return 1.0;
    }
    if t >= b {
        return 0.0;
    }
    1.0 - (t - a) / (b - a)
}
pub fn decayed(d: &LinearDecay, j: usize, from: f64, to: f64, x: &FmmTenor) -> f64 {
    decay(d, j, from, x) - decay(d, j, to, x)
}
pub fn volatility(m: &Fmm, j: usize, t: f64) -> f64 {
    match &m.vol_schedule {
        None => m.sigmas[j - 1],
        Some(VolSchedule::PiecewiseConstant(all)) => {
            let knots = &all[j - 1];
            if knots.is_empty() {
                panic!();
            }
            let mut v = knots[0].1;
            for k in knots {
                if k.0 > t {
                    break;
                }
                v = k.1;
            }
            v
        }
        Some(VolSchedule::HoLeeEquivalent { vol, mean_reversion }) => {
            let (from, to) = (m.tenor.dates[j - 1], m.tenor.dates[j]);
            let a = *mean_reversion;
            if t >= to {
                0.0
            } else if a.abs() < 1e-12 {
                vol * (to - from)
            } else {
                vol * ((a * (t - from)).exp() - (a * (t - to)).exp()) / a
            }
        }
    }
}
pub fn level(m: &Fmm, j: usize, r: f64) -> f64 {
    match &m.betas {
        Some(b) => b[j - 1] * r + (1.0 - b[j - 1]) * m.tenor.initial_rates[j - 1],
        None => 1.0,
    }
}
pub fn adapted(m: &Fmm, j: usize, t: f64, r: f64) -> f64 {
    volatility(m, j, t) * level(m, j, r)
}
pub fn displaced(mut m: Fmm, betas: Vec<f64>) -> Fmm {
    if betas.len() != m.tenor.initial_rates.len() {
        panic!();
    }
    for b in &betas {
        if *b < 0.0 || *b > 1.0 {
            panic!();
        }
    }
    m.betas = Some(betas);
    m
}
// lower-triangular factor row by row; none unless every pivot is positive
pub fn factor(c: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = c.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut rest = c[i][j];
            for k in 0..j {
                rest -= l[i][k] * l[j][k];
            }
            if i == j {
                if rest <= 0.0 {
                    return None;
                }
                l[i][i] = rest.sqrt();
            } else {
                l[i][j] = rest / l[j][j];
            }
        }
    }
    Some(l)
}
pub fn start(model: Fmm, seed: u64) -> Result<FmmSimulator, &'static str> {
    match cholesky(&model.correlation) {
        None => Err("correlation is not positive-definite"),
        Some(chol) => Ok(FmmSimulator { model, chol, rng: ChaCha20Rng::seed_from_u64(seed) }),
    }
}
pub fn origin(s: &FmmSimulator) -> FmmPath {
    let r = &s.model.tenor.initial_rates;
    let n = r.len();
    let mut first = vec![0.0; n];
    first[0] = r[0];
    FmmPath { rates: r.clone(), y_diag: vec![0.0; n], rates_at_start: first, y_at_start: vec![0.0; n], x_active: 0.0, t: 0.0 }
}
pub fn step(s: &mut FmmSimulator, x: &mut FmmPath, dt: f64) {
    if dt <= 0.0 {
        panic!();
    }
    let n = s.model.tenor.initial_rates.len();
    let t = x.t;
    let mid = t + dt / 2.0;
    let z: Vec<f64> = (0..n).map(|_| s.rng.sample(StandardNormal)).collect();
    let mut dw = Vec::new();
    for (i, row) in s.chol.iter().enumerate() {
        let v: f64 = row.iter().zip(z.iter()).take(i + 1).map(|(a, b)| a * b).sum();
        dw.push(v * dt.sqrt());
    }
    let m = &s.model;
    let mut g = vec![0.0; n];
    let mut w = vec![0.0; n];
    let mut v = vec![0.0; n];
    for i in 1..=n {
        let d = m.decay.gamma(i, mid, &m.tenor);
        g[i - 1] = d;
        let r = x.rates[i - 1];
        let u = m.adapted_vol(i, mid, r);
        v[i - 1] = u;
        let a = m.tenor.tau(i);
        w[i - 1] = u * d * a / (1.0 + a * r);
    }
    let now = m.tenor.eta(t);
    let mut rates = x.rates.clone();
    for j in now..=n {
        if g[j - 1] == 0.0 {
            continue;
        }
        let mut sum = 0.0;
        for i in now..=j {
            sum += m.correlation[i - 1][j - 1] * w[i - 1];
        }
        let vol = v[j - 1] * g[j - 1];
        rates[j - 1] = x.rates[j - 1] + vol * sum * dt + vol * dw[j - 1];
    }
    for j in 1..=n {
        let end = m.tenor.dates[j];
        if t < end {
            let r = x.rates[j - 1];
            let k = m.adapted_vol(j, mid, r) / (r + 1.0 / m.tenor.tau(j));
            x.y_diag[j - 1] += k * k * dt.min(end - t);
        }
    }
    if now >= 1 && now <= n && t > m.tenor.dates[now - 1] && t < m.tenor.dates[now] {
        let a = m.tenor.tau(now);
        let r = (x.rates[now - 1] + rates[now - 1]) / 2.0;
        let y = x.y_diag[now - 1] - x.y_at_start[now - 1];
        x.x_active += y / a * dt + m.adapted_vol(now, mid, r) / (r + 1.0 / a) * dw[now - 1];
    }
    x.rates = rates;
    x.t = t + dt;
    let later = m.tenor.eta(x.t);
    if later > now {
        for k in now + 1..=later.min(n) {
            x.rates_at_start[k - 1] = x.rates[k - 1];
            x.y_at_start[k - 1] = x.y_diag[k - 1];
            x.x_active = 0.0;
        }
    }
}
pub fn terminal(s: &mut FmmSimulator, end: f64, steps: usize, paths: usize) -> Vec<FmmPath> {
    let mut out = Vec::new();
    for _ in 0..paths {
        let mut x = s.initial_path();
        for _ in 0..steps {
            s.step(&mut x, end / steps as f64);
        }
        out.push(x);
    }
    out
}
pub fn model_step(s: &mut FmmSimulator, x: &FmmPath, _t: f64, dt: f64) -> FmmPath {
    let mut next = x.clone();
    s.step(&mut next, dt);
    next
}
// bond over the first part of a future period
pub fn back(m: &Fmm, x: &FmmPath, k: usize, to: f64, p: f64, whole: f64) -> f64 {
    if k < 1 || k > m.tenor.initial_rates.len() {
        panic!();
    }
    let (a, b) = (m.tenor.dates[k - 1], m.tenor.dates[k]);
    if x.t > a + 1e-15 || to <= a - 1e-15 || to > b + 1e-15 {
        panic!();
    }
    let g = m.decay.big_g(k, a, to, &m.tenor);
    let h = m.decay.big_g(k, to, b, &m.tenor);
    p * (1.0 + m.tenor.tau(k) * x.rates[k - 1]).powf(-g) * whole.powf(-g) * (g * h * x.y_diag[k - 1] / 2.0).exp()
}
// bond inside the running period
pub fn front(m: &Fmm, x: &FmmPath, to: f64, p: f64, whole: f64) -> f64 {
    let t = x.t;
    let k = m.tenor.eta(t);
    if k < 1 || k > m.tenor.initial_rates.len() {
        panic!();
    }
    let (a, b) = (m.tenor.dates[k - 1], m.tenor.dates[k]);
    if t <= a - 1e-15 || t >= b + 1e-15 || to <= t - 1e-15 || to > b + 1e-15 {
        panic!();
    }
    let g = m.decay.big_g(k, t, to, &m.tenor);
    let y0 = x.y_at_start[k - 1];
    let y = x.y_diag[k - 1] - y0;
    let shift = m.decay.big_g(k, to, b, &m.tenor) * m.decay.big_g(k, a, to, &m.tenor) - m.decay.big_g(k, t, b, &m.tenor) * m.decay.big_g(k, a, t, &m.tenor);
    let e = -(g * x.x_active) - g * g * y / 2.0 + y0 * shift / 2.0;
    p * whole.powf(-g) * (1.0 + m.tenor.tau(k) * x.rates_at_start[k - 1]).powf(-g) * e.exp()
}
fn ratio<C: InitialDiscountCurve>(c: &C, s: f64, t: f64) -> f64 {
    c.p0(t) / c.p0(s)
}
// bond inside period k: to a date no later than its end
fn within<C: InitialDiscountCurve>(m: &Fmm, x: &FmmPath, k: usize, to: f64, c: &C) -> f64 {
    let (a, b) = (m.tenor.dates[k - 1], m.tenor.dates[k]);
    if x.t <= a + 1e-15 {
        return back_stub_forward_bond(m, x, k, to, ratio(c, a, to), ratio(c, a, b));
    }
    front_stub_bond(m, x, to, ratio(c, x.t, to), ratio(c, a, b))
}
pub fn bond(m: &Fmm, x: &FmmPath, to: f64, c: &FlatCurve) -> f64 {
    let t = x.t;
    let n = m.tenor.initial_rates.len();
    if to < t - 1e-15 {
        panic!();
    }
    if (to - t).abs() < 1e-15 {
        return 1.0;
    }
    let (i, j) = (m.tenor.eta(t), m.tenor.eta(to));
    if i == j && i >= 1 && i <= n {
        return within(m, x, i, to, c);
    }
    if j > n {
        panic!();
    }
    let head = within(m, x, i, m.tenor.dates[i], c);
    let mut chain = 1.0;
    for k in i + 1..j {
        chain /= 1.0 + m.tenor.tau(k) * x.rates[k - 1];
    }
    let (a, b) = (m.tenor.dates[j - 1], m.tenor.dates[j]);
    head * chain * back_stub_forward_bond(m, x, j, to, ratio(c, a, to), ratio(c, a, b))
}
pub fn bond_code(m: &Fmm, x: &FmmPath, to: f64, c: &FlatCurve) -> f64 {
    bond_price(m, x, to, c)
}
pub fn account(m: &Fmm, x: &FmmPath, c: &FlatCurve) -> f64 {
    let n = m.tenor.initial_rates.len();
    let k = m.tenor.eta(x.t);
    let mut v = 1.0;
    for j in 1..=k.min(n) {
        v *= 1.0 + m.tenor.tau(j) * x.rates[j - 1];
    }
    if k > n {
        return v;
    }
    v * bond_price(m, x, m.tenor.dates[k], c)
}
pub fn account_code(m: &Fmm, x: &FmmPath, c: &FlatCurve) -> f64 {
    bank_account(m, x, c)
}
pub fn flat(c: &FlatCurve, t: f64) -> f64 {
    (-c.rate * t).exp()
}
// constant volatilities, no displacement
pub fn build(tenor: FmmTenor, sigmas: Vec<f64>, correlation: Vec<Vec<f64>>, decay: LinearDecay) -> Fmm {
    let n = tenor.initial_rates.len();
    if sigmas.len() != n || correlation.len() != n {
        panic!();
    }
    for i in 0..n {
        if correlation[i].len() != n || (correlation[i][i] - 1.0).abs() >= 1e-12 {
            panic!();
        }
        for j in 0..n {
            let c = correlation[i][j];
            if (c - correlation[j][i]).abs() >= 1e-12 || c.abs() > 1.0 + 1e-12 {
                panic!();
            }
        }
    }
    for s in &sigmas {
        if !s.is_finite() || *s < 0.0 {
            panic!();
        }
    }
    Fmm { tenor, sigmas, correlation, decay, betas: None, vol_schedule: None }
}
pub fn scheduled(mut m: Fmm, by: VolSchedule) -> Fmm {
    if let VolSchedule::PiecewiseConstant(all) = &by {
        if all.len() != m.tenor.initial_rates.len() {
            panic!();
        }
        for knots in all {
            if knots.is_empty() {
                panic!();
            }
            for i in 1..knots.len() {
                if knots[i].0 <= knots[i - 1].0 {
                    panic!();
                }
            }
        }
    }
    m.vol_schedule = Some(by);
    m
}
