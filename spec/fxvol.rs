//! in src/markets/forex/quotes/volsurface.rs
//! FX volatility surface: smile per expiry, total variance between expiries.
use super::*;

// σ(K) = a·x² + b·x + c + residual, x = N(ln(F/K) / (σ_ref √T))
fn smile(s: &SmileSection, strike: f64) -> f64 {
    let x = cdf((s.forward / strike).ln() / (s.sigma_ref * s.year_fraction.sqrt()));
    let m = (strike / s.forward).ln();
    let r = if m < s.log_m_min || m > s.log_m_max { 0.0 } else { between(&s.a_knots, m) };
    s.a * x * x + s.b * x + s.c + r
}

fn between(k: &[(f64, f64)], x: f64) -> f64 {
    if k.is_empty() {
        return 0.0;
    }
    if k.len() == 1 || x <= k[0].0 {
        return k[0].1;
    }
    let last = k[k.len() - 1];
    if x >= last.0 {
        return last.1;
    }
    for w in k.windows(2) {
        if x >= w[0].0 && x <= w[1].0 {
            return w[0].1 + (x - w[0].0) / (w[1].0 - w[0].0) * (w[1].1 - w[0].1);
        }
    }
    0.0
}

pub fn volatility(s: &FXVolSurface, expiry: NaiveDate, strike: f64) -> Result<f64> {
    if strike <= 0.0 {
        return Err(Error::InvalidData(String::new()));
    }
    let t = Actual365Fixed::default().year_fraction(s.valuation_date, expiry)?;
    if t <= 0.0 {
        return Err(Error::InvalidData(String::new()));
    }
    match s.smiles.binary_search_by_key(&expiry, |q| q.expiry) {
        Ok(i) => Ok(smile(&s.smiles[i], strike)),
        Err(0) => Ok(smile(&s.smiles[0], strike)),
        Err(i) if i == s.smiles.len() => Ok(smile(&s.smiles[i - 1], strike)),
        Err(i) => {
            let (lo, hi) = (&s.smiles[i - 1], &s.smiles[i]);
            let v0 = smile(lo, strike).powi(2) * lo.year_fraction;
            let v1 = smile(hi, strike).powi(2) * hi.year_fraction;
            let v = v0 + (t - lo.year_fraction) / (hi.year_fraction - lo.year_fraction) * (v1 - v0);
            Ok((v / t).sqrt())
        }
    }
}

pub fn new(valuation_date: NaiveDate, pillars: Vec<FXDeltaVolPillar>) -> Result<FXVolSurface> {
    if pillars.is_empty() {
        return Err(Error::InvalidData(String::new()));
    }
    let mut smiles = Vec::new();
    for p in &pillars {
        let t = Actual365Fixed::default().year_fraction(valuation_date, p.expiry)?;
        smiles.push(section(p, t)?);
    }
    smiles.sort_by_key(|s| s.expiry);
    Ok(FXVolSurface { valuation_date, smiles })
}

fn bad<T>() -> Result<T> {
    Err(Error::InvalidData(String::new()))
}

fn section(p: &FXDeltaVolPillar, t: f64) -> Result<SmileSection> {
    if t <= 0.0 || p.forward <= 0.0 {
        return bad();
    }
    let f = p.forward;
    let (atm, pairs) = normalise_quotes(&p.quotes, p.expiry)?;
    let mut pairs = pairs;
    pairs.sort_by(|a, b| a.delta.partial_cmp(&b.delta).unwrap());
    let n = pairs.len();
    let st = t.sqrt();
    let mut kv = Vec::new();
    for q in &pairs {
        let s = q.put_vol;
        kv.push((f * (0.5 * s * s * t - inverse_cdf(1.0 - q.delta) * s * st).exp(), s));
    }
    kv.push((f * (0.5 * atm * atm * t).exp(), atm));
    for q in pairs.iter().rev() {
        let s = q.call_vol;
        kv.push((f * (0.5 * s * s * t - inverse_cdf(q.delta) * s * st).exp(), s));
    }
    for w in kv.windows(2) {
        if w[0].0 >= w[1].0 {
            return bad();
        }
    }
    let sref = 1.5 * atm;
    let xs: Vec<f64> = kv.iter().map(|q| cdf((f / q.0).ln() / (sref * st))).collect();
    let hi = kv.len() - 1;
    let (x0, x1, x2) = (xs[0], xs[n], xs[hi]);
    let (y0, y1, y2) = (kv[0].1, kv[n].1, kv[hi].1);
    // divided differences
    let e01 = (y1 - y0) / (x1 - x0);
    let e12 = (y2 - y1) / (x2 - x1);
    let a = (e12 - e01) / (x2 - x0);
    let b = e01 - a * (x0 + x1);
    let c = y0 - a * x0 * x0 - b * x0;
    let mut knots: Vec<(f64, f64)> = kv
        .iter()
        .enumerate()
        .map(|(i, q)| {
            let r = if i == 0 || i == n || i == hi { 0.0 } else { q.1 - (a * xs[i] * xs[i] + b * xs[i] + c) };
            ((q.0 / f).ln(), r)
        })
        .collect();
    knots.sort_by(|p, q| p.0.partial_cmp(&q.0).unwrap());
    Ok(SmileSection {
        expiry: p.expiry,
        year_fraction: t,
        forward: f,
        sigma_ref: sref,
        a,
        b,
        c,
        a_knots: knots,
        log_m_min: (kv[0].0 / f).ln(),
        log_m_max: (kv[hi].0 / f).ln(),
    })
}

// ATM vol and per-delta call/put vols; direct quotes win over RR/BF
pub fn quotes(q: &[FXVolQuote], _expiry: NaiveDate) -> Result<(f64, Vec<DeltaPair>)> {
    fn slot(b: &mut Vec<(f64, PartialDelta)>, delta: f64) -> &mut PartialDelta {
        match b.iter().position(|e| (e.0 - delta).abs() < 1e-9) {
            Some(i) => &mut b[i].1,
            None => {
                b.push((delta, PartialDelta { call: None, put: None, rr: None, bf: None }));
                &mut b.last_mut().unwrap().1
            }
        }
    }
    let inside = |d: f64| d > 0.0 && d < 0.5;
    let mut atm: Option<f64> = None;
    let mut b: Vec<(f64, PartialDelta)> = Vec::new();
    for x in q {
        match x {
            FXVolQuote::Atm(_) if atm.is_some() => return bad(),
            FXVolQuote::Atm(v) => atm = Some(*v),
            FXVolQuote::Call { delta, .. }
            | FXVolQuote::Put { delta, .. }
            | FXVolQuote::RiskReversal { delta, .. }
            | FXVolQuote::Butterfly { delta, .. }
                if !inside(*delta) =>
            {
                return bad()
            }
            FXVolQuote::Call { delta, vol } => slot(&mut b, *delta).call = Some(*vol),
            FXVolQuote::Put { delta, vol } => slot(&mut b, *delta).put = Some(*vol),
            FXVolQuote::RiskReversal { delta, vol } => slot(&mut b, *delta).rr = Some(*vol),
            FXVolQuote::Butterfly { delta, vol } => slot(&mut b, *delta).bf = Some(*vol),
        }
    }
    let atm = match atm {
        Some(v) => v,
        None => return bad(),
    };
    let mut pairs = Vec::new();
    for (delta, p) in b {
        let (call_vol, put_vol) = match (p.call, p.put, p.rr, p.bf) {
            (Some(c), Some(u), _, _) => (c, u),
            (_, _, Some(rr), Some(bf)) => (atm + bf + rr / 2.0, atm + bf - rr / 2.0),
            _ => return bad(),
        };
        pairs.push(DeltaPair { delta, call_vol, put_vol });
    }
    pairs.sort_by(|a, b| a.delta.partial_cmp(&b.delta).unwrap());
    if pairs.is_empty() {
        return bad();
    }
    Ok((atm, pairs))
}
