//! in src/markets/interestrate/volsurface.rs
//! Caplet volatility stripping.
use super::*;

fn sigma_at(start: NaiveDate, done: &Vec<(NaiveDate, f64)>, tail: f64) -> f64 {
    match done.iter().position(|p| start <= p.0) {
        Some(i) => done[i].1,
        None => tail,
    }
}
pub fn cap_price(c: &YieldTermStructure, v: NaiveDate, q: &CapQuote, done: &Vec<(NaiveDate, f64)>, tail: f64) -> Result<f64> {
    let m = &InterpolationMethodEnum::StepFunctionForward;
    let mut pv = 0.0;
    for p in &q.schedule {
        let sigma = sigma_at(p.accrual_start_date, done, tail);
        let act = Actual365Fixed::default();
        let ts = act.year_fraction(v, p.accrual_start_date)?;
        let te = act.year_fraction(v, p.accrual_end_date)?;
        let tau = q.accrual_day_counter.year_fraction(p.accrual_start_date, p.accrual_end_date)?;
        let ds = c.discount(p.accrual_start_date, m)?;
        let de = c.discount(p.accrual_end_date, m)?;
        let df = c.discount(p.pay_date, m)?;
        let f = (ds / de - 1.0) / tau;
        let var = caplet_total_variance(q.style, sigma, ts, te);
        let o = match q.kind {
            CapFloorKind::Cap => bachelier_call(f, q.strike, var),
            CapFloorKind::Floor => bachelier_put(f, q.strike, var),
        };
        let s = match q.direction {
            Direction::Buy => 1.0,
            Direction::Sell => -1.0,
        };
        pv += s * q.notional * tau * df * o;
    }
    Ok(pv)
}
// one strike: quotes by last fixing; each new stretch gets the volatility that reprices its quote
pub fn column(c: &YieldTermStructure, v: NaiveDate, quotes: &[&CapQuote]) -> Result<Vec<StripPoint>> {
    let mut qs = quotes.to_vec();
    qs.sort_by_key(|q| match q.schedule.last() {
        Some(p) => p.accrual_start_date,
        None => v,
    });
    let mut done: Vec<StripPoint> = Vec::new();
    for q in qs {
        let end = match q.schedule.last() {
            Some(p) => p.accrual_start_date,
            None => return Err(Error::InvalidData(String::new())),
        };
        if let Some(l) = done.last() {
            if end <= l.expiry {
                continue;
            }
        }
        let fixed: Vec<(NaiveDate, f64)> = done.iter().map(|p| (p.expiry, p.sigma)).collect();
        let gap = |s: f64| match cap_price(c, v, q, &fixed, s) {
            Ok(x) => x - q.market_npv,
            Err(_) => f64::NAN,
        };
        match find_root_brent(0.00001, 0.1, gap, &mut SimpleConvergency { eps: 1e-10, max_iter: 200 }) {
            Ok(sigma) => done.push(StripPoint { expiry: end, sigma }),
            Err(_) => return Err(Error::InvalidData(String::new())),
        }
    }
    Ok(done)
}
// quotes grouped by strike, one column each; a pillar per distinct expiry, holding for each strike its latest stretch up to it
pub fn rebuild(s: &mut IRNormalVolSurface, c: &YieldTermStructure, md: &IRCapMarketData) -> Result<()> {
    s.valuation_date = md.valuation_date;
    s.pillars = pillars(c, md)?;
    Ok(())
}
fn pillars(c: &YieldTermStructure, md: &IRCapMarketData) -> Result<Vec<CapletVolPillar>> {
    let mut by_strike: Vec<(f64, Vec<&CapQuote>)> = Vec::new();
    for q in &md.cap_quotes {
        match by_strike.iter().position(|g| (g.0 - q.strike).abs() < 1e-12) {
            Some(i) => by_strike[i].1.push(q),
            None => by_strike.push((q.strike, vec![q])),
        }
    }
    by_strike.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut columns: Vec<(f64, Vec<StripPoint>)> = Vec::new();
    for g in &by_strike {
        columns.push((g.0, column(c, md.valuation_date, &g.1)?));
    }
    let mut dates = Vec::new();
    for col in &columns {
        for p in &col.1 {
            dates.push(p.expiry);
        }
    }
    dates.sort();
    dates.dedup();
    let mut out = Vec::new();
    for d in dates {
        let mut nodes = Vec::new();
        for col in &columns {
            if let Some(p) = col.1.iter().rev().find(|p| p.expiry <= d) {
                nodes.push((col.0, p.sigma));
            }
        }
        nodes.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        if !nodes.is_empty() {
            out.push(CapletVolPillar { expiry: d, nodes });
        }
    }
    Ok(out)
}
