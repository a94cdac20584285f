//! in src/markets/interestrate/volsurface.rs
//! Caplet volatility surface, given the stripping of one strike.
use super::*;

// quotes grouped by strike, one column each; a pillar per distinct expiry, holding for each strike its latest stretch up to it
pub fn rebuild(s: &mut IRNormalVolSurface, c: &YieldTermStructure, md: &IRCapMarketData) -> Result<()> {
    s.valuation_date = md.valuation_date;
    s.pillars = pillars(c, md)?;
    Ok(())
}
fn pillars(c: &YieldTermStructure, md: &IRCapMarketData) -> Result<Vec<CapletVolPillar>> {
    let mut by_strike: Vec<(f64, Vec<&CapQuote>)> = Vec::new();
    for q in &md.cap_quotes {
        match by_strike.iter().position(|g| (g.0 - q.strike).abs() < 1e-12) {
            Some(i) => by_strike[i].1.push(q),
            None => by_strike.push((q.strike, vec![q])),
        }
    }
    by_strike.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut columns: Vec<(f64, Vec<StripPoint>)> = Vec::new();
    for g in &by_strike {
        columns.push((g.0, strip_one_strike(c, md.valuation_date, &g.1)?));
    }
    let mut dates = Vec::new();
    for col in &columns {
        for p in &col.1 {
            dates.push(p.expiry);
        }
    }
    dates.sort();
    dates.dedup();
    let mut out = Vec::new();
    for d in dates {
        let mut nodes = Vec::new();
        for col in &columns {
            if let Some(p) = col.1.iter().rev().find(|p| p.expiry <= d) {
                nodes.push((col.0, p.sigma));
            }
        }
        nodes.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        if !nodes.is_empty() {
            out.push(CapletVolPillar { expiry: d, nodes });
        }
    }
    Ok(out)
}
