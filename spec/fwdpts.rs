//! in src/markets/forex/quotes/forwardpoints.rs
//! Forward points between quoted settlement dates.
use super::*;

pub fn get_forward(h: &FXForwardHelper, target: NaiveDate, calendar: &dyn Calendar) -> Result<Option<f64>> {
    if target <= h.valuation_date {
        return Ok(None);
    }
    let mut pts: Vec<(NaiveDate, f64)> = Vec::new();
    for q in &h.quotes {
        pts.push((q.tenor.settlement_date_with_lag(h.valuation_date, calendar, h.spot_lag)?, q.value));
    }
    if pts.len() < 2 {
        return Ok(None);
    }
    pts.sort_by_key(|p| p.0);
    match pts.binary_search_by_key(&target, |p| p.0) {
        Ok(i) => Ok(Some(pts[i].1)),
        Err(i) => {
            if i == 0 || i == pts.len() {
                return Ok(None);
            }
            let (d0, v0) = pts[i - 1];
            let (d1, v1) = pts[i];
            let w = (target - d0).num_days() as f64 / (d1 - d0).num_days() as f64;
            Ok(Some(v0 + w * (v1 - v0)))
        }
    }
}
pub fn get_forward_guarded(h: &FXForwardHelper, target: NaiveDate, calendar: &dyn Calendar) -> Result<Option<f64>> {
    if target <= h.valuation_date {
        return Ok(None);
    }
    let mut pts: Vec<(NaiveDate, f64)> = Vec::new();
    for q in &h.quotes {
        pts.push((q.tenor.settlement_date_with_lag(h.valuation_date, calendar, h.spot_lag)?, q.value));
    }
    if pts.len() < 2 {
        return Ok(None);
    }
    pts.sort_by_key(|p| p.0);
    match pts.binary_search_by_key(&target, |p| p.0) {
        Ok(i) => Ok(Some(pts[i].1)),
        Err(i) => {
            if i == 0 || i == pts.len() {
                return Ok(None);
            }
            let (d0, v0) = pts[i - 1];
            let (d1, v1) = pts[i];
            if ((d1 - d0).num_days() as f64).abs() < f64::EPSILON {
                return Ok(Some(v0));
            }
            let w = (target - d0).num_days() as f64 / (d1 - d0).num_days() as f64;
            Ok(Some(v0 + w * (v1 - v0)))
        }
    }
}
