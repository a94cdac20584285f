//! Calibration inputs read off the volatility surface.
use crate::error::Result;
use crate::markets::forex::quotes::volsurface::FXVolSurface;
use crate::models::forex::fx_hhw_calibrator::CalibrationTarget as HhwTarget;
use crate::models::forex::market_data::MarketSmileStrip;
use crate::models::forex::sabr_calibrator::CalibrationTarget as SabrTarget;
use crate::models::forex::sabr_time_dependent_calibrator::PillarTarget;
use crate::time::daycounters::actual365fixed::Actual365Fixed;
use crate::time::daycounters::DayCounters;
use chrono::NaiveDate;

pub fn strip(s: &FXVolSurface, v: NaiveDate, e: NaiveDate, forward: f64, ks: &[f64]) -> Result<MarketSmileStrip> {
    let t = Actual365Fixed::default().year_fraction(v, e)?;
    let mut vols = Vec::new();
    for k in ks {
        vols.push(s.volatility(e, *k)?);
    }
    Ok(MarketSmileStrip { expiry_yf: t, forward, strikes: ks.to_vec(), vols })
}
pub fn hhw(m: &MarketSmileStrip) -> Vec<HhwTarget> {
    let mut out = Vec::new();
    for i in 0..m.strikes.len().min(m.vols.len()) {
        out.push(HhwTarget { strike: m.strikes[i], market_vol: m.vols[i] });
    }
    out
}
pub fn sabr(m: &MarketSmileStrip) -> Vec<SabrTarget> {
    let mut out = Vec::new();
    for i in 0..m.strikes.len().min(m.vols.len()) {
        out.push(SabrTarget { strike: m.strikes[i], market_vol: m.vols[i] });
    }
    out
}
pub fn pillar(m: &MarketSmileStrip) -> PillarTarget {
    PillarTarget { expiry: m.expiry_yf, forward: m.forward, strikes: m.strikes.to_vec(), market_vols: m.vols.to_vec() }
}
