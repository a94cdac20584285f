//! FX and rates market contexts.
use crate::derivatives::forex::basic::FXUnderlying;
use crate::error::{Error, Result};
use crate::markets::forex::market_context::FxMarketContext as M;
use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use crate::markets::interestrate::market_context::IrMarketContext as I;
use crate::markets::interestrate::volsurface::{IRCapMarketData, IRNormalVolSurface};
use crate::markets::termstructures::yieldcurve::InterpolationMethodEnum as Interp;
use crate::markets::termstructures::yieldcurve::{YieldTermMarketData, YieldTermStructure};
use crate::time::calendars::Calendar;
use crate::time::daycounters::DayCounters;
use chrono::{Days, NaiveDate};
use iso_currency::Currency;
use std::str::FromStr;

pub fn forward_at(m: &M, date: NaiveDate, c: &dyn Calendar) -> Result<f64> {
    match m.forwards.get_forward(date, c)? {
        Some(p) => Ok(m.spot + if m.pair.0 == Currency::JPY { p / 100.0 } else { p / 10000.0 }),
        None => Err(Error::InvalidData(String::new())),
    }
}
pub fn rate_d(m: &M, d: NaiveDate) -> Result<f64> {
    m.domestic_curve.zero_rate(d, &Interp::StepFunctionForward)
}
pub fn rate_f(m: &M, d: NaiveDate) -> Result<f64> {
    m.foreign_curve.zero_rate(d, &Interp::StepFunctionForward)
}
pub fn discount_d(m: &M, d: NaiveDate) -> Result<f64> {
    m.domestic_curve.discount(d, &Interp::StepFunctionForward)
}
pub fn discount_f(m: &M, d: NaiveDate) -> Result<f64> {
    m.foreign_curve.discount(d, &Interp::StepFunctionForward)
}
pub fn implied_vol(m: &M, d: NaiveDate, k: f64) -> Result<f64> {
    m.vol_surface.volatility(d, k)
}
pub fn for_linear(v: NaiveDate, spot: f64, pair: (Currency, Currency), d: YieldTermStructure, f: YieldTermStructure, h: FXForwardHelper) -> Result<M> {
    let expiry = v + Days::new(365);
    let quotes = vec![FXVolQuote::Atm(0.1), FXVolQuote::Put { delta: 0.25, vol: 0.1 }, FXVolQuote::Call { delta: 0.25, vol: 0.1 }];
    let s = FXVolSurface::new(v, vec![FXDeltaVolPillar { expiry, forward: 1.0, quotes }])?;
    Ok(M { valuation_date: v, spot, pair, domestic_curve: d, foreign_curve: f, forwards: h, vol_surface: s })
}
#[allow(clippy::too_many_arguments)]
pub fn from_raw(v: NaiveDate, spot: f64, pair: (Currency, Currency), d: YieldTermMarketData, f: YieldTermMarketData, q: Vec<FXForwardQuote>, p: Vec<FXDeltaVolPillar>, dc: Box<dyn Calendar>, fc: Box<dyn Calendar>, dd: Box<dyn DayCounters>, fd: Box<dyn DayCounters>) -> Result<M> {
    let ds = d.get_stripped_curve()?;
    let fs = f.get_stripped_curve()?;
    let s = FXVolSurface::new(v, p)?;
    let lag = match FXUnderlying::from_str(&format!("{}{}", pair.1.code(), pair.0.code())) {
        Ok(u) => Some(u.settles() as i64),
        _ => None,
    };
    Ok(M {
        valuation_date: v,
        spot,
        pair,
        domestic_curve: YieldTermStructure { calendar: dc, day_counter: dd, valuation_date: v, stripped_curves: ds },
        foreign_curve: YieldTermStructure { calendar: fc, day_counter: fd, valuation_date: v, stripped_curves: fs },
        forwards: match lag {
            Some(l) => FXForwardHelper::with_spot_lag(v, spot, l, q),
            None => FXForwardHelper::new(v, spot, q),
        },
        vol_surface: s,
    })
}

pub fn rate(m: &I, d: NaiveDate) -> Result<f64> {
    m.curve.zero_rate(d, &Interp::StepFunctionForward)
}
pub fn discount(m: &I, d: NaiveDate) -> Result<f64> {
    m.curve.discount(d, &Interp::StepFunctionForward)
}
pub fn caplet_vol(m: &I, d: NaiveDate, k: f64) -> Result<f64> {
    match &m.cap_surface {
        Some(s) => s.caplet_volatility(d, k),
        None => Err(Error::InvalidData(String::new())),
    }
}
pub fn ir_from_raw(v: NaiveDate, currency: Currency, q: YieldTermMarketData, md: Option<IRCapMarketData>, c: Box<dyn Calendar>, dc: Box<dyn DayCounters>) -> Result<I> {
    let curve = YieldTermStructure { calendar: c, day_counter: dc, valuation_date: v, stripped_curves: q.get_stripped_curve()? };
    let cap_surface = match md {
        None => None,
        Some(md) => {
            let mut s = IRNormalVolSurface::new(v);
            s.rebuild(&curve, &md)?;
            Some(s)
        }
    };
    Ok(I { valuation_date: v, currency, curve, cap_surface })
}
