//! Swaps, caps and floors, caplet volatilities, rate indices.
use crate::derivatives::basic::Direction;
use crate::derivatives::forex::basic::CurrencyValue;
use crate::derivatives::interestrate::basic::*;
use crate::derivatives::interestrate::cap::CapFloor;
use crate::derivatives::interestrate::swap::*;
use crate::error::{Error, Result};
use crate::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use crate::markets::interestrate::market_context::IrMarketContext as I;
use crate::markets::interestrate::volsurface::IRNormalVolSurface;
use crate::markets::termstructures::yieldcurve::InterpolationMethodEnum as Interp;
use crate::markets::termstructures::yieldcurve::*;
use crate::models::common::bachelier::{bachelier_call, bachelier_put};
use crate::time::businessdayconvention::BusinessDayConvention as BDC;
use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
use crate::time::calendars::unitedstates::UnitedStatesMarket;
use crate::time::calendars::*;
use crate::time::daycounters::actual360::Actual360;
use crate::time::daycounters::actual365fixed::Actual365Fixed;
use crate::time::daycounters::DayCounters;
use crate::time::period::Period;
use chrono::NaiveDate;
use iso_currency::Currency as C;

pub fn index(code: InterestRateIndexEnum) -> Option<InterestRateIndex> {
    use InterestRateIndexEnum as E;
    let sofr = || -> Box<dyn Calendar> { Box::new(UnitedStates { market: Some(UnitedStatesMarket::SOFR) }) };
    let mut convention = BDC::ModifiedFollowing;
    let mut settlement_days = 0;
    let mut dc: Box<dyn DayCounters> = Box::new(Actual360);
    let (period, currency, calendar): (Period, C, Box<dyn Calendar>) = match code {
        E::AONIA => {
            dc = Box::new(Actual365Fixed::default());
            (Period::SPOT, C::AUD, Box::new(Australia::default()))
        }
        E::CDOR(p) => (p, C::CAD, Box::new(Canada::default())),
        E::EONIA | E::ESTR => (Period::SPOT, C::EUR, Box::new(Target)),
        E::EUIBOR(p) => {
            settlement_days = 2;
            if let Period::Days(_) | Period::Weeks(_) = p {
                convention = BDC::Following;
            }
            (p, C::EUR, Box::new(Target))
        }
        E::SOFR => (Period::SPOT, C::USD, sofr()),
        E::SONIA => {
            dc = Box::new(Actual365Fixed::default());
            (Period::SPOT, C::GBP, Box::new(UnitedKingdom { market: Some(UnitedKingdomMarket::Exchange) }))
        }
    };
    Some(InterestRateIndex { period, settlement_days, currency, calendar, convention, day_counter: dc, end_of_month: false })
}

fn sign(d: &Direction) -> f64 {
    match d {
        Direction::Buy => 1.0,
        Direction::Sell => -1.0,
    }
}

pub fn effective(l: &InterestRateSwapLeg, v: NaiveDate) -> Result<Option<NaiveDate>> {
    let d = &l.schedule_detail;
    d.calendar.advance(v, Period::Days(l.interest_rate_index.settlement_days), d.convention, Some(l.interest_rate_index.end_of_month))
}
pub fn is_fixed(l: &InterestRateSwapLeg) -> bool {
    matches!(l.swap_type, InterestRateSwapLegType::Fixed { .. })
}
pub fn reference_rate(l: &InterestRateSwapLeg) -> f64 {
    match &l.swap_type {
        InterestRateSwapLegType::Fixed { coupon } => *coupon,
        InterestRateSwapLegType::Float { spread } => *spread,
    }
}
fn units(p: Period) -> u32 {
    match p {
        Period::Days(n) => n as u32,
        Period::Weeks(n) => n as u32 * 7,
        Period::Months(n) => n,
        Period::Years(n) => n * 12,
        _ => 1,
    }
}
// the given schedule, or duration / tenor consecutive periods, the n-th ending n frequency periods after the effective date
pub fn schedule(l: &InterestRateSwapLeg, v: NaiveDate) -> Result<Vec<InterestRateSchedulePeriod>> {
    if !l.schedule.is_empty() {
        return Ok(l.schedule.clone());
    }
    let d = &l.schedule_detail;
    let eom = l.interest_rate_index.end_of_month;
    let eff = l.effective_date(v)?.unwrap();
    let count = units(d.duration) / units(d.tenor);
    let mut out = Vec::new();
    let mut start = eff;
    for n in 1..=count {
        let step = d.frequency.period().unwrap();
        let end = d.calendar.advance(eff, n * step, d.convention, Some(eom))?.unwrap();
        let pay = d.calendar.advance(end, Period::Days(d.pay_delay), d.convention, Some(false))?.unwrap();
        let reset = d.calendar.advance(start, Period::Days(-d.days_before_accrual), d.convention, Some(false))?.unwrap();
        out.push(InterestRateSchedulePeriod {
            accrual_start_date: start,
            accrual_end_date: end,
            pay_date: pay,
            reset_date: reset,
            amortisation_amounts: l.notional,
            balance: l.notional,
        });
        start = end;
    }
    Ok(out)
}

fn leg_rate(l: &InterestRateSwapLeg, ds: f64, de: f64, tau: f64) -> f64 {
    match &l.swap_type {
        InterestRateSwapLegType::Fixed { coupon } => *coupon,
        InterestRateSwapLegType::Float { spread } => (ds / de - 1.0) / tau + spread,
    }
}
// coupons at the leg's rate on the period's balance, plus the final balance, discounted from the pay dates
fn swap_pv(s: &InterestRateSwap, v: NaiveDate, df: impl Fn(NaiveDate) -> Result<f64>) -> Result<f64> {
    let mut pv = 0.0;
    for l in &s.legs {
        let sched = l.generate_schedule(v)?;
        for p in &sched {
            let tau = l.schedule_detail.day_counter.year_fraction(p.accrual_start_date, p.accrual_end_date)?;
            let (mut ds, mut de) = (1.0, 1.0);
            if !is_fixed(l) {
                ds = df(p.accrual_start_date)?;
                de = df(p.accrual_end_date)?;
            }
            let r = leg_rate(l, ds, de, tau);
            pv += sign(&l.direction) * r * tau * p.balance * df(p.pay_date)?;
        }
        if let Some(last) = sched.last() {
            pv += sign(&l.direction) * last.balance * df(last.pay_date)?;
        }
    }
    Ok(pv)
}
pub fn npv(s: &InterestRateSwap, v: NaiveDate, c: &mut YieldTermStructure) -> Result<f64> {
    let mut pv = 0.0;
    let m = &Interp::PiecewiseLinearContinuous;
    for l in &s.legs {
        let sched = l.generate_schedule(v)?;
        let dc = &l.schedule_detail.day_counter;
        for p in &sched {
            dc.day_count(p.accrual_start_date, p.accrual_end_date)?;
            let tau = dc.year_fraction(p.accrual_start_date, p.accrual_end_date)?;
            let (mut ds, mut de) = (1.0, 1.0);
            if !is_fixed(l) {
                ds = c.discount(p.accrual_start_date, m)?;
                de = c.discount(p.accrual_end_date, m)?;
            }
            let r = leg_rate(l, ds, de, tau);
            pv += sign(&l.direction) * r * tau * p.balance * c.discount(p.pay_date, m)?;
        }
        if let Some(last) = sched.last() {
            pv += sign(&l.direction) * last.balance * c.discount(last.pay_date, m)?;
        }
    }
    Ok(pv)
}
fn shifted(s: &InterestRateSwap, m: &I, bp: f64) -> Result<f64> {
    swap_pv(s, m.valuation_date, |d| m.curve.shifted_discount(d, &Interp::PiecewiseLinearContinuous, bp))
}
pub fn swap_currency(s: &InterestRateSwap) -> Result<C> {
    match s.legs.first() {
        Some(l) => Ok(l.interest_rate_index.currency),
        None => Err(Error::InvalidData(String::new())),
    }
}
pub fn swap_mtm(s: &InterestRateSwap, m: &I) -> Result<CurrencyValue> {
    let value = shifted(s, m, 0.0)?;
    Ok(CurrencyValue { currency: swap_currency(s)?, value })
}
pub fn swap_dv01(s: &InterestRateSwap, m: &I) -> Result<f64> {
    let b = shifted(s, m, 0.0)?;
    Ok(shifted(s, m, 1.0)? - b)
}
pub fn swap_gamma(s: &InterestRateSwap, m: &I, bp: f64, mode: RateShiftMode) -> Result<f64> {
    if mode != RateShiftMode::Zeros {
        return Err(Error::InvalidData(String::new()));
    }
    let b = shifted(s, m, 0.0)?;
    let u = shifted(s, m, bp)?;
    let d = shifted(s, m, -bp)?;
    Ok((u - b) - (b - d))
}
pub fn swap_vega(_s: &InterestRateSwap, _m: &I, _bp: f64) -> Result<f64> {
    Ok(0.0)
}
pub fn swap_settle(s: &InterestRateSwap, v: NaiveDate) -> Result<NaiveDate> {
    match s.legs.first() {
        None => Ok(v),
        Some(l) => Ok(l.effective_date(v)?.unwrap()),
    }
}
pub fn swap_maturity(s: &InterestRateSwap, v: NaiveDate) -> Result<NaiveDate> {
    let mut ends = Vec::new();
    for l in &s.legs {
        let sched = if l.schedule.is_empty() { &l.generate_schedule(v)? } else { &l.schedule };
        ends.push(sched.last().unwrap().accrual_end_date);
    }
    Ok(match ends.iter().max() {
        Some(d) => *d,
        None => v,
    })
}

// the same, by way of the leg's own rule that a given schedule is used as it is
pub fn swap_maturity_any(s: &InterestRateSwap, v: NaiveDate) -> Result<NaiveDate> {
    let mut ends = Vec::new();
    for l in &s.legs {
        ends.push(l.generate_schedule(v)?.last().unwrap().accrual_end_date);
    }
    Ok(match ends.iter().max() {
        Some(d) => *d,
        None => v,
    })
}

pub fn variance(style: CapStyle, sigma: f64, ts: f64, te: f64) -> f64 {
    if te <= 0.0 {
        return 0.0;
    }
    let time = match style {
        CapStyle::ForwardLooking => {
            if ts > 0.0 {
                ts
            } else {
                0.0
            }
        }
        CapStyle::BackwardCompounded => {
            if ts >= 0.0 {
                ts + (te - ts) / 3.0
            } else {
                te * te * te / (3.0 * (te - ts) * (te - ts))
            }
        }
    };
    sigma * sigma * time
}
fn cap_pv(c: &CapFloor, m: &I, s: &IRNormalVolSurface, rate: f64, vol: f64) -> Result<f64> {
    let i = &Interp::StepFunctionForward;
    let mut pv = 0.0;
    for p in &c.schedule {
        let tau = c.accrual_day_counter.year_fraction(p.accrual_start_date, p.accrual_end_date)?;
        let ds = m.curve.shifted_discount(p.accrual_start_date, i, rate)?;
        let de = m.curve.shifted_discount(p.accrual_end_date, i, rate)?;
        let df = m.curve.shifted_discount(p.pay_date, i, rate)?;
        let f = (ds / de - 1.0) / tau;
        let act = Actual365Fixed::default();
        let ts = act.year_fraction(c.valuation_date, p.accrual_start_date)?;
        let te = act.year_fraction(c.valuation_date, p.accrual_end_date)?;
        let sigma = s.caplet_volatility(p.accrual_start_date, c.strike)? + vol / 10000.0;
        let v = caplet_total_variance(c.style, sigma, ts, te);
        let o = match c.kind {
            CapFloorKind::Cap => bachelier_call(f, c.strike, v),
            CapFloorKind::Floor => bachelier_put(f, c.strike, v),
        };
        pv += sign(&c.basic_info.direction) * c.notional * tau * df * o;
    }
    Ok(pv)
}
fn surface(m: &I) -> Result<&IRNormalVolSurface> {
    match &m.cap_surface {
        Some(s) => Ok(s),
        None => Err(Error::InvalidData(String::new())),
    }
}
pub fn cap_mtm(c: &CapFloor, m: &I) -> Result<CurrencyValue> {
    let value = cap_pv(c, m, surface(m)?, 0.0, 0.0)?;
    Ok(CurrencyValue { currency: c.currency, value })
}
pub fn cap_dv01(c: &CapFloor, m: &I) -> Result<f64> {
    let s = surface(m)?;
    let b = cap_pv(c, m, s, 0.0, 0.0)?;
    Ok(cap_pv(c, m, s, 1.0, 0.0)? - b)
}
pub fn cap_gamma(c: &CapFloor, m: &I, bp: f64, mode: RateShiftMode) -> Result<f64> {
    if mode != RateShiftMode::Zeros {
        return Err(Error::InvalidData(String::new()));
    }
    let s = surface(m)?;
    let b = cap_pv(c, m, s, 0.0, 0.0)?;
    let u = cap_pv(c, m, s, bp, 0.0)?;
    let d = cap_pv(c, m, s, -bp, 0.0)?;
    Ok((u - b) - (b - d))
}
pub fn cap_vega(c: &CapFloor, m: &I, bp: f64) -> Result<f64> {
    let s = surface(m)?;
    let b = cap_pv(c, m, s, 0.0, 0.0)?;
    Ok(cap_pv(c, m, s, 0.0, bp)? - b)
}
pub fn modified_duration(v: f64, dv01: f64) -> f64 {
    -dv01 / v / 0.0001
}
// the default method, seen through each product
pub fn swap_duration(s: &InterestRateSwap, m: &I) -> Result<f64> {
    let v = s.mtm(m)?.value;
    if v.abs() < 1e-12 {
        return Ok(0.0);
    }
    Ok(modified_duration(v, s.dv01(m)?))
}
pub fn swap_duration_code(s: &InterestRateSwap, m: &I) -> Result<f64> {
    s.modified_duration(m)
}
pub fn cap_duration(s: &CapFloor, m: &I) -> Result<f64> {
    let v = s.mtm(m)?.value;
    if v.abs() < 1e-12 {
        return Ok(0.0);
    }
    Ok(modified_duration(v, s.dv01(m)?))
}
pub fn cap_duration_code(s: &CapFloor, m: &I) -> Result<f64> {
    s.modified_duration(m)
}
// cap minus floor on one forward
pub fn cap_floor_gap(f: f64, k: f64, v: f64) -> f64 {
    bachelier_call(f, k, v) - bachelier_put(f, k, v)
}
pub fn cap_floor_parity(f: f64, k: f64, _v: f64) -> f64 {
    f - k
}

// first pillar not before the date, else the last; linear in strike between nodes, flat outside
pub fn caplet_vol(s: &IRNormalVolSurface, expiry: NaiveDate, k: f64) -> Result<f64> {
    let none = || Err(Error::InvalidData(String::new()));
    let i = match s.pillars.iter().position(|p| expiry <= p.expiry) {
        Some(i) => i,
        None if s.pillars.is_empty() => return none(),
        None => s.pillars.len() - 1,
    };
    let n = &s.pillars[i].nodes;
    if n.is_empty() {
        return none();
    }
    let last = n[n.len() - 1];
    if n.len() == 1 || k <= n[0].0 {
        return Ok(n[0].1);
    }
    if k >= last.0 {
        return Ok(last.1);
    }
    for j in 1..n.len() {
        let ((a, va), (b, vb)) = (n[j - 1], n[j]);
        if a <= k && k <= b {
            return Ok(va + (vb - va) * (k - a) / (b - a));
        }
    }
    Ok(last.1)
}

// simple rate and discount of futures as zero rates
pub fn fut_zero(q: &crate::markets::termstructures::yieldcurve::ratehelper::FuturesRate, v: NaiveDate, p: &Vec<StrippedCurve>) -> Result<f64> {
    let df = q.discount(v, p)?;
    let t = Actual365Fixed::default().year_fraction(v, q.maturity_date(v)?)?;
    Ok(-df.ln() / t)
}
// as implemented: the first futures pillar carries the rate of its last stretch, after the earlier pillars' stretches
pub fn fut_zero_chained(q: &crate::markets::termstructures::yieldcurve::ratehelper::FuturesRate, v: NaiveDate, p: &Vec<StrippedCurve>) -> Result<f64> {
    let df = q.discount(v, p)?;
    let e = q.maturity_date(v)?;
    let t = |a, b| Actual365Fixed::default().year_fraction(a, b);
    if p.iter().any(|s| s.source == InterestRateQuoteEnum::Futures) {
        return Ok(-df.ln() / t(v, e)?);
    }
    let mut chained = 1.0;
    let mut prev = v;
    for s in p {
        chained *= (-s.zero_rate * t(prev, s.date)?).exp();
        prev = s.date;
    }
    let y = t(prev, e)?;
    Ok((chained / df).ln() / y)
}

// the zero rate at which the swap, priced on the trial pillars, is worth nothing
pub fn solve(s: &InterestRateSwap, v: NaiveDate, pillars: Vec<StrippedCurve>) -> f64 {
    use roots::{find_root_brent, SimpleConvergency};
    let value = |z: f64| -> f64 {
        let mut trial = pillars.clone();
        let n = trial.len() - 1;
        trial[n].zero_rate = z;
        let mut c = YieldTermStructure {
            calendar: Box::new(Target),
            day_counter: Box::new(Actual365Fixed::default()),
            valuation_date: v,
            stripped_curves: trial,
        };
        s.npv(v, &mut c).unwrap()
    };
    find_root_brent(0.0, 0.5, value, &mut SimpleConvergency { eps: 1e-15, max_iter: 100 }).unwrap()
}
