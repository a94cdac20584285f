//! Stripped curves: zero rates, discount factors, forwards and pillars.
use crate::derivatives::interestrate::swap::InterestRateSwap;
use crate::error::Result;
use crate::markets::interestrate::futures::InterestRateFutures;
use crate::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use crate::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use crate::markets::termstructures::yieldcurve::*;
use crate::time::daycounters::actual365fixed::Actual365Fixed;
use crate::time::daycounters::DayCounters;
use crate::time::imm::IMM;
use crate::time::period::Period;
use chrono::{Datelike, Days, NaiveDate};
use InterpolationMethodEnum as Interp;

// pillars are looked up one day after the date; hidden pillars never close an interval
pub fn zero_rate(c: &YieldTermStructure, date: NaiveDate, _m: &Interp) -> Result<f64> {
    let x = date + Days::new(1);
    let p = &c.stripped_curves;
    let i = match p.iter().position(|s| !s.hidden_pillar && x <= s.date) {
        Some(i) => i,
        None => return Ok(p[p.len() - 1].zero_rate),
    };
    let front = p.iter().find(|s| !s.hidden_pillar).unwrap_or(&p[0]);
    if p[i] == *front {
        return Ok(p[i].zero_rate);
    }
    let (l, r) = (&p[i - 1], &p[i]);
    let w = (x - l.date).num_days() as f64 / (r.date - l.date).num_days() as f64;
    Ok(l.zero_rate + w * (r.zero_rate - l.zero_rate))
}
fn t(a: NaiveDate, b: NaiveDate) -> Result<f64> {
    Actual365Fixed::default().year_fraction(a, b)
}
pub fn discount(c: &YieldTermStructure, date: NaiveDate, m: &Interp) -> Result<f64> {
    Ok((-c.zero_rate(date, m)? * t(c.valuation_date, date)?).exp())
}
pub fn shifted_discount(c: &YieldTermStructure, date: NaiveDate, m: &Interp, bp: f64) -> Result<f64> {
    Ok((-(c.zero_rate(date, m)? + bp / 10000.0) * t(c.valuation_date, date)?).exp())
}
pub fn forward_rate(c: &YieldTermStructure, start: NaiveDate, tenor: Period, m: &Interp) -> Result<f64> {
    let end = (start + tenor)?;
    let (t1, t2) = (t(c.valuation_date, start)?, t(c.valuation_date, end)?);
    Ok((c.zero_rate(end, m)? * t2 - c.zero_rate(start, m)? * t1) / (t2 - t1))
}

pub fn ois_settle(q: &OISRate, v: NaiveDate) -> Result<NaiveDate> {
    let i = &q.interest_rate_index;
    Ok(i.calendar.advance(v, Period::Days(i.settlement_days), i.convention, Some(i.end_of_month))?.unwrap())
}
pub fn ois_maturity(q: &OISRate, v: NaiveDate) -> Result<NaiveDate> {
    let i = &q.interest_rate_index;
    Ok(i.calendar.advance(q.settle_date(v)?, i.period, i.convention, Some(i.end_of_month))?.unwrap())
}
// simple interest on the index basis, as a continuously compounded Actual/365 rate
pub fn ois_zero(q: &OISRate, v: NaiveDate) -> Result<f64> {
    let (s, e) = (q.settle_date(v)?, q.maturity_date(v)?);
    let y = q.interest_rate_index.day_counter.year_fraction(s, e)?;
    Ok((1.0 + q.value * y).ln() / t(s, e)?)
}
pub fn ois_discount(q: &OISRate, v: NaiveDate) -> Result<f64> {
    let z = q.zero_rate(v)?;
    let e = q.maturity_date(v)?;
    Ok((-z * t(v, e)?).exp())
}

pub fn fut_quote(q: &FuturesRate) -> f64 {
    (100.0 - q.value + q.convexity_adjustment) / 100.0
}
pub fn fut_settle(q: &FuturesRate, v: NaiveDate) -> Result<NaiveDate> {
    Ok(IMM.date(q.imm_code.clone(), Some(v)).unwrap())
}
pub fn fut_maturity(q: &FuturesRate, v: NaiveDate) -> Result<NaiveDate> {
    q.futures_spec.maturity_date(q.settle_date(v)?)
}
pub fn contract_maturity(f: &InterestRateFutures, start: NaiveDate) -> Result<NaiveDate> {
    let d = f.calendar.advance(start, f.period, f.convention, Some(f.end_of_month))?.unwrap();
    Ok(IMM.next_date(NaiveDate::from_ymd_opt(d.year(), d.month(), 1).unwrap(), false))
}
pub fn fut_discount(q: &FuturesRate, v: NaiveDate, p: &Vec<StrippedCurve>) -> Result<f64> {
    let (s, e) = (q.settle_date(v)?, q.maturity_date(v)?);
    let y = q.interest_rate_index.day_counter.year_fraction(s, e)?;
    let near = q.retrieve_related_stripped_curve(p, s);
    let df = (-near.zero_rate * t(v, s)?).exp();
    Ok(df / (1.0 + q.implied_quote() * y))
}

pub fn yts_update(c: &mut YieldTermStructure, q: &YieldTermMarketData) -> Result<()> {
    c.stripped_curves = q.get_stripped_curve()?;
    Ok(())
}
pub fn stripped(m: &YieldTermMarketData) -> Result<Vec<StrippedCurve>> {
    let v = m.valuation_date;
    let mut ends = Vec::new();
    for q in &m.cash_quote {
        ends.push(q.maturity_date(v).unwrap());
    }
    ends.sort();
    ends.dedup();
    let mut out: Vec<StrippedCurve> = Vec::new();
    for e in ends {
        for q in &m.cash_quote {
            if q.maturity_date(v).unwrap() != e {
                continue;
            }
            out.push(StrippedCurve {
                first_settle_date: q.settle_date(v)?,
                date: q.maturity_date(v)?,
                market_rate: q.value,
                zero_rate: q.zero_rate(v)?,
                discount: q.discount(v)?,
                source: InterestRateQuoteEnum::OIS,
                hidden_pillar: q.interest_rate_index.period == Period::Weeks(1),
            });
        }
    }
    for q in &m.futures_quote {
        out.push(StrippedCurve {
            first_settle_date: q.settle_date(v)?,
            date: q.maturity_date(v)?,
            market_rate: q.value,
            zero_rate: q.zero_rate(v, &out)?,
            discount: q.discount(v, &out)?,
            source: InterestRateQuoteEnum::Futures,
            hidden_pillar: false,
        });
    }
    for q in &m.swap_quote {
        let date = q.maturity_date(v)?;
        let mut s = StrippedCurve {
            first_settle_date: q.settle_date(v)?,
            date,
            market_rate: q.legs.first().unwrap().get_reference_rate(),
            zero_rate: 0.005,
            discount: 0.0,
            source: InterestRateQuoteEnum::Swap,
            hidden_pillar: false,
        };
        let mut trial = out.clone();
        trial.push(s);
        s.zero_rate = q.solve_zero_rate(v, trial);
        s.discount = (-s.zero_rate * t(v, date)?).exp();
        out.push(s);
    }
    Ok(out)
}
