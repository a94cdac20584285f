//! Periods: date arithmetic, settlement.
use crate::error::{Error, Result};
use crate::time::calendars::Calendar;
use crate::time::period::Period;
use chrono::{Duration, Months, NaiveDate};

fn oob() -> Error {
    Error::PeriodOutOfBounds(String::new())
}

pub fn add(d: NaiveDate, p: Period) -> Result<NaiveDate> {
    match p {
        Period::ON | Period::TN | Period::SN => Ok(d + Duration::days(1)),
        Period::SPOT => Ok(d),
        Period::Days(n) => shift(d, Some(n), true),
        Period::Weeks(n) => shift(d, n.checked_mul(7), true),
        Period::Months(n) => d.checked_add_months(Months::new(n)).ok_or(oob()),
        Period::Years(n) => n.checked_mul(12).and_then(|m| d.checked_add_months(Months::new(m))).ok_or(oob()),
    }
}

pub fn sub(d: NaiveDate, p: Period) -> Result<NaiveDate> {
    match p {
        Period::ON | Period::TN | Period::SN => Ok(d - Duration::days(1)),
        Period::SPOT => Ok(d),
        Period::Days(n) => shift(d, Some(n), false),
        Period::Weeks(n) => shift(d, n.checked_mul(7), false),
        Period::Months(n) => d.checked_sub_months(Months::new(n)).ok_or(oob()),
        Period::Years(n) => n.checked_mul(12).and_then(|m| d.checked_sub_months(Months::new(m))).ok_or(oob()),
    }
}

fn shift(d: NaiveDate, n: Option<i64>, fwd: bool) -> Result<NaiveDate> {
    let k = n.and_then(Duration::try_days).ok_or(oob())?;
    if fwd { d.checked_add_signed(k) } else { d.checked_sub_signed(k) }.ok_or(oob())
}

pub fn mul(n: u32, p: Period) -> Period {
    match p {
        Period::Days(k) => Period::Days(k * n as i64),
        Period::Weeks(k) => Period::Weeks(k * n as i64),
        Period::Months(k) => Period::Months(k * n),
        Period::Years(k) => Period::Years(k * n),
        same => same,
    }
}

fn roll(c: &dyn Calendar, mut d: NaiveDate) -> NaiveDate {
    while !c.is_business_day(d) {
        d = d + Duration::days(1);
    }
    d
}

fn settle(p: Period, t: NaiveDate, c: &dyn Calendar, lag: i64) -> Result<NaiveDate> {
    let start = match p {
        Period::ON => t,
        Period::TN => t + Duration::days(1),
        _ => t + Duration::days(lag),
    };
    let d = (start + p)?;
    let eom = c.end_of_month(d);
    Ok(roll(c, if d < eom { d } else { eom }))
}

fn near(p: Period, t: NaiveDate, c: &dyn Calendar, lag: i64) -> Option<NaiveDate> {
    match p {
        Period::ON => Some(roll(c, t)),
        Period::TN => Some(roll(c, t + Duration::days(1))),
        Period::SN => Some(roll(c, t + Duration::days(lag))),
        _ => None,
    }
}

pub fn settlement_date(p: &Period, t: NaiveDate, c: &dyn Calendar) -> Result<NaiveDate> {
    settle(*p, t, c, 2)
}
pub fn near_date(p: &Period, t: NaiveDate, c: &dyn Calendar) -> Result<Option<NaiveDate>> {
    Ok(near(*p, t, c, 2))
}
pub fn settlement_date_with_lag(p: &Period, t: NaiveDate, c: &dyn Calendar, lag: i64) -> Result<NaiveDate> {
    settle(*p, t, c, lag)
}
pub fn near_date_with_lag(p: &Period, t: NaiveDate, c: &dyn Calendar, lag: i64) -> Result<Option<NaiveDate>> {
    Ok(near(*p, t, c, lag))
}
