//! Day-count conventions.
use crate::error::Result;
use crate::time::calendars::Calendar;
use crate::time::daycounters::actual365fixed::{Actual365Fixed, Actual365FixedMarket};
use crate::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use crate::time::daycounters::business252::Business252;
use crate::time::daycounters::thirty360::{Thirty360, Thirty360Market as M};
use crate::time::daycounters::DayCounters;
use crate::time::period::Period;
use chrono::{Datelike, Duration, Months, NaiveDate};

fn days(d1: NaiveDate, d2: NaiveDate) -> i64 {
    (d2 - d1).num_days()
}

fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}

pub fn act_days<S>(_s: &S, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    Ok(days(d1, d2))
}
pub fn act360<S>(_s: &S, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(days(d1, d2) as f64 / 360.0)
}
pub fn act364<S>(_s: &S, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(days(d1, d2) as f64 / 364.0)
}
pub fn act366<S>(_s: &S, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(days(d1, d2) as f64 / 366.0)
}

// a year of 365 days; 29 February counts as 28 February
fn nl_serial(d: NaiveDate) -> i64 {
    let off = match d.month() {
        1 => 0,
        2 => 31,
        3 => 59,
        4 => 90,
        5 => 120,
        6 => 151,
        7 => 181,
        8 => 212,
        9 => 243,
        10 => 273,
        11 => 304,
        _ => 334,
    };
    let day = if d.month() == 2 && d.day() == 29 { 28 } else { d.day() as i64 };
    365 * d.year() as i64 + off + day
}

pub fn act365_days(s: &Actual365Fixed, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    match s.market {
        Some(Actual365FixedMarket::NoLeap) => Ok(nl_serial(d2) - nl_serial(d1)),
        _ => Ok(days(d1, d2)),
    }
}
pub fn act365_yf(s: &Actual365Fixed, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    match s.market {
        Some(Actual365FixedMarket::NoLeap) => Ok((nl_serial(d2) - nl_serial(d1)) as f64 / 365.0),
        _ => Ok(days(d1, d2) as f64 / 365.0),
    }
}

fn isda(d1: NaiveDate, d2: NaiveDate) -> f64 {
    if d1 == d2 {
        return 0.0;
    }
    let b1 = if d1.leap_year() { 366.0 } else { 365.0 };
    let b2 = if d2.leap_year() { 366.0 } else { 365.0 };
    // whole years between, stub to the end of the first, stub from the start of the last
    (d2.year() - d1.year()) as f64 - 1.0
        + days(d1, ymd(d1.year() + 1, 1, 1)) as f64 / b1
        + days(ymd(d2.year(), 1, 1), d2) as f64 / b2
}

fn afb(d1: NaiveDate, d2: NaiveDate) -> f64 {
    // whole years counted back from the end, then the stub over the length of its year
    let mut end = d2;
    let mut temp = d2;
    let mut years = 0.0;
    while temp > d1 {
        temp = end - Months::new(12);
        if temp.day() == 28 && temp.month() == 2 && temp.leap_year() {
            temp = temp + Duration::days(1);
        }
        if temp >= d1 {
            years += 1.0;
            end = temp;
        }
    }
    let feb29 = if end.leap_year() {
        Some(ymd(end.year(), 2, 29))
    } else if d1.leap_year() {
        Some(ymd(d1.year(), 2, 29))
    } else {
        None
    };
    let den = match feb29 {
        Some(f) => if end > f && d1 <= f { 366.0 } else { 365.0 },
        None => 365.0,
    };
    years + days(d1, end) as f64 / den
}

pub fn actact(s: &ActualActual, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    match s.market {
        Some(ActualActualMarket::Euro) => {
            if d1 == d2 {
                Ok(0.0)
            } else if d1 > d2 {
                Ok(-afb(d2, d1))
            } else {
                Ok(afb(d1, d2))
            }
        }
        _ => Ok(isda(d1, d2)),
    }
}

fn same_month(a: NaiveDate, b: NaiveDate) -> bool {
    a.year() == b.year() && a.month() == b.month()
}

fn months(c: &dyn Calendar, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    if same_month(d1, d2) || d1 > d2 {
        return Ok(c.business_days_between(d1, d2, None, None));
    }
    let mut d = (ymd(d1.year(), d1.month(), 1) + Period::Months(1))?;
    let mut n = c.business_days_between(d1, d, None, None);
    while !same_month(d, d2) {
        let e = (d + Period::Months(1))?;
        n += c.business_days_between(d, e, None, None);
        d = e;
    }
    Ok(n + c.business_days_between(d, d2, None, None))
}

pub fn b252_days(s: &Business252, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    months(s.calendar.as_ref(), d1, d2)
}
pub fn b252_yf(s: &Business252, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(months(s.calendar.as_ref(), d1, d2)? as f64 / 252.0)
}
pub fn b252_days_direct(s: &Business252, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    Ok(s.calendar.business_days_between(d1, d2, None, None))
}
pub fn b252_yf_direct(s: &Business252, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(s.calendar.business_days_between(d1, d2, None, None) as f64 / 252.0)
}

fn last_feb(d: NaiveDate) -> bool {
    d.month() == 2 && (d.day() == 29 || (d.day() == 28 && !d.leap_year()))
}

fn thirty(m: &M, d1: NaiveDate, d2: NaiveDate) -> i64 {
    let (a, b) = (d1.day() as i64, d2.day() as i64);
    let mut month_shift = 0;
    let (x, y) = match m {
        M::USA => {
            let x = if a == 31 || last_feb(d1) { 30 } else { a };
            let y = if (last_feb(d1) && last_feb(d2)) || (b == 31 && x >= 30) { 30 } else { b };
            (x, y)
        }
        M::European => (a.min(30), b.min(30)),
        M::Italian => (
            if a == 31 || (d1.month() == 2 && a > 27) { 30 } else { a },
            if b == 31 || (d2.month() == 2 && b > 27) { 30 } else { b },
        ),
        M::ISMA => (a.min(30), if b == 31 && a >= 30 { 30 } else { b }),
        M::ISDA(t) | M::German(t) => (
            if a == 31 || last_feb(d1) { 30 } else { a },
            if b == 31 || (d2 != *t && last_feb(d2)) { 30 } else { b },
        ),
        M::NASD => {
            if b == 31 && a < 30 {
                month_shift = 1;
                (a, 1)
            } else {
                (a.min(30), b.min(30))
            }
        }
    };
    360 * (d2.year() as i64 - d1.year() as i64) + 30 * (d2.month() as i64 + month_shift - d1.month() as i64) + (y - x)
}

pub fn t360_days(s: &Thirty360, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    Ok(thirty(&s.market, d1, d2))
}
pub fn t360_yf(s: &Thirty360, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(thirty(&s.market, d1, d2) as f64 / 360.0)
}
fn t365(d1: NaiveDate, d2: NaiveDate) -> i64 {
    360 * (d2.year() as i64 - d1.year() as i64)
        + 30 * (d2.month() as i64 - d1.month() as i64)
        + (d2.day() as i64 - d1.day() as i64)
}
pub fn t365_days<S>(_s: &S, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
    Ok(t365(d1, d2))
}
pub fn t365_yf<S>(_s: &S, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
    Ok(t365(d1, d2) as f64 / 365.0)
}

pub fn to_date(s: &dyn DayCounters, from: NaiveDate, t: f64) -> Result<NaiveDate> {
    let guess = (from + Period::Days((t * 365.25).round() as i64))?;
    let miss = t - s.year_fraction(from, guess)?;
    guess + Period::Days((miss * 365.25).round() as i64)
}
