//! Business-day conventions over an arbitrary calendar.
use crate::error::Result;
use crate::time::businessdayconvention::BusinessDayConvention as B;
use crate::time::calendars::Calendar;
use crate::time::period::Period;
use chrono::{Datelike, Duration, NaiveDate, Weekday};

fn fol(c: &dyn Calendar, date: NaiveDate) -> NaiveDate {
    let mut d = date;
    while !c.is_business_day(d) {
        d = d + Duration::days(1);
    }
    d
}

fn pre(c: &dyn Calendar, date: NaiveDate) -> NaiveDate {
    let mut d = date;
    while !c.is_business_day(d) {
        d = d - Duration::days(1);
    }
    d
}

pub fn is_holiday(c: &dyn Calendar, date: NaiveDate) -> bool {
    !c.is_business_day(date)
}

pub fn is_weekend(_c: &dyn Calendar, date: NaiveDate) -> bool {
    date.weekday() == Weekday::Sat || date.weekday() == Weekday::Sun
}

pub fn naive_date_to_dkmy(_c: &dyn Calendar, date: NaiveDate) -> (u32, Weekday, u32, i32, u32) {
    (date.day(), date.weekday(), date.month(), date.year(), date.ordinal())
}

pub fn last_day_of_month(_c: &dyn Calendar, date: NaiveDate) -> NaiveDate {
    let first_of_next = if date.month() == 12 {
        NaiveDate::from_ymd_opt(date.year() + 1, 1, 1).unwrap()
    } else {
        NaiveDate::from_ymd_opt(date.year(), date.month() + 1, 1).unwrap()
    };
    first_of_next - Duration::days(1)
}

pub fn end_of_month(c: &dyn Calendar, date: NaiveDate) -> NaiveDate {
    pre(c, last_day_of_month(c, date))
}

pub fn adjust(c: &dyn Calendar, date: NaiveDate, bdc: B) -> Option<NaiveDate> {
    match bdc {
        B::Unadjusted => Some(date),
        B::Following => Some(fol(c, date)),
        B::Preceding => Some(pre(c, date)),
        B::ModifiedFollowing => {
            let d = fol(c, date);
            if d.month() == date.month() { Some(d) } else { Some(pre(c, date)) }
        }
        B::ModifiedPreceding => {
            let d = pre(c, date);
            if d.month() == date.month() { Some(d) } else { Some(fol(c, date)) }
        }
        B::HalfMonthModifiedFollowing => {
            let d = fol(c, date);
            if d.month() != date.month() || (date.day() <= 15 && d.day() > 15) {
                Some(pre(c, date))
            } else {
                Some(d)
            }
        }
        B::Nearest => {
            // the smallest k with a business day at distance k, later side first
            let mut k = 0;
            while !c.is_business_day(date + Duration::days(k)) && !c.is_business_day(date - Duration::days(k)) {
                k += 1;
            }
            if c.is_business_day(date + Duration::days(k)) {
                Some(date + Duration::days(k))
            } else {
                Some(date - Duration::days(k))
            }
        }
    }
}

pub fn advance(c: &dyn Calendar, date: NaiveDate, period: Period, bdc: B, eom: Option<bool>) -> Result<Option<NaiveDate>> {
    match period {
        Period::Days(n) => {
            if n == 0 {
                return Ok(c.adjust(date, bdc));
            }
            let mut d = date;
            let mut left = n;
            while left > 0 {
                d = fol(c, d + Duration::days(1));
                left -= 1;
            }
            while left < 0 {
                d = pre(c, d - Duration::days(1));
                left += 1;
            }
            Ok(Some(d))
        }
        Period::Months(_) | Period::Years(_) if eom == Some(true) => {
            Ok(Some(c.end_of_month(c.adjust((date + period)?, bdc).unwrap())))
        }
        _ => Ok(c.adjust((date + period)?, bdc)),
    }
}

/// open days d with from <= d < to, each end moved by its flag; negated when reversed
pub fn business_days_between(c: &dyn Calendar, from: NaiveDate, to: NaiveDate, first: Option<bool>, last: Option<bool>) -> i64 {
    if from > to {
        return -c.business_days_between(to, from, first, last);
    }
    let a = if first == Some(false) { from + Duration::days(1) } else { from };
    let b = if last == Some(true) { to + Duration::days(1) } else { to };
    let mut n = 0;
    let mut d = a;
    while d < b {
        if c.is_business_day(d) {
            n += 1;
        }
        d = d + Duration::days(1);
    }
    n
}

/// a joint calendar is open exactly when every member is
pub fn joint(c: &crate::time::calendars::JointCalendar, date: NaiveDate) -> bool {
    for m in &c.calendars {
        if !m.is_business_day(date) {
            return false;
        }
    }
    true
}

pub fn joint_all(c: &crate::time::calendars::JointCalendar, date: NaiveDate) -> bool {
    c.calendars.iter().all(|m| m.is_business_day(date))
}

pub fn joint_any(c: &crate::time::calendars::JointCalendar, date: NaiveDate) -> bool {
    !c.calendars.iter().any(|m| !m.is_business_day(date))
}

pub fn joint_fold(c: &crate::time::calendars::JointCalendar, date: NaiveDate) -> bool {
    let mut open = true;
    for m in &c.calendars {
        open = open && m.is_business_day(date);
    }
    open
}

pub fn joint_fold_rev(c: &crate::time::calendars::JointCalendar, date: NaiveDate) -> bool {
    let mut open = true;
    for m in &c.calendars {
        open = m.is_business_day(date) && open;
    }
    open
}
