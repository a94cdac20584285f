//! Relations between two calls of the library itself (self-composition).
use crate::error::Result;
use crate::time::daycounters::actual360::Actual360;
use crate::time::daycounters::actual364::Actual364;
use crate::time::daycounters::actual365fixed::Actual365Fixed;
use crate::time::daycounters::actual366::Actual366;
use crate::time::daycounters::actualactual::ActualActual;
use crate::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use crate::time::daycounters::thirty365::Thirty365;
use crate::time::daycounters::DayCounters;
use chrono::NaiveDate;

macro_rules! anti {
    ($n:ident, $m:ident, $t:ty) => {
        pub fn $n(s: &$t, a: NaiveDate, b: NaiveDate) -> Result<f64> {
            Ok(s.year_fraction(a, b)? + s.year_fraction(b, a)?)
        }
        pub fn $m(s: &$t, a: NaiveDate, b: NaiveDate) -> Result<i64> {
            Ok(s.day_count(a, b)? + s.day_count(b, a)?)
        }
    };
}
anti!(anti_yf_a360, anti_dc_a360, Actual360);
anti!(anti_yf_a364, anti_dc_a364, Actual364);
anti!(anti_yf_a365, anti_dc_a365, Actual365Fixed);
anti!(anti_yf_a366, anti_dc_a366, Actual366);
anti!(anti_yf_actact, anti_dc_actact, ActualActual);
anti!(anti_yf_t365, anti_dc_t365, Thirty365);

macro_rules! addi {
    ($n:ident, $m:ident, $t:ty) => {
        pub fn $n(s: &$t, a: NaiveDate, b: NaiveDate, c: NaiveDate) -> Result<f64> {
            Ok(s.year_fraction(a, b)? + s.year_fraction(b, c)? - s.year_fraction(a, c)?)
        }
        pub fn $m(s: &$t, a: NaiveDate, b: NaiveDate, c: NaiveDate) -> Result<i64> {
            Ok(s.day_count(a, b)? + s.day_count(b, c)? - s.day_count(a, c)?)
        }
    };
}
addi!(addi_yf_a360, addi_dc_a360, Actual360);
addi!(addi_yf_a364, addi_dc_a364, Actual364);
addi!(addi_yf_a365, addi_dc_a365, Actual365Fixed);
addi!(addi_yf_a366, addi_dc_a366, Actual366);
addi!(addi_yf_t365, addi_dc_t365, Thirty365);

pub fn anti_euro(a: NaiveDate, b: NaiveDate) -> Result<i64> {
    let s = Thirty360 { market: Thirty360Market::European };
    Ok(s.day_count(a, b)? + s.day_count(b, a)?)
}
pub fn anti_italian(a: NaiveDate, b: NaiveDate) -> Result<i64> {
    let s = Thirty360 { market: Thirty360Market::Italian };
    Ok(s.day_count(a, b)? + s.day_count(b, a)?)
}
pub fn addi_euro(a: NaiveDate, b: NaiveDate, c: NaiveDate) -> Result<i64> {
    let s = Thirty360 { market: Thirty360Market::European };
    Ok(s.day_count(a, b)? + s.day_count(b, c)? - s.day_count(a, c)?)
}
pub fn addi_italian(a: NaiveDate, b: NaiveDate, c: NaiveDate) -> Result<i64> {
    let s = Thirty360 { market: Thirty360Market::Italian };
    Ok(s.day_count(a, b)? + s.day_count(b, c)? - s.day_count(a, c)?)
}
pub fn zero_i(_a: NaiveDate, _b: NaiveDate) -> Result<i64> {
    Ok(0)
}
pub fn zero_f(_a: NaiveDate, _b: NaiveDate) -> Result<f64> {
    Ok(0.0)
}
