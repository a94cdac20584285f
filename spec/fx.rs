//! FX pairs, forwards and vanilla options.
use crate::derivatives::basic::Direction;
use crate::derivatives::forex::basic::{CurrencyValue, FXUnderlying as U};
use crate::derivatives::forex::forward::FXForward;
use crate::derivatives::forex::option::{FXVanillaOption, OptionType};
use crate::error::{Error, Result};
use crate::markets::forex::market_context::FxMarketContext;
use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use crate::markets::termstructures::yieldcurve::InterpolationMethodEnum as Interp;
use crate::math::normal::{cdf, pdf};
use crate::time::calendars::Calendar;
use crate::time::daycounters::actual360::Actual360;
use crate::time::daycounters::actual365fixed::Actual365Fixed;
use crate::time::daycounters::DayCounters;
use crate::time::period::Period;
use chrono::{Days, NaiveDate, NaiveTime};
use iso_currency::Currency as C;

fn currencies(u: &U) -> (C, C) {
    match u {
        U::EURGBP => (C::EUR, C::GBP),
        U::EURUSD => (C::EUR, C::USD),
        U::EURCAD => (C::EUR, C::CAD),
        U::EURJPY => (C::EUR, C::JPY),
        U::EURCHF => (C::EUR, C::CHF),
        U::EURNOK => (C::EUR, C::NOK),
        U::EURSEK => (C::EUR, C::SEK),
        U::EURAUD => (C::EUR, C::AUD),
        U::EURNZD => (C::EUR, C::NZD),
        U::EURDKK => (C::EUR, C::DKK),
        U::EURPLN => (C::EUR, C::PLN),
        U::EURHUF => (C::EUR, C::HUF),
        U::EURCZK => (C::EUR, C::CZK),
        U::EURRON => (C::EUR, C::RON),
        U::GBPUSD => (C::GBP, C::USD),
        U::GBPCAD => (C::GBP, C::CAD),
        U::GBPJPY => (C::GBP, C::JPY),
        U::GBPAUD => (C::GBP, C::AUD),
        U::GBPNZD => (C::GBP, C::NZD),
        U::GBPCHF => (C::GBP, C::CHF),
        U::GBPNOK => (C::GBP, C::NOK),
        U::GBPSEK => (C::GBP, C::SEK),
        U::AUDUSD => (C::AUD, C::USD),
        U::NZDUSD => (C::NZD, C::USD),
        U::USDCHF => (C::USD, C::CHF),
        U::USDNOK => (C::USD, C::NOK),
        U::USDSEK => (C::USD, C::SEK),
        U::USDJPY => (C::USD, C::JPY),
        U::USDSGD => (C::USD, C::SGD),
        U::USDHKD => (C::USD, C::HKD),
        U::USDCNY => (C::USD, C::CNY),
        U::USDPLN => (C::USD, C::PLN),
        U::USDHUF => (C::USD, C::HUF),
        U::USDCZK => (C::USD, C::CZK),
        U::USDZAR => (C::USD, C::ZAR),
        U::USDKRW => (C::USD, C::KRW),
        U::USDINR => (C::USD, C::INR),
        U::USDBRL => (C::USD, C::BRL),
        U::USDDKK => (C::USD, C::DKK),
        U::USDIDR => (C::USD, C::IDR),
        U::USDTWD => (C::USD, C::TWD),
        U::USDTHB => (C::USD, C::THB),
        U::USDILS => (C::USD, C::ILS),
        U::USDRON => (C::USD, C::RON),
        U::USDCAD => (C::USD, C::CAD),
        U::USDMXN => (C::USD, C::MXN),
        U::USDTRY => (C::USD, C::TRY),
        U::USDRUB => (C::USD, C::RUB),
        U::AUDNZD => (C::AUD, C::NZD),
        U::AUDCAD => (C::AUD, C::CAD),
        U::AUDCHF => (C::AUD, C::CHF),
        U::AUDJPY => (C::AUD, C::JPY),
        U::AUDSGD => (C::AUD, C::SGD),
        U::NZDCAD => (C::NZD, C::CAD),
        U::NZDCHF => (C::NZD, C::CHF),
        U::NZDJPY => (C::NZD, C::JPY),
        U::NZDSGD => (C::NZD, C::SGD),
        U::CADJPY => (C::CAD, C::JPY),
        U::CHFJPY => (C::CHF, C::JPY),
        U::CADCHF => (C::CAD, C::CHF),
    }
}

pub fn frn(u: &U) -> C {
    currencies(u).0
}
pub fn dom(u: &U) -> C {
    currencies(u).1
}
pub fn points_divisor(u: &U) -> f64 {
    if dom(u) == C::JPY { 100.0 } else { 10000.0 }
}
pub fn settles(u: &U) -> i8 {
    match u {
        U::USDCAD | U::USDMXN | U::USDTRY | U::USDRUB => 1,
        _ => 2,
    }
}
pub fn cutoff(u: &U) -> NaiveTime {
    let (h, m) = match u {
        U::USDCAD | U::USDMXN => (17, 0),
        U::USDTRY => (9, 0),
        U::USDRUB => (9, 30),
        _ => (22, 0),
    };
    NaiveTime::from_hms_opt(h, m, 0).unwrap()
}
pub fn effective(u: &U, v: NaiveDate, t: NaiveTime) -> NaiveDate {
    if t < u.cutoff_utc() {
        return v;
    }
    let c = u.calendar();
    let mut d = v + Days::new(1);
    while !c.is_business_day(d) {
        d = d + Days::new(1);
    }
    d
}
pub fn forward_helper(u: &U, v: NaiveDate, spot: f64, q: Vec<FXForwardQuote>) -> FXForwardHelper {
    FXForwardHelper::with_spot_lag(v, spot, u.settles() as i64, q)
}
pub fn pair_settlement(u: &U, p: Period, v: NaiveDate) -> Result<NaiveDate> {
    p.settlement_date_with_lag(v, &u.calendar(), u.settles() as i64)
}
pub fn pair_near(u: &U, p: Period, v: NaiveDate) -> Result<Option<NaiveDate>> {
    p.near_date_with_lag(v, &u.calendar(), u.settles() as i64)
}
pub fn pair_open(u: &U, d: NaiveDate) -> bool {
    use crate::time::calendars::*;
    fn market(c: C) -> Box<dyn Calendar> {
        match c {
            C::GBP => Box::new(UnitedKingdom::default()),
            C::USD => Box::new(UnitedStates::default()),
            C::JPY => Box::new(Japan),
            C::CAD => Box::new(Canada::default()),
            C::AUD => Box::new(Australia::default()),
            C::NZD => Box::new(NewZealand::default()),
            C::CHF => Box::new(Switzerland),
            C::NOK => Box::new(Norway),
            C::SEK => Box::new(Sweden),
            C::MXN => Box::new(Mexico),
            C::TRY => Box::new(Turkey),
            C::RUB => Box::new(Russia::default()),
            C::SGD => Box::new(Singapore),
            C::HKD => Box::new(HongKong),
            C::CNY => Box::new(China),
            C::PLN => Box::new(Poland::default()),
            C::HUF => Box::new(Hungary),
            C::CZK => Box::new(CzechRepublic),
            C::ZAR => Box::new(SouthAfrica),
            C::KRW => Box::new(SouthKorea),
            C::INR => Box::new(India),
            C::BRL => Box::new(Brazil::default()),
            C::DKK => Box::new(Denmark),
            C::IDR => Box::new(Indonesia),
            C::TWD => Box::new(Taiwan),
            C::THB => Box::new(Thailand),
            C::ILS => Box::new(Israel::default()),
            C::RON => Box::new(Romania),
            _ => Box::new(Target),
        }
    }
    market(frn(u)).is_business_day(d) && market(dom(u)).is_business_day(d)
}
pub fn code_pair_open(u: &U, d: NaiveDate) -> bool {
    u.calendar().is_business_day(d)
}

fn sign(d: &Direction) -> f64 {
    match d {
        Direction::Buy => 1.0,
        Direction::Sell => -1.0,
    }
}

fn outright(u: &U, expiry: NaiveDate, m: &FxMarketContext) -> Result<f64> {
    match m.forwards.get_forward(expiry, &u.calendar())? {
        Some(points) => Ok(m.spot + points / u.forward_points_converter()),
        None => Err(Error::TradeExpired(String::new())),
    }
}

// base-currency amount of a forward: a domestic notional is the opposite side, exchanged at the strike
fn forward_units(f: &FXForward) -> f64 {
    if f.notional_currency == f.asset.frn_currency() {
        sign(&f.basic_info.direction) * f.notional_amounts
    } else {
        -sign(&f.basic_info.direction) * f.notional_amounts / f.strike
    }
}
pub fn forward_mtm(f: &FXForward, m: &FxMarketContext) -> Result<CurrencyValue> {
    let out = outright(&f.asset, f.basic_info.expiry_date, m)?;
    let df = m.domestic_curve.discount(f.basic_info.expiry_date, &Interp::PiecewiseLinearContinuous)?;
    Ok(CurrencyValue { currency: f.asset.dom_currency(), value: forward_units(f) * (out - f.strike) * df })
}
pub fn forward_delta(f: &FXForward, _m: &FxMarketContext) -> Result<CurrencyValue> {
    Ok(CurrencyValue { currency: f.asset.frn_currency(), value: forward_units(f) })
}
pub fn forward_zero(_f: &FXForward, _m: &FxMarketContext) -> Result<f64> {
    Ok(0.0)
}

pub fn black(f: f64, k: f64, v: f64, df: f64, o: OptionType) -> f64 {
    if v <= 0.0 {
        let payoff = match o {
            OptionType::Call => f - k,
            OptionType::Put => k - f,
        };
        return df * payoff.max(0.0);
    }
    let d1 = (f / k).ln() / v.sqrt() + v.sqrt() / 2.0;
    let d2 = d1 - v.sqrt();
    match o {
        OptionType::Call => df * (f * cdf(d1) - k * cdf(d2)),
        OptionType::Put => df * (k * cdf(-d2) - f * cdf(-d1)),
    }
}

struct Bs {
    f: f64,
    df: f64,
    t: f64,
    v: f64,
    units: f64,
}
impl Bs {
    fn d1(&self, k: f64) -> f64 {
        ((self.f / k).ln() + 0.5 * self.v) / self.v.sqrt()
    }
}
fn bs(o: &FXVanillaOption, m: &FxMarketContext) -> Result<Bs> {
    let e = o.basic_info.expiry_date;
    let f = outright(&o.asset, e, m)?;
    let t = Actual365Fixed::default().year_fraction(m.valuation_date, e)?;
    let df = m.domestic_curve.discount(e, &Interp::StepFunctionForward)?;
    let n = if o.notional_currency == o.asset.frn_currency() { o.notional_amounts } else { o.notional_amounts / o.strike };
    Ok(Bs { f, df, t, v: o.volatility * o.volatility * t, units: n * sign(&o.basic_info.direction) })
}
// premium is paid by the buyer and quoted in the notional currency
pub fn option_mtm(o: &FXVanillaOption, m: &FxMarketContext) -> Result<CurrencyValue> {
    let b = bs(o, m)?;
    let p = black(b.f, o.strike, b.v, b.df, o.option_type);
    let fx = if o.notional_currency == o.asset.frn_currency() { m.spot } else { 1.0 };
    Ok(CurrencyValue { currency: o.notional_currency, value: -b.units * p / fx })
}
pub fn option_delta(o: &FXVanillaOption, m: &FxMarketContext) -> Result<CurrencyValue> {
    let b = bs(o, m)?;
    let d1 = b.d1(o.strike);
    let d = match o.option_type {
        OptionType::Call => cdf(d1),
        OptionType::Put => -cdf(-d1),
    };
    Ok(CurrencyValue { currency: o.asset.frn_currency(), value: b.units * d })
}
pub fn option_gamma(o: &FXVanillaOption, m: &FxMarketContext) -> Result<f64> {
    let b = bs(o, m)?;
    if b.v.sqrt() <= 0.0 {
        return Ok(0.0);
    }
    Ok(b.units * b.df * pdf(b.d1(o.strike)) / (b.f * b.v.sqrt()))
}
pub fn option_vega(o: &FXVanillaOption, m: &FxMarketContext) -> Result<f64> {
    let b = bs(o, m)?;
    if b.t <= 0.0 {
        return Ok(0.0);
    }
    let fx = if o.notional_currency == o.asset.frn_currency() { m.spot } else { 1.0 };
    Ok(b.units / fx * b.df * b.f * pdf(b.d1(o.strike)) * b.t.sqrt() / 100.0)
}

// put-call parity of the code's own pricer
pub fn parity(f: f64, k: f64, v: f64, df: f64) -> f64 {
    use crate::derivatives::forex::option::black_scholes;
    black_scholes(f, k, v, df, OptionType::Call) - black_scholes(f, k, v, df, OptionType::Put)
}
pub fn parity_value(f: f64, k: f64, _v: f64, df: f64) -> f64 {
    df * (f - k)
}
