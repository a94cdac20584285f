//! Frequency and convention names.
use crate::time::businessdayconvention::BusinessDayConvention as B;
use crate::time::frequency::Frequency as F;
use crate::time::period::Period;

pub fn name(f: &F) -> &str {
    match f {
        F::NoFrequency => "No-Frequency",
        F::Once => "Once",
        F::Annual => "Annual",
        F::Semiannual => "Semiannual",
        F::EveryFourthMonth => "Every-Fourth-Month",
        F::Quarterly => "Quarterly",
        F::Bimonthly => "Bimonthly",
        F::Monthly => "Monthly",
        F::EveryFourthWeek => "Every-Fourth-Week",
        F::Biweekly => "Biweekly",
        F::Weekly => "Weekly",
        F::Daily => "Daily",
        F::OtherFrequency => "Unknown Frequency",
    }
}

pub fn period(f: &F) -> Option<Period> {
    Some(match f {
        F::NoFrequency => Period::ON,
        F::Annual => Period::Years(1),
        F::Semiannual => Period::Months(6),
        F::EveryFourthMonth => Period::Months(4),
        F::Quarterly => Period::Months(3),
        F::Bimonthly => Period::Months(2),
        F::Monthly => Period::Months(1),
        F::EveryFourthWeek => Period::Weeks(4),
        F::Biweekly => Period::Weeks(2),
        F::Weekly => Period::Weeks(1),
        F::Daily => Period::Days(1),
        F::Once | F::OtherFrequency => return None,
    })
}

pub fn from_code(code: &str) -> Option<F> {
    match code {
        "Once" => Some(F::NoFrequency),
        "Annual" => Some(F::Annual),
        "Semiannual" => Some(F::Semiannual),
        "EveryFourthMonth" | "Every-Fourth-Month" => Some(F::EveryFourthMonth),
        "Quarterly" => Some(F::Quarterly),
        "Bimonthly" => Some(F::Bimonthly),
        "Monthly" => Some(F::Monthly),
        "EveryFourthWeek" | "Every-Fourth-Week" => Some(F::EveryFourthWeek),
        "Biweekly" => Some(F::Biweekly),
        "Weekly" => Some(F::Weekly),
        "Daily" => Some(F::Daily),
        _ => None,
    }
}

pub fn bdc_name(b: &B) -> &str {
    match b {
        B::Following => "Following",
        B::ModifiedFollowing => "Modified Following",
        B::HalfMonthModifiedFollowing => "Half-Month Modified Following",
        B::Preceding => "Preceding",
        B::ModifiedPreceding => "Modified Preceding",
        B::Unadjusted => "Unadjusted",
        B::Nearest => "Nearest",
    }
}

pub fn bdc_from_code(code: &str) -> Option<B> {
    match code {
        "Following" => Some(B::Following),
        "Modified Following" | "ModifiedFollowing" => Some(B::ModifiedFollowing),
        "Half-Month Modified Following" | "HalfMonthModifiedFollowing" => Some(B::HalfMonthModifiedFollowing),
        "Preceding" => Some(B::Preceding),
        "Modified Preceding" | "ModifiedPreceding" => Some(B::ModifiedPreceding),
        "Unadjusted" => Some(B::Unadjusted),
        "Nearest" => Some(B::Nearest),
        _ => None,
    }
}
