//! IMM dates and codes.
use crate::time::imm::IMM;
use chrono::{Datelike, Duration, NaiveDate, Weekday};

pub fn is_imm_date(_s: &IMM, d: NaiveDate, main: bool) -> bool {
    let third_wednesday = d.weekday() == Weekday::Wed && d.day() >= 15 && d.day() <= 21;
    third_wednesday && (!main || d.month() % 3 == 0)
}

// the third Wednesday of a month
fn third_wed(y: i32, m: u32) -> NaiveDate {
    let first = NaiveDate::from_ymd_opt(y, m, 1).unwrap().weekday().num_days_from_monday();
    let first_wed = if first <= 2 { 3 - first } else { 10 - first };
    NaiveDate::from_ymd_opt(y, m, first_wed + 14).unwrap()
}

// the contract month after (y, m)
fn following(y: i32, m: u32, every: u32) -> (i32, u32) {
    let k = m + every - m % every;
    if k > 12 { (y + 1, k - 12) } else { (y, k) }
}

fn after(d: NaiveDate, main: bool) -> NaiveDate {
    let every = if main { 3 } else { 1 };
    let (y, m) = if d.month() % every == 0 && d.day() <= 21 {
        (d.year(), d.month())
    } else {
        following(d.year(), d.month(), every)
    };
    let r = third_wed(y, m);
    if r > d {
        r
    } else {
        let (y, m) = following(y, m, every);
        third_wed(y, m)
    }
}

pub fn next_date(_s: &IMM, d: NaiveDate, main: bool) -> NaiveDate {
    after(d, main)
}

pub fn is_imm_code(_s: &IMM, code: String, main: bool) -> bool {
    if code.len() != 2 {
        return false;
    }
    let letters = if main { "hmzuHMZU" } else { "fghjkmnquvxzFGHJKMNQUVXZ" };
    match (code.chars().nth(0), code.chars().nth(1)) {
        (Some(a), Some(b)) => letters.contains(a) && "0123456789".contains(b),
        _ => false,
    }
}

pub fn code(s: &IMM, d: NaiveDate) -> Option<String> {
    if d.weekday() != Weekday::Wed || d.day() < 15 || d.day() > 21 {
        return None;
    }
    let letter = match d.month() {
        1 => "F",
        2 => "G",
        3 => "H",
        4 => "J",
        5 => "K",
        6 => "M",
        7 => "N",
        8 => "Q",
        9 => "U",
        10 => "V",
        11 => "X",
        _ => "Z",
    };
    let mut out = letter.to_string();
    out.push_str(&(d.year() % 10).to_string());
    Some(out)
}

pub fn date(_s: &IMM, code: String, reference: Option<NaiveDate>) -> Option<NaiveDate> {
    let letters = "fghjkmnquvxzFGHJKMNQUVXZ";
    if code.len() != 2 {
        return None;
    }
    let (a, b) = match (code.chars().nth(0), code.chars().nth(1)) {
        (Some(a), Some(b)) => (a, b),
        _ => return None,
    };
    if !letters.contains(a) || !"0123456789".contains(b) {
        return None;
    }
    let reference = reference.unwrap_or(chrono::offset::Utc::now().date_naive());
    let month = match a.to_ascii_uppercase() {
        'F' => 1,
        'G' => 2,
        'H' => 3,
        'J' => 4,
        'K' => 5,
        'M' => 6,
        'N' => 7,
        'Q' => 8,
        'U' => 9,
        'V' => 10,
        'X' => 11,
        _ => 12,
    };
    // the year of the reference date's decade with that last digit
    let digit = b.to_digit(10).unwrap() as i32;
    let bump = if digit == 0 && reference.year() <= 1909 { 10 } else { 0 };
    let year = digit + bump + reference.year() - reference.year() % 10;
    let hit = after(NaiveDate::from_ymd_opt(year, month, 1).unwrap(), false);
    if hit >= reference {
        Some(hit)
    } else {
        Some(after(NaiveDate::from_ymd_opt(year + 10, month, 1).unwrap(), false))
    }
}
