From 50926d77f91dd05214a10d719f0ec70fc437be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 01/34] fix: Nearest adjustment returned the side that is still
 a holiday

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From 1e4eba1a6dfd4cc44f9345b52834702557430d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 02/34] fix: business_days_between skipped the first day when
 asked to include it

---
 src/time/calendars.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..2810216 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -323,9 +323,10 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
-        .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
+        .num_days()
+        .max(0);
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
             .take(day_diff as usize)
         {
-- 
2.43.0


From 5ed3a1acc5344822a2cfcfd014e6530f6c3eb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 03/34] fix: Actual/365 (No Leap) December offset is 334 days

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From 867e77af594e2e583b996eaa10af5d59f1c31186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 04/34] fix: Actual/Actual (ISDA) stub periods had the wrong
 sign

---
 src/time/daycounters/actualactual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..f0d0cbd 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -25,8 +25,8 @@ impl ActualActual {
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
-- 
2.43.0


From 32e60fdb7df019f2ef5f8127e586f44a2b43ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 05/34] fix: Actual/Actual (Euro) stub period had the wrong
 sign and reversed dates were not negated

---
 src/time/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index f0d0cbd..9347b6f 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -34,6 +34,8 @@ impl ActualActual {
     fn euro_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.euro_year_fraction(d2, d1)
         } else {
             let mut new_d2 = d2;
             let mut temp = d2;
@@ -60,7 +62,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From a775fcea2a15366f36a32dd73c0563de60abf667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 06/34] fix: Business/252 counted the remaining period once per
 whole month

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 8950a5986cc1a1f4d3775cff2c942c8e96dfa03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 07/34] fix: Ukraine observes Orthodox, not Western, Easter

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 534b52c9c0125cc254b181bf1bf6fbc7b4d66a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 08/34] fix: IMM next_date never moved on to the next contract
 month

---
 src/time/imm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..9806df0 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -132,8 +132,10 @@ impl IMM {
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
             if skip_months > 12 {
-                month -= 12;
+                month = skip_months - 12;
                 year += 1;
+            } else {
+                month = skip_months;
             }
         }
         let mut result = self.nth_weekday(3, Weekday::Wed, month, year).unwrap();
-- 
2.43.0


From ae4f77dc05abf77ab369c2688a0db9f94eedd14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 09/34] fix: IMM date panicked on the lower-case codes
 is_imm_code accepts

---
 src/time/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 9806df0..d26afaa 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -102,7 +102,7 @@ impl IMM {
             None
         } else {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
-            let month = imm_code.chars().nth(0).unwrap();
+            let month = imm_code.chars().nth(0).unwrap().to_ascii_uppercase();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
             let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
-- 
2.43.0


From 3a018ee9531b107a665293e706a7ccb9e6c1ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 10/34] fix: is_imm_code panicked on a single two-byte
 character

---
 src/time/imm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index d26afaa..3d3e0e3 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -54,10 +54,9 @@ impl IMM {
             return false;
         }
 
-        let imm_year = imm_code
-            .chars()
-            .nth(1)
-            .expect("already asserted length of 2");
+        let Some(imm_year) = imm_code.chars().nth(1) else {
+            return false;
+        };
 
         if !"0123456789".contains(imm_year) {
             return false;
-- 
2.43.0


From 4a92f96713fd9ead436bbf1719ec784e1d442ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 11/34] fix: adding a period beyond the calendar range panicked
 instead of returning PeriodOutOfBounds

---
 src/time/period.rs | 58 ++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index d2f0fe9..8d4d9ea 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -155,18 +155,27 @@ impl Add<Period> for NaiveDate {
             Period::TN => self + ONE_DAY,
             Period::SPOT => self,
             Period::SN => self + ONE_DAY,
-            Period::Days(num) => {
-                self + Duration::try_days(num).ok_or_else(|| {
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_add_signed(days))
+                .ok_or_else(|| {
                     Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self + Duration::try_days(num * 7).ok_or_else(|| {
+                })?,
+            Period::Weeks(num) => num
+                .checked_mul(7)
+                .and_then(Duration::try_days)
+                .and_then(|days| self.checked_add_signed(days))
+                .ok_or_else(|| {
                     Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self + Months::new(num),
-            Period::Years(num) => self + Months::new(num * 12),
+                })?,
+            Period::Months(num) => self.checked_add_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_add_months(Months::new(months)))
+                .ok_or_else(|| {
+                    Error::PeriodOutOfBounds(format!("{num} years is out of bounds"))
+                })?,
         };
 
         Ok(date)
@@ -182,18 +191,27 @@ impl Sub<Period> for NaiveDate {
             Period::TN => self - ONE_DAY,
             Period::SPOT => self,
             Period::SN => self - ONE_DAY,
-            Period::Days(num) => {
-                self - Duration::try_days(num).ok_or_else(|| {
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_sub_signed(days))
+                .ok_or_else(|| {
                     Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self - Duration::try_days(num * 7).ok_or_else(|| {
+                })?,
+            Period::Weeks(num) => num
+                .checked_mul(7)
+                .and_then(Duration::try_days)
+                .and_then(|days| self.checked_sub_signed(days))
+                .ok_or_else(|| {
                     Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self - Months::new(num),
-            Period::Years(num) => self - Months::new(num * 12),
+                })?,
+            Period::Months(num) => self.checked_sub_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_sub_months(Months::new(months)))
+                .ok_or_else(|| {
+                    Error::PeriodOutOfBounds(format!("{num} years is out of bounds"))
+                })?,
         };
 
         Ok(date)
-- 
2.43.0


From 891c55d488bb9ffb68eff3b0af649518fe3022c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 12/34] fix: Japan's equinox holidays were wrong outside a few
 listed years

---
 src/time/calendars/japan.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..880d225 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -9,17 +9,19 @@ use serde::{Deserialize, Serialize};
 pub struct Japan;
 
 impl Japan {
+    // The equinoxes drift by 0.242194 days a year and fall back a day every leap year.
+    // https://www.nao.ac.jp/faq/a0301.html
+    fn equinox_day(&self, in_1980: f64, y: i32) -> u32 {
+        let years = y - 1980;
+        (in_1980 + 0.242194 * years as f64 - years.div_euclid(4) as f64).floor() as u32
+    }
+
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        self.equinox_day(20.8431, y)
     }
+
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        self.equinox_day(23.2488, y)
     }
 }
 
-- 
2.43.0


From 582290a8acf0fb75f22fb4e69c1a231ff1ecf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 13/34] fix: Singapore's Chinese New Year 2010 was listed in
 January

---
 src/time/calendars/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/singapore.rs b/src/time/calendars/singapore.rs
index 0987325..c885a61 100644
--- a/src/time/calendars/singapore.rs
+++ b/src/time/calendars/singapore.rs
@@ -32,7 +32,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 4e695c68b451c413ad3e9a98b90d9128ac642190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 14/34] fix: Turkey's bayram dates of 2011 and 2015 were
 misplaced

---
 src/time/calendars/turkey.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars/turkey.rs b/src/time/calendars/turkey.rs
index 3a04c7d..b7fa13d 100644
--- a/src/time/calendars/turkey.rs
+++ b/src/time/calendars/turkey.rs
@@ -95,8 +95,12 @@ impl Calendar for Turkey {
                 return false;
             }
         } else if y == 2011 {
-            // not clear from borsainstanbul.com
-            if (m == 10 && d == 1) || (m == 11 && (9..=13).contains(&d)) {
+            // Ramadan
+            if (m == 8 && d >= 30)
+                || (m == 9 && d == 1)
+                // Kurban
+                || (m == 11 && (6..=9).contains(&d))
+            {
                 return false;
             }
         } else if y == 2012 {
@@ -131,7 +135,7 @@ impl Calendar for Turkey {
             // Ramadan
             if (m == 7 && (17..=19).contains(&d))
                 // Kurban
-                || (m == 10 && (24..=27).contains(&d))
+                || (m == 9 && (24..=27).contains(&d))
             {
                 return false;
             }
-- 
2.43.0


From 20865b9e36963498475c5f24ed623fdda034a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 15/34] fix: the NYSE was closed on 9 January 2025

---
 src/time/calendars/unitedstates.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 79223ee..def3ae7 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -154,8 +154,10 @@ impl UnitedStates {
 
         // Special closings
         if
-        // President Bush's Funeral
-        (y == 2018 && m == 12 && d == 5)
+        // President Carter's Funeral
+        (y == 2025 && m == 1 && d == 9)
+                // President Bush's Funeral
+                || (y == 2018 && m == 12 && d == 5)
                 // Hurricane Sandy
                 || (y == 2012 && m == 10 && (d == 29 || d == 30))
                 // President Ford's funeral
-- 
2.43.0


From 84374c15b0e43c26df3de58d436cfb637e3e3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 16/34] fix: Taiwan's 2010 lunar new year and dragon boat
 festival were listed a month early

---
 src/time/calendars/taiwan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/taiwan.rs b/src/time/calendars/taiwan.rs
index c938ffb..017de67 100644
--- a/src/time/calendars/taiwan.rs
+++ b/src/time/calendars/taiwan.rs
@@ -108,10 +108,10 @@ impl Calendar for Taiwan {
         }
         // Year 2010
         // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From c7803bad0b951f5f87ecfa64ccc3f28edf8877c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 17/34] fix: Hong Kong's third lunar new year day of 2014 fell
 on Monday 3 February

---
 src/time/calendars/hongkong.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/hongkong.rs b/src/time/calendars/hongkong.rs
index baa2047..8c7e8ef 100644
--- a/src/time/calendars/hongkong.rs
+++ b/src/time/calendars/hongkong.rs
@@ -85,7 +85,7 @@ lazy_static::lazy_static! {
         ]));
 
         map.insert(2014, HashSet::from_iter([
-            (31, 1), (1, 2), (2, 2), (6, 5), (2, 6), (9, 9), (2, 10)
+            (31, 1), (1, 2), (3, 2), (6, 5), (2, 6), (9, 9), (2, 10)
         ]));
 
         map.insert(2015, HashSet::from_iter([
-- 
2.43.0


From e60e1d23a41df7c06e9f8a38d87fc650e301462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 18/34] fix: FX option delta and gamma treated a domestic
 notional as a foreign amount

---
 src/derivatives/forex/option.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index c1f96a5..cc9c443 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -141,6 +141,16 @@ impl FXVanillaOption {
     fn direction_sign(&self) -> f64 {
         self.basic_info.direction as i8 as f64
     }
+
+    /// Notional expressed in the foreign (base) currency: a domestic notional
+    /// is exchanged at the strike.
+    fn base_notional(&self) -> f64 {
+        if self.notional_currency == self.asset.frn_currency() {
+            self.notional_amounts
+        } else {
+            self.notional_amounts / self.strike
+        }
+    }
 }
 
 impl FXDerivatives for FXVanillaOption {
@@ -185,7 +195,7 @@ impl FXDerivatives for FXVanillaOption {
         let ctx = self.bs_context(market)?;
         let omega = self.option_type.omega();
         let fwd_delta_per_unit = omega * cdf(omega * ctx.d1);
-        let delta = self.notional_amounts * self.direction_sign() * fwd_delta_per_unit;
+        let delta = self.base_notional() * self.direction_sign() * fwd_delta_per_unit;
         Ok(CurrencyValue {
             currency: self.asset.frn_currency(),
             value: delta,
@@ -200,7 +210,7 @@ impl FXDerivatives for FXVanillaOption {
             return Ok(0.0);
         }
         let gamma_per_unit = ctx.discount * pdf(ctx.d1) / (ctx.forward * ctx.sqrt_v);
-        Ok(self.notional_amounts * self.direction_sign() * gamma_per_unit)
+        Ok(self.base_notional() * self.direction_sign() * gamma_per_unit)
     }
 
     /// Black-Scholes vega per **1 % change** in volatility, converted to the
-- 
2.43.0


From c009e30bfdb7022a87f1ce167127f23095027e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 19/34] fix: FX market context from raw quotes ignored the
 pair's spot lag

---
 src/markets/forex/market_context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..8a33e17 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -41,6 +41,7 @@
 //!      └─ Simulator::from_market(&ctx)                       ← MC paths
 //! ```
 
+use crate::derivatives::forex::basic::FXUnderlying;
 use crate::error::{Error, Result};
 use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
 use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
@@ -51,6 +52,7 @@ use crate::time::calendars::Calendar;
 use crate::time::daycounters::DayCounters;
 use chrono::{Duration, NaiveDate};
 use iso_currency::Currency;
+use std::str::FromStr;
 
 /// Bundled FX market data for a single pair / valuation date.
 ///
@@ -140,7 +142,11 @@ impl FxMarketContext {
             valuation_date,
             foreign_ir.get_stripped_curve()?,
         );
-        let forwards = FXForwardHelper::new(valuation_date, spot, fx_forward_quotes);
+        let name = format!("{}{}", pair.1.code(), pair.0.code());
+        let forwards = match FXUnderlying::from_str(&name) {
+            Ok(pair) => pair.forward_helper(valuation_date, spot, fx_forward_quotes),
+            Err(_) => FXForwardHelper::new(valuation_date, spot, fx_forward_quotes),
+        };
         let vol_surface = FXVolSurface::new(valuation_date, vol_pillars)?;
         Ok(Self::new(
             valuation_date,
-- 
2.43.0


From d0b93dd5edda7237f26f855d844eee9ff0553525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 20/34] fix: forward_at returned the forward points instead of
 the outright forward

---
 src/markets/forex/market_context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 8a33e17..a6f6e66 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -164,12 +164,18 @@ impl FxMarketContext {
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let forward_points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        let divisor = if self.pair.0 == Currency::JPY {
+            100.0
+        } else {
+            10000.0
+        };
+        Ok(self.spot + forward_points / divisor)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
-- 
2.43.0


From abca8c6a0c0b2f354ab613a408b5780fd9fed985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 21/34] fix: zero rate beyond the last pillar fell back to the
 first pillar's

---
 src/markets/termstructures/yieldcurve.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..f092e70 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -221,13 +221,19 @@ impl YieldTermStructure {
         let mut first = self.stripped_curves.first().unwrap();
         let mut second = self.stripped_curves.first().unwrap();
         let mut true_first = self.stripped_curves.first().unwrap();
+        let mut bracketed = false;
         for strip_curve in &self.stripped_curves {
             if target_date <= strip_curve.date && !strip_curve.hidden_pillar {
                 second = strip_curve;
+                bracketed = true;
                 break;
             }
             first = strip_curve;
         }
+        if !bracketed {
+            // Beyond the last pillar: hold its zero rate flat.
+            return first.zero_rate;
+        }
         for strip_curve in &self.stripped_curves {
             if !strip_curve.hidden_pillar {
                 true_first = strip_curve;
-- 
2.43.0


From de93b84b4740248ffabc672f23079d87bb07c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 22/34] fix: cash quotes sharing a maturity were stripped once
 per pair

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index f092e70..9f488e4 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -124,6 +124,7 @@ impl YieldTermMarketData {
             cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
         }
         cash_quote_maturity.sort();
+        cash_quote_maturity.dedup();
 
         for maturity in cash_quote_maturity {
             for cash in &self.cash_quote {
-- 
2.43.0


From a52c0cd15ae173a2456f01b24bea152c9212dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 23/34] fix: swap pillars of the stripped curve were left with
 a zero discount factor

---
 src/markets/termstructures/yieldcurve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 9f488e4..197a414 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -165,7 +165,11 @@ impl YieldTermMarketData {
                 source: swap.yts_type(),
             });
             let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
-            outputs.last_mut().unwrap().zero_rate = zero_rate;
+            let pillar = outputs.last_mut().unwrap();
+            let year_fraction =
+                Actual365Fixed::default().year_fraction(self.valuation_date, pillar.date)?;
+            pillar.zero_rate = zero_rate;
+            pillar.discount = (-zero_rate * year_fraction).exp();
         }
         Ok(outputs)
     }
-- 
2.43.0


From 2fb7f5c0dc107acb288672e3a4ec4eb64c75379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 24/34] fix: swap schedule divided a duration in years by a
 tenor in months as plain numbers

---
 src/derivatives/interestrate/swap.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..7852690 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -128,14 +128,19 @@ impl InterestRateSwapLeg {
             let effective_date = self.effective_date(valuation_date)?.unwrap();
 
             // TODO: amortisation
+            // Same unit for both: days, or months.
             let tenor_num = match self.schedule_detail.tenor {
-                Period::Days(num) | Period::Weeks(num) => num as u32,
-                Period::Months(num) | Period::Years(num) => num,
+                Period::Days(num) => num as u32,
+                Period::Weeks(num) => 7 * num as u32,
+                Period::Months(num) => num,
+                Period::Years(num) => 12 * num,
                 _ => 1,
             };
             let duration_num = match self.schedule_detail.duration {
-                Period::Days(num) | Period::Weeks(num) => num as u32,
-                Period::Months(num) | Period::Years(num) => num,
+                Period::Days(num) => num as u32,
+                Period::Weeks(num) => 7 * num as u32,
+                Period::Months(num) => num,
+                Period::Years(num) => 12 * num,
                 _ => 1,
             };
 
-- 
2.43.0


From bc7b6466536431bb9f29de680e03a6f63715c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 25/34] fix: AONIA, the Australian overnight index, followed
 Austria's calendar

---
 src/markets/interestrate/interestrateindex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index e0f24be..31da32e 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,7 +1,7 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Austria, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
@@ -41,7 +41,7 @@ impl InterestRateIndex {
                 period: Period::SPOT,
                 settlement_days: 0,
                 currency: AUD,
-                calendar: Box::<Austria>::default(),
+                calendar: Box::<Australia>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
-- 
2.43.0


From b8275cfba681e86a82889a08a2eb597d34848af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 26/34] fix: CDOR, the Canadian dollar offered rate, was a US
 dollar index on the SOFR calendar

---
 src/markets/interestrate/interestrateindex.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index 31da32e..e61c909 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,13 +1,13 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
 use iso_currency::Currency;
-use iso_currency::Currency::{AUD, EUR, GBP, USD};
+use iso_currency::Currency::{AUD, CAD, EUR, GBP, USD};
 use serde::{Deserialize, Serialize};
 
 #[allow(clippy::upper_case_acronyms)]
@@ -49,10 +49,8 @@ impl InterestRateIndex {
             InterestRateIndexEnum::CDOR(period) => Some(InterestRateIndex {
                 period,
                 settlement_days: 0,
-                currency: USD,
-                calendar: Box::new(UnitedStates {
-                    market: Some(UnitedStatesMarket::SOFR),
-                }),
+                currency: CAD,
+                calendar: Box::<Canada>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::new(Actual360),
                 end_of_month: false,
-- 
2.43.0


From 575981875f904399341bd0717e713da16d00a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 27/34] fix: simulate_at_dates dropped every observation after
 two dates with the same year fraction

---
 src/models/common/simulation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..9ffbeac 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,10 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From 441c22c8607cf6ef3e3470e0980d8efad020d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 28/34] fix: sign of the antiderivative of the squared bond
 duration
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The derivative of the previous expression was (2e1 - e2 + 1)/λ², not
(e2 - 2e1 + 1)/λ² = B(s, T)², so the integrated bond variance of a
mean-reverting model was too large by orders of magnitude.
---
 src/models/interestrate/hull_white.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 42dcd6d..e8abba1 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -74,7 +74,7 @@ impl HullWhite1F {
         let lambda = self.mean_reversion;
         let tau_fn = |s: f64| -> f64 {
             // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C
+            //   = (1/λ²)·[ (1/(2λ))·e^{−2λ(T−s)} − (2/λ)·e^{−λ(T−s)} + s ] + C
             // Apply at (s₁, s₂), take the difference.
             if lambda.abs() < 1.0e-12 {
                 // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
@@ -83,7 +83,7 @@ impl HullWhite1F {
             }
             let e1 = (-lambda * (big_t - s)).exp();
             let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (-0.5 / lambda * e2 + 2.0 / lambda * e1 + s)
+            (1.0 / (lambda * lambda)) * (0.5 / lambda * e2 - 2.0 / lambda * e1 + s)
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
-- 
2.43.0


From cfb32193324ed657033a13fd745190671b6dd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 29/34] fix: later SABR pillars account for the correlation
 actually stored

The running integral kept the unclamped correlation of a pillar whose
solution leaves (-1, 1), so every later pillar missed its own effective
correlation although it was attainable.
---
 src/models/forex/sabr_time_dependent_calibrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 3ea25c1..77a763d 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -237,7 +237,6 @@ pub fn calibrate_time_dependent(
         );
         let rhs = target * gamma_tilde * t / omega_tilde;
         let rho_i = (rhs - tail_sum) / s_i;
-        tail_sum += rho_i * s_i;
 
         // Clamp into `(−1, 1)` — the calibration target is a smile
         // quantity, not a correlation, so a slight boundary violation
@@ -245,6 +244,7 @@ pub fn calibrate_time_dependent(
         // with a logged warning is benign; callers that need strict
         // bounds should add a pillar.
         let rho_i_clamped = rho_i.clamp(-0.999, 0.999);
+        tail_sum += rho_i_clamped * s_i;
         rho_values.push(rho_i_clamped);
     }
     let rho_sched = PiecewiseConstant::new(knots, rho_values);
-- 
2.43.0


From 52f7c95b1f23f10bfca4f4e19a9656c3bf0ba841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 30/34] fix: variance and bond terms of the FX-HHW1 drift
 integral are taken at calendar time, not time to expiry

---
 src/models/forex/fx_hhw1_chf.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index e23d0e2..364dc85 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -71,13 +71,13 @@ pub struct FxHhw1ForwardChf<'a> {
 #[derive(Clone, Debug)]
 struct SimpsonGrid {
     h: f64,
-    /// `φ(s_k) = E[√σ(s_k)]`.
+    /// `φ(t_k) = E[√σ(t_k)]` at `t_k = expiry − s_k`.
     phi: Vec<f64>,
-    /// `B_d(s_k, expiry)`.
+    /// `B_d(t_k, expiry)`.
     bd: Vec<f64>,
-    /// `B_f(s_k, expiry)`.
+    /// `B_f(t_k, expiry)`.
     bf: Vec<f64>,
-    /// `ζ_no_phi(s_k) = ρ_df η_d η_f B_d B_f − ½(η_d² B_d² + η_f² B_f²)`
+    /// `ζ_no_phi(t_k) = ρ_df η_d η_f B_d B_f − ½(η_d² B_d² + η_f² B_f²)`
     /// (the part of `ζ(s)` that doesn't multiply `φ`).
     zeta_no_phi: Vec<f64>,
     /// `ρ_xd·η_d·B_d − ρ_xf·η_f·B_f` — coefficient of `φ` in `ζ(s)`.
@@ -96,10 +96,12 @@ impl SimpsonGrid {
         let eta_f = params.foreign.sigma;
         let rho = &params.correlations;
         for k in 0..=n {
-            let s = k as f64 * h;
-            let p = params.heston.sqrt_mean(s);
-            let bds = params.domestic.b(s, expiry);
-            let bfs = params.foreign.b(s, expiry);
+            // `s` is time to expiry; the bond and variance terms live at
+            // calendar time `t = expiry − s`.
+            let t = expiry - k as f64 * h;
+            let p = params.heston.sqrt_mean(t);
+            let bds = params.domestic.b(t, expiry);
+            let bfs = params.foreign.b(t, expiry);
             phi.push(p);
             bd.push(bds);
             bf.push(bfs);
@@ -281,17 +283,19 @@ fn a_of_tau_cached(u: Complex64, params: &FxHhwParams, grid: &SimpsonGrid) -> Co
     acc * (grid.h / 3.0)
 }
 
-/// `A'(s)` integrand. `s` is the running time inside the quadrature,
-/// `big_t` is the fixed expiry used in `B_d(s, T)`, `B_f(s, T)`.
+/// `A'(s)` integrand. `s` is the time to expiry inside the quadrature,
+/// `big_t` is the fixed expiry; `φ`, `B_d` and `B_f` are taken at the
+/// calendar time `t = T − s`.
 fn integrand(u: Complex64, s: f64, big_t: f64, params: &FxHhwParams) -> Complex64 {
     let c = c_of_tau(u, s, params);
     let iu = Complex64::new(0.0, 1.0) * u;
     let one_minus_iu = Complex64::new(1.0, 0.0) - iu;
     let u2_plus_iu = u * u + iu;
 
-    let phi = params.heston.sqrt_mean(s);
-    let bd = params.domestic.b(s, big_t);
-    let bf = params.foreign.b(s, big_t);
+    let t = big_t - s;
+    let phi = params.heston.sqrt_mean(t);
+    let bd = params.domestic.b(t, big_t);
+    let bf = params.foreign.b(t, big_t);
     let eta_d = params.domestic.sigma;
     let eta_f = params.foreign.sigma;
     let rho = &params.correlations;
-- 
2.43.0


From e11ac54636f23eb3efb343ccba2ffefe3e70a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:49 +0000
Subject: [PATCH 31/34] fix: the HLMM discount factor to an expiry inside the
 tenor discounts to that expiry, not to the end of the tenor

---
 src/models/forex/fx_hlmm_calibrator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/fx_hlmm_calibrator.rs b/src/models/forex/fx_hlmm_calibrator.rs
index a8eb678..0ed8bdd 100644
--- a/src/models/forex/fx_hlmm_calibrator.rs
+++ b/src/models/forex/fx_hlmm_calibrator.rs
@@ -117,7 +117,12 @@ pub fn discount_factor(params: &FxHlmmParams, expiry: f64) -> f64 {
     let n = tenor.n();
     let mut p = 1.0_f64;
     for k in 1..=n {
-        p /= 1.0 + tenor.tau(k) * tenor.libors[k - 1];
+        // Only the part of the period before `expiry` discounts.
+        let accrual = tenor.dates[k].min(expiry) - tenor.dates[k - 1];
+        if accrual <= 0.0 {
+            break;
+        }
+        p /= 1.0 + accrual * tenor.libors[k - 1];
     }
     let tn = tenor.dates[n];
     if expiry > tn + 1e-12 {
-- 
2.43.0


From 57897da7082ec89c2ad12a916330a84887a78171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:49 +0000
Subject: [PATCH 32/34] fix: the FMM discount factor to an expiry inside the
 tenor discounts to that expiry, not to the end of the tenor

---
 src/models/forex/fx_fmm_calibrator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/fx_fmm_calibrator.rs b/src/models/forex/fx_fmm_calibrator.rs
index 44a6257..01b50ef 100644
--- a/src/models/forex/fx_fmm_calibrator.rs
+++ b/src/models/forex/fx_fmm_calibrator.rs
@@ -124,7 +124,12 @@ pub fn discount_factor(params: &FxFmmParams, expiry: f64) -> f64 {
     let m = tenor.m();
     let mut p = 1.0_f64;
     for k in 1..=m {
-        p /= 1.0 + tenor.tau(k) * tenor.initial_rates[k - 1];
+        // Only the part of the period before `expiry` discounts.
+        let accrual = tenor.dates[k].min(expiry) - tenor.dates[k - 1];
+        if accrual <= 0.0 {
+            break;
+        }
+        p /= 1.0 + accrual * tenor.initial_rates[k - 1];
     }
     let tn = tenor.dates[m];
     if expiry > tn + 1e-12 {
-- 
2.43.0


From 5e3679ce2c643afceb42f1c69e80154b7de2fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:13 +0000
Subject: [PATCH 33/34] fix: the cosine pricer prices a strike outside its
 range as at the nearest end, not against the series' mirror image

---
 src/models/common/cos_pricer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 8cdfa92..cc405f0 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -152,7 +152,8 @@ impl<'a, C: ForwardChf> CosPricer<'a, C> {
         assert!(strike > 0.0);
         let (a, b) = self.range;
         let width = b - a;
-        let log_k = strike.ln();
+        // The series is a density on [a, b] only.
+        let log_k = strike.ln().max(a).min(b);
 
         // Payoff cosine coefficients Vk (closed form).
         // For a call:  Vk = (2/(b−a)) · [χk(log K, b) − K · ψk(log K, b)].
-- 
2.43.0


From f667767ef1862081f4ecb564c0f182b886a5eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 34/34] fix: the time-dependent SABR simulator ignored the
 level schedule after time zero

---
 src/models/forex/sabr_time_dependent.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..cb50416 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -150,17 +150,16 @@ impl TimeDependentSabrSimulator {
         let f = state.forward.max(0.0);
         let alpha = state.vol.max(0.0);
 
-        // Full-truncation Euler on F.
-        let diffusion_f = alpha * f.powf(p.beta) * dw_f;
+        // Full-truncation Euler on F. The diffusion scale is `α(t)·ξ(t)`,
+        // with ξ the unit-mean lognormal driver of vol-of-vol ν(t).
+        // `state.vol` carries `α(0)·ξ(t)`, so that the scheme reduces
+        // cleanly to constant-param SABR when schedules are flat; the
+        // ratio brings in the schedule-instantaneous α.
+        let level = p.alpha / self.params.alpha.at(0.0);
+        let diffusion_f = alpha * level * f.powf(p.beta) * dw_f;
         let new_forward = (f + diffusion_f).max(0.0);
 
-        // Log-Euler on vol. Note: the "α" scale inside `p` is the
-        // *schedule-instantaneous* α, which multiplies the forward
-        // diffusion directly. The stochastic volatility driver itself
-        // has vol-of-vol ν(t) and evolves `α(t)·ξ(t)` where ξ is a
-        // unit-variance lognormal martingale. We track the product
-        // directly in `state.vol` so the scheme reduces cleanly to
-        // constant-param SABR when schedules are flat.
+        // Log-Euler on the driver.
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
         let new_vol = alpha * (log_drift + log_diffusion).exp();
-- 
2.43.0

