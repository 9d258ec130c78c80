From b481993f5bf98110ac2d4d229ae2042f3bcf74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 01/23] fix: keep the high nanosecond bits in the packed
 date-time

The upper 14 bits of the nanosecond were shifted out of the first word, so
any nanosecond of 65536 or more was lost. Store them, and bit 16 of the
second, where the layout comment says they are.
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..91d8751 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x3FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision((w0 >> 41) as u8 & 0xF);
+        let nanosecond = ((w0 >> 32) & 0x3FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From f9ec4f0418c57d34c68ec323f010fbb511627e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 02/23] fix: report out-of-range year and month additions
 instead of overflowing

---
 src/iso8601/date_time.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 91d8751..809b457 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -320,6 +320,10 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        // No two years in the range are further apart than this.
+        if years.unsigned_abs() > MAX_YEAR - MIN_YEAR {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
@@ -347,6 +351,10 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        // No two months in the range are further apart than this.
+        if months.unsigned_abs() >= (MAX_YEAR - MIN_YEAR + 1) as u32 * 12 {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
-- 
2.43.0


From 6351316509ad3189755a39a7de946b07c5122025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 03/23] fix: report far out-of-range day additions instead of
 wrapping the cycle

---
 src/gregorian_normalized_date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..10a7539 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -398,9 +398,10 @@ impl GregorianNormalizedDate {
             .ok_or(OutOfBounds)?;
 
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
+        let cycles = i8::try_from(cycles).map_err(|_| OutOfBounds)?;
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        self.cycle = self.cycle.checked_add(cycles).ok_or(OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
-- 
2.43.0


From 9a3d3dad9ac3e626c937086eb1113ceab70154f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 04/23] fix: report far out-of-range minute additions instead
 of overflowing

---
 src/iso8601/date_time.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 809b457..59d4aae 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -425,10 +425,11 @@ impl DateTime {
         let (minute, second_of_minute) =
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
-        let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
-        gnd.add_days(day_delta).ok()?;
+        let (day_delta, minute) = (minute as i64)
+            .checked_add(minutes)?
+            .div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let minute = minute as u16;
+        gnd.add_days(day_delta.try_into().ok()?).ok()?;
         if !is_in_range(&gnd) {
             return None;
         }
-- 
2.43.0


From e6544e36d65f00a7670f851a7b4be19ecfcbf85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 05/23] fix: clamp the second to the last one that exists on
 the resulting day

The last day of a leap-second segment was never recognised, the clamped
second was one past the end of the day, and days outside the leap-second
table were not clamped at all.
---
 src/iso8601/date_time.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 59d4aae..d545cff 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -611,20 +611,20 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
-        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
-            let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
-                segment.leap_seconds
-            } else {
-                0
-            };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
+        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
+            SegmentLookupResult::In(segment) => {
+                let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
+                if day_offset == segment.duration_days - 1 {
+                    segment.leap_seconds
+                } else {
+                    0
+                }
             }
+            _ => 0,
+        };
+        let max_second = (SECONDS_PER_DAY as i32 + leap_seconds as i32 - 1) as u32;
+        if second > max_second {
+            (max_second, second - max_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From 19ddeec1e59be3042cbad9eb5fc914939672afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 06/23] fix: reject day 0 of a month instead of underflowing

---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 10a7539..84a19e6 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -198,7 +198,7 @@ impl GregorianNormalizedDate {
         if !(Self::MIN_YEAR..=Self::MAX_YEAR).contains(&year) {
             return Err(Error::DateOutOfBounds);
         }
-        if !(1..=12).contains(&month) {
+        if !(1..=12).contains(&month) || day == 0 {
             return Err(Error::InvalidDate);
         }
 
-- 
2.43.0


From 3c65c34f08c959b05e3ec271807765d7322aa020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 07/23] fix: default month and day to 1 so date-times of lower
 precision can be built

---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From 5da0f6d8ba611f889ea735109cc52c2763d329a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 08/23] fix: make advance_by and revert_by of slice cursors
 move like single steps

They underflowed when called at the end and start marker respectively, and
stopped one short of the marker that next and prev move to.
---
 src/slice_cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index beb2bd0..497a2ef 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -57,11 +57,12 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
         }
     }
     fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.slice.len() - self.pos;
+        let remaining = self.slice.len().saturating_sub(self.pos);
         let advance = min(n, remaining);
         self.pos += advance;
         let n = n - advance;
         if n > 0 {
+            self.pos = self.slice.len() + 1;
             Err(NonZeroUsize::new(n).unwrap())
         } else {
             Ok(())
@@ -106,11 +107,12 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
     }
 
     fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.pos - 1;
+        let remaining = self.pos.saturating_sub(1);
         let revert = min(n, remaining);
         self.pos -= revert;
         let n = n - revert;
         if n > 0 {
+            self.pos = 0;
             Err(NonZeroUsize::new(n).unwrap())
         } else {
             Ok(())
-- 
2.43.0


From e06e09eafc36dbc3ef4722288fa24c740a4d5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 09/23] fix: reject out-of-bounds positions in
 SliceCursor::set_pos

---
 src/slice_cursor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index 497a2ef..cfc4da6 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -143,7 +143,10 @@ impl<'a, T> CursorWithPosition for SliceCursor<'a, T> {
         match pos {
             CursorPosition::Start => self.pos = 0,
             CursorPosition::End => self.pos = self.slice.len() + 1,
-            CursorPosition::Pos(pos) => self.pos = pos + 1,
+            CursorPosition::Pos(pos) => {
+                assert!(pos < self.slice.len(), "Position out of bounds");
+                self.pos = pos + 1
+            }
         }
     }
 }
-- 
2.43.0


From 1fa285c5895a3beebe1a3a1b468e68d0e94d3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 10/23] fix: round negative durations down in Duration::floor

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From ccb4e2aaa8d082dffd611e15ef064a7c29c6ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 11/23] fix: compare instants of different scales without
 overflowing

The coarser instant was multiplied up to the finer scale, which overflows
for large instants and panics when the factor does not fit.
---
 src/instant.rs | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..2a8374a 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -170,6 +170,23 @@ impl<T: Tick, S: Scale> Add<Duration<T, S>> for Instant<T, S> {
     }
 }
 
+/// Divide ticks by a scale factor, rounding down. Also returns whether the division was exact.
+fn coarsen<T: Tick>(ticks: T, factor: u32) -> (T, bool) {
+    match T::from(factor) {
+        Some(factor) => {
+            let (quotient, remainder) = ticks.div_mod_floor(&factor);
+            (quotient, remainder.is_zero())
+        }
+        None => {
+            // A type that can't hold the factor is narrow enough to fit in an i64.
+            let ticks = ticks.to_i64().expect("ticks fit in i64");
+            let (quotient, remainder) = ticks.div_mod_floor(&(factor as i64));
+            let quotient = T::from(quotient).expect("quotient is either 0 or -1");
+            (quotient, remainder == 0)
+        }
+    }
+}
+
 /*impl<T: Tick, S1: Scale, S2: Scale> PartialEq<Instant<T, S2>> for Instant<T, S1> {
     fn eq(&self, other: &Instant<T, S2>) -> bool {
         // If
@@ -231,20 +248,20 @@ where
         // If s1 == s2, then it simplifies to
         //
         // t1 == t2.
+        //
+        // The multiplication could overflow, so we divide the other side instead.
         let t1 = self.ticks;
         let s1 = S1::TICKS_PER_SECOND;
         let t2 = other.ticks;
         let s2 = S2::TICKS_PER_SECOND;
         match s1.cmp(&s2) {
             std::cmp::Ordering::Less => {
-                let factor =
-                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                let (t2, exact) = coarsen(t2, s2 / s1);
+                exact && t1.num_eq(t2)
             }
             std::cmp::Ordering::Greater => {
-                let factor =
-                    T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (t1, exact) = coarsen(t1, s1 / s2);
+                exact && t1.num_eq(t2)
             }
             std::cmp::Ordering::Equal => t1.num_eq(t2),
         }
@@ -290,20 +307,26 @@ where
         //
         // t1*s2 < t2*s1
         //
+        // and we divide the finer side rather than multiply the coarser one, since
+        // the multiplication could overflow.
         let t1 = self.ticks;
         let s1 = S1::TICKS_PER_SECOND;
         let t2 = other.ticks;
         let s2 = S2::TICKS_PER_SECOND;
         match s1.cmp(&s2) {
             std::cmp::Ordering::Less => {
-                let factor =
-                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                let (t2, exact) = coarsen(t2, s2 / s1);
+                match t1.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !exact => Some(std::cmp::Ordering::Less),
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Greater => {
-                let factor =
-                    T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (t1, exact) = coarsen(t1, s1 / s2);
+                match t1.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !exact => Some(std::cmp::Ordering::Greater),
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Equal => t1.num_cmp(t2),
         }
-- 
2.43.0


From 11bbad2bb93fb701ea7c2be4b141e2371877d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 12/23] fix: keep the sign of the sub-second part of system
 times before the epoch

---
 src/instant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 2a8374a..6190a02 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -386,10 +386,16 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut nanoseconds = duration.subsec_nanos();
     if sign {
         seconds = -seconds;
+        if nanoseconds > 0 {
+            // The nanoseconds count forward from the start of the second.
+            seconds -= 1;
+            nanoseconds = 1_000_000_000 - nanoseconds;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, nanoseconds)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From 1e4f53bc91d8bc8df417b541cd9ea979c18555b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 13/23] fix: count the last leap second in the adjustment of
 later Unix timestamps

---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..5f512e0 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -239,6 +239,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From f79b567dd40b221ca7c0493ca8525bb9a690cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 14/23] fix: do not wrap the day of far-off Unix timestamps

Also round it down, so that the second before the epoch is not on the day
of the epoch.
---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 5f512e0..317f86a 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -235,7 +235,9 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    let day = unix_timestamp
+        .div_euclid(86_400)
+        .clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-- 
2.43.0


From ef866e2accba01784e1ce91ac6c830b8af21e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 15/23] fix: report system times that do not fit the instant
 instead of panicking or wrapping

---
 src/instant.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 6190a02..3173390 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -346,13 +346,11 @@ where
 }*/
 
 impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
-    type Error = std::time::SystemTimeError;
+    type Error = InstantOutOfRange;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let ticks_per_second =
-            T::from(S::TICKS_PER_SECOND).expect("ticks per second is too large for type T)");
-        let nanoseconds_per_second =
-            T::from(1_000_000_000).expect("nanoseconds per second is too large for type T)");
+        let ticks_per_second = T::from(S::TICKS_PER_SECOND).ok_or(InstantOutOfRange)?;
+        let nanoseconds_per_second = T::from(1_000_000_000).ok_or(InstantOutOfRange)?;
         let nanoseconds_per_tick = nanoseconds_per_second / ticks_per_second;
 
         let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
@@ -360,13 +358,14 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
             seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
         }
 
-        // FIXME report proper error here
-        let seconds = T::from(seconds).unwrap();
-        // FIXME and here
-        let subsecond_ns = T::from(subsecond_ns).unwrap();
+        let seconds = T::from(seconds).ok_or(InstantOutOfRange)?;
+        let subsecond_ns = T::from(subsecond_ns).ok_or(InstantOutOfRange)?;
 
         let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
-        let total_ticks = seconds * ticks_per_second + subsec_ticks;
+        let total_ticks = seconds
+            .checked_mul(&ticks_per_second)
+            .and_then(|ticks| ticks.checked_add(&subsec_ticks))
+            .ok_or(InstantOutOfRange)?;
 
         Ok(Instant::<T, S> {
             ticks: total_ticks,
-- 
2.43.0


From 68032715e635ec60721545153ee7b8a920670745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 16/23] fix: make div_rem_ceil round up

It returned the truncated quotient for operands of equal sign, and a
remainder that did not match the quotient otherwise.
---
 src/div_rem.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/div_rem.rs b/src/div_rem.rs
index 0d47546..027a5f5 100644
--- a/src/div_rem.rs
+++ b/src/div_rem.rs
@@ -48,17 +48,8 @@ pub(crate) trait DivRemCeil: Sized {
 impl<T: Integer + Copy> DivRemCeil for T {
     // TODO test this
     fn div_rem_ceil(&self, other: &Self) -> (Self, Self) {
-        let zero = Self::zero();
-        let one = Self::one();
-        if *self > zero && *other < zero {
-            let (q, r) = (*self - one).div_rem(other);
-            (q - one, r + *other - one)
-        } else if *self < zero && *other > zero {
-            let (q, r) = (*self + one).div_rem(other);
-            (q - one, r + *other + one)
-        } else {
-            (*self).div_rem(other)
-        }
+        let quotient = self.div_ceil(other);
+        (quotient, *self - quotient * *other)
     }
 }
 
-- 
2.43.0


From 646ae01a061fe640e06569846ae62eacf67f654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 17/23] fix: do not let duration arithmetic wrap in release
 builds

---
 src/duration.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index d5035a8..cc342e1 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -166,7 +166,11 @@ impl<T: Tick, S: Scale> Add for Duration<T, S> {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self::new(self.ticks + rhs.ticks)
+        Self::new(
+            self.ticks
+                .checked_add(&rhs.ticks)
+                .expect("duration addition overflow"),
+        )
     }
 }
 
@@ -174,7 +178,11 @@ impl<T: Tick, S: Scale> Sub for Duration<T, S> {
     type Output = Self;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        Self::new(self.ticks - rhs.ticks)
+        Self::new(
+            self.ticks
+                .checked_sub(&rhs.ticks)
+                .expect("duration subtraction overflow"),
+        )
     }
 }
 
@@ -182,6 +190,10 @@ impl<T: Tick, S: Scale> Mul<T> for Duration<T, S> {
     type Output = Self;
 
     fn mul(self, rhs: T) -> Self::Output {
-        Self::new(self.ticks * rhs)
+        Self::new(
+            self.ticks
+                .checked_mul(&rhs)
+                .expect("duration multiplication overflow"),
+        )
     }
 }
-- 
2.43.0


From 7727fd0cfa589686dc014639c59f3d42330cf80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 18/23] fix: treat chronologies loaded separately for the same
 time zone as equal

---
 src/iso8601/chronology.rs | 3 ++-
 src/zoneinfo.rs           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/chronology.rs b/src/iso8601/chronology.rs
index d25ade5..a5eacd0 100644
--- a/src/iso8601/chronology.rs
+++ b/src/iso8601/chronology.rs
@@ -27,12 +27,13 @@ impl Chronology {
 
 impl PartialEq<Self> for Chronology {
     fn eq(&self, other: &Self) -> bool {
-        Arc::ptr_eq(&self.pimpl, &other.pimpl)
+        Arc::ptr_eq(&self.pimpl, &other.pimpl) || self.pimpl == other.pimpl
     }
 }
 
 impl Eq for Chronology {}
 
+#[derive(PartialEq)]
 pub(super) struct SharedChronology {
     pub(crate) tz_data: TZData,
     leap_second_smearing: bool,
diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 317f86a..d938375 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -53,7 +53,7 @@ pub(crate) fn load_zoneinfo(name: &str) -> TZData {
 }
 
 /// A segment of time that ends with a leap second adjustment on the last day.
-#[derive(Debug)]
+#[derive(Debug, PartialEq)]
 pub(crate) struct ContinuousTimeSegment {
     /// Instant at which this segment starts.
     pub(crate) start_instant: Instant<i32, Seconds>,
@@ -79,6 +79,7 @@ impl ContinuousTimeSegment {
     }
 }
 
+#[derive(PartialEq)]
 pub(crate) struct LeapSecondChronology(pub(crate) Vec<ContinuousTimeSegment>);
 
 pub(crate) enum SegmentLookupResult<'a> {
-- 
2.43.0


From 2e701e705c7bf29599a1c580dc50fda9fc0240d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 19/23] fix: report scale factors that do not fit in extend
 instead of panicking

---
 src/duration.rs | 2 +-
 src/instant.rs  | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index cc342e1..cba659d 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -122,7 +122,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             S2::TICKS_PER_SECOND >= S::TICKS_PER_SECOND,
             "Cannot extend scale to a lower scale"
         );
-        let factor = T::from(S2::TICKS_PER_SECOND).unwrap() / T::from(S::TICKS_PER_SECOND).unwrap();
+        let factor = T::from(S2::TICKS_PER_SECOND)? / T::from(S::TICKS_PER_SECOND)?;
         Some(Duration::new(self.ticks.checked_mul(&factor)?))
     }
 
diff --git a/src/instant.rs b/src/instant.rs
index 3173390..f67638c 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -129,8 +129,7 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             "Cannot extend scale to a lower scale"
         );
         let ticks = T2::from(self.ticks)?;
-        let factor =
-            T2::from(S2::TICKS_PER_SECOND).unwrap() / T2::from(S::TICKS_PER_SECOND).unwrap();
+        let factor = T2::from(S2::TICKS_PER_SECOND)? / T2::from(S::TICKS_PER_SECOND)?;
         let ticks = ticks.checked_mul(&factor)?;
         Some(Instant::from_ticks_since_epoch(ticks))
     }
-- 
2.43.0


From 5d92910fb1f751ea44df35edc6e99883a8ad4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 20/23] fix: report the earliest representable second as out of
 range instead of panicking

---
 src/iso8601/date_time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d545cff..941073f 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -583,8 +583,9 @@ impl DateTime {
                 Some((gnd, second))
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
-                let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                let seconds_until_first_segment = i64::from(first_segment.start_instant.ticks)
+                    .checked_sub(instant.ticks_since_epoch())?
+                    as u64;
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From 77e9e14d8f23da49347285e8b4a90f1adbbe3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 21/23] fix: convert January and February of year 0 in to_date

---
 src/gregorian_normalized_date.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 84a19e6..5a4906e 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -246,12 +246,11 @@ impl GregorianNormalizedDate {
     }
 
     pub(crate) fn to_date(&self) -> (u16, u8, u8) {
-        let year = 2000
+        let mut year = 2000
             + 400 * self.cycle as i16
             + 100 * self.century as i16
             + 4 * self.quadrennium as i16
             + self.year as i16;
-        let mut year = year as u16;
 
         // NB: shifted so March is first. This way we don't need to care about how leap days
         // affect the month start since the leap day comes at the end of the year.
@@ -263,7 +262,7 @@ impl GregorianNormalizedDate {
             month -= 12;
             year += 1;
         }
-        (year, month + 1, days_into_month + 1)
+        (year as u16, month + 1, days_into_month + 1)
     }
 
     pub(crate) fn unnormalized_year(&self) -> i32 {
-- 
2.43.0


From 45609aeff1d39ac8a9b3878c4b647814b31e1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:15 +0000
Subject: [PATCH 22/23] fix: convert the earliest and latest system times
 without overflow

---
 src/instant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index f67638c..d98a18e 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -354,7 +354,9 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
 
         let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
         if !system_time_includes_leap_seconds() {
-            seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
+            seconds = seconds
+                .checked_add(get_leap_second_adjustment_for_unix_timestamp(seconds) as i64)
+                .ok_or(InstantOutOfRange)?;
         }
 
         let seconds = T::from(seconds).ok_or(InstantOutOfRange)?;
@@ -386,7 +388,8 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     let mut seconds = duration.as_secs() as i64;
     let mut nanoseconds = duration.subsec_nanos();
     if sign {
-        seconds = -seconds;
+        // The most negative time_t has no positive counterpart; it is already negative here.
+        seconds = seconds.wrapping_neg();
         if nanoseconds > 0 {
             // The nanoseconds count forward from the start of the second.
             seconds -= 1;
-- 
2.43.0


From cd7cb1c3184c9257017dbde6877bcaa720371be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 23/23] fix: do not overflow in div_rem_ceil near the limits of
 the type

---
 src/div_rem.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/div_rem.rs b/src/div_rem.rs
index 027a5f5..505af8e 100644
--- a/src/div_rem.rs
+++ b/src/div_rem.rs
@@ -48,8 +48,13 @@ pub(crate) trait DivRemCeil: Sized {
 impl<T: Integer + Copy> DivRemCeil for T {
     // TODO test this
     fn div_rem_ceil(&self, other: &Self) -> (Self, Self) {
-        let quotient = self.div_ceil(other);
-        (quotient, *self - quotient * *other)
+        let (quotient, remainder) = self.div_mod_floor(other);
+        if remainder.is_zero() {
+            (quotient, remainder)
+        } else {
+            // quotient * divisor could overflow, so adjust the floored result instead.
+            (quotient + Self::one(), remainder - *other)
+        }
     }
 }
 
-- 
2.43.0

