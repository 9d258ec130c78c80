"""Fifth batch of behaviour-preserving rewrites: date-time conversion and arithmetic in other shapes (see refactors.py)."""
import refactors
from refactors import *

refactors.R.clear()

r("segment-base", DT, "D09 D03 S02",
  ("""        let seconds_since_epoch = match leap_second_chronology.by_day(day) {
            SegmentLookupResult::AfterLast(last_segment) => {
                let days_since_last_segment = day as u32 - last_segment.end_day();
                let seconds_since_last_segment =
                    days_since_last_segment as u64 * SECONDS_PER_DAY as u64 + second as u64;
                let last_segment_end = last_segment.end_instant().ticks_since_epoch() as u64;
                (last_segment_end + seconds_since_last_segment) as i64
            }
            SegmentLookupResult::In(segment) => {
                let days_into_segment = (day - segment.start_day as i32) as u32;
                segment.start_instant.ticks_since_epoch() as i64
                    + days_into_segment as i64 * SECONDS_PER_DAY as i64
                    + second as i64
            }
            SegmentLookupResult::BeforeFirst(first_segment) => {
                let days_to_first_segment = (first_segment.start_day as i32 - (day + 1)) as u32;
                let seconds_to_first_segment = days_to_first_segment as u64
                    * SECONDS_PER_DAY as u64
                    + ((SECONDS_PER_DAY - second) as u64);
                first_segment.start_instant.ticks_since_epoch() as i64
                    - seconds_to_first_segment as i64
            }
        };
""", """        let (base_day, base_instant) = match leap_second_chronology.by_day(day) {
            SegmentLookupResult::AfterLast(last) => (last.end_day(), last.end_instant()),
            SegmentLookupResult::In(segment) | SegmentLookupResult::BeforeFirst(segment) => {
                (segment.start_day, segment.start_instant)
            }
        };
        let days = i64::from(day) - i64::from(base_day);
        let seconds_since_epoch = i64::from(base_instant.ticks_since_epoch())
            + days * i64::from(SECONDS_PER_DAY)
            + i64::from(second);
"""))

r("from-instant-floor", DT, "D09 D05 D03",
  ("""                let seconds_until_first_segment = i64::from(first_segment.start_instant.ticks)
                    .checked_sub(instant.ticks_since_epoch())?
                    as u64;
                // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                // It's essentially a division that rounds up.
                let (mut days, second) =
                    seconds_until_first_segment.div_rem(&(SECONDS_PER_DAY as u64));
                let mut second = second as u32;
                if second != 0 {
                    days += 1;
                    second = SECONDS_PER_DAY - second;
                }
                let fixed_day = first_segment.start_day as i64 - days as i64;
                if fixed_day < MIN_FIXED_DAY as i64 {
                    return None;
                }
                let gnd = GregorianNormalizedDate::from_day(fixed_day as i32)
                    .expect("The number of days since the epoch is within the range of GregorianNormalizedDate");
                Some((gnd, second))
""", """                let seconds = instant
                    .ticks_since_epoch()
                    .checked_sub(i64::from(first_segment.start_instant.ticks))?;
                let (days, second) = seconds.div_mod_floor(&i64::from(SECONDS_PER_DAY));
                let fixed_day = i64::from(first_segment.start_day) + days;
                if fixed_day < MIN_FIXED_DAY as i64 {
                    return None;
                }
                let gnd = GregorianNormalizedDate::from_day(fixed_day as i32)?;
                Some((gnd, second as u32))
"""))

r("in-range-by-day", DT, "D04 D05 D06 D10 D12",
  ("""    (MIN_GND..=MAX_GND).contains(gnd)
""", """    let day = gnd.to_day();
    MIN_FIXED_DAY <= day && day <= MAX_FIXED_DAY as i32
"""))

r("in-range-by-year", DT, "D04 D05 D10",
  ("""    (MIN_GND..=MAX_GND).contains(gnd)
""", """    let year = gnd.unnormalized_year();
    year >= MIN_YEAR as i32 && year <= MAX_YEAR as i32
"""))

r("second-from-others", DT, "D02 D05 D08",
  ("""        let (_, _, second, _) = Self::unpack0(self.w0);
        let boundary = SECONDS_PER_DAY - SECONDS_PER_MINUTE as u32;
        if second < boundary {
            (second % SECONDS_PER_MINUTE as u32) as u8
        } else {
            (second - boundary) as u8
        }
""", """        let (_, _, second, _) = Self::unpack0(self.w0);
        let minutes = self.hour() as u32 * MINUTES_PER_HOUR as u32 + self.minute() as u32;
        (second - minutes * SECONDS_PER_MINUTE as u32) as u8
"""))

r("minute-clamped", DT, "D02 D08",
  ("""        let boundary = SECONDS_PER_DAY - SECONDS_PER_MINUTE as u32;
        if second < boundary {
            let seconds_into_hour = (second % SECONDS_PER_HOUR as u32) as u16;
            (seconds_into_hour / MINUTES_PER_HOUR as u16) as u8
        } else {
            MINUTES_PER_HOUR - 1
        }
""", """        let minute_of_day = min(second / SECONDS_PER_MINUTE as u32, MINUTES_PER_DAY as u32 - 1);
        (minute_of_day % MINUTES_PER_HOUR as u32) as u8
"""))

r("minutes-by-parts", DT, "D06 D11 D08",
  ("""        let (minute, second_of_minute) =
            second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
        let second_of_minute = second_of_minute as u8;
""", """        let minute = self.hour() as u32 * MINUTES_PER_HOUR as u32 + self.minute() as u32;
        let second_of_minute = (second_of_day - minute * SECONDS_PER_MINUTE as u32) as u8;
"""))

r("minutes-euclid", DT, "D06 D11",
  ("""        let (day_delta, minute) = (minute as i64)
            .checked_add(minutes)?
            .div_mod_floor(&(MINUTES_PER_DAY as i64));
        let minute = minute as u16;
        gnd.add_days(day_delta.try_into().ok()?).ok()?;
""", """        let total = minutes.checked_add(i64::from(minute))?;
        let per_day = i64::from(MINUTES_PER_DAY);
        let day_delta = total.div_euclid(per_day);
        let minute = total.rem_euclid(per_day) as u32;
        let Ok(day_delta) = i32::try_from(day_delta) else {
            return None;
        };
        if gnd.add_days(day_delta).is_err() {
            return None;
        }
"""),
  ("""if minute < MINUTES_PER_DAY - 1 {
            // Not""", """if minute + 1 < MINUTES_PER_DAY as u32 {
            // Not"""))

r("minutes-min", DT, "D06 D11 D08",
  ("""            if second_of_minute < SECONDS_PER_MINUTE {
                (
                    minute as u32 * SECONDS_PER_MINUTE as u32 + second_of_minute as u32,
                    0,
                )
            } else {
                let max_second = SECONDS_PER_MINUTE - 1;
                let carry = second_of_minute - max_second;
                (
                    minute as u32 * SECONDS_PER_MINUTE as u32 + max_second as u32,
                    carry as u32,
                )
            }
""", """            let kept = second_of_minute.min(SECONDS_PER_MINUTE - 1);
            let start = u32::from(minute) * u32::from(SECONDS_PER_MINUTE);
            (start + u32::from(kept), u32::from(second_of_minute - kept))
"""))

r("leap-on-day", DT, "D04 D05 D06 D08",
  ("""        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
            SegmentLookupResult::In(segment) => {
                let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
                if day_offset == segment.duration_days - 1 {
                    segment.leap_seconds
                } else {
                    0
                }
            }
            _ => 0,
        };
        let max_second = (SECONDS_PER_DAY as i32 + leap_seconds as i32 - 1) as u32;
        if second > max_second {
            (max_second, second - max_second)
        } else {
            (second, 0)
        }
""", """        let mut length = SECONDS_PER_DAY as i32;
        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
            if days_from_epoch + 1 == segment.end_day() as i32 {
                length += i32::from(segment.leap_seconds);
            }
        }
        let carry = second.saturating_sub(length as u32 - 1);
        (second - carry, carry)
"""))

r("clone-then-w0", DT, "D04 D05 D10 D13",
  ("""        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);
        let w0 = Self::pack0(precision, gnd, second, nanosecond);
        let result = DateTime {
            w0,
            w1: self.w1,
            chronology: self.chronology.clone(),
        };
""", """        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);
        let mut result = self.clone();
        result.w0 = Self::pack0(precision, gnd, second, nanosecond);
"""))

r("years-range-first", DT, "D04 D12",
  ("""        if years.unsigned_abs() > MAX_YEAR - MIN_YEAR {
            return None;
        }
        let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
        let day_carry = gnd.add_years(years);
        if !is_in_range(&gnd) {
            return None;
        }
""", """        let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
        let year = i32::from(self.year()) + i32::from(years);
        if year < MIN_YEAR as i32 || year > MAX_YEAR as i32 {
            return None;
        }
        let day_carry = gnd.add_years(years);
"""))

r("months-range-first", DT, "D05 D12",
  ("""        if months.unsigned_abs() >= (MAX_YEAR - MIN_YEAR + 1) as u32 * 12 {
            return None;
        }
        let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
        let day_carry = gnd.add_months(months);
        if !is_in_range(&gnd) {
            return None;
        }
""", """        let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
        let month = i64::from(self.year()) * 12 + i64::from(self.month()) - 1 + i64::from(months);
        let year = month.div_euclid(12);
        if year < MIN_YEAR as i64 || year > MAX_YEAR as i64 {
            return None;
        }
        let day_carry = gnd.add_months(months);
"""))

r("builder-zip", BLD, "D01 D02 D08 D12 D15",
  ("""        let millisecond = if precision >= Precision::Milliseconds {
            self.millisecond.expect("No millisecond provided")
        } else {
            0
        };
        let microsecond = if precision >= Precision::Microseconds {
            self.microsecond.expect("No microsecond provided")
        } else {
            0
        };
        let nanosecond = if precision >= Precision::Nanoseconds {
            self.nanosecond.expect("No nanosecond provided")
        } else {
            0
        };
""", """        let mut subsecond = [0u16; 3];
        let parts = [
            (Precision::Milliseconds, self.millisecond, "No millisecond provided"),
            (Precision::Microseconds, self.microsecond, "No microsecond provided"),
            (Precision::Nanoseconds, self.nanosecond, "No nanosecond provided"),
        ];
        for (slot, (needed, given, message)) in subsecond.iter_mut().zip(parts) {
            if precision >= needed {
                *slot = given.expect(message);
            }
        }
        let [millisecond, microsecond, nanosecond] = subsecond;
"""))

r("builder-any-range", BLD, "D01 D02 D08 D12",
  ("""        if second >= minute_length
            || millisecond >= 1000
            || microsecond >= 1000
            || nanosecond >= 1000
        {
            return Err(Error::InvalidDateTime);
        }

        let second = hour as u32 * 3600 + minute as u32 * 60 + second as u32;
        let nanosecond =
            millisecond as u32 * 1_000_000 + microsecond as u32 * 1_000 + nanosecond as u32;
""", """        if second >= minute_length {
            return Err(Error::InvalidDateTime);
        }
        let mut total = 0;
        for part in [millisecond, microsecond, nanosecond] {
            if part > 999 {
                return Err(Error::InvalidDateTime);
            }
            total = total * 1000 + u32::from(part);
        }
        let nanosecond = total;
        let second = (u32::from(hour) * 60 + u32::from(minute)) * 60 + u32::from(second);
"""))

r("builder-match-length", BLD, "D01 D08",
  ("""        let minute_length = if hour != 23 || minute != 59 {
            60
        } else {
            let leap_seconds = chronology.leap_seconds();
            let fixed_day = gnd.to_day();
            if let SegmentLookupResult::In(segment) = leap_seconds.by_day(fixed_day) {
                let day_in_segment = fixed_day as u32 - segment.start_day;
                let last_day = day_in_segment == segment.duration_days - 1;
                if !last_day {
                    60
                } else {
                    (60 + segment.leap_seconds) as u8
                }
            } else {
                60
            }
        };
""", """        let minute_length = match (hour, minute, chronology.leap_seconds().by_day(gnd.to_day())) {
            (23, 59, SegmentLookupResult::In(segment))
                if segment.end_day() as i32 == gnd.to_day() + 1 =>
            {
                (60 + segment.leap_seconds) as u8
            }
            _ => 60,
        };
"""))

r("segment-method", ZI, "D08 D05 L01 L02",
  ("""impl LeapSecondChronology {
    fn load()""", """impl ContinuousTimeSegment {
    pub(crate) fn leap_seconds_on(&self, day: i32) -> i8 {
        if day >= 0 && day as u32 + 1 == self.start_day + self.duration_days {
            self.leap_seconds
        } else {
            0
        }
    }
}

impl LeapSecondChronology {
    fn load()"""))

r("load-while", ZI, "L01 L02 L03",
  ("""    for leap_second in tz.leap_seconds.iter() {
""", """    let mut entries = tz.leap_seconds.iter();
    while let Some(leap_second) = entries.next() {
"""),
  ("""        let leap_seconds = leap_second_total - previous_leap_second_total;
        assert!(leap_seconds >= i8::MIN as i32 && leap_seconds <= i8::MAX as i32);
        let leap_seconds = leap_seconds as i8;
""", """        let leap_seconds = i8::try_from(leap_second_total - previous_leap_second_total)
            .expect("leap seconds fit in an i8");
"""))

r("load-from-last", ZI, "L01 L02 L03",
  ("""    let mut start_instant: InstantS32 = Instant::from_ticks_since_epoch(0);
    let mut start_day = 0;
    let mut previous_leap_second_total = 0;
    for leap_second in tz.leap_seconds.iter() {
""", """    for leap_second in tz.leap_seconds.iter() {
        let (start_instant, start_day, previous_leap_second_total) = match segments.last() {
            None => (InstantS32::from_ticks_since_epoch(0), 0, 0),
            Some(last) => (
                last.end_instant(),
                last.end_day(),
                last.accumulated_leap_seconds + i32::from(last.leap_seconds),
            ),
        };
"""),
  ("""        let duration_seconds = duration_days as i32 * 86400 + leap_seconds as i32;
        segments""", """        segments"""),
  ("""
        start_instant = start_instant + DurationS32::new(duration_seconds);
        start_day += duration_days;
        previous_leap_second_total = leap_second_total;
""", ""))

if __name__ == "__main__":
    main()
