"""Behaviour-preserving rewrites of the code under analysis, to try the checks for false alarms.

usage: refactors.py [-j] [name...]      (all when none is named)
Each entry: name, file, [(old, new), ...], properties whose checks are run against it."""
import os, shutil, subprocess, sys, time

R = []


def r(name, file, props, *edits):
    R.append((name, file, props.split(), edits))


DT = "src/iso8601/date_time.rs"
GND = "src/gregorian_normalized_date.rs"
ZI = "src/zoneinfo.rs"
INS = "src/instant.rs"
BLD = "src/iso8601/date_time_builder.rs"
DR = "src/div_rem.rs"
SC = "src/slice_cursor.rs"
DU = "src/duration.rs"

r("with-date-helper", DT, "D04 D05 D06 D10 D11 D12",
  ("""        gnd.add_days(days).ok()?;
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);
        let result = DateTime {
            w0: Self::pack0(precision, gnd, second, nanosecond),
            w1: self.w1,
            chronology: self.chronology.clone(),
        };
        Some(DateTimeWithCarry(
            result,
            Carry {
                days: 0,
                seconds: seconds_carry as u64,
            },
        ))
    }
""", """        gnd.add_days(days).ok()?;
        self.moved_to(precision, gnd, second, nanosecond, 0)
    }

    fn moved_to(
        &self,
        precision: Precision,
        gnd: GregorianNormalizedDate,
        second: u32,
        nanosecond: u32,
        days: u32,
    ) -> Option<DateTimeWithCarry> {
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);
        let mut result = self.clone();
        result.w0 = Self::pack0(precision, gnd, second, nanosecond);
        let mut with_carry = DateTimeWithCarry::with_days(result, days);
        with_carry.1.seconds = u64::from(seconds_carry);
        Some(with_carry)
    }
"""))

r("minutes-helper", DT, "D04 D05 D08 D10 D11 D12",
  ("""        let (seconds_into_day, seconds_carry) = if minute < MINUTES_PER_DAY - 1 {
            // Not the last minute of the day. We know that it's 60 seconds long.
            if second_of_minute < SECONDS_PER_MINUTE {
                (
                    minute as u32 * SECONDS_PER_MINUTE as u32 + second_of_minute as u32,
                    0,
                )
            } else {
                let max_second = SECONDS_PER_MINUTE - 1;
                let carry = second_of_minute - max_second;
                (
                    minute as u32 * SECONDS_PER_MINUTE as u32 + max_second as u32,
                    carry as u32,
                )
            }
        } else {
            let seconds_into_day =
                minute as u32 * SECONDS_PER_MINUTE as u32 + second_of_minute as u32;
            self.spill_eod_second_overflow(&gnd, seconds_into_day)
        };
""", """        let start_of_minute = u32::from(minute) * u32::from(SECONDS_PER_MINUTE);
        let second_of_minute = u32::from(second_of_minute);
        let (seconds_into_day, seconds_carry) = if minute == MINUTES_PER_DAY - 1 {
            self.spill_eod_second_overflow(&gnd, start_of_minute + second_of_minute)
        } else {
            let kept = second_of_minute.min(u32::from(SECONDS_PER_MINUTE) - 1);
            (start_of_minute + kept, second_of_minute - kept)
        };
"""))

r("spill-saturating", DT, "D04 D06 D07 D08 D10",
  ("""        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
            SegmentLookupResult::In(segment) => {
                let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
                if day_offset == segment.duration_days - 1 {
                    segment.leap_seconds
                } else {
                    0
                }
            }
            _ => 0,
        };
        let max_second = (SECONDS_PER_DAY as i32 + leap_seconds as i32 - 1) as u32;
        if second > max_second {
            (max_second, second - max_second)
        } else {
            (second, 0)
        }
""", """        let mut day_length = SECONDS_PER_DAY as i32;
        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
            if days_from_epoch + 1 == segment.end_day() as i32 {
                day_length += i32::from(segment.leap_seconds);
            }
        }
        let overflow = (second + 1).saturating_sub(day_length as u32);
        (second - overflow, overflow)
"""))

r("pack-nested", DT, "D01 D02 D11 D14",
  ("""        ((nanosecond & 0x3FFF0000) as u64) << 32
            | (p as u64) << 41
            | ((second & 0x10000) as u64) << 24
            | ((rebased_cycle & 0x1F) as u64) << 35
            | ((century & 0x3) as u64) << 33
            | ((quadrennium & 0x1F) as u64) << 27
            | ((year & 0x3) as u64) << 25
            | ((day & 0x1FF) as u64) << 16
            | (second & 0xFFFF) as u64
""", """        let mut w = u64::from(nanosecond >> 16) & 0x3FFF;
        w = w << 7 | u64::from(p);
        w <<= 41;
        w |= (u64::from(second) >> 16 & 1) << 40;
        w |= ((rebased_cycle & 0x1F) as u64) << 35;
        w |= u64::from(century & 0x3) << 33;
        let low = (u64::from(quadrennium) & 0x1F) << 11 | u64::from(year & 0x3) << 9 | u64::from(day & 0x1FF);
        w |= low << 16;
        w | u64::from(second) & 0xFFFF
"""))

r("unpack-helper", DT, "D01 D02 D11 D14",
  ("""        let lower_second = (w0 & 0xFFFF) as u32;
        let day = ((w0 >> 16) & 0x1FF) as u16;
        let year = ((w0 >> 25) & 0x3) as u8;
        let quadrennium = ((w0 >> 27) & 0x1F) as u8;
        let century = ((w0 >> 33) & 0x3) as u8;
        let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
        let precision = Self::decode_precision((w0 >> 41) as u8 & 0xF);
        let nanosecond = ((w0 >> 32) & 0x3FFF0000) as u32;
""", """        fn field(w: u64, shift: u32, bits: u32) -> u64 {
            (w >> shift) & ((1 << bits) - 1)
        }
        let day = field(w0, 16, 9) as u16;
        let year = field(w0, 25, 2) as u8;
        let quadrennium = field(w0, 27, 5) as u8;
        let century = field(w0, 33, 2) as u8;
        let cycle = field(w0, 35, 5) as i8 - 6;
        let second = (field(w0, 40, 1) as u32) * 65536 + (w0 as u16) as u32;
        let precision = Self::decode_precision(field(w0, 41, 4) as u8);
        let nanosecond = (field(w0, 48, 14) as u32) << 16;
"""))

r("precision-table", DT, "D01 D11",
  ("""        match precision {
            0 => Precision::Millennia,
            1 => Precision::Centuries,
            2 => Precision::Decades,
            3 => Precision::Years,
            4 => Precision::Months,
            5 => Precision::Weeks,
            6 => Precision::Days,
            7 => Precision::Hours,
            8 => Precision::Minutes,
            9 => Precision::Seconds,
            10 => Precision::Milliseconds,
            11 => Precision::Microseconds,
            12 => Precision::Nanoseconds,
            // Should never happen but we don't need to confuse the optimizer with a panic here.
            _ => Precision::Nanoseconds,
        }
""", """        const ALL: [Precision; 13] = [
            Precision::Millennia,
            Precision::Centuries,
            Precision::Decades,
            Precision::Years,
            Precision::Months,
            Precision::Weeks,
            Precision::Days,
            Precision::Hours,
            Precision::Minutes,
            Precision::Seconds,
            Precision::Milliseconds,
            Precision::Microseconds,
            Precision::Nanoseconds,
        ];
        ALL.get(precision as usize).copied().unwrap_or(Precision::Nanoseconds)
"""))

r("encode-cast", DT, "D01 D11 D15",
  ("""        match precision {
            Precision::Millennia => 0,
            Precision::Centuries => 1,
            Precision::Decades => 2,
            Precision::Years => 3,
            Precision::Months => 4,
            Precision::Weeks => 5,
            Precision::Days => 6,
            Precision::Hours => 7,
            Precision::Minutes => 8,
            Precision::Seconds => 9,
            Precision::Milliseconds => 10,
            Precision::Microseconds => 11,
            Precision::Nanoseconds => 12,
        }
""", """        let mut code = 0;
        while Self::decode_precision(code) != precision {
            code += 1;
        }
        code
"""))

r("hour-minute-branches", DT, "D02 D13",
  ("""        let hour = (second / SECONDS_PER_HOUR as u32) as u8;
        min(hour, HOURS_PER_DAY - 1)
""", """        if second >= SECONDS_PER_DAY {
            return HOURS_PER_DAY - 1;
        }
        (second / u32::from(SECONDS_PER_HOUR)) as u8
"""),
  ("""        let boundary = SECONDS_PER_DAY - SECONDS_PER_MINUTE as u32;
        if second < boundary {
            let seconds_into_hour = (second % SECONDS_PER_HOUR as u32) as u16;
            (seconds_into_hour / MINUTES_PER_HOUR as u16) as u8
        } else {
            MINUTES_PER_HOUR - 1
        }
""", """        let second = min(second, SECONDS_PER_DAY - 1);
        ((second / 60) % 60) as u8
"""),
  ("use std::cmp::min;", "use std::cmp::min;"))

r("to-instant-totals", DT, "D04 D05 D09 D16 L03",
  ("""                let days_since_last_segment = day as u32 - last_segment.end_day();
                let seconds_since_last_segment =
                    days_since_last_segment as u64 * SECONDS_PER_DAY as u64 + second as u64;
                let last_segment_end = last_segment.end_instant().ticks_since_epoch() as u64;
                (last_segment_end + seconds_since_last_segment) as i64
""", """                let leap_seconds =
                    last_segment.accumulated_leap_seconds + i32::from(last_segment.leap_seconds);
                i64::from(day) * i64::from(SECONDS_PER_DAY) + i64::from(second) + i64::from(leap_seconds)
"""),
  ("""                let days_into_segment = (day - segment.start_day as i32) as u32;
                segment.start_instant.ticks_since_epoch() as i64
                    + days_into_segment as i64 * SECONDS_PER_DAY as i64
                    + second as i64
""", """                i64::from(day) * 86_400
                    + i64::from(second)
                    + i64::from(segment.accumulated_leap_seconds)
"""),
  ("""                let days_to_first_segment = (first_segment.start_day as i32 - (day + 1)) as u32;
                let seconds_to_first_segment = days_to_first_segment as u64
                    * SECONDS_PER_DAY as u64
                    + ((SECONDS_PER_DAY - second) as u64);
                first_segment.start_instant.ticks_since_epoch() as i64
                    - seconds_to_first_segment as i64
""", """                let _ = first_segment;
                i64::from(day) * 86_400 + i64::from(second)
"""))

r("from-instant-before", DT, "D04 D05 D09 D16",
  ("""                let (mut days, second) =
                    seconds_until_first_segment.div_rem(&(SECONDS_PER_DAY as u64));
                let mut second = second as u32;
                if second != 0 {
                    days += 1;
                    second = SECONDS_PER_DAY - second;
                }
                let fixed_day = first_segment.start_day as i64 - days as i64;
                if fixed_day < MIN_FIXED_DAY as i64 {
                    return None;
                }
                let gnd = GregorianNormalizedDate::from_day(fixed_day as i32)
                    .expect("The number of days since the epoch is within the range of GregorianNormalizedDate");
                Some((gnd, second))
""", """                let offset = -(seconds_until_first_segment as i128);
                let fixed_day = i128::from(first_segment.start_day)
                    + offset.div_euclid(i128::from(SECONDS_PER_DAY));
                let second = offset.rem_euclid(i128::from(SECONDS_PER_DAY)) as u32;
                match i32::try_from(fixed_day) {
                    Ok(day) if day >= MIN_FIXED_DAY => {
                        GregorianNormalizedDate::from_day(day).map(|gnd| (gnd, second))
                    }
                    _ => None,
                }
"""))

r("from-instant-in", DT, "D04 D05 D09 D16",
  ("""                let (days, second) = seconds_into_segment.div_rem(&(SECONDS_PER_DAY as u64));
                let (mut days, mut second) = (days as u32, second as u32);
                let max_day = segment.duration_days - 1;
                if days > max_day {
                    // Leap seconds at the end of the day caused us to overshoot the last day of the
                    // segment. We need to spill the extra day into the second component.
                    let overshoot_days = days - max_day;
                    assert_eq!(
                        overshoot_days, 1,
                        "More than 86400 leap seconds in one day?"
                    );
                    days = max_day;
                    second += SECONDS_PER_DAY;
                }
""", """                let seconds_into_segment = seconds_into_segment as u32;
                let (days, second) =
                    seconds_into_segment.clamped_div_rem(SECONDS_PER_DAY, segment.duration_days - 1);
"""))

r("is-in-range-cmp", DT, "D04 D05",
  ("    (MIN_GND..=MAX_GND).contains(gnd)\n", """    let day = gnd.to_day();
    day >= MIN_FIXED_DAY && day <= MAX_FIXED_DAY as i32
"""))

r("month-loop", GND, "D02 D03 D07 G01 G03",
  ("""    ((5 * day + 2) / 153) as u8
""", """    let mut month = 0;
    while month < 11 && year_day_from_month(month + 1) <= day {
        month += 1;
    }
    month
"""))

r("month-starts-table", GND, "D02 D03 D07 G01",
  ("""    (153 * month as u16 + 2) / 5
""", """    const STARTS: [u16; 13] = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337, 367];
    STARTS[month as usize]
"""))

r("years-flat", GND, "D04 D05 D07",
  ("""        let (quadrenniums, year) =
            (self.year as i16 + years).div_mod_floor(&(GREGORIAN_QUADRENNIUM_YEARS as i16));
        let year = year as u8;

        let (centuries, quadrennium) = (self.quadrennium as i16 + quadrenniums)
            .div_mod_floor(&(GREGORIAN_CENTURY_QUADRENNIUMS as i16));
        let (centuries, quadrennium) = (centuries as i8, quadrennium as u8);

        let (cycle, century) =
            (self.century as i8 + centuries).div_mod_floor(&(GREGORIAN_CYCLE_CENTURIES as i8));
        let century = century as u8;

        self.year = year;
        self.quadrennium = quadrennium;
        self.century = century;
        self.cycle += cycle;
""", """        let year_of_cycle = self.century as i32 * 100 + self.quadrennium as i32 * 4 + self.year as i32;
        let (cycles, year_of_cycle) = (year_of_cycle + years as i32).div_mod_floor(&400);
        let (century, year_of_century) = (year_of_cycle / 100, year_of_cycle % 100);

        self.cycle += cycles as i8;
        self.century = century as u8;
        self.quadrennium = (year_of_century / 4) as u8;
        self.year = (year_of_century % 4) as u8;
"""))

r("days-by-number", GND, "D04 D05 D06 D08",
  ("""        let century = self.century as i32;
        let quadrennium = self.quadrennium as i32;
        let year = self.year as i32;
        let day = (century * GREGORIAN_CENTURY_DAYS as i32
            + quadrennium * GREGORIAN_QUADRENNIUM_DAYS as i32
            + year * GREGORIAN_YEAR_DAYS as i32)
            .checked_add(day)
            .ok_or(OutOfBounds)?;

        let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
        let cycles = i8::try_from(cycles).map_err(|_| OutOfBounds)?;
        let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);

        self.cycle = self.cycle.checked_add(cycles).ok_or(OutOfBounds)?;
        self.century = century;
        self.quadrennium = quadrennium;
        self.year = year;
        self.day = day;
        Ok(())
""", """        let _ = day;
        let target = self.to_day().checked_add(days).ok_or(OutOfBounds)?;
        *self = Self::from_day(target).ok_or(OutOfBounds)?;
        Ok(())
"""))

r("unnormalized-leap", GND, "G03 D02",
  ("""        if self.day >= JANUARY_1_DAY_OFFSET {
            year = (year + 1) % 400
        }

        (year % 4 == 0) && (year % 100 != 0 || year == 0)
""", """        if self.day >= JANUARY_1_DAY_OFFSET {
            year += 1;
        }
        if year % 100 == 0 {
            year % 400 == 0
        } else {
            year & 3 == 0
        }
"""))

r("from-date-shift", GND, "D03 G01 D02",
  ("""        let mut year = year;
        let mut month = month - 1;
        let day = day - 1;
        if month < 2 {
            month += 12;
            year -= 1;
        }
        month -= 2;
        year -= 2000;
""", """        let day = day - 1;
        let (year, month) = match month {
            1 | 2 => (year - 2001, month + 9),
            _ => (year - 2000, month - 3),
        };
"""))

r("lookup-linear", ZI, "L02 L03 D09 D10 D03 D04",
  ("""    let search_result = segments.binary_search_by(|s| {
        if day < s.start_day as i32 {
            Greater
        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
""", """    if day < segments[0].start_day as i32 {
        return SegmentLookupResult::BeforeFirst(&segments[0]);
    }
    for segment in segments {
        if day < segment.end_day() as i32 {
            return SegmentLookupResult::In(segment);
        }
    }
    SegmentLookupResult::AfterLast(&segments[segments.len() - 1])
"""))

r("lookup-partition", ZI, "L02 L03 D09 D10 D03",
  ("""    let search_result = segments.binary_search_by(|s| {
        if day < s.start_day as i32 {
            Greater
        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
""", """    let index = segments.partition_point(|s| s.start_day as i32 <= day);
    if index == 0 {
        return SegmentLookupResult::BeforeFirst(&segments[0]);
    }
    let segment = &segments[index - 1];
    if day < segment.end_day() as i32 {
        SegmentLookupResult::In(segment)
    } else {
        SegmentLookupResult::AfterLast(segment)
    }
"""))

r("lookup-instant-end", ZI, "L02 D09",
  ("""        } else if instant
            < s.start_instant
                + DurationS32::new(s.duration_days as i32 * 86_400 + s.leap_seconds as i32)
        {
            Equal
""", """        } else if instant < s.end_instant() {
            Equal
"""))

r("load-iter", ZI, "L01 D14",
  ("""    for leap_second in tz.leap_seconds.iter() {
        let end_day = leap_second.timestamp as u32 / 86400;

        let leap_second_total = leap_second.leap_second_count;
""", """    let mut index = 0;
    while index < tz.leap_seconds.len() {
        let leap_second = &tz.leap_seconds[index];
        index += 1;
        let end_day = leap_second.timestamp as u32 / 86400;

        let leap_second_total = leap_second.leap_second_count;
"""))

r("load-helper", ZI, "L01 D14",
  ("""    let mut segments: Vec<ContinuousTimeSegment> = Vec::with_capacity(tz.leap_seconds.len());
    let mut start_instant""", """    let mut segments: Vec<ContinuousTimeSegment> = Vec::new();
    let mut start_instant"""),
  ("""        let leap_second_total = leap_second.leap_second_count;
        let leap_seconds = leap_second_total - previous_leap_second_total;
        assert!(leap_seconds >= i8::MIN as i32 && leap_seconds <= i8::MAX as i32);
        let leap_seconds = leap_seconds as i8;
        let duration_days = end_day - start_day;
        let duration_seconds = duration_days as i32 * 86400 + leap_seconds as i32;
        segments.push(ContinuousTimeSegment {
            start_instant,
            start_day,
            duration_days,
            leap_seconds,
            accumulated_leap_seconds: previous_leap_second_total,
        });

        start_instant = start_instant + DurationS32::new(duration_seconds);
        start_day += duration_days;
        previous_leap_second_total = leap_second_total;
""", """        let leap_second_total = leap_second.leap_second_count;
        let leap_seconds = i8::try_from(leap_second_total - previous_leap_second_total)
            .expect("too many leap seconds");
        let segment = ContinuousTimeSegment {
            start_instant,
            start_day,
            duration_days: end_day - start_day,
            leap_seconds,
            accumulated_leap_seconds: previous_leap_second_total,
        };
        start_instant = segment.end_instant();
        start_day = segment.end_day();
        segments.push(segment);
        previous_leap_second_total = leap_second_total;
"""))

r("adjustment-if", ZI, "L03 S01",
  ("""    match leap_seconds.by_day(day) {
        SegmentLookupResult::BeforeFirst(_) => 0,
        SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
        SegmentLookupResult::AfterLast(last_segment) => {
            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
        }
    }
""", """    let (segment, past) = match leap_seconds.by_day(day) {
        SegmentLookupResult::BeforeFirst(_) => return 0,
        SegmentLookupResult::In(segment) => (segment, false),
        SegmentLookupResult::AfterLast(segment) => (segment, true),
    };
    let mut total = segment.accumulated_leap_seconds;
    if past {
        total += i32::from(segment.leap_seconds);
    }
    total
"""))

r("clamped-if", DR, "U01 D02 D06 D07 G01",
  ("""        let quotient = min(self / divisor, max_quotient.into());
        let remainder = self - quotient * divisor;
        let quotient: Self::Quotient = match quotient.try_into() {
            Ok(x) => x,
            Err(_) => panic!("quotient is too large"),
        };
        (quotient, remainder)
""", """        let limit: T = max_quotient.into();
        let quotient = self / divisor;
        if quotient >= limit {
            return (max_quotient, self - limit * divisor);
        }
        let remainder = self % divisor;
        match quotient.try_into() {
            Ok(quotient) => (quotient, remainder),
            Err(_) => panic!("quotient is too large"),
        }
"""), ("use std::cmp::min;\n", ""))

r("rem-floor-mod", DR, "U01 G03",
  ("""        let zero = Self::zero();
        let one = Self::one();
        if *self > zero && other < zero {
            (*self - one) % other + other + one
        } else if *self < zero && other > zero {
            (*self + one) % other + other - one
        } else {
            *self % other
        }
""", """        let zero = Self::zero();
        let remainder = *self % other;
        if (remainder > zero && other < zero) || (remainder < zero && other > zero) {
            remainder + other
        } else {
            remainder
        }
"""))

r("cursor-match", SC, "K01",
  ("""        let end = self.slice.len() + 1;
        if self.pos < end {
            self.pos += 1;
            if self.pos < end {
                Some(&self.slice[self.pos - 1])
            } else {
                None
            }
        } else {
            None
        }
    }
    fn advance_by""", """        self.pos = min(self.pos + 1, self.slice.len() + 1);
        self.current()
    }
    fn advance_by"""),
  ("""        if self.pos > 0 {
            self.pos -= 1;
            if self.pos > 0 {
                Some(&self.slice[self.pos - 1])
            } else {
                None
            }
        } else {
            None
        }
    }

    fn current(""", """        self.pos = self.pos.saturating_sub(1);
        self.current()
    }

    fn current("""),
  ("""        if self.pos > 0 && self.pos <= self.slice.len() {
            Some(&self.slice[self.pos - 1])
        } else {
            None
        }
""", """        self.slice.get(self.pos.checked_sub(1)?)
"""),
  ("""        if self.pos < self.slice.len() {
            Some(&self.slice[self.pos])
        } else {
            None
        }
""", """        self.slice.get(self.pos)
"""))

r("cursor-loop", SC, "K01",
  ("""        let remaining = self.slice.len().saturating_sub(self.pos);
        let advance = min(n, remaining);
        self.pos += advance;
        let n = n - advance;
        if n > 0 {
            self.pos = self.slice.len() + 1;
            Err(NonZeroUsize::new(n).unwrap())
        } else {
            Ok(())
        }
""", """        let mut left = n;
        while left > 0 {
            if self.next().is_none() {
                return Err(NonZeroUsize::new(left).unwrap());
            }
            left -= 1;
        }
        Ok(())
"""))

r("builder-required", BLD, "D03 D04 D15 D02",
  ("""        let month = if precision >= Precision::Months {
            self.month.expect("No month provided")
        } else {
            1
        };
        let day = if precision >= Precision::Days {
            self.day.expect("No day provided")
        } else {
            1
        };
        let hour = if precision >= Precision::Hours {
            self.hour.expect("No hour provided")
        } else {
            0
        };
""", """        fn required<T>(needed: bool, value: Option<T>, default: T, message: &str) -> T {
            if needed {
                value.expect(message)
            } else {
                default
            }
        }
        let month = required(precision >= Precision::Months, self.month, 1, "No month provided");
        let day = required(precision >= Precision::Days, self.day, 1, "No day provided");
        let hour = required(precision >= Precision::Hours, self.hour, 0, "No hour provided");
"""),
  ("""        if second >= minute_length
            || millisecond >= 1000
            || microsecond >= 1000
            || nanosecond >= 1000
        {
            return Err(Error::InvalidDateTime);
        }
""", """        let subsecond_valid = [millisecond, microsecond, nanosecond]
            .iter()
            .all(|&part| part < 1000);
        if !subsecond_valid || second >= minute_length {
            return Err(Error::InvalidDateTime);
        }
"""))

r("opt-max-map", BLD, "D15",
  ("""    Some(match lhs {
        Some(x) => max(x, rhs),
        None => rhs,
    })
""", """    lhs.map_or(Some(rhs), |x| Some(max(x, rhs)))
"""))

r("minute-length-helper", BLD, "D03 D04",
  ("""                let day_in_segment = fixed_day as u32 - segment.start_day;
                let last_day = day_in_segment == segment.duration_days - 1;
                if !last_day {
                    60
                } else {
                    (60 + segment.leap_seconds) as u8
                }
""", """                match fixed_day as u32 + 1 == segment.end_day() {
                    true => (60 + segment.leap_seconds) as u8,
                    false => 60,
                }
"""))

r("julian-flat", INS, "S02",
  ("""    let y = year as i64;
    let m = month as i64;
    let d = day as i64;
    let jdn = (1461 * (y + 4800 + (m - 14) / 12)) / 4 + (367 * (m - 2 - 12 * ((m - 14) / 12))) / 12
        - (3 * ((y + 4900 + (m - 14) / 12) / 100)) / 4
        + d
        - 32075;
    jdn as i32
""", """    let a = (14 - i64::from(month)) / 12;
    let y = i64::from(year) + 4800 - a;
    let m = i64::from(month) + 12 * a - 3;
    let leap_days = y / 4 - y / 100 + y / 400;
    (i64::from(day) + (153 * m + 2) / 5 + 365 * y + leap_days - 32045) as i32
"""))

r("unix-time-sum", INS, "S02",
  ("""    let unix_time = (julian_day - 2440588) * 86400 + hour * 3600 + minute * 60 + second;
    unix_time as i64 // TODO increase precision of calculations above
""", """    let hours = (julian_day - 2_440_588) * 24 + hour;
    (hours * 60 + minute) * 60 + second
"""))

r("time-t-match", INS, "S01",
  ("""    let sign = value < SystemTime::UNIX_EPOCH;
    let duration = if sign {
        SystemTime::UNIX_EPOCH.duration_since(value)
    } else {
        value.duration_since(SystemTime::UNIX_EPOCH)
    }
    .unwrap();
    let mut seconds = duration.as_secs() as i64;
    let mut nanoseconds = duration.subsec_nanos();
    if sign {
        // The most negative time_t has no positive counterpart; it is already negative here.
        seconds = seconds.wrapping_neg();
        if nanoseconds > 0 {
            // The nanoseconds count forward from the start of the second.
            seconds -= 1;
            nanoseconds = 1_000_000_000 - nanoseconds;
        }
    }
    (seconds, nanoseconds)
""", """    match value.duration_since(SystemTime::UNIX_EPOCH) {
        Ok(after) => (after.as_secs() as i64, after.subsec_nanos()),
        Err(error) => {
            let before = error.duration();
            let seconds = (before.as_secs() as i64).wrapping_neg();
            match before.subsec_nanos() {
                0 => (seconds, 0),
                nanoseconds => (seconds - 1, 1_000_000_000 - nanoseconds),
            }
        }
    }
"""))

r("cmp-helper", INS, "I01",
  ("""            std::cmp::Ordering::Less => {
                let (t2, exact) = coarsen(t2, s2 / s1);
                exact && t1.num_eq(t2)
            }
            std::cmp::Ordering::Greater => {
                let (t1, exact) = coarsen(t1, s1 / s2);
                exact && t1.num_eq(t2)
            }
            std::cmp::Ordering::Equal => t1.num_eq(t2),
        }
""", """            std::cmp::Ordering::Equal => t1.num_eq(t2),
            _ => self.partial_cmp(other) == Some(std::cmp::Ordering::Equal),
        }
"""))

r("convert-match", INS, "S01",
  ("""        let total_ticks = seconds
            .checked_mul(&ticks_per_second)
            .and_then(|ticks| ticks.checked_add(&subsec_ticks))
            .ok_or(InstantOutOfRange)?;
""", """        let total_ticks = match seconds.checked_mul(&ticks_per_second) {
            Some(whole) => match whole.checked_add(&subsec_ticks) {
                Some(total) => total,
                None => return Err(InstantOutOfRange),
            },
            None => return Err(InstantOutOfRange),
        };
"""))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    base = os.environ.get("VERIF_REPO", "/repo")
    d = "/tmp/refwork-%d" % os.getpid()
    for name, file, props, edits in R:
        if args and name not in args:
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base, d, ignore=shutil.ignore_patterns("target", ".git"))
        p = os.path.join(d, file)
        s = open(p).read()
        for old, new in edits:
            if old not in s:
                print(name, "EDIT DOES NOT APPLY:", old[:60].strip())
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        if "--build" in sys.argv:
            q = subprocess.run(["cargo", "test", "--offline", "-q", "--target-dir", "/tmp/reftarget-%d" % os.getpid()], cwd=d, capture_output=True, text=True)
            print(name, "tests", "ok" if q.returncode == 0 else "FAIL\n" + (q.stdout + q.stderr)[-2500:], flush=True)
            continue
        for pid in props:
            t = time.time()
            q = subprocess.run(["timeout", "900", "python3", "engine/check.py", pid, "quick"], cwd=verif, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            o = [x for x in (q.stdout + q.stderr).splitlines() if "obligations" in x]
            tail = "" if o else (q.stdout + q.stderr)[-400:]
            bad = "" if q.returncode == 0 else "  <<< ALARM" if q.returncode == 1 else "  <<< NO ANSWER"
            print("%-22s %s rc=%d %s%s %.0fs%s" % (name, pid, q.returncode, (o or [""])[0].split("quick:")[-1][:90], tail, time.time() - t, bad), flush=True)
            if q.returncode:
                print("   ", [x.strip()[:260] for x in (q.stdout + q.stderr).splitlines() if "reached from" in x][:3], flush=True)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
