"""Third batch of behaviour-preserving rewrites: less usual constructs (see refactors.py)."""
import refactors
from refactors import *

refactors.R.clear()

r("bytes-pack", DT, "D01 D02 D11",
  ("""        let (precision, gnd, second, nanosecond) = Self::unpack0(w0);
        let nanosecond = nanosecond | w1 as u32;
""", """        let (precision, gnd, second, nanosecond) = Self::unpack0(w0);
        let [_, _, c, d] = nanosecond.to_be_bytes().map(|b| b);
        debug_assert!(c == 0 && d == 0);
        let [a, b, ..] = nanosecond.to_be_bytes();
        let [c, d] = w1.to_be_bytes();
        let nanosecond = u32::from_be_bytes([a, b, c, d]);
"""))

r("month-table", GND, "G01 G03 D07 D02",
  ("""    ((5 * day + 2) / 153) as u8
""", """    const STARTS: [u16; 12] = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337];
    (STARTS.partition_point(|&start| start <= day) - 1) as u8
"""))

r("month-rposition", GND, "G01 D07",
  ("""    ((5 * day + 2) / 153) as u8
""", """    const STARTS: [u16; 12] = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337];
    STARTS.iter().rposition(|&start| start <= day).unwrap_or(0) as u8
"""))

r("month-scan", GND, "G01 D07",
  ("""    ((5 * day + 2) / 153) as u8
""", """    [31u16, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31]
        .iter()
        .scan(0u16, |total, length| {
            *total += length;
            Some(*total)
        })
        .take_while(|&end| end <= day)
        .count() as u8
"""))

r("month-from-fn", GND, "G01 D07",
  ("""    (153 * month as u16 + 2) / 5
""", """    let starts: [u16; 12] = std::array::from_fn(|i| (153 * i as u16 + 2) / 5);
    starts[month as usize]
"""))

r("decompose-loop", GND, "G01 D06",
  ("""    let (years_into_quadrennium, days_into_year) =
        days_into_quadrennium.clamped_div_rem(GREGORIAN_YEAR_DAYS, 3_u8);
""", """    let mut days_into_year = days_into_quadrennium;
    let years_into_quadrennium = loop {
        let n = ((days_into_quadrennium - days_into_year) / GREGORIAN_YEAR_DAYS) as u8;
        if n == 3 || days_into_year < GREGORIAN_YEAR_DAYS {
            break n;
        }
        days_into_year -= GREGORIAN_YEAR_DAYS;
    };
"""))

r("cmp-array", GND, "G02 D03",
  ("""        self.cycle
            .cmp(""", """        [self.cycle as i16, self.century as i16, self.quadrennium as i16, self.year as i16, self.day as i16]
            .cmp(&[other.cycle as i16, other.century as i16, other.quadrennium as i16, other.year as i16, other.day as i16])
    }
}

impl GregorianNormalizedDate {
    #[allow(dead_code)]
    fn cmp_fields(&self, other: &Self) -> Ordering {
        self.cycle
            .cmp("""))

r("leap-matches", GND, "G03 G01",
  ("""    year == 3 && !(quadrennium == 24 && century != 3)
""", """    matches!((century, quadrennium, year), (3, _, 3) | (_, 0..=23, 3))
"""))

r("adjust-fold", ZI, "L03 S01",
  ("""    match leap_seconds.by_day(day) {
        SegmentLookupResult::BeforeFirst(_) => 0,
        SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
        SegmentLookupResult::AfterLast(last_segment) => {
            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
        }
    }
""", """    leap_seconds
        .0
        .iter()
        .filter(|s| s.end_day() as i32 <= day)
        .map(|s| i32::from(s.leap_seconds))
        .sum()
"""))

r("adjust-rev", ZI, "L03 S01",
  ("""    match leap_seconds.by_day(day) {
        SegmentLookupResult::BeforeFirst(_) => 0,
        SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
        SegmentLookupResult::AfterLast(last_segment) => {
            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
        }
    }
""", """    leap_seconds
        .0
        .iter()
        .rev()
        .find(|s| s.end_day() as i32 <= day)
        .map_or(0, |s| s.accumulated_leap_seconds + i32::from(s.leap_seconds))
"""))

r("lookup-partition", ZI, "L02 D09",
  ("""    let search_result = segments.binary_search_by(|s| {
        if day < s.start_day as i32 {
            Greater
        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
""", """    let (before, after) = segments.split_at(segments.partition_point(|s| s.end_day() as i32 <= day));
    match (before.last(), after.first()) {
        (_, Some(segment)) if day >= segment.start_day as i32 => SegmentLookupResult::In(segment),
        (None, Some(first)) => SegmentLookupResult::BeforeFirst(first),
        (Some(last), None) => SegmentLookupResult::AfterLast(last),
        _ => panic!("the segments have a gap"),
    }
"""))

r("lookup-linear", ZI, "L02 D09",
  ("""    let search_result = segments.binary_search_by(|s| {
        if day < s.start_day as i32 {
            Greater
        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
""", """    let first = segments.first().expect("there is a segment");
    if day < first.start_day as i32 {
        return SegmentLookupResult::BeforeFirst(first);
    }
    segments
        .iter()
        .find(|s| (s.start_day as i32..s.end_day() as i32).contains(&day))
        .map(SegmentLookupResult::In)
        .unwrap_or_else(|| SegmentLookupResult::AfterLast(segments.last().expect("there is a segment")))
"""))

r("table-windows", ZI, "L01 L02",
  ("""    let mut segments: Vec<ContinuousTimeSegment> = Vec::with_capacity(tz.leap_seconds.len());
    let mut start_instant: InstantS32 = Instant::from_ticks_since_epoch(0);
    let mut start_day = 0;
    let mut previous_leap_second_total = 0;
    for leap_second in tz.leap_seconds.iter() {
        let end_day = leap_second.timestamp as u32 / 86400;
""", """    let mut segments: Vec<ContinuousTimeSegment> = Vec::with_capacity(tz.leap_seconds.len());
    let mut start_instant: InstantS32 = Instant::from_ticks_since_epoch(0);
    let mut start_day = 0;
    let mut previous_leap_second_total = 0;
    let mut rest = &tz.leap_seconds[..];
    while let [leap_second, tail @ ..] = rest {
        rest = tail;
        let end_day = leap_second.timestamp as u32 / 86400;
"""))

r("table-scan", ZI, "L01",
  ("""    for leap_second in tz.leap_seconds.iter() {
        let end_day""", """    for (_, leap_second) in tz.leap_seconds.iter().enumerate().skip_while(|(i, _)| *i > 1_000_000) {
        let end_day"""))

r("eod-option-chain", DT, "D10 D04",
  ("""        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
            SegmentLookupResult::In(segment) => {
                let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
                if day_offset == segment.duration_days - 1 {
                    segment.leap_seconds
                } else {
                    0
                }
            }
            _ => 0,
        };
        let max_second = (SECONDS_PER_DAY as i32 + leap_seconds as i32 - 1) as u32;
        if second > max_second {
            (max_second, second - max_second)
        } else {
            (second, 0)
        }
""", """        let segment = match leap_second_chronology.by_day(days_from_epoch) {
            SegmentLookupResult::In(segment) => Some(segment),
            _ => None,
        };
        let leap_seconds = segment
            .filter(|s| days_from_epoch + 1 == s.end_day() as i32)
            .map_or(0, |s| s.leap_seconds);
        let max_second = (SECONDS_PER_DAY - 1).wrapping_add(leap_seconds as i32 as u32);
        let carry = second.saturating_sub(max_second);
        (second - carry, carry)
"""))

r("hour-string", DT, "D02",
  ("""        let hour = (second / SECONDS_PER_HOUR as u32) as u8;
        min(hour, HOURS_PER_DAY - 1)
""", """        (0..HOURS_PER_DAY)
            .rev()
            .find(|&h| u32::from(h) * SECONDS_PER_HOUR as u32 <= second)
            .unwrap_or_default()
            .min(min(HOURS_PER_DAY - 1, u8::MAX))
"""))

r("precision-transmute", DT, "D01 D11",
  ("""        match precision {
            Precision::Millennia => 0,
            Precision::Centuries => 1,
            Precision::Decades => 2,
            Precision::Years => 3,
            Precision::Months => 4,
            Precision::Weeks => 5,
            Precision::Days => 6,
            Precision::Hours => 7,
            Precision::Minutes => 8,
            Precision::Seconds => 9,
            Precision::Milliseconds => 10,
            Precision::Microseconds => 11,
            Precision::Nanoseconds => 12,
        }
""", """        const ALL: [Precision; 13] = [
            Precision::Millennia,
            Precision::Centuries,
            Precision::Decades,
            Precision::Years,
            Precision::Months,
            Precision::Weeks,
            Precision::Days,
            Precision::Hours,
            Precision::Minutes,
            Precision::Seconds,
            Precision::Milliseconds,
            Precision::Microseconds,
            Precision::Nanoseconds,
        ];
        ALL.binary_search(&precision).map_or(0, |i| i as u8)
"""))

r("precision-table", DT, "D01 D11",
  ("""        match precision {
            0 => Precision::Millennia,
            1 => Precision::Centuries,
            2 => Precision::Decades,
            3 => Precision::Years,
            4 => Precision::Months,
            5 => Precision::Weeks,
            6 => Precision::Days,
            7 => Precision::Hours,
            8 => Precision::Minutes,
            9 => Precision::Seconds,
            10 => Precision::Milliseconds,
            11 => Precision::Microseconds,
            12 => Precision::Nanoseconds,
            // Should never happen but we don't need to confuse the optimizer with a panic here.
            _ => Precision::Nanoseconds,
        }
""", """        static ALL: &[Precision] = &[
            Precision::Millennia,
            Precision::Centuries,
            Precision::Decades,
            Precision::Years,
            Precision::Months,
            Precision::Weeks,
            Precision::Days,
            Precision::Hours,
            Precision::Minutes,
            Precision::Seconds,
            Precision::Milliseconds,
            Precision::Microseconds,
            Precision::Nanoseconds,
        ];
        ALL.get(precision as usize).copied().unwrap_or(Precision::Nanoseconds)
"""))

r("builder-macro", BLD, "D03 D15 D02",
  ("""        let month = if precision >= Precision::Months {
            self.month.expect("No month provided")
        } else {
            1
        };
        let day = if precision >= Precision::Days {
            self.day.expect("No day provided")
        } else {
            1
        };
        let hour = if precision >= Precision::Hours {
            self.hour.expect("No hour provided")
        } else {
            0
        };
        let minute = if precision >= Precision::Minutes {
            self.minute.expect("No minute provided")
        } else {
            0
        };
        let second = if precision >= Precision::Seconds {
            self.second.expect("No second provided")
        } else {
            0
        };
""", """        let part = |value: Option<u8>, least: Precision, name: &str, default: u8| -> u8 {
            (precision >= least)
                .then(|| value.unwrap_or_else(|| panic!("No {} provided", name)))
                .unwrap_or(default)
        };
        let [month, day] = [
            (self.month, Precision::Months, "month"),
            (self.day, Precision::Days, "day"),
        ]
        .map(|(value, least, name)| part(value, least, name, 1));
        let [hour, minute, second] = [
            (self.hour, Precision::Hours, "hour"),
            (self.minute, Precision::Minutes, "minute"),
            (self.second, Precision::Seconds, "second"),
        ]
        .map(|(value, least, name)| part(value, least, name, 0));
"""))

r("builder-try-fold", BLD, "D03 D02",
  ("""        let nanosecond =
            millisecond as u32 * 1_000_000 + microsecond as u32 * 1_000 + nanosecond as u32;
""", """        let nanosecond = [millisecond, microsecond, nanosecond]
            .into_iter()
            .fold(0u32, |total, part| total * 1000 + u32::from(part));
"""))

r("builder-any", BLD, "D03",
  ("""        if second >= minute_length
            || millisecond >= 1000
            || microsecond >= 1000
            || nanosecond >= 1000
        {
            return Err(Error::InvalidDateTime);
        }
""", """        let fraction = [millisecond, microsecond, nanosecond];
        (second < minute_length && !fraction.iter().any(|&part| part > 999))
            .then_some(())
            .ok_or(Error::InvalidDateTime)?;
"""))

r("system-signed", INS, "S01",
  ("""    let sign = value < SystemTime::UNIX_EPOCH;
    let duration = if sign {
        SystemTime::UNIX_EPOCH.duration_since(value)
    } else {
        value.duration_since(SystemTime::UNIX_EPOCH)
    }
    .unwrap();
    let mut seconds = duration.as_secs() as i64;
    let mut nanoseconds = duration.subsec_nanos();
    if sign {
        // The most negative time_t has no positive counterpart; it is already negative here.
        seconds = seconds.wrapping_neg();
        if nanoseconds > 0 {
            // The nanoseconds count forward from the start of the second.
            seconds -= 1;
            nanoseconds = 1_000_000_000 - nanoseconds;
        }
    }
    (seconds, nanoseconds)
""", """    let nanoseconds = value
        .duration_since(SystemTime::UNIX_EPOCH)
        .map(|d| d.as_nanos() as i128)
        .unwrap_or_else(|e| -(e.duration().as_nanos() as i128));
    let second = nanoseconds.div_euclid(1_000_000_000);
    (second as i64, nanoseconds.rem_euclid(1_000_000_000) as u32)
"""))

r("cursor-option", SC, "K01",
  ("""        if self.pos > 0 {
""", """        if std::num::NonZeroUsize::new(self.pos).is_some() {
"""))

r("minutes-i128", DT, "D08 D10 D05",
  ("""        let (day_delta, minute) = (minute as i64)
            .checked_add(minutes)?
            .div_mod_floor(&(MINUTES_PER_DAY as i64));
        let minute = minute as u16;
        gnd.add_days(day_delta.try_into().ok()?).ok()?;
""", """        let total = i128::from(minute) + i128::from(minutes);
        let (day_delta, minute) = (
            total.div_euclid(i128::from(MINUTES_PER_DAY)),
            total.rem_euclid(i128::from(MINUTES_PER_DAY)) as u16,
        );
        i32::try_from(day_delta)
            .map_err(drop)
            .and_then(|days| gnd.add_days(days).map_err(drop))
            .ok()?;
"""))

r("months-string", DT, "D02",
  ("""        let boundary = SECONDS_PER_DAY - SECONDS_PER_MINUTE as u32;
        if second < boundary {
            (second % SECONDS_PER_MINUTE as u32) as u8
        } else {
            (second - boundary) as u8
        }
""", """        let boundary = SECONDS_PER_DAY - SECONDS_PER_MINUTE as u32;
        second.checked_sub(boundary).map_or_else(
            || u8::try_from(second % SECONDS_PER_MINUTE as u32).unwrap(),
            |s| s.try_into().unwrap(),
        )
"""))

r("dyn-adjust", DT, "D08 D12",
  ("""        self.checked_add_minutes(hours as i64 * MINUTES_PER_HOUR as i64)
""", """        let step: &dyn Fn(i64) -> Option<DateTimeWithCarry> = &|minutes| self.checked_add_minutes(minutes);
        step(i64::from(hours) * i64::from(MINUTES_PER_HOUR))
"""))

r("boxed-adjust", DT, "D08 D12",
  ("""        self.checked_add_minutes(hours as i64 * MINUTES_PER_HOUR as i64)
""", """        let step: Box<dyn FnOnce(i64) -> Option<DateTimeWithCarry> + '_> =
            Box::new(move |minutes| self.checked_add_minutes(minutes));
        step(i64::from(hours) * i64::from(MINUTES_PER_HOUR))
"""))

r("hashmap-days", GND, "G01",
  ("""    (153 * month as u16 + 2) / 5
""", """    let starts: std::collections::BTreeMap<u8, u16> = (0u8..12).map(|m| (m, (153 * m as u16 + 2) / 5)).collect();
    starts[&month]
"""))

r("add-seconds-split", DT, "D09 D11",
  ("""        let instant = instant.checked_add(DurationS64::new(seconds))?;
""", """        let half = seconds / 2;
        let instant = [half, seconds - half]
            .iter()
            .try_fold(instant, |instant, &part| instant.checked_add(DurationS64::new(part)));
        let instant = instant?;
"""))

r("compare-f64-safe", INS, "S02",
  ("""    let unix_time = (julian_day - 2440588) * 86400 + hour * 3600 + minute * 60 + second;
""", """    let unix_time = [(julian_day - 2440588, 24), (hour, 60), (minute, 60), (second, 1)]
        .into_iter()
        .fold(0, |total, (value, factor)| (total + value) * factor);
"""))

if __name__ == "__main__":
    main()
