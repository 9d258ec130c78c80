"""Second batch of behaviour-preserving rewrites (see refactors.py)."""
import refactors
from refactors import *

refactors.R.clear()

r("years-closure", DT, "D05 D07 D10 D11",
  ("""        let day_carry = gnd.add_years(years);
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);
        let w0 = Self::pack0(precision, gnd, second, nanosecond);
        let result = DateTime {
            w0,
            w1: self.w1,
            chronology: self.chronology.clone(),
        };
        Some(DateTimeWithCarry(
            result,
            Carry {
                days: day_carry as u32,
                seconds: seconds_carry as u64,
            },
        ))
""", """        let days = u32::from(gnd.add_years(years));
        Some(gnd).filter(is_in_range).map(|gnd| {
            let (second, seconds) = self.spill_eod_second_overflow(&gnd, second);
            let w0 = Self::pack0(precision, gnd, second, nanosecond);
            let carry = Carry { days, seconds: seconds.into() };
            DateTimeWithCarry(DateTime { w0, ..self.clone() }, carry)
        })
"""))

r("minutes-wide", DT, "D04 D05 D08 D10 D11",
  ("""        let (day_delta, minute) = (minute as i64)
            .checked_add(minutes)?
            .div_mod_floor(&(MINUTES_PER_DAY as i64));
        let minute = minute as u16;
        gnd.add_days(day_delta.try_into().ok()?).ok()?;
""", """        let total = i128::from(minute) + i128::from(minutes);
        let minute = total.rem_euclid(i128::from(MINUTES_PER_DAY)) as u16;
        let day_delta = total.div_euclid(i128::from(MINUTES_PER_DAY));
        let Ok(day_delta) = i32::try_from(day_delta) else {
            return None;
        };
        if gnd.add_days(day_delta).is_err() {
            return None;
        }
"""))

r("seconds-and-then", DT, "D04 D05 D09 D11 D16",
  ("""        let instant = instant.checked_add(DurationS64::new(seconds))?;
        let (gnd, second) = Self::from_second_instant(instant, &self.chronology)?;
        let w0 = Self::pack0(precision, gnd, second, nanosecond);
        Some(DateTime {
            w0,
            w1: self.w1,
            chronology: self.chronology.clone(),
        })
""", """        instant
            .checked_add(DurationS64::new(seconds))
            .and_then(|instant| Self::from_second_instant(instant, &self.chronology))
            .map(|(gnd, second)| {
                let mut moved = self.clone();
                moved.w0 = Self::pack0(precision, gnd, second, nanosecond);
                moved
            })
"""))

r("after-last-helper", DT, "D04 D05 D09 D16",
  ("""                let fixed_day = (last_segment.end_day() as u64).checked_add(days)?;
                if fixed_day > MAX_FIXED_DAY as u64 {
                    return None;
                }
                let gnd = GregorianNormalizedDate::from_day(fixed_day as i32).expect(
                    "The number of days since the epoch is within the range of GregorianNormalizedDate",
                );
                Some((gnd, second))
""", """                u64::from(last_segment.end_day())
                    .checked_add(days)
                    .filter(|day| (0..=u64::from(MAX_FIXED_DAY)).contains(day))
                    .and_then(|day| i32::try_from(day).ok())
                    .and_then(GregorianNormalizedDate::from_day)
                    .zip(Some(second))
"""))

r("days-in-month-match", "src/iso8601/util.rs", "G03",
  ("""    if month == 2 && is_leap_year(year) {
        29
    } else {
        GREGORIAN_MONTH_LENGTHS_NON_LEAP_YEAR[(month - 1) as usize]
    }
""", """    match month {
        2 => 28 + is_leap_year(year) as u8,
        4 | 6 | 9 | 11 => 30,
        _ => GREGORIAN_MONTH_LENGTHS_NON_LEAP_YEAR[0],
    }
"""))

r("leap-matches", "src/iso8601/util.rs", "G03",
  ("""    let year = year.rem_floor(400);
    let year = year as u16;
    year % 4 == 0 && (year % 100 != 0 || year == 0)
""", """    let year = year.rem_euclid(400) as u16;
    !matches!(year, 100 | 200 | 300) && year & 3 == 0
"""))

r("lookup-rposition", ZI, "L02 L03 D03 D09",
  ("""    let search_result = segments.binary_search_by(|s| {
        if day < s.start_day as i32 {
            Greater
        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
""", """    let (Some(first), Some(last)) = (segments.first(), segments.last()) else {
        panic!("no leap seconds");
    };
    if i64::from(day) < i64::from(first.start_day) {
        return SegmentLookupResult::BeforeFirst(first);
    }
    if i64::from(day) >= i64::from(last.end_day()) {
        return SegmentLookupResult::AfterLast(last);
    }
    let index = segments.iter().rposition(|s| s.start_day as i32 <= day);
    SegmentLookupResult::In(&segments[index.expect("the day is in a segment")])
"""))

r("lookup-find", ZI, "L02 D09 D04",
  ("""    let search_result = segments.binary_search_by(|s| {
        if instant < s.start_instant {
            Greater
        } else if instant
            < s.start_instant
                + DurationS32::new(s.duration_days as i32 * 86_400 + s.leap_seconds as i32)
        {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
""", """    let _ = (Greater, Equal, Less);
    if instant < segments[0].start_instant {
        return SegmentLookupResult::BeforeFirst(&segments[0]);
    }
    segments
        .iter()
        .find(|s| instant < s.end_instant())
        .map_or_else(
            || SegmentLookupResult::AfterLast(&segments[segments.len() - 1]),
            SegmentLookupResult::In,
        )
"""), ("use std::cmp::Ordering::{Equal, Greater, Less};", "use std::cmp::Ordering::{Equal, Greater, Less};"))

r("load-map", ZI, "L01 L03 D03",
  ("""    let mut segments: Vec<ContinuousTimeSegment> = Vec::with_capacity(tz.leap_seconds.len());
    let mut start_instant: InstantS32 = Instant::from_ticks_since_epoch(0);
    let mut start_day = 0;
    let mut previous_leap_second_total = 0;
    for leap_second in tz.leap_seconds.iter() {
        let end_day = leap_second.timestamp as u32 / 86400;

        let leap_second_total = leap_second.leap_second_count;
        let leap_seconds = leap_second_total - previous_leap_second_total;
        assert!(leap_seconds >= i8::MIN as i32 && leap_seconds <= i8::MAX as i32);
        let leap_seconds = leap_seconds as i8;
        let duration_days = end_day - start_day;
        let duration_seconds = duration_days as i32 * 86400 + leap_seconds as i32;
        segments.push(ContinuousTimeSegment {
            start_instant,
            start_day,
            duration_days,
            leap_seconds,
            accumulated_leap_seconds: previous_leap_second_total,
        });

        start_instant = start_instant + DurationS32::new(duration_seconds);
        start_day += duration_days;
        previous_leap_second_total = leap_second_total;
    }

    segments
""", """    let first_start: InstantS32 = Instant::epoch();
    tz.leap_seconds
        .iter()
        .scan((first_start, 0u32, 0i32), |(start_instant, start_day, total), entry| {
            let end_day = entry.timestamp as u32 / 86400;
            let segment = ContinuousTimeSegment {
                start_instant: *start_instant,
                start_day: *start_day,
                duration_days: end_day - *start_day,
                leap_seconds: i8::try_from(entry.leap_second_count - *total).expect("small jump"),
                accumulated_leap_seconds: *total,
            };
            *start_instant = segment.end_instant();
            *start_day = end_day;
            *total = entry.leap_second_count;
            Some(segment)
        })
        .collect()
"""))

r("load-fold", ZI, "L01 D03",
  ("""    for leap_second in tz.leap_seconds.iter() {
        let end_day = leap_second.timestamp as u32 / 86400;

        let leap_second_total = leap_second.leap_second_count;
""", """    let mut entries = tz.leap_seconds.into_iter();
    while let Some(leap_second) = entries.next() {
        let end_day = leap_second.timestamp.div_euclid(86400) as u32;

        let leap_second_total = leap_second.leap_second_count;
"""))

r("gnd-cmp-tuple", GND, "G02 D05",
  ("""        self.cycle
            .cmp(&other.cycle)
            .then(self.century.cmp(&other.century))
            .then(self.quadrennium.cmp(&other.quadrennium))
            .then(self.year.cmp(&other.year))
            .then(self.day.cmp(&other.day))
""", """        let key = |d: &Self| (d.cycle, d.century, d.quadrennium, d.year, d.day);
        key(self).cmp(&key(other))
"""))

r("gnd-cmp-day", GND, "G02 D05",
  ("""        self.cycle
            .cmp(&other.cycle)
            .then(self.century.cmp(&other.century))
            .then(self.quadrennium.cmp(&other.quadrennium))
            .then(self.year.cmp(&other.year))
            .then(self.day.cmp(&other.day))
""", """        self.to_day().cmp(&other.to_day())
"""))

r("gnd-cmp-derive", GND, "G02 D05",
  ("""#[derive(Debug, Clone, PartialEq, Eq)]
pub(crate) struct GregorianNormalizedDate {""", """#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub(crate) struct GregorianNormalizedDate {"""),
  ("""impl PartialOrd for GregorianNormalizedDate {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for GregorianNormalizedDate {
    fn cmp(&self, other: &Self) -> Ordering {
        self.cycle
            .cmp(&other.cycle)
            .then(self.century.cmp(&other.century))
            .then(self.quadrennium.cmp(&other.quadrennium))
            .then(self.year.cmp(&other.year))
            .then(self.day.cmp(&other.day))
    }
}
""", ""), ("use std::cmp::Ordering;\n", ""))

r("builder-any", BLD, "D03 D04 D15",
  ("""        if second >= minute_length
            || millisecond >= 1000
            || microsecond >= 1000
            || nanosecond >= 1000
        {
            return Err(Error::InvalidDateTime);
        }
""", """        let parts = [millisecond, microsecond, nanosecond];
        if second >= minute_length || parts.iter().any(|&part| part >= 1000) {
            return Err(Error::InvalidDateTime);
        }
"""))

r("builder-fold", BLD, "D03 D15 D02",
  ("""        let second = hour as u32 * 3600 + minute as u32 * 60 + second as u32;
        let nanosecond =
            millisecond as u32 * 1_000_000 + microsecond as u32 * 1_000 + nanosecond as u32;
""", """        let second = [hour, minute, second].iter().fold(0, |t, &x| t * 60 + u32::from(x));
        let nanosecond = [millisecond, microsecond, nanosecond]
            .into_iter()
            .map(u32::from)
            .fold(0, |t, x| t * 1000 + x);
"""))

r("builder-validate-fn", BLD, "D03 D04 D15 D12",
  ("""        if hour >= 24 || minute >= 60 {
            return Err(Error::InvalidDateTime);
        }

        let minute_length = if hour != 23 || minute != 59 {
            60
        } else {
            let leap_seconds = chronology.leap_seconds();
            let fixed_day = gnd.to_day();
            if let SegmentLookupResult::In(segment) = leap_seconds.by_day(fixed_day) {
                let day_in_segment = fixed_day as u32 - segment.start_day;
                let last_day = day_in_segment == segment.duration_days - 1;
                if !last_day {
                    60
                } else {
                    (60 + segment.leap_seconds) as u8
                }
            } else {
                60
            }
        };
""", """        fn minute_length(chronology: &Chronology, day: i32) -> u8 {
            match chronology.leap_seconds().by_day(day) {
                SegmentLookupResult::In(s) if s.end_day() == day as u32 + 1 => {
                    60u8.wrapping_add_signed(s.leap_seconds)
                }
                _ => 60,
            }
        }
        let minute_length = match (hour, minute) {
            (23, 59) => minute_length(&chronology, gnd.to_day()),
            (0..=23, 0..=59) => 60,
            _ => return Err(Error::InvalidDateTime),
        };
"""))

r("adjust-floor", ZI, "L03 S01",
  ("""    let day = unix_timestamp
        .div_euclid(86_400)
        .clamp(i32::MIN as i64, i32::MAX as i64) as i32;
""", """    let mut day = unix_timestamp / 86_400;
    if unix_timestamp % 86_400 < 0 {
        day -= 1;
    }
    let day = day.max(i32::MIN.into()).min(i32::MAX.into()) as i32;
"""))

r("time-t-err", INS, "S01",
  ("""    let sign = value < SystemTime::UNIX_EPOCH;
    let duration = if sign {
        SystemTime::UNIX_EPOCH.duration_since(value)
    } else {
        value.duration_since(SystemTime::UNIX_EPOCH)
    }
    .unwrap();
""", """    let (sign, duration) = match value.duration_since(SystemTime::UNIX_EPOCH) {
        Ok(after) => (false, after),
        Err(before) => (true, before.duration()),
    };
"""))

r("floor-split", INS, "I02",
  ("""        let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
        Instant::from_ticks_since_epoch(self.ticks.div_floor(&factor))
""", """        self.split::<S2>().0
"""))

r("checked-add-match", INS, "I03 D05 D04",
  ("""        Some(Self::from_ticks_since_epoch(
            self.ticks.checked_add(&rhs.ticks())?,
        ))
""", """        match self.ticks.checked_add(&rhs.ticks()) {
            Some(ticks) => Some(Instant { ticks, ..*self }),
            None => None,
        }
"""))

r("div-rem-shared", DU, "I05",
  ("""        let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());
        let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());
        let quotient = (t1 / t2).floor();
        let remainder = t1 - t2 * quotient;
""", """        let seconds = |ticks: T, scale: u32| Ratio::new(ticks, T::from(scale).unwrap());
        let (t1, t2) = (seconds(self.ticks, S::TICKS_PER_SECOND), seconds(other.ticks, S2::TICKS_PER_SECOND));
        let quotient = (t1 / t2).floor();
        let remainder = t1 - quotient * t2;
"""))

r("cursor-get", SC, "K01",
  ("""        if self.pos > 0 && self.pos <= self.slice.len() {
            Some(&self.slice[self.pos - 1])
        } else {
            None
        }
""", """        self.pos.checked_sub(1).and_then(|i| self.slice.get(i))
"""),
  ("""        if self.pos < self.slice.len() {
            Some(&self.slice[self.pos])
        } else {
            None
        }
""", """        self.slice.get(self.pos)
"""),
  ("""        let end = self.slice.len() + 1;
        if self.pos < end {
            self.pos += 1;
            if self.pos < end {
                Some(&self.slice[self.pos - 1])
            } else {
                None
            }
        } else {
            None
        }
""", """        self.pos = min(self.pos + 1, self.slice.len() + 1);
        self.current()
"""))

r("pack-bytes", DT, "D01 D02 D11 D14",
  ("""        let w1 = (nanosecond & 0xFFFF) as u16;
        (w0, w1)
""", """        let [_, _, high, low] = nanosecond.to_be_bytes();
        (w0, u16::from_be_bytes([high, low]))
"""))

r("accessor-helper", DT, "D02 D13",
  ("""    pub fn month(&self) -> u8 {
        let (_, gnd, _, _) = Self::unpack0(self.w0);
        gnd.unnormalized_month()
    }

    pub fn day(&self) -> u8 {
        let (_, gnd, _, _) = Self::unpack0(self.w0);
        gnd.unnormalized_day()
    }
""", """    fn gnd(&self) -> GregorianNormalizedDate {
        Self::unpack0(self.w0).1
    }

    pub fn month(&self) -> u8 {
        self.gnd().to_date().1
    }

    pub fn day(&self) -> u8 {
        let (_, _, day) = self.gnd().to_date();
        day
    }
"""))

r("time-clamped", DT, "D02",
  ("""        let hour = (second / SECONDS_PER_HOUR as u32) as u8;
        min(hour, HOURS_PER_DAY - 1)
""", """        let (hour, _) = second.clamped_div_rem(SECONDS_PER_HOUR as u32, HOURS_PER_DAY - 1);
        min(hour, 23)
"""),
  ("""        let boundary = SECONDS_PER_DAY - SECONDS_PER_MINUTE as u32;
        if second < boundary {
            (second % SECONDS_PER_MINUTE as u32) as u8
        } else {
            (second - boundary) as u8
        }
""", """        let (_, second) = second.clamped_div_rem(SECONDS_PER_MINUTE as u32, MINUTES_PER_DAY - 1);
        second as u8
"""))

r("unwrap-assert", DT, "D12",
  ("""        if !self.has_carry() {
            self.drop_carry()
        } else {
            panic!("Trying to unwrap DateTimeWithCarry that has a carry")
        }
""", """        let DateTimeWithCarry(date_time, carry) = self;
        assert!(carry.is_zero(), "Trying to unwrap DateTimeWithCarry that has a carry");
        date_time
"""))

r("carry-early", DT, "D16 D12 D04 D11",
  ("""        let carry = self.1.clone();
        let DateTimeWithCarry(result, carry2) = self.0.add_days(carry.days as i32);
        assert_eq!(carry2.days, 0);
        result.checked_add_seconds((carry.seconds + carry2.seconds) as i64)
""", """        let DateTimeWithCarry(date_time, carry) = self;
        if !self.has_carry() {
            return Some(date_time.clone());
        }
        let moved = date_time.checked_add_days(carry.days as i32).expect("a day to move to");
        let seconds = carry.seconds + moved.seconds_carry();
        moved.drop_carry().checked_add_seconds(seconds as i64)
"""))

r("month-lengths", GND, "D03 D07 G01 G03",
  ("""        let total_days_in_month = if month == 11 {
            if is_leap_year(self.century, self.quadrennium, self.year) {
                29
            } else {
                28
            }
        } else {
            (year_day_from_month(month + 1) - year_day_from_month(month)) as u8
        };

        let carry = if""", """        const LENGTHS: [u8; 12] = [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 28];
        let mut total_days_in_month = LENGTHS[usize::from(month)];
        if month == 11 && is_leap_year(self.century, self.quadrennium, self.year) {
            total_days_in_month += 1;
        }

        let carry = if"""))

r("decompose-min", GND, "G01 D06 D05",
  ("""    let (century, days_into_century) = days.clamped_div_rem(GREGORIAN_CENTURY_DAYS as u32, 3_u8);
    let days_into_century = days_into_century as u16; // 2^16 days per century
""", """    let mut century = 0u8;
    let mut days_left = days;
    while century < 3 && days_left >= u32::from(GREGORIAN_CENTURY_DAYS) {
        days_left -= u32::from(GREGORIAN_CENTURY_DAYS);
        century += 1;
    }
    let days_into_century = days_left as u16;
"""),
  ("""    let (years_into_quadrennium, days_into_year) =
        days_into_quadrennium.clamped_div_rem(GREGORIAN_YEAR_DAYS, 3_u8);
""", """    let years_into_quadrennium = (days_into_quadrennium / GREGORIAN_YEAR_DAYS).min(3);
    let days_into_year = days_into_quadrennium - years_into_quadrennium * GREGORIAN_YEAR_DAYS;
    let years_into_quadrennium = years_into_quadrennium as u8;
"""))

r("from-day-euclid", GND, "G01 D09",
  ("""        let (cycle, days_into_cycle) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
        let (century, quadrennium, year, day) = decompose_day_of_cycle(days_into_cycle as u32);

        Some(GregorianNormalizedDate {
            cycle: cycle as i8,
            century,
            quadrennium,
            year,
            day,
        })
""", """        let cycle = i8::try_from(day.div_euclid(GREGORIAN_CYCLE_DAYS as i32)).ok()?;
        let days_into_cycle = day.rem_euclid(GREGORIAN_CYCLE_DAYS as i32).unsigned_abs();
        let (century, quadrennium, year, day) = decompose_day_of_cycle(days_into_cycle);
        Some(Self::new(cycle, century, quadrennium, year, day))
"""))

r("to-day-years", GND, "G01 G02 D06 D09",
  ("""        cycle * GREGORIAN_CYCLE_DAYS as i32
            + century * GREGORIAN_CENTURY_DAYS as i32
            + quadrennium * GREGORIAN_QUADRENNIUM_DAYS as i32
            + year * GREGORIAN_YEAR_DAYS as i32
            + day
            + GREGORIAN_NORMALIZED_DATE_OFFSET_DAYS as i32
""", """        let years = 100 * century + 4 * quadrennium + year;
        let leap_days = years / 4 - years / 100;
        cycle * GREGORIAN_CYCLE_DAYS as i32 + 365 * years + leap_days + day + 11017
"""))

r("coarsen-mul", INS, "I01",
  ("""            let (quotient, remainder) = ticks.div_mod_floor(&factor);
            (quotient, remainder.is_zero())
        }
        None => {""", """            let quotient = ticks.div_floor(&factor);
            (quotient, ticks.mod_floor(&factor) == T::zero())
        }
        None => {"""))

r("years-precheck", DT, "D04 D05 D07",
  ("""        // No two years in the range are further apart than this.
        if years.unsigned_abs() > MAX_YEAR - MIN_YEAR {
            return None;
        }
""", """        let target = i32::from(self.year()) + i32::from(years);
        if !(i32::from(MIN_YEAR)..=i32::from(MAX_YEAR)).contains(&target) {
            return None;
        }
"""))

r("chronology-ne", "src/iso8601/chronology.rs", "D14 T01",
  ("""        Arc::ptr_eq(&self.pimpl, &other.pimpl) || self.pimpl == other.pimpl
""", """        let (a, b): (&SharedChronology, &SharedChronology) = (&self.pimpl, &other.pimpl);
        std::ptr::eq(a, b) || *a == *b
"""))

r("chronology-new", "src/iso8601/chronology.rs", "D14 L01 D13",
  ("""    let leap_smearing = false;
    let leap_seconds = load_leap_segments();
    Chronology {
        pimpl: Arc::new(SharedChronology {
            tz_data,
            leap_second_smearing: leap_smearing,
            leap_seconds: LeapSecondChronology(leap_seconds),
        }),
    }
""", """    Chronology::new(SharedChronology {
        leap_seconds: LeapSecondChronology(load_leap_segments()),
        leap_second_smearing: false,
        tz_data,
    })
"""))

r("build-unwrap", BLD, "D12 D03",
  ("""        match self.checked_build() {
            Ok(dt) => dt,
            Err(e) => panic!("{:?}", e),
        }
""", """        self.checked_build().unwrap_or_else(|e| panic!("{e:?}"))
"""))

r("add-unwrap-or-else", DT, "D12",
  ("""        self.checked_add_minutes(minutes)
            .expect("adding minutes to a DateTime resulted in an out-of-bounds value")
""", """        match self.checked_add_minutes(minutes) {
            Some(moved) => moved,
            None => panic!("adding {} minutes to {:?} leaves the range", minutes, self),
        }
"""),
  ("""        self.checked_add_days(days)
            .expect("adding days to a DateTime resulted in an out-of-bounds value")
""", """        let Some(moved) = self.checked_add_days(days) else {
            unreachable!("out of range")
        };
        moved
"""))

r("ops-by-macro", DT, "D12 D05 D06",
  ("""    pub fn add_years(&self, years: i16) -> DateTimeWithCarry {
        self.checked_add_years(years)
            .expect("adding years to a DateTime resulted in an out-of-bounds value")
    }
""", """    fn in_bounds<T>(value: Option<T>, unit: &str) -> T {
        value.unwrap_or_else(|| panic!("adding {unit} to a DateTime resulted in an out-of-bounds value"))
    }

    pub fn add_years(&self, years: i16) -> DateTimeWithCarry {
        Self::in_bounds(self.checked_add_years(years), "years")
    }
"""))

if __name__ == "__main__":
    main()
