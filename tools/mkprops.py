#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

DT = "src/iso8601/date_time.rs"; BL = "src/iso8601/date_time_builder.rs"; GN = "src/gregorian_normalized_date.rs"
ZI = "src/zoneinfo.rs"; IN = "src/instant.rs"; DU = "src/duration.rs"; CH = "src/iso8601/chronology.rs"
SC = "src/slice_cursor.rs"; DR = "src/div_rem.rs"; WI = "src/widen.rs"; LC = "src/least_common_width.rs"; UT = "src/iso8601/util.rs"

p("D01", "Date-time components survive packed storage unchanged",
  "Every component a date-time is made of (calendar date, second of day including leap seconds, nanosecond of second, precision) is recovered exactly from its compact stored form, and no two date-times with different components share a stored form. Components never overwrite each other in the stored words.",
  ["inputs"], "all dates 0000-01-01..9999-12-31, all seconds of day including leap seconds, all nanoseconds, all precisions, in every combination",
  "Tests only store whole seconds on a few dates and never look at the sub-second part or precision; the value space is about 2^80.",
  [DT], [("pack/unpack", DT + " DateTime::pack, pack0, unpack, unpack0"), ("precision codes", DT + " encode_precision/decode_precision")],
  ["DateTime equality", "Debug output of DateTime", "DateTime accessors"],
  [{"name": "w0,w1", "meaning": "packed words", "where": DT + " struct DateTime"}])
p("D02", "Reading back a built date-time returns the components that were set",
  "Building a date-time from a valid year, month, day, hour, minute and second and then reading year, month, day, hour, minute and second returns exactly those values, including second 60 of a leap second.",
  ["inputs", "configurations"], "every valid component combination over years 0..9999 and every leap-second table",
  "Tests read back a few dozen hand-picked date-times.",
  [BL, DT, GN], [("component validation and normalisation", BL + " checked_build; " + GN + " from_date"), ("accessors", DT + " year, month, day, hour, minute, second")],
  ["DateTimeBuilder::build/checked_build then DateTime accessors"])
p("D03", "The builder accepts exactly the date-times that exist",
  "Given all components up to some precision, building succeeds if and only if the year is 0..9999, the month and day exist in the Gregorian calendar, the time of day exists on that day (second 60 only where the leap-second table has one, no second removed by a negative leap second), and each sub-second part is below 1000. Otherwise it returns an error, with out-of-range years reported as out of bounds and everything else as invalid; components finer than the chosen precision default to the start of the period, so a date-time given only to the year or month is buildable.",
  ["inputs", "configurations"], "all values of every builder field at every precision, every leap-second table",
  "Tests try about a dozen invalid values, always at second precision or finer, never day 0 or month/year precision.",
  [BL, GN], [("range checks", BL + " checked_build"), ("date validation", GN + " from_date"), ("error mapping", BL + " From<gregorian Error>")],
  ["DateTimeBuilder::checked_build"])
p("D04", "Checked date-time operations never panic",
  "The checked variants of adding years, months, days, hours, minutes and seconds, checked application of a carry, and checked building once all components up to the precision are set, return normally for every date-time and every amount, including the extreme values of the argument type. Failure is only ever reported through the return value.",
  ["inputs", "configurations"], "every valid date-time, every argument value of the parameter type, overflow checks on",
  "Tests pass at most one extreme amount to a few of the operations; a panic hides in any unvisited corner of the 2^64 argument range.",
  [DT, GN, BL], [("overflow guards", DT + " checked_add_*; " + GN + " add_days, add_months, add_years, from_date")],
  ["DateTime::checked_add_*", "DateTimeWithCarry::checked_apply_carry", "DateTimeBuilder::checked_build"])
p("D05", "Out-of-range date-time arithmetic is reported, never wrapped",
  "A checked addition of years, months, days, hours, minutes or seconds yields a date-time exactly when the target lies between 0000-01-01 and 9999-12-31 inclusive, and reports failure otherwise. No amount, however large, wraps around to a date inside the range.",
  ["inputs"], "every valid date-time and every amount of the parameter type",
  "Tests step over the boundary by one unit, and by one very large amount; integer truncation appears only for particular multiples (2^8 cycles, 2^16 years, 2^32 days).",
  [DT, GN], [("range check", DT + " is_in_range, MIN_GND, MAX_GND, MIN_FIXED_DAY, MAX_FIXED_DAY"), ("narrowing conversions", GN + " add_days, add_years_no_carry, add_months")],
  ["DateTime::checked_add_*"])
p("D06", "Adding days moves by exactly that many calendar days",
  "Adding n days to a date-time gives the date exactly n days later (earlier if negative) in the proleptic Gregorian calendar, keeping the second of day except where that second does not exist on the target day.",
  ["inputs"], "every valid date-time and every day count whose target is in range",
  "Tests check about fifteen (date, n) pairs out of 10^13.",
  [DT, GN], [("day arithmetic", GN + " add_days, decompose_day_of_cycle; " + DT + " checked_add_days")], ["DateTime::add_days/checked_add_days"])
p("D07", "Adding months and years lands on the right month and accounts for lost days",
  "Adding n months (or years) gives the date in the month exactly n months (12n months) away, with the same day of month, or the last day of that month if it is shorter. The reported day carry is exactly the number of days that clamping removed.",
  ["inputs"], "every valid date-time and every month or year count whose target is in range",
  "Tests check about twenty (date, n) pairs; month-length and leap-year cases interact with century and 400-year boundaries.",
  [DT, GN], [("month arithmetic", GN + " add_months, add_years, add_years_no_carry, is_leap_year; " + DT + " checked_add_months, checked_add_years")], ["DateTime::add_months/add_years and days_carry"])
p("D08", "Adding hours and minutes moves by exactly that many clock minutes",
  "Adding n minutes (an hour being 60) moves the calendar clock by exactly n minutes, every day having 1440 minutes, and keeps the second of minute except where that second does not exist in the target minute.",
  ["inputs"], "every valid date-time including leap seconds and every minute or hour count whose target is in range",
  "Tests check about twenty pairs; one leap second.",
  [DT], [("minute arithmetic", DT + " checked_add_minutes, checked_add_hours")], ["DateTime::add_hours/add_minutes"])
p("D09", "Adding seconds measures elapsed time across leap seconds",
  "Adding n seconds gives the date-time that is exactly n SI seconds later or earlier, counting every inserted or removed leap second of the leap-second table and treating days outside the table as 86400 seconds. Consequently adding n and then -n returns the original date-time.",
  ["inputs", "configurations"], "every valid date-time, every second count whose target is in range, every leap-second table",
  "Tests cross two leap seconds and the two ends of the range.",
  [DT, ZI, GN], [("instant conversion", DT + " to_second_instant, from_second_instant, checked_add_seconds")], ["DateTime::add_seconds/checked_add_seconds"])
p("D10", "Arithmetic never yields a second that does not exist; the carry makes up for it",
  "The result of adding years, months, days, hours or minutes always names a time that exists on the resulting day according to the leap-second table. When the original second does not exist there, the result is the last existing second (of that minute or day) and the reported seconds carry is exactly the difference; otherwise the seconds carry is zero.",
  ["inputs", "configurations"], "every valid date-time (in particular leap seconds), every amount, every leap-second table",
  "Tests add to a leap second only with hours and minutes, and only onto an ordinary minute.",
  [DT], [("end-of-day clamping", DT + " spill_eod_second_overflow, checked_add_minutes")], ["DateTimeWithCarry::seconds_carry, drop_carry"])
p("D11", "Arithmetic leaves precision, sub-second part and chronology untouched",
  "Every date-time produced by adding years, months, days, hours, minutes or seconds, or by applying or dropping a carry, has the same precision, the same nanosecond of second and the same chronology as the date-time it was computed from.",
  ["inputs", "histories"], "every date-time, every operation and amount, every chain of operations",
  "No test inspects precision, sub-second part or chronology after an operation.",
  [DT], [("result construction", DT + " checked_add_*, checked_apply_carry")], ["DateTime Debug output and equality after DateTime::checked_add_*"])
p("D12", "Panicking and checked variants agree",
  "Each panicking operation (adding years, months, days, hours, minutes, seconds, applying a carry, building) returns exactly what its checked counterpart returns when that succeeds, and panics exactly when it fails. Unwrapping a result with carry succeeds exactly when the carry is zero.",
  ["inputs"], "every input of every such pair",
  "Tests exercise either one of the two variants for a given input, never both.",
  [DT, BL], [("delegation", DT + " add_*, apply_carry, unwrap; " + BL + " build")], ["DateTime::add_* vs checked_add_*", "DateTimeWithCarry::apply_carry/unwrap", "DateTimeBuilder::build"])
p("D13", "Date-time operations are pure functions of their arguments",
  "Reading components of, comparing, or doing arithmetic on date-times, instants and durations never reads the clock, the environment, files or any other global state, and never modifies the operands; only loading a chronology, building without an explicit chronology, and converting system time may touch the outside world.",
  ["histories", "schedules"], "every operation, every call history, every interleaving of threads",
  "Tests run in one environment and cannot observe absence of effects.",
  [DT, GN, IN, DU, CH, ZI, BL], [("chronology is captured at build time", CH + " Chronology, load_chronology")], ["all public methods of DateTime, DateTimeWithCarry, Instant, Duration"])
p("D14", "Equal components and equal time zone make equal date-times",
  "Two date-times compare equal if and only if they have the same date, second, nanosecond and precision and use the same chronology, that is the same zone data and the same leap-second table; building the same components twice for the same time zone yields equal date-times.",
  ["inputs", "histories"], "every pair of date-times, however and whenever their chronologies were loaded",
  "No test compares two date-times.",
  [DT, CH], [("equality", DT + " derive(PartialEq); " + CH + " PartialEq for Chronology")], ["DateTime ==", "Chronology =="])
p("D15", "Each builder setting takes effect, whatever the order of calls",
  "Every component set on the builder ends up in the built date-time and the last value set for a component wins, independently of the order in which different components are set. The precision of the result is the finest unit that was set. A new builder, however it is made, has nothing set.",
  ["inputs", "histories"], "every sequence of builder calls",
  "Tests always set components from coarse to fine, once, and never read precision.",
  [BL], [("setters", BL + " DateTimeBuilder setters, opt_max"), ("assembly", BL + " checked_build")], ["DateTimeBuilder setters then build"])
p("D16", "Applying a carry moves by exactly the carried amount",
  "Applying the carry of a date-time with carry yields the date-time that lies exactly the carried days and then the carried seconds after it (days as calendar days keeping a second that exists, seconds as elapsed time across leap seconds), or reports failure when that is past 9999-12-31. A zero carry leaves the date-time unchanged.",
  ["inputs", "histories"], "every date-time with carry that date-time arithmetic can produce, every leap-second table",
  "Tests apply a carry for one leap day and one leap second.",
  [DT], [("carry application", DT + " DateTimeWithCarry::checked_apply_carry")], ["DateTimeWithCarry::checked_apply_carry, apply_carry"])
p("G01", "Day numbers and Gregorian dates convert to each other without error",
  "Converting a day number to a calendar date and back, or a calendar date to a day number and back, returns the original over the whole supported range, day numbers count proleptic Gregorian days from 1970-01-01, and day numbers or dates outside the supported range are reported rather than misconverted.",
  ["inputs"], "all 37 million supported day numbers and all valid (year, month, day)",
  "Tests convert five dates.",
  [GN], [("conversion", GN + " from_day, to_day, from_date, decompose_day_of_cycle, unnormalized_year/month/day")], ["calendar date of any DateTime and its distance in days"])
p("G02", "Dates are ordered chronologically",
  "Comparing two calendar dates gives exactly the order of their day numbers, and two dates are equal exactly when they are the same day.",
  ["inputs"], "every pair of supported dates",
  "No test compares dates directly; the range check of arithmetic depends on it.",
  [GN], [("lexicographic order", GN + " Ord/PartialOrd for GregorianNormalizedDate")], ["range checks of DateTime arithmetic"])
p("G03", "Leap years and month lengths follow the Gregorian rule everywhere",
  "Every place that decides whether a year is a leap year or how long a month is follows the Gregorian rule: divisible by 4 but not by 100 unless by 400, months of 31, 28 or 29, 31, 30, ... days, for every year including negative ones where these are representable.",
  ["inputs"], "all representable years and months",
  "Tests check fourteen dates for one of the implementations, and the others only indirectly.",
  [GN, UT], [("leap rule", GN + " is_leap_year, is_unnormalized_leap_year, year_length, month_day_from_year_day; " + UT + " is_leap_year, days_in_month")], ["calendar arithmetic", "days_in_month"])
p("L01", "The leap-second table tiles time without gaps or overlaps",
  "Loading a leap-second table produces one segment per table entry, starting at the Unix epoch with no accumulated leap seconds; each segment starts on the day, at the instant and with the leap-second total at which its predecessor ends, where a segment lasts its number of 86400-second days plus the leap seconds applied at its end, and ends on the day of its table entry. A table whose total changes by more than a segment can record is refused rather than loaded with other leap seconds.",
  ["configurations"], "every leap-second table with entries in increasing order",
  "Tests run with the one table installed on the machine.",
  [ZI], [("segment construction", ZI + " load_leap_segments, ContinuousTimeSegment::end_day, end_instant")], ["leap-second chronology used by DateTime"])
p("L02", "Leap-second lookup finds the segment that contains the day or instant",
  "Looking up a day or an instant in the leap-second table returns the one segment containing it, or reports that it lies before the first or after the last segment, in which case it names that segment. Boundaries belong to the later segment.",
  ["inputs", "configurations"], "every day, every instant of every scale and every integer width able to hold the scale's ticks per second, every non-empty leap-second table",
  "Tests look up a handful of days in one table.",
  [ZI], [("binary search", ZI + " lookup_leap_second_segment_by_day, lookup_leap_second_segment_by_instant")], ["DateTime arithmetic near leap seconds"])
p("L03", "A Unix time's leap-second adjustment counts every leap second before it",
  "The adjustment added to a Unix timestamp is the total number of leap seconds inserted before that time: zero before the first, and after the last table entry the total including that entry, for every 64-bit timestamp. It agrees with the instant that date-time arithmetic assigns to the same day. It does not depend on which times were asked for before or are asked for by other threads.",
  ["inputs", "configurations", "histories", "schedules"], "every 64-bit Unix timestamp and every leap-second table",
  "The one test converts the current time twice and only checks that time does not go backwards.",
  [ZI, IN], [("adjustment", ZI + " get_leap_second_adjustment_for_unix_timestamp")], ["Instant::try_from(SystemTime)"])
p("S01", "System time converts to the right instant or to an error",
  "Converting a system time to an instant gives its time since the Unix epoch, including the sub-second part for times before as well as after the epoch and rounded down to the instant's scale, plus the leap seconds the system clock leaves out. If the result, an intermediate value or the scale's ticks per second does not fit the instant's integer type, an error is returned; the conversion never panics or wraps.",
  ["inputs"], "every system time, every integer width and scale of the instant",
  "The one test converts the current time to 128-bit nanoseconds.",
  [IN, ZI], [("conversion", IN + " TryFrom<SystemTime> for Instant, system_time_to_time_t")], ["Instant::try_from(SystemTime)"])
p("I01", "Instants compare by the moment they denote, in every width and scale",
  "Comparing two instants for equality or order, whatever their integer widths and scales, gives the comparison of the moments they denote. It never overflows, including for the smallest and largest representable instants, and equality and ordering agree.",
  ["inputs"], "all tick values of every integer width, all pairs of scales of which one divides the other (all provided scales do)",
  "One test compares two current times of the same type.",
  [IN], [("cross-scale comparison", IN + " PartialEq/PartialOrd for Instant")], ["Instant ==, <, partial_cmp"])
p("I02", "Scale conversion rounds down, splits exactly, and refines exactly or fails",
  "Coarsening an instant or a duration gives the largest tick of the coarser scale that is not later (also for negative values); splitting gives that tick and the non-negative remainder, which together make up the original; refining to a finer scale keeps the value exactly and reports failure, without panicking, when it or the ticks per second of a scale involved does not fit.",
  ["inputs"], "all tick values and scale pairs; refining: every integer width; coarsening and splitting: every integer width that can hold the ticks per second of the scales involved (asking to coarsen to a finer scale is a caller error and may panic)",
  "No test converts scales.",
  [IN, DU], [("scale conversion", IN + " floor, split, extend; " + DU + " floor, extend")], ["Instant::floor/split/extend", "Duration::floor/extend"])
p("I03", "Arithmetic on instants and durations never wraps silently",
  "Adding, subtracting or multiplying instants and durations yields the exact mathematical result, or, when it is not representable, fails visibly (failure value from checked operations, panic from operators) in every build profile.",
  ["inputs", "configurations"], "all tick values of all widths, debug and release builds",
  "No test does arithmetic on instants or durations near their limits, and tests run in one profile.",
  [IN, DU], [("checked arithmetic", IN + " checked_add, Add, Sub; " + DU + " Add, Sub, Mul")], ["Instant + Duration", "Instant - Instant", "Duration +,-,*"])
p("I04", "Width conversions of ticks keep the value or report failure",
  "Converting an instant or duration to another integer width keeps the number of ticks exactly; conversions that can fail report failure exactly when the value does not fit, and the ones that cannot fail are only offered where every value fits. Common-width promotion keeps both values.",
  ["inputs", "programs"], "every pair of integer types for which a conversion is offered, every value",
  "No test converts widths; about 130 conversion instances are generated by macros.",
  [WI, LC, IN, DU], [("widening tables", WI + " macro widen!, widen_noop!; " + LC + " impl_least_common_width!"), ("conversions", IN + " into, try_into, try_from, widen; " + DU + " same")], ["Instant::widen/into/try_into/try_from", "Duration::widen/into/try_into/try_from"])
p("I05", "Duration division reconstructs the dividend",
  "Dividing one duration by another, rounding down or up, gives the correctly rounded integer quotient, and the remainder is the exact difference between the dividend and quotient times divisor whenever it is representable in the dividend's scale (for rounding up, the amount to subtract).",
  ["inputs"], "all tick values, all scale pairs and all widths able to hold their ticks per second, non-zero divisors; intermediate values must not overflow either",
  "No test divides durations.",
  [DU], [("rational arithmetic", DU + " div_rem_floor, div_rem_ceil")], ["Duration::div_rem_floor/div_rem_ceil"])
p("U01", "Rounding-division helpers satisfy quotient-remainder identities",
  "Each integer helper that divides with a chosen rounding returns a quotient and remainder (or the remainder alone) that reconstruct its dividend exactly, the remainder being on the side its rounding mode promises (floored: sign of the divisor; ceiled: opposite sign; clamped: quotient capped at the limit) and smaller than the divisor unless the quotient was capped.",
  ["inputs"], "all dividends, non-zero divisors and multipliers for which the product, quotient and remainder are representable (intermediate values must not overflow either); ceiling helpers on signed types, clamped division on non-negative dividends and positive divisors (what the crate uses)",
  "The helpers have no tests of their own (the source says so).",
  [DR], [("helpers", DR + " RemFloor, DivRemCeil, MulDivRemFloor, MulDivRemCeil, ClampedDivRem")], ["crate-internal arithmetic"])
p("K01", "Slice cursors stay on the slice and agree on where they are",
  "From any reachable position, every cursor operation returns without panicking (except explicitly positioning outside the slice, which is rejected) and leaves the cursor at the start marker, on an element, or at the end marker. Stepping moves by exactly one position and returns the element there; peeking and reading return the neighbouring or current element without moving; advancing or reverting by n moves like n single steps and reports how many steps found no element. A slice too long for its cursor to have an end position is refused when the cursor is made.",
  ["inputs", "histories"], "every slice length including zero, every position, every n, every sequence of operations",
  "Tests walk one 3-element and one empty slice and never call advance or revert from the far end.",
  [SC, "src/cursor.rs"], [("cursor", SC + " SliceCursor")], ["Cursor / CursorWithPosition methods"],
  [{"name": "pos", "meaning": "0 = start marker, 1..=len elements, len+1 = end marker", "where": SC + " struct SliceCursor"}])
p("T01", "Date-times, chronologies, instants and durations can be shared across threads",
  "All public value types can be sent to and shared between threads and contain no interior mutability, so no operation on a shared value can change what another thread observes.",
  ["schedules"], "every interleaving of operations on shared values",
  "No test uses more than one thread.",
  [CH, DT, IN, DU], [("immutable shared state", CH + " Arc<SharedChronology>")], ["Send/Sync of public types"])
p("T02", "Foreign calls are confined and handed valid memory",
  "The library performs no unchecked memory access: the only unsafe operations are the C library's broken-down-time conversion and making the buffers handed to it. These buffers are live, distinct and of the right type for the duration of the call, and the input is initialised. Memory that the call did not fill in is never read uninitialised, and no pointer written by it is dereferenced.",
  ["inputs", "programs"], "every execution path of the crate",
  "Tests cannot show absence of undefined behaviour on unexecuted paths.",
  [IN], [("FFI call", IN + " system_time_includes_leap_seconds")], ["memory safety of the whole crate"])
p("I06", "Instants and durations hold exactly the ticks they were made from",
  "An instant or duration gives back exactly the ticks it was made from, also after cloning, and the duration since the epoch has as many ticks as the instant. The smallest and largest instant are those of the integer type and the epoch is tick zero; durations compare, equal or ordered, exactly as their ticks do.",
  ["inputs"], "all tick values of every integer width and every scale",
  "No test compares durations or looks at the limits; a lossy comparison or conversion shows only for widths and values that no test uses.",
  [IN, DU], [("values", IN + " min_value, max_value, from_ticks_since_epoch, epoch, duration_since_epoch, ticks_since_epoch"), ("order", DU + " derived PartialEq/PartialOrd/Ord")],
  ["Instant and Duration constructors, accessors, comparison and Clone"])
p("Z01", "A chronology is made from the files of the zone asked for",
  "Loading a chronology takes the zone's data from the file right/<zone> below the zoneinfo directory (TZDIR, if set, else /usr/share/zoneinfo) and its leap seconds from that directory's right/ files, and succeeds when these can be read and parsed. It reports failure, never other data, when one of them cannot. A builder that was given no chronology uses UTC's. All this holds whatever was loaded before and whatever other threads load at the same time. Zone names are relative paths.",
  ["inputs", "configurations", "histories", "schedules"], "every outcome of reading and parsing each file, TZDIR set or not, and a representative set of zone names",
  "Tests load UTC from the installed directory and never fail to.",
  [CH, ZI, BL], [("zone loading", CH + " load_chronology; " + ZI + " load_tzfile, load_leap_segments"), ("default zone", BL + " checked_build")],
  ["load_chronology", "DateTimeBuilder without chronology"])
p("S02", "The leap-second-aware clock test uses the correct civil-time formula",
  "Whether the system clock already counts leap seconds is decided by comparing its seconds since the epoch with the Unix time of its own broken-down UTC date, where that Unix time is 86400 times the days since 1970-01-01 plus the seconds of day for every date.",
  ["inputs", "configurations"], "every broken-down date the C library can return from the start of the Julian day count (year -4712) to year 5,000,000",
  "Two julian-day values are tested; the comparison depends on the wall clock.",
  [IN], [("formula", IN + " julian_day, utc_to_unix_time, system_time_includes_leap_seconds")], ["Instant::try_from(SystemTime)"])
p("F01", "Debug texts say what a value holds",
  "The {:?} text of a date-time, with or without a carry, gives its precision by name and each field of its normalized date (cycle, century, quadrennium, year, day), its second of the day and its nanosecond, each once, after its name and with the value it has; a carry's days and seconds and the ticks of an instant or duration are given in the same way. So two values that hold different components never have the same text. The texts of the library's errors tell an invalid date-time from one out of bounds.",
  ["inputs"], "every stored combination of components, precision, carry and ticks, in every width and scale",
  "No test formats a value; a field left out or swapped shows only in a text that somebody reads.",
  [DT, BL, IN, DU, GN], [("date-time", DT + " impl Debug for DateTime, derived Debug of Carry and DateTimeWithCarry"), ("ticks", IN + ", " + DU + " derived Debug"), ("errors", BL + ", " + GN + " impl Debug for Error")],
  ["Debug for DateTime, DateTimeWithCarry, Instant, Duration and the errors"])

p("C01", "Copies hold what the original holds",
  "A clone of a date-time, with or without a carry, of a chronology, an instant or a duration has the same components, precision, carry, chronology or ticks as the original and is equal to it, however it is made (clone, or clone_from over a value that held something else).",
  ["inputs"], "every value of these types, in every width and scale",
  "Tests clone only in passing and never compare the hidden parts of the copy.",
  [DT, CH, IN, DU, GN], [("copies", "Clone of " + DT + ", " + CH + ", " + IN + ", " + DU)],
  ["Clone for DateTime, DateTimeWithCarry, Chronology, Instant, Duration"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
