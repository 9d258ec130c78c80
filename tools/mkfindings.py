#!/usr/bin/env python3
"""Writes /verif/known_findings.json (open findings and the record of repaired defects)."""
import json, os
OPEN = [
 ("D15-offset_hour", "D15", "D15 setting takes effect", "iso8601::date_time_builder::DateTimeBuilder::offset_hour",
  "the value given to DateTimeBuilder::offset_hour is read by checked_build and dropped: date-times built with different offsets are equal"),
 ("D15-offset_minute", "D15", "D15 setting takes effect", "iso8601::date_time_builder::DateTimeBuilder::offset_minute",
  "the value given to DateTimeBuilder::offset_minute is read by checked_build and dropped: date-times built with different offsets are equal"),
 ("I05-floor", "I05", "I05 no intermediate overflow", "duration::Duration::div_rem_floor",
  "Duration::div_rem_floor computes with fixed-width ratios whose intermediate values overflow for extreme operands although the exact result fits (debug: panic, release: wrong result): 64-bit nanoseconds (i64::MIN+1).div_rem_floor(3) gives quotient +3074457345618258602 in release"),
 ("U01-floor", "U01", "U01 no intermediate overflow", "div_rem::mul_div_rem_floor",
  "mul_div_rem_floor multiplies two remainders, which can overflow although product, quotient and remainder fit (debug: panic, release: wrong result): 32-bit (-1).mul_div_rem_floor(1_000_000_000, 2_000_000_000)"),
 ("U01-ceil", "U01", "U01 no intermediate overflow", "div_rem::mul_div_rem_ceil",
  "mul_div_rem_ceil multiplies two remainders, which can overflow although product, quotient and remainder fit (debug: panic, release: wrong result): 32-bit 1.mul_div_rem_ceil(1_000_000_000, 2_000_000_000)"),
 ("I05-ceil", "I05", "I05 no intermediate overflow", "duration::Duration::div_rem_ceil",
  "Duration::div_rem_ceil computes with fixed-width ratios whose intermediate values overflow for extreme operands although the exact result fits (debug: panic, release: wrong result): 64-bit nanoseconds i64::MAX.div_rem_ceil(2)"),
]
FIXED = """
D01 b481993 nanoseconds of 65536 and above lost their high bits in the packed date-time
D04 f9ec4f0 add_years/add_months with extreme amounts overflowed (debug panic, release wrap)
D05 f9ec4f0 add_years/add_months with extreme amounts wrapped into range in release builds
D05 6351316 adding day counts of many 400-year cycles wrapped the cycle number into range
D04 9a3d3da add_minutes/add_hours with extreme amounts overflowed
D10 e6544e3 a second that does not exist on the resulting day was kept (or carried wrongly) by day, month and year additions
D03 19ddeec day 0 of a month underflowed in from_date instead of being rejected
D04 19ddeec checked_build panicked for day 0
G01 19ddeec from_date(y, m, 0) panicked instead of reporting an invalid date
D03 3c65c34 a builder with year or month precision could not build because month and day defaulted to 0
K01 5da0f6d advance_by/revert_by of slice cursors did not move like single steps
K01 e06e09e SliceCursor::set_pos accepted positions outside the slice
I02 1fa285c Duration::floor rounded negative durations towards zero
I01 ccb4e2a comparing instants of different scales overflowed
S01 11bbad2 the sub-second part of times before the epoch had the wrong sign
L03 1e4f53b the adjustment after the last table entry left out that entry's leap second
L03 f79b567 the day number of far-off Unix timestamps wrapped
S01 ef866e2 system times that do not fit the instant panicked or wrapped
U01 6803271 div_rem_ceil rounded down
U01 cd7cb1c div_rem_ceil overflowed for quotients whose product with the divisor does not fit (125.div_rem_ceil(4) in i8)
I03 646ae01 duration arithmetic wrapped in release builds
D14 7727fd0 chronologies loaded twice for one time zone compared unequal
I02 2e701e7 extend panicked when a scale factor did not fit
D04 5d92910 checked_add_seconds panicked where the target is the earliest second the conversion can represent
G01 77e9e14 to_date was wrong for January and February of year 0
S01 45609ae the earliest and latest system times overflowed
""".strip().splitlines()
fs = [{"id": i, "property": p, "status": "open", "rule": r, "function": f, "what": w} for i, p, r, f, w in OPEN]
for n, l in enumerate(FIXED):
    p, c, w = l.split(" ", 2)
    fs.append({"id": "fixed-%s-%s" % (p, c), "property": p, "status": "fixed", "commit": c, "record": "fixed: property=%s %s %s" % (p, c, w)})
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
    json.dump({"findings": fs}, f, indent=1)
    f.write("\n")
