"""Fourth batch of behaviour-preserving rewrites: instants, durations, division helpers, cursors, texts (see refactors.py)."""
import refactors
from refactors import *

refactors.R.clear()
WI = "src/widen.rs"
LC = "src/least_common_width.rs"

r("coarsen-euclid", INS, "I01",
  ("""        Some(factor) => {
            let (quotient, remainder) = ticks.div_mod_floor(&factor);
            (quotient, remainder.is_zero())
        }
""", """        Some(factor) => {
            let remainder = ticks % factor;
            let mut quotient = ticks / factor;
            if remainder < T::zero() {
                quotient = quotient - T::one();
            }
            (quotient, remainder == T::zero())
        }
"""))

r("coarsen-let-else", INS, "I01",
  ("""    match T::from(factor) {
        Some(factor) => {
            let (quotient, remainder) = ticks.div_mod_floor(&factor);
            (quotient, remainder.is_zero())
        }
        None => {
            // A type that can't hold the factor is narrow enough to fit in an i64.
            let ticks = ticks.to_i64().expect("ticks fit in i64");
            let (quotient, remainder) = ticks.div_mod_floor(&(factor as i64));
            let quotient = T::from(quotient).expect("quotient is either 0 or -1");
            (quotient, remainder == 0)
        }
    }
""", """    let Some(narrow) = T::from(factor) else {
        let wide = i64::from(factor);
        let ticks = ticks.to_i64().unwrap();
        return (T::from(ticks.div_euclid(wide)).unwrap(), ticks.rem_euclid(wide) == 0);
    };
    let quotient = ticks.div_floor(&narrow);
    (quotient, ticks.mod_floor(&narrow) == T::zero())
"""))

r("eq-via-cmp", INS, "I01",
  ("""        let t1 = self.ticks;
        let s1 = S1::TICKS_PER_SECOND;
        let t2 = other.ticks;
        let s2 = S2::TICKS_PER_SECOND;
        match s1.cmp(&s2) {
            std::cmp::Ordering::Less => {
                let (t2, exact) = coarsen(t2, s2 / s1);
                exact && t1.num_eq(t2)
            }
            std::cmp::Ordering::Greater => {
                let (t1, exact) = coarsen(t1, s1 / s2);
                exact && t1.num_eq(t2)
            }
            std::cmp::Ordering::Equal => t1.num_eq(t2),
        }
""", """        self.partial_cmp(other) == Some(std::cmp::Ordering::Equal)
"""))

r("cmp-then", INS, "I01",
  ("""                let (t2, exact) = coarsen(t2, s2 / s1);
                match t1.num_cmp(t2) {
                    Some(std::cmp::Ordering::Equal) if !exact => Some(std::cmp::Ordering::Less),
                    ordering => ordering,
                }
""", """                let (t2, exact) = coarsen(t2, s2 / s1);
                let remains = if exact { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Less };
                t1.num_cmp(t2).map(|whole| whole.then(remains))
"""),
  ("""                let (t1, exact) = coarsen(t1, s1 / s2);
                match t1.num_cmp(t2) {
                    Some(std::cmp::Ordering::Equal) if !exact => Some(std::cmp::Ordering::Greater),
                    ordering => ordering,
                }
""", """                let (t1, exact) = coarsen(t1, s1 / s2);
                let remains = if exact { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater };
                t1.num_cmp(t2).map(|whole| whole.then_with(|| remains))
"""))

r("cmp-if-chain", INS, "I01",
  ("""        match s1.cmp(&s2) {
            std::cmp::Ordering::Less => {
                let (t2, exact) = coarsen(t2, s2 / s1);
                match t1.num_cmp(t2) {
                    Some(std::cmp::Ordering::Equal) if !exact => Some(std::cmp::Ordering::Less),
                    ordering => ordering,
                }
            }
            std::cmp::Ordering::Greater => {
                let (t1, exact) = coarsen(t1, s1 / s2);
                match t1.num_cmp(t2) {
                    Some(std::cmp::Ordering::Equal) if !exact => Some(std::cmp::Ordering::Greater),
                    ordering => ordering,
                }
            }
            std::cmp::Ordering::Equal => t1.num_cmp(t2),
        }
""", """        if s1 == s2 {
            return t1.num_cmp(t2);
        }
        let finer_is_left = s1 > s2;
        let ordering = if finer_is_left {
            let (t1, exact) = coarsen(t1, s1 / s2);
            t1.num_cmp(t2).map(|o| (o, exact))
        } else {
            let (t2, exact) = coarsen(t2, s2 / s1);
            t1.num_cmp(t2).map(|o| (o, exact))
        };
        let (ordering, exact) = ordering?;
        if ordering.is_ne() || exact {
            Some(ordering)
        } else if finer_is_left {
            Some(std::cmp::Ordering::Greater)
        } else {
            Some(std::cmp::Ordering::Less)
        }
"""))

r("split-then-floor", INS, "I02",
  ("""        let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
        Instant::from_ticks_since_epoch(self.ticks.div_floor(&factor))
""", """        self.split::<S2>().0
"""))

r("split-by-floor", INS, "I02",
  ("""        let (ticks, remainder) = self.ticks.div_mod_floor(&factor);
        (
            Instant::from_ticks_since_epoch(ticks),
            Duration::new(remainder),
        )
""", """        let whole = self.floor::<S2>();
        let remainder = self.ticks.mod_floor(&factor);
        (whole, Duration::new(remainder))
"""))

r("factor-helper", INS, "I02",
  ("""        let ticks = T2::from(self.ticks)?;
        let factor = T2::from(S2::TICKS_PER_SECOND)? / T2::from(S::TICKS_PER_SECOND)?;
        let ticks = ticks.checked_mul(&factor)?;
        Some(Instant::from_ticks_since_epoch(ticks))
""", """        fn factor<N: Tick>(finer: u32, coarser: u32) -> Option<N> {
            Some(N::from(finer)? / N::from(coarser)?)
        }
        factor::<T2>(S2::TICKS_PER_SECOND, S::TICKS_PER_SECOND)
            .and_then(|factor| T2::from(self.ticks)?.checked_mul(&factor))
            .map(Instant::from_ticks_since_epoch)
"""))

r("instant-add-match", INS, "I03 D09",
  ("""        Some(Self::from_ticks_since_epoch(
            self.ticks.checked_add(&rhs.ticks())?,
        ))
""", """        match self.ticks.checked_add(&rhs.ticks()) {
            Some(ticks) => Some(Instant { ticks, ..self.clone() }),
            None => None,
        }
"""))

r("instant-sub-durations", INS, "I03",
  ("""        Duration::new(
            self.ticks
                .checked_sub(&rhs.ticks)
                .expect("instant subtraction underflow"),
        )
""", """        self.duration_since_epoch() - rhs.duration_since_epoch()
"""))

r("duration-ops-helper", DU, "I03",
  ("""        Self::new(
            self.ticks
                .checked_add(&rhs.ticks)
                .expect("duration addition overflow"),
        )
""", """        self.combine(rhs.ticks, |a, b| a.checked_add(b), "addition")
"""),
  ("""        Self::new(
            self.ticks
                .checked_sub(&rhs.ticks)
                .expect("duration subtraction overflow"),
        )
""", """        self.combine(rhs.ticks, |a, b| a.checked_sub(b), "subtraction")
"""),
  ("""        Self::new(
            self.ticks
                .checked_mul(&rhs)
                .expect("duration multiplication overflow"),
        )
""", """        self.combine(rhs, |a, b| a.checked_mul(b), "multiplication")
"""),
  ("""    pub(crate) fn ticks(&self) -> T {
        self.ticks
    }
""", """    pub(crate) fn ticks(&self) -> T {
        self.ticks
    }

    fn combine<F: FnOnce(&T, &T) -> Option<T>>(self, rhs: T, op: F, what: &str) -> Self {
        match op(&self.ticks, &rhs) {
            Some(ticks) => Self::new(ticks),
            None => panic!("duration {} overflow", what),
        }
    }
"""))

r("duration-extend-map", DU, "I02 I03",
  ("""        let factor = T::from(S2::TICKS_PER_SECOND)? / T::from(S::TICKS_PER_SECOND)?;
        Some(Duration::new(self.ticks.checked_mul(&factor)?))
""", """        let finer = T::from(S2::TICKS_PER_SECOND)?;
        let coarser = T::from(S::TICKS_PER_SECOND)?;
        self.ticks.checked_mul(&(finer / coarser)).map(Duration::new)
"""))

r("duration-floor-manual", DU, "I02",
  ("""        Duration::new(self.ticks.div_floor(&factor))
""", """        let truncated = self.ticks / factor;
        let below = self.ticks < T::zero() && self.ticks % factor != T::zero();
        Duration::new(if below { truncated - T::one() } else { truncated })
"""))

r("duration-order-manual", DU, "I06 I03",
  ("""#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct Duration<T: PrimInt, S: Scale> {
    ticks: T,
    phantom: PhantomData<S>,
}
""", """#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub struct Duration<T: PrimInt, S: Scale> {
    ticks: T,
    phantom: PhantomData<S>,
}

impl<T: PrimInt, S: Scale> PartialOrd for Duration<T, S> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl<T: PrimInt, S: Scale> Ord for Duration<T, S> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        if self.ticks < other.ticks {
            std::cmp::Ordering::Less
        } else if self.ticks == other.ticks {
            std::cmp::Ordering::Equal
        } else {
            std::cmp::Ordering::Greater
        }
    }
}
"""))

r("try-into-ok-or", INS, "I04",
  ("""        let ticks = self.ticks.try_into().map_err(|_| InstantOutOfRange)?;
        Ok(Instant::from_ticks_since_epoch(ticks))
""", """        self.ticks
            .try_into()
            .ok()
            .map(Instant::from_ticks_since_epoch)
            .ok_or(InstantOutOfRange)
"""))

r("try-from-delegate", INS, "I04",
  ("""        let ticks = value.ticks.try_into().map_err(|_| InstantOutOfRange)?;
        Ok(Instant::from_ticks_since_epoch(ticks))
""", """        value.try_into()
"""))

r("widen-from", WI, "I04",
  ("""                    self as $To
""", """                    <$To>::from(self)
"""))

r("widen-into", INS, "I04",
  ("""        Instant::from_ticks_since_epoch(self.ticks.widen())
""", """        let Instant { ticks, phantom } = self;
        Instant { ticks: ticks.widen(), phantom }
"""))

r("lcw-into", LC, "I04",
  ("""                (self as $Bigger, other)
""", """                (self.into(), other)
"""),
  ("""                (self, other as $Bigger)
""", """                let (b, a) = other.least_common_width(self);
                (a, b)
"""))

r("epoch-default", INS, "I06",
  ("""        Instant::from_ticks_since_epoch(T::zero())
""", """        let one = T::one();
        Self { ticks: one - one, phantom: PhantomData }
"""))

r("min-by-ctor", INS, "I06",
  ("""        Instant {
            ticks: T::min_value(),
            phantom: PhantomData,
        }
""", """        Self::from_ticks_since_epoch(<T as Bounded>::min_value())
"""))

r("instant-clone", INS, "I06 I01",
  ("""#[derive(Debug, Clone, Copy, Hash)]
pub struct Instant""", """#[derive(Debug, Copy, Hash)]
pub struct Instant"""),
  ("""impl<T: Tick, S: Scale> Instant<T, S> {
    pub fn min_value""", """impl<T: Tick, S: Scale> Clone for Instant<T, S> {
    fn clone(&self) -> Self {
        *self
    }
}

impl<T: Tick, S: Scale> Instant<T, S> {
    pub fn min_value"""))

r("rem-floor-euclid", DR, "U01 G03",
  ("""        if *self > zero && other < zero {
            (*self - one) % other + other + one
        } else if *self < zero && other > zero {
            (*self + one) % other + other - one
        } else {
            *self % other
        }
""", """        let _ = one;
        let remainder = *self % other;
        let differs = (remainder < zero) != (other < zero);
        if remainder != zero && differs {
            remainder + other
        } else {
            remainder
        }
"""))

r("ceil-truncated", DR, "U01",
  ("""        let (quotient, remainder) = self.div_mod_floor(other);
        if remainder.is_zero() {
            (quotient, remainder)
        } else {
            // quotient * divisor could overflow, so adjust the floored result instead.
            (quotient + Self::one(), remainder - *other)
        }
""", """        match self.div_mod_floor(other) {
            (exact, none) if none.is_zero() => (exact, none),
            (below, above) => {
                let quotient = below + Self::one();
                let remainder = above - *other;
                (quotient, remainder)
            }
        }
"""))

r("mul-div-order", DR, "U01",
  ("""        let (q_a, r_a) = a.div_mod_floor(&c);
        let (q_b, r_b) = b.div_mod_floor(&c);
        let (q_c, r_c) = (r_a * r_b).div_mod_floor(&c);
        (q_a * b + r_a * q_b + q_c, r_c)
""", """        let (q_b, r_b) = b.div_mod_floor(&c);
        let (q_a, r_a) = a.div_mod_floor(&c);
        let product = r_a * r_b;
        let (q_c, r_c) = (product.div_floor(&c), product.mod_floor(&c));
        let quotient = q_c + q_b * r_a + b * q_a;
        (quotient, r_c)
"""))

r("clamped-cmp", DR, "U01 G01 D06",
  ("""        let quotient = min(self / divisor, max_quotient.into());
        let remainder = self - quotient * divisor;
        let quotient: Self::Quotient = match quotient.try_into() {
            Ok(x) => x,
            Err(_) => panic!("quotient is too large"),
        };
        (quotient, remainder)
""", """        let limit: T = max_quotient.into();
        if self / divisor >= limit {
            return (max_quotient, self - limit * divisor);
        }
        let Ok(quotient) = (self / divisor).try_into() else {
            panic!("quotient is too large")
        };
        (quotient, self % divisor)
"""))

r("cursor-loop-steps", SC, "K01",
  ("""        let remaining = self.slice.len().saturating_sub(self.pos);
        let advance = min(n, remaining);
        self.pos += advance;
        let n = n - advance;
        if n > 0 {
            self.pos = self.slice.len() + 1;
            Err(NonZeroUsize::new(n).unwrap())
        } else {
            Ok(())
        }
""", """        let len = self.slice.len();
        match self.pos.checked_add(n) {
            Some(pos) if pos <= len => {
                self.pos = pos;
                Ok(())
            }
            _ => {
                if n == 0 {
                    return Ok(());
                }
                let found = len - min(self.pos, len);
                self.pos = len + 1;
                match NonZeroUsize::new(n - found) {
                    Some(left) => Err(left),
                    None => Ok(()),
                }
            }
        }
"""))

r("cursor-get-helper", SC, "K01",
  ("""    fn check_size(slice: &[T]) {""", """    fn at(&self, pos: usize) -> Option<&T> {
        self.slice.get(pos.checked_sub(1)?)
    }

    fn end(&self) -> usize {
        self.slice.len() + 1
    }

    fn check_size(slice: &[T]) {"""),
  ("""        let end = self.slice.len() + 1;
        if self.pos < end {
            self.pos += 1;
            if self.pos < end {
                Some(&self.slice[self.pos - 1])
            } else {
                None
            }
        } else {
            None
        }
""", """        self.pos = min(self.pos + 1, self.end());
        self.at(self.pos)
"""),
  ("""        if self.pos > 0 {
            self.pos -= 1;
            if self.pos > 0 {
                Some(&self.slice[self.pos - 1])
            } else {
                None
            }
        } else {
            None
        }
""", """        self.pos = self.pos.saturating_sub(1);
        self.at(self.pos)
"""),
  ("""        if self.pos > 0 && self.pos <= self.slice.len() {
            Some(&self.slice[self.pos - 1])
        } else {
            None
        }
""", """        self.at(self.pos)
"""),
  ("""        if self.pos < self.slice.len() {
            Some(&self.slice[self.pos])
        } else {
            None
        }
""", """        self.at(self.pos + 1)
"""),
  ("""        if self.pos > 1 {
            Some(&self.slice[self.pos - 1 - 1])
        } else {
            None
        }
""", """        self.at(self.pos.checked_sub(1)?)
"""))

r("cursor-enum", SC, "K01",
  ("""        if self.pos == 0 {
            CursorPosition::Start
        } else if self.pos == self.slice.len() + 1 {
            CursorPosition::End
        } else {
            CursorPosition::Pos(self.pos - 1)
        }
""", """        match self.pos {
            0 => CursorPosition::Start,
            pos if pos > self.slice.len() => CursorPosition::End,
            pos => CursorPosition::Pos(pos - 1),
        }
"""),
  ("""        match pos {
            CursorPosition::Start => self.pos = 0,
            CursorPosition::End => self.pos = self.slice.len() + 1,
            CursorPosition::Pos(pos) => {
                assert!(pos < self.slice.len(), "Position out of bounds");
                self.pos = pos + 1
            }
        }
""", """        self.pos = match pos {
            CursorPosition::Start => 0,
            CursorPosition::End => self.slice.len() + 1,
            CursorPosition::Pos(pos) if pos >= self.slice.len() => panic!("Position out of bounds"),
            CursorPosition::Pos(pos) => pos + 1,
        };
"""))

r("cursor-first-split", SC, "K01",
  ("""        if self.pos < self.slice.len() {
            Some(&self.slice[self.pos])
        } else {
            None
        }
""", """        self.slice.get(self.pos..).and_then(|rest| rest.first())
"""),
  ("""        if self.pos > 1 {
            Some(&self.slice[self.pos - 1 - 1])
        } else {
            None
        }
""", """        match self.pos {
            0 | 1 => None,
            pos => self.slice[..pos - 1].last(),
        }
"""))

r("revert-checked", SC, "K01",
  ("""        let remaining = self.pos.saturating_sub(1);
        let revert = min(n, remaining);
        self.pos -= revert;
        let n = n - revert;
        if n > 0 {
            self.pos = 0;
            Err(NonZeroUsize::new(n).unwrap())
        } else {
            Ok(())
        }
""", """        let before = self.pos.max(1) - 1;
        if let Some(short) = n.checked_sub(before).and_then(NonZeroUsize::new) {
            self.pos = 0;
            return Err(short);
        }
        self.pos -= n;
        Ok(())
"""))

r("julian-named", INS, "S02",
  ("""    let unix_time = (julian_day - 2440588) * 86400 + hour * 3600 + minute * 60 + second;
""", """    const UNIX_EPOCH: i64 = 2440588;
    let days = julian_day - UNIX_EPOCH;
    let minutes = (days * 24 + hour) * 60 + minute;
    let unix_time = minutes * 60 + second;
"""))

r("debug-struct", DT, "F01",
  ("""        write!(
            f,
            "DateTime {{ precision: {:?}, gnd: {:?}, second: {}, nanosecond: {} }}",
            precision, gnd, second, nanosecond
        )
""", """        f.debug_struct("DateTime")
            .field("precision", &precision)
            .field("gnd", &gnd)
            .field("second", &second)
            .field("nanosecond", &nanosecond)
            .finish()
"""))

r("error-str", BLD, "F01 D03",
  ("""        match self {
            Error::InvalidDateTime => write!(f, "invalid datetime"),
            Error::DateTimeOutOfBounds => write!(f, "datetime out of bounds"),
        }
""", """        f.write_str(match self {
            Error::InvalidDateTime => "invalid datetime",
            Error::DateTimeOutOfBounds => "datetime out of bounds",
        })
"""))

r("debug-string", DT, "F01",
  ("""        write!(
            f,
            "DateTime {{ precision: {:?}, gnd: {:?}, second: {}, nanosecond: {} }}",
            precision, gnd, second, nanosecond
        )
""", """        let fields = [
            format!("precision: {:?}", precision),
            format!("gnd: {:?}", gnd),
            format!("second: {}", second),
            format!("nanosecond: {}", nanosecond),
        ];
        write!(f, "DateTime {{ {} }}", fields.join(", "))
"""))


if __name__ == "__main__":
    main()
