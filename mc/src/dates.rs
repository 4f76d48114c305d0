//! Reference reading of dates: which instant a date's text denotes. ISO 8601 and RFC 3339 by their grammars, over days
//! counted by civil calendar arithmetic; only the result is put into the date library's types.
use ftml::tree::DateItem;
use time::{OffsetDateTime, UtcOffset};

/// Days since 1970-01-01 of a civil date.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// The day of the first Monday of ISO year `y`.
fn iso_start(y: i64) -> i64 {
    let fourth = days(y, 1, 4);
    fourth - (fourth + 3).rem_euclid(7)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Date,
    DateTime,
    Instant(i64),
}

struct Cur<'a>(&'a [u8]);
impl Cur<'_> {
    fn eat(&mut self, c: u8) -> bool {
        let hit = self.0.first() == Some(&c);
        if hit {
            self.0 = &self.0[1..];
        }
        hit
    }
    fn digits(&mut self, n: usize) -> Option<i64> {
        let s = self.0.get(..n).filter(|s| s.iter().all(u8::is_ascii_digit))?;
        self.0 = &self.0[n..];
        std::str::from_utf8(s).ok()?.parse().ok()
    }
    /// A decimal fraction of `unit` seconds, if there is one: how many whole seconds it is.
    fn fraction(&mut self, signs: &[u8], unit: i64) -> Option<Option<i64>> {
        if !self.0.first().is_some_and(|c| signs.contains(c)) {
            return Some(None);
        }
        let n = self.0[1..].iter().take_while(|c| c.is_ascii_digit()).count();
        let v = self.0[1..].iter().take(n.min(12)).fold(0i128, |v, c| v * 10 + (c - b'0') as i128);
        self.0 = &self.0[1 + n..];
        (n > 0).then(|| Some((v * unit as i128 / 10i128.pow(n.min(12) as u32)) as i64))
    }
    fn sign(&mut self) -> Option<i64> {
        if self.eat(b'+') {
            return Some(1);
        }
        self.eat(b'-').then_some(-1)
    }
}

fn clock(h: i64, m: i64, s: i64) -> Option<i64> {
    (h < 24 && m < 60 && s < 60).then_some(h * 3600 + m * 60 + s)
}

fn rfc3339(s: &str) -> Option<(i64, Kind)> {
    let mut c = Cur(s.as_bytes());
    let y = c.digits(4)?;
    c.eat(b'-').then_some(())?;
    let m = c.digits(2).filter(|m| (1..=12).contains(m))?;
    c.eat(b'-').then_some(())?;
    let d = c.digits(2).filter(|d| (1..=month_days(y, m)).contains(d))?;
    c.0 = c.0.get(1..)?;
    let h = c.digits(2)?;
    c.eat(b':').then_some(())?;
    let min = c.digits(2)?;
    c.eat(b':').then_some(())?;
    let sec = c.digits(2)?;
    c.fraction(b".", 1)?;
    let off = if c.eat(b'Z') || c.eat(b'z') {
        0
    } else {
        let sign = c.sign()?;
        let h = c.digits(2)?;
        c.eat(b':').then_some(())?;
        sign * offset(h, c.digits(2)?)?
    };
    c.0.is_empty().then_some(())?;
    Some((days(y, m, d) * 86400 + clock(h, min, sec)?, Kind::Instant(off)))
}

fn offset(h: i64, m: i64) -> Option<i64> {
    (h < 24 && m < 60).then_some(h * 3600 + m * 60)
}

fn iso8601(s: &str) -> Option<(i64, Kind)> {
    let mut c = Cur(s.as_bytes());
    let y = match c.sign() {
        None => c.digits(4)?,
        Some(sign) => {
            let y = c.digits(6)?;
            if y > 9999 {
                return None;
            }
            sign * y
        }
    };
    let ext = c.eat(b'-');
    let rest = c.0;
    let sep = |c: &mut Cur| !ext || c.eat(b'-');
    // a month and a day, or else a day of the year, or else a week and its day
    let mut month_day = || {
        let m = c.digits(2).filter(|m| (1..=12).contains(m))?;
        sep(&mut c).then_some(())?;
        let d = c.digits(2).filter(|d| (1..=31).contains(d))?;
        Some((m, d))
    };
    let day = if let Some((m, d)) = month_day() {
        (d <= month_days(y, m)).then(|| days(y, m, d))?
    } else {
        c.0 = rest;
        if let Some(n) = c.digits(3).filter(|n| (1..=366).contains(n)) {
            (n <= 365 + leap(y) as i64).then(|| days(y, 1, 1) + n - 1)?
        } else {
            c.0 = rest;
            c.eat(b'W').then_some(())?;
            let w = c.digits(2).filter(|w| *w >= 1)?;
            sep(&mut c).then_some(())?;
            let d = c.digits(1).filter(|d| (1..=7).contains(d))?;
            let day = iso_start(y) + (w - 1) * 7 + d - 1;
            (day < iso_start(y + 1)).then_some(day)?
        }
    };
    if c.0.is_empty() {
        return Some((day * 86400, Kind::Date));
    }
    c.eat(b'T').then_some(())?;
    let h = c.digits(2)?;
    let (mut min, mut sec, mut more) = (0, 0, c.fraction(b".,", 3600)?);
    if more.is_none() {
        // the first colon may be missing
        let colon = ext && c.eat(b':');
        match c.digits(2) {
            Some(m) => {
                min = m;
                more = c.fraction(b".,", 60)?;
                let second = if more.is_some() { None } else if ext { c.eat(b':').then(|| c.digits(2)) } else { c.digits(2).map(Some) };
                if let Some(s) = second {
                    sec = s?;
                    c.fraction(b".,", 1)?;
                }
            }
            None if colon || ext => return None,
            None => {}
        }
    }
    let at = day * 86400 + clock(h, min, sec)? + more.unwrap_or(0);
    if c.0.is_empty() {
        return Some((at, Kind::DateTime));
    }
    if c.eat(b'Z') {
        return c.0.is_empty().then_some((at, Kind::Instant(0)));
    }
    let sign = c.sign()?;
    let h = c.digits(2).filter(|h| *h < 24)?;
    if ext {
        c.eat(b':');
    }
    let m = if c.0.is_empty() { 0 } else { c.digits(2)? };
    c.0.is_empty().then_some(())?;
    Some((at, Kind::Instant(sign * offset(h, m)?)))
}

/// The first second of the year -9999 and the one after the year 9999.
const RANGE: std::ops::Range<i64> = -377705116800..253402300800;

/// The local time, in seconds since 1970, and what is known of its zone.
pub fn read(s: &str) -> Option<(i64, Kind)> {
    let n = s.strip_prefix(['+', '-']).unwrap_or(s);
    if !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) {
        // a number outside of the range is no date in any other form, either
        let t = s.parse().ok().filter(|t| RANGE.contains(t));
        if t.is_some() || s.parse::<i64>().is_ok() {
            return Some((t?, Kind::Instant(0)));
        }
    }
    rfc3339(s).or_else(|| iso8601(s)).filter(|t| RANGE.contains(&t.0))
}

/// The offset in seconds a time zone's text stands for.
pub fn zone(s: &str) -> Option<i64> {
    let n = s.strip_prefix(['+', '-']).unwrap_or(s);
    let sign = if s.starts_with('-') { -1 } else { 1 };
    let num = |s: &str| s.bytes().all(|b| b.is_ascii_digit()).then(|| s.parse::<i64>().ok()).flatten();
    let (h, m) = match n.split_once(':') {
        Some((h, m)) => (h, m),
        None if n.len() > 2 && n.is_ascii() => n.split_at(n.len() - 2),
        None => (n, ""),
    };
    if matches!(h.len(), 1 | 2) && matches!(m.len(), 0 | 2) {
        if let (Some(h), Some(m)) = (num(h), if m.is_empty() { Some(0) } else { num(m) }) {
            return Some(sign * (h * 3600 + m * 60)).filter(|s| s.abs() < 24 * 3600);
        }
    }
    let n = num(n).filter(|_| !n.is_empty())?;
    Some(sign * n).filter(|s| s.abs() < 24 * 3600)
}

pub fn item(at: i64, kind: Kind) -> DateItem {
    let local = OffsetDateTime::from_unix_timestamp(at).unwrap();
    match kind {
        Kind::Date => DateItem::Date(local.date()),
        Kind::DateTime => DateItem::DateTime(time::PrimitiveDateTime::new(local.date(), local.time())),
        Kind::Instant(off) => DateItem::DateTimeTz(local.replace_offset(UtcOffset::from_whole_seconds(off as i32).unwrap())),
    }
}

pub fn element(value: &str, tz: Option<&str>) -> Option<DateItem> {
    let (at, mut kind) = read(value)?;
    if let Some(tz) = tz {
        let off = zone(tz)?;
        if let Kind::Instant(_) = kind {
            return None;
        }
        kind = Kind::Instant(off);
    }
    Some(item(at, kind))
}
