//! C28 dates. What a date denotes is compared, on whole documents, with the reference reading (see dates), which counts
//! days itself; how it is shown with the reference rendering.
use super::grammar::*;
use super::*;
use crate::dates::*;
use crate::doc::*;
use crate::html;
use std::time::{SystemTime, UNIX_EPOCH};

fn now() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64
}

/// The document against the reference, in HTML and in text, and the distance of each date from the present.
fn dated(doc: &str, cx: &mut Cx) -> Result<(), String> {
    compare(doc, cx)?;
    let (info, st) = (page_info(), page_settings());
    page(doc, |_, tree, _| {
        let before = now();
        let out = html_of(tree, &info, &st).body;
        let after = now();
        let dom = html::parse(&out)?;
        let plain = text_of(tree, &info, &st);
        for d in html::by_class(&dom, "wj-date") {
            let num = |k| d.attr(k).and_then(|v| v.parse::<i64>().ok()).ok_or(format!("{k} is not a number"));
            let (ts, delta) = (num("data-timestamp")?, num("data-delta")?);
            if !(ts - after..=ts - before).contains(&delta) {
                return Err(format!("{ts} is not {delta} seconds away from now, which is {after}"));
            }
            let shown = html::text_of(d.kids());
            if !plain.contains(&shown) {
                return Err(format!("shown as {shown:?} in HTML but not in the text {plain:?}"));
            }
            cx.bump("dates", 1);
        }
        Ok(())
    })
}

/// The present, unless there is a time zone, which it has already.
fn present(doc: &str, zoned: bool, cx: &mut Cx) -> Result<(), String> {
    let (info, st) = (page_info(), page_settings());
    let before = now();
    page(doc, |_, tree, _| {
        let dom = html::parse(&html_of(tree, &info, &st).body)?;
        let after = now();
        let d = html::by_class(&dom, "wj-date");
        cx.runs += 1;
        match d[..] {
            [] if zoned => Ok(()),
            [d] if !zoned => {
                let ts: i64 = d.attr("data-timestamp").and_then(|v| v.parse().ok()).ok_or("no timestamp")?;
                let shown = html::text_of(d.kids());
                if !(before..=after).contains(&ts) || shown != crate::refrender::rfc2822(ts, 0) {
                    return Err(format!("shown as {shown} ({ts}), but now is {before}"));
                }
                Ok(())
            }
            _ => Err(format!("{} dates", d.len())),
        }
    })
}

fn product(name: &str, bound: &str, dims: &[usize], make: impl Fn(&[usize]) -> String + Send + Sync + Clone + 'static) -> Family {
    let m = make.clone();
    product_family(name, bound, dims, Box::new(make), move |ix, cx| dated(&m(ix), cx))
}
fn words(name: &str, alphabet: &'static [&'static str], n: usize, p: &str, s: &str) -> Family {
    word_family(&format!("{name} in {p:?}..{s:?}"), alphabet, n, p, s, |d, w, cx| {
        cx.transitions += w.len() as u64;
        dated(d, cx)
    })
}

const YEARS: &[i64] = &[-9999, -4713, -401, -400, -101, -100, -5, -4, -1, 0, 1, 3, 4, 99, 100, 400, 999, 1000, 1582, 1583, 1600, 1700, 1752, 1896, 1899, 1900, 1901, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2015, 2020, 2026, 2037, 2038, 2100, 2400, 9996, 9999];
const TIMES: &[i64] = &[0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86399];
const ZONES: &[&str] = &["", "Z", "+00:00", "-00:00", "+01:00", "-01:00", "+05:30", "-09:30", "+14:00", "-12:00", "+23:59", "-23:59", "+0530", "-0930", "+14", "-12", "+1", "z", "+00:60", "+24:00", "+26:00", " ", "+5:30", "+05:3", "UTC", "+05:30:00"];
const CLOCKS: &[&str] = &["", "T00:00:00", "T23:59:59", "T12:34:56", "T00:00", "T23:59", "T24:00", "T25:00:00", "T12:60", "T12:59:61", "T12:34:56.7", "T12:34:56,7", "T12:34:56.000001", "T12:34:56.", "T12", "T1234", "T123456", "T123456.5", "T1:00", "t12:34:56", "T", "T12:", "T12:34:", "x12:34:56", "TT12:34", "-12:34:56", "T12:34:56T12:34:56"];
const TZ: &[&str] = &["", "Z", "0", "00", "1", "+1", "-1", "8:00", "+08:00", "-08:00", "0530", "-530", "+14", "25:59", "26", "26:00", "-25:59", "3600", "12345", "-12345", "93599", "93600", "93541", "-93599", "-3601", "-00:30", "-0:01", "+", ":", "8:", "8:0", "8:000", "UTC", "EST", " 8", "8 ", "+-8", "2147483648", "-2147483648"];
const KINDS: &[&str] = &["2001-09-11", "2001-09-11T10:00", "2001-09-11T10:00:00Z", "2001-09-11T10:00+04:00", "0", "-1", "9999-12-31", "-009999-01-01", "0000-01-01", "1899-12-31T23:59:59", "1900-01-01", "nope"];
const DATE_TOKENS: &[&str] = &["2001", "-", "09", "1", "T", "10", ":", "30", "Z", "+", ".", "W", "now", "x", "_", "/"];

fn year(y: i64) -> String {
    if (0..10000).contains(&y) {
        format!("{y:04}")
    } else {
        format!("{}{:06}", if y < 0 { '-' } else { '+' }, y.abs())
    }
}

/// Dates of every kind and extreme, for other checks.
pub fn spread() -> Vec<String> {
    let mut v = vec![];
    for y in YEARS {
        for clock in ["", "T00:00:00", "T23:59:59.999999999", "T12:34:56.000001Z", "T00:00:00+05:30", "T23:59:59-12:00"] {
            for day in ["01-01", "02-29", "12-31"] {
                v.push(format!("[[date {}-{day}{clock}]]", year(*y)));
            }
        }
    }
    for clock in CLOCKS {
        for z in ZONES {
            v.push(format!("[[date 2001-09-11{clock}{z}]]"));
        }
    }
    for k in KINDS {
        for z in TZ {
            for hover in ["", " hover=\"false\""] {
                v.push(format!("[[date {k} tz=\"{z}\"{hover}]]"));
            }
        }
    }
    v
}

pub fn check(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new("distinct canonical DOMs; each date's instant, shown text and distance from now are compared with the reference");
    // days
    let step = if thorough { 1 } else { 13 };
    let (first, last) = (days(-9999, 1, 1), days(10000, 1, 1));
    c.families.push(product("days", &format!("timestamps: every {step}. day from the year -9999 to 9999, at different times of day"), &[((last - first) / step) as usize], move |ix| {
        let d = first + ix[0] as i64 * step;
        format!("[[date {}]]", d * 86400 + TIMES[ix[0] % TIMES.len()])
    }));
    c.families.push(product("recent days", "timestamps: the first and last second of every day from 1890 to 2110", &[(days(2110, 1, 1) - days(1890, 1, 1)) as usize, 2], |ix| format!("[[date {}]]", (days(1890, 1, 1) + ix[0] as i64) * 86400 + ix[1] as i64 * 86399)));
    c.families.push(product("turns of years", "timestamps: around the end of February and of the year, in every year", &[19999, 4, 3], |ix| {
        let y = ix[0] as i64 - 9999;
        let d = [days(y, 1, 1), days(y, 2, 29), days(y, 3, 1), days(y, 12, 31)][ix[1]];
        format!("[[date {}]]", d * 86400 + ix[2] as i64 - 1)
    }));
    c.families.push(product("seconds", "timestamps: every 7th second of a day, before and after 1970", &[86400 / 7 + 1, 3], |ix| format!("[[date {}]]", (ix[0] * 7) as i64 + [-86400, 0, 1700000000][ix[1]])));
    // calendar dates
    let ys: &'static [i64] = YEARS;
    c.families.push(product("calendar dates", "every year of a list x every month 0-13 x every day 0-32 x form", &[ys.len(), 14, 33, 2], move |ix| {
        let (y, m, d) = (year(ys[ix[0]]), ix[1], ix[2]);
        format!("[[date {}]]", [format!("{y}-{m:02}-{d:02}"), format!("{y}{m:02}{d:02}T0000")][ix[3]])
    }));
    c.families.push(product("ordinal dates", "every year of a list x every day of the year 0-367 x form", &[ys.len(), 368, 2], move |ix| {
        let (y, d) = (year(ys[ix[0]]), ix[1]);
        format!("[[date {}]]", [format!("{y}-{d:03}"), format!("{y}{d:03}T12")][ix[2]])
    }));
    c.families.push(product("week dates", "every year of a list x every week 0-54 x every day of the week 0-8 x form", &[ys.len(), 55, 9, 2], move |ix| {
        let (y, w, d) = (year(ys[ix[0]]), ix[1], ix[2]);
        format!("[[date {}]]", [format!("{y}-W{w:02}-{d}"), format!("{y}W{w:02}{d}T12")][ix[3]])
    }));
    c.families.push(product("dates with a clock", "dates x clock times x zones, well formed and not", &[6, CLOCKS.len(), ZONES.len()], |ix| {
        let d = ["2001-09-11", "20010911", "2000-366", "2020-W53-7", "-000044-03-15", "2001-02-29"][ix[0]];
        format!("[[date {d}{}{}]]", CLOCKS[ix[1]], ZONES[ix[2]])
    }));
    // zones
    c.families.push(product("zone arguments", "kinds of date x zone arguments x hover x order", &[KINDS.len(), TZ.len(), 4, 2], |ix| {
        let (tz, hover) = (format!(" tz=\"{}\"", TZ[ix[1]]), ["", " hover=\"true\"", " hover=\"false\"", " hover=\"maybe\""][ix[2]]);
        format!("a [[date {}{}]] b", KINDS[ix[0]], [format!("{tz}{hover}"), format!("{hover}{tz}")][ix[3]])
    }));
    c.families.push(product("all zones", "every sign x hour 0-26 x minute 0-59 x spelling of zone arguments and of offsets, with a date near the turn of the year", &[3, 27, 60, 5], |ix| {
        let (s, h, m) = (["", "+", "-"][ix[0]], ix[1], ix[2]);
        match ix[3] {
            0 => format!("[[date 2000-12-31T23:30 tz=\"{s}{h:02}:{m:02}\"]]"),
            1 => format!("[[date 2000-01-01 tz=\"{s}{h}{m:02}\"]]"),
            2 => format!("[[date 1900-01-01 tz=\"{s}{h}:{m:02}\"]]"),
            3 => format!("[[date 2000-01-01T00:10:00{}{h:02}:{m:02}]]", if s.is_empty() { "+" } else { s }),
            _ => format!("[[date 2000-01-01T00:10{}{h:02}{m:02}]]", if s.is_empty() { "+" } else { s }),
        }
    }));
    c.families.push(product("seconds of offset", "every 37th offset in seconds, both signs", &[96_000 / 37, 2], |ix| format!("[[date 2004-02-29 tz=\"{}{:05}\"]]", ["", "-"][ix[1]], ix[0] * 37)));
    c.families.push(words("zone characters", &["+", "-", "0", "1", "2", "5", ":", " ", "Z"], 5 + x, "[[date 2001-01-01 tz=\"", "\"]]"));
    // anything
    c.families.push(words("date tokens", DATE_TOKENS, 4 + x, "[[date ", "]]"));
    c.families.push(words("date tokens", DATE_TOKENS, 3 + x, "[[date 2001-09-11", "]]"));
    c.families.push(words("date tokens", DATE_TOKENS, 3 + x, "[[date 2001-09-11T10:30", " hover=\"no\"]]"));
    c.families.push(words("digits", &["0", "1", "9", "-", "+"], 8 + x, "[[date ", "]]"));
    c.families.push(words("around", &["[[date 5]]", "[[date 2001-01-01]]", "[[date x]]", "[[*date 5]]", "[[date_ 5]]", "[[date]]", "[[DATE 5]]", "[[date 5 ", "[[/date]]", "a", "\n", "**", "|| ", "* "], 3 + x, "", ""));
    c.families.push(list_family(
        "limits",
        "the limits of timestamps, and the present",
        ["253402300799", "253402300800", "-377705116800", "-377705116801", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "+0", "-0", "00000000000000000001", "10000-01-01", "+010000-01-01", "-000000-01-01", "+000000-01-01", "+009999-12-31T23:59:59-23:59", "-009999-01-01T00:00:00+23:59", "9999-12-31T23:59:59-23:59"].map(|s| format!("[[date {s}]]")).to_vec(),
        |s| s.clone(),
        |s, cx| dated(s, cx),
    ));
    let make = |ix: &[usize]| format!("[[date {}{}]]", ["now", "NOW", "Now", ".", "nOw"][ix[0]], ["", " hover=\"no\"", " tz=\"+1\""][ix[1]]);
    c.families.push(product_family("now", "the ways to write the present x arguments", &[5, 3], Box::new(make), move |ix, cx| present(&make(ix), ix[1] == 2, cx)));
    c.at_least = vec![("dates", 300_000)];
    c
}
