//! C31: work and output grow moderately. Work is counted in steps of the implementation, which are its log records
//! (each parser step, rule attempt and rendered element makes some), and in allocations.
use super::*;
use crate::corpus;
use crate::doc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Counts what each thread allocates.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

struct Steps;
impl log::Log for Steps {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        let n = STEPS.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        if n == LIMIT.with(|l| l.get()) {
            panic!("more than {n} steps");
        }
    }
    fn flush(&self) {}
}

struct Cost {
    steps: u64,
    bytes: u64,
    size: u64,
}

/// What a whole run on the document costs, or None if it takes more than `limit` steps.
fn cost(doc: &str, limit: u64) -> Option<Cost> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Steps);
        log::set_max_level(log::LevelFilter::Trace);
    });
    STEPS.with(|s| s.set(0));
    let before = BYTES.with(|b| b.get());
    LIMIT.with(|l| l.set(limit));
    let r = crate::engine::guard(|| {
        page(doc, |_, tree, _| {
            let (info, st) = (page_info(), page_settings());
            html_of(tree, &info, &st).body.len() + text_of(tree, &info, &st).len()
        })
    });
    LIMIT.with(|l| l.set(u64::MAX));
    match r {
        Ok(size) => Some(Cost { steps: STEPS.with(|s| s.get()), bytes: BYTES.with(|b| b.get()) - before, size: size as u64 }),
        Err(e) if e.contains("steps") => None,
        Err(e) => panic!("{e}"),
    }
}

/// Each doubling may multiply what is measured by this much at most.
const GROWTH: u64 = 9;
const MOST: u64 = 40_000_000;

fn grows(make: &dyn Fn(usize) -> String, cx: &mut Cx) -> Result<(), String> {
    let mut last: Option<(Cost, usize)> = None;
    for n in [6, 12, 24, 48] {
        let doc = make(n);
        cx.runs += 1;
        let limit = last.as_ref().map_or(MOST, |(c, _)| (c.steps * GROWTH + 10_000).min(MOST));
        let Some(c) = cost(&doc, limit) else {
            return Err(format!("{n} repetitions take more than {limit} steps, {} took {}", n / 2, last.map_or(0, |(c, _)| c.steps)));
        };
        if let Some((l, _)) = &last {
            for (what, a, b, slack) in [("bytes allocated", l.bytes, c.bytes, 1 << 20), ("bytes of output", l.size, c.size, 1 << 12)] {
                if b > a * GROWTH + slack {
                    return Err(format!("{n} repetitions take {b} {what}, {} took {a}", n / 2));
                }
            }
            cx.max("growth of steps, percent", c.steps * 100 / l.steps);
            cx.max("growth of output, percent", c.size * 100 / l.size.max(200));
            cx.max("growth of allocation, percent", c.bytes * 100 / l.bytes.max(1));
        }
        cx.max("steps per byte", c.steps / doc.len().max(1) as u64);
        cx.max("steps", c.steps);
        cx.state(&format!("{} {} {}", c.steps, c.bytes / 64, c.size));
        cx.transitions += n as u64;
        last = Some((c, n));
    }
    Ok(())
}

/// Every construct that something can be left unfinished of.
const OPENERS: &[&str] = &[
    "[[div]]\n", "[[div_]]", "[[span]]", "[[blockquote]]\n", "[[=]]\n", "[[<]]", "[[a]]", "[[a_]]", "[[b]]", "[[i]]", "[[size 2em]]", "[[hidden]]", "[[invisible]]", "[[mark]]", "[[collapsible]]\n", "[[p]]\n", "[[ul]]\n", "[[ol]]", "[[li]]", "[[li_]]", "[[table]]\n", "[[row]]\n", "[[cell]]", "[[hcell]]",
    "[[tabview]]\n", "[[tab t]]", "[[ruby]]", "[[rt]]", "[[iftags tale]]", "[[iftags -tale]]", "[[ifcategory x]]", "[[footnote]]", "[[bibliography]]\n", ": k : ", "[[code]]", "[[html]]", "[[math]]", "[[module CSS]]", "[[module ListPages]]\n", "[[css]]", "[[iframe http://a.b]]", "[[later]]", "[[char lt]]",
    "**", "//", "__", "^^", ",,", "--", "{{", "##red|", "@@", "@<", "[!--", "[[[x|", "[[[", "[http://x ", "[*/x ", "[#x ", "[[# ", "* ", "# ", "|| ", "||~ ", "> ", ">>> ", "+ ", "++ ", "= ", "((bibcite ", "[[$ ", "[[", "[[/", "[[div ", "[[div a=\"", "[[*user ", "[[image ", "[[include ", "``", "<<", "\"", "{$", "~~~~", " * ", "  # ",
    "x", "\n", "\n\n", " ", "\n* ", "\n|| ", "\n> ", "\n: ", "\n+ ",
];
const CLOSERS: &[&str] = &[
    "[[/div]]\n", "[[/span]]", "[[/a]]", "[[/b]]", "[[/collapsible]]", "[[/ul]]", "[[/li]]", "[[/table]]", "[[/row]]", "[[/cell]]", "[[/tabview]]", "[[/tab]]", "[[/ruby]]", "[[/rt]]", "[[/iftags]]", "[[/footnote]]", "[[/bibliography]]", "[[/code]]", "[[/module]]", "[[/=]]", "**", "//", "##", "@@", "--]", "]]]", "]]", "]", " ||", "\n", "\n\n", "}}", ">@", "))", " $]]",
];

fn growth(name: &str, bound: &str, dims: &[usize], make: impl Fn(&[usize], usize) -> String + Send + Sync + Clone + 'static) -> Family {
    let m = make.clone();
    product_family(name, bound, dims, Box::new(move |ix| make(ix, 3)), move |ix, cx| grows(&|n| m(ix, n), cx))
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct costs; each unit is repeated 6, 12, 24 and 48 times and each doubling may multiply steps, allocations and output by 9 at most");
    for (name, set) in corpus::ALL {
        let set: &'static [&'static str] = set;
        c.families.push(word_family(&format!("units of {name}"), set, if thorough && ["tokens", "lines", "side"].contains(name) { 3 } else { 2 }, "", "", move |u, _, cx| grows(&|n| u.repeat(n), cx)));
    }
    let (o, k) = (OPENERS.len(), CLOSERS.len());
    c.families.push(growth("openings", "(a b)^n for all pairs of openings", &[o, o], |ix, n| format!("{}{}", OPENERS[ix[0]], OPENERS[ix[1]]).repeat(n)));
    c.families.push(growth("openings, then others", "a^n b^n for all pairs of openings", &[o, o], |ix, n| OPENERS[ix[0]].repeat(n) + &OPENERS[ix[1]].repeat(n)));
    c.families.push(growth("openings and closings", "a^n b^n c^n, a an opening, b every fourth opening, c a closing; quick: without b", &[o, if thorough { o / 4 } else { 1 }, k, if thorough { 1 } else { 3 }], move |ix, n| {
        let b = if thorough { OPENERS[ix[1] * 4] } else { "" };
        // as many, fewer or more closings
        let m = [n, n / 3, 2 * n][ix[3]];
        OPENERS[ix[0]].repeat(n) + &b.repeat(n) + &CLOSERS[ix[2]].repeat(m)
    }));
    let nests = super::c30::NESTS;
    c.families.push(growth("nested", "all ordered pairs of constructs alternating, closed, not quite closed, and closed out of order", &[nests.len(), nests.len(), 4], move |ix, n| {
        let (a, b) = (nests[ix[0]], nests[ix[1]]);
        let open = format!("{}{}", a.0, b.0).repeat(n) + "x";
        open + &match ix[2] {
            0 => format!("{}{}", b.1, a.1).repeat(n),
            1 => format!("{}{}", b.1, a.1).repeat(n - 1),
            2 => format!("{}{}", a.1, b.1).repeat(n),
            _ => b.1.repeat(n),
        }
    }));
    c
}
