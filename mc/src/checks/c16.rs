//! C16: results are a function of the arguments. Operations are run in every sequence, in every
//! order of first use (in fresh processes), and with every preemption at a log call of ftml, which
//! the harness's logger turns into a scheduling point.
use super::*;
use crate::doc::*;
use ftml::data::{PageInfo, PageRef, ScoreValue};
use ftml::includes::{DebugIncluder, FetchedPage, IncludeRef, Includer};
use ftml::layout::Layout;
use ftml::prelude::*;
use ftml::render::html::HtmlRender;
use ftml::render::text::TextRender;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

const RICH: &str = "+ A [[footnote]]n **b**[[/footnote]]\n\n[[toc]]\n[[tabview]]\n[[tab one]]\nx ((bibcite k)) [[eref m]]\n[[/tab]]\n[[tab two]]\n[[code type=\"PHP\" name=\"c\"]]\ny\n[[/code]]\n[[/tab]]\n[[/tabview]]\n\n++ B\n\n[[bibliography]]\n: k : K\n[[/bibliography]]\n[[math m]]\nx\n[[/math]]\n[[html]]\n<i>\n[[/html]]\n[[footnote]]o[[/footnote]]";
const LINKS: &str = "[[[p|l]]] [!wp:K w] [http://x.y z] [[image i.png]] [[date 1 tz=\"+1\"]] [[module CSS]]\na{b:c}\n[[/module]] \"x\" ``q'' ... [[user U]] [[iftags tale]]t[[/iftags]] {$v} https://a.b [[ruby]]R[[rt]]T[[/rt]][[/ruby]]";
const BROKEN: &str = "[[div]] **a [[footnote]] b\n+ H\n[[code]]\nx\n* x\n|| y\n> z [[/div]] [[[ @@ ((bibcite k))";

fn info(tag: &str) -> PageInfo<'static> {
    PageInfo {
        page: Cow::Owned(format!("page-{tag}")),
        category: Some(Cow::Owned(format!("cat-{tag}"))),
        site: Cow::Owned(format!("site-{tag}")),
        title: Cow::Owned(format!("Title {tag}")),
        alt_title: None,
        score: ScoreValue::Integer(1),
        tags: vec![Cow::Owned(tag.to_string())],
        language: Cow::Borrowed("default"),
    }
}

fn all(text: &str, info: &PageInfo<'_>, st: &WikitextSettings) -> String {
    let mut s = text.to_string();
    ftml::preprocess(&mut s);
    with_parse(&s, info, st, |tok, tree, errs| {
        let h = HtmlRender.render(tree, info, st);
        let t = TextRender.render(tree, info, st);
        let p = TextRender.render_partial(&tree.elements, info, st, tree.wikitext_len);
        let map = ftml::Utf16IndexMap::new(&s);
        let e: Vec<_> = errs.iter().map(|e| e.to_utf16_indices(&map)).collect();
        undated(&derandom(&format!("{} tokens\n{tree:?}\n{e:?}\n{}\n{:?}\n{:?}\n{t}\n{p}", tok.tokens().len(), h.body, h.meta, h.backlinks)))
    })
}

/// The distance of a date from the present, masked.
pub fn undated(s: &str) -> String {
    let mut parts = s.split("data-delta=\"");
    let mut out = parts.next().unwrap_or("").to_string();
    for p in parts {
        out.push_str("data-delta=\"");
        out.push_str(p.trim_start_matches(|c: char| c == '-' || c.is_ascii_digit()));
    }
    out
}

/// Answers each include according to the page's name; may fail, lie, panic or use ftml itself.
struct Pages;
impl<'t> Includer<'t> for Pages {
    type Error = String;
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        let mut out = Vec::new();
        for i in includes {
            let page_ref = i.page_ref().clone();
            let content = match page_ref.page() {
                "fail" => return Err("failed".into()),
                "short" => return Ok(vec![]),
                "panic" => panic!("includer"),
                "missing" => None,
                "nested" => Some(Cow::Owned(all(LINKS, &info("nested"), &settings(WikitextMode::Draft)))),
                p => Some(Cow::Owned(format!("<{p} {{$a}}>"))),
            };
            out.push(FetchedPage { page_ref, content });
        }
        Ok(out)
    }
    fn no_such_include(&mut self, p: &PageRef<'t>) -> Result<Cow<'t, str>, String> {
        Ok(Cow::Owned(format!("no {p:?}")))
    }
}

fn included(doc: &str) -> String {
    format!("{:?}", guard(|| ftml::include(doc, &page_settings(), Pages, || "invalid".to_string())).map_err(|_| "panic"))
}

type Op = (&'static str, fn() -> String);
pub const OPS: &[Op] = &[
    ("rich page", || all(RICH, &info("x"), &page_settings())),
    ("small page", || all("+ A\n\n[[footnote]]a[[/footnote]]", &info("z"), &page_settings())),
    ("links draft", || all(LINKS, &info("tale"), &settings(WikitextMode::Draft))),
    ("small forum post", || all("**x** [[toc]] [[module Rate]] \"", &info("z"), &settings(WikitextMode::ForumPost))),
    ("broken list", || all(BROKEN, &info("y"), &settings(WikitextMode::List))),
    ("rich message, isolated", || {
        let mut st = WikitextSettings::from_mode(WikitextMode::DirectMessage, Layout::Wikijump);
        st.isolate_user_ids = true;
        st.minify_css = false;
        all(RICH, &info("x"), &st)
    }),
    ("too deep", || all(&"[[div]]".repeat(110), &info("y"), &page_settings())),
    ("interwiki", || {
        let mut st = page_settings();
        st.interwiki = InterwikiSettings { prefixes: HashMap::from([(Cow::Borrowed("wp"), Cow::Borrowed("https://other/$$"))]) };
        all(LINKS, &info("other"), &st)
    }),
    ("include", || included("[[include a a=1]]\n[[include missing]]\n[[include :s:b |a={$a}]]")),
    ("include failing", || included("x\n[[include a]]\n[[include fail]]")),
    ("include short", || included("[[include short]]")),
    ("include panicking", || included("[[include panic]]")),
    ("include nested", || included("[[include nested]]\n[[include a]]")),
    ("debug include", || format!("{:?}", ftml::include("[[include p |a=1]]", &page_settings(), DebugIncluder, || unreachable!()).map_err(|_| ()))),
    ("empty", || all("", &info("e"), &page_settings())),
    ("small conditional", || all("[[iftags e]]t[[/iftags]] [[ifcategory cat-e]]c[[/ifcategory]] [[date 1]] 'x'", &info("e"), &page_settings())),
];

/// Subprocess: runs operations in the given order, printing every result.
pub fn subprocess(list: &str) {
    let out: Vec<String> = list.split(',').map(|k| OPS[k.parse::<usize>().unwrap()].1()).collect();
    println!("{}", serde_json::to_string(&out).unwrap());
}

fn fresh(list: &[usize]) -> Result<Vec<String>, String> {
    let arg = list.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).args(["c16-ops", &arg]).output().map_err(|e| e.to_string())?;
    serde_json::from_slice(&o.stdout).map_err(|e| format!("fresh process failed: {e}: {}", String::from_utf8_lossy(&o.stderr)))
}

/// What each operation gives as the first of its process.
fn baseline() -> &'static Result<Vec<String>, String> {
    static B: OnceLock<Result<Vec<String>, String>> = OnceLock::new();
    B.get_or_init(|| (0..OPS.len()).map(|k| fresh(&[k]).map(|mut v| v.remove(0))).collect())
}

fn same(k: usize, got: &str, how: impl Fn() -> String) -> Result<(), String> {
    let b = baseline().as_ref().map_err(|e| e.clone())?;
    if b[k] == got {
        return Ok(());
    }
    Err(format!("operation {:?} differs {}: {}", OPS[k].0, how(), crate::html::diff(&b[k], got)))
}

// ---- the controlled scheduler ----

struct St {
    turn: usize,
    done: [bool; 2],
    free: bool,
}
struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}
struct Me {
    s: Arc<Sched>,
    id: usize,
    events: u64,
    switch_at: u64,
}
thread_local! {
    static ME: RefCell<Option<Me>> = const { RefCell::new(None) };
}
struct Points;
impl log::Log for Points {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        ME.with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                if let Some(me) = m.as_mut() {
                    me.events += 1;
                    if me.events == me.switch_at {
                        me.s.give(me.id);
                        me.s.wait(me.id);
                    }
                }
            }
        })
    }
    fn flush(&self) {}
}

impl Sched {
    fn give(&self, id: usize) {
        let mut st = self.m.lock().unwrap();
        if !st.done[1 - id] {
            st.turn = 1 - id;
            self.cv.notify_all();
        }
    }
    fn wait(&self, id: usize) {
        let mut st = self.m.lock().unwrap();
        while st.turn != id && !st.free {
            let (g, t) = self.cv.wait_timeout(st, Duration::from_secs(5)).unwrap();
            st = g;
            if t.timed_out() {
                // The other thread is blocked by something this one holds: not a possible schedule.
                st.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn finish(&self, id: usize) {
        let mut st = self.m.lock().unwrap();
        st.done[id] = true;
        st.turn = 1 - id;
        self.cv.notify_all();
    }
}

/// Runs two operations on two threads: the first up to its i-th scheduling point, the second up to its j-th
/// (0: to its end), then the first to its end and the second. Returns results, events and feasibility.
fn scheduled(a: usize, b: usize, i: u64, j: u64) -> ([String; 2], [u64; 2], bool) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Points);
        log::set_max_level(log::LevelFilter::Trace);
    });
    let s = Arc::new(Sched { m: Mutex::new(St { turn: 0, done: [false; 2], free: false }), cv: Condvar::new() });
    let spawn = |id: usize, op: usize, switch_at: u64| {
        let s = s.clone();
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                s.wait(id);
                ME.with(|m| *m.borrow_mut() = Some(Me { s: s.clone(), id, events: 0, switch_at }));
                let r = guard(|| OPS[op].1()).unwrap_or_else(|e| e);
                let n = ME.with(|m| m.borrow_mut().take()).map_or(0, |m| m.events);
                s.finish(id);
                (r, n)
            })
            .unwrap()
    };
    let (x, y) = (spawn(0, a, i), spawn(1, b, j));
    let ((ra, na), (rb, nb)) = (x.join().unwrap(), y.join().unwrap());
    let free = s.m.lock().unwrap().free;
    ([ra, rb], [na, nb], !free)
}

fn one(a: usize, b: usize, i: u64, j: u64, cx: &mut Cx) -> Result<[u64; 2], String> {
    let (r, n, ok) = scheduled(a, b, i, j);
    cx.runs += 1;
    cx.bump("schedules", 1);
    if !ok {
        cx.bump("infeasible_schedules", 1);
    }
    let how = || format!("when {:?} is preempted at its scheduling point {i} and {:?} at {j}", OPS[a].0, OPS[b].0);
    same(a, &r[0], how)?;
    same(b, &r[1], how)?;
    Ok(n)
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct pairs of results, in any order");
    c.at_least = vec![("schedules", 5_000), ("sequences", 1000)];
    c.assumptions.push("Scheduling points are ftml's calls of the log facade; code between two of them is treated as atomic.".into());
    let n = OPS.len();
    let names = |ix: &[usize]| ix.iter().map(|k| OPS[*k].0).collect::<Vec<_>>().join(" ; ");
    let h = 3 + thorough as usize;
    c.families.push(product_family("histories", "every sequence of operations on one thread, each result compared with that of a fresh process", &vec![n; h], Box::new(move |ix| names(ix)), move |ix, cx| {
        cx.bump("sequences", 1);
        for (at, &k) in ix.iter().enumerate() {
            let r = OPS[k].1();
            cx.runs += 1;
            cx.transitions += 1;
            cx.state(&r);
            same(k, &r, || format!("after {:?}", names(&ix[..at])))?;
        }
        cx.nontrivial(&names(&ix[..2]));
        Ok(())
    }));
    let f = 2 + thorough as usize;
    c.families.push(product_family("first-use", "every sequence of operations as the first of a fresh process", &vec![n; f], Box::new(move |ix| names(ix)), move |ix, cx| {
        for (at, (r, &k)) in fresh(ix)?.iter().zip(ix).enumerate() {
            cx.runs += 1;
            cx.transitions += 1;
            same(k, r, || format!("in a fresh process after {:?}", names(&ix[..at])))?;
        }
        Ok(())
    }));
    let first: Vec<usize> = (0..n).filter(|&k| thorough || !["too deep", "interwiki", "broken list"].contains(&OPS[k].0)).collect();
    let second: Vec<usize> = (0..n).filter(|&k| thorough || ["small page", "small forum post", "too deep", "include", "include panicking", "small conditional"].contains(&OPS[k].0)).collect();
    let (f2, s2) = (first.clone(), second.clone());
    const PARTS: usize = 16;
    c.families.push(product_family("preemptions", "every operation x every single preemption of it by another operation (in sixteen parts)", &[first.len(), second.len(), PARTS], Box::new(move |ix| format!("{} (part {})", names(&[f2[ix[0]], s2[ix[1]]]), ix[2])), move |ix, cx| {
        let mut i = 1 + ix[2] as u64;
        loop {
            let [na, _] = one(first[ix[0]], second[ix[1]], i, 0, cx)?;
            cx.transitions += 1;
            cx.max("scheduling_points", na);
            i += PARTS as u64;
            if i > na {
                return Ok(());
            }
        }
    }));
    // two preemptions, of the operations with few scheduling points
    let small: Vec<usize> = (0..n).filter(|&k| ["small page", "include", "include failing", "include short", "include panicking", "debug include", "empty"].contains(&OPS[k].0)).collect();
    let pairs: Vec<[usize; 2]> = small.iter().flat_map(|&a| small.iter().map(move |&b| [a, b])).filter(|p| thorough || p[0] != p[1] || OPS[p[0]].0 != "small page").collect();
    let p2 = pairs.clone();
    c.families.push(product_family("two-preemptions", "every pair of short operations x every preemption of each by the other (in sixteen parts)", &[pairs.len(), PARTS], Box::new(move |ix| format!("{} (part {})", names(&p2[ix[0]]), ix[1])), move |ix, cx| {
        let [a, b] = pairs[ix[0]];
        let (mut i, mut na) = (1 + ix[1] as u64, 1);
        while i <= na.max(1 + ix[1] as u64) {
            let (mut j, mut nb) = (1, 1);
            while j <= nb {
                let n = one(a, b, i, j, cx)?;
                cx.transitions += 1;
                (na, nb) = (n[0], n[1]);
                j += 1;
            }
            i += PARTS as u64;
        }
        Ok(())
    }));
    c
}
