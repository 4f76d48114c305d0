//! C04: includes, against a reference parser and a model of the includer protocol.
use super::*;
use crate::corpus;
use crate::doc::*;
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use std::borrow::Cow;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq)]
struct Inc {
    range: (usize, usize),
    site: Option<String>,
    page: String,
    args: Vec<(String, String)>, // effective, sorted
}

/// Recursive-descent reading of one include at the start of `t`.
struct P<'a> {
    t: &'a str,
    i: usize,
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.t[self.i..]
    }
    fn lit(&mut self, s: &str) -> bool {
        if self.rest().starts_with(s) {
            self.i += s.len();
            return true;
        }
        false
    }
    fn space(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\n', '\t']).len();
        self.i += n;
        n > 0
    }
    fn run(&mut self, ok: impl Fn(char) -> bool) -> &'a str {
        let r = self.rest();
        let n = r.find(|c| !ok(c)).unwrap_or(r.len());
        self.i += n;
        &r[..n]
    }
    fn at_end(&self) -> bool {
        let Some(r) = self.rest().strip_prefix("]]") else { return false };
        r.is_empty() || r.starts_with('\n') || r.starts_with('\r')
    }
    fn argument(&mut self) -> Option<(&'a str, &'a str)> {
        let k = self.run(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
        if k.is_empty() {
            return None;
        }
        self.space();
        if !self.lit("=") {
            return None;
        }
        self.space();
        let start = self.i;
        while !self.rest().is_empty() && !self.at_end() && !self.rest().starts_with('|') {
            self.i += self.rest().chars().next().unwrap().len_utf8();
        }
        if self.i == start {
            return None;
        }
        Some((k, &self.t[start..self.i]))
    }
}

fn not_name(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\t' | '[' | '|' | ']')
}

fn one(t: &str) -> Option<Inc> {
    let mut p = P { t, i: 0 };
    if !p.lit("[[") {
        return None;
    }
    p.space();
    if !p.rest().get(..7).is_some_and(|w| w.eq_ignore_ascii_case("include")) {
        return None;
    }
    p.i += 7;
    if !p.space() {
        return None;
    }
    // page reference: ":site:page" or "page", none of the spaces and separators within
    let start = p.i;
    if let Some(after) = p.rest().strip_prefix(':') {
        let n = after.find(|c| not_name(c) || c == ':').unwrap_or(after.len());
        if n > 0 && after[n..].starts_with(':') {
            p.i += n + 2;
        }
    }
    if p.run(|c| !not_name(c)).is_empty() {
        return None;
    }
    let whole = t[start..p.i].trim();
    let (site, page) = match whole.strip_prefix(':') {
        None if whole.is_empty() => return None,
        None => (None, whole.to_string()),
        Some(r) => {
            let (s, q) = r.split_once(':')?;
            if s.trim().is_empty() {
                return None;
            }
            (Some(s.trim().to_string()), q.trim().to_string())
        }
    };
    p.space();
    if p.lit("|") {
        p.space();
    }
    let mut args: Vec<(&str, &str)> = Vec::new();
    loop {
        let save = p.i;
        let Some(a) = p.argument() else {
            p.i = save;
            break;
        };
        args.push(a);
        p.space();
        if p.lit("|") {
            p.space();
        } else {
            break;
        }
    }
    p.space();
    if !p.at_end() {
        return None;
    }
    p.i += 2;
    let mut eff: Vec<(String, String)> = Vec::new();
    for (k, v) in args {
        if eff.iter().all(|(x, _)| x != k) && v != format!("{{${k}}}") {
            eff.push((k.to_string(), v.to_string()));
        }
    }
    eff.sort();
    Some(Inc { range: (0, p.i), site, page, args: eff })
}

fn all(t: &str) -> Vec<Inc> {
    let mut out: Vec<Inc> = Vec::new();
    let mut at = 0;
    while at <= t.len() {
        let start_of_line = at == 0 || t.as_bytes()[at - 1] == b'\n';
        if start_of_line {
            if let Some(mut inc) = one(&t[at..]) {
                inc.range = (at, at + inc.range.1);
                at = inc.range.1;
                out.push(inc);
                continue;
            }
        }
        at += 1;
    }
    out
}

fn substitute(content: &str, args: &[(String, String)]) -> String {
    let mut out = String::new();
    let mut r = content;
    while !r.is_empty() {
        if let Some(a) = r.strip_prefix("{$") {
            let n = a.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')).unwrap_or(a.len());
            if n > 0 && a[n..].starts_with('}') {
                let name = &a[..n];
                match args.iter().find(|(k, _)| k == name) {
                    Some((_, v)) => out.push_str(v),
                    None => out.push_str(&r[..n + 3]),
                }
                r = &r[n + 3..];
                continue;
            }
        }
        let c = r.chars().next().unwrap();
        out.push(c);
        r = &r[c.len_utf8()..];
    }
    out
}

// ---------------------------------------------------------------- the includer protocol
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Content(&'static str),
    Missing,
    OtherPage,
    OtherSite,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Script {
    answers: Vec<Answer>,
    fail_fetch: bool,
    fail_missing: bool,
    extra: i32,
}
#[derive(Clone, Debug, PartialEq)]
enum Fail {
    Fetch,
    Missing,
    Invalid,
}
#[derive(Default, Debug)]
struct Log {
    fetches: Vec<Vec<(Option<String>, String, Vec<(String, String)>)>>,
    missing: Vec<(Option<String>, String)>,
}
struct Scripted<'l> {
    script: Script,
    log: &'l mut Log,
}
fn refkey(p: &PageRef<'_>) -> (Option<String>, String) {
    (p.site().map(|s| s.to_string()), p.page().to_string())
}
fn missing_text(p: &(Option<String>, String)) -> String {
    format!("[[missing {:?} {} {{$k}}", p.0, p.1)
}
impl<'t> Includer<'t> for Scripted<'_> {
    type Error = Fail;
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, Fail> {
        self.log.fetches.push(
            includes
                .iter()
                .map(|i| {
                    let (s, p) = refkey(i.page_ref());
                    let mut v: Vec<(String, String)> = i.variables().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                    v.sort();
                    (s, p, v)
                })
                .collect(),
        );
        if self.script.fail_fetch {
            return Err(Fail::Fetch);
        }
        let mut out: Vec<FetchedPage<'t>> = Vec::new();
        for (k, i) in includes.iter().enumerate() {
            let a = self.script.answers.get(k % self.script.answers.len().max(1)).cloned().unwrap_or(Answer::Missing);
            let r = i.page_ref().clone();
            out.push(match a {
                Answer::Content(c) => FetchedPage { page_ref: r, content: Some(Cow::Borrowed(c)) },
                Answer::Missing => FetchedPage { page_ref: r, content: None },
                Answer::OtherPage => FetchedPage { page_ref: PageRef::page_only(format!("{}x", r.page())), content: Some(Cow::Borrowed("c")) },
                Answer::OtherSite => FetchedPage { page_ref: PageRef::page_and_site("other", r.page().to_string()), content: Some(Cow::Borrowed("c")) },
            });
        }
        if self.script.extra < 0 {
            out.pop();
        }
        if self.script.extra > 0 {
            out.push(FetchedPage { page_ref: PageRef::page_only("p"), content: None });
        }
        Ok(out)
    }
    fn no_such_include(&mut self, p: &PageRef<'t>) -> Result<Cow<'t, str>, Fail> {
        self.log.missing.push(refkey(p));
        if self.script.fail_missing {
            return Err(Fail::Missing);
        }
        Ok(Cow::Owned(missing_text(&refkey(p))))
    }
}

fn compare(doc: &str, script: &Script, mode: usize, compat: bool, cx: &mut Cx) -> Result<(), String> {
    let mut st = settings(MODES[mode]);
    st.use_include_compatibility = compat;
    let mut log = Log::default();
    let got = ftml::include(doc, &st, Scripted { script: script.clone(), log: &mut log }, || Fail::Invalid)
        .map(|(s, p)| (s, p.iter().map(refkey).collect::<Vec<_>>()));
    cx.runs += 1;
    let incs = if mode == 2 || mode == 3 { vec![] } else { all(doc) };
    // What was asked for
    let enabled = !(mode == 2 || mode == 3);
    let asked: Vec<_> = incs.iter().map(|i| (i.site.clone(), i.page.clone(), i.args.clone())).collect();
    if log.fetches.len() > 1 || log.fetches.first().is_some_and(|f| *f != asked) || (log.fetches.is_empty() && !asked.is_empty()) || (!enabled && !log.fetches.is_empty()) {
        return Err(format!("pages asked for: expected {asked:?}, found {:?}", log.fetches));
    }
    if !incs.is_empty() {
        cx.bump("documents_with_includes", 1);
        cx.nontrivial(doc);
    }
    cx.transitions += incs.len() as u64;
    // What may come of it
    let answer = |k: usize| script.answers.get(k % script.answers.len().max(1)).cloned().unwrap_or(Answer::Missing);
    let mut allowed: Vec<Fail> = Vec::new();
    let asked_at_all = !log.fetches.is_empty();
    if asked_at_all && script.fail_fetch {
        allowed.push(Fail::Fetch);
    } else if asked_at_all && (script.extra > 0 || (script.extra < 0 && !incs.is_empty())) {
        allowed.push(Fail::Invalid);
    } else {
        for k in 0..incs.len() {
            match answer(k) {
                Answer::OtherPage | Answer::OtherSite => allowed.push(Fail::Invalid),
                Answer::Missing if script.fail_missing => allowed.push(Fail::Missing),
                _ => {}
            }
        }
    }
    cx.state(&format!("{got:?}"));
    if !allowed.is_empty() {
        return match &got {
            Err(e) if allowed.contains(e) => Ok(()),
            g => Err(format!("expected an error of {allowed:?}, found {g:?}")),
        };
    }
    let mut want = String::new();
    let mut at = 0;
    let mut missing = Vec::new();
    for (k, i) in incs.iter().enumerate() {
        want.push_str(&doc[at..i.range.0]);
        let key = (i.site.clone(), i.page.clone());
        match answer(k) {
            Answer::Content(c) => want.push_str(&substitute(c, &i.args)),
            _ => {
                want.push_str(&missing_text(&key));
                missing.push(key);
            }
        }
        at = i.range.1;
    }
    want.push_str(&doc[at..]);
    let pages: Vec<_> = incs.iter().map(|i| (i.site.clone(), i.page.clone())).collect();
    let want = Ok((want, pages));
    if got != want {
        return Err(format!("expected {want:?}, found {got:?}"));
    }
    let mut m = log.missing;
    m.sort();
    missing.sort();
    if m != missing {
        return Err(format!("missing pages reported: expected {missing:?}, found {m:?}"));
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct results of include; each compared with a reference reading of the text and a model of the includer protocol, including what the includer was asked");
    c.at_least = vec![("documents_with_includes", 1000)];
    let x = thorough as usize;
    let plain = Script { answers: vec![Answer::Content("<{$k}|{$j}|{$z}>"), Answer::Missing, Answer::Content("")], ..Script::default() };
    let fam = |name: &str, a: &[&str], n: usize, pre: &str, suf: &str| {
        let s = plain.clone();
        word_family(name, a, n, pre, suf, move |d, _, cx| compare(d, &s, 0, false, cx))
    };
    c.families.push(fam("text", &["a", "é", " ", "\n", "[[include ", "[[ INCLUDE\t", "[[", "]]", "include", "p", "|", "k=v", "[[include p]]", "\r\n"], 5 + x, "", ""));
    c.families.push(fam("lines", &["[[include p]]", "[[include q|k=v]]", "[[include ", "\n", " ", "é", "\n[[include a |k=", "|", "]]"], 6 + x, "", ""));
    c.families.push(fam("head", &[":", "s", "p", " ", "\n", "\t", "[", "|", "]", "]]", "é", "/", "\u{a0}"], 5 + x, "[[include ", "]]\nx"));
    c.families.push(fam("start", &["[", "[[", " ", "\n", "\t", "include", "InClUdE", "x", "includes", "[[include", "\u{a0}", "\u{3000}", "\r"], 5 + x, "", " p]]"));
    c.families.push(fam("end", &["]", "]]", " ", "\n", "\r", "a", "|", "k=v", "\u{2028}", "\0"], 6 + x, "[[include p", ""));
    c.families.push(fam("arguments", &["k", "j", "=", "v", "|", " ", "\n", "{$k}", "]", "]]", "[[", "-", "é", "{$j}"], 5 + x, "[[include p ", "]]\n"));
    c.families.push(fam("arguments-2", &["|", " ", "k=a", "k = b", "j=c ", "=", "k", "{$k}", "k={$k}", "]]", "\n", "_-9=x"], 5 + x, "z\n[[include p|", "]]"));
    // variables in the fetched content
    let contents: Vec<&'static str> = {
        let w = Words::new(&["{$k}", "{$j}", "{$z}", "{", "$", "k", "}", "{$", "_", "-", "é", " "], 4 + x);
        (0..w.count()).map(|i| &*Box::leak(w.doc(i).into_boxed_str())).collect()
    };
    c.families.push(list_family(
        "variables",
        &format!("all contents of length 0..={} over 12 symbols, in an include with two arguments one of whose values is a variable", 4 + x),
        contents,
        |s| s.to_string(),
        move |s, cx| {
            let sc = Script { answers: vec![Answer::Content(s)], ..Script::default() };
            compare("é\n[[include p |k={$j}|j=v{$k}|_=u|-=w]]\nz\n[[include q]]", &sc, 0, false, cx)
        },
    ));
    // every history of answers and failures
    const DOCS: &[&str] = &[
        "",
        "no include",
        "[[include p]]",
        "a\n[[include p | k=v]]\nb\n[[include :s:q]]",
        "[[include p]]\n[[include p]]\n[[include p]]",
        "é[[include p]]\n[[include é|j=1]]\n𝒜\n[[include q]]\n[[include :s:é | k=]]",
        "[[include p |k=\n[[include q]]\n[[include r]]",
        "[[include a]]\n\n[[include b]]\n\n[[include c]]\n\n[[include d]]",
    ];
    const ANSWERS: &[Answer] = &[
        Answer::Content(""),
        Answer::Content("é{$k}é"),
        Answer::Content("[[include p]]\nvery long content which is longer than the include itself"),
        Answer::Missing,
        Answer::OtherPage,
        Answer::OtherSite,
    ];
    let n = ANSWERS.len();
    let make = |ix: &[usize]| (DOCS[ix[0]], Script { answers: ix[1..5].iter().map(|&i| ANSWERS[i].clone()).collect(), fail_fetch: ix[5] == 1, fail_missing: ix[6] == 1, extra: ix[7] as i32 - 1 }, ix[8], ix[9] == 1);
    c.families.push(product_family(
        "histories",
        "8 texts x every sequence of 4 answers (6 kinds) x fetch failure x missing-page failure x one answer too few/right/too many x 5 modes x include compatibility",
        &[DOCS.len(), n, n, n, n, 2, 2, 3, 5, 2],
        Box::new(move |ix| format!("{:?}", make(ix))),
        move |ix, cx| {
            let (d, s, m, k) = make(ix);
            compare(d, &s, m, k, cx)
        },
    ));
    let s = plain.clone();
    let f: corpus::DocFn = Arc::new(move |d, cx| compare(d, &s, 0, false, cx));
    c.families.extend(corpus::words(&[], 2, &f));
    c.families.extend(corpus::fixture_edits(&f));
    let s = plain.clone();
    let g: corpus::DocFn = Arc::new(move |d, cx| compare(&format!("[[include p | k = {d} | j=x]]\n{d}\n[[include q]]"), &s, 0, true, cx));
    c.families.extend(corpus::words(&[], 2, &g).into_iter().map(|mut f| {
        f.name = format!("as-value:{}", f.name);
        f
    }));
    c
}
