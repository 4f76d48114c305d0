//! Shared by the checks of the line and inline grammar: a document's HTML is compared with the reference rendering of
//! what the reference parser makes of its text.
use super::*;
use crate::doc::*;
use crate::{corpus, html, refparse, refrender};
use ftml::prelude::*;
use std::sync::Arc;

fn side(t: &ftml::tree::SyntaxTree) -> String {
    format!("code blocks {:?}, HTML blocks {:?}, {} footnotes", t.code_blocks, t.html_blocks, t.footnotes.len())
}

pub fn compare(doc: &str, cx: &mut Cx) -> Result<(), String> {
    compare_in(doc, &page_settings(), cx)
}

pub fn compare_in(doc: &str, st: &WikitextSettings, cx: &mut Cx) -> Result<(), String> {
    compare_as(doc, st, st, cx)
}

/// The real code under `st`, compared with what the reference says for `expected`.
pub fn compare_as(doc: &str, st: &WikitextSettings, expected: &WikitextSettings, cx: &mut Cx) -> Result<(), String> {
    compare_then(doc, st, expected, cx, |_, _, _, _| Ok(()))
}

/// Also runs `then` on the tree, the warnings and what the reference used.
pub fn compare_then(
    doc: &str,
    st: &WikitextSettings,
    expected: &WikitextSettings,
    cx: &mut Cx,
    then: impl Fn(&ftml::tree::SyntaxTree, &[ftml::parsing::ParseError], &[&'static str], &mut Cx) -> Result<(), String>,
) -> Result<(), String> {
    compare_on(doc, &page_info(), st, expected, cx, then)
}

/// On another page (whose tags and category are the same).
pub fn compare_on(
    doc: &str,
    info: &PageInfo,
    st: &WikitextSettings,
    expected: &WikitextSettings,
    cx: &mut Cx,
    then: impl Fn(&ftml::tree::SyntaxTree, &[ftml::parsing::ParseError], &[&'static str], &mut Cx) -> Result<(), String>,
) -> Result<(), String> {
    let mut s = doc.to_string();
    ftml::preprocess(&mut s);
    let Some((tree, used)) = refparse::parse_in(&s, expected.enable_page_syntax) else { return Ok(()) };
    let mut r = refrender::Ref::new(&tree, info, expected);
    let want = html::canon(&r.body());
    let want_side = side(&tree);
    cx.runs += 1;
    cx.state(&want);
    if !used.is_empty() {
        cx.nontrivial(&want);
    }
    for u in &used {
        cx.bump(u, 1);
    }
    with_parse(&s, info, st, |_, tree, errs| {
        then(tree, errs, &used, cx)?;
        let out = html_of(tree, info, st);
        let links: Vec<String> = out.backlinks.internal_links.iter().map(|p| format!("{:?}:{}", p.site.as_deref(), p.page)).collect();
        if links != r.internal || out.backlinks.external_links != r.external {
            return Err(format!("not the links which are there: {links:?} and {:?} instead of {:?} and {:?}", out.backlinks.external_links, r.internal, r.external));
        }
        let out = out.body;
        let dom = html::parse(&out).map_err(|e| format!("output is not well formed: {e}\n{out}"))?;
        let got = html::canon(&refrender::mask(&dom));
        if side(tree) != want_side {
            return Err(format!("not what the grammar says: {} instead of {want_side}", side(tree)));
        }
        if want != got {
            return Err(format!("not what the grammar says: {}", html::diff(&want, &got)));
        }
        Ok(())
    })
}

pub fn f() -> corpus::DocFn {
    Arc::new(compare)
}

/// Words over `alphabet`, in each of the contexts.
pub fn words(name: &str, alphabet: &'static [&'static str], n: usize, around: &[(&'static str, &'static str)]) -> Vec<Family> {
    around
        .iter()
        .map(|(p, s)| {
            word_family(&format!("{name} in {p:?}..{s:?}"), alphabet, n, p, s, |doc, w, cx| {
                cx.transitions += w.len().saturating_sub(1) as u64;
                compare(doc, cx)
            })
        })
        .collect()
}

/// Every document of `n` lines, each a marker and an own letter, joined by line breaks.
pub fn lines(name: &str, markers: &'static [&'static str], n: usize) -> Family {
    let make = move |ix: &[usize]| {
        let l: Vec<String> = ix.iter().enumerate().map(|(i, &k)| markers[k].replace('%', &"abcdefghij"[i..i + 1])).collect();
        l.join("\n")
    };
    product_family(name, &format!("all sequences of {n} of the lines {markers:?}, where % is a letter of its own in each"), &vec![markers.len(); n], Box::new(make), move |ix, cx| compare(&make(ix), cx))
}

/// Nothing around.
pub const PLAIN: &[(&str, &str)] = &[("", "")];

pub fn edits(c: &mut Check, thorough: bool) {
    c.families.extend(corpus::fixture_edits(&f()));
    c.families.extend(corpus::scale(thorough, &f()));
    if thorough {
        c.families.extend(corpus::fixture_pairs(&f()));
    }
}

/// Every printable ASCII character and some others, so that no rule goes by one that the alphabets do not have.
const CHARS: &str = " !\"#$%&'()*+,-./0123456789:;<=>?@ABMNXYZ[\\]^_`abfmnrtxyz{|}~\n\té\u{a0}“…\u{2028}𝔸";

/// Each template with every word of up to two characters in place of its '§'.
pub fn chars(templates: &'static [&'static str]) -> Family {
    let chars: Vec<char> = CHARS.chars().collect();
    let n = chars.len() + 1;
    let make = move |ix: &[usize]| {
        let w: String = ix[1..].iter().filter_map(|&k| chars.get(k.wrapping_sub(1))).collect();
        templates[ix[0]].replace('§', &w)
    };
    let m = make.clone();
    product_family("characters", &format!("every word of up to two of {} characters in place of '§' in each of {templates:?}", n - 1), &[templates.len(), n, n], Box::new(make), move |ix, cx| compare(&m(ix), cx))
}
