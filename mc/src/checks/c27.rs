//! C27: what the mode and the settings allow. Every mode's documents are compared with the reference parser and
//! renderer under flags pinned here, and with each other.
use super::grammar::*;
use super::*;
use crate::corpus;
use crate::doc::*;
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use ftml::prelude::*;
use std::borrow::Cow;
use std::sync::Arc;

const RULE: &str = "distinct canonical DOMs in which some construct was used; every document's HTML in every mode is compared with the reference rendering for the flags which that mode has to have";

/// What each of MODES has to allow: page syntax, true ids, local paths.
const ALLOWED: [(bool, bool, bool); 5] = [(true, true, true), (true, false, true), (false, false, false), (false, false, false), (true, false, true)];

fn with_flags(mode: usize, (page, ids, local): (bool, bool, bool)) -> WikitextSettings {
    let mut st = settings(MODES[mode]);
    st.enable_page_syntax = page;
    st.use_true_ids = ids;
    st.allow_local_paths = local;
    st.use_include_compatibility = false;
    st.isolate_user_ids = false;
    st
}

/// The document in every mode.
fn modes(doc: &str, cx: &mut Cx) -> Result<(), String> {
    for (k, flags) in ALLOWED.iter().enumerate() {
        compare_as(doc, &settings(MODES[k]), &with_flags(k, *flags), cx).map_err(|e| format!("{:?}: {e}", MODES[k]))?;
    }
    Ok(())
}

/// The document under every combination of flags, whatever the mode.
fn flags(doc: &str, cx: &mut Cx) -> Result<(), String> {
    for k in 0..MODES.len() {
        for f in 0..8 {
            let st = with_flags(k, (f & 1 > 0, f & 2 > 0, f & 4 > 0));
            compare_in(doc, &st, cx).map_err(|e| format!("{:?} with page syntax {}, true ids {}, local paths {}: {e}", MODES[k], st.enable_page_syntax, st.use_true_ids, st.allow_local_paths))?;
        }
    }
    Ok(())
}

/// No includes are resolved, or even asked for, where there is no page syntax.
struct Never;
impl<'t> Includer<'t> for Never {
    type Error = &'static str;
    fn include_pages(&mut self, _: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, Self::Error> {
        Err("pages were asked for")
    }
    fn no_such_include(&mut self, _: &PageRef<'t>) -> Result<Cow<'t, str>, Self::Error> {
        Err("a missing page was reported")
    }
}
fn includes(doc: &str, cx: &mut Cx) -> Result<(), String> {
    for k in [2, 3] {
        for compat in [false, true] {
            let mut st = settings(MODES[k]);
            st.use_include_compatibility = compat;
            cx.runs += 1;
            let got = ftml::include(doc, &st, Never, || "invalid");
            match got {
                Ok((text, pages)) if text == doc && pages.is_empty() => {}
                got => return Err(format!("{:?}: {got:?} instead of the text as it was", MODES[k])),
            }
        }
    }
    Ok(())
}

const PAGE_ONLY: &[&str] = &[
    "[[toc]]", "[[f>toc]]", "[[F<TOC ]]", "[[toc x]]", "[[ toc class=\"c\"]]", "[[include p]]", "[[include p a=b | c=d]]", "[[INCLUDE-MESSY p]]", "[[include-elements p]]", "[[module Rate]]", "[[module654 join]]", "[[module css]]x[[/module]]", "[[module CSS]]\na{}\n[[/module]]",
    "[[module ListPages limit=\"1\"]]\n**%%title%%**\n[[/module]]", "[[module Backlinks page=\"x\"]]", "[[module nope]]", "[[module]]", "[[*module CSS]]x[[/module]]", "[[module_ CSS]]x[[/module]]", "[[/module]]", "[[module PageTree]]", "[[module Categories includehidden=\"true\"]]", "[[module ListPages]]\n[[module CSS]]x[[/module]]\n[[/module]]",
    "[[include\np]]", "[[include :s:p]]", "[[f<toc]] x", "[[toc]] + h", "[[modul CSS]]", "[[module CSS]]",
];
const LOCAL: &[&str] = &[
    "[[image f.png]]", "[[image p/f.png link=\"x\"]]", "[[image s/p/f.png]]", "[[image /f.png]]", "[[image :first]]", "[[=image /a/b/c alt=\"x\"]]", "[[f<image f]]", "[[image http://a.b/f.png]]", "[[image https://a.b/f.png link=\"*http://c.d\"]]", "[[image a/b/c/d]]", "[[>image f.png]]",
    "[[file f]]", "[[audio f.mp3]]", "[[image ]]", "[[image f.png",
];
const COMMON: &[&str] = &[
    "+ h", "++ h\n+* g", "[[footnote]]a[[/footnote]]", "[[footnoteblock]]", "[[div id=\"i\"]]x[[/div]]", "[[html]]<b>[[/html]]", "[[iframe http://a.b]]", "[[code]]x[[/code]]", "[[# anchor]]", "[[a id=\"i\"]]x[[/a]]", "[[embed youtube video=\"v\"]]", "[[math e]]x[[/math]]", "[[eref e]]",
    "[[bibliography]]\n: a : b\n[[/bibliography]]", "((bibcite a))", "[[collapsible]]x[[/collapsible]]", "[[tabview]][[tab t]]x[[/tab]][[/tabview]]", "[[user u]]", "[[*user u]]", "[[[x]]]", "[[[/x/y|l]]]", "[http://a.b l]", "[/x l]", "[#x l]", "[[checkbox]]", "[[radio x]]", "[[lines 2]]", "[[date 1]]", "[[iftags tale]]x[[/iftags]]", "----",
    "* x\n* y", "# x", "|| a || b ||", ": a : b", "> q", "[[css]]a{b:c}[[/css]]", "[[style]]a{b:c}[[/style]]", "{$v}", "[!-- c --]", "@@**@@",
];
pub const AROUND: &[(&str, &str)] = &[
    ("", ""), ("a ", " b"), ("a\n", "\nb"), ("* ", ""), ("|| ", " ||"), ("> ", ""), ("**", "**"), ("[[div]]\n", "\n[[/div]]"), ("[[span]]", "[[/span]]"), ("+ ", ""), (": ", " : c"), ("[!--", "--]"), ("@@", "@@"), ("[[footnote]]", "[[/footnote]]"), ("[[code]]", "[[/code]]"), ("[[html]]", "[[/html]]"),
    ("[[iftags tale]]", "[[/iftags]]"), ("[[iftags -tale]]", "[[/iftags]]"), ("[[module ListPages]]\n", "\n[[/module]]"), ("[[li]]", "[[/li]]"), ("[[collapsible]]", "[[/collapsible]]"), ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]"), ("[[[x|", "]]]"), ("[http://a.b ", "]"), ("[[", "]]"), ("[", "]"), ("[[tabview]][[tab t]]", "[[/tab]][[/tabview]]"),
];

/// A use of every construct.
pub fn pool() -> Vec<&'static str> {
    PAGE_ONLY.iter().chain(LOCAL).chain(COMMON).copied().collect()
}

pub fn check(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    let all = pool();
    let n = all.len();
    for (name, run) in [("modes", modes as fn(&str, &mut Cx) -> Result<(), String>), ("flags", flags)] {
        let a = all.clone();
        let make = move |ix: &[usize]| format!("{}{}{}", AROUND[ix[1]].0, a[ix[0]], AROUND[ix[1]].1);
        let m = make.clone();
        c.families.push(product_family(&format!("uses, {name}"), "every construct x surrounding", &[n, AROUND.len()], Box::new(make), move |ix, cx| run(&m(ix), cx)));
    }
    let a = all.clone();
    let make = move |ix: &[usize]| format!("{}{}{}{}{}", AROUND[ix[3]].0, a[ix[0]], ["\n", "\n\n", " ", ""][ix[2]], a[ix[1]], AROUND[ix[3]].1);
    let m = make.clone();
    let surroundings = if thorough { AROUND.len() } else { 1 };
    c.families.push(product_family("pairs", "all ordered pairs of constructs x separators, in every mode", &[n, n, 4, surroundings], Box::new(make), move |ix, cx| modes(&m(ix), cx)));
    // heads and names
    const HEAD: &[&str] = &["toc", "module", "include", "include-elements", "image", "f>", " ", "\n", "x", "CSS", "a=\"b\"", "]]", "[[", "_", "*", "/", "http://a.b", "|"];
    for (p, s) in [("[[", "]]"), ("[[module", "]]x[[/module]]"), ("[[image ", "]]"), ("", "")] {
        c.families.push(word_family(&format!("heads in {p}..{s}"), HEAD, 3 + x, p, s, |d, w, cx| {
            cx.transitions += w.len().saturating_sub(1) as u64;
            modes(d, cx)
        }));
    }
    c.families.extend(corpus::words(&["blocks", "side", "objects", "inline", "lines"], 2 + x, &(Arc::new(modes) as corpus::DocFn)));
    c.families.extend(corpus::fixture_edits(&(Arc::new(if thorough { flags } else { modes }) as corpus::DocFn)));
    // includes
    const INCLUDE: &[&str] = &["[[include ", "p", " | ", "a=b", "]]", "\n", "[[include p]]", "[[INCLUDE-MESSY p]]", "[[module CSS]]", "x", "[[", "include", " ", ":s:p"];
    c.families.push(word_family("includes where there is no page syntax", INCLUDE, 4 + x, "", "", |d, _, cx| includes(d, cx)));
    c.at_least = vec![("module", 1_000), ("toc", 1_000), ("include-elements", 100), ("image", 1_000)];
    c
}
