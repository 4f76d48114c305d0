//! C13: link and source addresses. The oracle reads an address the way a browser does.
use super::*;
use crate::doc::*;
use crate::html;
use crate::refrender;

const PREFIX: &[&str] = &["", " ", "*", "/", "//", "\\t", "\u{1}", "\u{a0}", "\u{feff}", "#", "x", "&#1;", "\\n"];
const SCHEME: &[&str] = &[
    "javascript", "JavaScript", "jAvAsCrIpT", "java\\tscript", "java\\nscript", "java\\r\\nscript", "java script", "java-script", "java\u{0}script", "java\u{ad}script", "ja\\\\vascript", "data", "DATA", "Data", "d\\nata", "vbscript", "VBScript", "&#106;avascript", "&#x6A;avascript", "%6aavascript", "\\u006aavascript", "jаvascript",
    "javaſcript", "http", "HTTP", "https", "mailto", "blob", "file", "ftp", "feed", "view-source", "livescript", "jar", "x", "",
];
const SEP: &[&str] = &[":", "://", " :", "\\t:", "&colon;", "%3a", "::", "：", ""];
const REST: &[&str] = &["", ";", "alert(1)", "text/html,<i>", "//x", "x#y:z", "%0aalert(1)", "x/../y", "void(0);"];
const SITES: &[&str] = &[
    "[[a href=\"T\"]]x[[/a]]", "[[a_ href=\"T\"]]x[[/a]]", "[[*a HREF=\"T\"]]x[[/a]]", "[[[T|x]]]", "[[[*T|x]]]", "[[[T]]]", "[[[ T | ]]]", "[T x]", "[*T x]", "T", "[#T x]", "[[[!wikipedia:T|x]]]", "[!google:T x]", "[[image T]]", "[[image http://a.b/c link=\"T\"]]", "[[=image T link=\"*T\"]]", "[[image c.png src=\"T\"]]",
    "[[iframe T]]", "[[iframe http://a.b/ src=\"T\"]]", "[[div href=\"T\" src=\"T\"]]\nx\n[[/div]]", "[[span src=\"T\"]]x[[/span]]", "[[ul href=\"T\"]]\n[[li src=\"T\"]]x[[/li]]\n[[/ul]]", "[[collapsible href=\"T\"]]\nx\n[[/collapsible]]", "[[table src=\"T\"]]\n[[row href=\"T\"]]\n[[cell href=\"T\"]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[toc href=\"T\"]]",
    "[[checkbox src=\"T\"]]", "[[user T]]", "[[*user T]]", "[[embed youtube video=\"T\"]]", "[[embed vimeo video=\"T\"]]", "[[embed github-gist username=\"T\" hash=\"T\"]]", "[[embed gitlab-snippet snippet-id=\"T\"]]", "[[module Join href=\"T\"]]", "[[[T#T|x]]]", "[[# T]]", "[[ruby href=\"T\"]]x[[rt src=\"T\"]]y[[/rt]][[/ruby]]", "[[[x:T|y]]]", "[[[:T|y]]]", "[[[:x:T|y]]]",
];

/// None: relative to the page or site. Otherwise the scheme, in lower case.
pub fn scheme(address: &str) -> Option<String> {
    let a: String = address.trim_matches(|c: char| c <= ' ').chars().filter(|c| !['\t', '\n', '\r'].contains(c)).collect();
    let (s, _) = a.split_once(':')?;
    let mut chars = s.chars();
    let ok = chars.next().map_or(false, |c| c.is_ascii_alphabetic()) && chars.all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c));
    ok.then(|| s.to_ascii_lowercase())
}

pub fn addresses(doc: &str, cx: &mut Cx) -> Result<(), String> {
    page(doc, |_, tree, _| {
        for mode in [ftml::settings::WikitextMode::Page, ftml::settings::WikitextMode::ForumPost] {
            let out = html_of(tree, &page_info(), &settings(mode));
            let dom = html::parse(&out.body)?;
            cx.runs += 1;
            let mut bad = None;
            let mut seen = String::new();
            let mut n = 0;
            html::walk(&dom, &mut |node| {
                for key in ["href", "src", "action", "formaction", "xlink:href", "data"] {
                    let Some(a) = node.attr(key) else { continue };
                    n += 1;
                    seen.push_str(a);
                    seen.push('\n');
                    let fine = match scheme(a) {
                        None => true,
                        Some(_) if a == "javascript:;" => true,
                        // the avatar the handle supplies
                        Some(_) if node.has_class("wj-user-info-avatar") && a == ftml::data::UserInfo::dummy().user_avatar_data => true,
                        Some(s) => refrender::SCHEMES.iter().any(|x| x.split(':').next() == Some(s.as_str())),
                    };
                    if !fine {
                        bad = Some(format!("{key} is {a:?} in {} ({mode:?})", out.body));
                    }
                }
            });
            cx.transitions += n;
            cx.state(&seen);
            if let Some(b) = bad {
                return Err(b);
            }
            if seen.contains("#invalid-url") {
                cx.bump("replaced_addresses", 1);
            }
            if n > 0 {
                cx.nontrivial(&seen);
            }
        }
        Ok(())
    })
}

/// What a quoted argument denotes.
fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some(x @ ('\\' | '"' | '\'')) => out.push(x),
            Some(x) => {
                out.push('\\');
                out.push(x);
            }
            None => out.push('\\'),
        }
    }
    out
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct sequences of addresses in the output");
    c.at_least = vec![("replaced_addresses", 5_000)];
    let build = |ix: &[usize]| format!("{}{}{}{}", PREFIX[ix[0]], SCHEME[ix[1]], SEP[ix[2]], REST[ix[3]]);
    let dims = [PREFIX.len(), SCHEME.len(), SEP.len(), REST.len(), SITES.len()];
    c.families.push(product_family("spellings", "prefix x scheme x separator x rest x construct", &dims, Box::new(move |ix| SITES[ix[4]].replace('T', &build(ix))), move |ix, cx| addresses(&SITES[ix[4]].replace('T', &build(ix)), cx)));
    // an anchor's target is kept or replaced exactly
    c.families.push(product_family("exact", "the same spellings in an anchor block, compared exactly", &dims[..4], Box::new(move |ix| format!("[[a href=\"{}\"]]x[[/a]]", build(ix))), move |ix, cx| {
        let t = build(ix);
        let doc = format!("[[a href=\"{t}\"]]x[[/a]]");
        page(&doc, |pre, tree, _| {
            cx.runs += 1;
            let t = pre.strip_prefix("[[a href=\"").and_then(|s| s.strip_suffix("\"]]x[[/a]]")).ok_or("preprocessing changed the block")?;
            let out = html_of(tree, &page_info(), &page_settings());
            let dom = html::parse(&out.body)?;
            let want = refrender::href(&decode(t));
            let a = html::by_tag(&dom, "a");
            let got = a.first().and_then(|a| a.attr("href"));
            cx.state(&format!("{got:?}"));
            if got != Some(want.as_str()) {
                return Err(format!("target {t:?}: expected {want:?}, found {got:?}"));
            }
            Ok(())
        })
    }));
    let words = ["javascript", "data", ":", ";", "alert(1)", "//", "/", "#", " ", "*", "!", "|", "x", "\\n", "&colon;", "http://x", "[[[", "]]]", "[", "]", "\"", "wikipedia:", "\n"];
    for (name, pre, post) in [("anchor-words", "[[a href=\"", "\"]]x[[/a]]"), ("triple-words", "[[[", "|x]]]"), ("single-words", "[", " x]"), ("free-words", "", "")] {
        c.families.push(word_family(name, &words, if thorough { 5 } else { 4 }, pre, post, move |d, _, cx| addresses(d, cx)));
    }
    c
}
