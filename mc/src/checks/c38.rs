//! C38: the text output has the words which the page shows, in order, and apart wherever the page has them apart. The
//! HTML output is the oracle: the two renderers are independent.
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html::{self, Node};
use std::sync::Arc;

/// Elements which are laid out in line with the text around them.
const INLINE: &[&str] = &[
    "a", "span", "strong", "em", "u", "s", "sup", "sub", "tt", "code", "b", "i", "mark", "ins", "del", "ruby", "rt", "rp", "small", "big", "input", "label",
];

/// Parts which plain text does not show, by design: labels and controls, and content which is no text.
const UNSHOWN: &[&str] = &["wj-collapsible-button", "wj-hidden", "wj-footnote", "wj-bib", "wj-toc", "wj-math", "wj-equation", "wj-image", "wj-code-panel", "wj-code-copy", "wj-module", "wj-html", "wj-embed", "wj-date", "wj-title", "wj-error"];

fn flat(nodes: &[Node], out: &mut String) -> bool {
    for n in nodes {
        match n {
            Node::Text(t) => out.push_str(t),
            Node::El { tag, kids, .. } => {
                let class = n.attr("class").unwrap_or("");
                if class.contains("wj-invisible") {
                    let mut inner = String::new();
                    if !flat(kids, &mut inner) {
                        return false;
                    }
                    if !inner.is_empty() {
                        out.push(' ');
                    }
                    continue;
                }
                if tag == "rp" {
                    continue;
                }
                if matches!(tag.as_str(), "summary" | "style" | "iframe" | "script" | "img" | "time") || UNSHOWN.iter().any(|u| class.contains(u) || n.attr("id").unwrap_or("").contains(u)) {
                    if tag != "summary" && !class.contains("wj-hidden") {
                        return false;
                    }
                    continue;
                }
                if tag == "wj-tabs" {
                    // Each label stands before its tab.
                    let parts = |c: &str| html::by_class(kids, c).first().map_or(vec![], |n| n.kids().to_vec());
                    for (label, panel) in parts("wj-tabs-button-list").iter().zip(parts("wj-tabs-panel-list")) {
                        for part in [label.kids(), panel.kids()] {
                            out.push('\n');
                            if !flat(part, out) {
                                return false;
                            }
                        }
                    }
                    out.push('\n');
                    continue;
                }
                let inline = INLINE.contains(&tag.as_str());
                if !inline {
                    out.push('\n');
                }
                if tag == "rt" {
                    out.push('(');
                }
                if !flat(kids, out) {
                    return false;
                }
                if tag == "rt" {
                    out.push(')');
                }
                if !inline {
                    out.push('\n');
                }
            }
        }
    }
    true
}

pub fn apart(doc: &str, cx: &mut Cx) -> Result<(), String> {
    page(doc, |_, tree, _| {
        let out = html_of(tree, &page_info(), &page_settings());
        let text = text_of(tree, &page_info(), &page_settings());
        let dom = html::parse(&out.body)?;
        cx.runs += 1;
        cx.state(&text);
        let mut shown = String::new();
        // Modules are placeholders, for the embedding application to fill.
        if out.body.contains("TODO: module") || !flat(&dom, &mut shown) {
            return Ok(());
        }
        let (want, got): (Vec<&str>, Vec<&str>) = (shown.split_whitespace().collect(), text.split_whitespace().collect());
        if want.len() > 1 {
            cx.nontrivial(&text);
        }
        if want != got {
            return Err(format!("the page shows the words {want:?}, the text {text:?}"));
        }
        Ok(())
    })
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct text outputs with more than one word");
    let f: corpus::DocFn = Arc::new(apart);
    c.families = if thorough {
        let mut v = corpus::standard(true, f.clone());
        v.push(super::c25::nestings("chains", super::c25::BODIES, 3, &["", "\n", "\n\n"], &["a b", "a\n\nb", "* a\n* b", "|| a || b ||", "a\n----\nb"], f.clone()));
        v
    } else {
        let mut v = corpus::words(&[], 3, &f);
        v.extend(corpus::nested(&[], 2, &f));
        v.extend(corpus::fixture_wraps(1, &f));
        v.extend(corpus::scale(false, &f));
        v.extend(corpus::fixture_pairs(&f));
        v.push(super::c25::nestings("chains", super::c25::BODIES, 3, &["", "\n"], &["a b", "* a\n* b", "|| a || b ||"], f.clone()));
        v
    };
    c.assumptions = vec!["Inline elements are those listed in the check; every other element of the output stands on lines of its own.".into()];
    c
}
