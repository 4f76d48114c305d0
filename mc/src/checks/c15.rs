//! C15: identifiers. Every construct which takes an identifier carries `data-u` here, so
//! identifiers chosen by the source are told apart from the renderer's in the output.
use super::*;
use crate::doc::*;
use crate::html::{self, Node};
use ftml::settings::WikitextMode;
use std::collections::BTreeSet;

const MODES4: [WikitextMode; 5] = [WikitextMode::Page, WikitextMode::Draft, WikitextMode::ForumPost, WikitextMode::DirectMessage, WikitextMode::List];

fn chosen(n: &Node) -> bool {
    if n.attr("id") == Some("wj-toc") && n.kids().iter().any(|k| k.attr("id") == Some("wj-toc-action-bar")) {
        return false; // the renderer's own identifier wins for tables of contents
    }
    match n {
        Node::El { tag, attrs, .. } => attrs.contains_key("data-u") || (tag == "a" && attrs.len() == 1 && attrs.contains_key("id")),
        _ => false,
    }
}

fn random(id: &str) -> bool {
    id.strip_prefix("wj-id-").map_or(false, |r| r.len() == 16 && r.chars().all(|c| c.is_ascii_alphanumeric()))
}

fn prefixed(id: &str) -> String {
    id.split_whitespace().map(|w| if w.starts_with("u-") { w.to_string() } else { format!("u-{w}") }).collect::<Vec<_>>().join(" ")
}

/// The output with random identifiers numbered, and the chosen ones prefixed if asked to.
fn plain(nodes: &[Node], prefix: bool, seen: &mut Vec<String>) -> Vec<Node> {
    nodes
        .iter()
        .map(|n| match n {
            Node::Text(t) => Node::Text(t.clone()),
            Node::El { tag, attrs, kids } => {
                let mut a = attrs.clone();
                for (k, v) in a.iter_mut() {
                    if let Some(v) = v {
                        if k == "data-delta" {
                            v.clear(); // the distance of a date from the present
                        } else if k == "id" && chosen(n) {
                            if prefix {
                                *v = prefixed(v);
                            }
                        } else if random(v) {
                            let at = seen.iter().position(|s| s == v).unwrap_or_else(|| {
                                seen.push(v.clone());
                                seen.len() - 1
                            });
                            *v = format!("random-{at}");
                        }
                    }
                }
                Node::El { tag: tag.clone(), attrs: a, kids: plain(kids, prefix, seen) }
            }
        })
        .collect()
}

pub fn ids(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let mut pre = doc.to_string();
    ftml::preprocess(&mut pre);
    for mode in MODES4 {
        let mut doms = Vec::new();
        for isolate in [false, true] {
            let mut st = settings(mode);
            st.isolate_user_ids = isolate;
            let body = with_parse(&pre, &page_info(), &st, |_, tree, _| html_of(tree, &page_info(), &st).body);
            cx.runs += 1;
            let dom = html::parse(&body)?;
            let mut all = BTreeSet::new();
            let mut refs = BTreeSet::new();
            let mut bad = None;
            let mut user = 0;
            html::walk(&dom, &mut |n| {
                for k in ["aria-controls", "aria-labelledby"] {
                    if let Some(v) = n.attr(k) {
                        refs.insert(v.to_string());
                    }
                }
                if n.has_class("wj-tabs") {
                    // the buttons and the panels of one tab view, in the same order
                    let part = |list: &str| n.kids().iter().find(|k| k.has_class(list)).map_or(vec![], |l| l.kids().iter().filter(|k| k.attr("role").is_some()).collect::<Vec<_>>());
                    let (buttons, panels) = (part("wj-tabs-button-list"), part("wj-tabs-panel-list"));
                    let controls: Vec<_> = buttons.iter().map(|b| (b.attr("id"), b.attr("aria-controls"))).collect();
                    let labels: Vec<_> = panels.iter().map(|p| (p.attr("aria-labelledby"), p.attr("id"))).collect();
                    if controls != labels {
                        bad = Some(format!("tabs and panels do not refer to each other: {controls:?}, {labels:?}"));
                    }
                }
                let Some(id) = n.attr("id") else { return };
                if chosen(n) {
                    user += 1;
                    if isolate && id.split_whitespace().any(|w| !w.starts_with("u-")) {
                        bad = Some(format!("chosen identifier {id:?} is not isolated"));
                    }
                    return;
                }
                let tab = n.has_class("wj-tabs-button") || n.has_class("wj-tabs-panel");
                let toc = id.starts_with("wj-toc");
                let bib = n.has_class("wj-bibliography-item");
                if tab && !random(id) {
                    bad = Some(format!("tab has identifier {id:?}"));
                }
                if !st.use_true_ids && !random(id) {
                    bad = Some(format!("identifier {id:?} of {} is not random", n.tag()));
                }
                if st.use_true_ids && !tab && !toc && !bib && !(n.tag().starts_with('h') && id.starts_with("toc")) {
                    bad = Some(format!("identifier {id:?} of {} is undocumented", n.tag()));
                }
                if isolate && id.split_whitespace().any(|w| w.starts_with("u-")) {
                    bad = Some(format!("identifier {id:?} of the renderer looks like one of the source"));
                }
                if !all.insert(id.to_string()) && !toc && !bib {
                    bad = Some(format!("identifier {id:?} occurs twice"));
                }
            });
            if let Some(r) = refs.iter().find(|r| !all.contains(*r)) {
                bad = Some(format!("reference to {r:?}, which no element has"));
            }
            if let Some(b) = bad {
                return Err(format!("{mode:?}, isolated {isolate}: {b} in {body}"));
            }
            cx.transitions += (all.len() + user) as u64;
            if user + all.len() > 0 {
                cx.bump("documents_with_identifiers", 1);
            }
            let p = plain(&dom, !isolate, &mut vec![]);
            doms.push(p);
        }
        cx.state(&format!("{:?}", doms[1]));
        if doms[0] != doms[1] {
            return Err(format!("{mode:?}: isolation changes more than the source's identifiers: {}", html::diff(&html::canon(&doms[0]), &html::canon(&doms[1]))));
        }
        cx.nontrivial(&format!("{:?}", doms[1]));
    }
    Ok(())
}

const IDS: &[&str] = &["k", "u-k", "a b", "u-a b", "U-k", "u-", "u-u-k", "toc0", "wj-toc", "wj-id-0123456789abcdef", " k ", "é&<", "", "u", "-", "k\\tl"];
const WORDS: &[&str] = &[
    "x", "\n\n", "+ H\n", "++ I\n", "[[toc]]\n", "[[div data-u=\"1\" id=\"toc0\"]]\n", "\n[[/div]]\n", "[[span id=\"k\" data-u=\"1\"]]", "[[/span]]", "[[# toc0]]", "[[# u-k]]", "[[tabview]]\n[[tab a]]\n", "\n[[/tab]]\n[[tab b]]\ny\n[[/tab]]\n[[/tabview]]\n", "[[footnote]]", "[[/footnote]]", "[[footnoteblock]]\n",
    "[[bibliography]]\n: x : X [[span id=\"k\" data-u=\"1\"]]s[[/span]]\n: y : Y\n[[/bibliography]]\n", "((bibcite x))", "[#toc0 l]", "[[a href=\"#k\" id=\"j\" data-u=\"1\"]]", "[[/a]]", "[[collapsible id=\"u-c\" data-u=\"1\"]]\n", "\n[[/collapsible]]\n", "[[math m]]\nx\n[[/math]]\n", "[[eref m]]", "[[code]]\nx\n[[/code]]\n", "[[html]]\nx\n[[/html]]\n", "[[image http://a.b/c id=\"k\" data-u=\"1\"]]", "[[module Rate]]\n", "[[f>toc id=\"k\" data-u=\"1\"]]\n", "[[user x]]",
];

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct outputs with identifiers, randoms numbered");
    c.at_least = vec![("documents_with_identifiers", 10_000)];
    let x = thorough as usize;
    c.families.push(word_family("words", WORDS, 3 + x, "", "", move |d, _, cx| ids(d, cx)));
    c.families.extend(crate::corpus::deep(&[], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| ids(d, cx)) as crate::corpus::DocFn)));
    c.families.extend(crate::corpus::many(40 + 80 * x, &[], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| ids(d, cx)) as crate::corpus::DocFn)));
    let sites: Vec<String> = super::c12::BLOCKS.iter().map(|b| b.replacen(" A", " data-u=\"1\" id=\"I\"", 1)).chain(["[[# I]]", "[[target I]]x[[/target]]", "[[anchortarget I]]", "[[a_ name=\"k\" data-u=\"1\" ID=\"I\"]]x[[/a]]"].iter().map(|s| s.to_string())).collect();
    let s2 = sites.clone();
    let make = |s: &[String], ix: &[usize]| {
        let a = s[ix[0]].replace('I', IDS[ix[1]]);
        let b = if ix[2] == 0 { String::new() } else { s[ix[2] - 1].replace('I', IDS[(ix[1] + 3) % IDS.len()]) };
        format!("{a}\n\n+ H\n\n{b}")
    };
    c.families.push(product_family("sites", "pairs of constructs with identifiers x identifier", &[sites.len(), IDS.len(), sites.len() + 1], Box::new(move |ix| make(&s2, ix)), move |ix, cx| ids(&make(&sites, ix), cx)));
    // same-page links to headings, per mode
    let modes: Vec<&'static str> = vec!["Page", "Draft", "List"];
    c.families.push(list_family("contents-links", "a table of contents and its headings, in each mode with page syntax", modes, |m| format!("[[toc]] and headings in mode {m}"), |m, cx| {
        let mode = MODES4.into_iter().find(|x| format!("{x:?}") == *m).unwrap();
        let st = settings(mode);
        with_parse("[[toc]]\n+ A\n++ B", &page_info(), &st, |_, tree, _| {
            cx.runs += 1;
            let dom = html::parse(&html_of(tree, &page_info(), &st).body)?;
            let mut all = BTreeSet::new();
            let mut links = Vec::new();
            html::walk(&dom, &mut |n| {
                if let Some(i) = n.attr("id") {
                    all.insert(i.to_string());
                }
                if let Some(h) = n.attr("href").and_then(|h| h.strip_prefix('#')) {
                    links.push(h.to_string());
                }
            });
            match links.len() == 2 && links.iter().all(|l| all.contains(l)) {
                true => Ok(()),
                false => Err(format!("the links of the table of contents have no targets in mode {m}")),
            }
        })
    }));
    c
}
