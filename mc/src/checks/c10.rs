//! C10: citations and bibliographies. A document is a sequence of parts whose entries and
//! citations are known by construction; the output must show exactly those.
use super::c05::{fill, found};
use super::*;
use crate::doc::*;
use crate::html::{self, Node};
use std::sync::Arc;

/// What a part contributes. Entry and citation contents are the part's own words, in order.
#[derive(Clone, Debug, PartialEq)]
enum Fact {
    /// title, hidden, entries as (label, number of words)
    Bib(&'static str, bool, Vec<(&'static str, usize)>),
    /// label, brackets
    Cite(&'static str, bool),
    /// words shown that are not in a bibliography
    Words(usize),
}
use Fact::*;

struct Part {
    text: &'static str,
    facts: Vec<Fact>,
}

fn part(text: &'static str, facts: Vec<Fact>) -> Part {
    Part { text, facts }
}

fn parts() -> Vec<Part> {
    let b = |e: Vec<(&'static str, usize)>| Bib("Bibliography", false, e);
    vec![
        part("[[bibliography]]\n: x : §\n[[/bibliography]]", vec![b(vec![("x", 1)])]),
        part("[[bibliography]]\n: y : §\n: x : § **§**\n[[/bibliography]]", vec![b(vec![("y", 1), ("x", 2)])]),
        part("[[bibliography title=\"T & <t>\"]]\n: x : §\n: x : §\n: z : §\n[[/bibliography]]", vec![Bib("T & <t>", false, vec![("x", 1), ("x", 1), ("z", 1)])]),
        part("[[bibliography hide=\"true\"]]\n: w : §\n: y : §\n[[/bibliography]]", vec![Bib("", true, vec![("w", 1), ("y", 1)])]),
        part("[[Bibliography hide=\"false\" title=\"\"]]\n: X : §\n: x y : §\n[[/BIBLIOGRAPHY]]", vec![Bib("", false, vec![("X", 1), ("x y", 1)])]),
        part("[[bibliography]]\n: x : § ((bibcite y))\n: y : § ((bibcite x))\n[[/bibliography]]", vec![b(vec![("x", 1), ("y", 1)]), Cite("y", false), Cite("x", false)]),
        part("[[bibliography]]\n[[/bibliography]]", vec![b(vec![])]),
        part("[[bibliography]]\n: x : §\n\n: y : §\n[[/bibliography]]", vec![b(vec![("x", 1), ("y", 1)])]),
        part("[[bibliography]]\n: x : §\n§\n[[/bibliography]]", vec![Words(2)]),
        part("[[bibliography]]\n: x : §", vec![Words(1)]),
        part("[[bibliography]]\n§\n[[/bibliography]]", vec![Words(1)]),
        part("[[iftags -tale]]\n[[bibliography]]\n: x : §\n[[/bibliography]]\n((bibcite x))\n[[/iftags]]", vec![Words(0), b(vec![])]),
        part("[[iftags tale]]\n[[bibliography]]\n: w : §\n: x : §\n[[/bibliography]]\n((bibcite x))\n[[/iftags]]", vec![b(vec![("w", 1), ("x", 1)]), Cite("x", false)]),
        part("[[div]]\n[[bibliography]]\n: w : §\n[[/bibliography]]", vec![b(vec![("w", 1)])]),
        part("((bibcite x))", vec![Cite("x", false)]),
        part("§ [[bibcite y]] §", vec![Words(1), Cite("y", true), Words(1)]),
        part("[[bibcite_ x]][[bibcite x y]]", vec![Cite("x", false), Cite("x y", true)]),
        part("((bibcite X)) ((BibCite w))", vec![Cite("X", false), Cite("w", false)]),
        part("((bibcite x y)) ((bibcite)) [[bibcite]] ((cite x)) ((bibcite y)", vec![]),
        part("* ((bibcite x))\n* **[[bibcite z]]**", vec![Cite("x", false), Cite("z", true)]),
        part("|| ((bibcite y)) ||~ § [[bibcite_ w]] ||", vec![Cite("y", false), Words(1), Cite("w", false)]),
        part("[[tabview]]\n[[tab t]]\n((bibcite w))\n[[/tab]]\n[[/tabview]]", vec![Cite("w", false)]),
        part("[[footnote]]((bibcite x))[[/footnote]]", vec![Cite("x", false)]),
        part("[[hidden]]((bibcite y))[[/hidden]] **((bibcite x))", vec![Cite("y", false), Cite("x", false)]),
    ]
}

#[derive(Debug, PartialEq)]
struct Shown {
    /// number (0 for an error), words of the tooltip, brackets
    cites: Vec<(usize, Option<Vec<usize>>, bool)>,
    lists: Vec<(String, Vec<Vec<usize>>)>,
}

fn scan(nodes: &[Node], out: &mut Shown) -> Result<(), String> {
    for n in nodes {
        if n.has_class("wj-footnote-list") {
            // shows the notes again
        } else if n.has_class("wj-error-inline") {
            if html::text_of(n.kids()) != "Bibliography item not found" && !html::text_of(n.kids()).to_lowercase().contains("bibliography") {
                return Err(format!("error message {n:?}"));
            }
            out.cites.push((0, None, false));
        } else if n.has_class("wj-bibliography-ref") {
            let m: Vec<&Node> = n.kids().iter().filter(|k| k.has_class("wj-bibliography-ref-marker")).collect();
            let [m] = m[..] else { return Err(format!("citation {n:?}")) };
            let text = html::text_of(m.kids());
            let number: usize = text.parse().map_err(|_| format!("citation {n:?}"))?;
            let label = format!("Reference {number}.");
            if m.attr("data-id") != Some(text.as_str()) || m.attr("aria-label") != Some(label.as_str()) {
                return Err(format!("citation {n:?}"));
            }
            let tip: Vec<&Node> = n.kids().iter().filter(|k| k.has_class("wj-bibliography-ref-tooltip")).collect();
            let [tip] = tip[..] else { return Err(format!("citation without one tooltip {n:?}")) };
            if html::text_of(html::by_class(tip.kids(), "wj-bibliography-ref-tooltip-label")[0].kids()) != label {
                return Err(format!("citation {n:?}"));
            }
            let inner = html::text_of(html::by_class(tip.kids(), "wj-bibliography-ref-contents").first().ok_or("tooltip without contents")?.kids());
            let direct: String = n.kids().iter().filter_map(|k| if let Node::Text(t) = k { Some(t.as_str()) } else { None }).collect();
            if direct != "" && direct != "[]" {
                return Err(format!("citation {n:?}"));
            }
            out.cites.push((number, Some(found(&inner)), direct == "[]"));
        } else if n.has_class("wj-bibliography") {
            let mut kids = n.kids().iter();
            let title = kids.next().filter(|k| k.has_class("wj-bibliography-title")).ok_or("bibliography without title")?;
            let mut entries = Vec::new();
            let at = out.lists.len();
            out.lists.push((html::text_of(title.kids()), vec![]));
            for (i, k) in kids.enumerate() {
                let marker = html::by_class(k.kids(), "wj-bibliography-item-marker");
                if !k.has_class("wj-bibliography-item") || marker.is_empty() || html::text_of(marker[0].kids()) != format!("{}.", i + 1) {
                    return Err(format!("entry {} is {k:?}", i + 1));
                }
                let mut own = Vec::new();
                strip(k.kids(), &mut own);
                entries.push(found(&own.concat()));
                scan(k.kids(), out)?;
            }
            out.lists[at].1 = entries;
        } else {
            scan(n.kids(), out)?;
        }
    }
    Ok(())
}

/// Text without that of citations.
fn strip(nodes: &[Node], out: &mut Vec<String>) {
    for n in nodes {
        match n {
            Node::Text(t) => out.push(t.clone()),
            n if n.has_class("wj-bibliography-ref") => {}
            n => strip(n.kids(), out),
        }
    }
}

fn doc(all: &[Part], ix: &[usize]) -> String {
    let v: Vec<&str> = ix.iter().filter(|i| **i > 0).map(|i| all[*i - 1].text).collect();
    fill(&v.join("\n\n")).0
}

fn verify(all: &[Part], ix: &[usize], cx: &mut Cx) -> Result<(), String> {
    let text = doc(all, ix);
    // what there is to cite
    let mut next = 0;
    let mut bibs: Vec<(&str, bool, Vec<(&str, Vec<usize>)>)> = Vec::new();
    let mut cites = Vec::new();
    for i in ix.iter().filter(|i| **i > 0) {
        let mut words = all[*i - 1].text.matches('§').count();
        let mut dropped = false;
        for f in &all[*i - 1].facts {
            match f {
                Bib(title, hidden, entries) => {
                    if dropped {
                        continue;
                    }
                    let mut list: Vec<(&str, Vec<usize>)> = Vec::new();
                    for (l, n) in entries {
                        let w: Vec<usize> = (next..next + n).collect();
                        next += n;
                        words -= n;
                        if !list.iter().any(|e| e.0 == *l) {
                            list.push((l, w));
                        }
                    }
                    bibs.push((title, *hidden, list));
                }
                Cite(l, b) => cites.push((*l, *b)),
                Words(0) => dropped = true,
                Words(n) => {
                    next += n;
                    words -= n;
                }
            }
        }
        next += words;
    }
    let mut want = Shown { cites: vec![], lists: vec![] };
    for (l, b) in cites {
        let e = bibs.iter().find_map(|x| x.2.iter().position(|e| e.0 == l).map(|p| (p + 1, x.2[p].1.clone())));
        want.cites.push(match e {
            Some((n, w)) => (n, Some(w), b),
            None => (0, None, false),
        });
    }
    for (t, hidden, list) in bibs {
        if !hidden {
            want.lists.push((t.to_string(), list.into_iter().map(|e| e.1).collect()));
        }
    }
    page(&text, |_, tree, _| {
        cx.runs += 1;
        let out = html_of(tree, &page_info(), &page_settings());
        let dom = html::parse(&out.body)?;
        let mut got = Shown { cites: vec![], lists: vec![] };
        scan(&dom, &mut got)?;
        cx.state(&format!("{got:?}"));
        cx.transitions += (got.cites.len() + got.lists.len()) as u64;
        if got != want {
            return Err(format!("expected {want:?}, found {got:?}"));
        }
        if got.cites.iter().any(|c| c.0 > 0) {
            cx.nontrivial(&format!("{got:?}"));
            cx.bump("resolved_citations", got.cites.iter().filter(|c| c.0 > 0).count() as u64);
        }
        Ok(())
    })
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct outcomes of all citations and lists of a document");
    c.at_least = vec![("resolved_citations", 5_000)];
    let all = Arc::new(parts());
    let n = all.len() + 1;
    let a = all.clone();
    let depth = if thorough { 5 } else { 4 };
    let dims: Vec<usize> = vec![n; depth];
    c.families.push(product_family("parts", "sequences of parts with bibliographies and citations", &dims, Box::new(move |ix| doc(&a, ix)), move |ix, cx| verify(&all, ix, cx)));
    c.families.push(many(if thorough { 60 } else { 24 }));
    c
}

/// Up to `max` entries in one or in two bibliographies, each cited in either order, before or after.
fn many(max: usize) -> Family {
    let make = move |ix: &[usize]| -> Vec<Part> {
        fn keep(s: String) -> &'static str {
            Box::leak(s.into_boxed_str())
        }
        let n = ix[0] + 1;
        let label = |i: usize| keep(format!("k{i}"));
        let bib = |r: std::ops::Range<usize>| {
            let text: String = r.clone().map(|i| format!(": {} : §\n", label(i))).collect();
            part(keep(format!("[[bibliography]]\n{text}[[/bibliography]]")), vec![Bib("Bibliography", false, r.map(|i| (label(i), 1)).collect())])
        };
        let mut order: Vec<usize> = (0..n).collect();
        if ix[1] == 1 {
            order.reverse();
        }
        let text: String = order.iter().map(|i| format!("((bibcite {})) ", label(*i))).collect();
        let cites = part(keep(text), order.iter().map(|i| Cite(label(*i), false)).collect());
        let half = if ix[2] == 0 { n } else { n / 2 };
        let mut v = vec![bib(0..half)];
        if ix[2] > 0 {
            v.push(bib(half..n));
        }
        v.insert(if ix[3] == 0 { 0 } else { v.len() }, cites);
        v
    };
    fn every(p: &[Part]) -> Vec<usize> {
        (1..=p.len()).collect()
    }
    product_family("many", "up to that many entries, each cited, in one or two bibliographies", &[max, 2, 2, 2], Box::new(move |ix| { let p = make(ix); doc(&p, &every(&p)) }), move |ix, cx| {
        let p = make(ix);
        verify(&p, &every(&p), cx)
    })
}
