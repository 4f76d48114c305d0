//! C36: the nesting of elements in the output is one that browsers keep: paragraphs hold only inline content.
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html::{self, Node};
use std::sync::Arc;

/// Start tags at which an HTML parser closes an open paragraph.
const CLOSES_P: &[&str] = &[
    "address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3",
    "h4", "h5", "h6", "header", "hgroup", "hr", "li", "dd", "dt", "main", "menu", "nav", "ol", "p", "pre", "section", "summary", "table", "ul",
];

/// Where each part of a list or table must stand, and what else may be there.
const PARENTS: &[(&str, &[&str])] = &[("li", &["ul", "ol"]), ("tbody", &["table"]), ("tr", &["tbody"]), ("td", &["tr"]), ("th", &["tr"]), ("dt", &["dl"]), ("dd", &["dl"]), ("rt", &["ruby"]), ("summary", &["details"])];
const CHILDREN: &[(&str, &[&str])] =
    &[("ul", &["li", "ul", "ol"]), ("ol", &["li", "ul", "ol"]), ("table", &["tbody"]), ("tbody", &["tr"]), ("tr", &["td", "th"]), ("dl", &["dt", "dd"])];

fn class(n: &Node) -> &str {
    n.attr("class").unwrap_or("")
}

/// Images are laid out by a container, even those in a line; tooltips repeat whatever the footnote or entry holds.
fn exempt(n: &Node) -> bool {
    let c = class(n);
    c.split(' ').any(|c| matches!(c, "wj-image-container" | "wj-footnote-ref-tooltip" | "wj-bibliography-ref-tooltip"))
}

fn walk(nodes: &[Node], parent: &str, in_p: bool, path: &mut Vec<String>) -> Result<(), String> {
    let of = |t: &[(&str, &'static [&'static str])], k: &str| t.iter().find(|x| x.0 == k).map(|x| x.1);
    for n in nodes {
        match n {
            Node::Text(t) => {
                if of(CHILDREN, parent).is_some() && !t.trim().is_empty() {
                    return Err(format!("text {t:?} directly in {}", path.join(" > ")));
                }
            }
            Node::El { tag, kids, .. } => {
                let tag = tag.as_str();
                path.push(if class(n).is_empty() { tag.to_string() } else { format!("{tag}.{}", class(n).split(' ').next().unwrap_or("")) });
                if exempt(n) {
                    walk(kids, tag, false, path)?;
                } else {
                    if in_p && CLOSES_P.contains(&tag) {
                        return Err(format!("a paragraph holds what would end it: {}", path.join(" > ")));
                    }
                    if of(PARENTS, tag).is_some_and(|p| !p.contains(&parent)) || of(CHILDREN, parent).is_some_and(|c| !c.contains(&tag)) {
                        return Err(format!("out of place: {}", path.join(" > ")));
                    }
                    walk(kids, tag, in_p || tag == "p", path)?;
                }
                path.pop();
            }
        }
    }
    Ok(())
}

const OPEN: &[(&str, &str)] = &[("paragraph", "<p"), ("list", "<li"), ("table", "<td"), ("definition list", "<dd"), ("quotation", "<blockquote"), ("heading", "<h1"), ("ruby", "<rt"), ("collapsible", "<summary")];

pub fn nest(doc: &str, cx: &mut Cx) -> Result<(), String> {
    page(doc, |_, tree, _| {
        let out = html_of(tree, &page_info(), &page_settings());
        let dom = html::parse(&out.body)?;
        cx.runs += 1;
        cx.state(&out.body);
        if dom.iter().any(|n| matches!(n, Node::El { kids, .. } if kids.len() > 1)) {
            cx.nontrivial(&out.body);
        }
        for (tag, open) in OPEN {
            if out.body.contains(open) {
                cx.bump(tag, 1);
            }
        }
        walk(&dom, "", false, &mut vec![])
    })
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct outputs");
    let f: corpus::DocFn = Arc::new(nest);
    c.families = if thorough {
        let mut v = corpus::standard(false, f.clone());
        v.extend(corpus::nested(&["inline", "side", "lines"], 3, &f));
        v.push(super::c25::nestings("chains", super::c25::BODIES, 3, &["", "\n", "\n\n"], &["a", "", "a\n\nb", "* a", "[[image i.png]]", "----"], f.clone()));
        v
    } else {
        let mut v = corpus::words(&[], 2, &f);
        v.extend(corpus::named("longer", corpus::words(&["blocks", "lines"], 3, &f)));
        v.extend(corpus::nested(&[], 2, &f));
        v.extend(corpus::fixture_wraps(1, &f));
        v.extend(corpus::scale(false, &f));
        v.push(super::c25::nestings("chains", super::c25::BODIES, 3, &["", "\n"], &["a", "* a", "[[image i.png]]"], f.clone()));
        v
    };
    // every use of every construct, within two levels of other constructs
    let (uses, bodies) = (super::c27::pool(), super::c25::BODIES);
    c.families.push(product_family(
        "uses within",
        "two levels of constructs around a use of every construct",
        &[uses.len(), bodies.len(), bodies.len(), 2],
        Box::new({
            let uses = uses.clone();
            move |ix| within(&uses, ix)
        }),
        move |ix, cx| f(&within(&uses, ix), cx),
    ));
    c.at_least = OPEN.iter().map(|o| (o.0, 1000)).collect();
    c.assumptions = vec!["The HTML parsing rules for elements which end a paragraph, and the content models of lists and tables, are listed in the check from the HTML standard.".into()];
    c
}

fn within(uses: &[&str], ix: &[usize]) -> String {
    let ((a, b), (p, q), s) = (super::c25::BODIES[ix[1]], super::c25::BODIES[ix[2]], ["", "\n"][ix[3]]);
    format!("{a}{s}{p}{s}{}{s}{q}{s}{b}", uses[ix[0]])
}
