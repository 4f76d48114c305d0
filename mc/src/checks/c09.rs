//! C09: the table of contents, against the headings of the tree and of the output.
use super::c05::{fill, found};
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html::{self, Node};
use crate::refrender;
use crate::walk;
use ftml::tree::*;

/// Entries with their depth of nesting, in order. Lists hold nothing but links and lists.
fn flatten(e: &Element, depth: usize, out: &mut Vec<(usize, String, String)>) -> Result<(), String> {
    let Element::List { ltype: ListType::Bullet, items, attributes } = e else { return Err(format!("table of contents has {e:?}")) };
    if !attributes.get().is_empty() {
        return Err("list of contents has attributes".into());
    }
    if items.is_empty() {
        return Err("empty list in the table of contents".into());
    }
    let mut prev = false;
    for i in items {
        match i {
            ListItem::SubList { element } => {
                if prev {
                    return Err("two adjacent lists at the same depth in the table of contents".into());
                }
                prev = true;
                flatten(element, depth + 1, out)?;
            }
            ListItem::Elements { elements, attributes } => {
                prev = false;
                match &elements[..] {
                    [Element::Link { ltype: LinkType::TableOfContents, link: LinkLocation::Url(u), extra: None, label: LinkLabel::Text(t), target: None }] if attributes.get().is_empty() => {
                        out.push((depth, u.to_string(), t.to_string()))
                    }
                    _ => return Err(format!("entry {elements:?}")),
                }
            }
        }
    }
    Ok(())
}

fn heading_nodes<'d>(nodes: &'d [Node], out: &mut Vec<&'d Node>) {
    html::walk(nodes, &mut |n| {
        if n.attr("id").map_or(false, |i| i.strip_prefix("toc").map_or(false, |d| d.parse::<usize>().is_ok())) && n.tag().len() == 2 && n.tag().starts_with('h') {
            out.push(n);
        }
    });
}

pub fn toc(doc: &str, cx: &mut Cx) -> Result<(), String> {
    page(doc, |_, tree, _| {
        cx.runs += 1;
        let info = page_info();
        let mut heads: Vec<(usize, String)> = Vec::new();
        let mut hidden = 0;
        let mut tocs = 0;
        walk::all(tree, true, &mut |e| match e {
            Element::Container(c) => {
                if let ContainerType::Header(h) = c.ctype() {
                    if h.has_toc {
                        heads.push((h.level.value() as usize, refrender::text(c.elements(), &info)));
                    } else {
                        hidden += 1;
                    }
                }
            }
            Element::TableOfContents { .. } => tocs += 1,
            _ => {}
        });
        let mut entries = Vec::new();
        if tree.table_of_contents.len() > 1 {
            return Err(format!("{} tables of contents", tree.table_of_contents.len()));
        }
        for e in &tree.table_of_contents {
            flatten(e, 1, &mut entries)?;
        }
        cx.state(&format!("{heads:?} {tocs}"));
        cx.transitions += (heads.len() + hidden) as u64;
        let got: Vec<(usize, String)> = entries.iter().map(|(d, _, t)| (*d, t.clone())).collect();
        if got != heads {
            return Err(format!("headings {heads:?}, table of contents {got:?}"));
        }
        for (i, (_, u, _)) in entries.iter().enumerate() {
            if *u != format!("#toc{i}") {
                return Err(format!("entry {i} links to {u}"));
            }
        }
        // the output
        let out = html_of(tree, &info, &page_settings());
        let dom = html::parse(&out.body)?;
        let mut nodes = Vec::new();
        heading_nodes(&dom, &mut nodes);
        if nodes.len() != heads.len() {
            return Err(format!("{} headings with identifiers in the output, {} in the table of contents", nodes.len(), heads.len()));
        }
        for (i, (level, text)) in heads.iter().enumerate() {
            let id = format!("toc{i}");
            let of: Vec<_> = nodes.iter().filter(|n| n.attr("id") == Some(id.as_str())).collect();
            let [n] = of[..] else { return Err(format!("{} headings have the identifier {id}", of.len())) };
            if n.tag() != format!("h{level}") {
                return Err(format!("{id} is {}, its entry is of level {level}", n.tag()));
            }
            let (a, b) = (found(text), found(&html::text_of(n.kids())));
            if !a.iter().all(|w| b.contains(w)) || (a.is_empty() != b.is_empty() && !doc.contains("note")) {
                return Err(format!("{id} is the heading {:?}, its entry says {text:?}", html::text_of(n.kids())));
            }
        }
        // each place where the table is shown lists those entries
        let mut shown = Vec::new();
        html::walk(&dom, &mut |n| {
            if n.attr("id") == Some("wj-toc-list") {
                shown.push(n);
            }
        });
        if shown.len() < tocs {
            return Err(format!("{tocs} tables of contents in the tree, {} in the output", shown.len()));
        }
        for s in &shown {
            let links: Vec<(String, String)> = html::by_tag(s.kids(), "a").iter().map(|a| (a.attr("href").unwrap_or("").to_string(), html::text_of(a.kids()))).collect();
            let want: Vec<(String, String)> = entries.iter().map(|(_, u, t)| (u.clone(), t.clone())).collect();
            if links != want {
                return Err(format!("the output's table lists {links:?}, expected {want:?}"));
            }
        }
        if !heads.is_empty() {
            cx.bump("documents_with_headings", 1);
            cx.nontrivial(&format!("{heads:?}"));
        }
        Ok(())
    })
}

const ALPHABET: &[&str] = &[
    "§", "\n", "\n\n", "+ §\n", "++ §\n", "+++ §\n", "++++++ §\n", "++* §\n", "+ §**§**§\n", "+ §@@ §&@@\n", "+ [[[x|§]]]\n", "+ §[[footnote]]§[[/footnote]]\n", "++ [[span]]§\n+ §\n[[/span]]\n", "+ [[div]]\n", "++§\n", " + §\n", "+++++++ §\n", "+ \n",
    "[[toc]]\n", "[[f>toc]]\n", "[[div]]\n", "\n[[/div]]\n", "[[footnote]]\n", "\n[[/footnote]]", "[[footnoteblock]]\n", "[[collapsible]]\n", "\n[[/collapsible]]\n", "[[iftags tale]]\n", "[[iftags -tale]]\n", "\n[[/iftags]]", "> + §\n> §\n", "|| [[div]]\n+ §\n[[/div]] ||\n", "* [[div]]\n+ §\n[[/div]]\n", "||", "**",
    "[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]\n", "[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]\n", "[[ul]]\n[[li]]\n", "\n[[/li]]\n[[/ul]]\n", ": § : [[div]]\n+ §\n[[/div]]\n", "[[hidden]]", "[[/hidden]]", "[[span]]", "[[/span]]", "[!--\n", "--]", "@@", "[[code]]\n", "[[/code]]\n", "[[a]]\n", "[[/a]]",
];

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct sequences of headings, compared with the table of contents and the output");
    c.at_least = vec![("documents_with_headings", 10_000)];
    let x = thorough as usize;
    let t = |d: &str, cx: &mut Cx| toc(&fill(d).0, cx);
    c.families.push(word_family("words", ALPHABET, 3 + x, "", "", move |d, _, cx| t(d, cx)));
    c.families.push(word_family("words-tail", ALPHABET, 3, "+ §\n[[toc]]\n", "\n\n++ §\n+++ §\n[[footnoteblock]]\n+ §\n", move |d, _, cx| t(d, cx)));
    c.families.extend(crate::corpus::deep(&[], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| toc(d, cx)) as crate::corpus::DocFn)));
    c.families.extend(crate::corpus::many(40 + 80 * x, &[], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| toc(d, cx)) as crate::corpus::DocFn)));
    // sequences of levels
    let levels = ["+ §\n", "++ §\n", "+++ §\n", "++++ §\n", "+++++ §\n", "++++++ §\n", "++* §\n", "§\n\n", "[[toc]]\n"];
    c.families.push(word_family("levels", &levels, 5 + x, "", "", move |d, _, cx| t(d, cx)));
    const UNITS: &[&str] = &["+ §\n++ §", "+++ §[[footnote]]\n+ §\n[[/footnote]]§", "++* §", "++", "+ §\n[[toc]]\n+ §"];
    c.families.push(super::c07::wrapped("wrapped", UNITS, "\n\n++ §\n[[toc]]\n\n[[footnoteblock]]\n+ §\n", toc, 2 + x));
    let f: corpus::DocFn = std::sync::Arc::new(toc);
    c.families.extend(corpus::words(&["side", "blocks", "lines"], 3, &f));
    const BIB: &[&str] = &["", "§ ((bibcite x)) ((bibcite y))\n\n", "[[toc]]\n\n", "+ §\n", "[[bibliography]]\n: x : § [[div]]\n++ §\n[[/div]]\n[[/bibliography]]\n", "[[bibliography]]\n: y : §\n: x : § [[div]]\n+ §\n[[/div]]\n[[/bibliography]]\n"];
    let known = ["[[bibliography hide=\"true\"]]\n: x : [[div]]\n++ §\n[[/div]]\n[[/bibliography]]\n+ §", "[[bibliography]]\n: x : §\n: x : [[div]]\n++ §\n[[/div]]\n[[/bibliography]]\n+ §", "[[bibliography]]\n: x : §\n: y : [[div]]\n++ §\n[[/div]]\n[[/bibliography]]\n+ §"];
    c.families.push(list_family("hidden-entries", "headings in shown and in unshown bibliography entries", known.iter().map(|s| fill(s).0).collect(), |s| s.clone(), |s, cx| toc(s, cx)));
    c.families.push(word_family("bibliography", BIB, 3, "", "+++ §\n", move |d, _, cx| t(d, cx)));
    c
}
