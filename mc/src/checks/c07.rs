//! C07: footnotes. The source is a word over footnote and surrounding markup in which every
//! footnote has a word of its own, so the output can be compared with the source.
use super::c05::{fill, found};
use super::*;
use crate::doc::*;
use crate::html::{self, Node};
use crate::walk;
use ftml::tree::Element;

/// Markers of the page in document order, not entering tooltips and lists; and the lists.
pub struct Seen<'d> {
    pub markers: Vec<&'d Node>,
    pub lists: Vec<&'d Node>,
}

pub fn scan<'d>(nodes: &'d [Node], out: &mut Seen<'d>) {
    for n in nodes {
        if n.has_class("wj-footnote-ref") {
            out.markers.push(n);
        } else if n.has_class("wj-footnote-list") {
            out.lists.push(n);
        } else if n.has_class("wj-bibliography-ref") {
            // shows the entry again, without its notes
        } else {
            scan(n.kids(), out);
        }
    }
}

fn one<'d>(n: &'d Node, class: &str) -> Result<&'d Node, String> {
    let v = html::by_class(n.kids(), class);
    if v.len() != 1 {
        return Err(format!("expected one {class} in {n:?}"));
    }
    Ok(v[0])
}

/// Texts are compared without identifiers, which differ between a note's two appearances.
fn content(n: &Node) -> String {
    html::text_of(n.kids())
}

pub fn notes(doc: &str, cx: &mut Cx) -> Result<(), String> {
    page(doc, |_, tree, _| {
        let out = html_of(tree, &page_info(), &page_settings());
        let dom = html::parse(&out.body)?;
        let mut seen = Seen { markers: vec![], lists: vec![] };
        scan(&dom, &mut seen);
        cx.runs += 1;
        cx.transitions += seen.markers.len() as u64;
        // markers
        let mut contents = Vec::new();
        let mut last_word: Option<usize> = None;
        for (i, m) in seen.markers.iter().enumerate() {
            let n = (i + 1).to_string();
            let marker = one(m, "wj-footnote-ref-marker")?;
            if content(marker) != n || marker.attr("data-id") != Some(n.as_str()) || marker.attr("aria-label") != Some(format!("Footnote {n}.").as_str()) {
                return Err(format!("marker {n} is {marker:?}"));
            }
            if content(one(m, "wj-footnote-ref-tooltip-label")?) != format!("Footnote {n}.") {
                return Err(format!("the tooltip of marker {n} is labelled otherwise: {m:?}"));
            }
            let c = content(one(m, "wj-footnote-ref-contents")?);
            // notes are in source order
            let words = found(&c);
            if let (Some(&w), Some(l)) = (words.first(), last_word) {
                if w <= l {
                    return Err(format!("note {n} holds {c:?}, which stands before note {i} in the source"));
                }
            }
            last_word = words.last().copied().or(last_word);
            contents.push(c);
        }
        if !contents.is_empty() {
            cx.bump("documents_with_notes", 1);
            cx.nontrivial(&format!("{contents:?}"));
        }
        // each word once, in a marker's note or in the page
        let mut shown = String::new();
        fn page_text(nodes: &[Node], out: &mut String) {
            for n in nodes {
                match n {
                    Node::Text(t) => out.push_str(t),
                    n if n.has_class("wj-footnote-list") || n.has_class("wj-bibliography-ref") || n.has_class("wj-footnote-ref-tooltip-label") || n.has_class("wj-footnote-ref-marker") => {}
                    n => page_text(n.kids(), out),
                }
            }
        }
        page_text(&dom, &mut shown);
        let all = found(&shown);
        if all.windows(2).any(|w| w[0] >= w[1]) {
            return Err(format!("words of the source, page and notes together, are shown out of order or twice: {all:?}"));
        }
        cx.state(&format!("{contents:?} {}", seen.lists.len()));
        // the table
        let mut blocks: Vec<Option<String>> = Vec::new();
        let mut hidden = 0;
        let count = walk::all(tree, false, &mut |e| {
            if let Element::FootnoteBlock { title, hide } = e {
                if *hide {
                    hidden += 1;
                } else {
                    blocks.push(title.as_ref().map(|t| t.to_string()));
                }
            }
        });
        if count != tree.footnotes.len() || count != contents.len() {
            return Err(format!("{} notes in the table, {count} in the tree, {} markers in the output", tree.footnotes.len(), contents.len()));
        }
        if blocks.is_empty() && hidden == 0 {
            return Err("no footnote block in the tree".into());
        }
        // lists
        let want = if contents.is_empty() { 0 } else { blocks.len() };
        if seen.lists.len() != want {
            return Err(format!("{} footnote lists in the output, expected {want}", seen.lists.len()));
        }
        for (l, t) in seen.lists.iter().zip(&blocks) {
            let title = content(one(l, "wj-title")?);
            if title != t.clone().unwrap_or("Footnotes".into()) {
                return Err(format!("footnote list is titled {title:?}, expected {t:?}"));
            }
            let items = html::by_class(l.kids(), "wj-footnote-list-item");
            if items.len() != contents.len() {
                return Err(format!("footnote list has {} items, expected {}", items.len(), contents.len()));
            }
            for (i, item) in items.iter().enumerate() {
                let n = (i + 1).to_string();
                let marker = content(one(item, "wj-footnote-list-item-marker")?);
                let c = content(one(item, "wj-footnote-list-item-contents")?);
                if item.attr("data-id") != Some(n.as_str()) || marker != format!("{n}.") || c != contents[i] {
                    return Err(format!("item {n} of the footnote list is {marker:?} {c:?}, its marker's tooltip has {:?}", contents[i]));
                }
            }
        }
        Ok(())
    })
}

const ALPHABET: &[&str] = &[
    "§", "\n", "\n\n", "[[footnote]]§[[/footnote]]", "[[footnote]]", "[[/footnote]]", "[[footnoteblock]]\n", "[[footnoteblock title=\"T\"]]\n", "[[footnoteblock hide=\"true\"]]\n", "[[div]]\n", "\n[[/div]]\n", "[[span]]", "[[/span]]", "**", "[[iftags tale]]", "[[iftags -tale]]",
    "[[/iftags]]", "* §[[footnote]]§[[/footnote]]\n", "> [[footnote]]§[[/footnote]]\n", "|| [[footnote]]§[[/footnote]] || §||\n", "||", "+ §[[footnote]]§[[/footnote]]\n", ": §[[footnote]]§[[/footnote]] : [[footnote]]§[[/footnote]]\n", "[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]\n", "[[table]]\n[[row]]\n[[cell]]",
    "[[/cell]]\n[[/row]]\n[[/table]]\n", "[[collapsible]]\n", "\n[[/collapsible]]\n", "@@[[footnote]]§[[/footnote]]@@", "[!-- [[footnote]]§[[/footnote]] --]", "[[a href=\"/x\"]]", "[[/a]]", "##red|", "##", "[[ul]]\n[[li]]", "[[/li]]\n[[/ul]]\n", "[[footnote]]\n§\n\n§\n[[/footnote]]", "[[li]]", "[[row]]",
    "[[code]]\n[[footnote]]§[[/footnote]]\n[[/code]]\n", "[[", "]]", "[[ruby]]", "[[rt]]", "[[/rt]][[/ruby]]", "[[*footnote]]", "[[size 5%]]", "[[/size]]", "[[[", "]]]",
];

/// Wrappers whose parse may be thrown away after its content was parsed.
pub const WRAP: &[(&str, &str)] = &[
    ("", ""), ("[[div]]\n", "\n[[/div]]"), ("[[div]]\n", ""), ("[[span]]", ""), ("[[span]]", "[[/span]]"), ("[[li]]", "[[/li]]"), ("[[ul]]\n", "\n[[/ul]]"), ("[[table]]\n", "\n[[/table]]"), ("[[row]]", "[[/row]]"), ("[[cell]]", "[[/cell]]"), ("[[tab x]]\n", "\n[[/tab]]"),
    ("[[tabview]]\n", "\n[[/tabview]]"), ("**", ""), ("**", "**"), ("** ", "**"), ("//", " //"), ("##red|", ""), ("##red|", "##"), ("[[iftags tale]]", "[[/iftags]]"), ("[[iftags -tale]]", "[[/iftags]]"), ("[[iftags tale]]", ""), ("[[ruby]]", "[[/ruby]]"), ("[[rt]]", "[[/rt]]"), ("[[collapsible]]\n", ""),
    ("[[collapsible]]\n", "\n[[/collapsible]]"), ("* ", "\n* §"), ("> ", "\n> §"), ("|| ", " ||"), ("|| ", ""), ("|| §||\n|| ", " || x"), ("+ ", "\n"), ("= ", "\n"), (": ", " : §"), (": § : ", "\n: "), (": ", ""), ("[[bibliography]]\n: x : ", "\n[[/bibliography]]\n"), ("[[bibliography]]\n: x : ", "\n§\n[[/bibliography]]\n"),
    ("[[footnote]]", "[[/footnote]]"), ("[[footnote]]", ""), ("[[a]]", "[[/a]]"), ("[[a]]", ""), ("[[size 1%]]", ""), ("[[target t]]", "[[/target]]"), ("[[", "]]"), ("[[=]]\n", "\n[[/=]]"), ("[[=]]\n", ""), ("[[p]]", ""), ("[[ol]]\n[[li]]", "[[/li]]\n§[[/ol]]"), ("[[later]]", ""), ("@@", "@@"), ("[!--", "--]"), ("[[blockquote]]\n", ""),
    ("[[checkbox]]", ""), ("[http://a ", "]"), ("[[tabview]]\n[[tab t]]\n", "\n[[/tab]]\n§\n[[/tabview]]"), ("[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n§[[/row]]\n[[/table]]"), ("[[module css]]\n", "\n[[/module]]"), ("[[code]]\n", "\n[[/code]]"), ("[[html]]", "[[/html]]"),
];

pub fn wrapped(name: &str, units: &'static [&'static str], tail: &'static str, f: fn(&str, &mut Cx) -> Result<(), String>, levels: usize) -> Family {
    let n = WRAP.len();
    let mut dims = vec![n; levels];
    dims.push(units.len());
    let make = move |ix: &[usize]| {
        let mut d = units[ix[levels]].to_string();
        for l in (0..levels).rev() {
            d = format!("{}{d}{}", WRAP[ix[l]].0, WRAP[ix[l]].1);
        }
        fill(&format!("{d}{tail}")).0
    };
    let m2 = make.clone();
    product_family(name, &format!("every unit inside every {levels}-tuple of {n} well-formed and ill-formed contexts, and another unit after it"), &dims, Box::new(move |ix| make(ix)), move |ix, cx| f(&m2(ix), cx))
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct (contents of notes, number of lists); markers, tooltips, table and lists compared with each other and with the words of the source");
    c.at_least = vec![("documents_with_notes", 10_000)];
    let x = thorough as usize;
    c.families.push(word_family("words", ALPHABET, 3 + x, "", "", |d, w, cx| {
        cx.transitions += w.len() as u64;
        notes(&fill(d).0, cx)
    }));
    c.families.push(word_family("words-tail", ALPHABET, 3, "[[footnote]]§[[/footnote]]", "\n\n§[[footnote]]§[[/footnote]]", |d, _, cx| notes(&fill(d).0, cx)));
    c.families.extend(crate::corpus::many(40 + 80 * x, &["$", "math", "toc", "bib", "[tab §"], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| notes(d, cx)) as crate::corpus::DocFn)));
    const UNITS: &[&str] = &["[[footnote]]§[[/footnote]]", "[[footnote]]\n§\n\n§\n[[/footnote]]", "§[[footnote]]**§**[[/footnote]]§[[footnote]]§[[/footnote]]", "[[footnoteblock]]", "§[[footnote]]§", "[[footnoteblock title=\"T\"]]\n§[[footnote]]§[[/footnote]]"];
    c.families.push(wrapped("wrapped", UNITS, "\n\n§[[footnote]]§[[/footnote]]", notes, 2 + x));
    c.families.push(wrapped("wrapped-inline", UNITS, "[[footnote]]§[[/footnote]]", notes, 2));
    // notes in entries which are not shown
    let known = [
        "[[bibliography hide=\"true\"]]\n: x : §[[footnote]]§[[/footnote]]\n[[/bibliography]]\n[[footnote]]§[[/footnote]]",
        "[[bibliography]]\n: x : §\n: x : [[footnote]]§[[/footnote]]\n[[/bibliography]]\n[[footnote]]§[[/footnote]]",
        "[[bibliography]]\n: x[[footnote]]§[[/footnote]] : §\n[[/bibliography]]\n[[footnote]]§[[/footnote]]",
        "[[bibliography]]\n: x : §[[footnote]]§[[/footnote]]\n: y : [[footnote]]§[[/footnote]]\n[[/bibliography]]\n[[footnote]]§[[/footnote]]((bibcite y))",
        "((bibcite x))[[footnote]]((bibcite x))[[/footnote]]\n\n[[bibliography]]\n: x : §[[footnote]]§[[/footnote]]\n[[/bibliography]]\n[[footnote]]§[[/footnote]]",
    ];
    c.families.push(list_family("bibliographies", "notes in shown and in unshown parts of bibliographies", known.iter().map(|s| fill(s).0).collect(), |s| s.clone(), |s, cx| notes(s, cx)));
    c
}
