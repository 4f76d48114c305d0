//! C37: a part of a page reads the same alone, beside other parts, and as the body of a block. Nothing but ftml's
//! own outputs are compared here, so no reference parser can share a mistake with it.
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html::{self, Node};
use std::sync::Arc;

/// What a document is rendered to.
pub struct Out {
    dom: Vec<Node>,
    text: String,
    warnings: usize,
    body: String,
}

fn read(doc: &str) -> Result<Out, String> {
    page(doc, |_, tree, errs| {
        let out = html_of(tree, &page_info(), &page_settings());
        let mut dom = html::parse(&out.body)?;
        match &mut dom[..] {
            [Node::El { kids, .. }] => dom = std::mem::take(kids),
            _ => return Err("no body element".into()),
        }
        Ok(Out { dom, text: text_of(tree, &page_info(), &page_settings()), warnings: errs.len(), body: out.body })
    })
}

/// Constructs whose output depends on the rest of the page by design: numbered, listed or shown elsewhere.
const PAGEWIDE: &[&str] = &["wj-footnote", "wj-bib", "wj-equation", "wj-math", "wj-toc", "wj-html", "<style"];

fn pagewide(o: &Out) -> bool {
    PAGEWIDE.iter().any(|p| o.body.contains(p))
}

/// The DOM without identifiers, which are numbered through the page.
fn plain(nodes: &[Node], out: &mut String) {
    let mut text = false;
    for n in nodes {
        match n {
            Node::Text(t) => {
                if !std::mem::replace(&mut text, true) {
                    out.push('«');
                }
                out.push_str(t);
            }
            Node::El { tag, attrs, kids } => {
                text = false;
                out.push_str(&format!("<{tag}"));
                for (k, v) in attrs {
                    if !matches!(k.as_str(), "id" | "for" | "aria-controls" | "aria-labelledby" | "data-delta") {
                        out.push_str(&format!(" {k}={v:?}"));
                    }
                }
                out.push('>');
                plain(kids, out);
                out.push_str("</>");
            }
        }
    }
}

fn canon(nodes: &[Node]) -> String {
    let mut s = String::new();
    plain(nodes, &mut s);
    s
}

fn words(s: &str) -> impl Iterator<Item = char> + '_ {
    s.chars().filter(|c| !c.is_whitespace())
}

/// What opens something that later text could close. Where it is shown as text, it is still open.
const OPENERS: &[&str] = &["**", "//", "__", "--", "^^", ",,", "{{", "##", "@@", "@<", "[[", "[!--", "[", "<<", "||"];

/// Blocks without a body take the line break after them, and with it the end of an item, a quoted line or the like.
/// What a conditional hides may be open without being seen.
const HEADS: &[&str] = &["[[later", "[[lines", "[[module", "[[target", "[[anchortarget", "[[# ", "[[include-elements", "[[iframe", "[[embed", "[[if"];

const AFTER: &[&str] = &[
    "a", "**b**", "* x\n* y", "> q", "|| c || d ||", ": k : v", "+ H", "[[div]]\nx\n[[/div]]", "= c", "----", "b**", "b//", "[[/div]]", "[[/span]] c", "]]", "--]", "a @@", "x ##", "y}}", ">@", "[[code]]\n**\n[[/code]]", "|", "b ||", "\"]]", "[[li]]x[[/li]]",
];

fn join(doc: &str, cx: &mut Cx) -> Result<(), String> {
    use std::sync::OnceLock;
    static B: OnceLock<Vec<Out>> = OnceLock::new();
    let bs = B.get_or_init(|| AFTER.iter().map(|b| read(b).expect("html")).collect());
    let a = read(doc)?;
    cx.runs += 1;
    if !whole(doc, &a) {
        return Ok(());
    }
    cx.state(&a.body);
    cx.nontrivial(&a.body);
    cx.bump("beside", AFTER.len() as u64);
    let mut bad = vec![];
    for (b, ob) in AFTER.iter().zip(bs) {
        cx.runs += 1;
        let ab = read(&format!("{doc}\n\n{b}"))?;
        let want = canon(&[&a.dom[..], &ob.dom[..]].concat());
        let got = canon(&ab.dom);
        if want != got {
            bad.push(format!("{b:?} {}", html::diff(&want, &got)));
        } else if words(&ab.text).ne(words(&a.text).chain(words(&ob.text))) {
            bad.push(format!("{b:?}: the text is {:?}, not {:?} and {:?}", ab.text, a.text, ob.text));
        } else if ab.warnings != ob.warnings {
            bad.push(format!("{b:?}: {} warnings instead of {}", ab.warnings, ob.warnings));
        }
    }
    if let Some(b) = bad.first() {
        return Err(format!("{} bad, first: {b}", bad.len()));
    }
    Ok(())
}

/// Whether the document is whole: nothing in it is open, or reaches beyond its end, and nothing of it depends on the page.
fn whole(doc: &str, a: &Out) -> bool {
    // A line break at the end which the last character takes away or keeps is part of the markup.
    let end = doc.trim_end_matches([' ', '\n']);
    let shown = html::text_of(&a.dom);
    let bad = a.warnings > 0 || pagewide(a) || end.ends_with(['\\', '_']) || doc.contains("_\n") || HEADS.iter().any(|h| doc.contains(h)) || OPENERS.iter().any(|o| shown.contains(o));
    !bad
}

/// Blocks with a body, and the class of the element which holds it.
const HOLDERS: &[(&str, &str, &str)] = &[
    ("[[div class=\"probe\"]]\n", "\n[[/div]]", "probe"),
    ("[[blockquote class=\"probe\"]]\n", "\n[[/blockquote]]", "probe"),
    ("[[=]]\n", "\n[[/=]]", "wj-align-center"),
    ("[[>]]\n", "\n[[/>]]", "wj-align-right"),
    ("[[collapsible]]\n", "\n[[/collapsible]]", "wj-collapsible-content"),
    ("[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]", "wj-tabs-panel"),
    ("x\n\n[[div class=\"probe\"]]\n", "\n[[/div]]\n\ny", "probe"),
    ("[[div]]\nx\n\n[[div class=\"probe\"]]\n", "\n[[/div]]\n\ny\n[[/div]]", "probe"),
];

fn inside(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let a = read(doc)?;
    cx.runs += 1;
    if !whole(doc, &a) {
        return Ok(());
    }
    cx.state(&a.body);
    cx.nontrivial(&a.body);
    let doc = doc.trim_matches('\n');
    cx.bump("as bodies", HOLDERS.len() as u64);
    let want = canon(&a.dom);
    for (open, close, class) in HOLDERS {
        cx.runs += 1;
        let b = read(&format!("{open}{doc}{close}"))?;
        let got = match html::by_class(&b.dom, class).first() {
            Some(n) => canon(n.kids()),
            None => return Err(format!("{open:?} is not read as a block")),
        };
        if want != got {
            return Err(format!("as the body of {open:?}: {}", html::diff(&want, &got)));
        }
        if b.warnings > 0 {
            return Err(format!("as the body of {open:?}: {} warnings", b.warnings));
        }
    }
    Ok(())
}

/// Lines and inline constructs, and the element which holds their content.
const LINES: &[(&str, &str, &str)] = &[
    ("* ", "", "li"),
    ("# ", "\n# y", "li"),
    ("* x\n * ", "\n* y", "ul ul li"),
    ("|| ", " ||", "td"),
    ("||~ ", " || y ||", "th"),
    ("|| x ||> ", " ||\n|| y ||", "td+"),
    ("+ ", "", "h1"),
    ("= ", "", "div"),
    (": k : ", "", "dd"),
    ("> ", "", "blockquote p"),
    ("[[span]]", "[[/span]]", "span"),
    ("**", "**", "strong"),
    ("//", "//", "em"),
    ("^^", "^^", "sup"),
    ("##red|", "##", "span"),
    ("[[b]]", "[[/b]]", "strong"),
    ("[[size 50%]]", "[[/size]]", "span"),
    ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]", "td"),
    ("[[ul]][[li]]", "[[/li]][[/ul]]", "li"),
    ("[[a href=\"/x\"]]", "[[/a]]", "a"),
];

fn inline(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let doc = &*format!("q {doc} q");
    let a = read(doc)?;
    cx.runs += 1;
    let [Node::El { tag, kids, .. }] = &a.dom[..] else { return Ok(()) };
    if tag != "p" || doc.contains('\n') || doc.trim() != doc || !whole(doc, &a) {
        return Ok(());
    }
    cx.state(&a.body);
    cx.nontrivial(&a.body);
    cx.bump("as lines", LINES.len() as u64);
    let want = canon(kids);
    let mut bad = vec![];
    for (open, close, path) in LINES {
        // The same marker again would end it.
        if close.starts_with(['*', '/', '^', '#']) && doc.contains(close) {
            continue;
        }
        cx.runs += 1;
        let b = read(&format!("{open}{doc}{close}"))?;
        let mut at: Vec<Node> = b.dom;
        for step in path.split(' ') {
            let n = step.ends_with('+') as usize;
            at = match html::by_tag(&at, step.trim_end_matches('+')).get(n) {
                Some(n) => n.kids().to_vec(),
                None => vec![],
            };
        }
        let got = canon(&at);
        if want != got {
            bad.push(format!("as the content of {open:?}: {}", html::diff(&want, &got)));
        } else if b.warnings > 0 {
            bad.push(format!("as the content of {open:?}: {} warnings", b.warnings));
        }
    }
    if let Some(b) = bad.first() {
        return Err(format!("{} bad, first: {b}", bad.len()));
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct outputs of parts without warnings");
    let (beside, inside, inline): (corpus::DocFn, corpus::DocFn, corpus::DocFn) = (Arc::new(join), Arc::new(inside), Arc::new(inline));
    let x = thorough as usize;
    for (label, f) in [("in a block", &inside), ("in a line", &inline)] {
        let mut v = corpus::words(&[], 3, f);
        v.extend(corpus::nested(&[], 2, f));
        v.extend(corpus::fixture_wraps(1, f));
        if thorough || label == "in a block" {
            v.extend(corpus::fixture_edits(f));
        }
        if thorough {
            v.extend(corpus::nested(&["lines"], 3, f));
        }
        c.families.extend(corpus::named(label, v));
    }
    let mut v = corpus::words(&[], 2 + x, &beside);
    v.extend(corpus::nested(&["inline", "lines", "blocks"], 2, &beside));
    v.extend(corpus::fixture_wraps(x, &beside));
    c.families.extend(corpus::named("beside others", v));
    c.assumptions = vec![
        "Parts which produce warnings, show an unclosed opening marker as text, or depend on the page by design (footnotes, bibliographies, equations, contents, HTML blocks, styles) are not claimed.".into(),
        "Nor are parts with an escaped line break, a conditional, or a block without a body, which takes the line break after it.".into(),
    ];
    c.at_least = vec![("beside", 100_000), ("as bodies", 100_000), ("as lines", 100_000)];
    c
}
