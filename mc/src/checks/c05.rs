//! C05: no word is lost, duplicated or reordered, whatever the markup around it.
//!
//! Every `§` of a template becomes a different word; none of the templates puts one where the
//! markup is documented to withhold it, so all must come out once and in order.
use super::*;
use crate::corpus;
use crate::doc::*;
use std::sync::Arc;

/// Words which contain no markup, no digits, and never each other.
fn word(n: usize) -> String {
    let a = (b'a' + (n / 26) as u8) as char;
    let b = (b'a' + (n % 26) as u8) as char;
    format!("q{a}{b}kw")
}

pub fn fill(template: &str) -> (String, usize) {
    let mut out = String::new();
    let mut n = 0;
    for c in template.chars() {
        if c == '§' {
            out.push_str(&word(n));
            n += 1;
        } else {
            out.push(c);
        }
    }
    (out, n)
}

/// Words of `s` in order of occurrence.
pub fn found(s: &str) -> Vec<usize> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    for i in 0..b.len().saturating_sub(4) {
        if b[i] == b'q' && b[i + 3] == b'k' && b[i + 4] == b'w' && b[i + 1].is_ascii_lowercase() && b[i + 2].is_ascii_lowercase() {
            v.push((b[i + 1] - b'a') as usize * 26 + (b[i + 2] - b'a') as usize);
        }
    }
    v
}

fn outside_tags(html: &str) -> String {
    let mut o = String::with_capacity(html.len());
    let mut tag = false;
    for c in html.chars() {
        match c {
            '<' => tag = true,
            '>' => tag = false,
            c if !tag => o.push(c),
            _ => {}
        }
    }
    o
}

fn outside_markers(nodes: &[crate::html::Node], out: &mut String) {
    for n in nodes {
        match n {
            crate::html::Node::Text(t) => out.push_str(t),
            n if n.has_class("wj-footnote-ref") || n.has_class("wj-bibliography-ref") => {}
            n => outside_markers(n.kids(), out),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Order {
    /// in order in HTML and text
    Kept,
    /// once each in the HTML outside markers with their tooltips, in any order (footnotes move to the end)
    Relocated,
}

fn conserve(template: &str, order: Order, cx: &mut Cx) -> Result<(), String> {
    let (doc, n) = fill(template);
    page(&doc, |_, tree, _| {
        cx.runs += 1;
        if order == Order::Relocated {
            let h = html_of(tree, &page_info(), &page_settings()).body;
            let dom = crate::html::parse(&h)?;
            let mut t = String::new();
            outside_markers(&dom, &mut t);
            let mut got = found(&t);
            got.sort();
            cx.state(&t);
            if got.len() != n || got.iter().enumerate().any(|(i, &k)| i != k) {
                return Err(format!("{n} words; the HTML outside tooltips has words {got:?}: {h}"));
            }
            return Ok(());
        }
        let t = text_of(tree, &page_info(), &page_settings());
        cx.state(&t);
        let got = found(&t);
        if got.len() != n || got.iter().enumerate().any(|(i, &k)| i != k) {
            return Err(format!("{n} words numbered in order; the text output has words {got:?}: {t:?}"));
        }
        let h = html_of(tree, &page_info(), &page_settings()).body;
        let got = found(&outside_tags(&h));
        if got.len() != n || got.iter().enumerate().any(|(i, &k)| i != k) {
            return Err(format!("{n} words numbered in order; the HTML has words {got:?}: {h:?}"));
        }
        if n > 1 {
            cx.nontrivial(&t);
        }
        Ok(())
    })
}

/// No symbol withholds text by itself, alone or in combination.
const TOKENS: &[&str] = &[
    " ", "\n", "\n\n", "[[", "]]", "[[/", "]]]", "[", "]", "[*", "@@", "@<", ">@", "--]", "//", "**", "__", "--", "^^", ",,", "{{", "}}", "||", "||~", "||=", "~~~~", "----\n", "====", "> ", "+ ",
    "* ", ": ", "= ", "=", "_", "\"", "<<", "~~", "[[*", "((", "<", ">", "--- ", " _\n", "&", "'", "``", "..", "))", "||<", "||>", "!", "\\", "{$", "-", "``", "[[div", "[[span", "[[/div]]", "[[/span]]",
    "[[code]", "[[<]]", "[[f<", "\u{a0}",
];
const FORMAT: &[&str] = &[
    "§", " ", "\n", "\n\n", "**", "//", "__", "--", "^^", ",,", "{{", "}}", "@@", "[[span]]", "[[/span]]", "[[b]]", "[[/b]]", "[[i class=\"k\"]]", "[[/i]]", "[[size 50%]]", "[[/size]]", "[[ruby]]", "[[rt]]", "[[/rt]]", "[[/ruby]]",
    "[[a href=\"/p\"]]", "[[/a]]", "[[ins]]", "[[/ins]]", "[[span_]]", "[[", "[[mark]]", "[[/mark]]",
];
const BLOCK: &[&str] = &[
    "§", "\n", "§\n\n§", "[[div class=\"k\"]]\n", "\n[[/div]]\n", "[[div_]]\n", "[[blockquote]]\n", "\n[[/blockquote]]\n", "[[p]]\n", "\n[[/p]]\n", "[[=]]\n", "\n[[/=]]\n", "[[>]]\n§\n[[/>]]\n", "[[collapsible show=\"S\" hide=\"H\"]]\n", "\n[[/collapsible]]\n",
    "[[tabview]]\n", "[[tab T]]\n", "\n[[/tab]]\n", "\n[[/tabview]]\n", "[[table class=\"t\"]]\n", "[[row]]\n", "[[cell]]\n", "[[hcell]]§[[/hcell]]\n", "\n[[/cell]]\n", "[[/row]]\n", "[[/table]]\n", "[[ul]]\n", "[[li]]", "[[/li]]\n", "[[/ul]]\n",
    "[[ol]]\n[[li]]§[[/li]]\n[[/ol]]\n", "> §\n", ">> §\n", "+ §\n", "++* §\n", "= §\n", "----\n", "~~~~<\n", "[[span]]", "[[/span]]", "**§**", "[[iftags tale]]", "[[/iftags]]", "||§||\n", "* §\n", ": § : §\n",
];
const LINE: &[&str] = &[
    "§\n", "\n", "* §\n", " * §\n", "  * §\n", "# §\n", " # §\n", "> §\n", ">> §\n", ">§\n", "> * §\n", ": § : §\n", ": § :\n", ":§:§\n", "|| § || § ||\n", "||~ § ||= § ||\n", "|||| § ||< § ||> § ||\n", "|| § _\n§ ||\n", "|| § ||\n§ ", "|| §\n", "||§", "+ §\n", "++++++ §\n", "+++++++ §\n", "+§\n",
    "= §\n", "=§\n", "----\n", "--\n", "* **§\n", "||||\n", "* [[div]]\n", "[[/div]]\n", "**", "* \n", "*\n", ">\n", "[[ul]]\n[[li]]\n", "[[/li]]\n[[/ul]]\n", "~~~~\n", "~~~\n", "*§\n", " \u{a0}* §\n", "> > §\n", "§ _\n",
];
const LINK: &[&str] = &[
    "§", " ", "\n", "\n\n", "[[[p|", "[[[*p |", "[[[http://a.b/c|", "[[[#t|", "[[[:s:p|", "[http://a.b/c ", "[*http://a.b/c ", "[/p ", "[#t ", "] §", "]] §", "[[a href=\"x\"]]", "[[a_ name=\"y\"]]", "[[/a]]", "**", "[[target t]] ", "[[/target]]", "@@", "[[span]]",
    "[[/span]]", "[[image i.png]] ", "<", "!", "((", "))",
];
const NOTE: &[&str] = &[
    "§", "\n", "\n\n", "[[footnote]]", "[[/footnote]]", "[[footnote]]§[[/footnote]]", "+ §\n", "> §\n", "* §\n", "|| § ||\n", "[[div]]\n", "[[/div]]\n", "[[span]]", "[[/span]]", "**", "[[bibliography]]\n", ": x : §\n", ": y : §\n", "[[/bibliography]]\n", "((bibcite x))",
    "[[collapsible]]\n", "[[/collapsible]]\n", "[[iftags tale]]", "[[/iftags]]", "@@", "[[code]]\n§\n[[/code]]\n", "[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n[[/row]]\n[[/table]]\n", "[[[§]]]", "[[tabview]]\n[[tab T]]\n", "[[/tab]]\n[[/tabview]]\n",
];

/// Contexts which show the text in their hole.
pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""), ("§ ", " §"), ("\n§\n", "\n§\n"), ("§\n\n", "\n\n§"), ("[[div]]\n", "\n[[/div]]"), ("[[div]]", "[[/div]]"), ("[[div_]]\n", "\n[[/div]]"), ("[[span]]", "[[/span]]"), ("[[span_]]\n", "\n[[/span]]"), ("**", "**"), ("//", "//"), ("##blue|", "##"), ("* ", "\n* §"), ("# ", "\n # §"), ("> ", "\n> §"),
    (": k : ", "\n: l : §"), (": ", " : §"), ("|| ", " || § ||"), ("||~ ", " ||\n"), ("+ ", "\n§"), ("= ", "\n§"), ("[[collapsible]]\n", "\n[[/collapsible]]"), ("[[tabview]]\n[[tab T]]\n", "\n[[/tab]]\n[[tab]]\n§\n[[/tab]]\n[[/tabview]]"), ("[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n[[/row]]\n[[/table]]"),
    ("[[ul]]\n[[li]]", "[[/li]]\n[[li]]§[[/li]]\n[[/ul]]"), ("[[ul]]\n", "\n[[/ul]]"), ("[[iftags tale]]§", "[[/iftags]]"), ("[[ruby]]", "[[rt]]§[[/rt]][[/ruby]]"), ("[[blockquote]]\n", "\n[[/blockquote]]"), ("[[>]]\n", "\n[[/>]]"), ("[[a href=\"/p\"]]", "[[/a]]"), ("[[size 50%]]§", "[[/size]]"),
    ("[[p]]", "[[/p]]"), ("[[span]]**", ""), ("", "[[/div]]"), ("[[x ", "]]"), ("[http://x.y ", "]"), ("@@", "@@"), ("[[code]]\n", "\n[[/code]]"), ("[[later]]", ""), ("§[[lines 2]]", "§"), ("[[* ", ""), ("|| § |||| ", " ||"), ("> ", " §"), ("**//", "//**"), ("[[del]]", "[[/del]]"),
];

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct text renderings; in every one, each word of the source occurs exactly once and in order");
    let x = thorough as usize;
    let kept = |name: &str, a: &[&str], n: usize, pre: &str, suf: &str| word_family(name, a, n, pre, suf, |d, w, cx| {
        cx.transitions += w.len().saturating_sub(1) as u64;
        conserve(d, Order::Kept, cx)
    });
    let spaced: Vec<String> = TOKENS.iter().map(|t| format!("{t}§")).collect();
    let spaced: Vec<&str> = spaced.iter().map(|s| s.as_str()).collect();
    c.families.push(kept("tokens", &spaced, 3 + x, "§", ""));
    let mut free = TOKENS.to_vec();
    free.push("§");
    c.families.push(kept("tokens-free", &free, 3 + x, "", ""));
    c.families.push(kept("format", FORMAT, 4, "", ""));
    c.families.push(kept("format-tail", FORMAT, 3, "§ ", " §"));
    c.families.push(kept("blocks", BLOCK, 3 + x, "", ""));
    c.families.push(kept("blocks-tail", BLOCK, 3, "[[div]]\n§", "§\n[[/div]]"));
    c.families.push(kept("lines", LINE, 3 + x, "", ""));
    c.families.push(kept("lines-tail", LINE, 3, "§\n", "§"));
    c.families.push(kept("links", LINK, 4, "", ""));
    c.families.push(kept("triple", &["§", " ", "\n", "[[[", "]]]", "[[", "]]", "[", "]", "**", "[[span]]", "@@", "||", "\n\n", "* ", "[[[*", "é", "{{", "=", "_"], 4 + x, "", ""));
    c.families.push(kept("colour", &["§", " ", "\n\n", "##red|", "##00f|", "**", "[[span]]", "[[/span]]", "\n", "@@", "* ", "//"], 5, "", "##"));
    c.families.push(word_family("notes", NOTE, 3 + x, "", "", |d, w, cx| {
        cx.transitions += w.len().saturating_sub(1) as u64;
        conserve(d, Order::Relocated, cx)
    }));
    for (name, pre, suf) in [("notes-block", "", "\n\n[[footnoteblock]]\n\n§"), ("notes-block-first", "§\n\n[[footnoteblock title=\"t\"]]\n\n", "")] {
        c.families.push(word_family(name, NOTE, 2 + x, pre, suf, |d, _, cx| conserve(d, Order::Relocated, cx)));
    }
    // nested contexts
    let mut syms: Vec<&'static str> = Vec::new();
    for a in [FORMAT, BLOCK, LINE, LINK] {
        for s in a {
            if !syms.contains(s) {
                syms.push(s);
            }
        }
    }
    let levels = 2;
    let dims = [CONTEXTS.len(), CONTEXTS.len(), syms.len(), 2];
    let make = move |ix: &[usize]| {
        let mut d = syms[ix[levels]].to_string();
        if ix[3] == 1 {
            d = format!("§{d}§");
        }
        for l in (0..levels).rev() {
            d = format!("{}{d}{}", CONTEXTS[ix[l]].0, CONTEXTS[ix[l]].1);
        }
        d
    };
    let m2 = make.clone();
    c.families.push(product_family("nested", "every symbol inside every pair of 46 contexts, with and without words around it", &dims, Box::new(move |ix| make(ix)), move |ix, cx| {
        conserve(&m2(ix), Order::Kept, cx)
    }));
    // whatever is between, the paragraphs before and after it stay
    let f: corpus::DocFn = Arc::new(|d, cx| {
        let (first, last) = (word(0), word(1));
        page(&format!("{first}\n\n{d}\n\n{last}"), |_, tree, _| {
            cx.runs += 1;
            let t = text_of(tree, &page_info(), &page_settings());
            let h = outside_tags(&html_of(tree, &page_info(), &page_settings()).body);
            for (k, s) in [("text", &t), ("HTML", &h)] {
                if found(s) != [0, 1] {
                    return Err(format!("of a paragraph before and one after the document, the {k} output shows {:?}: {s:?}", found(s)));
                }
            }
            Ok(())
        })
    });
    let mut v = corpus::fixture_edits(&f);
    v.extend(corpus::words(&["side", "objects"], 3, &f));
    v.extend(corpus::holes(1 + x, &f));
    for f in &mut v {
        f.name = format!("between:{}", f.name);
        f.bound = format!("{}, between two paragraphs", f.bound);
    }
    c.families.extend(v);
    c
}
