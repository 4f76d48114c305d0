//! C08: the tables of code and HTML blocks.
use super::c05::{fill, found};
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html;
use crate::walk;
use ftml::tree::Element;
use std::sync::Arc;

fn tables(doc: &str, cx: &mut Cx) -> Result<(), String> {
    page(doc, |_, tree, _| {
        cx.runs += 1;
        let (mut code, mut frames) = (Vec::new(), Vec::new());
        walk::all(tree, true, &mut |e| match e {
            Element::Code { contents, .. } => code.push(contents.to_string()),
            Element::Html { contents } => frames.push(contents.to_string()),
            _ => {}
        });
        let t: Vec<String> = tree.code_blocks.iter().map(|c| c.contents.to_string()).collect();
        let h: Vec<String> = tree.html_blocks.iter().map(|c| c.to_string()).collect();
        cx.state(&format!("{t:?}{h:?}"));
        cx.transitions += (t.len() + h.len()) as u64;
        if t != code {
            return Err(format!("code blocks of the page: {code:?}, of the table: {t:?}"));
        }
        if h != frames {
            return Err(format!("HTML blocks of the page: {frames:?}, of the table: {h:?}"));
        }
        if t.len() + h.len() > 0 {
            cx.bump("documents_with_blocks", 1);
            cx.nontrivial(&format!("{t:?}{h:?}"));
        }
        let mut names: Vec<&str> = tree.code_blocks.iter().filter_map(|c| c.name.as_deref()).collect();
        let n = names.len();
        names.sort();
        names.dedup();
        if names.len() != n {
            return Err(format!("two code blocks have the same name: {:?}", tree.code_blocks));
        }
        for list in [&t, &h] {
            let words = found(&list.concat());
            if words.windows(2).any(|w| w[0] >= w[1]) {
                return Err(format!("blocks are not in the order of the source: {list:?}"));
            }
        }
        Ok(())
    })
}

/// The text between head and end: spaces and one line break after the head, and one line
/// break before the end, belong to the tags.
fn body<'s>(rest: &'s str, name: &str) -> Option<(&'s str, &'s str)> {
    let rest = rest.trim_start_matches(' ');
    let lower = rest.to_ascii_lowercase();
    let mut at = 0;
    let (start, end) = loop {
        let i = at + lower[at..].find("[[/")?;
        let after = lower[i + 3..].trim_start_matches(' ');
        if let Some(r) = after.strip_prefix(name) {
            let r = r.strip_prefix('_').unwrap_or(r).trim_start_matches(' ');
            if r.starts_with("]]") && !r.starts_with("]]]") {
                break (i, lower.len() - r.len() + 2);
            }
        }
        at = i + 1;
    };
    let mut b = &rest[..start];
    if let Some(x) = b.strip_prefix('\n') {
        if !x.starts_with('\n') {
            b = x;
        }
    }
    if let Some(x) = b.strip_suffix('\n') {
        if !x.ends_with('\n') && !x.is_empty() {
            b = x;
        }
    }
    Some((b, &rest[end..]))
}

fn verbatim(doc: &str, name: &'static str, cx: &mut Cx) -> Result<(), String> {
    let head = format!("[[{name}]]");
    page(doc, |pre, tree, _| {
        cx.runs += 1;
        let rest = pre.strip_prefix(&head).ok_or("the document was to start with the head")?;
        let got: Vec<&str> = if name == "code" { tree.code_blocks.iter().map(|c| &*c.contents).collect() } else { tree.html_blocks.iter().map(|c| &**c).collect() };
        cx.state(&format!("{got:?}"));
        match body(rest, name) {
            None if !got.is_empty() => Err(format!("unfinished {name} block, but the table has {got:?}")),
            None => Ok(()),
            Some((want, _)) => {
                cx.nontrivial(want);
                cx.bump("documents_with_blocks", 1);
                if got.first() != Some(&want) {
                    return Err(format!("{name} block's contents: expected {want:?}, found {got:?}"));
                }
                if name == "code" {
                    let t = text_of(tree, &page_info(), &page_settings());
                    let shown = want.trim_matches('\n');
                    if !t.contains(shown) {
                        return Err(format!("text output {t:?} lacks the code {shown:?}"));
                    }
                    let out = html_of(tree, &page_info(), &page_settings());
                    let dom = html::parse(&out.body)?;
                    let codes = html::by_tag(&dom, "code");
                    if !codes.iter().any(|c| html::text_of(c.kids()) == want.replace('\0', " ")) {
                        return Err(format!("the output has no code element holding {want:?}: {}", out.body));
                    }
                }
                Ok(())
            }
        }
    })
}

const ALPHABET: &[&str] = &[
    "§", "\n", "\n\n", "[[code]]\n§\n[[/code]]\n", "[[html]]\n§\n[[/html]]\n", "[[code type=\"css\" name=\"n\"]]§[[/code]]", "[[code name=\"N\"]]\n§\n[[/code]]\n", "[[code name=\"m\"]]\n", "[[code]]\n", "[[/code]]\n", "[[html]]\n", "[[/html]]\n", "[[div]]\n", "\n[[/div]]\n", "[[span]]", "[[/span]]", "**",
    "[[iftags tale]]", "[[iftags -tale]]", "[[/iftags]]", "[[footnote]]", "[[/footnote]]", "[[footnoteblock]]\n", "* §[[code]]§[[/code]]\n", "> [[code]]\n> §\n> [[/code]]\n", "|| [[html]]§[[/html]] || §||\n", "||", ": §[[code]]§[[/code]] : [[html]]§[[/html]]\n", "[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]\n",
    "[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n[[/row]]\n[[/table]]\n", "[[collapsible]]\n", "\n[[/collapsible]]\n", "@@[[code]]§[[/code]]@@", "[!-- [[code]]§[[/code]] --]", "[[ul]]\n[[li]]", "[[/li]]\n[[/ul]]\n", "[[li]]", "[[row]]", "[[", "]]", "[[*code]]", "[[code x=\"y\"]]\n", "[[bibliography]]\n: x : ", "\n[[/bibliography]]\n",
];

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct tables of code and HTML blocks, compared with the elements of the tree and with the source text");
    c.at_least = vec![("documents_with_blocks", 10_000)];
    let x = thorough as usize;
    let t = |d: &str, cx: &mut Cx| tables(&fill(d).0, cx);
    c.families.push(word_family("words", ALPHABET, 3 + x, "", "", move |d, _, cx| t(d, cx)));
    c.families.push(word_family("words-tail", ALPHABET, 3, "[[code]]§[[/code]]\n", "\n\n[[html]]\n§\n[[/html]]\n[[code name=\"n\"]]\n§\n[[/code]]", move |d, _, cx| t(d, cx)));
    c.families.extend(crate::corpus::deep(&[], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| tables(d, cx)) as crate::corpus::DocFn)));
    c.families.extend(crate::corpus::many(40 + 80 * x, &[], &(std::sync::Arc::new(|d: &str, cx: &mut Cx| tables(d, cx)) as crate::corpus::DocFn)));
    const UNITS: &[&str] = &["[[code]]\n§\n[[/code]]", "[[html]]§[[/html]]", "§[[code name=\"a\"]]§[[/code]]§[[html]]\n§\n[[/html]]", "[[code name=\"a\"]]§[[/code]][[code name=\"a\"]]§[[/code]]", "[[code]]", "[[html]]§"];
    c.families.push(super::c07::wrapped("wrapped", UNITS, "\n\n[[code name=\"a\"]]\n§\n[[/code]]\n§\n[[html]]\n§\n[[/html]]", tables, 2 + x));
    let f: corpus::DocFn = Arc::new(tables);
    c.families.extend(corpus::words(&["side", "objects"], 3, &f));
    // verbatim contents (a backslash joins lines)
    let tokens: Vec<&str> = crate::corpus::TOKENS.iter().copied().filter(|t| *t != "\\").collect();
    for name in ["code", "html"] {
        let head: &'static str = if name == "code" { "[[code]]" } else { "[[html]]" };
        let tail: &'static str = if name == "code" { "[[/code]]" } else { "[[/html]]" };
        c.families.push(word_family(&format!("{name}-body"), &tokens, 2 + x, &format!("{head}\n"), &format!("\n{tail}"), move |d, _, cx| verbatim(d, name, cx)));
        c.families.push(word_family(&format!("{name}-body-inline"), &tokens, 2, &format!("{head}a"), &format!("a{tail}"), move |d, _, cx| verbatim(d, name, cx)));
        let own = format!("[[/{}]]", name.to_uppercase());
        let odd = format!("[[/ {name} ]]");
        let ends = ["a", "\n", " ", " _", "a[[ ", " ]] ", "[[/ x ", head, tail, &own, &odd, "[[/div]]", "é", "<", "@@", "[!--"];
        c.families.push(word_family(&format!("{name}-ends"), &ends, 4 + x, head, "", move |d, _, cx| verbatim(d, name, cx)));
    }
    // languages and names
    let types = ["", "type=\"PHP\"", "type=\"x y\"", "type=\"É<\"", "TYPE=\"css\""];
    let langs = [None, Some("php"), Some("x y"), Some("É<"), Some("css")];
    let names = ["", "name=\"n\"", "name=\"A b\"", "name=\"x:y\"", "NAME=\"n\"", "name=\"\"", "name=\"!\""];
    let shown = [None, Some("n"), Some("a-b"), Some("x:y"), Some("n"), Some(""), Some("")];
    let make = move |ix: &[usize]| {
        let one = |t: usize, n: usize, o: usize| if o == 0 { format!("[[code {} {}]]\nx\n[[/code]]", types[t], names[n]) } else { format!("[[code {} {}]]\nx\n[[/code]]", names[n], types[t]) };
        format!("{}\n\n{}", one(ix[0], ix[1], ix[4]), one(ix[2], ix[3], ix[4]))
    };
    let m2 = make.clone();
    c.families.push(product_family("arguments", "two code blocks, each with every pair of 5 type and 7 name arguments, in both orders", &[5, 7, 5, 7, 2], Box::new(move |ix| make(ix)), move |ix, cx| {
        let d = m2(ix);
        tables(&d, cx)?;
        page(&d, |_, tree, _| {
            let second = shown[ix[3]].is_none() || shown[ix[3]] != shown[ix[1]];
            let mut want = vec![(langs[ix[0]], shown[ix[1]])];
            if second {
                want.push((langs[ix[2]], shown[ix[3]]));
            }
            let mut got = Vec::new();
            walk::all(tree, true, &mut |e| {
                if let Element::Code { language, .. } = e {
                    got.push(language.as_deref().map(|s| s.to_string()));
                }
            });
            let got: Vec<(Option<&str>, Option<&str>)> = got.iter().zip(&tree.code_blocks).map(|(l, b)| (l.as_deref(), b.name.as_deref())).collect();
            if got != want {
                return Err(format!("languages and names: expected {want:?}, found {got:?}"));
            }
            Ok(())
        })
    }));
    for key in ["type", "name"] {
        let signs = ["A", "b", "É", ":", " ", "-", "_", "1", "+", "/", "<", "Z"];
        c.families.push(word_family(&format!("every {key}"), &signs, 4 + x, "", "", move |_, w, cx| {
            let value: String = w.iter().map(|&k| signs[k]).collect();
            let d = format!("[[code {key}=\"{value}\"]]\nx\n[[/code]]");
            cx.runs += 1;
            page(&d, |_, tree, _| {
                let mut language = None;
                walk::all(tree, true, &mut |e| {
                    if let Element::Code { language: l, .. } = e {
                        language = l.as_deref().map(|s| s.to_string());
                    }
                });
                let got = match key {
                    "type" => language,
                    _ => tree.code_blocks.first().and_then(|b| b.name.as_deref()).map(|s| s.to_string()),
                };
                let mut want = value.clone();
                match key {
                    "type" => want.make_ascii_lowercase(),
                    _ => wikidot_normalize::normalize(&mut want),
                }
                cx.nontrivial(&want);
                if got.as_deref() != Some(want.as_str()) {
                    return Err(format!("the {key}: expected {want:?}, found {got:?}"));
                }
                Ok(())
            })
        }));
    }
    c
}
