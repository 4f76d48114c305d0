//! C35: variables. Programs of scopes and uses are built as element trees; a stack machine says what each use shows.
use super::*;
use crate::doc::*;
use crate::html;
use ftml::tree::*;
use std::borrow::Cow;
use std::collections::HashMap;

const OPS: &[&str] = &["(", "(a", "(b", "(ab", "(A", "[", ")", "{$a}", "{$b}", "{$c}"];

/// (what stands in the text, in order)
fn model(w: &[usize]) -> Vec<String> {
    let mut stack: Vec<Option<HashMap<&str, String>>> = vec![];
    let mut out = vec![];
    for (at, &k) in w.iter().enumerate() {
        match OPS[k] {
            "[" => stack.push(None),
            ")" => {
                stack.pop();
            }
            o if o.starts_with('(') => stack.push(Some(o[1..].split("").filter(|n| !n.is_empty()).map(|n| (n, value(n, at))).collect())),
            o => {
                let name = &o[2..o.len() - 1];
                let v = stack.iter().rev().flatten().find_map(|s| s.get(name).cloned());
                out.push(v.unwrap_or(o.to_string()));
            }
        }
    }
    out
}

fn value(name: &str, at: usize) -> String {
    match (name, at % 3) {
        ("a", 0) => format!("<{at}&>"),
        ("a", 1) => format!("{{$b}}{at}"),
        ("b", 2) => String::new(),
        _ => format!("{name}{at}"),
    }
}

fn wrap(els: Vec<Element<'static>>, at: usize) -> Element<'static> {
    let container = |t, els| Element::Container(Container::new(t, els, AttributeMap::new()));
    match at % 5 {
        0 => container(ContainerType::Bold, els),
        1 => container(ContainerType::Div, els),
        2 => Element::Collapsible { elements: els, attributes: AttributeMap::new(), start_open: false, show_text: None, hide_text: None, show_top: true, show_bottom: false },
        3 => Element::TabView(vec![Tab { label: Cow::Borrowed("t"), elements: els }]),
        _ => Element::List { ltype: ListType::Bullet, attributes: AttributeMap::new(), items: vec![ListItem::Elements { attributes: AttributeMap::new(), elements: els }] },
    }
}

fn build(w: &[usize]) -> Vec<Element<'static>> {
    fn close(frames: &mut Vec<(Vec<Element<'static>>, Option<usize>, usize)>) {
        let (els, scope, at) = frames.pop().unwrap();
        let e = match scope {
            None => wrap(els, at),
            Some(k) => Element::Include {
                paragraph_safe: true,
                variables: OPS[k][1..].split("").filter(|n| !n.is_empty()).map(|n| (Cow::Owned(n.to_string()), Cow::Owned(value(n, at)))).collect(),
                location: ftml::data::PageRef::page_only("p"),
                elements: els,
            },
        };
        frames.last_mut().unwrap().0.push(e);
    }
    let mut frames = vec![(vec![], None, 0)];
    for (at, &k) in w.iter().enumerate() {
        match OPS[k] {
            "[" => frames.push((vec![], None, at)),
            ")" => {
                if frames.len() > 1 {
                    close(&mut frames);
                }
            }
            o if o.starts_with('(') => frames.push((vec![], Some(k), at)),
            o => {
                let f = &mut frames.last_mut().unwrap().0;
                f.push(Element::Text(Cow::Borrowed("«")));
                f.push(Element::Variable(Cow::Owned(o[2..o.len() - 1].to_string())));
                f.push(Element::Text(Cow::Borrowed("»")));
            }
        }
    }
    while frames.len() > 1 {
        close(&mut frames);
    }
    frames.pop().unwrap().0
}

fn uses(s: &str) -> Vec<String> {
    s.split('«').skip(1).map(|p| p.split('»').next().unwrap().to_string()).collect()
}

fn scopes(w: &[usize], cx: &mut Cx) -> Result<(), String> {
    let want = model(w);
    let st = page_settings();
    let info = page_info();
    with_parse("", &info, &st, |_, empty, _| {
        let mut tree = empty.clone();
        tree.elements = build(w);
        cx.runs += 1;
        let body = html_of(&tree, &info, &st).body;
        let mut text = String::new();
        html::walk(&html::parse(&body)?, &mut |n| {
            if let html::Node::Text(t) = n {
                text.push_str(t);
            }
        });
        let text2 = text_of(&tree, &info, &st);
        cx.state(&body);
        cx.bump("uses", want.len() as u64);
        for (what, got) in [("HTML", uses(&text)), ("text", uses(&text2))] {
            if got != want {
                return Err(format!("{what} shows {got:?}, expected {want:?} in {body}"));
            }
        }
        if want.iter().any(|u| !u.starts_with("{$")) {
            cx.nontrivial(&format!("{want:?}"));
        }
        Ok(())
    })
}

/// Variables of a page's own text, outside and inside an (element) include, which at present has fixed content.
fn source(doc: &str, cx: &mut Cx) -> Result<(), String> {
    cx.runs += 1;
    page(doc, |pre, tree, _| {
        let st = page_settings();
        let body = html_of(tree, &page_info(), &st).body;
        let mut text = String::new();
        html::walk(&html::parse(&body)?, &mut |n| {
            if let html::Node::Text(t) = n {
                text.push_str(t);
            }
        });
        let want = pre.replace("[[include-elements p a=\"1\" b=\"2\"]]", "<INCLUDED PAGE (ELEMENTS)>").replace("[[span]]", "").replace("[[/span]]", "").replace("**", "");
        let got = text_of(tree, &page_info(), &st).replace('\n', "");
        if text != want || got != want {
            return Err(format!("expected {want:?}, found {text:?} and {got:?}"));
        }
        cx.state(&want);
        Ok(())
    })
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct sequences of values shown");
    c.at_least = vec![("uses", 100_000)];
    let n = 6 + thorough as usize;
    let mut fam = word_family("scopes", OPS, n, "", "", |_, w, cx| scopes(w, cx));
    fam.bound = format!("all programs of up to {n} steps: opening a scope with any of four sets of variables, opening another element (five kinds), closing either, using one of three variables");
    c.families.push(fam);
    c.families.push(word_family("source", &["{$a}", "{$a-b_1}", "{$", "}", "a", "x", " ", "[[include-elements p a=\"1\" b=\"2\"]]", "[[span]]{$b}[[/span]]", "**{$a}**", "{$é}", "$"], 4 + thorough as usize, "", "", |d, _, cx| source(d, cx)));
    c
}
