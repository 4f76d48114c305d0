//! C26: conditional blocks. Truth: every condition against every page. Shape: a conditional whose condition holds
//! is as if its tags were not there, one whose condition fails is as if none of it were.
use super::*;
use crate::doc::*;
use ftml::data::PageInfo;
use std::borrow::Cow;

const TERMS: &[&str] = &["a", "+a", "-a", "b", "+b", "-b", "c", "+C", "-c", "+", "-", "++a", "a b", "é", "-_x", "+_default"];
const TAGS: &[&str] = &["a", "b", "c", "é", "_x", "C", "+a"];
const CATEGORIES: &[Option<&str>] = &[None, Some("a"), Some("b"), Some("_default"), Some("C"), Some("é")];

pub fn holds(spec: &str, values: &[&str], category: bool) -> bool {
    let (mut all, mut any, mut has_any) = (true, false, false);
    for t in spec.split(' ').filter(|t| !t.is_empty()) {
        if let (Some(v), false) = (t.strip_prefix('+'), category) {
            all &= values.contains(&v);
        } else if let Some(v) = t.strip_prefix('-') {
            all &= !values.contains(&v);
        } else {
            has_any = true;
            any |= values.contains(&t.strip_prefix('+').unwrap_or(t));
        }
    }
    all && (any || !has_any)
}

fn info(tags: u32, category: usize) -> PageInfo<'static> {
    let mut i = page_info();
    i.tags = TAGS.iter().enumerate().filter(|(k, _)| tags >> k & 1 == 1).map(|(_, t)| Cow::Borrowed(*t)).collect();
    i.category = CATEGORIES[category].map(Cow::Borrowed);
    i
}

fn spec(w: &[usize], sep: usize) -> String {
    let s = w.iter().map(|&k| TERMS[k]).collect::<Vec<_>>().join([" ", "   "][sep]);
    if sep == 1 {
        format!("  {s}  ")
    } else {
        s
    }
}

fn render(doc: &str, info: &PageInfo<'_>) -> (String, String, String) {
    let mut s = doc.to_string();
    ftml::preprocess(&mut s);
    let st = page_settings();
    with_parse(&s, info, &st, |_, tree, _| {
        let b = super::c16::undated(&derandom(&html_of(tree, info, &st).body));
        (b, text_of(tree, info, &st), format!("{} {} {:?} {:?}", tree.footnotes.len(), tree.bibliographies.next_index(), tree.code_blocks, tree.html_blocks))
    })
}
fn truth(w: &[usize], sep: usize, cx: &mut Cx) -> Result<(), String> {
    let spec = spec(w, sep);
    if spec.trim().is_empty() {
        return Ok(());
    }
    for tags in 0..1u32 << TAGS.len() {
        let i = info(tags, 0);
        let values: Vec<&str> = i.tags.iter().map(|t| t.as_ref()).collect();
        let want = holds(&spec, &values, false);
        let doc = format!("[[iftags {spec}]]§[[/iftags]]");
        cx.runs += 1;
        let st = page_settings();
        let got = with_parse(&doc, &i, &st, |_, tree, _| text_of(tree, &i, &st));
        if got != if want { "§" } else { "" } {
            return Err(format!("with tags {values:?} expected {want}, text is {got:?}"));
        }
        cx.bump(if want { "held" } else { "failed" }, 1);
        cx.state(&format!("{spec} {values:?}"));
    }
    for c in 0..CATEGORIES.len() {
        let i = info(0, c);
        let cat = i.category.as_deref().unwrap_or("_default").to_string();
        let want = holds(&spec, &[&cat], true);
        let doc = format!("[[IfCategory {spec}]]§[[/ifcategory]]");
        cx.runs += 1;
        let st = page_settings();
        let got = with_parse(&doc, &i, &st, |_, tree, _| text_of(tree, &i, &st));
        if got != if want { "§" } else { "" } {
            return Err(format!("with category {cat:?} expected {want}, text is {got:?}"));
        }
        cx.bump(if want { "held" } else { "failed" }, 1);
        cx.nontrivial(&format!("{spec} {cat} {want}"));
    }
    Ok(())
}

const HEADS: &[(&str, &str, bool)] = &[
    ("[[iftags tale]]", "[[/iftags]]", true),
    ("[[iftags +tale -x]]", "[[/iftags]]", true),
    ("[[iftags -tale]]", "[[/iftags]]", false),
    ("[[iftags x]]", "[[/iftags]]", false),
    ("[[ifcategory _default]]", "[[/ifcategory]]", true),
    ("[[ifcategory -_default]]", "[[/ifcategory]]", false),
];

/// Contexts for text within a line.
const AROUND: &[(&str, &str)] = &[
    ("", ""), ("x", "y"), ("x ", " y"), ("x\n\n", "\n\ny"), ("**x", "y**"), ("**", "**"), ("[[span]]", "[[/span]]"), ("[[div]]\n", "\n[[/div]]"), ("[[div]]\nx ", " y\n[[/div]]"),
    ("* x ", " y\n* z"), ("|| x ", " y || z ||"), ("|| ", " || z ||"), ("> x ", " y\n> z"), ("+ x ", " y\n\nz"), ("= x ", " y"), (": x : z ", " y"), ("[[footnote]]x ", " y[[/footnote]]"),
    ("[[tabview]]\n[[tab t]]\nx ", "\n[[/tab]]\n[[/tabview]]"), ("[[ul]]\n[[li]]x ", " y[[/li]]\n[[/ul]]"), ("[[table]]\n[[row]]\n[[cell]]x ", " y[[/cell]]\n[[/row]]\n[[/table]]"), ("[[size 50%]]", "[[/size]]"), ("[[u]]x ", "[[/u]]"),
    ("[[footnote]]n[[/footnote]] x ", " [[footnote]]m[[/footnote]]\n\n+ H"), ("[[collapsible]]\nx ", " y\n[[/collapsible]]"), ("[[iftags tale]]x ", " y[[/iftags]]"), ("[[iftags -tale]]x ", " y[[/iftags]] z"),
];
const WITHIN: &[&str] = &[
    "s", "s t", "__b__", "//i// u", "@@r@@", "[[span class=\"k\"]]s[[/span]]", "[[footnote]]F[[/footnote]]", "((bibcite k))", "[[[p]]]", "[http://a.b c]", "s http://a.b s", "[[image http://a.b/c]]", "[[user u]]", "[[char lt]]", "[[date 1 hover=\"false\"]]", "[[size 50%]]z[[/size]]",
    "[[checkbox]]s", "{$v}", "[[# n]]", "[[$ m $]]", "[[hidden]]h[[/hidden]]", "{{m}}", "##00f|c##c", "[[a href=\"/p\"]]l[[/a]]", "[[ruby]]R[[rt]]T[[/rt]][[/ruby]]", "s[[footnote]]F __b__[[/footnote]] [[footnote]]G[[/footnote]]", "[!-- c --]", "[[code]]q[[/code]]", "[[html]]q[[/html]]",
];

/// Parts of a page, separated by blank lines.
const PARTS: &[&str] = &[
    "s", "+ H", "++ I [[footnote]]F[[/footnote]]", "[[code name=\"n\"]]\nq\n[[/code]]", "[[html]]\nq\n[[/html]]", "[[div class=\"k\"]]\nd\n[[/div]]", "* a\n* b", "|| a || b ||", "> q\n> r", "[[toc]]", "[[footnoteblock]]", "[[bibliography]]\n: k : K\n[[/bibliography]]", "[[tabview]]\n[[tab t]]\nx\n[[/tab]]\n[[/tabview]]",
    "----", "= c", "[[module Rate]]", "[[module CSS]]\na{b:c}\n[[/module]]", ": a : b", "[[collapsible]]\nx\n[[/collapsible]]", "[[table]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[ul]]\n[[li]]x[[/li]]\n[[/ul]]", "[[math m]]\nx\n[[/math]]", "s ((bibcite k)) [[eref m]] [[footnote]]G[[/footnote]]", "[[iframe http://a.b]]", "~~~~",
    "[[div]]\n[[footnote]]D[[/footnote]]\n\n+ K\n[[/div]]",
];

fn same(with: &str, without: &str, what: &str, cx: &mut Cx) -> Result<(), String> {
    let i = page_info();
    let (a, b) = (render(with, &i), render(without, &i));
    cx.runs += 2;
    cx.state(&b.0);
    cx.bump("compared", 1);
    if a.0 != b.0 {
        return Err(format!("{what}, but the HTML differs from that of {without:?}: {}", crate::html::diff(&b.0, &a.0)));
    }
    if a.1 != b.1 {
        return Err(format!("{what}, but the text differs from that of {without:?}: {}", crate::html::diff(&b.1, &a.1)));
    }
    if a.2 != b.2 {
        return Err(format!("{what}, but what is recorded differs from {without:?}: {}", crate::html::diff(&b.2, &a.2)));
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct condition, category and truth");
    c.at_least = vec![("held", 1000), ("failed", 1000), ("compared", 2000)];
    let n = 3 + thorough as usize;
    let words = Words::new(TERMS, n);
    let (w1, w2) = (words.clone(), words.clone());
    c.families.push(Family {
        name: "conditions".into(),
        len: words.count() * 2,
        bound: format!("all conditions of up to {n} terms of {TERMS:?}, two spacings, against all sets of {TAGS:?} as tags and all of {CATEGORIES:?} as category"),
        run: Box::new(move |i, cx| {
            cx.transitions += 1;
            truth(&w1.word(i / 2), (i % 2) as usize, cx)
        }),
        show: Box::new(move |i| format!("[[iftags {}]]", spec(&w2.word(i / 2), (i % 2) as usize))),
    });
    let line = |ix: &[usize]| {
        let (h, e, shown) = HEADS[ix[0]];
        let (p, s) = AROUND[ix[1]];
        let w = WITHIN[ix[2]];
        (format!("{p}{h}{w}{e}{s}"), format!("{p}{}{s}", if shown { w } else { "" }), shown)
    };
    c.families.push(product_family("inline", "every conditional around every content in every context", &[HEADS.len(), AROUND.len(), WITHIN.len()], Box::new(move |ix| line(ix).0), move |ix, cx| {
        let (a, b, shown) = line(ix);
        if AROUND[ix[1]].0.starts_with("[[footnote]]x") && WITHIN[ix[2]].contains("[[footnote]]") {
            return Ok(()); // no footnotes within footnotes
        }
        same(&a, &b, if shown { "the condition holds" } else { "the condition fails" }, cx)
    }));
    let parts = |ix: &[usize]| {
        let (h, e, shown) = HEADS[ix[0]];
        let (p, q, r) = (PARTS[ix[1]], PARTS[ix[2]], PARTS[ix[3]]);
        let a = format!("{p}\n\n{h}\n{q}\n{e}\n\n{r}");
        let b = if shown { format!("{p}\n\n{q}\n\n{r}") } else { format!("{p}\n\n{r}") };
        (a, b, shown)
    };
    let k = PARTS.len();
    c.families.push(product_family("parts", "every conditional around every self-contained part of a page, between every two parts", &[HEADS.len(), k, k, k], Box::new(move |ix| parts(ix).0), move |ix, cx| {
        let (a, b, shown) = parts(ix);
        // adjacent lists, quotations etc. written with line markers are one
        let kinds: Vec<char> = b.split("\n\n").map(|p| p.chars().next().unwrap_or(' ')).collect();
        if kinds.windows(2).any(|w| w[0] == w[1] && "*>|:".contains(w[0])) {
            return Ok(());
        }
        same(&a, &b, if shown { "the condition holds" } else { "the condition fails" }, cx)
    }));
    c
}
