//! C14: style sheets. Safety: whatever the module holds stays inside its style element.
//! Meaning: the cascade of the output equals that of the source, for every element and medium of a small model.
use super::*;
use crate::doc::*;
use crate::html;
use ftml::tree::Element;
use std::collections::BTreeMap;

fn styles(doc: &str, minify: bool, cx: &mut Cx) -> Result<Vec<String>, String> {
    page(doc, |_, tree, _| {
        cx.runs += 1;
        let mut st = page_settings();
        st.minify_css = minify;
        let out = html_of(tree, &page_info(), &st);
        let dom = html::parse(&out.body).map_err(|e| format!("{e}: {}", out.body))?;
        let mut n = 0;
        crate::walk::all(tree, false, &mut |e| {
            if let Element::Style(_) = e {
                n += 1;
            }
        });
        let v: Vec<String> = html::by_tag(&dom, "style").iter().map(|s| html::text_of(s.kids())).collect();
        if v.len() != n {
            return Err(format!("{n} style sheets in the tree, {} style elements in {}", v.len(), out.body));
        }
        if out.body.to_lowercase().matches("<style").count() > n + v.concat().to_lowercase().matches("<style").count() {
            return Err(format!("a style element opens elsewhere: {}", out.body));
        }
        Ok(v)
    })
}

/// The page around the module must come out as if the module were empty.
fn contained(css: &str, cx: &mut Cx) -> Result<(), String> {
    for minify in [true, false] {
        let doc = format!("before\n\n[[module CSS]]\n{css}\n[[/module]]\n\nafter");
        let v = styles(&doc, minify, cx)?;
        if css.to_lowercase().contains("[[/module") {
            continue;
        }
        cx.state(&format!("{v:?}"));
        cx.transitions += 1;
        if v.len() != 1 {
            return Err(format!("{} style elements", v.len()));
        }
        if v[0].to_lowercase().contains("</") {
            return Err(format!("style sheet {:?} holds an end tag", v[0]));
        }
        page(&doc, |_, tree, _| {
            let mut st = page_settings();
            st.minify_css = minify;
            let body = html_of(tree, &page_info(), &st).body;
            let want = format!("<wj-body class=\"wj-body\"><p>before</p><style>{}</style><p>after</p></wj-body>", v[0]);
            if body != want {
                return Err(format!("expected {want:?}, found {body:?}"));
            }
            Ok(())
        })?;
        if !v[0].is_empty() {
            cx.nontrivial(&v[0]);
        }
    }
    Ok(())
}

// ---- the model of the cascade

type Cascade = BTreeMap<(bool, usize, &'static str), (bool, usize, String)>;

/// (specificity, does it select the element). An element is a bit set: 1 tag q (else p), 2 class a, 4 class b, 8 id i.
fn select(sel: &str, el: usize) -> Option<(usize, bool)> {
    let (mut spec, mut ok) = (0, true);
    let mut rest = sel.trim();
    while !rest.is_empty() {
        let end = rest[1..].find(['.', '#']).map_or(rest.len(), |i| i + 1);
        let (one, next) = rest.split_at(end);
        let (s, m) = match one {
            "*" => (0, true),
            "p" => (1, el & 1 == 0),
            "q" => (1, el & 1 == 1),
            ".a" => (100, el & 2 > 0),
            ".b" => (100, el & 4 > 0),
            "#i" => (10_000, el & 8 > 0),
            _ => return None,
        };
        spec += s;
        ok &= m;
        rest = next;
    }
    Some((spec, ok))
}

fn canon(v: &str) -> String {
    let v = v.trim().to_lowercase();
    match v.as_str() {
        "blue" | "#0000ff" => "#00f".into(),
        "#f00" | "#ff0000" => "red".into(),
        "white" | "#ffffff" => "#fff".into(),
        "0px" => "0".into(),
        "700" => "bold".into(),
        "400" => "normal".into(),
        _ => v,
    }
}

fn declare(c: &mut Cascade, print_only: bool, sel: &str, decl: &str) -> Result<(), String> {
    let (name, value) = decl.split_once(':').ok_or_else(|| format!("declaration {decl:?}"))?;
    let (value, important) = match value.trim().strip_suffix("important") {
        Some(v) => (v.trim().strip_suffix('!').ok_or("important")?.trim().to_string(), true),
        None => (value.trim().to_string(), false),
    };
    if value.is_empty() {
        // not a declaration
        return Ok(());
    }
    let mut pairs: Vec<(&'static str, String)> = Vec::new();
    const SIDES: [&str; 4] = ["margin-top", "margin-right", "margin-bottom", "margin-left"];
    match name.trim() {
        "margin" => {
            let v: Vec<&str> = value.split_whitespace().collect();
            let at = |i: usize| -> &str {
                match (i, v.len()) {
                    (0, _) => v[0],
                    (1, n) => v[if n > 1 { 1 } else { 0 }],
                    (2, n) => v[if n > 2 { 2 } else { 0 }],
                    (_, n) => v[if n > 3 { 3 } else if n > 1 { 1 } else { 0 }],
                }
            };
            for i in 0..4 {
                pairs.push((SIDES[i], at(i).to_string()));
            }
        }
        n => {
            let known = ["color", "content", "margin-top", "margin-right", "margin-bottom", "margin-left", "font-weight", "background-color", "--x"];
            let n = known.iter().find(|k| **k == n).ok_or_else(|| format!("property {n}"))?;
            pairs.push((n, value));
        }
    }
    for s in sel.split(',') {
        for el in 0..16 {
            let (spec, ok) = select(s, el).ok_or_else(|| format!("selector {s:?}"))?;
            if !ok {
                continue;
            }
            for print in [false, true] {
                if print_only && !print {
                    continue;
                }
                for (n, v) in &pairs {
                    let new = (important, spec, canon(v));
                    let slot = c.entry((print, el, n)).or_insert_with(|| new.clone());
                    if (new.0, new.1) >= (slot.0, slot.1) {
                        *slot = new;
                    }
                }
            }
        }
    }
    Ok(())
}

/// Split at `sep` outside of strings.
fn split(s: &str, sep: char) -> Vec<String> {
    let (mut out, mut cur, mut quote, mut esc) = (Vec::new(), String::new(), None, false);
    for c in s.chars() {
        if esc {
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if quote == Some(c) {
            quote = None;
        } else if quote.is_none() && (c == '"' || c == '\'') {
            quote = Some(c);
        } else if quote.is_none() && c == sep {
            out.push(std::mem::take(&mut cur));
            continue;
        }
        cur.push(c);
    }
    out.push(cur);
    out
}

/// Cascade of a printed style sheet.
fn cascade(css: &str) -> Result<Cascade, String> {
    let mut c = Cascade::new();
    let mut print = false;
    let mut head = String::new();
    // tokens: text up to the next brace outside of strings
    let mut rest = css.to_string();
    loop {
        let open = split(&rest, '{')[0].len();
        let close = split(&rest, '}')[0].len();
        if open >= rest.len() && close >= rest.len() {
            if !rest.trim().is_empty() {
                return Err(format!("text {rest:?} after the last rule"));
            }
            return Ok(c);
        }
        if open < close {
            head = rest[..open].trim().to_string();
            if let Some(m) = head.strip_prefix("@media") {
                if m.trim() != "print" || print {
                    return Err(format!("medium {m:?}"));
                }
                print = true;
                head.clear();
            }
            rest = rest[open + 1..].to_string();
        } else {
            if head.is_empty() {
                if !rest[..close].trim().is_empty() || !print {
                    return Err(format!("unexpected {:?}", &rest[..close]));
                }
                print = false;
            } else {
                for d in split(&rest[..close], ';') {
                    if !d.trim().is_empty() {
                        declare(&mut c, print, &head, &d)?;
                    }
                }
                head.clear();
            }
            rest = rest[close + 1..].to_string();
        }
    }
}

/// Source text, and the (print only, selector, declarations) which it means.
type Rule = (&'static str, &'static [(bool, &'static str, &'static [&'static str])]);
const RULES: &[Rule] = &[
    ("p { color: red }", &[(false, "p", &["color:red"])]),
    (".a{color:blue}", &[(false, ".a", &["color:blue"])]),
    (".b { color : #ff0000 ; margin: 0px }\n", &[(false, ".b", &["color:red", "margin:0"])]),
    ("p, .a { margin: 1px 2px; }", &[(false, "p,.a", &["margin:1px 2px"])]),
    ("q{margin-top:3px}", &[(false, "q", &["margin-top:3px"])]),
    ("p{margin:4px;margin-top:5px}", &[(false, "p", &["margin:4px", "margin-top:5px"])]),
    ("p.a{color:white!important}", &[(false, "p.a", &["color:white!important"])]),
    ("#i{color:#0000FF;color:red}", &[(false, "#i", &["color:red"])]),
    ("@media print { p { color: blue } .b { margin: 0 } }", &[(true, "p", &["color:blue"]), (true, ".b", &["margin:0"])]),
    ("@media print{.a{color:red}}", &[(true, ".a", &["color:red"])]),
    (".a{content:\"</style>\"}", &[(false, ".a", &["content:\"<\\/style>\""])]),
    ("*{content:\"a;b}{\"}", &[(false, "*", &["content:\"a;b}{\""])]),
    ("/* q{color:blue} */", &[]),
    ("q{/* x */color:red/* y */}", &[(false, "q", &["color:red"])]),
    ("p{nonsense}", &[]),
    (".a{color:}", &[]),
    ("<!--", &[]),
    ("q{font-weight:700}", &[(false, "q", &["font-weight:bold"])]),
    (".b{font-weight:normal;background-color:blue}", &[(false, ".b", &["font-weight:normal", "background-color:blue"])]),
    ("p{}", &[]),
];

fn meaning(ix: &[usize], cx: &mut Cx) -> Result<(), String> {
    let mut want = Cascade::new();
    let mut src = String::new();
    for i in ix.iter().filter(|i| **i > 0) {
        let (text, rules) = RULES[*i - 1];
        src.push_str(text);
        src.push('\n');
        for (print, sel, decls) in rules {
            for d in *decls {
                declare(&mut want, *print, sel, d)?;
            }
        }
    }
    for minify in [true, false] {
        let doc = format!("[[module CSS]]\n{src}[[/module]]");
        let v = styles(&doc, minify, cx)?;
        let [css] = &v[..] else { return Err(format!("{} style elements", v.len())) };
        let got = cascade(css).map_err(|e| format!("{e} in {css:?}"))?;
        cx.state(css);
        cx.transitions += 1;
        if got != want {
            let diff: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(*v)).map(|(k, v)| (k, v, got.get(k))).chain(got.iter().filter(|(k, _)| !want.contains_key(*k)).map(|(k, v)| (k, v, None))).take(3).collect();
            return Err(format!("minified {minify}: {css:?} differs for (print, element, property): expected, found {diff:?}"));
        }
        if !want.is_empty() {
            cx.nontrivial(css);
            cx.bump("style_sheets_compared", 1);
        }
    }
    Ok(())
}

fn source(ix: &[usize]) -> String {
    ix.iter().filter(|i| **i > 0).map(|i| RULES[*i - 1].0).collect::<Vec<_>>().join("\n")
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct printed style sheets");
    c.at_least = vec![("style_sheets_compared", 5_000)];
    let x = thorough as usize;
    let n = RULES.len() + 1;
    c.families.push(product_family("meaning", "sequences of rules, minified and not, whose cascade is compared with the source's", &vec![n; 4 + x][..], Box::new(move |ix| source(ix)), move |ix, cx| meaning(ix, cx)));
    let words = [
        "</style>", "</STYLE", "<script>", "<!--", "-->", "</", "<", ">", "/", "\\", "\"", "'", "{", "}", ";", ":", "p", ".a{color:red}", "content:\"", "url(", ")", "@import ", "@media x{", "@charset \"", "/*", "*/", "--x:", "[a=", "]", "(", "!important", "\\3c /style>", "\n", " ", "@font-face{", "p{", "&", "{$v}", "[[/div]]", "@supports(", "@@", "é",
    ];
    c.families.push(word_family("contained", &words, 3 + x, "", "", move |_, w, cx| {
        let s: String = w.iter().map(|i| words[*i]).collect();
        contained(&s, cx)
    }));
    for (name, pre, post) in [("contained-string", "p{content:\"", "\"}q{color:red}"), ("contained-url", "p{background:url(", ")}"), ("contained-selector", "a[b=\"", "\"]{color:red}"), ("contained-custom", "p{--x:", "}"), ("contained-import", "@import \"", "\";"), ("contained-comment", "/*", "*/p{color:red}"), ("contained-media", "@media ", "{p{color:red}}"), ("contained-font", "@font-face{font-family:x;src:url(\"", "\")}")] {
        c.families.push(word_family(name, &words, 2, pre, post, move |d, _, cx| contained(d, cx)));
    }
    c
}
