//! C06: spans of warnings, and the UTF-16 index map.
use super::*;
use crate::corpus;
use crate::doc::*;
use ftml::Utf16IndexMap;
use std::collections::HashMap;
use std::sync::Arc;

/// Byte boundaries of a text with their UTF-16 indices, from the encoding itself.
fn utf16(text: &str) -> Vec<(usize, usize)> {
    (0..=text.len()).filter(|&i| text.is_char_boundary(i)).map(|i| (i, text[..i].encode_utf16().count())).collect()
}

fn map_case(text: &str, cx: &mut Cx) -> Result<(), String> {
    let map = Utf16IndexMap::new(text);
    cx.runs += 1;
    for (i, want) in utf16(text) {
        let got = map.get_index(i);
        cx.transitions += 1;
        if got != want {
            return Err(format!("byte index {i} is UTF-16 index {want}, the map says {got}"));
        }
    }
    let n = text.encode_utf16().count();
    cx.state(&format!("{} {n}", text.len()));
    Ok(())
}

fn warnings(doc: &str, mode: usize, cx: &mut Cx) -> Result<(), String> {
    let mut s = doc.to_string();
    ftml::preprocess(&mut s);
    with_parse(&s, &page_info(), &settings(MODES[mode]), |tok, _, errors| {
        cx.runs += 1;
        if errors.is_empty() {
            return Ok(());
        }
        cx.bump("warnings", errors.len() as u64);
        cx.nontrivial(&s);
        let tokens: HashMap<(usize, usize), Vec<_>> = tok.tokens().iter().fold(HashMap::new(), |mut m, t| {
            m.entry((t.span.start, t.span.end)).or_insert_with(Vec::new).push(t.token);
            m
        });
        let map = Utf16IndexMap::new(&s);
        for e in errors {
            let span = e.span();
            cx.transitions += 1;
            cx.state(&format!("{:?} {:?} {}", e.kind(), e.token(), e.rule()));
            let Some(kinds) = tokens.get(&(span.start, span.end)) else {
                return Err(format!("the warning {e:?} spans no token of the text {s:?}"));
            };
            if !kinds.contains(&e.token()) {
                return Err(format!("the warning {e:?} names another kind of token than the text has there: {kinds:?}"));
            }
            let u = e.to_utf16_indices(&map);
            let want = s[..span.start].encode_utf16().count()..s[..span.end].encode_utf16().count();
            if u.span() != want || u.kind() != e.kind() || u.token() != e.token() || u.rule() != e.rule() {
                return Err(format!("the warning {e:?} in UTF-16 is {u:?}, expected {want:?}"));
            }
            let json = serde_json::to_string(e).map_err(|e| e.to_string())?;
            let back: ftml::parsing::ParseError = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            if back != *e {
                return Err(format!("the warning {e:?} reads back from JSON as {back:?}"));
            }
        }
        Ok(())
    })
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct (kind, token, rule) of warnings and distinct text lengths in both encodings; every warning compared with the tokens of its text, every index with the UTF-16 encoding");
    c.at_least = vec![("warnings", 10_000)];
    let x = thorough as usize;
    c.families.push(word_family("index-map", &["a", "\n", "é", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "𝒜", "\u{10ffff}", "\u{301}"], 5 + x, "", "", |d, _, cx| map_case(d, cx)));
    let f: corpus::DocFn = Arc::new(|d, cx| warnings(d, 0, cx));
    let odd = ["é", "𝒜", "\u{301}\n", "[[", "]]", "[[div]]", "[[/div]]", "[[nosuch]]", "**", "//", "@@", "* ", "> ", "[[[", "]]]", "##", "||", "\n\n", " ", "[[footnote]]", "[[table]]", "{$", "[[module Nosuch]]", "[[include p]]", "[[li]]", "[[/span]]"];
    c.families.push({
        let f = f.clone();
        word_family("wide-characters", &odd, 4, "𝒜é", "", move |d, w, cx| {
            cx.transitions += w.len() as u64;
            f(d, cx)
        })
    });
    let wide: corpus::DocFn = Arc::new(|d, cx| warnings(&format!("é𝒜 {}", d.replace('a', "𝒜")), 0, cx));
    let forum: corpus::DocFn = Arc::new(|d, cx| warnings(&format!("𝒜{d}"), 2, cx));
    c.families.extend(corpus::words(&["tokens"], 3, &wide));
    c.families.extend(corpus::words(&["blocks", "lines", "side", "objects", "inline"], 3, &f));
    c.families.extend(corpus::words(&["side", "objects"], 2 + x, &forum).into_iter().map(|mut f| {
        f.name = format!("forum:{}", f.name);
        f
    }));
    c.families.extend(corpus::nested(&[], 2, &wide));
    c.families.extend(corpus::fixture_edits(&wide));
    c.families.extend(corpus::scale(thorough, &wide));
    // nesting beyond the limit ends in a single warning
    let opens = ["[[div]]\n", "[[span]]", "**//", "[[blockquote]]\n", "[[size 1%]]", "[[collapsible]]\n", "[[footnote]]", "[[div]][[span]]"];
    c.families.push(product_family("deep", "8 openers nested 0..=130 deep after a wide character, closed", &[opens.len(), 131], Box::new(move |ix| format!("{:?} x {}", opens[ix[0]], ix[1])), move |ix, cx| {
        let o = opens[ix[0]];
        let close: String = match o {
            "**//" => "//**".into(),
            "[[div]][[span]]" => "[[/span]][[/div]]".into(),
            o => format!("[[/{}]]", o.trim_matches(['[', ']', '\n']).split(' ').next().unwrap()),
        };
        warnings(&format!("𝒜 {}x{}", o.repeat(ix[1]), close.repeat(ix[1])), 0, cx)
    }));
    c
}
