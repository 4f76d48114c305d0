//! C02: tokens tile the text and follow the lexical grammar (reference lexer).
use super::*;
use crate::corpus;

fn newline(s: &[char]) -> usize {
    match s {
        ['\r', '\n', ..] => 2,
        ['\n', ..] | ['\r', ..] => 1,
        _ => 0,
    }
}

fn run(s: &[char], c: char) -> usize {
    s.iter().take_while(|&&x| x == c).count()
}

fn starts(s: &[char], p: &str) -> bool {
    let mut s = s.iter();
    p.chars().all(|c| s.next() == Some(&c))
}

/// The tokens at the start of `s`: (kind, length) pairs.
fn at(s: &[char]) -> Vec<(&'static str, usize)> {
    let one = |k, n| vec![(k, n)];
    for (k, p) in [("raw", "@@"), ("left-raw", "@<"), ("right-raw", ">@"), ("left-comment", "[!--"), ("right-comment", "--]")] {
        if starts(s, p) {
            return one(k, p.len());
        }
    }
    for scheme in ["https://", "http://", "ftp://"] {
        if starts(s, scheme) {
            let n = scheme.len() + s[scheme.len()..].iter().take_while(|c| !matches!(c, '\n' | '\r' | ' ' | '|' | '[' | ']')).count();
            if n > scheme.len() {
                return one("url", n);
            }
        }
    }
    let ident = |s: &[char]| s.iter().take_while(|c| c.is_ascii_alphanumeric()).count();
    if ident(s) > 0 {
        return one("identifier", ident(s));
    }
    if starts(s, "{$") {
        let n = ident(&s[2..]);
        if n > 0 && s.get(2 + n) == Some(&'}') {
            return one("variable", n + 3);
        }
    }
    if s[0] == '"' {
        let mut i = 1;
        while i < s.len() {
            match s[i] {
                '"' => return one("string", i + 1),
                '\n' | '\r' => break,
                '\\' => match s.get(i + 1) {
                    None | Some('\n') | Some('\r') => break,
                    _ => i += 2,
                },
                _ => i += 1,
            }
        }
    }
    if starts(s, "[[[[") {
        return vec![("left-bracket", 1), ("left-link", 3)];
    }
    if starts(s, "]]]]") {
        return vec![("right-link", 3), ("right-bracket", 1)];
    }
    const FIXED: &[(&str, &str)] = &[
        ("left-link-star", "[[[*"),
        ("left-link", "[[["),
        ("left-math", "[[$"),
        ("left-block-anchor", "[[#"),
        ("left-block-star", "[[*"),
        ("left-block-end", "[[/"),
        ("left-block", "[["),
        ("left-bracket-anchor", "[#"),
        ("left-bracket-star", "[*"),
        ("left-bracket", "["),
        ("left-parentheses", "(("),
        ("right-link", "]]]"),
        ("right-math", "$]]"),
        ("right-block", "]]"),
        ("right-bracket", "]"),
        ("right-parentheses", "))"),
        ("bold", "**"),
        ("italics", "//"),
        ("underline", "__"),
        ("superscript", "^^"),
        ("subscript", ",,"),
        ("color", "##"),
        ("left-monospace", "{{"),
        ("right-monospace", "}}"),
        ("table-column-title", "||~"),
        ("table-column-left", "||<"),
        ("table-column-right", "||>"),
        ("table-column-center", "||="),
        ("table-column", "||"),
    ];
    for (k, p) in FIXED {
        if starts(s, p) {
            return one(k, p.len());
        }
    }
    let tildes = run(s, '~');
    if tildes >= 3 {
        return match s.get(tildes) {
            Some('<') => one("clear-float-left", tildes + 1),
            Some('>') => one("clear-float-right", tildes + 1),
            _ => one("clear-float-both", tildes),
        };
    }
    let dashes = run(s, '-');
    if dashes >= 3 {
        return one("triple-dash", dashes);
    }
    if dashes == 2 {
        return one("double-dash", 2);
    }
    if tildes == 2 {
        return one("double-tilde", 2);
    }
    if starts(s, "<<") {
        return one("left-double-angle", 2);
    }
    for (k, c) in [("pipe", '|'), ("equals", '='), ("colon", ':'), ("underscore", '_')] {
        if s[0] == c {
            return one(k, 1);
        }
    }
    if run(s, '>') > 0 {
        return one("quote", run(s, '>'));
    }
    let plus = run(s, '+').min(6);
    if plus > 0 {
        let star = s.get(plus) == Some(&'*') && s.get(plus + 1) != Some(&'*');
        return one("heading", plus + star as usize);
    }
    for (k, c) in [("bullet-item", '*'), ("numbered-item", '#')] {
        if s[0] == c && s.get(1) != Some(&c) {
            return one(k, 1);
        }
    }
    let n = newline(s);
    if n > 0 {
        let mut all = n;
        let mut count = 1;
        while newline(&s[all..]) > 0 {
            all += newline(&s[all..]);
            count += 1;
        }
        return if count > 1 { one("paragraph-break", all) } else { one("line-break", n) };
    }
    let sp = s.iter().take_while(|c| matches!(c, ' ' | '\t')).count();
    if sp > 0 {
        return one("whitespace", sp);
    }
    one("other", 1)
}

fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 {
            o.push('-');
        }
        o.push(c.to_ascii_lowercase());
    }
    o
}

/// The tokens of a text by the reference lexer, without boundary markers.
pub fn tokens(doc: &str) -> Vec<(&'static str, usize, usize)> {
    let chars: Vec<char> = doc.chars().collect();
    let mut out = vec![];
    let (mut i, mut b) = (0, 0);
    while i < chars.len() {
        for (k, n) in at(&chars[i..]) {
            let bytes: usize = chars[i..i + n].iter().map(|c| c.len_utf8()).sum();
            out.push((k, b, b + bytes));
            i += n;
            b += bytes;
        }
    }
    out
}

fn lex(doc: &str) -> Vec<(String, usize, usize)> {
    let mut out = vec![("input-start".to_string(), 0, 0)];
    out.extend(tokens(doc).into_iter().map(|(k, a, b)| (k.to_string(), a, b)));
    let b = doc.len();
    out.push(("input-end".into(), b, b));
    out
}

fn run_case(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let tok = ftml::tokenize(doc);
    cx.runs += 1;
    let mut pos = 0;
    let toks = tok.tokens();
    for (i, t) in toks.iter().enumerate() {
        if t.span.start != pos || doc.get(t.span.clone()) != Some(t.slice) {
            return Err(format!("token {i} {:?} does not continue at byte {pos} or does not hold the text there", t));
        }
        if t.slice.is_empty() != (i == 0 || i == toks.len() - 1) {
            return Err(format!("token {i} {:?} is empty (or a boundary marker is not)", t));
        }
        pos = t.span.end;
    }
    if pos != doc.len() {
        return Err(format!("tokens end at byte {pos} of {}", doc.len()));
    }
    let got: Vec<(String, usize, usize)> = toks.iter().map(|t| (kebab(t.token.name()), t.span.start, t.span.end)).collect();
    let want = lex(doc);
    cx.transitions += want.len() as u64;
    let kinds: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect();
    cx.state(&kinds.join(" "));
    if got != want {
        return Err(format!("tokens: expected {want:?}, found {got:?}"));
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct sequences of token kinds; every tokenization is compared token by token with a reference lexer");
    let x = thorough as usize;
    let fam = |name: &str, a: &[&str], n: usize, p: &str, s: &str| word_family(name, a, n, p, s, |d, w, cx| {
        if w.len() > 1 {
            cx.nontrivial(d);
        }
        run_case(d, cx)
    });
    let chars = [
        "[", "]", "*", "#", "/", "$", "(", ")", "!", "-", "~", "<", ">", "@", "|", "=", ":", "_", "+", "\"", "\\", "{", "}", "^", ",", " ", "\n", "\r", "\t", "a", "1", "é", "%", "\u{a0}",
    ];
    c.families.push(fam("characters", &chars, 4 + x, "", ""));
    c.families.push(fam("brackets", &["[", "]", "*", "#", "/", "$", "!", "-"], 6 + x, "", ""));
    c.families.push(fam("dashes", &["-", "~", "<", ">", "@", "]", "|", "="], 6 + x, "", ""));
    c.families.push(fam("stars", &["+", "*", "#", " ", "a"], 8 + x, "", ""));
    c.families.push(fam("plus", &["+", "*"], 12 + 2 * x, "", ""));
    c.families.push(fam("breaks", &["\n", "\r", " ", "\t", "a", "\\", "\""], 6 + x, "", ""));
    c.families.push(fam("strings", &["\"", "\\", "a", "\n", "[", "\r", "é"], 6 + x, "", ""));
    c.families.push(fam("variables", &["{", "}", "$", "a", "9", "_", "é"], 6 + x, "", ""));
    c.families.push(fam("urls", &["http", "https", "ftp", ":", "//", "/", "://", "a.b", "@", " ", "|", "[", "]", "\n", "\"", "\t", "é", "s", "HTTP"], 4 + x, "", ""));
    c.families.push(fam("emails", &["a", "@", ".", " ", "\t", "\n", "-", "b"], 6 + x, "", ""));
    let f: corpus::DocFn = std::sync::Arc::new(run_case);
    c.families.extend(corpus::words(&[], if thorough { 4 } else { 3 }, &f));
    c.families.extend(corpus::fixture_edits(&f));
    c.families.extend(corpus::scale(thorough, &f));
    c
}
