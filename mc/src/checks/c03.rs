//! C03: preprocessing, against a reference which works character by character.
use super::*;
use crate::corpus;

fn is_ws(c: char) -> bool {
    c.is_whitespace()
}

fn newlines(s: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == '\r' {
            o.push('\n');
            if s.get(i + 1) == Some(&'\n') {
                i += 1;
            }
        } else {
            o.push(s[i]);
        }
        i += 1;
    }
    o
}

fn leading(s: &mut [char]) {
    let mut lead = true;
    for c in s.iter_mut() {
        match *c {
            '\n' => lead = true,
            '\u{a0}' | '\u{2007}' if lead => *c = ' ',
            _ => lead = false,
        }
    }
}

/// Whitespace-only lines are emptied, and any number of consecutive empty lines become one
/// (none at the start beyond one line break, which is removed later with all others).
fn blank_lines(s: &[char]) -> Vec<char> {
    let text: String = s.iter().collect();
    let lines: Vec<&str> = text.split('\n').map(|l| if l.chars().all(is_ws) { "" } else { l }).collect();
    let mut out: Vec<&str> = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        if l.is_empty() && i > 0 && lines[i - 1].is_empty() {
            continue;
        }
        out.push(l);
    }
    out.join("\n").chars().collect()
}

fn join_lines(s: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == '\\' && s.get(i + 1) == Some(&'\n') {
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn quotes(s: &str, open: &str, close: &str, to: (char, char)) -> String {
    s.split('\n')
        .map(|line| {
            let mut out = String::new();
            let mut rest = line;
            loop {
                let Some(i) = rest.find(open) else { break };
                let after = &rest[i + open.len()..];
                let Some(j) = after.find(close) else { break };
                out.push_str(&rest[..i]);
                out.push(to.0);
                out.push_str(&after[..j]);
                out.push(to.1);
                rest = &after[j + close.len()..];
            }
            out + rest
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn ellipsis(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    // whether the character before i may serve as the separating one
    let mut last_dots = false;
    while i < c.len() {
        let before = i == 0 || (!last_dots && c[i - 1] != '.');
        let n = if c[i..].starts_with(&['.', '.', '.']) {
            3
        } else if c[i..].starts_with(&['.', ' ', '.', ' ', '.']) {
            5
        } else {
            0
        };
        if before && n > 0 && c.get(i + n) != Some(&'.') {
            o.push('\u{2026}');
            i += n;
            last_dots = true;
        } else {
            o.push(c[i]);
            i += 1;
            last_dots = false;
        }
    }
    o
}

pub fn reference(text: &str) -> String {
    let c: Vec<char> = text.chars().collect();
    let mut c = newlines(&c);
    leading(&mut c);
    let c = join_lines(&blank_lines(&c));
    let mut s = String::new();
    for ch in c {
        match ch {
            '\t' => s.push_str("    "),
            '\0' => s.push(' '),
            c => s.push(c),
        }
    }
    let s = s.trim_matches('\n');
    let s = quotes(s, "``", "''", ('\u{201c}', '\u{201d}'));
    let s = quotes(&s, ",,", "''", ('\u{201e}', '\u{201d}'));
    let s = quotes(&s, "`", "'", ('\u{2018}', '\u{2019}'));
    ellipsis(&s)
}

fn case(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let mut got = doc.to_string();
    ftml::preprocess(&mut got);
    let want = reference(doc);
    cx.runs += 1;
    cx.state(&got);
    if got != doc {
        cx.nontrivial(doc);
    }
    if got != want {
        return Err(format!("preprocessed: expected {want:?}, found {got:?}"));
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct preprocessed texts; each compared with a character-level reference");
    let x = thorough as usize;
    let fam = |name: &str, a: &[&str], n: usize| {
        word_family(name, a, n, "", "", |d, w, cx| {
            cx.transitions += w.len() as u64;
            case(d, cx)
        })
    };
    c.families.push(fam("whitespace", &["a", " ", "\n", "\r", "\t", "\u{a0}", "\u{2007}", "\\", "\0", "\u{2028}"], 6 + x));
    c.families.push(fam("breaks", &["a", " ", "\n", "\r", "\\"], 8 + x));
    c.families.push(fam("quotes", &["`", "'", ",", ".", " ", "\n", "a"], 7 + x));
    c.families.push(fam("quote-pairs", &["``", "''", ",,", "`", "'", "a", "\n"], 6 + x));
    c.families.push(fam("dots", &[".", " ", "a"], 12 + x));
    c.families.push(fam("dots-wide", &[".", " ", "\u{2026}", "\n", "é", "..."], 7 + x));
    c.families.push(fam(
        "mixed",
        &["a", "é", " ", "\n", "\r", "\t", "\u{a0}", "\u{2007}", "\\", "\0", "`", "'", ",", ".", "\u{85}", "\u{3000}", "\u{b}", "\u{200b}", "\u{feff}", "-", "@@", "[!--"],
        4 + x,
    ));
    let f: corpus::DocFn = std::sync::Arc::new(case);
    c.families.extend(corpus::fixture_edits(&f));
    c
}
