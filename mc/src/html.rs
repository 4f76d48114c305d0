//! Strict parser for rendered HTML, and the DOM it produces.
//!
//! Strict means: every start tag is closed by the matching end tag in LIFO
//! order (void elements excepted), attribute values are double-quoted, no
//! attribute appears twice, and character data contains no markup character
//! outside one of the five entities the renderer may emit.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El { tag: String, attrs: BTreeMap<String, Option<String>>, kids: Vec<Node> },
    Text(String),
}

pub const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

pub fn parse(src: &str) -> Result<Vec<Node>, String> {
    let mut p = P { s: src.as_bytes(), src, i: 0 };
    let kids = p.children(None, false)?;
    if p.i != p.s.len() {
        return Err(format!("stray end tag at byte {}: {:?}", p.i, p.rest()));
    }
    Ok(kids)
}

struct P<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
}

impl<'a> P<'a> {
    fn rest(&self) -> String {
        self.src.get(self.i..).unwrap_or("").chars().take(40).collect()
    }
    fn entity(&mut self, out: &mut String) -> Result<(), String> {
        for (e, c) in [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&quot;", '"'), ("&#39;", '\'')] {
            if self.src[self.i..].starts_with(e) {
                self.i += e.len();
                out.push(c);
                return Ok(());
            }
        }
        Err(format!("unescaped '&' at byte {}: {:?}", self.i, self.rest()))
    }
    fn children(&mut self, parent: Option<&str>, lenient: bool) -> Result<Vec<Node>, String> {
        let mut kids: Vec<Node> = Vec::new();
        let mut text = String::new();
        macro_rules! flush {
            () => {
                if !text.is_empty() {
                    kids.push(Node::Text(std::mem::take(&mut text)));
                }
            };
        }
        loop {
            if self.i >= self.s.len() {
                flush!();
                return match parent {
                    None => Ok(kids),
                    Some(p) => Err(format!("<{p}> is never closed")),
                };
            }
            let c = self.s[self.i];
            match c {
                b'<' => {
                    let n = self.s.get(self.i + 1).copied().unwrap_or(0);
                    if lenient && !(n.is_ascii_alphabetic() || n == b'/') {
                        text.push('<');
                        self.i += 1;
                        continue;
                    }
                    if n == b'/' {
                        flush!();
                        return Ok(kids);
                    }
                    flush!();
                    kids.push(self.element(lenient)?);
                }
                b'>' | b'"' | b'\'' if !lenient => {
                    return Err(format!("unescaped {:?} in text at byte {}: {:?}", c as char, self.i, self.rest()));
                }
                b'&' if !lenient => self.entity(&mut text)?,
                0 => return Err(format!("NUL byte in output at {}", self.i)),
                _ => {
                    let ch = self.src[self.i..].chars().next().unwrap();
                    text.push(ch);
                    self.i += ch.len_utf8();
                }
            }
        }
    }
    fn name(&mut self, what: &str) -> Result<String, String> {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'-' | b'_' | b':')) {
            self.i += 1;
        }
        if st == self.i {
            return Err(format!("bad {what} name at byte {}: {:?}", self.i, self.rest()));
        }
        Ok(self.src[st..self.i].to_string())
    }
    fn element(&mut self, lenient: bool) -> Result<Node, String> {
        self.i += 1;
        let tag = self.name("tag")?;
        if tag.chars().any(|c| c.is_ascii_uppercase()) {
            return Err(format!("tag {tag} is not lower case"));
        }
        let mut attrs = BTreeMap::new();
        loop {
            match self.s.get(self.i) {
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(b'/') if lenient && self.s.get(self.i + 1) == Some(&b'>') => {
                    self.i += 2;
                    return Ok(Node::El { tag, attrs, kids: vec![] });
                }
                Some(b' ') => {
                    self.i += 1;
                    if self.s.get(self.i) == Some(&b'>') {
                        return Err(format!("dangling space in <{tag}>"));
                    }
                    let key = self.name("attribute")?;
                    let mut val = None;
                    if self.s.get(self.i) == Some(&b'=') {
                        self.i += 1;
                        if self.s.get(self.i) != Some(&b'"') {
                            return Err(format!("attribute {key} of <{tag}> has an unquoted value"));
                        }
                        self.i += 1;
                        let mut v = String::new();
                        loop {
                            match self.s.get(self.i) {
                                None => return Err(format!("unterminated attribute {key} of <{tag}>")),
                                Some(b'"') => {
                                    self.i += 1;
                                    break;
                                }
                                Some(b'&') if !lenient => self.entity(&mut v)?,
                                Some(b'<') | Some(b'>') | Some(b'\'') | Some(0) => {
                                    return Err(format!("unescaped markup in attribute {key} of <{tag}>: {:?}", self.rest()))
                                }
                                Some(_) => {
                                    let ch = self.src[self.i..].chars().next().unwrap();
                                    v.push(ch);
                                    self.i += ch.len_utf8();
                                }
                            }
                        }
                        val = Some(v);
                    }
                    let lower = key.to_ascii_lowercase();
                    if attrs.insert(lower, val).is_some() {
                        return Err(format!("attribute {key} of <{tag}> appears twice"));
                    }
                }
                _ => return Err(format!("malformed start tag <{tag}> at byte {}: {:?}", self.i, self.rest())),
            }
        }
        if VOID.contains(&tag.as_str()) {
            return Ok(Node::El { tag, attrs, kids: vec![] });
        }
        let kids = if tag == "style" {
            let low = self.src[self.i..].to_ascii_lowercase();
            let end = low.find("</style").ok_or("<style> is never closed")?;
            let t = self.src[self.i..self.i + end].to_string();
            self.i += end;
            if t.is_empty() {
                vec![]
            } else {
                vec![Node::Text(t)]
            }
        } else {
            let inner = lenient || tag == "math";
            self.children(Some(&tag), inner)?
        };
        let close = format!("</{tag}>");
        if !self.src[self.i..].starts_with(&close) {
            return Err(format!("<{tag}> is not closed properly at byte {}: {:?}", self.i, self.rest()));
        }
        self.i += close.len();
        Ok(Node::El { tag, attrs, kids })
    }
}

impl Node {
    pub fn tag(&self) -> &str {
        match self {
            Node::El { tag, .. } => tag,
            Node::Text(_) => "",
        }
    }
    pub fn kids(&self) -> &[Node] {
        match self {
            Node::El { kids, .. } => kids,
            Node::Text(_) => &[],
        }
    }
    pub fn attr(&self, k: &str) -> Option<&str> {
        match self {
            Node::El { attrs, .. } => attrs.get(k).map(|v| v.as_deref().unwrap_or("")),
            Node::Text(_) => None,
        }
    }
    pub fn has_class(&self, c: &str) -> bool {
        self.attr("class").map_or(false, |v| v.split(' ').any(|x| x == c))
    }
}

/// Visit every node in document order.
pub fn walk<'a>(nodes: &'a [Node], f: &mut impl FnMut(&'a Node)) {
    for n in nodes {
        f(n);
        walk(n.kids(), f);
    }
}

pub fn text_of(nodes: &[Node]) -> String {
    let mut s = String::new();
    walk(nodes, &mut |n| {
        if let Node::Text(t) = n {
            s.push_str(t)
        }
    });
    s
}

pub fn by_class<'a>(nodes: &'a [Node], class: &str) -> Vec<&'a Node> {
    let mut v = Vec::new();
    walk(nodes, &mut |n| {
        if n.has_class(class) {
            v.push(n)
        }
    });
    v
}

pub fn by_tag<'a>(nodes: &'a [Node], tag: &str) -> Vec<&'a Node> {
    let mut v = Vec::new();
    walk(nodes, &mut |n| {
        if n.tag() == tag {
            v.push(n)
        }
    });
    v
}

pub fn is_random_id(s: &str) -> bool {
    s.strip_prefix("wj-id-").map_or(false, |r| r.len() == 16 && r.bytes().all(|b| b.is_ascii_alphanumeric()))
}

/// Canonical text of a DOM: attributes sorted, adjacent text merged, random
/// ids renamed by first occurrence, time-dependent values masked.
pub fn canon(nodes: &[Node]) -> String {
    let mut out = String::new();
    let mut ids: Vec<String> = Vec::new();
    canon_in(nodes, &mut out, &mut ids, &|s| is_random_id(s));
    out
}

pub fn canon_in(nodes: &[Node], out: &mut String, ids: &mut Vec<String>, is_rand: &dyn Fn(&str) -> bool) {
    let mut last_text = false;
    for n in nodes {
        match n {
            Node::Text(t) => {
                if !last_text {
                    out.push('«');
                } else {
                    out.pop();
                    // remove the closing mark of the previous text
                }
                out.push_str(t);
                out.push('»');
                last_text = true;
            }
            Node::El { tag, attrs, kids } => {
                last_text = false;
                out.push('<');
                out.push_str(tag);
                for (k, v) in attrs {
                    out.push(' ');
                    out.push_str(k);
                    if let Some(v) = v {
                        out.push('=');
                        out.push('"');
                        if is_rand(v) {
                            let n = match ids.iter().position(|x| x == v) {
                                Some(n) => n,
                                None => {
                                    ids.push(v.clone());
                                    ids.len() - 1
                                }
                            };
                            out.push_str(&format!("#{n}"));
                        } else if k == "data-delta" {
                            out.push('*');
                        } else {
                            out.push_str(v);
                        }
                        out.push('"');
                    }
                }
                out.push('>');
                canon_in(kids, out, ids, is_rand);
                out.push_str("</");
                out.push_str(tag);
                out.push('>');
            }
        }
    }
}

/// First place where two canonical texts differ, for messages.
pub fn diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| -> String {
        let mut st = i.saturating_sub(60);
        while !s.is_char_boundary(st) {
            st -= 1;
        }
        let mut en = (i + 160).min(s.len());
        while !s.is_char_boundary(en) {
            en += 1;
        }
        s[st.min(s.len())..en].to_string()
    };
    format!("expected …{}…\n   found …{}…", cut(a), cut(b))
}
