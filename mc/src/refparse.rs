//! Reference parser: what the documented grammar makes of a text, as an element list. It is written over the tokens of
//! the reference lexer (see c02) as plain recursive descent with backtracking and shares nothing with ftml's parser but
//! the element types. It covers line markers, inline formatting, raw text and comments; text which needs more is outside
//! its language (`parse` returns None).
use crate::checks::c02;
use ftml::tree::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::num::NonZeroU32;

pub mod blocks;
use blocks::Acc;
use ftml::data::PageRef;

pub type E = Element<'static>;

struct Tok<'a> {
    k: &'static str,
    s: &'a str,
    at: usize,
}

pub struct P<'a> {
    src: &'a str,
    t: Vec<Tok<'a>>,
    pub used: Vec<&'static str>,
    /// What is kept besides the elements.
    pub side: Side,
    accepts: Acc,
    in_footnote: bool,
    depth: usize,
    /// Nested too deeply.
    over: bool,
    /// The text has something outside this parser's language.
    unknown: bool,
    page_syntax: bool,
    toc: bool,
    headings: bool,
    /// Where nothing but text starts, as known so far: not needed, but without it deep texts take forever. Not used on
    /// short ones, so that there this parser tries everything.
    failed: HashMap<(usize, Acc, bool, bool, Vec<String>), usize>,
    long: bool,
}
const SHORT: usize = 24;

#[derive(Default)]
pub struct Side {
    pub footnotes: Vec<Vec<E>>,
    pub code: Vec<(String, Option<String>)>,
    pub html: Vec<String>,
    pub bibs: Vec<Vec<(String, Vec<E>)>>,
    pub has_block: bool,
}
type Mark = (usize, usize, usize, usize, usize, bool);

/// Elements, whether they may stand within a paragraph, next token.
type Got = (Vec<E>, bool, usize);

/// A condition for the end (or failure) of a collection: one token, or two in sequence.
type Cond = (&'static str, &'static str);

fn text(s: &str) -> E {
    Element::Text(Cow::Owned(s.to_string()))
}
fn container(t: ContainerType, e: Vec<E>) -> E {
    Element::Container(Container::new(t, e, AttributeMap::new()))
}
fn class(c: &str) -> AttributeMap<'static> {
    let mut m = AttributeMap::new();
    m.insert(Box::leak(Box::new("class".to_string())), Cow::Owned(c.to_string()));
    m
}

/// Whether an element may stand within a paragraph.
fn inline(e: &E) -> bool {
    match e {
        Element::Container(c) => !matches!(
            c.ctype(),
            ContainerType::Div | ContainerType::Blockquote | ContainerType::Paragraph | ContainerType::Align(_) | ContainerType::Header(_)
        ),
        Element::Table(_) | Element::List { .. } | Element::DefinitionList(_) | Element::ClearFloat(_) | Element::HorizontalRule => false,
        Element::Collapsible { .. } | Element::TabView(_) | Element::FootnoteBlock { .. } | Element::BibliographyBlock { .. } => false,
        Element::Code { .. } | Element::Math { .. } | Element::Embed(_) | Element::Html { .. } | Element::Iframe { .. } => false,
        Element::Module(_) | Element::TableOfContents { .. } | Element::Style(_) => false,
        Element::Include { paragraph_safe, .. } => *paragraph_safe,
        _ => true,
    }
}
fn blank(e: &E) -> bool {
    matches!(e, Element::LineBreak) || matches!(e, Element::Text(t) if t.trim().is_empty())
}
fn strip(mut v: Vec<E>) -> Vec<E> {
    while v.last().is_some_and(blank) {
        v.pop();
    }
    let n = v.iter().take_while(|e| blank(e)).count();
    v.split_off(n)
}

pub fn is_break(k: &str) -> bool {
    matches!(k, "line-break" | "paragraph-break")
}
fn is_column(k: &str) -> bool {
    k.starts_with("table-column")
}

/// Paragraphs being gathered.
#[derive(Default)]
struct Paras {
    cur: Vec<E>,
    done: Vec<E>,
}
impl Paras {
    fn end(&mut self) {
        if !self.cur.is_empty() {
            self.done.push(container(ContainerType::Paragraph, std::mem::take(&mut self.cur)));
        }
    }
    fn push(&mut self, e: E, safe: bool) {
        if safe {
            self.cur.push(e);
        } else {
            self.end();
            self.done.push(e);
        }
    }
}

/// Items nested by depth: at each level a new list starts where the kind changes.
pub enum Nest<K, T> {
    Item(T),
    List(K, Vec<Nest<K, T>>),
}
pub fn nest<K: Copy + PartialEq, T>(level: usize, top: Option<K>, items: Vec<(usize, K, T)>) -> Vec<(K, Vec<Nest<K, T>>)> {
    let mut out: Vec<(K, Vec<Nest<K, T>>)> = vec![];
    let mut items = items.into_iter().peekable();
    while let Some((d, k, x)) = items.next() {
        if d == level {
            if out.last().map(|l| l.0) != Some(k) {
                out.push((k, vec![]));
            }
            out.last_mut().unwrap().1.push(Nest::Item(x));
            continue;
        }
        let mut deeper = vec![(d, k, x)];
        while items.peek().is_some_and(|i| i.0 > level) {
            deeper.push(items.next().unwrap());
        }
        if out.is_empty() {
            out.push((top.filter(|_| level == 0).unwrap_or(k), vec![]));
        }
        for (k, l) in nest(level + 1, None, deeper) {
            out.last_mut().unwrap().1.push(Nest::List(k, l));
        }
    }
    out
}

impl<'a> P<'a> {
    pub fn new(src: &'a str) -> P<'a> {
        let mut t = vec![Tok { k: "input-start", s: "", at: 0 }];
        t.extend(c02::tokens(src).into_iter().map(|(k, a, b)| Tok { k, s: &src[a..b], at: a }));
        t.push(Tok { k: "input-end", s: "", at: src.len() });
        let long = t.len() > SHORT;
        P { src, t, failed: HashMap::new(), long, used: vec![], side: Side::default(), accepts: Acc::Nothing, in_footnote: false, depth: 0, over: false, unknown: false, page_syntax: true, toc: false, headings: false }
    }
    fn k(&self, i: usize) -> &'static str {
        self.t.get(i).map_or("", |t| t.k)
    }
    /// Whether token `i` is the first of its line.
    fn sol(&self, i: usize) -> bool {
        i == 0 || self.k(i - 1) == "input-start" || is_break(self.k(i - 1))
    }
    fn is(&self, i: usize, (a, b): Cond) -> bool {
        self.k(i) == a && (b.is_empty() || self.k(i + 1) == b)
    }

    /// The whole document.
    pub fn document(&mut self) -> Vec<E> {
        let mut p = Paras::default();
        let mut i = 1;
        while self.k(i) != "input-end" && !self.over {
            if self.k(i) == "paragraph-break" {
                p.end();
                i += 1;
                continue;
            }
            i = self.paragraph_step(&mut p, i);
        }
        p.end();
        p.done
    }

    fn paragraph_step(&mut self, p: &mut Paras, i: usize) -> usize {
        let (es, safe, j) = self.one(i);
        for e in es {
            if !(p.cur.is_empty() && matches!(e, Element::LineBreak)) {
                p.push(e, safe);
            }
        }
        j
    }

    fn mark(&self) -> Mark {
        let s = &self.side;
        (self.used.len(), s.footnotes.len(), s.code.len(), s.html.len(), s.bibs.len(), s.has_block)
    }
    fn restore(&mut self, m: Mark) {
        self.used.truncate(m.0);
        let s = &mut self.side;
        s.footnotes.truncate(m.1);
        s.code.truncate(m.2);
        s.html.truncate(m.3);
        s.bibs.truncate(m.4);
        s.has_block = m.5;
    }

    /// What starts at token `i`.
    fn one(&mut self, i: usize) -> Got {
        let plain = match (self.k(i), self.t[i].s) {
            ("double-dash", _) => "—",
            ("quote", ">>") => "»",
            (_, s) => s,
        };
        let plain = (vec![text(plain)], true, i + 1);
        if self.depth >= 100 || self.over {
            self.over = true;
            return plain;
        }
        let (m, accepts) = (self.mark(), self.accepts);
        let key = self.long.then(|| (i, accepts, self.in_footnote, self.side.has_block, self.side.code.iter().filter_map(|c| c.1.clone()).collect::<Vec<_>>()));
        if key.as_ref().and_then(|k| self.failed.get(k)).is_some_and(|d| self.depth <= *d) {
            return plain;
        }
        self.depth += 1;
        if !matches!(self.k(i), "left-block" | "left-block-star") {
            self.accepts = Acc::Nothing;
        }
        let got = self.rule(i);
        self.accepts = accepts;
        self.depth -= 1;
        match got {
            Some((es, safe, j)) => (es, safe, j.max(i + 1)),
            None => {
                self.restore(m);
                if let Some(key) = key {
                    self.failed.insert(key, self.depth);
                }
                plain
            }
        }
    }

    fn rule(&mut self, i: usize) -> Option<Got> {
        use ContainerType::*;
        let sol = self.sol(i);
        let one = |e: E, j| {
            let safe = inline(&e);
            Some((vec![e], safe, j))
        };
        match self.k(i) {
            "bold" => self.span(i, "bold", Bold),
            "italics" => self.span(i, "italics", Italics),
            "underline" => self.span(i, "underline", Underline),
            "superscript" => self.span(i, "superscript", Superscript),
            "subscript" => self.span(i, "subscript", Subscript),
            "left-monospace" => self.span(i, "right-monospace", Monospace),
            "double-tilde" => self.span(i, "double-tilde", Strikethrough),
            "double-dash" => self.span(i, "double-dash", Strikethrough),
            "color" => self.color(i),
            "raw" | "left-raw" => self.raw(i),
            "left-comment" => {
                let end = (i..self.t.len()).find(|&j| self.k(j) == "right-comment")?;
                self.used.push("comment");
                Some((vec![], true, end + 1))
            }
            "left-double-angle" => one(text("«"), i + 1),
            "quote" if sol => self.quote(i),
            "triple-dash" if sol => {
                self.used.push("rule");
                one(Element::HorizontalRule, self.past_break(i + 1))
            }
            k @ ("clear-float-both" | "clear-float-left" | "clear-float-right") if sol => {
                self.used.push("clear");
                let c = match k {
                    "clear-float-left" => ClearFloat::Left,
                    "clear-float-right" => ClearFloat::Right,
                    _ => ClearFloat::Both,
                };
                one(Element::ClearFloat(c), self.past_break(i + 1))
            }
            "equals" if sol && self.k(i + 1) == "whitespace" => {
                let (es, _, j, _) = self.line(i + 2)?;
                self.used.push("center");
                one(container(Align(Alignment::Center), es), j)
            }
            "heading" if sol => {
                let (mut es, mut j) = self.heading(i)?;
                while let Some((more, k)) = self.attempt(|p| p.heading(j)) {
                    es.extend(more);
                    j = k;
                }
                Some((es, false, j))
            }
            "colon" if sol => self.definitions(i),
            "whitespace" if self.k(i + 1) == "underscore" && is_break(self.k(i + 2)) => one(Element::LineBreak, i + 3),
            "underscore" if sol && is_break(self.k(i + 1)) => one(Element::LineBreak, i + 2),
            "whitespace" | "bullet-item" | "numbered-item" if sol => self.list(i),
            k if is_column(k) && sol => self.table(i),
            "url" => one(
                Element::Link { ltype: LinkType::Direct, link: LinkLocation::Url(Cow::Owned(self.t[i].s.to_string())), extra: None, label: LinkLabel::Url(None), target: None },
                i + 1,
            ),
            "variable" => one(Element::Variable(Cow::Owned(self.t[i].s[2..self.t[i].s.len() - 1].to_string())), i + 1),
            "left-bracket" | "left-bracket-star" => self.single_link(i),
            "left-bracket-anchor" => self.anchor_link(i),
            "left-link" | "left-link-star" => self.triple_link(i),
            "left-block" | "left-block-star" => self.block(i),
            "left-block-anchor" => self.anchor_name(i),
            "left-math" => self.inline_math(i),
            "left-parentheses" => self.citation(i),
            "email" => one(Element::Email(Cow::Owned(self.t[i].s.to_string())), i + 1),
            "line-break" if self.takes_break(i + 1) => Some((vec![], true, i + 1)),
            "line-break" if self.k(i + 1) == "colon" && self.k(i + 2) == "whitespace" => Some((vec![], true, i + 1)),
            "line-break" | "paragraph-break" => {
                let indented = self.k(i + 1) == "whitespace";
                let j = i + 1 + indented as usize;
                let marker = self.k(j + 1) == "whitespace";
                let next_is_line = match self.k(j) {
                    "bullet-item" | "numbered-item" => marker,
                    "heading" | "equals" => marker && !indented,
                    "quote" | "triple-dash" | "clear-float-both" | "clear-float-left" | "clear-float-right" => !indented,
                    k => is_column(k) && !indented,
                };
                Some((if next_is_line { vec![] } else { vec![Element::LineBreak] }, true, i + 1))
            }
            _ => None,
        }
    }

    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let m = self.mark();
        let r = f(self);
        if r.is_none() {
            self.restore(m);
        }
        r
    }

    fn past_break(&self, i: usize) -> usize {
        i + (self.k(i) == "line-break") as usize
    }

    /// Elements up to the first closing condition, which is skipped (except the end of the text). Last: what closed it.
    fn collect(&mut self, mut i: usize, close: &[Cond], fail: &[Cond]) -> Option<(Vec<E>, bool, usize, &'static str)> {
        let (mut out, mut safe) = (vec![], true);
        loop {
            if close.iter().any(|&c| self.is(i, c)) {
                return Some((out, safe, i + (self.k(i) != "input-end") as usize, self.k(i)));
            }
            if fail.iter().any(|&c| self.is(i, c)) || self.k(i) == "input-end" {
                return None;
            }
            let (es, s, j) = self.one(i);
            out.extend(es);
            safe &= s;
            i = j;
        }
    }

    fn line(&mut self, i: usize) -> Option<(Vec<E>, bool, usize, &'static str)> {
        self.collect(i, &[("line-break", ""), ("paragraph-break", ""), ("input-end", "")], &[])
    }

    fn span(&mut self, i: usize, close: &'static str, t: ContainerType) -> Option<Got> {
        let open = self.k(i);
        if self.k(i + 1) == "whitespace" {
            return None;
        }
        let (es, safe, j, _) = self.collect(i + 1, &[(close, "")], &[("paragraph-break", ""), (open, "whitespace"), ("whitespace", close)])?;
        self.used.push("span");
        Some((vec![container(t, es)], safe, j))
    }

    fn color(&mut self, i: usize) -> Option<Got> {
        let pipe = (i + 1..self.t.len()).find(|&j| matches!(self.k(j), "pipe" | "line-break" | "paragraph-break" | "input-end"))?;
        if self.k(pipe) != "pipe" {
            return None;
        }
        let name = &self.src[self.t[i + 1].at..self.t[pipe].at];
        let hex = matches!(name.len(), 3 | 6) && name.bytes().all(|b| b.is_ascii_hexdigit());
        let (elements, safe, j, _) = self.collect(pipe + 1, &[("color", "")], &[("paragraph-break", "")])?;
        self.used.push("color");
        Some((vec![Element::Color { color: Cow::Owned(format!("{}{name}", if hex { "#" } else { "" })), elements }], safe, j))
    }

    fn raw(&mut self, i: usize) -> Option<Got> {
        let raw = |s: &str, j| Some((vec![Element::Raw(Cow::Owned(s.to_string()))], true, j));
        let close = if self.k(i) == "raw" { "raw" } else { "right-raw" };
        self.used.push("raw");
        if close == "raw" && self.k(i + 1) == "raw" {
            // six signs are two, five are one, four are none
            return match (self.k(i + 2), self.t[i + 2].s) {
                ("raw", _) => raw("@@", i + 3),
                ("other", "@") => raw("@", i + 3),
                _ => raw("", i + 2),
            };
        }
        let end = (i + 1..self.t.len()).find(|&j| self.k(j) == close || is_break(self.k(j)))?;
        if self.k(end) != close {
            return None;
        }
        raw(&self.src[self.t[i + 1].at..self.t[end].at], end + 1)
    }

    fn heading(&mut self, i: usize) -> Option<(Vec<E>, usize)> {
        if self.k(i) != "heading" || self.k(i + 1) != "whitespace" {
            return None;
        }
        let (es, _, j, _) = self.line(i + 2)?;
        let s = self.t[i].s;
        let level = match s.matches('+').count() {
            1 => HeadingLevel::One,
            2 => HeadingLevel::Two,
            3 => HeadingLevel::Three,
            4 => HeadingLevel::Four,
            5 => HeadingLevel::Five,
            _ => HeadingLevel::Six,
        };
        self.used.push("heading");
        self.headings = true;
        Some((vec![container(ContainerType::Header(Heading { level, has_toc: !s.ends_with('*') }), es)], j))
    }

    fn list(&mut self, mut i: usize) -> Option<Got> {
        let mut items = vec![];
        loop {
            let indent = self.k(i) == "whitespace";
            let depth = if indent { self.t[i].s.len() } else { 0 };
            let at = i + indent as usize;
            if depth > 20 {
                return None;
            }
            let kind = match self.k(at) {
                "bullet-item" => ListType::Bullet,
                "numbered-item" => ListType::Numbered,
                _ => break,
            };
            if self.k(at + 1) != "whitespace" {
                break;
            }
            let (es, _, j, end) = self.line(at + 2)?;
            items.push((depth, kind, es));
            i = j;
            if end == "paragraph-break" {
                break;
            }
        }
        if items.is_empty() {
            return None;
        }
        self.used.push("list");
        fn build(ltype: ListType, l: Vec<Nest<ListType, Vec<E>>>) -> E {
            let items = l
                .into_iter()
                .map(|n| match n {
                    Nest::Item(elements) => ListItem::Elements { attributes: AttributeMap::new(), elements },
                    Nest::List(k, l) => ListItem::SubList { element: Box::new(build(k, l)) },
                })
                .collect();
            Element::List { ltype, items, attributes: AttributeMap::new() }
        }
        Some((nest(0, Some(ListType::Generic), items).into_iter().map(|(k, l)| build(k, l)).collect(), false, i))
    }

    fn quote(&mut self, mut i: usize) -> Option<Got> {
        let mut items = vec![];
        while self.k(i) == "quote" {
            let depth = self.t[i].s.len();
            if depth > 30 {
                return None;
            }
            let (es, safe, j, end) = self.line(i + 1 + (self.k(i + 1) == "whitespace") as usize)?;
            items.push((depth - 1, (), (es, safe)));
            i = j;
            if end == "paragraph-break" {
                break;
            }
        }
        self.used.push("quote");
        fn build(l: Vec<Nest<(), (Vec<E>, bool)>>) -> E {
            let mut p = Paras::default();
            for n in l {
                match n {
                    Nest::Item((es, safe)) => {
                        for e in es {
                            p.push(e, safe);
                        }
                        if safe {
                            p.push(Element::LineBreak, true);
                        }
                    }
                    Nest::List(_, l) => {
                        if matches!(p.cur.last(), Some(Element::LineBreak)) {
                            p.cur.pop();
                        }
                        p.push(build(l), false);
                    }
                }
            }
            if matches!(p.cur.last(), Some(Element::LineBreak)) {
                p.cur.pop();
            }
            p.end();
            container(ContainerType::Blockquote, p.done)
        }
        Some((nest(0, None, items).into_iter().map(|(_, l)| build(l)).collect(), false, i))
    }

    /// One row: its cells, the token after it, and whether the table may go on.
    fn row(&mut self, mut i: usize) -> Option<(Vec<TableCell<'static>>, usize, bool)> {
        let mut cells = vec![];
        loop {
            let mut span = 0;
            let (align, header) = loop {
                let k = self.k(i);
                if !is_column(k) {
                    break (None, false);
                }
                span += 1;
                i += 1;
                match k {
                    "table-column-title" => break (None, true),
                    "table-column-left" => break (Some(Alignment::Left), false),
                    "table-column-center" => break (Some(Alignment::Center), false),
                    "table-column-right" => break (Some(Alignment::Right), false),
                    _ => (),
                }
            };
            let column_span = NonZeroU32::new(span)?;
            let mut elements = vec![];
            while !is_column(self.k(i)) {
                match self.k(i) {
                    "line-break" | "paragraph-break" | "input-end" => return None,
                    "whitespace" if elements.is_empty() || is_column(self.k(i + 1)) => i += 1,
                    _ => {
                        let (es, _, j) = self.one(i);
                        elements.extend(es);
                        i = j;
                    }
                }
            }
            cells.push(TableCell { header, column_span, align, elements, attributes: AttributeMap::new() });
            match self.k(i + 1) {
                "paragraph-break" | "input-end" => return Some((cells, i + 1, false)),
                "line-break" => return Some((cells, i + 2, true)),
                _ => (),
            }
        }
    }

    fn table(&mut self, mut i: usize) -> Option<Got> {
        let mut rows = vec![];
        while let Some((cells, j, more)) = self.attempt(|p| p.row(i)) {
            rows.push(TableRow { cells, attributes: AttributeMap::new() });
            i = j;
            if !more {
                break;
            }
        }
        if rows.is_empty() {
            return None;
        }
        self.used.push("table");
        Some((vec![Element::Table(Table { rows, attributes: class("wj-table") })], false, i))
    }

    fn definition(&mut self, i: usize) -> Option<(DefinitionListItem<'static>, usize, bool)> {
        if !self.sol(i) || self.k(i) != "colon" || self.k(i + 1) != "whitespace" {
            return None;
        }
        let (key, _, j, _) = self.collect(i + 2, &[("whitespace", "colon")], &[("line-break", ""), ("paragraph-break", "")])?;
        if self.k(j + 1) != "whitespace" {
            return None;
        }
        let raw = self.src[self.t[i + 2].at..self.t[j].at].trim();
        let (value, _, j, end) = self.line(j + 2)?;
        let item = DefinitionListItem { key_string: Cow::Owned(raw.to_string()), key_elements: strip(key), value_elements: strip(value) };
        Some((item, j, end == "line-break"))
    }

    fn definitions(&mut self, i: usize) -> Option<Got> {
        let (first, mut i, mut more) = self.definition(i)?;
        let mut items = vec![first];
        while more {
            let Some((item, j, m)) = self.attempt(|p| p.definition(i)) else { break };
            items.push(item);
            (i, more) = (j, m);
        }
        self.used.push("definitions");
        Some((vec![Element::DefinitionList(items)], false, i))
    }
}

/// A preprocessed text's tree, without its table of contents, and the constructs found; None if it has something else.
pub fn parse(src: &str) -> Option<(SyntaxTree<'static>, Vec<&'static str>)> {
    parse_in(src, true)
}

pub fn parse_in(src: &str, page_syntax: bool) -> Option<(SyntaxTree<'static>, Vec<&'static str>)> {
    let mut p = P::new(src);
    p.page_syntax = page_syntax;
    let mut elements = p.document();
    // what a table of contents lists is not this parser's matter (see c09)
    if p.unknown || p.toc && p.headings {
        return None;
    }
    if p.over {
        p.side = Side::default();
        p.used = vec!["documents beyond the limit"];
        elements = vec![text(src)];
    } else if !p.side.has_block {
        elements.push(Element::FootnoteBlock { title: None, hide: false });
    }
    let mut bibliographies = BibliographyList::new();
    for entries in p.side.bibs {
        let mut b = Bibliography::new();
        for (k, v) in entries {
            b.add(Cow::Owned(k), v);
        }
        bibliographies.push(b);
    }
    let tree = SyntaxTree {
        elements,
        table_of_contents: vec![],
        html_blocks: p.side.html.into_iter().map(Cow::Owned).collect(),
        code_blocks: p.side.code.into_iter().map(|(c, n)| CodeBlock { contents: Cow::Owned(c), name: n.map(Cow::Owned) }).collect(),
        footnotes: p.side.footnotes,
        bibliographies,
        wikitext_len: src.len(),
    };
    Some((tree, p.used))
}
