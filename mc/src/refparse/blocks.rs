//! The part of the reference parser for links and blocks (see refparse).
use super::*;
use crate::checks::c12;
use crate::checks::c26::holds as checks_holds;
use crate::refrender::is_url;
use crate::dates;
use std::collections::BTreeMap;

/// What the contents of a block may hold besides elements.
#[derive(Clone, Copy, PartialEq, Debug, Eq, Hash)]
pub enum Acc {
    Nothing,
    Item,
    Row,
    Cell,
    Tab,
    Ruby,
}

/// How a block is written: its names, whether it takes `*`, takes `_`, and takes the line breaks around its contents.
pub struct Form {
    pub names: &'static [&'static str],
    pub star: bool,
    pub score: bool,
    pub newlines: bool,
}
const fn form(names: &'static [&'static str], star: bool, score: bool, newlines: bool) -> Form {
    Form { names, star, score, newlines }
}

/// The documented blocks. The first name stands for the block below.
pub const FORMS: &[Form] = &[
    form(&["="], false, false, true),
    form(&["=="], false, false, true),
    form(&["<"], false, false, true),
    form(&[">"], false, false, true),
    form(&["a", "anchor"], true, true, false),
    form(&["bibcite"], false, true, false),
    form(&["bibliography"], false, false, true),
    form(&["blockquote", "quote"], false, false, true),
    form(&["b", "bold", "strong"], false, false, false),
    form(&["char", "character"], false, false, false),
    form(&["checkbox"], true, false, false),
    form(&["code"], false, false, true),
    form(&["collapsible"], false, false, true),
    form(&["date"], false, false, false),
    form(&["del", "deletion"], false, false, false),
    form(&["div"], false, true, true),
    form(&["embed"], false, false, true),
    form(&["equation", "eref", "eqref"], false, false, false),
    form(&["footnote"], false, false, false),
    form(&["footnoteblock"], false, false, true),
    form(&["hidden"], false, false, true),
    form(&["html"], false, false, true),
    form(&["ifcategory"], false, false, true),
    form(&["iframe"], false, false, true),
    form(&["iftags"], false, false, true),
    form(&["image", "=image", "<image", ">image", "f<image", "f>image"], false, false, false),
    form(&["include-elements"], false, false, true),
    form(&["include"], false, false, true),
    form(&["ins", "insertion"], false, false, false),
    form(&["invisible"], false, false, true),
    form(&["i", "italics", "em", "emphasis"], false, false, false),
    form(&["later"], true, false, true),
    form(&["li"], false, true, true),
    form(&["lines", "newlines"], false, false, true),
    form(&["mark", "highlight"], false, false, false),
    form(&["math"], false, false, true),
    form(&["module", "module654"], false, false, true),
    form(&["tt", "mono", "monospace"], false, false, false),
    form(&["ol"], false, true, true),
    form(&["p", "paragraph"], false, false, true),
    form(&["radio", "radio-button"], true, false, false),
    form(&["rb", "ruby2"], false, false, false),
    form(&["rt", "rubytext"], false, false, true),
    form(&["ruby"], false, false, true),
    form(&["size"], false, false, false),
    form(&["span"], false, true, false),
    form(&["s", "strikethrough"], false, false, false),
    form(&["sub", "subscript"], false, false, false),
    form(&["sup", "super", "superscript"], false, false, false),
    form(&["tab"], false, false, true),
    form(&["table"], false, false, true),
    form(&["hcell"], false, false, true),
    form(&["cell"], false, false, true),
    form(&["toc", "f<toc", "f>toc"], false, false, true),
    form(&["row"], false, false, true),
    form(&["tabview", "tabs"], false, false, true),
    form(&["target", "anchortarget"], false, false, true),
    form(&["ul"], false, true, true),
    form(&["u", "underline"], false, false, false),
    form(&["user"], true, false, false),
];

type Args = BTreeMap<String, String>;

fn bare(name: &str) -> &str {
    name.strip_suffix('_').unwrap_or(name)
}
pub fn lookup(name: &str) -> Option<&'static Form> {
    FORMS.iter().find(|f| f.names.iter().any(|n| n.eq_ignore_ascii_case(bare(name))))
}
fn own(s: &str) -> Cow<'static, str> {
    Cow::Owned(s.to_string())
}

/// The contents of a quoted string.
pub fn unquote(s: &str) -> String {
    let s = &s[1..s.len() - 1];
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('\\') => out.push('\\'),
            Some('"') => out.push('"'),
            Some('\'') => out.push('\''),
            Some('r') => out.push('\r'),
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some(c) => out.extend(['\\', c]),
            None => {}
        }
    }
    out
}

fn attributes(args: &Args) -> AttributeMap<'static> {
    let mut m: BTreeMap<Cow<'static, str>, Cow<'static, str>> = BTreeMap::new();
    for (k, v) in args {
        if !c12::safe(k) {
            continue;
        }
        let mut v = v.clone();
        if c12::BOOLEAN.split(' ').any(|b| b == k) {
            match c12::truth(&v) {
                Some(true) => v.clear(),
                Some(false) => continue,
                None => {}
            }
        }
        if matches!(k.as_str(), "href" | "src") {
            v = crate::refrender::href(&v);
        }
        m.insert(Cow::Owned(k.clone()), Cow::Owned(v));
    }
    AttributeMap::from(m)
}

fn boolean(args: &mut Args, key: &str, default: bool) -> Option<bool> {
    args.remove(key).map_or(Some(default), |v| c12::truth(&v))
}

/// What is left of a label without its category.
fn uncategorised(url: &str) -> Option<&str> {
    let colon = url.find(':')?;
    if colon == 0 {
        let page = url[1..].split_once(':')?.1.trim_start();
        return Some(uncategorised(page).unwrap_or(page));
    }
    if url[..colon].trim_start_matches('/').contains(['/', '#']) {
        return None;
    }
    Some(url[colon + 1..].trim_start())
}

const INTERWIKI: &[(&str, &str)] = &[
    ("wikipedia", "https://wikipedia.org/wiki/"),
    ("wp", "https://wikipedia.org/wiki/"),
    ("commons", "https://commons.wikimedia.org/wiki/"),
    ("google", "https://google.com/search?q="),
    ("duckduckgo", "https://duckduckgo.com/?q="),
    ("ddg", "https://duckduckgo.com/?q="),
    ("dictionary", "https://dictionary.com/browse/"),
    ("thesaurus", "https://thesaurus.com/browse/"),
];

/// A page reference or address, what follows the page, and the kind of link.
fn location(url: &str) -> Option<(LinkLocation<'static>, Option<Cow<'static, str>>, LinkType)> {
    let extra = |s: &str| {
        let cut = s.find(['#', '/']).unwrap_or(s.len());
        Some(own(&s[cut..])).filter(|e| !e.is_empty())
    };
    if let Some(i) = url.strip_prefix('!') {
        let (prefix, path) = i.split_once(':')?;
        let base = INTERWIKI.iter().find(|p| p.0 == prefix).filter(|_| !path.is_empty())?.1;
        return Some((LinkLocation::Url(Cow::Owned(format!("{base}{path}").replace(' ', "%20"))), None, LinkType::Interwiki));
    }
    if is_url(url) || url.starts_with(['#', '/']) {
        return Some((LinkLocation::Url(own(url)), None, LinkType::Direct));
    }
    let page = &url[..url.find(['#', '/']).unwrap_or(url.len())];
    let direct = Some((LinkLocation::Url(own(page)), extra(url), LinkType::Direct));
    let t = page.trim();
    let page = match t.strip_prefix(':').map(|r| r.split_once(':')) {
        Some(Some((site, page))) if !site.trim().is_empty() => PageRef { site: Some(own(site.trim())), page: own(page.trim()) },
        Some(_) => return direct,
        None if t.is_empty() => return direct,
        None => PageRef { site: None, page: own(t) },
    };
    Some((LinkLocation::Page(page), extra(url), LinkType::Page))
}

pub fn link(url: &str, label: LinkLabel<'static>, star: bool) -> Option<E> {
    let (link, extra, ltype) = location(url)?;
    Some(Element::Link { ltype, link, extra, label, target: star.then_some(AnchorTarget::NewTab) })
}

impl<'a> P<'a> {
    /// The text up to a token of one of the kinds, and that token; None if the line ends first or one of `fail` comes.
    fn until(&self, i: usize, close: &[&str], fail: &[&str]) -> Option<(&'a str, usize)> {
        let mut j = i;
        loop {
            let k = self.k(j);
            if close.contains(&k) {
                return Some((&self.src[self.t[i].at..self.t[j].at], j));
            }
            if matches!(k, "input-end" | "") || fail.contains(&k) {
                return None;
            }
            j += 1;
        }
    }

    pub fn single_link(&mut self, i: usize) -> Option<Got> {
        let (url, j) = self.until(i + 1, &["whitespace"], &["right-bracket", "line-break", "paragraph-break"])?;
        if !(url.starts_with('/') || is_url(url)) {
            return None;
        }
        let (label, end) = self.until(j + 1, &["right-bracket"], &["line-break", "paragraph-break"])?;
        let e = Element::Link {
            ltype: LinkType::Direct,
            link: LinkLocation::Url(own(url)),
            extra: None,
            label: LinkLabel::Text(own(label.trim())),
            target: (self.k(i) == "left-bracket-star").then_some(AnchorTarget::NewTab),
        };
        self.used.push("single link");
        Some((vec![e], true, end + 1))
    }

    pub fn anchor_link(&mut self, i: usize) -> Option<Got> {
        let (name, j) = self.until(i + 1, &["whitespace"], &["right-bracket", "line-break", "paragraph-break"])?;
        let (label, end) = self.until(j + 1, &["right-bracket"], &["line-break", "paragraph-break"])?;
        let url = if name.is_empty() { "javascript:;".to_string() } else { format!("#{}", crate::refrender::norm(name)) };
        let e = Element::Link { ltype: LinkType::Anchor, link: LinkLocation::Url(Cow::Owned(url)), extra: None, label: LinkLabel::Text(own(label.trim())), target: None };
        self.used.push("anchor link");
        Some((vec![e], true, end + 1))
    }

    pub fn triple_link(&mut self, i: usize) -> Option<Got> {
        let (url, j) = self.until(i + 1, &["pipe", "right-link"], &["line-break", "paragraph-break"])?;
        let url = url.trim();
        if url.is_empty() {
            return None;
        }
        let (label, end) = if self.k(j) == "pipe" {
            let (l, end) = self.until(j + 1, &["right-link"], &["line-break", "paragraph-break"])?;
            let l = l.trim();
            (if l.is_empty() { LinkLabel::Page } else { LinkLabel::Text(own(l)) }, end)
        } else {
            let l = if is_url(url) { None } else { uncategorised(url) };
            (LinkLabel::Url(l.map(own)), j)
        };
        let e = link(url, label, self.k(i) == "left-link-star")?;
        self.used.push("triple link");
        Some((vec![e], true, end + 1))
    }

    pub fn anchor_name(&mut self, i: usize) -> Option<Got> {
        if self.k(i + 1) != "whitespace" {
            return None;
        }
        let (name, j) = self.until(i + 2, &["right-block"], &["whitespace", "line-break", "paragraph-break"])?;
        let e = Element::AnchorName(own(name));
        self.used.push("anchor name");
        Some((vec![e], true, j + 1))
    }

    pub fn inline_math(&mut self, i: usize) -> Option<Got> {
        let (s, j) = self.until(i + 1, &["right-math"], &["line-break", "paragraph-break"])?;
        let e = Element::MathInline { latex_source: own(s.trim()) };
        self.used.push("inline math");
        Some((vec![e], true, j + 1))
    }

    pub fn citation(&mut self, i: usize) -> Option<Got> {
        if self.k(i + 1) != "identifier" || !self.t[i + 1].s.eq_ignore_ascii_case("bibcite") || self.k(i + 2) != "whitespace" {
            return None;
        }
        let (s, j) = self.until(i + 3, &["right-parentheses"], &["whitespace", "line-break", "paragraph-break"])?;
        let e = Element::BibliographyCite { label: own(s), brackets: false };
        self.used.push("citation");
        Some((vec![e], true, j + 1))
    }

    // Blocks

    /// A name, the token after what ended it, and whether the head goes on.
    fn name(&self, i: usize) -> Option<(&'a str, usize, bool)> {
        let (s, j) = self.until(i, &["whitespace", "line-break", "paragraph-break", "right-block"], &[])?;
        Some((s.trim(), j + 1, self.k(j) != "right-block"))
    }
    fn space(&self, i: usize) -> usize {
        i + (self.k(i) == "whitespace") as usize
    }

    /// Whether a line break before token `i` belongs to the block there.
    pub fn takes_break(&self, i: usize) -> bool {
        self.k(i) == "left-block" && self.name(self.space(i + 1)).and_then(|n| lookup(n.0)).is_some_and(|f| f.newlines)
    }

    fn opened(&self, f: &Form, i: usize) -> usize {
        i + (f.newlines && self.k(i) == "line-break") as usize
    }

    fn args(&self, f: &Form, mut i: usize, head: bool) -> Option<(Args, usize)> {
        let mut args = Args::new();
        while head {
            while matches!(self.k(i), "whitespace" | "line-break" | "paragraph-break" | "equals") {
                i += 1;
            }
            let start = i;
            while !matches!(self.k(i), "right-block" | "whitespace" | "line-break" | "paragraph-break" | "equals") {
                let s = self.t.get(i)?.s;
                if s.is_empty() || !s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-') {
                    return None;
                }
                i += 1;
            }
            if self.k(i) == "right-block" {
                i += 1;
                break;
            }
            let key = self.src[self.t[start].at..self.t[i].at].to_ascii_lowercase();
            i = self.space(i);
            if self.k(i) != "equals" {
                return None;
            }
            i = self.space(i + 1);
            if self.k(i) != "string" {
                return None;
            }
            args.insert(key, unquote(self.t[i].s));
            i += 1;
        }
        Some((args, self.opened(f, i)))
    }

    fn named(&self, f: &Form, i: usize, head: bool) -> Option<(String, Args, usize)> {
        if !head {
            return None;
        }
        let (name, j, head) = self.name(i)?;
        let name = name.to_string();
        let (a, j) = self.args(f, j, head)?;
        Some((name, a, j))
    }

    fn value(&self, f: &Form, i: usize, head: bool) -> Option<(Option<String>, usize)> {
        if !head {
            return Some((None, self.opened(f, i)));
        }
        let (s, j) = self.until(i, &["right-block"], &["line-break", "paragraph-break"])?;
        Some((Some(s.to_string()), self.opened(f, j + 1)))
    }

    fn none(&self, f: &Form, i: usize, head: bool) -> Option<usize> {
        let mut i = self.space(i);
        if head {
            if self.k(i) != "right-block" {
                return None;
            }
            i += 1;
        }
        Some(self.opened(f, i))
    }

    /// The token after the end of the block, if it is at `i`.
    fn end(&self, f: &Form, mut i: usize, first: bool) -> Option<usize> {
        if f.newlines && !first && self.k(i) == "line-break" {
            i += 1;
        }
        if self.k(i) != "left-block-end" {
            return None;
        }
        i = self.space(i + 1);
        if self.k(i) == "left-block" {
            i += 1;
        }
        let (name, mut j, head) = self.name(self.space(i))?;
        if !f.names.iter().any(|n| n.eq_ignore_ascii_case(bare(name))) {
            return None;
        }
        if head {
            j = self.space(j);
            if self.k(j) != "right-block" {
                return None;
            }
            j += 1;
        }
        Some(j)
    }

    fn raw_body(&self, f: &Form, i: usize) -> Option<(String, usize)> {
        for j in i..self.t.len() {
            if let Some(end) = self.end(f, j, j == i) {
                return Some((self.src[self.t[i].at..self.t[j].at].to_string(), end));
            }
        }
        None
    }

    fn body(&mut self, f: &Form, mut i: usize) -> Option<(Vec<E>, bool, usize)> {
        let (mut out, mut safe, mut first) = (vec![], true, true);
        loop {
            if let Some(j) = self.end(f, i, first) {
                return Some((out, safe, j));
            }
            first = false;
            if self.k(i) == "input-end" || self.over {
                return None;
            }
            let (es, s, j) = self.one(i);
            out.extend(es);
            safe &= s;
            i = j;
        }
    }

    fn paragraphs(&mut self, f: &Form, mut i: usize) -> Option<(Vec<E>, usize)> {
        let mut p = Paras::default();
        let mut first = true;
        loop {
            match self.k(i) {
                "input-end" => return None,
                "paragraph-break" => {
                    p.end();
                    i += 1;
                    continue;
                }
                _ if self.over => return None,
                _ => {}
            }
            if let Some(j) = self.end(f, i, first) {
                p.end();
                return Some((p.done, j));
            }
            first = false;
            i = self.paragraph_step(&mut p, i);
        }
    }

    /// Elements of which all but blank ones must be accepted.
    fn only<T>(es: Vec<E>, mut take: impl FnMut(E) -> Option<T>) -> Option<Vec<T>> {
        es.into_iter().filter(|e| !blank(e)).map(|e| take(e)).collect()
    }

    pub fn block(&mut self, i: usize) -> Option<Got> {
        let star = self.k(i) == "left-block-star";
        let (name, j, head) = self.name(self.space(i + 1))?;
        let name = name.to_string();
        let f = lookup(&name)?;
        let score = name.ends_with('_');
        if star && !f.star || score && !f.score {
            return None;
        }
        let name = bare(&name).to_ascii_lowercase();
        let j = self.space(j);
        let outer = self.accepts;
        if !matches!(f.names[0], "iftags" | "ifcategory") {
            self.accepts = Acc::Nothing;
        }
        let got = self.block_of(f, &name, star, score, head, j, outer);
        self.accepts = outer;
        if got.is_some() {
            self.used.push(f.names[0]);
        }
        got
    }

    #[allow(clippy::too_many_arguments)]
    fn block_of(&mut self, f: &'static Form, name: &str, star: bool, score: bool, head: bool, i: usize, outer: Acc) -> Option<Got> {
        use ContainerType::*;
        let stripped = |mut v: Vec<E>| {
            let is = |e: &E| matches!(e, Element::LineBreak | Element::LineBreaks(_));
            if score {
                while v.last().is_some_and(is) {
                    v.pop();
                }
                let n = v.iter().take_while(|e| is(e)).count();
                v = v.split_off(n);
            }
            v
        };
        let partial = |want: Acc, p: PartialElement<'static>, safe: bool, j: usize| (want == outer).then(|| (vec![Element::Partial(p)], safe, j));
        let with = |t: ContainerType, es: Vec<E>, args: &Args| Element::Container(Container::new(t, es, attributes(args)));
        let alone = |e: E, j: usize| {
            let safe = inline(&e);
            Some((vec![e], safe, j))
        };
        let formatting = match f.names[0] {
            "b" => Some(Bold),
            "i" => Some(Italics),
            "u" => Some(Underline),
            "s" => Some(Strikethrough),
            "sub" => Some(Subscript),
            "sup" => Some(Superscript),
            "tt" => Some(Monospace),
            "mark" => Some(Mark),
            "ins" => Some(Insertion),
            "del" => Some(Deletion),
            "hidden" => Some(Hidden),
            "invisible" => Some(Invisible),
            "span" => Some(Span),
            _ => None,
        };
        if let Some(t) = formatting {
            let (args, j) = self.args(f, i, head)?;
            let (es, safe, j) = self.body(f, j)?;
            return Some((vec![with(t, stripped(es), &args)], safe, j));
        }
        match f.names[0] {
            "=" | "==" | "<" | ">" => {
                let j = self.none(f, i, head)?;
                let (es, j) = self.paragraphs(f, j)?;
                let a = match name {
                    "=" => Alignment::Center,
                    "==" => Alignment::Justify,
                    "<" => Alignment::Left,
                    _ => Alignment::Right,
                };
                alone(container(Align(a), es), j)
            }
            "a" => {
                let (args, j) = self.args(f, i, head)?;
                let (es, safe, j) = self.body(f, j)?;
                let e = Element::Anchor { elements: stripped(es), attributes: attributes(&args), target: star.then_some(AnchorTarget::NewTab) };
                Some((vec![e], safe, j))
            }
            "bibcite" => {
                let (v, j) = self.value(f, i, head)?;
                alone(Element::BibliographyCite { label: own(v?.trim()), brackets: !score }, j)
            }
            "bibliography" => {
                let (mut args, j) = self.args(f, i, head)?;
                let title = args.remove("title").map(Cow::Owned);
                let hide = boolean(&mut args, "hide", false)?;
                let (es, _, j) = self.body(f, j)?;
                let mut entries: Vec<(String, Vec<E>)> = vec![];
                for e in es {
                    match e {
                        Element::DefinitionList(items) => {
                            for i in items {
                                entries.push((i.key_string.to_string(), i.value_elements));
                            }
                        }
                        e if blank(&e) => {}
                        _ => return None,
                    }
                }
                self.side.bibs.push(entries);
                alone(Element::BibliographyBlock { index: self.side.bibs.len() - 1, title, hide }, j)
            }
            "blockquote" => {
                let (args, j) = self.args(f, i, head)?;
                let (es, j) = self.paragraphs(f, j)?;
                alone(with(Blockquote, es, &args), j)
            }
            "checkbox" => {
                let (args, j) = self.args(f, i, head)?;
                alone(Element::CheckBox { checked: star, attributes: attributes(&args) }, self.space(j))
            }
            "radio" => {
                let (name, args, j) = self.named(f, i, head)?;
                alone(Element::RadioButton { name: Cow::Owned(name), checked: star, attributes: attributes(&args) }, self.space(j))
            }
            "code" => {
                let (mut args, j) = self.args(f, i, head)?;
                let language = args.remove("type").map(|l| l.to_ascii_lowercase());
                let name = args.remove("name").map(|n| crate::refrender::norm(&n));
                let (s, j) = self.raw_body(f, j)?;
                if name.is_some() && self.side.code.iter().any(|c| c.1 == name) {
                    return None;
                }
                self.side.code.push((s.clone(), name));
                alone(Element::Code { contents: Cow::Owned(s), language: language.map(Cow::Owned) }, j)
            }
            "collapsible" => {
                let (mut args, j) = self.args(f, i, head)?;
                let show_text = args.remove("show").map(Cow::Owned);
                let hide_text = args.remove("hide").map(Cow::Owned);
                let start_open = !boolean(&mut args, "folded", true)?;
                let (show_top, show_bottom) = match args.remove("hidelocation").map(|s| s.trim().to_ascii_lowercase()).as_deref() {
                    None | Some("top") => (true, false),
                    Some("bottom") => (false, true),
                    Some("both") => (true, true),
                    Some("neither" | "none") => (false, false),
                    _ => return None,
                };
                let (elements, j) = self.paragraphs(f, j)?;
                alone(Element::Collapsible { elements, attributes: attributes(&args), start_open, show_text, hide_text, show_top, show_bottom }, j)
            }
            "div" => {
                let (args, j) = self.args(f, i, head)?;
                let (es, j) = if score { self.body(f, j).map(|b| (b.0, b.2))? } else { self.paragraphs(f, j)? };
                alone(with(Div, es, &args), j)
            }
            "embed" => {
                let (name, mut args, j) = self.named(f, i, head)?;
                let e = match name.to_ascii_lowercase().as_str() {
                    "youtube" => Embed::Youtube { video_id: Cow::Owned(args.remove("video")?) },
                    "vimeo" => Embed::Vimeo { video_id: Cow::Owned(args.remove("video")?) },
                    _ => return None,
                };
                alone(Element::Embed(e), j)
            }
            "equation" => {
                let (v, j) = self.value(f, i, head)?;
                alone(Element::EquationReference(own(v?.trim())), j)
            }
            "footnote" => {
                if self.in_footnote {
                    return None;
                }
                let j = self.none(f, i, head)?;
                self.in_footnote = true;
                let got = self.paragraphs(f, j);
                self.in_footnote = false;
                let (mut es, j) = got?;
                if es.len() == 1 {
                    if let Element::Container(c) = &es[0] {
                        if c.ctype() == Paragraph {
                            es = c.elements().to_vec();
                        }
                    }
                }
                self.side.footnotes.push(es);
                alone(Element::Footnote, j)
            }
            "footnoteblock" => {
                if self.in_footnote {
                    return None;
                }
                let (mut args, j) = self.args(f, i, head)?;
                let title = args.remove("title").map(Cow::Owned);
                let hide = boolean(&mut args, "hide", false)?;
                if !args.is_empty() {
                    return None;
                }
                self.side.has_block = true;
                alone(Element::FootnoteBlock { title, hide }, j)
            }
            "html" => {
                let j = self.none(f, i, head)?;
                let (s, j) = self.raw_body(f, j)?;
                self.side.html.push(s.clone());
                alone(Element::Html { contents: Cow::Owned(s) }, j)
            }
            "iftags" | "ifcategory" => {
                let (v, j) = self.value(f, i, head)?;
                let v = v?;
                let m = self.mark();
                let (es, safe, j) = self.body(f, j)?;
                let tags: Vec<&str> = if name == "iftags" { PAGE_TAGS.to_vec() } else { vec![PAGE_CATEGORY] };
                if checks_holds(&v, &tags, name == "ifcategory") {
                    return Some((es, safe, j));
                }
                self.restore(m);
                Some((vec![], true, j))
            }
            "iframe" => {
                let (url, args, j) = self.named(f, i, head)?;
                if !is_url(&url) {
                    return None;
                }
                alone(Element::Iframe { url: Cow::Owned(url), attributes: attributes(&args) }, j)
            }
            "image" => {
                let (src, mut args, j) = self.named(f, i, head)?;
                // no interwiki here; what follows a page's name becomes part of a local path,
                // but is dropped for pages of other sites (see C40)
                let link = args.remove("link").map(|l| match l.strip_prefix('!') {
                    Some(_) => {
                        let at = l.find(['#', '/']).unwrap_or(l.len());
                        match &l[at..] {
                            "" => LinkLocation::Page(PageRef { site: None, page: own(l.trim()) }),
                            rest => LinkLocation::Url(Cow::Owned(format!("/{}{rest}", l[..at].trim()))),
                        }
                    }
                    None => match location(&l).unwrap() {
                        (LinkLocation::Page(PageRef { site: None, page }), Some(rest), _) => LinkLocation::Url(Cow::Owned(format!("/{page}{rest}"))),
                        (to, _, _) => to,
                    },
                });
                let alignment = match name.strip_suffix("image") {
                    Some("=") => Some((Alignment::Center, false)),
                    Some("<") => Some((Alignment::Left, false)),
                    Some(">") => Some((Alignment::Right, false)),
                    Some("f<") => Some((Alignment::Left, true)),
                    Some("f>") => Some((Alignment::Right, true)),
                    _ => None,
                };
                let parts: Vec<&str> = src.strip_prefix('/').unwrap_or(&src).split('/').collect();
                let source = match parts[..] {
                    _ if is_url(&src) => ImageSource::Url(own(&src)),
                    [file] => ImageSource::File1 { file: own(file) },
                    [page, file] => ImageSource::File2 { page: own(page), file: own(file) },
                    [site, page, file] => ImageSource::File3 { site: own(site), page: own(page), file: own(file) },
                    _ => return None,
                };
                alone(Element::Image { source, link, alignment: alignment.map(|(align, float)| FloatAlignment { align, float }), attributes: attributes(&args) }, j)
            }
            "later" => alone(text("later."), self.none(f, i, head)?),
            "ul" | "ol" => {
                self.accepts = Acc::Item;
                let (args, j) = self.args(f, i, head)?;
                let (es, _, j) = self.body(f, j)?;
                let es = stripped(es);
                if es.is_empty() {
                    return None;
                }
                let items = Self::only(es, |e| match e {
                    Element::Partial(PartialElement::ListItem(l)) => Some(l),
                    e @ Element::List { .. } => Some(ListItem::SubList { element: Box::new(e) }),
                    _ => None,
                })?;
                alone(Element::List { ltype: if name == "ul" { ListType::Bullet } else { ListType::Numbered }, items, attributes: attributes(&args) }, j)
            }
            "li" => {
                let (args, j) = self.args(f, i, head)?;
                let (es, _, j) = self.body(f, j)?;
                partial(Acc::Item, PartialElement::ListItem(ListItem::Elements { elements: stripped(es), attributes: attributes(&args) }), false, j)
            }
            "lines" => {
                let (v, j) = self.value(f, i, head)?;
                let n: NonZeroU32 = v?.trim().parse().ok()?;
                if n.get() > 100 {
                    return None;
                }
                alone(Element::LineBreaks(n), j)
            }
            "math" => {
                let (v, j) = self.value(f, i, head)?;
                let (s, j) = self.raw_body(f, j)?;
                if s.trim().is_empty() {
                    return None;
                }
                alone(Element::Math { name: v.map(|v| own(v.trim())), latex_source: own(s.trim()) }, j)
            }
            "p" => {
                let (args, j) = self.args(f, i, head)?;
                let (mut es, j) = self.paragraphs(f, j)?;
                for e in &mut es {
                    if let Element::Container(c) = e {
                        if c.ctype() == Paragraph {
                            *e = with(Paragraph, c.elements().to_vec(), &args);
                        }
                    }
                }
                // whatever is fit for a paragraph is in one already
                let safe = es.is_empty();
                Some((es, safe, j))
            }
            "rb" => {
                let (v, j) = self.value(f, i, head)?;
                let v = v?;
                let (base, ruby) = v.split_once('|').filter(|p| !p.1.contains('|'))?;
                alone(container(Ruby, vec![text(base.trim()), container(RubyText, vec![text(ruby.trim())])]), j)
            }
            "rt" => {
                let (args, j) = self.args(f, i, head)?;
                let (es, safe, j) = self.body(f, j)?;
                partial(Acc::Ruby, PartialElement::RubyText(tree_ruby(strip(es), attributes(&args))), safe, j)
            }
            "ruby" => {
                self.accepts = Acc::Ruby;
                let (args, j) = self.args(f, i, head)?;
                let (mut es, safe, j) = self.body(f, j)?;
                for e in &mut es {
                    if let Element::Partial(PartialElement::RubyText(r)) = e {
                        *e = Element::Container(Container::new(RubyText, r.elements.clone(), r.attributes.clone()));
                    }
                }
                Some((vec![with(Ruby, strip(es), &args)], safe, j))
            }
            "size" => {
                let (v, j) = self.value(f, i, head)?;
                let v = v?;
                let (es, safe, j) = self.body(f, j)?;
                let args = Args::from([("style".to_string(), format!("font-size: {v};"))]);
                Some((vec![with(Size, es, &args)], safe, j))
            }
            "table" => {
                self.accepts = Acc::Row;
                let (args, j) = self.args(f, i, head)?;
                let (es, _, j) = self.body(f, j)?;
                let rows = Self::only(es, |e| match e {
                    Element::Partial(PartialElement::TableRow(r)) => Some(r),
                    _ => None,
                })?;
                alone(Element::Table(Table { rows, attributes: attributes(&args) }), j)
            }
            "row" => {
                self.accepts = Acc::Cell;
                let (args, j) = self.args(f, i, head)?;
                let (es, _, j) = self.body(f, j)?;
                let cells = Self::only(es, |e| match e {
                    Element::Partial(PartialElement::TableCell(c)) => Some(c),
                    _ => None,
                })?;
                partial(Acc::Row, PartialElement::TableRow(TableRow { cells, attributes: attributes(&args) }), false, j)
            }
            "cell" | "hcell" => {
                let (mut args, j) = self.args(f, i, head)?;
                let (es, _, j) = self.body(f, j)?;
                let column_span = args.remove("colspan").and_then(|v| v.parse().ok()).unwrap_or(NonZeroU32::new(1).unwrap());
                partial(Acc::Cell, PartialElement::TableCell(TableCell { header: name == "hcell", column_span, align: None, elements: strip(es), attributes: attributes(&args) }), false, j)
            }
            "tabview" => {
                self.accepts = Acc::Tab;
                let j = self.none(f, i, head)?;
                let (es, _, j) = self.body(f, j)?;
                let tabs = Self::only(es, |e| match e {
                    Element::Partial(PartialElement::Tab(t)) => Some(t),
                    _ => None,
                })?;
                if tabs.is_empty() {
                    return None;
                }
                alone(Element::TabView(tabs), j)
            }
            "tab" => {
                let (v, j) = self.value(f, i, head)?;
                let label = Cow::Owned(v?);
                let (elements, j) = self.paragraphs(f, j)?;
                partial(Acc::Tab, PartialElement::Tab(Tab { label, elements }), false, j)
            }
            "target" => {
                let (v, j) = self.value(f, i, head)?;
                let v = v?;
                let v = v.trim();
                if v.is_empty() || v.contains(' ') {
                    return None;
                }
                alone(Element::AnchorName(own(v)), j)
            }
            "user" => {
                let (v, j) = self.value(f, i, head)?;
                alone(Element::User { name: own(v?.trim()), show_avatar: star }, j)
            }
            "char" => {
                let (v, j) = self.value(f, i, head)?;
                let v = v?;
                let v = v.trim();
                let v = v.strip_prefix('&').unwrap_or(v);
                let v = v.strip_suffix(';').unwrap_or(v);
                alone(Element::Text(Cow::Owned(self.entity(v)?)), j)
            }
            "date" => {
                let (v, mut args, j) = self.named(f, i, head)?;
                let format = args.remove("format").map(Cow::Owned);
                let tz = args.remove("tz");
                let hover = boolean(&mut args, "hover", true)?;
                self.unknown |= v == "." || v.eq_ignore_ascii_case("now");
                let value = dates::element(&v, tz.as_deref())?;
                alone(Element::Date { value, format, hover }, j)
            }
            // includes are done before parsing
            "include" => None,
            "include-elements" if self.page_syntax => {
                let (name, args, j) = self.named(f, i, head)?;
                let Some((LinkLocation::Page(location), None, _)) = location(&name) else {
                    self.unknown = true;
                    return None;
                };
                let variables = args.into_iter().map(|(k, v)| (Cow::Owned(k), Cow::Owned(v))).collect();
                let e = Element::Include { paragraph_safe: false, variables, location, elements: vec![text("<INCLUDED PAGE (ELEMENTS)>")] };
                Some((vec![e], false, j))
            }
            "toc" if self.page_syntax => {
                let (args, j) = self.args(f, i, head)?;
                let align = match name {
                    "f<toc" => Some(Alignment::Left),
                    "f>toc" => Some(Alignment::Right),
                    _ => None,
                };
                self.toc = true;
                Some((vec![Element::TableOfContents { align, attributes: attributes(&args) }], false, j))
            }
            "module" if self.page_syntax => {
                let (name, mut args, j) = self.named(f, i, head)?;
                let m = match name.to_ascii_lowercase().as_str() {
                    "backlinks" => Module::Backlinks { page: args.remove("page").map(Cow::Owned) },
                    "categories" => Module::Categories { include_hidden: boolean(&mut args, "includehidden", false)? },
                    "join" => {
                        let button_text = args.remove("button").map(Cow::Owned);
                        Module::Join { button_text, attributes: attributes(&args) }
                    }
                    "pagetree" => {
                        let root = args.remove("root").map(Cow::Owned);
                        let depth = args.remove("depth").map(|d| d.parse()).transpose().ok()?;
                        Module::PageTree { root, depth, show_root: boolean(&mut args, "showroot", false)? }
                    }
                    "rate" => Module::Rate,
                    "css" => {
                        let (s, j) = self.raw_body(f, j)?;
                        return Some((vec![Element::Style(Cow::Owned(s))], false, j));
                    }
                    _ => return None,
                };
                Some((vec![Element::Module(m)], false, j))
            }
            // a page's syntax where there is no page
            _ => None,
        }
    }

    /// The characters an entity stands for; not all names are known here.
    fn entity(&mut self, s: &str) -> Option<String> {
        const NAMES: &[(&str, &str)] = &[
            ("amp", "&"), ("AMP", "&"), ("lt", "<"), ("LT", "<"), ("gt", ">"), ("quot", "\""), ("apos", "'"), ("nbsp", "\u{a0}"), ("copy", "©"), ("eacute", "é"), ("Eacute", "É"), ("hearts", "♥"), ("alpha", "α"), ("Alpha", "Α"), ("shy", "\u{ad}"), ("lbrack", "["), ("rbrack", "]"), ("ast", "*"),
            ("NotEqualTilde", "≂̸"), ("fjlig", "fj"), ("Afr", "𝔄"), ("zwj", "\u{200d}"), ("lbbrk", "❲"), ("sol", "/"), ("num", "#"), ("Tab", "\t"), ("NewLine", "\n"),
        ];
        if let Some(n) = NAMES.iter().find(|n| n.0 == s) {
            return Some(n.1.to_string());
        }
        if let Some(n) = s.strip_prefix('#') {
            let (digits, radix) = n.strip_prefix('x').map_or((n, 10), |h| (h, 16));
            if digits.starts_with('+') {
                self.unknown = true;
            }
            return u32::from_str_radix(digits, radix).ok().and_then(char::from_u32).map(String::from);
        }
        if s.len() > 1 && s.bytes().all(|b| b.is_ascii_alphanumeric()) && !["xxx", "ampx", "Amp", "AmP", "lT", "nonsense"].contains(&s) {
            self.unknown = true;
        }
        None
    }
}

fn tree_ruby(elements: Vec<E>, attributes: AttributeMap<'static>) -> RubyText<'static> {
    RubyText { elements, attributes }
}

/// The tags and category of doc::page_info.
const PAGE_TAGS: &[&str] = &["tale", "_cc"];
const PAGE_CATEGORY: &str = "_default";

