//! Reference renderers: what a syntax tree looks like as a DOM, and as text.
//! Written from the documented output format, sharing no code with ftml's
//! renderers beyond the tree types.
use crate::html::Node;
use ftml::data::PageInfo;
use ftml::settings::WikitextSettings;
use ftml::tree::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

pub const SCHEMES: [&str; 19] = [
    "blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://", "ftp://", "git://", "gopher://", "http://",
    "https://", "irc6://", "irc://", "ircs://", "mailto:", "resource://", "rtmp://", "sftp://",
];

pub fn is_url(s: &str) -> bool {
    SCHEMES.iter().any(|p| s.starts_with(p))
}

pub fn norm(s: &str) -> String {
    let mut t = s.to_string();
    wikidot_normalize::normalize(&mut t);
    t
}

/// The address a relative or absolute reference is rendered with.
pub fn href(url: &str) -> String {
    if is_url(url) || url.starts_with('#') || url == "javascript:;" {
        return url.to_string();
    }
    // a path of this site has no scheme
    if let Some((scheme, _)) = url.split_once(':').filter(|_| !url.starts_with('/')) {
        let plain = !scheme.is_empty() && scheme.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-');
        if !plain || scheme.eq_ignore_ascii_case("javascript") || scheme.eq_ignore_ascii_case("data") {
            return "#invalid-url".into();
        }
    }
    let (path, frag) = match url.split_once('#') {
        Some((p, f)) => (p, Some(f)),
        None => (url, None),
    };
    let path = path.strip_prefix('/').unwrap_or(path);
    let (first, rest) = match path.split_once('/') {
        Some((a, b)) => (a, Some(b)),
        None => (path, None),
    };
    let mut out = format!("/{}", norm(first));
    if let Some(r) = rest {
        out.push('/');
        out.push_str(r);
    }
    if let Some(f) = frag {
        out.push('#');
        out.push_str(f);
    }
    out
}

pub fn link_href(l: &LinkLocation) -> String {
    match l {
        LinkLocation::Url(u) => href(u),
        LinkLocation::Page(p) => match &p.site {
            Some(site) => format!("https://{site}.wikijump.com/{}", norm(&p.page)),
            // what follows a page's name may make script of it
            None if p.page == "javascript:;" => "#invalid-url".into(),
            None => href(&p.page),
        },
    }
}

type A<'x> = Vec<(&'x str, Option<String>)>;

pub struct Ref<'x, 't> {
    info: &'x PageInfo<'x>,
    st: &'x WikitextSettings,
    tree: &'x SyntaxTree<'t>,
    toc: usize,
    eq: usize,
    note: usize,
    cite: bool,
    list: bool,
    rand: usize,
    scopes: Vec<&'x HashMap<Cow<'t, str>, Cow<'t, str>>>,
    pub internal: Vec<String>,
    pub external: Vec<String>,
}

fn val(v: String) -> Option<String> {
    let v = v.replace('\0', " ");
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

fn el(tag: &str, attrs: A, kids: Vec<Node>) -> Node {
    let attrs = attrs.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v.and_then(val))).collect();
    Node::El { tag: tag.into(), attrs, kids }
}

fn elm(tag: &str, attrs: A, map: &AttributeMap, kids: Vec<Node>) -> Node {
    let mut m: BTreeMap<String, Option<String>> = BTreeMap::new();
    for (k, v) in map.get() {
        m.insert(k.to_ascii_lowercase(), val(v.to_string()));
    }
    for (k, v) in attrs {
        let v = match map.get().get(k) {
            Some(user) if k == "class" || k == "style" => Some(format!("{} {}", v.unwrap_or_default(), user)),
            _ => v,
        };
        m.insert(k.to_ascii_lowercase(), v.and_then(val));
    }
    Node::El { tag: tag.into(), attrs: m, kids }
}

fn cls(s: &str) -> A<'_> {
    vec![("class", Some(s.to_string()))]
}

fn txt(s: &str) -> Vec<Node> {
    if s.is_empty() {
        vec![]
    } else {
        vec![Node::Text(s.replace('\0', " "))]
    }
}

fn sprite(id: &str) -> Node {
    let vb = if id == "wj-karma" { "0 0 64 114" } else { "0 0 24 24" };
    el(
        "svg",
        vec![("class", Some(format!("wj-sprite sprite-{id}"))), ("viewBox", Some(vb.into()))],
        vec![el("use", vec![("href", Some(format!("/files--static/media/ui.svg#{id}")))], vec![])],
    )
}

fn align_name(a: Alignment) -> &'static str {
    match a {
        Alignment::Left => "left",
        Alignment::Right => "right",
        Alignment::Center => "center",
        Alignment::Justify => "justify",
    }
}

fn float_class(f: &FloatAlignment) -> String {
    format!("wj-{}-{}", if f.float { "float" } else { "align" }, align_name(f.align))
}

pub fn s(x: &str) -> Option<String> {
    Some(x.to_string())
}

pub fn target_attr(t: &AnchorTarget) -> &'static str {
    match t {
        AnchorTarget::NewTab => "_blank",
        AnchorTarget::Parent => "_parent",
        AnchorTarget::Top => "_top",
        AnchorTarget::Same => "_self",
    }
}

pub fn link_label(site: &str, link: &LinkLocation, label: &LinkLabel) -> String {
    match (label, link) {
        (LinkLabel::Text(t), _) | (LinkLabel::Url(Some(t)), _) => t.to_string(),
        (LinkLabel::Url(None), LinkLocation::Url(u)) | (LinkLabel::Page, LinkLocation::Url(u)) => u.to_string(),
        (LinkLabel::Url(None), LinkLocation::Page(p)) => p.page.to_string(),
        (LinkLabel::Page, LinkLocation::Page(p)) => {
            format!("TODO: actual title ({} {})", p.site.as_deref().unwrap_or(site), p.page)
        }
    }
}

impl<'x, 't> Ref<'x, 't> {
    pub fn new(tree: &'x SyntaxTree<'t>, info: &'x PageInfo<'x>, st: &'x WikitextSettings) -> Self {
        Ref { info, st, tree, toc: 0, eq: 0, note: 0, cite: false, list: false, rand: 0, scopes: vec![], internal: vec![], external: vec![] }
    }

    pub fn body(&mut self) -> Vec<Node> {
        let kids = self.els(&self.tree.elements);
        vec![el("wj-body", cls("wj-body"), kids)]
    }

    fn rid(&mut self) -> String {
        self.rand += 1;
        format!("wj-id-{:016}", self.rand)
    }

    fn els(&mut self, e: &'x [Element<'t>]) -> Vec<Node> {
        let mut v = Vec::new();
        for x in e {
            self.one(x, &mut v);
        }
        v
    }

    fn one(&mut self, e: &'x Element<'t>, out: &mut Vec<Node>) {
        match e {
            Element::Container(c) => self.container(c, out),
            Element::Module(m) => {
                let name = match m {
                    Module::Backlinks { .. } => "Backlinks",
                    Module::Categories { .. } => "Categories",
                    Module::Join { .. } => "Join",
                    Module::PageTree { .. } => "PageTree",
                    Module::Rate => "Rate",
                };
                out.push(el("p", vec![], txt(&format!("TODO: module {name}"))))
            }
            Element::Text(t) => out.extend(txt(t)),
            Element::Raw(t) => out.push(el("span", cls("wj-raw"), txt(t))),
            Element::Variable(n) => out.extend(txt(&self.variable(n))),
            Element::Email(t) => out.push(el("span", cls("wj-email"), txt(t))),
            Element::Table(t) => {
                let mut rows = vec![];
                for r in &t.rows {
                    let mut cells = vec![];
                    for c in &r.cells {
                        let mut a: A = vec![];
                        if c.column_span.get() > 1 {
                            a.push(("colspan", Some(c.column_span.to_string())));
                        }
                        if let Some(al) = c.align {
                            a.push(("class", Some(format!("wj-align-{}", align_name(al)))));
                        }
                        let kids = self.els(&c.elements);
                        cells.push(elm(if c.header { "th" } else { "td" }, a, &c.attributes, kids));
                    }
                    rows.push(elm("tr", vec![], &r.attributes, cells));
                }
                out.push(elm("table", vec![], &t.attributes, vec![el("tbody", vec![], rows)]));
            }
            Element::TabView(tabs) => {
                let ids: Vec<(String, String)> = tabs.iter().map(|_| (self.rid(), self.rid())).collect();
                let mut buttons = vec![];
                let mut panels = vec![];
                for (i, t) in tabs.iter().enumerate() {
                    let first = i == 0;
                    buttons.push(el(
                        "wj-tabs-button",
                        vec![
                            ("class", s("wj-tabs-button")),
                            ("id", Some(ids[i].0.clone())),
                            ("role", s("tab")),
                            ("aria-label", Some(t.label.to_string())),
                            ("aria-selected", s(if first { "true" } else { "false" })),
                            ("aria-controls", Some(ids[i].1.clone())),
                            ("tabindex", s(if first { "0" } else { "-1" })),
                        ],
                        txt(&t.label),
                    ));
                    let mut a: A = vec![
                        ("class", s("wj-tabs-panel")),
                        ("id", Some(ids[i].1.clone())),
                        ("role", s("tabpanel")),
                        ("aria-labelledby", Some(ids[i].0.clone())),
                        ("tabindex", s("0")),
                    ];
                    if !first {
                        a.push(("hidden", None));
                    }
                    let kids = self.els(&t.elements);
                    panels.push(el("div", a, kids));
                }
                out.push(el(
                    "wj-tabs",
                    cls("wj-tabs"),
                    vec![
                        el("div", vec![("class", s("wj-tabs-button-list")), ("role", s("tablist"))], buttons),
                        el("div", cls("wj-tabs-panel-list"), panels),
                    ],
                ));
            }
            Element::Anchor { target, attributes, elements } => {
                let mut a = cls("wj-anchor");
                if let Some(t) = target {
                    a.push(("target", s(target_attr(t))));
                }
                let kids = self.els(elements);
                out.push(elm("a", a, attributes, kids));
            }
            Element::AnchorName(n) => out.push(el("a", vec![("id", Some(n.to_string()))], vec![])),
            Element::Link { ltype, link, extra, label, target } => {
                match link {
                    LinkLocation::Page(p) => self.internal.push(format!("{:?}:{}", p.site.as_deref(), p.page)),
                    LinkLocation::Url(u) if u == "javascript:;" || u.starts_with('#') => {}
                    LinkLocation::Url(u) => {
                        let u = u.strip_prefix('/').unwrap_or(u);
                        if is_url(u) {
                            self.external.push(u.to_string())
                        } else {
                            self.internal.push(format!("None:{u}"))
                        }
                    }
                }
                let class = match link {
                    LinkLocation::Url(u) if u == "javascript:;" || u.starts_with('#') => "wj-link-anchor",
                    LinkLocation::Url(u) if !u.starts_with('/') => "wj-link-external",
                    _ => "wj-link-internal",
                };
                let (name, inter) = match ltype {
                    LinkType::Direct => ("direct", ""),
                    LinkType::Page => ("page", ""),
                    LinkType::Interwiki => ("interwiki", " wj-link-interwiki"),
                    LinkType::Anchor => ("anchor", ""),
                    LinkType::TableOfContents => ("table-of-contents", ""),
                };
                let mut a: A = vec![
                    ("href", Some(format!("{}{}", link_href(link), extra.as_deref().unwrap_or("")))),
                    ("class", Some(format!("wj-link {class}{inter}"))),
                    ("data-link-type", s(name)),
                ];
                if let Some(t) = target {
                    a.push(("target", s(target_attr(t))));
                }
                out.push(el("a", a, txt(&link_label(&self.info.site, link, label))));
            }
            Element::Image { source, link, alignment, attributes } => {
                let url = match source {
                    ImageSource::Url(u) => Some(u.to_string()),
                    _ if !self.st.allow_local_paths => None,
                    ImageSource::File1 { file } => Some((&*self.info.site, &*self.info.page, &**file)).map(file_url),
                    ImageSource::File2 { page, file } => Some((&*self.info.site, &**page, &**file)).map(file_url),
                    ImageSource::File3 { site, page, file } => Some((&**site, &**page, &**file)).map(file_url),
                };
                match url {
                    None => out.push(el("div", cls("wj-error-block"), txt("No images in this context"))),
                    Some(url) => {
                        let mut img = elm(
                            "img",
                            vec![("class", s("wj-image")), ("src", Some(url)), ("crossorigin", None)],
                            attributes,
                            vec![],
                        );
                        if let Some(l) = link {
                            img = el("a", vec![("href", Some(link_href(l)))], vec![img]);
                        }
                        let class = match alignment {
                            Some(f) => format!("wj-image-container {}", float_class(f)),
                            None => "wj-image-container".to_string(),
                        };
                        out.push(el("div", cls(&class), vec![img]));
                    }
                }
            }
            Element::List { ltype, attributes, items } => {
                let mut kids = vec![];
                for i in items {
                    match i {
                        ListItem::Elements { attributes, elements } => {
                            let k = self.els(elements);
                            kids.push(elm("li", vec![], attributes, k));
                        }
                        ListItem::SubList { element } => self.one(element, &mut kids),
                    }
                }
                out.push(elm(if *ltype == ListType::Numbered { "ol" } else { "ul" }, vec![], attributes, kids));
            }
            Element::DefinitionList(items) => {
                let mut kids = vec![];
                for i in items {
                    let k = self.els(&i.key_elements);
                    kids.push(el("dt", vec![], k));
                    let v = self.els(&i.value_elements);
                    kids.push(el("dd", vec![], v));
                }
                out.push(el("dl", vec![], kids));
            }
            Element::RadioButton { name, checked, attributes } => {
                let mut a: A = vec![("name", Some(name.to_string())), ("type", s("radio"))];
                if *checked {
                    a.push(("checked", None));
                }
                out.push(elm("input", a, attributes, vec![]));
            }
            Element::CheckBox { checked, attributes } => {
                let mut a: A = vec![("type", s("checkbox"))];
                if *checked {
                    a.push(("checked", None));
                }
                out.push(elm("input", a, attributes, vec![]));
            }
            Element::Collapsible { elements, attributes, start_open, show_text, hide_text, show_top, show_bottom } => {
                let mut a = cls("wj-collapsible");
                for (k, b) in [("open", start_open), ("data-show-top", show_top), ("data-show-bottom", show_bottom)] {
                    if *b {
                        a.push((k, None));
                    }
                }
                let show = show_text.as_deref().unwrap_or("+ open block");
                let hide = hide_text.as_deref().unwrap_or("- hide block");
                let hide_node = || el("span", cls("wj-collapsible-hide-text"), txt(hide));
                let body = self.els(elements);
                let mut kids = vec![
                    el(
                        "summary",
                        cls("wj-collapsible-button wj-collapsible-button-top"),
                        vec![el("span", cls("wj-collapsible-show-text"), txt(show)), hide_node()],
                    ),
                    el("div", cls("wj-collapsible-content"), body),
                ];
                if *show_bottom {
                    kids.push(el(
                        "wj-collapsible-button-bottom",
                        cls("wj-collapsible-button wj-collapsible-button-bottom"),
                        vec![hide_node()],
                    ));
                }
                out.push(elm("details", a, attributes, kids));
            }
            Element::TableOfContents { attributes, align } => {
                let t = self.st.use_true_ids;
                let id = |x: &str| -> A<'static> { if t { vec![("id", Some(x.to_string()))] } else { vec![] } };
                let mut a = id("wj-toc");
                if let Some(al) = align {
                    a.push(("class", Some(format!("wj-float-{}", align_name(*al)))));
                }
                let list = self.els(&self.tree.table_of_contents);
                let kids = vec![
                    el(
                        "div",
                        id("wj-toc-action-bar"),
                        vec![el(
                            "a",
                            vec![("href", s("javascript:;")), ("onclick", s("WIKIJUMP.page.listeners.foldToc(event)"))],
                            vec![],
                        )],
                    ),
                    el("div", cls("title"), txt("Table of Contents")),
                    el("div", id("wj-toc-list"), list),
                ];
                out.push(elm("div", a, attributes, kids));
            }
            Element::Footnote => {
                if self.cite {
                    return;
                }
                self.note += 1;
                let n = self.note;
                let label = format!("Footnote {n}.");
                let body = self.tree.footnotes.get(n - 1);
                let body = match body {
                    Some(b) => self.els(b),
                    None => vec![Node::Text("MISSING FOOTNOTE".into())],
                };
                out.push(el(
                    "span",
                    cls("wj-footnote-ref"),
                    vec![
                        el(
                            "wj-footnote-ref-marker",
                            vec![
                                ("class", s("wj-footnote-ref-marker")),
                                ("role", s("link")),
                                ("aria-label", s(&label)),
                                ("data-id", Some(n.to_string())),
                            ],
                            txt(&n.to_string()),
                        ),
                        el(
                            "span",
                            vec![("class", s("wj-footnote-ref-tooltip")), ("aria-hidden", s("true"))],
                            vec![
                                el("span", cls("wj-footnote-ref-tooltip-label"), txt(&label)),
                                el("span", cls("wj-footnote-ref-contents"), body),
                            ],
                        ),
                    ],
                ));
            }
            Element::FootnoteBlock { title, hide } => {
                if *hide || self.cite || self.tree.footnotes.is_empty() {
                    return;
                }
                let mut items = vec![];
                self.list = true;
                for (i, f) in self.tree.footnotes.iter().enumerate() {
                    let n = (i + 1).to_string();
                    let mut marker = txt(&n);
                    marker.push(el("span", cls("wj-footnote-sep"), txt(".")));
                    let body = self.els(f);
                    items.push(el(
                        "li",
                        vec![("class", s("wj-footnote-list-item")), ("data-id", Some(n))],
                        vec![
                            el(
                                "wj-footnote-list-item-marker",
                                vec![("class", s("wj-footnote-list-item-marker")), ("type", s("button")), ("role", s("link"))],
                                marker,
                            ),
                            el("span", cls("wj-footnote-list-item-contents"), body),
                        ],
                    ));
                }
                self.list = false;
                out.push(el(
                    "div",
                    cls("wj-footnote-list"),
                    vec![el("div", cls("wj-title"), txt(title.as_deref().unwrap_or("Footnotes"))), el("ol", vec![], items)],
                ));
            }
            Element::BibliographyCite { label, brackets } => {
                let found = bib_lookup(self.tree, label);
                match found {
                    None => out.push(el("span", cls("wj-error-inline"), txt("Bibliography item not found"))),
                    Some((_, n, body)) => {
                        let text = format!("Reference {n}.");
                        let mut kids = vec![];
                        if *brackets {
                            kids.extend(txt("["));
                        }
                        kids.push(el(
                            "wj-bibliography-ref-marker",
                            vec![
                                ("class", s("wj-bibliography-ref-marker")),
                                ("role", s("link")),
                                ("aria-label", s(&text)),
                                ("data-id", Some(n.to_string())),
                            ],
                            txt(&n.to_string()),
                        ));
                        if *brackets {
                            kids.extend(txt("]"));
                        }
                        if !self.cite {
                            self.cite = true;
                            let body = self.els(body);
                            self.cite = false;
                            kids.push(el(
                                "span",
                                vec![("class", s("wj-bibliography-ref-tooltip")), ("aria-hidden", s("true"))],
                                vec![
                                    el("span", cls("wj-bibliography-ref-tooltip-label"), txt(&text)),
                                    el("span", cls("wj-bibliography-ref-contents"), body),
                                ],
                            ));
                        }
                        out.push(el("span", cls("wj-bibliography-ref"), kids));
                    }
                }
            }
            Element::BibliographyBlock { index, title, hide } => {
                if *hide {
                    return;
                }
                let mut kids =
                    vec![el("div", cls("wj-bibliography-title title"), txt(title.as_deref().unwrap_or("Bibliography")))];
                for (i, (_, body)) in self.tree.bibliographies.get_bibliography(*index).slice().iter().enumerate() {
                    let (b, e) = (index + 1, i + 1);
                    let mut marker = txt(&e.to_string());
                    marker.push(el("span", cls("wj-bibliography-sep"), txt(".")));
                    let mut k = vec![el(
                        "wj-bibliography-item-marker",
                        vec![("class", s("wj-bibliography-item-marker")), ("type", s("button")), ("role", s("link"))],
                        marker,
                    )];
                    k.extend(self.els(body));
                    kids.push(el(
                        "div",
                        if self.st.use_true_ids {
                            vec![
                                ("class", s("wj-bibliography-item bibitem")),
                                ("id", Some(format!("wj-bibliography-item-{b}-{e} bibitem-{b}-{e}"))),
                            ]
                        } else {
                            cls("wj-bibliography-item bibitem")
                        },
                        k,
                    ));
                }
                out.push(el("div", cls("wj-bibliography bibitems"), kids));
            }
            Element::User { name, show_avatar } => {
                let mut kids = vec![];
                if *show_avatar {
                    kids.push(el("span", vec![("class", s("wj-karma")), ("data-karma", s("5"))], vec![sprite("wj-karma")]));
                    kids.push(el(
                        "img",
                        vec![
                            ("class", s("wj-user-info-avatar")),
                            ("src", Some(ftml::data::UserInfo::dummy().user_avatar_data.to_string())),
                        ],
                        vec![],
                    ));
                }
                kids.push(el("span", cls("wj-user-info-name"), txt(name)));
                out.push(el(
                    "span",
                    cls("wj-user-info"),
                    vec![el(
                        "a",
                        vec![("class", s("wj-user-info-link")), ("href", Some(format!("/user:info/{name}")))],
                        kids,
                    )],
                ));
            }
            Element::Date { value, hover, .. } => {
                out.push(el(
                    "span",
                    vec![
                        ("class", s(if *hover { "wj-date wj-date-hover" } else { "wj-date" })),
                        ("data-timestamp", Some(instant(value).0.to_string())),
                        ("data-delta", s("*")),
                    ],
                    txt(&date_text(value)),
                ));
            }
            Element::Color { color, elements } => {
                let kids = self.els(elements);
                out.push(el("span", vec![("style", Some(format!("color: {color};")))], kids));
            }
            Element::Code { contents, language } => {
                let lang = language.as_deref();
                let mut class = format!("wj-code wj-language-{}", lang.unwrap_or("none"));
                class.make_ascii_lowercase();
                out.push(el(
                    "wj-code",
                    cls(&class),
                    vec![
                        el(
                            "div",
                            cls("wj-code-panel"),
                            vec![
                                el(
                                    "wj-code-copy",
                                    vec![("type", s("button")), ("class", s("wj-code-copy")), ("title", s("Copy to Clipboard"))],
                                    vec![sprite("wj-clipboard"), sprite("wj-clipboard-success")],
                                ),
                                el("span", cls("wj-code-language"), txt(lang.unwrap_or(""))),
                            ],
                        ),
                        el("pre", vec![], vec![el("code", vec![], txt(contents))]),
                    ],
                ));
            }
            Element::Math { name, latex_source } => {
                self.eq += 1;
                let paren = |c: &str, k: &str| {
                    el("span", cls(&format!("wj-equation-paren wj-equation-paren-{k}")), txt(c))
                };
                let mut num = vec![paren("(", "open")];
                num.extend(txt(&self.eq.to_string()));
                num.push(paren(")", "close"));
                let mut a = cls("wj-math wj-math-block");
                if let Some(n) = name {
                    a.push(("data-name", Some(n.to_string())));
                }
                out.push(el("div", a, vec![el("span", cls("wj-equation-number"), num), latex(latex_source), Node::Text("MATH".into())]));
            }
            Element::MathInline { latex_source } => out.push(el(
                "span",
                cls("wj-math wj-math-inline"),
                vec![latex(latex_source), Node::Text("MATH".into())],
            )),
            Element::EquationReference(n) => out.push(el(
                "span",
                cls("wj-equation-ref"),
                vec![
                    el(
                        "wj-equation-ref-marker",
                        vec![("class", s("wj-equation-ref-marker")), ("type", s("button")), ("data-name", Some(n.to_string()))],
                        txt(n),
                    ),
                    el("span", vec![("class", s("wj-equation-ref-tooltip")), ("aria-hidden", s("true"))], vec![]),
                ],
            )),
            Element::Embed(e) => {
                let frame = |url: String, allow: &str| {
                    el(
                        "iframe",
                        vec![("src", Some(url)), ("frameborder", s("0")), ("allow", s(allow)), ("allowfullscreen", None)],
                        vec![],
                    )
                };
                let node = match e {
                    Embed::Youtube { video_id } => frame(
                        format!("https://www.youtube.com/embed/{video_id}"),
                        "accelerometer; autoplay; clipboard-write; encrypted-media; gyroscope; picture-in-picture",
                    ),
                    Embed::Vimeo { video_id } => {
                        frame(format!("https://player.vimeo.com/video/{video_id}"), "autoplay; fullscreen; picture-inpicture")
                    }
                    Embed::GithubGist { username, hash } => {
                        el("script", vec![("src", Some(format!("https://gist.github.com/{username}/{hash}.js")))], vec![])
                    }
                    Embed::GitlabSnippet { snippet_id } => {
                        el("script", vec![("src", Some(format!("https://gitlab.com/-/snippets/{snippet_id}.js")))], vec![])
                    }
                };
                out.push(el("div", cls("wj-embed"), vec![node]));
            }
            Element::Html { .. } => {
                out.push(el("iframe", vec![("src", s("https://example.com/")), ("crossorigin", None)], vec![]))
            }
            Element::Iframe { attributes, url } => {
                out.push(elm("iframe", vec![("src", Some(url.to_string())), ("crossorigin", None)], attributes, vec![]))
            }
            Element::Include { variables, elements, .. } => {
                self.scopes.push(variables);
                let kids = self.els(elements);
                out.extend(kids);
                self.scopes.pop();
            }
            Element::Style(_) => {}
            Element::LineBreak => out.push(el("br", vec![], vec![])),
            Element::LineBreaks(n) => {
                for _ in 0..n.get() {
                    out.push(el("br", vec![], vec![]));
                }
            }
            Element::ClearFloat(c) => {
                let k = match c {
                    ClearFloat::Left => "left",
                    ClearFloat::Right => "right",
                    ClearFloat::Both => "both",
                };
                out.push(el("div", cls(&format!("wj-clear-float wj-clear-float-{k}")), vec![]));
            }
            Element::HorizontalRule => out.push(el("hr", vec![], vec![])),
            Element::Partial(_) => out.push(Node::Text("PARTIAL".into())),
        }
    }

    fn variable(&self, n: &str) -> String {
        for sc in self.scopes.iter().rev() {
            if let Some(v) = sc.get(n) {
                return v.to_string();
            }
        }
        format!("{{${n}}}")
    }

    fn container(&mut self, c: &'x Container<'t>, out: &mut Vec<Node>) {
        use ContainerType::*;
        let mut a: A = vec![];
        let align;
        let tag = match c.ctype() {
            Bold => "strong",
            Italics => "em",
            Underline => "u",
            Superscript => "sup",
            Subscript => "sub",
            Strikethrough => "s",
            Monospace => {
                a = cls("wj-monospace");
                "code"
            }
            Span | Size => "span",
            Div => "div",
            Mark => "mark",
            Blockquote => "blockquote",
            Insertion => "ins",
            Deletion => "del",
            Hidden => {
                a = cls("wj-hidden");
                "span"
            }
            Invisible => {
                a = cls("wj-invisible");
                "span"
            }
            Ruby => "ruby",
            RubyText => "rt",
            Paragraph => "p",
            Align(x) => {
                align = format!("wj-align-{}", align_name(x));
                a = cls(&align);
                "div"
            }
            Header(h) => {
                if h.has_toc && !self.cite && !self.list {
                    let id = format!("toc{}", self.toc);
                    self.toc += 1;
                    let id = if self.st.use_true_ids { id } else { self.rid() };
                    a.push(("id", Some(id)));
                }
                ["h1", "h2", "h3", "h4", "h5", "h6"][h.level.value() as usize - 1]
            }
        };
        let kids = self.els(c.elements());
        let rt = c.ctype() == RubyText;
        if rt {
            out.push(el("rp", vec![], txt("(")));
        }
        out.push(elm(tag, a, c.attributes(), kids));
        if rt {
            out.push(el("rp", vec![], txt(")")));
        }
    }
}

fn file_url((site, page, file): (&str, &str, &str)) -> String {
    format!("https://{site}.wjfiles.com/local--files/{page}/{file}")
}

fn latex(src: &str) -> Node {
    el("code", vec![("class", s("wj-math-source wj-hidden")), ("aria-hidden", s("true"))], txt(src))
}

/// (bibliography index from 0, entry number from 1, contents)
pub fn bib_lookup<'x, 't>(tree: &'x SyntaxTree<'t>, label: &str) -> Option<(usize, usize, &'x [Element<'t>])> {
    let mut b = 0;
    for bib in bibs(tree) {
        for (i, (l, body)) in bib.iter().enumerate() {
            if l == label {
                return Some((b, i + 1, body));
            }
        }
        b += 1;
    }
    None
}

pub fn bib_count(tree: &SyntaxTree) -> usize {
    // The list type has no length accessor; its serialization does.
    serde_json::to_value(&tree.bibliographies).unwrap().as_array().unwrap().len()
}

pub fn bibs<'x, 't>(tree: &'x SyntaxTree<'t>) -> Vec<&'x [(Cow<'t, str>, Vec<Element<'t>>)]> {
    if tree.bibliographies == BibliographyList::new() {
        return vec![];
    }
    (0..bib_count(tree)).map(|i| tree.bibliographies.get_bibliography(i).slice()).collect()
}

const DAYS: [&str; 7] = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// RFC 2822 text of a timestamp at an offset, by civil calendar arithmetic.
pub fn rfc2822(ts: i64, offset: i64) -> String {
    let t = ts + offset;
    let days = t.div_euclid(86400);
    let secs = t.rem_euclid(86400);
    let (y, m, d) = civil(days);
    let zone = if offset % 60 != 0 {
        format!("{:02}:{:02}:{:02}", offset.abs() / 3600, offset.abs() / 60 % 60, offset.abs() % 60)
    } else {
        format!("{:02}{:02}", offset.abs() / 3600, offset.abs() / 60 % 60)
    };
    format!(
        "{}, {:02} {} {}{:04} {:02}:{:02}:{:02} {}{zone}",
        DAYS[days.rem_euclid(7) as usize],
        d,
        MONTHS[m as usize - 1],
        if y < 0 { "-" } else { "" },
        y.abs(),
        secs / 3600,
        secs / 60 % 60,
        secs % 60,
        if offset < 0 { '-' } else { '+' },
    )
}

pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

/// Seconds since 1970 and the offset; UTC if there is none.
fn instant(v: &DateItem) -> (i64, i64) {
    match v {
        DateItem::Date(d) => ((d.to_julian_day() as i64 - 2440588) * 86400, 0),
        DateItem::DateTime(d) => (d.assume_utc().unix_timestamp(), 0),
        DateItem::DateTimeTz(d) => (d.unix_timestamp(), d.offset().whole_seconds() as i64),
    }
}

pub fn date_text(v: &DateItem) -> String {
    let (ts, off) = instant(v);
    rfc2822(ts, off)
}

/// Replace what the reference does not model (generated MathML, style sheets).
pub fn mask(nodes: &[Node]) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in nodes {
        match n {
            Node::El { tag, .. } if tag == "style" => {}
            Node::El { tag, attrs, kids } => {
                let mut k = mask(kids);
                if n.has_class("wj-math") {
                    let ok = k.last().map_or(false, |l| {
                        l.tag() == "wj-math-ml" && l.has_class("wj-math-ml")
                            || l.tag() == "span" && (l.has_class("wj-error-block") || l.has_class("wj-error-inline"))
                    });
                    if ok {
                        k.pop();
                        k.push(Node::Text("MATH".into()));
                    }
                }
                out.push(Node::El { tag: tag.clone(), attrs: attrs.clone(), kids: k });
            }
            t => out.push(t.clone()),
        }
    }
    out
}

// ---------------------------------------------------------------- text

pub struct TextRef<'x, 't> {
    out: String,
    info: &'x PageInfo<'x>,
    scopes: Vec<&'x HashMap<Cow<'t, str>, Cow<'t, str>>>,
    invisible: usize,
}

pub fn text<'x, 't>(els: &'x [Element<'t>], info: &'x PageInfo<'x>) -> String {
    let mut r = TextRef { out: String::new(), info, scopes: vec![], invisible: 0 };
    r.els(els);
    r.out.trim_matches('\n').to_string()
}

impl<'x, 't> TextRef<'x, 't> {
    fn put(&mut self, s: &str) {
        if self.invisible > 0 {
            for _ in s.chars() {
                self.out.push(' ');
            }
        } else {
            self.out.push_str(s);
        }
    }
    fn nl(&mut self) {
        self.out.push('\n');
    }
    fn fresh_line(&mut self) {
        if !self.out.ends_with('\n') {
            self.nl();
        }
    }
    fn els(&mut self, e: &'x [Element<'t>]) {
        for x in e {
            self.one(x);
        }
    }
    fn one(&mut self, e: &'x Element<'t>) {
        use ContainerType as C;
        match e {
            Element::Container(c) => match c.ctype() {
                C::Hidden => {}
                C::Invisible => {
                    self.invisible += 1;
                    self.els(c.elements());
                    self.invisible -= 1;
                }
                C::Div | C::Paragraph | C::Blockquote | C::Align(_) | C::Header(_) => {
                    self.nl();
                    self.els(c.elements());
                    self.nl();
                }
                C::RubyText => {
                    self.put("(");
                    self.els(c.elements());
                    self.put(")");
                }
                _ => self.els(c.elements()),
            },
            Element::Text(t) | Element::Raw(t) | Element::Email(t) => self.put(t),
            Element::Variable(n) => {
                let v = self.scopes.iter().rev().find_map(|m| m.get(n)).map(|v| v.to_string());
                let v = v.unwrap_or_else(|| format!("{{${n}}}"));
                self.put(&v);
            }
            Element::Table(t) => {
                self.fresh_line();
                for r in &t.rows {
                    for (i, c) in r.cells.iter().enumerate() {
                        if i > 0 {
                            self.put(" ");
                        }
                        self.els(&c.elements);
                    }
                    self.nl();
                }
                self.nl();
            }
            Element::TabView(tabs) => {
                self.fresh_line();
                for t in tabs {
                    self.put(&t.label);
                    self.nl();
                    self.els(&t.elements);
                    self.nl();
                }
            }
            Element::Anchor { elements, .. } | Element::Color { elements, .. } => self.els(elements),
            Element::Collapsible { elements, .. } => {
                self.fresh_line();
                self.els(elements);
                self.fresh_line();
            }
            Element::HorizontalRule | Element::ClearFloat(_) => self.fresh_line(),
            Element::Link { link, label, .. } => {
                let l = link_label(&self.info.site, link, label);
                self.put(&l);
            }
            Element::List { items, .. } => {
                self.fresh_line();
                for i in items {
                    match i {
                        ListItem::SubList { element } => self.one(element),
                        ListItem::Elements { elements, .. } if elements.is_empty() => {}
                        ListItem::Elements { elements, .. } => {
                            self.els(elements);
                            self.nl();
                        }
                    }
                }
            }
            Element::DefinitionList(items) => {
                self.fresh_line();
                for i in items {
                    self.els(&i.key_elements);
                    self.put(" ");
                    self.els(&i.value_elements);
                    self.nl();
                }
                self.nl();
            }
            Element::User { name, .. } => self.put(name),
            Element::Date { value, .. } => {
                let t = date_text(value);
                self.put(&t);
            }
            Element::Code { contents, .. } => {
                self.nl();
                self.put(contents);
                self.nl();
            }
            Element::EquationReference(n) => {
                let t = format!("[{n}]");
                self.put(&t);
            }
            Element::Include { variables, elements, .. } => {
                self.scopes.push(variables);
                self.els(elements);
                self.scopes.pop();
            }
            Element::LineBreak => self.nl(),
            Element::LineBreaks(n) => {
                for _ in 0..n.get() {
                    self.nl();
                }
            }
            Element::Partial(_) => self.put("PARTIAL"),
            _ => {}
        }
    }
}
