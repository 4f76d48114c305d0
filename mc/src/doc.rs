//! Thin driver around ftml's public pipeline.
use ftml::data::PageInfo;
use ftml::layout::Layout;
use ftml::parsing::ParseError;
use ftml::prelude::*;
use ftml::render::html::{HtmlOutput, HtmlRender};
use ftml::render::text::TextRender;
use std::borrow::Cow;

pub const MODES: [WikitextMode; 5] = [
    WikitextMode::Page,
    WikitextMode::Draft,
    WikitextMode::ForumPost,
    WikitextMode::DirectMessage,
    WikitextMode::List,
];
pub const LAYOUTS: [Layout; 2] = [Layout::Wikidot, Layout::Wikijump];

pub fn page_info() -> PageInfo<'static> {
    PageInfo {
        page: Cow::Borrowed("some-page"),
        category: None,
        site: Cow::Borrowed("sandbox"),
        title: Cow::Borrowed("A page"),
        alt_title: None,
        score: ScoreValue::Integer(69),
        tags: vec![Cow::Borrowed("tale"), Cow::Borrowed("_cc")],
        language: Cow::Borrowed("default"),
    }
}

pub fn settings(mode: WikitextMode) -> WikitextSettings {
    WikitextSettings::from_mode(mode, Layout::Wikidot)
}

pub fn page_settings() -> WikitextSettings {
    settings(WikitextMode::Page)
}

/// Run `f` on the parse of `text` (already preprocessed or not, as given).
pub fn with_parse<T>(
    text: &str,
    info: &PageInfo<'_>,
    st: &WikitextSettings,
    f: impl FnOnce(&ftml::Tokenization<'_>, &SyntaxTree<'_>, &[ParseError]) -> T,
) -> T {
    let tok = ftml::tokenize(text);
    let (tree, errors) = ftml::parse(&tok, info, st).into();
    f(&tok, &tree, &errors)
}

/// Preprocess + parse in Page mode.
pub fn page<T>(text: &str, f: impl FnOnce(&str, &SyntaxTree<'_>, &[ParseError]) -> T) -> T {
    let mut s = text.to_string();
    ftml::preprocess(&mut s);
    with_parse(&s, &page_info(), &page_settings(), |_, tree, errs| f(&s, tree, errs))
}

pub fn html_of(tree: &SyntaxTree<'_>, info: &PageInfo<'_>, st: &WikitextSettings) -> HtmlOutput {
    HtmlRender.render(tree, info, st)
}

pub fn text_of(tree: &SyntaxTree<'_>, info: &PageInfo<'_>, st: &WikitextSettings) -> String {
    TextRender.render(tree, info, st)
}

pub fn show_stdin() {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    page(&s, |pre, tree, errs| {
        println!("preprocessed: {pre:?}\ntree: {tree:#?}\nerrors: {errs:?}");
        let h = html_of(tree, &page_info(), &page_settings());
        println!("html: {}\nbacklinks: {:?}", h.body, h.backlinks);
        println!("text: {:?}", text_of(tree, &page_info(), &page_settings()));
    })
}

/// Randomly generated identifiers numbered in order of appearance.
pub fn derandom(s: &str) -> String {
    let mut out = String::new();
    let mut seen: Vec<&str> = Vec::new();
    let mut rest = s;
    while let Some(p) = rest.find("wj-id-") {
        let (a, b) = rest.split_at(p);
        out.push_str(a);
        let id = b.get(6..22).filter(|r| r.bytes().all(|c| c.is_ascii_alphanumeric()));
        match id {
            Some(id) => {
                let n = seen.iter().position(|x| *x == id).unwrap_or_else(|| {
                    seen.push(id);
                    seen.len() - 1
                });
                out.push_str(&format!("wj-random-{n}"));
                rest = &b[22..];
            }
            None => {
                out.push_str("wj-id-");
                rest = &b[6..];
            }
        }
    }
    out.push_str(rest);
    out
}
