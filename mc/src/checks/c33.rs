//! C33 HTML output is the documented image of the syntax tree; C32 text output likewise;
//! C11 HTML output is well formed.
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html;
use crate::refrender;
use std::sync::Arc;

pub fn compare_html(tree: &ftml::tree::SyntaxTree<'_>, st: &ftml::settings::WikitextSettings, cx: &mut Cx) -> Result<(), String> {
    compare_html_in(tree, &page_info(), st, cx)
}

pub fn compare_html_in(
    tree: &ftml::tree::SyntaxTree<'_>,
    info: &ftml::data::PageInfo<'_>,
    st: &ftml::settings::WikitextSettings,
    cx: &mut Cx,
) -> Result<(), String> {
    let out = html_of(tree, info, st);
    let dom = html::parse(&out.body).map_err(|e| format!("output is not well formed: {e}\n{}", out.body))?;
    let mut r = refrender::Ref::new(tree, info, st);
    let want = html::canon(&r.body());
    let got = html::canon(&refrender::mask(&dom));
    cx.runs += 1;
    cx.state(&got);
    if want != got {
        return Err(format!("HTML differs from the rendering of the tree: {}", html::diff(&want, &got)));
    }
    let links = |v: &[ftml::data::PageRef]| v.iter().map(|p| format!("{:?}:{}", p.site.as_deref(), p.page)).collect::<Vec<_>>();
    if links(&out.backlinks.internal_links) != r.internal {
        return Err(format!("internal links: expected {:?}, found {:?}", r.internal, links(&out.backlinks.internal_links)));
    }
    if out.backlinks.external_links != r.external {
        return Err(format!("external links: expected {:?}, found {:?}", r.external, out.backlinks.external_links));
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct canonical DOMs; every document's HTML is compared node by node with a reference rendering of its syntax tree");
    let f: corpus::DocFn = Arc::new(|doc, cx| {
        page(doc, |_, tree, _| {
            if tree.elements.len() > 2 {
                cx.nontrivial(doc);
            }
            compare_html(tree, &page_settings(), cx)
        })
    });
    c.families = corpus::standard(thorough, f.clone());
    c.families.extend(super::c25::keyed(2 + thorough as usize, &f));
    c
}

pub fn check_text(thorough: bool) -> Check {
    let mut c = Check::new("distinct text renderings; every document's text output is compared with a reference rendering of its syntax tree");
    let f: corpus::DocFn = Arc::new(|doc, cx| {
        page(doc, |_, tree, _| {
            let info = page_info();
            let got = text_of(tree, &info, &page_settings());
            let want = refrender::text(&tree.elements, &info);
            cx.runs += 1;
            cx.state(&got);
            if want != got {
                return Err(format!("text output: expected {want:?}, found {got:?}"));
            }
            Ok(())
        })
    });
    c.families = corpus::standard(thorough, f.clone());
    c.families.extend(super::c25::keyed(2 + thorough as usize, &f));
    c
}
