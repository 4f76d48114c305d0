//! C11: every body is well formed, with user text escaped exactly once, and so is the metadata.
use super::*;
use crate::corpus;
use crate::doc::*;
use crate::html;
use crate::templates::TEXT_HOLES;
use ftml::data::{PageInfo, ScoreValue};
use ftml::render::html::HtmlMetaType;
use std::borrow::Cow;
use std::sync::Arc;

const EVIL: &[&str] = &["<", ">", "&", "'", "\"", "a", " ", "/", "=", "\\", "lt;", "é"];

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '\'' => o.push_str("&#39;"),
            '"' => o.push_str("&quot;"),
            '\0' => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn meta_check(info: &PageInfo<'_>, st: &ftml::settings::WikitextSettings, cx: &mut Cx) -> Result<(), String> {
    with_parse("x", info, st, |_, tree, _| {
        let out = html_of(tree, info, st);
        let desc = match &info.alt_title {
            Some(a) => format!("{} - {a}", info.title),
            None => info.title.to_string(),
        };
        let got: Vec<(String, String, String, String)> = out
            .meta
            .iter()
            .map(|m| {
                let mut r = String::new();
                m.render(&mut r);
                let k = match m.tag_type {
                    HtmlMetaType::Name => "name",
                    HtmlMetaType::HttpEquiv => "http-equiv",
                    HtmlMetaType::Property => "property",
                };
                (k.to_string(), m.name.clone(), m.value.clone(), r)
            })
            .collect();
        let generator = got.get(1).map(|g| g.2.clone()).unwrap_or_default();
        if !generator.starts_with("ftml v") && !generator.starts_with("ftml ") {
            return Err(format!("generator is {generator:?}"));
        }
        let want: Vec<(String, String, String, String)> = [
            ("http-equiv", "Content-Type", "text/html".to_string()),
            ("name", "generator", generator),
            ("name", "description", desc),
            ("name", "keywords", info.tags.join(",")),
        ]
        .into_iter()
        .map(|(k, n, v)| {
            let r = format!("<meta {k}=\"{}\" content=\"{}\" />", esc(n), esc(&v));
            (k.to_string(), n.to_string(), v, r)
        })
        .collect();
        cx.runs += 1;
        cx.state(&format!("{got:?}"));
        if want != got {
            return Err(format!("metadata: expected {want:?}, found {got:?}"));
        }
        Ok(())
    })
}

fn info_with(page: &str, cat: Option<&str>, site: &str, title: &str, alt: Option<&str>, tags: &[&str], lang: &str) -> PageInfo<'static> {
    let o = |s: &str| Cow::Owned(s.to_string());
    PageInfo {
        page: o(page),
        category: cat.map(o),
        site: o(site),
        title: o(title),
        alt_title: alt.map(o),
        score: ScoreValue::Integer(1),
        tags: tags.iter().map(|t| o(t)).collect(),
        language: o(lang),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct canonical DOMs (and metadata lists); every output is parsed by a strict HTML parser which admits no unescaped markup character, and the decoded DOM compared with the reference rendering");
    let n = if thorough { 4 } else { 3 };
    for (name, pre, post) in TEXT_HOLES {
        c.families.push(word_family(&format!("hole:{name}"), EVIL, n, pre, post, |doc, w, cx| {
            page(doc, |_, tree, _| {
                if w.len() > 1 {
                    cx.nontrivial(doc);
                }
                super::c33::compare_html(tree, &page_settings(), cx)
            })
        }));
    }
    // Unpreprocessed input, with NUL and control characters.
    for (name, pre, post) in TEXT_HOLES {
        c.families.push(word_family(&format!("unprocessed:{name}"), &["\0", "<", "&", "\t", "\r", "\u{a0}", "\u{200b}", "a"], 2, pre, post, |doc, _, cx| {
            with_parse(doc, &page_info(), &page_settings(), |_, tree, _| super::c33::compare_html(tree, &page_settings(), cx))
        }));
    }
    // Page information as a source of text.
    let evil2 = ["", "a", "<", "&", "\"", "'", ">", "a<b&c\"d'e>f", "&lt;"];
    let k = evil2.len();
    c.families.push(product_family(
        "page-info",
        "9 spellings for each of title, alternative title, tag lists, site, page, language x two layouts",
        &[k, k + 1, k + 2, 4, 2],
        Box::new(move |i| format!("{i:?}")),
        move |i, cx| {
            let tags: Vec<&str> = match i[2] {
                0 => vec![],
                x if x == k + 1 => vec!["a", "<b", "c\"d"],
                x => vec![evil2[x - 1]],
            };
            let alt = i[1].checked_sub(1).map(|x| evil2[x]);
            let odd = ["a", "b<c", "d\"e", "f&g'h"][i[3]];
            let info = info_with(odd, Some(odd), odd, evil2[i[0]], alt, &tags, odd);
            let st = ftml::settings::WikitextSettings::from_mode(MODES[0], LAYOUTS[i[4]]);
            meta_check(&info, &st, cx)?;
            let doc = "[[image x.png]] [[image /p/x.png]] [[[q|]]] [[user u]] [[*user v]] [[[:s:q|]]]\n\n[[footnote]]n[[/footnote]]\n\n[[collapsible]]\nx\n[[/collapsible]]\n[[toc]]\n[[embed youtube x]]\n[[date 1]]\n\n[[bibliography]]\n: a : b\n[[/bibliography]]\n\n((bibcite a)) ((bibcite z))";
            with_parse(doc, &info, &st, |_, tree, _| super::c33::compare_html_in(tree, &info, &st, cx))
        },
    ));
    let pool = ["a", "_cc", "b c", "", "é", "a,b", "-x", "A", "fruit:x", " ", "1"];
    let titles = ["", "T", " ", "_t", "t, u", "T:"];
    let n = pool.len() + 1;
    c.families.push(product_family(
        "metadata",
        "every list of up to 3 tags x titles x alternative titles x languages",
        &[n, n, n, titles.len(), titles.len() + 1, 3],
        Box::new(move |i| format!("{i:?}")),
        move |i, cx| {
            let tags: Vec<&str> = i[..3].iter().filter_map(|x| x.checked_sub(1).map(|x| pool[x])).collect();
            let alt = i[4].checked_sub(1).map(|x| titles[x]);
            let info = info_with("p", None, "s", titles[i[3]], alt, &tags, ["default", "", "xx-YY"][i[5]]);
            meta_check(&info, &page_settings(), cx)
        },
    ));
    // Well-formedness over the general document spaces, in every mode.
    let f: corpus::DocFn = Arc::new(move |doc, cx| {
        let mut s = doc.to_string();
        ftml::preprocess(&mut s);
        for (k, m) in MODES.iter().enumerate() {
            if k == 0 || k == 2 || (thorough && k == 1) {
                let st = settings(*m);
                with_parse(&s, &page_info(), &st, |_, tree, _| {
                    let out = html_of(tree, &page_info(), &st);
                    cx.runs += 1;
                    html::parse(&out.body).map(|_| ()).map_err(|e| format!("mode {m:?}: output is not well formed: {e}\n{}", out.body))
                })?;
            }
        }
        Ok(())
    });
    c.families.extend(corpus::words(&[], if thorough { 4 } else { 3 }, &f));
    c.families.extend(corpus::nested(&[], 2, &f));
    c.families.extend(corpus::scale(thorough, &f));
    c
}
