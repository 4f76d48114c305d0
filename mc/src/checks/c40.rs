//! C40: images, against the reference parser and renderer (see grammar), and what may follow a page's name in their links.
use super::grammar::*;
use super::*;
use crate::doc::*;
use crate::html;
use ftml::prelude::*;
use ftml::data::PageInfo;
use std::borrow::Cow;

const NAMES: &[&str] = &["image", "=image", "<image", ">image", "f<image", "f>image", "IMAGE", "F>Image", "_image", "f=image", "image_", "*image", "f<<image", "=IMAGE"];
const SOURCES: &[&str] = &[
    "x.png", "/x.png", "p/x.png", "/p/x.png", "s/p/x.png", "/s/p/x.png", "a/s/p/x.png", "//x.png", "//a.b/x.png", "/", "//", "///", "////", "p/", "p//", "/p/", "Some Page/X Y.png", "cat:p/x.png", ":s:p/x.png", "http://a.b/x.png", "https://a.b/x.png?y=1&z=2#w", "http:x", "ftp://a.b/x", "mailto:a@b", "HTTP://a.b/x.png", "data:image/png;base64,AA",
    "javascript:alert(1)", "x.png#y", "x.png?y", "é.png", "a&b.png", "a<b>.png", "../x.png", "./x.png", "..", "x", "**x**", "@@x@@", "{$v}", "\"x.png\"", "'x'", "x=y", "x=\"y\"", "flickr:1", "gravatar:x", "", "...", "--", "<<x", "a|b", "blob:x", "file://x", "%2e%2e/x", "a\\b",
];
const ALIGN: usize = 14;
const ARGS: &[&str] = &[
    "", " ", " alt=\"a\"", " alt=\"\"", " alt=\"a<b>&'\"", " title=\"t\" alt=\"a\"", " width=\"10\"", " width=\"10px\" height=\"20\"", " style=\"width: 10px\"", " class=\"c d\"", " id=\"i\"", " ALT=\"a\"", " src=\"y.png\"", " href=\"/y\"", " crossorigin=\"anonymous\"", " onload=\"x\"", " data-x=\"y\"", " aria-label=\"l\"", " size=\"small\"",
    " align=\"left\"", " alt", " alt=a", " alt=\"a", " hidden=\"true\"", " hidden=\"false\"", " loading=\"lazy\"", " alt=\"a\" alt=\"b\"", " class=\"wj-image\"", " link=\"\"", " LINK=\"p\"", " usemap=\"#m\"", " ismap=\"true\"", "  alt = \"a\" ", "\nalt=\"a\"", " alt=\"a\nb\"", " alt=\"é\\\"\\n\"", " srcset=\"a 2x\"",
];
const LINKS: &[&str] = &[
    "p", "Some Page", "cat:p", "_default:p", ":s:p", ":s:cat:p", ": s : p ", ":s", "::p", ":", "p/edit", "Some Page/Edit/true", "p#x", "p/edit#x/y#z", "p/", "p#", "/", "/p", "/P/Edit", "//a.b", "#", "#x", "http://a.b", "http://a.b/x y#z", "https://a.b/?x=1&y=2", "mailto:a@b", "javascript:;", "javascript:alert(1)", "JavaScript:x", "data:x", "javascript:x/y", "data:x#y",
    "!wp:x", "!wp:x/y", "!x", "*p", "*http://a.b", " p ", " p /x", "p /x", "é", "a&b", "a<b>", "a\nb", "p/\\\"x", "tel:1", "java script:x", " /x", " #x", "p?x", "..", "../x", "a_b-c.d/e", "",
];
const SURROUND: &[(&str, &str)] = &[
    ("", ""), ("a ", " b"), ("a\n", "\nb"), ("* ", "\n* b"), ("|| ", " || b ||"), ("> ", "\n> b"), ("**", "**"), ("//a ", "//"), ("[[div]]\n", "\n[[/div]]"), ("[[span]]", "[[/span]]"), ("[[=]]\n", "\n[[/=]]"), ("+ ", ""), (": ", " : c"), (": c : ", ""), ("[[a href=\"/y\"]]", "[[/a]]"), ("[[[p|", "]]]"), ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[!--", "--]"), ("@@", "@@"), ("[[footnote]]", "[[/footnote]]"), ("[[ul]][[li]]", "[[/li]][[/ul]]"), ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]"), ("[[code]]\n", "\n[[/code]]"), ("##red|", "##"), ("[[size 2em]]", "[[/size]]"), ("= ", ""), ("[[iftags tale]]", "[[/iftags]]"),
];
const TOKENS: &[&str] = &["/", "x", "p.png", " ", ":", "http://", "#", "?", ".", "=", "\"", "link=\"y\"", "alt=\"z\"", "]]", "[[", "é", "\n"];

fn infos() -> Vec<PageInfo<'static>> {
    [("some-page", "sandbox"), ("cat:p", "www"), ("Some Page", "s"), ("é", "x-y"), ("p/q", "s"), ("", "")]
        .into_iter()
        .map(|(p, s)| PageInfo { page: Cow::Borrowed(p), site: Cow::Borrowed(s), ..page_info() })
        .collect()
}

fn with_paths(mode: WikitextMode, paths: bool) -> WikitextSettings {
    WikitextSettings { allow_local_paths: paths, ..settings(mode) }
}

fn product(name: &str, bound: &str, dims: &[usize], make: impl Fn(&[usize]) -> String + Send + Sync + Clone + 'static) -> Family {
    let m = make.clone();
    product_family(name, bound, dims, Box::new(make), move |ix, cx| compare(&m(ix), cx))
}

/// Where an image with this link leads, by its HTML.
fn leads(link: &str) -> Result<Option<String>, String> {
    let doc = format!("[[image x.png link=\"{link}\"]]");
    page(&doc, |_, tree, _| {
        let dom = html::parse(&html_of(tree, &page_info(), &page_settings()).body).map_err(|e| format!("not well formed: {e}"))?;
        Ok(html::by_tag(&dom, "a").first().and_then(|a| a.attr("href").map(str::to_string)))
    })
}

pub fn check(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new("distinct canonical DOMs; every document's HTML is compared with the reference rendering of what the reference grammar makes of its text");
    c.at_least = vec![("image", 10_000)];
    c.families.push(product("sources", "names x sources x arguments", &[ALIGN, SOURCES.len(), ARGS.len()], |ix| format!("[[{} {}{}]]", NAMES[ix[0]], SOURCES[ix[1]], ARGS[ix[2]])));
    c.families.push(product("links", "names x sources x links x arguments before and after", &[7, SOURCES.len() / 3, LINKS.len(), 4], |ix| {
        let (n, s, l) = (NAMES[ix[0]], SOURCES[ix[1] * 3], LINKS[ix[2]]);
        match ix[3] {
            0 => format!("[[{n} {s} link=\"{l}\"]]"),
            1 => format!("[[{n} {s} alt=\"a\" link=\"{l}\"]]"),
            2 => format!("[[{n} {s} link=\"{l}\" class=\"c\"]]"),
            _ => format!("[[{n} {s} link=\"{l}\" link=\"z\"]]"),
        }
    }));
    c.families.push(product("argument pairs", "all ordered pairs of arguments x links", &[ARGS.len(), ARGS.len(), 3], |ix| format!("[[f<image x.png{}{}{}]]", ARGS[ix[0]], ARGS[ix[1]], ["", " link=\"p\"", " link=\":s:p\""][ix[2]])));
    c.families.push(product("link pairs", "all ordered pairs of parts of a link", &[LINKS.len(), LINKS.len()], |ix| format!("[[image x.png link=\"{}{}\"]]", LINKS[ix[0]], LINKS[ix[1]])));
    c.families.push(product("surroundings", "surroundings x names x sources x links", &[SURROUND.len(), 7, 12, 6], |ix| {
        let (p, q) = SURROUND[ix[0]];
        format!("{p}[[{} {}{}]]{q}", NAMES[ix[1]], SOURCES[ix[2] * 2], ["", " link=\"p/x\"", " link=\"http://a.b\" alt=\"l\"", " style=\"color: red\"", " class=\"c\" id=\"i\"", " link=\":s:p\""][ix[3]])
    }));
    c.families.push(product("two images", "all ordered pairs of images x what is between", &[NAMES.len(), NAMES.len(), SOURCES.len() / 2, 5], |ix| {
        let s = SOURCES[ix[2] * 2 + 1];
        format!("[[{} x.png]]{}[[{} {s}]]", NAMES[ix[0]], ["", " ", "\n", "\n\n", " b "][ix[3]], NAMES[ix[1]])
    }));
    // where it is
    let n = MODES.len();
    let place = move |ix: &[usize]| {
        let doc = format!("[[{} {}{}]]", NAMES[ix[3]], SOURCES[ix[4]], ["", " link=\"p/edit\"", " link=\":s:p\" alt=\"a\""][ix[5]]);
        (doc, infos().swap_remove(ix[0]), with_paths(MODES[ix[1]], ix[2] == 0))
    };
    c.families.push(product_family(
        "places",
        "pages and sites x modes x local paths allowed or not x names x sources x links",
        &[infos().len(), n, 2, 4, SOURCES.len(), 3],
        Box::new(move |ix| {
            let (doc, info, st) = place(ix);
            format!("{doc} on {}:{} in mode {:?}, local paths {}", info.site, info.page, st.mode, st.allow_local_paths)
        }),
        move |ix, cx| {
            let (doc, info, st) = place(ix);
            compare_on(&doc, &info, &st, &st, cx, |_, _, _, _| Ok(()))
        },
    ));
    for around in [("[[image ", "]]"), ("[[f>image ", " link=\"y\"]]"), ("[[image x/", " alt=\"a\"]] b")] {
        c.families.extend(words("tokens", TOKENS, 4 + x, &[around]));
    }
    c.families.extend(words("link tokens", &["/", "#", ":", "p", " ", "s", "!", "http://", "javascript", ".", "é", "?"], 4 + x, &[("[[image x.png link=\"", "\"]]")]));
    c.families.extend(words("heads", &["image", "[[", "]]", " ", "x.png", "=", "<", ">", "f", "*", "_", "link=\"p\"", "\n", "|", "a"], 5 + x, PLAIN));
    // An image's link leads where the same link would lead as text.
    const PLACES: &[&str] = &["p", "Some Page", "cat:p", ":s:p", ":s:cat:p"];
    const EXTRA: &[&str] = &["", "/edit", "/edit/true", "#x", "/edit#x", "/Edit", "/"];
    let make = |ix: &[usize]| format!("{}{}", PLACES[ix[0]], EXTRA[ix[1]]);
    c.families.push(product_family("links as in text", "pages x what may follow their name, compared with the link [[[address|text]]]", &[PLACES.len(), EXTRA.len()], Box::new(make), move |ix, cx| {
        let link = make(ix);
        cx.state(&link);
        let image = leads(&link)?;
        let text = page(&format!("[[[{link}|x]]]"), |_, tree, _| {
            let dom = html::parse(&html_of(tree, &page_info(), &page_settings()).body).map_err(|e| format!("not well formed: {e}"))?;
            Ok::<_, String>(html::by_tag(&dom, "a").first().and_then(|a| a.attr("href").map(str::to_string)))
        })?;
        if image != text {
            return Err(format!("the image leads to {image:?}, the link to {text:?}"));
        }
        Ok(())
    }));
    c
}
