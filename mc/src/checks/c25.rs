//! C24 links and C25 blocks, against the reference parser (see grammar).
use super::grammar::*;
use super::*;
use crate::corpus;
use crate::refparse::blocks::FORMS;

const RULE: &str = "distinct canonical DOMs; every document's HTML, recorded links, code and HTML blocks are compared with the reference rendering of what the reference grammar makes of its text";

fn product(name: &str, bound: &str, dims: &[usize], make: impl Fn(&[usize]) -> String + Send + Sync + Clone + 'static) -> Family {
    let m = make.clone();
    product_family(name, bound, dims, Box::new(make), move |ix, cx| compare(&m(ix), cx))
}

const AROUND: &[(&str, &str)] = &[("", ""), ("a ", " b"), ("* ", "\n* b"), ("|| ", " ||"), ("> ", ""), ("**", "**"), ("[[div]]\n", "\n[[/div]]"), ("[[span]]", "[[/span]]"), ("+ ", ""), (": ", " : c"), ("[!--", "--]"), ("@@", "@@")];
const LINK_FORMS: &[(&str, &str)] = &[
    ("[[[", "]]]"), ("[[[*", "]]]"), ("[[[", "|l m]]]"), ("[[[*", "| l ]]]"), ("[[[", "|]]]"), ("[[[", " | ]]]"), ("[[[ ", " ]]]"), ("[[[", "|**l** <&]]]"), ("[", " l m]"), ("[*", " l m]"), ("[", "  l ]"), ("[", "]"), ("[", " ]"), ("[#", " l m]"), ("[", " l\nm]"),
    ("[[[", "|l\nm]]]"), ("[[[", "\n]]]"), ("", ""), ("[[[", "|l|m]]]"), ("[[[", "]"), ("[", "]]]"), ("[[a href=\"", "\"]]l[[/a]]"), ("[[*a href=\"", "\"]]l[[/a]]"), ("[[[", "|[!--x--]l]]]"), ("[[[", "|@@l@@]]]"), ("[[", "]]"),
];
const LOCATIONS: &[&str] = &[
    "page", "Some Page", "cat:page", "Cat: Page", "a:b:c", "_default:x", ":site:page", ":site:cat:page", ": site : page ", ":site", ":site:", "::page", "::", ":", "page/edit", "page/edit/true#x", "page#x", "page#x:y", "page/a:b", "#x", "#x:y", "# x", "#", "/", "/page", "/page#x",
    "/cat:page", "/page/a:b", "//a.b", "/javascript:x", "http://a.b", "http://a.b/c d", "https://a.b/?x=1&y=2#z", "mailto:a@b.c", "ftp://a", "HTTP://a.b", "javascript:alert(1)", "javascript:;", "JAVASCRIPT:;", "data:x", "tel:1", "java script:x", "a@b.c",
    "!wp:x", "!wp:x y:z#w", "!wp:", "!wp", "!:x", "!", "!nope:x", "!WP:x", "!wikipedia:é&<", "!google:a b  c", "!ddg:$$", " !wp:x", "!commons:File:X", "!dictionary:x", "!thesaurus:x", "!duckduckgo:x", "x!wp:y", "é", "a&b<c>\"d", "a_b-c.d", "**x**", "a|b", "a  b", "@@x@@", "{$v}", "...", "-", "*x", "", " ",
];
const LINK_TOKENS: &[&str] = &["[[[", "]]]", "[[", "]]", "[", "]", "[*", "[#", "[[[*", "|", "page", ":", "!wp:", "/", "#", " ", "http://a.b", "\n", "a@b.c", "**", "*", "é", "@@", "[!--x--]"];
pub fn links(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.at_least = vec![("single link", 10_000), ("triple link", 30_000), ("anchor link", 3_000)];
    c.families.push(product("forms", "every link form x every address x every surrounding", &[LINK_FORMS.len(), LOCATIONS.len(), AROUND.len()], |ix| {
        let ((a, b), l, (p, s)) = (LINK_FORMS[ix[0]], LOCATIONS[ix[1]], AROUND[ix[2]]);
        format!("{p}{a}{l}{b}{s}")
    }));
    for (p, s) in [("[[[", "]]]"), ("[[[", "|l]]]"), ("[", " l]"), ("[[[page|", "]]]"), ("[http://a.b ", "]"), ("[#x ", "]"), ("[/x", " l]")] {
        c.families.push(product(&format!("address pairs in {p}..{s}"), "all pairs of address parts", &[LOCATIONS.len(), LOCATIONS.len()], move |ix| format!("{p}{}{}{s}", LOCATIONS[ix[0]], LOCATIONS[ix[1]])));
        c.families.extend(words("link tokens", LINK_TOKENS, 3 + x, &[(p, s)]));
    }
    c.families.push(product("link pairs", "all ordered pairs of links, in order of record", &[8, LOCATIONS.len(), 8, LOCATIONS.len() / 3], |ix| {
        let l = |k: usize, l: usize| format!("{}{}{}", LINK_FORMS[k].0, LOCATIONS[l], LINK_FORMS[k].1);
        format!("{} {}", l(ix[0] + 1, ix[1]), l(ix[2] + 2, ix[3] * 3))
    }));
    c.families.extend(words("link tokens", LINK_TOKENS, 4 + x, PLAIN));
    c.families.extend(words("addresses", &["/", "#", ":", "!", "wp", "a", " ", "B", "http://", "_", "-", ".", "é"], 5 + x, &[("[[[", "]]]")]));
    c.families.extend(words("addresses", &["/", "#", ":", "!", "wp", "a", " ", "B", "http://", "_", "-", ".", "é"], 4 + x, &[("[", " l]"), ("[[[", "|]]]"), ("[#", " l]"), ("[[a href=\"", "\"]]l[[/a]]")]));
    c.families.push(chars(&["[[[§]]]", "[[[a§b]]]", "[[[a|§]]]", "[[[a§|b]]]", "[[[§|b]]]", "[§ a]", "[http§//a.b c]", "[http://a§ b]", "[/a§ b]", "[#§ b]", "[#a§b]", "[!wp:§ b]", "[[[!wp:§]]]", "[[[:s§p]]]", "[[[:s:§]]]", "[[[*§a]]]", "http://a.b§", "§http://a.b", "http://a.b/§x", "[http://a.b §]", "[§]", "a§@b.c", "a@b§.c", "a@b.c§", "[[a href=\"§\"]]x[[/a]]", "[[[p#§]]]", "[[[p/§]]]", "[[[a]]§]", "[§[[a]]]"]));
    c.families.push(interwiki());
    edits(&mut c, thorough);
    c
}

/// Every form of interwiki template, which may have any number of places for the path.
const TEMPLATES: &[&str] = &["http://a.b/$$", "$$", "http://a.b/$$?x=$$", "http://a.b/$$$$", "http://a.b/$$$", "http://a.b/", "", "/x y/$$ z", "http://$.b/$", "http://a.b/$$#$$/$$", "é<&$$"];
const PATHS: &[&str] = &["x", "a b", " a  b ", "$$", "x$$y", "$", "a:b", ":", "é", "a#b?c=d&e", "/x", "<i>", "%20", "1", ""];
const PREFIXES: &[&str] = &["w", "W", "w w", "é", "x-y", "wikipedia", "w:", "", "$$"];

fn interwiki() -> Family {
    let show = |ix: &[usize]| format!("{:?} as {:?} with {:?}", PREFIXES[ix[1]], TEMPLATES[ix[0]], PATHS[ix[2]]);
    product_family("interwiki templates", "every prefix x template x path, by the interface and by links", &[TEMPLATES.len(), PREFIXES.len(), PATHS.len()], Box::new(show), |ix, cx| {
        use std::borrow::Cow;
        let (t, k, p) = (TEMPLATES[ix[0]], PREFIXES[ix[1]], PATHS[ix[2]]);
        let mut st = crate::doc::page_settings();
        st.interwiki = ftml::settings::InterwikiSettings { prefixes: [(k, t), ("other", "http://other/$$")].into_iter().map(|(k, t)| (Cow::Borrowed(k), Cow::Borrowed(t))).collect() };
        // A prefix ends at the first colon, so that those which hold one, or nothing, are never found.
        let known = !k.is_empty() && !k.contains(':') && !p.is_empty();
        let want = known.then(|| t.split("$$").collect::<Vec<_>>().join(p).replace(' ', "%20"));
        let got = st.interwiki.build(&format!("{k}:{p}"));
        cx.runs += 1;
        cx.state(&format!("{got:?}"));
        if got != want {
            return Err(format!("{k}:{p} with {t:?} leads to {got:?} instead of {want:?}"));
        }
        if st.interwiki.build("other:z").as_deref() != Some("http://other/z") || st.interwiki.build(k).is_some() && !k.contains(':') {
            return Err("another prefix was taken".into());
        }
        // In links, for addresses that are links at all
        let Some(want) = want.filter(|w| w.starts_with("http://a.b/")) else { return Ok(()) };
        if p.contains(['<', ' ', ':']) || k.contains(' ') {
            return Ok(());
        }
        let text = format!("[[[!{k}:{p} | l]]] [[[!{k}:{p}|**m**]]]");
        crate::doc::with_parse(&text, &crate::doc::page_info(), &st, |_, tree, _| {
            cx.runs += 1;
            cx.nontrivial(&text);
            let out = crate::doc::html_of(tree, &crate::doc::page_info(), &st);
            let dom = crate::html::parse(&out.body)?;
            let links: Vec<(String, String)> = crate::html::by_tag(&dom, "a").iter().map(|n| (n.attr("href").unwrap_or("").to_string(), crate::html::text_of(n.kids()))).collect();
            let expected = vec![(want.clone(), "l".to_string()), (want.clone(), "**m**".to_string())];
            if links != expected {
                return Err(format!("{text:?} with {t:?}: {links:?} instead of {expected:?}"));
            }
            Ok(())
        })
    })
}

/// Every block in a usable form: N is its name, A further arguments, Z its name at the end.
const USES: &[&str] = &[
    "[[NA]]\nx\n[[/Z]]", "[[N]]\nx\n[[/Z]]", "[[NA]]x[[/Z]]", "[[N lab]]", "[[NA]]\n: lab : text\n[[/Z]]", "[[NA]] y", "[[NA]]", "[[N youtube video=\"v\"A]]", "[[N vimeo video=\"v\"]]", "[[N http://x.y/A]]", "[[N tale]]x[[/Z]]", "[[N -tale]]x[[/Z]]", "[[N _default]]x[[/Z]]", "[[N 3]]",
    "[[ul]]\n[[NA]]x[[/Z]]\n[[/ul]]", "[[NA]]\n[[li]]x[[/li]]\n[[/Z]]", "[[NA]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/Z]]", "[[table]]\n[[NA]]\n[[cell]]x[[/cell]]\n[[/Z]]\n[[/table]]", "[[table]]\n[[row]]\n[[NA]]x[[/Z]]\n[[/row]]\n[[/table]]", "[[N]]\n[[tab t]]x[[/tab]]\n[[/Z]]", "[[tabview]]\n[[N t]]x[[/Z]]\n[[/tabview]]",
    "[[NA]]x[[rt]]y[[/rt]][[/Z]]", "[[ruby]]x[[NA]]y[[/Z]][[/ruby]]", "[[N x|y]]", "[[N 120%]]x[[/Z]]", "[[N lab]]\nx = y\n[[/Z]]", "[[N http://x.y/]]\nx\n[[/Z]]", "[[N]]", "[[N ", "[[N]]x", "[[NA]]x", "x[[/Z]]", "a[[footnote]]x[[/footnote]][[NA]]", "[[N name A]] z",
];

fn cased(name: &str, case: usize) -> String {
    match case {
        0 => name.to_string(),
        1 => name.to_ascii_uppercase(),
        _ => name.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// Block heads and their ends, for nesting.
pub const BODIES: &[(&str, &str)] = &[
    ("[[div]]", "[[/div]]"), ("[[div_]]", "[[/div]]"), ("[[span]]", "[[/span]]"), ("[[span_]]", "[[/span_]]"), ("[[blockquote]]", "[[/quote]]"), ("[[=]]", "[[/=]]"), ("[[==]]", "[[/==]]"), ("[[a href=\"/x\"]]", "[[/a]]"), ("[[a_]]", "[[/a_]]"), ("[[bibliography]]", "[[/bibliography]]"), ("[[b]]", "[[/strong]]"),
    ("[[code]]", "[[/code]]"), ("[[collapsible]]", "[[/collapsible]]"), ("[[footnote]]", "[[/footnote]]"), ("[[hidden]]", "[[/hidden]]"), ("[[html]]", "[[/html]]"), ("[[ifcategory _default]]", "[[/ifcategory]]"), ("[[iftags tale]]", "[[/iftags]]"), ("[[iftags -tale]]", "[[/iftags]]"), ("[[math]]", "[[/math]]"), ("[[p class=\"c\"]]", "[[/p]]"),
    ("[[ruby]]", "[[/ruby]]"), ("[[rt]]", "[[/rt]]"), ("[[size 2em]]", "[[/size]]"), ("[[ul]]", "[[/ul]]"), ("[[ol_]]", "[[/ol_]]"), ("[[li]]", "[[/li]]"), ("[[li_]]", "[[/li]]"), ("[[table]]", "[[/table]]"), ("[[row]]", "[[/row]]"), ("[[cell]]", "[[/cell]]"), ("[[hcell]]", "[[/hcell]]"), ("[[tabview]]", "[[/tabs]]"), ("[[tab t]]", "[[/tab]]"),
    ("**", "**"), ("> ", ""), ("* ", ""), ("|| ", " ||"), (": k : ", ""), ("##red|", "##"), ("+ ", ""),
];
pub const PARTIALS: &[(&str, &str)] = &[
    ("[[table]]", "[[/table]]"), ("[[row]]", "[[/row]]"), ("[[cell]]", "[[/cell]]"), ("[[hcell]]", "[[/hcell]]"), ("[[ul]]", "[[/ul]]"), ("[[ol]]", "[[/ol]]"), ("[[li]]", "[[/li]]"), ("[[tabview]]", "[[/tabview]]"), ("[[tab t]]", "[[/tab]]"), ("[[ruby]]", "[[/ruby]]"), ("[[rt]]", "[[/rt]]"), ("[[iftags tale]]", "[[/iftags]]"),
    ("[[ifcategory -x]]", "[[/ifcategory]]"), ("[[span]]", "[[/span]]"), ("[[div]]", "[[/div]]"),
];
const TAGS: &[&str] = &["[[table]]", "[[/table]]", "[[row]]", "[[/row]]", "[[cell]]", "[[/cell]]", "[[hcell]]", "[[/hcell]]", "[[ul]]", "[[/ul]]", "[[li]]", "[[/li]]", "[[tabview]]", "[[/tabview]]", "[[tab t]]", "[[/tab]]", "[[ruby]]", "[[/ruby]]", "[[rt]]", "[[/rt]]", "[[iftags tale]]", "[[/iftags]]", "a", "\n"];

pub fn nestings(name: &str, set: &'static [(&'static str, &'static str)], n: usize, seps: &'static [&'static str], inner: &'static [&'static str], g: corpus::DocFn) -> Family {
    let mut dims = vec![set.len(); n];
    dims.extend([seps.len(), inner.len()]);
    let make = move |ix: &[usize]| {
        let sep = seps[ix[n]];
        let mut d = inner[ix[n + 1]].to_string();
        for &k in ix[..n].iter().rev() {
            let (o, e) = set[k];
            d = format!("{o}{sep}{d}{sep}{e}");
        }
        d
    };
    product_family(name, &format!("all nestings of {n} of {} constructs, separated by each of {seps:?}, around each of {inner:?}", set.len()), &dims, Box::new(make), move |ix, cx| g(&make(ix), cx))
}
fn chains(name: &str, set: &'static [(&'static str, &'static str)], n: usize, seps: &'static [&'static str], inner: &'static [&'static str]) -> Family {
    nestings(name, set, n, seps, inner, f())
}

/// Two constructs next to each other within a third.
fn siblings(seps: &'static [&'static str]) -> Family {
    let n = BODIES.len();
    product("siblings", "every pair of constructs next to each other within every construct", &[n, n, n, seps.len()], move |ix| {
        let (o, e) = BODIES[ix[0]];
        let s = seps[ix[3]];
        let part = |k: usize, c: &str| format!("{}{c}{}", BODIES[k].0, BODIES[k].1);
        format!("{o}{s}{}{s}{}{s}{e}", part(ix[1], "b"), part(ix[2], "c"))
    })
}

const HEAD: &[&str] = &[" ", "\n", "class", "=", "\"a\"", " class=\"b\"", "id", "Class", "data-x", "\"c\\\"d\"", "]]", "x_y", "-", "**", "é", "title=\"\""];
const HEADS: &[(&str, &str)] = &[
    ("[[div", "]]x[[/div]]"), ("[[span ", "]]x[[/span]]"), ("[[image f.png ", "]]"), ("[[iframe http://x.y ", "]]"), ("[[radio n", "]]x"), ("[[checkbox", "]]x"), ("[[ul ", "]][[li]]x[[/li]][[/ul]]"), ("[[embed youtube video=\"v\" ", "]]"), ("[[footnoteblock", "]]"), ("[[code ", "]]x[[/code]]"), ("[[hidden", "]]x[[/hidden]]"),
    ("[[size ", "]]x[[/size]]"), ("[[user ", "]]"), ("[[bibcite ", "]]"), ("[[math ", "]]x[[/math]]"), ("[[tabview]][[tab ", "]]x[[/tab]][[/tabview]]"), ("[[target ", "]]"), ("[[rb ", "]]"), ("[[lines ", "]]"), ("[[html", "]]x[[/html]]"), ("[[footnote", "]]x[[/footnote]]"), ("[[=", "]]x[[/=]]"),
];
const KEYED: &[(&str, &str, &[&str], &[&str])] = &[
    ("[[collapsible", "]]\nx\n[[/collapsible]]", &["show", "hide", "folded", "hideLocation", "HIDELOCATION", "class", "Folded", "other"], &["", "yes", "no", "TRUE", " f ", "top", "bottom", "Both", "neither", "none", "x <y>"]),
    ("[[footnoteblock", "]]", &["title", "hide", "Title", "other", "class"], &["", "yes", "no", "x <y>"]),
    ("[[bibliography", "]]\n: a : b\n[[/bibliography]] [[bibcite a]]", &["title", "hide", "HIDE", "other", "class"], &["", "yes", "no", "0", "x <y>"]),
    ("[[code", "]]\nx\n[[/code]][[code name=\"a\"]]\ny\n[[/code]]", &["type", "Type", "name", "NAME", "class"], &["", "CSS", "a", " A ", "php"]),
    ("[[image f.png", "]]", &["link", "LINK", "alt", "class", "width", "src"], &["", "page", "/x/y", "http://x.y", "#a", "javascript:x", ":s:p"]),
    ("[[embed youtube", "]]", &["video", "VIDEO", "x"], &["", "v", "a\"b", "<x>"]),
    ("[[embed vimeo", "]]", &["video", "video-id"], &["", "v"]),
    ("[[table]][[row]][[cell", "]]x[[/cell]][[/row]][[/table]]", &["colspan", "COLSPAN", "rowspan", "class"], &["", "0", "1", "2", "+3", "-1", "x", "4294967295", "4294967296", " 2"]),
];
/// Pages with up to `n` arguments on each block of `KEYED`.
pub(super) fn keyed(n: usize, f: &crate::corpus::DocFn) -> Vec<Family> {
    let mut v = Vec::new();
    for (p, s, keys, values) in KEYED {
        let pick = move |i: usize| match i.checked_sub(1) {
            None => String::new(),
            Some(i) => format!(" {}=\"{}\"", keys[i / values.len()], values[i % values.len()].replace('"', "\\\"")),
        };
        let make = move |ix: &[usize]| format!("{p}{}{s}", ix.iter().map(|i| pick(*i)).collect::<String>());
        let (m, f) = (make, f.clone());
        let d = vec![keys.len() * values.len() + 1; n];
        v.push(product_family(&format!("arguments of {p}"), "no or some arguments, of all keys and values", &d, Box::new(make), move |ix, cx| f(&m(ix), cx)));
    }
    v
}
const VALUES: &[(&str, &str, &[&str])] = &[
    ("[[lines ", "]]", &["0", "1", "5", "-", "+", " ", "00", "100", "101", "x", "1.5"]),
    ("[[rb ", "]]", &["a", "|", " ", "b", "**", "<", "\n"]),
    ("[[target ", "]]", &["a", " ", "#", "B", "é", "\u{a0}", "|"]),
    ("[[size ", "]]x[[/size]]", &["1", "em", "%", " ", ";", "\"", "x-large", "<"]),
    ("[[user ", "]]", &["a", " ", "*", "B", "é", "<", "|"]),
    ("[[bibcite ", "]]", &["a", " ", "_", "B", ":", "|"]),
    ("[[bibcite_ ", "]]", &["a", " ", "_", "B", ":", "|"]),
    ("[[image ", "]]", &["a.png", "/", " ", ":", "http://x.y", "..", "é", "page"]),
    ("[[iframe ", "]]", &["http://x.y", "/", " ", ":", "a", "https://x"]),
    ("[[iftags ", "]]x[[/iftags]]", &["tale", "+", "-", " ", "_cc", "x", "\n", "tale "]),
    ("[[embed ", " video=\"x\"]]", &["youtube", "Vimeo", " ", "x", "="]),
    ("[[span title=\"", "\"]]x[[/span]]", &["\\", "\"", "'", "n", "r", "t", "a", "$", " ", "é", "\n", "&"]),
    ("[[collapsible show=\"", "\"]]x[[/collapsible]]", &["\\", "\"", "'", "n", "t", "<", " "]),
    ("[[# ", "]]", &["a", " ", "#", "é", "]", "|", "\n"]),
    ("[[$ ", " $]]", &["a", " ", "$", "^", "\n", "]]", "\\frac"]),
    ("((bibcite ", "))", &["a", " ", ")", "(", "é", "\n", "|"]),
    ("((", " a))", &["bibcite", "BIBCITE", " ", "x", "_", "("]),
    ("[[math ", "]]\nx\n[[/math]] [[eref a]]", &["a", " ", "=", "é", "|", "b"]),
];
const ENDS: &[&str] = &["[[/", "[[ /", "[[/ ", "[[/[[", "[[/\n", "div", "DIV", "div_", "divx", "span", " ", "\n", "]]", "]", "x", "[[div]]"];

/// What quoted values make of backslashes.
const ESCAPES: &[&str] = &["\\", "\"", "'", "n", "r", "t", "é", " "];

pub fn blocks(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    // names
    let mut names: Vec<String> = FORMS.iter().flat_map(|f| f.names.iter().map(|n| n.to_string())).collect();
    let near: Vec<String> = names.iter().flat_map(|n| [format!("{n}x"), n.chars().skip(1).collect(), format!("{n}_"), format!("x{n}"), format!("{n}s"), format!("{n}-")]).collect();
    names.extend(near.into_iter().chain(["", "_", "style", "c", "div2", "blocks", "button", "gallery", "social", "file", "note", "form", "recipe", "center", "left", "font", "big", "img", "center image", "hr", "br", "th", "td", "tr", "pre", "q", "h1", "strike", "em_", "iff", "if"].map(String::from)));
    names.sort();
    names.dedup();
    let n = names.clone();
    c.families.push(product(
        "names",
        "every block name and near-name x casing x star x score x spacing x use",
        &[names.len(), 3, 2, 2, 3, USES.len()],
        move |ix| {
            let open = format!("{}{}{}{}", ["", " "][(ix[4] == 1) as usize], cased(&n[ix[0]], ix[1]), ["", "_"][ix[3]], ["", " "][(ix[4] == 2) as usize]);
            let end = format!("{}{}", cased(&n[ix[0]], 2 - ix[1]), ["", "_"][(ix[3] + ix[2]) % 2]);
            USES[ix[5]].replace('N', &format!("\u{1}{open}")).replace("[[\u{1}", ["[[", "[[*"][ix[2]]).replace('\u{1}', "").replace('Z', &end).replace('A', "")
        },
    ));
    // other names of the same block at the end
    c.families.push(product("end names", "every block opened by one of its names, closed by every name", &[FORMS.len(), 4, FORMS.len(), 4, 4], |ix| {
        let name = |f: usize, k: usize| FORMS[f].names[k % FORMS[f].names.len()];
        ["[[O]]x[[/E]]", "[[O y]]\nx\n[[/E]]", "[[ul]][[O]]x[[/E]][[/ul]]", "[[O]][[li]]x[[/li]][[/E]] y"][ix[4]].replace('O', name(ix[0], ix[1])).replace('E', name(ix[2], ix[3]))
    }));
    // heads
    for (p, s) in HEADS {
        c.families.extend(words("head tokens", HEAD, 3 + x, &[(p, s)]));
    }
    c.families.extend(words("head tokens", HEAD, 4 + x, &[("[[div", "]]x[[/div]]")]));
    for (p, s, keys, values) in KEYED {
        let pick = move |i: usize| match i.checked_sub(1) {
            None => String::new(),
            Some(i) => format!(" {}=\"{}\"", keys[i / values.len()], values[i % values.len()].replace('"', "\\\"")),
        };
        let d = keys.len() * values.len() + 1;
        c.families.push(product(&format!("arguments of {p}"), "no, one or two arguments, of all keys and values", &[d, d], move |ix| format!("{p}{}{}{s}", pick(ix[0]), pick(ix[1]))));
    }
    for (p, s, alphabet) in VALUES {
        c.families.extend(words("values", alphabet, 4 + x, &[(p, s)]));
    }
    // escapes in quoted values
    c.families.extend(words("escapes", ESCAPES, 5 + x, &[("[[div data-v=\"", "\"]]x[[/div]]")]));
    c.families.extend(words("escapes", ESCAPES, 4 + x, &[("[[collapsible show=\"", "\" hide=\"\\\\\"]]x[[/collapsible]]"), ("[[size \"", "\"]]x[[/size]]"), ("[[checkbox id=\"", "\"]]"), ("[[a name=\"", "\"]]x[[/a]]")]));
    // ends
    c.families.extend(words("ends", ENDS, 4 + x, &[("[[div]]a", "")]));
    c.families.extend(words("ends", ENDS, 3 + x, &[("[[div]]a[[span]]b", "[[/div]]"), ("[[code]]a", "[[/code]]"), ("[[b]]a", "[[/b]]"), ("[[div]]\n", "\n[[/div]]")]));
    // structure
    c.families.push(chains("chains", BODIES, 3, &["", "\n"], &["a", "", "\n\n"]));
    c.families.push(chains("chains", PARTIALS, 4, &["", "\n"], &["a"]));
    c.families.push(siblings(&["", "\n", " "]));
    c.families.extend(words("structure tags", TAGS, 3 + x, &[("", ""), ("[[table]][[row]]", "[[/row]][[/table]]"), ("[[ul]]", "[[/ul]]"), ("[[tabview]]", "[[/tabview]]"), ("[[ruby]]", "[[/ruby]]")]));
    // every use, where something else stands around it
    let uses = super::c27::pool();
    let n = uses.len();
    c.families.push(product("uses within", "two levels of constructs around a use of every construct", &[n, BODIES.len(), BODIES.len(), 3], move |ix| {
        let ((a, b), (p, q), s) = (BODIES[ix[1]], BODIES[ix[2]], ["", "\n", "\n\n"][ix[3]]);
        format!("{a}{s}{p}{s}{}{s}{q}{s}{b}", uses[ix[0]])
    }));
    if thorough {
        c.families.push(chains("chains", PARTIALS, 5, &["", "\n"], &["a", "\n\n"]));
        c.families.push(chains("chains", BODIES, 4, &["", "\n"], &["a"]));
    }
    c.families.extend(corpus::words(&["blocks", "side", "objects"], 3, &f()));
    c.families.push(chars(&["[[div§]]x[[/div]]", "[[div §]]x[[/div]]", "[[div class§\"a\"]]x[[/div]]", "[[div class=§a]]x[[/div]]", "[[div class=\"§\"]]x[[/div]]", "[[div a§b=\"c\"]]x[[/div]]", "[[div]]§x[[/div]]", "[[div]]x§[[/div]]", "[[div]]x[[/§div]]", "[[div]]x[[/div§]]", "[[§div]]x[[/div]]", "[[div]§]x[[/div]]", "[§[div]]x[[/div]]", "[[span§]]x[[/span]]", "[[span]]§[[/span]]", "[[code]]§[[/code]]", "[[code]]\n§\n[[/code]]", "[[code]]a[§/code]]", "[[size §]]x[[/size]]", "[[tab§]]x[[/tab]]", "[[tabview]]§[[tab a]]x[[/tab]][[/tabview]]", "[[tabview]][[tab §]]x[[/tab]][[/tabview]]", "[[ul]]§[[li]]x[[/li]][[/ul]]", "[[table]]§[[row]][[cell]]x[[/cell]][[/row]][[/table]]", "[[image §]]", "[[user §]]", "[[char §]]", "[[lines §]]", "[[iframe §]]", "[[checkbox §]]", "[[date §]]", "[[# §]]", "[[target §]]x[[/target]]", "[[$ §$]]", "[[math §]]\nx\n[[/math]]", "[[eref §]]", "((bibcite §))", "[[rb a§b]]", "[[rb §|b]]", "[[module §]]", "[[embed §]]", "[[f§toc]]", "[[§>]]x[[/>]]", "[[html]]§[[/html]]", "[[collapsible show=\"§\"]]x[[/collapsible]]", "[[footnote]]§[[/footnote]]", "[[footnoteblock title=\"§\"]]", "[[a name=\"§\"]][[/a]]", "[[radio §]]", "[[radio a §]]", "[[iftags §]]x[[/iftags]]", "[[ifcategory §]]x[[/ifcategory]]", "[[iftags +§tale]]x[[/iftags]]"]));
    edits(&mut c, thorough);
    c.at_least = FORMS.iter().map(|f| f.names[0]).filter(|n| *n != "include").map(|n| (n, 300)).collect();
    c
}
