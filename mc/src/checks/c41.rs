//! C41: what an application gives to ftml and gets from it crosses JSON unchanged, under the
//! documented (kebab-case) names, and page references are read and written exactly.
use super::*;
use crate::corpus;
use crate::doc::*;
use ftml::data::*;
use ftml::includes::{FetchedPage, IncludeRef};
use ftml::layout::Layout;
use ftml::parsing::ParseError;
use ftml::prelude::*;
use ftml::render::html::{HtmlMetaType, HtmlOutput};
use ftml::settings::{InterwikiSettings, DEFAULT_INTERWIKI, EMPTY_INTERWIKI};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::fmt::Debug;
use std::sync::Arc;

/// The value is written as `want`, and each way of reading it back gives the value.
fn crosses<T: Serialize + DeserializeOwned + Debug>(what: &str, x: &T, want: &Value, cx: &mut Cx) -> Result<T, String> {
    cx.runs += 1;
    let got = serde_json::to_value(x).map_err(|e| format!("{what} cannot be written: {e}"))?;
    if got != *want {
        return Err(format!("{what} is written as {got}, not as {want}"));
    }
    let text = serde_json::to_string(x).map_err(|e| e.to_string())?;
    if serde_json::from_str::<Value>(&text).map_err(|e| e.to_string())? != *want {
        return Err(format!("{what} is written as {text}, not as {want}"));
    }
    let a: T = serde_json::from_str(&text).map_err(|e| format!("{what} cannot be read back from {text}: {e}"))?;
    let b: T = serde_json::from_value(want.clone()).map_err(|e| format!("{what} cannot be read from {want}: {e}"))?;
    for y in [&a, &b] {
        if format!("{y:?}").len() != format!("{x:?}").len() || serde_json::to_value(y).ok() != Some(got.clone()) {
            return Err(format!("{what} read back is {y:?}, not {x:?}"));
        }
    }
    cx.state(&text);
    cx.nontrivial(&text);
    Ok(a)
}

fn same<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?}, not {want:?}"))
    }
}

const STRINGS: &[&str] = &["", "a", "scp-173", "_default", "a b", "\"\\\n\t", "é😀", "<b>&amp;", "null"];
const SCORES: &[(&str, ScoreValue)] = &[
    ("0", ScoreValue::Integer(0)),
    ("-1", ScoreValue::Integer(-1)),
    ("9223372036854775807", ScoreValue::Integer(i64::MAX)),
    ("-9223372036854775808", ScoreValue::Integer(i64::MIN)),
    ("9007199254740993", ScoreValue::Integer(9007199254740993)),
    ("0.0", ScoreValue::Float(0.0)),
    ("69.0", ScoreValue::Float(69.0)),
    ("-3.5", ScoreValue::Float(-3.5)),
    ("1e300", ScoreValue::Float(1e300)),
];

fn score_json(i: usize) -> Value {
    serde_json::from_str(SCORES[i].0).unwrap()
}

fn page_info_case(ix: &[usize], cx: &mut Cx) -> Result<(), String> {
    let opt = |i: usize| if i == 0 { None } else { Some(Cow::Borrowed(STRINGS[i - 1])) };
    let tags: Vec<Cow<'static, str>> = [&[][..], &["tale"], &["tale", "_cc"], &["", "é", "\"", ""]][ix[4]].iter().map(|s| Cow::Borrowed(*s)).collect();
    let s = STRINGS[ix[0]];
    let info = PageInfo {
        page: s.into(),
        category: opt(ix[1]),
        site: STRINGS[(ix[0] + 1) % STRINGS.len()].into(),
        title: STRINGS[(ix[0] + 2) % STRINGS.len()].into(),
        alt_title: opt(ix[2]),
        score: SCORES[ix[3]].1,
        tags: tags.clone(),
        language: STRINGS[(ix[0] + 3) % STRINGS.len()].into(),
    };
    let mut want = json!({
        "page": s,
        "category": opt(ix[1]),
        "site": STRINGS[(ix[0] + 1) % STRINGS.len()],
        "title": STRINGS[(ix[0] + 2) % STRINGS.len()],
        "alt-title": opt(ix[2]),
        "score": score_json(ix[3]),
        "tags": tags,
        "language": STRINGS[(ix[0] + 3) % STRINGS.len()],
    });
    let back = crosses("the page's information", &info, &want, cx)?;
    same("the page's information read back", &back, &info)?;
    // what is absent is None
    for (key, none) in [("category", info.category.is_none()), ("alt-title", info.alt_title.is_none())] {
        if none {
            want.as_object_mut().unwrap().remove(key);
            let back: PageInfo<'_> = serde_json::from_value(want.clone()).map_err(|e| format!("page information without {key} is not read: {e}"))?;
            same("the page's information read back", &back, &info)?;
        }
    }
    let st = page_settings();
    let text = "[[iftags +tale]]t[[/iftags]][[iftags -_cc]]c[[/iftags]] [[image a.png]]";
    let [a, b] = [&info, &back].map(|i| with_parse(text, i, &st, |_, tree, _| {
        let h = html_of(tree, i, &st);
        format!("{}{:?}{:?}", h.body, h.meta, h.backlinks)
    }));
    same("the page rendered for what was read back", &b, &a)
}

const MODE_NAMES: &[(&str, WikitextMode)] = &[
    ("page", WikitextMode::Page),
    ("draft", WikitextMode::Draft),
    ("forum-post", WikitextMode::ForumPost),
    ("direct-message", WikitextMode::DirectMessage),
    ("list", WikitextMode::List),
];
const LAYOUTS: &[(&str, Layout)] = &[("wikidot", Layout::Wikidot), ("wikijump", Layout::Wikijump)];
const FLAGS: &[&str] = &["enable-page-syntax", "use-include-compatibility", "use-true-ids", "isolate-user-ids", "minify-css", "allow-local-paths"];

fn default_prefixes() -> Value {
    json!({
        "wikipedia": "https://wikipedia.org/wiki/$$",
        "wp": "https://wikipedia.org/wiki/$$",
        "commons": "https://commons.wikimedia.org/wiki/$$",
        "google": "https://google.com/search?q=$$",
        "duckduckgo": "https://duckduckgo.com/?q=$$",
        "ddg": "https://duckduckgo.com/?q=$$",
        "dictionary": "https://dictionary.com/browse/$$",
        "thesaurus": "https://thesaurus.com/browse/$$",
    })
}

fn tables() -> Vec<Value> {
    vec![json!({}), default_prefixes(), json!({"a": "x:$$"}), json!({"mode": "m:$$", "prefixes": "$$", "": "e", "é": "\"$$$$\\"})]
}

fn settings_case(ix: &[usize], cx: &mut Cx) -> Result<(), String> {
    let (mode, layout, bits, table) = (&MODE_NAMES[ix[0]], &LAYOUTS[ix[1]], ix[2], &tables()[ix[3]]);
    let flag = |i: usize| bits >> i & 1 == 1;
    let interwiki = InterwikiSettings { prefixes: table.as_object().unwrap().iter().map(|(k, v)| (Cow::Owned(k.clone()), Cow::Owned(v.as_str().unwrap().to_string()))).collect() };
    let st = WikitextSettings {
        mode: mode.1,
        layout: layout.1,
        enable_page_syntax: flag(0),
        use_include_compatibility: flag(1),
        use_true_ids: flag(2),
        isolate_user_ids: flag(3),
        minify_css: flag(4),
        allow_local_paths: flag(5),
        interwiki,
    };
    let mut want = json!({"mode": mode.0, "layout": layout.0, "interwiki": table});
    for (i, name) in FLAGS.iter().enumerate() {
        want[*name] = json!(flag(i));
    }
    let back = crosses("the settings", &st, &want, cx)?;
    same("the settings read back", &back, &st)?;
    // nothing else is taken for a setting's value
    for (key, wrong) in [("mode", json!("Page")), ("mode", json!("forum_post")), ("mode", json!(0)), ("layout", json!("Wikidot")), ("layout", json!(null)), ("use-true-ids", json!("true")), ("minify-css", json!(1)), ("interwiki", json!([]))] {
        let mut w = want.clone();
        w[key] = wrong;
        if let Ok(s) = serde_json::from_value::<WikitextSettings>(w.clone()) {
            return Err(format!("{w} is read as settings: {s:?}"));
        }
    }
    for key in ["mode", "layout", "interwiki"].iter().chain(FLAGS) {
        let mut w = want.clone();
        w.as_object_mut().unwrap().remove(*key);
        if let Ok(s) = serde_json::from_value::<WikitextSettings>(w.clone()) {
            return Err(format!("settings without {key} are read as {s:?}"));
        }
    }
    let text = "+ H\n[[toc]]\n[[div id=\"i\"]]\nx [[[!a:q w/r]]] [[[!wp:z]]] [[image f.png]] [[/div]]\n[[module css]]\na  {  b : c }\n[[/module]]\n[[footnote]]f[[/footnote]]";
    let info = page_info();
    let [a, b] = [&st, &back].map(|s| with_parse(text, &info, s, |_, tree, errs| {
        let h = html_of(tree, &info, s);
        derandom(&format!("{errs:?}{}{:?}{:?}", h.body, h.meta, h.backlinks))
    }));
    same("the page rendered with the settings read back", &b, &a)
}

fn defaults_case(ix: &[usize], cx: &mut Cx) -> Result<(), String> {
    let (mode, layout) = (&MODE_NAMES[ix[0]], &LAYOUTS[ix[1]]);
    let page = matches!(mode.1, WikitextMode::Page | WikitextMode::Draft | WikitextMode::List);
    let want = json!({
        "mode": mode.0, "layout": layout.0, "interwiki": default_prefixes(),
        "enable-page-syntax": page, "use-include-compatibility": false, "use-true-ids": mode.0 == "page",
        "isolate-user-ids": false, "minify-css": true, "allow-local-paths": page,
    });
    crosses("the mode's settings", &WikitextSettings::from_mode(mode.1, layout.1), &want, cx)?;
    crosses("the default prefixes", &DEFAULT_INTERWIKI.clone(), &default_prefixes(), cx)?;
    crosses("no prefixes", &EMPTY_INTERWIKI.clone(), &json!({}), cx)?;
    crosses("no prefixes", &InterwikiSettings::new(), &json!({}), cx)?;
    crosses("a mode", &mode.1, &json!(mode.0), cx)?;
    crosses("a layout", &layout.1, &json!(layout.0), cx)?;
    same("the layout's value", &layout.1.value(), &layout.0)?;
    same("whether the layout is the legacy one", &layout.1.legacy(), &(layout.0 == "wikidot"))?;
    for (tag, name) in [(HtmlMetaType::Name, "name"), (HtmlMetaType::HttpEquiv, "http-equiv"), (HtmlMetaType::Property, "property")] {
        crosses("a kind of metadata", &tag, &json!(name), cx)?;
        same("the attribute of the metadata", &tag.tag_name(), &name)?;
    }
    Ok(())
}

/// A page reference as documented: `:site:page`, or a page; None where there is no such thing.
fn reference(s: &str) -> Option<(Option<&str>, &str)> {
    let s = s.trim();
    if s.is_empty() {
        return None;
    }
    match s.strip_prefix(':') {
        None => Some((None, s)),
        Some(rest) => {
            let (site, page) = rest.split_once(':')?;
            if site.trim().is_empty() {
                return None;
            }
            Some((Some(site.trim()), page.trim()))
        }
    }
}

fn reference_case(s: &str, cx: &mut Cx) -> Result<(), String> {
    cx.runs += 1;
    let got = PageRef::parse(s);
    let want = reference(s);
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(r), Some((site, page))) => {
            same("the reference", &r.fields(), &(site, page))?;
            same("the site", &r.site(), &site)?;
            same("the page", &r.page(), &page)?;
            same("the fields for a site", &r.fields_or("here"), &(site.unwrap_or("here"), page))?;
            same("the reference built", &r, &match site { Some(s) => PageRef::page_and_site(s, page), None => PageRef::page_only(page) })?;
            let owned = r.to_owned();
            same("the owned reference", &owned, &r)?;
            let shown = r.to_string();
            same("the reference written", &shown, &match site { Some(s) => format!(":{s}:{page}"), None => page.to_string() })?;
            same("the reference written and read", &PageRef::parse(&shown).map_err(|e| format!("{e:?}"))?, &r)?;
            let back = crosses("the reference", &owned, &json!({"site": site, "page": page}), cx)?;
            same("the reference read back", &back, &r)?;
            let back: PageRef<'_> = match site {
                Some(_) => back,
                None => serde_json::from_value(json!({"page": page})).map_err(|e| e.to_string())?,
            };
            same("the reference read back", &back, &r)?;
            for content in [None, Some("c\n")] {
                let fetched = FetchedPage { page_ref: owned.clone(), content: content.map(Cow::Borrowed) };
                let back = crosses("a fetched page", &fetched, &json!({"page-ref": {"site": site, "page": page}, "content": content}), cx)?;
                same("the fetched page read back", &back, &fetched)?;
            }
            for vars in [&[][..], &[("k", "v")], &[("k", ""), ("K", "\"é")]] {
                let map: ftml::tree::VariableMap<'static> = vars.iter().map(|(k, v)| (Cow::Borrowed(*k), Cow::Borrowed(*v))).collect();
                let include = IncludeRef::new(owned.clone(), map.clone());
                let table: serde_json::Map<String, Value> = vars.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
                let back = crosses("an include", &include, &json!({"page-ref": {"site": site, "page": page}, "variables": table}), cx)?;
                same("the include read back", &back, &include)?;
                same("the include's page", include.page_ref(), &owned)?;
                same("the include's variables", include.variables(), &map)?;
                let parts: (PageRef<'_>, ftml::tree::VariableMap<'_>) = include.into();
                same("the include's parts", &parts, &(owned.clone(), map))?;
            }
            Ok(())
        }
        (got, want) => Err(format!("the reference is {got:?}, not {want:?}")),
    }
}

fn karma_case(n: i64, cx: &mut Cx) -> Result<(), String> {
    cx.runs += 1;
    let ok = (0..=5).contains(&n);
    if let Ok(b) = u8::try_from(n) {
        same("whether there is such a level", &KarmaLevel::new(b).is_some(), &ok)?;
        same("the level converted", &KarmaLevel::try_from(b).map(|l| l.value()), &if ok { Ok(b) } else { Err(b) })?;
    }
    match serde_json::from_value::<KarmaLevel>(json!(n)) {
        Ok(l) if ok => {
            crosses("the level", &l, &json!(n), cx)?;
            same("the level's value", &(l.value() as i64), &n)?;
            same("the level as a byte", &(u8::from(l) as i64), &n)?;
            same("the level written", &l.to_string(), &n.to_string())?;
            same("the level", &Some(l), &KarmaLevel::new(n as u8))?;
            for (i, s) in STRINGS.iter().enumerate() {
                let t = STRINGS[(i + 1) % STRINGS.len()];
                for id in [0, 1, u64::MAX] {
                    let u = UserInfo { user_id: id, user_name: (*s).into(), user_karma: l, user_avatar_data: t.into(), user_profile_url: (*s).into() };
                    let back = crosses("a user", &u, &json!({"user-id": id, "user-name": s, "user-karma": n, "user-avatar-data": t, "user-profile-url": s}), cx)?;
                    same("the user read back", &back, &u)?;
                }
            }
            Ok(())
        }
        Err(_) if !ok => Ok(()),
        other => Err(format!("{n} is read as the level {other:?}")),
    }
}

fn scores_case(i: usize, cx: &mut Cx) -> Result<(), String> {
    let x = SCORES[i].1;
    let back = crosses("the score", &x, &score_json(i), cx)?;
    same("the score read back", &back, &x)?;
    let want: f64 = SCORES[i].0.parse().unwrap();
    same("the score as a number", &x.to_f64(), &want)?;
    match x {
        ScoreValue::Integer(n) => same("the score from a number", &ScoreValue::from(n), &x),
        ScoreValue::Float(n) => same("the score from a number", &ScoreValue::from(n), &x),
    }
}

/// The names of layouts in every mixture of case, and whatever is one edit away from them.
fn layout_names() -> Vec<String> {
    let mut v = vec![String::new()];
    for (name, _) in LAYOUTS {
        for bits in 0..1u32 << name.len() {
            v.push(name.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect());
        }
        for i in 0..=name.len() {
            for c in ["", " ", "x", "K", "\u{212a}", "ı", "-"] {
                v.push(format!("{}{c}{}", &name[..i], &name[i..]));
                if i < name.len() {
                    v.push(format!("{}{c}{}", &name[..i], &name[i + 1..]));
                }
            }
            v.push(name[..i].to_string());
        }
    }
    v.sort();
    v.dedup();
    v
}

fn layout_case(s: &str, cx: &mut Cx) -> Result<(), String> {
    cx.runs += 1;
    let want = LAYOUTS.iter().find(|(n, _)| *n == s.to_ascii_lowercase()).map(|(_, l)| *l);
    same("the layout", &s.parse::<Layout>().ok(), &want)?;
    let strict = LAYOUTS.iter().find(|(n, _)| *n == s).map(|(_, l)| *l);
    same("the layout in JSON", &serde_json::from_value::<Layout>(json!(s)).ok(), &strict)?;
    if want.is_some() {
        cx.nontrivial(s);
    }
    Ok(())
}

/// What ftml returns for a page crosses JSON.
fn results(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let mut s = doc.to_string();
    ftml::preprocess(&mut s);
    let info = page_info();
    for mode in [WikitextMode::Page, WikitextMode::ForumPost] {
        let st = settings(mode);
        with_parse(&s, &info, &st, |_, tree, errs| {
            let h: HtmlOutput = html_of(tree, &info, &st);
            let refs = |v: &[PageRef<'_>]| -> Vec<Value> { v.iter().map(|r| json!({"site": r.site, "page": r.page})).collect() };
            let links = json!({"included-pages": refs(&h.backlinks.included_pages), "internal-links": refs(&h.backlinks.internal_links), "external-links": h.backlinks.external_links});
            let meta: Vec<Value> = h.meta.iter().map(|m| json!({"tag-type": m.tag_type.tag_name(), "name": m.name, "value": m.value})).collect();
            let got = serde_json::to_value(&h.backlinks).map_err(|e| e.to_string())?;
            same("the links in JSON", &got, &links)?;
            let back: Backlinks<'_> = serde_json::from_value(got).map_err(|e| e.to_string())?;
            same("the links read back", &back, &h.backlinks)?;
            let text = serde_json::to_string(&h).map_err(|e| e.to_string())?;
            let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            let got = v.get("meta").and_then(|m| m.as_array()).map(|m| m.iter().map(|m| json!({"tag-type": m.get("tag-type").or(m.get("tag_type")), "name": m["name"], "value": m["value"]})).collect::<Vec<_>>());
            same("the metadata in JSON", &got, &Some(meta))?;
            same("the links in the output's JSON", &v["backlinks"], &links)?;
            same("the body in JSON", &v["body"], &json!(h.body))?;
            let back: HtmlOutput = serde_json::from_str(&text).map_err(|e| format!("the output is not read back: {e}"))?;
            same("the output read back", &format!("{back:?}"), &format!("{h:?}"))?;
            for e in errs {
                let want = json!({"token": serde_json::to_value(e.token()).map_err(|e| e.to_string())?, "rule": e.rule(), "span": {"start": e.span().start, "end": e.span().end}, "kind": kebab(e.kind().name())});
                let back = crosses("the warning", e, &want, cx)?;
                same("the warning read back", &back, e)?;
                same("the token's name in JSON", &want["token"], &json!(kebab(&format!("{:?}", e.token()))))?;
            }
            let all = serde_json::to_string(errs).map_err(|e| e.to_string())?;
            let back: Vec<ParseError> = serde_json::from_str(&all).map_err(|e| e.to_string())?;
            same("the warnings read back", &back, &errs.to_vec())?;
            cx.runs += 1;
            cx.state(&text);
            cx.nontrivial(&h.body);
            Ok::<(), String>(())
        })?;
    }
    Ok(())
}

/// serde's kebab-case of a Rust name.
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('-');
        }
        o.extend(c.to_lowercase());
    }
    o
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct values and results that crossed");
    let n = if thorough { STRINGS.len() } else { 4 };
    c.families.push(product_family("page information", "strings x category x alternative title x score x tags", &[STRINGS.len(), n, n, SCORES.len(), 4], Box::new(|ix| format!("{ix:?}")), page_info_case));
    c.families.push(product_family("settings", "mode x layout x every flag x interwiki table", &[MODE_NAMES.len(), LAYOUTS.len(), 1 << FLAGS.len(), tables().len()], Box::new(|ix| format!("{ix:?}")), settings_case));
    c.families.push(product_family("defaults of modes", "mode x layout", &[MODE_NAMES.len(), LAYOUTS.len()], Box::new(|ix| format!("{ix:?}")), defaults_case));
    c.families.push(word_family("page references", &["a", "B", ":", " ", "_", "/", "\u{a0}", "é", "#", "\n"], if thorough { 6 } else { 5 }, "", "", |s, _, cx| reference_case(s, cx)));
    c.families.push(list_family("levels of karma", "every integer from -300 to 600", (-300..600).collect(), |n| n.to_string(), |n, cx| karma_case(*n, cx)));
    c.families.push(list_family("scores", "integers and floating-point numbers at their extremes", (0..SCORES.len()).collect(), |i| SCORES[*i].0.to_string(), |i, cx| scores_case(*i, cx)));
    c.families.push(list_family("names of layouts", "every mixture of case, and every name one edit away", layout_names(), |s| s.clone(), |s, cx| layout_case(s, cx)));
    let f: corpus::DocFn = Arc::new(results);
    if thorough {
        c.families.extend(corpus::standard(false, f));
    } else {
        c.families.extend(corpus::words(&["inline", "blocks", "lines", "side", "objects"], 2, &f));
        c.families.extend(corpus::fixture_wraps(1, &f));
    }
    c
}
