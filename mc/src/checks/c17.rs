//! C17: a syntax tree read back from its JSON, and its owned copy, are the tree itself.
use super::*;
use crate::corpus;
use crate::doc::*;
use ftml::parsing::ParseError;
use ftml::settings::WikitextMode;
use ftml::tree::SyntaxTree;
use std::sync::Arc;

fn rendered(tree: &SyntaxTree<'_>, st: &ftml::settings::WikitextSettings) -> (String, String) {
    let info = page_info();
    let h = html_of(tree, &info, st);
    (derandom(&format!("{}\n{:?}\n{:?}", undated(&h.body), h.meta, h.backlinks)), text_of(tree, &info, st))
}

fn undated(s: &str) -> String {
    s.split("data-delta=\"").map(|p| p.trim_start_matches(|c: char| c == '-' || c.is_ascii_digit())).collect()
}

pub fn trip(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let mut s = doc.to_string();
    ftml::preprocess(&mut s);
    for mode in [WikitextMode::Page, WikitextMode::ForumPost] {
        let st = settings(mode);
        with_parse(&s, &page_info(), &st, |_, tree, errs| {
            cx.runs += 1;
            let json = serde_json::to_string(tree).map_err(|e| format!("the tree cannot be serialised: {e}"))?;
            cx.state(&json);
            let back: SyntaxTree<'_> = serde_json::from_str(&json).map_err(|e| format!("the tree cannot be read back: {e} from {json}"))?;
            if back != *tree {
                return Err(format!("the tree read back differs: {}", crate::html::diff(&format!("{tree:?}"), &format!("{back:?}"))));
            }
            let owned = tree.to_owned();
            if owned != *tree {
                return Err(format!("the owned tree differs: {}", crate::html::diff(&format!("{tree:?}"), &format!("{owned:?}"))));
            }
            // equality of trees is ftml's own: compare everything that is in them, too
            for (what, t) in [("read back", &back), ("owned", &owned)] {
                let j = serde_json::to_value(t).map_err(|e| e.to_string())?;
                if j != serde_json::from_str::<serde_json::Value>(&json).map_err(|e| e.to_string())? {
                    return Err(format!("the tree {what} serialises differently: {}", crate::html::diff(&json, &j.to_string())));
                }
                if format!("{t:#?}").len() != format!("{tree:#?}").len() {
                    return Err(format!("the tree {what} has other content: {}", crate::html::diff(&format!("{tree:?}"), &format!("{t:?}"))));
                }
            }
            let want = rendered(tree, &st);
            for (what, t) in [("read back", &back), ("owned", &owned)] {
                let got = rendered(t, &st);
                if got != want {
                    return Err(format!("the tree {what} renders differently: {}{}", crate::html::diff(&want.0, &got.0), crate::html::diff(&want.1, &got.1)));
                }
            }
            let json = serde_json::to_string(&errs).map_err(|e| e.to_string())?;
            let back: Vec<ParseError> = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            if back != *errs {
                return Err("the warnings read back differ".into());
            }
            cx.nontrivial(&want.0);
            Ok(())
        })?;
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct renderings of trees that survived");
    let f: corpus::DocFn = Arc::new(trip);
    c.families = if thorough {
        // (readers of JSON refuse what is nested as deep as a page may be)
        corpus::standard(false, f).into_iter().filter(|f| f.name != "deep").collect()
    } else {
        let mut v = corpus::words(&["inline", "blocks", "lines", "side", "objects"], 2, &f);
        v.extend(corpus::nested(&[], 1, &f));
        v.extend(corpus::fixture_wraps(1, &f));
        v.extend(corpus::many(40, &[], &f));
        v.extend(corpus::long(140, &f));
        v.push(list_family("attribute-blocks", "every attribute-taking block", super::c12::BLOCKS.to_vec(), |b| b.replace(" A", " id=\"i\" data-x=\"y\""), move |b, cx| trip(&b.replace(" A", " id=\"i\" data-x=\"y\""), cx)));
        v
    };
    c.families.push(list_family("dates", "dates of every kind at every extreme of year, clock and zone", super::c28::spread(), |s| s.clone(), |s, cx| trip(s, cx)));
    let (uses, around) = (super::c27::pool(), super::c27::AROUND);
    let n = uses.len();
    let make = move |ix: &[usize]| format!("{}{}{}", around[ix[1]].0, uses[ix[0]], around[ix[1]].1);
    let m = make.clone();
    c.families.push(product_family("uses", "every construct x surrounding", &[n, around.len()], Box::new(make), move |ix, cx| trip(&m(ix), cx)));
    // (every argument a tree owns has to come back, whatever else it owns)
    c.families.extend(super::c25::keyed(2, &(Arc::new(trip) as corpus::DocFn)));
    c
}
