//! C12: attributes given by the source. The allowed names below are the documented list,
//! written here independently of the implementation.
use super::*;
use crate::doc::*;
use crate::html::{self, Node};
use std::collections::BTreeMap;

const SAFE: &str = "accept align alt autocapitalize autoplay background bgcolor border buffered checked cite class cols colspan contenteditable controls coords datetime decoding default dir dirname disabled download draggable for form headers height hidden high href hreflang id inputmode ismap itemprop kind label lang list loop low max maxlength min minlength multiple muted name optimum pattern placeholder poster preload readonly required reversed role rows rowspan scope selected shape size sizes span spellcheck src srclang srcset start step style tabindex target title translate type usemap value width wrap";
pub const BOOLEAN: &str = "autoplay checked controls default disabled hidden ismap loop multiple muted readonly required reversed selected";
const OTHERS: &str = "onclick onload onerror onfocus onmouseover ontoggle onanimationstart formaction formmethod formenctype action method enctype srcdoc sandbox allow allowfullscreen allowpaymentrequest async autofocus defer formnovalidate itemscope nomodule novalidate open playsinline truespeed http-equiv content xmlns is slot nonce integrity crossorigin rel ping accesskey as charset code codebase archive classid data manifest media summary profile longdesc dynsrc lowsrc xlink-href on id_ clas styles hrefs ariax datax aria_x data_x x-data-y -data-x 1 x";
const PREFIXED: &str = "aria-label aria-hidden aria-x-y data-x data-X data-on data-onclick data-a_b data-1 aria-- data--";
/// Head and end with one argument position `A`; `data-probe` marks the element.
pub const BLOCKS: &[&str] = &[
    "[[div A]]\nx\n[[/div]]", "[[span A]]x[[/span]]", "[[blockquote A]]\nx\n[[/blockquote]]", "[[p A]]\nx\n[[/p]]", "[[b A]]x[[/b]]", "[[i A]]x[[/i]]", "[[u A]]x[[/u]]", "[[s A]]x[[/s]]", "[[sub A]]x[[/sub]]", "[[sup A]]x[[/sup]]", "[[tt A]]x[[/tt]]",
    "[[mark A]]x[[/mark]]", "[[ins A]]x[[/ins]]", "[[del A]]x[[/del]]", "[[hidden A]]x[[/hidden]]", "[[invisible A]]x[[/invisible]]", "[[collapsible A]]\nx\n[[/collapsible]]", "[[ul A]]\n[[li]]x[[/li]]\n[[/ul]]", "[[ol A]]\n[[li]]x[[/li]]\n[[/ol]]",
    "[[ul]]\n[[li A]]x[[/li]]\n[[/ul]]", "[[table A]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[table]]\n[[row A]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[table]]\n[[row]]\n[[cell A]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[table]]\n[[row]]\n[[hcell A]]x[[/hcell]]\n[[/row]]\n[[/table]]",
    "[[a A]]x[[/a]]", "[[a_ A]]x[[/a]]", "[[*a A]]x[[/a]]", "[[ruby A]]x[[rt]]y[[/rt]][[/ruby]]", "[[ruby]]x[[rt A]]y[[/rt]][[/ruby]]", "[[checkbox A]]", "[[*checkbox A]]", "[[radio r A]]", "[[iframe http://x.y/ A]]", "[[image http://x.y/z.png A]]", "[[f<image http://x.y/z.png A]]", "[[toc A]]", "[[f>toc A]]",
];
const VALUES: &[(&str, &str)] = &[
    ("", ""), ("true", "true"), ("TRUE", "TRUE"), ("t", "t"), ("1", "1"), ("Yes", "Yes"), ("false", "false"), ("F", "F"), ("0", "0"), ("no", "no"), (" true ", " true "), (" no", " no"), ("maybe", "maybe"), ("2", "2"), ("on", "on"), ("a b", "a b"), ("é&<>'", "é&<>'"), ("a\\\"b", "a\"b"), ("\\\\", "\\"), ("x=y ]", "x=y ]"), ("{$v}", "{$v}"), ("@@", "@@"),
];

fn probe<'d>(dom: &'d [Node]) -> Option<&'d Node> {
    let mut found = None;
    html::walk(dom, &mut |n| {
        if n.attr("data-probe").is_some() {
            found = found.or(Some(n));
        }
    });
    found
}

fn attrs(n: &Node) -> BTreeMap<String, String> {
    match n {
        Node::El { attrs, .. } => attrs.iter().map(|(k, v)| (k.clone(), v.clone().unwrap_or_default())).collect(),
        _ => BTreeMap::new(),
    }
}

pub fn safe(key: &str) -> bool {
    let k = key.to_ascii_lowercase();
    SAFE.split(' ').any(|s| s == k) || key.starts_with("aria-") || key.starts_with("data-")
}

pub fn truth(v: &str) -> Option<bool> {
    match v.trim().to_ascii_lowercase().as_str() {
        "true" | "t" | "1" | "yes" => Some(true),
        "false" | "f" | "0" | "no" => Some(false),
        _ => None,
    }
}

/// Arguments consumed by the block itself.
fn own(block: &str, key: &str) -> bool {
    let k = key.to_ascii_lowercase();
    match () {
        _ if block.starts_with("[[collapsible") => ["show", "hide", "folded", "hidelocation"].contains(&k.as_str()),
        _ if block.contains("image") => k == "link",
        _ if block.contains("checkbox") || block.contains("radio") => k == "checked" && false,
        _ => false,
    }
}

fn verify(block: &str, args: &[(String, &str, &str)], cx: &mut Cx) -> Result<(), String> {
    let text = |extra: &str| block.replacen(" A", &format!(" data-probe=\"p\"{extra}"), 1);
    let extra: String = args.iter().map(|(k, src, _)| format!(" {k}=\"{src}\"")).collect();
    let get = |t: &str| -> Result<(Node, Vec<Node>), String> {
        page(t, |_, tree, _| {
            let out = html_of(tree, &page_info(), &page_settings());
            let dom = html::parse(&out.body)?;
            Ok((probe(&dom).cloned().ok_or_else(|| format!("the block was not recognised: {}", out.body))?, dom))
        })
    };
    let (base, _) = get(&text(""))?;
    let doc = text(&extra);
    let (node, dom) = get(&doc)?;
    cx.runs += 1;
    let mut want = attrs(&base);
    let fixed = want.clone();
    let mut given: BTreeMap<String, &str> = BTreeMap::new();
    for (k, _, v) in args {
        // the last of several arguments with the same name
        given.insert(k.to_ascii_lowercase(), v);
    }
    for (k, v) in &given {
        if !safe(k) || own(block, k) {
            continue;
        }
        let mut v = v.to_string();
        if BOOLEAN.split(' ').any(|b| b == k) {
            match truth(&v) {
                Some(true) => v.clear(),
                Some(false) => continue,
                None => {}
            }
        }
        if k == "colspan" && block.contains("cell A") {
            // the cell's own span, of which one is the default
            match v.parse::<u32>() {
                Ok(n) if n > 1 => {}
                _ => continue,
            }
        }
        if k == "href" || k == "src" {
            v = crate::refrender::href(&v);
        }
        match fixed.get(k) {
            Some(f) if k == "class" || k == "style" => {
                want.insert(k.clone(), format!("{f} {v}"));
            }
            Some(_) => {}
            None => {
                want.insert(k.clone(), v);
            }
        }
    }
    let got = attrs(&node);
    cx.state(&format!("{block}{got:?}"));
    cx.transitions += args.len() as u64;
    if got != want {
        return Err(format!("{doc}: expected {want:?}, found {got:?}"));
    }
    if got.len() > fixed.len() {
        cx.bump("attributes_kept", 1);
        cx.nontrivial(&format!("{got:?}"));
    } else {
        cx.bump("attributes_dropped", 1);
    }
    // nothing else in the output is touched by them
    let mut other = 0;
    html::walk(&dom, &mut |n| {
        if n.attr("data-probe").is_none() {
            for k in attrs(n).keys() {
                if k.starts_with("on") && k != "onclick" {
                    other += 1;
                }
            }
        }
    });
    if other > 0 {
        return Err(format!("{doc}: an event handler in {dom:?}"));
    }
    Ok(())
}

fn cases(name: &str) -> Vec<String> {
    let lower = name.to_string();
    if name.starts_with("data") || name.starts_with("aria") {
        return vec![lower];
    }
    let mixed = name.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    vec![lower, name.to_ascii_uppercase(), mixed]
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct attribute sets of the marked element");
    c.at_least = vec![("attributes_kept", 10_000), ("attributes_dropped", 10_000)];
    let mut names: Vec<String> = Vec::new();
    for n in SAFE.split(' ').chain(OTHERS.split(' ')).chain(PREFIXED.split(' ')) {
        names.extend(cases(n));
    }
    let show = |names: &[String], ix: &[usize]| BLOCKS[ix[0]].replacen(" A", &format!(" data-probe=\"p\" {}=\"{}\"", names[ix[1]], VALUES[ix[2]].0), 1);
    let n2 = names.clone();
    let n3 = names.clone();
    c.families.push(product_family("one-argument", "every attribute-taking block x every name in three casings x every value", &[BLOCKS.len(), names.len(), VALUES.len()], Box::new(move |ix| show(&n3, ix)), move |ix, cx| {
        let v = VALUES[ix[2]];
        verify(BLOCKS[ix[0]], &[(n2[ix[1]].clone(), v.0, v.1)], cx)
    }));
    let keys = ["class", "CLASS", "style", "id", "Id", "title", "onclick", "data-x", "data-X", "href", "src", "checked", "hidden", "type", "open", "disabled"];
    let vals = [("k", "k"), ("", ""), ("true", "true"), ("no", "no")];
    let n = keys.len() * vals.len();
    let few = [0usize, 1, 16, 24, 29, 31, 32, 33, 35];
    let blocks: Vec<&'static str> = few.iter().map(|i| BLOCKS[*i]).collect();
    let pick = move |i: usize| (keys[i / vals.len()].to_string(), vals[i % vals.len()].0, vals[i % vals.len()].1);
    let b2 = blocks.clone();
    let k = if thorough { 3 } else { 2 };
    let mut dims = vec![blocks.len()];
    dims.extend(vec![n; k]);
    c.families.push(product_family("several-arguments", "several arguments at once, also of the same name", &dims, Box::new(move |ix| format!("{} {:?}", b2[ix[0]], ix[1..].iter().map(|i| pick(*i)).collect::<Vec<_>>())), move |ix, cx| {
        let args: Vec<_> = ix[1..].iter().map(|i| pick(*i)).collect();
        verify(blocks[ix[0]], &args, cx)
    }));
    c
}
