//! C30: the limit of nesting.
use super::grammar::*;
use super::*;
use crate::doc::*;

const OVER: &str = "documents beyond the limit";

/// The document against the reference; beyond the limit, nothing but the text and one warning may be left.
fn limited(doc: &str, cx: &mut Cx) -> Result<(), String> {
    let st = page_settings();
    compare_then(doc, &st, &st, cx, |tree, errs, used, _| {
        if !used.contains(&OVER) {
            return Ok(());
        }
        if errs.len() != 1 || !tree.table_of_contents.is_empty() || tree.bibliographies.next_index() > 0 || !tree.footnotes.is_empty() || !tree.html_blocks.is_empty() || !tree.code_blocks.is_empty() {
            return Err(format!("too deep, but there is more than one warning, or content: {errs:?} {tree:?}"));
        }
        Ok(())
    })
}

/// Openings, the closings, and whether the construct is inline.
pub const NESTS: &[(&str, &str)] = &[
    ("[[div]]\n", "\n[[/div]]"), ("[[div_]]", "[[/div]]"), ("[[span]]", "[[/span]]"), ("[[blockquote]]\n", "\n[[/blockquote]]"), ("[[=]]\n", "\n[[/=]]"), ("[[==]]\n", "\n[[/==]]"), ("[[a href=\"/x\"]]", "[[/a]]"), ("[[b]]", "[[/b]]"), ("[[i]]", "[[/i]]"), ("[[size 2em]]", "[[/size]]"), ("[[hidden]]", "[[/hidden]]"),
    ("[[invisible]]", "[[/invisible]]"), ("[[mark]]", "[[/mark]]"), ("[[collapsible]]\n", "\n[[/collapsible]]"), ("[[p]]\n", "\n[[/p]]"), ("[[ul]]\n[[li]]\n", "\n[[/li]]\n[[/ul]]"), ("[[ol]][[li]]", "[[/li]][[/ol]]"), ("[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]"), ("[[tabview]]\n[[tab t]]\n", "\n[[/tab]]\n[[/tabview]]"),
    ("[[ruby]][[rt]]", "[[/rt]][[/ruby]]"), ("[[iftags tale]]", "[[/iftags]]"), ("[[ifcategory _default]]\n", "\n[[/ifcategory]]"), ("**", "**"), ("//", "//"), ("__", "__"), ("^^", "^^"), (",,", ",,"), ("{{", "}}"), ("##red|", "##"), ("* ", ""), ("|| ", " ||"), ("> ", ""), (": k : ", ""), ("+ ", ""), ("[!--", "--]"), ("[[[x|", "]]]"), ("[[del]]", "[[/del]]"),
    ("[[footnote]]", "[[/footnote]]"), ("= ", ""), ("~~~~", ""), ("--", "--"),
];

const DEPTHS: &[usize] = &[1, 2, 3, 8, 24, 25, 26, 32, 33, 34, 40, 48, 49, 50, 51, 52, 64, 65, 66, 67, 68, 80, 96, 97, 98, 99, 100, 101, 102, 103, 110, 200];

const FEW: &[usize] = &[1, 2, 8, 33, 34, 49, 50, 51, 66, 67, 99, 100, 101, 110, 200];

fn nest(levels: impl Iterator<Item = usize>, leaf: &str, closed: bool) -> String {
    let (mut open, mut close) = (String::new(), String::new());
    for l in levels {
        open.push_str(NESTS[l].0);
        close.insert_str(0, NESTS[l].1);
    }
    if closed { format!("{open}{leaf}{close}") } else { format!("{open}{leaf}") }
}

/// What ends up outside the element list, to be put before, within and behind what is too deep.
const SIDE: &[&str] = &[
    "", "[[footnote]]f[[/footnote]]", "\n[[code name=\"n\"]]\nc\n[[/code]]\n", "\n[[html]]\nh\n[[/html]]\n", "\n+ H\n", "\n[[bibliography]]\n: a : b\n[[/bibliography]]\n", "((bibcite a))", "\n[[footnoteblock]]\n", "\n[[toc]]\n", "[[math m]]x[[/math]]", "**", "[[div", "<&>\"'", "é\u{a0}", "[!--", "@@", "\n\n", "...", "`` '",
];

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("distinct canonical DOMs of nested documents; each is compared with the reference parser's, and those beyond the limit have to have a single warning and no side content");
    let n = NESTS.len();
    let make = |ix: &[usize]| nest((0..ix[1] + 1).map(|_| ix[0]), ["x", "", "x\n\ny"][ix[2]], ix[3] == 0);
    c.families.push(product_family("depths", "every construct within itself x every depth 1-130 x leaf x closed or not", &[n, 130, if thorough { 3 } else { 1 }, 2], Box::new(make), move |ix, cx| limited(&make(ix), cx)));
    let depths = if thorough { DEPTHS } else { FEW };
    let make = move |ix: &[usize]| nest((0..depths[ix[2]]).map(|k| ix[k % 2]), "x", ix[3] == 0);
    c.families.push(product_family("alternating", "every ordered pair of constructs, alternating x depths x closed or not", &[n, n, depths.len(), if thorough { 2 } else { 1 }], Box::new(make), move |ix, cx| limited(&make(ix), cx)));
    // one construct within the depths of another
    let make = move |ix: &[usize]| {
        let at = 94 + ix[2];
        nest((0..at + 3).map(|k| if k >= at && k < at + 1 + ix[3] { ix[1] } else { ix[0] }), "x", true)
    };
    c.families.push(product_family("around the limit", "one to three levels of every construct at every depth 94-102 of every other", &[n, n, 9, if thorough { 3 } else { 1 }], Box::new(make), move |ix, cx| limited(&make(ix), cx)));
    let uses = super::c27::pool();
    let u = uses.len();
    let first = if thorough { 96 } else { 98 };
    let make = move |ix: &[usize]| nest((0..first + ix[2]).map(|_| ix[0]), uses[ix[1]], true);
    let m = make.clone();
    c.families.push(product_family("leaves around the limit", "every construct at depths around the limit of every other", &[n, u, if thorough { 6 } else { 3 }], Box::new(make), move |ix, cx| limited(&m(ix), cx)));
    let s = SIDE.len();
    let make = move |ix: &[usize]| format!("{}{}{}", SIDE[ix[0]], nest((0..[3, 99, 100, 101, 98, 140][ix[4]]).map(|_| [2, 17, 20, 0, 22, 28][ix[1]]), SIDE[ix[2]], true), SIDE[ix[3]]);
    c.families.push(product_family("side content", "side content before x within x behind what is nested to the limit and beyond", &[s, if thorough { 6 } else { 3 }, s, if thorough { s } else { 4 }, if thorough { 6 } else { 4 }], Box::new(make), move |ix, cx| limited(&make(ix), cx)));
    if thorough {
        // periods of three
        let make = move |ix: &[usize]| nest((0..[33, 66, 98, 99, 100, 101, 102, 150][ix[3]]).map(|k| ix[k % 3]), "x", true);
        c.families.push(product_family("alternating triples", "every ordered triple of constructs, alternating x depths", &[n, n, n, 8], Box::new(make), move |ix, cx| limited(&make(ix), cx)));
    }
    c.at_least = vec![(OVER, 15_000)];
    c
}
