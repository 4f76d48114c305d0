//! Document spaces shared by the checks whose property quantifies over all documents.
use crate::engine::*;
use std::sync::Arc;

/// Text-level constructs: every token kind of the lexer is here.
pub const TOKENS: &[&str] = &[
    "a", " ", "\n", "\n\n", "[[", "]]", "[[/", "[[[", "]]]", "[", "]", "[*", "[#", "@@", "@<", ">@", "[!--", "--]", "//", "**", "__", "--", "^^",
    ",,", "{{", "}}", "##", "||", "||~", "||=", "~~~~", "----\n", "====", "> ", "+ ", "* ", "# ", ": ", "= ", "|", "=", ":", "_", "\"x\"",
    "http://a.b", "{$a}", "<<", "~~", "é", "[[*", "((", "<", ">", "--- ", " _\n", "&", "'", "\"", "b@c.de", "``", "..",
    "))", "((bibcite ", "[[$ ", " $]]", "[[# ", "[[[*", "||<", "||>", "~~~~<", "~~~~>", "!", "\\", "{$", "-",
];

/// Complete inline constructs.
pub const INLINE: &[&str] = &[
    "a", "b c", " ", "\n", "\n\n", "**b**", "//i//", "__u__", "--s--", "^^p^^", ",,q,,", "{{m}}", "##red|c##", "##00f|d##", "@@r&@@", "@<&lt;&x;>@", "[!-- c --]",
    "[[span class=\"k\"]]s[[/span]]", "[[b]]B[[/b]]", "[[i id=\"j\"]]I[[/i]]", "[[u]]U[[/u]]", "[[s]]S[[/s]]", "[[sub]]x[[/sub]]", "[[sup]]y[[/sup]]",
    "[[tt]]t[[/tt]]", "[[mark]]m[[/mark]]", "[[ins]]n[[/ins]]", "[[del]]e[[/del]]", "[[hidden]]h[[/hidden]]", "[[invisible]]v\nw[[/invisible]]", "[[size 90%]]z[[/size]]",
    "[[ruby]]R[[rt]]T[[/rt]][[/ruby]]", "[[ruby2 T|R]]", "[[rb R|T]]", "[[a href=\"http://x.y\" target=\"_blank\"]]l[[/a]]", "[[char lt]]", "[[lines 2]]", "**", "//", "##", "&<>\"'", "{$v}", "b@c.de",
];

/// Block constructs, opened, closed and complete.
pub const BLOCKS: &[&str] = &[
    "a", "\n", "\n\n", "[[div class=\"k\"]]\n", "\n[[/div]]\n", "[[div_]]\n", "[[blockquote]]\n", "\n[[/blockquote]]\n", "[[p]]\n", "\n[[/p]]\n", "[[=]]\n", "\n[[/=]]\n", "[[>]]\nr\n[[/>]]\n",
    "[[collapsible show=\"S\" hide=\"H\" hideLocation=\"both\"]]\n", "\n[[/collapsible]]\n", "[[tabview]]\n", "[[tab T]]\n", "\n[[/tab]]\n", "\n[[/tabview]]\n",
    "[[table class=\"t\"]]\n", "[[row]]\n", "[[cell]]\n", "[[hcell]]h[[/hcell]]\n", "\n[[/cell]]\n", "[[/row]]\n", "[[/table]]\n", "[[ul]]\n", "[[li]]", "[[/li]]\n", "[[/ul]]\n", "[[ol]]\n[[li]]x[[/li]]\n[[/ol]]\n",
    "> q\n", ">> r\n", "+ H\n", "++* I\n", "= c\n", "----\n", "~~~~<\n", "[[span]]", "[[/span]]", "**b**",
];

/// Lists, tables and quotes written with line prefixes.
pub const LINES: &[&str] = &[
    "a\n", "\n", "* x\n", " * y\n", "  * z\n", "# x\n", " # y\n", "> q\n", ">> r\n", "> * s\n", ": k : v\n", ": l :\n", "|| c || d ||\n", "||~ h ||= e ||\n", "|||| w ||< l ||> r ||\n", "|| m _\nn ||\n",
    "+ H\n", "= c\n", "----\n", "* **b\n", "||||\n", "* [[div]]\n", "[[/div]]\n", "|| [[footnote]]n[[/footnote]] ||\n", "**", "* \n", ">\n", "[[ul]]\n[[li]]\n", "[[/li]]\n[[/ul]]\n",
];

/// Constructs which register something outside the main element list.
pub const SIDE: &[&str] = &[
    "a", "\n", "\n\n", "[[footnote]]F[[/footnote]]", "[[footnote]]", "[[/footnote]]", "[[footnoteblock]]\n", "[[footnoteblock title=\"T\"]]\n", "[[footnoteblock hide=\"true\"]]\n",
    "[[bibliography]]\n", "[[bibliography title=\"B\"]]\n", ": x : X\n", ": y : Y\n", "[[/bibliography]]\n", "((bibcite x))", "((bibcite y))", "[[bibcite x]]", "[[*bibcite y]]",
    "[[toc]]\n", "[[f>toc]]\n", "+ A\n", "++ B\n", "+++* C\n", "+ D **b** [[footnote]]G[[/footnote]]\n", "[[code type=\"PHP\"]]\nc1\n[[/code]]\n", "[[code name=\"n\"]]\nc2\n[[/code]]\n", "[[html]]\n<i>\n[[/html]]\n", "[[math m]]\nx\n[[/math]]\n", "[[math]]\ny\n[[/math]]\n", "[[eref m]]",
    "[[$ z $]]", "[[iftags tale]]", "[[iftags -tale]]", "[[/iftags]]", "[[div]]\n", "\n[[/div]]\n", "[[span]]", "[[/span]]", "[[include-elements p]]",
];

/// Links, images, embeds, inputs and other objects.
pub const OBJECTS: &[&str] = &[
    "a", " ", "\n", "[[[p]]]", "[[[p|l]]]", "[[[p|]]]", "[[[:s:p#q|]]]", "[[[*/local/x|L]]]", "[[[#t|an]]]", "[[[javascript:x|l]]]", "[http://x.y z]", "[*/p q]", "[#f g]", "[# h]", "[!wp:K w]", "[[[!wp:K|]]]", "http://u.v/", "*https://u.v", "#", "[[# nm]]",
    "[[a name=\"n\"]][[/a]]", "[[image i.png]]", "[[=image /p/i.png link=\"q\" alt=\"A\"]]", "[[f<image http://x/i.png class=\"c\" style=\"s\"]]", "[[image :s:p/i.png]]", "[[user U]]", "[[*user V W]]", "[[date 1]]", "[[date 2010-01-01T00:00:00Z tz=\"+1\" hover=\"false\"]]",
    "[[checkbox]]", "[[checkbox checked=\"true\" id=\"c\"]]", "[[*checkbox]]", "[[radio g]]", "[[*radio g value=\"1\"]]", "[[module Rate]]", "[[module Backlinks page=\"x\"]]", "[[module CSS]]\na { b: c }\n[[/module]]", "[[module Join]]", "[[embed youtube K]]", "[[embed vimeo 1]]", "[[embed github-gist u/h]]", "[[embed gitlab-snippet 2]]",
    "[[iframe http://x.y width=\"1\"]]", "~~~~\n", "~~~~>\n", "[[lines 3]]", "[[/a]]", "[[a]]", "[[target t]]x[[/target]]", "[[html]]h[[/html]]", "[[later]]", "[[char amp]]", "[[module css]]", "[[/module]]",
];

pub const ALL: &[(&str, &[&str])] =
    &[("tokens", TOKENS), ("inline", INLINE), ("blocks", BLOCKS), ("lines", LINES), ("side", SIDE), ("objects", OBJECTS)];

/// Contexts a piece of text can be nested in.
pub const WRAPS: &[(&str, &str)] = &[
    ("", ""),
    ("x ", " y"),
    ("\nx\n", "\ny\n"),
    ("[[div]]\n", "\n[[/div]]"),
    ("[[div]]", "[[/div]]"),
    ("[[span]]", "[[/span]]"),
    ("[[span_]]\n", "\n[[/span]]"),
    ("**", "**"),
    ("//", "//"),
    ("##blue|", "##"),
    ("* ", "\n* z"),
    ("# ", "\n # z"),
    ("> ", "\n> z"),
    (": k : ", "\n: l : z"),
    (": ", " : v"),
    ("|| ", " || z ||"),
    ("||~ ", " ||\n"),
    ("+ ", "\nz"),
    ("= ", "\nz"),
    ("[[footnote]]", "[[/footnote]]"),
    ("[[footnote]]\n", "\n[[/footnote]]\n\n[[footnoteblock]]"),
    ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[tabview]]\n[[tab T]]\n", "\n[[/tab]]\n[[tab]]\nz\n[[/tab]]\n[[/tabview]]"),
    ("[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n[[/row]]\n[[/table]]"),
    ("[[ul]]\n[[li]]", "[[/li]]\n[[li]]z[[/li]]\n[[/ul]]"),
    ("[[ul]]\n", "\n[[/ul]]"),
    ("[[bibliography]]\n: x : ", "\n[[/bibliography]]\n((bibcite x))"),
    ("((bibcite x))\n\n[[bibliography]]\n: x : ", "\n: y : z\n[[/bibliography]]"),
    ("[[iftags tale]]", "[[/iftags]]"),
    ("[[iftags -tale]]", "[[/iftags]]"),
    ("[[ruby]]", "[[rt]]t[[/rt]][[/ruby]]"),
    ("[[hidden]]", "[[/hidden]]"),
    ("[[invisible]]", "[[/invisible]]"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"),
    ("[[>]]\n", "\n[[/>]]"),
    ("[[a href=\"/p\"]]", "[[/a]]"),
    ("[[size 50%]]", "[[/size]]"),
    ("[[code]]\n", "\n[[/code]]"),
    ("[[html]]\n", "\n[[/html]]"),
    ("@@", "@@"),
    ("[!-- ", " --]"),
    ("[[div class=\"", "\"]]\nz\n[[/div]]"),
    ("[[toc]]\n\n+ H\n\n", "\n\n++ I"),
    ("[[p]]", "[[/p]]"),
    ("[[[", "]]]"),
    ("[[", "]]"),
    ("[http://x.y ", "]"),
    ("[[div]]\n[[footnote]]n[[/footnote]]\n", ""),
    ("[[span]]**", ""),
    ("", "[[/div]]"),
];

pub type DocFn = Arc<dyn Fn(&str, &mut Cx) -> Result<(), String> + Sync + Send>;

/// Every shared word space, with word lengths bounded by `n`.
pub fn words(names: &[&str], n: usize, f: &DocFn) -> Vec<Family> {
    ALL.iter()
        .filter(|(k, _)| names.is_empty() || names.contains(k))
        .map(|(k, alphabet)| {
            let f = f.clone();
            word_family(k, alphabet, n, "", "", move |doc, w, cx| {
                cx.transitions += w.len().saturating_sub(1) as u64;
                f(doc, cx)
            })
        })
        .collect()
}

/// outer(inner(symbol)) for every pair of contexts and every symbol.
pub fn nested(names: &[&str], levels: usize, f: &DocFn) -> Vec<Family> {
    let mut syms: Vec<&'static str> = Vec::new();
    for (k, a) in ALL {
        if names.is_empty() || names.contains(k) {
            for s in a.iter() {
                if !syms.contains(s) {
                    syms.push(s);
                }
            }
        }
    }
    let mut dims = vec![WRAPS.len(); levels];
    dims.push(syms.len());
    let make = move |ix: &[usize]| -> String {
        let mut d = syms[ix[levels]].to_string();
        for l in (0..levels).rev() {
            let (p, s) = WRAPS[ix[l]];
            d = format!("{p}{d}{s}");
        }
        d
    };
    let (m2, f) = (make.clone(), f.clone());
    vec![product_family(
        &format!("nested{levels}"),
        &format!("every symbol of every alphabet inside every {levels}-tuple of {} contexts", WRAPS.len()),
        &dims,
        Box::new(move |ix| make(ix)),
        move |ix, cx| f(&m2(ix), cx),
    )]
}

/// The inputs of ftml's own fixtures (up to 1200 bytes), as seeds for systematic edits.
pub fn fixtures() -> &'static [String] {
    static F: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    F.get_or_init(|| serde_json::from_str(include_str!("../data/fixtures.json")).expect("fixtures"))
}

/// Runs of letters/digits, of one repeated symbol, or single characters.
pub fn pieces(s: &str) -> Vec<&str> {
    let mut out = Vec::new();
    let mut start = 0;
    let mut prev: Option<char> = None;
    for (i, c) in s.char_indices() {
        if let Some(p) = prev {
            let same = (p.is_ascii_alphanumeric() && c.is_ascii_alphanumeric()) || (p == c && !p.is_whitespace());
            if !same {
                out.push(&s[start..i]);
                start = i;
            }
        }
        prev = Some(c);
    }
    if start < s.len() {
        out.push(&s[start..]);
    }
    out
}

pub const INSERTS: &[&str] = &[
    " ", "\n", "\n\n", "a", "**", "//", "[[", "]]", "[[/", "\"", "|", "||", "=", "@@", "[!--", "--]", "* ", "> ", "[[div]]", "[[/div]]", "[[footnote]]", "[[/footnote]]", "[[span]]", "_", "#", "*", "!",
    "[[iftags -tale]]", "[[/iftags]]", "\u{a0}", "é",
];

/// Every single edit of every fixture: deletions, duplications, swaps, prefixes, suffixes and insertions.
pub fn fixture_edits(f: &DocFn) -> Vec<Family> {
    let mut cases: Vec<(u32, u32, u32)> = Vec::new();
    for (i, s) in fixtures().iter().enumerate() {
        let n = pieces(s).len();
        for at in 0..=n {
            for kind in 0..(5 + INSERTS.len()) {
                if at == n && kind < 3 {
                    continue;
                }
                cases.push((i as u32, at as u32, kind as u32));
            }
        }
    }
    fn build(c: &(u32, u32, u32)) -> String {
        let p = pieces(&fixtures()[c.0 as usize]);
        let (at, n) = (c.1 as usize, p.len());
        match c.2 {
            0 => (0..n).filter(|&k| k != at).map(|k| p[k]).collect(),
            1 => format!("{}{}", p[..=at].concat(), p[at..].concat()),
            2 if at + 1 < n => format!("{}{}{}{}", p[..at].concat(), p[at + 1], p[at], p[at + 2..].concat()),
            2 | 3 => p[..at].concat(),
            4 => p[at..].concat(),
            k => format!("{}{}{}", p[..at].concat(), INSERTS[k as usize - 5], p[at..].concat()),
        }
    }
    let f = f.clone();
    vec![list_family("fixture-edits", "every deletion, duplication, swap, prefix, suffix and insertion of 31 symbols at every piece boundary of every fixture document", cases, build, move |c, cx| f(&build(c), cx))]
}

pub fn fixture_wraps(levels: usize, f: &DocFn) -> Vec<Family> {
    let n = fixtures().len();
    let mut dims = vec![WRAPS.len(); levels];
    dims.push(n);
    let make = move |ix: &[usize]| -> String {
        let mut d = fixtures()[ix[levels]].to_string();
        for l in (0..levels).rev() {
            let (p, s) = WRAPS[ix[l]];
            d = format!("{p}{d}{s}");
        }
        d
    };
    let (m2, f) = (make, f.clone());
    vec![product_family(
        &format!("fixture-wraps{levels}"),
        &format!("every fixture document inside every {levels}-tuple of {} contexts", WRAPS.len()),
        &dims,
        Box::new(move |ix| make(ix)),
        move |ix, cx| f(&m2(ix), cx),
    )]
}

pub fn fixture_pairs(f: &DocFn) -> Vec<Family> {
    const JOIN: [&str; 3] = ["", "\n", "\n\n"];
    let n = fixtures().len();
    let make = |ix: &[usize]| format!("{}{}{}", fixtures()[ix[0]], JOIN[ix[2]], fixtures()[ix[1]]);
    let f = f.clone();
    vec![product_family(
        "fixture-pairs",
        "every ordered pair of fixture documents, joined by nothing, a line break or a blank line",
        &[n, n, 3],
        Box::new(make),
        move |ix, cx| f(&make(ix), cx),
    )]
}

/// Every construct with every word of general markup tokens in its hole.
pub fn holes(n: usize, f: &DocFn) -> Vec<Family> {
    crate::templates::TEXT_HOLES
        .iter()
        .map(|(name, pre, post)| {
            let f = f.clone();
            word_family(&format!("hole:{name}"), TOKENS, n, pre, post, move |doc, w, cx| {
                cx.transitions += w.len().saturating_sub(1) as u64;
                f(doc, cx)
            })
        })
        .collect()
}

/// What can stand many times: before the first, one of them, after the last. `§` is a word, `¤` the number of the repetition.
const MANY: &[(&str, &str, &str)] = &[
    ("", "§[[footnote]]§[[/footnote]] ", ""),
    ("", "§[[footnote]]§[[/footnote]]\n\n", "[[footnoteblock title=\"§\"]]\n[[footnoteblock]]"),
    ("", "+ §\n", ""),
    ("[[toc]]\n", "++ §\n§\n\n+++* §\n", ""),
    ("[[tabview]]\n", "[[tab §]]\n§\n[[/tab]]\n", "[[/tabview]]\n"),
    ("[[tabview]]\n", "[[tab t]]\n[[/tab]]\n", "[[/tabview]]\n"),
    ("", "[[tabview]]\n[[tab §]]\n§\n[[/tab]]\n[[/tabview]]\n", ""),
    ("", "((bibcite k¤)) ", "\n[[bibliography]]\n: k0 : §\n: k3 : §\n: k7 : §\n: k20 : §\n[[/bibliography]]\n"),
    ("((bibcite k9))((bibcite k1))((bibcite k30))\n[[bibliography]]\n", ": k¤ : §\n", "[[/bibliography]]\n"),
    ("((bibcite k9))((bibcite k1))((bibcite k30))\n", "[[bibliography]]\n: k¤ : §\n: k : §\n[[/bibliography]]\n", "((bibcite k))"),
    ("", "[[code]]\n§\n[[/code]]\n", ""),
    ("", "[[code type=\"css\" name=\"n¤\"]]\n§\n[[/code]]\n", ""),
    ("", "[[html]]\n§\n[[/html]]\n", ""),
    ("", "[[math m¤]]\n§\n[[/math]]\n", "[[eref m1]] [[eref m11]]"),
    ("", "[[math]]\n§\n[[/math]]\n", ""),
    ("", "[[$ § $]] ", ""),
    ("", "* §\n", ""),
    ("", "# §\n", ""),
    ("", "* §\n # §\n", ""),
    ("[[ul]]\n", "[[li]]§[[/li]]\n", "[[/ul]]\n"),
    ("", "|| § ", "||\n"),
    ("", "||~ §", "||\n||§||\n"),
    ("", "|| § ||= § ||\n", ""),
    ("", "||", " § ||\n"),
    ("[[table]]\n[[row]]\n", "[[cell]]§[[/cell]]\n", "[[/row]]\n[[/table]]\n"),
    ("[[table]]\n", "[[row]]\n[[cell]]§[[/cell]]\n[[/row]]\n", "[[/table]]\n"),
    ("", "> §\n", ""),
    ("", "> §\n>> §\n", ""),
    ("", ": § : §\n", ""),
    ("", "§\n\n", ""),
    ("", "§\n", ""),
    ("", "§ _\n", ""),
    ("", "§ ", ""),
    ("", "= §\n", ""),
    ("", "----\n", ""),
    ("", "~~~~\n", ""),
    ("", "====\n", "§"),
    ("[[div]]\n§\n", "====\n§\n", "[[/div]]"),
    ("", "**§** ", ""),
    ("", "//§// __§__ --§-- {{§}} ^^§^^ ,,§,,\n", ""),
    ("", "##red|§## ", ""),
    ("", "[[span class=\"c¤\"]]§[[/span]]", ""),
    ("", "[[size 5%]]§[[/size]] ", ""),
    ("", "[[div data-u=\"1\" id=\"d¤\"]]\n§\n[[/div]]\n", ""),
    ("", "[[div]]\n", ""),
    ("", "[[/div]]\n", ""),
    ("", "[[collapsible]]\n§\n[[/collapsible]]\n", ""),
    ("", "[[blockquote]]\n§\n[[/blockquote]]\n", ""),
    ("", "[[[p¤|§]]] ", ""),
    ("", "[[[p¤]]] [[[:s¤:p]]] [[[p#a¤]]] ", ""),
    ("", "[http://e.x/¤ §] ", ""),
    ("", "http://e.x/¤ ", ""),
    ("", "[#a¤ §] [[# a¤]] ", ""),
    ("", "u¤@e.xy ", ""),
    ("", "[[image i¤.png]]\n", ""),
    ("", "[[user u¤]] [[*user v¤]] ", ""),
    ("", "[[iftags +tale]]§[[/iftags]] [[iftags -tale]]§[[/iftags]] ", ""),
    ("", "[[module Rate]]\n", ""),
    ("", "[[module CSS]]\na¤ {}\n[[/module]]\n", "§"),
    ("", "[[ruby]]§[[rt]]§[[/rt]][[/ruby]] ", ""),
    ("", "[[checkbox]] [[radio r¤]] ", ""),
    ("", "@@§@@ @< &amp; >@ ", ""),
    ("", "[!-- § --]", "§"),
    ("", "[[date ¤]] ", ""),
    ("", "[[iframe http://e.x/¤]]\n", ""),
    ("", "[[char quot]] [[lines 2]] ", "§"),
    ("", "[[a href=\"/p¤\"]]§[[/a]] ", ""),
    ("", "[[footnote]]§ ", ""),
    ("", "** ", ""),
    ("", "[[[ ", "§"),
    ("", "{$v¤} ", ""),
    ("", "-- § ... `` '' « ", ""),
];

type Repeated = (&'static str, &'static str, &'static str);

/// Each of those, and pairs of them in turn, at every number of repetitions up to a bound; those without the words in `not`.
pub fn many(max: usize, not: &[&str], f: &DocFn) -> Vec<Family> {
    let all: Vec<Repeated> = MANY.iter().filter(|(a, b, c)| !not.iter().any(|w| [a, b, c].iter().any(|t| t.contains(w)))).copied().collect();
    fn one(all: &[Repeated], ix: &[usize]) -> String {
        let (pre, unit, post) = all[ix[0]];
        let units: String = (0..ix[1] + 1).map(|i| unit.replace('¤', &i.to_string())).collect();
        crate::checks::c05::fill(&format!("{pre}{units}{post}")).0
    }
    fn turns(all: &[Repeated], ix: &[usize]) -> String {
        let ((p, u, q), (r, v, s)) = (all[ix[0]], all[ix[1]]);
        let units: String = (0..ix[2] + 2).map(|i| format!("{p}{u}{q}{r}{v}{s}").replace('¤', &i.to_string())).collect();
        crate::checks::c05::fill(&units).0
    }
    let n = all.len();
    let (a1, a2, a3, a4) = (all.clone(), all.clone(), all.clone(), all);
    let (f1, f2) = (f.clone(), f.clone());
    vec![
        product_family("many", "each of the constructs, at every number of repetitions", &[n, max], Box::new(move |ix| one(&a1, ix)), move |ix, cx| f1(&one(&a2, ix), cx)),
        product_family("in turns", "every pair of the constructs, in turns, 2 to 4 times", &[n, n, 3], Box::new(move |ix| turns(&a3, ix)), move |ix, cx| f2(&turns(&a4, ix), cx)),
    ]
}

/// Long and longer content in every place which takes text.
pub fn long(max: usize, f: &DocFn) -> Vec<Family> {
    const OF: &[&str] = &["a", "é", "a ", "1", "a-", "a\n", "&", "\"'", "A"];
    let holes = crate::templates::TEXT_HOLES;
    let make = move |ix: &[usize]| format!("{}{}{}", holes[ix[0]].1, OF[ix[1]].repeat(ix[2] + 1), holes[ix[0]].2);
    let f = f.clone();
    vec![product_family("long", &format!("{OF:?} repeated up to {max} times, in every place which takes text"), &[holes.len(), OF.len(), max], Box::new(move |ix| make(ix)), move |ix, cx| f(&make(ix), cx))]
}

/// What a page keeps apart from its text, before and within more and fewer levels than are supported.
pub fn deep(not: &[&str], f: &DocFn) -> Vec<Family> {
    const SIDE: &[&str] = &["", "[[footnote]]§[[/footnote]]", "\n+ §\n", "\n[[html]]\n§\n[[/html]]\n", "\n[[code]]\n§\n[[/code]]\n", "\n[[bibliography]]\n: x : §\n[[/bibliography]]\n((bibcite x))", "\n[[toc]]\n", "\n[[footnoteblock]]\n", "\n[[math m]]\n§\n[[/math]]\n"];
    const OPEN: &[(&str, &str)] = &[("[[span]]", "[[/span]]"), ("[[div]]\n", "\n[[/div]]\n"), ("{{[[b]]", "[[/b]]}}"), ("[[size 1%]]**", "**[[/size]]")];
    let side: Vec<&'static str> = SIDE.iter().filter(|s| !not.iter().any(|w| s.contains(w))).copied().collect();
    let make = {
        let side = side.clone();
        move |ix: &[usize]| {
            let ((o, c), d) = (OPEN[ix[1]], if ix[1] < 2 { ix[2] + 95 } else { ix[2] + 46 });
            crate::checks::c05::fill(&format!("{}\n{}{}§{}\n{}", side[ix[0]], o.repeat(d), side[ix[3]], c.repeat(d), side[ix[0]])).0
        }
    };
    let (f, m2, n) = (f.clone(), make.clone(), side.len());
    vec![product_family("deep", "what a page keeps apart from its text, before, within and after 46 to 103 levels", &[n, OPEN.len(), 8, n], Box::new(move |ix| make(ix)), move |ix, cx| f(&m2(ix), cx))]
}

/// Many constructs, and long content.
pub fn scale(thorough: bool, f: &DocFn) -> Vec<Family> {
    let mut v = many(if thorough { 120 } else { 40 }, &[], f);
    v.extend(long(if thorough { 300 } else { 140 }, f));
    v.extend(deep(&[], f));
    v
}

/// The usual combination.
pub fn standard(thorough: bool, f: DocFn) -> Vec<Family> {
    let mut v = words(&[], if thorough { 4 } else { 3 }, &f);
    v.extend(nested(&[], 2, &f));
    v.extend(fixture_edits(&f));
    v.extend(fixture_wraps(1 + thorough as usize, &f));
    v.extend(holes(2, &f));
    v.extend(scale(thorough, &f));
    if thorough {
        v.extend(nested(&["inline", "side"], 3, &f));
        v.extend(fixture_pairs(&f));
    }
    v
}

/// The same families under names of their own, where a check uses a space more than once.
pub fn named(label: &str, mut v: Vec<Family>) -> Vec<Family> {
    for f in &mut v {
        f.name = format!("{label}: {}", f.name);
    }
    v
}
