//! C01 totality: every document, in every mode, is processed to completion by
//! every public entry point, without panic, overflow or unbounded recursion.
use super::*;
use crate::doc::*;

fn total(input: &str, modes: &[usize]) -> (usize, usize) {
    let mut s = input.to_string();
    ftml::preprocess(&mut s);
    let info = page_info();
    let mut shape = (0, 0);
    for &m in modes {
        let st = settings(MODES[m]);
        with_parse(&s, &info, &st, |_, tree, errs| {
            let h = html_of(tree, &info, &st);
            let t = text_of(tree, &info, &st);
            shape = (h.body.len() + t.len(), errs.len());
        });
    }
    shape
}

fn fam(name: &str, alphabet: &[&str], n: usize, pre: &str, suf: &str, modes: &'static [usize]) -> Family {
    word_family(name, alphabet, n, pre, suf, move |doc, w, cx| {
        let (a, b) = total(doc, modes);
        cx.runs += modes.len() as u64;
        cx.transitions += w.len() as u64;
        cx.states.insert(fnv(format!("{a}/{b}").as_bytes()));
        if b > 0 {
            cx.bump("documents_with_warnings", 1);
        }
        Ok(())
    })
}

pub fn check(thorough: bool) -> Check {
    let mut c = Check::new("");
    let x = thorough as usize;
    // every token kind
    let tokens = [
        "a", " ", "\n", "\n\n", "[[", "]]", "[[/", "[[[", "]]]", "[", "]", "[*", "[#", "@@", "@<", ">@", "[!--", "--]", "//", "**", "__", "--",
        "^^", ",,", "{{", "}}", "##", "||", "||~", "~~~~", "----", "----\n", "====", "> ", "+ ", "* ", "# ", ": ", "= ", "|", "=", ":", "_", "\"", "\"x\"", "http://a.b", "{$a}",
        "<<", "~~", "é", "[[*", "((", "<", ">", "--- ", " _\n", "\\\n",
    ];
    c.families.push(fam("tokens", &tokens, 3 + x, "", "", &[0]));
    let blocks = [
        "a", "\n", "[[div]]", "[[/div]]", "[[footnote]]", "[[/footnote]]", "[[footnoteblock]]", "[[ul]]", "[[/ul]]", "[[li]]", "[[/li]]", "[[table]]", "[[/table]]",
        "[[row]]", "[[/row]]", "[[cell]]", "[[/cell]]", "[[tabview]]", "[[/tabview]]", "[[tab x]]", "[[/tab]]", "[[collapsible]]", "[[/collapsible]]",
        "[[bibliography]]", "[[/bibliography]]", ": x : ", "((bibcite x))", "[[iftags a]]", "[[/iftags]]", "[[code]]", "[[/code]]", "[[html]]", "[[/html]]", "[[math x]]", "[[/math]]",
        "[[eref x]]", "[[toc]]", "+ h", "* x", "> ", "[[include a]]", "[[module rate]]", "[[user x]]", "[[*user x]]", "[[image x]]", "[[span]]", "[[/span]]", "[[ruby]]", "[[rt]]", "[[/rt]]", "[[/ruby]]",
    ];
    c.families.push(fam("blocks", &blocks, 3 + x, "", "", &[0]));
    let all: &'static [usize] = &[0, 1, 2, 3, 4];
    let page: &'static [usize] = &[0];
    let over = move |modes: &'static [usize]| -> crate::corpus::DocFn {
        std::sync::Arc::new(move |doc: &str, cx: &mut Cx| {
            let (a, b) = total(doc, modes);
            cx.runs += modes.len() as u64;
            cx.states.insert(fnv(format!("{a}/{b}").as_bytes()));
            if b > 0 {
                cx.bump("documents_with_warnings", 1);
            }
            Ok(())
        })
    };
    c.families.extend(crate::corpus::standard(thorough, over(page)));
    let mut w = crate::corpus::words(&[], 2, &over(all));
    w.extend(crate::corpus::fixture_wraps(1, &over(all)));
    for f in &mut w {
        f.name = format!("all-modes:{}", f.name);
    }
    c.families.extend(w);
    // every construct within every other
    c.families.push(super::c25::nestings("chains", super::c25::BODIES, 3, &["", "\n"], &["a", "", "\n\n"], over(page)));
    c.families.push(super::c25::nestings("chains", super::c25::PARTIALS, 4 + x, &["", "\n"], &["a"], over(page)));
    // raw text, not preprocessed, with control characters and other scripts
    let odd = ["a", "\0", "\r", "\u{b}", "\u{feff}", "\u{200b}", "\u{a0}", "\u{2028}", "𝒜", "é", "\u{301}", "[[", "]]", "**", "\"", "\\", "\t", "@@", "\n", "[[div class=\"", "* ", "http://"];
    c.families.push(word_family("unprocessed", &odd, 3 + x, "", "", |doc, _, cx| {
        let (info, st) = (page_info(), page_settings());
        with_parse(doc, &info, &st, |_, tree, errs| {
            let n = html_of(tree, &info, &st).body.len() + text_of(tree, &info, &st).len();
            cx.states.insert(fnv(format!("{n}/{}", errs.len()).as_bytes()));
        });
        cx.runs += 1;
        Ok(())
    }));
    c
}
