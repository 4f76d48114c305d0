//! C18 lists, C19 quotes, C20 tables, C21 inline formatting, C22 raw text and comments, C23 paragraphs, C29 definition
//! lists, C34 line markers: each explores the texts its property is about against the reference parser (see grammar).
use super::grammar::*;
use super::*;

const RULE: &str = "distinct canonical DOMs; every document's HTML is compared with the reference rendering of what the reference grammar makes of its text";
const LIST_LINES: &[&str] = &["* %", "# %", " * %", " # %", "  * %", "  # %", "   * %", "%", " %", "*%", "* ", ""];
const LIST_DEPTHS: &[&str] = &["* %", "# %", " * %", " # %", "  * %", "  # %", "   * %", "   # %"];
const LIST_TOKENS: &[&str] = &["* ", " ", "# ", "a", "\n", "\n\n", "*", "#", "**", " _\n", "                    * b", "                     * c", "@@d@@", "+ ", "[!--\n--]", ": e : f"];
pub fn lists(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.families.extend((1..=5).map(|n| lines("list lines", LIST_LINES, n)));
    c.families.extend((1..=6 + x).map(|n| lines("list depths", LIST_DEPTHS, n)));
    c.families.extend(words("list tokens", LIST_TOKENS, 4 + x, PLAIN));
    c.families.extend(words("list tokens", LIST_TOKENS, 3 + x, &[("* x\n", "\n* y"), (" # ", "\n  * y"), ("> ", "\n> * y"), ("|| ", " ||"), ("**", "**"), ("##c|", "##")]));
    if thorough {
        c.families.push(lines("list lines", LIST_LINES, 6));
    }
    c.families.push(chars(&["*§a", "§* a", "* a\n§* b", "* §", "* a§\n* b", "#§ a", " *§ b", "* a\n *§b"]));
    edits(&mut c, thorough);
    c.at_least = vec![("list", 100_000)];
    c
}

const QUOTE_LINES: &[&str] = &["> %", ">> %", ">>> %", ">%", "> ", "%", " > %", "", "> **%", "> %**", ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>> %", ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>> %"];
const QUOTE_DEPTHS: &[&str] = &["> %", ">> %", ">>> %", ">>>> %", ">%", ">"];
const QUOTE_TOKENS: &[&str] = &["> ", ">", ">> ", "a", " ", "\n", "\n\n", "**", "* ", "@<", ">@", " _\n", "+ ", "[!--\n--]", "##c|", "##", "<<"];
pub fn quotes(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.families.extend((1..=5).map(|n| lines("quote lines", QUOTE_LINES, n)));
    c.families.extend((1..=6 + x).map(|n| lines("quote depths", QUOTE_DEPTHS, n)));
    c.families.extend(words("quote tokens", QUOTE_TOKENS, 4 + x, PLAIN));
    c.families.extend(words("quote tokens", QUOTE_TOKENS, 3 + x, &[("> x\n", "\n>> y"), ("x\n", "\n> y"), ("|| ", " ||"), ("* ", "\n> y"), ("> **", "**")]));
    c.families.push(chars(&[">§a", "§> a", "> a\n§> b", ">> a\n>§b", "> a§\n> b", ">§"]));
    edits(&mut c, thorough);
    c.at_least = vec![("quote", 50_000)];
    c
}

const CELLS: &[&str] = &["|| % ", "||~ % ", "||= %", "||< % ", "||> %", "|| ", "|||| % ", "||||~ % ", "||||||= % ", "||", " ||\n", "||\n", "\n", "\n\n"];
const TABLE_TOKENS: &[&str] = &["||", "|", "~", "=", "<", ">", " ", "a", "\n", "\n\n", "|| ", " ||", "**", " _\n", "##c|b##", "[!--||--]", "@@||@@", "* "];
pub fn tables(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    let make = |ix: &[usize]| ix.iter().enumerate().map(|(i, &k)| CELLS[k].replace('%', &"abcdefghij"[i..i + 1])).collect::<String>();
    for n in 1..=5 + x {
        c.families.push(product_family("cells", &format!("all sequences of {n} of {CELLS:?}, where % is a letter of its own in each"), &vec![CELLS.len(); n], Box::new(make), move |ix, cx| compare(&make(ix), cx)));
    }
    for (p, s) in [("|| x || y ||\n", ""), ("", "\n|| y ||"), ("|| ", " ||"), ("> ", ""), ("**", "**")] {
        for n in 1..=3 + x {
            let m = move |ix: &[usize]| format!("{p}{}{s}", make(ix));
            c.families.push(product_family(&format!("cells in {p:?}..{s:?}"), &format!("all sequences of {n} of {CELLS:?}"), &vec![CELLS.len(); n], Box::new(m), move |ix, cx| compare(&m(ix), cx)));
        }
    }
    c.families.extend(words("table tokens", TABLE_TOKENS, 4 + x, PLAIN));
    c.families.extend(words("table tokens", TABLE_TOKENS, 3 + x, &[("|| ", " || z ||"), ("|| a ||", "||"), ("|| a ||\n", "||\n|| b ||"), ("x\n|| ", " ||\ny")]));
    c.families.push(chars(&["||§a||", "|| a ||§", "|| a§|| b ||", "||§||", "§|| a ||", "|| a ||\n§|| b ||", "|| a || b ||§\n|| c ||", "|§|a||", "|| a |§| b ||"]));
    edits(&mut c, thorough);
    c.at_least = vec![("table", 50_000)];
    c
}

const MARKS: &[&str] = &["**", "//", "__", "--", "~~", "^^", ",,", "{{", "}}", "##", "##ab|", "a", " ", "\n", "\n\n"];
const MARKS_FEW: &[&str] = &["**", "//", "{{", "}}", "##c|", "##", "--", "a", " ", "\n"];
const MARKS_ODD: &[&str] = &["**", "*", "//", "/", "__", "_", "--", "-", "---", "##", "#", "|", "f", "@@", "+ ", "* ", "|| ", " ||", "> ", ": ", " _\n", " ", "\n", "é", "[!--x--]"];
pub fn formatting(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.families.extend(words("markers", MARKS, 5, PLAIN));
    c.families.extend(words("few markers", MARKS_FEW, 6, PLAIN));
    c.families.extend(words("odd markers", MARKS_ODD, 3 + x, PLAIN));
    c.families.extend(words("odd markers", MARKS_ODD, 3 + x, &[("**a", "b**"), ("//a ", "**b")]));
    c.families.extend(words("markers", MARKS, 3 + x, &[("**", "**"), ("//a **b ", " c** d//"), ("* ", "\n* b"), ("|| ", " || b ||"), ("> ", "\n> b"), (": ", " : b"), (": b : ", ""), ("+ ", ""), ("##red|", "##")]));
    for (o, e) in [("**", "**"), ("//", "//"), ("__", "__"), ("--", "--"), ("~~", "~~"), ("^^", "^^"), (",,", ",,"), ("{{", "}}"), ("##a|", "##")] {
        for (o2, e2) in [("**", "**"), ("//", "//"), ("{{", "}}"), ("--", "--"), ("##", "##")] {
            c.families.push(word_family(&format!("pair {o} {o2}"), &[Box::leak(o.to_string().into_boxed_str()), e, o2, e2, "a", " ", "\n"], 5 + x, "", "", |d, _, cx| compare(d, cx)));
        }
    }
    if thorough {
        c.families.extend(words("few markers", MARKS_FEW, 7, PLAIN));
    }
    c.families.push(chars(&["**§a**", "**a§**", "§**a**", "**a**§", "a//§//b", "--§a--", "--a§--", "##§|a##", "##re§|a##", "##red§a##", "{{§}}", "^^a§^^", ",,§a,,", "__a§b__", "a-§-b", "##00f§|a##"]));
    edits(&mut c, thorough);
    c.at_least = vec![("span", 100_000), ("color", 10_000)];
    c
}

const RAW: &[&str] = &["@@", "@", "@<", ">@", "<", ">", "&", "&lt;", "&#33;", "**", "[!--", "--]", "a", " ", "\n", "\n\n"];
const RAW_MORE: &[&str] = &["@@", "@<", ">@", "[!--", "--]", "|| ", "* ", "> ", "+ ", "{{", "}}", "##c|", "##", "\"", "http://a.b", "é", "----", "--", "{$a}", "'", "]]", "a", " ", "\n"];
pub fn raw(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.families.extend(words("raw", RAW, 5, PLAIN));
    c.families.extend(words("raw", RAW, 3 + x, &[("* ", "\n* b"), ("|| ", " || b ||"), ("> ", "\n> b"), (": ", " : b"), (": b : ", ""), ("+ ", ""), ("##red|", "##"), ("**", "**"), ("= ", ""), ("@@", "@@"), ("@<", ">@"), ("[!--", "--]")]));
    c.families.extend(words("raw and more", RAW_MORE, 4, PLAIN));
    c.families.extend(words("raw and more", RAW_MORE, 2 + x, &[("@@", "@@ b"), ("a @<", ">@"), ("[!-- ", " --]"), ("a\n[!--", "--]\nb"), ("|| @@", "@@ ||")]));
    c.families.push(chars(&["@@§@@", "@@@@§", "@@@§@@", "§@@a@@", "@@a@@§", "@<§>@", "@<&§;>@", "@<&#§;>@", "@<&#x§;>@", "[!--§--]", "[!-§-a--]", "[!--a-§-]", "@§@a@@", "@@a@§@"]));
    edits(&mut c, thorough);
    c.at_least = vec![("raw", 50_000), ("comment", 30_000)];
    c
}

const ENTRY_LINES: &[&str] = &[": % : v", ":  %  :  w x ", ": **%** : __v__", ": % :v", ": %: v", ":% : v", ": % :", ": % : ", ": : %", " : % : v", "%", "", ": a b : c : %"];
const ENTRY_TOKENS: &[&str] = &[":", " ", ": ", " : ", "a", "\n", "\n\n", "**", " _\n", "@@ : @@", "##c| b##", "[!-- : --]", "* ", "{{", "}}", "é"];
pub fn definitions(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.families.extend((1..=5).map(|n| lines("entry lines", ENTRY_LINES, n)));
    c.families.extend(words("entry tokens", ENTRY_TOKENS, 5, PLAIN));
    c.families.extend(words("entry tokens", ENTRY_TOKENS, 3 + x, &[(": ", " : b"), (": b : ", ""), (": b : ", "\n: d : e"), ("|| ", " ||"), ("x\n", "\n: d : e"), ("**", "**")]));
    c.families.push(chars(&[":§a : b", ": a§: b", ": a :§b", ": a : b§\n: c : d", "§: a : b", ": a : b\n§: c : d", ": §", ": a : b\n:§c"]));
    edits(&mut c, thorough);
    c.families.push(keys(4 + x));
    c.at_least = vec![("definitions", 50_000)];
    c
}

/// The raw term kept with each entry.
fn keys(n: usize) -> Family {
    word_family("raw terms", ENTRY_TOKENS, n, ": ", " : v", |d, _, cx| {
        let mut s = d.to_string();
        ftml::preprocess(&mut s);
        fn find(es: &[ftml::tree::Element<'_>]) -> Vec<String> {
            es.iter()
                .flat_map(|e| match e {
                    ftml::tree::Element::DefinitionList(l) => l.iter().map(|i| i.key_string.to_string()).collect(),
                    _ => vec![],
                })
                .collect()
        }
        let Some((tree, _)) = crate::refparse::parse(&s) else { return Ok(()) };
        let want = find(&tree.elements);
        cx.runs += 1;
        cx.state(&want.join("\n"));
        let got = crate::doc::page(d, |_, t, _| find(&t.elements));
        if want != got {
            return Err(format!("raw terms: expected {want:?}, found {got:?}"));
        }
        Ok(())
    })
}

const MARKED: &[&str] = &["+ %", "++ %", "+++* %", "++++++ %", "+++++++ %", "+%", " + %", "+ ", "= %", "=%", " = %", "== %", "---", "----", "---- %", "--", " ----", "~~~~", "~~~~<", "~~~>%", "~~~~ %", " ~~~~", "%", "", "+** %", "+* %"];
const MARKER_TOKENS: &[&str] = &["+", "++", "*", "=", " ", "-", "---", "~~~", "<", ">", "a", "\n", "\n\n", "**", " _\n", "* ", "[!--\n--]"];
pub fn markers(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    c.families.extend((1..=3 + x).map(|n| lines("marked lines", MARKED, n)));
    c.families.extend(words("marker tokens", MARKER_TOKENS, 5, PLAIN));
    c.families.extend(words("marker tokens", MARKER_TOKENS, 3 + x, &[("* ", "\n+ b"), ("|| ", " ||"), ("> ", "\n= b"), ("**", "**"), (": b : ", "\n----"), ("x\n", "\ny"), ("+ ", "\n+ b")]));
    c.families.push(chars(&["+§a", "§+ a", "+ a§\nb", "++§ a", "+*§a", "=§a", "§= a", "----§", "---§-", "§----", "~~~~§", "~~~~<§", "----\n§", "= a\n§"]));
    edits(&mut c, thorough);
    c.at_least = vec![("heading", 30_000), ("center", 10_000), ("rule", 10_000), ("clear", 10_000)];
    c
}

const PARTS: &[&str] = &["a", "**b**\nc", "* d\n * e", "|| f || g ||", "> h\n> i", ">> h2", ": j : k", "+ l", "= m", "----", "~~~~", "n _\no", "@@p@@", "# q", "//r", "|| s", ": t", "* **u", "[!-- v --]", " w"];
const PARA_TOKENS: &[&str] = &["a", " ", "\n", "\n\n", "\n\n\n", "**", "* ", "> ", "+ ", "= ", "----", "|| ", " ||", ": ", " : ", " _\n", "[!--x--]"];
pub fn paragraphs(thorough: bool) -> Check {
    let x = thorough as usize;
    let mut c = Check::new(RULE);
    for sep in ["\n\n", "\n"] {
        for n in 2..=4 {
            let make = move |ix: &[usize]| ix.iter().map(|&k| PARTS[k]).collect::<Vec<_>>().join(sep);
            c.families.push(product_family(&format!("parts joined by {sep:?}"), &format!("all sequences of {n} of {PARTS:?}"), &vec![PARTS.len(); n], Box::new(make), move |ix, cx| compare(&make(ix), cx)));
        }
    }
    c.families.extend(words("paragraph tokens", PARA_TOKENS, 5, PLAIN));
    if thorough {
        c.families.extend(words("paragraph tokens", PARA_TOKENS, 6, PLAIN));
    }
    c.families.extend(words("paragraph tokens", PARA_TOKENS, 3 + x, &[("a\n\n", "\n\nb"), ("* c\n", "\n> d"), ("a\n", "\nb")]));
    c.families.push(chars(&["a\n§\nb", "a§\n\nb", "a\n\n§b", "§a", "a§", "a\n§b", "a _§b", "a§_\nb"]));
    edits(&mut c, thorough);
    c
}
