//! Constructs with one hole: (name, text before, text after).
pub const TEXT_HOLES: &[(&str, &str, &str)] = &[
    ("plain", "", ""),
    ("middle", "x", "y"),
    ("bold", "**x", "y**"),
    ("color", "##red|x", "y##"),
    ("color-value", "##x", "|y##"),
    ("raw", "@@x", "x@@"),
    ("raw-angle", "@<x", "x>@"),
    ("list", "* x", "y"),
    ("quote", "> x", "y"),
    ("heading", "+ x", "y\n\n[[toc]]"),
    ("cell", "||x", "y||"),
    ("hcell", "||~ x", "y||"),
    ("definition-key", ": x", "y : d"),
    ("definition-value", ": k : x", "y"),
    ("footnote", "[[footnote]]x", "y[[/footnote]]"),
    ("footnote-title", "[[footnote]]f[[/footnote]]\n\n[[footnoteblock title=\"x", "y\"]]"),
    ("bib-title", "[[bibliography title=\"x", "y\"]]\n: a : b\n[[/bibliography]]\n((bibcite a))"),
    ("bib-label", "[[bibliography]]\n: x", "y : b\n[[/bibliography]]\n((bibcite xy))"),
    ("bib-entry", "[[bibliography]]\n: a : x", "y\n[[/bibliography]]\n((bibcite a))"),
    ("bib-cite", "((bibcite x", "y))"),
    ("code", "[[code]]\nx", "y\n[[/code]]"),
    ("code-type", "[[code type=\"x", "y\"]]\nc\n[[/code]]"),
    ("code-name", "[[code name=\"x", "y\"]]\nc\n[[/code]]"),
    ("html", "[[html]]\nx", "y\n[[/html]]"),
    ("collapsible-show", "[[collapsible show=\"x", "y\" hide=\"h\"]]\nc\n[[/collapsible]]"),
    ("collapsible-hide", "[[collapsible show=\"s\" hide=\"x", "y\" hidelocation=\"both\"]]\nc\n[[/collapsible]]"),
    ("collapsible", "[[collapsible]]\nx", "y\n[[/collapsible]]"),
    ("tab-label", "[[tabview]]\n[[tab x", "y]]\nc\n[[/tab]]\n[[/tabview]]"),
    ("tab", "[[tabview]]\n[[tab t]]\nx", "y\n[[/tab]]\n[[/tabview]]"),
    ("div-class", "[[div class=\"x", "y\"]]\nc\n[[/div]]"),
    ("div-style", "[[div style=\"x", "y\"]]\nc\n[[/div]]"),
    ("div-id", "[[div id=\"x", "y\"]]\nc\n[[/div]]"),
    ("div-data", "[[div data-a=\"x", "y\"]]\nc\n[[/div]]"),
    ("div-title", "[[div title=\"x", "y\"]]\nc\n[[/div]]"),
    ("div-key", "[[div x", "y=\"v\"]]\nc\n[[/div]]"),
    ("div-data-key", "[[div data-x", "y=\"v\"]]\nc\n[[/div]]"),
    ("span-class", "[[span class=\"x", "y\"]]c[[/span]]"),
    ("span-hidden", "[[span hidden=\"x", "y\"]]c[[/span]]"),
    ("block-name", "[[x", "y]]c[[/x]]"),
    ("size", "[[size x", "y]]c[[/size]]"),
    ("anchor-href", "[[a href=\"x", "y\"]]c[[/a]]"),
    ("anchor-target", "[[a href=\"/p\" target=\"x", "y\"]]c[[/a]]"),
    ("anchor-name", "[[# x", "y]]"),
    ("target", "[[target x", "y]]c[[/target]]"),
    ("image-source", "[[image x", "y]]"),
    ("image-url", "[[image http://x", "y]]"),
    ("image-alt", "[[image i.png alt=\"x", "y\"]]"),
    ("image-link", "[[image i.png link=\"x", "y\"]]"),
    ("image-style", "[[image i.png style=\"x", "y\"]]"),
    ("link-triple", "[[[x", "y]]]"),
    ("link-triple-label", "[[[p | x", "y]]]"),
    ("link-triple-extra", "[[[p#x", "y | l]]]"),
    ("link-triple-url", "[[[http://a/x", "y | l]]]"),
    ("link-page-title", "[[[p", "q|]]]"),
    ("link-single", "[http://a/x", "y l]"),
    ("link-single-label", "[http://a/ x", "y]"),
    ("link-single-local", "[/x", "y l]"),
    ("link-anchor", "[#x", "y l]"),
    ("link-anchor-label", "[# x", "y]"),
    ("link-interwiki", "[!wikipedia:x", "y l]"),
    ("url", "http://a/x", "y"),
    ("email", "x", "y@example.com"),
    ("user", "[[user x", "y]]"),
    ("user-avatar", "[[*user x", "y]]"),
    ("date-format", "[[date 1 format=\"x", "y\"]]"),
    ("checkbox", "[[checkbox id=\"x", "y\"]]"),
    ("radio", "[[radio x", "y]]"),
    ("math", "[[math]]\nx", "y\n[[/math]]"),
    ("math-name", "[[math x", "y]]\nz\n[[/math]] [[eref x]]"),
    ("math-inline", "[[$ x", "y $]]"),
    ("eref", "[[eref x", "y]]"),
    ("embed-youtube", "[[embed youtube x", "y]]"),
    ("embed-gist", "[[embed github-gist u/x", "y]]"),
    ("embed-attr", "[[embed youtube k class=\"x", "y\"]]"),
    ("iframe", "[[iframe http://x", "y]]"),
    ("iframe-attr", "[[iframe http://x title=\"x", "y\"]]"),
    ("module", "[[module x", "y]]"),
    ("module-arg", "[[module Backlinks page=\"x", "y\"]]"),
    ("module-join", "[[module Join class=\"x", "y\"]]"),
    ("iftags", "[[iftags x", "y]]c[[/iftags]]"),
    ("char", "[[char x", "y]]"),
    ("ruby", "[[ruby]]x", "y[[rt]]z[[/rt]][[/ruby]]"),
    ("ruby-text", "[[ruby]]a[[rt]]x", "y[[/rt]][[/ruby]]"),
    ("ruby-short", "[[rb x", "y | z]]"),
    ("list-block", "[[ul class=\"x", "y\"]]\n[[li]]c[[/li]]\n[[/ul]]"),
    ("table-block", "[[table class=\"x", "y\"]]\n[[row]]\n[[cell]]c[[/cell]]\n[[/row]]\n[[/table]]"),
    ("align", "[[>]]\nx", "y\n[[/>]]"),
    ("clear", "~~~~<\nx", "y"),
    ("variable", "{$x", "y}"),
    ("comment", "[!--x", "y--]"),
    ("include-elements", "[[include-elements x", "y]]"),
    ("invisible", "[[invisible]]x", "y[[/invisible]]"),
];
