# The properties, in one place: tools/gen.py writes properties.jsonl and MANIFEST.json from this.
# P(id, title, statement, over, quantifier, why, files, mechanisms, observe)
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None)))

R = "src/parsing/rule/impls/"
B = R + "block/blocks/"

P("C01", "Every document is processed to completion",
  """For every input text, mode, layout and page information, preprocessing, tokenizing, parsing and rendering to HTML and to text
  return normally: no panic, no failed assertion, no arithmetic overflow, no unbounded recursion and no endless loop.
  Text which is not valid markup is never an error of the operation, only a warning in its result.""",
  "inputs configurations", "all documents x modes x layouts",
  "The suite samples about 500 fixture documents and a few random ASTs; crashes need particular interactions of constructs.",
  "src/lib.rs src/parsing/mod.rs src/parsing/consume.rs src/parsing/depth.rs src/render/html/mod.rs src/render/text/mod.rs",
  [("fallback rules and recursion limit", "src/parsing/consume.rs, src/parsing/parser.rs"), ("render dispatch", "src/render/html/element/mod.rs")],
  "ftml::preprocess, tokenize, parse, Render::render")

P("C02", "Tokens tile the text and follow the lexical grammar",
  """The tokens of a text, between one start and one end marker, are non-empty, adjacent and cover the text exactly, each holding exactly the slice
  of text at its own position. The kind and extent of each token is the one the lexical grammar gives at that position: the
  first alternative, in the documented order of alternatives, that matches there.""",
  "inputs", "all texts", "Token tests check 20 hand-picked strings; ambiguity depends on adjacent characters.",
  "src/parsing/lexer.pest src/parsing/token/mod.rs src/tokenizer.rs",
  [("PEG grammar", "src/parsing/lexer.pest"), ("token extraction", "src/parsing/token/mod.rs")], "ftml::tokenize")

P("C03", "Preprocessing normalises whitespace and typography, and nothing else",
  """In this order, preprocessing normalises line endings to line feeds, turns leading non-standard spaces into spaces, empties whitespace-only lines, compresses three or
  more line breaks to two, joins lines ended by a backslash, turns tabs into four spaces and NULs into spaces, and removes line breaks at both ends.
  It then replaces doubled or single grave/apostrophe quotation and double low quotation with the corresponding typographic quotes and an isolated run of three dots with an ellipsis.
  Every other character is kept, in order.""",
  "inputs", "all texts", "Preprocessor tests list a few dozen strings; the passes interact (one pass creates or removes what another looks for).",
  "src/preproc/mod.rs src/preproc/whitespace.rs src/preproc/typography.rs",
  [("whitespace passes", "src/preproc/whitespace.rs"), ("typography passes", "src/preproc/typography.rs")], "ftml::preprocess")

P("C04", "Includes are found, fetched once, and substituted in place",
  """Every well-formed include at the start of a line is handed to the includer exactly once, in order and with its page reference and arguments, and nothing else is.
  The result is the text with exactly each such include replaced by the page the includer gave with its variables substituted, or by its
  message for a missing page, and with the list of included pages; all other text is untouched.
  Answers of the wrong number or order are reported as the invalid-return error, and an includer's own error is passed on.""",
  "inputs histories fault_sequences", "all texts and all sequences of includer answers, including failures and wrong answers",
  "Include tests cover a handful of strings and one well-behaved includer.",
  "src/includes/mod.rs src/includes/parse.rs src/includes/grammar.pest src/includes/include_ref.rs",
  [("include grammar", "src/includes/grammar.pest"), ("replacement from the end", "src/includes/mod.rs")], "ftml::include")

P("C05", "No text is lost, duplicated or reordered by markup",
  """Every word of the source which is not part of a markup head, a comment, or a construct which by definition withholds or relocates its content
  appears in the rendered output exactly once and in source order. This holds however the markup around the word is nested, unfinished, mismatched or ill-formed.""",
  "inputs", "all documents", "Fixtures pin 500 documents; losses came from rare backtracking paths (five were repaired).",
  "src/parsing/consume.rs src/parsing/paragraph/mod.rs src/parsing/rule/mod.rs " + R + "list.rs " + R + "table.rs " + R + "header.rs",
  [("rule backtracking to the fallback", "src/parsing/consume.rs"), ("paragraph stack", "src/parsing/paragraph/stack.rs")], "ftml::parse, Render::render")

P("C06", "Every warning points at a real token of the text, in bytes and in UTF-16",
  """Every warning's span is in bounds, on character boundaries and is exactly the span of one token of the text, of the kind it names.
  The UTF-16 index map converts every byte index on a character boundary of a text to the index of the same character in UTF-16, and converted warnings carry those indices.""",
  "inputs", "all documents", "Warnings are compared on fixtures which are almost entirely ASCII.",
  "src/parsing/error.rs src/parsing/parser.rs src/utf16.rs",
  [("error construction from the current token", "src/parsing/parser.rs"), ("index map", "src/utf16.rs")], "ParseError, Utf16IndexMap")

P("C07", "Footnotes are numbered, linked and listed consistently",
  """The n-th footnote marker in the output shows the number n, holds a tooltip with the content of the n-th footnote, and refers to the n-th entry of the footnote list, which holds the same content.
  The list is output where a footnote block stands, titled or hidden as it says, or, if there is none and there are footnotes, once at the end of the page.
  Discarded or conditional-away markup contributes no footnote.""",
  "inputs", "all documents with footnotes in any nesting", "Fixtures have footnotes at top level; the number comes from a counter at rendering, content from a table filled at parsing, in which backtracking may leave entries.",
  B + "footnote.rs src/parsing/parser.rs src/render/html/element/footnotes.rs src/render/html/context.rs",
  [("shared footnote table with rollback", "src/parsing/parser.rs"), ("footnote counter", "src/render/html/context.rs")], "HtmlOutput.body")

P("C08", "Code and HTML block tables list exactly the blocks of the page",
  """The code blocks exposed with a syntax tree are exactly the code elements of that tree, in document order, with their content, language and name; no name is used twice.
  The HTML blocks are likewise exactly its HTML elements. Content is the verbatim source between the tags, apart from spaces and one line break after the head and one line break before the end.""",
  "inputs", "all documents with code and HTML blocks in any nesting", "Fixtures hold one or two blocks at top level and never in discarded markup.",
  B + "code.rs " + B + "html.rs src/parsing/parser.rs src/tree/code.rs src/render/html/element/iframe.rs",
  [("shared code/html tables with rollback", "src/parsing/parser.rs")], "SyntaxTree.code_blocks, SyntaxTree.html_blocks, HtmlOutput.body")

P("C09", "The table of contents lists exactly the page's headings",
  """The table of contents has one entry for each heading of the page that is not marked as hidden from it, in document order, nested by level, with the heading's text.
  Every entry links to the identifier of its own heading in the output, and these identifiers are unique. Headings in discarded or conditional-away markup have no entry.""",
  "inputs", "all documents with headings in any nesting", "Fixtures hold a few headings at top level; numbering at parsing and at rendering are separate counters.",
  R + "header.rs src/parsing/mod.rs src/parsing/parser.rs src/render/html/element/toc.rs src/render/html/element/container.rs",
  [("heading table", "src/parsing/parser.rs"), ("heading index at rendering", "src/render/html/context.rs")], "SyntaxTree.table_of_contents, HtmlOutput.body")

P("C10", "Citations show the number and text of the bibliography entry they name",
  """Bibliography entries are numbered from one within their bibliography, in order, and the first bibliography which defines a label is the one its citations mean.
  Every citation shows the number and content of the entry its label names and links to it, or an error when no entry does. Each bibliography is listed once where it stands, with its own title and entries, unless hidden.""",
  "inputs", "all documents with bibliographies and citations", "Fixtures hold one bibliography; labels in a second, repeated labels and citations before definitions interact.",
  B + "bibliography.rs " + R + "bibcite.rs src/tree/bibliography.rs src/render/html/element/bibliography.rs",
  [("bibliography list lookup", "src/tree/bibliography.rs")], "HtmlOutput.body")

P("C11", "HTML output is always well formed, with all user text escaped",
  """Every rendered body is well-formed: tags properly nested and closed, attributes quoted and unique, and user text present only as escaped character data or attribute values, so that a
  markup character in the source is never a markup character of the output. The document metadata is likewise escaped and holds exactly the content type, generator, title (with any alternative title) and tags.""",
  "inputs configurations", "all documents, all page information", "A test per construct with plain text cannot show that every text position of every construct is escaped.",
  "src/render/html/builder.rs src/render/html/escape.rs src/render/html/output.rs src/render/html/meta.rs",
  [("escaping in the builder", "src/render/html/builder.rs, src/render/html/escape.rs")], "HtmlOutput.body, HtmlOutput.meta")

P("C12", "Only allowed attributes reach the output, with boolean ones normalised",
  """Of the arguments a block accepts as HTML attributes, exactly those whose name, ignoring case, is in the safe list or begins with aria- or data- reach the element, each with its exact value.
  Boolean attributes are present when their value is true or empty and absent when it is false. No event handler or other active attribute is ever output.""",
  "inputs", "all attribute names and values on all attribute-taking blocks", "Tests try a few attributes on a div.",
  "src/tree/attribute/mod.rs src/tree/attribute/safe.rs " + R + "block/arguments.rs",
  [("safe attribute list", "src/tree/attribute/safe.rs")], "HtmlOutput.body")

P("C13", "Links and frames only ever have safe targets",
  """No link or source address in the output, in any construct which takes one, has a scheme which executes script or embeds data, however the scheme is spelled, cased, spaced or escaped.
  A link whose target is dangerous is replaced by an inert one, while safe URLs, anchors and page targets are kept exactly.""",
  "inputs", "all URL spellings in all URL-taking constructs", "Tests use a handful of literal javascript: links.",
  "src/url.rs src/render/html/attributes.rs src/render/html/builder.rs src/tree/link.rs",
  [("normalisation of links", "src/url.rs")], "HtmlOutput.body")

P("C14", "CSS from a page stays inside its style element",
  """The contents of a page's CSS modules reach the output only inside style elements which end exactly where the renderer ends them.
  Minified or not, the valid rules of a style sheet keep their meaning and order, and nothing in a style sheet ends its element or changes the page around it.""",
  "inputs configurations", "all CSS texts, minification on and off", "Tests use two well-formed style sheets.",
  "src/render/html/element/style.rs " + B + "module/modules/css.rs",
  [("minifier with fallback", "src/render/html/element/style.rs")], "HtmlOutput.body")

P("C15", "Identifiers in the output are consistent, unique and isolated",
  """With user identifier isolation on, every identifier chosen by the source has the isolation prefix, once, and nothing else in the output changes. Where true identifiers are disabled, the output has no
  identifier the source did not choose except randomly generated ones. The identifiers of headings and tabs are unique, and every reference to one matches its target.""",
  "inputs configurations", "all documents x modes x isolation settings", "Tests compare one document per setting.",
  "src/id_prefix.rs src/settings/mod.rs src/render/html/random.rs src/render/html/context.rs src/tree/attribute/mod.rs",
  [("isolate_ids", "src/id_prefix.rs"), ("random id source", "src/render/html/random.rs")], "HtmlOutput.body")

P("C16", "Results do not depend on history or on concurrent use",
  """The result of processing a document is a function of the text, page information and settings alone, except for randomly generated identifiers and the distance of dates from the present: earlier operations of the same or other threads,
  operations which failed or ran concurrently, and the order in which lazily initialised state is first used do not change it.""",
  "histories schedules", "all sequences of operations up to a depth, and all orders of first use", "Each test runs operations once, in one order, in one process.",
  "src/lib.rs src/parsing/parser.rs src/render/html/context.rs src/preproc/typography.rs src/includes/parse.rs",
  [("per-parse state in Rc/RefCell, lazily built static tables", "src/parsing/parser.rs, src/parsing/rule/impls/block/mapping.rs")], "all public entry points")

P("C17", "Syntax trees survive serialisation and conversion to owned form",
  """Serialising a syntax tree to JSON and reading it back gives an equal tree which renders to the same HTML and text, in every mode. The owned copy of a tree is equal to it and
  renders identically.""",
  "inputs", "all documents", "Round trips are tested on fixtures by value, not on every element kind in every position.",
  "src/tree/mod.rs src/tree/clone.rs src/tree/element/object.rs", [("serde derives and hand-written clones", "src/tree/clone.rs")], "SyntaxTree serde, SyntaxTree::to_owned")

P("C18", "Native lists nest by depth and kind of their markers",
  """A run of lines starting with list markers becomes lists whose items are exactly those lines in order, nested by the number of leading spaces, with a new list where the kind of marker changes at a depth; a blank line ends the list.
  A line which only starts like an item is kept as text, and list depth beyond the limit is refused without losing text.""",
  "inputs", "all sequences of item lines up to a length", "Fixtures contain about 20 lists; grouping depends on the whole sequence of depths and kinds.",
  R + "list.rs src/parsing/depth.rs", [("process_depths", "src/parsing/depth.rs")], "ftml::parse")

P("C19", "Block quotes nest by the number of their markers",
  """A run of lines starting with block quote markers becomes block quotes nested by the number of markers of each line, containing exactly those lines' contents in order.
  Consecutive lines of a level form one paragraph with line breaks between them, and a blank line ends the quotation. Lines with too many markers are kept as text.""",
  "inputs", "all sequences of quoted lines up to a length", "Fixtures contain about 20 quotations.",
  R + "blockquote.rs src/parsing/depth.rs src/parsing/paragraph/mod.rs", [("process_depths", "src/parsing/depth.rs")], "ftml::parse")

P("C20", "Tables keep every cell, with its span, alignment and kind",
  """A run of simple table rows becomes one table with exactly those rows and cells in order, each with the column span given by repeated separators and the alignment or heading kind given by its marker, and its content trimmed.
  An unfinished row ends the table and is kept as text. Table blocks likewise produce exactly the rows and cells they contain.""",
  "inputs", "all sequences of table tokens up to a length", "Fixtures contain about 20 tables; spans and markers combine at every position.",
  R + "table.rs " + B + "table.rs src/tree/table.rs", [("parse_cell_start", R + "table.rs")], "ftml::parse")

P("C21", "Inline formatting pairs markers by the documented rules",
  """A formatting marker opens a span exactly if it has no space after it and the next matching closer in the same paragraph has no space before it (colour spans may have both), and the span then holds exactly what stands between, formatted by the same rules.
  A marker which does not open or close a span is kept as literal text.""",
  "inputs", "all sequences of formatting markers, words, spaces and breaks up to a length", "Fixtures hold single spans; pairing with several kinds is combinatorial.",
  " ".join(R + x for x in "bold.rs italics.rs underline.rs strikethrough.rs superscript.rs subscript.rs monospace.rs color.rs".split()) + " src/parsing/collect/container.rs",
  [("collect_container", "src/parsing/collect/generic.rs")], "ftml::parse")

P("C22", "Raw text and comments are verbatim",
  """Text between raw markers appears in the output exactly as written, uninterpreted, in every position raw text may stand; a comment contributes nothing. Unfinished raw or comment markers are
  literal text, and the first closing marker ends the construct.""",
  "inputs", "all token sequences between and around raw and comment markers", "Fixtures cover one raw span per kind.",
  R + "raw.rs " + R + "comment.rs", [("try_consume_fn", R + "raw.rs")], "ftml::parse")

P("C23", "Blank lines split paragraphs, and parts of a page do not interact",
  """At the top level, blank-line separated text becomes one paragraph each, single line breaks become line breaks (except before what begins like a block element, even if it proves to be text), and block elements stand outside paragraphs; no paragraph is empty.
  The parse of self-contained parts separated by blank lines is the sequence of the parses of the parts.""",
  "inputs", "all sequences of self-contained parts up to a length", "Each fixture is one document; compositionality relates several.",
  "src/parsing/paragraph/mod.rs src/parsing/paragraph/stack.rs", [("gather_paragraphs", "src/parsing/paragraph/mod.rs")], "ftml::parse")

P("C24", "Links go where they say, with the label they say, and are recorded",
  """Every link form yields exactly the target, label, window and kind its syntax says: page links resolve to normalised local paths, other sites', anchors and URLs are kept, and interwiki prefixes expand by the configured table.
  Every page or local path which link markup links is recorded as an internal link and every other URL as an external link, in order, and nothing else is. Text which is no valid link is kept.""",
  "inputs configurations", "all combinations of link parts", "Fixtures hold about 60 links of a space of many thousands of part combinations.",
  R + "link_single.rs " + R + "link_triple.rs " + R + "link_anchor.rs " + R + "url.rs src/tree/link.rs src/data/page_ref.rs src/settings/interwiki.rs src/render/html/element/link.rs src/data/backlinks.rs",
  [("LinkLocation", "src/tree/link.rs"), ("PageRef::parse", "src/data/page_ref.rs")], "ftml::parse, HtmlOutput.backlinks")

P("C25", "Blocks are recognised by any of their names and read their arguments exactly",
  """Every block is recognised under each of its documented names in any letter case, with or without its star and score forms as documented, and not under any other name. Its arguments are read exactly as written, in any order, spacing or
  key case, with string escapes decoded. A block with a missing or invalid required argument, a wrong form or no end is kept as text.""",
  "inputs", "all blocks x names x forms x argument spellings", "docs/Blocks.md lists over 100 names and flags; fixtures use most in one spelling.",
  R + "block/mapping.rs " + R + "block/rule.rs " + R + "block/parser.rs " + R + "block/arguments.rs src/parsing/string.rs src/parsing/boolean.rs conf/blocks.toml",
  [("block map", R + "block/mapping.rs"), ("head parsing", R + "block/parser.rs")], "ftml::parse")

P("C26", "Conditional blocks show their content exactly when the condition holds",
  """The content of a tag or category conditional appears exactly if the page's tags or category satisfy its condition: all required ones present, no prohibited one present and, if any optional ones are given, at least one of them.
  Inline text or a single element shown is as if the conditional were not there; content withheld leaves no trace.""",
  "inputs configurations", "all conditions up to a length x all sets of tags", "Tests evaluate five conditions.",
  B + "iftags.rs " + B + "ifcategory.rs src/parsing/condition.rs src/parsing/element_condition.rs", [("ElementCondition", "src/parsing/element_condition.rs")], "ftml::parse")

P("C27", "Page-only constructs are gated by the mode",
  """In modes without page syntax, page-only constructs are never activated and remain as text, while everything else parses exactly as it does in modes with it. Local files are referred to only in modes which allow them.""",
  "inputs configurations", "all documents x all modes", "Fixtures are parsed in page mode only.",
  "src/settings/mod.rs " + B + "module/rule.rs " + B + "include_elements.rs src/tree/image.rs", [("settings flags", "src/settings/mod.rs")], "ftml::parse, Render::render")

P("C28", "Dates are parsed, shifted and shown exactly",
  """A date given in any accepted form denotes that instant, in the given or implied time zone, for every timestamp, calendar date and offset in range. It is shown with exactly that local date, time and zone,
  in HTML and text alike. Anything else is not a date and is kept as text.""",
  "inputs", "calendar dates, timestamps and offsets, exhaustively within bounds", "Tests parse about ten dates.",
  B + "date.rs src/tree/date.rs src/render/html/element/date.rs", [("parse_date, parse_timezone", B + "date.rs")], "ftml::parse, Render::render")

P("C29", "Definition lists pair each term with its definition",
  """A run of definition lines becomes one definition list whose entries are exactly those lines' terms and definitions, in order, trimmed, with the raw term kept. A line which lacks either of the
  separators, including the space after the second, is not an entry and is kept.""",
  "inputs", "all sequences of definition tokens up to a length", "Fixtures hold about ten lists.",
  R + "definition_list.rs", [("parse_item", R + "definition_list.rs")], "ftml::parse")

P("C30", "Nesting is limited, and documents within the limit keep their structure",
  """Documents nested up to the supported depth parse into exactly that nesting, in every nestable construct and mixture of constructs. A document nested deeper becomes plain text with a single warning, losing nothing, and
  has no footnotes, headings or other side content.""",
  "inputs", "all nestable constructs x depths around the limit", "One test nests one construct.",
  "src/parsing/parser.rs src/parsing/mod.rs src/parsing/consume.rs", [("depth_increment", "src/parsing/parser.rs")], "ftml::parse")

P("C31", "Work grows moderately with the size of a document",
  """The time to process a document made of many repetitions of any short sequence of constructs grows at most polynomially, and moderately, with the number of repetitions, and
  so does the size of its output. Unfinished markup does not make parsing exponential.""",
  "inputs", "all short units x growing repetition", "One test parses one large document.",
  "src/parsing/consume.rs src/parsing/collect/generic.rs", [("bounded backtracking", "src/parsing/collect/generic.rs")], "ftml::parse")

P("C32", "Text output is exactly the readable content of the document",
  """For every document, the text rendering is exactly the documented image of its syntax tree: the text of every element in order with line structure of block elements and list prefixes, and without invisible content or markup.
  A partial rendering is a rendering of the elements given.""",
  "inputs", "all documents", "Fixtures compare text of 500 documents; spacing depends on neighbours.",
  "src/render/text/mod.rs src/render/text/elements.rs src/render/text/context.rs", [("render_element", "src/render/text/elements.rs")], "TextRender")

P("C33", "HTML output is exactly the documented image of the syntax tree",
  """For every document, the HTML rendering is, element by element, the documented image of its syntax tree: the right tags, classes, attributes, text and order, with nothing missing or added.""",
  "inputs configurations", "all documents", "Fixtures compare HTML of 500 documents; elements in unusual positions are not among them.",
  "src/render/html/element/mod.rs src/render/html/builder.rs src/render/html/render.rs", [("render_element", "src/render/html/element/mod.rs")], "HtmlRender")

P("C34", "Headings, centred lines, rules and float clears need exactly their line",
  """Line markers for headings of each level, centred lines, horizontal rules and float clears act exactly when they stand at the start of a line in their exact form, and are otherwise kept as text.
  Headings and centred lines take exactly the rest of their line as content; rules and float clears take only the line break after them, and text following them on the line is kept.""",
  "inputs", "all sequences of line tokens up to a length", "Fixtures hold a line or two of each.",
  " ".join(R + x for x in "header.rs center.rs horizontal_rule.rs clear_float.rs dash.rs double_angle.rs underscore_line_break.rs".split()),
  [("start-of-line requirement", "src/parsing/rule/mod.rs")], "ftml::parse")

P("C35", "Variables resolve to the innermost scope that defines them",
  """When included elements are rendered, a variable shows the value given by the innermost enclosing include which defines it, and is shown as its own literal when none does; leaving an include restores
  what was visible before.""",
  "inputs histories", "all nestings of scopes and uses up to a depth", "No test nests scopes.",
  "src/render/html/context.rs src/render/html/element/include.rs src/render/text/elements.rs src/tree/variables.rs " + R + "variable.rs",
  [("VariableScopes", "src/tree/variables.rs")], "Render::render")

P("C40", "Images resolve to the file they name, laid out as asked",
  """Every image source form resolves to the documented location: a URL is kept, and a file name, page and site are resolved against the current page and site. Alignment, link, alternative text and other attributes are exactly those given.""",
  "inputs configurations", "all source forms x alignments x attributes", "Fixtures hold about 20 images.",
  B + "image.rs src/tree/image.rs src/render/html/element/image.rs src/render/handle.rs", [("ImageSource::parse", "src/tree/image.rs")], "ftml::parse, HtmlOutput.body")

P("C36", "Paragraphs hold only inline content, and parts of lists and tables their place",
  """In the HTML output no paragraph contains, at any depth, an element at whose start a browser would end the paragraph: another paragraph, a heading, list, table, quotation, rule, code block or div, other than the containers of images and
  what the tooltips of footnotes and citations repeat. List items, table rows and cells, terms, definitions and ruby texts stand directly in their lists, tables and ruby, which hold nothing else but nested lists.""",
  "inputs", "all documents", "Fixtures show blocks next to text, not blocks within every inline construct within every paragraph-making one.",
  "src/parsing/paragraph/stack.rs src/parsing/paragraph/mod.rs src/parsing/result.rs src/tree/element/object.rs src/tree/container.rs",
  [("paragraph safety", "src/tree/element/object.rs, src/parsing/result.rs"), ("paragraph stack", "src/parsing/paragraph/stack.rs")], "HtmlOutput.body")

P("C37", "A part of a page reads the same alone, beside others, and within a block",
  """A part of a page in which nothing is left open reads the same wherever it stands: followed by a blank line and anything else, closing markers included, the page is the part followed by the rest, each as on its own.
  As the body of a block, or as the content of a line, cell, item or inline construct, it yields there what it yields alone, without further warnings.""",
  "inputs", "all parts x what follows x what holds them", "Fixtures never compare two documents with each other.",
  "src/parsing/consume.rs src/parsing/collect/generic.rs src/parsing/parser.rs src/parsing/paragraph/mod.rs src/parsing/rule/impls/list.rs src/parsing/rule/impls/block/parser.rs",
  [("block bodies", "src/parsing/rule/impls/block/parser.rs"), ("collecting until a closing condition", "src/parsing/collect/generic.rs"), ("parser flags", "src/parsing/parser.rs")], "ftml::parse, HtmlOutput.body, TextRender")

P("C38", "Text output has the words the page shows, apart where the page has them apart",
  """For every document, the words of the text output are those which its HTML output shows, in the same order; words which the HTML output keeps apart (in different paragraphs, lines, cells, items, tabs or blocks) are never joined in the text.
  Not counted are labels and controls, and content which is no text: footnotes, citations, contents, mathematics, dates, images and embedded objects.""",
  "inputs", "all documents", "The suite compares the text output of four fixtures.",
  "src/render/text/elements.rs src/render/text/context.rs src/render/html/element/mod.rs",
  [("text of each element", "src/render/text/elements.rs")], "TextRender, HtmlOutput.body")

P("C41", "Settings, page data, results and page references survive being written",
  """Settings, page information, users, scores, includes, fetched pages, outputs, links and warnings written as JSON have exactly their fields, named in kebab-case (but `tag_type` in page metadata), and read back they equal what was written and render the same; other values are refused.
  A page reference is read exactly as `page` or `:site:page` with both names trimmed and a site which is not empty, is written so that it reads back as itself, and the defaults of each mode are the documented ones.""",
  "inputs configurations", "all values of the exchanged types within the stated ranges", "A few references and layouts are tested; no test writes or reads settings, page data or outputs.",
  "src/settings/mod.rs src/settings/interwiki.rs src/data/page_ref.rs src/data/page_info.rs src/data/karma.rs src/data/score.rs src/data/user_info.rs src/data/backlinks.rs src/layout.rs src/includes/include_ref.rs src/includes/includer/mod.rs src/render/html/output.rs src/render/html/meta.rs src/parsing/error.rs",
  [("serde derives", "src/settings/mod.rs, src/data/*.rs, src/parsing/error.rs"), ("PageRef::parse and Display", "src/data/page_ref.rs"), ("WikitextSettings::from_mode", "src/settings/mod.rs")], "serde_json, PageRef, WikitextSettings::from_mode, Layout::from_str, KarmaLevel")
