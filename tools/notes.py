EX = "Exhaustive within the stated bounds; trusts the harness's oracle. "
NOTES = {
 "C01": ("explicit exhaustive enumeration of documents, executed on the implementation (debug assertions and overflow checks on) under a crash/hang monitor", EX + "Says nothing beyond the word length and alphabets."),
 "C02": ("exhaustive enumeration of texts; the token sequence compared with an independent executable model of the lexical grammar", EX + "URL and e-mail tokens inside longer texts are covered by their own alphabets."),
 "C03": ("exhaustive enumeration of texts; preprocessing compared with a character-level reference model", EX),
 "C04": ("exhaustive enumeration of texts and of includer answer sequences (pages, missing, errors, wrong length or order); calls and result compared with a character-level reference model", EX),
 "C05": ("exhaustive enumeration of documents in which every word is unique; both outputs must hold each word exactly once, in order", EX + "Words in heads, comments and relocated content are outside the property and not generated."),
 "C06": ("exhaustive enumeration of documents and texts; every warning compared with the token sequence, every index with an independent UTF-16 count", EX),
 "C07": ("exhaustive enumeration of documents with footnotes in every construct; the numbering, tooltips, links and list of the HTML DOM compared with each other and with the tree walked in shown order", EX + "Three known findings concern footnotes inside bibliography entries that are not shown."),
 "C08": ("exhaustive enumeration of documents with code and HTML blocks; tables compared with the tree's elements and with the source text between the tags", EX),
 "C11": ("exhaustive enumeration of documents with hostile text in every text position; outputs parsed by a strict HTML checker", EX),
 "C32": ("exhaustive enumeration of documents; each text rendering compared with a reference model of the renderer", EX + "The syntax tree is taken from the real parser."),
 "C33": ("exhaustive enumeration of documents; each HTML DOM compared node by node with a reference model of the renderer", EX + "The syntax tree is taken from the real parser; MathML and minified CSS are masked."),
 "C09": ("exhaustive enumeration of documents with headings in every construct and of heading-level sequences; the table compared with the tree's headings and with the identifiers of the output", EX + "Two known findings concern headings in bibliography entries that are not shown."),
 "C10": ("exhaustive enumeration of sequences of bibliographies and citations; citations and lists of the HTML DOM compared with a reference computed from the source parts", EX),
 "C12": ("exhaustive enumeration of block x attribute name x casing x value, and of argument sequences; the element's attributes compared with a pinned list and reference rules", EX),
 "C13": ("exhaustive enumeration of address spellings in every address-taking construct; each address of the DOM read by an independent browser-like scheme parser", EX),
 "C14": ("exhaustive enumeration of style sheets over token alphabets, minified and not; the DOM and an independent CSS reading of the style element compared with the source", EX),
 "C15": ("exhaustive enumeration of documents with identifiers x modes x isolation; identifiers and references of the DOM compared between settings and checked against a reference rule", EX + "Known findings: the contents links of a page rendered without true identifiers."),
 "C16": ("systematic exploration of schedules of the implementation: all operation sequences, all orders of first use in fresh processes, all single and double preemptions at log calls under a controlled scheduler; each result compared with a fresh process's", EX + "Scheduling points are the log calls of ftml."),
 "C17": ("exhaustive enumeration of documents; the tree read back from JSON and the owned tree compared with the original by value, JSON and renderings", EX),
 "C35": ("exhaustive enumeration of programs of scopes, containers and uses; both renderings compared with a stack machine", EX),
 "C26": ("exhaustive enumeration of conditions x tag sets x categories against a reference evaluation, and of conditionals x contexts x contents whose output must equal that of the document without the conditional", EX),
 "C18": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C19": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C20": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C21": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C22": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C23": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C29": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C34": ("exhaustive enumeration of line and token sequences; each document's HTML compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C24": ("exhaustive enumeration of link and block markup; each document's HTML, recorded links and code/HTML tables compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C25": ("exhaustive enumeration of link and block markup; each document's HTML, recorded links and code/HTML tables compared with the reference rendering of an independent reference parser's result", EX + "The reference parser is part of the trusted oracle."),
 "C28": ("exhaustive enumeration of dates, timestamps and offsets, compared with an independent calendar", EX + "Every form is read and rendered by a second calendar implementation. Four week dates beyond the year 9999 crash the date library and are recorded as known findings."),
 "C27": ("exhaustive enumeration of documents x modes x flags; the HTML compared with the reference rendering for the flags pinned for each mode, and includes resolved with an includer which must not be called", EX + "The reference parser is part of the trusted oracle."),
 "C30": ("exhaustive enumeration of nested documents at and around the limit, each compared with the reference parser's reading, and of what is beyond it", EX + "The reference parser is part of the trusted oracle; on long documents it does not repeat what failed before."),
 "C31": ("exhaustive enumeration of repeated units; steps (log records), allocations and output of each repetition measured on the real code, and the growth at each doubling bounded", EX + "Work outside of steps and allocations is only bounded by the 30 s limit for each document."),
 "C40": ("exhaustive enumeration of image documents on the real parser and renderer, each compared with a reference grammar and renderer", EX + "All image source forms x names x attributes x links x surroundings x pages/sites x modes x local paths, and token words within the head."),
 "C36": ("exhaustive enumeration of documents on the real parser and renderer; every output is parsed and each element's place in it checked against the HTML content model", EX + "Small-scope hypothesis beyond the bounds. The content model is a list in the check, from the HTML standard."),
 "C37": ("exhaustive enumeration of parts x surroundings on the real parser and renderer, comparing ftml's output for the composition with its outputs for the parts (metamorphic)", EX + "Small-scope hypothesis beyond the bounds. Only parts which are whole, as the check defines it, are claimed."),
 "C38": ("exhaustive enumeration of documents on the real parser and both renderers, comparing the words of the text output with those laid out by the HTML output", EX + "Small-scope hypothesis beyond the bounds. Documents with content that is no text (footnotes, contents, mathematics, dates, images) are skipped."),
 "C41": ("exhaustive enumeration of the values of every exchanged type within ranges, on the real types: written, compared with the pinned form, read back in every way, and used for rendering", EX + "Strings and numbers are sampled as sets of representatives within each exhaustive product. Non-finite scores cannot be written as JSON numbers and are not claimed."),
}
NOT_APPLICABLE = {}
