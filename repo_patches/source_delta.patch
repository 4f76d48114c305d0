From 4f61a7dd159255bea3b708662568d6dff53f2de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 01/47] fix: do not expose code/html blocks from a document
 which fell back to raw text

---
 src/parsing/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/mod.rs b/src/parsing/mod.rs
index 44b1af6..defe076 100644
--- a/src/parsing/mod.rs
+++ b/src/parsing/mod.rs
@@ -151,6 +151,8 @@ where
             let wikitext = tokenization.full_text().inner();
             let elements = vec![text!(wikitext)];
             let errors = vec![error];
+            let html_blocks = vec![];
+            let code_blocks = vec![];
             let table_of_contents = vec![];
             let footnotes = vec![];
             let bibliographies = BibliographyList::new();
-- 
2.43.0


From c447b50beb1d296600cbf9d942ab6184f337dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 02/47] fix: discard footnotes, code, TOC and bibliography
 entries of elements which were thrown away

---
 src/parsing/parser.rs                         | 40 +++++++++++++++++++
 .../rule/impls/block/blocks/ifcategory.rs     |  3 ++
 src/parsing/rule/impls/block/blocks/iftags.rs |  3 ++
 src/parsing/rule/mod.rs                       | 14 +++++--
 src/tree/bibliography.rs                      |  5 +++
 5 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index f915c12..6dc4cf0 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -86,6 +86,17 @@ pub struct Parser<'r, 't> {
     start_of_line: bool,
 }
 
+/// Marks how far each of the shared tables were filled at some point in parsing.
+#[derive(Debug, Copy, Clone)]
+pub struct SharedMark {
+    table_of_contents: usize,
+    html_blocks: usize,
+    code_blocks: usize,
+    footnotes: usize,
+    bibliographies: usize,
+    has_footnote_block: bool,
+}
+
 impl<'r, 't> Parser<'r, 't> {
     /// Constructor. Should only be created by `parse()`.
     ///
@@ -298,6 +309,35 @@ impl<'r, 't> Parser<'r, 't> {
         mem::take(&mut self.bibliographies.borrow_mut())
     }
 
+    // Shared item checkpoints
+    //
+    // The shared tables are visible to all parser clones, so when the
+    // elements which added to them are thrown away (e.g. a rule failed,
+    // or a condition excluded them), those entries must be removed too.
+    pub fn shared_mark(&self) -> SharedMark {
+        SharedMark {
+            table_of_contents: self.table_of_contents.borrow().len(),
+            html_blocks: self.html_blocks.borrow().len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            footnotes: self.footnotes.borrow().len(),
+            bibliographies: self.bibliographies.borrow().next_index(),
+            has_footnote_block: self.has_footnote_block,
+        }
+    }
+
+    pub fn restore_shared(&mut self, mark: SharedMark) {
+        self.table_of_contents
+            .borrow_mut()
+            .truncate(mark.table_of_contents);
+        self.html_blocks.borrow_mut().truncate(mark.html_blocks);
+        self.code_blocks.borrow_mut().truncate(mark.code_blocks);
+        self.footnotes.borrow_mut().truncate(mark.footnotes);
+        self.bibliographies
+            .borrow_mut()
+            .truncate(mark.bibliographies);
+        self.has_footnote_block = mark.has_footnote_block;
+    }
+
     // Special for [[include]], appending a SyntaxTree
     pub fn append_shared_items(
         &mut self,
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 951064e..cc881de 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -67,6 +67,7 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let mark = parser.shared_mark();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFCATEGORY, false)?.into();
 
@@ -84,6 +85,8 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Also remove footnotes, code blocks, etc. from the excluded elements
+        parser.restore_shared(mark);
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 5be9522..dba55d7 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -51,6 +51,7 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let mark = parser.shared_mark();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFTAGS, false)?.into();
 
@@ -68,6 +69,8 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Also remove footnotes, code blocks, etc. from the excluded elements
+        parser.restore_shared(mark);
         Elements::None
     };
 
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index bf46757..d5bfecc 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -67,15 +67,21 @@ impl Rule {
         }
 
         // Fork parser and try running the rule.
+        let mark = parser.shared_mark();
         let mut sub_parser = parser.clone_with_rule(self);
-        let result = (self.try_consume_fn)(&mut sub_parser);
-
-        if let Ok(ref output) = result {
+        let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| {
             // First, ensure there aren't any partial elements in the result.
             output.check_partials(parser)?;
+            Ok(output)
+        });
 
+        match result {
             // Now, finally save the parser state since it succeeded.
-            parser.update(&sub_parser);
+            Ok(_) => parser.update(&sub_parser),
+
+            // Any elements were discarded, so drop what they added
+            // to the shared tables (footnotes, code blocks, etc).
+            Err(_) => parser.restore_shared(mark),
         }
 
         result
diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 1284e8c..66eab9a 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -102,6 +102,11 @@ impl<'t> BibliographyList<'t> {
         self.0.append(&mut other.0);
     }
 
+    #[inline]
+    pub fn truncate(&mut self, len: usize) {
+        self.0.truncate(len);
+    }
+
     #[inline]
     pub fn next_index(&self) -> usize {
         self.0.len()
-- 
2.43.0


From 38167b0f1344c86adadc0f9db39ba838ebf20345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 03/47] fix: a line after a heading which only starts like a
 heading lost its marker

---
 src/parsing/rule/impls/header.rs | 53 ++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6ee06e1..6bc1e54 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -32,6 +32,41 @@ fn try_consume_fn<'r, 't>(
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create header container");
 
+    let (elements, mut all_errors, _) = parse_heading(parser)?.into();
+    let mut all_elements: Vec<_> = elements.into_iter().collect();
+
+    // Collect any headings which directly follow, until we hit an error.
+    //
+    // We do this because the container consumes the newline,
+    // which we need to trigger the next header when using regular rules.
+    //
+    // If it turns out that the next line isn't a heading, then the tokens
+    // examined are left alone so they can be parsed as something else.
+    loop {
+        let mark = parser.shared_mark();
+        let sub_parser = &mut parser.clone();
+
+        match parse_heading(sub_parser) {
+            Ok(success) => {
+                let (elements, mut errors, _) = success.into();
+                all_elements.extend(elements);
+                all_errors.append(&mut errors);
+                parser.update(sub_parser);
+            }
+            Err(_) => {
+                parser.restore_shared(mark);
+                break;
+            }
+        }
+    }
+
+    // Build final Elements object
+    ok!(false; all_elements, all_errors)
+}
+
+fn parse_heading<'r, 't>(
+    parser: &mut Parser<'r, 't>,
+) -> ParseResult<'r, 't, Elements<'t>> {
     macro_rules! step {
         ($token:expr) => {{
             let current = parser.current();
@@ -53,7 +88,7 @@ fn try_consume_fn<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
-    let (elements, mut all_errors, _) = collect_container(
+    let (elements, all_errors, _) = collect_container(
         parser,
         RULE_HEADER,
         ContainerType::Header(heading),
@@ -80,19 +115,5 @@ fn try_consume_fn<'r, 't>(
         parser.push_table_of_contents_entry(heading.level, elements);
     }
 
-    // Recursively collect headings until we hit an error.
-    //
-    // We do this because the container consumes the newline,
-    // which we need to trigger the next header when using regular rules.
-    let mut all_elements: Vec<_> = elements.into_iter().collect();
-
-    if let Ok(success) = (try_consume_fn)(parser) {
-        let (elements, mut errors, _) = success.into();
-
-        all_elements.extend(elements);
-        all_errors.append(&mut errors);
-    }
-
-    // Build final Elements object
-    ok!(false; all_elements, all_errors)
+    ok!(false; elements, all_errors)
 }
-- 
2.43.0


From 14af90e1ad8ec2c6530d84e32d57193e3978926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 04/47] fix: a line after a list which only starts like a list
 item lost its marker

---
 src/parsing/rule/impls/list.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 59eab30..3376269 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -54,6 +54,10 @@ fn try_consume_fn<'r, 't>(
 
     // Produce a depth list with elements
     loop {
+        // If this line isn't a list item after all, then we must leave
+        // its tokens alone so that they can be parsed as something else.
+        let line_start = parser.clone();
+
         let current = parser.current();
         let depth = match current.token {
             // Count the number of spaces for its depth
@@ -87,6 +91,7 @@ fn try_consume_fn<'r, 't>(
             Some(ltype) => ltype,
             None => {
                 trace!("Didn't find bullet token, couldn't determine list type, ending list iteration");
+                parser.update(&line_start);
                 break;
             }
         };
@@ -98,6 +103,7 @@ fn try_consume_fn<'r, 't>(
         let current = parser.current();
         if current.token != Token::Whitespace {
             warn!("Didn't find whitespace after bullet token, ending list iteration");
+            parser.update(&line_start);
             break;
         }
         parser.step()?;
-- 
2.43.0


From fbf9ddfe77c49feee74925b1e3ef5a3505a754cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 05/47] fix: an unfinished row after a simple table was dropped

---
 src/parsing/rule/impls/table.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 93eb57c..0a2c91d 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -47,6 +47,12 @@ fn try_consume_fn<'r, 't>(
     'table: loop {
         debug!("Parsing next table row");
 
+        // If this turns out not to be a row, then we must leave its tokens
+        // alone so that they can be parsed as something else.
+        let row_start = parser.clone();
+        let row_mark = parser.shared_mark();
+        let row_errors = errors.len();
+
         let mut cells = Vec::new();
 
         macro_rules! build_row {
@@ -65,6 +71,9 @@ fn try_consume_fn<'r, 't>(
                     return Err(parser.make_err(ParseErrorKind::RuleFailed));
                 } else {
                     // At least one row was created, end it here.
+                    parser.update(&row_start);
+                    parser.restore_shared(row_mark);
+                    errors.truncate(row_errors);
                     break 'table;
                 }
             };
-- 
2.43.0


From a4cbf8462849f4cc8b675350e7f9cd5d4e4aeedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 06/47] fix: CSS from a module was able to close its own style
 element

---
 src/render/html/element/style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/html/element/style.rs b/src/render/html/element/style.rs
index b8fb58e..4b36497 100644
--- a/src/render/html/element/style.rs
+++ b/src/render/html/element/style.rs
@@ -49,10 +49,14 @@ pub fn render_style(ctx: &mut HtmlContext, input_css: &str) {
         }
     };
 
+    // CSS strings are able to contain "</style>", which would end the element early.
+    // Escaping the slash produces an equivalent string which does not.
+    let output_css = output_css.replace("</", "<\\/");
+
     ctx.html().style().inner(|ctx| {
         // SAFETY: The resultant CSS cannot contain HTML-escaping elements,
         //         as those are invalid and would not be retained during
-        //         the parcel_css parsing process.
+        //         the parcel_css parsing process, or are escaped above.
         ctx.push_raw_str(&output_css);
     });
 }
-- 
2.43.0


From 019b2e9483778da0c3257f658f8adc8598022920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 07/47] fix: attribute names with an underscore tripped a debug
 assertion in the HTML builder

---
 src/render/html/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/render/html/builder.rs b/src/render/html/builder.rs
index 14bdd11..3977a18 100644
--- a/src/render/html/builder.rs
+++ b/src/render/html/builder.rs
@@ -162,7 +162,7 @@ impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't> {
     }
 
     fn attr_key(&mut self, key: &str, has_value: bool) {
-        debug_assert!(is_alphanumeric(key));
+        debug_assert!(is_attribute_name(key));
         debug_assert!(self.in_tag);
 
         self.ctx.push_raw(' ');
@@ -314,6 +314,11 @@ fn is_alphanumeric(value: &str) -> bool {
         .all(|c| c.is_ascii_alphabetic() || c.is_ascii_digit() || c == '-')
 }
 
+fn is_attribute_name(value: &str) -> bool {
+    // Block argument keys permit underscores, so attributes like data-a_b may appear
+    is_alphanumeric(&value.replace('_', "-"))
+}
+
 #[inline]
 fn should_close_tag(tag: &str) -> bool {
     !SOLO_HTML_TAGS.contains(&tag)
-- 
2.43.0


From 2ab6470e46c151a2e3923c7273859f6bc28a3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 08/47] fix: rendering a page-title link which is not a valid
 page reference panicked

---
 src/render/handle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/render/handle.rs b/src/render/handle.rs
index 747bdc2..e2a0c04 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -111,9 +111,8 @@ impl Handle {
                 LinkLocation::Page(page_ref) => page_ref.page(),
             },
             LinkLabel::Page => match link {
-                LinkLocation::Url(_) => {
-                    panic!("Requested link label of page for a URL");
-                }
+                // Not a page reference after all, so there's no title to use.
+                LinkLocation::Url(url) => url.as_ref(),
                 LinkLocation::Page(page_ref) => {
                     let (site, page) = page_ref.fields_or(site);
                     page_title = match self.get_page_title(site, page) {
@@ -121,7 +120,7 @@ impl Handle {
                         None => page_ref.to_string(),
                     };
 
-                    &page_title
+                    page_title.as_str()
                 }
             },
         };
-- 
2.43.0


From ffd25eebffdcc62fbacdfebddf94e9cecb42ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 09/47] fix: quoted text in an argument key could inject HTML
 attributes

---
 src/parsing/rule/impls/block/parser.rs | 3 ++-
 src/tree/attribute/safe.rs             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsing/rule/impls/block/parser.rs b/src/parsing/rule/impls/block/parser.rs
index d9257f1..e1610f3 100644
--- a/src/parsing/rule/impls/block/parser.rs
+++ b/src/parsing/rule/impls/block/parser.rs
@@ -31,7 +31,8 @@ use crate::tree::Element;
 use once_cell::sync::Lazy;
 use regex::Regex;
 
-static ARGUMENT_KEY: Lazy<Regex> = Lazy::new(|| Regex::new(r"[A-Za-z0-9_\-]+").unwrap());
+static ARGUMENT_KEY: Lazy<Regex> =
+    Lazy::new(|| Regex::new(r"^[A-Za-z0-9_\-]+$").unwrap());
 
 impl<'r, 't> Parser<'r, 't>
 where
diff --git a/src/tree/attribute/safe.rs b/src/tree/attribute/safe.rs
index 8f59b4f..7c44936 100644
--- a/src/tree/attribute/safe.rs
+++ b/src/tree/attribute/safe.rs
@@ -182,7 +182,7 @@ pub static URL_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> =
     Lazy::new(|| hashset_unicase!["href", "src",]);
 
 static ATTRIBUTE_SUFFIX_SAFE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"[a-zA-z0-9\-]+").unwrap());
+    Lazy::new(|| Regex::new(r"^[a-zA-Z0-9_\-]+$").unwrap());
 
 pub const SAFE_ATTRIBUTE_PREFIXES: [&str; 2] = ["aria-", "data-"];
 
-- 
2.43.0


From 1b33893ec4c23775afff8db763dc664b40126e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 10/47] fix: citing a bibliography entry which has citations or
 footnotes of its own overflowed the stack or panicked

---
 src/render/html/context.rs              | 15 +++++++++++++++
 src/render/html/element/bibliography.rs | 10 ++++++++++
 src/render/html/element/footnotes.rs    | 11 +++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 651af3b..e20a840 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -76,6 +76,7 @@ where
     table_of_contents_index: usize,
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
+    in_citation: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -125,6 +126,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             table_of_contents_index: 0,
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
+            in_citation: false,
         }
     }
 
@@ -252,6 +254,19 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             .map(|elements| elements.as_slice())
     }
 
+    // Citations
+    //
+    // A citation's tooltip repeats the contents of a bibliography entry.
+    #[inline]
+    pub fn in_citation(&self) -> bool {
+        self.in_citation
+    }
+
+    #[inline]
+    pub fn set_in_citation(&mut self, value: bool) {
+        self.in_citation = value;
+    }
+
     // Backlinks
     #[inline]
     pub fn add_link(&mut self, link: &LinkLocation) {
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 61cfe87..ff84417 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -59,6 +59,14 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                         ctx.push_raw(']');
                     }
 
+                    // Citations inside of a tooltip do not get tooltips of their own,
+                    // since entries may cite each other (or themselves).
+                    if ctx.in_citation() {
+                        return;
+                    }
+
+                    ctx.set_in_citation(true);
+
                     // Tooltip shown on hover.
                     // Is aria-hidden due to difficulty in getting a simultaneous
                     // tooltip and link to work. A screen reader can still navigate
@@ -84,6 +92,8 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                                 .attr(attr!("class" => "wj-bibliography-ref-contents"))
                                 .contents(contents);
                         });
+
+                    ctx.set_in_citation(false);
                 });
         }
         None => {
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index dba35fa..950bef1 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -23,6 +23,12 @@ use super::prelude::*;
 pub fn render_footnote(ctx: &mut HtmlContext) {
     debug!("Rendering footnote reference");
 
+    // The footnotes in a bibliography entry belong to the entry itself,
+    // they are not numbered again where that entry is cited.
+    if ctx.in_citation() {
+        return;
+    }
+
     let index = ctx.next_footnote_index();
     let id = str!(index);
 
@@ -81,6 +87,11 @@ pub fn render_footnote_block(ctx: &mut HtmlContext, title: Option<&str>) {
         title.unwrap_or("<default>"),
     );
 
+    // The entry being cited may be within a footnote, or be cited from one.
+    if ctx.in_citation() {
+        return;
+    }
+
     let title_default;
     let title: &str = match title {
         Some(title) => title,
-- 
2.43.0


From 6676c1f5c038812455855f606942adbc6021ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 11/47] fix: a footnote block within a footnote overflowed the
 stack when rendered

---
 src/parsing/rule/impls/block/blocks/footnote.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index 8b592e2..84cd328 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -102,6 +102,12 @@ fn parse_footnote_block<'r, 't>(
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Parsing footnote list block (in-head {in_head})");
+
+    // The list of footnotes cannot be inside one of the footnotes in it.
+    if parser.in_footnote() {
+        return Err(parser.make_err(ParseErrorKind::FootnotesNested));
+    }
+
     assert!(!flag_star, "Footnote block doesn't allow star flag");
     assert!(!flag_score, "Footnote block doesn't allow score flag");
     assert_block_name(&BLOCK_FOOTNOTE_BLOCK, name);
-- 
2.43.0


From 17e4f664b85ac3ed8a4cf1e3b83e2ec1bf655767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 12/47] fix: a block name with two score flags tripped a debug
 assertion

---
 src/parsing/rule/impls/block/rule.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsing/rule/impls/block/rule.rs b/src/parsing/rule/impls/block/rule.rs
index 8f8ed3c..d5101bb 100644
--- a/src/parsing/rule/impls/block/rule.rs
+++ b/src/parsing/rule/impls/block/rule.rs
@@ -106,17 +106,17 @@ where
     let (name, in_head) = parser.get_block_name(flag_star)?;
     trace!("Got block name '{name}' (in head {in_head})");
 
-    let (name, flag_score) = match name.strip_suffix('_') {
-        Some(name) => (name, true),
-        None => (name, false),
-    };
-
-    // Get the block rule for this name
+    // Get the block rule for this name (which may have the score flag)
     let block = match get_block_rule_with_name(name) {
         Some(block) => block,
         None => return Err(parser.make_err(ParseErrorKind::NoSuchBlock)),
     };
 
+    let (name, flag_score) = match name.strip_suffix('_') {
+        Some(name) => (name, true),
+        None => (name, false),
+    };
+
     // Set block rule for better errors
     parser.set_block(block);
 
-- 
2.43.0


From 45381ca238eac1602c2a04916dfe541d0ba2a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 13/47] fix: links opening in the current frame had the target
 _same

---
 src/tree/anchor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/anchor.rs b/src/tree/anchor.rs
index 9ed708a..b99ea0b 100644
--- a/src/tree/anchor.rs
+++ b/src/tree/anchor.rs
@@ -56,7 +56,7 @@ impl AnchorTarget {
             AnchorTarget::NewTab => "_blank",
             AnchorTarget::Parent => "_parent",
             AnchorTarget::Top => "_top",
-            AnchorTarget::Same => "_same",
+            AnchorTarget::Same => "_self",
         }
     }
 }
-- 
2.43.0


From 20a0c8a4bc5edf8588955f55c03dd623e97d177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 14/47] fix: dates and equation references were visible within
 invisible text in text output

---
 src/render/text/elements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/render/text/elements.rs b/src/render/text/elements.rs
index b21daf3..324976d 100644
--- a/src/render/text/elements.rs
+++ b/src/render/text/elements.rs
@@ -219,10 +219,10 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
 
             // TODO handle error
             match value.format() {
-                Ok(datetime) => str_write!(ctx, "{}", datetime),
+                Ok(datetime) => ctx.push_str(&datetime),
                 Err(error) => {
                     error!("Error formatting date into string: {error}");
-                    str_write!(ctx, "<ERROR>");
+                    ctx.push_str("<ERROR>");
                 }
             };
         }
@@ -236,7 +236,7 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             // No real way to render arbitrary LaTeX, so we skip it.
         }
         Element::EquationReference(name) => {
-            str_write!(ctx, "[{name}]");
+            ctx.push_str(&format!("[{name}]"));
         }
         Element::Embed(_) | Element::Html { .. } | Element::Iframe { .. } => {
             // Interactive or HTML elements like this don't make sense in
-- 
2.43.0


From 94b10072fca1db14f6ab173a70625d823824677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 15/47] fix: partial elements nested within another element
 panicked when rendered

---
 src/parsing/parser.rs                |  1 -
 src/parsing/rule/impls/block/rule.rs |  9 +++++++++
 src/parsing/rule/mod.rs              | 10 ++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 6dc4cf0..26ff069 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -456,7 +456,6 @@ impl<'r, 't> Parser<'r, 't> {
     #[inline]
     pub fn update(&mut self, parser: &Parser<'r, 't>) {
         // Flags
-        self.accepts_partial = parser.accepts_partial;
         self.in_footnote = parser.in_footnote;
         self.has_footnote_block = parser.has_footnote_block;
         self.start_of_line = parser.start_of_line;
diff --git a/src/parsing/rule/impls/block/rule.rs b/src/parsing/rule/impls/block/rule.rs
index d5101bb..85ab7e6 100644
--- a/src/parsing/rule/impls/block/rule.rs
+++ b/src/parsing/rule/impls/block/rule.rs
@@ -19,7 +19,9 @@
  */
 
 use super::super::prelude::*;
+use super::blocks::{BLOCK_IFCATEGORY, BLOCK_IFTAGS};
 use super::mapping::get_block_rule_with_name;
+use crate::tree::AcceptsPartial;
 
 pub const RULE_BLOCK: Rule = Rule {
     name: "block",
@@ -132,6 +134,13 @@ where
 
     parser.get_optional_space()?;
 
+    // Partials are only accepted directly within the block looking for them,
+    // not within other blocks in its body. The exception are conditionals,
+    // whose contents take their place.
+    if ![BLOCK_IFTAGS.name, BLOCK_IFCATEGORY.name].contains(&block.name) {
+        parser.set_accepts_partial(AcceptsPartial::None);
+    }
+
     // Run the parse function until the end.
     //
     // This is responsible for parsing any arguments,
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index d5bfecc..76c7e56 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -18,8 +18,10 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  */
 
+use self::impls::{RULE_BLOCK, RULE_BLOCK_STAR};
 use super::prelude::*;
 use crate::parsing::Parser;
+use crate::tree::AcceptsPartial;
 use std::fmt::{self, Debug};
 
 mod mapping;
@@ -69,6 +71,14 @@ impl Rule {
         // Fork parser and try running the rule.
         let mark = parser.shared_mark();
         let mut sub_parser = parser.clone_with_rule(self);
+
+        // Partials must end up directly within the element which accepts them.
+        // Only a block can produce a partial, anything else makes an element
+        // of its own, within which partials cannot be used.
+        if ![RULE_BLOCK.name, RULE_BLOCK_STAR.name].contains(&self.name) {
+            sub_parser.set_accepts_partial(AcceptsPartial::None);
+        }
+
         let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| {
             // First, ensure there aren't any partial elements in the result.
             output.check_partials(parser)?;
-- 
2.43.0


From 8b9d360a73e3a58a8e17407de762c65adf59c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 16/47] fix: attributes given twice had the renderer's and the
 user's value run together

---
 src/render/html/builder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/render/html/builder.rs b/src/render/html/builder.rs
index 3977a18..04e587c 100644
--- a/src/render/html/builder.rs
+++ b/src/render/html/builder.rs
@@ -37,6 +37,9 @@ const SOLO_HTML_TAGS: [&str; 14] = [
     "source", "track", "wbr",
 ];
 
+/// Attributes whose value is a list, where the values given by the renderer and by the user combine.
+const MERGED_ATTRIBUTES: [&str; 2] = ["class", "style"];
+
 // Main struct
 
 #[derive(Debug)]
@@ -230,13 +233,18 @@ impl<'c, 'i, 'h, 'e, 't> HtmlBuilderTag<'c, 'i, 'h, 'e, 't> {
 
             for (key, value_parts) in filter_entries(&attributes) {
                 if let Some(map_value) = attribute_map.get(&cow!(key)) {
-                    // Merge keys by prepending value_parts before
-                    // the attribute map value.
-
                     merged_value.clear();
                     merged_value.extend(value_parts);
-                    merged_value.push(" ");
-                    merged_value.push(map_value);
+
+                    // Merge keys by prepending value_parts before
+                    // the attribute map value.
+                    //
+                    // This only makes sense for attributes which are lists,
+                    // others (such as "src") keep the renderer's value.
+                    if MERGED_ATTRIBUTES.contains(&key) {
+                        merged_value.push(" ");
+                        merged_value.push(map_value);
+                    }
 
                     self.attr_single(key, &merged_value);
                     merged.insert(key);
-- 
2.43.0


From 66d6c653c716ee89b3fed91e9d6eade307c21b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 17/47] fix: links within the page were recorded as links to
 other pages

---
 src/render/html/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index e20a840..72bfe90 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -280,7 +280,8 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             LinkLocation::Url(link) => {
                 let mut link: &str = link;
 
-                if link == "javascript:;" {
+                // Links which stay on this page are not backlinks.
+                if link == "javascript:;" || link.starts_with('#') {
                     return;
                 }
 
-- 
2.43.0


From d84e73fcee85619cb65f516e146251b9f5788f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 18/47] fix: closing parentheses on their own tripped a debug
 assertion

---
 src/parsing/rule/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/mapping.rs b/src/parsing/rule/mapping.rs
index ec61180..f6c816b 100644
--- a/src/parsing/rule/mapping.rs
+++ b/src/parsing/rule/mapping.rs
@@ -44,7 +44,7 @@ pub static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| {
         Token::LeftBlockStar => vec![RULE_BLOCK_STAR],
         Token::RightBlock => vec![],
         Token::LeftParentheses => vec![RULE_BIBCITE, RULE_TEXT],
-        Token::RightParentheses => vec![RULE_BIBCITE, RULE_TEXT],
+        Token::RightParentheses => vec![RULE_TEXT],
         Token::LeftMath => vec![RULE_MATH],
         Token::RightMath => vec![],
         Token::DoubleDash => vec![RULE_STRIKETHROUGH_DASH, RULE_DASH],
-- 
2.43.0


From b4984e8f8a4509fbb686ba3aba7d2e540be921f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 19/47] fix: any words in double parentheses were taken as a
 citation

---
 src/parsing/rule/impls/bibcite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/bibcite.rs b/src/parsing/rule/impls/bibcite.rs
index a6047d2..fa7c9fa 100644
--- a/src/parsing/rule/impls/bibcite.rs
+++ b/src/parsing/rule/impls/bibcite.rs
@@ -35,7 +35,7 @@ fn try_consume_fn<'r, 't>(
     // This is like a poor man's block, it's "((bibcite <label>))"
     let current = parser.current();
     if current.token != Token::Identifier
-        && !current.slice.eq_ignore_ascii_case("bibcite")
+        || !current.slice.eq_ignore_ascii_case("bibcite")
     {
         warn!("'((' not followed by 'bibcite', failing rule");
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
-- 
2.43.0


From 440ed78931bd146920b5e12e3857142b072248ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 20/47] fix: an include within the arguments of another
 corrupted the text or panicked

---
 src/includes/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/includes/mod.rs b/src/includes/mod.rs
index 4656265..369b21e 100644
--- a/src/includes/mod.rs
+++ b/src/includes/mod.rs
@@ -41,6 +41,7 @@ use crate::settings::WikitextSettings;
 use crate::tree::VariableMap;
 use once_cell::sync::Lazy;
 use regex::{Regex, RegexBuilder};
+use std::ops::Range;
 
 static INCLUDE_REGEX: Lazy<Regex> = Lazy::new(|| {
     RegexBuilder::new(r"^\[\[\s*include\s+")
@@ -78,13 +79,18 @@ where
         input.len(),
     );
 
-    let mut ranges = Vec::new();
+    let mut ranges: Vec<Range<usize>> = Vec::new();
     let mut includes = Vec::new();
 
     // Get include references
     for mtch in INCLUDE_REGEX.find_iter(input) {
         let start = mtch.start();
 
+        // This include is part of the arguments of the previous one
+        if ranges.last().is_some_and(|range| start < range.end) {
+            continue;
+        }
+
         trace!(
             "Found include regex match (start {}, slice '{}')",
             start,
-- 
2.43.0


From cb9b56fe48e116eacd98ea2e2487b7e90c28c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 21/47] fix: text directly after a definition list separator
 was lost

---
 src/parsing/rule/impls/definition_list.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1a4f8fb..6ca1404 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -136,6 +136,13 @@ fn parse_item<'r, 't>(
     let end_token = parser.current();
 
     strip_whitespace(&mut key_elements);
+
+    // The separator must be followed by whitespace, as anything
+    // else here would be content, which must not be skipped.
+    if parser.look_ahead(0).map(|token| token.token) != Some(Token::Whitespace) {
+        return Err(parser.make_err(ParseErrorKind::RuleFailed));
+    }
+
     parser.step_n(2)?;
 
     // Gather key wikitext
-- 
2.43.0


From aa8c881dc22619d634338a6bb585751a09596640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 22/47] fix: the UTF-16 index map of an empty text had no index
 for its end

---
 src/utf16.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/utf16.rs b/src/utf16.rs
index 31316bf..4a6e6ba 100644
--- a/src/utf16.rs
+++ b/src/utf16.rs
@@ -47,19 +47,15 @@ impl<'t> Utf16IndexMap<'t> {
     pub fn new(text: &'t str) -> Self {
         let mut map = HashMap::new();
         let mut utf16_index = 0;
-        let mut last_utf8_index = None;
 
         // Add index for the start of each character
         for (utf8_index, ch) in text.char_indices() {
             map.insert(utf8_index, utf16_index);
             utf16_index += ch.len_utf16();
-            last_utf8_index = Some(utf8_index + ch.len_utf8());
         }
 
         // Add last index, needed for the final token span.
-        if let Some(utf8_index) = last_utf8_index {
-            map.insert(utf8_index, utf16_index);
-        }
+        map.insert(text.len(), utf16_index);
 
         Utf16IndexMap {
             map,
-- 
2.43.0


From 1e7e30cab238cb694a90ea1a22aebff995fc4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 23/47] fix: side content of an abandoned definition list item
 stayed in the page's tables

---
 src/parsing/rule/impls/definition_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 6ca1404..dd6bd02 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -67,6 +67,7 @@ fn parse_definition_list<'r, 't>(
     // Collect remainder, halting if there's a failure
     if !at_end {
         loop {
+            let mark = parser.shared_mark();
             let sub_parser = &mut parser.clone();
 
             match parse_item(sub_parser) {
@@ -84,6 +85,7 @@ fn parse_definition_list<'r, 't>(
                 }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
+                    parser.restore_shared(mark);
                     break;
                 }
             }
-- 
2.43.0


From dcf4f54fb4ff858c6b02c991d80952890681cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 24/47] fix: headings repeated in footnote lists and citations
 shifted the table of contents

---
 src/render/html/context.rs           | 15 +++++++++++++++
 src/render/html/element/container.rs |  8 +++++++-
 src/render/html/element/footnotes.rs |  4 ++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 72bfe90..c6f62d0 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -77,6 +77,7 @@ where
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
     in_citation: bool,
+    in_footnote_list: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -127,6 +128,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
             in_citation: false,
+            in_footnote_list: false,
         }
     }
 
@@ -267,6 +269,19 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
         self.in_citation = value;
     }
 
+    // Footnote list
+    //
+    // It repeats the contents of each footnote's tooltip.
+    #[inline]
+    pub fn set_in_footnote_list(&mut self, value: bool) {
+        self.in_footnote_list = value;
+    }
+
+    #[inline]
+    pub fn in_repetition(&self) -> bool {
+        self.in_citation || self.in_footnote_list
+    }
+
     // Backlinks
     #[inline]
     pub fn add_link(&mut self, link: &LinkLocation) {
diff --git a/src/render/html/element/container.rs b/src/render/html/element/container.rs
index 8a688c7..acb48a4 100644
--- a/src/render/html/element/container.rs
+++ b/src/render/html/element/container.rs
@@ -41,7 +41,13 @@ pub fn render_container(ctx: &mut HtmlContext, container: &Container) {
 
 pub fn render_container_internal(ctx: &mut HtmlContext, container: &Container) {
     // Get HTML tag type for this type of container
-    let tag_spec = container.ctype().html_tag(ctx);
+    //
+    // A heading in a footnote or citation is only the target of its
+    // table of contents entry once, not where its contents are repeated.
+    let tag_spec = match container.ctype() {
+        ContainerType::Header(heading) if ctx.in_repetition() => heading.level.into(),
+        ctype => ctype.html_tag(ctx),
+    };
 
     // Get correct ID, based on the render setting
     let random_id = choose_id(ctx, &tag_spec);
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index 950bef1..e43c1c2 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -114,6 +114,8 @@ pub fn render_footnote_block(ctx: &mut HtmlContext, title: Option<&str>) {
                 .contents(title);
 
             ctx.html().ol().inner(|ctx| {
+                ctx.set_in_footnote_list(true);
+
                 // TODO make this into a footnote helper method
                 for (index, contents) in ctx.footnotes().iter().enumerate() {
                     let index = index + 1;
@@ -152,6 +154,8 @@ pub fn render_footnote_block(ctx: &mut HtmlContext, title: Option<&str>) {
                                 .contents(contents);
                         });
                 }
+
+                ctx.set_in_footnote_list(false);
             });
         });
 }
-- 
2.43.0


From 34294c6ceab10d65c8cd9f53f299fb459eb1c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 25/47] fix: a heading within another heading came first in the
 table of contents

---
 src/parsing/parser.rs            | 15 +++++++++++++--
 src/parsing/rule/impls/header.rs |  3 ++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 26ff069..28cd686 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -227,9 +227,18 @@ impl<'r, 't> Parser<'r, 't> {
         }
     }
 
+    /// The index at which the next table of contents entry would be added.
+    pub fn next_table_of_contents_index(&self) -> usize {
+        self.table_of_contents.borrow().len()
+    }
+
     /// Add heading element to table of contents.
-    pub fn push_table_of_contents_entry(
+    ///
+    /// The index is where this heading starts. If it contains other headings,
+    /// then those have been added already, but come after it.
+    pub fn insert_table_of_contents_entry(
         &mut self,
+        index: usize,
         heading: HeadingLevel,
         name_elements: &[Element],
     ) {
@@ -240,7 +249,9 @@ impl<'r, 't> Parser<'r, 't> {
         let name =
             TextRender.render_partial(name_elements, self.page_info, self.settings, 0);
 
-        self.table_of_contents.borrow_mut().push((level, name));
+        self.table_of_contents
+            .borrow_mut()
+            .insert(index, (level, name));
     }
 
     #[cold]
diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6bc1e54..a834b52 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -88,6 +88,7 @@ fn parse_heading<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
+    let toc_index = parser.next_table_of_contents_index();
     let (elements, all_errors, _) = collect_container(
         parser,
         RULE_HEADER,
@@ -112,7 +113,7 @@ fn parse_heading<'r, 't>(
         };
 
         // Create table of contents entry with the given level and name.
-        parser.push_table_of_contents_entry(heading.level, elements);
+        parser.insert_table_of_contents_entry(toc_index, heading.level, elements);
     }
 
     ok!(false; elements, all_errors)
-- 
2.43.0


From 5ada733ea7d9d92ec389a9d5a43bb8741930942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 26/47] fix: a page link named javascript:; could carry a
 script in what follows it

---
 src/url.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/url.rs b/src/url.rs
index 0e53cf2..ee9209d 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -48,6 +48,9 @@ pub const URL_SCHEMES: [&str; 19] = [
     "sftp://",
 ];
 
+/// The inert link target which replaces dangerous ones.
+const INVALID_URL: &str = "#invalid-url";
+
 pub fn is_url(url: &str) -> bool {
     // If it's a URL
     for scheme in &URL_SCHEMES {
@@ -95,6 +98,9 @@ pub fn normalize_link<'a>(
 
             match site {
                 Some(site) => Cow::Owned(helper.build_url(site, page)),
+
+                // A page may have extra data after it, so even "javascript:;" isn't inert.
+                None if dangerous_scheme(page) => Cow::Borrowed(INVALID_URL),
                 None => normalize_href(page),
             }
         }
@@ -106,7 +112,7 @@ pub fn normalize_href(url: &str) -> Cow<str> {
         Cow::Borrowed(url)
     } else if dangerous_scheme(url) {
         warn!("Attempt to pass in dangerous URL: {url}");
-        Cow::Borrowed("#invalid-url")
+        Cow::Borrowed(INVALID_URL)
     } else {
         let split_anchor: Vec<&str> = url.splitn(2, "#").collect();
         let mut split_url: Vec<&str> = split_anchor[0].split("/").collect();
-- 
2.43.0


From c3e9e1b3c3c9283adc3b84d6dba18b7b9fb83e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 27/47] fix: bibliography items had fixed identifiers where
 true identifiers are disabled

---
 src/render/html/element/bibliography.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index ff84417..82d6c50 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -143,6 +143,7 @@ pub fn render_bibliography(
                 .attr(attr!("class" => "wj-bibliography-title title"))
                 .contents(title);
 
+            let use_true_ids = ctx.settings().use_true_ids;
             let mut id = String::new();
             for (entry_index, (_, elements)) in bibliography.slice().iter().enumerate() {
                 // Convert to 1-indexing
@@ -163,7 +164,10 @@ pub fn render_bibliography(
                 // Make bibliography row
                 ctx.html()
                     .div()
-                    .attr(attr!("class" => "wj-bibliography-item bibitem", "id" => &id))
+                    .attr(attr!(
+                        "class" => "wj-bibliography-item bibitem",
+                        "id" => &id; if use_true_ids,
+                    ))
                     .inner(|ctx| {
                         // Number and clickable anchor
                         ctx.html()
-- 
2.43.0


From d0329b7fef1aae17ddd74ed4154ddc814c9e4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 28/47] fix: withheld conditional content ended the paragraph
 around it

A conditional whose condition does not hold returned no elements but claimed
not to be paragraph safe, so the paragraph it stood in was split in two.
---
 src/parsing/rule/impls/block/blocks/ifcategory.rs | 6 +++---
 src/parsing/rule/impls/block/blocks/iftags.rs     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index cc881de..70f60be 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -78,16 +78,16 @@ fn parse_fn<'r, 't>(
     );
 
     // Return elements based on condition
-    let elements = if check_ifcategory(parser.page_info(), &conditions) {
+    let (elements, paragraph_safe) = if check_ifcategory(parser.page_info(), &conditions) {
         trace!("Conditions passed, including elements");
 
-        Elements::Multiple(elements)
+        (Elements::Multiple(elements), paragraph_safe)
     } else {
         trace!("Conditions failed, excluding elements");
 
         // Also remove footnotes, code blocks, etc. from the excluded elements
         parser.restore_shared(mark);
-        Elements::None
+        (Elements::None, true)
     };
 
     ok!(paragraph_safe; elements, errors)
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index dba55d7..9ed926c 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -62,16 +62,16 @@ fn parse_fn<'r, 't>(
     );
 
     // Return elements based on condition
-    let elements = if check_iftags(parser.page_info(), &conditions) {
+    let (elements, paragraph_safe) = if check_iftags(parser.page_info(), &conditions) {
         trace!("Conditions passed, including elements");
 
-        Elements::Multiple(elements)
+        (Elements::Multiple(elements), paragraph_safe)
     } else {
         trace!("Conditions failed, excluding elements");
 
         // Also remove footnotes, code blocks, etc. from the excluded elements
         parser.restore_shared(mark);
-        Elements::None
+        (Elements::None, true)
     };
 
     ok!(paragraph_safe; elements, errors)
-- 
2.43.0


From e3b857a8b08f3c2463fd69edb8509b684019f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 29/47] fix: formatting markers followed by a space opened
 formatting

The rules meant to refuse such a marker, but the condition was only tested
after the marker was consumed, when it can no longer hold.
---
 src/parsing/check_step.rs               | 20 +++++++++++++++++++-
 src/parsing/rule/impls/bold.rs          |  2 +-
 src/parsing/rule/impls/italics.rs       |  2 +-
 src/parsing/rule/impls/mod.rs           |  2 +-
 src/parsing/rule/impls/monospace.rs     |  2 +-
 src/parsing/rule/impls/strikethrough.rs |  2 +-
 src/parsing/rule/impls/subscript.rs     |  2 +-
 src/parsing/rule/impls/superscript.rs   |  2 +-
 src/parsing/rule/impls/underline.rs     |  2 +-
 9 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/parsing/check_step.rs b/src/parsing/check_step.rs
index 2538cc2..5515ab1 100644
--- a/src/parsing/check_step.rs
+++ b/src/parsing/check_step.rs
@@ -18,7 +18,7 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  */
 
-use super::{ExtractedToken, ParseError, Parser, Token};
+use super::{ExtractedToken, ParseError, ParseErrorKind, Parser, Token};
 
 /// Helper function to assert that the current token matches, then step.
 ///
@@ -42,6 +42,24 @@ pub fn check_step<'r, 't>(
     Ok(current)
 }
 
+/// Variant of `check_step()` for the opening token of inline formatting.
+///
+/// Such a token only opens formatting if it is not followed by whitespace,
+/// otherwise this returns an error.
+#[inline]
+pub fn check_step_formatting<'r, 't>(
+    parser: &mut Parser<'r, 't>,
+    token: Token,
+) -> Result<&'r ExtractedToken<'t>, ParseError> {
+    let current = check_step(parser, token)?;
+
+    if parser.current().token == Token::Whitespace {
+        return Err(parser.make_err(ParseErrorKind::RuleFailed));
+    }
+
+    Ok(current)
+}
+
 #[test]
 #[should_panic]
 fn check_step_fail() {
diff --git a/src/parsing/rule/impls/bold.rs b/src/parsing/rule/impls/bold.rs
index 14803f1..00841e5 100644
--- a/src/parsing/rule/impls/bold.rs
+++ b/src/parsing/rule/impls/bold.rs
@@ -30,7 +30,7 @@ fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create bold (strong) container");
-    check_step(parser, Token::Bold)?;
+    check_step_formatting(parser, Token::Bold)?;
     collect_container(
         parser,
         RULE_BOLD,
diff --git a/src/parsing/rule/impls/italics.rs b/src/parsing/rule/impls/italics.rs
index 573e3fe..cc7ad1b 100644
--- a/src/parsing/rule/impls/italics.rs
+++ b/src/parsing/rule/impls/italics.rs
@@ -30,7 +30,7 @@ fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create italics (emphasis) container");
-    check_step(parser, Token::Italics)?;
+    check_step_formatting(parser, Token::Italics)?;
     collect_container(
         parser,
         RULE_ITALICS,
diff --git a/src/parsing/rule/impls/mod.rs b/src/parsing/rule/impls/mod.rs
index 86798f7..a16d4f2 100644
--- a/src/parsing/rule/impls/mod.rs
+++ b/src/parsing/rule/impls/mod.rs
@@ -19,7 +19,7 @@
  */
 
 mod prelude {
-    pub use crate::parsing::check_step::check_step;
+    pub use crate::parsing::check_step::{check_step, check_step_formatting};
     pub use crate::parsing::collect::*;
     pub use crate::parsing::condition::ParseCondition;
     pub use crate::parsing::consume::consume;
diff --git a/src/parsing/rule/impls/monospace.rs b/src/parsing/rule/impls/monospace.rs
index 82cd88c..d913dad 100644
--- a/src/parsing/rule/impls/monospace.rs
+++ b/src/parsing/rule/impls/monospace.rs
@@ -30,7 +30,7 @@ fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create monospace container");
-    check_step(parser, Token::LeftMonospace)?;
+    check_step_formatting(parser, Token::LeftMonospace)?;
     collect_container(
         parser,
         RULE_MONOSPACE,
diff --git a/src/parsing/rule/impls/strikethrough.rs b/src/parsing/rule/impls/strikethrough.rs
index 71d776d..15c426b 100644
--- a/src/parsing/rule/impls/strikethrough.rs
+++ b/src/parsing/rule/impls/strikethrough.rs
@@ -54,7 +54,7 @@ fn try_consume_strikethrough<'r, 't>(
     token: Token,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create a strikethrough (token {})", token.name());
-    check_step(parser, token)?;
+    check_step_formatting(parser, token)?;
     collect_container(
         parser,
         rule,
diff --git a/src/parsing/rule/impls/subscript.rs b/src/parsing/rule/impls/subscript.rs
index c877a1a..79c8c0f 100644
--- a/src/parsing/rule/impls/subscript.rs
+++ b/src/parsing/rule/impls/subscript.rs
@@ -30,7 +30,7 @@ fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create subscript container");
-    check_step(parser, Token::Subscript)?;
+    check_step_formatting(parser, Token::Subscript)?;
     collect_container(
         parser,
         RULE_SUBSCRIPT,
diff --git a/src/parsing/rule/impls/superscript.rs b/src/parsing/rule/impls/superscript.rs
index 7d30ec7..eae1810 100644
--- a/src/parsing/rule/impls/superscript.rs
+++ b/src/parsing/rule/impls/superscript.rs
@@ -30,7 +30,7 @@ fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create superscript container");
-    check_step(parser, Token::Superscript)?;
+    check_step_formatting(parser, Token::Superscript)?;
     collect_container(
         parser,
         RULE_SUPERSCRIPT,
diff --git a/src/parsing/rule/impls/underline.rs b/src/parsing/rule/impls/underline.rs
index 9f948b7..c27e8d6 100644
--- a/src/parsing/rule/impls/underline.rs
+++ b/src/parsing/rule/impls/underline.rs
@@ -30,7 +30,7 @@ fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create underline container");
-    check_step(parser, Token::Underline)?;
+    check_step_formatting(parser, Token::Underline)?;
     collect_container(
         parser,
         RULE_UNDERLINE,
-- 
2.43.0


From 9b2e1d0fd3b52ec94d7abb603148c8052c4e5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 30/47] fix: line breaks before text resembling a line marker
 were dropped

Text such as '*a', '+1', '=b' or ' + c' on a new line was joined to the
previous line, as only the first token of the upcoming line was examined.
---
 .../rule/impls/block/blocks/ifcategory.rs     |  3 +-
 src/parsing/rule/impls/line_break.rs          | 39 +++++++++++--------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 70f60be..1a88aed 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -78,7 +78,8 @@ fn parse_fn<'r, 't>(
     );
 
     // Return elements based on condition
-    let (elements, paragraph_safe) = if check_ifcategory(parser.page_info(), &conditions) {
+    let (elements, paragraph_safe) = if check_ifcategory(parser.page_info(), &conditions)
+    {
         trace!("Conditions passed, including elements");
 
         (Elements::Multiple(elements), paragraph_safe)
diff --git a/src/parsing/rule/impls/line_break.rs b/src/parsing/rule/impls/line_break.rs
index ee31d96..dc3e8a0 100644
--- a/src/parsing/rule/impls/line_break.rs
+++ b/src/parsing/rule/impls/line_break.rs
@@ -42,25 +42,32 @@ fn line_break<'r, 't>(parser: &mut Parser<'r, 't>) -> ParseResult<'r, 't, Elemen
 
     let upcoming_skip = parser.evaluate_fn(|parser| {
         parser.step()?;
+
+        // Only list items may be indented.
+        let indented = parser.current().token == Token::Whitespace;
         parser.get_optional_space()?;
 
-        Ok(matches!(
-            parser.current().token,
+        let (token, next) = parser.next_two_tokens();
+        Ok(match token {
+            // These are only markers if they are followed by a space.
+            Token::BulletItem | Token::NumberedItem => next == Some(Token::Whitespace),
+            Token::Heading | Token::Equals => {
+                !indented && next == Some(Token::Whitespace)
+            }
+
             Token::Quote
-                | Token::BulletItem
-                | Token::NumberedItem
-                | Token::Heading
-                | Token::Equals
-                | Token::TripleDash
-                | Token::ClearFloatLeft
-                | Token::ClearFloatRight
-                | Token::ClearFloatBoth
-                | Token::TableColumn
-                | Token::TableColumnLeft
-                | Token::TableColumnRight
-                | Token::TableColumnCenter
-                | Token::TableColumnTitle
-        ))
+            | Token::TripleDash
+            | Token::ClearFloatLeft
+            | Token::ClearFloatRight
+            | Token::ClearFloatBoth
+            | Token::TableColumn
+            | Token::TableColumnLeft
+            | Token::TableColumnRight
+            | Token::TableColumnCenter
+            | Token::TableColumnTitle => !indented,
+
+            _ => false,
+        })
     });
 
     if upcoming_skip {
-- 
2.43.0


From c121b020026fa810c0ed40595d59f9df9c4579f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 31/47] fix: lists and blockquotes went on after a blank line

Unlike tables and definition lists, they took the lines after a paragraph
break as their own, merging what is written as separate lists or quotes.
---
 src/parsing/rule/impls/blockquote.rs | 9 +++++++--
 src/parsing/rule/impls/list.rs       | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parsing/rule/impls/blockquote.rs b/src/parsing/rule/impls/blockquote.rs
index 75978d0..ee6b619 100644
--- a/src/parsing/rule/impls/blockquote.rs
+++ b/src/parsing/rule/impls/blockquote.rs
@@ -64,7 +64,7 @@ fn try_consume_fn<'r, 't>(
 
         // Parse elements until we hit the end of the line
         let mut paragraph_safe = true;
-        let mut elements = collect_consume(
+        let (mut elements, last) = collect_consume_keep(
             parser,
             RULE_BLOCKQUOTE,
             &[
@@ -86,7 +86,12 @@ fn try_consume_fn<'r, 't>(
         // So, we subtract one.
         //
         // This will not overflow because Token::Quote requires at least one ">".
-        depths.push((depth - 1, (), (elements, paragraph_safe)))
+        depths.push((depth - 1, (), (elements, paragraph_safe)));
+
+        // A blank line ends the blockquote
+        if last.token == Token::ParagraphBreak {
+            break;
+        }
     }
 
     // This blockquote has no rows, so the rule fails
diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 3376269..e6a592a 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -109,7 +109,7 @@ fn try_consume_fn<'r, 't>(
         parser.step()?;
 
         // Parse elements until we hit the end of the line
-        let elements = collect_consume(
+        let (elements, last) = collect_consume_keep(
             parser,
             RULE_LIST,
             &[
@@ -124,6 +124,11 @@ fn try_consume_fn<'r, 't>(
 
         // Append list line
         depths.push((depth, list_type, elements));
+
+        // A blank line ends the list
+        if last.token == Token::ParagraphBreak {
+            break;
+        }
     }
 
     // This list has no rows, so the rule fails
-- 
2.43.0


From 79141036952a98b75e5f10e15f44c7f9208700b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 32/47] fix: stray line breaks after block elements in
 blockquotes

---
 src/parsing/rule/impls/blockquote.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsing/rule/impls/blockquote.rs b/src/parsing/rule/impls/blockquote.rs
index ee6b619..29e4216 100644
--- a/src/parsing/rule/impls/blockquote.rs
+++ b/src/parsing/rule/impls/blockquote.rs
@@ -77,8 +77,11 @@ fn try_consume_fn<'r, 't>(
         )?
         .chain(&mut errors, &mut paragraph_safe);
 
-        // Add a line break for the end of the line
-        elements.push(Element::LineBreak);
+        // Add a line break for the end of the line,
+        // unless it has an element which stands outside of paragraphs.
+        if paragraph_safe {
+            elements.push(Element::LineBreak);
+        }
 
         // Append blockquote line
         //
-- 
2.43.0


From d9cf081e3e727fff6470473e6dcd3ad7b842fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 33/47] fix: the line break after a float clear was kept

The rule did not step over its own token, so it never saw the line break
which it is meant to consume. Outside of paragraphs it was then rendered.
---
 src/parsing/rule/impls/clear_float.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsing/rule/impls/clear_float.rs b/src/parsing/rule/impls/clear_float.rs
index 0fefac3..c6a4ccf 100644
--- a/src/parsing/rule/impls/clear_float.rs
+++ b/src/parsing/rule/impls/clear_float.rs
@@ -41,6 +41,7 @@ fn try_consume_fn<'r, 't>(
     };
 
     // Optionally consume newline after
+    parser.step()?;
     parser.get_optional_line_break()?;
 
     ok!(Element::ClearFloat(clear_float))
-- 
2.43.0


From 6cda3bdca680cd75e922e97dacd1d7060ced6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 34/47] fix: a cell within a header cell caused a panic when
 rendered

---
 src/parsing/rule/impls/block/blocks/table.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/table.rs b/src/parsing/rule/impls/block/blocks/table.rs
index b1b547e..0b36dc9 100644
--- a/src/parsing/rule/impls/block/blocks/table.rs
+++ b/src/parsing/rule/impls/block/blocks/table.rs
@@ -232,8 +232,6 @@ fn parse_cell_header<'r, 't>(
     flag_score: bool,
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);
-
     // Get block contents.
     let ParsedBlock {
         elements,
-- 
2.43.0


From d0e4cfc53a99278f79e3e0976ef03d1361d9538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 35/47] fix: parts of URLs, anchors and paths were taken for
 categories in link labels

---
 src/parsing/rule/impls/link_triple.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/link_triple.rs b/src/parsing/rule/impls/link_triple.rs
index f66e6c4..54c59b2 100644
--- a/src/parsing/rule/impls/link_triple.rs
+++ b/src/parsing/rule/impls/link_triple.rs
@@ -30,6 +30,7 @@
 
 use super::prelude::*;
 use crate::tree::{AnchorTarget, LinkLabel, LinkLocation};
+use crate::url::is_url;
 use std::borrow::Cow;
 
 pub const RULE_LINK_TRIPLE: Rule = Rule {
@@ -114,7 +115,12 @@ fn build_same<'r, 't>(
     debug!("Building link with same URL and label (url '{url}')");
 
     // Remove category, if present
-    let label = strip_category(url).map(Cow::Borrowed);
+    // (URLs also have colons, but no category)
+    let label = if is_url(url) {
+        None
+    } else {
+        strip_category(url).map(Cow::Borrowed)
+    };
 
     // Parse out link location
     let (link, ltype) = match LinkLocation::parse_interwiki(cow!(url), parser.settings())
@@ -216,6 +222,9 @@ fn strip_category(url: &str) -> Option<&str> {
             })
         }
 
+        // The colon isn't in the page name, e.g. page/edit:true or #anchor:1
+        Some(idx) if url[..idx].trim_start_matches('/').contains(['/', '#']) => None,
+
         // Link with category but no site, e.g. theme:sigma-9.
         Some(idx) => Some(url[idx + 1..].trim_start()),
 
-- 
2.43.0


From 094f1f0e90328ef8f8395ee9569191cee5db66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 36/47] fix: local paths with a colon were rejected as
 dangerous

---
 src/url.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/url.rs b/src/url.rs
index ee9209d..f167412 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -110,7 +110,8 @@ pub fn normalize_link<'a>(
 pub fn normalize_href(url: &str) -> Cow<str> {
     if is_url(url) || url.starts_with('#') || url == "javascript:;" {
         Cow::Borrowed(url)
-    } else if dangerous_scheme(url) {
+    } else if !url.starts_with('/') && dangerous_scheme(url) {
+        // (local paths don't have a scheme, even if they have a colon)
         warn!("Attempt to pass in dangerous URL: {url}");
         Cow::Borrowed(INVALID_URL)
     } else {
-- 
2.43.0


From d3ac4a8fa4cf3be042e0070c88739760064b4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:24 +0000
Subject: [PATCH 37/47] fix: dates without a timezone were shown as <ERROR>

---
 src/tree/date.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tree/date.rs b/src/tree/date.rs
index 236574c..570cfab 100644
--- a/src/tree/date.rs
+++ b/src/tree/date.rs
@@ -64,11 +64,8 @@ impl DateItem {
     pub fn format(self) -> io::Result<String> {
         use time::error::Format;
 
-        let result = match self {
-            DateItem::Date(date) => date.format(&Rfc2822),
-            DateItem::DateTime(datetime) => datetime.format(&Rfc2822),
-            DateItem::DateTimeTz(datetime_tz) => datetime_tz.format(&Rfc2822),
-        };
+        // Dates without a timezone are taken to be in UTC, as in timestamp()
+        let result = self.to_datetime_tz().format(&Rfc2822);
 
         result.map_err(|error| match error {
             Format::StdIo(io_error) => io_error,
-- 
2.43.0


From c11b147c1a056be84e5fd1b5f4cf5fd1766b689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 38/47] fix: early dates and offsets with seconds were shown as
 <ERROR>

---
 src/tree/date.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tree/date.rs b/src/tree/date.rs
index 570cfab..de9da2f 100644
--- a/src/tree/date.rs
+++ b/src/tree/date.rs
@@ -20,8 +20,16 @@
 
 use std::io;
 use time::format_description::well_known::Rfc2822;
+use time::format_description::BorrowedFormatItem;
+use time::macros::format_description;
 use time::{Date, OffsetDateTime, PrimitiveDateTime, UtcOffset};
 
+/// Like RFC 2822, for dates which it cannot represent (years before 1900).
+const EXTENDED_FORMAT: &[BorrowedFormatItem] = format_description!("[weekday repr:short], [day] [month repr:short] [year] [hour]:[minute]:[second] [offset_hour sign:mandatory][offset_minute]");
+
+/// Like RFC 2822, for timezone offsets which it cannot represent (with seconds).
+const EXTENDED_OFFSET_FORMAT: &[BorrowedFormatItem] = format_description!("[weekday repr:short], [day] [month repr:short] [year] [hour]:[minute]:[second] [offset_hour sign:mandatory]:[offset_minute]:[offset_second]");
+
 #[derive(Serialize, Deserialize, Debug, Copy, Clone, PartialEq, Eq)]
 #[serde(rename_all = "kebab-case", untagged)]
 pub enum DateItem {
@@ -65,7 +73,14 @@ impl DateItem {
         use time::error::Format;
 
         // Dates without a timezone are taken to be in UTC, as in timestamp()
-        let result = self.to_datetime_tz().format(&Rfc2822);
+        let datetime_tz = self.to_datetime_tz();
+        let result = if datetime_tz.offset().seconds_past_minute() != 0 {
+            datetime_tz.format(EXTENDED_OFFSET_FORMAT)
+        } else if datetime_tz.year() < 1900 {
+            datetime_tz.format(EXTENDED_FORMAT)
+        } else {
+            datetime_tz.format(&Rfc2822)
+        };
 
         result.map_err(|error| match error {
             Format::StdIo(io_error) => io_error,
-- 
2.43.0


From 40befbdc306c333cbca463731f789b273ee63baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:37 +0000
Subject: [PATCH 39/47] fix: the timezone of ISO 8601 datetimes without seconds
 was ignored

---
 src/parsing/rule/impls/block/blocks/date.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/date.rs b/src/parsing/rule/impls/block/blocks/date.rs
index 592d916..cb26493 100644
--- a/src/parsing/rule/impls/block/blocks/date.rs
+++ b/src/parsing/rule/impls/block/blocks/date.rs
@@ -120,16 +120,17 @@ fn parse_date(value: &str) -> Result<DateItem, DateParseError> {
         return Ok(datetime_tz.into());
     }
 
-    if let Ok(datetime) = PrimitiveDateTime::parse(value, &Iso8601::PARSING) {
-        trace!("Was ISO 8601 datetime string (no timezone), result '{datetime}'");
-        return Ok(datetime.into());
-    }
-
     if let Ok(datetime_tz) = OffsetDateTime::parse(value, &Iso8601::PARSING) {
         trace!("Was ISO 8601 datetime string, result '{datetime_tz}'");
         return Ok(datetime_tz.into());
     }
 
+    // This ignores any timezone, so datetimes with one must be tried before
+    if let Ok(datetime) = PrimitiveDateTime::parse(value, &Iso8601::PARSING) {
+        trace!("Was ISO 8601 datetime string (no timezone), result '{datetime}'");
+        return Ok(datetime.into());
+    }
+
     if let Ok(datetime_tz) = OffsetDateTime::parse(value, &Rfc2822) {
         trace!("Was RFC 2822 datetime string, result '{datetime_tz}'");
         return Ok(datetime_tz.into());
-- 
2.43.0


From e379f9473ae1a7bc7c7049c72ecd84b30523c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 40/47] fix: documents nested beyond the recursion limit could
 take forever

The error was dropped by rules which fall back to text, which then retried at
every level.
---
 src/parsing/consume.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/parsing/consume.rs b/src/parsing/consume.rs
index 2fe0c50..8574e97 100644
--- a/src/parsing/consume.rs
+++ b/src/parsing/consume.rs
@@ -75,6 +75,11 @@ pub fn consume<'r, 't>(parser: &mut Parser<'r, 't>) -> ParseResult<'r, 't, Eleme
 
                 return Ok(output);
             }
+            Err(error) if error.kind() == ParseErrorKind::RecursionDepthExceeded => {
+                // If we've hit the recursion limit, just bail
+                error!("Found recursion depth error, failing");
+                return Err(error);
+            }
             Err(error) => {
                 warn!("Rule failed, returning error: '{}'", error.kind().name());
                 all_errors.push(error);
@@ -86,14 +91,6 @@ pub fn consume<'r, 't>(parser: &mut Parser<'r, 't>) -> ParseResult<'r, 't, Eleme
     let element = text!(current.slice);
     parser.step()?;
 
-    // If we've hit the recursion limit, just bail
-    if let Some(error) = all_errors.last() {
-        if error.kind() == ParseErrorKind::RecursionDepthExceeded {
-            error!("Found recursion depth error, failing");
-            return Err(error.clone());
-        }
-    }
-
     // Add fallback error to errors list
     all_errors.push(ParseError::new(
         ParseErrorKind::NoRulesMatch,
-- 
2.43.0


From 4e8ae62b39f7855c866381ac4b41afcf3d376443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 41/47] fix: parsing time was exponential in the depth of
 unclosed blocks

Rule attempts which are known to fail are not repeated.
---
 src/parsing/parser.rs   | 60 +++++++++++++++++++++++++++++++++++++++++
 src/parsing/rule/mod.rs | 10 ++++++-
 2 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 28cd686..872fdfa 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -30,6 +30,7 @@ use crate::tree::{
 };
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashMap;
 use std::rc::Rc;
 use std::{mem, ptr};
 
@@ -79,6 +80,11 @@ pub struct Parser<'r, 't> {
     // overriding later ones.
     bibliographies: Rc<RefCell<BibliographyList<'t>>>,
 
+    // Rule attempts which failed
+    //
+    // Schema: Map<(where, how), (recursion depth, error)>
+    failures: Rc<RefCell<HashMap<AttemptKey<'t>, (usize, ParseError)>>>,
+
     // Flags
     accepts_partial: AcceptsPartial,
     in_footnote: bool, // Whether we're currently inside [[footnote]] ... [[/footnote]].
@@ -86,6 +92,19 @@ pub struct Parser<'r, 't> {
     start_of_line: bool,
 }
 
+/// The place and parser state that the result of trying a rule depends on.
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+struct AttemptKey<'t> {
+    rule: &'static str,
+    parent_rule: &'static str,
+    remaining: usize,
+    code_block_names: Vec<Cow<'t, str>>,
+    accepts_partial: AcceptsPartial,
+    in_footnote: bool,
+    has_footnote_block: bool,
+    start_of_line: bool,
+}
+
 /// Marks how far each of the shared tables were filled at some point in parsing.
 #[derive(Debug, Copy, Clone)]
 pub struct SharedMark {
@@ -126,6 +145,7 @@ impl<'r, 't> Parser<'r, 't> {
             code_blocks: make_shared_vec(),
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
+            failures: Rc::new(RefCell::new(HashMap::new())),
             accepts_partial: AcceptsPartial::None,
             in_footnote: false,
             has_footnote_block: false,
@@ -349,6 +369,46 @@ impl<'r, 't> Parser<'r, 't> {
         self.has_footnote_block = mark.has_footnote_block;
     }
 
+    // Failed attempts
+    //
+    // When a rule fails its tokens are parsed again by other means, including
+    // all rules within. If each of those were to be tried again, then the
+    // amount of work would double with each level of markup which isn't closed.
+    fn attempt_key(&self, rule: Rule) -> AttemptKey<'t> {
+        let code_block_names = self
+            .code_blocks
+            .borrow()
+            .iter()
+            .filter_map(|block| block.name.clone())
+            .collect();
+
+        AttemptKey {
+            rule: rule.name(),
+            parent_rule: self.rule.name(),
+            remaining: self.remaining.len(),
+            code_block_names,
+            accepts_partial: self.accepts_partial,
+            in_footnote: self.in_footnote,
+            has_footnote_block: self.has_footnote_block,
+            start_of_line: self.start_of_line,
+        }
+    }
+
+    /// If this rule already failed here, and would again, this is its error.
+    pub fn known_failure(&self, rule: Rule) -> Option<ParseError> {
+        match self.failures.borrow().get(&self.attempt_key(rule)) {
+            // At a greater depth it could exceed the recursion limit instead
+            Some((depth, error)) if self.depth <= *depth => Some(error.clone()),
+            _ => None,
+        }
+    }
+
+    pub fn remember_failure(&self, rule: Rule, error: &ParseError) {
+        self.failures
+            .borrow_mut()
+            .insert(self.attempt_key(rule), (self.depth, error.clone()));
+    }
+
     // Special for [[include]], appending a SyntaxTree
     pub fn append_shared_items(
         &mut self,
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index 76c7e56..212c44b 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -68,6 +68,11 @@ impl Rule {
             }
         }
 
+        // Don't repeat an attempt which is known to fail.
+        if let Some(error) = parser.known_failure(self) {
+            return Err(error);
+        }
+
         // Fork parser and try running the rule.
         let mark = parser.shared_mark();
         let mut sub_parser = parser.clone_with_rule(self);
@@ -91,7 +96,10 @@ impl Rule {
 
             // Any elements were discarded, so drop what they added
             // to the shared tables (footnotes, code blocks, etc).
-            Err(_) => parser.restore_shared(mark),
+            Err(ref error) => {
+                parser.restore_shared(mark);
+                parser.remember_failure(self, error);
+            }
         }
 
         result
-- 
2.43.0


From 6116c64ec257fb643760405c0155a0561df15320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 42/47] fix: dates with timezone offsets of a day or more could
 not be deserialized

---
 src/parsing/rule/impls/block/blocks/date.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/block/blocks/date.rs b/src/parsing/rule/impls/block/blocks/date.rs
index cb26493..20d3ac4 100644
--- a/src/parsing/rule/impls/block/blocks/date.rs
+++ b/src/parsing/rule/impls/block/blocks/date.rs
@@ -210,8 +210,15 @@ fn now() -> OffsetDateTime {
     OffsetDateTime::now_utc()
 }
 
-#[inline]
 fn get_offset(seconds: i32) -> Result<UtcOffset, DateParseError> {
+    // There are no timezones which are a day or more away. The time library
+    // allows a few of those, but fails to deserialize dates which have them.
+    const MAX_OFFSET: i32 = 24 * 60 * 60 - 1;
+
+    if !(-MAX_OFFSET..=MAX_OFFSET).contains(&seconds) {
+        return Err(DateParseError);
+    }
+
     UtcOffset::from_whole_seconds(seconds).map_err(|_| DateParseError)
 }
 
-- 
2.43.0


From 174d9a26a6926bbda5effc8462de6dbd1be28713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:17 +0000
Subject: [PATCH 43/47] fix: what follows the page's name was dropped from
 links of images

---
 src/parsing/rule/impls/block/blocks/image.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/block/blocks/image.rs b/src/parsing/rule/impls/block/blocks/image.rs
index 2ff022d..3037a58 100644
--- a/src/parsing/rule/impls/block/blocks/image.rs
+++ b/src/parsing/rule/impls/block/blocks/image.rs
@@ -20,6 +20,7 @@
 
 use super::prelude::*;
 use crate::tree::{FloatAlignment, ImageSource, LinkLocation};
+use std::borrow::Cow;
 
 pub const BLOCK_IMAGE: BlockRule = BlockRule {
     name: "block-image",
@@ -43,7 +44,7 @@ fn parse_fn<'r, 't>(
     assert_block_name(&BLOCK_IMAGE, name);
 
     let (source, mut arguments) = parser.get_head_name_map(&BLOCK_IMAGE, in_head)?;
-    let link = arguments.get("link").map(LinkLocation::parse);
+    let link = arguments.get("link").map(parse_link);
     let alignment = FloatAlignment::parse(name);
 
     // Parse the image source based on format
@@ -62,3 +63,18 @@ fn parse_fn<'r, 't>(
 
     ok!(element)
 }
+
+/// Parses the location an image links to.
+///
+/// Images have no separate place for what follows a page's name (such as `/edit` or `#section`),
+/// so links with it are kept as local paths.
+fn parse_link(link: Cow<'_, str>) -> LinkLocation<'_> {
+    let extra = LinkLocation::parse_extra(Cow::clone(&link));
+
+    match (LinkLocation::parse(link), extra) {
+        (LinkLocation::Page(page), Some(extra)) if page.site().is_none() => {
+            LinkLocation::Url(Cow::Owned(format!("/{}{extra}", page.page())))
+        }
+        (location, _) => location,
+    }
+}
-- 
2.43.0


From 703d3db76a7444d153c7e6101e2c82680b549eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 44/47] fix: [[p]] within inline markup with block content is
 not put in another paragraph

---
 src/parsing/paragraph/stack.rs                   | 10 +++++++++-
 src/parsing/rule/impls/block/blocks/paragraph.rs |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parsing/paragraph/stack.rs b/src/parsing/paragraph/stack.rs
index a90623e..d0f23f5 100644
--- a/src/parsing/paragraph/stack.rs
+++ b/src/parsing/paragraph/stack.rs
@@ -32,6 +32,11 @@ pub struct ParagraphStack<'t> {
 
     /// Gathered errors from paragraph parsing.
     errors: Vec<ParseError>,
+
+    /// Whether any element added was not fit to be in a paragraph.
+    ///
+    /// An element may be unfit because of what it contains.
+    paragraph_unsafe: bool,
 }
 
 impl<'t> ParagraphStack<'t> {
@@ -66,6 +71,7 @@ impl<'t> ParagraphStack<'t> {
             // paragraph wrapper. So finish up what we have, then add this element.
             self.end_paragraph();
             self.finished.push(element);
+            self.paragraph_unsafe = true;
         }
     }
 
@@ -136,6 +142,7 @@ impl<'t> ParagraphStack<'t> {
             current: _,
             finished: elements,
             errors,
+            paragraph_unsafe,
         } = self;
 
         // If this has any paragraphs in it, or other incompatible elements,
@@ -144,7 +151,8 @@ impl<'t> ParagraphStack<'t> {
         // Otherwise it's just a listing of internal elements.
         // This is definitely not the common case here, this mostly will happen
         // if the element list is empty.
-        let paragraph_safe = elements.iter().all(|element| element.paragraph_safe());
+        let paragraph_safe =
+            !paragraph_unsafe && elements.iter().all(|element| element.paragraph_safe());
 
         // Return finished element list
         ok!(paragraph_safe; elements, errors)
diff --git a/src/parsing/rule/impls/block/blocks/paragraph.rs b/src/parsing/rule/impls/block/blocks/paragraph.rs
index 87c36a0..15f2fe8 100644
--- a/src/parsing/rule/impls/block/blocks/paragraph.rs
+++ b/src/parsing/rule/impls/block/blocks/paragraph.rs
@@ -45,7 +45,7 @@ fn parse_fn<'r, 't>(
     // Gather paragraphs
     let arguments = parser.get_head_map(&BLOCK_PARAGRAPH, in_head)?;
     let attributes = arguments.to_attribute_map(parser.settings());
-    let (mut elements, errors, _) =
+    let (mut elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_PARAGRAPH, true)?.into();
 
     // Apply attributes to each paragraph
@@ -58,5 +58,5 @@ fn parse_fn<'r, 't>(
     }
 
     let element = Elements::Multiple(elements);
-    ok!(element, errors)
+    ok!(paragraph_safe; element, errors)
 }
-- 
2.43.0


From c0f1f6d0befcfc9bc93ee8cbb6da399e9b69c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 45/47] fix: text of neighboring cells, lines and blocks ran
 together in text output

Table cells, aligned lines, definition lists, tab labels, collapsible
bodies, and what horizontal rules and float clears divide had nothing
between them and the text before, so that the last and first words of
both were joined.
---
 src/render/text/elements.rs | 41 +++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/render/text/elements.rs b/src/render/text/elements.rs
index 324976d..90a825d 100644
--- a/src/render/text/elements.rs
+++ b/src/render/text/elements.rs
@@ -62,6 +62,7 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
                 ContainerType::Div
                 | ContainerType::Paragraph
                 | ContainerType::Blockquote
+                | ContainerType::Align(_)
                 | ContainerType::Header(_) => true,
 
                 // Wrap any ruby text with parentheses
@@ -119,7 +120,12 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             }
 
             for row in &table.rows {
-                for cell in &row.cells {
+                for (index, cell) in row.cells.iter().enumerate() {
+                    // Keep the text of neighboring cells apart
+                    if index > 0 {
+                        ctx.push(' ');
+                    }
+
                     render_elements(ctx, &cell.elements);
                 }
 
@@ -129,6 +135,10 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             ctx.add_newline();
         }
         Element::TabView(tabs) => {
+            if !ctx.ends_with_newline() {
+                ctx.add_newline();
+            }
+
             for Tab { label, elements } in tabs {
                 // Add tab name
                 ctx.push_str(label);
@@ -177,6 +187,10 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             }
         }
         Element::DefinitionList(items) => {
+            if !ctx.ends_with_newline() {
+                ctx.add_newline();
+            }
+
             for DefinitionListItem {
                 key_elements,
                 value_elements,
@@ -198,7 +212,15 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             // For collapsibles, we simply show the contents.
             // No collapsible labels (open or close) are shown.
 
+            if !ctx.ends_with_newline() {
+                ctx.add_newline();
+            }
+
             render_elements(ctx, elements);
+
+            if !ctx.ends_with_newline() {
+                ctx.add_newline();
+            }
         }
         Element::TableOfContents { .. } => {
             // Doesn't make sense to have a textual table of contents, skip
@@ -257,8 +279,8 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             render_elements(ctx, elements);
             ctx.variables_mut().pop_scope();
         }
-        Element::Style(_) | Element::ClearFloat(_) => {
-            // Style blocks and clear float do not do anything in text mode
+        Element::Style(_) => {
+            // Style blocks do not do anything in text mode
         }
         Element::LineBreak => ctx.add_newline(),
         Element::LineBreaks(amount) => {
@@ -270,7 +292,18 @@ pub fn render_element(ctx: &mut TextContext, element: &Element) {
             // We could add dashes, but that looks tacky on anything
             // that is not a fixed-width font.
             //
-            // So we take the safe option of doing nothing.
+            // So we take the safe option of only
+            // keeping the text around it apart.
+            if !ctx.ends_with_newline() {
+                ctx.add_newline();
+            }
+        }
+        Element::ClearFloat(_) => {
+            // Clear floats themselves do not do anything in text mode,
+            // but they divide the lines before and after.
+            if !ctx.ends_with_newline() {
+                ctx.add_newline();
+            }
         }
         Element::Partial(_) => panic!("Encountered partial element during parsing"),
     }
-- 
2.43.0


From 30b0ef0aee514e8d87c6743a46e98d3f6b8209e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:24 +0000
Subject: [PATCH 46/47] fix: what follows the first / or # in an interwiki path
 was appended to the link again

[[[!wp:a/b]]] led to https://wikipedia.org/wiki/a/b/b, since the part
after a page's name is kept separately for links to pages, but an
interwiki link has it in its URL already.
---
 src/parsing/rule/impls/link_triple.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parsing/rule/impls/link_triple.rs b/src/parsing/rule/impls/link_triple.rs
index 54c59b2..17ef399 100644
--- a/src/parsing/rule/impls/link_triple.rs
+++ b/src/parsing/rule/impls/link_triple.rs
@@ -29,7 +29,7 @@
 //! Its syntax is `[[[page-name | Label text]`.
 
 use super::prelude::*;
-use crate::tree::{AnchorTarget, LinkLabel, LinkLocation};
+use crate::tree::{AnchorTarget, LinkLabel, LinkLocation, LinkType};
 use crate::url::is_url;
 use std::borrow::Cow;
 
@@ -133,7 +133,7 @@ fn build_same<'r, 't>(
     let element = Element::Link {
         ltype,
         link,
-        extra: LinkLocation::parse_extra(cow!(url)),
+        extra: parse_extra(ltype, url),
         label: LinkLabel::Url(label),
         target,
     };
@@ -187,7 +187,7 @@ fn build_separate<'r, 't>(
     let element = Element::Link {
         ltype,
         link,
-        extra: LinkLocation::parse_extra(cow!(url)),
+        extra: parse_extra(ltype, url),
         label,
         target,
     };
@@ -196,6 +196,16 @@ fn build_separate<'r, 't>(
     ok!(element)
 }
 
+/// Get what follows the page in this link, such as `/edit` or `#section`.
+///
+/// Interwiki links don't have any, their path is already entirely in the URL.
+fn parse_extra(ltype: LinkType, url: &str) -> Option<Cow<'_, str>> {
+    match ltype {
+        LinkType::Interwiki => None,
+        _ => LinkLocation::parse_extra(cow!(url)),
+    }
+}
+
 /// Strip off the category for use in URL triple-bracket links.
 ///
 /// The label for a URL link is its URL, but without its category.
-- 
2.43.0


From 4ad3c084150fbce3c1ee11e3c2930553f9cefabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:16 +0000
Subject: [PATCH 47/47] fix: a page reference whose site name is only
 whitespace was accepted

---
 src/data/page_ref.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data/page_ref.rs b/src/data/page_ref.rs
index e4156cb..b146992 100644
--- a/src/data/page_ref.rs
+++ b/src/data/page_ref.rs
@@ -108,6 +108,12 @@ impl<'t> PageRef<'t> {
                 let site = s[1..idx].trim();
                 let page = s[idx + 1..].trim();
 
+                // The site name may also be empty by consisting of whitespace,
+                // e.g. ": :something"
+                if site.is_empty() {
+                    return Err(PageRefParseError);
+                }
+
                 PageRef::page_and_site(site, page)
             }
 
-- 
2.43.0

