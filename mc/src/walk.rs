//! Every element of a tree in the order in which it is shown.
use ftml::tree::*;

pub struct Walk<'x, 't> {
    pub tree: &'x SyntaxTree<'t>,
    pub notes: usize,
    depth: usize,
}

/// Visits `f` for each element, entering footnotes where their marker stands and bibliographies where they stand.
pub fn all<'x, 't>(tree: &'x SyntaxTree<'t>, into_notes: bool, f: &mut dyn FnMut(&'x Element<'t>)) -> usize {
    let mut w = Walk { tree, notes: 0, depth: 0 };
    w.many(&tree.elements, into_notes, f);
    w.notes
}

impl<'x, 't> Walk<'x, 't> {
    pub fn many(&mut self, v: &'x [Element<'t>], into: bool, f: &mut dyn FnMut(&'x Element<'t>)) {
        for e in v {
            self.one(e, into, f);
        }
    }
    pub fn one(&mut self, e: &'x Element<'t>, into: bool, f: &mut dyn FnMut(&'x Element<'t>)) {
        f(e);
        match e {
            Element::Container(c) => self.many(c.elements(), into, f),
            Element::Table(t) => {
                for r in &t.rows {
                    for c in &r.cells {
                        self.many(&c.elements, into, f);
                    }
                }
            }
            Element::TabView(tabs) => {
                for t in tabs {
                    self.many(&t.elements, into, f);
                }
            }
            Element::Anchor { elements, .. } | Element::Collapsible { elements, .. } | Element::Color { elements, .. } | Element::Include { elements, .. } => self.many(elements, into, f),
            Element::List { items, .. } => {
                for i in items {
                    match i {
                        ListItem::Elements { elements, .. } => self.many(elements, into, f),
                        ListItem::SubList { element } => self.one(element, into, f),
                    }
                }
            }
            Element::DefinitionList(items) => {
                for i in items {
                    self.many(&i.key_elements, into, f);
                    self.many(&i.value_elements, into, f);
                }
            }
            Element::Footnote => {
                let n = self.notes;
                self.notes += 1;
                if into && self.depth < 8 {
                    if let Some(v) = self.tree.footnotes.get(n) {
                        self.depth += 1;
                        self.many(v, into, f);
                        self.depth -= 1;
                    }
                }
            }
            Element::BibliographyBlock { index, .. } => {
                let bibs = crate::refrender::bibs(self.tree);
                if let Some(b) = bibs.get(*index) {
                    for (_, v) in b.iter() {
                        self.many(v, into, f);
                    }
                }
            }
            _ => {}
        }
    }
}
