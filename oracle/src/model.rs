//! Raw views of a document, and a generator of annotation trees with what they must read back as.
use crate::spec::*;
use crate::util::*;
use folia::*;
use std::collections::HashSet;

// ---------------------------------------------------------------- raw view
#[derive(Clone, Debug, PartialEq)]
pub struct RawNode { pub et: ElementType, pub parent: Option<usize>, pub data: Vec<DataType>, pub attribs: Vec<Attribute> }
#[derive(Clone, Debug, PartialEq)]
pub struct Raw { pub n: Vec<RawNode> }

pub fn nelem(doc: &Document) -> usize { <Document as Store<ElementData, ElementKey>>::len(doc) }
pub fn edata<'a>(doc: &'a Document, k: ElementKey) -> Option<&'a ElementData> { <Document as Store<ElementData, ElementKey>>::get(doc, k) }

impl Raw {
    pub fn of(doc: &Document) -> Raw {
        let mut n = vec![];
        for k in 0..nelem(doc) {
            let e = edata(doc, k as ElementKey).expect("element in store");
            let data = (0..e.len()).map(|i| e.get_data_at(i).unwrap().clone()).collect();
            n.push(RawNode { et: e.elementtype, parent: e.parent_key().map(|p| p as usize), data, attribs: e.attribs().clone() });
        }
        Raw { n }
    }
    pub fn kids(&self, k: usize) -> Vec<usize> { self.n[k].data.iter().filter_map(|d| if let DataType::Element(c) = d { Some(*c as usize) } else { None }).collect() }
    pub fn ancestors(&self, k: usize) -> Vec<usize> { let mut v = vec![]; let mut k = k; while let Some(p) = self.n[k].parent { v.push(p); k = p; if v.len() > self.n.len() { panic!("cycle among the parents") } } v }
    /// Parent and children agree everywhere (C05), and there are no cycles.
    pub fn consistent(&self) -> Res {
        let mut count = vec![0usize; self.n.len()];
        for (p, node) in self.n.iter().enumerate() {
            for d in &node.data {
                match d {
                    DataType::Element(c) => {
                        let c = *c as usize;
                        ensure!(c < self.n.len(), "element {} has child {} that does not exist", p, c);
                        count[c] += 1;
                        eq!(self.n[c].parent, Some(p), "parent of element {} ({:?}), which is among the children of {}", c, self.n[c].et, p);
                    }
                    DataType::AddElement(_) => return Err(format!("element {} still has a child that was not added", p)),
                    DataType::SpanReference(s) => ensure!((*s as usize) < self.n.len(), "span reference to nothing"),
                    _ => {}
                }
            }
        }
        for (k, node) in self.n.iter().enumerate() { eq!(count[k], node.parent.is_some() as usize, "occurrences of element {} ({:?}) among children (parent {:?})", k, node.et, node.parent); }
        for k in 0..self.n.len() { self.ancestors(k); }
        Ok(())
    }
}

// ---------------------------------------------------------------- observed tree
#[derive(Clone, Debug, PartialEq)]
pub struct N { pub et: ElementType, pub attrs: Vec<String>, pub set: Option<String>, pub class: Option<String>, pub subset: Option<String>, pub processor: Option<String>, pub kids: Vec<K> }
#[derive(Clone, Debug, PartialEq)]
pub enum K { N(N), T(String), C(String) }

pub fn dump(doc: &Document, key: ElementKey) -> N { dump_as(doc, key, false) }
/// What is to be read back. There is no way to write that an annotation has no processor when its
/// declaration has exactly one (known finding C15-unattributed): it is then attributed to that one.
pub fn dump_reread(doc: &Document, key: ElementKey) -> N { dump_as(doc, key, true) }
fn dump_as(doc: &Document, key: ElementKey, reread: bool) -> N {
    let e = doc.get_element(key).expect("element to dump");
    let d = edata(doc, key).unwrap();
    let mut kids = vec![];
    for i in 0..d.len() {
        match d.get_data_at(i).unwrap() {
            DataType::Element(k) => kids.push(K::N(dump_as(doc, *k, reread))),
            DataType::Text(s) => kids.push(K::T(s.clone())),
            DataType::Comment(s) => kids.push(K::C(s.clone())),
            _ => {}
        }
    }
    let mut processor = e.processor().map(String::from);
    if reread && processor.is_none() && d.elementtype != ElementType::Feature && (e.set().is_some() || e.class().is_some() || e.subset().is_some()) {
        if let Some(dec) = e.declaration_key().and_then(|k| doc.get_declaration(k)) {
            if let [p] = dec.processors[..] { processor = doc.get_processor(p).map(|p| p.id.clone()); }
        }
    }
    N { et: d.elementtype, attrs: d.attribs().iter().filter(|a| !a.decodable()).map(|a| format!("{:?}", a)).collect(),
        set: e.set().map(String::from), class: e.class().map(String::from), subset: e.subset().map(String::from), processor, kids }
}
/// What is immaterial once text has been through XML: adjacent pieces of text are one.
pub fn canon(n: &N) -> N {
    let mut kids: Vec<K> = vec![];
    for k in &n.kids {
        match k {
            K::T(s) => if s.is_empty() {} else if let Some(K::T(l)) = kids.last_mut() { l.push_str(s) } else { kids.push(K::T(s.clone())) },
            K::N(c) => kids.push(K::N(canon(c))),
            K::C(c) => kids.push(K::C(c.clone())),
        }
    }
    N { kids, ..n.clone() }
}
pub fn diff(a: &N, b: &N, path: &str) -> Option<String> {
    let here = format!("{}/{:?}", path, a.et);
    if a.et != b.et { return Some(format!("{}: type {:?}, expected {:?}", path, a.et, b.et)); }
    if a.attrs != b.attrs { return Some(format!("{}: attributes {:?}, expected {:?}", here, a.attrs, b.attrs)); }
    for (n, x, y) in [("set", &a.set, &b.set), ("class", &a.class, &b.class), ("subset", &a.subset, &b.subset), ("processor", &a.processor, &b.processor)] {
        if x != y { return Some(format!("{}{:?}: {} {:?}, expected {:?}", here, a.attrs, n, x, y)); }
    }
    for (i, (x, y)) in a.kids.iter().zip(b.kids.iter()).enumerate() {
        match (x, y) {
            (K::N(x), K::N(y)) => if let Some(d) = diff(x, y, &format!("{}[{}]", here, i)) { return Some(d) },
            (x, y) => if x != y { return Some(format!("{}[{}]: {:?}, expected {:?}", here, i, short(x), short(y))) },
        }
    }
    if a.kids.len() != b.kids.len() { return Some(format!("{}: {} children, expected {}: {:?} / {:?}", here, a.kids.len(), b.kids.len(), a.kids.iter().map(short).collect::<Vec<_>>(), b.kids.iter().map(short).collect::<Vec<_>>())); }
    None
}
fn short(k: &K) -> String { match k { K::N(n) => format!("<{:?}>", n.et), x => format!("{:?}", x) } }

// ---------------------------------------------------------------- trees to add
#[derive(Clone, Debug)]
pub enum GK { N(G), T(String), C(String) }
#[derive(Clone, Debug)]
pub struct G { pub et: ElementType, pub attrs: Vec<Attribute>, pub kids: Vec<GK> }

impl G {
    pub fn new(et: ElementType) -> G { G { et, attrs: vec![], kids: vec![] } }
    pub fn a(mut self, a: Attribute) -> G { self.attrs.push(a); self }
    pub fn id(self, s: &str) -> G { self.a(Attribute::Id(s.into())) }
    pub fn k(mut self, g: G) -> G { self.kids.push(GK::N(g)); self }
    pub fn t(mut self, s: &str) -> G { self.kids.push(GK::T(s.into())); self }
    pub fn to_data(&self) -> ElementData {
        let mut e = ElementData::new(self.et).with_attribs(self.attrs.clone());
        for k in &self.kids {
            e = match k { GK::N(g) => e.add_element(g.to_data()), GK::T(s) => e.with(DataType::Text(s.clone())), GK::C(s) => e.with(DataType::Comment(s.clone())) };
        }
        e
    }
    pub fn bare(&self) -> ElementData { ElementData::new(self.et).with_attribs(self.attrs.clone()) }
    pub fn size(&self) -> usize { 1 + self.kids.iter().map(|k| if let GK::N(g) = k { g.size() } else { 0 }).sum::<usize>() }
    pub fn get(&self, f: &dyn Fn(&Attribute) -> Option<String>) -> Option<String> { self.attrs.iter().find_map(|a| f(a)) }
    pub fn gid(&self) -> Option<String> { self.get(&|a| if let Attribute::Id(s) = a { Some(s.clone()) } else { None }) }
    pub fn gset(&self) -> Option<String> { self.get(&|a| if let Attribute::Set(s) = a { Some(s.clone()) } else { None }) }
    pub fn gclass(&self) -> Option<String> { self.get(&|a| if let Attribute::Class(s) = a { Some(s.clone()) } else { None }) }
    pub fn gsubset(&self) -> Option<String> { self.get(&|a| if let Attribute::Subset(s) = a { Some(s.clone()) } else { None }) }
    pub fn gproc(&self) -> Option<String> { self.get(&|a| if let Attribute::Processor(s) = a { Some(s.clone()) } else { None }) }
    pub fn show(&self) -> String {
        let mut o = format!("{:?}", self.et);
        if !self.attrs.is_empty() { o.push_str(&format!("{:?}", self.attrs)); }
        if !self.kids.is_empty() { o.push('('); for k in &self.kids { match k { GK::N(g) => o.push_str(&g.show()), GK::T(s) => o.push_str(&format!("{:?}", s)), GK::C(s) => o.push_str(&format!("<!--{}-->", s)) } o.push(' '); } o.push(')'); }
        o
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a G)) { f(self); for k in &self.kids { if let GK::N(g) = k { g.walk(f) } } }
}

pub fn encodable(a: &Attribute) -> bool { matches!(a, Attribute::Set(_) | Attribute::Class(_) | Attribute::Processor(_) | Attribute::Subset(_)) }
pub fn encoded(a: &Attribute) -> bool { matches!(a, Attribute::DeclarationRef(_) | Attribute::ClassRef(_) | Attribute::ProcessorRef(_) | Attribute::SubsetRef(_)) }

// ---------------------------------------------------------------- model of declarations
#[derive(Clone, Debug, PartialEq)]
pub struct MDecl { pub at: AnnotationType, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>, pub procs: Vec<String> }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Decls { pub v: Vec<MDecl>, pub active: Option<String>, pub known: Vec<String> }
impl Decls {
    pub fn declare(&mut self, at: AnnotationType, set: Option<&str>) -> usize {
        if let Some(i) = self.v.iter().position(|d| d.at == at && d.set.as_deref() == set) { return i; }
        let same: Vec<usize> = (0..self.v.len()).filter(|i| self.v[*i].at == at).collect();
        let i = if set.is_none() && same.len() == 1 { same[0] } else {
            self.v.push(MDecl { at, set: set.map(String::from), alias: None, format: None, procs: vec![] });
            self.v.len() - 1
        };
        if let Some(a) = self.active.clone() { if !self.v[i].procs.contains(&a) { self.v[i].procs.push(a) } }
        i
    }
    pub fn default_of(&self, at: AnnotationType) -> Option<usize> {
        let same: Vec<usize> = (0..self.v.len()).filter(|i| self.v[*i].at == at).collect();
        if same.len() == 1 { Some(same[0]) } else { None }
    }
    /// What the tree must read back as once it is added below a parent with declaration `pdec`;
    /// the second result is the declaration of its top element.
    pub fn encode(&mut self, sp: &Specs, g: &G, parent: Option<(ElementType, Option<usize>)>) -> Result<(N, Option<usize>), String> {
        let (n, d) = self.encode1(sp, g, parent)?;
        let n = self.complete(sp, g, n);
        Ok((n.0, n.1.or(d)))
    }
    fn encode1(&mut self, sp: &Specs, g: &G, parent: Option<(ElementType, Option<usize>)>) -> Result<(N, Option<usize>), String> {
        let mut n = N { et: g.et, attrs: g.attrs.iter().filter(|a| !encodable(a)).map(|a| format!("{:?}", a)).collect(), set: None, class: None, subset: None, processor: None, kids: vec![] };
        let mut dec = None;
        if g.attrs.iter().any(encodable) {
            let mut proc_: Option<String> = None;
            if let Some(at) = sp.get(g.et).at {
                let i = self.declare(at, g.gset().as_deref());
                dec = Some(i);
                n.class = g.gclass();
                let d = &mut self.v[i];
                if d.procs.len() == 1 { proc_ = Some(d.procs[0].clone()) }
                else if let Some(a) = &self.active { proc_ = Some(a.clone()); }
            } else if g.et == ElementType::Feature {
                let (pet, pdec) = parent.ok_or("feature without parent")?;
                let i = match (pdec, g.gset()) {
                    (Some(i), None) => i,
                    (_, set) => self.declare(sp.get(pet).at.ok_or("feature below an element without annotation type")?, set.as_deref()),
                };
                dec = Some(i);
                n.class = g.gclass();
                n.subset = g.gsubset();
            }
            if let Some(p) = g.gproc() { if self.known.contains(&p) { proc_ = Some(p); } }
            if let (Some(i), Some(p)) = (dec, &proc_) { if !self.v[i].procs.contains(p) && (g.gproc().map(|x| self.known.contains(&x)).unwrap_or(false) || sp.get(g.et).at.is_some()) { self.v[i].procs.push(p.clone()) } }
            n.set = dec.and_then(|i| self.v[i].set.clone());
            n.processor = proc_;
        }
        for k in &g.kids {
            n.kids.push(match k { GK::N(c) => K::N(self.encode1(sp, c, Some((g.et, dec)))?.0), GK::T(s) => K::T(s.clone()), GK::C(s) => K::C(s.clone()) });
        }
        Ok((n, dec))
    }
    /// Layers without a set get the set of their spans.
    fn complete(&self, sp: &Specs, g: &G, mut n: N) -> (N, Option<usize>) {
        // bottom up: children first
        let mut kids = vec![];
        let mut gi = g.kids.iter();
        for k in n.kids { let gk = gi.next().unwrap(); kids.push(match (k, gk) { (K::N(c), GK::N(gc)) => K::N(self.complete(sp, gc, c).0), (k, _) => k }); }
        n.kids = kids;
        if sp.in_group(g.et, "Layer") && !g.attrs.iter().any(encodable) {
            fn find<'a>(sp: &Specs, g: &'a G, n: &'a N, at: Option<AnnotationType>, top: bool) -> Option<&'a N> {
                if !top && sp.in_group(g.et, "Span") && sp.get(g.et).at == at && g.attrs.iter().any(encodable) { return Some(n); }
                g.kids.iter().zip(n.kids.iter()).find_map(|k| if let (GK::N(c), K::N(d)) = k { find(sp, c, d, at, false) } else { None })
            }
            if let Some(at) = sp.get(g.et).at {
                if let Some(set) = find(sp, g, &n, Some(at), true).map(|s| s.set.clone()) {
                    let i = self.v.iter().position(|d| d.at == at && d.set == set);
                    n.set = set;
                    return (n, i);
                }
            }
        }
        (n, None)
    }
}
pub fn observe_decls(doc: &Document) -> Vec<MDecl> {
    doc.declarations().filter_map(|d| d.as_ref()).map(|d| MDecl { at: d.annotationtype, set: d.set.clone(), alias: d.alias.clone(), format: d.format.clone(),
        procs: d.processors.iter().map(|p| doc.get_processor(*p).map(|p| p.id.clone()).unwrap_or_else(|| format!("?{}", p))).collect() }).collect()
}

// ---------------------------------------------------------------- generator
pub struct Gen<'a> { pub sp: &'a Specs, pub next: usize, pub words: Vec<String>, pub procs: Vec<String>, pub plain: bool, pub refs: bool, pub only: Option<Vec<ElementType>>, pub awkward: bool, pub sets: bool, pub textclasses: bool, pub exact: bool }
impl<'a> Gen<'a> {
    pub fn new(sp: &'a Specs) -> Gen<'a> { Gen { sp, next: 0, words: vec![], procs: vec![], plain: true, refs: true, only: None, awkward: true, sets: true, textclasses: true, exact: false } }
    pub fn s(&self, r: &mut Rng) -> String { if self.awkward { nonempty(r) } else { ["a", "b", "c", "N", "V"][r.below(5)].into() } }
    pub fn usable(&self, et: ElementType, parent: ElementType, inspan: bool) -> bool {
        let s = self.sp.get(et);
        if s.groups.iter().any(|g| g == "Feature") && et != ElementType::Feature { return false; }
        if et == ElementType::ForeignData || et == ElementType::Text || et == ElementType::Speech { return false; }
        if et == ElementType::WordReference && (!inspan || !self.refs || self.words.is_empty()) { return false; }
        if et == ElementType::Feature && self.sp.get(parent).at.is_none() { return false; }
        if let Some(o) = &self.only { if !o.contains(&et) { return false; } }
        true
    }
    pub fn plain_attr(&self, r: &mut Rng) -> Attribute {
        let s = self.s(r);
        match r.below(20) {
            0 => Attribute::N(s), 1 => Attribute::Confidence([0.0, 1.0, 0.5, 0.25, 0.1, 0.999, 1e-7][r.below(7)]), 2 => Attribute::BeginTime(s), 3 => Attribute::EndTime(s), 4 => Attribute::Src(s),
            5 => Attribute::Speaker(s), 6 => Attribute::Textclass(s), 7 => Attribute::Metadata(s), 8 => Attribute::Annotator(s), 9 => Attribute::AnnotatorType(*r.pick(&[ProcessorType::Auto, ProcessorType::Manual])),
            10 => Attribute::DateTime(chrono::NaiveDate::from_ymd(r.range(1000, 2999) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32).and_hms(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32)),
            11 => Attribute::Space(r.chance(1, 2)), 12 => Attribute::Tag(s), 13 => Attribute::Href(s), 14 => Attribute::Format(s), 15 => Attribute::Type(s), 16 => Attribute::Text(s),
            17 => Attribute::Offset(r.below(65536) as u16), 18 => Attribute::PageNr(s), _ => Attribute::Original(s),
        }
    }
    pub fn node(&mut self, r: &mut Rng, et: ElementType) -> G {
        let s = self.sp.get(et).clone();
        let mut a: Vec<Attribute> = vec![];
        let structural = s.groups.iter().any(|g| g == "Structure");
        if et == ElementType::Word || r.chance(if structural { 3 } else { 1 }, 5) {
            let id = format!("e{}{}", self.next, if self.awkward && r.chance(1, 8) { ".é" } else { "" });
            self.next += 1;
            if s.wrefable { self.words.push(id.clone()); }
            a.push(Attribute::Id(id));
        }
        if s.at.is_some() {
            let text = et == ElementType::TextContent || et == ElementType::PhonContent;
            if text {
                if self.textclasses && r.chance(1, 2) { a.push(Attribute::Class(["current", "original", "ocr"][r.below(3)].into())); }
                if et == ElementType::TextContent && r.chance(1, 4) { a.push(Attribute::Set(DEFAULT_TEXT_SET.into())); }
                if et == ElementType::PhonContent && self.sets && r.chance(1, 4) { a.push(Attribute::Set("s/phon".into())); }
            } else {
                if self.sets && r.chance(2, 5) { a.push(Attribute::Set(["s1", "s2", "http://x/?a=1&b=2"][if self.awkward { r.below(3) } else { r.below(2) }].into())); }
                if r.chance(3, 5) && !s.groups.iter().any(|g| g == "Layer") { a.push(Attribute::Class(self.s(r))); }
            }
            if !self.procs.is_empty() && r.chance(1, 5) { a.push(Attribute::Processor(r.pick(&self.procs).clone())); }
        }
        if et == ElementType::Feature { a.push(Attribute::Subset(["sub1", "sub2", "sub3"][r.below(3)].into())); a.push(Attribute::Class(self.s(r))); }
        if et == ElementType::WordReference { a.push(Attribute::Idref(r.pick(&self.words).clone())); if r.chance(1, 3) { a.push(Attribute::Text("x".into())) } }
        if et == ElementType::Word && r.chance(1, 6) { a.push(Attribute::Space(r.chance(1, 2))); }
        if self.plain && r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                let x = self.plain_attr(r);
                if !a.iter().any(|y| y.attribtype() == x.attribtype()) { a.push(x) }
            }
        }
        // any order
        for i in (1..a.len()).rev() { let j = r.below(i + 1); a.swap(i, j); }
        G { et, attrs: a, kids: vec![] }
    }
    /// Which children does one usually find here?
    fn prefer(&self, et: ElementType) -> &'static [ElementType] {
        use ElementType::*;
        match et {
            Text | Speech => &[Paragraph, Sentence, Division, Paragraph],
            Division => &[Head, Paragraph, Paragraph],
            Paragraph => &[Sentence, Sentence, TextContent],
            Sentence | Head => &[Word, Word, Word, Word, EntitiesLayer, SyntaxLayer, DependenciesLayer, TextContent, Linebreak],
            Word => &[TextContent, TextContent, PosAnnotation, LemmaAnnotation, MorphologyLayer, Correction],
            TextContent => &[TextMarkupStyle, TextMarkupString],
            _ => &[WordReference, WordReference, Feature],
        }
    }
    pub fn tree(&mut self, r: &mut Rng, et: ElementType, depth: usize, budget: &mut usize, inspan: bool) -> G {
        let mut g = self.node(r, et);
        self.fill(r, &mut g, depth, budget, inspan);
        g
    }
    pub fn fill(&mut self, r: &mut Rng, g: &mut G, depth: usize, budget: &mut usize, inspan: bool) {
        let et = g.et;
        let s = self.sp.get(et).clone();
        let inspan = inspan || s.groups.iter().any(|x| x == "Span" || x == "SpanRole");
        let textual = s.textcontainer || s.phoncontainer;
        let n = if depth == 0 || *budget == 0 { 0 } else { match et { ElementType::Text | ElementType::Speech => r.range(2, 5), ElementType::Sentence => r.range(2, 7), ElementType::Word => r.range(1, 3), _ => r.below(4) } };
        if textual && (r.chance(7, 8) || g.et == ElementType::TextContent) { g.kids.push(GK::T(self.txt(r))); }
        for _ in 0..n {
            if *budget == 0 { break; }
            let acc: Vec<ElementType> = self.sp.accepted(et).into_iter().filter(|c| self.usable(*c, et, inspan)).collect();
            if acc.is_empty() { break; }
            let pref: Vec<ElementType> = self.prefer(et).iter().filter(|c| acc.contains(c)).cloned().collect();
            let c = if !pref.is_empty() && r.chance(3, 4) { *r.pick(&pref) } else { *r.pick(&acc) };
            *budget -= 1;
            let c = self.tree(r, c, depth - 1, budget, inspan);
            g.kids.push(GK::N(c));
            if textual && r.chance(1, 2) { g.kids.push(GK::T(if r.chance(1, 4) { " ".into() } else { self.txt(r) })); }
            if r.chance(1, 12) && !self.exact { let c = format!(" {} ", self.s(r).replace("--", "")); g.kids.push(GK::C(c)); }
        }
        if matches!(et, ElementType::Description | ElementType::Comment | ElementType::Content) && r.chance(3, 4) { g.kids.push(GK::T(self.txt(r))); }
    }
    pub fn txt(&self, r: &mut Rng) -> String { if self.awkward { textish(r) } else { ["hello", "world", "x", "y z"][r.below(4)].into() } }
    pub fn body(&mut self, r: &mut Rng, size: usize) -> G {
        let mut g = G::new(ElementType::Text);
        if r.chance(1, 2) { g.attrs.push(Attribute::Id("body".into())); }
        let mut b = size;
        self.fill(r, &mut g, 8, &mut b, false);
        g
    }
}

/// Adds the tree below `parent` in one of several ways: nested as a whole, or one by one.
/// Adding one by one does not complete layers; `whole` forces nesting from layers (and mixed content) down.
pub fn add(doc: &mut Document, sp: &Specs, r: &mut Rng, parent: ElementKey, g: &G, annotate: bool, onebyone: bool) -> Result<ElementKey, String> {
    let mixed = g.kids.iter().any(|k| !matches!(k, GK::N(_)));
    let nest = !onebyone || mixed || sp.in_group(g.et, "Layer") || sp.in_group(g.et, "Span") || r.chance(1, 3);
    let data = if nest { g.to_data() } else { g.bare() };
    let span = sp.in_group(g.et, "Span");
    let res = if annotate && !span { doc.annotate(parent, data) } else { doc.add_element_to(parent, data) };
    let key = res.map_err(|e| format!("adding {} below {}: {}", g.show(), parent, e))?;
    if !nest { for k in &g.kids { if let GK::N(c) = k { add(doc, sp, r, key, c, annotate, onebyone)?; } } }
    Ok(key)
}
pub fn new_doc() -> Document { Document::new("doc", DocumentProperties::default()).expect("new document") }

/// A document as users build them: body added child by child.
pub fn random_doc(r: &mut Rng, gen: &mut Gen, size: usize, onebyone: bool) -> Result<(Document, G), String> {
    let mut doc = new_doc();
    let sp = gen.sp;
    if gen.procs.is_empty() && r.chance(2, 3) {
        for i in 0..r.range(1, 3) { let id = format!("p{}", i); doc.add_processor(Processor::new(format!("proc{}", i)).with_id(id.clone()).with_type(*r.pick(&[ProcessorType::Auto, ProcessorType::Manual]))).map_err(|e| e.to_string())?; gen.procs.push(id); }
        if r.chance(1, 2) { doc.activate_processor(r.below(gen.procs.len()) as ProcKey); }
    }
    let mut body = gen.body(r, size);
    body.kids.retain(|k| matches!(k, GK::N(_)));
    body.attrs.clear();
    let annotate = r.chance(1, 2);
    for k in &body.kids { match k { GK::N(g) => { add(&mut doc, sp, r, 0, g, annotate, onebyone)?; } _ => {} } }
    Ok((doc, body))
}

pub fn words_of(raw: &Raw) -> Vec<usize> { (0..raw.n.len()).filter(|k| raw.n[*k].et == ElementType::Word).collect() }
pub fn idset(raw: &Raw) -> HashSet<String> { raw.n.iter().flat_map(|n| n.attribs.iter()).filter_map(|a| if let Attribute::Id(s) = a { Some(s.clone()) } else { None }).collect() }
