use crate::model::*;
use crate::spec;
use crate::util::*;
use crate::xml::*;
use folia::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::str::FromStr;

// ------------------------------------------------------------------ C01
#[derive(Debug, Clone, PartialEq)]
struct It<K> { id: Option<String>, val: u64, key: Option<K> }
impl<K: Copy> Storable<K> for It<K> {
    fn maybe_id(&self) -> Option<Cow<str>> { self.id.as_ref().map(|s| Cow::Borrowed(s.as_str())) }
    fn key(&self) -> Option<K> { self.key }
    fn assign_key(&mut self, k: K) { self.key = Some(k) }
}
struct St<K> { items: Vec<Option<Box<It<K>>>>, index: HashMap<String, K> }
impl<K> Store<It<K>, K> for St<K> where K: TryFrom<usize> + Copy + std::fmt::Debug, usize: TryFrom<K>, <usize as TryFrom<K>>::Error: std::fmt::Debug {
    fn items_mut(&mut self) -> &mut Vec<Option<Box<It<K>>>> { &mut self.items }
    fn index_mut(&mut self) -> &mut HashMap<String, K> { &mut self.index }
    fn items(&self) -> &Vec<Option<Box<It<K>>>> { &self.items }
    fn iter(&self) -> std::slice::Iter<Option<Box<It<K>>>> { self.items.iter() }
    fn index(&self) -> &HashMap<String, K> { &self.index }
}
fn store_case<K>(c: &mut Case, ops: usize, ids: usize, cap: usize) -> Res
where K: TryFrom<usize> + Copy + std::fmt::Debug + PartialEq, usize: TryFrom<K>, <usize as TryFrom<K>>::Error: std::fmt::Debug {
    let mut s: St<K> = St { items: vec![], index: HashMap::new() };
    let mut m: Vec<(Option<String>, u64)> = vec![];
    for op in 0..ops {
        let id = if c.rng.chance(2, 3) { Some(if c.rng.chance(1, 10) { word(&mut c.rng) } else { ident(&mut c.rng, ids) }) } else { None };
        let val = c.rng.next();
        c.log(format!("add {:?}", id));
        let r = s.add(It { id: id.clone(), val, key: None }, None);
        let known = id.as_ref().and_then(|i| m.iter().position(|(x, _)| x.as_ref() == Some(i)));
        match (known, r) {
            (Some(i), Ok(k)) => { let k = usize::try_from(k).unwrap(); eq!(k, i, "key of the item with the ID {:?} that is there already", id); }
            (Some(_), Err(e)) => return Err(format!("adding an ID that is there already fails: {}", e)),
            (None, Ok(k)) => { let k = usize::try_from(k).unwrap(); ensure!(m.len() < cap, "key {} for an item beyond capacity", k); eq!(k, m.len(), "new key"); m.push((id, val)); }
            (None, Err(e)) => ensure!(m.len() >= cap, "adding item {} fails: {}", m.len(), e),
        }
        eq!(s.len(), m.len(), "number of items");
        if op + 1 == ops || op % 16 == 0 {
            for (i, (id, val)) in m.iter().enumerate() {
                let k = K::try_from(i).ok().unwrap();
                let it = s.get(k).ok_or(format!("key {} resolves to nothing", i))?;
                ensure!(it.id == *id && it.val == *val, "key {} resolves to {:?} instead of {:?}", i, it, (id, val));
                ensure!(it.key == Some(k), "item {} has key {:?}", i, it.key);
                ensure!(s.get_mut(k).map(|x| x.val) == Some(*val), "get_mut {}", i);
                if let Some(id) = id {
                    ensure!(s.id_to_key(id) == Some(k), "ID {:?} resolves to {:?} rather than {}", id, s.id_to_key(id), i);
                    ensure!(s.get_by_id(id).map(|x| x.val) == Some(*val), "get_by_id {:?}", id);
                    ensure!(s.get_mut_by_id(id).map(|x| x.val) == Some(*val), "get_mut_by_id {:?}", id);
                }
            }
            for i in 0..ids { let id = format!("id.{}", i); if !m.iter().any(|(x, _)| x.as_ref() == Some(&id)) { ensure!(s.id_to_key(&id).is_none(), "ID {:?} that nothing has is found", id); } }
            if let Ok(k) = K::try_from(m.len()) { ensure!(s.get(k).is_none(), "key {} resolves though nothing has it", m.len()); }
        }
    }
    Ok(())
}

fn ids_ok(doc: &Document, seen: &HashMap<usize, (Option<String>, ElementType)>) -> Res {
    for (k, (id, et)) in seen {
        let e = edata(doc, *k as u32).ok_or(format!("key {} resolves to nothing", k))?;
        ensure!(e.elementtype == *et && e.id().map(String::from) == *id, "key {} resolves to {:?} {:?} instead of {:?} {:?}", k, e.elementtype, e.id(), et, id);
        ensure!(Storable::<ElementKey>::key(e) == Some(*k as u32), "element {} believes its key is {:?}", k, Storable::<ElementKey>::key(e));
        if let Some(id) = id {
            eq!(doc.get_element_key_by_id(id), Some(*k as u32), "key of ID {:?}", id);
            ensure!(doc.get_element_by_id(id).map(|e| e.elementtype()) == Some(*et), "get_element_by_id {:?}", id);
        }
    }
    Ok(())
}

pub fn c01(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("store with 256 keys", 60, 2000, |c| { let ops = if c.index % 3 == 0 { 420 } else { c.rng.range(1, 60) }; let ids = c.rng.range(1, 40); store_case::<u8>(c, ops, ids, 256) });
    cx.family("store with 65536 keys", 40, 2000, |c| { let ops = c.rng.range(1, 150); let ids = c.rng.range(1, 80); store_case::<u16>(c, ops, ids, 65536) });
    cx.family("elements", 120, 4000, |c| {
        let mut doc = new_doc();
        let mut seen: HashMap<usize, (Option<String>, ElementType)> = HashMap::new();
        seen.insert(0, (None, ElementType::Text));
        let ids = c.rng.range(2, 30);
        for _ in 0..c.rng.range(3, 40) {
            // paragraphs with sentences with words, IDs from a small pool
            let gid = |r: &mut Rng| if r.chance(3, 4) { Some(ident(r, ids)) } else { None };
            let mk = |et, id: Option<String>| { let g = G::new(et); if let Some(i) = id { g.id(&i) } else { g } };
            let mut g = mk(ElementType::Paragraph, gid(&mut c.rng));
            for _ in 0..c.rng.below(3) { let mut s = mk(ElementType::Sentence, gid(&mut c.rng)); for _ in 0..c.rng.below(3) { s = s.k(mk(ElementType::Word, gid(&mut c.rng))); } g = g.k(s); }
            let mut new = vec![];
            g.walk(&mut |n| new.push((n.gid(), n.et)));
            let mut all: Vec<String> = seen.values().filter_map(|(i, _)| i.clone()).collect();
            all.extend(new.iter().filter_map(|(i, _)| i.clone()));
            let dup = { let n = all.len(); let mut a = all.clone(); a.sort(); a.dedup(); a.len() < n };
            let before = Raw::of(&doc);
            c.log(format!("add {}", g.show()));
            let how = c.rng.below(3);
            let r = match how { 0 => doc.add_element_to(0, g.to_data()), 1 => doc.annotate(0, g.to_data()), _ => doc.add_element(g.to_data()) };
            if dup {
                ensure!(r.is_err(), "an element with an ID that is in use is accepted: {}", g.show());
                eq!(Raw::of(&doc), before, "document after a duplicate ID was refused");
            } else {
                let top = r.map_err(|e| format!("{} refused: {}", g.show(), e))? as usize;
                ensure!(top >= before.n.len(), "key {} is not new", top);
                let after = Raw::of(&doc);
                eq!(after.n.len(), before.n.len() + new.len(), "number of elements");
                for k in before.n.len()..after.n.len() {
                    let e = edata(&doc, k as u32).unwrap();
                    let id = e.id().map(String::from);
                    if let Some(p) = new.iter().position(|(i, et)| *i == id && *et == e.elementtype) { new.remove(p); } else { return Err(format!("element {} {:?} {:?} was not given", k, e.elementtype, id)); }
                    seen.insert(k, (id, e.elementtype));
                }
                eq!(edata(&doc, top as u32).and_then(|e| e.id().map(String::from)), g.gid(), "ID of the element whose key was returned");
            }
            ids_ok(&doc, &seen)?;
            for i in 0..ids { let id = format!("id.{}", i); if !seen.values().any(|(x, _)| x.as_ref() == Some(&id)) { ensure!(doc.get_element_key_by_id(&id).is_none() && doc.get_element_by_id(&id).is_none(), "ID {:?} that nothing has is found", id); } }
        }
        // IDs keep being resolved in what is added further
        let mut gen = Gen::new(&sp);
        gen.next = 1000;
        let g = gen.body(&mut c.rng, 30);
        for k in &g.kids { if let GK::N(g) = k { add(&mut doc, &sp, &mut c.rng, 0, g, true, true)?; } }
        ids_ok(&doc, &seen)
    });
    cx.family("declarations and processors", 120, 4000, |c| {
        let mut doc = new_doc();
        let mut m: Vec<(AnnotationType, Option<String>)> = doc.declarations().map(|d| { let d = d.as_ref().unwrap(); (d.annotationtype, d.set.clone()) }).collect();
        let mut p: Vec<(String, String)> = vec![];
        for _ in 0..c.rng.range(3, 60) {
            if c.rng.chance(1, 2) {
                let at = *c.rng.pick(&[AnnotationType::POS, AnnotationType::LEMMA, AnnotationType::SENSE, AnnotationType::TEXT]);
                let set = match c.rng.below(4) { 0 => None, 1 => Some(word(&mut c.rng)), _ => Some(ident(&mut c.rng, 4)) };
                c.log(format!("declare {:?} {:?}", at, set));
                let known = m.iter().position(|x| *x == (at, set.clone()));
                let k = doc.add_declaration(Declaration::new(at, set.clone(), Some("alias".into()), None)).map_err(|e| e.to_string())? as usize;
                match known { Some(i) => eq!(k, i, "key of the declaration that is there already"), None => { eq!(k, m.len(), "new declaration key"); m.push((at, set)); } }
            } else {
                let id = ident(&mut c.rng, 12);
                let name = word(&mut c.rng);
                c.log(format!("processor {:?} {:?}", id, name));
                let known = p.iter().position(|x| x.0 == id);
                let pr = Processor::new(name.clone()).with_id(id.clone());
                let k = match c.rng.below(2) { 0 => doc.add_processor(pr), _ => doc.add_provenance(pr) }.map_err(|e| e.to_string())? as usize;
                match known { Some(i) => eq!(k, i, "key of the processor that is there already"), None => { eq!(k, p.len(), "new processor key"); p.push((id, name)); } }
            }
            for (i, (at, set)) in m.iter().enumerate() {
                let d = doc.get_declaration(i as DecKey).ok_or(format!("declaration {} is gone", i))?;
                ensure!(d.annotationtype == *at && d.set == *set && d.key == Some(i as DecKey), "declaration {} is {:?} {:?} key {:?}, expected {:?} {:?}", i, d.annotationtype, d.set, d.key, at, set);
                eq!(doc.get_declaration_key_by_id(&Declaration::index_id(*at, &set.as_deref())), Some(i as DecKey), "declaration key by ID");
            }
            eq!(doc.declarations().count(), m.len(), "number of declarations");
            for (i, (id, name)) in p.iter().enumerate() {
                let d = doc.get_processor(i as ProcKey).ok_or(format!("processor {} is gone", i))?;
                ensure!(d.id == *id && d.name == *name && d.key == Some(i as ProcKey), "processor {} is {:?} {:?} key {:?}, expected {:?} {:?}", i, d.id, d.name, d.key, id, name);
                eq!(doc.get_processor_key_by_id(id), Some(i as ProcKey), "processor key by ID");
            }
            ensure!(doc.get_processor_key_by_id("none").is_none() && doc.get_declaration_key_by_id("pos/none").is_none(), "IDs that nothing has are found");
        }
        Ok(())
    });
    cx.family("identifiers that are read", 60, 2000, |c| {
        let mut gen = Gen::new(&sp);
        let mut body = gen.body(&mut c.rng, 30);
        let mut ids: Vec<String> = vec![];
        body.walk(&mut |g| if let Some(i) = g.gid() { ids.push(i) });
        fn write(sp: &crate::spec::Specs, body: &G, r: &mut Rng) -> Result<String, String> {
            let mut decls = Decls::default();
            decls.encode(sp, body, None)?;
            let mut o = crate::xml::header(&decls, "", "");
            crate::xml::write_g(body, sp, &crate::xml::W { indent: true, cdata: false, shortcuts: false }, r, false, 0, &mut o);
            o.push_str("\n</FoLiA>\n");
            Ok(o)
        }
        c.log(body.show());
        let o = write(&sp, &body, &mut c.rng)?;
        let doc = Document::from_str(&o, DocumentProperties::default()).map_err(|e| format!("{}\n{}", e, o))?;
        for i in &ids { let k = doc.get_element_key_by_id(i).ok_or(format!("{} is not found", i))?; eq!(edata(&doc, k).unwrap().id(), Some(i.as_str()), "ID of the element found for {}", i); }
        eq!(idset(&Raw::of(&doc)).len(), ids.len(), "identifiers in the document");
        if ids.len() < 2 { return Ok(()); }
        // one that is there twice
        let (a, b) = (c.rng.below(ids.len()), c.rng.below(ids.len()));
        if a == b { return Ok(()); }
        fn ren(g: &mut G, from: &str, to: &str) { for a in &mut g.attrs { if let Attribute::Id(s) = a { if s == from { *s = to.into() } } } for k in &mut g.kids { if let GK::N(x) = k { ren(x, from, to) } } }
        ren(&mut body, &ids[a], &ids[b]);
        fn refs(g: &mut G, from: &str, to: &str) { for a in &mut g.attrs { if let Attribute::Idref(s) = a { if s == from { *s = to.into() } } } for k in &mut g.kids { if let GK::N(x) = k { refs(x, from, to) } } }
        refs(&mut body, &ids[a], &ids[b]);
        c.log(format!("{} is called {}", ids[a], ids[b]));
        let o = write(&sp, &body, &mut c.rng)?;
        ensure!(Document::from_str(&o, DocumentProperties::default()).is_err(), "a document with the identifier {} twice is read:\n{}", ids[b], o);
        Ok(())
    });
    cx.family("65536 declarations and processors", 2, 2, |c| {
        let mut doc = new_doc();
        let decl = c.index == 0;
        c.log(format!("fill up {}", if decl { "declarations" } else { "processors" }));
        let base = if decl { 1 } else { 0 };
        for i in base..65536usize + 3 {
            let r = if decl { doc.add_declaration(Declaration::new(AnnotationType::POS, Some(format!("s{}", i)), None, None)) } else { doc.add_processor(Processor::new(String::new()).with_id(format!("s{}", i))) };
            match r { Ok(k) => eq!(k as usize, i, "key"), Err(_) => { ensure!(i >= 65536, "refused at {}", i); } }
        }
        for i in base..65536usize {
            let id = format!("s{}", i);
            if decl { eq!(doc.get_declaration(i as u16).and_then(|d| d.set.clone()), Some(id), "declaration {}", i); } else { eq!(doc.get_processor_key_by_id(&id), Some(i as u16), "processor {}", i); eq!(doc.get_processor(i as u16).map(|p| p.id.clone()), Some(id), "processor {}", i); }
        }
        ensure!(doc.get_processor_key_by_id("s65537").is_none(), "ID of what was refused is found");
        Ok(())
    });
}

// ------------------------------------------------------------------ C02
struct SSt<K> { items: Vec<Option<String>>, index: HashMap<String, K> }
impl<K> StringStore<K> for SSt<K> where K: TryFrom<usize> + Copy + std::fmt::Debug, usize: TryFrom<K>, <usize as TryFrom<K>>::Error: std::fmt::Debug {
    fn items_mut(&mut self) -> &mut Vec<Option<String>> { &mut self.items }
    fn index_mut(&mut self) -> &mut HashMap<String, K> { &mut self.index }
    fn items(&self) -> &Vec<Option<String>> { &self.items }
    fn iter(&self) -> std::slice::Iter<Option<String>> { self.items.iter() }
    fn index(&self) -> &HashMap<String, K> { &self.index }
}
pub fn c02(cx: &mut Ctx) {
    cx.family("string store with 256 keys", 60, 3000, |c| {
        let mut s: SSt<u8> = SSt { items: vec![], index: HashMap::new() };
        let mut m: Vec<String> = vec![];
        let big = c.index % 3 == 0;
        for _ in 0..if big { 400 } else { c.rng.range(1, 60) } {
            let w = if big { format!("w{}", c.rng.below(600)) } else { word(&mut c.rng) };
            c.log(format!("add {:?}", w));
            let probe = word(&mut c.rng);
            eq!(s.get_key(&probe).map(|k| k as usize), m.iter().position(|x| *x == probe), "key of {:?}", probe);
            let known = m.iter().position(|x| *x == w);
            match (known, s.add(if c.rng.chance(1, 2) { Cow::Borrowed(w.as_str()) } else { Cow::Owned(w.clone()) })) {
                (Some(i), r) => eq!(r.ok().map(|k| k as usize), Some(i), "key of {:?}, added before", w),
                (None, Ok(k)) => { ensure!(m.len() < 256, "key {} beyond capacity", k); eq!(k as usize, m.len(), "new key"); m.push(w); }
                (None, Err(e)) => ensure!(m.len() >= 256, "adding fails: {}", e),
            }
            eq!(s.len(), m.len(), "number of strings");
        }
        for (i, w) in m.iter().enumerate() { eq!(s.get(i as u8), Some(w.as_str()), "string of key {}", i); eq!(s.get_key(w), Some(i as u8), "key of {:?}", w); eq!(s.get_mut(i as u8).map(|s| s.clone()), Some(w.clone()), "get_mut"); }
        if m.len() < 256 { eq!(s.get(m.len() as u8), None, "string of a key nothing has"); }
        Ok(())
    });
    cx.family("vocabularies of a declaration", 200, 10000, |c| {
        let mut d = Declaration::new(AnnotationType::POS, Some("set".into()), None, None);
        let mut m: [Vec<String>; 3] = [vec![], vec![], vec![]];
        for _ in 0..c.rng.range(1, 60) {
            let w = word(&mut c.rng);
            let v = c.rng.below(3);
            let look = c.rng.chance(1, 3);
            c.log(format!("{} {} {:?}", if look { "look up" } else { "add" }, ["class", "subset", "feature class"][v], w));
            let known = m[v].iter().position(|x| *x == w);
            if look {
                let k = match v { 0 => d.class_key(&w).map(|k| k as usize), 1 => d.subset_key(&w).map(|k| k as usize), _ => d.subclass_key(&w).map(|k| k as usize) };
                eq!(k, known, "key of {:?}", w);
            } else {
                let k = match v { 0 => d.add_class(Cow::Borrowed(&w)).map(|k| k as usize), 1 => d.add_subset(Cow::Borrowed(&w)).map(|k| k as usize), _ => d.add_subclass(Cow::Borrowed(&w)).map(|k| k as usize) }.map_err(|e| e.to_string())?;
                match known { Some(i) => eq!(k, i, "key of {:?}, added before", w), None => { m[v].push(w); eq!(k, m[v].len() - 1, "new key"); } }
            }
            for v in 0..3 {
                for (i, w) in m[v].iter().enumerate() {
                    let (s, k) = match v { 0 => (d.get_class(i as ClassKey), d.class_key(w).map(|k| k as usize)), 1 => (d.get_subset(i as SubsetKey), d.subset_key(w).map(|k| k as usize)), _ => (d.get_subclass(i as ClassKey), d.subclass_key(w).map(|k| k as usize)) };
                    eq!(s, Some(w.as_str()), "vocabulary {} key {}", v, i);
                    eq!(k, Some(i), "vocabulary {} key of {:?}", v, w);
                }
                let n = m[v].len();
                eq!(match v { 0 => d.get_class(n as ClassKey), 1 => d.get_subset(n as SubsetKey), _ => d.get_subclass(n as ClassKey) }, None, "vocabulary {}: key nothing has", v);
            }
        }
        Ok(())
    });
    cx.family("classes through the document", 60, 3000, |c| {
        let mut doc = new_doc();
        let k = doc.declare(AnnotationType::POS, &Some("s".into()), &None, &None).map_err(|e| e.to_string())?;
        let mut m: Vec<String> = vec![];
        for _ in 0..c.rng.range(1, 30) {
            let w = word(&mut c.rng);
            c.log(format!("{:?}", w));
            let known = m.iter().position(|x| *x == w);
            eq!(doc.class_key(k, &w).ok().map(|k| k as usize), known, "class_key {:?}", w);
            let r = doc.add_class(k, &w).map_err(|e| e.to_string())? as usize;
            if known.is_none() { m.push(w); }
            eq!(r, known.unwrap_or(m.len() - 1), "add_class");
            ensure!(doc.add_class(k + 1, &"x".to_string()).is_err() && doc.class_key(k + 1, "x").is_err(), "class in a declaration that does not exist");
        }
        for (i, w) in m.iter().enumerate() { eq!(doc.get_declaration(k).unwrap().get_class(i as ClassKey), Some(w.as_str()), "class {}", i); }
        Ok(())
    });
    cx.family("65536 subsets", 1, 1, |c| {
        let mut d = Declaration::new(AnnotationType::POS, None, None, None);
        c.log("fill up subsets".into());
        for i in 0..65540usize { match d.add_subset(Cow::Owned(format!("s{}", i))) { Ok(k) => { ensure!(i < 65536, "key {} beyond capacity", k); eq!(k as usize, i, "key") } Err(_) => ensure!(i >= 65536, "refused at {}", i) } }
        for i in 0..65536usize { let w = format!("s{}", i); eq!(d.get_subset(i as u16), Some(w.as_str()), "subset {}", i); eq!(d.subset_key(&w), Some(i as u16), "subset {}", i); }
        eq!(d.subset_key("s65536"), None, "subset that was refused");
        Ok(())
    });
}

// ------------------------------------------------------------------ C03
fn mangle(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let i = r.below(c.len());
    match r.below(7) {
        0 => c[..i].iter().collect(), 1 => s.to_uppercase(), 2 => format!("{}{}", s, ["s", "_", "-", "x", " ", "0", "y"][r.below(7)]),
        3 => { let mut d = c.clone(); d.remove(i); d.iter().collect() } 4 => { let mut d = c.clone(); d[i] = (b'a' + r.below(26) as u8) as char; d.iter().collect() }
        5 => { let mut d = c.clone(); d.insert(i, (b'a' + r.below(26) as u8) as char); d.iter().collect() } _ => format!("{}{}", ["t-", "f", "x", " ", "folia:"][r.below(5)], s),
    }
}
pub fn parse_attr(name: &str, value: &str) -> Result<Attribute, String> {
    let reader = quick_xml::Reader::from_str("");
    let mut b = quick_xml::events::BytesStart::owned(b"x".to_vec(), 1);
    b.push_attribute((name, value));
    let a = b.attributes().next().ok_or("no attribute")?.map_err(|e| e.to_string())?;
    Attribute::parse(&reader, &a).map_err(|e| e.to_string())
}
pub fn c03(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("element types", 1, 1, |c| {
        c.log(format!("all {} element types", spec::TAGS.len()));
        let all = spec::all_types();
        eq!(all.len(), spec::TAGS.len(), "number of element types");
        for et in &all {
            let s = sp.get(*et);
            eq!(et.as_str(), s.tag.as_str(), "name of {}", spec::variant(*et));
            eq!(et.to_string(), s.tag, "Display of {}", spec::variant(*et));
            eq!(<ElementType as Into<&str>>::into(*et), s.tag.as_str(), "Into<&str> of {}", spec::variant(*et));
            ensure!(ElementType::from_str(&s.tag).ok() == Some(*et), "reading {:?} back gives {:?} rather than {}", s.tag, ElementType::from_str(&s.tag), spec::variant(*et));
            eq!(et.annotationtype(), s.at, "annotation type of {}", spec::variant(*et));
            let p = Properties::new(*et);
            eq!(p.xmltag, s.xmltag.as_str(), "tag of {} in the specification table", spec::variant(*et));
            if !p.xmltag.is_empty() { eq!(p.xmltag, et.as_str(), "tag of {} against the specification table", spec::variant(*et)); }
            let st = Specification::default();
            ensure!(st.get(*et).xmltag == s.xmltag, "Specification::get({}) has tag {}", spec::variant(*et), st.get(*et).xmltag);
            if let Some(at) = p.annotationtype { eq!(et.annotationtype(), Some(at), "annotation type of {} against the specification table", spec::variant(*et)); }
            for (n, g) in spec::GROUPS { eq!(g.contains(*et), s.groups.iter().any(|x| x == n), "{} in group {}", spec::variant(*et), n); eq!(et.is_in_group(*g), g.contains(*et), "is_in_group"); eq!(g.elementtypes().contains(et), g.contains(*et), "elementtypes of group {}", n); }
        }
        for a in &all { for b in &all { ensure!(a == b || a.as_str() != b.as_str(), "{} and {} have the same name", spec::variant(*a), spec::variant(*b)); } }
        Ok(())
    });
    cx.family("annotation types", 1, 1, |c| {
        c.log(format!("all {} annotation types", spec::ANNOTATIONTYPES.len()));
        for (at, n) in spec::ANNOTATIONTYPES {
            eq!(at.as_str(), *n, "name of {:?}", at);
            eq!(at.to_string(), n.to_string(), "Display of {:?}", at);
            eq!(<AnnotationType as Into<&str>>::into(*at), *n, "Into<&str> of {:?}", at);
            eq!(AnnotationType::from_str(n), Some(*at), "reading {:?} back", n);
            eq!(at.elementtype(), sp.main[at], "element type of {:?}", at);
            eq!(at.as_element_str(), sp.get(sp.main[at]).tag, "tag of the main element of {:?}", at);
            eq!(at.layertype(), sp.layer.get(at).cloned(), "layer type of {:?}", at);
            eq!(at.elementtype().annotationtype(), Some(*at), "annotation type of the element type of {:?}", at);
            eq!(<AnnotationType as Into<ElementType>>::into(*at), sp.main[at], "Into<ElementType> of {:?}", at);
        }
        Ok(())
    });
    cx.family("names of nothing", 600, 40000, |c| {
        let base = match c.rng.below(4) { 0 => c.rng.pick(spec::TAGS).1.to_string(), 1 => c.rng.pick(spec::ANNOTATIONTYPES).1.to_string(), 2 => c.rng.pick(ATTRNAMES).1.to_string(), _ => nonempty(&mut c.rng) };
        let n = if base.is_empty() { "".into() } else { mangle(&mut c.rng, &base) };
        c.log(format!("{:?}", n));
        let e = spec::TAGS.iter().find(|(_, t, _)| *t == n).map(|(t, _, _)| *t);
        ensure!(ElementType::from_str(&n).ok() == e, "{:?} is read as element type {:?}, expected {:?}", n, ElementType::from_str(&n).ok(), e);
        let a = spec::ANNOTATIONTYPES.iter().find(|(_, t)| *t == n).map(|(t, _)| *t);
        eq!(AnnotationType::from_str(&n), a, "{:?} as annotation type", n);
        if !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || "-_:".contains(c)) {
            let k = ATTRNAMES.iter().find(|(_, t)| *t == n).map(|(t, _)| *t);
            let got = ["x", "yes", "0.5", "12", "auto", "2020-01-01T00:00:00"].iter().find_map(|v| parse_attr(&n, v).ok()).filter(|a| *a != Attribute::Ignore);
            ensure!(got.as_ref().map(|a| a.attribtype()) == k, "attribute name {:?} is read as {:?}, expected {:?}", n, got, k);
        }
        Ok(())
    });
    cx.family("attribute kinds", 1, 1, |c| {
        c.log("all attribute kinds".into());
        for (a, n) in ATTRNAMES { let s: &str = (*a).into(); eq!(s, *n, "name of {:?}", a); eq!(a.to_string(), n.to_string(), "Display of {:?}", a); }
        for (a, n) in ATTRNAMES { for (b, m) in ATTRNAMES { ensure!(a == b || n != m, "{:?} and {:?} have the same name", a, b); } }
        for (t, n) in &[(ProcessorType::Auto, "auto"), (ProcessorType::Manual, "manual"), (ProcessorType::Generator, "generator"), (ProcessorType::DataSource, "datasource")] {
            eq!(t.as_str(), *n, "name of {:?}", t); eq!(t.to_string(), n.to_string(), "Display of {:?}", t);
            eq!(parse_attr("annotatortype", n).ok(), Some(Attribute::AnnotatorType(*t)), "reading {:?} back", n);
        }
        for v in &["Auto", "", "manua", "manuall", "data source"] { ensure!(parse_attr("annotatortype", v).is_err(), "processor type {:?} is accepted", v); }
        Ok(())
    });
    cx.family("attributes written and read", 150, 10000, |c| {
        for a in attr_samples(&mut c.rng) {
            let (n, v) = attr_xml(&a).unwrap();
            c.log(format!("{}={:?}", n, v));
            let kind: &str = a.attribtype().into();
            eq!(kind, n, "name of {:?}", a);
            let s = format!("{}", a);
            eq!(s, v, "value of {:?}", a);
            eq!(parse_attr(kind, &s), Ok(a.clone()), "{:?} written and read", a);
            ensure!(a.sametype(&a), "sametype");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C04
pub fn kind(a: &Attribute) -> String {
    match a { Attribute::DeclarationRef(_) => "Set".into(), Attribute::ClassRef(_) => "Class".into(), Attribute::ProcessorRef(_) => "Processor".into(), Attribute::SubsetRef(_) => "Subset".into(),
        a => format!("{:?}", a).split('(').next().unwrap().to_string() }
}
fn any_attr(r: &mut Rng) -> Attribute {
    match r.below(8) { 0 => Attribute::DeclarationRef(r.below(3) as u16), 1 => Attribute::ClassRef(r.below(3) as u32), 2 => Attribute::ProcessorRef(r.below(3) as u16), 3 => Attribute::SubsetRef(r.below(3) as u16), _ => { let v = attr_samples(r); r.pick(&v).clone() } }
}
pub fn c04(cx: &mut Ctx) {
    cx.family("setting, deleting and looking up", 400, 30000, |c| {
        let mut e = ElementData::new(ElementType::Word);
        let mut m: Vec<Attribute> = vec![];
        if c.rng.chance(1, 2) {
            for _ in 0..c.rng.below(6) { let a = any_attr(&mut c.rng); if !m.iter().any(|b| kind(b) == kind(&a)) { m.push(a) } }
            e.set_attribs(m.clone());
        }
        for _ in 0..c.rng.range(1, 40) {
            let a = any_attr(&mut c.rng);
            let pos = m.iter().position(|b| kind(b) == kind(&a));
            let t = a.attribtype();
            match c.rng.below(4) {
                0 | 1 => {
                    c.log(format!("set {:?}", a));
                    if c.rng.chance(1, 2) { e.set_attrib(a.clone()) } else { e = e.with_attrib(a.clone()) }
                    if let Some(i) = pos { m.remove(i); }
                    m.push(a.clone());
                    eq!(e.attrib(t), Some(&a), "looking up what was just set");
                    let others: Vec<&Attribute> = e.attribs().iter().filter(|b| kind(b) != kind(&a)).collect();
                    let expected: Vec<&Attribute> = m.iter().filter(|b| kind(b) != kind(&a)).collect();
                    eq!(others, expected, "the other attributes");
                    eq!(e.attribs().iter().filter(|b| kind(b) == kind(&a)).count(), 1, "number of attributes of this kind");
                    m = e.attribs().clone(); // where the new one goes is not prescribed
                }
                2 => { c.log(format!("delete {:?}", t)); let r = e.del_attrib(t); let x = pos.map(|i| m.remove(i)); eq!(r, x, "what was deleted"); }
                _ => { c.log(format!("look up {:?}", t)); eq!(e.attrib(t), pos.map(|i| &m[i]), "looking up {:?}", t); eq!(e.has_attrib(t), pos.is_some(), "has_attrib {:?}", t); }
            }
            eq!(e.attribs(), &m, "attributes");
            eq!(Storable::<ElementKey>::encodable(&e), m.iter().any(encodable), "encodable");
            eq!(e.id(), m.iter().find_map(|a| if let Attribute::Id(s) = a { Some(s.as_str()) } else { None }), "id()");
            eq!(e.confidence(), m.iter().find_map(|a| if let Attribute::Confidence(s) = a { Some(*s) } else { None }), "confidence()");
            eq!(e.idref(), m.iter().find_map(|a| if let Attribute::Idref(s) = a { Some(s.as_str()) } else { None }), "idref()");
        }
        Ok(())
    });
    cx.family("to be encoded or encoded", 60, 1000, |c| {
        for a in attr_samples(&mut c.rng).into_iter().chain(vec![Attribute::Ignore, Attribute::DeclarationRef(c.rng.next() as u16), Attribute::ClassRef(c.rng.next() as u32), Attribute::ProcessorRef(c.rng.next() as u16), Attribute::SubsetRef(c.rng.next() as u16)]) {
            c.log(format!("{:?}", a));
            eq!(a.encodable(), encodable(&a), "{:?} encodable", a);
            eq!(a.decodable(), encoded(&a), "{:?} decodable", a);
        }
        let all = { let mut v = attr_samples(&mut c.rng); v.extend(vec![Attribute::DeclarationRef(1), Attribute::ClassRef(1), Attribute::ProcessorRef(1), Attribute::SubsetRef(1)]); v };
        for a in &all { for b in &all { eq!(a.sametype(b), kind(a) == kind(b), "{:?} and {:?} of the same kind", a, b); eq!(a.attribtype() == b.attribtype(), kind(a) == kind(b), "attribtype of {:?} and {:?}", a, b); } }
        Ok(())
    });
}
