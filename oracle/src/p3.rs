use crate::model::*;
use crate::spec::{self, Specs};
use crate::util::*;
use crate::xml;
use folia::*;
use std::collections::HashMap;

fn decls_of(doc: &Document) -> Decls { Decls { v: observe_decls(doc), active: doc.active_processor.and_then(|p| doc.get_processor(p)).map(|p| p.id.clone()), known: (0..).map_while(|k| doc.get_processor(k as ProcKey)).map(|p| p.id.clone()).collect() } }
fn key_id(at: AnnotationType, set: Option<&str>) -> String { Declaration::index_id(at, &set) }
/// What users see of the declarations.
fn check_decls(doc: &Document, m: &Decls) -> Res {
    eq!(observe_decls(doc), m.v, "declarations");
    for (i, d) in m.v.iter().enumerate() {
        eq!(doc.get_declaration_key_by_id(&key_id(d.at, d.set.as_deref())), Some(i as DecKey), "key of the declaration of {:?} with set {:?}", d.at, d.set);
        eq!(m.v.iter().filter(|e| e.at == d.at && e.set == d.set).count(), 1, "declarations of {:?} with set {:?}", d.at, d.set);
        let p = doc.get_declaration(i as DecKey).ok_or("no declaration")?;
        eq!(p.default_processor().and_then(|k| doc.get_processor(k)).map(|p| p.id.clone()), if d.procs.len() == 1 { Some(d.procs[0].clone()) } else { None }, "default processor of {:?} with set {:?}, whose processors are {:?}", d.at, d.set, d.procs);
    }
    for (at, _) in spec::ANNOTATIONTYPES {
        eq!(doc.declarationstore.get_default_key(*at).map(|k| k as usize), m.default_of(*at), "default declaration of {:?} among {:?}", at, m.v);
        eq!(doc.get_default_set(*at), m.default_of(*at).and_then(|i| m.v[i].set.as_deref()), "default set of {:?}", at);
    }
    eq!(doc.declarationstore.default_mask(), m.v.iter().enumerate().map(|(i, d)| m.default_of(d.at) == Some(i)).collect::<Vec<_>>(), "which declarations are defaults, of {:?}", m.v);
    Ok(())
}
const SETS: &[&str] = &["s1", "s2", "", "None", "http://x/?a=1&b=2", "text", "token-annotation"];

// ------------------------------------------------------------------ C09
pub fn c09(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("declaring", 1500, 30000, |c| {
        let mut doc = new_doc();
        let mut m = decls_of(&doc);
        let few = c.rng.chance(2, 3);
        let npool = c.rng.range(1, 5);
        let pool: Vec<AnnotationType> = (0..npool).map(|_| c.rng.pick(spec::ANNOTATIONTYPES).0).collect();
        for i in 0..c.rng.range(1, 30) {
            let at = if few { *c.rng.pick(&pool) } else { c.rng.pick(spec::ANNOTATIONTYPES).0 };
            let set: Option<String> = if c.rng.chance(1, 3) { None } else { Some(c.rng.pick(SETS).to_string()) };
            match c.rng.below(10) {
                0 => { let id = format!("p{}", i); c.log(format!("processor {}", id)); doc.add_processor(Processor::new("x".into()).with_id(id.clone())).map_err(|e| e.to_string())?; m.known.push(id); }
                1 => if !m.known.is_empty() { let k = c.rng.below(m.known.len()); c.log(format!("activate {}", m.known[k])); doc.activate_processor(k as ProcKey); m.active = Some(m.known[k].clone()); },
                2 => {
                    // directly
                    c.log(format!("add declaration of {:?} with set {:?}", at, set));
                    let k = doc.add_declaration(Declaration::new(at, set.clone(), None, None)).map_err(|e| e.to_string())?;
                    let want = m.v.iter().position(|d| d.at == at && d.set == set).unwrap_or(m.v.len());
                    eq!(k as usize, want, "key of the declaration of {:?} with set {:?}", at, set);
                    if want == m.v.len() { m.v.push(MDecl { at, set, alias: None, format: None, procs: vec![] }); }
                }
                3 => {
                    // by annotating
                    let ets: Vec<ElementType> = sp.v.iter().filter(|s| s.at == Some(at) && !s.groups.iter().any(|g| g == "Feature")).map(|s| s.et).collect();
                    if ets.is_empty() { continue; }
                    let mut g = G::new(*c.rng.pick(&ets)).a(Attribute::Class(c.rng.pick(&["a", "b", "c"]).to_string()));
                    if let Some(s) = &set { g = g.a(Attribute::Set(s.clone())); }
                    c.log(format!("add {}", g.show()));
                    if g.et == ElementType::WordReference { continue; }
                    let k = doc.add_element(g.to_data()).map_err(|e| e.to_string())?;
                    let (n, _) = m.encode(&sp, &g, None)?;
                    if let Some(d) = diff(&dump(&doc, k), &n, "") { return Err(d); }
                }
                _ => {
                    let (alias, format) = (if c.rng.chance(1, 3) { Some(c.rng.pick(&["al1", "al2", ""]).to_string()) } else { None }, if c.rng.chance(1, 3) { Some("text/x".to_string()) } else { None });
                    c.log(format!("declare {:?} with set {:?} alias {:?} format {:?}", at, set, alias, format));
                    let k = doc.declare(at, &set, &alias, &format).map_err(|e| e.to_string())?;
                    let n = m.v.len();
                    let want = m.declare(at, set.as_deref());
                    if m.v.len() > n { m.v[want].alias = alias; m.v[want].format = format; }
                    eq!(k as usize, want, "key of the declaration of {:?} with set {:?} among {:?}", at, set, m.v);
                }
            }
            check_decls(&doc, &m)?;
        }
        check_decls(&doc, &m)
    });
    cx.family("declared from the start", 150, 3000, |c| {
        // properties of a new document: its declarations and its processor
        let n = c.rng.below(6);
        let pool: Vec<AnnotationType> = (0..3).map(|_| c.rng.pick(spec::ANNOTATIONTYPES).0).collect();
        let mut props = DocumentProperties::default();
        let active = c.rng.chance(1, 2);
        if active { props = props.with_processor(Processor::new("x".into()).with_id("p0".into())); }
        let mut m = decls_of(&Document::new("doc", DocumentProperties::default()).map_err(|e| e.to_string())?);
        if active { m.known.push("p0".into()); m.active = Some("p0".into()); let v = std::mem::take(&mut m.v); for d in v { m.declare(d.at, d.set.as_deref()); } }
        for _ in 0..n {
            let at = *c.rng.pick(&pool);
            let set = if c.rng.chance(1, 3) { None } else { Some(c.rng.pick(SETS).to_string()) };
            c.log(format!("declare {:?} with set {:?}, processor: {}", at, set, active));
            props = props.with_declaration(at, set.clone());
            m.declare(at, set.as_deref());
        }
        let doc = Document::new("doc", props).map_err(|e| e.to_string())?;
        eq!(doc.active_processor, if active { Some(0) } else { None }, "active processor");
        check_decls(&doc, &m)
    });
    cx.family("recovered when read", 400, 8000, |c| {
        // a set that is left out because it is the default comes back as the same declaration
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        let one = c.rng.chance(1, 2);
        let (doc, body) = random_doc(&mut c.rng, &mut gen, 30, one)?;
        c.log(body.show());
        let out = String::from_utf8(doc.xml(0, 4).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let again = Document::from_str(&out, DocumentProperties::default()).map_err(|e| format!("{}\n{}", e, out))?;
        eq!(observe_decls(&again), observe_decls(&doc), "declarations after reading {}", out);
        let (a, b) = (Raw::of(&doc), Raw::of(&again));
        eq!(b.n.len(), a.n.len(), "number of elements after reading");
        fn order(raw: &Raw, k: usize, o: &mut Vec<usize>) { o.push(k); for c in raw.kids(k) { order(raw, c, o) } }
        let (mut x, mut y) = (vec![], vec![]);
        order(&a, 0, &mut x); order(&b, 0, &mut y);
        for (i, j) in x.iter().zip(y.iter()) {
            let (p, q) = (doc.get_element(*i as u32).unwrap(), again.get_element(*j as u32).unwrap());
            eq!(q.declaration_key(), p.declaration_key(), "declaration of element {} ({:?}), read from {}", i, a.n[*i].et, out);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C10
pub fn c10(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("annotations read back", 700, 20000, |c| {
        let mut gen = Gen::new(&sp);
        let mut doc = new_doc();
        let mut m = decls_of(&doc);
        for i in 0..c.rng.below(4) {
            let id = format!("p{}", i);
            doc.add_processor(Processor::new("x".into()).with_id(id.clone())).map_err(|e| e.to_string())?;
            gen.procs.push(id.clone()); m.known.push(id);
        }
        if c.rng.chance(1, 4) { gen.procs.push("unknown".into()); }
        // everything added so far: key and what it must read back as (without children)
        let mut seen: Vec<(u32, N)> = vec![];
        for _ in 0..c.rng.range(2, 25) {
            if c.rng.chance(1, 8) && !m.known.is_empty() { let k = c.rng.below(m.known.len()); c.log(format!("activate {}", m.known[k])); doc.activate_processor(k as ProcKey); m.active = Some(m.known[k].clone()); }
            if c.rng.chance(1, 8) {
                let at = c.rng.pick(spec::ANNOTATIONTYPES).0;
                let set = if c.rng.chance(1, 2) { Some(c.rng.pick(SETS).to_string()) } else { None };
                c.log(format!("declare {:?} with set {:?}", at, set));
                doc.declare(at, &set, &None, &None).map_err(|e| e.to_string())?;
                m.declare(at, set.as_deref());
            }
            let raw = Raw::of(&doc);
            let parent = c.rng.below(raw.n.len());
            let pet = raw.n[parent].et;
            let acc: Vec<ElementType> = sp.accepted(pet).into_iter().filter(|e| gen.usable(*e, pet, false)).collect();
            if acc.is_empty() { continue; }
            let et = *c.rng.pick(&acc);
            let mut b = c.rng.below(10);
            let g = gen.tree(&mut c.rng, et, 4, &mut b, false);
            c.log(format!("add {} below {} ({:?})", g.show(), parent, pet));
            let pdec = doc.get_element(parent as u32).unwrap().declaration_key().map(|k| k as usize);
            let key = if sp.in_group(et, "Span") || c.rng.chance(1, 2) { doc.add_element_to(parent as u32, g.to_data()) } else { doc.annotate(parent as u32, g.to_data()) }.map_err(|e| e.to_string())?;
            // what it was given
            let (want, _) = m.encode(&sp, &g, Some((pet, pdec)))?;
            let got = dump(&doc, key);
            if let Some(d) = diff(&got, &want, "") { return Err(format!("{}\nactive {:?}, declarations {:?}", d, m.active, m.v)); }
            for (k, n) in &seen {
                let e = dump(&doc, *k);
                let e = N { kids: vec![], ..e };
                if let Some(d) = diff(&e, n, "") { return Err(format!("element {}, which was added earlier: {}", k, d)); }
            }
            fn note(doc: &Document, k: u32, n: &N, o: &mut Vec<(u32, N)>) {
                o.push((k, N { kids: vec![], ..n.clone() }));
                let d = edata(doc, k).unwrap();
                let ks: Vec<u32> = (0..d.len()).filter_map(|i| if let DataType::Element(c) = d.get_data_at(i).unwrap() { Some(*c) } else { None }).collect();
                for (c, x) in ks.iter().zip(n.kids.iter().filter_map(|x| if let K::N(x) = x { Some(x) } else { None })) { note(doc, *c, x, o) }
            }
            note(&doc, key, &want, &mut seen);
        }
        // and once more through lists of attributes
        for (k, n) in &seen {
            let e = doc.get_element(*k).unwrap();
            for (at, want) in [(AttribType::SET, &n.set), (AttribType::CLASS, &n.class), (AttribType::SUBSET, &n.subset), (AttribType::PROCESSOR, &n.processor)] {
                if let Some(w) = want {
                    let a = e.attribs().iter().filter_map(|a| if a.attribtype() == at { match a { Attribute::Set(s) | Attribute::Class(s) | Attribute::Subset(s) | Attribute::Processor(s) => Some(s.clone()), _ => None } } else { None }).collect::<Vec<_>>();
                    if !a.is_empty() { eq!(a, vec![w.clone()], "{:?} among the attributes of {}", at, k); }
                }
            }
        }
        Ok(())
    });
    cx.family("without annotation type", 200, 2000, |c| {
        // such elements have no declaration, but may have a processor
        let v: Vec<&spec::Spec> = sp.v.iter().filter(|s| s.at.is_none() && s.et != ElementType::WordReference && s.et != ElementType::Feature && !s.groups.iter().any(|g| g == "Feature")).collect();
        let s = v[c.index as usize % v.len()];
        let mut doc = new_doc();
        for p in &["p0", "p1"] { doc.add_processor(Processor::new("x".into()).with_id(p.to_string())).map_err(|e| e.to_string())?; }
        if c.rng.chance(1, 2) { doc.activate_processor(c.rng.below(2) as ProcKey); }
        let m = decls_of(&doc);
        let p = *c.rng.pick(&["p0", "p1"]);
        let mut g = G::new(s.et).a(Attribute::Processor(p.into()));
        if c.rng.chance(1, 2) { g = g.a(Attribute::N("7".into())); }
        c.log(g.show());
        let k = doc.add_element_to(0, g.to_data()).map_err(|e| e.to_string())?;
        let e = doc.get_element(k).unwrap();
        eq!(e.processor(), Some(p), "processor of {}", g.show());
        eq!(edata(&doc, k).unwrap().attribs().iter().filter(|a| !a.decodable()).count(), g.attrs.len() - 1, "other attributes of {}", g.show());
        check_decls(&doc, &m)
    });
    cx.family("single attributes", 600, 12000, |c| {
        // every subset of the four, on every element type that has a declaration, with and without competing declarations
        let s: Vec<&spec::Spec> = sp.v.iter().filter(|s| s.at.is_some()).collect();
        let s = s[c.index as usize % s.len()];
        let at = s.at.unwrap();
        let mut doc = new_doc();
        for p in &["p0", "p1"] { doc.add_processor(Processor::new("x".into()).with_id(p.to_string())).map_err(|e| e.to_string())?; }
        if c.rng.chance(1, 2) { doc.activate_processor(c.rng.below(2) as ProcKey); }
        for set in [None, Some("s1".to_string()), Some("s2".to_string())].iter() { if c.rng.chance(1, 2) { doc.declare(at, set, &None, &None).map_err(|e| e.to_string())?; } }
        let mut m = decls_of(&doc);
        let mut g = G::new(s.et);
        if c.rng.chance(1, 2) { g = g.a(Attribute::N("7".into())); }
        if c.rng.chance(1, 2) { g = g.a(Attribute::Set(c.rng.pick(&["s1", "s2", "s3", ""]).to_string())); }
        if c.rng.chance(1, 2) { g = g.a(Attribute::Class(word(&mut c.rng))); }
        if c.rng.chance(1, 2) { g = g.a(Attribute::Processor(c.rng.pick(&["p0", "p1", "nobody"]).to_string())); }
        if c.rng.chance(1, 2) { g = g.a(Attribute::Tag("x".into())); }
        if s.et == ElementType::WordReference { return Ok(()); }
        c.log(format!("{} with {:?}, active {:?}", g.show(), m.v, m.active));
        let k = doc.add_element(g.to_data()).map_err(|e| e.to_string())?;
        let (n, _) = m.encode(&sp, &g, None)?;
        if let Some(d) = diff(&dump(&doc, k), &n, "") { return Err(d); }
        check_decls(&doc, &m)
    });
}

// ------------------------------------------------------------------ C11
pub fn c11(cx: &mut Ctx) {
    let sp = spec::load();
    let n = sp.v.len();
    cx.family("what is accepted where", n as u64, n as u64, |c| {
        let parent = sp.v[c.index as usize].et;
        let pname = spec::variant(parent);
        c.log(format!("parent {}", pname));
        for child in sp.v.iter().map(|s| s.et) {
            let mut doc = new_doc();
            let s = doc.annotate(0, G::new(ElementType::Sentence).k(G::new(ElementType::Word).id("w")).to_data()).map_err(|e| e.to_string())?;
            let l = doc.add_element_to(s, G::new(ElementType::EntitiesLayer).k(G::new(ElementType::Entity)).to_data()).map_err(|e| e.to_string())?;
            let mut pd = G::new(parent);
            if parent == ElementType::WordReference { pd = pd.a(Attribute::Idref("w".into())); }
            let p = doc.add_element_to(l + 1, pd.to_data()).map_err(|e| e.to_string())?;
            let mut g = G::new(child);
            if child == ElementType::WordReference { g = g.a(Attribute::Idref("w".into())); }
            let span = sp.in_group(child, "Span") && (sp.get(parent).wrefable || sp.in_group(parent, "Structure"));
            if span { g = g.a(Attribute::Set("s".into())); if sp.get(parent).wrefable { g = g.k(G::new(ElementType::WordReference).a(Attribute::Idref("w".into()))); } }
            let before = Raw::of(&doc);
            let r = doc.annotate(p, g.to_data());
            let after = Raw::of(&doc);
            let name = spec::variant(child);
            if !span {
                eq!(r.is_ok(), sp.accepts(parent, child), "annotating {} with {} ({:?})", pname, name, r.as_ref().err().map(|e| e.to_string()));
                if r.is_err() { eq!(after, before, "document after {} was rejected below {}", name, pname); continue; }
                let k = r.unwrap() as usize;
                eq!(after.n.len(), before.n.len() + g.size(), "elements after annotating {} with {}", pname, name);
                eq!(after.n[k].parent, Some(p as usize), "parent of the new {}", name);
                eq!(after.n[k].et, child, "type of the new {}", name);
            } else {
                let lt = sp.layer.get(&sp.get(child).at.ok_or("span without annotation type")?).cloned();
                let below = if sp.get(parent).wrefable { ElementType::Sentence } else { parent };
                let ok = lt.map(|lt| sp.accepts(below, lt) && sp.accepts(lt, child)).unwrap_or(false);
                eq!(r.is_ok(), ok, "annotating {} with {} ({:?})", pname, name, r.as_ref().err().map(|e| e.to_string()));
                if let Ok(k) = r {
                    let q = after.n[k as usize].parent.ok_or("no parent")?;
                    eq!(Some(after.n[q].et), lt, "layer of {}", name);
                    eq!(after.n[q].parent, Some(if sp.get(parent).wrefable { s } else { p } as usize), "where the layer for {} is", name);
                    eq!(doc.get_element(q as u32).unwrap().set(), Some("s"), "set of the layer for {}", name);
                } else { ensure!(after.n.iter().skip(before.n.len()).all(|x| x.et != child), "{} was rejected below {} but is in the document", name, pname); }
            }
            after.consistent()?;
        }
        Ok(())
    });
    cx.family("rejected with everything below it", 150, 3000, |c| {
        let mut gen = Gen::new(&sp);
        let (mut doc, _) = random_doc(&mut c.rng, &mut gen, 20, false)?;
        let raw = Raw::of(&doc);
        for _ in 0..10 {
            let p = c.rng.below(raw.n.len());
            let et = c.rng.pick(&sp.v).et;
            if sp.accepts(raw.n[p].et, et) || sp.in_group(et, "Span") || !gen.usable(et, raw.n[p].et, false) { continue; }
            let mut b = 6;
            let words = gen.words.clone();
            let g = gen.tree(&mut c.rng, et, 3, &mut b, false);
            gen.words = words;
            c.log(format!("annotate {:?} with {}", raw.n[p].et, g.show()));
            let decls = observe_decls(&doc);
            ensure!(doc.annotate(p as u32, g.to_data()).is_err(), "accepted although the specification says no");
            eq!(Raw::of(&doc), raw, "document after a rejected annotation");
            eq!(observe_decls(&doc), decls, "declarations after a rejected annotation");
        }
        let k = raw.n.len() as u32 + c.rng.below(3) as u32;
        ensure!(doc.annotate(k, ElementData::new(ElementType::Description)).is_err(), "annotating an element that does not exist succeeds");
        eq!(Raw::of(&doc), raw, "document after annotating nothing");
        Ok(())
    });
    cx.family("span annotations and their layers", 500, 15000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        gen.plain = false;
        gen.only = Some(vec![ElementType::Paragraph, ElementType::Sentence, ElementType::Word, ElementType::Division, ElementType::Quote, ElementType::Head, ElementType::Morpheme, ElementType::MorphologyLayer, ElementType::PosAnnotation, ElementType::List, ElementType::ListItem]);
        let onebyone = c.rng.chance(1, 2);
        let (mut doc, body) = random_doc(&mut c.rng, &mut gen, 35, onebyone)?;
        c.log(body.show());
        let spans: Vec<(ElementType, AnnotationType, ElementType)> = sp.v.iter().filter(|s| s.groups.iter().any(|g| g == "Span") && sp.accepts(s.et, ElementType::WordReference)).filter_map(|s| s.at.and_then(|a| sp.layer.get(&a).map(|l| (s.et, a, *l)))).filter(|(e, _, l)| sp.accepts(*l, *e)).collect();
        let spans: Vec<_> = (0..2).map(|_| *c.rng.pick(&spans)).collect();
        for _ in 0..c.rng.range(1, 14) {
            if c.rng.chance(1, 12) {
                // through XML: the layers must be found again
                let out = String::from_utf8(doc.xml(0, 2).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                doc = Document::from_str(&out, DocumentProperties::default()).map_err(|e| format!("{}\n{}", e, out))?;
                c.log("(serialise, read)".into());
            }
            let raw = Raw::of(&doc);
            let refs: Vec<(usize, String)> = (0..raw.n.len()).filter(|k| sp.get(raw.n[*k].et).wrefable).filter_map(|k| raw.n[k].attribs.iter().find_map(|a| if let Attribute::Id(s) = a { Some((k, s.clone())) } else { None })).collect();
            let (et, at, lt) = *c.rng.pick(&spans);
            let nw = if refs.is_empty() { 0 } else if c.rng.chance(1, 10) { 0 } else { c.rng.range(1, 3) };
            let from = c.rng.below(refs.len().max(1));
            let targets: Vec<(usize, String)> = (0..nw).map(|i| if c.rng.chance(2, 3) { refs[(from + i) % refs.len()].clone() } else { c.rng.pick(&refs).clone() }).collect();
            let set = if c.rng.chance(1, 4) { None } else { Some(c.rng.pick(&["s1", "s2"]).to_string()) };
            let mut g = G::new(et);
            if let Some(s) = &set { g = g.a(Attribute::Set(s.clone())); }
            g = g.a(Attribute::Class("c".into()));
            for t in &targets { g = g.k(G::new(ElementType::WordReference).a(Attribute::Idref(t.1.clone()))); }
            // where it should go
            let decls = decls_of(&doc);
            let set = set.or_else(|| decls.default_of(at).and_then(|i| decls.v[i].set.clone()));
            let structures: Vec<usize> = (0..raw.n.len()).filter(|k| sp.in_group(raw.n[*k].et, "Structure") && !sp.get(raw.n[*k].et).wrefable).collect();
            let how = c.rng.below(3);
            let (r, place) = match how {
                0 | 1 => {
                    let p = if targets.is_empty() { refs.first().map(|r| r.0) } else { Some(c.rng.pick(&targets).0) };
                    let place = if targets.is_empty() { None } else { raw.ancestors(targets[0].0).into_iter().find(|a| sp.in_group(raw.n[*a].et, "Structure") && sp.accepts(raw.n[*a].et, lt) && targets.iter().all(|t| raw.ancestors(t.0).contains(a))) };
                    if how == 0 || p.is_none() { c.log(format!("annotate_span {}", g.show())); (doc.annotate_span(g.to_data()), place) }
                    else { c.log(format!("annotate word {} with {}", p.unwrap(), g.show())); (doc.annotate(p.unwrap() as u32, g.to_data()), place) }
                }
                _ => {
                    let p = *c.rng.pick(&structures);
                    c.log(format!("annotate {:?} {} with {}", raw.n[p].et, p, g.show()));
                    (doc.annotate(p as u32, g.to_data()), if sp.accepts(raw.n[p].et, lt) { Some(p) } else { None })
                }
            };
            let after = Raw::of(&doc);
            let (place, k) = match (place, &set, r) {
                (Some(p), Some(_), Ok(k)) => (p, k as usize),
                (Some(_), Some(_), Err(e)) => return Err(format!("rejected: {}", e)),
                (_, _, Ok(_)) => return Err(format!("accepted although there is no place for it ({:?}), or no set ({:?})", place, set)),
                (_, _, Err(_)) => { ensure!(after.n.iter().skip(raw.n.len()).all(|n| n.et != et), "rejected but in the document"); continue; }
            };
            let set = set.unwrap();
            let layers_at = |raw: &Raw, doc: &Document, p: usize| -> Vec<usize> { raw.kids(p).into_iter().filter(|k| raw.n[*k].et == lt && doc.get_element(*k as u32).unwrap().set() == Some(&set)).collect() };
            let l = after.n[k].parent.ok_or("span annotation without parent")?;
            eq!(after.n[l].et, lt, "type of the layer");
            eq!(after.n[l].parent, Some(place), "where the layer is (layer {}, set {})", l, set);
            eq!(layers_at(&after, &doc, place), vec![l], "layers of type {:?} with set {} below {}", lt, set, place);
            let old: Vec<usize> = raw.kids(place).into_iter().filter(|k| raw.n[*k].et == lt).filter(|k| doc.get_element(*k as u32).unwrap().set() == Some(&set)).collect();
            eq!(after.n.len(), raw.n.len() + g.size() + old.is_empty() as usize, "number of elements");
            if let Some(o) = old.first() { eq!(l, *o, "layer that was there already"); }
            eq!(doc.get_element(k as u32).unwrap().set(), Some(set.as_str()), "set of the span annotation");
            eq!(after.kids(l).last(), Some(&k), "last in its layer");
            after.consistent()?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C12
/// Who refers to whom: (target, span annotation), once for each reference.
pub fn references(sp: &Specs, raw: &Raw) -> Result<Vec<(usize, usize)>, String> {
    let ids: HashMap<String, usize> = raw.n.iter().enumerate().filter_map(|(k, n)| n.attribs.iter().find_map(|a| if let Attribute::Id(s) = a { Some((s.clone(), k)) } else { None })).collect();
    let mut v = vec![];
    for (k, n) in raw.n.iter().enumerate() {
        if n.et != ElementType::WordReference { continue; }
        let id = n.attribs.iter().find_map(|a| if let Attribute::Idref(s) = a { Some(s.clone()) } else { None }).ok_or("reference without id")?;
        let t = *ids.get(&id).ok_or(format!("reference {} to unknown {}", k, id))?;
        let s = raw.ancestors(k).into_iter().find(|a| sp.in_group(raw.n[*a].et, "Span")).ok_or("reference outside a span annotation")?;
        v.push((t, s));
    }
    v.sort();
    Ok(v)
}
pub fn backrefs(raw: &Raw) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = raw.n.iter().enumerate().flat_map(|(k, n)| n.data.iter().filter_map(move |d| if let DataType::SpanReference(s) = d { Some((k, *s as usize)) } else { None })).collect();
    v.sort();
    v
}
pub fn c12(cx: &mut Ctx) {
    let sp = spec::load();
    let spanny = vec![ElementType::Paragraph, ElementType::Sentence, ElementType::Word, ElementType::Morpheme, ElementType::MorphologyLayer, ElementType::EntitiesLayer, ElementType::Entity, ElementType::SyntaxLayer, ElementType::SyntacticUnit,
        ElementType::DependenciesLayer, ElementType::Dependency, ElementType::DependencyDependent, ElementType::Headspan, ElementType::SemanticRolesLayer, ElementType::SemanticRole, ElementType::Predicate, ElementType::CoreferenceLayer, ElementType::CoreferenceChain, ElementType::CoreferenceLink,
        ElementType::WordReference, ElementType::TimingLayer, ElementType::TimeSegment, ElementType::Correction, ElementType::Current, ElementType::New, ElementType::Feature];
    cx.family("adding", 400, 12000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        if c.rng.chance(3, 4) { gen.only = Some(spanny.clone()); }
        let mut doc = new_doc();
        let mut total = 0;
        for _ in 0..c.rng.range(2, 12) {
            let raw = Raw::of(&doc);
            let p = c.rng.below(raw.n.len());
            let inspan = std::iter::once(p).chain(raw.ancestors(p)).any(|a| sp.in_group(raw.n[a].et, "Span"));
            let acc: Vec<ElementType> = sp.accepted(raw.n[p].et).into_iter().filter(|e| gen.usable(*e, raw.n[p].et, inspan)).collect();
            if acc.is_empty() { continue; }
            let et = *c.rng.pick(&acc);
            let mut b = 15;
            let g = gen.tree(&mut c.rng, et, 5, &mut b, inspan);
            c.log(format!("add {} below {}", g.show(), p));
            let span = sp.in_group(et, "Span");
            let r = if !span && c.rng.chance(1, 2) { doc.annotate(p as u32, g.to_data()) } else { doc.add_element_to(p as u32, g.to_data()) };
            r.map_err(|e| e.to_string())?;
            let raw = Raw::of(&doc);
            let want = references(&sp, &raw)?;
            total = want.len();
            eq!(backrefs(&raw), want, "back references (word, span annotation)");
        }
        // what a word answers
        let raw = Raw::of(&doc);
        for (k, n) in raw.n.iter().enumerate() {
            if !sp.get(n.et).wrefable { continue; }
            let spans: Vec<usize> = backrefs(&raw).into_iter().filter(|(t, _)| *t == k).map(|(_, s)| s).collect();
            let got: Vec<usize> = n.data.iter().filter_map(|d| if let DataType::SpanReference(s) = d { Some(*s as usize) } else { None }).collect();
            eq!(got.len(), spans.len(), "spans of {}", k);
        }
        c.nontrivial = total > 0;
        Ok(())
    });
    cx.family("adding before attaching", 150, 3000, |c| {
        // a layer with spans is made first, and attached to something later
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        gen.only = Some(spanny.clone());
        let one = c.rng.chance(1, 2);
        let (mut doc, _) = random_doc(&mut c.rng, &mut gen, 20, one)?;
        for _ in 0..c.rng.range(1, 4) {
            let raw = Raw::of(&doc);
            let places: Vec<usize> = (0..raw.n.len()).filter(|k| sp.accepts(raw.n[*k].et, ElementType::EntitiesLayer) && raw.n[*k].et != ElementType::Correction).collect();
            if places.is_empty() || gen.words.is_empty() { break; }
            let l = *c.rng.pick(&[ElementType::EntitiesLayer, ElementType::SyntaxLayer, ElementType::DependenciesLayer, ElementType::SemanticRolesLayer]);
            let mut b = 12;
            let g = gen.tree(&mut c.rng, l, 5, &mut b, true);
            let g = if c.rng.chance(1, 4) { G::new(ElementType::Sentence).k(G::new(ElementType::Word).id(&format!("x{}", raw.n.len()))).k(g) } else { g };
            c.log(format!("add {}", g.show()));
            let k = doc.add_element(g.to_data()).map_err(|e| e.to_string())?;
            let raw = Raw::of(&doc);
            eq!(backrefs(&raw), references(&sp, &raw)?, "back references (word, span annotation) after adding");
            let p = *c.rng.pick(&places);
            c.log(format!("attach it to {}", p));
            doc.attach_element(p as u32, k).map_err(|e| e.to_string())?;
            let raw = Raw::of(&doc);
            eq!(backrefs(&raw), references(&sp, &raw)?, "back references (word, span annotation) after attaching");
        }
        Ok(())
    });
    cx.family("reading", 400, 10000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        if c.rng.chance(3, 4) { gen.only = Some(spanny.clone()); }
        let body = gen.body(&mut c.rng, 40);
        let mut decls = Decls::default();
        let (_, _) = decls.encode(&sp, &body, None)?;
        let mut o = xml::header(&decls, "", "");
        let mut b = String::new();
        let indent = c.rng.chance(1, 2);
        let w = xml::W { indent, cdata: false, shortcuts: false };
        xml::write_g(&body, &sp, &w, &mut c.rng, false, 0, &mut b);
        o.push_str(&b);
        o.push_str("\n</FoLiA>\n");
        c.log(b);
        let doc = Document::from_str(&o, DocumentProperties::default()).map_err(|e| e.to_string())?;
        let raw = Raw::of(&doc);
        raw.consistent()?;
        let want = references(&sp, &raw)?;
        eq!(backrefs(&raw), want, "back references (word, span annotation) in {}", o);
        let mut n = 0;
        body.walk(&mut |g| if g.et == ElementType::WordReference { n += 1 });
        eq!(want.len(), n, "number of references read");
        c.nontrivial = n > 0;
        Ok(())
    });
    cx.family("references to nothing", 200, 2000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        gen.only = Some(spanny.clone());
        let mut body = gen.body(&mut c.rng, 25);
        // one reference, anywhere, to something that is not there
        let mut n = 0;
        fn count(g: &G, n: &mut usize) { if g.et == ElementType::WordReference { *n += 1 } for k in &g.kids { if let GK::N(x) = k { count(x, n) } } }
        count(&body, &mut n);
        if n == 0 { c.nontrivial = false; return Ok(()); }
        let mut left = c.rng.below(n);
        let id = ["nobody", "e", "doc", "E0"][c.rng.below(4)];
        fn spoil(g: &mut G, left: &mut usize, id: &str) -> bool {
            if g.et == ElementType::WordReference { if *left == 0 { for a in &mut g.attrs { if let Attribute::Idref(s) = a { *s = id.into() } } return true; } *left -= 1; }
            for k in &mut g.kids { if let GK::N(x) = k { if spoil(x, left, id) { return true } } }
            false
        }
        spoil(&mut body, &mut left, id);
        c.log(body.show());
        let mut decls = Decls::default();
        decls.encode(&sp, &body, None)?;
        let mut o = xml::header(&decls, "", "");
        xml::write_g(&body, &sp, &xml::W { indent: true, cdata: false, shortcuts: false }, &mut c.rng, false, 0, &mut o);
        o.push_str("\n</FoLiA>\n");
        ensure!(Document::from_str(&o, DocumentProperties::default()).is_err(), "reading a reference to {:?} succeeds:\n{}", id, o);
        let mut doc = new_doc();
        let mut failed = false;
        for k in &body.kids { if let GK::N(g) = k { if doc.add_element_to(0, g.to_data()).is_err() { failed = true; break; } } }
        ensure!(failed, "adding a reference to {:?} succeeds", id);
        Ok(())
    });
    cx.family("completing layers", 300, 6000, |c| {
        // layers without a set, with spans with and without sets, and other attributes
        let layers: Vec<(ElementType, ElementType)> = sp.v.iter().filter(|s| s.groups.iter().any(|g| g == "Span")).filter_map(|s| s.at.and_then(|a| sp.layer.get(&a).map(|l| (*l, s.et)))).filter(|(l, s)| sp.accepts(*l, *s)).collect();
        let (lt, st) = *c.rng.pick(&layers);
        let mut doc = new_doc();
        let mut m = decls_of(&doc);
        let at = sp.get(st).at.unwrap();
        for set in [None, Some("s1".to_string()), Some("s9".to_string())].iter() { if c.rng.chance(1, 3) { doc.declare(at, set, &None, &None).map_err(|e| e.to_string())?; m.declare(at, set.as_deref()); } }
        let mut g = G::new(lt);
        if c.rng.chance(1, 2) { g = g.id("layer"); }
        if c.rng.chance(1, 2) { g = g.a(Attribute::Tag("x".into())); }
        let own = c.rng.chance(1, 5);
        if own { g = g.a(Attribute::Set("s3".into())); }
        for _ in 0..c.rng.range(0, 3) {
            let mut s = G::new(st);
            if c.rng.chance(2, 3) { s = s.a(Attribute::Set(c.rng.pick(&["s1", "s2"]).to_string())); }
            if c.rng.chance(1, 2) { s = s.a(Attribute::Class("c".into())); }
            g = g.k(s);
        }
        let sent = G::new(ElementType::Sentence).k(G::new(ElementType::Word).id("w")).k(g.clone());
        c.log(format!("{} with {:?}", sent.show(), m.v));
        let k = doc.add_element_to(0, sent.to_data()).map_err(|e| e.to_string())?;
        let (n, _) = m.encode(&sp, &sent, None)?;
        if let Some(d) = diff(&dump(&doc, k), &n, "") { return Err(d); }
        // the same through XML
        let mut m2 = Decls::default();
        m2.v = m.v.clone();
        let mut o = xml::header(&m2, "", "");
        o.push_str("<text>");
        xml::write_g(&sent, &sp, &xml::W { indent: true, cdata: false, shortcuts: false }, &mut c.rng, false, 0, &mut o);
        o.push_str("</text></FoLiA>");
        let doc = Document::from_str(&o, DocumentProperties::default()).map_err(|e| e.to_string())?;
        let raw = Raw::of(&doc);
        let body = dump(&doc, raw.kids(0)[0] as u32);
        let (n, _) = m2.encode(&sp, &sent, None)?;
        if let Some(d) = diff(&body, &n, "") { return Err(format!("read from XML: {}", d)); }
        Ok(())
    });
}

// ------------------------------------------------------------------ C13
#[derive(Clone, Debug, Default)]
struct MP { id: String, parent: Option<usize>, subs: Vec<usize>, fields: String }
#[derive(Clone, Debug, Default)]
struct MProv { p: Vec<MP>, chain: Vec<usize> }
pub fn fields(p: &Processor) -> String { format!("{:?} {:?}", (&p.name, p.processortype, &p.version, &p.folia_version, &p.document_version, &p.command, &p.host), (&p.user, p.begindatetime, p.enddatetime, &p.src, &p.format, &p.resourcelink)) }
/// A processor with others below it, not yet added.
#[derive(Clone, Debug)]
struct PG { id: String, fields: usize, old: Vec<usize>, subs: Vec<PG> } // old: processors already there
impl PG {
    fn gen(r: &mut Rng, next: &mut usize, m: &MProv, depth: usize) -> PG {
        let id = if !m.p.is_empty() && r.chance(1, 8) { r.pick(&m.p).id.clone() } else { *next += 1; format!("p{}", next) };
        let n = if depth == 0 { 0 } else { r.below(4).saturating_sub(1) };
        let old = if m.p.is_empty() || !r.chance(1, 5) { vec![] } else { (0..r.range(1, 3)).map(|_| r.below(m.p.len() + (depth == 0) as usize)).collect() };
        PG { id, fields: r.below(1000), old, subs: (0..n).map(|_| PG::gen(r, next, m, depth - 1)).collect() }
    }
    fn make(&self) -> Processor {
        let mut p = Processor::new(format!("n{}", self.fields)).with_id(self.id.clone()).with_version(format!("v{}", self.fields));
        if self.fields % 3 == 0 { p = p.with_type(ProcessorType::Manual).with_user("u".into()).with_host("h".into()); }
        if self.fields % 5 == 0 { p = p.with_command("c".into()).with_src("s".into()).with_format("f".into()).with_resourcelink("l".into()).with_folia_version("2".into()).with_document_version("3".into()); }
        for k in &self.old { p = p.with_existing_subprocessor(*k as ProcKey); }
        for s in &self.subs { p = p.with_new_subprocessor(s.make()); }
        p
    }
    fn show(&self) -> String { if self.subs.is_empty() && self.old.is_empty() { self.id.clone() } else { format!("{}({:?} {})", self.id, self.old, self.subs.iter().map(|s| s.show()).collect::<Vec<_>>().join(" ")) } }
}
impl MProv {
    fn below(&self, mut k: usize, top: usize) -> bool { loop { if k == top { return true; } match self.p[k].parent { Some(p) => k = p, None => return false } } }
    fn find_or_add(&mut self, g: &PG) -> usize {
        if let Some(k) = self.p.iter().position(|p| p.id == g.id) { return k; }
        self.p.push(MP { id: g.id.clone(), parent: None, subs: vec![], fields: fields(&g.make()) });
        self.p.len() - 1
    }
    fn attach(&mut self, parent: usize, child: usize) -> bool {
        if parent >= self.p.len() || child >= self.p.len() || self.below(parent, child) { return false; }
        if let Some(o) = self.p[child].parent { if o != parent { self.p[o].subs.retain(|k| *k != child) } }
        self.p[child].parent = Some(parent);
        if !self.p[parent].subs.contains(&child) { self.p[parent].subs.push(child); }
        true
    }
    fn add(&mut self, g: &PG) -> Option<usize> {
        let k = self.find_or_add(g);
        if !self.chain.contains(&k) { self.chain.push(k); }
        for o in &g.old { if !self.attach(k, *o) { return None; } }
        for s in &g.subs { self.add_sub(k, s)?; }
        Some(k)
    }
    fn add_sub(&mut self, parent: usize, g: &PG) -> Option<usize> {
        let k = self.find_or_add(g);
        if !self.attach(parent, k) { return None; }
        for o in &g.old { if !self.attach(k, *o) { return None; } }
        for s in &g.subs { self.add_sub(k, s)?; }
        Some(k)
    }
}
fn check_prov(doc: &Document, m: &MProv) -> Res {
    eq!(doc.provenancestore.chain.iter().map(|k| *k as usize).collect::<Vec<_>>(), m.chain, "provenance chain");
    for (k, p) in m.p.iter().enumerate() {
        let d = doc.get_processor(k as ProcKey).ok_or(format!("processor {} is gone", p.id))?;
        eq!(d.id, p.id, "id of processor {}", k);
        eq!(doc.get_processor_key_by_id(&p.id), Some(k as ProcKey), "key of processor {}", p.id);
        eq!(d.parent.map(|k| k as usize), p.parent, "parent of processor {}", p.id);
        eq!(d.processors.iter().map(|k| *k as usize).collect::<Vec<_>>(), p.subs, "subprocessors of {}", p.id);
        eq!(fields(d), p.fields, "fields of processor {}", p.id);
        eq!(d.pending_processors.borrow().len(), 0, "subprocessors of {} that were not added", p.id);
    }
    ensure!(doc.get_processor(m.p.len() as ProcKey).is_none(), "more processors than were added");
    // once each
    for (k, p) in m.p.iter().enumerate() { eq!(m.p.iter().flat_map(|q| q.subs.iter()).filter(|c| **c == k).count(), p.parent.is_some() as usize, "occurrences of {} as subprocessor", p.id); }
    Ok(())
}
pub fn c13(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("adding and attaching processors", 2000, 40000, |c| {
        let mut doc = new_doc();
        let mut m = MProv::default();
        let mut next = 0;
        for _ in 0..c.rng.range(1, 25) {
            let n = m.p.len();
            match c.rng.below(4) {
                0 => {
                    let g = PG::gen(&mut c.rng, &mut next, &m, 3);
                    c.log(format!("add {}", g.show()));
                    let before = m.clone();
                    let want = m.add(&g);
                    let got = doc.add_processor(g.make());
                    eq!(got.is_ok(), want.is_some(), "adding {} succeeds", g.show());
                    if let (Ok(k), Some(w)) = (got, want) { eq!(k as usize, w, "key of {}", g.show()); }
                    let _ = before;
                }
                1 if n > 0 => {
                    let g = PG::gen(&mut c.rng, &mut next, &m, 3);
                    let p = c.rng.below(n);
                    c.log(format!("add {} below {}", g.show(), m.p[p].id));
                    let want = m.add_sub(p, &g);
                    let got = doc.add_subprocessor(p as ProcKey, g.make());
                    eq!(got.is_ok(), want.is_some(), "adding {} below {} succeeds", g.show(), m.p[p].id);
                    if let (Ok(k), Some(w)) = (got, want) { eq!(k as usize, w, "key of {}", g.show()); }
                }
                _ if n > 0 => {
                    let (a, b) = if c.rng.chance(1, 10) { (n + c.rng.below(2), c.rng.below(n)) } else if c.rng.chance(1, 10) { (c.rng.below(n), n + c.rng.below(2)) } else { (c.rng.below(n), c.rng.below(n)) };
                    c.log(format!("attach {} to {}", b, a));
                    let want = m.attach(a, b);
                    eq!(doc.attach_processor(a as ProcKey, b as ProcKey).is_ok(), want, "attaching {} to {} succeeds", b, a);
                }
                _ => {}
            }
            check_prov(&doc, &m)?;
        }
        Ok(())
    });
    cx.family("default processor", 500, 8000, |c| {
        let mut doc = new_doc();
        let mut m = decls_of(&doc);
        let at = c.rng.pick(&[AnnotationType::POS, AnnotationType::LEMMA, AnnotationType::ENTITY]).clone();
        for i in 0..c.rng.range(1, 15) {
            match c.rng.below(5) {
                0 => { let id = format!("p{}", i); doc.add_processor(Processor::new("x".into()).with_id(id.clone())).map_err(|e| e.to_string())?; m.known.push(id); }
                1 => if !m.known.is_empty() { let k = c.rng.below(m.known.len()); c.log(format!("activate {}", m.known[k])); doc.activate_processor(k as ProcKey); m.active = Some(m.known[k].clone()); },
                2 => { let set = if c.rng.chance(1, 2) { Some(c.rng.pick(SETS).to_string()) } else { None }; c.log(format!("declare {:?}", set)); doc.declare(at, &set, &None, &None).map_err(|e| e.to_string())?; m.declare(at, set.as_deref()); }
                _ => {
                    let et = *sp.main.get(&at).unwrap();
                    let mut g = G::new(et).a(Attribute::Class("c".into()));
                    if c.rng.chance(1, 2) { g = g.a(Attribute::Set(c.rng.pick(SETS).to_string())); }
                    if !m.known.is_empty() && c.rng.chance(1, 2) { g = g.a(Attribute::Processor(c.rng.pick(&m.known).clone())); }
                    c.log(format!("add {}", g.show()));
                    let k = doc.add_element(g.to_data()).map_err(|e| e.to_string())?;
                    let (n, _) = m.encode(&sp, &g, None)?;
                    if let Some(d) = diff(&dump(&doc, k), &n, "") { return Err(d); }
                }
            }
            check_decls(&doc, &m)?;
        }
        Ok(())
    });
    cx.family("read from XML", 300, 5000, |c| {
        // nested processors in a document keep their order and their parents
        let mut m = MProv::default();
        let mut next = 0;
        let mut o = String::new();
        fn put(g: &PG, o: &mut String) { o.push_str(&format!("<processor xml:id=\"{}\" name=\"n{}\" version=\"v{}\"", g.id, g.fields, g.fields)); if g.subs.is_empty() { o.push_str("/>") } else { o.push('>'); for s in &g.subs { put(s, o) } o.push_str("</processor>"); } }
        fn plain(g: &mut PG) { g.fields |= 1; while g.fields % 3 == 0 || g.fields % 5 == 0 { g.fields += 2 } for s in &mut g.subs { plain(s) } }
        for _ in 0..c.rng.range(1, 6) { let mut g = PG::gen(&mut c.rng, &mut next, &MProv::default(), 4); plain(&mut g); m.add(&g); put(&g, &mut o); o.push('\n'); }
        c.log(o.clone());
        let x = format!("{}<text></text></FoLiA>", xml::header(&Decls::default(), &o, ""));
        let doc = Document::from_str(&x, DocumentProperties::default()).map_err(|e| e.to_string())?;
        // keys are an internal matter: compare by ID
        let id = |k: usize| doc.get_processor(k as ProcKey).map(|p| p.id.clone());
        eq!(doc.provenancestore.chain.iter().map(|k| id(*k as usize)).collect::<Vec<_>>(), m.chain.iter().map(|k| Some(m.p[*k].id.clone())).collect::<Vec<_>>(), "chain");
        for p in &m.p {
            let d = doc.get_processor_by_id(&p.id).ok_or(format!("{} is gone", p.id))?;
            eq!(d.parent.and_then(|k| id(k as usize)), p.parent.map(|k| m.p[k].id.clone()), "parent of {}", p.id);
            eq!(d.processors.iter().map(|k| id(*k as usize)).collect::<Vec<_>>(), p.subs.iter().map(|k| Some(m.p[*k].id.clone())).collect::<Vec<_>>(), "subprocessors of {}", p.id);
            eq!(fields(d), p.fields, "fields of {}", p.id);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C14
fn attr_str(raw: &Raw, k: usize, doc: &Document) -> String { let _ = raw; doc.get_element(k as u32).unwrap().class().unwrap_or("current").to_string() }
fn delim(sp: &Specs, raw: &Raw, k: usize, retain: bool) -> String {
    let s = sp.get(raw.n[k].et);
    match &s.textdelimiter {
        None => match raw.kids(k).last() { Some(c) => delim(sp, raw, *c, retain), None => String::new() },
        Some(d) => if s.space && !retain && raw.n[k].attribs.iter().any(|a| *a == Attribute::Space(false)) { String::new() } else { d.clone() },
    }
}
struct TM<'a> { sp: &'a Specs, raw: &'a Raw, doc: &'a Document, ids: HashMap<String, usize>, class: String, retain: bool }
impl<'a> TM<'a> {
    fn container(&self, k: usize) -> String {
        let mut o = String::new();
        for d in &self.raw.n[k].data {
            match d {
                DataType::Text(t) => o.push_str(t),
                DataType::Element(c) => {
                    let s = self.sp.get(self.raw.n[*c as usize].et);
                    if !s.printable { continue; }
                    if !o.is_empty() { if let Some(d) = &s.textdelimiter { o.push_str(d) } }
                    if s.textcontainer { o.push_str(&self.container(*c as usize)) } else if let Some(t) = self.text(*c as usize) { o.push_str(&t) }
                }
                _ => {}
            }
        }
        o
    }
    /// None: no text in this class.
    fn text(&self, k: usize) -> Option<String> {
        let s = self.sp.get(self.raw.n[k].et);
        if s.textcontainer { return Some(self.container(k)); }
        if !s.printable || s.hidden { return None; }
        let mut o = String::new();
        let mut d = String::new();
        let mut own = None;
        for c in self.raw.kids(k) {
            let ce = self.raw.n[c].et;
            let part = if self.sp.in_group(ce, "Structure") || ce == ElementType::Correction || self.sp.in_group(ce, "Span") { Some(c) }
                else if ce == ElementType::WordReference { self.raw.n[c].attribs.iter().find_map(|a| if let Attribute::Idref(i) = a { self.ids.get(i).cloned() } else { None }) }
                else { if ce == ElementType::TextContent && attr_str(self.raw, c, self.doc) == self.class { own = Some(c) } None };
            if let Some(p) = part {
                if let Some(t) = self.text(p).filter(|t| !t.is_empty()) {
                    if !o.is_empty() { o.push_str(&d); }
                    o.push_str(&t);
                    d = delim(self.sp, self.raw, p, self.retain);
                }
            }
        }
        if o.is_empty() { if let Some(c) = own { o = self.container(c) } }
        if o.is_empty() { None } else { Some(o) }
    }
}
fn check_text(c: &mut Case, sp: &Specs, doc: &Document) -> Result<usize, String> {
    let raw = Raw::of(doc);
    let ids: HashMap<String, usize> = raw.n.iter().enumerate().filter_map(|(k, n)| n.attribs.iter().find_map(|a| if let Attribute::Id(s) = a { Some((s.clone(), k)) } else { None })).collect();
    let mut some = 0;
    for class in &["current", "original", "ocr", "nosuchclass"] {
        let retain = c.rng.chance(1, 3);
        let m = TM { sp, raw: &raw, doc, ids: ids.clone(), class: class.to_string(), retain };
        for k in 0..raw.n.len() {
            let s = sp.get(raw.n[k].et);
            let e = doc.get_element(k as u32).unwrap();
            if !s.textcontainer { eq!(e.get_textdelimiter(retain).map(|d| d.to_string()).ok(), Some(delim(sp, &raw, k, retain)), "delimiter after {:?} {}", raw.n[k].et, k); }
            let got = e.text(&TextParameters::new().textclass(class).retaintokenisation(retain));
            let got2 = doc.text(k as u32, &TextParameters::new().textclass(class).retaintokenisation(retain));
            eq!(got.as_ref().ok(), got2.as_ref().ok(), "text of element {} by its key", k);
            if s.textcontainer {
                // text content is of its own class, whatever is asked for; what a class no text has gives is left open
                if let Ok(t) = &got { eq!(*t, m.container(k), "text of {:?} {}", raw.n[k].et, k); }
                else if raw.n[k].et == ElementType::TextContent && attr_str(&raw, k, doc) == *class { return Err(format!("text of {:?} {}: {}", raw.n[k].et, k, got.unwrap_err())); }
                continue;
            }
            let want = m.text(k);
            if want.is_some() { some += 1; }
            match (&got, &want) {
                (Ok(a), Some(b)) => eq!(a, b, "text in class {} (retain tokenisation: {}) of {:?} {}", class, retain, raw.n[k].et, k),
                (Err(_), None) => {}
                (a, b) => return Err(format!("text in class {} (retain tokenisation: {}) of {:?} {}: got {:?}, expected {:?}", class, retain, raw.n[k].et, k, a.as_ref().map_err(|e| e.to_string()), b)),
            }
        }
    }
    Ok(some)
}
pub fn c14(cx: &mut Ctx) {
    let sp = spec::load();
    use ElementType::*;
    let textual = vec![Division, Head, Paragraph, Sentence, Word, TextContent, TextMarkupStyle, TextMarkupString, TextMarkupCorrection, Linebreak, Whitespace, Quote, List, ListItem, Table, Row, Cell, Hiddenword, PosAnnotation, EntitiesLayer, Entity, SyntaxLayer, SyntacticUnit, WordReference,
        Correction, New, Original, Current, Part, Reference, Caption, Figure, Note, Utterance, Event, Feature, Gap, PhonContent];
    cx.family("parameters", 1, 1, |c| {
        c.log("each parameter ends up where it belongs, and only there".into());
        let show = |p: TextParameters| (p.set, p.textclass, p.strict, p.retaintokenisation);
        let (s, t) = (Some(DEFAULT_TEXT_SET.to_string()), Some("current".to_string()));
        for p in vec![TextParameters::new(), TextParameters::default()] { eq!(show(p), (s.clone(), t.clone(), false, false), "default parameters"); }
        eq!(show(TextParameters::new().set("x")), (Some("x".into()), t.clone(), false, false), "parameters with a set");
        eq!(show(TextParameters::new().textclass("x")), (s.clone(), Some("x".into()), false, false), "parameters with a class");
        eq!(show(TextParameters::new().retaintokenisation(true)), (s.clone(), t.clone(), false, true), "parameters with tokenisation retained");
        Ok(())
    });
    cx.family("documents", 400, 10000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = c.rng.chance(1, 2);
        gen.plain = c.rng.chance(1, 2);
        if c.rng.chance(5, 6) { gen.only = Some(textual.clone()); }
        let one = c.rng.chance(1, 2);
        let (doc, body) = random_doc(&mut c.rng, &mut gen, 50, one)?;
        c.log(body.show());
        let n = check_text(c, &sp, &doc)?;
        c.nontrivial = n > 0;
        Ok(())
    });
    cx.family("sentences", 400, 10000, |c| {
        // words with and without space, in several classes, and spans over them
        let mut s = G::new(Sentence).id("s");
        let n = c.rng.range(1, 7);
        for i in 0..n {
            let mut w = G::new(if c.rng.chance(1, 8) { Hiddenword } else { Word }).id(&format!("w{}", i));
            if c.rng.chance(1, 3) { w = w.a(Attribute::Space(c.rng.chance(1, 3))); }
            let classes = ["current", "original", "ocr"];
            for k in classes.iter() { if c.rng.chance(if *k == "current" { 4 } else { 1 }, 5) { let mut t = G::new(TextContent); if *k != "current" || c.rng.chance(1, 3) { t = t.a(Attribute::Class(k.to_string())); } if c.rng.chance(1, 12) { } else { let x = format!("{}{}", &k[..1], i); t = t.t(&match c.rng.below(16) { 0 => format!("{}\n", x), 1 => format!(" {} ", x), 2 => format!("{}\t ", x), 3 => format!("{}.", x), 4 => format!("\n{}", x), 5 => format!("{}\u{a0}", x), _ => x }); } if c.rng.chance(1, 8) { t = t.k(G::new(TextMarkupStyle).t("m")).t("x"); } w = w.k(t); } }
            s = s.k(w);
            if c.rng.chance(1, 15) { s = s.k(G::new(Linebreak)); }
        }
        let mut l = G::new(EntitiesLayer);
        for _ in 0..c.rng.below(3) { let mut e = G::new(Entity).a(Attribute::Class("x".into())); for _ in 0..c.rng.range(1, 3) { e = e.k(G::new(WordReference).a(Attribute::Idref(format!("w{}", c.rng.below(n))))); } l = l.k(e); }
        // references to hidden words are allowed as well
        if !l.kids.is_empty() { s = s.k(l); }
        let mut p = G::new(Paragraph).k(s);
        if c.rng.chance(1, 2) { p = p.k(G::new(Sentence).k(G::new(TextContent).t("Second."))); }
        if c.rng.chance(1, 3) { p = p.k(G::new(TextContent).t("own text")); }
        c.log(p.show());
        let mut doc = new_doc();
        doc.add_element_to(0, p.to_data()).map_err(|e| e.to_string())?;
        if c.rng.chance(1, 3) { doc.add_element_to(0, G::new(Head).k(G::new(TextContent).a(Attribute::Class("original".into())).t("title")).to_data()).map_err(|e| e.to_string())?; }
        check_text(c, &sp, &doc)?;
        // and after a round trip
        let out = std::string::String::from_utf8(doc.xml(0, 0).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let again = Document::from_str(&out, DocumentProperties::default()).map_err(|e| e.to_string())?;
        check_text(c, &sp, &again)?;
        Ok(())
    });
}
