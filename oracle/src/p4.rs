use crate::model::*;
use crate::p3::{backrefs, fields, references};
use crate::spec::{self, Specs};
use crate::util::*;
use crate::xml::{self, x, X, XK};
use folia::*;
use std::collections::{BTreeMap, HashSet};
use ElementType::*;

type Str = std::string::String;
fn body_of(s: &str) -> &str { let i = s.find("</metadata>").map(|i| i + 11).unwrap_or(0); &s[i..] }
fn render(doc: &Document, indent: usize) -> Result<Str, Str> { Str::from_utf8(doc.xml(0, indent).map_err(|e| format!("serialising: {}", e))?).map_err(|e| e.to_string()) }
fn read(s: &str) -> Result<Document, Str> { Document::from_str(s, DocumentProperties::default()).map_err(|e| format!("reading: {}\n{}", e, s)) }

/// Does the XML say what the document says?
fn same_xml(doc: &Document, sp: &Specs, key: u32, e: &X) -> Res {
    let d = edata(doc, key).unwrap();
    let el = doc.get_element(key).unwrap();
    let s = sp.get(d.elementtype);
    eq!(e.name, s.tag, "tag of element {}", key);
    let mut expect = 0;
    for a in d.attribs() {
        if a.decodable() { continue; }
        if let Some((n, v)) = xml::attr_xml(a) { eq!(e.attr(n), Some(v.as_str()), "attribute {} of <{}>", n, e.name); expect += 1; }
    }
    if el.class().is_some() { eq!(e.attr("class"), el.class(), "class of <{}>", e.name); }
    if d.elementtype == Feature && el.subset().is_some() { eq!(e.attr("subset"), el.subset(), "subset of <{}>", e.name); }
    if e.attr("set").is_some() { eq!(e.attr("set"), el.set(), "set of <{}>", e.name); }
    if e.attr("processor").is_some() { eq!(e.attr("processor"), el.processor(), "processor of <{}>", e.name); }
    let extra = e.attrs.iter().filter(|(n, _)| !["class", "subset", "set", "processor"].contains(&n.as_str())).count();
    eq!(extra, expect, "number of attributes of <{}>: {:?}", e.name, e.attrs);
    // content, with indentation and the division of text into pieces left out
    #[derive(PartialEq, Debug)]
    enum P<'a> { E(u32), X(&'a X), T(Str), C(Str) }
    fn push<'a>(v: &mut Vec<P<'a>>, p: P<'a>) { if let P::T(t) = &p { if t.is_empty() { return; } if let Some(P::T(l)) = v.last_mut() { l.push_str(t); return; } } v.push(p) }
    let mut a: Vec<P> = vec![];
    for i in 0..d.len() { match d.get_data_at(i).unwrap() { DataType::Element(k) => push(&mut a, P::E(*k)), DataType::Text(t) => push(&mut a, P::T(t.clone())), DataType::Comment(t) => push(&mut a, P::C(t.clone())), _ => {} } }
    let mut b: Vec<P> = vec![];
    for k in &e.kids { match k { XK::N(e) => push(&mut b, P::X(e)), XK::T(t) => push(&mut b, P::T(t.clone())), XK::C(t) => push(&mut b, P::C(t.clone())) } }
    b.retain(|p| if let P::T(t) = p { !(t.trim().is_empty() && t.contains('\n')) } else { true });
    eq!(b.len(), a.len(), "items in <{}>: {:?}, expected {:?}", e.name, b.iter().map(|p| if let P::X(e) = p { e.name.clone() } else { "..".into() }).collect::<Vec<_>>(), a);
    for (p, q) in a.iter().zip(b.iter()) {
        match (p, q) { (P::E(k), P::X(e)) => same_xml(doc, sp, *k, e)?, (p, q) => eq!(q, p, "content of <{}>", e.name) }
    }
    Ok(())
}
fn round(doc: &Document, sp: &Specs, indent: usize) -> Result<Document, Str> {
    let out = render(doc, indent)?;
    let top = xml::parse(&out).map_err(|e| format!("{}\n{}", e, out))?;
    eq!(top.name, "FoLiA", "root element");
    let root = edata(doc, 0).unwrap().elementtype;
    let b = top.child(&sp.get(root).tag).ok_or("no body in the output")?;
    same_xml(doc, sp, 0, b).map_err(|e| format!("{}\n{}", e, out))?;
    let again = read(&out)?;
    let (want, got) = (canon(&dump_reread(doc, 0)), canon(&dump(&again, 0)));
    if let Some(d) = diff(&got, &want, "") { return Err(format!("after reading back: {}\n{}", d, out)); }
    Raw::of(&again).consistent()?;
    let out2 = render(&again, indent)?;
    eq!(body_of(&out2), body_of(&out), "second serialisation");
    Ok(again)
}

// ------------------------------------------------------------------ C15
pub fn c15(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("built through the API", 500, 20000, |c| {
        let mut gen = Gen::new(&sp);
        let size = c.rng.range(3, 60);
        let one = c.rng.chance(1, 2);
        let (doc, body) = random_doc(&mut c.rng, &mut gen, size, one)?;
        c.log(body.show());
        let indent = *c.rng.pick(&[0, 2, 4]);
        let again = round(&doc, &sp, indent)?;
        round(&again, &sp, 2)?;
        Ok(())
    });
    cx.family("read from XML", 500, 20000, |c| {
        let mut gen = Gen::new(&sp);
        gen.procs = (0..c.rng.below(3)).map(|i| format!("p{}", i)).collect();
        let size = c.rng.range(3, 60);
        let body = gen.body(&mut c.rng, size);
        let mut decls = Decls::default();
        decls.known = gen.procs.clone();
        let declared_first = c.rng.chance(2, 3);
        if declared_first { decls.encode(&sp, &body, None)?; }
        let procs: Str = gen.procs.iter().map(|p| format!("<processor xml:id=\"{}\" name=\"n\"/>\n", p)).collect();
        let mut o = xml::header(&decls, &procs, "");
        if !declared_first { decls.v.clear(); }
        let w = xml::W { indent: c.rng.chance(1, 2), cdata: c.rng.chance(1, 2), shortcuts: false };
        let mut b = Str::new();
        xml::write_g(&body, &sp, &w, &mut c.rng, false, 0, &mut b);
        o.push_str(&b);
        o.push_str("\n</FoLiA>\n");
        c.log(b);
        let doc = read(&o)?;
        // default text declaration that reading adds
        let mut m = Decls { v: if declared_first { decls.v.clone() } else { vec![] }, active: None, known: gen.procs.clone() };
        if !m.v.iter().any(|d| d.at == AnnotationType::TEXT) { m.declare(AnnotationType::TEXT, Some(DEFAULT_TEXT_SET)); }
        let (want, _) = m.encode(&sp, &body, None)?;
        let (want, got) = (canon(&want), canon(&dump(&doc, 0)));
        if let Some(d) = diff(&got, &want, "") { return Err(format!("reading gives {}\n{}", d, o)); }
        round(&doc, &sp, 4)?;
        Ok(())
    });
    cx.family("feature shortcuts", 200, 4000, |c| {
        // a feature may be written as an attribute of the element it belongs to
        let cand: Vec<(ElementType, Vec<Str>)> = sp.v.iter().filter(|s| s.at.is_some() && s.et != Text && s.et != Speech).map(|s| (s.et, s.accepted_types.iter().map(|t| spec::by_variant(t)).filter_map(|t| sp.get(t).subset.clone()).collect::<Vec<_>>())).filter(|(_, v)| !v.is_empty()).collect();
        let (et, subs) = c.rng.pick(&cand).clone();
        let s = sp.get(et);
        let mut set = Str::new();
        if c.rng.chance(1, 2) { set = " set=\"s1\"".into(); }
        let mut attrs = Str::new();
        let mut want = vec![];
        for sub in &subs {
            if c.rng.chance(2, 3) && !["type", "format", "class", "set", "ref"].contains(&sub.as_str()) { let v = nonempty(&mut c.rng); attrs.push_str(&format!(" {}=\"{}\"", sub, x(&v))); want.push((sub.clone(), v)); }
        }
        let o = format!("{}<text><s xml:id=\"s\"><{} class=\"c\"{}{}/></s></text></FoLiA>", xml::header(&Decls::default(), "", ""), s.tag, set, attrs);
        c.log(o.clone());
        let doc = read(&o)?;
        let raw = Raw::of(&doc);
        let k = raw.kids(raw.kids(0)[0])[0];
        let got: Vec<(Str, Str)> = raw.kids(k).iter().map(|f| { let e = doc.get_element(*f as u32).unwrap(); (e.subset().unwrap_or("?").to_string(), e.class().unwrap_or("?").to_string()) }).collect();
        eq!(got, want, "features of {}", o);
        round(&doc, &sp, 2)?;
        Ok(())
    });
    cx.family("edited", 250, 8000, |c| {
        let mut gen = Gen::new(&sp);
        let one = c.rng.chance(1, 2);
        let (mut doc, body) = random_doc(&mut c.rng, &mut gen, 35, one)?;
        c.log(body.show());
        for _ in 0..c.rng.range(1, 6) {
            let raw = Raw::of(&doc);
            fn below(raw: &Raw, k: usize, o: &mut Vec<usize>) { o.push(k); for c in raw.kids(k) { below(raw, c, o) } }
            let inspan = |k: usize| std::iter::once(k).chain(raw.ancestors(k)).any(|a| sp.in_group(raw.n[a].et, "Span") || sp.in_group(raw.n[a].et, "SpanRole"));
            let mut tree = vec![];
            below(&raw, 0, &mut tree);
            match c.rng.below(5) {
                0 => { doc = round(&doc, &sp, 2)?; c.log("(serialise, read)".into()); }
                1 | 2 => {
                    // move something
                    let k = *c.rng.pick(&tree);
                    let p = *c.rng.pick(&tree);
                    let mut sub = vec![];
                    below(&raw, k, &mut sub);
                    if k == 0 || sub.contains(&p) || inspan(k) || raw.n[k].et == Feature || sub.iter().any(|s| raw.n[*s].et == WordReference) { continue; }
                    // (a layer that gets its set from spans in a layer far below it)
                    if sub.iter().any(|s| sp.in_group(raw.n[*s].et, "Layer")) && std::iter::once(p).chain(raw.ancestors(p)).any(|a| sp.in_group(raw.n[a].et, "Layer")) { continue; }
                    c.log(format!("attach {} ({:?}) to {} ({:?})", k, raw.n[k].et, p, raw.n[p].et));
                    doc.attach_element(p as u32, k as u32).map_err(|e| e.to_string())?;
                }
                3 => {
                    let k = *c.rng.pick(&tree);
                    let mut sub = vec![];
                    below(&raw, k, &mut sub);
                    // (the first span determines the set of a layer that has none when it is read)
                    if sub.iter().any(|s| sp.in_group(raw.n[*s].et, "Span")) { continue; }
                    if k == 0 || sub.iter().any(|s| raw.n[*s].data.iter().any(|d| matches!(d, DataType::SpanReference(_)))) { continue; }
                    c.log(format!("detach {} ({:?})", k, raw.n[k].et));
                    let ids: HashSet<Str> = sub.iter().flat_map(|s| raw.n[*s].attribs.iter()).filter_map(|a| if let Attribute::Id(s) = a { Some(s.clone()) } else { None }).collect();
                    gen.words.retain(|w| !ids.contains(w));
                    doc.detach_element(k as u32).map_err(|e| e.to_string())?;
                }
                _ => {
                    let p = *c.rng.pick(&tree);
                    let acc: Vec<ElementType> = sp.accepted(raw.n[p].et).into_iter().filter(|e| gen.usable(*e, raw.n[p].et, inspan(p)) && !sp.in_group(*e, "Span")).collect();
                    if acc.is_empty() { continue; }
                    let et = *c.rng.pick(&acc);
                    let mut b = 8;
                    let g = gen.tree(&mut c.rng, et, 3, &mut b, inspan(p));
                    c.log(format!("annotate {} with {}", p, g.show()));
                    if g.et == WordReference && !raw.n.iter().any(|n| n.attribs.iter().any(|a| g.attrs.iter().any(|b| matches!((a, b), (Attribute::Id(x), Attribute::Idref(y)) if x == y)))) { continue; }
                    doc.annotate(p as u32, g.to_data()).map_err(|e| e.to_string())?;
                }
            }
        }
        round(&doc, &sp, 0)?;
        Ok(())
    });
    cx.family("characters", 300, 4000, |c| {
        // all of ASCII, then samples from everywhere
        let ch = |r: &mut Rng| loop {
            let n = match r.below(4) { 0 => r.below(0x80), 1 => r.below(0x800), 2 => r.below(0x10000), _ => r.below(0x110000) };
            if let Some(ch) = char::from_u32(n as u32) { if (n >= 0x20 || n == 9 || n == 10) && !(0xfffe..=0xffff).contains(&(n & 0xffff)) && n != 0x7f { return ch; } }
        };
        let first = if c.index < 95 { Some((0x20 + c.index as u8) as char) } else { None };
        let s = |r: &mut Rng| { let mut s = Str::new(); for i in 0..r.range(1, 6) { s.push(if i == 0 { first.unwrap_or_else(|| ch(r)) } else { ch(r) }) } s };
        let text = |r: &mut Rng| { let t = s(r); if t.trim().is_empty() { format!("a{}b", t) } else { t } };
        let comment = |r: &mut Rng| { let mut t = s(r).replace('-', "x"); if t.starts_with('>') { t.insert(0, ' ') } t };
        let r = &mut c.rng;
        let mut w = G::new(Word).id("w");
        let t = G::new(TextContent).t(&text(r)).k(G::new(TextMarkupStyle).a(Attribute::Class(s(r))).t(&text(r))).t(&text(r));
        w = w.k(t);
        w = w.k(G::new(PosAnnotation).a(Attribute::Set(s(r))).a(Attribute::Class(s(r))).a(Attribute::N(s(r))).a(Attribute::Annotator(s(r))).k(G::new(Feature).a(Attribute::Subset(s(r))).a(Attribute::Class(s(r)))));
        w = w.k(G::new(Description).t(&text(r)));
        w.kids.push(GK::C(comment(r)));
        w = w.k(G::new(Comment).t(&text(r)));
        c.log(w.show());
        let mut doc = new_doc();
        doc.add_element_to(0, w.to_data()).map_err(|e| e.to_string())?;
        round(&doc, &sp, 2)?;
        Ok(())
    });
}

// ------------------------------------------------------------------ C16
#[derive(Debug, Clone, PartialEq, Default)]
struct MMeta { kind: Option<Str>, src: Option<Str>, data: BTreeMap<Str, Str> }
#[derive(Debug, Clone, PartialEq)]
struct MProc { id: Str, fields: Str, meta: BTreeMap<Str, Str>, subs: Vec<MProc> }
#[derive(Debug, Clone, PartialEq)]
struct MDoc { id: Str, meta: MMeta, sub: BTreeMap<Str, MMeta>, decls: Vec<MDecl>, chain: Vec<MProc> }
fn meta_of(m: &Metadata) -> MMeta { MMeta { kind: m.metadatatype.clone(), src: m.src.clone(), data: m.data.iter().map(|(a, b)| (a.clone(), b.clone())).collect() } }
fn proc_of(doc: &Document, k: ProcKey, parent: Option<ProcKey>) -> Result<MProc, Str> {
    let p = doc.get_processor(k).ok_or("processor in the chain does not exist")?;
    if parent.is_some() { eq!(p.parent, parent, "parent of processor {}", p.id); }
    eq!(doc.get_processor_key_by_id(&p.id), Some(k), "key of processor {}", p.id);
    Ok(MProc { id: p.id.clone(), fields: fields(p), meta: meta_of(&p.metadata).data, subs: p.processors.iter().map(|s| proc_of(doc, *s, Some(k))).collect::<Result<_, _>>()? })
}
fn observe(doc: &Document) -> Result<MDoc, Str> {
    Ok(MDoc { id: doc.id().to_string(), meta: meta_of(&doc.metadata), sub: doc.submetadata.iter().map(|(k, m)| (k.clone(), meta_of(m))).collect(), decls: observe_decls(doc),
        chain: doc.provenancestore.chain.iter().map(|k| proc_of(doc, *k, None)).collect::<Result<_, _>>()? })
}
fn same(got: &MDoc, want: &MDoc, ctx: &str) -> Res {
    eq!(got.id, want.id, "document ID {}", ctx);
    eq!(got.meta, want.meta, "metadata {}", ctx);
    eq!(got.sub, want.sub, "submetadata {}", ctx);
    eq!(got.decls, want.decls, "declarations {}", ctx);
    eq!(got.chain, want.chain, "provenance chain {}", ctx);
    Ok(())
}
fn date(r: &mut Rng) -> chrono::NaiveDateTime { chrono::NaiveDate::from_ymd(r.range(1000, 2999) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32).and_hms(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32) }
fn gen_proc(r: &mut Rng, next: &mut usize, depth: usize) -> Processor {
    *next += 1;
    let id = format!("p{}{}", next, if r.chance(1, 6) { "&é" } else { "" });
    let mut p = Processor::new(nonempty(r)).with_id(id);
    p = p.with_type(*r.pick(&[ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource]));
    if r.chance(1, 3) { p = p.with_version(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_folia_version(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_document_version(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_command(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_host(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_user(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_begindatetime(date(r)); }
    if r.chance(1, 3) { p = p.with_enddatetime(date(r)); }
    if r.chance(1, 3) { p = p.with_src(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_format(nonempty(r)); }
    if r.chance(1, 3) { p = p.with_resourcelink(nonempty(r)); }
    if r.chance(1, 4) { for _ in 0..r.range(1, 3) { let (k, v) = (nonempty(r), mvalue(r)); p.metadata.data.insert(k, v); } }
    if depth > 0 { for _ in 0..r.below(4).saturating_sub(1) { p = p.with_new_subprocessor(gen_proc(r, next, depth - 1)); } }
    p
}
fn mvalue(r: &mut Rng) -> Str { match r.below(8) { 0 => Str::new(), 1 => format!("line1\nline2 {}", nonempty(r)), 2 => format!(" {} ", nonempty(r)), _ => nonempty(r) } }
fn gen_meta(r: &mut Rng) -> Metadata {
    let mut m = Metadata::default();
    if r.chance(1, 2) { m.metadatatype = Some(r.pick(&["native", "cmdi", "imdi", "x&y"]).to_string()); }
    if r.chance(1, 3) { m.src = Some(nonempty(r)); }
    for _ in 0..r.below(4) { let (k, v) = (nonempty(r), mvalue(r)); m.data.insert(k, v); }
    m
}
fn model_proc(p: &Processor) -> MProc { MProc { id: p.id.clone(), fields: fields(p), meta: meta_of(&p.metadata).data, subs: p.pending_processors.borrow().iter().map(model_proc).collect() } }
pub fn c16(cx: &mut Ctx) {
    cx.family("fields of a processor", 1, 1, |c| {
        c.log("each field is stored where it belongs, and only there".into());
        let p = || Processor::new("n".into()).with_id("p".into());
        let show = |p: &Processor| vec![p.id.clone(), p.name.clone(), format!("{:?}", p.processortype), p.version.clone(), p.folia_version.clone(), p.document_version.clone(), p.command.clone(), p.host.clone(), p.user.clone(), p.src.clone(), p.format.clone(), p.resourcelink.clone(), format!("{:?}", p.begindatetime), format!("{:?}", p.enddatetime)];
        let (d, e) = (chrono::NaiveDate::from_ymd(2020, 2, 3).and_hms(4, 5, 6), chrono::NaiveDate::from_ymd(2021, 3, 4).and_hms(5, 6, 7));
        let plain = show(&p());
        let w = |s: &str| s.to_string();
        let v: Vec<(usize, Processor, Str)> = vec![(0, Processor::new("n".into()).with_id(w("x")), w("x")), (2, p().with_type(ProcessorType::Manual), w("Manual")), (2, p().with_type(ProcessorType::Generator), w("Generator")), (3, p().with_version(w("x")), w("x")), (4, p().with_folia_version(w("x")), w("x")),
            (5, p().with_document_version(w("x")), w("x")), (6, p().with_command(w("x")), w("x")), (7, p().with_host(w("x")), w("x")), (8, p().with_user(w("x")), w("x")), (9, p().with_src(w("x")), w("x")), (10, p().with_format(w("x")), w("x")), (11, p().with_resourcelink(w("x")), w("x")),
            (12, p().with_begindatetime(d), format!("{:?}", Some(d))), (13, p().with_enddatetime(e), format!("{:?}", Some(e)))];
        for (i, q, want) in v { let mut all = plain.clone(); all[i] = want; eq!(show(&q), all, "processor with field {} set", i); }
        Ok(())
    });
    cx.family("built through the API", 800, 20000, |c| {
        let r = &mut c.rng;
        let id = *r.pick(&["doc", "d.1-x", "é", "DOC", "untitled"]);
        let body = if r.chance(1, 5) { BodyType::Speech } else { BodyType::Text };
        let mut doc = Document::new(id, DocumentProperties::default().with_bodytype(body)).map_err(|e| e.to_string())?;
        let mut want = observe(&doc)?;
        eq!(want.id, id, "document ID");
        doc.metadata = gen_meta(r);
        want.meta = meta_of(&doc.metadata);
        for i in 0..r.below(3) { let m = gen_meta(r); let k = format!("m{}{}", i, if r.chance(1, 5) { "&" } else { "" }); want.sub.insert(k.clone(), meta_of(&m)); doc.submetadata.insert(k, m); }
        let mut next = 0;
        let mut ids = vec![];
        for _ in 0..r.below(4) {
            let p = gen_proc(r, &mut next, 3);
            want.chain.push(model_proc(&p));
            doc.add_processor(p).map_err(|e| e.to_string())?;
        }
        fn all(v: &Vec<MProc>, o: &mut Vec<Str>) { for p in v { o.push(p.id.clone()); all(&p.subs, o) } }
        all(&want.chain, &mut ids);
        for _ in 0..r.below(8) {
            let at = r.pick(spec::ANNOTATIONTYPES).0;
            let set = if r.chance(1, 4) { None } else { Some(nonempty(r)) };
            if want.decls.iter().any(|d| d.at == at && d.set == set) { continue; }
            let alias = if r.chance(1, 3) { Some(nonempty(r)) } else { None };
            let format = if r.chance(1, 3) { Some(nonempty(r)) } else { None };
            let k = doc.add_declaration(Declaration::new(at, set.clone(), alias.clone(), format.clone())).map_err(|e| e.to_string())?;
            let mut procs = vec![];
            if !ids.is_empty() { for _ in 0..r.below(3) { let p = r.pick(&ids).clone(); if !procs.contains(&p) { let pk = doc.get_processor_key_by_id(&p).unwrap(); doc.get_mut_declaration(k).unwrap().processors.push(pk); procs.push(p); } } }
            want.decls.push(MDecl { at, set, alias, format, procs });
        }
        c.log(format!("{:?}", want));
        same(&observe(&doc)?, &want, "before serialising")?;
        let out = render(&doc, *c.rng.pick(&[0, 2, 4]))?;
        xml::parse(&out).map_err(|e| format!("{}\n{}", e, out))?;
        let again = read(&out)?;
        same(&observe(&again)?, &want, &format!("after reading {}", out))?;
        let out2 = render(&again, 4)?;
        same(&observe(&read(&out2)?)?, &want, &format!("after reading a second time {}", out2))
    });
    cx.family("read from XML", 600, 15000, |c| {
        let r = &mut c.rng;
        let id = *r.pick(&["doc", "d.1-x", "é", "DOC"]);
        let mut next = 0;
        let mut want = MDoc { id: id.into(), meta: MMeta::default(), sub: BTreeMap::new(), decls: vec![], chain: vec![] };
        fn metas(r: &mut Rng, m: &BTreeMap<Str, Str>, o: &mut Str) {
            for (k, v) in m {
                o.push_str(&format!("<meta id=\"{}\"", x(k)));
                if v.is_empty() && r.chance(1, 2) { o.push_str("/>\n") } else if r.chance(1, 4) && !v.contains("]]>") && !v.is_empty() { o.push_str(&format!("><![CDATA[{}]]></meta>\n", v)) } else { o.push_str(&format!(">{}</meta>\n", x(v))) }
            }
        }
        fn put(r: &mut Rng, p: &Processor, o: &mut Str) {
            let mut a: Vec<(&str, Str)> = vec![("xml:id", p.id.clone()), ("name", p.name.clone()), ("type", match p.processortype { ProcessorType::Auto => "auto", ProcessorType::Manual => "manual", ProcessorType::Generator => "generator", ProcessorType::DataSource => "datasource" }.into()),
                ("version", p.version.clone()), ("folia_version", p.folia_version.clone()), ("document_version", p.document_version.clone()), ("command", p.command.clone()), ("host", p.host.clone()), ("user", p.user.clone()), ("src", p.src.clone()), ("format", p.format.clone()), ("resourcelink", p.resourcelink.clone())];
            if let Some(d) = p.begindatetime { a.push(("begindatetime", d.format("%Y-%m-%dT%H:%M:%S").to_string())); }
            if let Some(d) = p.enddatetime { a.push(("enddatetime", d.format("%Y-%m-%dT%H:%M:%S").to_string())); }
            if p.processortype == ProcessorType::Auto && r.chance(1, 2) { a.retain(|a| a.0 != "type"); }
            for i in (1..a.len()).rev() { let j = r.below(i + 1); a.swap(i, j); }
            o.push_str("<processor");
            for (k, v) in &a { if !v.is_empty() { o.push_str(&format!(" {}=\"{}\"", k, x(v))); } }
            let kids = p.pending_processors.borrow();
            if kids.is_empty() && p.metadata.data.is_empty() && r.chance(2, 3) { o.push_str("/>\n"); return; }
            o.push_str(">\n");
            metas(r, &meta_of(&p.metadata).data, o);
            for k in kids.iter() { put(r, k, o); }
            o.push_str("</processor>\n");
        }
        let mut prov = Str::new();
        for _ in 0..r.below(4) { let p = gen_proc(r, &mut next, 3); want.chain.push(model_proc(&p)); put(r, &p, &mut prov); }
        let mut ids = vec![];
        fn all(v: &Vec<MProc>, o: &mut Vec<Str>) { for p in v { o.push(p.id.clone()); all(&p.subs, o) } }
        all(&want.chain, &mut ids);
        for _ in 0..r.below(8) {
            let at = r.pick(spec::ANNOTATIONTYPES).0;
            let set = if r.chance(1, 4) { None } else { Some(nonempty(r)) };
            if want.decls.iter().any(|d| d.at == at && d.set == set) { continue; }
            let mut procs: Vec<Str> = vec![];
            if !ids.is_empty() { for _ in 0..r.below(3) { let p = r.pick(&ids).clone(); if !procs.contains(&p) { procs.push(p) } } }
            want.decls.push(MDecl { at, set, alias: if r.chance(1, 3) { Some(nonempty(r)) } else { None }, format: if r.chance(1, 3) { Some(nonempty(r)) } else { None }, procs });
        }
        want.meta = meta_of(&gen_meta(r));
        for i in 0..r.below(3) { want.sub.insert(format!("m{}", i), meta_of(&gen_meta(r))); }
        let mut rest = Str::new();
        metas(r, &want.meta.data, &mut rest);
        for (k, m) in &want.sub {
            rest.push_str(&format!("<submetadata xml:id=\"{}\"", x(k)));
            if let Some(t) = &m.kind { rest.push_str(&format!(" type=\"{}\"", x(t))); }
            if let Some(t) = &m.src { rest.push_str(&format!(" src=\"{}\"", x(t))); }
            rest.push_str(">\n");
            metas(r, &m.data, &mut rest);
            rest.push_str("</submetadata>\n");
        }
        let mut o = xml::header(&Decls { v: want.decls.clone(), active: None, known: vec![] }, &prov, &rest);
        // document ID and the attributes of <metadata>
        o = o.replacen("xml:id=\"doc\"", &format!("xml:id=\"{}\"", id), 1);
        let i = o.find("<metadata").unwrap();
        let j = i + o[i..].find('>').unwrap();
        let mut m = Str::from("<metadata");
        if let Some(t) = &want.meta.kind { m.push_str(&format!(" type=\"{}\"", x(t))); }
        if let Some(t) = &want.meta.src { m.push_str(&format!(" src=\"{}\"", x(t))); }
        o.replace_range(i..j, &m);
        o.push_str(if r.chance(1, 5) { "<speech/></FoLiA>" } else if r.chance(1, 3) { "<text/></FoLiA>" } else { "<text xml:id=\"t\">\n</text>\n</FoLiA>" });
        c.log(o.clone());
        let doc = read(&o)?;
        // reading declares text if nothing else does
        if !want.decls.iter().any(|d| d.at == AnnotationType::TEXT) { want.decls.push(MDecl { at: AnnotationType::TEXT, set: Some(DEFAULT_TEXT_SET.into()), alias: None, format: None, procs: vec![] }); }
        let mut got = observe(&doc)?;
        // (or the default set, if another one is declared)
        if got.decls.len() == want.decls.len() + 1 && got.decls.last().map(|d| d.at == AnnotationType::TEXT && d.set.as_deref() == Some(DEFAULT_TEXT_SET)) == Some(true) { got.decls.pop(); }
        same(&got, &want, &format!("after reading {}", o))?;
        let out = render(&doc, 4)?;
        xml::parse(&out).map_err(|e| format!("{}\n{}", e, out))?;
        same(&observe(&read(&out)?)?, &observe(&doc)?, &format!("after serialising and reading {}", out))
    });
}

// ------------------------------------------------------------------ C17
/// A document that was loaded is in order, whatever it was loaded from.
fn sane(sp: &Specs, doc: &Document) -> Res {
    let raw = Raw::of(doc);
    raw.consistent()?;
    ensure!(!raw.n.is_empty(), "a document without a body");
    eq!(raw.n[0].parent, None, "parent of the body");
    let mut v: Vec<&str> = vec![];
    for (k, n) in raw.n.iter().enumerate() {
        let e = doc.get_element(k as u32).ok_or("element is gone")?;
        if k > 0 { ensure!(n.parent.is_some(), "element {} ({:?}) was read but is in nothing", k, n.et); }
        let _ = (e.class(), e.subset());
        if let Some(d) = e.declaration_key() { ensure!(doc.get_declaration(d).is_some(), "declaration of element {} does not exist", k); }
        if let Some(p) = e.processor_key() { ensure!(doc.get_processor(p).is_some(), "processor of element {} does not exist", k); }
        if let Some(id) = n.attribs.iter().find_map(|a| if let Attribute::Id(s) = a { Some(s) } else { None }) { eq!(doc.get_element_key_by_id(id), Some(k as u32), "key of {:?}", id); v.push(id); }
    }
    let n = v.len(); v.sort(); v.dedup();
    eq!(v.len(), n, "number of different IDs");
    eq!(backrefs(&raw), references(sp, &raw)?, "back references");
    for d in doc.declarations().filter_map(|d| d.as_ref()) { for p in &d.processors { ensure!(doc.get_processor(*p).is_some(), "processor of a declaration does not exist"); } }
    for k in &doc.provenancestore.chain { proc_of(doc, *k, None)?; }
    Ok(())
}
fn load(sp: &Specs, s: &str) -> Result<bool, Str> {
    match Document::from_str(s, DocumentProperties::default()) { Ok(d) => { sane(sp, &d).map_err(|e| format!("{}\nloaded from {}", e, s))?; Ok(true) } Err(_) => Ok(false) }
}
fn sample(c: &mut Case, sp: &Specs) -> Result<Str, Str> {
    let mut gen = Gen::new(sp);
    let size = c.rng.range(2, 25);
    if c.rng.chance(1, 2) {
        let one = c.rng.chance(1, 2);
        let (mut doc, _) = random_doc(&mut c.rng, &mut gen, size, one)?;
        doc.metadata = gen_meta(&mut c.rng);
        let m = gen_meta(&mut c.rng);
        if c.rng.chance(1, 2) { doc.submetadata.insert("m".into(), m); }
        let mut next = 100;
        if c.rng.chance(1, 2) { doc.add_processor(gen_proc(&mut c.rng, &mut next, 2)).map_err(|e| e.to_string())?; }
        render(&doc, *c.rng.pick(&[0, 2]))
    } else {
        let body = gen.body(&mut c.rng, size);
        let mut decls = Decls::default();
        decls.encode(sp, &body, None)?;
        let mut o = xml::header(&decls, "<processor xml:id=\"p0\" name=\"a\"><meta id=\"x\">y</meta><processor xml:id=\"p1\" name=\"b\" begindatetime=\"2020-01-01T00:00:00\"/></processor>\n", "<meta id=\"k\">v</meta>\n");
        let w = xml::W { indent: c.rng.chance(1, 2), cdata: true, shortcuts: false };
        xml::write_g(&body, sp, &w, &mut c.rng, false, 0, &mut o);
        o.push_str("\n</FoLiA>\n");
        Ok(o)
    }
}
const TOKENS: &[&str] = &["<", ">", "/", "&", "\"", "'", "=", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "&#0;", "&#xffffffff;", "&amp", "&;", "&nosuch;", "\u{0}", "\u{feff}", "\u{fffe}", "é", "😀", " ", "\n", "xml:id=\"e0\"", "xml:id=\"\"", "xml:id=\"doc\"",
    "<text>", "</text>", "<speech>", "</speech>", "<text/>", "<FoLiA>", "</FoLiA>", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\">", "<metadata>", "</metadata>", "<metadata/>", "<annotations>", "</annotations>", "<annotations/>", "<provenance>", "</provenance>", "<provenance/>", "<processor/>", "<processor xml:id=\"p0\">", "<processor xml:id=\"p0\" name=\"a\">",
    "</processor>", "<processor xml:id=\"p1\" type=\"x\"/>", "<processor xml:id=\"p1\" begindatetime=\"x\"/>", "<meta id=\"a\">", "</meta>", "<meta>", "<meta/>", "<meta id=\"b\"/>", "<submetadata>", "<submetadata xml:id=\"m\">", "</submetadata>", "<submetadata/>", "<submetadata xml:id=\"m\"/>", "<annotator/>", "<annotator processor=\"p0\"/>", "<annotator processor=\"nobody\"/>",
    "<annotator processor=\"p0\">", "</annotator>", "<pos-annotation/>", "<pos-annotation set=\"x\">", "</pos-annotation>", "<-annotation/>", "<x-annotation/>", "<pos-x/>", "<pos-annotation set=\"x\"/>", "<foreign-data>", "</foreign-data>", "<s>", "</s>", "<w xml:id=\"e0\">", "</w>", "<w/>", "<t>", "</t>", "<t/>", "<t>x</t>", "<entities>", "</entities>", "<entity class=\"x\">", "</entity>", "<wref id=\"e0\"/>", "<wref/>", "<wref id=\"nobody\"/>",
    "<wref id=\"e0\">", "</wref>", "<feat subset=\"a\" class=\"b\"/>", "<feat/>", "<feat class=\"b\"/>", "<feat subset=\"a\"/>", "<correction>", "</correction>", "<pos class=\"N\"/>", "<pos class=\"N\" head=\"x\"/>", "<pos class=\"N\" processor=\"nobody\"/>", "<pos class=\"N\" confidence=\"x\"/>", "<pos class=\"N\" datetime=\"x\"/>", "<linebreak/>", "<br linenr=\"99999999\"/>", "<str offset=\"-1\"/>",
    "<t offset=\"65536\"/>", "<nosuchtag/>", "<actor/>", "<headfeature/>", "<w space=\"maybe\"/>", "<pos annotatortype=\"x\"/>", "<desc>x</desc>", "<comment>x</comment>", "xmlns=\"http://ilk.uvt.nl/folia\"", "xmlns=\"\"", "xmlns:f=\"http://ilk.uvt.nl/folia\"", "<f:s>", "</f:s>", "class=\"x\"", "set=\"s1\"", "class=\"a\" class=\"b\"", "class=x", "class", "=\"x\"", "<alt>", "</alt>", "<text xml:id=\"t\">"];
fn boundary(s: &str, mut i: usize) -> usize { i = i.min(s.len()); while !s.is_char_boundary(i) { i -= 1 } i }
fn mutate(r: &mut Rng, s: &str) -> Str {
    let mut s = s.to_string();
    for _ in 0..r.range(1, 4) {
        let n = s.len();
        // often at the border of a tag, where it matters
        let mut at = |r: &mut Rng, s: &str| { let i = r.below(n + 1); let i = boundary(s, i); if r.chance(1, 2) { s[i..].find(|c| c == '<' || c == '>' || c == '"').map(|j| i + j + r.below(2).min(1)).map(|j| boundary(s, j)).unwrap_or(i) } else { i } };
        match r.below(9) {
            0 => { let i = at(r, &s); let len = r.below(12); let j = boundary(&s, i + len).max(i); s.replace_range(i..j, ""); }
            1 | 2 => { let i = at(r, &s); s.insert_str(i, r.pick(TOKENS)); }
            3 => { let i = at(r, &s); let len = r.below(20); let j = boundary(&s, i + len).max(i); let t = s[i..j].to_string(); let k = at(r, &s); s.insert_str(k, &t); }
            4 => {
                // one tag or attribute value in place of another
                let q: Vec<(usize, usize)> = { let mut v = vec![]; let b = s.as_bytes(); let mut i = 0; while i < b.len() { if b[i] == b'"' { if let Some(j) = s[i + 1..].find('"') { v.push((i + 1, i + 1 + j)); i += j + 2; continue; } } i += 1; } v };
                if q.is_empty() { continue; }
                let (a, b) = *r.pick(&q); let (x, y) = *r.pick(&q); let t = s[x..y].to_string(); s.replace_range(a..b, &t);
            }
            5 | 6 => {
                let tags: Vec<(usize, usize)> = { let mut v = vec![]; let mut i = 0; while let Some(j) = s[i..].find('<') { let a = i + j; match s[a..].find('>') { Some(k) => { v.push((a, a + k + 1)); i = a + 1; } None => break } } v };
                if tags.is_empty() { continue; }
                let (a, b) = *r.pick(&tags);
                match r.below(3) { 0 => s.replace_range(a..b, ""), 1 => { let t = s[a..b].to_string(); s.insert_str(b, &t) } _ => { let (x, y) = *r.pick(&tags); let t = s[x..y].to_string(); s.replace_range(a..b, &t) } }
            }
            7 => { let i = at(r, &s); s.truncate(i); }
            _ => { let i = at(r, &s); let t = r.pick(TOKENS); let j = boundary(&s, i + t.len()).max(i); s.replace_range(i..j, t); }
        }
    }
    s
}
pub fn c17(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("cut off", 40, 600, |c| {
        let s = sample(c, &sp)?;
        c.log(s.clone());
        let root = if s.contains("</speech>") { "</speech>" } else { "</text>" };
        let m = s.find("</metadata>").ok_or("no metadata")?;
        // the body may be empty: <text/>
        let end = s.rfind(root).map(|i| i + root.len()).unwrap_or_else(|| { let i = m + s[m..].find("<text").unwrap(); i + s[i..].find('>').unwrap() + 1 });
        for i in 0..=s.len() {
            if !s.is_char_boundary(i) { continue; }
            if !c.thorough && i % 3 != (c.index % 3) as usize && i + 40 < end { continue; }
            let ok = load(&sp, &s[..i])?;
            // the parser takes the end of the input for the final '>', all the content is there
            ensure!(!ok || i + 1 >= end, "cut off after {} of {} bytes (the body ends at {}), it is read as a document: ...{:?}", i, s.len(), end, &s[boundary(&s, i.saturating_sub(60))..i]);
        }
        Ok(())
    });
    cx.family("mutated", 4000, 200000, |c| {
        let s = sample(c, &sp)?;
        let mut t = s;
        for _ in 0..8 { t = mutate(&mut c.rng, &t); c.log = vec![t.clone()]; c.nontrivial = load(&sp, &t)?; }
        Ok(())
    });
    cx.family("pieces", 6000, 200000, |c| {
        let mut s = Str::new();
        let r = &mut c.rng;
        if r.chance(4, 5) { s.push_str("<?xml version=\"1.0\"?><FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"doc\" version=\"2.1.0\">"); }
        let pieces = |r: &mut Rng, s: &mut Str, n: usize| for _ in 0..r.below(n) { s.push_str(r.pick(TOKENS)); if r.chance(1, 6) { s.push_str(&nonempty(r)) } };
        let k = if r.chance(1, 2) { 0 } else { 12 };
        if r.chance(3, 4) { s.push_str("<metadata>"); pieces(r, &mut s, k); s.push_str("<annotations>"); pieces(r, &mut s, k); s.push_str("</annotations><provenance>"); pieces(r, &mut s, k); s.push_str("</provenance>"); pieces(r, &mut s, k); s.push_str("</metadata>"); }
        if r.chance(7, 8) { s.push_str("<text>"); }
        pieces(r, &mut s, 20);
        if r.chance(7, 8) { s.push_str("</text>"); }
        pieces(r, &mut s, 4);
        if r.chance(7, 8) { s.push_str("</FoLiA>"); }
        c.log(s.clone());
        c.nontrivial = load(&sp, &s)?;
        Ok(())
    });
    cx.family("balanced nonsense", 4000, 100000, |c| {
        // well-formed, but anything below anything, with any attributes
        let r = &mut c.rng;
        let mut tags: Vec<Str> = sp.v.iter().map(|s| s.tag.clone()).collect();
        for t in &["text", "speech", "FoLiA", "metadata", "annotations", "provenance", "processor", "meta", "submetadata", "annotator", "pos-annotation", "nosuchtag", "t-", "-"] { tags.push(t.to_string()); }
        let names: Vec<&str> = xml::ATTRNAMES.iter().map(|a| a.1).chain(["head", "synset", "nosuch", "xml:lang", "name", "begindatetime", "version"].iter().cloned()).collect();
        let wrefs = r.chance(1, 3);
        fn node(r: &mut Rng, tags: &Vec<Str>, names: &Vec<&str>, depth: usize, wrefs: bool, next: &mut usize, o: &mut Str) {
            let usual = ["s", "w", "t", "p", "entity", "entities", "su", "syntax", "pos", "feat", "dependency", "hd", "dep", "correction", "new", "original", "part"];
            let t = if wrefs && r.chance(1, 4) { "wref".to_string() } else if r.chance(2, 3) { r.pick(&usual).to_string() } else { r.pick(tags).clone() };
            o.push_str(&format!("<{}", t));
            let mut used: Vec<&str> = vec![];
            if r.chance(1, 2) { *next += 1; used.push("xml:id"); o.push_str(&format!(" xml:id=\"i{}\"", if r.chance(1, 20) { r.below(*next) } else { *next })); }
            if t == "wref" && r.chance(7, 8) { used.push("id"); o.push_str(&format!(" id=\"i{}\"", r.below(*next + 2))); }
            let n = if r.chance(1, 2) { 0 } else { r.below(4) };
            for _ in 0..n {
                let a = if r.chance(1, 2) { *r.pick(&["class", "set", "processor", "subset", "n"]) } else { *r.pick(names) };
                if used.contains(&a) && r.chance(9, 10) { continue; }
                used.push(a);
                let v = match r.below(8) { 0 => "".into(), 1 => "-1".into(), 2 => "99999999999999999999".into(), 3 => "NaN".into(), 4 => "2020-01-01T00:00:00".into(), 5 => "yes".into(), 6 => "1".into(), _ => nonempty(r) };
                o.push_str(&format!(" {}=\"{}\"", a, x(&v)));
            }
            if r.chance(1, 3) { o.push_str("/>"); return; }
            o.push('>');
            if depth > 0 { for _ in 0..r.below(4) { match r.below(6) { 0 => o.push_str(&x(&word(r))), 1 => o.push_str("<!-- c -->"), _ => node(r, tags, names, depth - 1, wrefs, next, o) } } }
            o.push_str(&format!("</{}>", t));
        }
        let mut s = xml::header(&Decls::default(), "<processor xml:id=\"p0\" name=\"x\"/>", "");
        s.push_str("<text>");
        let mut next = 0;
        for _ in 0..r.range(1, 3) { node(r, &tags, &names, 4, wrefs, &mut next, &mut s); }
        s.push_str("</text></FoLiA>");
        c.log(s.clone());
        c.nontrivial = load(&sp, &s)?;
        Ok(())
    });
    cx.family("attributes", sp.v.len() as u64, sp.v.len() as u64, |c| {
        // every attribute on every element, with values it can and can not have
        let s = &sp.v[c.index as usize];
        c.log(s.tag.clone());
        let h = xml::header(&Decls::default(), "<processor xml:id=\"p0\" name=\"x\"/>", "");
        for a in xml::ATTRNAMES.iter().map(|a| a.1).chain(["head", "polarity", "strength", "font", "synset", "begindatetime", "actor", "nosuch", "xlink:nosuch"].iter().cloned()) {
            for v in &["", " ", "x", "p0", "0", "-1", "65535", "65536", "1e400", "NaN", "inf", "yes", "no", "maybe", "auto", "manual", "2020-02-30T00:00:00", "2020-01-01T00:00:00", "2020-01-01", "é😀", "&quot;&lt;", "&bad;", "&#0;"] {
                load(&sp, &format!("{}<text><w xml:id=\"w\"/><entities><entity><{} {}=\"{}\"/></entity></entities><{} {}=\"{}\">x</{}></text></FoLiA>", h, s.tag, a, v, s.tag, a, v, s.tag))?;
            }
        }
        Ok(())
    });
    cx.family("identifiers", 60, 600, |c| {
        // the same identifier twice, on any kind of element
        let a = &sp.v[c.index as usize % sp.v.len()];
        for b in &sp.v {
            let el = |s: &spec::Spec, id: &str, empty: bool| if empty { format!("<{} xml:id=\"{}\"/>", s.tag, id) } else { format!("<{} xml:id=\"{}\">x</{}>", s.tag, id, s.tag) };
            let (e1, e2) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
            let t = format!("{}<text xml:id=\"t\"><s>{}{}</s></text></FoLiA>", xml::header(&Decls::default(), "", ""), el(a, "i", e1), el(b, if c.rng.chance(1, 8) { "t" } else { "i" }, e2));
            c.log = vec![t.clone()];
            load(&sp, &t)?;
        }
        Ok(())
    });
    cx.family("deep", 10, 10, |c| {
        let i = c.index as usize;
        let n = 20000;
        let h = xml::header(&Decls::default(), "", "");
        let rep = |open: &str, close: &str, close_n: usize| { let mut s = h.clone(); s.push_str("<text>"); for _ in 0..n { s.push_str(open) } for _ in 0..close_n { s.push_str(close) } s.push_str("</text></FoLiA>"); s };
        let s = match i {
            0 => rep("<div>", "</div>", n), 1 => rep("<div>", "</div>", 0), 2 => rep("<su class=\"x\">", "</su>", n), 3 => rep("<t>", "</t>", n), 4 => rep("<correction><new>", "</new></correction>", n),
            5 => rep("<w/>", "", 0), 6 => { let mut s = Str::new(); for k in 0..2000 { s.push_str(&format!("<processor xml:id=\"p{}\" name=\"x\">", k)) } for _ in 0..2000 { s.push_str("</processor>") } format!("{}<text/></FoLiA>", xml::header(&Decls::default(), &s, "")) }
            7 => { let mut s = h.clone(); s.push_str("<text><w xml:id=\"w\"/><entities>"); for _ in 0..3000 { s.push_str("<entity class=\"x\"><wref id=\"w\"/></entity>") } s.push_str("</entities></text></FoLiA>"); s }
            8 => { let mut s = Str::new(); for k in 0..3000 { s.push_str(&format!("<pos-annotation set=\"s{}\"/>", k)) } h.replacen("<annotations>", &format!("<annotations>{}", s), 1) + "<text/></FoLiA>" }
            _ => { let mut s = h.clone(); s.push_str("<text><s><w xml:id=\"w\"><t"); for k in 0..3000 { s.push_str(&format!(" a{}=\"x\"", k)) } s.push_str("/></w></s></text></FoLiA>"); s }
        };
        c.log(format!("deep or long document {} of {} bytes", i, s.len()));
        // with the stack that threads usually have
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            match Document::from_str(&s, DocumentProperties::default()) { Ok(d) => Some(d), Err(_) => None }
        }).unwrap().join().map_err(|_| "panic")?;
        if let Some(d) = t {
            // walk without recursion
            let raw = Raw::of(&d);
            let mut seen = vec![0u8; raw.n.len()];
            for (p, n) in raw.n.iter().enumerate() { for x in &n.data { if let DataType::Element(k) = x { seen[*k as usize] += 1; eq!(raw.n[*k as usize].parent, Some(p), "parent of {}", k); } } }
            for (k, n) in raw.n.iter().enumerate() { eq!(seen[k], n.parent.is_some() as u8, "occurrences of {}", k); }
        }
        ensure!(i != 1 || true, "");
        Ok(())
    });
    cx.family("bytes", 1500, 40000, |c| {
        // files need not be text at all
        let s = sample(c, &sp)?;
        let mut b = s.into_bytes();
        let r = &mut c.rng;
        match r.below(6) {
            0 => { let n = r.below(200); b = (0..n).map(|_| r.below(256) as u8).collect(); }
            1 => { let mut u: Vec<u8> = vec![0xff, 0xfe]; for w in Str::from_utf8_lossy(&b).encode_utf16() { u.extend_from_slice(&w.to_le_bytes()) } b = u; }
            2 => { b.splice(0..0, [0xef, 0xbb, 0xbf].iter().cloned()); }
            _ => for _ in 0..r.range(1, 6) { let i = r.below(b.len()); match r.below(3) { 0 => b[i] = r.below(256) as u8, 1 => b.insert(i, 128 + r.below(128) as u8), _ => { b.remove(i); } } }
        }
        let dir = std::env::temp_dir().join(format!("folia-oracle-{}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let f = dir.join("x.folia.xml");
        std::fs::write(&f, &b).map_err(|e| e.to_string())?;
        let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Document::from_file(f.to_str().unwrap(), DocumentProperties::default())));
        let _ = std::fs::remove_file(&f);
        let _ = std::fs::remove_dir(&dir);
        c.log(Str::from_utf8_lossy(&b).into_owned());
        match d { Ok(Ok(d)) => sane(&sp, &d)?, Ok(Err(_)) => {} Err(p) => std::panic::resume_unwind(p) }
        Ok(())
    });
}
