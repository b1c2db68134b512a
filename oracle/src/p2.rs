use crate::model::*;
use crate::spec::{self, Specs};
use crate::util::*;
use folia::*;
use std::collections::HashSet;

fn is_element(d: &DataType) -> Option<usize> { if let DataType::Element(k) = d { Some(*k as usize) } else { None } }

// ------------------------------------------------------------------ C05
fn same_shape(doc: &Document, raw: &Raw, k: usize, g: &G) -> Res {
    eq!(raw.n[k].et, g.et, "type of element {}", k);
    let data: Vec<&DataType> = raw.n[k].data.iter().filter(|d| !matches!(d, DataType::SpanReference(_))).collect();
    eq!(data.len(), g.kids.len(), "number of data items of new element {} ({})", k, g.show());
    for (d, x) in data.iter().zip(g.kids.iter()) {
        match (d, x) {
            (DataType::Element(c), GK::N(x)) => { eq!(raw.n[*c as usize].parent, Some(k), "parent of nested new element {}", c); same_shape(doc, raw, *c as usize, x)? }
            (DataType::Text(a), GK::T(b)) | (DataType::Comment(a), GK::C(b)) => eq!(a, b, "data item of {}", k),
            (d, _) => return Err(format!("data item {:?} of {} out of order in {}", d, k, g.show())),
        }
    }
    Ok(())
}
fn nospan(raw: &Raw) -> Raw { let mut r = raw.clone(); for n in &mut r.n { n.data.retain(|d| !matches!(d, DataType::SpanReference(_))); } r }

#[derive(Debug)]
enum Plan { New(Vec<Plan>), Old(usize), Text(String) }
/// a new element with new and existing children, texts; ok: whether it can be added below something that is, or is below, the elements in up
fn planned(r: &mut Rng, n: usize, up: &HashSet<usize>, depth: usize, plan: &mut Vec<Plan>, ok: &mut bool, used: &mut HashSet<usize>) -> ElementData {
    let mut e = ElementData::new(*r.pick(&[ElementType::Division, ElementType::Paragraph, ElementType::Quote]));
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 | 1 if depth > 0 => { let mut sub = vec![]; e = e.add_element(planned(r, n, up, depth - 1, &mut sub, ok, used)); plan.push(Plan::New(sub)); }
            0..=2 => {
                let k = if r.chance(1, 15) { n + r.below(3) } else { r.below(n) };
                if k == 0 || !used.insert(k) || (up.contains(&k) && r.chance(3, 4)) { continue; }
                if k >= n || up.contains(&k) { *ok = false; }
                e = e.with(DataType::Element(k as u32)); plan.push(Plan::Old(k));
            }
            _ => { let t = format!("t{}", r.below(9)); e = e.with(DataType::Text(t.clone())); plan.push(Plan::Text(t)); }
        }
    }
    e
}
fn place(after: &Raw, m: &mut Raw, k: usize, parent: Option<usize>, plan: &[Plan]) -> Res {
    m.n[k].parent = parent;
    for p in plan {
        // what has been taken out again by something later in the plan can not be read off: everything is used once
        let at = m.n[k].data.len();
        match p {
            Plan::Text(t) => m.n[k].data.push(DataType::Text(t.clone())),
            Plan::Old(c) => { if let Some(o) = m.n[*c].parent { m.n[o].data.retain(|d| is_element(d) != Some(*c)); } m.n[*c].parent = Some(k); m.n[k].data.push(DataType::Element(*c as u32)); }
            Plan::New(sub) => {
                let c = after.n[k].data.get(at).and_then(is_element).ok_or_else(|| format!("data item {} of new element {} is {:?}, not a new element", at, k, after.n[k].data.get(at)))?;
                ensure!(m.n[c].data.is_empty() && m.n[c].parent.is_none(), "data item {} of new element {} is not a new element", at, k);
                place(after, m, c, Some(k), sub)?;
                m.n[k].data.push(DataType::Element(c as u32));
            }
        }
    }
    Ok(())
}

pub fn c05(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("adding, attaching and detaching", 400, 20000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        let mut doc = new_doc();
        let mut m = nospan(&Raw::of(&doc));
        for _ in 0..c.rng.range(2, 40) {
            let n = m.n.len();
            let k = c.rng.below(n);
            match c.rng.below(13) {
                12 => {
                    // new elements with existing ones among their children
                    let parent = if c.rng.chance(1, 4) { None } else { Some(k) };
                    let mut up: HashSet<usize> = HashSet::new();
                    if let Some(p) = parent { up.insert(p); up.extend(m.ancestors(p)); }
                    let mut plan: Vec<Plan> = vec![];
                    let mut ok = true;
                    let mut used: HashSet<usize> = HashSet::new();
                    let e = planned(&mut c.rng, n, &up, 3, &mut plan, &mut ok, &mut used);
                    c.log(format!("add {:?} below {:?}", e, parent));
                    let before = Raw::of(&doc);
                    let r = match parent { Some(p) => doc.add_element_to(p as u32, e), None => doc.add_element(e) };
                    if !ok {
                        ensure!(r.is_err(), "adding an element with children that do not exist, or that it would be below of, succeeds");
                        eq!(Raw::of(&doc), before, "document after a refused element");
                        continue;
                    }
                    let top = r.map_err(|e| format!("adding an element with existing children: {}", e))? as usize;
                    let after = nospan(&Raw::of(&doc));
                    ensure!(after.n.len() >= n + 1, "nothing was added");
                    m.n.resize(after.n.len(), after.n[n].clone());
                    for i in n..after.n.len() { m.n[i].data.clear(); m.n[i].parent = None; m.n[i].et = after.n[i].et; m.n[i].attribs = after.n[i].attribs.clone(); }
                    // replay in the order in which things are given; where a new element went is read off its place
                    place(&after, &mut m, top, parent, &plan)?;
                    if let Some(p) = parent { m.n[p].data.push(DataType::Element(top as u32)); }
                }
                0..=5 => {
                    // a new element, possibly with nested new elements, under any parent or none
                    let parent = if c.rng.chance(1, 10) { None } else { Some(k) };
                    let acc: Vec<ElementType> = sp.accepted(m.n[k].et).into_iter().filter(|e| gen.usable(*e, m.n[k].et, false)).collect();
                    let et = if acc.is_empty() || c.rng.chance(1, 4) { *c.rng.pick(&[ElementType::Word, ElementType::Sentence, ElementType::Paragraph]) } else { *c.rng.pick(&acc) };
                    if parent.is_none() && sp.in_group(et, "SpanRole") { continue; } // a word reference needs a span around it
                    if et == ElementType::Feature && (parent.is_none() || sp.get(m.n[k].et).at.is_none()) { continue; }
                    let mut b = c.rng.below(12);
                    let words = gen.words.clone();
                    let g = gen.tree(&mut c.rng, et, 4, &mut b, false);
                    // a feature of something that was never declared gets its parent's default, always possible
                    c.log(format!("add {} below {:?}", g.show(), parent));
                    let before = Raw::of(&doc);
                    let bad = c.rng.chance(1, 15);
                    let r = match parent {
                        _ if bad => { gen.words = words; let r = doc.add_element_to((n + c.rng.below(5)) as u32, g.to_data()); ensure!(r.is_err(), "adding below a parent that does not exist succeeds"); eq!(Raw::of(&doc), before, "document after adding below a parent that does not exist"); continue; }
                        Some(p) => if sp.accepts(m.n[p].et, et) && !sp.in_group(et, "Span") && c.rng.chance(1, 2) { doc.annotate(p as u32, g.to_data()) } else { doc.add_element_to(p as u32, g.to_data()) },
                        None => doc.add_element(g.to_data()),
                    };
                    let top = r.map_err(|e| format!("adding {}: {}", g.show(), e))? as usize;
                    let after = nospan(&Raw::of(&doc));
                    eq!(after.n.len(), n + g.size(), "number of elements after adding {}", g.show());
                    eq!(after.n[top].parent, parent, "parent of the new element");
                    same_shape(&doc, &after, top, &g)?;
                    if let Some(p) = parent { m.n[p].data.push(DataType::Element(top as u32)); }
                    for i in 0..n { eq!(after.n[i], m.n[i], "element {} after adding {} below {:?}", i, g.show(), parent); }
                    m = after;
                }
                6..=8 => {
                    let p = c.rng.below(n);
                    let bad = c.rng.chance(1, 8);
                    let before = Raw::of(&doc);
                    if bad {
                        let (a, b) = if c.rng.chance(1, 2) { (n + c.rng.below(3), k) } else { (p, n + c.rng.below(3)) };
                        c.log(format!("attach {} to {}, one of which does not exist", b, a));
                        ensure!(doc.attach_element(a as u32, b as u32).is_err(), "attaching {} to {} succeeds", b, a);
                        eq!(Raw::of(&doc), before, "document after a failed attach");
                        continue;
                    }
                    if k == p || m.ancestors(p).contains(&k) {
                        // would be a cycle
                        c.log(format!("attach {} to {}, which is below it", k, p));
                        ensure!(doc.attach_element(p as u32, k as u32).is_err(), "attaching {} to {}, which is below it, succeeds", k, p);
                        eq!(Raw::of(&doc), before, "document after a failed attach");
                        continue;
                    }
                    if k == 0 { continue; }
                    c.log(format!("attach {} to {} (was {:?})", k, p, m.n[k].parent));
                    doc.attach_element(p as u32, k as u32).map_err(|e| e.to_string())?;
                    if let Some(o) = m.n[k].parent { m.n[o].data.retain(|d| is_element(d) != Some(k)); }
                    m.n[p].data.push(DataType::Element(k as u32));
                    m.n[k].parent = Some(p);
                }
                _ => {
                    if c.rng.chance(1, 8) {
                        let before = Raw::of(&doc);
                        c.log(format!("detach {}, which does not exist", n));
                        ensure!(doc.detach_element(n as u32).is_err(), "detaching an element that does not exist succeeds");
                        eq!(Raw::of(&doc), before, "document after a failed detach");
                        continue;
                    }
                    c.log(format!("detach {} (from {:?})", k, m.n[k].parent));
                    doc.detach_element(k as u32).map_err(|e| e.to_string())?;
                    if let Some(o) = m.n[k].parent { m.n[o].data.retain(|d| is_element(d) != Some(k)); }
                    m.n[k].parent = None;
                }
            }
            let raw = Raw::of(&doc);
            raw.consistent()?;
            let raw = nospan(&raw);
            for i in 0..raw.n.len() { eq!(raw.n[i], m.n[i], "element {}", i); }
            // what users see of it
            for _ in 0..3 {
                let k = c.rng.below(raw.n.len());
                let e = doc.get_element(k as u32).ok_or("element is gone")?;
                eq!(e.parent_key().map(|p| p as usize), raw.n[k].parent, "parent_key");
                eq!(e.get_parent().and_then(|p| p.key()).map(|p| p as usize), raw.n[k].parent, "get_parent");
                let all = edata(&doc, raw.n[k].parent.unwrap_or(0) as u32).map(|p| (0..p.len()).position(|i| p.get_data_at(i).and_then(is_element) == Some(k))).unwrap();
                eq!(e.get_index(), raw.n[k].parent.and(all), "get_index of {}", k);
            }
        }
        Ok(())
    });
    cx.family("nested new elements", 150, 6000, |c| {
        // with references to words among them
        let mut gen = Gen::new(&sp);
        let (doc, body) = random_doc(&mut c.rng, &mut gen, 40, false)?;
        c.log(body.show());
        let raw = Raw::of(&doc);
        raw.consistent()?;
        same_shape(&doc, &nospan(&raw), 0, &body)
    });
}

// ------------------------------------------------------------------ C06
fn rec_eval(sp: &Specs, r: &Recursion, et: ElementType) -> bool {
    let hit = |v: &Vec<AcceptedData>| v.iter().any(|a| match a { AcceptedData::AcceptElementType(t) => *t == et, AcceptedData::AcceptElementGroup(g) => sp.in_group(et, spec::gname(*g)) });
    match r { Recursion::No => false, Recursion::Always => true, Recursion::LimitedTo(v) => hit(v), Recursion::ExceptFor(v) => !hit(v) }
}
type Hit = (DataType, usize, usize, usize);
fn naive(sp: &Specs, raw: &Raw, k: usize, depth: usize, m: &dyn Fn(&DataType) -> bool, rec: &Recursion, o: &mut Vec<Hit>) {
    for (i, d) in raw.n[k].data.iter().enumerate() {
        if m(d) { o.push((d.clone(), k, i, depth)); }
        if let DataType::Element(c) = d { if rec_eval(sp, rec, raw.n[k].et) { naive(sp, raw, *c as usize, depth + 1, m, rec, o); } }
    }
}
fn rand_rec(sp: &Specs, r: &mut Rng) -> Recursion {
    let acc = |r: &mut Rng| (0..r.range(0, 4)).map(|_| if r.chance(1, 2) { { let any = r_any(sp, r); AcceptedData::AcceptElementType(*r.pick(&[ElementType::Text, ElementType::Paragraph, ElementType::Sentence, ElementType::Word, ElementType::TextContent, ElementType::EntitiesLayer, any])) } } else { AcceptedData::AcceptElementGroup(r.pick(spec::GROUPS).1) }).collect::<Vec<_>>();
    match r.below(6) { 0 => Recursion::No, 1 => Recursion::LimitedTo(acc(r)), 2 => Recursion::ExceptFor(acc(r)), _ => Recursion::Always }
}
fn r_any(sp: &Specs, r: &mut Rng) -> ElementType { r.pick(&sp.v).et }
fn rand_sel(sp: &Specs, raw: &Raw, r: &mut Rng) -> (Selector, String, Box<dyn Fn(&Specs, &Raw, &DataType) -> bool>) {
    let et = if r.chance(1, 2) { Some(if r.chance(5, 6) { raw.n[r.below(raw.n.len())].et } else { r_any(sp, r) }) } else { None };
    let g = if et.is_none() && r.chance(1, 2) { Some(*r.pick(spec::GROUPS)) } else { None };
    let kinds = [[true, false, false], [true, true, false], [true, false, true], [true, true, true], [false, true, false], [false, false, true], [false, true, true]][r.below(7)];
    let mut s = Selector::default();
    if kinds[0] { s = s.with_elements() }
    if kinds[1] { s = s.with_text() }
    if kinds[2] { s = s.with_comments() }
    if let Some(e) = et { s = s.element(Cmp::Is(e)) }
    if let Some((_, g)) = g { s = s.elementgroup(Cmp::Is(g)) }
    let d = format!("selector elements/text/comments={:?} type={:?} group={:?}", kinds, et.map(spec::variant), g.map(|g| g.0));
    let gn = g.map(|g| g.0);
    (s, d, Box::new(move |sp, raw, d| match d {
        DataType::Element(k) | DataType::SpanReference(k) => kinds[0] && et.map(|e| raw.n[*k as usize].et == e).unwrap_or(true) && gn.map(|g| sp.in_group(raw.n[*k as usize].et, g)).unwrap_or(true),
        DataType::Text(_) => kinds[1], DataType::Comment(_) => kinds[2], _ => false,
    }))
}
fn dedup_spans(sp: &Specs, raw: &Raw, v: Vec<Hit>) -> Vec<Hit> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|(d, _, _, _)| match d {
        DataType::SpanReference(k) => seen.insert(*k),
        DataType::Element(k) if sp.in_group(raw.n[*k as usize].et, "Span") => seen.insert(*k),
        _ => true,
    }).collect()
}
pub fn c06(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("selections", 300, 20000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        let size = c.rng.range(3, 80);
        let (doc, body) = random_doc(&mut c.rng, &mut gen, size, false)?;
        let raw = Raw::of(&doc);
        c.log(body.show());
        for _ in 0..25 {
            let root = if c.rng.chance(1, 2) { 0 } else { c.rng.below(raw.n.len()) };
            let (sel, desc, m) = rand_sel(&sp, &raw, &mut c.rng);
            let rec = rand_rec(&sp, &mut c.rng);
            let (inclusive, spans) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
            let what = format!("{} below {} recursion {:?} inclusive {} spanreferences {}", desc, root, rec, inclusive, spans);
            c.log(what.clone());
            let mm = |d: &DataType| m(&sp, &raw, d);
            let mut exp: Vec<Hit> = vec![];
            naive(&sp, &raw, root, 1, &mm, &rec, &mut exp);
            if spans { exp = dedup_spans(&sp, &raw, exp); }
            let me = DataType::Element(root as u32);
            let first = inclusive && mm(&me);
            if first { exp.insert(0, (me.clone(), raw.n[root].parent.unwrap_or(root), 0, 0)); }
            let got: Vec<Hit> = doc.select_data_by_key(root as u32, sel.clone(), rec.clone(), inclusive, spans).take(exp.len() + 50).map(|i| (i.data.clone(), i.parent_key as usize, i.cursor, i.depth)).collect();
            for (i, (a, b)) in got.iter().zip(exp.iter()).enumerate() { if !(i == 0 && first && (&a.0, a.1, a.3) == (&b.0, b.1, b.3)) { eq!(a, b, "item {} (data, parent, position, depth) of {}", i, what); } }
            eq!(got.len(), exp.len(), "number of items of {}", what);
            // the same through the other entrances
            let e = doc.get_element(root as u32).unwrap();
            let keys = |v: &[Hit]| v.iter().filter_map(|h| match h.0 { DataType::Element(k) | DataType::SpanReference(k) => Some(k as usize), _ => None }).collect::<Vec<_>>();
            let g: Vec<usize> = doc.select_by_key(root as u32, sel.clone(), rec.clone(), inclusive, spans).map(|e| e.key().unwrap() as usize).collect();
            eq!(g, keys(&exp), "elements of {}", what);
            let mut all: Vec<Hit> = vec![];
            naive(&sp, &raw, root, 1, &mm, &rec, &mut all);
            let ded = dedup_spans(&sp, &raw, all.clone());
            let g: Vec<usize> = e.select(sel.clone(), rec.clone()).map(|e| e.key().unwrap() as usize).collect();
            eq!(g, keys(&ded), "Element::select {}", what);
            let g = e.select_data(sel.clone(), rec.clone(), false).count();
            eq!(g, all.len(), "Element::select_data {}", what);
            let g: Vec<Hit> = e.select_data_by_key(root as u32, sel.clone(), rec.clone(), false, true).map(|i| (i.data.clone(), i.parent_key as usize, i.cursor, i.depth)).collect();
            eq!(g, ded, "Element::select_data_by_key {}", what);
            if root == 0 {
                let g: Vec<usize> = doc.select(sel.clone(), rec.clone()).map(|e| e.key().unwrap() as usize).collect();
                eq!(g, keys(&ded), "Document::select {}", what);
                eq!(doc.select_data(sel.clone(), rec.clone(), true).count(), ded.len(), "Document::select_data {}", what);
            }
        }
        Ok(())
    });
    cx.family("annotations of an element", 100, 5000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        let (doc, body) = random_doc(&mut c.rng, &mut gen, 60, false)?;
        let raw = Raw::of(&doc);
        c.log(body.show());
        for _ in 0..20 {
            let k = c.rng.below(raw.n.len());
            let et = raw.n[c.rng.below(raw.n.len())].et;
            let rec = rand_rec(&sp, &mut c.rng);
            let mut exp = vec![];
            naive(&sp, &raw, k, 1, &|d| matches!(d, DataType::Element(x) | DataType::SpanReference(x) if raw.n[*x as usize].et == et), &rec, &mut exp);
            let exp: Vec<u32> = dedup_spans(&sp, &raw, exp).iter().filter_map(|h| match h.0 { DataType::Element(k) | DataType::SpanReference(k) => Some(k), _ => None }).collect();
            let e = doc.get_element(k as u32).unwrap();
            c.log(format!("{} below {} {:?}", spec::variant(et), k, rec));
            let got: Vec<u32> = e.get_elements(et, Cmp::Any, rec.clone()).map(|e| e.key().unwrap()).collect();
            eq!(got, exp, "get_elements({})", spec::variant(et));
            eq!(e.get_element(et, Cmp::Any, rec.clone()).and_then(|e| e.key()), exp.get(0).cloned(), "get_element({})", spec::variant(et));
            // in a set
            let set = match c.rng.below(5) { 0 => Cmp::None, 1 => Cmp::Some, 2 => Cmp::Is("unheard/of".to_string()), _ => { let x = c.rng.below(raw.n.len()) as u32; doc.get_element(x).unwrap().set().map(|s| Cmp::Is(s.to_string())).unwrap_or(Cmp::None) } };
            let at = sp.get(et).at;
            let in_set = |k: &u32| { let f = doc.get_element(*k).unwrap(); match (&set, f.declaration_key().and_then(|d| doc.get_declaration(d))) { (Cmp::Some, d) => d.is_some(), (Cmp::None, Some(d)) => Some(d.annotationtype) == at && d.set.is_none(), (Cmp::Is(s), Some(d)) => Some(d.annotationtype) == at && d.set.as_ref() == Some(s), _ => false } };
            let with: Vec<u32> = exp.iter().cloned().filter(in_set).collect();
            let got: Vec<u32> = e.get_elements(et, set.clone(), rec.clone()).map(|e| e.key().unwrap()).collect();
            eq!(got, with, "get_elements({}, {:?})", spec::variant(et), set);
            eq!(e.get_element(et, set.clone(), rec.clone()).and_then(|e| e.key()), with.get(0).cloned(), "get_element({}, {:?})", spec::variant(et), set);
            if let Some(at) = spec::ANNOTATIONTYPES.iter().map(|x| x.0).find(|a| sp.main[a] == et) {
                let got: Vec<u32> = e.get_annotations(at, Cmp::Any, rec.clone()).map(|e| e.key().unwrap()).collect();
                eq!(got, exp, "get_annotations({:?})", at);
                let got: Vec<u32> = e.get_annotations(at, set.clone(), rec.clone()).map(|e| e.key().unwrap()).collect();
                eq!(got, with, "get_annotations({:?}, {:?})", at, set);
                eq!(e.get_annotation(at, Cmp::Any, rec.clone()).and_then(|e| e.key()), exp.get(0).cloned(), "get_annotation({:?})", at);
            }
        }
        Ok(())
    });
    cx.family("which keys were returned already", 300, 20000, |c| {
        let doc = new_doc();
        let mut it = doc.select_data(Selector::all_data(), Recursion::Always, true);
        let mut seen = HashSet::new();
        let max = *c.rng.pick(&[3, 20, 200, 3000]);
        let dir = c.rng.below(3);
        for i in 0..c.rng.range(1, 120) {
            let k = match dir { 0 => c.rng.below(max), 1 => (max * 2).saturating_sub(i * c.rng.range(0, 3)), _ => i * c.rng.range(0, 3) } as u32;
            c.log(format!("{}", k));
            eq!(it.already_returned(k), !seen.insert(k), "already_returned({})", k);
        }
        Ok(())
    });
    cx.family("many items", 5, 5, |c| {
        let index = c.index;
        c.log(format!("many items {}", index));
        // on a stack of ordinary size
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || -> Res {
            let mut doc = new_doc();
            let e = |r: Result<u32, FoliaError>| r.map_err(|e| e.to_string());
            match index {
                0 => { // many elements that do not match
                    let p = e(doc.add_element_to(0, ElementData::new(ElementType::Paragraph)))?;
                    for _ in 0..120_000 { e(doc.add_element_to(p, ElementData::new(ElementType::Linebreak)))?; }
                    eq!(doc.select(Selector::elements().element(Cmp::Is(ElementType::Word)), Recursion::Always).count(), 0, "words");
                    eq!(doc.select(Selector::elements().element(Cmp::Is(ElementType::Linebreak)), Recursion::Always).count(), 120_000, "linebreaks");
                }
                1 => { // many data items that are no elements
                    let p = e(doc.add_element_to(0, ElementData::new(ElementType::Paragraph)))?;
                    let mut d = ElementData::new(ElementType::TextContent);
                    for _ in 0..150_000 { d.push(DataType::Text("x".into())); }
                    e(doc.add_element_to(p, d))?;
                    eq!(doc.select(Selector::all_data(), Recursion::Always).count(), 2, "elements among much text");
                    eq!(doc.select_data(Selector::all_data(), Recursion::Always, false).count(), 150_002, "data items");
                }
                2 => { // many references to the same span
                    let p = e(doc.add_element_to(0, ElementData::new(ElementType::Sentence)))?;
                    e(doc.add_element_to(p, ElementData::new(ElementType::Word).with_attrib(Attribute::Id("w".into()))))?;
                    let l = e(doc.add_element_to(p, ElementData::new(ElementType::EntitiesLayer)))?;
                    let mut d = ElementData::new(ElementType::Entity);
                    for _ in 0..60_000 { d = d.add_element(ElementData::new(ElementType::WordReference).with_attrib(Attribute::Idref("w".into()))); }
                    e(doc.add_element_to(l, d))?;
                    eq!(doc.select(Selector::elements().element(Cmp::Is(ElementType::Entity)), Recursion::Always).count(), 1, "entities");
                }
                3 => { // very deep
                    let mut k = 0;
                    for _ in 0..60_000 { k = e(doc.add_element_to(k, ElementData::new(ElementType::Division)))?; }
                    eq!(doc.select(Selector::elements().element(Cmp::Is(ElementType::Word)), Recursion::Always).count(), 0, "words");
                    eq!(doc.select_data(Selector::all_data(), Recursion::Always, false).last().map(|i| (i.depth, i.parent_key)), Some((60_000, k - 1)), "deepest item");
                }
                _ => { // wide and deep, one match
                    let mut k = 0;
                    for i in 0..200 { for _ in 0..300 { e(doc.add_element_to(k, ElementData::new(ElementType::Linebreak)))?; } k = e(doc.add_element_to(k, ElementData::new(ElementType::Division)))?; if i == 199 { e(doc.add_element_to(k, ElementData::new(ElementType::Sentence)))?; } }
                    eq!(doc.select(Selector::elements().element(Cmp::Is(ElementType::Sentence)), Recursion::Always).count(), 1, "sentences");
                }
            }
            Ok(())
        }).unwrap().join().map_err(|_| "panic".to_string())?
    });
}

// ------------------------------------------------------------------ C07
fn cmp_ok<T: PartialEq + std::fmt::Debug>(c: &Cmp<T>, v: Option<T>) -> bool { match c { Cmp::Any => true, Cmp::Is(x) => v.as_ref() == Some(x), Cmp::Some => v.is_some(), Cmp::None => v.is_none(), Cmp::Unmatchable => false } }
/// Does the element satisfy the query? In terms of what it reads back as.
fn satisfies(doc: &Document, sp: &Specs, raw: &Raw, q: &Query, k: usize) -> bool {
    let n = &raw.n[k];
    let dk = n.attribs.iter().find_map(|a| if let Attribute::DeclarationRef(x) = a { Some(*x) } else { None });
    let ck = n.attribs.iter().find_map(|a| if let Attribute::ClassRef(x) = a { Some(*x) } else { None });
    let sk = n.attribs.iter().find_map(|a| if let Attribute::SubsetRef(x) = a { Some(*x) } else { None });
    let pk = n.attribs.iter().find_map(|a| if let Attribute::ProcessorRef(x) = a { Some(*x) } else { None });
    let d = dk.and_then(|x| doc.get_declaration(x));
    let subset = d.and_then(|d| sk.and_then(|s| d.get_subset(s))).map(String::from);
    let class = d.and_then(|d| ck.and_then(|c| if sk.is_some() { d.get_subclass(c) } else { d.get_class(c) })).map(String::from);
    let p = pk.and_then(|p| doc.get_processor(p));
    let annotator = p.map(|p| p.name.clone()).or_else(|| n.attribs.iter().find_map(|a| if let Attribute::Annotator(s) = a { Some(s.clone()) } else { None }));
    let annotatortype = p.map(|p| p.processortype).or_else(|| n.attribs.iter().find_map(|a| if let Attribute::AnnotatorType(s) = a { Some(*s) } else { None }));
    let confidence = n.attribs.iter().find_map(|a| if let Attribute::Confidence(s) = a { Some(*s) } else { None });
    let source = if matches!(q.subset, Cmp::Some | Cmp::Is(_)) || (matches!(q.elementtype, Cmp::Is(ElementType::Feature)) && matches!(q.contexttype, Cmp::Is(_))) { &q.contexttype } else { &q.elementtype };
    let at = if let Cmp::Is(e) = source { sp.get(*e).at } else { None };
    (match &q.set { Cmp::Any => true, Cmp::Some => d.is_some(), Cmp::Is(s) => d.map(|d| d.set.as_ref() == Some(s) && Some(d.annotationtype) == at).unwrap_or(false), Cmp::None => d.map(|d| d.set.is_none() && Some(d.annotationtype) == at).unwrap_or(false), _ => false })
        && cmp_ok(&q.elementtype, Some(n.et)) && (match q.elementgroup { Cmp::Is(g) => sp.in_group(n.et, spec::gname(g)), Cmp::Any | Cmp::Some => true, _ => false })
        && cmp_ok(&q.class, class) && cmp_ok(&q.subset, subset) && cmp_ok(&q.processor, p.map(|p| p.id.clone())) && cmp_ok(&q.annotator, annotator) && cmp_ok(&q.annotatortype, annotatortype) && cmp_ok(&q.confidence, confidence)
}
fn rand_query(doc: &Document, sp: &Specs, raw: &Raw, r: &mut Rng) -> (Query, String) {
    // near some element, so that there is something to match
    let k = r.below(raw.n.len());
    let n = &raw.n[k];
    let e = doc.get_element(k as u32).unwrap();
    let (mut q, mut d) = (Query::select(), vec![]);
    let feature = n.et == ElementType::Feature && n.parent.is_some() && r.chance(3, 4);
    fn some_none<T: std::fmt::Debug>(r: &mut Rng) -> Cmp<T> { match r.below(6) { 0 => Cmp::Some, 1 => Cmp::None, 2 => Cmp::Unmatchable, _ => Cmp::Any } }
    macro_rules! set { ($m:ident, $v:expr) => {{ let v = $v; d.push(format!("{}={:?}", stringify!($m), v)); q = q.$m(v); }} }
    if feature { set!(element, Cmp::Is(ElementType::Feature)); set!(contexttype, Cmp::Is(raw.n[n.parent.unwrap()].et)); }
    else if r.chance(3, 4) { set!(element, Cmp::Is(if r.chance(9, 10) { n.et } else { r_any(sp, r) })); }
    if r.chance(1, 6) { set!(elementgroup, Cmp::Is(r.pick(spec::GROUPS).1)); }
    let typed = matches!(q.elementtype, Cmp::Is(_));
    let mut has_set = false;
    if typed && r.chance(2, 3) || feature {
        let s: Cmp<String> = match (e.set(), r.below(8)) { (_, 0) if !feature => Cmp::Some, (_, 1) if !feature => Cmp::Any, (_, 2) => Cmp::Is("unheard/of".into()), (Some(s), _) => Cmp::Is(s.into()), (None, _) => Cmp::None };
        // a set of a type without annotation type can not be had
        has_set = matches!(s, Cmp::Is(_) | Cmp::None);
        set!(set, s);
    } else if r.chance(1, 10) { set!(set, Cmp::Some); }
    if feature { let v = match r.below(6) { 0 => Cmp::Some, 1 => Cmp::Any, 2 => Cmp::Is("none such".to_string()), _ => e.subset().map(|s| Cmp::Is(s.to_string())).unwrap_or(Cmp::Any) }; if !matches!(v, Cmp::Any) { set!(subset, v); } }
    else if r.chance(1, 8) && !feature { set!(subset, some_none(r)); if !matches!(q.subset, Cmp::Any | Cmp::None | Cmp::Unmatchable) { q.subset = Cmp::None; d.push("subset=None".into()); } }
    if has_set && r.chance(2, 3) { let other = doc.get_element(r.below(raw.n.len()) as u32).and_then(|x| x.class().map(String::from)).unwrap_or_else(|| "none such".into()); let v = match (e.class(), r.below(8)) { (_, 0) => Cmp::Is("none such".to_string()), (_, 1 | 2) => Cmp::Is(other), (Some(c), _) => Cmp::Is(c.to_string()), _ => some_none(r) }; set!(class, v); }
    else if r.chance(1, 5) { set!(class, some_none(r)); }
    if r.chance(1, 4) { let v = match (e.processor(), r.below(4)) { (_, 0) => Cmp::Is("none such".to_string()), (Some(c), 1 | 2) => Cmp::Is(c.to_string()), _ => some_none(r) }; set!(processor, v); }
    if r.chance(1, 4) { let v = match (e.annotator(), r.below(4)) { (_, 0) => Cmp::Is("none such".to_string()), (Some(c), 1 | 2) => Cmp::Is(c.to_string()), _ => some_none(r) }; set!(annotator, v); }
    if r.chance(1, 4) { let v = match (e.annotatortype(), r.below(4)) { (_, 0) => Cmp::Is(ProcessorType::DataSource), (Some(c), 1 | 2) => Cmp::Is(c), _ => some_none(r) }; set!(annotatortype, v); }
    if r.chance(1, 4) { let c = n.attribs.iter().find_map(|a| if let Attribute::Confidence(s) = a { Some(*s) } else { None }); let v = match (c, r.below(4)) { (_, 0) => Cmp::Is(0.123), (Some(c), 1 | 2) => Cmp::Is(c), _ => some_none(r) }; set!(confidence, v); }
    (q, d.join(" "))
}
pub fn c07(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("queries", 250, 15000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = c.rng.chance(1, 3);
        let (doc, body) = random_doc(&mut c.rng, &mut gen, 60, false)?;
        let raw = Raw::of(&doc);
        c.log(body.show());
        let mut qs: Vec<(Query, Selector, String)> = vec![];
        for _ in 0..30 {
            let (q, d) = rand_query(&doc, &sp, &raw, &mut c.rng);
            c.log(d.clone());
            let s = Selector::from_query(&doc, &q).map_err(|e| format!("compiling {}: {}", d, e))?;
            for k in 0..raw.n.len() {
                let x = satisfies(&doc, &sp, &raw, &q, k);
                eq!(s.matches(&doc, &DataType::Element(k as u32)), x, "query {} on element {} {:?}", d, k, raw.n[k]);
                if k % 7 == 0 { eq!(s.matches(&doc, &DataType::SpanReference(k as u32)), x, "query {} on a reference to {}", d, k); }
            }
            ensure!(!s.matches(&doc, &DataType::Element(raw.n.len() as u32)), "query {} matches an element that does not exist", d);
            eq!(s.clone().with_text().matches(&doc, &DataType::Text("x".into())), true, "text");
            eq!(s.matches(&doc, &DataType::Text("x".into())), false, "text against an element query");
            eq!(s.clone().with_comments().matches(&doc, &DataType::Comment("x".into())), true, "comment");
            qs.push((q, s, d));
        }
        // unions
        for _ in 0..15 {
            let n = c.rng.range(2, 5);
            let pick: Vec<usize> = (0..n).map(|_| c.rng.below(qs.len())).collect();
            // built from the left or nested
            let mut u = qs[pick[0]].1.clone();
            if c.rng.chance(1, 2) { for i in &pick[1..] { u = u.and(qs[*i].1.clone()); } }
            else { let mut t = qs[pick[n - 1]].1.clone(); for i in pick[1..n - 1].iter().rev() { t = qs[*i].1.clone().and(t); } u = u.and(t); }
            let names = pick.iter().map(|i| qs[*i].2.as_str()).collect::<Vec<_>>().join(" | ");
            let mut exp = vec![];
            for k in 0..raw.n.len() {
                let x = pick.iter().any(|i| satisfies(&doc, &sp, &raw, &qs[*i].0, k));
                eq!(u.matches(&doc, &DataType::Element(k as u32)), x, "union {} on element {}", names, k);
                if x && k > 0 { exp.push(k); }
            }
            // and what is selected with it
            let mut got: Vec<usize> = doc.select_by_key(0, u, Recursion::Always, false, false).map(|e| e.key().unwrap() as usize).collect();
            got.sort(); got.dedup();
            let below: HashSet<usize> = (1..raw.n.len()).filter(|k| raw.ancestors(*k).contains(&0)).collect();
            exp.retain(|k| below.contains(k));
            eq!(got, exp, "selection with the union {}", names);
        }
        Ok(())
    });
    cx.family("comparisons", 1, 1, |c| {
        c.log("Cmp::matches".into());
        for v in &[None, Some(0), Some(1)] { for q in &[Cmp::Any, Cmp::Some, Cmp::None, Cmp::Unmatchable, Cmp::Is(0), Cmp::Is(1)] { eq!(q.matches(v.as_ref()), cmp_ok(q, *v), "{:?} against {:?}", q, v); } }
        Ok(())
    });
    cx.family("criteria of a query", 1, 1, |c| {
        c.log("each criterion ends up where it belongs, and only there".into());
        let q = || Query::select();
        let show = |q: &Query| vec![format!("{:?}", q.elementtype), format!("{:?}", q.contexttype), format!("{:?}", q.elementgroup), format!("{:?}", q.set), format!("{:?}", q.class), format!("{:?}", q.processor), format!("{:?}", q.annotator), format!("{:?}", q.annotatortype), format!("{:?}", q.subset), format!("{:?}", q.confidence)];
        let s = |x: &str| Cmp::Is(x.to_string());
        let v: Vec<(&str, Query, usize, String)> = vec![
            ("element", q().element(Cmp::Is(ElementType::Word)), 0, format!("{:?}", Cmp::Is(ElementType::Word))), ("contexttype", q().contexttype(Cmp::Is(ElementType::Word)), 1, format!("{:?}", Cmp::Is(ElementType::Word))),
            ("elementgroup", q().elementgroup(Cmp::Is(ElementGroup::Span)), 2, format!("{:?}", Cmp::Is(ElementGroup::Span))), ("set", q().set(s("x")), 3, format!("{:?}", s("x"))), ("class", q().class(s("x")), 4, format!("{:?}", s("x"))),
            ("processor", q().processor(s("x")), 5, format!("{:?}", s("x"))), ("annotator", q().annotator(s("x")), 6, format!("{:?}", s("x"))), ("annotatortype", q().annotatortype(Cmp::Is(ProcessorType::Manual)), 7, format!("{:?}", Cmp::Is(ProcessorType::Manual))),
            ("subset", q().subset(s("x")), 8, format!("{:?}", s("x"))), ("confidence", q().confidence(Cmp::Is(0.5)), 9, format!("{:?}", Cmp::Is(0.5)))];
        let empty = show(&q());
        for f in &empty { eq!(f, "Any", "criterion of the empty query"); }
        for (n, q, i, want) in v { let mut e = empty.clone(); e[i] = want; eq!(show(&q), e, "query with {}", n); }
        Ok(())
    });
    cx.family("features of an element", 80, 4000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        let (mut doc, body) = random_doc(&mut c.rng, &mut gen, 50, false)?;
        c.log(body.show());
        // make sure there are some
        for k in 0..nelem(&doc) {
            let et = edata(&doc, k as u32).unwrap().elementtype;
            let dec = doc.get_element(k as u32).unwrap().declaration_key();
            if dec.is_some() && sp.get(et).at.is_some() && sp.accepts(et, ElementType::Feature) && c.rng.chance(1, 3) {
                for _ in 0..c.rng.range(1, 3) { let g = G::new(ElementType::Feature).a(Attribute::Subset(["sub1", "sub2"][c.rng.below(2)].into())).a(Attribute::Class(["N", "x"][c.rng.below(2)].into())); doc.annotate(k as u32, g.to_data()).map_err(|e| e.to_string())?; }
            }
        }
        let raw = Raw::of(&doc);
        for k in 0..raw.n.len() {
            let e = doc.get_element(k as u32).unwrap();
            if let (Some(dec), Some(at)) = (e.declaration_key().and_then(|d| doc.get_declaration(d)), sp.get(raw.n[k].et).at) { if dec.annotationtype == at {
                let fs: Vec<usize> = (0..raw.n.len()).filter(|x| raw.n[*x].et == ElementType::Feature && doc.get_element(*x as u32).unwrap().declaration_key() == e.declaration_key()).collect();
                let mut classes: Vec<String> = (0..raw.n.len()).filter_map(|x| doc.get_element(x as u32).unwrap().class().map(String::from)).collect();
                classes.sort(); classes.dedup();
                for class in &classes { for sub in &[Cmp::Any, Cmp::Some, Cmp::Is("sub1".to_string())] {
                    let q = Query::select().element(Cmp::Is(ElementType::Feature)).contexttype(Cmp::Is(raw.n[k].et)).set(match &dec.set { Some(s) => Cmp::Is(s.clone()), None => Cmp::None }).subset(sub.clone()).class(Cmp::Is(class.clone()));
                    let s = Selector::from_query(&doc, &q).map_err(|e| e.to_string())?;
                    let exp: Vec<usize> = fs.iter().cloned().filter(|x| { let f = doc.get_element(*x as u32).unwrap(); f.class() == Some(class) && cmp_ok(sub, f.subset().map(String::from)) }).collect();
                    let got: Vec<usize> = (0..raw.n.len()).filter(|x| s.matches(&doc, &DataType::Element(*x as u32))).collect();
                    eq!(got, exp, "features with class {} and subset {:?} in the declaration of {}", class, sub, k);
                } }
            } }
            // those of the same declaration; without one there are none
            let own = |f: &Element| f.elementtype() == ElementType::Feature && match (f.declaration_key().and_then(|d| doc.get_declaration(d)), sp.get(raw.n[k].et).at) { (Some(d), Some(at)) => d.annotationtype == at && d.set.as_deref() == e.set(), _ => false };
            for sub in &[Cmp::Is("sub1".to_string()), Cmp::Is("sub2".to_string()), Cmp::Is("sub9".to_string()), Cmp::Any, Cmp::Some, Cmp::None, Cmp::Unmatchable] {
                let exp: Vec<u32> = raw.kids(k).into_iter().map(|x| x as u32).filter(|x| { let f = doc.get_element(*x).unwrap(); own(&f) && cmp_ok(sub, f.subset().map(String::from)) }).collect();
                let got: Vec<u32> = e.get_features(sub.clone()).map(|e| e.key().unwrap()).collect();
                eq!(got, exp, "features {:?} of element {}", sub, k);
                eq!(e.get_feature(sub.clone()).and_then(|f| f.key()), exp.get(0).cloned(), "feature {:?} of element {}", sub, k);
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C08
pub fn c08(cx: &mut Ctx) {
    let sp = spec::load();
    cx.family("ancestors", 250, 15000, |c| {
        let mut gen = Gen::new(&sp);
        gen.awkward = false;
        let (mut doc, body) = random_doc(&mut c.rng, &mut gen, 60, false)?;
        c.log(body.show());
        if c.rng.chance(1, 2) { // some trees on their own
            for _ in 0..2 { let k = c.rng.range(1, nelem(&doc)); if k < nelem(&doc) { c.log(format!("detach {}", k)); doc.detach_element(k as u32).map_err(|e| e.to_string())?; } }
        }
        let raw = Raw::of(&doc);
        for _ in 0..30 {
            let (_, desc, _) = (0, 0, 0);
            let k = c.rng.below(raw.n.len());
            let (et, g) = match c.rng.below(4) { 0 => (None, None), 1 => (None, Some(*c.rng.pick(spec::GROUPS))), _ => (Some(*c.rng.pick(&[ElementType::Text, ElementType::Paragraph, ElementType::Sentence, ElementType::Word, ElementType::Division, ElementType::EntitiesLayer])), None) };
            let mut s = Selector::elements();
            if let Some(e) = et { s = s.element(Cmp::Is(e)) }
            if let Some((_, g)) = g { s = s.elementgroup(Cmp::Is(g)) }
            let m = |k: &usize| et.map(|e| raw.n[*k].et == e).unwrap_or(true) && g.map(|g| sp.in_group(raw.n[*k].et, g.0)).unwrap_or(true);
            let what = format!("type {:?} group {:?}", et.map(spec::variant), g.map(|g| g.0));
            c.log(format!("{} above {}", what, k));
            let exp: Vec<usize> = raw.ancestors(k).into_iter().filter(|a| m(a)).collect();
            let keys = |it: AncestorIterator| it.take(raw.n.len() + 1).map(|e| e.key().unwrap() as usize).collect::<Vec<_>>();
            eq!(keys(doc.ancestors_by_key(k as u32, s.clone())), exp, "ancestors of {} with {}", k, what);
            let e = doc.get_element(k as u32).unwrap();
            eq!(keys(e.ancestors(s.clone())), exp, "Element::ancestors of {} with {}", k, what);
            if let Some(t) = et {
                let set = match c.rng.below(4) { 0 => Cmp::None, 1 => Cmp::Some, 2 => Cmp::Is("unheard/of".to_string()), _ => { let x = c.rng.below(raw.n.len()) as u32; doc.get_element(x).unwrap().set().map(|s| Cmp::Is(s.to_string())).unwrap_or(Cmp::None) } };
                let at = sp.get(t).at;
                let with: Vec<usize> = raw.ancestors(k).into_iter().filter(|a| raw.n[*a].et == t).filter(|k| { let f = doc.get_element(*k as u32).unwrap(); match (&set, f.declaration_key().and_then(|d| doc.get_declaration(d))) { (Cmp::Some, d) => d.is_some(), (Cmp::None, Some(d)) => Some(d.annotationtype) == at && d.set.is_none(), (Cmp::Is(s), Some(d)) => Some(d.annotationtype) == at && d.set.as_ref() == Some(s), _ => false } }).collect();
                eq!(keys(e.get_ancestors(t, set.clone())), with, "get_ancestors {:?}", set);
                eq!(e.get_ancestor(t, set.clone()).and_then(|e| e.key()).map(|k| k as usize), with.get(0).cloned(), "get_ancestor {:?}", set);
            }
            if let Some(t) = et { eq!(keys(e.get_ancestors(t, Cmp::Any)), exp, "get_ancestors"); eq!(e.get_ancestor(t, Cmp::Any).and_then(|e| e.key()).map(|k| k as usize), exp.get(0).cloned(), "get_ancestor"); }
            if let Some((_, g)) = g { eq!(keys(e.get_ancestors_by_group(g, Cmp::Any)), exp, "get_ancestors_by_group"); eq!(e.get_ancestor_by_group(g, Cmp::Any).and_then(|e| e.key()).map(|k| k as usize), exp.get(0).cloned(), "get_ancestor_by_group"); }
            // of several elements
            let n = c.rng.below(5);
            let list: Vec<u32> = (0..n).map(|_| c.rng.below(raw.n.len()) as u32).collect();
            let exp: Vec<u32> = match list.get(0) { None => vec![], Some(f) => raw.ancestors(*f as usize).into_iter().filter(|a| m(a) && list.iter().all(|k| raw.ancestors(*k as usize).contains(a))).map(|a| a as u32).collect() };
            eq!(doc.common_ancestors(s.clone(), &list), exp, "common ancestors of {:?} with {}", list, what);
            let _ = desc;
        }
        Ok(())
    });
    cx.family("deep", 1, 1, |c| {
        c.log("60000 nested divisions".into());
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || -> Res {
            let mut doc = new_doc();
            let mut k = 0;
            for _ in 0..60_000 { k = doc.add_element_to(k, ElementData::new(ElementType::Division)).map_err(|e| e.to_string())?; }
            eq!(doc.ancestors_by_key(k, Selector::elements().element(Cmp::Is(ElementType::Word))).count(), 0, "words above");
            eq!(doc.ancestors_by_key(k, Selector::elements().element(Cmp::Is(ElementType::Text))).count(), 1, "texts above");
            eq!(doc.ancestors_by_key(k, Selector::elements()).count(), 60_000, "elements above");
            Ok(())
        }).unwrap().join().map_err(|_| "panic".to_string())?
    });
}
