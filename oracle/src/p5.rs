//! The known findings: for each, whether the input it names still fails.
use crate::util::*;
use folia::*;
use ElementType::{Word, PosAnnotation, Paragraph, TextContent, TextMarkupString};

fn again(doc: &Document) -> Result<Document, Box<dyn std::error::Error>> { Ok(Document::from_str(std::str::from_utf8(&doc.xml(0, 0)?)?, DocumentProperties::default())?) }

/// A part-of-speech annotation is added, and only later does its declaration get its one processor.
fn unattributed() -> Result<bool, Box<dyn std::error::Error>> {
    let mut doc = Document::new("d", DocumentProperties::default())?;
    let w = doc.annotate(0, ElementData::new(Word).with_attrib(Attribute::Id("w".into())))?;
    doc.declare(AnnotationType::POS, &Some("s".into()), &None, &None)?;
    doc.annotate(w, ElementData::new(PosAnnotation).with_attrib(Attribute::Set("s".into())).with_attrib(Attribute::Class("N".into())))?;
    let p = doc.add_processor(Processor::new("p".into()))?;
    let id = doc.get_processor(p).unwrap().id.clone();
    let v = doc.annotate(0, ElementData::new(Word).with_attrib(Attribute::Id("v".into())))?;
    doc.annotate(v, ElementData::new(PosAnnotation).with_attrib(Attribute::Set("s".into())).with_attrib(Attribute::Class("N".into())).with_attrib(Attribute::Processor(id)))?;
    let proc = |d: &Document| -> Option<String> { d.select(Selector::elements().element(Cmp::Is(PosAnnotation)), Recursion::Always).next().and_then(|e| e.processor().map(String::from)) };
    Ok(proc(&doc) != proc(&again(&doc)?))
}
/// `<t><t-str>a</t-str>\n<t-str>b</t-str></t>`: the line break is text.
fn linebreak() -> Result<bool, Box<dyn std::error::Error>> {
    let mut doc = Document::new("d", DocumentProperties::default())?;
    let p = doc.annotate(0, ElementData::new(Paragraph).with_attrib(Attribute::Id("p".into())))?;
    doc.annotate(p, ElementData::new(TextContent).with_attrib(Attribute::Class("current".into()))
        .with(DataType::AddElement(ElementData::new(TextMarkupString).with(DataType::Text("a".into()))))
        .with(DataType::Text("\n".into()))
        .with(DataType::AddElement(ElementData::new(TextMarkupString).with(DataType::Text("b".into())))))?;
    let text = |d: &Document| -> String { let e = d.select(Selector::elements().element(Cmp::Is(Paragraph)), Recursion::Always).next().unwrap(); e.text(&TextParameters::default()).unwrap_or("?".into()) };
    Ok(text(&doc) != text(&again(&doc)?))
}
/// An element that has no parent is asked for itself.
fn orphan() -> Result<bool, Box<dyn std::error::Error>> {
    let mut doc = Document::new("d", DocumentProperties::default())?;
    let w = doc.annotate(0, ElementData::new(Word).with_attrib(Attribute::Id("w".into())))?;
    doc.detach_element(w)?;
    let v: Vec<ElementKey> = doc.select_by_key(w, Selector::elements(), Recursion::Always, true, false).map(|e| e.key().unwrap()).collect();
    Ok(v != vec![w])
}

pub fn findings(prop: &str) -> String {
    let mut o = String::from("{");
    for (p, id, f) in [("C06", "orphan", orphan as fn() -> Result<bool, Box<dyn std::error::Error>>), ("C15", "unattributed", unattributed), ("C15", "linebreak", linebreak)] {
        if p != prop { continue; }
        let r = std::panic::catch_unwind(f);
        let s = match r { Ok(Ok(true)) => "fails".to_string(), Ok(Ok(false)) => "holds".into(), Ok(Err(e)) => format!("error: {}", e), Err(_) => "panic".into() };
        if o.len() > 1 { o.push(','); }
        o.push_str(&format!("{}:{}", esc(&format!("{}-{}", p, id)), esc(&s)));
    }
    o.push('}');
    o
}
