//! XML as the oracle writes and reads it, independently of /repo.
use crate::model::*;
use crate::util::*;
use folia::*;

pub fn x(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;") }

/// Every kind of attribute: the name it has in FoLiA XML.
pub const ATTRNAMES: &[(AttribType, &str)] = &[(AttribType::ID, "xml:id"), (AttribType::SET, "set"), (AttribType::CLASS, "class"), (AttribType::ANNOTATOR, "annotator"), (AttribType::ANNOTATORTYPE, "annotatortype"),
    (AttribType::CONFIDENCE, "confidence"), (AttribType::N, "n"), (AttribType::DATETIME, "datetime"), (AttribType::BEGINTIME, "begintime"), (AttribType::ENDTIME, "endtime"), (AttribType::SRC, "src"),
    (AttribType::SPEAKER, "speaker"), (AttribType::TEXTCLASS, "textclass"), (AttribType::METADATA, "metadata"), (AttribType::IDREF, "id"), (AttribType::SPACE, "space"), (AttribType::PROCESSOR, "processor"),
    (AttribType::HREF, "xlink:href"), (AttribType::FORMAT, "format"), (AttribType::SUBSET, "subset"), (AttribType::TEXT, "t"), (AttribType::TYPE, "type"), (AttribType::AUTH, "auth"), (AttribType::OFFSET, "offset"),
    (AttribType::REF, "ref"), (AttribType::ORIGINAL, "original"), (AttribType::LINENR, "linenr"), (AttribType::PAGENR, "pagenr"), (AttribType::NEWPAGE, "newpage"), (AttribType::XLINKTYPE, "xlink:type"), (AttribType::TAG, "tag")];

/// Name and value of an attribute in XML.
pub fn attr_xml(a: &Attribute) -> Option<(&'static str, String)> {
    let yn = |b: &bool| if *b { "yes".to_string() } else { "no".to_string() };
    let ptype = |t: &ProcessorType| match t { ProcessorType::Auto => "auto", ProcessorType::Manual => "manual", ProcessorType::Generator => "generator", ProcessorType::DataSource => "datasource" }.to_string();
    Some(match a {
        Attribute::Id(s) => ("xml:id", s.clone()), Attribute::Set(s) => ("set", s.clone()), Attribute::Class(s) => ("class", s.clone()), Attribute::Annotator(s) => ("annotator", s.clone()),
        Attribute::AnnotatorType(t) => ("annotatortype", ptype(t)), Attribute::Confidence(f) => ("confidence", format!("{}", f)), Attribute::N(s) => ("n", s.clone()),
        Attribute::DateTime(d) => ("datetime", d.format("%Y-%m-%dT%H:%M:%S").to_string()), Attribute::BeginTime(s) => ("begintime", s.clone()), Attribute::EndTime(s) => ("endtime", s.clone()),
        Attribute::Src(s) => ("src", s.clone()), Attribute::Speaker(s) => ("speaker", s.clone()), Attribute::Textclass(s) => ("textclass", s.clone()), Attribute::Metadata(s) => ("metadata", s.clone()),
        Attribute::Idref(s) => ("id", s.clone()), Attribute::Space(b) => ("space", yn(b)), Attribute::Text(s) => ("t", s.clone()), Attribute::Type(s) => ("type", s.clone()), Attribute::Auth(s) => ("auth", s.clone()),
        Attribute::Offset(n) => ("offset", n.to_string()), Attribute::Ref(s) => ("ref", s.clone()), Attribute::Original(s) => ("original", s.clone()), Attribute::LineNr(n) => ("linenr", n.to_string()),
        Attribute::PageNr(s) => ("pagenr", s.clone()), Attribute::NewPage(b) => ("newpage", yn(b)), Attribute::XLinkType(s) => ("xlink:type", s.clone()), Attribute::Tag(s) => ("tag", s.clone()),
        Attribute::Processor(s) => ("processor", s.clone()), Attribute::Href(s) => ("xlink:href", s.clone()), Attribute::Format(s) => ("format", s.clone()), Attribute::Subset(s) => ("subset", s.clone()),
        _ => return None,
    })
}

pub fn attr_samples(r: &mut Rng) -> Vec<Attribute> {
    let mut w = || nonempty(r);
    let mut v = vec![Attribute::Id(w()), Attribute::Set(w()), Attribute::Class(w()), Attribute::Annotator(w()), Attribute::N(w()), Attribute::BeginTime(w()), Attribute::EndTime(w()), Attribute::Src(w()), Attribute::Speaker(w()),
        Attribute::Textclass(w()), Attribute::Metadata(w()), Attribute::Idref(w()), Attribute::Text(w()), Attribute::Type(w()), Attribute::Auth(w()), Attribute::Ref(w()), Attribute::Original(w()), Attribute::PageNr(w()),
        Attribute::XLinkType(w()), Attribute::Tag(w()), Attribute::Processor(w()), Attribute::Href(w()), Attribute::Format(w()), Attribute::Subset(w())];
    for t in &[ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource] { v.push(Attribute::AnnotatorType(*t)); }
    for b in &[true, false] { v.push(Attribute::Space(*b)); v.push(Attribute::NewPage(*b)); }
    for _ in 0..3 { v.push(Attribute::Confidence(match r.below(6) { 0 => r.below(1001) as f64 / 1000.0, 1 => f64::MAX, 2 => -0.5, 3 => f64::MIN_POSITIVE, 4 => 1e21, _ => f64::from_bits(r.next() & 0x7fef_ffff_ffff_ffff) })); }
    for _ in 0..2 { v.push(Attribute::Offset([0, 65535, r.below(65536) as u16][r.below(3)])); v.push(Attribute::LineNr([0, 65535, r.below(65536) as u16][r.below(3)])); }
    v.push(Attribute::DateTime(chrono::NaiveDate::from_ymd(r.range(1, 9999) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32).and_hms(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32)));
    v
}

// ---------------------------------------------------------------- writing
pub struct W { pub indent: bool, pub cdata: bool, pub shortcuts: bool }
/// Writes a tree the way FoLiA documents are written by other tools.
pub fn write_g(g: &G, sp: &crate::spec::Specs, w: &W, r: &mut Rng, inline: bool, depth: usize, o: &mut String) {
    let s = sp.get(g.et);
    let nl = |o: &mut String, d: usize| if w.indent && !inline { o.push('\n'); for _ in 0..d { o.push_str("  "); } };
    nl(o, depth);
    o.push_str(&format!("<{}", s.tag));
    for a in &g.attrs { if let Some((n, v)) = attr_xml(a) { let q = if r.chance(1, 4) { '\'' } else { '"' }; o.push_str(&format!(" {}={}{}{}", n, q, x(&v), q)); } }
    if g.kids.is_empty() && r.chance(2, 3) { o.push_str("/>"); return; }
    o.push('>');
    let inl = inline || s.textcontainer || s.phoncontainer || g.kids.iter().any(|k| matches!(k, GK::T(_)));
    for k in &g.kids {
        match k {
            GK::N(c) => write_g(c, sp, w, r, inl, depth + 1, o),
            GK::T(t) => if w.cdata && r.chance(1, 4) && !t.contains("]]>") && (!t.trim().is_empty() || s.textcontainer && !t.is_empty() && !t.contains('\n')) { o.push_str(&format!("<![CDATA[{}]]>", t)) } else { o.push_str(&x(t)) },
            GK::C(c) => o.push_str(&format!("<!--{}-->", c)),
        }
    }
    if !inl && !g.kids.is_empty() { nl(o, depth); }
    o.push_str(&format!("</{}>", s.tag));
}
pub fn header(decls: &Decls, procs: &str, rest: &str) -> String {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"doc\" version=\"2.1.0\" generator=\"oracle\">\n<metadata type=\"native\">\n<annotations>\n");
    for d in &decls.v {
        let name = crate::spec::ANNOTATIONTYPES.iter().find(|(a, _)| *a == d.at).unwrap().1;
        o.push_str(&format!("<{}-annotation", name));
        if let Some(s) = &d.set { o.push_str(&format!(" set=\"{}\"", x(s))); }
        if let Some(s) = &d.alias { o.push_str(&format!(" alias=\"{}\"", x(s))); }
        if let Some(s) = &d.format { o.push_str(&format!(" format=\"{}\"", x(s))); }
        if d.procs.is_empty() { o.push_str("/>\n"); } else {
            o.push('>');
            for p in &d.procs { o.push_str(&format!("<annotator processor=\"{}\"/>", x(p))); }
            o.push_str(&format!("</{}-annotation>\n", name));
        }
    }
    o.push_str(&format!("</annotations>\n<provenance>\n{}</provenance>\n{}</metadata>\n", procs, rest));
    o
}

// ---------------------------------------------------------------- reading
#[derive(Debug, Clone, PartialEq)]
pub struct X { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<XK> }
#[derive(Debug, Clone, PartialEq)]
pub enum XK { N(X), T(String), C(String) }
impl X {
    pub fn attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|(a, _)| a == n).map(|(_, v)| v.as_str()) }
    pub fn child(&self, n: &str) -> Option<&X> { self.elems().find(|e| e.name == n) }
    pub fn elems(&self) -> impl Iterator<Item = &X> { self.kids.iter().filter_map(|k| if let XK::N(e) = k { Some(e) } else { None }) }
    pub fn text(&self) -> String { self.kids.iter().filter_map(|k| if let XK::T(t) = k { Some(t.as_str()) } else { None }).collect() }
}
fn unesc(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        let j = rest[i..].find(';').ok_or("unterminated entity")? + i;
        let e = &rest[i + 1..j];
        o.push(match e { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            e if e.starts_with("#x") => u32::from_str_radix(&e[2..], 16).ok().and_then(char::from_u32).ok_or("bad entity")?,
            e if e.starts_with('#') => e[1..].parse().ok().and_then(char::from_u32).ok_or("bad entity")?,
            e => return Err(format!("unknown entity {}", e)) });
        rest = &rest[j + 1..];
    }
    o.push_str(rest);
    Ok(o)
}
fn name_ok(n: &str) -> bool { !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || "_-.:".contains(c)) && !n.starts_with(|c: char| c.is_numeric() || c == '-' || c == '.') }
/// A strict little parser: anything not well-formed is an error.
pub fn parse(s: &str) -> Result<X, String> {
    let mut stack: Vec<X> = vec![];
    let mut i = 0;
    let mut root: Option<X> = None;
    let err = |m: &str, i: usize| -> String { let a = (0..=i.saturating_sub(40)).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0); let b = (i.min(s.len())..s.len() + 1).find(|k| s.is_char_boundary(*k)).unwrap_or(s.len()); format!("not well-formed XML: {} near {:?}", m, &s[a..b]) };
    for c in s.chars() { if (c as u32) < 0x20 && !"\n\r\t".contains(c) { return Err(err("control character", 0)); } }
    while i < s.len() {
        let rest = &s[i..];
        if rest.starts_with("<?") { i += rest.find("?>").ok_or(err("unterminated PI", i))? + 2; continue; }
        if rest.starts_with("<!--") {
            let j = rest[4..].find("--").ok_or(err("unterminated comment", i))?;
            if !rest[4 + j..].starts_with("-->") { return Err(err("-- in comment", i)); }
            if let Some(p) = stack.last_mut() { p.kids.push(XK::C(rest[4..4 + j].into())); }
            i += j + 7; continue;
        }
        if rest.starts_with("<![CDATA[") { let j = rest.find("]]>").ok_or(err("cdata", i))?; stack.last_mut().ok_or(err("cdata outside root", i))?.kids.push(XK::T(rest[9..j].into())); i += j + 3; continue; }
        if rest.starts_with("</") {
            let j = rest.find('>').ok_or(err("end tag", i))?;
            let e = stack.pop().ok_or(err("end tag without start", i))?;
            if e.name != rest[2..j].trim_end() { return Err(err(&format!("end tag {} for {}", &rest[2..j], e.name), i)); }
            i += j + 1;
            if let Some(p) = stack.last_mut() { p.kids.push(XK::N(e)) } else if root.is_none() { root = Some(e) } else { return Err(err("two roots", i)) }
            continue;
        }
        if rest.starts_with('<') {
            let b = rest.as_bytes();
            let mut j = 1;
            while j < b.len() && !b" \t\n\r/>".contains(&b[j]) { j += 1; }
            let mut e = X { name: rest[1..j].into(), attrs: vec![], kids: vec![] };
            if !name_ok(&e.name) { return Err(err(&format!("tag name {:?}", e.name), i)); }
            loop {
                let ws = j;
                while j < b.len() && b" \t\n\r".contains(&b[j]) { j += 1; }
                if j >= b.len() { return Err(err("unterminated tag", i)); }
                if b[j] == b'>' || rest[j..].starts_with("/>") { break; }
                if ws == j { return Err(err("no space before attribute", i)); }
                let k = j + rest[j..].find('=').ok_or(err("attribute", i))?;
                let name = &rest[j..k];
                if !name_ok(name) { return Err(err(&format!("attribute name {:?}", name), i)); }
                let q = *b.get(k + 1).ok_or(err("attribute value", i))?;
                if q != b'"' && q != b'\'' { return Err(err("unquoted attribute", i)); }
                let l = k + 2 + rest[k + 2..].find(q as char).ok_or(err("unterminated attribute value", i))?;
                let v = &rest[k + 2..l];
                if v.contains('<') { return Err(err("< in attribute value", i)); }
                if e.attr(name).is_some() { return Err(err(&format!("attribute {} twice", name), i)); }
                e.attrs.push((name.into(), unesc(v).map_err(|m| err(&m, i))?));
                j = l + 1;
            }
            let empty = b[j] == b'/';
            i += j + 1 + empty as usize;
            if empty { if let Some(p) = stack.last_mut() { p.kids.push(XK::N(e)) } else if root.is_none() { root = Some(e) } else { return Err(err("two roots", i)) } }
            else { if stack.is_empty() && root.is_some() { return Err(err("two roots", i)) } stack.push(e) }
            continue;
        }
        let j = rest.find('<').unwrap_or(rest.len());
        let t = &rest[..j];
        if t.contains("]]>") { return Err(err("]]> in text", i)); }
        match stack.last_mut() { Some(p) => p.kids.push(XK::T(unesc(t).map_err(|m| err(&m, i))?)), None => if !t.trim().is_empty() { return Err(err("text outside the root", i)) } }
        i += j;
    }
    if !stack.is_empty() { return Err(err("unclosed element", i)); }
    root.ok_or("no root element".into())
}
