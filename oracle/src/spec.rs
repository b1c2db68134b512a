//! The FoLiA vocabulary as it should be: a snapshot in spec.txt (tags, annotation types, groups and
//! acceptance table), read independently of the tables in /repo.
use folia::*;
use std::collections::HashMap;
use strum::IntoEnumIterator;

pub const GROUPS: &[(&str, ElementGroup)] = &[
    ("Layer", ElementGroup::Layer), ("Content", ElementGroup::Content), ("CorrectionChild", ElementGroup::CorrectionChild),
    ("HigherOrder", ElementGroup::HigherOrder), ("Inline", ElementGroup::Inline), ("Span", ElementGroup::Span), ("SpanRole", ElementGroup::SpanRole),
    ("Structure", ElementGroup::Structure), ("Subtoken", ElementGroup::Subtoken), ("TextMarkup", ElementGroup::TextMarkup), ("Feature", ElementGroup::Feature)];

/// Every element type with the tag it must have.
pub const TAGS: &[(ElementType, &str, &str)] = include!("tags.in");
/// Every annotation type with its name, its main element and its layer.
pub const ANNOTATIONTYPES: &[(AnnotationType, &str)] = include!("annotypes.in");

#[derive(Debug, Clone)]
pub struct Spec {
    pub et: ElementType, pub tag: String, pub at: Option<AnnotationType>, pub groups: Vec<String>,
    pub accepted_types: Vec<String>, pub accepted_groups: Vec<String>, pub textdelimiter: Option<String>,
    pub printable: bool, pub hidden: bool, pub textcontainer: bool, pub phoncontainer: bool, pub subset: Option<String>,
    pub wrefable: bool, pub xmltag: String, pub space: bool, pub rest: String,
}

pub fn gname(g: ElementGroup) -> &'static str { GROUPS.iter().find(|(_, x)| *x == g).unwrap().0 }
pub fn variant(et: ElementType) -> &'static str { TAGS.iter().find(|(t, _, _)| *t == et).unwrap().2 }
pub fn by_variant(name: &str) -> ElementType { TAGS.iter().find(|(_, _, v)| *v == name).expect("variant").0 }
fn opt(s: &str) -> Option<String> { if s == "-" { None } else { Some(s[1..s.len() - 1].replace("\\n", "\n")) } }

/// Writes the tables of /repo in the format of spec.txt.
pub fn dump_spec() -> String {
    let mut o = String::new();
    for (et, _, var) in TAGS {
        let p = Properties::new(*et);
        let (mut t, mut g) = (vec![], vec![]);
        for a in p.accepted_data { match a { AcceptedData::AcceptElementType(x) => t.push(variant(*x)), AcceptedData::AcceptElementGroup(x) => g.push(gname(*x)) } }
        t.sort(); g.sort();
        let groups: Vec<&str> = GROUPS.iter().filter(|(_, g)| g.contains(*et)).map(|(n, _)| *n).collect();
        let q = |s: Option<&str>| match s { None => "-".to_string(), Some(s) => format!("\"{}\"", s.replace('\n', "\\n")) };
        let attrs = |v: &[AttribType]| { let mut v: Vec<String> = v.iter().map(|a| format!("{:?}", a)).collect(); v.sort(); v.join(",") };
        let at = |a: Option<AnnotationType>| a.map(|a| format!("{:?}", a)).unwrap_or("-".into());
        o.push_str(&[var.to_string(), et.as_str().to_string(), at(et.annotationtype()), groups.join(","), t.join(","), g.join(","), q(p.textdelimiter),
            p.printable.to_string(), p.hidden.to_string(), p.textcontainer.to_string(), p.phoncontainer.to_string(), q(p.subset), p.wrefable.to_string(), format!("={}", p.xmltag),
            attrs(p.required_attribs), attrs(p.optional_attribs), at(p.annotationtype), p.speakable.to_string(), p.xlink.to_string(), p.setonly.to_string(), p.auth.to_string(), p.primaryelement.to_string()].join("\t"));
        o.push('\n');
    }
    for (at, name) in ANNOTATIONTYPES {
        o.push_str(&format!("@{:?}\t{}\t{}\t{}\n", at, name, variant(at.elementtype()), at.layertype().map(variant).unwrap_or("-")));
    }
    o
}

pub struct Specs { pub v: Vec<Spec>, pub ix: HashMap<ElementType, usize>, pub layer: HashMap<AnnotationType, ElementType>, pub main: HashMap<AnnotationType, ElementType> }
impl Specs {
    pub fn get(&self, et: ElementType) -> &Spec { &self.v[self.ix[&et]] }
    pub fn in_group(&self, et: ElementType, g: &str) -> bool { self.get(et).groups.iter().any(|x| x == g) }
    /// Does the specification accept a child of this type directly, or through a group?
    pub fn accepts(&self, parent: ElementType, child: ElementType) -> bool {
        let (p, c) = (self.get(parent), self.get(child));
        let name = variant(child);
        p.accepted_types.iter().any(|t| t == name) || p.accepted_groups.iter().any(|g| c.groups.contains(g))
    }
    pub fn accepted(&self, parent: ElementType) -> Vec<ElementType> { self.v.iter().map(|s| s.et).filter(|c| self.accepts(parent, *c)).collect() }
}

pub fn load() -> Specs {
    let mut sp = Specs { v: vec![], ix: HashMap::new(), layer: HashMap::new(), main: HashMap::new() };
    let anno = |n: &str| ANNOTATIONTYPES.iter().find(|(a, _)| format!("{:?}", a) == n).map(|(a, _)| *a);
    let list = |s: &str| -> Vec<String> { s.split(',').filter(|x| !x.is_empty()).map(String::from).collect() };
    for l in include_str!("spec.txt").lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f[0].starts_with('@') {
            let a = anno(&f[0][1..]).unwrap();
            sp.main.insert(a, by_variant(f[2]));
            if f[3] != "-" { sp.layer.insert(a, by_variant(f[3])); }
            continue;
        }
        let et = by_variant(f[0]);
        sp.ix.insert(et, sp.v.len());
        sp.v.push(Spec { et, tag: f[1].into(), at: anno(f[2]), groups: list(f[3]), accepted_types: list(f[4]), accepted_groups: list(f[5]), textdelimiter: opt(f[6]),
            printable: f[7] == "true", hidden: f[8] == "true", textcontainer: f[9] == "true", phoncontainer: f[10] == "true", subset: opt(f[11]), wrefable: f[12] == "true",
            xmltag: f[13][1..].into(), space: f[15].split(',').any(|x| x == "SPACE"), rest: f[14..].join("\t") });
    }
    sp
}

pub fn all_types() -> Vec<ElementType> { ElementType::iter().collect() }
