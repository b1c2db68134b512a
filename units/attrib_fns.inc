// The kind of an attribute, written down independently of the code under contract.
pub open spec fn s_type(a: Attribute) -> AttribType {
    match a {
        Attribute::Ignore => AttribType::NONE, Attribute::Id(_) => AttribType::ID,
        Attribute::Set(_) | Attribute::DeclarationRef(_) => AttribType::SET,
        Attribute::Class(_) | Attribute::ClassRef(_) => AttribType::CLASS,
        Attribute::Annotator(_) => AttribType::ANNOTATOR, Attribute::AnnotatorType(_) => AttribType::ANNOTATORTYPE,
        Attribute::Confidence(_) => AttribType::CONFIDENCE, Attribute::N(_) => AttribType::N, Attribute::DateTime(_) => AttribType::DATETIME,
        Attribute::BeginTime(_) => AttribType::BEGINTIME, Attribute::EndTime(_) => AttribType::ENDTIME, Attribute::Src(_) => AttribType::SRC,
        Attribute::Speaker(_) => AttribType::SPEAKER, Attribute::Textclass(_) => AttribType::TEXTCLASS, Attribute::Metadata(_) => AttribType::METADATA,
        Attribute::Idref(_) => AttribType::IDREF, Attribute::Space(_) => AttribType::SPACE,
        Attribute::Processor(_) | Attribute::ProcessorRef(_) => AttribType::PROCESSOR,
        Attribute::Href(_) => AttribType::HREF, Attribute::Format(_) => AttribType::FORMAT, Attribute::XLinkType(_) => AttribType::XLINKTYPE,
        Attribute::Subset(_) | Attribute::SubsetRef(_) => AttribType::SUBSET,
        Attribute::Text(_) => AttribType::TEXT, Attribute::Type(_) => AttribType::TYPE, Attribute::Offset(_) => AttribType::OFFSET,
        Attribute::Ref(_) => AttribType::REF, Attribute::Auth(_) => AttribType::AUTH, Attribute::Original(_) => AttribType::ORIGINAL,
        Attribute::LineNr(_) => AttribType::LINENR, Attribute::PageNr(_) => AttribType::PAGENR, Attribute::Tag(_) => AttribType::TAG,
        Attribute::NewPage(_) => AttribType::NEWPAGE,
    }
}
pub open spec fn s_encodable(a: Attribute) -> bool { a is Set || a is Class || a is Processor || a is Subset }
pub open spec fn s_decodable(a: Attribute) -> bool { a is DeclarationRef || a is ClassRef || a is ProcessorRef || a is SubsetRef }
// the text of an attribute that holds one
pub open spec fn s_text(a: Attribute) -> Option<Seq<char>> {
    match a {
        Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) | Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s)
        | Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) | Attribute::Processor(s)
        | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s) | Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s)
        | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s) => Some(s@),
        Attribute::AnnotatorType(t) => Some(s_pt_name(t)),
        Attribute::Space(b) | Attribute::NewPage(b) => Some(if b { "yes"@ } else { "no"@ }),
        _ => None,
    }
}
//# specfn src/metadata.rs ProcessorType::as_str s_pt_name(x: ProcessorType) -> Seq<char>
// index of the first attribute of a kind
pub open spec fn s_find(s: Seq<Attribute>, t: AttribType) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s_type(s[0]) == t { Some(0) }
    else { match s_find(s.drop_first(), t) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_find(s: Seq<Attribute>, t: AttribType)
    ensures match s_find(s, t) {
        Some(i) => 0 <= i < s.len() && s_type(s[i]) == t && forall|j: int| 0 <= j < i ==> s_type(#[trigger] s[j]) != t,
        None => forall|j: int| 0 <= j < s.len() ==> s_type(#[trigger] s[j]) != t },
    decreases s.len()
{
    if s.len() > 0 {
        lemma_find(s.drop_first(), t);
        assert forall|j: int| 1 <= j < s.len() implies #[trigger] s[j] == s.drop_first()[j - 1] by {}
    }
}
// what is left after the first attribute of that kind was taken out
pub open spec fn s_without(s: Seq<Attribute>, t: AttribType) -> Seq<Attribute> {
    match s_find(s, t) { Some(i) => s.remove(i), None => s }
}
// everything but the attributes
pub open spec fn s_rest_same(a: ElementData, b: ElementData) -> bool { a.elementtype == b.elementtype && a.data == b.data && a.key == b.key && a.parent == b.parent }


impl ProcessorType {
//# fn src/metadata.rs ProcessorType::as_str
//# ret r
//# spec
    ensures r@ == s_pt_name(*self)
//# endfn
}
impl Attribute {
//# fn src/attrib.rs Attribute::as_str
//# ret r
//# spec
    ensures match r { Ok(x) => s_text(*self) == Some(x@), Err(_) => s_text(*self) is None }
//# replace /self.attribtype().into()/ => /"?"/
//# endfn
//# fn src/attrib.rs Attribute::decodable
//# ret r
//# spec
    ensures r == s_decodable(*self)
//# endfn
//# fn src/attrib.rs Attribute::encodable
//# ret r
//# spec
    ensures r == s_encodable(*self), !(r && s_decodable(*self))
//# endfn
//# fn src/attrib.rs Attribute::sametype
//# ret r
//# spec
    ensures r == (s_type(*self) == s_type(*other))
//# endfn
//# fn src/attrib.rs Attribute::attribtype
//# ret r
//# spec
    ensures r == s_type(*self)
//# endfn
//# fn src/attrib.rs Attribute::attribtypeclass
//# ret r
//# spec
    ensures r == match s_type(*self) { AttribType::SET => AttribType::CLASS, AttribType::PROCESSOR | AttribType::ANNOTATORTYPE => AttribType::ANNOTATOR, t => t }
//# endfn
}

impl ElementData {
//# fn src/element.rs ElementData::attribs
//# ret r
//# spec
    ensures *r == self.attribs
//# endfn
//# fn src/element.rs ElementData::attrib
//# ret r
//# spec
    ensures match s_find(self.attribs@, atype) { Some(i) => r == Some(&self.attribs@[i]) && s_type(*r->0) == atype, None => r is None }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> s_type(#[trigger] self.attribs@[j]) != atype,
//# ghost loop 1 start
    assert(attribute == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_find(self.attribs@, atype); }
//# endfn
//# fn src/element.rs ElementData::has_attrib
//# ret r
//# spec
    ensures r == (s_find(self.attribs@, atype) is Some)
//# call 1 vx_find iter_find
//# closure 1 |vx_p: &&Attribute| -> (b: bool) ensures b == (s_type(**vx_p) == atype)
//# ghost start
    proof { lemma_find(self.attribs@, atype); }
//# endfn
//# fn src/element.rs ElementData::del_attrib
//# ret r
//# spec
    ensures
        final(self).attribs@ == s_without(old(self).attribs@, atype),
        match s_find(old(self).attribs@, atype) { Some(i) => r == Some(old(self).attribs@[i]), None => r is None },
        s_rest_same(*final(self), *old(self)),
//# call 1 vx_position iter_position
//# closure 1 |a: &Attribute| -> (b: bool) ensures b == (s_type(*a) == atype)
//# ghost start
    proof { lemma_find(self.attribs@, atype); }
//# endfn
//# fn src/element.rs ElementData::set_attrib
//# spec
    ensures
        final(self).attribs@ == s_without(old(self).attribs@, s_type(attrib)).push(attrib),
        s_rest_same(*final(self), *old(self)),
//# endfn
//# fn src/element.rs ElementData::with_attrib
//# ret r
//# spec
    ensures
        r.attribs@ == s_without(self.attribs@, s_type(attrib)).push(attrib),
        s_rest_same(r, self),
//# endfn
//# fn src/element.rs ElementData::set_attribs
//# spec
    ensures final(self).attribs == attribs, s_rest_same(*final(self), *old(self))
//# endfn
//# fn src/element.rs ElementData::with_attribs
//# ret r
//# spec
    ensures r.attribs == attribs, s_rest_same(r, self)
//# endfn
}
