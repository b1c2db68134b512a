//# properties C03
//# covers C03: every name table and its inverse (element, annotation, attribute and processor types, groups, annotation types of elements), writing and reading of every attribute, except Properties::new
//# include core.inc
//# mode prove
//# sub /quick_xml::events::attributes::Attribute/ => /XmlAttribute/
//# sub /<R: BufRead>/ => /<R>/
verus! {
// The attributes of FoLiA and their names in XML, written down independently of the code under contract.
pub open spec fn s_att_name(t: AttribType) -> Seq<char> { match t {
    AttribType::ID => "xml:id"@,
    AttribType::SET => "set"@,
    AttribType::CLASS => "class"@,
    AttribType::ANNOTATOR => "annotator"@,
    AttribType::ANNOTATORTYPE => "annotatortype"@,
    AttribType::CONFIDENCE => "confidence"@,
    AttribType::N => "n"@,
    AttribType::DATETIME => "datetime"@,
    AttribType::BEGINTIME => "begintime"@,
    AttribType::ENDTIME => "endtime"@,
    AttribType::SRC => "src"@,
    AttribType::SPEAKER => "speaker"@,
    AttribType::TEXTCLASS => "textclass"@,
    AttribType::METADATA => "metadata"@,
    AttribType::IDREF => "id"@,
    AttribType::SPACE => "space"@,
    AttribType::PROCESSOR => "processor"@,
    AttribType::HREF => "xlink:href"@,
    AttribType::FORMAT => "format"@,
    AttribType::SUBSET => "subset"@,
    AttribType::TEXT => "t"@,
    AttribType::TYPE => "type"@,
    AttribType::AUTH => "auth"@,
    AttribType::OFFSET => "offset"@,
    AttribType::REF => "ref"@,
    AttribType::LINENR => "linenr"@,
    AttribType::PAGENR => "pagenr"@,
    AttribType::NEWPAGE => "newpage"@,
    AttribType::ORIGINAL => "original"@,
    AttribType::XLINKTYPE => "xlink:type"@,
    AttribType::TAG => "tag"@,
    AttribType::NONE => "NONE"@
} }
pub open spec fn s_att_known(s: Seq<char>) -> bool { s == "xml:id"@ || s == "set"@ || s == "class"@ || s == "annotator"@ || s == "annotatortype"@ || s == "confidence"@ || s == "n"@ || s == "datetime"@ || s == "begintime"@ || s == "endtime"@ || s == "src"@ || s == "speaker"@ || s == "textclass"@ || s == "metadata"@ || s == "id"@ || s == "space"@ || s == "processor"@ || s == "xlink:href"@ || s == "format"@ || s == "subset"@ || s == "t"@ || s == "type"@ || s == "auth"@ || s == "offset"@ || s == "ref"@ || s == "linenr"@ || s == "pagenr"@ || s == "newpage"@ || s == "original"@ || s == "xlink:type"@ || s == "tag"@ }
// the attribute of a kind with a value written like that
pub open spec fn s_att_of(t: AttribType, v: Seq<char>) -> Option<Attribute> { match t {
    AttribType::ID => Some(Attribute::Id(string_of(v))),
    AttribType::SET => Some(Attribute::Set(string_of(v))),
    AttribType::CLASS => Some(Attribute::Class(string_of(v))),
    AttribType::ANNOTATOR => Some(Attribute::Annotator(string_of(v))),
    AttribType::N => Some(Attribute::N(string_of(v))),
    AttribType::BEGINTIME => Some(Attribute::BeginTime(string_of(v))),
    AttribType::ENDTIME => Some(Attribute::EndTime(string_of(v))),
    AttribType::SRC => Some(Attribute::Src(string_of(v))),
    AttribType::SPEAKER => Some(Attribute::Speaker(string_of(v))),
    AttribType::TEXTCLASS => Some(Attribute::Textclass(string_of(v))),
    AttribType::METADATA => Some(Attribute::Metadata(string_of(v))),
    AttribType::IDREF => Some(Attribute::Idref(string_of(v))),
    AttribType::PROCESSOR => Some(Attribute::Processor(string_of(v))),
    AttribType::HREF => Some(Attribute::Href(string_of(v))),
    AttribType::FORMAT => Some(Attribute::Format(string_of(v))),
    AttribType::SUBSET => Some(Attribute::Subset(string_of(v))),
    AttribType::TEXT => Some(Attribute::Text(string_of(v))),
    AttribType::TYPE => Some(Attribute::Type(string_of(v))),
    AttribType::AUTH => Some(Attribute::Auth(string_of(v))),
    AttribType::REF => Some(Attribute::Ref(string_of(v))),
    AttribType::ORIGINAL => Some(Attribute::Original(string_of(v))),
    AttribType::PAGENR => Some(Attribute::PageNr(string_of(v))),
    AttribType::XLINKTYPE => Some(Attribute::XLinkType(string_of(v))),
    AttribType::TAG => Some(Attribute::Tag(string_of(v))),
    AttribType::ANNOTATORTYPE => if v == "auto"@ { Some(Attribute::AnnotatorType(ProcessorType::Auto)) } else if v == "manual"@ { Some(Attribute::AnnotatorType(ProcessorType::Manual)) }
        else if v == "generator"@ { Some(Attribute::AnnotatorType(ProcessorType::Generator)) } else if v == "datasource"@ { Some(Attribute::AnnotatorType(ProcessorType::DataSource)) } else { None },
    AttribType::SPACE => if v == "yes"@ || v == "true"@ { Some(Attribute::Space(true)) } else if v == "no"@ || v == "false"@ { Some(Attribute::Space(false)) } else { None },
    AttribType::NEWPAGE => if v == "yes"@ || v == "true"@ { Some(Attribute::NewPage(true)) } else if v == "no"@ || v == "false"@ { Some(Attribute::NewPage(false)) } else { None },
    AttribType::CONFIDENCE => match s_f64_of(v) { Some(f) => Some(Attribute::Confidence(f)), None => None },
    AttribType::OFFSET => match s_u16_of(v) { Some(n) => Some(Attribute::Offset(n)), None => None },
    AttribType::LINENR => match s_u16_of(v) { Some(n) => Some(Attribute::LineNr(n)), None => None },
    AttribType::DATETIME => match s_date_of(v, "%Y-%m-%dT%H:%M:%S"@) { Some(d) => Some(Attribute::DateTime(d)), None => None },
    AttribType::NONE => None,
} }
// numbers and dates as text: std and chrono
pub uninterp spec fn s_u16_text(n: u16) -> Seq<char>;
pub uninterp spec fn s_u16_of(s: Seq<char>) -> Option<u16>;
pub uninterp spec fn s_f64_text(f: f64) -> Seq<char>;
pub uninterp spec fn s_f64_of(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn s_f64_number(f: f64) -> bool;
pub uninterp spec fn s_date_text(d: NaiveDateTime, format: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_date_of(s: Seq<char>, format: Seq<char>) -> Option<NaiveDateTime>;
pub uninterp spec fn s_date_whole(d: NaiveDateTime) -> bool;
// what is written is read back; a number is one that is not NaN, a date one without a fraction of a second and with a year of four digits
pub axiom fn axiom_u16_text(n: u16) ensures s_u16_of(s_u16_text(n)) == Some(n);
pub axiom fn axiom_f64_text(f: f64) requires s_f64_number(f) ensures s_f64_of(s_f64_text(f)) == Some(f);
pub axiom fn axiom_date_text(d: NaiveDateTime) requires s_date_whole(d) ensures s_date_of(s_date_text(d, "%Y-%m-%dT%H:%M:%S"@), "%Y-%m-%dT%H:%M:%S"@) == Some(d);
#[verifier::external_body] fn vx_u16(s: &str) -> (r: Result<u16, XmlError>) ensures match s_u16_of(s@) { Some(n) => r == Ok::<u16, XmlError>(n), None => r is Err } { unimplemented!() }
#[verifier::external_body] fn vx_f64(s: &str) -> (r: Result<f64, XmlError>) ensures match s_f64_of(s@) { Some(n) => r == Ok::<f64, XmlError>(n), None => r is Err } { unimplemented!() }
#[verifier::external_body] fn vx_date(s: &str, f: &str) -> (r: Result<NaiveDateTime, XmlError>) ensures match s_date_of(s@, f@) { Some(n) => r == Ok::<NaiveDateTime, XmlError>(n), None => r is Err } { unimplemented!() }
#[verifier::external_body] fn vx_u16_text(n: &u16) -> (r: String) ensures r@ == s_u16_text(*n) { unimplemented!() }
#[verifier::external_body] fn vx_f64_text(n: &f64) -> (r: String) ensures r@ == s_f64_text(*n) { unimplemented!() }
#[verifier::external_body] fn vx_date_text(n: &NaiveDateTime, f: &str) -> (r: String) ensures r@ == s_date_text(*n, f@) { unimplemented!() }
// quick_xml
pub struct Reader<R> { pub r: R }
pub struct XmlAttribute<'a> { pub key: &'a [u8], pub value: &'a [u8] }
pub uninterp spec fn s_unescaped(value: Seq<u8>) -> Option<Seq<char>>;
impl<'a> XmlAttribute<'a> {
    #[verifier::external_body]
    pub fn unescape_and_decode_value<R>(&self, reader: &Reader<R>) -> (r: Result<String, XmlError>) ensures match s_unescaped(self.value@) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err } { unimplemented!() }
}
// the value an attribute is written with
pub open spec fn s_value(a: Attribute) -> Option<Seq<char>> {
    match a {
        Attribute::Confidence(f) => Some(s_f64_text(f)), Attribute::Offset(n) | Attribute::LineNr(n) => Some(s_u16_text(n)),
        Attribute::DateTime(d) => Some(s_date_text(d, "%Y-%m-%dT%H:%M:%S"@)), a => s_text(a) }
}
proof fn lemma_att_names()
    ensures forall|a: AttribType, b: AttribType| #[trigger] s_att_name(a) == #[trigger] s_att_name(b) ==> a == b, forall|a: AttribType| a != AttribType::NONE ==> s_att_known(#[trigger] s_att_name(a)), !s_att_known("typegroup"@), !s_att_known("NONE"@)
{
    reveal_strlit("typegroup");
    broadcast use ax::axiom_str_ext;
    reveal_strlit("xml:id"); reveal_strlit("set"); reveal_strlit("class"); reveal_strlit("annotator"); reveal_strlit("annotatortype"); reveal_strlit("confidence"); reveal_strlit("n"); reveal_strlit("datetime"); reveal_strlit("begintime"); reveal_strlit("endtime"); reveal_strlit("src"); reveal_strlit("speaker"); reveal_strlit("textclass"); reveal_strlit("metadata"); reveal_strlit("id"); reveal_strlit("space"); reveal_strlit("processor"); reveal_strlit("xlink:href"); reveal_strlit("format"); reveal_strlit("subset"); reveal_strlit("t"); reveal_strlit("type"); reveal_strlit("auth"); reveal_strlit("offset"); reveal_strlit("ref"); reveal_strlit("linenr"); reveal_strlit("pagenr"); reveal_strlit("newpage"); reveal_strlit("original"); reveal_strlit("xlink:type"); reveal_strlit("tag"); reveal_strlit("NONE");
}
proof fn lemma_value_strings()
    ensures "yes"@ != "no"@, "yes"@ != "false"@, "true"@ != "no"@, "true"@ != "false"@, "no"@ != "false"@, "auto"@ != "manual"@, "auto"@ != "generator"@, "auto"@ != "datasource"@, "manual"@ != "generator"@, "manual"@ != "datasource"@, "generator"@ != "datasource"@
{
    broadcast use ax::axiom_str_ext;
    reveal_strlit("yes"); reveal_strlit("no"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("auto"); reveal_strlit("manual"); reveal_strlit("generator"); reveal_strlit("datasource");
}
impl AttribType {
//# fn src/attrib.rs Into/AttribType::into
//# ret r
//# spec
    ensures r@ == s_att_name(self)
//# endfn
}
impl Attribute {
//# fn src/attrib.rs Attribute::to_string
//# ret r
//# spec
    ensures match s_value(*self) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err }
//# replace /f.to_string()/ => /vx_f64_text(f)/
//# replace /n.to_string()/ => /vx_u16_text(n)/
//# replace /dt.format("%Y-%m-%dT%H:%M:%S").to_string()/ => /vx_date_text(dt, "%Y-%m-%dT%H:%M:%S")/
//# endfn
//# fn src/attrib.rs Attribute::parse
//# ret r
//# spec
    ensures match s_unescaped(attrib.value@) {
        None => r is Err,
        Some(v) => {
            &&& forall|t: AttribType| #[trigger] s_att_name(t) == s_ascii(attrib.key@) && t != AttribType::NONE ==> match s_att_of(t, v) { Some(a) => r == Ok::<Attribute, FoliaError>(a), None => r is Err }
            &&& !s_att_known(s_ascii(attrib.key@)) ==>
                if s_ascii(attrib.key@) == "typegroup"@ || attrib.key@.contains(58u8) { r == Ok::<Attribute, FoliaError>(Attribute::Ignore) } else { r is Err }
        } }
//# replace /u16::from_str(&value)/ => /vx_u16(&value)/
//# replace /f64::from_str(&value)/ => /vx_f64(&value)/
//# replace /NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S")/ => /vx_date(&value, "%Y-%m-%dT%H:%M:%S")/
//# ghost start
    proof { lemma_att_names(); lemma_value_strings(); assert(s_att_name(AttribType::ID) == "xml:id"@); assert(s_att_name(AttribType::SET) == "set"@); assert(s_att_name(AttribType::CLASS) == "class"@); assert(s_att_name(AttribType::ANNOTATOR) == "annotator"@); assert(s_att_name(AttribType::ANNOTATORTYPE) == "annotatortype"@); assert(s_att_name(AttribType::CONFIDENCE) == "confidence"@); assert(s_att_name(AttribType::N) == "n"@); assert(s_att_name(AttribType::DATETIME) == "datetime"@); assert(s_att_name(AttribType::BEGINTIME) == "begintime"@); assert(s_att_name(AttribType::ENDTIME) == "endtime"@); assert(s_att_name(AttribType::SRC) == "src"@); assert(s_att_name(AttribType::SPEAKER) == "speaker"@); assert(s_att_name(AttribType::TEXTCLASS) == "textclass"@); assert(s_att_name(AttribType::METADATA) == "metadata"@); assert(s_att_name(AttribType::IDREF) == "id"@); assert(s_att_name(AttribType::SPACE) == "space"@); assert(s_att_name(AttribType::PROCESSOR) == "processor"@); assert(s_att_name(AttribType::HREF) == "xlink:href"@); assert(s_att_name(AttribType::FORMAT) == "format"@); assert(s_att_name(AttribType::SUBSET) == "subset"@); assert(s_att_name(AttribType::TEXT) == "t"@); assert(s_att_name(AttribType::TYPE) == "type"@); assert(s_att_name(AttribType::AUTH) == "auth"@); assert(s_att_name(AttribType::OFFSET) == "offset"@); assert(s_att_name(AttribType::REF) == "ref"@); assert(s_att_name(AttribType::LINENR) == "linenr"@); assert(s_att_name(AttribType::PAGENR) == "pagenr"@); assert(s_att_name(AttribType::NEWPAGE) == "newpage"@); assert(s_att_name(AttribType::ORIGINAL) == "original"@); assert(s_att_name(AttribType::XLINKTYPE) == "xlink:type"@); assert(s_att_name(AttribType::TAG) == "tag"@); assert(s_att_name(AttribType::NONE) == "NONE"@); }
//# endfn
}
// C03: every attribute that can be written is read back as it was, under its own name
proof fn c03_attribute(a: Attribute)
    requires s_value(a) is Some, match a { Attribute::Confidence(f) => s_f64_number(f), Attribute::DateTime(d) => s_date_whole(d), _ => true }
    ensures s_att_of(s_type(a), s_value(a)->0) == Some(a)
{
    lemma_value_strings();
    match a { Attribute::Confidence(f) => { axiom_f64_text(f); } Attribute::Offset(n) => { axiom_u16_text(n); } Attribute::LineNr(n) => { axiom_u16_text(n); } Attribute::DateTime(d) => { axiom_date_text(d); } _ => {} }
}
fn c03_client(a: &Attribute, x: &XmlAttribute, reader: &Reader<u8>)
    requires s_value(*a) is Some, s_type(*a) != AttribType::NONE, match *a { Attribute::Confidence(f) => s_f64_number(f), Attribute::DateTime(d) => s_date_whole(d), _ => true },
        s_ascii(x.key@) == s_att_name(s_type(*a)), s_unescaped(x.value@) == s_value(*a)
{
    proof { c03_attribute(*a); }
    let written = a.to_string();
    assert(written is Ok);
    let read = Attribute::parse(reader, x);
    assert(read == Ok::<Attribute, FoliaError>(*a));
}
proof fn c03_attribute_names(a: AttribType, b: AttribType)
    ensures s_att_name(a) == s_att_name(b) ==> a == b, a != AttribType::NONE ==> s_att_known(s_att_name(a))
{ lemma_att_names(); }
proof fn c03_processor_names(a: ProcessorType, b: ProcessorType)
    ensures s_pt_name(a) == s_pt_name(b) ==> a == b
{ lemma_value_strings(); }
fn c03_annotation_types(a: &AnnotationType, s: &str)
{
    proof { lemma_s_at_names(); }
    let back = AnnotationType::from_str(a.as_str());
    assert(back == Some(*a));
    let t = AnnotationType::from_str(s);
    assert(t is Some ==> s_at_name(t->0) == s@);
}
fn c03_element_types(a: &ElementType, s: &str)
{
    proof { lemma_s_el_names(); }
    let back = ElementType::from_str(a.as_str());
    assert(back == Ok::<ElementType, FoliaError>(*a));
}
}
fn main() {}
