// Reading an element of a document: keys are looked up in the document.
pub open spec fn s_none_encodable(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> !s_encodable(#[trigger] s[i]) }
pub open spec fn s_encv(e: ElementData, t: AttribType) -> Option<nat> { match s_enc(e, t) { Ok(x) => x, Err(_) => None } }
pub open spec fn s_read_dec(d: Option<Document>, e: ElementData) -> Option<Declaration> { match d { Some(d) => match s_encv(e, AttribType::SET) { Some(k) => s_dec(d, k as int), None => None }, None => None } }
pub open spec fn s_read_proc(d: Option<Document>, e: ElementData) -> Option<Processor> { match d { Some(d) => match s_encv(e, AttribType::PROCESSOR) { Some(k) => s_proc(d, k as int), None => None }, None => None } }
pub open spec fn s_read_set(d: Option<Document>, e: ElementData) -> Option<Seq<char>> { match s_read_dec(d, e) { Some(x) => s_opt(x.set), None => None } }
pub open spec fn s_read_subset(d: Option<Document>, e: ElementData) -> Option<Seq<char>> { match s_read_dec(d, e) { Some(x) => match s_encv(e, AttribType::SUBSET) { Some(k) => ss_get(s_strings2(x.subsets), k as int), None => None }, None => None } }
pub open spec fn s_read_class(d: Option<Document>, e: ElementData) -> Option<Seq<char>> {
    match s_read_dec(d, e) { Some(x) => match s_encv(e, AttribType::CLASS) { Some(k) => if s_encv(e, AttribType::SUBSET) is Some { ss_get(s_strings(x.subclasses), k as int) } else { ss_get(s_strings(x.classes), k as int) }, None => None }, None => None }
}
pub open spec fn s_read_processor(d: Option<Document>, e: ElementData) -> Option<Seq<char>> { match s_read_proc(d, e) { Some(x) => Some(x.id@), None => None } }
pub open spec fn v_str(r: Option<&str>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
pub open spec fn v_doc(r: Option<&Document>) -> Option<Document> { match r { Some(d) => Some(*d), None => None } }
pub proof fn lemma_enc_ok(e: ElementData)
    requires s_none_encodable(e.attribs@)
    ensures s_enc(e, AttribType::SET) is Ok, s_enc(e, AttribType::CLASS) is Ok, s_enc(e, AttribType::SUBSET) is Ok, s_enc(e, AttribType::PROCESSOR) is Ok
{
    lemma_first(e.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::SET));
    lemma_first(e.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::CLASS));
    lemma_first(e.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::SUBSET));
    lemma_first(e.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::PROCESSOR));
}
// the element that this one refers to
pub open spec fn s_refers_to(d: Option<Document>, e: ElementData) -> Option<ElementData> {
    match d { Some(d) => match s_first(e.attribs@, |a: Attribute| a is Idref) { Some(i) => match s_lookup(d.elementstore.index@, e.attribs@[i]->Idref_0@) { Some(k) => s_elem(d, k as int), None => None }, None => None }, None => None }
}
//# item src/element.rs struct Element derive(Clone,Copy)
pub trait ReadElement {
    spec fn s_data(&self) -> ElementData;
    spec fn s_document(&self) -> Option<Document>;
//# fn src/element.rs ReadElement::elementdata
//# ret r
//# nobody
//# spec
    ensures *r == self.s_data()
//# endfn
//# fn src/element.rs ReadElement::document
//# ret r
//# nobody
//# spec
    ensures v_doc(r) == self.s_document()
//# endfn
//# fn src/element.rs ReadElement::key
//# ret r
//# spec
    ensures r == self.s_data().key
//# endfn
//# fn src/element.rs ReadElement::attribs
//# ret r
//# spec
    ensures *r == self.s_data().attribs
//# endfn
//# fn src/element.rs ReadElement::elementtype
//# ret r
//# spec
    ensures r == self.s_data().elementtype
//# endfn
//# fn src/element.rs ReadElement::attrib
//# ret r
//# spec
    ensures match s_find(self.s_data().attribs@, atype) { Some(i) => r == Some(&self.s_data().attribs@[i]) && s_type(*r->0) == atype, None => r is None }
//# endfn
//# fn src/element.rs ReadElement::has_attrib
//# ret r
//# spec
    ensures r == (s_find(self.s_data().attribs@, atype) is Some)
//# endfn
//# fn src/element.rs ReadElement::resolve
//# ret r
//# spec
    requires self.s_document() is Some ==> s_elems_inv(self.s_document()->0)
    ensures match s_refers_to(self.s_document(), self.s_data()) { Some(x) => r is Some && *r->0.data == x && v_doc(r->0.document) == self.s_document(), None => r is None }
//# loop 1 it
    invariant v_doc(Some(doc)) == self.s_document(), s_elems_inv(*doc), forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.s_data().attribs@[j]) is Idref),
//# ghost loop 1 start
    assert(attrib == &self.s_data().attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.s_data().attribs@, |a: Attribute| a is Idref); }
//# endfn
//# fn src/element.rs ReadElement::id
//# ret r
//# spec
    ensures v_str(r) == s_el_id(self.s_data())
//# endfn
//# fn src/element.rs ReadElement::class_key
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures s_encv(self.s_data(), AttribType::CLASS) == (match r { Some(k) => Some(k as nat), None => None })
//# ghost start
    proof { lemma_enc_ok(self.s_data()); }
//# endfn
//# fn src/element.rs ReadElement::subset_key
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures s_encv(self.s_data(), AttribType::SUBSET) == (match r { Some(k) => Some(k as nat), None => None })
//# ghost start
    proof { lemma_enc_ok(self.s_data()); }
//# endfn
//# fn src/element.rs ReadElement::declaration_key
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures s_encv(self.s_data(), AttribType::SET) == (match r { Some(k) => Some(k as nat), None => None })
//# ghost start
    proof { lemma_enc_ok(self.s_data()); }
//# endfn
//# fn src/element.rs ReadElement::processor_key
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures s_encv(self.s_data(), AttribType::PROCESSOR) == (match r { Some(k) => Some(k as nat), None => None })
//# ghost start
    proof { lemma_enc_ok(self.s_data()); }
//# endfn
//# fn src/element.rs ReadElement::parent_key
//# ret r
//# spec
    ensures r == self.s_data().parent
//# endfn
//# fn src/element.rs ReadElement::get_declaration
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures s_read_dec(self.s_document(), self.s_data()) == (match r { Some(x) => Some(*x), None => None })
//# endfn
//# fn src/element.rs ReadElement::get_processor
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures s_read_proc(self.s_document(), self.s_data()) == (match r { Some(x) => Some(*x), None => None })
//# endfn
//# fn src/element.rs ReadElement::set
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures v_str(r) == s_read_set(self.s_document(), self.s_data())
//# endfn
//# fn src/element.rs ReadElement::subset
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures v_str(r) == s_read_subset(self.s_document(), self.s_data())
//# endfn
//# fn src/element.rs ReadElement::class
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures v_str(r) == s_read_class(self.s_document(), self.s_data())
//# endfn
//# fn src/element.rs ReadElement::processor
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures v_str(r) == s_read_processor(self.s_document(), self.s_data())
//# endfn
//# fn src/element.rs ReadElement::annotator
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures v_str(r) == (match s_read_proc(self.s_document(), self.s_data()) { Some(x) => Some(x.name@), None => match s_fval(self.s_data().attribs@, |a: Attribute| a is Annotator) { Some(a) => Some(a->Annotator_0@), None => None } })
//# ghost start
    proof { lemma_first(self.s_data().attribs@, |a: Attribute| a is Annotator); }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.s_data().attribs@[j]) is Annotator),
//# ghost loop 1 start
    assert(attrib == &self.s_data().attribs@[it.index()]);
//# endfn
//# fn src/element.rs ReadElement::annotatortype
//# ret r
//# spec
    requires s_none_encodable(self.s_data().attribs@)
    ensures r == (match s_read_proc(self.s_document(), self.s_data()) { Some(x) => Some(x.processortype), None => match s_fval(self.s_data().attribs@, |a: Attribute| a is AnnotatorType) { Some(a) => Some(a->AnnotatorType_0), None => None } })
//# ghost start
    proof { lemma_first(self.s_data().attribs@, |a: Attribute| a is AnnotatorType); }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.s_data().attribs@[j]) is AnnotatorType),
//# ghost loop 1 start
    assert(attrib == &self.s_data().attribs@[it.index()]);
//# endfn
//# fn src/element.rs ReadElement::get_parent
//# ret r
//# spec
    ensures match (match self.s_document() { Some(d) => match self.s_data().parent { Some(k) => s_elem(d, k as int), None => None }, None => None }) { Some(x) => r is Some && *r->0.data == x && v_doc(r->0.document) == self.s_document(), None => r is None }
//# endfn
}
impl<'a> ReadElement for Element<'a> {
    open spec fn s_data(&self) -> ElementData { *self.data }
    open spec fn s_document(&self) -> Option<Document> { v_doc(self.document) }
//# fn src/element.rs ReadElement/Element::elementdata
//# endfn
//# fn src/element.rs ReadElement/Element::document
//# endfn
}
impl<'a> Element<'a> {
//# fn src/element.rs Element::elementdata
//# ret r
//# spec
    ensures r == self.data
//# endfn
}
impl Document {
//# fn src/document.rs Document::get_element
//# ret r
//# spec
    ensures match s_elem(*self, key as int) { Some(x) => r is Some && *r->0.data == x && v_doc(r->0.document) == Some(*self), None => r is None }
//# endfn
//# fn src/document.rs Document::get_element_by_id
//# ret r
//# spec
    requires s_elems_inv(*self)
    ensures match s_lookup(self.elementstore.index@, id@) { Some(k) => r is Some && s_elem(*self, k as int) == Some(*r->0.data) && s_el_id(*r->0.data) == Some(id@) && v_doc(r->0.document) == Some(*self), None => r is None }
//# endfn
}
