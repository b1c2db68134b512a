// index of the first attribute that satisfies f
pub open spec fn s_first(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None } else if f(s[0]) { Some(0) } else { match s_first(s.drop_first(), f) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_first(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool)
    ensures match s_first(s, f) {
        Some(i) => 0 <= i < s.len() && f(s[i]) && forall|j: int| 0 <= j < i ==> !f(#[trigger] s[j]),
        None => forall|j: int| 0 <= j < s.len() ==> !f(#[trigger] s[j]) },
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.drop_first(), f);
        assert forall|j: int| 1 <= j < s.len() implies #[trigger] s[j] == s.drop_first()[j - 1] by {}
    }
}
// the ID an element carries
pub open spec fn s_el_id(e: ElementData) -> Option<Seq<char>> { match s_first(e.attribs@, |a: Attribute| a is Id) { Some(i) => Some(e.attribs@[i]->Id_0@), None => None } }
// set, class, subset and processor of an element that is not encoded; Err where an encoded attribute comes first
pub open spec fn s_raw(e: ElementData, t: AttribType) -> Result<Option<Seq<char>>, ()> {
    match s_first(e.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == t)) { Some(i) => if s_decodable(e.attribs@[i]) { Err(()) } else { Ok(Some(s_text(e.attribs@[i])->0)) }, None => Ok(None) }
}
// declaration, class, subset and processor key of an element that is encoded; Err where an unencoded attribute comes first
pub open spec fn s_ref(a: Attribute) -> nat { match a { Attribute::DeclarationRef(k) => k as nat, Attribute::ClassRef(k) => k as nat, Attribute::SubsetRef(k) => k as nat, Attribute::ProcessorRef(k) => k as nat, _ => 0 } }
pub open spec fn s_enc(e: ElementData, t: AttribType) -> Result<Option<nat>, ()> {
    match s_first(e.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == t)) { Some(i) => if s_encodable(e.attribs@[i]) { Err(()) } else { Ok(Some(s_ref(e.attribs@[i]))) }, None => Ok(None) }
}
pub open spec fn v_raw(r: Result<Option<&str>, FoliaError>) -> Result<Option<Seq<char>>, ()> { match r { Ok(Some(s)) => Ok(Some(s@)), Ok(None) => Ok(None), Err(_) => Err(()) } }
pub open spec fn s_any_encodable(s: Seq<Attribute>) -> bool { exists|i: int| 0 <= i < s.len() && s_encodable(#[trigger] s[i]) }

impl ElementData {
//# fn src/element.rs ElementData::id
//# ret r
//# spec
    ensures match r { Some(x) => s_el_id(*self) == Some(x@), None => s_el_id(*self) is None }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Id),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| a is Id); }
//# endfn
//# fn src/element.rs ElementData::is_empty
//# ret r
//# spec
    ensures r == (self.data@.len() == 0)
//# endfn
//# fn src/element.rs ElementData::class
//# ret r
//# spec
    ensures v_raw(r) == s_raw(*self, AttribType::CLASS)
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Class) && !s_decodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::CLASS)); }
//# endfn
//# fn src/element.rs ElementData::set
//# ret r
//# spec
    ensures v_raw(r) == s_raw(*self, AttribType::SET)
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Set) && !s_decodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::SET)); }
//# endfn
//# fn src/element.rs ElementData::subset
//# ret r
//# spec
    ensures v_raw(r) == s_raw(*self, AttribType::SUBSET)
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Subset) && !s_decodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::SUBSET)); }
//# endfn
//# fn src/element.rs ElementData::processor
//# ret r
//# spec
    ensures v_raw(r) == s_raw(*self, AttribType::PROCESSOR)
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Processor) && !s_decodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_decodable(a) || (s_encodable(a) && s_type(a) == AttribType::PROCESSOR)); }
//# endfn
//# fn src/element.rs ElementData::class_key
//# ret r
//# spec
    ensures match r { Ok(Some(k)) => s_enc(*self, AttribType::CLASS) == Ok::<Option<nat>, ()>(Some(k as nat)), Ok(None) => s_enc(*self, AttribType::CLASS) == Ok::<Option<nat>, ()>(None), Err(_) => s_enc(*self, AttribType::CLASS) is Err }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is ClassRef) && !s_encodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::CLASS)); }
//# endfn
//# fn src/element.rs ElementData::declaration_key
//# ret r
//# spec
    ensures match r { Ok(Some(k)) => s_enc(*self, AttribType::SET) == Ok::<Option<nat>, ()>(Some(k as nat)), Ok(None) => s_enc(*self, AttribType::SET) == Ok::<Option<nat>, ()>(None), Err(_) => s_enc(*self, AttribType::SET) is Err }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is DeclarationRef) && !s_encodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::SET)); }
//# endfn
//# fn src/element.rs ElementData::subset_key
//# ret r
//# spec
    ensures match r { Ok(Some(k)) => s_enc(*self, AttribType::SUBSET) == Ok::<Option<nat>, ()>(Some(k as nat)), Ok(None) => s_enc(*self, AttribType::SUBSET) == Ok::<Option<nat>, ()>(None), Err(_) => s_enc(*self, AttribType::SUBSET) is Err }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is SubsetRef) && !s_encodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::SUBSET)); }
//# endfn
//# fn src/element.rs ElementData::processor_key
//# ret r
//# spec
    ensures match r { Ok(Some(k)) => s_enc(*self, AttribType::PROCESSOR) == Ok::<Option<nat>, ()>(Some(k as nat)), Ok(None) => s_enc(*self, AttribType::PROCESSOR) == Ok::<Option<nat>, ()>(None), Err(_) => s_enc(*self, AttribType::PROCESSOR) is Err }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is ProcessorRef) && !s_encodable(self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| s_encodable(a) || (s_decodable(a) && s_type(a) == AttribType::PROCESSOR)); }
//# endfn
//# fn src/element.rs ElementData::idref
//# ret r
//# spec
    ensures match s_first(self.attribs@, |a: Attribute| a is Idref) { Some(i) => r is Some && r->0@ == self.attribs@[i]->Idref_0@, None => r is None }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Idref),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| a is Idref); }
//# endfn
//# fn src/element.rs ElementData::new
//# ret r
//# spec
    ensures r.elementtype == elementtype, r.attribs@.len() == 0, r.data@.len() == 0, r.key is None, r.parent is None
//# endfn
//# fn src/element.rs ElementData::add_element
//# ret r
//# spec
    ensures r.data@ == self.data@.push(DataType::AddElement(data)), r.attribs == self.attribs, r.elementtype == self.elementtype, r.key == self.key, r.parent == self.parent
//# endfn
//# fn src/element.rs ElementData::push
//# spec
    ensures final(self).data@ == old(self).data@.push(datatype), s_same_but_data(*old(self), *final(self))
//# endfn
//# fn src/element.rs ElementData::with
//# ret r
//# spec
    ensures r.data@ == self.data@.push(data), s_same_but_data(self, r)
//# endfn
//# fn src/element.rs ElementData::with_children
//# ret r
//# spec
    ensures r.data@ == self.data@ + data@, s_same_but_data(self, r)
//# loop 1 it
    invariant vx_self.data@ == self.data@ + data@.take(it.index()), s_same_but_data(self, vx_self),
//# endfn
//# fn src/element.rs ElementData::parent_key
//# ret r
//# spec
    ensures r == self.parent
//# endfn
//# fn src/element.rs ElementData::set_parent_key
//# spec
    ensures final(self).parent == parent, final(self).data == old(self).data, final(self).attribs == old(self).attribs, final(self).key == old(self).key, final(self).elementtype == old(self).elementtype
//# endfn
//# fn src/element.rs ElementData::with_parent_key
//# ret r
//# spec
    ensures r.parent == parent, r.data == self.data, r.attribs == self.attribs, r.key == self.key, r.elementtype == self.elementtype
//# endfn
//# fn src/element.rs ElementData::get_data_at
//# ret r
//# spec
    ensures match r { Some(d) => index < self.data@.len() && *d == self.data@[index as int], None => index >= self.data@.len() }
//# endfn
//# fn src/element.rs ElementData::len
//# ret r
//# spec
    ensures r == self.data@.len()
//# endfn
//# fn src/element.rs ElementData::index
//# ret r
//# spec
    ensures *refchild is Element ==> match r {
        Some(i) => i < self.data@.len() && self.data@[i as int] == *refchild && forall|j: int| 0 <= j < i ==> self.data@[j] != *refchild,
        None => !self.data@.contains(*refchild) }
//# call 1 vx_position iter_position
//# closure 1 |child: &DataType| -> (b: bool) ensures *refchild is Element ==> b == (*child == *refchild)
//# replace /*child == *refchild/ => /vx_data_eq(child, refchild)/
//# endfn
//# fn src/element.rs ElementData::remove
//# ret r
//# spec
    ensures s_same_but_data(*old(self), *final(self)),
        index < old(self).data@.len() ==> r == Some(old(self).data@[index as int]) && final(self).data@ == old(self).data@.remove(index as int),
        index >= old(self).data@.len() ==> r is None && final(self).data@ == old(self).data@
//# endfn
}
pub open spec fn s_same_but_data(a: ElementData, b: ElementData) -> bool { a.elementtype == b.elementtype && a.attribs == b.attribs && a.key == b.key && a.parent == b.parent }
//# trust the derived PartialEq of DataType compares DataType::Element(k) with anything as the logic does
#[verifier::external_body]
pub fn vx_data_eq(a: &DataType, b: &DataType) -> (r: bool)
    ensures *b is Element ==> r == (*a == *b)
{ unimplemented!() }
