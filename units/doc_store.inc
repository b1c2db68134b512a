//# include doc_encode_spec.inc
impl Storable<ElementKey> for ElementData {
    open spec fn s_id(&self) -> Option<Seq<char>> { s_el_id(*self) }
    open spec fn s_encodable(&self) -> bool { s_any_encodable(self.attribs@) }
    open spec fn s_keyed(&self, key: ElementKey) -> Self { ElementData { key: Some(key), ..*self } }
    open spec fn s_own_key(&self) -> Option<ElementKey> { self.key }
//# fn src/element.rs Storable/ElementData::maybe_id
//# ghost start
    proof { lemma_find(self.attribs@, AttribType::ID); lemma_first(self.attribs@, |a: Attribute| a is Id); }
//# endfn
//# fn src/element.rs Storable/ElementData::encodable
//# ret r
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !s_encodable(#[trigger] self.attribs@[j]),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# endfn
//# fn src/element.rs Storable/ElementData::key
//# endfn
//# fn src/element.rs Storable/ElementData::assign_key
//# endfn
}
impl Storable<DecKey> for Declaration {
    open spec fn s_id(&self) -> Option<Seq<char>> { Some(s_dec_id(self.annotationtype, s_opt(self.set))) }
    open spec fn s_encodable(&self) -> bool { false }
    open spec fn s_keyed(&self, key: DecKey) -> Self { Declaration { key: Some(key), ..*self } }
    open spec fn s_own_key(&self) -> Option<DecKey> { self.key }
//# fn src/metadata.rs Storable/Declaration::maybe_id
//# endfn
//# fn src/store.rs Storable::encodable
//# tsub /bool/ => /bool/
//# endfn
//# fn src/metadata.rs Storable/Declaration::key
//# endfn
//# fn src/metadata.rs Storable/Declaration::assign_key
//# endfn
}
impl Storable<ProcKey> for Processor {
    open spec fn s_id(&self) -> Option<Seq<char>> { Some(self.id@) }
    open spec fn s_encodable(&self) -> bool { false }
    open spec fn s_keyed(&self, key: ProcKey) -> Self { Processor { key: Some(key), ..*self } }
    open spec fn s_own_key(&self) -> Option<ProcKey> { self.key }
//# fn src/metadata.rs Storable/Processor::maybe_id
//# endfn
//# fn src/store.rs Storable::encodable
//# tsub /bool/ => /bool/
//# endfn
//# fn src/metadata.rs Storable/Processor::key
//# endfn
//# fn src/metadata.rs Storable/Processor::assign_key
//# endfn
}
impl Declaration {
//# fn src/metadata.rs Declaration::index_id
//# ret r
//# spec
    ensures r@ == s_dec_id(annotationtype, match *set { Some(s) => Some(s@), None => None })
//# replace /format!("{}/{}", annotationtype, set)/ => /vx_slash(annotationtype, set)/
//# replace /format!("{}", annotationtype)/ => /annotationtype.as_str().to_string()/
//# endfn
}
//# trust format!("{}/{}", a, b) writes what the Display of a writes (AnnotationType: as_str), a slash and b
#[verifier::external_body]
pub fn vx_slash(a: AnnotationType, b: &&str) -> (r: String) ensures r@ == s_at_name(a) + seq!['/'] + b@ { unimplemented!() }

impl Store<ElementData, ElementKey> for Document {
    open spec fn s_items(&self) -> Seq<Option<Box<ElementData>>> { self.elementstore.items@ }
    open spec fn s_index(&self) -> Map<String, ElementKey> { self.elementstore.index@ }
    open spec fn s_rest(&self) -> Self { s_but_elems(*self) }
    open spec fn s_encode_pre(before: &Self, item: ElementData) -> bool { s_encode_el_pre(*before, item) }
    open spec fn s_encode(before: &Self, item: ElementData, context: Option<ElementKey>, after: &Self, r: Result<ElementData, FoliaError>) -> bool { s_encode_el(*before, item, context, *after, r) }
//# fn src/document.rs Store<ElementData,ElementKey>/Document::items_mut
//# endfn
//# fn src/document.rs Store<ElementData,ElementKey>/Document::index_mut
//# endfn
//# fn src/document.rs Store<ElementData,ElementKey>/Document::items
//# endfn
//# fn src/document.rs Store<ElementData,ElementKey>/Document::index
//# endfn
//# if-unit encode
//# mode prove
//# include doc_encode.inc
//# mode assume
//# end-if
//# if-not-unit encode
//# fn src/document.rs Store<ElementData,ElementKey>/Document::encode
//# assume
//# endfn
//# end-if
}
impl Store<Declaration, DecKey> for Document {
    open spec fn s_items(&self) -> Seq<Option<Box<Declaration>>> { self.declarationstore.items@ }
    open spec fn s_index(&self) -> Map<String, DecKey> { self.declarationstore.index@ }
    open spec fn s_rest(&self) -> Self { s_but_decs(*self) }
    open spec fn s_encode_pre(before: &Self, item: Declaration) -> bool { true }
    open spec fn s_encode(before: &Self, item: Declaration, context: Option<DecKey>, after: &Self, r: Result<Declaration, FoliaError>) -> bool { *after == *before && r == Ok::<Declaration, FoliaError>(item) }
//# fn src/document.rs Store<Declaration,DecKey>/Document::items_mut
//# endfn
//# fn src/document.rs Store<Declaration,DecKey>/Document::index_mut
//# endfn
//# fn src/document.rs Store<Declaration,DecKey>/Document::items
//# endfn
//# fn src/document.rs Store<Declaration,DecKey>/Document::index
//# endfn
//# fn src/store.rs Store::encode
//# tsub /item: T/ => /item: Declaration/
//# tsub /Result<T,/ => /Result<Declaration,/
//# tsub /Option<Key>/ => /Option<DecKey>/
//# endfn
}
impl Store<Processor, ProcKey> for Document {
    open spec fn s_items(&self) -> Seq<Option<Box<Processor>>> { self.provenancestore.items@ }
    open spec fn s_index(&self) -> Map<String, ProcKey> { self.provenancestore.index@ }
    open spec fn s_rest(&self) -> Self { s_but_procs(*self) }
    open spec fn s_encode_pre(before: &Self, item: Processor) -> bool { true }
    open spec fn s_encode(before: &Self, item: Processor, context: Option<ProcKey>, after: &Self, r: Result<Processor, FoliaError>) -> bool { *after == *before && r == Ok::<Processor, FoliaError>(item) }
//# fn src/document.rs Store<Processor,ProcKey>/Document::items_mut
//# endfn
//# fn src/document.rs Store<Processor,ProcKey>/Document::index_mut
//# endfn
//# fn src/document.rs Store<Processor,ProcKey>/Document::items
//# endfn
//# fn src/document.rs Store<Processor,ProcKey>/Document::index
//# endfn
//# fn src/store.rs Store::encode
//# tsub /item: T/ => /item: Processor/
//# tsub /Result<T,/ => /Result<Processor,/
//# tsub /Option<Key>/ => /Option<ProcKey>/
//# endfn
}
// s_inv of a store after one of its items was replaced by one with the same ID
pub proof fn lemma_update_inv<T: Storable<Key>, Key>(items: Seq<Option<Box<T>>>, index: Map<String, Key>, i: int, x: T) where usize: TryFrom<Key>
    requires s_inv(items, index), 0 <= i < items.len(), items[i] is Some, x.s_id() == items[i]->0.s_id()
    ensures s_inv(items.update(i, Some(Box::new(x))), index)
{
    let n = items.update(i, Some(Box::new(x)));
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]) is Some && match n[j]->0.s_id() { Some(id) => index.contains_key(string_of(id)) && s_idx(index[string_of(id)]) == j, None => true } by { assert(items[j] is Some); }
}
impl Document {
//# fn src/document.rs Document::get_elementdata
//# ret r
//# spec
    ensures match r { Some(x) => s_elem(*self, key as int) == Some(*x), None => s_elem(*self, key as int) is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_elementdata_by_id
//# ret r
//# spec
    requires s_inv::<ElementData, ElementKey>(self.elementstore.items@, self.elementstore.index@)
    ensures match s_lookup(self.elementstore.index@, id@) { Some(k) => r is Some && s_elem(*self, k as int) == Some(*r->0) && r->0.s_id() == Some(id@), None => r is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_mut_elementdata
//# ret r
//# spec
    ensures s_but_elems(*final(self)) == s_but_elems(*old(self)), final(self).elementstore.index@ == old(self).elementstore.index@,
        match r { Some(x) => s_elem(*old(self), key as int) == Some(*x) && final(self).elementstore.items@ == old(self).elementstore.items@.update(key as int, Some(Box::new(*final(x)))),
            None => s_elem(*old(self), key as int) is None && final(self).elementstore.items@ == old(self).elementstore.items@ }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_mut_elementdata_by_id
//# ret r
//# spec
    requires s_inv::<ElementData, ElementKey>(old(self).elementstore.items@, old(self).elementstore.index@)
    ensures s_but_elems(*final(self)) == s_but_elems(*old(self)), final(self).elementstore.index@ == old(self).elementstore.index@,
        match s_lookup(old(self).elementstore.index@, id@) {
            Some(k) => r is Some && s_elem(*old(self), k as int) == Some(*r->0) && r->0.s_id() == Some(id@) && final(self).elementstore.items@ == old(self).elementstore.items@.update(k as int, Some(Box::new(*final(r->0)))),
            None => r is None && final(self).elementstore.items@ == old(self).elementstore.items@ }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_element_key_by_id
//# ret r
//# spec
    ensures r == s_lookup(self.elementstore.index@, id@)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_declaration
//# ret r
//# spec
    ensures match r { Some(x) => s_dec(*self, key as int) == Some(*x), None => s_dec(*self, key as int) is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_declaration_by_id
//# ret r
//# spec
    requires s_inv::<Declaration, DecKey>(self.declarationstore.items@, self.declarationstore.index@)
    ensures match s_lookup(self.declarationstore.index@, id@) { Some(k) => r is Some && s_dec(*self, k as int) == Some(*r->0) && r->0.s_id() == Some(id@), None => r is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_mut_declaration
//# ret r
//# spec
    ensures s_but_decs(*final(self)) == s_but_decs(*old(self)), final(self).declarationstore.index@ == old(self).declarationstore.index@,
        match r { Some(x) => s_dec(*old(self), key as int) == Some(*x) && final(self).declarationstore.items@ == old(self).declarationstore.items@.update(key as int, Some(Box::new(*final(x)))),
            None => s_dec(*old(self), key as int) is None && final(self).declarationstore.items@ == old(self).declarationstore.items@ }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_mut_declaration_by_id
//# ret r
//# spec
    requires s_inv::<Declaration, DecKey>(old(self).declarationstore.items@, old(self).declarationstore.index@)
    ensures s_but_decs(*final(self)) == s_but_decs(*old(self)), final(self).declarationstore.index@ == old(self).declarationstore.index@,
        match s_lookup(old(self).declarationstore.index@, id@) {
            Some(k) => r is Some && s_dec(*old(self), k as int) == Some(*r->0) && r->0.s_id() == Some(id@) && final(self).declarationstore.items@ == old(self).declarationstore.items@.update(k as int, Some(Box::new(*final(r->0)))),
            None => r is None && final(self).declarationstore.items@ == old(self).declarationstore.items@ }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_declaration_key_by_id
//# ret r
//# spec
    ensures r == s_lookup(self.declarationstore.index@, id@)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_processor
//# ret r
//# spec
    ensures match r { Some(x) => s_proc(*self, key as int) == Some(*x), None => s_proc(*self, key as int) is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_processor_by_id
//# ret r
//# spec
    requires s_inv::<Processor, ProcKey>(self.provenancestore.items@, self.provenancestore.index@)
    ensures match s_lookup(self.provenancestore.index@, id@) { Some(k) => r is Some && s_proc(*self, k as int) == Some(*r->0) && r->0.s_id() == Some(id@), None => r is None }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_mut_processor
//# ret r
//# spec
    ensures s_but_procs(*final(self)) == s_but_procs(*old(self)), final(self).provenancestore.index@ == old(self).provenancestore.index@,
        match r { Some(x) => s_proc(*old(self), key as int) == Some(*x) && final(self).provenancestore.items@ == old(self).provenancestore.items@.update(key as int, Some(Box::new(*final(x)))),
            None => s_proc(*old(self), key as int) is None && final(self).provenancestore.items@ == old(self).provenancestore.items@ }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_mut_processor_by_id
//# ret r
//# spec
    requires s_inv::<Processor, ProcKey>(old(self).provenancestore.items@, old(self).provenancestore.index@)
    ensures s_but_procs(*final(self)) == s_but_procs(*old(self)), final(self).provenancestore.index@ == old(self).provenancestore.index@,
        match s_lookup(old(self).provenancestore.index@, id@) {
            Some(k) => r is Some && s_proc(*old(self), k as int) == Some(*r->0) && r->0.s_id() == Some(id@) && final(self).provenancestore.items@ == old(self).provenancestore.items@.update(k as int, Some(Box::new(*final(r->0)))),
            None => r is None && final(self).provenancestore.items@ == old(self).provenancestore.items@ }
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::get_processor_key_by_id
//# ret r
//# spec
    ensures r == s_lookup(self.provenancestore.index@, id@)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::add_declaration
//# ret r
//# spec
    requires s_decs_inv(*old(self)), s_dec_ok(declaration)
    ensures s_decs_inv(*final(self)), s_but_decs(*final(self)) == s_but_decs(*old(self)),
        s_add::<Declaration, DecKey>(old(self).declarationstore.items@, old(self).declarationstore.index@, declaration, final(self).declarationstore.items@, final(self).declarationstore.index@, r)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
//# fn src/document.rs Document::add_provenance
//# ret r
//# spec
    requires s_procs_inv(*old(self))
    ensures s_procs_inv(*final(self)), s_but_procs(*final(self)) == s_but_procs(*old(self)),
        s_add::<Processor, ProcKey>(old(self).provenancestore.items@, old(self).provenancestore.index@, processor, final(self).provenancestore.items@, final(self).provenancestore.index@, r)
//# ghost start
    proof { lemma_key_laws(); }
//# endfn
}
