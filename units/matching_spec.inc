// Queries, selectors and what they match.
//# item src/query.rs enum Action
//# item src/query.rs enum Cmp derive(Debug)
//# derived src/query.rs Cmp Clone PartialEq
pub open spec fn s_cmp_eq<T: PartialEq + Debug>(a: Cmp<T>, b: Cmp<T>) -> bool { match (a, b) { (Cmp::Any, Cmp::Any) => true, (Cmp::Some, Cmp::Some) => true, (Cmp::None, Cmp::None) => true, (Cmp::Unmatchable, Cmp::Unmatchable) => true, (Cmp::Is(x), Cmp::Is(y)) => x.eq_spec(&y), _ => false } }
impl<T: PartialEq + Debug> PartialEqSpecImpl for Cmp<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Cmp<T>) -> bool { s_cmp_eq(*self, *other) }
}
impl<T: PartialEq + Debug> PartialEq for Cmp<T> {
    fn eq(&self, other: &Cmp<T>) -> bool { match (self, other) { (Cmp::Any, Cmp::Any) => true, (Cmp::Some, Cmp::Some) => true, (Cmp::None, Cmp::None) => true, (Cmp::Unmatchable, Cmp::Unmatchable) => true, (Cmp::Is(x), Cmp::Is(y)) => x == y, _ => false } }
}
pub open spec fn s_cmp_cloned<T: Clone + Debug>(a: Cmp<T>, b: Cmp<T>) -> bool { match (a, b) { (Cmp::Any, Cmp::Any) => true, (Cmp::Some, Cmp::Some) => true, (Cmp::None, Cmp::None) => true, (Cmp::Unmatchable, Cmp::Unmatchable) => true, (Cmp::Is(x), Cmp::Is(y)) => cloned(x, y), _ => false } }
impl<T: Clone + Debug> Clone for Cmp<T> {
    fn clone(&self) -> (r: Self) ensures s_cmp_cloned(*self, r) { match self { Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::None => Cmp::None, Cmp::Unmatchable => Cmp::Unmatchable, Cmp::Is(x) => Cmp::Is(x.clone()) } }
}
impl<T> Default for Cmp<T> where T: Debug {
//# fn src/query.rs Default/Cmp::default
//# ret r
//# spec
    ensures r is Any
//# endfn
}
impl Default for Action {
//# fn src/query.rs Default/Action::default
//# endfn
}
//# item src/query.rs struct Query
//# item src/select.rs enum DataTypeSelector derive(Copy,Clone,PartialEq,Eq,Structural)
//# item src/select.rs struct Selector
//# derived src/select.rs Selector Default
//# derived src/query.rs Query Default
// what derive generates
impl Default for Selector {
    fn default() -> (r: Self)
        ensures s_blank(r) && r.datatypes@.len() == 0 && r.elementgroup is Any && r.next is None
    { Selector { action: Default::default(), datatypes: Vec::new(), elementtype: Default::default(), elementgroup: Default::default(), contexttype: Default::default(), set: Default::default(), class: Default::default(), processor: Default::default(),
        subset: Default::default(), confidence: Default::default(), annotator: Default::default(), annotatortype: Default::default(), next: None } }
}
impl Default for Query {
    fn default() -> (r: Self)
        ensures s_blank_query(r) && r.elementgroup is Any && r.set is Any
    { Query { action: Default::default(), elementtype: Default::default(), elementgroup: Default::default(), contexttype: Default::default(), set: Default::default(), class: Default::default(), processor: Default::default(),
        subset: Default::default(), confidence: Default::default(), annotator: Default::default(), annotatortype: Default::default() } }
}
pub mod axm {
use super::*;
// equality of floating-point numbers is a function of the two; String == String compares the characters
pub broadcast axiom fn axiom_f64_obeys() ensures #[trigger] <f64 as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_obeys() ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq(a: String, b: String) ensures (#[trigger] <String as PartialEqSpec>::eq_spec(&a, &b)) == (a@ == b@);
// the derived PartialEq of these is structural equality
pub broadcast axiom fn axiom_pt_obeys() ensures #[trigger] <ProcessorType as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_pt_eq(a: ProcessorType, b: ProcessorType) ensures (#[trigger] <ProcessorType as PartialEqSpec>::eq_spec(&a, &b)) == (a == b);
pub broadcast axiom fn axiom_ds_obeys() ensures #[trigger] <DataTypeSelector as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_ds_eq(a: DataTypeSelector, b: DataTypeSelector) ensures (#[trigger] <DataTypeSelector as PartialEqSpec>::eq_spec(&a, &b)) == (a == b);
}
broadcast group group_matching {axiom_et_obeys, axiom_et_eq, axm::axiom_f64_obeys, axm::axiom_string_obeys, axm::axiom_string_eq, axm::axiom_pt_obeys, axm::axiom_pt_eq, axm::axiom_ds_obeys, axm::axiom_ds_eq}
pub open spec fn v_ref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
// what one criterion asks of a value
pub open spec fn s_cmp<T: PartialEq + Debug>(c: Cmp<T>, o: Option<T>) -> bool {
    match c { Cmp::Any => true, Cmp::Is(v) => match o { Some(w) => v.eq_spec(&w), None => false }, Cmp::Some => o is Some, Cmp::None => o is None, Cmp::Unmatchable => false }
}
// the same, of characters and of keys
pub open spec fn s_cmp_str(c: Cmp<String>, o: Option<Seq<char>>) -> bool { match c { Cmp::Any => true, Cmp::Is(v) => o == Some(v@), Cmp::Some => o is Some, Cmp::None => o is None, Cmp::Unmatchable => false } }
pub open spec fn s_cmp16(c: Cmp<u16>, o: Option<nat>) -> bool { match c { Cmp::Any => true, Cmp::Is(v) => o == Some(v as nat), Cmp::Some => o is Some, Cmp::None => o is None, Cmp::Unmatchable => false } }
pub open spec fn s_cmp32(c: Cmp<u32>, o: Option<nat>) -> bool { match c { Cmp::Any => true, Cmp::Is(v) => o == Some(v as nat), Cmp::Some => o is Some, Cmp::None => o is None, Cmp::Unmatchable => false } }
pub open spec fn s_blank(s: Selector) -> bool { s.elementtype is Any && s.contexttype is Any && s.set is Any && s.class is Any && s.processor is Any && s.subset is Any && s.confidence is Any && s.annotator is Any && s.annotatortype is Any }
pub open spec fn s_blank_query(s: Query) -> bool { s.elementtype is Any && s.contexttype is Any && s.class is Any && s.processor is Any && s.subset is Any && s.confidence is Any && s.annotator is Any && s.annotatortype is Any }
pub open spec fn s_confidence(e: ElementData) -> Option<f64> { match s_first(e.attribs@, |a: Attribute| a is Confidence) { Some(i) => Some(e.attribs@[i]->Confidence_0), None => None } }
pub open spec fn s_read_annotator(d: Option<Document>, e: ElementData) -> Option<Seq<char>> { match s_read_proc(d, e) { Some(x) => Some(x.name@), None => match s_fval(e.attribs@, |a: Attribute| a is Annotator) { Some(a) => Some(a->Annotator_0@), None => None } } }
pub open spec fn s_read_annotatortype(d: Option<Document>, e: ElementData) -> Option<ProcessorType> { match s_read_proc(d, e) { Some(x) => Some(x.processortype), None => match s_fval(e.attribs@, |a: Attribute| a is AnnotatorType) { Some(a) => Some(a->AnnotatorType_0), None => None } } }
pub open spec fn s_group_matches(c: Cmp<ElementGroup>, t: ElementType) -> bool { match c { Cmp::Is(g) => s_in_group(g, t), Cmp::Any => true, Cmp::Some => true, _ => false } }
// an element satisfies every criterion of a selector
pub open spec fn s_el_matches(d: Document, s: Selector, e: ElementData) -> bool {
    &&& s_group_matches(s.elementgroup, e.elementtype)
    &&& s_cmp(s.elementtype, Some(e.elementtype))
    &&& s_cmp16(s.set, s_encv(e, AttribType::SET))
    &&& s_cmp16(s.subset, s_encv(e, AttribType::SUBSET))
    &&& s_cmp32(s.class, s_encv(e, AttribType::CLASS))
    &&& s_cmp16(s.processor, s_encv(e, AttribType::PROCESSOR))
    &&& s_cmp(s.confidence, s_confidence(e))
    &&& s_cmp_str(s.annotator, s_read_annotator(Some(d), e))
    &&& s_cmp(s.annotatortype, s_read_annotatortype(Some(d), e))
}
pub open spec fn s_kind(s: Selector, k: DataTypeSelector) -> bool { s.datatypes@.contains(k) }
// a data item matches a selector or one it is in a union with
pub open spec fn s_matches(d: Document, s: Selector, item: DataType) -> bool
    decreases s
{
    s_matches_one(d, s, item) || match s.next { Some(n) => s_matches(d, *n, item), None => false }
}
pub open spec fn s_matches_one(d: Document, s: Selector, item: DataType) -> bool {
    match item {
        DataType::Element(k) => (s.datatypes@.len() == 0 || s_kind(s, DataTypeSelector::Elements)) && match s_elem(d, k as int) { Some(e) => s_el_matches(d, s, e), None => false },
        DataType::SpanReference(k) => (s.datatypes@.len() == 0 || s_kind(s, DataTypeSelector::Elements)) && match s_elem(d, k as int) { Some(e) => s_el_matches(d, s, e), None => false },
        DataType::Text(_) => s_kind(s, DataTypeSelector::Text),
        DataType::Comment(_) => s_kind(s, DataTypeSelector::Comments),
        DataType::AddElement(_) => false,
    }
}
// there is a selector in the union that does not refer to what is not there
pub open spec fn s_matchable(s: Selector) -> bool
    decreases s
{
    !(s.set is Unmatchable || s.class is Unmatchable || s.processor is Unmatchable) || match s.next { Some(n) => s_matchable(*n), None => false }
}
// the union of the selectors of s, and t
pub open spec fn s_united(s: Selector, t: Selector, r: Selector) -> bool
    decreases s
{
    r == Selector { next: r.next, ..s } && match s.next { Some(n) => r.next is Some && s_united(*n, t, *r.next->0), None => r.next == Some(Box::new(t)) }
}
// elements of a document are encoded
pub open spec fn s_all_encoded(d: Document) -> bool { forall|i: int| 0 <= i < s_elems(d).len() && (#[trigger] s_elems(d)[i]) is Some ==> s_none_encodable(s_elems(d)[i]->0.attribs@) }
// what a query is compiled to
// a query for features: what it says of the set and the class is about the annotation they are in
pub open spec fn s_feature(q: Query) -> bool { q.subset is Some || q.subset is Is || (q.elementtype == Cmp::Is(ElementType::Feature) && q.contexttype is Is) }
pub open spec fn s_source(q: Query) -> Cmp<ElementType> { if s_feature(q) { q.contexttype } else { q.elementtype } }
// asking for a subset takes saying what it is a subset in
pub open spec fn s_names_set(q: Query) -> bool { q.set is Is || q.set is None }
pub open spec fn s_vague(q: Query) -> bool { q.subset is Is && !(s_names_set(q) && s_source(q) is Is) }
pub open spec fn s_find_dec(d: Document, c: Cmp<ElementType>, set: Option<Seq<char>>) -> Option<DecKey> {
    match c { Cmp::Is(t) => match s_el_at(t) { Some(at) => s_lookup(d.declarationstore.index@, s_dec_id(at, set)), None => None }, _ => None }
}
pub open spec fn s_key_cmp<K: Debug>(k: Option<K>) -> Cmp<K> { match k { Some(k) => Cmp::Is(k), None => Cmp::Unmatchable } }
pub open spec fn s_sel_set(d: Document, q: Query) -> Cmp<DecKey> {
    match q.set { Cmp::Is(set) => s_key_cmp(s_find_dec(d, s_source(q), Some(set@))), Cmp::None => s_key_cmp(s_find_dec(d, s_source(q), None)), Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::Unmatchable => Cmp::Unmatchable }
}
pub open spec fn s_sel_dec(d: Document, q: Query) -> Option<Declaration> { match s_sel_set(d, q) { Cmp::Is(k) => s_dec(d, k as int), _ => None } }
pub open spec fn s_sel_subset(d: Document, q: Query) -> Cmp<SubsetKey> {
    match q.subset { Cmp::Is(x) => s_key_cmp(match s_sel_dec(d, q) { Some(dec) => ss_lookup(s_index2(dec.subsets), x@), None => None }), Cmp::None => Cmp::None, Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::Unmatchable => Cmp::Unmatchable }
}
pub open spec fn s_sel_class(d: Document, q: Query) -> Cmp<ClassKey> {
    match q.class {
        Cmp::Is(x) => s_key_cmp(match s_sel_dec(d, q) { Some(dec) => if s_feature(q) { ss_lookup(s_index1(dec.subclasses), x@) } else { ss_lookup(s_index1(dec.classes), x@) }, None => None }),
        Cmp::None => Cmp::None, Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::Unmatchable => Cmp::Unmatchable }
}
pub open spec fn s_sel_processor(d: Document, q: Query) -> Cmp<ProcKey> {
    match q.processor { Cmp::Is(x) => s_key_cmp(s_lookup(d.provenancestore.index@, x@)), Cmp::None => Cmp::None, Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::Unmatchable => Cmp::Unmatchable }
}
pub open spec fn s_compiled(d: Document, q: Query, s: Selector) -> bool {
    s.set == s_sel_set(d, q) && s.subset == s_sel_subset(d, q) && s.class == s_sel_class(d, q) && s.processor == s_sel_processor(d, q)
            && s.elementtype == q.elementtype && s.elementgroup == q.elementgroup && s.contexttype == q.contexttype && s.confidence == q.confidence && s.annotator == q.annotator && s.annotatortype == q.annotatortype
            && s.datatypes@ == seq![DataTypeSelector::Elements] && s.next is None && !s_vague(q)
}
