//# include matching_spec.inc
impl<T> Cmp<T> where T: PartialEq, T: Debug {
//# fn src/query.rs Cmp::matches
//# ret r
//# spec
    ensures T::obeys_eq_spec() ==> r == s_cmp(*self, v_ref(other))
//# endfn
}
impl ElementData {
//# fn src/element.rs ElementData::confidence
//# ret r
//# spec
    ensures r == s_confidence(*self)
//# ghost start
    proof { lemma_first(self.attribs@, |a: Attribute| a is Confidence); }
//# loop 1 it
    invariant forall|j: int| 0 <= j < it.index() ==> !((#[trigger] self.attribs@[j]) is Confidence),
//# ghost loop 1 start
    assert(attrib == &self.attribs@[it.index()]);
//# endfn
}
impl Selector {
//# fn src/select.rs Selector::matches
//# ret r
//# spec
    requires s_all_encoded(*document)
    ensures r == s_matches(*document, *self, *item)
    decreases *self
//# ghost start
    broadcast use group_matching;
//# closure 1 |s: &str| -> (o: String) ensures o@ == s@
//# endfn
//# fn src/select.rs Selector::matchable
//# ret r
//# spec
    ensures r == s_matchable(*self)
    decreases *self
//# closure 1 |next: &Box<Selector>| -> (b: bool) requires self.next == Some(*next) ensures b == s_matchable(**next)
//# endfn
//# fn src/select.rs Selector::and
//# ret r
//# spec
    ensures s_united(self, selector, r)
    decreases self
//# endfn
//# fn src/select.rs Selector::with_elements
//# ret r
//# spec
    ensures r == (Selector { datatypes: r.datatypes, ..self }), r.datatypes@ == self.datatypes@.push(DataTypeSelector::Elements)
//# endfn
//# fn src/select.rs Selector::with_text
//# ret r
//# spec
    ensures r == (Selector { datatypes: r.datatypes, ..self }), r.datatypes@ == self.datatypes@.push(DataTypeSelector::Text)
//# endfn
//# fn src/select.rs Selector::with_comments
//# ret r
//# spec
    ensures r == (Selector { datatypes: r.datatypes, ..self }), r.datatypes@ == self.datatypes@.push(DataTypeSelector::Comments)
//# endfn
//# fn src/select.rs Selector::element
//# ret r
//# spec
    ensures r == (Selector { elementtype: value, ..self })
//# endfn
//# fn src/select.rs Selector::elementgroup
//# ret r
//# spec
    ensures r == (Selector { elementgroup: value, ..self })
//# endfn
//# fn src/select.rs Selector::elements
//# ret r
//# spec
    ensures s_blank(r) && r.elementgroup is Any && r.next is None && r.datatypes@ == seq![DataTypeSelector::Elements]
//# endfn
//# fn src/select.rs Selector::all_data
//# ret r
//# spec
    ensures s_blank(r) && r.elementgroup is Any && r.next is None && r.datatypes@ == seq![DataTypeSelector::Elements, DataTypeSelector::Text, DataTypeSelector::Comments]
//# endfn
//# fn src/select.rs Selector::from_query
//# ret r
//# spec
    requires s_doc_inv(*document)
    ensures match r {
        Ok(s) => s_compiled(*document, *query, s),
        Err(_) => s_vague(*query) }
//# ghost tail
    assert(selector.datatypes@ =~= seq![DataTypeSelector::Elements]);
//# endfn
}
impl Query {
//# fn src/query.rs Query::select
//# ret r
//# spec
    ensures s_blank_query(r) && r.elementgroup is Any && r.set is Any
//# endfn
//# fn src/query.rs Query::element
//# ret r
//# spec
    ensures r == (Query { elementtype: value, ..self })
//# endfn
//# fn src/query.rs Query::contexttype
//# ret r
//# spec
    ensures r == (Query { contexttype: value, ..self })
//# endfn
//# fn src/query.rs Query::elementgroup
//# ret r
//# spec
    ensures r == (Query { elementgroup: value, ..self })
//# endfn
//# fn src/query.rs Query::set
//# ret r
//# spec
    ensures r == (Query { set: value, ..self })
//# endfn
//# fn src/query.rs Query::class
//# ret r
//# spec
    ensures r == (Query { class: value, ..self })
//# endfn
//# fn src/query.rs Query::processor
//# ret r
//# spec
    ensures r == (Query { processor: value, ..self })
//# endfn
//# fn src/query.rs Query::annotator
//# ret r
//# spec
    ensures r == (Query { annotator: value, ..self })
//# endfn
//# fn src/query.rs Query::annotatortype
//# ret r
//# spec
    ensures r == (Query { annotatortype: value, ..self })
//# endfn
//# fn src/query.rs Query::subset
//# ret r
//# spec
    ensures r == (Query { subset: value, ..self })
//# endfn
//# fn src/query.rs Query::confidence
//# ret r
//# spec
    ensures r == (Query { confidence: value, ..self })
//# endfn
}
