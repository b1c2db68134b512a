// C07 as consequences of the contracts: what a compiled query matches, in terms of what was asked and what an element reads back as.
pub open spec fn s_string_eq(c: Cmp<String>, o: Option<Seq<char>>) -> bool { s_cmp_str(c, o) }
// being in a declaration that was asked for
pub open spec fn s_asks_set(d: Document, q: Query, e: ElementData) -> bool {
    match q.set {
        Cmp::Any => true, Cmp::Some => s_encv(e, AttribType::SET) is Some, Cmp::Unmatchable => false,
        Cmp::Is(x) => s_in_set(d, q, e, Some(x@)),
        Cmp::None => s_in_set(d, q, e, None),
    }
}
pub open spec fn s_in_set(d: Document, q: Query, e: ElementData, set: Option<Seq<char>>) -> bool {
    s_source(q) is Is && s_el_at(s_source(q)->0) is Some && match s_read_dec(Some(d), e) { Some(dec) => dec.annotationtype == s_el_at(s_source(q)->0)->0 && s_opt(dec.set) == set, None => false }
}
// an element satisfies every criterion of the query
pub open spec fn s_asks(d: Document, q: Query, e: ElementData) -> bool {
    &&& s_group_matches(q.elementgroup, e.elementtype)
    &&& s_cmp(q.elementtype, Some(e.elementtype))
    &&& s_asks_set(d, q, e)
    &&& match q.subset { Cmp::Any => true, Cmp::Some => s_encv(e, AttribType::SUBSET) is Some, Cmp::None => s_encv(e, AttribType::SUBSET) is None, Cmp::Unmatchable => false, Cmp::Is(x) => s_read_subset(Some(d), e) == Some(x@) }
    &&& match q.class { Cmp::Any => true, Cmp::Some => s_encv(e, AttribType::CLASS) is Some, Cmp::None => s_encv(e, AttribType::CLASS) is None, Cmp::Unmatchable => false, Cmp::Is(x) => s_names_set(q) && s_read_class(Some(d), e) == Some(x@) }
    &&& match q.processor { Cmp::Any => true, Cmp::Some => s_encv(e, AttribType::PROCESSOR) is Some, Cmp::None => s_encv(e, AttribType::PROCESSOR) is None, Cmp::Unmatchable => false, Cmp::Is(x) => s_read_processor(Some(d), e) == Some(x@) }
    &&& s_cmp(q.confidence, s_confidence(e))
    &&& s_cmp_str(q.annotator, s_read_annotator(Some(d), e))
    &&& s_cmp(q.annotatortype, s_read_annotatortype(Some(d), e))
}
proof fn c07_set(d: Document, q: Query, e: ElementData)
    requires s_doc_inv(d)
    ensures s_cmp16(s_sel_set(d, q), s_encv(e, AttribType::SET)) == s_asks_set(d, q, e),
        s_sel_set(d, q) is Is ==> s_names_set(q) && s_sel_dec(d, q) is Some && (s_asks_set(d, q, e) ==> s_read_dec(Some(d), e) == s_sel_dec(d, q) && s_encv(e, AttribType::SET) == Some(s_sel_set(d, q)->0 as nat)),
{
    lemma_key_laws(); lemma_decs_len(d);
    let set = match q.set { Cmp::Is(x) => Some(x@), _ => None };
    if s_names_set(q) && s_source(q) is Is && s_el_at(s_source(q)->0) is Some {
        let at = s_el_at(s_source(q)->0)->0;
        if s_lookup(d.declarationstore.index@, s_dec_id(at, set)) is Some { c09_found(d, at, set); let k = s_lookup(d.declarationstore.index@, s_dec_id(at, set))->0; assert(s_decs(d)[k as int] is Some); }
        if let Some(n) = s_encv(e, AttribType::SET) { if let Some(dec) = s_dec(d, n as int) {
            if dec.annotationtype == at && s_opt(dec.set) == set { assert(s_decs(d)[n as int] is Some); assert(dec.s_id() == Some(s_dec_id(at, set))); }
        } }
    }
}
// keys of strings and strings
proof fn c07_key<K>(items: Seq<Option<String>>, index: Map<String, K>, s: Seq<char>, k: nat) where usize: TryFrom<K>
    requires ss_inv(items, index), forall|k: K| 0 <= #[trigger] s_idx(k)
    ensures (ss_get(items, k as int) == Some(s)) == (ss_lookup(index, s) is Some && s_idx(ss_lookup(index, s)->0) == k)
{
    assert(string_of(s)@ == s);
    if ss_lookup(index, s) is Some { assert(items[s_idx(index[string_of(s)])] == Some(string_of(s))); }
    if ss_get(items, k as int) == Some(s) { assert(items[k as int] is Some); assert(items[k as int]->0@ == s); assert(items[k as int]->0 == string_of(s)); }
}
// A compiled query matches an element if and only if it satisfies every criterion.
proof fn c07_query(d: Document, q: Query, s: Selector, k: ElementKey, e: ElementData)
    requires s_doc_inv(d), s_all_encoded(d), s_compiled(d, q, s), s_elem(d, k as int) == Some(e),
        q.class is Is && q.subset is Any ==> (s_feature(q) <==> s_encv(e, AttribType::SUBSET) is Some), q.class is Is && q.subset is None ==> !s_feature(q),   // features have subsets and nothing else has; asking for their class takes asking for features
    ensures s_matches(d, s, DataType::Element(k)) == s_asks(d, q, e), s_matches(d, s, DataType::SpanReference(k)) == s_asks(d, q, e)
{
    lemma_key_laws(); lemma_decs_len(d);
    c07_set(d, q, e);
    assert(s.datatypes@.contains(DataTypeSelector::Elements)) by { assert(s.datatypes@[0] == DataTypeSelector::Elements); }
    if s_sel_set(d, q) is Is && s_asks_set(d, q, e) {
        let dec = s_sel_dec(d, q)->0;
        let n = s_sel_set(d, q)->0 as int;
        assert(s_decs(d)[n] is Some); assert(s_dec_ok(dec));
        if let Cmp::Is(x) = q.subset {
            if let Some(m) = s_encv(e, AttribType::SUBSET) { if let Some(st) = dec.subsets { c07_key::<SubsetKey>(st.items@, st.index@, x@, m); } else { assert(s_index2(dec.subsets) =~= Map::empty()); } }
        }
        if let Cmp::Is(x) = q.class {
            if let Some(m) = s_encv(e, AttribType::CLASS) {
                if let Some(st) = dec.subclasses { c07_key::<ClassKey>(st.items@, st.index@, x@, m); }
                if let Some(st) = dec.classes { c07_key::<ClassKey>(st.items@, st.index@, x@, m); }
            }
        }
    }
    if let Cmp::Is(x) = q.processor { c07_processor(d, e, x@); }
}
proof fn c07_processor(d: Document, e: ElementData, id: Seq<char>)
    requires s_doc_inv(d)
    ensures s_cmp16(s_key_cmp(s_lookup(d.provenancestore.index@, id)), s_encv(e, AttribType::PROCESSOR)) == (s_read_processor(Some(d), e) == Some(id))
{
    lemma_key_laws();
    assert(string_of(id)@ == id);
    if let Some(n) = s_encv(e, AttribType::PROCESSOR) { if let Some(p) = s_proc(d, n as int) { assert(s_procs(d)[n as int] is Some); } }
    if let Some(k) = s_lookup(d.provenancestore.index@, id) { assert(s_procs(d)[k as int] is Some && s_procs(d)[k as int]->0.s_id() == Some(id)); }
}
