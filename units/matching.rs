//# properties C07
//# covers C07: compiling queries to selectors, unions of selectors and matching (complete)
//# include core.inc
verus! {
//# include matching_lemmas.inc
// A reference to something the document does not contain matches nothing.
proof fn c07_missing(d: Document, q: Query, s: Selector, item: DataType)
    requires s_doc_inv(d), s_compiled(d, q, s),
        (s_names_set(q) && (s_source(q) is Is ==> s_el_at(s_source(q)->0) is None || s_lookup(d.declarationstore.index@, s_dec_id(s_el_at(s_source(q)->0)->0, match q.set { Cmp::Is(x) => Some(x@), _ => None })) is None))
        || (q.processor is Is && s_lookup(d.provenancestore.index@, q.processor->0@) is None)
        || (q.class is Is && (s_sel_dec(d, q) is None || (ss_lookup(s_index1(s_sel_dec(d, q)->0.classes), q.class->0@) is None && ss_lookup(s_index1(s_sel_dec(d, q)->0.subclasses), q.class->0@) is None)))
        || (q.subset is Is && (s_sel_dec(d, q) is None || ss_lookup(s_index2(s_sel_dec(d, q)->0.subsets), q.subset->0@) is None))
    ensures !s_matches(d, s, item)
{
    assert(!s.datatypes@.contains(DataTypeSelector::Text) && !s.datatypes@.contains(DataTypeSelector::Comments));
}
// A union matches if and only if one of its parts does.
proof fn c07_union(d: Document, s: Selector, t: Selector, r: Selector, item: DataType)
    requires s_united(s, t, r)
    ensures s_matches(d, r, item) == (s_matches(d, s, item) || s_matches(d, t, item)), s_matchable(r) == (s_matchable(s) || s_matchable(t))
    decreases s
{
    assert(s_matches_one(d, r, item) == s_matches_one(d, s, item));
    if let Some(n) = s.next { c07_union(d, *n, t, *r.next->0, item); }
}
// What is not matchable matches no element.
proof fn c07_unmatchable(d: Document, s: Selector, k: ElementKey)
    requires !s_matchable(s)
    ensures !s_matches(d, s, DataType::Element(k)), !s_matches(d, s, DataType::SpanReference(k))
    decreases s
{ if let Some(n) = s.next { c07_unmatchable(d, *n, k); } }
// as a caller sees it
fn c07_client(d: &Document, q: Query, p: Query, key: ElementKey) -> (r: bool)
    requires s_doc_inv(*d), s_all_encoded(*d), s_elem(*d, key as int) is Some, (q.subset is Any || q.subset is None ==> q.class is Any), (p.subset is Any || p.subset is None ==> p.class is Any)
    ensures true
{
    let ghost e = s_elem(*d, key as int)->0;
    match (Selector::from_query(d, &q), Selector::from_query(d, &p)) {
        (Ok(a), Ok(b)) => {
            proof { c07_query(*d, q, a, key, e); c07_query(*d, p, b, key, e); }
            let ghost a0 = a; let ghost b0 = b;
            let u = a.and(b);
            proof { c07_union(*d, a0, b0, u, DataType::Element(key)); }
            let r = u.matches(d, &DataType::Element(key));
            assert(r == (s_asks(*d, q, e) || s_asks(*d, p, e)));
            r
        }
        _ => false
    }
}
}
fn main() {}
