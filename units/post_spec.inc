// What happens to an element once it is where it belongs: references are answered, and layers get the set of their spans.
pub open spec fn s_is_span(d: Document, k: int) -> bool { s_elem(d, k) is Some && s_in_group(ElementGroup::Span, s_elem(d, k)->0.elementtype) }
// the ID an element refers to
pub open spec fn s_idref(a: Seq<Attribute>) -> Option<Seq<char>>
    decreases a.len()
{
    if a.len() == 0 { None } else if let Attribute::Idref(x) = a.last() { Some(x@) } else { s_idref(a.drop_last()) }
}
// what it refers to
pub open spec fn s_target(d: Document, k: int) -> Option<int> {
    match s_elem(d, k) { Some(e) => match s_idref(e.attribs@) { Some(id) => match s_lookup(d.elementstore.index@, id) { Some(x) => Some(x as int), None => None }, None => None }, None => None }
}
// the nearest span annotation above
pub open spec fn s_span_above(d: Document, k: int) -> Option<int>
    decreases t_depth(s_elems(d), k) when s_good(d) via s_span_above_ends
{
    match t_parent(s_elems(d), k) { None => None, Some(p) => if s_is_span(d, p) { Some(p) } else { s_span_above(d, p) } }
}
#[via_fn]
proof fn s_span_above_ends(d: Document, k: int) { reveal(s_good); if let Some(p) = t_parent(s_elems(d), k) { assert(0 <= k < s_elems(d).len()); lemma_t_height(s_elems(d), p, k); } }
// the same while reading: the last span annotation that was opened and not closed
pub open spec fn s_span_in(d: Document, stack: Seq<ElementKey>) -> Option<int>
    decreases stack.len()
{
    if stack.len() == 0 { None } else if s_is_span(d, stack.last() as int) { Some(stack.last() as int) } else { s_span_in(d, stack.drop_last()) }
}
// the span annotation a reference is part of
pub open spec fn s_span_for(d: Document, k: int, stack: Option<Seq<ElementKey>>) -> Option<int> { match stack { Some(v) => s_span_in(d, v), None => s_span_above(d, k) } }
// a span annotation of the kind of a layer, in a declaration
pub open spec fn s_fits(d: Document, t: ElementType, item: DataType) -> bool {
    s_is_el(item) && s_is_span(d, s_el_of(item)) && s_el_at(s_elem(d, s_el_of(item))->0.elementtype) == s_el_at(t) && s_encv(s_elem(d, s_el_of(item))->0, AttribType::SET) is Some
}
pub open spec fn s_first_fit(d: Document, t: ElementType, w: Seq<Spot>, n: int) -> bool { 0 <= n < w.len() && s_fits(d, t, s_item(d, w[n])) && forall|i: int| 0 <= i < n ==> !s_fits(d, t, s_item(d, #[trigger] w[i])) }
// everything but the elements is the same, and so are all elements but k
pub open spec fn s_just(d: Document, d2: Document, k: int) -> bool {
    s_but_elems(d2) == s_but_elems(d) && d2.elementstore.index@ == d.elementstore.index@ && s_elems(d2).len() == s_elems(d).len() && 0 <= k < s_elems(d).len() && forall|i: int| 0 <= i < s_elems(d).len() && i != k ==> #[trigger] s_elems(d2)[i] == s_elems(d)[i]
}
pub open spec fn s_same_doc(d: Document, d2: Document) -> bool { s_but_elems(d2) == s_but_elems(d) && d2.elementstore.index@ == d.elementstore.index@ && s_elems(d2) == s_elems(d) }
// x has been added to what element k consists of
pub open spec fn s_pushed(d: Document, d2: Document, k: int, x: DataType) -> bool {
    s_just(d, d2, k) && s_elem(d, k) is Some && s_elem(d2, k) is Some && s_same_but_data(s_elem(d, k)->0, s_elem(d2, k)->0) && s_elem(d2, k)->0.data@ == s_elem(d, k)->0.data@.push(x)
}
// a has been added to the attributes of element k
pub open spec fn s_attributed(d: Document, d2: Document, k: int, a: Attribute) -> bool {
    s_just(d, d2, k) && s_elem(d, k) is Some && s_elem(d2, k) is Some && s_rest_same(s_elem(d2, k)->0, s_elem(d, k)->0) && s_elem(d2, k)->0.attribs@ == s_elem(d, k)->0.attribs@.push(a)
}
pub open spec fn s_posted_wref(d: Document, k: int, stack: Option<Seq<ElementKey>>, d2: Document, r: Result<(), FoliaError>) -> bool {
    match (s_target(d, k), s_span_for(d, k, stack)) { (Some(x), Some(s)) => r is Ok && s_pushed(d, d2, x, DataType::SpanReference(s as ElementKey)), _ => r is Err && s_same_doc(d, d2) }
}
pub open spec fn s_posted_layer(d: Document, k: int, t: ElementType, d2: Document, r: Result<(), FoliaError>) -> bool {
    let w = s_walk(d, Recursion::Always, k, 0, 1);
    r is Ok && ((exists|n: int| #[trigger] s_first_fit(d, t, w, n) && s_attributed(d, d2, k, Attribute::DeclarationRef(s_encv(s_elem(d, s_el_of(s_item(d, w[n])))->0, AttribType::SET)->0 as DecKey)))
        || ((forall|n: int| 0 <= n < w.len() ==> !s_fits(d, t, s_item(d, #[trigger] w[n]))) && s_same_doc(d, d2)))
}
#[verifier::opaque]
pub open spec fn s_posted(d: Document, k: int, stack: Option<Seq<ElementKey>>, d2: Document, r: Result<(), FoliaError>) -> bool {
    match s_elem(d, k) {
        None => r is Err && s_same_doc(d, d2),
        Some(e) => if e.elementtype is WordReference { s_posted_wref(d, k, stack, d2, r) }
            else if s_in_group(ElementGroup::Layer, e.elementtype) && s_find(e.attribs@, AttribType::SET) is None { s_posted_layer(d, k, e.elementtype, d2, r) }
            else { r is Ok && s_same_doc(d, d2) },
    }
}
